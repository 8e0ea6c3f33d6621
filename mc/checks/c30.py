"""Search over histories of contexts on the real key and item stores: a history builds contexts one after the other (or next to each
other) on the same directory, with every source of keys, with and without an entity id, for one or two issuers, and stores items and
foreign keys in between. After every step the keys of the current context, its items, and those of a context built only to look are
compared with a model, and every configuration with a copy made before."""
import copy
import itertools
import json
import os
import shutil

from mc import kit, target

TECHNIQUE = 'explicit-state search over restart histories of real contexts on real stores, compared with a reference model after every step'
LEVEL = 'model_checking'
BOUNDS = {'quick': '8 store configurations x all histories of <= 3 events (6 key sources x entity id or not, foreign keys, items, a second issuer), 16-19 events each',
          'thorough': 'all histories of <= 4 events'}
FLOOR = {'quick': 20000, 'thorough': 200000}

E1, E2, PEER = 'https://example.com', 'https://example.com/other', 'https://peer.example.org/a?b=c'
KEYDEF = [{'type': 'EC', 'crv': 'P-256', 'use': ['sig']}, {'type': 'EC', 'crv': 'P-384', 'use': ['enc']}]
KEYDEF2 = [{'type': 'EC', 'crv': 'P-521', 'use': ['sig', 'enc']}]
KI = 'cryptojwt.serialize.item.KeyIssuer'
JS = 'oidcmsg.storage.converter.JSON'
AFS = 'oidcmsg.storage.abfile.AbstractFileSystem'
LAFS = 'oidcmsg.storage.abfile.LabeledAbstractFileSystem'
LD = 'oidcmsg.storage.extension.LabeledDict'
ITEMS = [('seed', 'såd'), ('https://x/y?z', {'a': [1, None, 'å'], 'b': {}}), ('n', 0), ('', 'empty name'), ('none', None), ('m', 'MESSAGE'), ('n', [1])]


def stores(base):
    """kind -> (db_conf, keys persistent, items persistent, separate for every issuer)"""
    j = os.path.join
    return {
        'none': (None, False, False, False),
        'empty': ({}, False, False, False),
        'files': ({'keyjar': {'handler': AFS, 'fdir': j(base, 'd', 'k'), 'key_conv': 'oidcmsg.storage.converter.QPKey', 'value_conv': KI},
                   'default': {'handler': AFS, 'fdir': j(base, 'd'), 'value_conv': JS}}, True, True, False),
        'keys only': ({'keyjar': {'handler': AFS, 'fdir': j(base, 'd'), 'value_conv': KI}}, True, False, False),
        'labelled': ({'keyjar': {'handler': LAFS, 'fdir': j(base, 'd'), 'value_conv': KI, 'label': 'keys'},
                      'default': {'handler': LAFS, 'fdir': j(base, 'e'), 'value_conv': JS, 'label': 'keys'}}, True, True, False),
        'issuers': ({'keyjar': {'handler': AFS, 'fdir': j(base, '{issuer}', 'k'), 'value_conv': KI},
                     'default': {'handler': LAFS, 'fdir': j(base, 'items_{issuer}'), 'value_conv': JS, 'label': 'x'}, 'abstract_storage_cls': 'ignored'}, True, True, True),
        'items only': ({'keyjar': {'handler': LD, 'label': 'keyjar'}, 'default': {'handler': AFS, 'fdir': j(base, 'd'), 'value_conv': JS}}, False, True, False),
        'memory': ({'keyjar': {'handler': LD}, 'default': {'handler': LD, 'label': 'y'}}, False, False, False),
    }


KINDS = ['none', 'empty', 'files', 'keys only', 'labelled', 'issuers', 'items only', 'memory']
SOURCES = ['nothing', 'defs', 'defs2', 'jwks', 'jwks2', 'path']


def events(kind, tier):
    two = kind == 'issuers'
    res = []
    for src in SOURCES:
        for ent in (True, False):
            if tier != 'thorough' and (src == 'defs2' and ent or src in ('jwks2', 'path') and not ent):
                continue
            for iss in ((0, 1) if two and src in ('nothing', 'defs', 'jwks') else (0,)):
                res.append(('build', src, ent, iss))
    res += [('peer', 'ec_rp'), ('peer', 'oct_rp')]
    res += [('item', n) for n in range(len(ITEMS)) if tier == 'thorough' or n != 3]
    return res


def shards(tier):
    # a history starts with a context
    return [(k, n) for k in KINDS for n, e in enumerate(events(k, tier)) if e[0] == 'build']


def jwks(names):
    ks = []
    for n in names:
        for k in kit.raw_keys()[n] if isinstance(kit.raw_keys()[n], list) else [kit.raw_keys()[n]]:
            ks.append(k)
    return {'keys': copy.deepcopy(ks)}


def canon_key(d):
    return json.dumps({k: v for k, v in d.items() if v}, sort_keys=True)


def keys_of(jar, owner):
    try:
        ks = jar.get_issuer_keys(owner)
    except Exception as e:
        if type(e).__name__ == 'IssuerNotFound':
            return []
        raise
    return sorted(canon_key(k.serialize(private=True)) for k in ks)


class World:
    def __init__(self, base, kind, rsa=False):
        self.base = os.path.join(base, 'w')
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.base)
        self.kind = kind
        self.db, self.pk, self.pi, self.sep = stores(os.path.join(self.base, 'db'))[kind]
        self.keys = {}       # issuer -> owner -> keys   (what is stored)
        self.items = {}
        self.ctx = None
        self.iss = 0
        self.path_keys = None
        self.rsa = rsa

    def config(self, src, iss):
        conf = {'issuer': [E1, E2][iss]}
        if self.db is not None:
            conf['db_conf'] = copy.deepcopy(self.db)
        if src in ('defs', 'defs2'):
            conf['keys'] = {'key_defs': copy.deepcopy(KEYDEF if src == 'defs' else KEYDEF2), 'uri_path': 'static/jwks.json'}
        elif src == 'path':
            conf['keys'] = {'key_defs': copy.deepcopy(KEYDEF), 'private_path': os.path.join(self.base, 'private.json'),
                            'public_path': os.path.join(self.base, 'public.json'), 'read_only': False}
        elif src in ('jwks', 'jwks2'):
            conf['jwks'] = jwks(['ec_op', 'oct_op'] if src == 'jwks' else ['rsa_op' if self.rsa else 'ec384_op'])
        return conf

    def apply(self, ev):
        """None or what is wrong"""
        from oidcmsg.context import OidcContext
        if ev[0] == 'build':
            _, src, ent, iss = ev
            conf = self.config(src, iss)
            before = copy.deepcopy(conf)
            own_id = [E1, E2][iss]
            self.ctx = OidcContext(conf, entity_id=own_id if ent else '')
            self.iss = iss if self.sep else 0
            if conf != before:
                return 'building a context changed its configuration from %r to %r' % (before, conf)
            if not self.pk:
                self.keys = {}
            if not self.pi:
                self.items = {}
            mine = self.keys.setdefault(self.iss, {})
            self.items.setdefault(self.iss, {})
            got = keys_of(self.ctx.keyjar, '')
            if src in ('jwks', 'jwks2'):
                mine[''] = sorted(canon_key(k) for k in conf['jwks']['keys'])
            elif src in ('defs', 'defs2', 'path'):
                bad = self.as_defined(got, KEYDEF2 if src == 'defs2' else KEYDEF)
                if bad:
                    return bad
                if src == 'path':
                    if self.path_keys is not None and self.path_keys != got:
                        return 'the keys in the file are not used again'
                    self.path_keys = got
                elif mine.get('') and set(got) & set(mine['']):
                    return 'new keys were to be made'
                mine[''] = got
            if ent and mine.get(''):
                mine[own_id] = mine['']
            return None
        if ev[0] == 'peer':
            j = jwks([ev[1]])
            self.ctx.keyjar.import_jwks(copy.deepcopy(j), PEER)
            p = self.keys[self.iss]
            p[PEER] = sorted(p.get(PEER, []) + [canon_key(k) for k in j['keys']])
            return None
        name, value = ITEMS[ev[1]]
        if value == 'MESSAGE':
            from oidcmsg.oidc import RegistrationResponse
            m = RegistrationResponse(client_id='x', redirect_uris=['https://rp/cb'], client_secret_expires_at=0, contacts=['å'])
            self.ctx.set(name, m)
            self.items[self.iss][name] = {'client_id': 'x', 'redirect_uris': ['https://rp/cb'], 'client_secret_expires_at': 0, 'contacts': ['å'],
                                          'application_type': 'web', 'response_types': ['code']}
            plain = m.to_dict()
            exp = self.items[self.iss][name]
            if plain != exp:      # what exactly the dictionary form is, is the matter of other properties
                self.items[self.iss][name] = plain
        else:
            self.ctx.set(name, copy.deepcopy(value))
            self.items[self.iss][name] = value
        return None

    @staticmethod
    def as_defined(got, defs):
        want = sorted((d['type'], d['crv'], u) for d in defs for u in d['use'])
        have = []
        for k in got:
            d = json.loads(k)
            if not d.get('d'):
                return 'key without its private part: %s' % k
            have.append((d['kty'], d['crv'], d.get('use')))
        if sorted(have) != want:
            return 'keys %r, configured were %r' % (sorted(have), want)
        return None

    def view(self, ctx, keys, items, how):
        jar = ctx.keyjar
        exp = {k: v for k, v in keys.items() if v}
        owners = sorted(jar.owners())
        if owners != sorted(exp):
            return '%s: key owners %r, expected %r' % (how, owners, sorted(exp))
        for o in ['', E1, E2, PEER]:
            got = keys_of(jar, o)
            if got != exp.get(o, []):
                return '%s: %d keys of %r (%r), expected %d (%r)' % (how, len(got), o, got, len(exp.get(o, [])), exp.get(o, []))
        for n, _ in ITEMS:
            try:
                got = ctx.get(n)
            except KeyError:
                got = None
            except TypeError:
                # the seed is turned into bytes
                if n == 'seed' and n not in items:
                    continue
                raise
            want = items.get(n)
            if n == 'seed' and want is not None:
                want = want.encode('utf-8')
            if type(got) is not type(want) or got != want:
                return '%s: item %r is %r, expected %r' % (how, n, got, want)
        return None

    def check(self):
        from oidcmsg.context import OidcContext
        k, i = self.keys.get(self.iss, {}), self.items.get(self.iss, {})
        bad = self.view(self.ctx, k, i, 'the context')
        if bad or not (self.pk or self.pi):
            return bad
        for iss in ((0, 1) if self.sep else (0,)):
            probe = OidcContext(self.config('nothing', iss), entity_id='')
            bad = self.view(probe, self.keys.get(iss, {}) if self.pk else {}, self.items.get(iss, {}) if self.pi else {}, 'a later context for %s' % [E1, E2][iss])
            if bad:
                return bad
        return None


def run(ck, shard):
    kind, first = shard
    sh = target.shim()
    evs = events(kind, ck.tier)
    with target.Scratch() as base:
        sh.root(base)
        sh.mtime(True)
        try:
            if first == 0:
                other(ck, base, kind)
            for n in range(0, 4 if ck.thorough else 3):
                # items do not depend on keys: the last two events are not both items
                for tail in itertools.product(range(len(evs)), repeat=n):
                    if sum(evs[t][0] != 'build' for t in tail) > 2:
                        continue
                    hist = [evs[first]] + [evs[t] for t in tail]
                    history(ck, base, kind, hist)
        finally:
            sh.mtime(False)
            sh.root('')


def history(ck, base, kind, hist):
    ck.begin((kind, hist))
    w = World(base, kind, ck.thorough or len(hist) < 3)
    bad = None
    for ev in hist:
        try:
            bad = w.apply(ev)
        except Exception as e:
            bad = '%s: %s' % (type(e).__name__, e)
        ck.step()
        if bad:
            break
    if not bad:
        try:
            bad = w.check()
        except Exception as e:
            bad = '%s: %s' % (type(e).__name__, e)
    ck.case((kind, hist), '%s %s' % (hist[-1][0], sorted(len(v) for v in w.keys.get(w.iss, {}).values())))
    ck.expect(not bad, '%s: %s' % (kind, hist[-1][0]), bad)


ISSUERS = ['https://example.com', 'https://example.com/', 'https://example.com/a', 'https://example.com/b', 'https://example.com/a/', 'https://example.com/a/b',
           'https://example.com/a?x=1', 'https://example.com/a?x=2', 'https://example.com/a#f', 'http://example.com', 'https://example.com:8443',
           'https://Example.com', 'https://other.example.com', 'example.com', 'https://example.com/a+b', 'https://example.com/a b', 'https://example.com/a%20b',
           'https://example.com/\u00e5', '{issuer}', '..', '']


def apart(ck, base):
    """every two issuers that differ in any character keep their keys and items apart"""
    from oidcmsg.context import OidcContext
    for a, b in itertools.combinations([i for i in ISSUERS if i], 2):
        ck.begin(('apart', a, b))
        w = World(base, 'issuers')
        made = []
        try:
            for n, i in enumerate((a, b)):
                conf = dict(w.config('jwks2' if n else 'jwks', 0), issuer=i)
                c = OidcContext(conf, entity_id=i)
                c.set('seed', 'of ' + i)
                made.append(keys_of(c.keyjar, ''))
            ck.case(('apart', a, b), 'apart')
            for n, i in enumerate((a, b)):
                c = OidcContext(dict(w.config('nothing', 0), issuer=i))
                exp = sorted(canon_key(k) for k in w.config('jwks2' if n else 'jwks', 0)['jwks']['keys'])
                ck.expect(made[n] == exp and keys_of(c.keyjar, '') == exp and keys_of(c.keyjar, i) == exp, 'issuers apart: keys',
                          lambda: 'after contexts for %r and %r the one for %r holds %r' % (a, b, i, keys_of(c.keyjar, '')))
                ck.expect(sorted(c.keyjar.owners()) == sorted(['', i]), 'issuers apart: owners', lambda: 'owners %r' % sorted(c.keyjar.owners()))
                ck.expect(c.get('seed') == ('of ' + i).encode(), 'issuers apart: items', lambda: 'the item of %r is %r' % (i, c.get('seed')))
        except Exception as e:
            ck.fail('issuers apart', '%s: %s' % (type(e).__name__, e))


def other(ck, base, kind):
    """a given key jar is used as it is; boxes; no configuration at all"""
    from cryptojwt.key_jar import build_keyjar
    from oidcmsg.context import OidcContext
    from oidcmsg.oauth2 import AuthorizationRequest
    for ent in ('', E1):
        for src in SOURCES:
            ck.begin((kind, 'given jar', ent, src))
            w = World(base, kind)
            jar = build_keyjar(KEYDEF)
            have = keys_of(jar, '')
            conf = w.config(src, 0)
            before = copy.deepcopy(conf)
            c = OidcContext(conf, keyjar=jar, entity_id=ent)
            ck.case((kind, 'given jar', ent, src), 'given jar')
            ck.expect(c.keyjar is jar and keys_of(jar, '') == have and conf == before, '%s: given key jar' % kind, 'the given key jar is not used as it is')
    ck.begin((kind, 'boxes'))
    w = World(base, kind)
    c = OidcContext(w.config('nothing', 0))
    c.add_boxes({'client': 'clients'}, c.db_conf)
    c.clients['box item'] = 'a client'
    c2 = OidcContext(w.config('nothing', 0))
    c2.add_boxes({'client': 'clients'}, c2.db_conf)
    ck.case((kind, 'boxes'), 'boxes')
    ck.expect(c.clients.get('box item') == 'a client', '%s: boxes' % kind, 'a box lost its content')
    if w.pi:
        ck.expect(c2.clients.get('box item') == 'a client', '%s: boxes later' % kind, lambda: 'a box shows %r later' % (c2.clients.get('box item'),))
    else:
        ck.expect(c2.clients.get('box item') is None, '%s: boxes later' % kind, 'a box in memory is shared')
    ck.begin((kind, 'no configuration'))
    for c in (OidcContext(), OidcContext(None), OidcContext({})):
        ck.case((kind, 'nothing'), 'nothing')
        c.set('x', AuthorizationRequest(scope=['openid'], client_id='c', response_type='code'))
        ck.expect(c.get('x') == {'scope': 'openid', 'client_id': 'c', 'response_type': 'code'} and list(c.keyjar.owners()) == [], 'no configuration', lambda: 'context shows %r' % (c.get('x'),))
    # any message is kept as its dictionary, with or without content
    from oidcmsg.message import Message
    for m in (Message(), AuthorizationRequest(), Message(a='b'), Message(a=Message(), b=[Message(x=1)])):
        ck.begin((kind, 'message', m.to_dict()))
        w = World(base, kind)
        c = OidcContext(w.config('nothing', 0))
        c.set('m', m)
        got = [c.get('m')] + ([OidcContext(w.config('nothing', 0)).get('m')] if w.pi else [])
        ck.case((kind, 'message', repr(m.to_dict())), 'message')
        for g in got:
            ck.expect(type(g) is dict and g == m.to_dict() and type(g.get('a')) in (dict, str, type(None)), '%s: message' % kind, lambda: 'the message %r is %r (%s) in the context' % (m.to_dict(), g, type(g)))
    if kind == 'issuers':
        apart(ck, base)
    # a setting for the HTTP client reaches the key jar
    ck.expect(OidcContext({'httpc_params': {'verify': False}}).keyjar.httpc_params == {'verify': False}, 'httpc_params', 'HTTP parameters are not used')
