"""Every assignment of storage kinds to the sections of a storage configuration (default and two application boxes; absent, file
stores sharing or not sharing a directory, labelled, one directory per issuer, in-memory, SQL) x issuer, and for each all short
histories of setting, deleting and restarting, through the stores the context hands out. After every step what each store holds is
compared with a model in which a box is kept where its own section says, else where the default section says, else in private
memory. Incomplete and wrong configurations are enumerated too."""
import copy
import itertools
import os
import shutil

from mc import target
from mc.checks import c29
from mc.checks.c30 import AFS, E1, E2, JS, LAFS, LD
from mc.kit import ABSENT

TECHNIQUE = 'explicit-state search over store configurations and operation histories of real contexts with a reference model of where each box is kept'
LEVEL = 'model_checking'
BOUNDS = {'quick': '9 kinds for each of 3 sections x issuer or not x all histories of <= 2 of 12 events, 3 events for every twelfth configuration (every sixth with SQL: 2 events); 400 faulty configurations',
          'thorough': 'all histories of 3 events (2 with SQL)'}
FLOOR = {'quick': 20000, 'thorough': 200000}

SQL = 'oidcmsg.storage.absqlalchemy.AbstractStorageSQLAlchemy'
QP = 'oidcmsg.storage.converter.QPKey'
KINDS = ['absent', 'a', 'b', 'l1', 'l2', 'iss', 'isslab', 'mem', 'sql']
BOXES = ['default', 'one', 'two']
KEYS = ['k', 'https://x/y?z=1']


def section(kind, base, colon):
    def n(s):
        return ':'.join(s.rsplit('.', 1)) if colon else s
    j = os.path.join
    return {'a': {'handler': n(AFS), 'fdir': j(base, 'a'), 'key_conv': n(QP), 'value_conv': n(JS)},
            'b': {'handler': n(AFS), 'fdir': j(base, 'b', 'sub')},
            'l1': {'handler': n(LAFS), 'fdir': j(base, 'l'), 'value_conv': n(JS), 'label': 'one'},
            'l2': {'handler': n(LAFS), 'fdir': j(base, 'l'), 'value_conv': n(JS), 'label': 'default'},
            'iss': {'handler': n(AFS), 'fdir': j(base, 'i', '{issuer}'), 'value_conv': n(JS)},
            'isslab': {'handler': n(LAFS), 'fdir': j(base, 'i_{issuer}_x'), 'value_conv': n(JS), 'label': 'two'},
            'mem': {'handler': n(LD), 'label': 'one'},
            'sql': {'handler': n(SQL), 'url': 'sqlite:///%s?timeout=2' % j(base, 'db.sqlite'), 'params': {'table': 'thing'}}}[kind]


def shards(tier):
    return [('hist', d, o) for d in KINDS for o in KINDS] + [('faults',)]


def build(conf):
    from oidcmsg.context import OidcContext
    ctx = OidcContext(conf)
    ctx.add_boxes({'one': 'box_one', 'two': 'box_two'}, ctx.db_conf)
    return ctx


def store(ctx, box):
    return ctx.db if box == 'default' else getattr(ctx, 'box_' + box)


def shut(ctx):
    for b in BOXES:
        s = store(ctx, b)
        if type(s).__name__ == 'AbstractStorageSQLAlchemy':
            c29.shut(s)


class World:
    def __init__(self, base, kinds, with_issuer, n):
        self.base = os.path.join(base, 'w')
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.base)
        self.kinds = kinds
        self.issuers = [E1, E2] if with_issuer else [None]
        if 'sql' in kinds.values():
            shutil.copyfile(c29.template(base), os.path.join(self.base, 'db.sqlite'))
        self.conf = {'db_conf': {b: section(k, self.base, (n + i) % 2) for i, (b, k) in enumerate(kinds.items()) if k != 'absent'}}
        self.conf['db_conf']['abstract_storage_cls'] = 'ignored'
        self.held = {}       # where -> content
        self.no = 0
        self.ctx = None
        self.iss = 0
        self.n = 0
        self.start(0)

    def start(self, iss):
        if self.ctx is not None:
            shut(self.ctx)
        conf = copy.deepcopy(self.conf)
        if self.issuers[iss]:
            conf['issuer'] = self.issuers[iss]
        before = copy.deepcopy(conf)
        self.no += 1
        self.ctx = build(conf)
        self.iss = iss
        if conf != before:
            raise AssertionError('configuration changed from %r to %r' % (before, conf))

    def where(self, box):
        k = self.kinds[box]
        if k == 'absent':
            k = self.kinds['default']
        if k in ('absent', 'mem'):
            return 'memory', self.no, box
        return k, self.iss if k.startswith('iss') else 0

    def apply(self, ev):
        if ev[0] == 'start':
            self.start(ev[1])
            return
        s = store(self.ctx, ev[1])
        key = KEYS[ev[2]]
        h = self.held.setdefault(self.where(ev[1]), {})
        if ev[0] == 'set':
            self.n += 1
            h[key] = 'v%d' % self.n
            if self.n % 2 and ev[1] == 'default':
                self.ctx.set(key, h[key])
            else:
                s[key] = h[key]
        else:
            if key not in h:
                return
            del h[key]
            if hasattr(s, '__delitem__'):
                del s[key]
            else:
                s.delete(key)

    def view(self):
        for b in BOXES:
            s, h = store(self.ctx, b), self.held.get(self.where(b), {})
            for k in KEYS:
                if (k in s) != (k in h):
                    return '%r %s the store of box %s, which should hold %r' % (k, 'in' if k in s else 'not in', b, h)
                if s.get(k) != h.get(k):
                    return '%r is %r in the store of box %s, which should hold %r' % (k, s.get(k), b, h)
                if k in h and b == 'default' and self.ctx.get(k) != h[k]:
                    return '%r is %r in the context, expected %r' % (k, self.ctx.get(k), h[k])
            if hasattr(s, 'keys'):
                got = sorted(s.keys())
            else:
                got = sorted(r.owner for r in s())
            if got != sorted(h):
                return 'the store of box %s lists %r, expected %r' % (b, got, sorted(h))
        return None

    def places(self):
        """what somebody else finds there who knows the section, but nothing of contexts"""
        from oidcmsg.storage.abfile import AbstractFileSystem, LabeledAbstractFileSystem
        for b in BOXES:
            k = self.kinds[b] if self.kinds[b] != 'absent' else self.kinds['default']
            if k not in ('a', 'b', 'l1', 'l2'):
                continue
            h = self.held.get(self.where(b), {})
            s = (LabeledAbstractFileSystem if k in ('l1', 'l2') else AbstractFileSystem)(section(k, self.base, False))
            got = dict(s.items())
            if got != h:
                return 'the place of box %s holds %r, expected %r' % (b, got, h)
        return None


def events(two):
    return ([('set', b, k) for b in BOXES for k in (0, 1) if b != 'default' or k == 0] + [('del', b, 0) for b in BOXES]
            + [('start', i) for i in range(2 if two else 1)])


def run(ck, shard):
    sh = target.shim()
    with target.Scratch() as base:
        sh.root(base)
        sh.mtime(True)
        try:
            if shard[0] == 'faults':
                faults(ck, base)
                return
            for n, two in enumerate(KINDS):
                kinds = {'default': shard[1], 'one': shard[2], 'two': two}
                for with_issuer in (False, True):
                    total = n + KINDS.index(shard[1]) + KINDS.index(shard[2])
                    if not with_issuer and any(k.startswith('iss') for k in kinds.values()):
                        refused(ck, base, kinds, n)
                        continue
                    evs = events(with_issuer)
                    # opening an SQL store is expensive
                    sql = 'sql' in kinds.values()
                    if not ck.thorough and sql and (total + 3 * with_issuer) % 6:
                        continue
                    depth = 3 if (ck.thorough or total % 12 == 0 and with_issuer) and not sql else 2
                    for hist in itertools.product(evs, repeat=depth):
                        # something has to be there before it can go, and histories start with something to lose
                        if hist[0][0] != 'set':
                            continue
                        history(ck, base, kinds, with_issuer, hist, n)
        finally:
            sh.mtime(False)
            sh.root('')


def history(ck, base, kinds, with_issuer, hist, n):
    ck.begin((kinds, with_issuer, hist))
    w = None
    try:
        w = World(base, kinds, with_issuer, n)
        bad = w.view()
        for ev in hist:
            if bad:
                break
            w.apply(ev)
            ck.step()
            bad = w.view()
        bad = bad or w.places()
    except Exception as e:
        bad = '%s: %s' % (type(e).__name__, e)
    finally:
        if w is not None and w.ctx is not None:
            shut(w.ctx)
    ck.case((sorted(kinds.items()), with_issuer, hist), '%s %s' % (hist[-1][0], sorted(len(h) for h in w.held.values()) if w else None))
    ck.expect(not bad, '%s %s' % (hist[-1][0], '-'.join(kinds.values())), bad)


def refused(ck, base, kinds, n):
    """a directory per issuer and no issuer"""
    ck.begin(('no issuer', kinds))
    try:
        w = World(base, kinds, False, n)
        shut(w.ctx)
        r = 'built'
    except ValueError:
        r = 'ValueError'
    except Exception as e:
        r = type(e).__name__
    ck.case(('no issuer', sorted(kinds.items())), r)
    # where no box uses the section nothing needs to be said about it
    ck.expect(r != 'built' and not os.path.isdir(os.path.join(base, 'w', 'i')), 'no issuer', 'a context without issuer was %s' % r)


def faults(ck, base):
    """incomplete and wrong sections are refused, whichever box they are for, and leave nothing behind"""
    from oidcmsg.storage.init import ConfigurationError, get_storage_conf, init_storage, storage_factory
    good = ['a', 'l1', 'iss', 'mem']
    wrong = [('no handler', lambda c: c.pop('handler')), ('empty handler', lambda c: c.update(handler='')), ('null handler', lambda c: c.update(handler=None)),
             ('no module', lambda c: c.update(handler='oidcmsg.storage.nothing.AbstractFileSystem')), ('no class', lambda c: c.update(handler='oidcmsg.storage.abfile.Nothing')),
             ('bare', lambda c: c.update(handler='AbstractFileSystem')), ('colons', lambda c: c.update(handler='oidcmsg:storage:abfile')),
             ('no converter', lambda c: c.update(value_conv='oidcmsg.storage.converter.Nothing')), ('no key converter', lambda c: c.update(key_conv='oidcmsg.storage.nothing.QPKey'))]
    for kind, (what, how), box, rest, issuer in itertools.product(good, wrong, BOXES + ['keyjar'], ('none', 'a'), (None, E1)):
        if kind == 'mem' and 'converter' in what or kind == 'iss' and not issuer:
            continue
        shutil.rmtree(os.path.join(base, 'f'), ignore_errors=True)
        os.makedirs(os.path.join(base, 'f'))
        c = section(kind, os.path.join(base, 'f'), False)
        how(c)
        conf = {'db_conf': {box: c}}
        if rest == 'a':
            for b in BOXES + ['keyjar']:
                conf['db_conf'].setdefault(b, section('b', os.path.join(base, 'f'), True))
        if issuer:
            conf['issuer'] = issuer
        before = copy.deepcopy(conf)
        ck.begin((what, kind, box, rest, issuer))
        try:
            build(conf)
            r = 'built'
        except Exception as e:
            r = type(e).__name__
        ck.case((what, kind, box, rest, issuer), r)
        ck.expect(r != 'built', 'wrong section: %s' % what, 'a context was %s' % r)
        ck.expect(conf == before, 'wrong section changed', repr(conf))
        ck.expect(sorted(set(os.listdir(os.path.join(base, 'f'))) - {'b'}) == [], 'wrong section: left behind', lambda: repr(os.listdir(os.path.join(base, 'f'))))
        if 'handler' in what:
            for f in (lambda: storage_factory(dict(c)), lambda: init_storage({box: dict(c)}, box)):
                try:
                    f()
                    r = 'made'
                except ConfigurationError:
                    r = 'refused'
                except Exception as e:
                    r = repr(e)
                ck.case(('direct', what, kind, box), r)
                ck.expect(r == 'refused', 'no handler', r)
    # which section is used
    val = [ABSENT, None, {}, {'handler': 'x'}, {'handler': 'y', 'z': 1}]
    for d, k, o in itertools.product(val, repeat=3):
        conf = {n: v for n, v in (('default', d), ('keyjar', k), ('other', o)) if v is not ABSENT}
        for typ in ('default', 'keyjar', 'other', 'unknown', '', 'keyjar_x', 'keyjar.x', 'keyjar:x', 'keyjar/x', 'x_keyjar', 'keyjarx', 'keyja', 'eyjar', 'Keyjar', 'KEYJAR',
                    ' keyjar', 'keyjar ', 'default_x', 'default2', 'Default', 'defaul', 'otherkeyjar', 'handler'):
            ck.begin(('section', conf, typ))
            before = copy.deepcopy(conf)
            exp = conf.get(typ) or conf.get('default')
            if conf and typ == 'default' and not exp:
                exp = 'refused'
            try:
                got = get_storage_conf(conf, typ) if typ != 'default' or len(conf) % 2 else get_storage_conf(conf)
            except ConfigurationError:
                got = 'refused'
            ck.case(('section', repr(conf), typ), 'refused' if got == 'refused' else 'section' if got else 'none')
            ck.expect((got or None) == (exp or None) and conf == before, 'section', '%r in %r gives %r, expected %r' % (typ, conf, got, exp))
