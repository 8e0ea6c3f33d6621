"""Breadth-first search over operation histories on one or several store objects sharing a real directory, with logical file
times (that may also run backwards; and the directory may be removed by others) and duplicate states merged: in every state, every operation's answer is compared with one
shared dictionary and a freshly opened store has to show exactly that dictionary. Plus an exhaustive sweep of key texts: every
text up to a length over the characters the quoting treats specially, all in one directory."""
import itertools
import os
import pickle
import shutil
import urllib.parse

from mc import target
from mc.kit import ABSENT

TECHNIQUE = 'explicit-state search over operation histories of the real store with a dictionary as reference model; exhaustive key enumeration'
LEVEL = 'model_checking'
BOUNDS = {'quick': '8 configurations (1-3 stores, 1-3 keys, 2-4 values, text / JSON / plain file names); all histories to depth 4-6, states merged; '
                   'all keys of <= 3 characters over 17, all single characters below U+0800; all pairs of operations next to a directory and unreadable files',
          'thorough': 'depth 6-10; keys of <= 4 characters'}
FLOOR = {'quick': 50000, 'thorough': 400000}

JSONC = 'oidcmsg.storage.converter.JSON'
PASS = 'oidcmsg.storage.converter.PassThru'
TEXT = ['v', 'w\r\nzwei\n', '', ' \tå\u2028\U0001f600" ', '\ufeffx']
DATA = [{'a': [1, None, True]}, [], 'x', 0]
CONFIGS = {
    # stores, keys, values, value converter, unserialisable value, depth quick/thorough, key converter
    'one text': (1, ['a', 'b/c', ''], TEXT[:2], None, 7, 6, 10, None),
    'two text': (2, ['a'], TEXT[:2], PASS, 7, 6, 9, None),
    'two keys': (2, ['https://x/y?z=1', '..'], ['v', 'w'], None, None, 4, 6, None),
    'two json': (2, ['k'], DATA[:2], JSONC, {1, 2}, 5, 8, 'oidcmsg.storage.converter.QPKey'),
    'three': (3, ['a'], ['v', 'w'], None, None, 4, 6, None),
    'values': (2, ['a'], TEXT, None, None, 4, 5, None),
    'json values': (1, ['a', 'b'], DATA, JSONC, {1}, 4, 6, None),
    'plain names': (1, ['a', 'b'], ['v', 'w'], None, None, 5, 8, PASS),
}


def ops_of(cfg):
    n, keys, values, conv, bad = cfg[:5]
    res = []
    for s in range(n):
        res += [('set', s, k, v) for k in range(len(keys)) for v in range(len(values))]
        res += [('del', s, k) for k in range(len(keys))] + [('getitem', s, k) for k in range(len(keys))] + [('in', s, k) for k in range(len(keys))]
        res += [('get', s, 0), ('default', s, len(keys) - 1), ('keys', s), ('items', s), ('iter', s), ('call', s), ('len', s), ('clear', s), ('reopen', s)]
        res.append(('update', s, tuple((k, (k + 1) % len(values)) for k in range(len(keys)))))
        if len(keys) > 1:
            res.append(('update', s, ((len(keys) - 1, 0),)))
        res.append(('update', s, ()))
        if bad is not None:
            res.append(('bad', s, 0))
    res += [('back',), ('gone',)]
    return res


def shards(tier):
    res = []
    for name, cfg in CONFIGS.items():
        if cfg[0] > 1:
            # histories are cut by the operation they start with
            res += [('bfs', name, i) for i in range(4)]
        else:
            res.append(('bfs', name, None))
    return res + [('keys', i) for i in range(8)] + [('foreign', i) for i in range(8)]


class World:
    """a directory, the stores on it and the dictionary they should be"""

    def __init__(self, base, cfg):
        self.n, self.keys, self.values, self.conv, self.bad = cfg[:5]
        self.kconv = cfg[7]
        self.base = base
        self.dir = os.path.join(base, 'd')
        self.sh = target.shim()
        shutil.rmtree(self.dir, ignore_errors=True)
        self.sh.mtime_at(1600000000 * 10 ** 9)
        self.low = 1600000000 * 10 ** 9
        self.model = {}
        self.stores = [self.open() for _ in range(self.n)]

    def open(self):
        from oidcmsg.storage.abfile import AbstractFileSystem
        conf = {'fdir': self.dir}
        if self.conv:
            conf['value_conv'] = self.conv
        if self.kconv:
            conf['key_conv'] = self.kconv
        return AbstractFileSystem(conf)

    def apply(self, op):
        """(answer, expected answer); exceptions are named"""
        what = op[0]
        if what == 'back':
            self.low -= 10 ** 12
            self.sh.mtime_at(self.low)
            return None, None
        if what == 'gone':
            # someone removes the directory
            shutil.rmtree(self.dir, ignore_errors=True)
            self.model.clear()
            return None, None
        s, m = self.stores[op[1]], self.model
        k = self.keys[op[2]] if len(op) > 2 and isinstance(op[2], int) else None
        try:
            if what == 'set':
                v = self.values[op[3]]
                m[k] = v
                s[k] = v
                return None, None
            if what == 'bad':
                s[k] = self.bad
                return 'accepted', 'error'
            if what == 'update':
                new = {self.keys[a]: self.values[b] for a, b in op[2]}
                m.update(new)
                s.update(new)
                return None, None
            if what == 'clear':
                m.clear()
                s.clear()
                return None, None
            if what == 'del':
                # an absent key may be reported
                exp = 'done' if k in m else 'any'
                m.pop(k, None)
                del s[k]
                return ('any' if exp == 'any' else 'done'), exp
            if what == 'reopen':
                self.stores[op[1]] = self.open()
                return None, None
            if what == 'getitem':
                return s[k], m.get(k, KeyError)
            if what == 'get':
                return s.get(k), m.get(k)
            if what == 'default':
                return s.get(k, 'default'), m.get(k, 'default')
            if what == 'in':
                return k in s, k in m
            if what == 'keys':
                return sorted(s.keys()), sorted(m)
            if what == 'items':
                return sorted(((a, b) for a, b in s.items()), key=repr), sorted(m.items(), key=repr)
            if what == 'iter':
                return sorted(((a, b) for a, b in s), key=repr), sorted(m.items(), key=repr)
            if what == 'call':
                return sorted(s()), sorted(m)
            if what == 'len':
                return len(s), len(m)
        except KeyError as e:
            if what == 'del' and exp == 'any':
                return 'any', 'any'
            if what == 'getitem':
                return KeyError, m.get(k, KeyError)
            return 'KeyError(%s)' % e, 'no error'
        except Exception as e:
            if what == 'bad':
                return 'error', 'error'
            return '%s(%s)' % (type(e).__name__, e), 'no error'
        raise AssertionError(op)

    def fresh(self):
        s = self.open()
        return dict(s.items()), len(s), {k: s.get(k, ABSENT) for k in self.keys}, {k: k in s for k in self.keys}

    def snapshot(self):
        """everything the future depends on, or None if the stores can not be copied (then histories are replayed)"""
        try:
            stores = pickle.dumps([(type(s), vars(s)) for s in self.stores])
        except Exception:
            return None
        files = {}
        if os.path.isdir(self.dir):
            for e in os.scandir(self.dir):
                with open(e.path, 'rb') as fp:
                    files[e.name] = (fp.read(), e.stat().st_mtime_ns)
        else:
            files = None
        return stores, files, dict(self.model), self.low, self.sh.mtime_now()

    def restore(self, snap):
        stores, files, model, self.low, now = snap
        self.model = dict(model)
        self.sh.mtime(False)
        if files is None:
            shutil.rmtree(self.dir, ignore_errors=True)
        else:
            os.makedirs(self.dir, exist_ok=True)
            have = {}
            for e in os.scandir(self.dir):
                if e.name not in files:
                    os.unlink(e.path)
                else:
                    have[e.name] = e.stat()
            for f, (data, t) in files.items():
                if f.endswith('.lock') and f in have and have[f].st_size == 0 and not data:
                    continue
                p = os.path.join(self.dir, f)
                with open(p, 'wb') as fp:
                    fp.write(data)
                os.utime(p, ns=(t, t))
        self.stores = []
        for cls, d in pickle.loads(stores):
            o = cls.__new__(cls)
            o.__dict__.update(d)
            self.stores.append(o)
        self.sh.mtime(True)
        self.sh.mtime_at(now)

    def canon(self):
        files = []
        for f in sorted(os.listdir(self.dir)) if os.path.isdir(self.dir) else ():
            p = os.path.join(self.dir, f)
            if not f.endswith('.lock'):
                st = os.stat(p)
                with open(p, 'rb') as fp:
                    files.append((f, fp.read(), st.st_mtime_ns))
        state = [files, [plain(getattr(s, '__dict__', {})) for s in self.stores], self.sh.mtime_now()]
        stamps = set()
        walk(state, stamps)
        rank = {t: n for n, t in enumerate(sorted(stamps))}
        return repr(ranked(state, rank))


def plain(x):
    if isinstance(x, dict):
        return [(plain(k), plain(v)) for k, v in sorted(x.items(), key=lambda kv: repr(kv[0]))]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, x))
    if x is None or isinstance(x, (str, bytes, int, float, bool)):
        return x
    return [type(x).__name__, plain(getattr(x, '__dict__', {}))]


def is_stamp(x):
    return not isinstance(x, bool) and (isinstance(x, int) and abs(x) > 10 ** 15 or isinstance(x, float) and abs(x) > 10 ** 6)


def norm(x):
    return round(x * 1000) if isinstance(x, float) else x // 1000000


def walk(x, acc):
    if isinstance(x, (list, tuple)):
        for v in x:
            walk(v, acc)
    elif is_stamp(x):
        acc.add(norm(x))


def ranked(x, rank):
    if isinstance(x, (list, tuple)):
        return [ranked(v, rank) for v in x]
    if is_stamp(x):
        return 't%d' % rank[norm(x)]
    return x


def bfs(ck, base, name, part):
    cfg = CONFIGS[name]
    ops = ops_of(cfg)
    depth = cfg[6] if ck.thorough else cfg[5]
    firsts = ops if part is None else [o for n, o in enumerate(ops) if n % 4 == part]
    seen = set()
    n = 0
    w = World(base, cfg)
    frontier = [((), w.snapshot())]
    for d in range(depth):
        nxt = []
        for hist, snap in frontier:
            for op in (firsts if d == 0 else ops):
                n += 1
                seq = hist + (op,)
                if n % 8 == 0:
                    ck.begin((name, seq))
                ck.current = (name, seq)
                if snap is not None:
                    w.restore(snap)
                else:
                    w = World(base, cfg)
                    for o in hist:
                        w.apply(o)
                got, exp = w.apply(op)
                ck.step()
                ck.outcome('%s %s' % (op[0], 'absent' if got is KeyError or got == 'any' else '' if got is None else type(got).__name__))
                if not same(got, exp):
                    ck.fail('%s: %s' % (name, op[0]), 'answer %r, expected %r' % (got, exp))
                    continue
                c = w.canon()
                if c in seen:
                    continue
                seen.add(c)
                ck.state((name, c))
                snap2 = w.snapshot()
                ck.trace()
                if len(seen) < 3:
                    ck.sample(ck.current)
                files = sum(1 for f in os.listdir(w.dir) if not f.endswith('.lock')) if os.path.isdir(w.dir) else 0
                m = w.model
                f = w.fresh()
                want = (dict(m), len(m), {k: m.get(k, ABSENT) for k in w.keys}, {k: k in m for k in w.keys})
                ok = same(f, want) and files == len(m)
                ck.expect(ok, '%s: content after %s' % (name, op[0]), lambda: 'a new store shows %r in %d files, expected %r' % (f, files, want))
                # every store object has to agree, too; and nothing appeared next to the directory
                for i in range(w.n):
                    for o in (('items', i), ('len', i)):
                        a, e = w.apply(o)
                        ck.expect(same(a, e), '%s: view after %s' % (name, op[0]), lambda: 'store %d shows %r, expected %r' % (i, a, e))
                if os.listdir(base) not in (['d'], []):
                    ck.fail('%s: outside the directory' % name, 'next to the directory: %r' % os.listdir(base))
                if ok:
                    nxt.append((seq, snap2))
        frontier = nxt
    ck.count('search depth', depth)
    ck.count('states at the depth bound', len(frontier))


def same(a, b):
    return type(a) is type(b) and a == b and repr(a).replace("True", "1") == repr(b).replace("True", "1") if not isinstance(a, (dict, tuple)) else a == b


SPECIAL = ['a', 'A', '/', '.', '%', '+', ' ', '\\', ':', '#', '~', '*', '\n', '_', 'é', '2', '-']
NAMES = ['.lock', 'x.lock', 'x.lock.lock', '%.lock', 'lock', '.', '..', '...', '../x', '../../etc/passwd', '/etc/passwd', './a', 'a/../b', 'a//b', '%2E', '%2e%2e', '%2F',
         '%', '%%', '%25', '', ' ', '+', '%20', '%2B', 'https://op.example.com/a?b=c&d=e#f', 'https%3A%2F%2Fop.example.com', 'urn:x:y', 'CON', 'nul.txt', 'a' * 200,
         'ä' * 30, '\x00', 'a\x00b', '~root', '$HOME', '`id`', 'a#.lock', '#.lock', 'a#', 'x#.lock.lock', '.a', 'a.', '.lock.', '.LOCK', 'a.lock/b', '.%6Cock', '%2Elock',
         'x%2Elock', 'x%2elock', 'a.tmp', 'a.tmp.lock', '\u2028', '\U0001f600', 'å', 'a\u030a', '{issuer}', 'None', 'True', '__label__x']


def key_texts(tier):
    L = 4 if tier == 'thorough' else 3
    for n in range(L + 1):
        for t in itertools.product(SPECIAL[:11] if n == 4 else SPECIAL, repeat=n):
            yield ''.join(t)
    for c in range(0x800):
        yield chr(c)
        yield chr(c) + '.lock'
    for n in NAMES:
        yield n
        for p in ('.', '/', 'a'):
            yield n + p
            yield p + n


def keysweep(ck, base, part):
    """all keys together in one directory"""
    from oidcmsg.storage.abfile import AbstractFileSystem
    texts = sorted({k for k in key_texts(ck.tier) if len(urllib.parse.quote_plus(k)) <= 240})
    mine = [k for n, k in enumerate(texts) if n % 8 == part]
    # neighbours in the alphabet meet in the next part
    if part:
        mine = sorted(set(mine) | set(NAMES))
    d = os.path.join(base, 'keys')
    with open(os.path.join(base, 'sentinel'), 'w') as fp:
        fp.write('untouched')
    conf = {'fdir': d}
    s = AbstractFileSystem(conf)
    model = {}
    for n, k in enumerate(mine):
        ck.begin(('key', k))
        v = 'value %d' % n
        s[k] = v
        model[k] = v
        ck.case(('set', k))
        ck.expect(k in s, 'key not there after setting it', repr(k))

    def agree(st, how):
        for k in mine:
            ck.begin((how, k))
            got = st.get(k, ABSENT)
            exp = model.get(k, ABSENT)
            ck.case((how, k), 'present' if exp is not ABSENT else 'absent')
            ck.expect(got == exp and (k in st) == (k in model), 'key %s' % how, lambda: 'key %r gives %r, expected %r' % (k, got, exp))
        ck.begin((how, 'all'))
        ks = sorted(st.keys())
        ck.expect(ks == sorted(model), 'keys %s' % how, lambda: 'keys differ: %r' % sorted(set(ks) ^ set(model))[:10])
        ck.expect(len(st) == len(model), 'length %s' % how, lambda: '%d, expected %d' % (len(st), len(model)))
        ck.expect(dict(st.items()) == model, 'items %s' % how, 'items differ')

    agree(s, 'written')
    agree(AbstractFileSystem(conf), 'reopened')
    other = AbstractFileSystem(conf)
    for n, k in enumerate(mine):
        ck.begin(('delete', k))
        if n % 2:
            del other[k]
            del model[k]
        elif n % 4 == 0:
            other[k] = model[k] = 'again %d' % n
    agree(s, 'changed by another store')
    agree(other, 'changed')
    ck.begin('clear')
    other.clear()
    model = {}
    agree(s, 'cleared')
    ck.expect(sorted(os.listdir(base)) == ['keys', 'sentinel'], 'outside the directory', lambda: repr(os.listdir(base)))
    ck.expect(all(os.path.isfile(os.path.join(d, f)) for f in os.listdir(d)), 'directories made', 'a key made a directory')


BAD = ['0bad', 'm', 'zbad']
NOISE = (2, ['a', 'n', 'z'], DATA[:2], JSONC, None, 0, 0, None)


def foreign(ck, base, part):
    """the directory also holds a directory, and files whose content can not be read as values: the other items are not disturbed"""
    ops = [o for o in ops_of(NOISE) if o[0] not in ('gone', 'back', 'call', 'default', 'iter')]
    firsts = [o for n, o in enumerate(ops) if n % 8 == part]
    for bad in ((), BAD):
        def build(early):
            w = World(base, NOISE)
            os.mkdir(os.path.join(w.dir, 'sub'))
            with open(os.path.join(w.dir, 'sub', 'x'), 'w') as fp:
                fp.write('1')
            for b in bad:
                with open(os.path.join(w.dir, b), 'w') as fp:
                    fp.write('{')
            if not early:
                w.stores = [w.open() for _ in range(w.n)]
            return w
        for early in (True, False):
            for hist in itertools.product(firsts, *[ops] * (2 if ck.thorough else 1)):
                ck.begin(('foreign', bad, early, hist))
                w = build(early)
                left = set(bad)
                for op in hist + (('items', 0), ('len', 0), ('keys', 1)):
                    got, exp = w.apply(op)
                    ck.step()
                    if op[0] == 'clear':
                        left = set()
                    if op[0] in ('keys', 'items') and isinstance(got, list):
                        got = [x for x in got if (x if op[0] == 'keys' else x[0]) not in bad]
                    if op[0] == 'len':
                        ck.expect(exp <= got <= exp + len(left), 'foreign: len', lambda: 'length %r, expected %r (and %d unreadable)' % (got, exp, len(left)))
                    else:
                        ck.expect(same(got, exp), 'foreign: %s' % op[0], lambda: 'answer %r, expected %r' % (got, exp))
                ck.trace()
                ck.expect(os.listdir(os.path.join(w.dir, 'sub')) == ['x'], 'foreign: inner directory', 'touched')
                f = w.open()
                got = {k: f.get(k, ABSENT) for k in w.keys}
                ck.state(('foreign', bad, early, hist))
                ck.expect(got == {k: w.model.get(k, ABSENT) for k in w.keys}, 'foreign: content', lambda: 'a new store shows %r, expected %r' % (got, w.model))


def run(ck, shard):
    sh = target.shim()
    with target.Scratch() as base:
        sh.root(base)
        sh.mtime(True)
        try:
            if shard[0] == 'keys':
                keysweep(ck, base, shard[1])
            elif shard[0] == 'foreign':
                foreign(ck, base, shard[1])
            else:
                bfs(ck, base, shard[1], shard[2])
        finally:
            sh.mtime(False)
            sh.root('')
