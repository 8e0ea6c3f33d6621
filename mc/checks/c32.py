"""Complete enumeration of (a) all path texts over {. / a -} up to the bound through proper_path, and (b) all small
configuration trees x item specifications x base paths through add_base_path, each execution compared with a
reference that rebuilds the expected tree from the statement."""
import copy
import itertools
import os

TECHNIQUE = 'bounded exhaustive enumeration of inputs/configuration trees against a reference model'
LEVEL = 'model_checking'
BOUNDS = {'quick': 'paths to length 6 over 4 characters; trees of 2 sections x 2 items (+ nested section) x 9 values',
          'thorough': 'paths to length 8; trees of 3 sections'}
FLOOR = {'quick': 10000, 'thorough': 80000}

VALUES = [None, '', 'a', 'a/b', './a', '../a', '.', '/a', '/', '//x', 'a/']
BASES = ['/base', 'base', '/b/c/', './']


def ref_path(v, base):
    if not isinstance(v, str) or v == '' or v.startswith('/'):
        return v
    return os.path.join(base, v)


def ref_tree(conf, items, base):
    res = copy.deepcopy(conf)
    for section, what in items.items():
        part = res if section == '' else res.get(section)
        if part is None:
            continue
        if isinstance(what, list):
            for a in what:
                if a in part:
                    part[a] = ref_path(part[a], base)
        elif what is None:
            res[section] = ref_path(part, base)
        else:
            res[section] = ref_tree(part, what, base)
    return res


def shards(tier):
    n = 8 if tier == 'thorough' else 6
    return [('path', n, c) for c in './a-'] + [('tree', i) for i in range(len(VALUES))]


def comps(p):
    return [c for c in p.split('/') if c]


def run(ck, shard):
    from oidcmsg import add_base_path
    from oidcmsg import proper_path
    if shard[0] == 'path':
        _, n, first = shard
        for ln in range(0, n):
            for rest in itertools.product('./a-', repeat=ln):
                p = first + ''.join(rest)
                ck.begin(p)
                r = proper_path(p)
                ok = isinstance(r, str) and r.startswith('./') and r.endswith('/')
                ck.case(('path', p), 'starts ' + p[:2])
                ck.expect(ok, 'shape', '%r -> %r' % (p, r))
                if ok:
                    again = proper_path(r)
                    ck.expect(again == r, 'idempotence', '%r -> %r -> %r' % (p, r, again))
                    if not comps(p) or not comps(p)[0].startswith('.'):
                        ck.expect(comps(r)[1:] == comps(p), 'components', '%r -> %r' % (p, r))
                    elif p[0] == '.':   # dots in front of the path itself go; whatever follows stays
                        c = comps(p)
                        rest = [c[0].lstrip('.')] * bool(c[0].lstrip('.')) + c[1:]
                        ck.expect(comps(r)[1:] == rest, 'components after the dots', '%r -> %r' % (p, r))
        return
    # trees
    v0 = VALUES[shard[1]]
    specs = [{'': ['x']}, {'': ['x', 'y']}, {'s': ['x']}, {'s': ['x', 'y']}, {'x': None}, {'s': {'t': ['x']}},
             {'s': {'t': ['x'], '': ['y']}}, {'s': {'x': None}}, {'': ['x'], 's': ['y']}, {'s': {'t': {'': ['x']}}},
             {'missing': ['x'], 'x': None}, {'missing': None}, {'missing': {'t': ['x']}}, {'': ['nope'], 's': ['nope']},
             {'s': {'nope': ['x']}}, {'x': None, 's': {'t': ['y'], 'x': None}}, {}]
    vals = VALUES if not ck.thorough else VALUES + ['...', '-', 'å']
    for v1, v2 in itertools.product(vals, repeat=2):
        for a, b, c in [(v0, v1, v2), (v1, v0, v2), (v2, v1, v0)]:
            conf = {}
            for tree in ({'x': a, 'y': b, 's': {'x': c, 'y': a, 't': {'x': b, 'y': c, 'z': 1}}, 'other': {'x': a}},
                         {'x': a, 's': {'x': b, 't': {'x': c}}}, {'s': {'y': a}, 'y': b}, {'s': {}, 'x': c}):
                for spec in specs:
                    for base in BASES:
                        conf = copy.deepcopy(tree)
                        sp = copy.deepcopy(spec)
                        ck.begin((tree, spec, base))
                        exp = ref_tree(tree, spec, base)
                        add_base_path(conf, sp, base)
                        ck.case((repr(tree), repr(spec), base), 'changed' if exp != tree else 'same')
                        ck.expect(conf == exp, 'tree %r' % spec, lambda: 'got %r\nexpected %r' % (conf, exp))
                        ck.expect(sp == spec, 'spec-changed', 'item specification was modified')
                        if exp == conf and base != './' and not base.startswith('.') and base.startswith('/'):
                            # absolute now: doing it again changes nothing
                            add_base_path(conf, sp, base)
                            ck.expect(conf == exp, 'again', 'absolute paths changed when applied twice')
