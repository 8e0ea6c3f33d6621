"""Which lines of the library do the checks execute?   tools/cover.py C01 C02 ...   (development aid; judges nothing)"""
import importlib
import os
import pickle
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, target  # noqa


def main(props):
    target.setup()
    target.load()
    src = os.path.join(core.REPO, 'src', 'oidcmsg')
    out = tempfile.mkdtemp(prefix='cover-')
    mon = sys.monitoring
    real = core.run_shard

    def run_shard(mod, prop, tier, no, shard):
        hit = set()

        def line(code, n):
            if code.co_filename.startswith(src):
                hit.add((code.co_filename, n))
            return mon.DISABLE
        mon.use_tool_id(3, 'cover')
        mon.register_callback(3, mon.events.LINE, line)
        mon.set_events(3, mon.events.LINE)
        try:
            return real(mod, prop, tier, no, shard)
        finally:
            with open(os.path.join(out, '%s-%s' % (prop, no)), 'wb') as fp:
                pickle.dump(hit, fp)
    core.run_shard = run_shard
    for prop in props:
        mod = importlib.import_module('mc.checks.' + prop.lower())
        core.explore(mod, prop, 'quick', list(mod.shards('quick')), 8)
        print(prop, flush=True)
    hit = set()
    for f in os.listdir(out):
        with open(os.path.join(out, f), 'rb') as fp:
            hit |= pickle.load(fp)
        os.unlink(os.path.join(out, f))
    os.rmdir(out)

    def lines(code):
        res = {n for _, _, n in code.co_lines() if n and n != code.co_firstlineno}
        for c in code.co_consts:
            if hasattr(c, 'co_lines'):
                res |= lines(c)
        return res
    for d, _, fs in sorted(os.walk(src)):
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                text = open(p).read()
                inside = set()
                for c in compile(text, p, 'exec').co_consts:
                    if hasattr(c, 'co_lines'):
                        todo = [c]
                        if not (c.co_flags & 2):       # a class body: only its functions
                            todo = [x for x in c.co_consts if hasattr(x, 'co_lines')]
                        for x in todo:
                            inside |= lines(x)
                missed = sorted(n for n in inside if (p, n) not in hit)
                if missed:
                    print('\n%s: %d of %d' % (p, len(missed), len(inside)))
                    src_lines = text.split('\n')
                    for n in missed:
                        print('  %4d %s' % (n, src_lines[n - 1]))


main(sys.argv[1:])
