import importlib
import os
import sys
import time


def main(argv):
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    only = sig = None
    if '--shard' in argv:
        only = int(argv[argv.index('--shard') + 1])
    if '--sig' in argv:
        sig = argv[argv.index('--sig') + 1]
    from mc import core, target
    t0 = time.monotonic()
    target.setup()
    mod = importlib.import_module('mc.checks.' + prop.lower())
    try:
        target.load()
    except Exception:
        import traceback
        ck = core.Check(prop, tier)
        ck.fail('import', 'the library can not be imported: ' + traceback.format_exc())
        return core.finish(mod, prop, tier, ck, time.monotonic() - t0, 0)
    shards = list(mod.shards(tier))
    if only is not None:
        res = {only: core.run_shard(mod, prop, tier, only, shards[only])}
    else:
        try:
            res = core.explore(mod, prop, tier, shards, int(os.environ.get('MC_WORKERS', os.cpu_count() or 4)))
        except core.Unfinished as e:
            print(e)
            return 2
    ck = core.merge(prop, tier, res)
    if sig is not None:
        ck.violations = {s: v for s, v in ck.violations.items() if s == sig}
    return core.finish(mod, prop, tier, ck, time.monotonic() - t0, len(shards), only)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
