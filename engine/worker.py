"""python -m engine.worker prove|bounded|concrete|replay <spec module> <harness> ... (one process per call)"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('mode')
    ap.add_argument('spec')
    ap.add_argument('harness', nargs='?')
    ap.add_argument('--out')
    ap.add_argument('--seconds', type=float, default=60)
    ap.add_argument('--bound', type=int, default=3)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--trace')
    ap.add_argument('--debug', type=int, default=0)
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    import gc
    gc.freeze()
    gc.set_threshold(200000, 20, 20)
    import logging
    logging.disable(logging.CRITICAL)
    t0 = time.time()
    if a.mode == 'list':
        mod = importlib.import_module(f'specs.{a.spec}')
        res = {'harnesses': [{k: v for k, v in h.items() if k != 'run'} for h in mod.HARNESSES],
               'meta': getattr(mod, 'META', {})}
    elif a.mode in ('prove', 'bounded'):
        from engine import transform
        from engine import shims
        shims.install()
        transform.install('ros_bt_py', 'specs')
        mod = importlib.import_module(f'specs.{a.spec}')
        h = find(mod, a.harness)
        native = any(x.get('native') for x in getattr(mod, 'HARNESSES', []) if x['name'] == a.harness)
        from engine.driver import Engine
        from engine.symenv import SymEnv
        eng = Engine(seconds=a.seconds, bounded=a.bound if a.mode == 'bounded' else None, debug=a.debug)
        eng.native = native or a.mode == 'bounded'
        res = eng.run(h, SymEnv)
        res['invariants'] = sum(len(i.cands) for li in eng.loops.values() for i in li.inv.values())
        import z3
        res['z3'] = z3.get_version_string()
        res['cut_loops'] = sorted({k[1] for k in eng.loops})
    else:
        from engine import concrete
        mod = importlib.import_module(f'specs.{a.spec}')
        h = find(mod, a.harness)
        if a.mode == 'replay':
            res = concrete.replay(h, json.load(open(a.trace)), seconds=a.seconds)
        else:
            res = concrete.campaign(h, a.seconds, a.seed)
    res['wall_s'] = round(time.time() - t0, 2)
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(res, f, default=str)
    else:
        print(json.dumps(res, indent=1, default=str))


def find(mod, name):
    for h in getattr(mod, 'HARNESSES', []):
        if h['name'] == name:
            return h['run']
    return getattr(mod, name)


if __name__ == '__main__':
    main()
