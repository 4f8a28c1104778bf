"""Running a harness on the unmodified code with ordinary values."""
import time
import traceback

from .driver_common import code_exception
from .env import ConEnv, EnumSource, RandomSource, ReplaySource, Skip, Violation, KNOWN_HITS


class Misfit(BaseException):
    """The harness does not fit this tree (e.g. a name it uses is gone)."""


def once(h, src):
    env = ConEnv(src)
    try:
        try:
            h(env)
            return env, None
        except Skip:
            return env, 'skip'
        except Violation as v:
            return env, {'label': v.label, 'detail': str(v.detail)[:3000], 'trace': env.trace}
        except Exception as e:
            in_repo, loc = code_exception(e)
            if not in_repo:
                raise Misfit(f'{type(e).__name__}: {e} at {loc}\n' + traceback.format_exc()[-1500:])
            return env, {'label': f'no uncaught exception ({type(e).__name__} at {loc})',
                         'detail': traceback.format_exc()[-3000:], 'trace': env.trace}
    finally:
        env.close()


def campaign(h, seconds, seed, enum_share=0.2, max_viol=8, enum_only=False):
    t0 = time.time()
    out = {'runs': 0, 'skipped': 0, 'violations': [], 'covers': {}, 'checks': {}, 'exhaustive': False,
           'enumerated': 0, 'random': 0, 'misfit': None, 'distinct': 0, 'samples': [], 'known': {}}
    seen = set()
    distinct = set()

    def take(env, r):
        out['runs'] += 1
        if r == 'skip':
            out['skipped'] += 1
            return
        if env.labels:
            h_ = hash(repr(env.trace))
            if h_ not in distinct and len(distinct) < 2_000_000:
                distinct.add(h_)
                n = len(distinct)
                if n in (1, 10, 100, 1000, 10000):
                    out['samples'].append({'inputs': [list(t) for t in env.trace][:40], 'notes': env.notes[:20],
                                           'checks': sum(env.labels.values())})
        for c in env.covers:
            out['covers'][c] = out['covers'].get(c, 0) + 1
        for k, n in env.labels.items():
            out['checks'][k] = out['checks'].get(k, 0) + n
        if r is not None and r['label'] not in seen and len(seen) < max_viol:
            seen.add(r['label'])
            out['violations'].append(r)
    try:
        src = EnumSource()
        while True:
            src.start()
            take(*once(h, src))
            out['enumerated'] += 1
            if not src.advance():
                out['exhaustive'] = True
                break
            if time.time() - t0 > seconds * enum_share:
                break
            if out['violations'] and time.time() - t0 > 3:
                break
        if not out['exhaustive']:
            i = 0
            while time.time() - t0 < seconds:
                take(*once(h, RandomSource(seed * 1000003 + i)))
                out['random'] += 1
                i += 1
                if out['violations'] and time.time() - t0 > 5:
                    break
    except Misfit as m:
        out['misfit'] = str(m)
    out['distinct'] = len(distinct)
    out['known'] = dict(KNOWN_HITS)
    return out


def replay(h, trace, tries=40, seconds=1e9):
    t0 = time.time()
    for i in range(tries):
        if time.time() - t0 > seconds:
            break
        try:
            env, r = once(h, ReplaySource(trace, True, i))
        except Misfit as m:
            return {'violation': None, 'misfit': str(m)}
        if r is not None and r != 'skip':
            return {'violation': r, 'misfit': None}
    return {'violation': None, 'misfit': None}
