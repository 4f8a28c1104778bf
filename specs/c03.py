"""C03: Parallel and ParallelFailureTolerance."""
from ros_bt_py.nodes.parallel import Parallel, ParallelFailureTolerance
from specs.flow import parallel

HARNESSES = [
    {'name': 'parallel', 'prove_s': 300, 'run': lambda env: parallel(env, Parallel, False, True)},
    {'name': 'parallel-1', 'prove_s': 300, 'run': lambda env: parallel(env, Parallel, False, True, True)},
    {'name': 'tolerance', 'prove_s': 300, 'run': lambda env: parallel(env, ParallelFailureTolerance, True, True)},
    {'name': 'tolerance-1', 'prove_s': 300,
     'run': lambda env: parallel(env, ParallelFailureTolerance, True, True, True)},
    {'name': 'tolerance-0', 'prove_s': 300,
     'run': lambda env: parallel(env, ParallelFailureTolerance, True, True, False, True)},
    {'name': 'tolerance-1-0', 'prove_s': 300,
     'run': lambda env: parallel(env, ParallelFailureTolerance, True, True, True, True)},
]
