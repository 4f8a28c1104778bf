"""C01: Sequence and MemorySequence."""
from ros_bt_py.nodes.sequence import MemorySequence, Sequence
from specs.flow import ordered

HARNESSES = [
    {'name': 'sequence', 'run': lambda env: ordered(env, Sequence, 'SUCCEEDED', errors=True)},
    {'name': 'memory-sequence',
     'run': lambda env: ordered(env, MemorySequence, 'SUCCEEDED', 'untick-clears', True)},
]
