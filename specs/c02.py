"""C02: Fallback and MemoryFallback."""
from ros_bt_py.nodes.fallback import Fallback, MemoryFallback
from specs.flow import ordered

HARNESSES = [
    {'name': 'fallback', 'run': lambda env: ordered(env, Fallback, 'FAILED', errors=True)},
    {'name': 'memory-fallback', 'run': lambda env: ordered(env, MemoryFallback, 'FAILED', 'untick-keeps', True)},
]
