# Structurally the std_msgs messages, re-exported under this package's name.
import re
from std_msgs import msg as _m


def _mk(name):
    c = type(getattr(_m, name))(name, (getattr(_m, name),), {'__slots__': ()})
    c.__module__ = 'example_interfaces.msg._' + re.sub(r'(?<!^)([A-Z])', r'_\1', name).lower()
    return c


Empty, String, Bool = _mk('Empty'), _mk('String'), _mk('Bool')
Int32, Int64, UInt8, UInt64 = _mk('Int32'), _mk('Int64'), _mk('UInt8'), _mk('UInt64')
Float32, Float64 = _mk('Float32'), _mk('Float64')
