from std_msgs.msg import Int32 as _I, Int32MultiArray as _A


def _mk(name, base):
    c = type(base)(name, (base,), {'__slots__': ()})
    c.__module__ = 'example_interfaces.action._fibonacci'
    return c


class Fibonacci:
    Goal = _mk('Fibonacci_Goal', _I)
    Result = _mk('Fibonacci_Result', _A)
    Feedback = _mk('Fibonacci_Feedback', _A)


Fibonacci.__module__ = 'example_interfaces.action._fibonacci'
