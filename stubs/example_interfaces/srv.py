from std_srvs.srv import Trigger as _T


class Trigger(_T):
    pass


def _mk(name, base):
    c = type(base)(name, (base,), {'__slots__': ()})
    c.__module__ = 'example_interfaces.srv._trigger'
    return c


Trigger.__module__ = 'example_interfaces.srv._trigger'
Trigger.Request = _mk('Trigger_Request', _T.Request)
Trigger.Response = _mk('Trigger_Response', _T.Response)
