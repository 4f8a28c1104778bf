from collections import OrderedDict
import array

import numpy
import yaml


def _conv(v):
    if hasattr(v, 'get_fields_and_field_types'):
        return message_to_ordereddict(v)
    if isinstance(v, (list, tuple, array.array, numpy.ndarray)):
        return [_conv(x) for x in v]
    if isinstance(v, numpy.generic):
        return v.item()
    if isinstance(v, bytes):
        return list(v)
    return v


def message_to_ordereddict(msg):
    return OrderedDict((k, _conv(getattr(msg, k))) for k in msg.get_fields_and_field_types())


def message_to_yaml(msg):
    def plain(o):
        if isinstance(o, dict):
            return {k: plain(v) for k, v in o.items()}
        if isinstance(o, list):
            return [plain(v) for v in o]
        return o
    return yaml.dump(plain(message_to_ordereddict(msg)), sort_keys=False)
