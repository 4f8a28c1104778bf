import array
import importlib

import numpy


def _elem_class(typename):
    pkg, rest = typename.split('/', 1)
    name = rest.split('/')[-1]
    return getattr(importlib.import_module(pkg + '.msg'), name)


def set_message_fields(msg, values):
    """Set the fields of a ROS message from a dict (upstream semantics, no timestamp macros)."""
    try:
        items = values.items()
    except AttributeError:
        raise TypeError('Value %r is expected to be a dictionary but is a %s'
                        % (values, type(values).__name__))
    for name, value in items:
        field = getattr(msg, name)
        ftype = type(field)
        if ftype is array.array:
            value = ftype(field.typecode, value)
        elif ftype is numpy.ndarray:
            value = numpy.array(value, dtype=field.dtype)
        elif type(value) is ftype:
            value = value
        else:
            try:
                value = ftype(value)
            except TypeError:
                sub = ftype()
                set_message_fields(sub, value)
                value = sub
        decl = msg.get_fields_and_field_types()[name]
        if isinstance(value, list) and '/' in decl and value and isinstance(value[0], dict):
            base = decl[len('sequence<'):-1].split(',')[0] if decl.startswith('sequence<') \
                else decl.split('[')[0]
            cls = _elem_class(base)
            out = []
            for entry in value:
                sub = cls()
                set_message_fields(sub, entry)
                out.append(sub)
            value = out
        setattr(msg, name, value)
