import importlib


def import_message_from_namespaced_type(*a):
    raise NotImplementedError


def get_interface(identifier):
    try:
        parts = identifier.split('/')
    except AttributeError:
        raise ValueError(f'Expected a string identifier, got {identifier!r}')
    if len(parts) != 3 or not all(parts):
        raise ValueError(
            "Expected the full name of an interface in the form of "
            f"'package_name/interface_type/type_name', got '{identifier}'")
    interface = importlib.import_module('.'.join(parts[:-1]))
    interface = getattr(interface, parts[-1])
    if not (is_message(interface) or is_service(interface) or is_action(interface)):
        raise ValueError(f"{identifier} is not a ROS interface")
    return interface


def _full(identifier, kind):
    parts = identifier.split('/')
    return '/'.join([parts[0], kind, parts[1]]) if len(parts) == 2 else identifier


def is_message(i):
    return hasattr(i, '_fields_and_field_types') or hasattr(i, 'get_fields_and_field_types')


def is_service(i):
    return hasattr(i, 'Request') and hasattr(i, 'Response')


def is_action(i):
    return all(hasattr(i, n) for n in ('Goal', 'Result', 'Feedback'))


def get_message(identifier):
    i = get_interface(_full(identifier, 'msg'))
    if not is_message(i):
        raise ValueError(f"Expected '{identifier}' to be a message")
    return i


def get_service(identifier):
    i = get_interface(_full(identifier, 'srv'))
    if not is_service(i):
        raise ValueError(f"Expected '{identifier}' to be a service")
    return i


def get_action(identifier):
    i = get_interface(_full(identifier, 'action'))
    if not is_action(i):
        raise ValueError(f"Expected '{identifier}' to be an action")
    return i
