import traceback


def code_exception(e):
    """(is the exception raised by /repo's code?, location)"""
    tb = traceback.extract_tb(e.__traceback__)
    inner = None
    for fr in tb:
        if '/ros_bt_py/' in fr.filename and '/verif/' not in fr.filename:
            inner = fr
    last = tb[-1] if tb else None
    in_repo = inner is not None
    # raised in the harness while it touches the code's objects: the harness does not fit this tree
    if last is not None and ('/specs/' in last.filename or '/engine/' in last.filename):
        if isinstance(e, (AttributeError, TypeError, ImportError, KeyError, NameError)) and '/specs/' in last.filename:
            in_repo = False
    # a defect of the verifier itself, as opposed to an exception it raises on behalf of a proxy object
    if last is not None and '/engine/' in last.filename and not (last.line or '').lstrip().startswith('raise'):
        in_repo = False
    if type(e).__name__ == 'Z3Exception':
        in_repo = False
    loc = f'{inner.filename.split("/ros_bt_py/", 1)[-1]}:{inner.lineno} in {inner.name}' if inner else (
        f'{last.filename}:{last.lineno}' if last else '?')
    return in_repo, loc
