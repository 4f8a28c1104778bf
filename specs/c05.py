"""C05: decorators that map the result of their child."""
from ros_bt_py.nodes import decorators as D
from specs.deco import decorator, mapping, until_success, watch_before


def running(flag):
    def run(env):
        def plan(g, out):
            return ('SUCCEEDED' if flag else 'FAILED') if out == 'RUNNING' else out, 0
        decorator(env, lambda: _running(env, flag), 1, plan)
    return run


def _running(env, flag):
    from specs.world import give
    n = D.IgnoreRunning()
    give(env, n, 'running_is_success', flag)
    return n


def empty_running(env):
    flag = env.bool('flag')
    decorator(env, lambda: _running(env, flag), 0, None, 'FAILED')


def both(env, cls, plan, empty, **kw):
    decorator(env, cls, env.choice('children', [0, 1]), plan, empty, **kw)


HARNESSES = [
    {'name': 'ignore-failure', 'run': lambda e: both(e, D.IgnoreFailure, mapping(FAILED='SUCCEEDED'), 'SUCCEEDED')},
    {'name': 'ignore-success', 'run': lambda e: both(e, D.IgnoreSuccess, mapping(SUCCEEDED='FAILED'), 'FAILED')},
    {'name': 'ignore-running-as-success', 'run': running(True)},
    {'name': 'ignore-running-as-failure', 'run': running(False)},
    {'name': 'ignore-running-empty', 'run': empty_running},
    {'name': 'inverter', 'run': lambda e: both(e, D.Inverter, mapping(FAILED='SUCCEEDED', SUCCEEDED='FAILED'), 'SUCCEEDED')},
    {'name': 'until-success', 'run': lambda e: both(e, D.UntilSuccess, until_success, 'SUCCEEDED')},
    {'name': 'optional', 'run': lambda e: both(e, D.Optional, mapping(), 'SUCCEEDED', utility=(True, False, 'ERR'))},
    {'name': 'watch', 'run': lambda e: both(e, D.Watch, mapping(), 'SUCCEEDED', before=watch_before, pre_untick=True)},
]
