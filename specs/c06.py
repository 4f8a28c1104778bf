"""C06: decorators that repeat their child."""
from ros_bt_py.nodes import decorators as D
from specs.deco import always, decorator, no_reset_before, repeat, repeat_no_reset, retry, until_fail, until_success


def both(env, cls, plan, **kw):
    decorator(env, cls, env.choice('children', [0, 1]), plan, 'SUCCEEDED', paused=True, **kw)


HARNESSES = [
    {'name': 'retry', 'run': lambda e: both(e, D.Retry, retry, inputs=[('num_retries', 0)])},
    {'name': 'repeat', 'run': lambda e: both(e, D.Repeat, repeat, inputs=[('num_repeats', 1)])},
    {'name': 'repeat-no-auto-reset',
     'run': lambda e: both(e, D.RepeatNoAutoReset, repeat_no_reset, inputs=[('num_repeats', 1)], before=no_reset_before,
                           child_reset=lambda g: True if g.c < g.N else False)},
    {'name': 'repeat-always', 'run': lambda e: both(e, D.RepeatAlways, always)},
    {'name': 'repeat-until-fail', 'run': lambda e: both(e, D.RepeatUntilFail, until_fail)},
    {'name': 'repeat-if-fail', 'run': lambda e: both(e, D.RepeatIfFail, until_success)},
]
