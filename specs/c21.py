"""C21: an edit that is refused leaves everything as it was; edits that would spoil the tree are refused."""
from specs.c20 import harnesses
from specs.edits import EDITS, SHAPES, Heard, actual, model, named, step, tree
from specs.tree import view


def seen(m):
    """What a user can see; the wirings in any order."""
    v = view(m, objects=False)
    return {**v, 'wirings': sorted(named(w) for w in m.wirings)}


def refusal(env, m, t, heard, what, tag=''):
    before = seen(m)
    want, r, _ = step(env, m, t, heard, what, tag)
    if r.success:
        env.check(want is not None, f'{what}: a request that would spoil the tree, or cannot be carried out, is refused')
        return True
    env.check(r.error_message != '', f'{what}: the reason for a refusal is reported')
    after = seen(m)
    for k in before:
        env.check(before[k] == after[k], f'{what}: a request that is refused changes nothing ({k})')
    for n in m.nodes.values():
        env.check(all(m.nodes.get(c.node_id) is c and c.parent is n for c in n.children),
                  f'{what}: a request that is refused changes nothing (links between nodes)')
    env.cover(what)
    return False


def single(edits, shapes):
    def run(env):
        what = env.choice('edit', edits)
        shape = env.choice('tree', shapes)
        heard = Heard()
        m = tree(shape, publish_tree_structure_callback=heard)
        refusal(env, m, model(shape), heard, what)
    return run


def history(env):
    heard = Heard()
    m = tree(env.choice('tree', tuple(SHAPES)), publish_tree_structure_callback=heard)
    for i in range(8):
        what = env.choice(f'edit {i}', EDITS[:-1] + ('add', 'move', 'wire'))
        refusal(env, m, actual(m), heard, what, f' {i}')


HARNESSES = harnesses(single)
HARNESSES.append({'name': 'history', 'run': history, 'prove': False, 'bound': 'histories of eight requests on the trees above'})
META = {'trusted': [], 'assumptions': ['an index given lies between -(n+1) and n for n children']}
