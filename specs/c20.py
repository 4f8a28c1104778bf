"""C20: a successful edit has exactly the effect it was asked for, and the tree stays well-formed and is published."""
from specs.edits import EDITS, SHAPES, Heard, actual, described, model, normal, step, tree, well_formed


def done(env, m, heard, want, r, what):
    if not r.success:
        env.check(want is None, f'{what}: a request that can be carried out is carried out')
        return False
    well_formed(env, m)
    env.check(want is not None and normal(actual(m)) == normal(want), f'{what}: the tree is the one that was asked for')
    env.check(heard.last is not None, 'the tree is published after an edit')
    described(env, want, heard.last)
    env.cover(what)
    return True


def single(edits, shapes):
    def run(env):
        what = env.choice('edit', edits)
        shape = env.choice('tree', shapes)
        heard = Heard()
        m, t = tree(shape, publish_tree_structure_callback=heard), model(shape)
        well_formed(env, m)
        env.check(normal(actual(m)) == normal(t), 'the tree is the one that was made')
        want, r, _ = step(env, m, t, heard, what)
        done(env, m, heard, want, r, what)
    return run


def history(env):
    heard = Heard()
    shape = env.choice('tree', tuple(SHAPES))
    m, t = tree(shape, publish_tree_structure_callback=heard), model(shape)
    for i in range(8):
        what = env.choice(f'edit {i}', EDITS[:-1] + ('add', 'move', 'wire'))
        want, r, _ = step(env, m, t, heard, what, f' {i}')
        if done(env, m, heard, want, r, what):
            t = want


LIMIT = 'eleven trees of up to six nodes, all requests of a kind with the arguments listed in specs/edits.py'
# edits, trees
GROUPS = ((('add',), tuple(SHAPES)), (('add at',), ('wide', 'loose', 'empty')), (('add at',), ('row', 'limit')), (('add at',), ('deep', 'two trees', 'wired', 'one node')),
          (('add at',), ('full', 'typed')), (('remove', 'move', 'replace', 'rename', 'clear'), tuple(SHAPES)),
          (('morph', 'options'), tuple(SHAPES)), (('wire', 'unwire'), tuple(SHAPES)))


def harnesses(single):
    return [{'name': f'{", ".join(e)} ({len(s)} trees)' if s[0] == 'empty' else f'{", ".join(e)} ({", ".join(s)})', 'run': single(e, s),
             'native': True, 'limit': LIMIT, 'concrete': False} for e, s in GROUPS]


HARNESSES = harnesses(single)
HARNESSES.append({'name': 'history', 'run': history, 'prove': False, 'bound': 'histories of eight requests on the trees above'})
META = {'trusted': [], 'assumptions': ['an index given lies between -(n+1) and n for n children']}
