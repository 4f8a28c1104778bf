"""C27: where and how trees are saved."""
import os
import shutil
import tempfile

import rosidl_runtime_py
from ros_bt_py import package_manager as P
from ros_bt_py_interfaces.msg import NodeStructure, TreeStructure
from ros_bt_py_interfaces.srv import SaveTree
from specs.execution import patch


class Metadata:
    @staticmethod
    def version(name):
        return '1.2.3'


OUT = object()
# what the storage folder has in it: name -> text (None: a folder)
CONTENTS = (
    {}, {'a.yaml': 'A', 'a_2.yaml': 'B', 'd': None, 'd/b': 'C', '.rc': 'D'},
    {'a.yaml': 'A', 'd.yaml': None, 'a_2.yaml': None, 'd': 'file', 'b_9': 'E', 'b_10': 'F', 'b_11': 'G'},
)
NAMES = ('a.yaml', 'a_2.yaml', 'new.yaml', 'd', 'd/', 'd/b', 'd/c.yaml', 'new/x.yaml', 'new/y/z', 'a.yaml/x', 'd.yaml', '', '.', '..', '/',
         './a.yaml', 'd/../a.yaml', 'd/./b', 'd//b', '../x.yaml', '../../x.yaml', 'd/../../x.yaml', '../other/x.yaml', '../storage2/x.yaml',
         '../storage', '../storage/q.yaml', '../storage/a.yaml', '.rc', 'b_9', 'b_10', '..yaml', '...', ' a', 'ä.yaml', 'a\0b', 'x' * 300,
         'new/' + 'x' * 300, 'a_2.yaml/', 'a.yaml/', ('abs', 'storage/q.yaml'), ('abs', 'other/q.yaml'), ('abs', 'x.yaml'), ('abs', 'storage'),
         ('abs', 'storage2/q.yaml'), ('abs', 'other/keep.yaml'))
STORAGES = ('storage', 'other', 'storage/', 'missing', '', '.', 'storage/../storage')


def look(top):
    """Every file and folder below top."""
    found = {}
    for d, folders, files in os.walk(top):
        for f in folders:
            found[os.path.relpath(os.path.join(d, f), top)] = None
        for f in files:
            with open(os.path.join(d, f), 'rb') as h:
                found[os.path.relpath(os.path.join(d, f), top)] = h.read()
    return found


def scene(env):
    """A scratch folder in which every name of the list stays, with two storage folders, one of them not there yet."""
    top = tempfile.mkdtemp(prefix='verif-c27-')
    env.defer(lambda: shutil.rmtree(top, ignore_errors=True))
    patch(env, P, 'metadata', Metadata)
    base = os.path.join(top, 'w')
    for d in ('storage', 'storage2', 'other'):
        os.makedirs(os.path.join(base, d))
    with open(os.path.join(base, 'other', 'keep.yaml'), 'w') as h:
        h.write('keep')
    for name, text in env.choice('contents', CONTENTS).items():
        f = os.path.join(base, 'storage', name)
        if text is None:
            os.makedirs(f)
        else:
            with open(f, 'w') as h:
                h.write(text)
    return top, base, P.PackageManager([os.path.join(base, 'storage'), os.path.join(base, 'missing')])


def tree(name='t'):
    return TreeStructure(name=name, path='package://old/path.yaml', tick_frequency_hz=3.5, nodes=[NodeStructure(name='n', module='m', node_class='C')])


def save(env, m, base, storage, name, overwrite, rename, tag='t'):
    if isinstance(name, tuple):
        name = os.path.join(base, name[1])
    req = SaveTree.Request(storage_path=os.path.join(base, storage) if storage not in ('', '.') else storage, filepath=name,
                           allow_overwrite=overwrite, allow_rename=rename, tree=tree(tag))
    return req, m.save_tree_to_path(req, SaveTree.Response())


def written(tag):
    t = tree(tag)
    t.path = ''
    return ('version: 1.2.3\n' + rosidl_runtime_py.message_to_yaml(t)).encode()


def saving(env):
    """save_tree_to_path, and a second request of the same kind"""
    top, base, m = scene(env)
    storage = env.choice('storage', STORAGES)
    name = env.choice('name', NAMES) if storage in ('storage', 'missing') else env.choice('name', ('a.yaml', 'q.yaml'))
    overwrite, rename = env.choice('overwrite', (False, True)), env.choice('rename', (False, True))
    for turn in (0, 1):
        tag = f't{turn}'
        before = look(top)
        _, r = save(env, m, base, storage, name, overwrite, rename, tag)
        after = look(top)
        text = name if isinstance(name, str) else os.path.join(base, name[1])
        inside = os.path.relpath(os.path.join(base, storage or '.'), top)
        target = os.path.relpath(os.path.normpath(os.path.join(top, inside, text)), top)
        allowed = storage in ('storage', 'missing') and target.startswith(inside + '/') and '\0' not in text
        parents = [target[:i] for i in range(len(target)) if target[i] == '/'] if allowed else []
        blocked = any(before.get(p) is not None for p in parents) or any(len(p) > 255 for p in target.split('/'))
        exists = target in before
        new = {k: v for k, v in after.items() if k not in before or before[k] != v}
        files = {k: v for k, v in new.items() if v is not None}
        env.check(all(k in after for k in before), 'nothing is removed')
        env.check(all(before.get(k) is None for k in new) or overwrite and not rename, 'a file is overwritten only if that is allowed')
        if not allowed or blocked or exists and before[target] is None or exists and not overwrite and not rename:
            env.check(r.success is False, 'what cannot be saved as it is asked for is refused')
            env.check(files == {}, 'a request that is refused writes nothing')
            env.check(all(k.startswith('w/' + storage + '/') or k == 'w/missing' for k in new), 'no folder is made outside the storage folder')
            env.check(r.error_message != '', 'a refusal has a reason')
            env.cover('refused')
            continue
        env.check(r.success is True, 'what can be saved is saved')
        env.check(len(files) == 1, 'one file is written')
        got = list(files)[0]
        if exists and rename:
            env.check(got not in before and os.path.dirname(got) == os.path.dirname(target), 'a new name in the same folder is chosen')
            env.check(os.path.splitext(got)[1] == os.path.splitext(target)[1], 'the new name has the extension that was asked for')
            env.cover('renamed')
        else:
            env.check(got == target, 'the file that is written is the one that was asked for')
            env.cover('overwritten' if exists else 'new')
        env.check(files[got] == written(tag), 'the file has the tree, without its path')
        env.check(all(got.startswith(k + '/') for k in new if k != got), 'only the folders the file needs are made')
        env.check(os.path.normpath(r.file_path) == os.path.join(top, got), 'the answer has the path of the file')


def unwritable(env):
    """A tree that cannot be written leaves the file as it was."""
    top, base, m = scene(env)
    name = env.choice('name', ('a.yaml', 'new.yaml', 'd/b'))
    before = look(top)
    def fails(msg):
        raise env.choice('error', (IOError, ValueError))('no')
    patch(env, P.rosidl_runtime_py, 'message_to_yaml', fails)
    _, r = save(env, m, base, 'storage', name, True, env.choice('rename', (False, True)))
    env.check(r.success is False, 'a tree that cannot be written is refused')
    after = look(top)
    env.check({k: v for k, v in after.items() if v is not None} == {k: v for k, v in before.items() if v is not None},
              'a request that is refused writes nothing')
    env.cover('refused')


STARTS = ('', 'a', 'a_1', 'a_9', 'a_99', 'a_', '_7', 'a_1\n', 'a_1_2', 'a_01', 'x y_3', 'a1', 'ä_5', '1')


def unique(env):
    """increment_name gives a name that is new each time; make_filepath_unique one that is not taken."""
    name = env.choice('name', STARTS)
    seen = {name}
    for _ in range(4):
        n = P.increment_name(name)
        env.check(n not in seen, 'the names are different')
        env.check(n.startswith(name.rsplit('_', 1)[0] if '_' in name and name.rsplit('_', 1)[1].isdigit() else name), 'the beginning of the name is kept')
        seen.add(n)
        name = n
    top = tempfile.mkdtemp(prefix='verif-c27-')
    env.defer(lambda: shutil.rmtree(top, ignore_errors=True))
    taken = env.choice('taken', ((), ('a.x',), ('a.x', 'a_2.x'), ('a.x', 'a_2.x', 'a_3.x', 'a_5.x'), ('a_2.x',), ('a_9.x', 'a_10.x', 'a')))
    for f in taken:
        open(os.path.join(top, f), 'w').close()
    ask = env.choice('ask', ('a.x', 'a_2.x', 'a_9.x', 'a', 'b'))
    got = P.make_filepath_unique(os.path.join(top, ask))
    env.check(os.path.dirname(got) == top and not os.path.exists(got), 'a name that is not taken is chosen')
    if ask not in taken:
        env.check(got == os.path.join(top, ask), 'a name that is not taken is kept')
    env.cover('renamed' if ask in taken else 'kept')


def storages(env):
    """Structures are listed of storage folders only, with every file in them."""
    top, base, m = scene(env)
    from ros_bt_py_interfaces.srv import GetFolderStructure
    import json
    folder = env.choice('folder', ('storage', 'other', '', 'storage/d', 'missing'))
    hidden = env.choice('hidden', (False, True))
    path = os.path.join(base, folder) if folder else ''
    r = m.get_folder_structure(GetFolderStructure.Request(storage_folder=path, show_hidden=hidden), GetFolderStructure.Response())
    if folder not in ('storage', 'missing'):
        env.check(r.success is False and r.storage_folder_structure == '', 'only storage folders are listed')
        env.cover('refused')
        return
    env.check(r.success is True, 'a storage folder is listed')
    found, ids = {}, []

    def walk(d, at, parent):
        ids.append(d['item_id'])
        env.check(d['parent'] == parent, 'an entry names the one it is in')
        if at:
            found[at] = d['type']
        for c in d.get('children', ()):
            walk(c, f"{at}/{c['name']}" if at else c['name'], d['item_id'])
    walk(json.loads(r.storage_folder_structure), '', 0)
    have = look(path)
    want = {k: 'directory' if v is None else 'file' for k, v in have.items() if hidden or not any(p.startswith('.') for p in k.split('/'))}
    env.check(found == want, 'what is listed is what is there')
    env.check(len(set(ids)) == len(ids), 'every entry has a number of its own')
    env.cover('listed')


HARNESSES = [
    {'name': 'save', 'run': saving, 'native': True, 'limit': 'names and contents from lists, two requests', 'prove_s': 200},
    {'name': 'unwritable', 'run': unwritable, 'native': True, 'limit': 'names and contents from lists'},
    {'name': 'unique', 'run': unique, 'native': True, 'limit': 'names from lists'},
    {'name': 'list', 'run': storages, 'native': True, 'limit': 'contents from lists'},
]
META = {'trusted': ['the file system of the sandbox does what it says'],
        'assumptions': ['no other process changes the storage folders during a request', 'storage folders have no symbolic links in them']}
