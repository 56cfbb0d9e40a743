"""C26: mounted folders, indexed or not, mirror the real folder."""
import os
import posixpath
import stat

from hypothesis import strategies as st

from vp import formats, gen, view
from vp.core import Sub, check

ID = 'C26'
TECHNIQUE = 'property-based testing: generated real folders compared with lstat, readlink, getxattr, and read; differential between plain and indexed'
RULE = """
A real folder with files, folders, symbolic links (dangling, absolute, inside, and relative ones that point out of the folder to an existing
file), hard links, FIFOs, names that are not valid Unicode, all permissions, owners, sub-second and negative times, and extended attributes is mounted
plain, with a new index (in memory or stored), and again with its stored index; also given as relative path, with trailing slash, or as a
symbolic link to the folder. Paths, types, permissions, owners, sizes, times, link targets, extended attributes and contents must be what the
operating system says. Then the folder is changed and compared again (the plain one, and one indexed anew). Absent paths must be absent.
Non-trivial: at least two non-empty files and a folder with something in it.
"""
ASSUMES = [
    'Relative symbolic links that leave the mounted folder are shown as what they point to, which the code documents.',
]
OUTSIDE = ['../outside', '../out/file', '../../missing outside', '../out']


@st.composite
def cases(draw):
    tree = draw(formats.trees(maximum=3000, long=True, depth=3, size=12, kinds=('file', 'file', 'file', 'dir', 'sym', 'sym', 'fifo', 'hard')))
    extra = st.tuples(
        st.integers(0, 30), st.sampled_from(['xattr', 'xattr', 'time', 'time', 'owner', 'bytes', 'outside']), st.integers(0, 50),
    ).map(list)  # fmt: skip
    changes = st.tuples(st.sampled_from(['write', 'delete', 'create', 'chmod', 'rename', 'time']), st.integers(0, 30)).map(list)
    return {
        'tree': tree, 'extra': draw(st.lists(extra, max_size=8)), 'changes': draw(st.lists(changes, max_size=4)),
        'via': draw(st.sampled_from(['path', 'path', 'relative', 'slash', 'symlink', 'dot'])),
        'index': draw(st.sampled_from(['memory', 'path', 'folders'])),
        'order': draw(st.sampled_from(['plain first', 'indexed first'])),
    }  # fmt: skip


def create(root, case):
    kinds = ('file', 'dir', 'sym', 'fifo', 'hard')
    raw = [{**n, 'link': n.get('link') or 'a', 'c': n.get('c') or ['p', 5, 1]} for n in case['tree']]
    tree = formats.legal(raw, kinds=kinds, allow=lambda s: len(s.encode('utf-8', 'surrogateescape')) < 250)
    broken = {}
    for number, kind, value in case['extra']:
        if kind == 'bytes' and tree and '/' not in tree[number % len(tree)]['p']:
            broken[tree[number % len(tree)]['p']] = ['\udcff', 'x\udc80y', '\udce4'][value % 3] + str(number)
    for node in tree:
        first, slash, rest = node['p'].partition('/')
        node['p'] = broken.get(first, first) + slash + rest
    files = []
    os.mkdir(root)
    for node in formats.with_parents(tree):
        path = os.path.join(root, node['p'])
        if node['t'] == 'dir':
            os.mkdir(path)
        elif node['t'] == 'fifo':
            os.mkfifo(path)
        elif node['t'] == 'sym':
            os.symlink(node['link'], path)
        elif node['t'] == 'hard' and files:
            os.link(files[node['mtime'] % len(files)], path)
        else:
            with open(path, 'wb') as file:
                file.write(gen.data(node['c']))
            files.append(path)
    paths = [os.path.join(root, n['p']) for n in formats.with_parents(tree)]
    for number, kind, value in case['extra'] if paths else ():
        path = paths[number % len(paths)]
        if kind == 'xattr' and not os.path.islink(path) and stat.S_ISREG(os.lstat(path).st_mode):
            os.setxattr(path, 'user.' + ['a', 'b c', 'ä'][value % 3], [b'', b'1', b'\x00\xff' * 20][value % 3])
        elif kind == 'owner':
            os.chown(path, value, value * 1000, follow_symlinks=False)
        elif kind == 'outside' and os.path.islink(path):
            os.unlink(path)
            depth = os.path.relpath(path, root).count('/')
            os.symlink('../' * depth + OUTSIDE[value % len(OUTSIDE)], path)
    for node in formats.with_parents(tree):
        path = os.path.join(root, node['p'])
        if node['t'] not in ('sym',):
            os.chmod(path, node['mode'])
    times = {paths[number % len(paths)]: value for number, kind, value in case['extra'] if kind == 'time'} if paths else {}
    for node in sorted(formats.with_parents(tree), key=lambda n: -n['p'].count('/')):
        path = os.path.join(root, node['p'])
        time = node['mtime'] * 10**9
        if path in times:
            time = [-(10**9), -1, 1, 500_000_000, 1234567890_123456789, 2**33 * 10**9 + 999_999_999][times[path] % 6]
        os.utime(path, ns=(time, time), follow_symlinks=False)
    return tree


def real_view(root):
    """What the operating system says."""
    result = {}

    def add(path, real):
        info = os.lstat(real)
        link = os.readlink(real) if stat.S_ISLNK(info.st_mode) else ''
        if link and not link.startswith('/'):
            # Lexically, as links in the folder part of the path are not followed.
            if posixpath.normpath(posixpath.join(os.path.dirname(path.lstrip('/')), link)).startswith('..') and os.path.exists(real):
                ups = lowest = 0
                for part in link.split('/'):
                    ups += part == '..' or -(part not in ('.', ''))
                    lowest = max(lowest, ups)
                assert lowest > path.strip('/').count('/')
                real = os.path.realpath(real)
                info, link = os.stat(real), ''
        kind = view.ftype(info.st_mode)
        entry = {
            'type': kind, 'perm': stat.S_IMODE(info.st_mode), 'uid': info.st_uid, 'gid': info.st_gid, 'mtime': info.st_mtime, 'link': link,
            'xattrs': {key: os.getxattr(real, key, follow_symlinks=False) for key in os.listxattr(real, follow_symlinks=False)},
        }  # fmt: skip
        result[path] = entry
        if kind == 'file':
            with open(real, 'rb') as file:
                entry['data'] = file.read()
            entry['size'] = len(entry['data'])
        elif kind == 'dir':
            for name in os.listdir(real):
                add(view.join(path, name), os.path.join(real, name))

    add('/', root)
    return result


def change(root, changes):
    for kind, number in changes:
        entries = sorted(os.path.join(folder, name) for folder, folders, files in os.walk(root) for name in folders + files)
        if not entries:
            break
        path = entries[number % len(entries)]
        regular = stat.S_ISREG(os.lstat(path).st_mode)
        if kind == 'write' and regular:
            with open(path, 'ab') as file:
                file.write(b'changed' * number)
        elif kind == 'delete' and not os.path.isdir(path):
            os.unlink(path)
        elif kind == 'create':
            folder = os.path.dirname(path)
            with open(os.path.join(folder, f'created {number}'), 'wb') as file:
                file.write(b'new' * number)
        elif kind == 'chmod' and not os.path.islink(path):
            os.chmod(path, 0o700 + number)
        elif kind == 'rename':
            os.rename(path, path + 'r')
        elif kind == 'time':
            os.utime(path, ns=(number, number * 10**9 + 5), follow_symlinks=False)


def absent(ms, expected):
    for path in list(expected)[:6]:
        for wrong in [view.join(path, 'no such'), path + 'x' if path != '/' else '/no-such-entry', view.join(path, '..x')]:
            if wrong in expected:
                continue
            check(ms.lookup(wrong) is None, 'lookup finds %r', wrong)
            check(not ms.exists(wrong), 'exists is true for %r', wrong)
            check(ms.list(wrong) is None, '%r can be listed', wrong)
            check(ms.list_mode(wrong) is None, '%r can be listed', wrong)
            check(ms.versions(wrong) == 0, '%r has versions', wrong)
    for path, entry in expected.items():
        if entry['type'] != 'dir':
            check(ms.list(path) is None, '%r with type %s can be listed', path, entry['type'])
            check(ms.list_mode(path) is None, '%r with type %s can be listed', path, entry['type'])
    for path, entry in list(expected.items())[:8]:
        if entry['type'] == 'file':
            check(ms.get_xattr(ms.lookup(path), 'user.absent') is None, 'an absent extended attribute of %r has a value', path)
        check(ms.versions(path) == 1, '%r has %s versions', path, ms.versions(path))


def run(case, ctx):
    from ratarmountcore.mountsource.factory import open_mount_source

    for name in ('work', 'work/out', 'indexes'):
        os.mkdir(ctx.path(name))
    for name in ('outside', 'out/file'):
        with open(ctx.path('work', name), 'wb') as file:
            file.write(b'outside ' + name.encode())
    root = ctx.path('work', 'root')
    create(root, case)
    source = root
    previous = os.getcwd()
    ctx.stack.callback(os.chdir, previous)
    if case['via'] == 'relative':
        os.chdir(ctx.path('work'))
        source = 'root'
    elif case['via'] == 'dot':
        os.chdir(root)
        source = '.'
    elif case['via'] == 'slash':
        source = root + '/'
    elif case['via'] == 'symlink':
        source = ctx.path('link')
        os.symlink('work/root', source)
    options = {'forceFolderIndex': True}
    if case['index'] == 'memory':
        options['indexFilePath'] = ':memory:'
    elif case['index'] == 'path':
        options['indexFilePath'] = ctx.path('indexes', 'i.sqlite')
    else:
        options['indexFolders'] = [ctx.path('indexes')]

    def compare(ms, expected, what, plain):
        fields = None if plain else {'type', 'perm', 'uid', 'gid', 'mtime', 'link', 'size', 'data'}
        snapshot = view.snapshot(ms, xattrs=plain)
        if not plain:
            # The index does not store the root folder.
            expected = {**expected, '/': {'type': 'dir'}}
            if not case.get('strict'):
                # Links to folders outside are not followed, see known/C26-outside-folder.json.
                outside = [p for p in expected if p != '/' and expected[p]['type'] == 'dir' and os.path.islink(root + p)]
                expected = {p: e for p, e in expected.items() if not any(p.startswith(o + '/') for o in outside)}
                expected.update({p: {'type': 'sym', 'link': os.readlink(root + p)} for p in outside})
        view.tree_diff(snapshot, expected, fields=fields, what=what)
        absent(ms, expected)

    expected = real_view(root)
    # Names that are not valid Unicode are escaped in indexes, see known/C26-invalid-unicode.json.
    indexable = case.get('strict') or not any('\udc80' <= c <= '\udcff' for path in expected for c in path)
    for kind in ['plain', 'indexed'] if case['order'] == 'plain first' else ['indexed', 'plain']:
        if kind == 'plain':
            with open_mount_source(source) as ms:
                compare(ms, expected, 'plain folder', True)
        elif indexable:
            for number in range(1 if case['index'] == 'memory' else 2):
                with open_mount_source(source, **options) as ms:
                    compare(ms, expected, 'indexed folder' + (' with stored index' if number else ''), False)
                if case['index'] != 'memory':
                    check(len(os.listdir(ctx.path('indexes'))) == 1, 'index files: %s', os.listdir(ctx.path('indexes')))
    ctx.label(case['via'], case['index'], *{e['type'] for e in expected.values()})
    if case['changes']:
        with open_mount_source(source) as ms:
            change(root, case['changes'])
            changed = real_view(root)
            compare(ms, changed, 'changed folder', True)
        if indexable:
            with open_mount_source(source, **{**options, 'clearIndexCache': True}) as ms:
                compare(ms, changed, 'changed folder, indexed again', False)
    ctx.nontrivial(sum(bool(e.get('data')) for e in expected.values()) >= 2 and any(p.count('/') > 1 for p in expected))


SUBS = [Sub('folders', cases, run, 500, 40000)]
