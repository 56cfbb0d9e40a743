"""C10: sub-mounts appear and disappear exactly as mounted and unmounted."""
import io
import os
import posixpath
import tarfile

from hypothesis import strategies as st

from vp import gen, view
from vp.core import Sub, Violation, check

ID = 'C10'
TECHNIQUE = 'model-based testing: generated sequences of mounting and unmounting against a map from mount points to the mounted views'
RULE = """
Sequences of mounting, unmounting and asking whether a path can be mounted with nested, occupied, parent and odd paths ('..', doubled
slashes, empty). After every step the whole tree (listing, metadata, contents, versions, extended attributes, absent paths, the owning
mount source) must be that of the model: each mounted view at its path, folders exactly above mount points, and nothing else. Refused
operations must change nothing, and closing must close everything that is still mounted exactly once. The second part drives the same
through the command file of a control interface mount and through mounting several inputs without union; whatever concerns other mount points must be handed to another process. Non-trivial: a nested mount
point existed and something was unmounted.
"""

POINTS = ['a', 'b', 'a/b', 'a/c', 'a/b/c', 'b/b', 'ä/é', 'c', 'a/b/c/d']
SPELLINGS = ['{}', '{}', '{}', '/{}', '{}/', '/{}/', './{}', '/x/../{}', '../{}', '{}/.', '/../../{}', 'x/./../{}//']
BAD = ['', '/', '.', '..', '/..', '//', './', '../..', 'a/..']


def contents():
    return st.lists(
        st.tuples(st.sampled_from(['f', 'g', 'd/f', 'd/e/g', 'f']), st.sampled_from(['file', 'file', 'dir', 'sym']), st.integers(0, 700)).map(list),
        min_size=1, max_size=5,
    )  # fmt: skip


@st.composite
def cases(draw):
    step = st.tuples(
        st.sampled_from(['mount'] * 4 + ['unmount'] * 3 + ['ask']), st.one_of(st.sampled_from(POINTS), st.sampled_from(POINTS), st.sampled_from(POINTS), st.sampled_from(BAD)),
        st.sampled_from(SPELLINGS), st.sampled_from(['tar', 'tar', 'folder', 'single', 'empty', 'union', 'sub']), contents(),
    ).map(list)  # fmt: skip
    return {'steps': draw(st.lists(step, min_size=4, max_size=16)), 'initial': draw(st.lists(st.sampled_from(POINTS), max_size=2, unique=True))}


def normalize(point):
    return posixpath.normpath('/' + point).strip('/')


def make_tar(nodes, number):
    members, kinds = [], {}
    for i, (name, kind, size) in enumerate(nodes):
        path = '/' + name
        if any(kinds.get(p, 'dir') != 'dir' for p in gen.parents_of(path)) or kinds.get(path, kind) != kind:
            continue
        if kind != 'dir' and any(p.startswith(path + '/') for p in kinds):
            continue
        for p in gen.parents_of(path):
            kinds.setdefault(p, 'dir')
        kinds[path] = kind
        member = {'name': name, 't': kind, 'fmt': 'pax', 'mode': 0o640 + i, 'mtime': 1000 * number + i, 'uid': number, 'gid': i}
        if kind == 'file':
            member['c'] = ['p', size, number * 100 + i]
            member['xattrs'] = {'user.n': str(i)}
        elif kind == 'sym':
            member['link'] = f'{number}'
        members.append(member)
    return gen.tar_bytes(members)


def make_source(kind, nodes, number, ctx):
    from ratarmountcore.mountsource.compositing.singlefile import SingleFileMountSource
    from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource
    from ratarmountcore.mountsource.compositing.union import UnionMountSource
    from ratarmountcore.mountsource.factory import open_mount_source
    from ratarmountcore.mountsource.formats.folder import FolderMountSource

    def tar(n):
        path = ctx.path(f'{n}.tar')
        with open(path, 'wb') as file:
            file.write(make_tar(nodes, n))
        return open_mount_source(path, writeIndex=False)

    if kind == 'tar':
        return tar(number)
    if kind == 'union':
        return UnionMountSource([tar(number), tar(number + 1000)])
    if kind == 'sub':
        return SubvolumesMountSource({'s/t': tar(number), 'u': tar(number + 1000)})
    if kind == 'single':
        return SingleFileMountSource('only', lambda buffering: io.BytesIO(b'%d' % number))
    folder = ctx.path(f'folder{number}')
    os.makedirs(folder)
    if kind == 'folder':
        with tarfile.open(fileobj=io.BytesIO(make_tar(nodes, number))) as archive:
            for member in archive:
                member.mode = 0o755 if member.isdir() else 0o644
                archive.extract(member, folder, filter='fully_trusted')
    return FolderMountSource(folder)


class Tracked:
    """Counts how often a mount source is closed."""

    def __init__(self, source):
        self.source, self.closed = source, 0
        original = source.__exit__

        def leave(*args):
            self.closed += 1
            return original(*args)

        # The class attribute is only used by with statements.
        source.__exit__ = leave


def stable(snapshot):
    """Generated folders have the current time."""
    return {path: {**entry, 'mtime': entry['mtime'] if entry['mtime'] < 1.5e9 else None} for path, entry in snapshot.items()}


def parents(point):
    return [point[:i] for i, c in enumerate(point) if c == '/']


def compare(ms, model, what):
    """model: {mount point: (mount source, snapshot)}"""
    folders = {p for point in model for p in parents(point)} | {''}
    expected = {}
    for folder in folders:
        expected['/' + folder] = {'type': 'dir'}
    for point, (_, snapshot) in model.items():
        for path, entry in snapshot.items():
            entry = dict(entry)
            if path == '/':
                entry['mtime'] = None
            expected['/' + point + (path if path != '/' else '')] = entry
    view.tree_diff(view.snapshot(ms, xattrs=True), expected, what=what)
    for path, entry in expected.items():
        check(ms.exists(path), '%s: %r does not exist', what, path)
        check(ms.versions(path) >= 1, '%s: %r has no versions', what, path)
        check(ms.is_dir(path) == (entry['type'] == 'dir'), '%s: is_dir(%r)', what, path)
        owner = next((p for p in model if path == '/' + p or path.startswith('/' + p + '/')), None)
        info = ms.lookup(path)
        prefix, found, inner = ms.get_mount_source(info)
        if owner is None:
            check(found is ms and prefix == '/', '%s: %r belongs to %r', what, path, prefix)
        else:
            source = model[owner][0]
            inner_path = path[len(owner) + 1 :] or '/'
            direct = source.get_mount_source(source.lookup(inner_path))
            check(found is direct[1], '%s: %r belongs to the wrong mount source', what, path)
            check(
                prefix == posixpath.normpath(f'/{owner}/{direct[0]}'), '%s: mount point of %r is %r', what, path, prefix,
            )  # fmt: skip
            if entry['type'] == 'file':
                view.equal_bytes(ms.read(ms.lookup(path), 5, 2), entry['data'][2:7], f'{what}: {path!r}')
        if entry['type'] == 'dir':
            modes = ms.list_mode(path)
            names = {p[len(path.rstrip('/')) + 1 :].split('/')[0] for p in expected if p.startswith(path.rstrip('/') + '/') and p != path}
            check(set(view.names_of(modes)) == names, '%s: %r lists %s instead of %s', what, path, view.names_of(modes), names)
            if isinstance(modes, dict):
                for name, mode in modes.items():
                    child = expected[view.join(path, name)]
                    check(view.ftype(mode) == child['type'], '%s: %r is listed as %s', what, view.join(path, name), view.ftype(mode))
    for point in POINTS + ['zz', 'a/zz', 'a/b/zz/y']:
        if '/' + point not in expected:
            check(
                ms.lookup('/' + point) is None and not ms.exists('/' + point) and ms.list('/' + point) is None and not ms.versions('/' + point),
                '%s: %r exists', what, point,
            )  # fmt: skip


def free(model, point):
    return bool(point) and not any(m == point or point.startswith(m + '/') or m.startswith(point + '/') for m in model)


def run(case, ctx):
    from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource
    from ratarmountcore.utils import RatarmountError

    model, tracked, number = {}, [], 0

    def new(kind, nodes):
        nonlocal number
        number += 1
        source = make_source(kind, nodes, number, ctx)
        tracked.append(Tracked(source))
        return source, stable(view.snapshot(source, xattrs=True))

    for point in case['initial']:
        if free(model, point):
            model[point] = new('tar', [['f', 'file', 5]])
    ms = SubvolumesMountSource({point: source for point, (source, _) in model.items()})
    compare(ms, model, 'initially')
    nested = unmounted = refused = False
    for action, point, spelling, kind, nodes in case['steps']:
        if action == 'unmount' and model and kind in ('tar', 'folder', 'empty', 'sub'):
            point = sorted(model)[len(nodes) % len(model)]
        path = spelling.format(point) if point in POINTS else point
        point = normalize(path)
        what = f'after {action} {path!r}'
        allowed = free(model, point)
        if action == 'ask':
            check(bool(ms.is_mountable(path)) == allowed, 'is_mountable(%r) is %s', path, not allowed)
        elif action == 'mount':
            source, snapshot = new(kind, nodes)
            try:
                mounted = ms.mount(path, source)
            except RatarmountError:
                mounted = False
            check(bool(mounted) == allowed, 'mounting at %r %s', path, 'succeeded' if mounted else 'was refused')
            if allowed:
                model[point] = (source, snapshot)
                nested = nested or '/' in point
            else:
                refused = True
        else:
            source = ms.unmount(path)
            if point in model:
                check(source is model[point][0], 'unmounting %r did not return what was mounted', path)
                _, snapshot = model.pop(point)
                # It must be usable still.
                view.tree_diff(view.snapshot(source, xattrs=True), snapshot, ignore=('mtime',), what='unmounted source')
                unmounted = True
            else:
                check(source is None, 'unmounting %r returned something', path)
        compare(ms, model, what)
    ms.join_threads()
    ms.__exit__(None, None, None)
    for item in tracked:
        still = any(item.source is source for source, _ in model.values())
        check(item.closed == still, 'a mount source was closed %s times', item.closed)
        if not still:
            item.source.__exit__(None, None, None)
    ctx.label('nested' if nested else 'flat', 'unmounted' if unmounted else 'only mounted', 'refused' if refused else 'all allowed')
    ctx.nontrivial(nested and unmounted)


# --- through the command line interface of a mount -------------------------------------------------------------------


@st.composite
def control_cases(draw):
    step = st.tuples(
        st.sampled_from(['mount'] * 3 + ['unmount', 'bad', 'elsewhere']), st.sampled_from(POINTS[:6]), st.sampled_from(['{}', '{}/', './{}', 'MP/{}', 'MP//{}']),
        contents(), st.integers(1, 2),
    ).map(list)  # fmt: skip
    return {
        'inputs': draw(st.lists(st.tuples(st.sampled_from(['x.tar', 'y.tar', 'ä.tar']), contents(), st.integers(0, 2)).map(list), max_size=3)),
        'steps': draw(st.lists(step, min_size=1, max_size=6)), 'control': draw(st.booleans()), 'delimiter': draw(st.sampled_from([' ', '\n', '\0'])),
    }  # fmt: skip


def run_control(case, ctx):
    from ratarmount.FuseMount import FuseMount

    paths, model, count = [], {}, 0

    def archive(name, nodes, folder=None):
        nonlocal count
        count += 1
        os.makedirs(ctx.path(f'in{count}'))
        path = ctx.path(f'in{count}/{name}')
        with open(path, 'wb') as file:
            file.write(make_tar(nodes, count))
        return path

    for name, nodes, as_folder in case['inputs']:
        path = archive(name, nodes)
        paths.append(os.path.dirname(path) + ('/' if as_folder == 2 else '') if as_folder else path)
    control = case['control'] or not paths
    mount_point = ctx.path('mp')
    os.makedirs(mount_point)
    # Several inputs and therefore subvolumes are needed if there are any.
    if len(paths) == 1:
        paths.append(archive('second.tar', [['f', 'file', 1]]))
    fuse_mount = FuseMount(
        paths, mount_point, disableUnionMount=bool(paths), controlInterface=control, enableFileVersions=False, indexFilePath=':memory:',
    )  # fmt: skip
    ctx.stack.callback(fuse_mount._close)
    from ratarmountcore.mountsource.factory import open_mount_source

    def reference(path):
        with open_mount_source(path, writeIndex=False) as ms:
            return stable(view.snapshot(ms, xattrs=True))

    used = {}
    for path in paths:
        name = os.path.basename(os.path.abspath(path))
        used[name] = used.get(name, 0) + 1
        if used[name] > 1:
            name = next(n for n in fuse_mount.mountSource.list('/') if n.startswith(name + '.') and n not in model)
        model[name] = (None, reference(path))

    def tree():
        found = view.snapshot(fuse_mount.mountSource, xattrs=True, skip=lambda p: p.startswith('/.ratarmount-control'))
        return found

    def matches(what):
        folders = {p for point in model for p in parents(point)} | {''}
        expected = {'/' + folder: {'type': 'dir'} for folder in folders}
        for point, (_, snapshot) in model.items():
            for path, entry in snapshot.items():
                expected['/' + point + (path if path != '/' else '')] = dict(entry, mtime=None) if path == '/' else entry
        view.tree_diff(tree(), expected, what=what)

    matches('initially')
    if not control:
        ctx.label('without union')
        ctx.nontrivial(len(paths) >= 2)
        return

    def command(*arguments):
        delimiter = case['delimiter']
        text = delimiter.join(['ratarmount', *arguments]) + ('\n' if delimiter == ' ' else '')
        handle = fuse_mount.open('/.ratarmount-control/command', os.O_WRONLY)
        fuse_mount.write('/.ratarmount-control/command', text.encode(), 0, handle)
        fuse_mount.release('/.ratarmount-control/command', handle)

    from ratarmount import FuseMount as module

    started = []

    class Popen:
        """Commands not concerning this mount point are executed in another process."""

        def __init__(self, arguments, **_options):
            started.append(list(arguments))

        def poll(self):
            return 0

        def wait(self, timeout=None):
            return 0

    original, module.subprocess.Popen = module.subprocess.Popen, Popen
    ctx.stack.callback(setattr, module.subprocess, 'Popen', original)
    changed = False
    for action, point, spelling, nodes, amount in case['steps']:
        path = spelling.format(point).replace('MP', mount_point)
        before = tree()
        if action == 'mount':
            sources = [archive('s.tar', nodes) for _ in range(amount)]
            command('--index-file', ':memory:', *sources, path)
            if free(model, point):
                if amount == 1:
                    model[point] = (None, reference(sources[0]))
                else:
                    model[point] = (None, {**reference(sources[0]), **reference(sources[1])})
                changed = True
        elif action == 'unmount':
            command('--unmount', path)
            model.pop(point, None)
        elif action == 'elsewhere':
            # Everything concerning other mount points must be left to another process.
            other = ctx.path(f'elsewhere/{point}')
            if amount == 1:
                command(archive('s.tar', nodes), other)
                check(len(started) == 1 and started[0][-1] == other and started[0][-2].endswith('s.tar'), 'started %s', started)
            else:
                command('--unmount', path, other, mount_point)
                model.pop(point, None)
                check(len(started) == 1 and started[0][-3:] == ['--unmount', other, mount_point], 'started %s', started)
        else:
            # Nothing of this exists.
            command(f'{mount_point}/missing.tar', path)
            view.tree_diff(tree(), before, ignore=('mtime',), what='after mounting nothing')
        check(action == 'elsewhere' or not started, 'started %s for %r', started, path)
        started.clear()
        matches(f'after {action} {path!r}')
    ctx.label('control interface', 'with inputs' if paths else 'without inputs')
    ctx.nontrivial(changed)


SUBS = [
    Sub('sequences', cases, run, 300, 30000),
    Sub('control', control_cases, run_control, 60, 5000),
]
