"""C20: the write overlay behaves like a writable copy of the archive."""
import errno
import gc
import io
import os
import stat
import time
import zipfile

from hypothesis import strategies as st

from vp import gen, view
from vp.core import Sub, Violation, check

ID = 'C20'
TECHNIQUE = (
    'model-based stateful testing: generated sequences of file system operations on a mount with a write overlay, compared with the same '
    'operations on a real folder after every step'
)
RULE = """
An archive (or an archive united with a folder) and a real folder with the same contents get the same sequence of operations: creating,
writing (at any offset, appending, truncating while opening, with handles kept open over other operations), truncating, making and removing
folders, deleting, renaming (also folders, over existing targets, and over deleted ones), symbolic and hard links, FIFOs, changing modes,
owners and times, and mounting again with the same overlay folder. The operations of the mount are driven like the kernel does, i.e., with
the existence and type checks done before. After every operation its result, the whole tree with types, modes, owners, sizes, times, link
targets and contents must be equal; operations refused with EXDEV must change nothing. Everything mounted must stay unmodified. Non-trivial:
at least two successful changes to something that is in the archive. A second part changes metadata in archives inside of archives which all
have the same member names and compares the tree with a model.
"""
NOTE = (
    'Handles opened before the first change to a file of the archive are only used for writing and for reading after that. Changing the '
    'metadata of files while they have several hard links is not generated because it is stored per path.'
)

NAMES = ['a', 'b', 'c', 'ä b', '.ratarmount.overlay.sqlite']
PATHS = ['/a', '/b', '/c', '/d', '/d/a', '/d/b', '/d/e', '/d/e/a', '/d/e/b', '/ä b', '/x/y/a', '/x/y', '/x', '/d/.ratarmount.overlay.sqlite']
MODES = [0o644, 0o600, 0o755, 0o000, 0o444, 0o777]

paths = st.sampled_from(PATHS)
# Numbers select one of the currently suitable paths.
targets = st.one_of(paths, st.integers(0, 30), st.integers(0, 30), st.integers(0, 30))
SUITABLE = {
    'create': ['new'], 'mkdir': ['new'], 'symlink': ['new'], 'mknod': ['new'], 'write': ['file'], 'truncate': ['file'], 'hold': ['file'],
    'rmdir': ['dir'], 'unlink': ['file', 'sym', 'fifo'], 'rename': ['file', 'dir', 'sym', 'file', 'fifo'], 'link': ['file', 'sym'],
    'chmod': ['file', 'dir', 'fifo'], 'chown': ['file', 'dir', 'sym', 'fifo'], 'utimens': ['file', 'dir', 'sym', 'sym', 'sym', 'fifo'],
}  # fmt: skip
contents = st.tuples(st.just('p'), st.sampled_from([0, 1, 100, 4096, 70000]), st.integers(0, 9)).map(list)


@st.composite
def operations(draw):
    name = draw(
        st.sampled_from(
            ['create'] * 3 + ['write'] * 4 + ['truncate'] * 3 + ['mkdir'] * 3 + ['rmdir'] * 3 + ['unlink'] * 4 + ['rename'] * 6 + ['symlink', 'symlink', 'link', 'link']
            + ['mknod', 'chmod', 'chmod', 'chown', 'utimens', 'utimens', 'remount', 'hold', 'hold', 'use', 'use', 'drop'],
        )
    )  # fmt: skip
    operation = [name]
    if name not in ('remount', 'use', 'drop'):
        operation.append(draw(targets))
    if name == 'create':
        operation += [draw(st.sampled_from(MODES)), draw(contents)]
    elif name == 'write':
        operation += [draw(st.sampled_from(['', '', 'trunc', 'append'])), draw(st.integers(0, 300)), draw(st.integers(0, 200)), draw(st.booleans())]
    elif name == 'truncate':
        operation.append(draw(st.sampled_from([0, 1, 50, 100, 5000])))
    elif name in ('mkdir', 'mknod', 'chmod'):
        operation.append(draw(st.sampled_from(MODES)))
    elif name in ('rename', 'link'):
        operation.append(draw(targets))
    elif name == 'symlink':
        operation.append(draw(st.sampled_from(['a', 'b', 'c', 'a', '../b', 'missing', '/a', 'ä'])))
    elif name == 'chown':
        operation += [draw(st.sampled_from([-1, 0, 1000, 65534])), draw(st.sampled_from([0, 5, 1000]))]
    elif name == 'utimens':
        operation.append(draw(st.sampled_from([0, 1, 10**9, 1234567890 * 10**9, 1234567890123456789, 4 * 10**18])))
    elif name == 'hold':
        operation.append(draw(st.sampled_from(['', 'trunc'])))
    elif name == 'use':
        operation += [draw(st.integers(0, 3)), draw(st.integers(0, 200)), draw(st.integers(1, 100)), draw(st.booleans())]
    elif name == 'drop':
        operation.append(draw(st.integers(0, 3)))
    return operation


@st.composite
def cases(draw):
    member = st.tuples(
        paths, st.sampled_from(['file', 'file', 'file', 'dir', 'sym', 'fifo']), st.sampled_from(MODES), contents, st.sampled_from([0, 1000]), st.integers(0, 10**9),
    ).map(list)  # fmt: skip
    return {
        'members': draw(st.lists(member, min_size=1, max_size=8)), 'folder': draw(st.lists(member, max_size=3)), 'versions': draw(st.booleans()),
        'operations': draw(st.lists(operations(), min_size=6, max_size=20)),
    }  # fmt: skip


def legal(members, taken=None):
    kinds = dict(taken or {})
    result = []
    for path, kind, mode, content, owner, mtime in members:
        if any(kinds.get(p, 'dir') != 'dir' for p in ancestors(path)) or (path in kinds and (kind != 'dir' or kinds[path] != 'dir')):
            continue
        if kind != 'dir' and any(p.startswith(path + '/') for p in kinds):
            continue
        for p in ancestors(path):
            kinds.setdefault(p, 'dir')
        kinds[path] = kind
        member = {'t': kind, 'name': path[1:], 'mode': mode, 'uid': owner, 'gid': owner, 'mtime': mtime, 'fmt': 'pax'}
        if kind == 'file':
            member['c'] = content
        elif kind == 'sym':
            member.update(link='a', mode=0o777)
        result.append(member)
    return result, kinds


def materialize(root, members, implicit_mode):
    """Creates everything below an existing folder."""
    done = {}
    for member in members:
        for p in ancestors('/' + member['name']):
            if p not in done and not os.path.isdir(root + p):
                os.mkdir(root + p)
                done[p] = {'mode': implicit_mode, 'mtime': 0, 'uid': 0, 'gid': 0, 't': 'dir'}
        path = root + '/' + member['name']
        if member['t'] == 'dir':
            os.makedirs(path, exist_ok=True)
        elif member['t'] == 'sym':
            os.symlink(member['link'], path)
        elif member['t'] == 'fifo':
            os.mkfifo(path)
        else:
            with open(path, 'wb') as file:
                file.write(gen.data(member['c']))
        done['/' + member['name']] = member
    for path, member in sorted(done.items(), reverse=True):
        os.chown(root + path, member['uid'], member['gid'], follow_symlinks=False)
        if member['t'] != 'sym':
            os.chmod(root + path, member['mode'])
        os.utime(root + path, (member['mtime'], member['mtime']), follow_symlinks=False)


def ancestors(path):
    return [path[:i] for i, c in enumerate(path) if c == '/' and i]


def pick(name, number, tree, second, original):
    kinds = {path: {stat.S_IFREG: 'file', stat.S_IFDIR: 'dir', stat.S_IFLNK: 'sym', stat.S_IFIFO: 'fifo'}[stat.S_IFMT(e['mode'])] for path, e in tree.items()}
    if second:
        # Existing targets are common for renaming.
        wanted = ['new', 'file', 'dir'] if name == 'rename' else ['new']
        wanted = [wanted[number % len(wanted)]]
    else:
        wanted = SUITABLE[name]
        present = [kind for kind in wanted if kind in kinds.values()] or wanted
        wanted, number = [present[number % len(present)]], number // len(present)
    if wanted == ['new']:
        found = [p for p in PATHS if p not in kinds and all(kinds.get(a) == 'dir' for a in ancestors(p))]
    else:
        found = sorted(p for p, kind in kinds.items() if kind in wanted)
        if name == 'rmdir':
            found = [p for p in found if not any(o.startswith(p + '/') for o in kinds)] or found
        if name == 'link':
            found = [p for p in found if p not in original] or found
    return found[number % len(found)] if found else PATHS[number % len(PATHS)]


def raise_(number):
    raise OSError(number, os.strerror(number))


class Real:
    """The model: a real folder. Symbolic links are never followed because the kernel would resolve them before."""

    def __init__(self, root):
        self.root, self.handles = root, {}

    def path(self, path):
        return self.root + path

    def create(self, path, mode, data):
        descriptor = os.open(self.path(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_NOFOLLOW, mode)
        if data:
            os.write(descriptor, data)
        os.close(descriptor)

    def open(self, path, flags):
        return os.open(self.path(path), flags | os.O_NOFOLLOW)

    def write(self, _path, handle, data, offset):
        return os.pwrite(handle, data, offset)

    def read(self, _path, handle, size, offset):
        return os.pread(handle, size, offset)

    def close(self, _path, handle):
        os.close(handle)

    def truncate(self, path, length):
        os.truncate(self.path(path), length)

    def mkdir(self, path, mode):
        os.mkdir(self.path(path), mode)

    def rmdir(self, path):
        os.rmdir(self.path(path))

    def unlink(self, path):
        os.unlink(self.path(path))

    def rename(self, old, new):
        os.rename(self.path(old), self.path(new))

    def symlink(self, path, target):
        os.symlink(target, self.path(path))

    def link(self, old, new):
        os.link(self.path(old), self.path(new), follow_symlinks=False)

    def mknod(self, path, mode):
        os.mknod(self.path(path), mode)

    def chmod(self, path, mode):
        os.chmod(self.path(path), mode)

    def chown(self, path, uid, gid):
        os.chown(self.path(path), uid, gid, follow_symlinks=False)

    def utimens(self, path, mtime):
        os.utime(self.path(path), ns=(mtime, mtime), follow_symlinks=False)

    def stat(self, path):
        return os.lstat(self.path(path))

    def tree(self):
        result = {}
        for folder, folders, files in os.walk(self.root):
            for name in folders + files:
                full = os.path.join(folder, name)
                info = os.lstat(full)
                entry = {'mode': info.st_mode, 'uid': info.st_uid, 'gid': info.st_gid, 'mtime': info.st_mtime_ns}
                if stat.S_ISREG(info.st_mode):
                    with open(full, 'rb') as file:
                        entry['data'] = file.read()
                elif stat.S_ISLNK(info.st_mode):
                    entry['link'] = os.readlink(full)
                result[full[len(self.root) :]] = entry
        return result


class Mounted:
    """Drives the operations of the mount as the kernel does it."""

    def __init__(self, new):
        self.new = new
        self.mount = new()

    def remount(self):
        self.mount._close()
        self.mount = None
        gc.collect()
        self.mount = self.new()

    def stat(self, path):
        """Looks up all path components."""
        for parent in ancestors(path):
            if not stat.S_ISDIR(self.mount.getattr(parent)['st_mode']):
                raise_(errno.ENOTDIR)
        return self.mount.getattr(path)

    def kind(self, path):
        try:
            return stat.S_IFMT(self.stat(path)['st_mode'])
        except OSError as error:
            if error.errno != errno.ENOENT:
                raise
        # The parent folder must exist for creating something.
        for parent in ancestors(path):
            if not stat.S_ISDIR(self.stat(parent)['st_mode']):
                raise_(errno.ENOTDIR)
        return None

    def absent(self, path):
        if self.kind(path) is not None:
            raise_(errno.EEXIST)

    def present(self, path):
        kind = self.kind(path)
        if kind is None:
            raise_(errno.ENOENT)
        return kind

    def create(self, path, mode, data):
        kind = self.kind(path)
        if kind is None:
            handle = self.mount.create(path, mode | stat.S_IFREG)
        elif kind != stat.S_IFREG:
            raise_(errno.EISDIR if kind == stat.S_IFDIR else errno.ELOOP)
        else:
            handle = self.mount.open(path, os.O_RDWR | os.O_TRUNC)
        if data:
            check(self.mount.write(path, data, 0, handle) == len(data), 'writing to %r returned the wrong size', path)
        self.close(path, handle)

    def open(self, path, flags):
        kind = self.present(path)
        if kind == stat.S_IFDIR:
            raise_(errno.EISDIR)
        return self.mount.open(path, flags)

    def write(self, path, handle, data, offset):
        return self.mount.write(path, data, offset, handle)

    def read(self, path, handle, size, offset):
        return self.mount.read(path, size, offset, handle)

    def close(self, path, handle):
        self.mount.flush(path, handle)
        self.mount.release(path, handle)

    def truncate(self, path, length):
        if self.present(path) == stat.S_IFDIR:
            raise_(errno.EISDIR)
        self.mount.truncate(path, length)

    def mkdir(self, path, mode):
        self.absent(path)
        self.mount.mkdir(path, mode)

    def rmdir(self, path):
        if self.present(path) != stat.S_IFDIR:
            raise_(errno.ENOTDIR)
        self.mount.rmdir(path)

    def unlink(self, path):
        if self.present(path) == stat.S_IFDIR:
            raise_(errno.EISDIR)
        self.mount.unlink(path)

    def rename(self, old, new):
        # The parent folders are looked up first and checks on loops are done before the type checks.
        for path in (old, new):
            for parent in ancestors(path):
                if not stat.S_ISDIR(self.stat(parent)['st_mode']):
                    raise_(errno.ENOTDIR)
        source = self.present(old)
        target = self.kind(new)
        if new.startswith(old + '/'):
            raise_(errno.EINVAL if source == stat.S_IFDIR else errno.ENOTDIR)
        if old.startswith(new + '/'):
            raise_(errno.ENOTEMPTY)
        if old == new:
            return
        if target is not None:
            if source == stat.S_IFDIR and target != stat.S_IFDIR:
                raise_(errno.ENOTDIR)
            if source != stat.S_IFDIR and target == stat.S_IFDIR:
                raise_(errno.EISDIR)
        self.mount.rename(old, new)

    def symlink(self, path, target):
        self.absent(path)
        self.mount.symlink(path, target)

    def link(self, old, new):
        source = self.present(old)
        self.absent(new)
        if source == stat.S_IFDIR:
            raise_(errno.EPERM)
        self.mount.link(new, old)

    def mknod(self, path, mode):
        self.absent(path)
        self.mount.mknod(path, mode, 0)

    def chmod(self, path, mode):
        self.mount.chmod(path, mode | self.present(path))

    def chown(self, path, uid, gid):
        self.present(path)
        self.mount.chown(path, uid, gid)

    def utimens(self, path, mtime):
        self.present(path)
        self.mount.utimens(path, (mtime, mtime))

    def tree(self):
        result = {}
        folders = ['/']
        while folders:
            folder = folders.pop()
            names = set()
            for item in self.mount.readdir(folder, 0):
                name, mode = (item, None) if isinstance(item, str) else item[:2]
                if name in ('.', '..'):
                    continue
                check(name not in names, '%r is listed twice in %r', name, folder)
                names.add(name)
                path = view.join(folder, name)
                info = self.stat(path)
                check(mode is None or stat.S_IFMT(mode) in (0, stat.S_IFMT(info['st_mode'])), '%r is listed with mode %o instead of %o', path, mode, info['st_mode'])
                entry = {'mode': info['st_mode'], 'uid': info['st_uid'], 'gid': info['st_gid'], 'mtime': info['st_mtime']}
                if stat.S_ISREG(info['st_mode']):
                    handle = self.mount.open(path, os.O_RDONLY)
                    entry['data'] = self.mount.read(path, info['st_size'] + 10, 0, handle)
                    check(len(entry['data']) == info['st_size'], '%r has %s bytes but its size is %s', path, len(entry['data']), info['st_size'])
                    self.mount.release(path, handle)
                elif stat.S_ISLNK(info['st_mode']):
                    entry['link'] = self.mount.readlink(path)
                elif stat.S_ISDIR(info['st_mode']):
                    folders.append(path)
                result[path] = entry
        return result


def attempt(function, *arguments):
    try:
        return 'done', function(*arguments)
    except OSError as error:
        if error.errno is None:
            raise
        return 'error', error.errno


def compare(actual, expected, start, unknown, what):
    check(
        set(actual) == set(expected), '%s: missing %s; unexpected %s', what, sorted(set(expected) - set(actual)), sorted(set(actual) - set(expected)),
    )  # fmt: skip
    for path, entry in expected.items():
        found = actual[path]
        for key in ('mode', 'uid', 'gid', 'link'):
            check(
                found.get(key) == entry.get(key), '%s: %s of %r is %s instead of %s', what, key, path,
                *(f'{e.get(key):o}' if key == 'mode' else repr(e.get(key)) for e in (found, entry)),
            )  # fmt: skip
        if entry.get('data') != found.get('data'):
            view.equal_bytes(found.get('data'), entry.get('data'), f'{what}: {path!r}')
        if path in unknown:
            continue
        if start <= entry['mtime'] < 3e18:
            check(found['mtime'] >= start - 10**9, '%s: the modification time of %r is old: %s', what, path, found['mtime'])
        else:
            # The modification times are floating point numbers internally.
            check(abs(found['mtime'] - entry['mtime']) < 2000, '%s: the modification time of %r is %s instead of %s', what, path, found['mtime'], entry['mtime'])


def run(case, ctx):
    from ratarmount.FuseMount import FuseMount

    members, kinds = legal(case['members'])
    extra, _ = legal(case['folder'], kinds)
    extra = [m for m in extra if m['t'] != 'dir' and '/' not in m['name']]
    if not members:
        return
    inputs = [ctx.path('archive.tar')]
    data = gen.tar_bytes(members)
    with open(inputs[0], 'wb') as file:
        file.write(data)
    if extra:
        inputs.append(ctx.path('lower'))
        os.mkdir(inputs[1])
        materialize(inputs[1], extra, 0o755)
    real_root, overlay, mount_point = ctx.path('real'), ctx.path('overlay'), ctx.path('mp')
    os.mkdir(real_root)
    os.mkdir(mount_point)
    previous = os.umask(0)
    ctx.stack.callback(os.umask, previous)
    materialize(real_root, members + extra, 0o555)

    def new():
        return FuseMount(list(inputs), mount_point, writeOverlay=overlay, indexFilePath=':memory:', enableFileVersions=case['versions'])

    start = time.time_ns() - 10**7
    mounted, real = Mounted(new), Real(real_root)
    ctx.stack.callback(lambda: mounted.mount and mounted.mount._close())
    lower = Real(inputs[1]).tree() if extra else None
    unknown = {'/'}
    handles = []  # [path, handle in the mount, real handle, written]
    ctx.stack.callback(lambda: [os.close(h[2]) for h in handles])
    changes = 0
    original = set(real.tree())
    compare(mounted.tree(), real.tree(), start, unknown, 'initially')

    def drop(index):
        path, handle, descriptor, _ = handles.pop(index)
        mounted.close(path, handle)
        os.close(descriptor)

    def symbolic(path):
        return any(os.path.islink(real.path(p)) for p in [*ancestors(path), path])

    for number, (name, *arguments) in enumerate(case['operations']):
        if arguments and name not in ('use', 'drop'):
            tree = real.tree()
            for i in range(2 if name in ('rename', 'link') else 1):
                if isinstance(arguments[i], int):
                    arguments[i] = pick(name, arguments[i], tree, i == 1, original)
        what = f'operation {number + 1}: {name} {arguments}'
        targets = [a for a in arguments if isinstance(a, str) and a.startswith('/') and not (name == 'symlink' and a is not arguments[0])]
        if any(os.path.islink(real.path(p)) for target in targets for p in ancestors(target)):
            continue  # The kernel resolves these.
        if name in ('create', 'write', 'truncate', 'chmod', 'hold') and symbolic(targets[0]):
            continue
        kind = stat.S_IFMT(os.lstat(real.path(targets[0])).st_mode) if targets and os.path.lexists(real.path(targets[0])) else None
        if kind == stat.S_IFIFO and name in ('create', 'write', 'truncate', 'hold'):
            continue  # These do not reach the file system.
        if name in ('chmod', 'chown', 'utimens') and kind is not None and kind != stat.S_IFDIR and os.lstat(real.path(targets[0])).st_nlink > 1:
            continue
        if name in ('unlink', 'rename', 'create', 'link'):
            # Files in use get renamed to hidden names when deleting them.
            for i in reversed(range(len(handles))):
                if any(handles[i][0] == t or handles[i][0].startswith(t + '/') for t in targets):
                    drop(i)
        if name == 'remount':
            while handles:
                drop(0)
            mounted.remount()
            outcome = expected = ('done', None)
        elif name == 'drop':
            if handles:
                drop(arguments[0] % len(handles))
            continue
        elif name == 'create':
            arguments = [arguments[0], arguments[1], gen.data(arguments[2])]
            outcome, expected = attempt(mounted.create, *arguments), attempt(real.create, *arguments)
        elif name in ('write', 'hold'):
            path, flag = arguments[:2]
            flags = (os.O_RDWR if name == 'hold' or arguments[4] else os.O_WRONLY) | {'': 0, 'trunc': os.O_TRUNC, 'append': os.O_APPEND}[flag]
            outcome, expected = attempt(mounted.open, path, flags), attempt(real.open, path, flags)
            if outcome[0] == expected[0] == 'done':
                handle, descriptor = outcome[1], expected[1]
                outcome = expected = ('done', None)
                if name == 'hold':
                    handles.append([path, handle, descriptor, flag == 'trunc'])
                else:
                    offset = os.fstat(descriptor).st_size if flag == 'append' else arguments[2]
                    data_to_write = gen.data(['p', arguments[3] + 1, number])
                    check(mounted.write(path, handle, data_to_write, offset) == len(data_to_write), '%s: wrong size', what)
                    real.write(path, descriptor, data_to_write, offset)
                    if arguments[4]:
                        view.equal_bytes(mounted.read(path, handle, 100000, 0), real.read(path, descriptor, 100000, 0), what)
                    mounted.close(path, handle)
                    os.close(descriptor)
                    changes += path in original
        elif name == 'use':
            if not handles:
                continue
            index, offset, size, read = arguments
            held = handles[index % len(handles)]
            outcome = expected = ('done', None)
            if read and held[3]:
                view.equal_bytes(mounted.read(held[0], held[1], size, offset), real.read(held[0], held[2], size, offset), what)
            else:
                data_to_write = gen.data(['p', size, number])
                check(mounted.write(held[0], held[1], data_to_write, offset) == size, '%s: wrong size', what)
                real.write(held[0], held[2], data_to_write, offset)
                held[3] = True
        else:
            if name == 'mknod':
                arguments = [arguments[0], arguments[1] | stat.S_IFIFO]
            if name == 'truncate' and kind == stat.S_IFREG and os.lstat(real.path(targets[0])).st_size == arguments[1]:
                unknown.add(targets[0])  # Nothing is changed and therefore the modification time might stay the same.
            outcome = attempt(getattr(mounted, name), *arguments)
            if outcome == ('error', errno.EXDEV):
                ctx.label('refused ' + name)
                expected = outcome
                check(name == 'link' and targets[0] in original or name == 'rename', '%s: refused', what)
                check(kind != stat.S_IFREG or name == 'link', '%s: refused to rename a file', what)
            else:
                expected = attempt(getattr(real, name), *arguments)
        check(outcome == expected, '%s: %s instead of %s', what, outcome, expected)
        if outcome[0] == 'done' and name not in ('remount', 'hold', 'use', 'write'):
            changes += any(t in original for t in targets)
            if name in ('rename', 'link') and targets[0] in unknown:
                unknown.add(targets[1])
            if name in ('utimens', 'unlink', 'rmdir', 'rename'):
                unknown.discard(targets[0])
        ctx.label(name if outcome[0] == 'done' else f'{name} {errno.errorcode[outcome[1]]}')
        compare(mounted.tree(), real.tree(), start, unknown, what)
    # The number of free blocks might change in between.
    free, expected = mounted.mount.statfs('/'), os.statvfs(overlay)
    for key in ('f_blocks', 'f_files', 'f_namemax'):
        check(free[key] == getattr(expected, key), '%s is %s instead of %s', key, free[key], getattr(expected, key))
    check(bool(free['f_bavail']) == bool(expected.f_bavail) and bool(free['f_ffree']) == bool(expected.f_ffree), 'free space: %s', free)
    while handles:
        drop(0)
    mounted.remount()
    compare(mounted.tree(), real.tree(), start, unknown, 'after mounting again')
    mounted.mount._close()
    mounted.mount = None
    with open(inputs[0], 'rb') as file:
        check(file.read() == data, 'The archive was changed!')
    if lower is not None:
        compare(Real(inputs[1]).tree(), lower, start, (), 'The mounted folder was changed')
    ctx.nontrivial(changes >= 2)


# --- metadata in recursively mounted archives -----------------------------------------------------------------------


@st.composite
def nested_cases(draw):
    change = st.tuples(st.sampled_from(['chmod', 'chown', 'utimens']), st.integers(0, 50), st.integers(0, 3)).map(list)
    return {'levels': draw(st.lists(st.sampled_from(['tar', 'zip']), min_size=1, max_size=3)), 'changes': draw(st.lists(change, min_size=1, max_size=6)), 'remount': draw(st.booleans())}


def run_nested(case, ctx):
    from ratarmount.FuseMount import FuseMount

    def member(name, data=None):
        member = {'t': 'file' if data is not None else 'dir', 'name': name, 'mode': 0o644, 'uid': 1, 'gid': 2, 'mtime': 1000, 'fmt': 'gnu'}
        if data is not None:
            member['c'] = ['r', 10, 1]
        return member

    members = [member('f', b''), member('d'), member('d/f', b''), member('d/e'), member('d/e/g', b'')]

    def archive(kind, inner, nested):
        content = [*members, *({**member(name, b''), 'c': nested} for name in (f'n.{inner}', f'd/n.{inner}') if nested)]
        if kind == 'tar':
            return gen.tar_bytes(content)
        buffer = io.BytesIO()
        with zipfile.ZipFile(buffer, 'w') as file:
            for entry in content:
                info = zipfile.ZipInfo(entry['name'] + ('/' if entry['t'] == 'dir' else ''), (2000, 1, 2, 3, 4, 6))
                info.external_attr = ((stat.S_IFDIR if entry['t'] == 'dir' else stat.S_IFREG) | entry['mode']) << 16
                file.writestr(info, gen.data(entry['c']) if entry['t'] == 'file' else b'')
        return buffer.getvalue()

    # Every level has the same names.
    data, inner = b'', ''
    for kind in case['levels']:
        data, inner = archive(kind, inner, data), kind
    path, overlay, mount_point = ctx.path('archive.' + inner), ctx.path('overlay'), ctx.path('mp')
    os.mkdir(mount_point)
    with open(path, 'wb') as file:
        file.write(data)

    def new():
        return FuseMount([path], mount_point, writeOverlay=overlay, indexFilePath=':memory:', recursive=True)

    mounted = Mounted(new)
    ctx.stack.callback(lambda: mounted.mount._close())
    model = mounted.tree()
    for name, number, value in case['changes']:
        target = sorted(model)[number % len(model)]
        entry = model[target]
        if name == 'chmod':
            mounted.chmod(target, MODES[value])
            entry['mode'] = stat.S_IFMT(entry['mode']) | MODES[value]
        elif name == 'chown':
            mounted.chown(target, value + 10, value + 20)
            entry.update(uid=value + 10, gid=value + 20)
        else:
            mounted.utimens(target, value * 10**9)
            entry['mtime'] = value * 10**9
        compare(mounted.tree(), model, 2**63, (), f'after {name} {target!r}')
    if case['remount']:
        mounted.remount()
        compare(mounted.tree(), model, 2**63, (), 'after mounting again')
    ctx.label(*['-'.join(case['levels'])])
    ctx.nontrivial(len(case['levels']) > 1)


SUBS = [Sub('operations', cases, run, 600, 60000), Sub('nested', nested_cases, run_nested, 40, 2000)]
