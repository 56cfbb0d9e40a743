"""C22: the mount point faithfully shows the mounted source and is read-only without a write overlay."""
import errno
import os
import stat

from hypothesis import strategies as st

from vp import formats, gen, images, tars, view
from vp.core import Sub, Violation, check

ID = 'C22'
TECHNIQUE = 'property-based testing: file system operations on generated archives against the generating tree; stateful use of handles'
RULE = """
Generated archives (TARs with all kinds of members and extended attributes, plain and compressed TARs, ZIP, 7z, CPIO, AR, ASAR, SQLAR, ISO,
SquashFS, FAT, EXT4, folders) are mounted through FuseMount in-process (with and without version folders, united with a second source, with a
sub folder as the only root). The tree walked with readdir must have exactly the expected entries with the attributes, link targets, extended
attributes; '.' and '..' must be there with the right types; names below '<file>.versions' must give the versions. Then a sequence of open, read
(any offset and size, also over the end), release on several handles at once, also of stale handles, must return the right bytes or ESTALE.
Absent paths give ENOENT, absent extended attributes ENODATA. Every modifying operation on existing and absent paths must be refused with an
error, after which everything is as before. Non-trivial: at least two non-empty files and three reads on two handles open at once.
"""
ASSUMES = ['The kernel looks up paths and checks types before calling operations; only combinations it lets through are used.']

FORMATS = {
    **formats.ARCHIVES, **{f.name: f for f in [formats.ISO, formats.FOLDER, images.SQUASHFS, images.FAT, images.EXT4]},
}  # fmt: skip

handles = st.tuples(
    st.sampled_from(['open', 'open', 'read', 'read', 'read', 'read', 'read', 'release', 'stale', 'cold']), st.integers(0, 40),
    st.integers(0, 30000), st.sampled_from([0, 1, 10, 511, 512, 4096, 65536, 131072, 2**20, 2**31]),
).map(list)  # fmt: skip
MODIFICATIONS = [
    'mkdir', 'mkdir', 'rmdir', 'unlink', 'rename', 'symlink', 'link', 'chmod', 'chown', 'utimens', 'mknod', 'truncate', 'create', 'write', 'setxattr',
    'removexattr', 'trunc',
]  # fmt: skip
COMMON = {
    'actions': st.tuples(
        st.lists(st.tuples(st.just('open'), st.integers(0, 40), st.just(0), st.just(0)).map(list), min_size=1, max_size=4),
        st.lists(handles, min_size=6, max_size=30),
    ).map(lambda parts: parts[0] + parts[1]),
    'modify': st.lists(st.tuples(st.sampled_from(MODIFICATIONS), st.integers(0, 40), st.booleans()).map(list), max_size=8),
    'versions': st.booleans(), 'union': st.sampled_from([0, 0, 0, 1, 2]), 'index': st.booleans(),
}  # fmt: skip


@st.composite
def format_cases(draw):
    case = draw(formats.formatted(FORMATS))
    return {**case, **{key: draw(value) for key, value in COMMON.items()}}


@st.composite
def tar_cases(draw):
    return {'members': draw(st.lists(tars.members(), min_size=3, max_size=10)), **{key: draw(value) for key, value in COMMON.items()}}


def refused(function, *args, codes=None, what=''):
    try:
        result = function(*args)
        if what.startswith('readdir'):
            result = list(result)
    except OSError as exception:
        if codes:
            check(exception.errno in codes, '%s%r fails with %s instead of %s', what, args, exception, codes)
        return
    raise Violation(f'{what}{args!r} is not refused but returns {result!r:.100}')


def attributes(mount, path):
    info = mount.getattr(path)
    kind = view.ftype(info['st_mode'])
    result = {
        'type': kind, 'perm': stat.S_IMODE(info['st_mode']), 'uid': info['st_uid'], 'gid': info['st_gid'], 'mtime': info['st_mtime'],
        'link': mount.readlink(path) if kind == 'sym' else '',
    }  # fmt: skip
    if kind == 'file':
        result['size'] = info['st_size']
        check(info['st_blocks'] == -(-info['st_size'] // 512), '%r has %s blocks for %s bytes', path, info['st_blocks'], info['st_size'])
    result['xattrs'] = {key: mount.getxattr(path, key) for key in mount.listxattr(path)}
    refused(mount.getxattr, path, 'user.absent', codes=[errno.ENODATA], what='getxattr')
    return result


def read_file(mount, path, size):
    handle = mount.open(path, os.O_RDONLY)
    try:
        result = mount.read(path, size + 1000, 0, handle)
        mount.flush(path, handle)
    finally:
        mount.release(path, handle)
    return result


def walk(mount):
    result = {}
    folders = ['/']
    while folders:
        folder = folders.pop()
        result[folder] = attributes(mount, folder)
        listed = {}
        for item in mount.readdir(folder, 0):
            # Names may be returned without anything else.
            name, mode, offset = (item, None, 0) if isinstance(item, str) else item
            check(offset == 0, 'readdir offset %s', offset)
            check(name not in listed, 'readdir of %r returns %r twice', folder, name)
            listed[name] = mode
        check('.' in listed and '..' in listed, "readdir of %r lacks '.' or '..'", folder)
        for name in ('.', '..'):
            mode = listed.pop(name)
            check(mode is None or view.ftype(mode) == 'dir', '%r in %r is not a folder: %o', name, folder, mode)
        for name, mode in listed.items():
            path = view.join(folder, name)
            info = attributes(mount, path)
            check(mode is None or view.ftype(mode) in (info['type'], 'none'), 'readdir returns %o for %r with %s', mode, path, info)
            if info['type'] == 'dir':
                folders.append(path)
            else:
                if info['type'] == 'file':
                    info['data'] = read_file(mount, path, info['size'])
                result[path] = info
    return result


def compare(actual, expected, xattrs, what):
    converted = {}
    for path, entry in expected.items():
        entry = {key: value for key, value in entry.items() if key not in ('versions', 'history')}
        if entry.get('mtime') is not None:
            time = entry['mtime'] * 1e9
            got = actual.get(path, {}).get('mtime')
            # Times may be floating-point numbers.
            if got is not None and abs(got - time) <= max(1000, abs(time) * 3e-16):
                entry['mtime'] = got
        if not xattrs:
            entry.pop('xattrs', None)
        converted[path] = entry
    view.tree_diff(actual, converted, what=what)


def run_mount(case, ctx, paths, expected, options, xattrs=False, history=None):
    from ratarmount.FuseMount import FuseMount

    mount_point = ctx.path('mount point')
    os.mkdir(mount_point)
    options = {
        'indexFilePath': None if case['index'] else ':memory:', 'indexFolders': [ctx.path('indexes')], 'indexMinimumFileCount': 0,
        'fileVersions': case['versions'], **options,
    }  # fmt: skip
    os.makedirs(ctx.path('indexes'), exist_ok=True)
    mount = FuseMount(paths, mount_point, **options)
    ctx.stack.callback(mount._close)
    before = walk(mount)
    compare(before, expected, xattrs, 'mount point')

    # All versions
    for path, versions in (history or {}).items() if case['versions'] else ():
        folder = path + '.versions'
        if any(p == folder or p.startswith(folder + '/') for p in expected):
            continue
        check(view.ftype(mount.getattr(folder)['st_mode']) == 'dir', '%r is not a folder', folder)
        names = sorted(item[0] if isinstance(item, tuple) else item for item in mount.readdir(folder, 0))
        check(names == sorted(['.', '..', *(str(i + 1) for i in range(len(versions)))]), 'versions of %r: %s instead of %s', path, names, len(versions))
        for i, entry in enumerate(versions):
            version = f'{folder}/{i + 1}'
            got = attributes(mount, version)
            if got['type'] == 'file':
                got['data'] = read_file(mount, version, got['size'])
            compare({version: got}, {version: entry}, xattrs, 'version')

    # Absent paths
    for path in list(expected)[:5]:
        for wrong in [view.join(path, 'no such'), path + 'x' if path != '/' else '/no-such-entry']:
            if wrong in expected:
                continue
            for function, arguments in [
                (mount.getattr, ()), (mount.open, (os.O_RDONLY,)), (mount.readlink, ()), (mount.listxattr, ()), (mount.getxattr, ('user.a',)),
                (mount.open, (os.O_RDWR,)),
            ]:  # fmt: skip
                refused(function, wrong, *arguments, codes=[errno.ENOENT], what=function.__name__)

    # Several handles at once
    files = sorted(p for p, e in expected.items() if e['type'] == 'file')
    opened, closed, reads, at_once = [], [], 0, 0
    for name, number, offset, size in case['actions'] if files else ():
        if name == 'open':
            path = files[number % len(files)]
            handle = mount.open(path, os.O_RDONLY if number % 3 else os.O_RDWR)
            check(handle not in [h for h, _ in opened], 'handle %s is returned twice', handle)
            opened.append((handle, path))
        elif name == 'read' and opened:
            handle, path = opened[number % len(opened)]
            data = expected[path]['data']
            offset %= len(data) + 10
            view.equal_bytes(mount.read(path, size, offset, handle), data[offset : offset + size], f'{path!r} at {offset} with {size}')
            reads += size > 0 and offset < len(data)
            at_once = max(at_once, len(opened))
        elif name == 'release' and opened:
            closed.append(opened.pop(number % len(opened)))
            mount.release(closed[-1][1], closed[-1][0])
        elif name == 'stale' and closed:
            handle, path = closed[number % len(closed)]
            refused(mount.release, path, handle, codes=[errno.ESTALE], what='release')
        elif name == 'cold' and closed:
            handle, path = closed[number % len(closed)]
            data = expected[path]['data']
            offset %= len(data) + 10
            size = min(size, 10**6)
            view.equal_bytes(mount.read(path, size, offset, handle), data[offset : offset + size], f'{path!r} at {offset} without handle')

    # Modifications
    everything = sorted(expected)
    for name, number, absent in case['modify']:
        path = everything[number % len(everything)]
        if path == '/' and not absent:
            continue
        if absent:
            while path in expected and expected[path]['type'] != 'dir':
                path = path.rpartition('/')[0] or '/'
            path = view.join(path, 'new')
            if path in expected or name not in ('mkdir', 'symlink', 'mknod', 'create', 'rename', 'link'):
                continue
        kind = None if absent else expected[path]['type']
        existing = next((p for p in everything if p != '/' and expected[p]['type'] == 'file'), None)
        if (name in ('truncate', 'write', 'trunc') and kind != 'file') or (name == 'rmdir' and kind != 'dir') or (name == 'unlink' and kind == 'dir'):
            continue
        if name in ('mkdir', 'symlink', 'mknod', 'create', 'link') and not absent:
            continue
        if name in ('rename', 'link') and (existing is None or existing == path):
            continue
        if name == 'write':
            for handle, file in [*[pair for pair in opened if pair[1] == path], (None, path)]:
                code = [errno.EROFS, errno.EBADF]
                try:
                    handle = mount.open(path, os.O_RDWR) if handle is None else handle
                except OSError as exception:
                    check(exception.errno == errno.EROFS, 'open for writing: %s', exception)
                    continue
                refused(mount.write, file, b'changed', 0, handle, codes=code, what='write')
                if (handle, file) not in opened:
                    mount.release(path, handle)
            continue
        arguments = {
            'mkdir': (path, 0o755), 'rmdir': (path,), 'unlink': (path,), 'rename': (existing, path), 'symlink': (path, 'target'), 'link': (path, existing),
            'chmod': (path, 0o777), 'chown': (path, 1, 1), 'utimens': (path, (10**9, 10**9)), 'mknod': (path, stat.S_IFIFO | 0o644, 0), 'truncate': (path, 0),
            'create': (path, 0o644), 'setxattr': (path, 'user.a', b'1', 0), 'removexattr': (path, 'user.a'), 'trunc': (path, os.O_RDWR | os.O_TRUNC),
        }[name]  # fmt: skip
        codes = [errno.ENOTSUP, errno.EROFS] if 'xattr' in name else [errno.EROFS]
        refused(getattr(mount, 'open' if name == 'trunc' else name), *arguments, codes=codes, what=name)
        ctx.label(name)
    after = walk(mount)
    for tree in (before, after):
        # Generated folders may be shown with the current time.
        for path in tree:
            if expected[path].get('mtime') is None:
                tree[path].pop('mtime')
    view.tree_diff(after, before, what='after refused operations')
    for handle, path in opened:
        data = expected[path]['data']
        view.equal_bytes(mount.read(path, 10**6, 0, handle)[:10**6], data[: 10**6], f'{path!r} at the end')
        mount.release(path, handle)
    ctx.nontrivial(sum(bool(expected[p]['data']) for p in files) >= 2 and reads >= 3 and at_once >= 2)


def run_formats(case, ctx):
    fmt = FORMATS[case['format']]
    path = ctx.path('archive' + fmt.ext)
    _tree, expected = fmt.make(path, case['tree'], case['o'])
    if expected is None:
        return
    paths = [path]
    if case['union']:
        # A second source without anything in common below or above.
        name = 'other (second source)'
        expected = {**expected, '/' + name: {'type': 'file', 'link': '', 'size': 5, 'data': b'other'}}
        member = {'t': 'file', 'name': name, 'c': b'other', 'mode': 0o640, 'mtime': 12345, 'uid': 3, 'gid': 4, 'fmt': 'gnu'}
        with open(ctx.path('second.tar'), 'wb') as file:
            file.write(gen.tar_bytes([member]))
        paths = [path, ctx.path('second.tar')] if case['union'] == 1 else [ctx.path('second.tar'), path]
        expected['/'] = {'type': 'dir'}
    run_mount(case, ctx, paths, expected, {'disableUnionMount': False, **fmt.open_options(case['o'])})
    ctx.label(case['format'], f"union {case['union']}")


def run_tars(case, ctx):
    members = tars.legalize(case['members'])
    if not members:
        return
    path = ctx.path('archive.tar')
    with open(path, 'wb') as file:
        file.write(gen.tar_bytes(members))
    expected = gen.expected_view(members)
    history = {p: items for p, items in gen.tree_of(members).items() if items[-1]['type'] != 'dir'}
    run_mount(case, ctx, [path], expected, {}, xattrs=True, history=history)
    ctx.label('members')


SUBS = [Sub('formats', format_cases, run_formats, 350, 20000), Sub('tars', tar_cases, run_tars, 350, 20000)]
