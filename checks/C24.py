"""C24: the fsspec interface agrees with the archive contents, and fsspec file systems are shown exactly."""
import io
import os
import random
import re

from hypothesis import strategies as st

from checks.C11 import FORMATS
from vp import formats, gen, tars, view
from vp.core import Sub, Skip, Violation, check

ID = 'C24'
TECHNIQUE = 'property-based testing: random call sequences of the fsspec API against the tree written into the archive'
RULE = """
'archive': a random TAR (versions, links, hard links, sparse files; also compressed) opened as ratar file system by path, file object, target protocol, or chained URL, or another archive
(ZIP, 7z, CPIO, AR, ASAR, SQLAR, RAR, folder) wrapped as fsspec file system. A random sequence of calls (info, exists, isdir, isfile, ls with and without details, walk with random depth, find,
du, glob, cat, cat_file with ranges, cat of several files, open with seeks, text mode, tree) on existing and absent paths in different spellings (with and without leading slash, protocol, trailing slash for
folders) is compared with the tree that was written. 'source': a random tree in the memory, local, directory, ZIP, or TAR file system of fsspec, opened by URL or object, must be shown exactly.
Non-trivial: at least one non-empty file in a folder and 5 calls.
"""
NOTE = 'fsspec has no symbolic links; only their names and that they are no folders are compared. Paths with "::", "://" or glob characters are not used in URLs or patterns.'
CALLS = ['info', 'exists', 'ls', 'names', 'walk', 'find', 'finddirs', 'du', 'glob', 'cat', 'range', 'catall', 'open', 'text', 'url', 'tree', 'absent', 'below']


@st.composite
def archive_cases(draw):
    case = {'kind': draw(st.sampled_from(['tars'] * 6 + ['tar.gz', 'tar.bz2', 'tar.xz', 'tar.zst', 'folder', *FORMATS]))}
    if case['kind'].startswith('tar'):
        case['items'] = draw(st.lists(tars.members(maximum=5000), min_size=1, max_size=10))
    else:
        fmt = formats.FOLDER if case['kind'] == 'folder' else FORMATS[case['kind']]
        case['o'] = draw(fmt.options())
        case['items'] = draw(formats.trees(maximum=5000, size=10))
    case['via'] = draw(st.sampled_from(['path', 'path', 'file', 'target', 'bytes']))
    if case['kind'] == 'tar.zst' and case['via'] == 'bytes':
        case['via'] = 'file'  # indexed_zstd needs real files.
    case['calls'] = draw(st.lists(st.tuples(st.sampled_from(CALLS), st.integers(0, 10**6)), min_size=1, max_size=25))
    return case


def open_archive(case, ctx):
    """Returns the file system, the expected tree, and the path to the archive if it can be used in an URL."""
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    from ratarmountcore.mountsource.factory import open_mount_source
    from ratarmountcore.SQLiteIndexedTarFsspec import MountSourceFileSystem, SQLiteIndexedTarFileSystem

    kind = case['kind']
    if not kind.startswith('tar'):
        fmt = formats.FOLDER if kind == 'folder' else FORMATS[kind]
        path = ctx.path('archive' + fmt.ext)
        _, expected = fmt.make(path, case['items'], case['o'])
        if expected is None:
            raise Skip
        ms = ctx.keep(open_mount_source(path, indexFilePath=':memory:', **fmt.open_options(case['o'])))
        return MountSourceFileSystem(FileVersionLayer(ms)), expected, None
    members = tars.legalize(case['items'])
    if not members:
        raise Skip
    data = gen.tar_bytes(members)
    expected = gen.expected_view(members)
    path = ctx.path('archive.tar' if kind == 'tars' else 'archive.' + kind)
    codec = kind[4:] if kind != 'tars' else ''
    if codec == 'gz':
        import gzip

        data = gzip.compress(data)
    elif codec == 'bz2':
        import bz2

        data = bz2.compress(data)
    elif codec == 'xz':
        import lzma

        data = lzma.compress(data)
    elif codec == 'zst':
        import zstandard

        data = zstandard.ZstdCompressor().compress(data)
    with open(path, 'wb') as file:
        file.write(data)
    via = case['via']
    options = {'indexFilePath': ':memory:'}
    if via == 'path':
        fs = SQLiteIndexedTarFileSystem(path, **options)
    elif via == 'target':
        import fsspec

        # The entry point of the installed package is another copy of the code.
        fsspec.register_implementation('ratar', SQLiteIndexedTarFileSystem, clobber=True)
        fs = fsspec.filesystem('ratar', fo=path, target_protocol='file', skip_instance_cache=True, **options)
    else:
        file = open(path, 'rb') if via == 'file' else io.BytesIO(data)
        ctx.stack.callback(file.close)
        fs = SQLiteIndexedTarFileSystem(fo=file, **options)
    ctx.stack.callback(lambda: fs.mountSource.__exit__(None, None, None))
    return fs, expected, path


def kind_of(entry):
    return 'directory' if entry['type'] == 'dir' else 'file'


def clean(path):
    return '/' + path.strip('/')


def check_info(info, path, entry, what):
    check(clean(info['name']) == path, '%s: name is %r', what, info['name'])
    check(info['type'] == kind_of(entry), '%s: type of %r is %s instead of %s', what, path, info['type'], kind_of(entry))
    if entry['type'] == 'file':
        check(info['size'] == len(entry['data']), '%s: size of %r is %s instead of %s', what, path, info['size'], len(entry['data']))
    if 'mode' in info and entry.get('perm') is not None and entry['type'] in ('file', 'dir', 'sym'):
        check(int(info['mode'], 8) & 0o7777 == entry['perm'], '%s: mode of %r is %s instead of %o', what, path, info['mode'], entry['perm'])


def children(tree, path):
    prefix = path.rstrip('/') + '/'
    return {p for p in tree if p != '/' and p.startswith(prefix) and '/' not in p[len(prefix) :]}


def below(tree, path, depth=None):
    prefix = path.rstrip('/') + '/'
    return {p for p in tree if p != '/' and p.startswith(prefix) and (depth is None or p[len(prefix) :].count('/') < depth)}


def same(actual, expected, what):
    actual = list(actual)
    check(len(set(actual)) == len(actual), '%s has duplicates: %s', what, actual)
    actual, expected = {clean(p) for p in actual}, set(expected)
    check(actual == expected, '%s: missing %s, unexpected %s', what, sorted(expected - actual), sorted(actual - expected))


def run_call(name, seed, fs, tree, archive, protocol):
    rng = random.Random(seed)
    paths = sorted(tree)
    path = rng.choice(paths)
    if name in ('ls', 'names', 'walk', 'find', 'finddirs', 'du', 'glob', 'catall', 'tree') and rng.random() < 0.8:
        path = rng.choice([p for p in paths if tree[p]['type'] == 'dir'])
    elif name in ('cat', 'range', 'open', 'text', 'url', 'below'):
        regular = [p for p in paths if tree[p]['type'] == 'file']
        if not regular:
            return
        path = rng.choice(regular)
    entry = tree[path]
    spelled = path if path == '/' else rng.choice([path, path[1:], *([f'{protocol}://{path[1:]}', f'{protocol}://{path}'] if protocol else []), *([path + '/'] if entry['type'] == 'dir' else [])])
    if path == '/':
        spelled = rng.choice(['/', '', *([f'{protocol}://'] if protocol else [])])
    what = f'{name}({spelled!r})'
    magic = any(c in path for c in '*?[]') or '://' in path or '::' in path
    if name == 'info':
        check_info(fs.info(spelled), path, entry, what)
    elif name == 'exists':
        check(fs.exists(spelled), '%s is False', what)
        check(fs.isdir(spelled) == (entry['type'] == 'dir'), 'isdir of %r is wrong', spelled)
        check(fs.isfile(spelled) == (entry['type'] != 'dir'), 'isfile of %r is wrong', spelled)
    elif name == 'ls':
        listing = fs.ls(spelled, detail=True)
        if entry['type'] == 'dir':
            same([i['name'] for i in listing], children(tree, path), what)
            for info in listing:
                check_info(info, clean(info['name']), tree[clean(info['name'])], what)
        else:
            same([i['name'] for i in listing], [path], what)
            check_info(listing[0], path, entry, what)
    elif name == 'names':
        same(fs.ls(spelled, detail=False), children(tree, path) if entry['type'] == 'dir' else [path], what)
    elif name == 'walk':
        if entry['type'] != 'dir':
            return
        depth = rng.choice([None, 1, 2, 3])
        seen = set()
        for root, dirs, names in fs.walk(spelled, maxdepth=depth, topdown=rng.random() < 0.7):
            root = clean(root)
            check(tree.get(root, {}).get('type') == 'dir', '%s shows folder %r', what, root)
            check({view.join(root, n) for n in dirs} == {p for p in children(tree, root) if tree[p]['type'] == 'dir'}, '%s: folders in %r are %s', what, root, sorted(dirs))
            check({view.join(root, n) for n in names} == {p for p in children(tree, root) if tree[p]['type'] != 'dir'}, '%s: files in %r are %s', what, root, sorted(names))
            check(root not in seen, '%s shows %r twice', what, root)
            seen.add(root)
        check(seen == {path} | {p for p in below(tree, path, None if depth is None else depth - 1) if tree[p]['type'] == 'dir'}, '%s with depth %s shows %s', what, depth, sorted(seen))
    elif name in ('find', 'finddirs'):
        depth = rng.choice([None, None, 1, 2])
        with_folders = name == 'finddirs'
        result = fs.find(spelled, maxdepth=depth, withdirs=with_folders, detail=True)
        if entry['type'] != 'dir':
            same(result, [path], what)
            return
        expected = {p for p in below(tree, path, depth) if with_folders or tree[p]['type'] != 'dir'}
        found = {clean(p) for p in result}
        if with_folders and path in found:
            found.remove(path)  # Depends on the version of fsspec and how the path is spelled.
        same(found, expected, what)
        for found, info in result.items():
            if clean(found) != path:
                check_info(info, clean(found), tree[clean(found)], what)
    elif name == 'du':
        wanted = below(tree, path) if entry['type'] == 'dir' else {path}
        if any(tree[p]['type'] not in ('file', 'dir') for p in wanted):
            return
        wanted = sum(len(tree[p]['data']) for p in wanted if tree[p]['type'] == 'file')
        result = fs.du(spelled)
        check(result == wanted, '%s is %s instead of %s', what, result, wanted)
    elif name == 'glob':
        if magic or entry['type'] != 'dir':
            return
        base = path.rstrip('/')
        pattern, chosen = rng.choice([('*', children(tree, path)), ('**', below(tree, path) | {path}), ('*/*', {q for p in children(tree, path) for q in children(tree, p)})])
        result = {clean(p) for p in fs.glob((base + '/' if base else '') + pattern)} - {path}
        same(result, chosen - {path}, f'glob({base!r}/{pattern})')
    elif name == 'cat':
        if magic:
            return
        view.equal_bytes(fs.cat(spelled), entry['data'], what)
    elif name == 'range':
        size = len(entry['data'])
        start, end = rng.randint(0, size), rng.choice([None, rng.randint(0, size + 10)])
        if end is not None and end < start:
            start, end = end, start
        view.equal_bytes(fs.cat_file(spelled, start=start, end=end), entry['data'][start:end], f'{what} from {start} to {end}')
    elif name == 'catall':
        wanted = {p: tree[p]['data'] for p in below(tree, path) if tree[p]['type'] == 'file' and not any(c in p for c in '*?[]:')}
        if len(wanted) < 2:
            return
        result = fs.cat(sorted(wanted))
        result = {clean(p): d for p, d in result.items()}
        same(result, wanted, what)
        for found, data in result.items():
            view.equal_bytes(data, wanted[found], f'{what}: {found!r}')
    elif name == 'open':
        with fs.open(spelled, block_size=rng.choice([None, None, 1, 100, 70000])) as file:
            for _ in range(rng.randint(1, 5)):
                offset, count = rng.randint(0, len(entry['data']) + 5), rng.choice([-1, 0, 1, 10, 5000])
                check(file.seek(offset) is not None, '%s cannot seek', what)
                view.equal_bytes(file.read(count), entry['data'][offset:] if count < 0 else entry['data'][offset : offset + count], f'{what} at {offset}')
    elif name == 'text':
        with fs.open(spelled, 'r', encoding='latin1', newline='') as file:
            view.equal_bytes(file.read().encode('latin1'), entry['data'], what)
    elif name == 'url':
        if not archive or not re.fullmatch(r'[\w/. -]*', path):
            return
        import fsspec

        from ratarmountcore.SQLiteIndexedTarFsspec import SQLiteIndexedTarFileSystem

        fsspec.register_implementation('ratar', SQLiteIndexedTarFileSystem, clobber=True)
        with fsspec.open(f'ratar://{path[1:]}::file://{archive}', ratar={'indexFilePath': ':memory:'}) as file:
            view.equal_bytes(file.read(), entry['data'], f'URL to {path!r}')
    elif name == 'tree':
        if entry['type'] == 'dir':
            fs.tree(path, recursion_limit=5)
    elif name in ('absent', 'below'):
        missing = path.rstrip('/') + rng.choice(['/absent', '/ ', '/a', '/x.versions/7']) if name == 'below' or entry['type'] == 'dir' else path + rng.choice(['x', ' ', '.gz'])
        if missing in tree or clean(os.path.normpath(missing)) in tree or missing.endswith('/ ') and missing.rstrip('/ ') in tree:
            return
        check(not fs.exists(missing) and not fs.isdir(missing) and not fs.isfile(missing), '%r does not exist but is shown', missing)
        for call in (fs.info, fs.ls, fs.open, fs.cat_file, lambda p: fs.ls(p, detail=False)):
            try:
                result = call(missing)
            except FileNotFoundError:
                continue
            raise Violation(f'{getattr(call, "__name__", "ls")}({missing!r}) returned {result!r} instead of raising FileNotFoundError')
        check(fs.find(missing) == [], 'find(%r) finds something', missing)


def run_archive(case, ctx):
    fs, tree, archive = open_archive(case, ctx)
    protocol = 'ratar' if case['kind'].startswith('tar') else None
    for name, seed in case['calls']:
        run_call(name, seed, fs, tree, archive, protocol)
        ctx.label(name)
    ctx.label(case['kind'], 'via ' + case['via'])
    ctx.nontrivial(len(case['calls']) >= 5 and any(e['type'] == 'file' and e['data'] and p.count('/') > 1 for p, e in tree.items()))


@st.composite
def source_cases(draw):
    return {
        'kind': draw(st.sampled_from(['memory', 'memory', 'local', 'dir', 'zip', 'tar'])),
        'items': draw(formats.trees(maximum=5000, size=10, kinds=('file', 'file', 'file', 'dir'))),
        'via': draw(st.sampled_from(['object', 'prefix', 'url', 'url'])),
        'root': draw(st.sampled_from(['root', 'ro ot/ä', 'a/b'])),
        'order': draw(st.integers(0, 1000)),
    }  # fmt: skip


def run_source(case, ctx):
    import tarfile
    import uuid
    import zipfile

    import fsspec
    from fsspec.implementations.dirfs import DirFileSystem
    from fsspec.implementations.local import LocalFileSystem
    from fsspec.implementations.memory import MemoryFileSystem
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    from ratarmountcore.mountsource.factory import open_mount_source
    from ratarmountcore.mountsource.formats.fsspec import FSSpecMountSource

    kind, via = case['kind'], case['via']
    tree = formats.legal(case['items'], allow=lambda name: formats.utf8(name) and '\\' not in name and '\n' not in name and ':' not in name, kinds=('file', 'dir'))
    tree = [n for n in formats.with_parents(tree) if n['p'].strip('/')]
    if not any(n['t'] == 'file' for n in tree):
        raise Skip
    contents = {n['p']: (gen.data(n['c']) if n['t'] == 'file' else None) for n in tree}
    expected = {'/': {'type': 'dir'}, **{'/' + p: {'type': 'dir'} if d is None else {'type': 'file', 'data': d, 'size': len(d)} for p, d in contents.items()}}
    inside = case['root']
    if kind in ('zip', 'tar'):
        path = ctx.path('archive.' + kind)
        if kind == 'zip':
            with zipfile.ZipFile(path, 'w') as archive:
                for name, data in contents.items():
                    archive.writestr(f'{inside}/{name}' + ('/' if data is None else ''), data or b'')
        else:
            with tarfile.open(path, 'w') as archive:
                for name, data in contents.items():
                    member = tarfile.TarInfo(f'{inside}/{name}')
                    if data is None:
                        member.type = tarfile.DIRTYPE
                    else:
                        member.size = len(data)
                    archive.addfile(member, io.BytesIO(data or b''))
        fs = fsspec.filesystem(kind, fo=path, skip_instance_cache=True)
        prefix, url = inside, f'{kind}://{inside}::file://{path}'
    elif kind == 'memory':
        fs = MemoryFileSystem()
        prefix = f'/{uuid.UUID(int=case["order"])}/{inside}'
        ctx.stack.callback(lambda: fs.rm('/' + prefix.split('/')[1], recursive=True))
        fs.makedirs(prefix)
        for name, data in contents.items():
            if data is None:
                fs.makedirs(f'{prefix}/{name}', exist_ok=True)
            else:
                fs.pipe_file(f'{prefix}/{name}', data)
        url = 'memory:/' + prefix
    else:
        folder = ctx.path('folder')
        prefix = os.path.join(folder, inside)
        os.makedirs(prefix)
        for name, data in contents.items():
            if data is None:
                os.makedirs(f'{prefix}/{name}', exist_ok=True)
            else:
                with open(f'{prefix}/{name}', 'wb') as file:
                    file.write(data)
                os.utime(f'{prefix}/{name}', (1, 1234567890))
                expected['/' + name]['mtime'] = 1234567890
        fs = LocalFileSystem()
        url = 'local://' + prefix
        if kind == 'dir':
            fs, prefix, via = DirFileSystem(folder, LocalFileSystem()), inside, 'prefix' if via == 'url' else via
    if via == 'url':
        ms = open_mount_source(url)
        check(isinstance(ms, FSSpecMountSource), 'the URL was opened as %s', type(ms).__name__)
        top = '/'
    elif via == 'prefix':
        ms = FSSpecMountSource(fs, prefix)
        top = '/'
    else:
        if kind in ('local',):
            raise Skip  # That would be the whole file system.
        ms = FSSpecMountSource(fs)
        top = '/' + prefix.strip('/')
    ms = ctx.keep(FileVersionLayer(ms))
    actual = view.snapshot(ms, root=top)
    actual = {'/' + p[len(top) :].lstrip('/') if top != '/' else p: e for p, e in actual.items()}
    view.tree_diff(actual, expected, what=f'{kind} file system via {via}')
    rng = random.Random(case['order'])
    for path, entry in expected.items():
        full = view.join(top, path[1:]) if path != '/' else top
        modes = ms.list_mode(full)
        if entry['type'] == 'dir':
            check(set(view.names_of(modes)) == {os.path.basename(p) for p in children(expected, path)}, 'list_mode of %r is %s', full, modes)
        else:
            info = ms.lookup(full)
            with ms.open(info) as file:
                offset = rng.randint(0, len(entry['data']))
                file.seek(offset)
                view.equal_bytes(file.read(100), entry['data'][offset : offset + 100], f'{full!r} at {offset}')
        missing = view.join(full, 'absent') if full != '/' else '/absent'
        check(ms.lookup(missing) is None, 'lookup shows absent %r', missing)
        check(not ms.exists(missing), '%r exists', missing)
    ctx.label(kind, via)
    ctx.nontrivial(any(e['type'] == 'file' and e['data'] and p.count('/') > 1 for p, e in expected.items()))


SUBS = [Sub('archive', archive_cases, run_archive, 500, 30000), Sub('source', source_cases, run_source, 300, 15000)]
