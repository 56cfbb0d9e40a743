"""C25: command line options mean what the help text says."""
import contextlib
import gc
import io
import json
import os
import stat
import sys
import tarfile
import zipfile

from hypothesis import strategies as st

from vp.core import Skip, Sub, Violation, brief, check, check_equal

ID = 'C25'
TECHNIQUE = 'property-based testing: generated command lines against a model written from the help text; the FUSE call is replaced by a probe of the operations'
RULE = """
'options': random combinations, orders, and spellings (--option value, --option=value, short, repeated, --no-...) of the documented options, also invalid values, with random positional arguments (archives, folders, missing paths, duplicates), are parsed by the real command line interface. The options the mount is created with,
its mount point, and its FUSE options must equal the model; invalid ones must be rejected with a non-zero exit code or exception before the mount is created. 'mounts': the same entry point with archives and the FUSE library call replaced by a stand-in that walks the operations: recursion depth, passwords, encodings, union order, subvolumes, file versions,
transformations, ignored zeros, and hashes must be visible as documented. 'indexes': --no-mount with index options must create exactly the index files that a mount creates, and the mount must be able to use them with --no-recreate-index. 'unmount': exactly the given mount points are unmounted (commands are recorded, not executed).
Non-trivial: at least two options had other than default values, or an invalid value was rejected.
"""
ASSUMES = ['The keyword arguments of FuseMount are named like the options of the mount sources; an unknown name would be reported, not skipped.']


# --- stand-ins ------------------------------------------------------------------------------------------------------


class Recorder:
    """Stands in for FuseMount."""

    calls: list = []

    def __init__(self, pathToMount=None, mountPoint=None, **options):
        Recorder.calls.append({'pathToMount': pathToMount, 'mountPoint': mountPoint, **options})

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass


@contextlib.contextmanager
def replaced(module, name, value):
    original = getattr(module, name)
    setattr(module, name, value)
    try:
        yield
    finally:
        setattr(module, name, original)


def call(argv, probe=None, recorder=None):
    """Returns exit code (or exception), the arguments of the FUSE calls, and results of the probe."""
    import logging

    import ratarmount.FuseMount
    from ratarmount.actions import fuse
    from ratarmount.cli import cli

    fuse_calls = []

    def fuse_stub(operations=None, mountpoint=None, **kwargs):
        fuse_calls.append({'mountpoint': mountpoint, **kwargs})
        if probe:
            fuse_calls[-1]['probe'] = probe(operations)

    handlers, level = list(logging.getLogger().handlers), logging.getLogger().level
    out = io.StringIO()
    with contextlib.ExitStack() as stack:
        stack.enter_context(replaced(fuse, 'FUSE', fuse_stub))
        if recorder:
            stack.enter_context(replaced(ratarmount.FuseMount, 'FuseMount', recorder))
        stack.enter_context(contextlib.redirect_stdout(out))
        stack.enter_context(contextlib.redirect_stderr(out))
        stack.callback(logging.getLogger().setLevel, level)
        stack.callback(lambda: logging.getLogger().handlers.__setitem__(slice(None), handlers))
        try:
            code = cli(argv)
        except SystemExit as exception:
            code = exception.code
        except Exception as exception:
            code = exception
    return code, fuse_calls, out.getvalue()


# --- options --------------------------------------------------------------------------------------------------------

TEXT = st.sampled_from(['a', 'a b', 'ü', 'x=y', '%d', '~', 'a/b', '.hidden', '"quoted"'])
FLAGS = {
    '--recursive': 'recursive', '-r': 'recursive', '--verify-mtime': 'verifyModificationTime', '--lazy': 'lazyMounting', '-l': 'lazyMounting', '--ignore-zeros': 'ignoreZeros', '-i': 'ignoreZeros',
    '--strip-recursive-tar-extension': 'stripRecursiveTarExtension', '-s': 'stripRecursiveTarExtension', '--file-versions': 'enableFileVersions', '--control-interface': 'controlInterface',
    '--force-folder-index': 'forceFolderIndex', '--gnu-incremental': 'isGnuIncremental',
}  # fmt: skip
VALUES = {
    '--recursion-depth': ('recursionDepth', st.integers(-3, 5)), '--encoding': ('encoding', st.sampled_from(['utf-8', 'latin1', 'cp1252'])), '-e': ('encoding', st.sampled_from(['utf-8', 'latin1'])),
    '--index-file': ('indexFilePath', st.sampled_from([':memory:', '/some/where.sqlite', 'relative index', '~/x'])), '--write-overlay': ('writeOverlay', TEXT), '-w': ('writeOverlay', TEXT),
    '--log-file': ('logFile', TEXT), '--union-mount-cache-max-depth': ('maxCacheDepth', st.integers(0, 3000)), '--union-mount-cache-max-entries': ('maxCacheEntries', st.integers(0, 10**9)),
    '--union-mount-cache-timeout': ('maxSecondsToCache', st.sampled_from([0, 1.5, 60.0, 1e3])), '--index-minimum-file-count': ('indexMinimumFileCount', st.integers(0, 5000)),
}  # fmt: skip
INVALID = [
    ['-P', '-1'], ['-P', 'x'], ['-P', 'rapidgzip:x'], ['-P', 'rapidgzip:-2,:1'], ['-P', '1.5'], ['-P', 'rapidgzip'], ['--recursion-depth', 'x'], ['--recursion-depth', '1.5'], ['--gzip-seek-point-spacing', 'x'], ['--gzip-seek-point-spacing', 'nan'],
    ['--index-minimum-file-count', 'many'], ['--index-folders', '["unfinished'], ['--union-mount-cache-timeout', 'soon'], ['--union-mount-cache-max-depth', ''], ['--password-file', '/does/not/exist'], ['--unknown-option'], ['--transform', 'only-one'],
    ['--debug', 'x'], ['-P', 'a:1:2'], ['-P', ''],
]  # fmt: skip


@st.composite
def option(draw):
    kind = draw(st.sampled_from(['flag', 'flag', 'flag', 'value', 'value', 'value', 'parallel', 'password', 'folders', 'backend', 'extensions', 'hashes', 'spacing', 'transform', 'transform mount', 'recreate', 'fuse', 'prefix', 'detect', 'union', 'foreground', 'debug']))
    if kind == 'flag':
        name = draw(st.sampled_from(sorted(FLAGS)))
        value = draw(st.booleans()) if name.startswith('--') else True
        return [kind, name, value]
    if kind == 'value':
        name = draw(st.sampled_from(sorted(VALUES)))
        return [kind, name, draw(VALUES[name][1]), draw(st.booleans())]
    if kind == 'parallel':
        numbers = st.integers(0, 9)
        return [kind, draw(st.one_of(numbers, st.lists(st.tuples(st.sampled_from(['', 'rapidgzip', 'rapidgzip-bzip2', 'xz', 'indexed_zstd']), numbers).map(list), min_size=1, max_size=4)))]
    if kind == 'password':
        return [kind, draw(st.sampled_from(['', 'secret', 'pass word', 'pä,ss'])), draw(st.none() | st.lists(st.sampled_from(['one', 'two', 'secret', ' x ', 'ü']), max_size=4)), draw(st.booleans())]
    if kind == 'folders':
        return [kind, draw(st.sampled_from(['json', 'comma', 'single'])), draw(st.lists(st.sampled_from(['', '~/.ratarmount', '/tmp/a b', 'relative', 'foo,9000', '"x"']), min_size=1, max_size=3))]
    if kind == 'backend':
        return [kind, draw(st.lists(st.lists(st.sampled_from(['rapidgzip', 'libarchive', 'zipfile', 'tarfile', 'rarfile', 'indexed_gzip', 'xz']), min_size=1, max_size=3), min_size=1, max_size=2))]
    if kind == 'extensions':
        return [kind, draw(st.lists(st.lists(st.sampled_from(['.tar', '.TAR', '/archive', '/all', '/multimedia/-', '.zip/-', '*', '.a,b', ' .gz ', '']), min_size=1, max_size=3), min_size=1, max_size=2))]
    if kind == 'hashes':
        return [kind, draw(st.lists(st.sampled_from(['md5', 'sha1', 'crc32', 'sha256']), min_size=1, max_size=3))]
    if kind == 'spacing':
        return [kind, draw(st.sampled_from([0.0625, 0.5, 1, 4, 16, 123.25])), draw(st.sampled_from(['-gs', '--gzip-seek-point-spacing']))]
    if kind in ('transform', 'transform mount'):
        return [kind, draw(st.sampled_from(['a', '^/(.*)$', '[.][^/]+$'])), draw(st.sampled_from(['', r'/x/\1', 'b']))]
    if kind == 'recreate':
        return [kind, draw(st.sampled_from(['-c', '--recreate-index', '--no-recreate-index', '--recreate-index-on-errors']))]
    if kind == 'fuse':
        return [kind, draw(st.lists(st.sampled_from(['allow_other', 'ro', 'entry_timeout=2.8', 'gid=0', 'fsname=a=b', 'modules=subdir', 'subdir=x']), min_size=1, max_size=3)), draw(st.sampled_from(['-o', '--fuse']))]
    if kind == 'prefix':
        return [kind, draw(st.sampled_from(['/var/log', 'x'])), draw(st.sampled_from(['-p', '--prefix']))]
    if kind == 'foreground':
        return [kind, draw(st.sampled_from(['-f', '--foreground', '--no-foreground']))]
    if kind == 'debug':
        return [kind, draw(st.integers(0, 1))]
    return [kind]


POSITIONAL = ['one.tar', 'two.zip', 'three.tar.gz', 'a b.tar', 'noextension', 'folder', 'other', 'missing', 'text.txt', './one.tar', 'link.tar', 'deep/er/four.tar', 'split.tar.001']


@st.composite
def option_cases(draw):
    return {
        'options': draw(st.lists(option(), max_size=6)), 'positional': draw(st.lists(st.sampled_from(POSITIONAL), min_size=1, max_size=4)), 'invalid': draw(st.none() | st.integers(0, len(INVALID) - 1)) if draw(st.integers(0, 4)) == 0 else None,
        'split': draw(st.integers(0, 6)),
    }  # fmt: skip


def make_tar(path, mode='w', files=(('file', b'content'),)):
    with tarfile.open(path, mode) as archive:
        for name, data in files:
            info = tarfile.TarInfo(name)
            info.size = len(data)
            archive.addfile(info, io.BytesIO(data))


def build_world(ctx):
    root = ctx.path('world')
    for name in ('folder', 'other', 'deep/er'):
        os.makedirs(os.path.join(root, name))
    os.chdir(root)
    for name in ('one.tar', 'a b.tar', 'noextension', 'deep/er/four.tar'):
        make_tar(name)
    make_tar('three.tar.gz', 'w:gz')
    with zipfile.ZipFile('two.zip', 'w') as archive:
        archive.writestr('file', b'content')
    with open('text.txt', 'wb') as file:
        file.write(b'Just some text with letters, 12345.\n' * 30)
    with open('split.tar.001', 'wb') as first, open('split.tar.002', 'wb') as second, open('one.tar', 'rb') as source:
        data = source.read()
        first.write(data[:700])
        second.write(data[700:])
    os.symlink('one.tar', 'link.tar')
    return os.path.realpath(root)


def cores():
    return len(os.sched_getaffinity(0))


def arguments(case, ctx):
    """Returns the arguments and the model of the options. Later options win."""
    argv = []
    model = {
        'clearIndexCache': False, 'readOnlyIndex': False, 'recursive': False, 'recursiveExtensions': ['/archive', '/compressed', '/disk', '/split'], 'recursionDepth': None, 'gzipSeekPointSpacing': 16 << 20, 'encoding': 'utf-8', 'ignoreZeros': False,
        'verifyModificationTime': False, 'stripRecursiveTarExtension': False, 'indexFilePath': None, 'indexFolders': ['', '~/.ratarmount'], 'lazyMounting': False, 'passwords': [], 'parallelizations': {'': 1, 'rapidgzip-bzip2': cores()}, 'isGnuIncremental': False,
        'writeOverlay': None, 'transformRecursiveMountPoint': None, 'transform': None, 'prioritizedBackends': [], 'disableUnionMount': False, 'maxCacheDepth': 1024, 'maxCacheEntries': 100000, 'maxSecondsToCache': 60, 'indexMinimumFileCount': 1000, 'logFile': '',
        'enableFileVersions': True, 'controlInterface': False, 'hashes': None, 'forceFolderIndex': False,
    }  # fmt: skip
    mount = {'foreground': False}
    extra = {'fuse': [], 'prefix': ''}
    seen = {}
    changed = 0
    passwords, file_passwords = [], []
    for option in case['options']:
        kind, rest = option[0], option[1:]
        tokens = []
        if kind == 'flag':
            name, value = rest
            tokens = [name if value else '--no-' + name[2:]]
            model[FLAGS[name]] = value
        elif kind == 'value':
            name, value, equals = rest
            key = VALUES[name][0]
            text = str(value)
            tokens = [f'{name}={text}'] if (equals or text.startswith('-')) and name.startswith('--') else [name, text]
            model[key] = value
        elif kind == 'parallel':
            value = rest[0]
            if isinstance(value, int):
                parts = {'': value}
                text = str(value)
            else:
                text = ','.join(f'{k}:{v}' for k, v in value)
                parts = dict(value)
                if len(parts) != len(value):
                    continue
            tokens = ['-P', text]
            model['parallelizations'] = {k: v or cores() for k, v in parts.items()}
            model['parallelizations'].setdefault('', cores())
        elif kind == 'password':
            if kind in seen:
                continue
            password, lines, newline = rest
            tokens = ['--password', password]
            if password:
                passwords = [password.encode()]
            if lines is not None:
                path = ctx.path('passwords.txt')
                with open(path, 'w', encoding='utf-8') as file:
                    file.write('\n'.join(lines) + ('\n' if newline else ''))
                tokens += ['--password-file', path]
                file_passwords = [line.encode() for line in lines]
        elif kind == 'folders':
            form, folders = rest
            if form == 'json':
                text = json.dumps(folders)
            elif form == 'comma':
                folders = [f for f in folders if ',' not in f]
                if len(folders) < 2:
                    continue
                text = ','.join(folders)
            else:
                folders = folders[:1]
                text = folders[0]
                if ',' in text:
                    continue
            tokens = ['--index-folders', text]
            model['indexFolders'] = folders
        elif kind == 'backend':
            if kind in seen:
                continue
            tokens = [token for names in rest[0] for token in ('--use-backend', ','.join(names))]
            model['prioritizedBackends'] = [name for names in rest[0] for name in names][::-1]
        elif kind == 'extensions':
            if kind in seen:
                continue
            tokens = [token for names in rest[0] for token in ('--recursive-extensions', ','.join(n.replace(',', ',,') for n in names if n))]
            if not all(any(n for n in names) for names in rest[0]):
                continue
            model['recursiveExtensions'] = [n.strip() for names in rest[0] for n in names if n.strip()]
        elif kind == 'hashes':
            if kind in seen:
                continue
            tokens = ['--hashes', ','.join(rest[0])]
            model['hashes'] = rest[0]
        elif kind == 'spacing':
            value, name = rest
            tokens = [name, str(value)]
            model['gzipSeekPointSpacing'] = int(value * (1 << 20))
        elif kind == 'transform':
            tokens = ['--transform', *rest]
            model['transform'] = rest
        elif kind == 'transform mount':
            tokens = ['--transform-recursive-mount-point', *rest]
            model['transformRecursiveMountPoint'] = rest
        elif kind == 'recreate':
            tokens = rest
            model['clearIndexCache'] = rest[0] in ('-c', '--recreate-index')
            model['readOnlyIndex'] = rest[0] == '--no-recreate-index'
        elif kind == 'fuse':
            tokens = [rest[1], ','.join(rest[0])]
            extra['fuse'] = rest[0]
        elif kind == 'prefix':
            tokens = [rest[1], rest[0]]
            extra['prefix'] = rest[0]
        elif kind == 'detect':
            tokens = ['--detect-gnu-incremental']
            model['isGnuIncremental'] = None
        elif kind == 'union':
            tokens = ['--disable-union-mount']
            model['disableUnionMount'] = True
        elif kind == 'foreground':
            tokens = [rest[0]]
            mount['foreground'] = rest[0] != '--no-foreground'
        elif kind == 'debug':
            tokens = ['--debug', str(rest[0])]
        seen[kind] = True
        changed += 1
        argv.append(tokens)
    for password in passwords + file_passwords:
        if password not in model['passwords']:
            model['passwords'].append(password)
    for item in extra['fuse']:
        key, _, value = item.partition('=')
        mount[key] = value if '=' in item else True
    if extra['prefix']:
        mount['modules'], mount['subdir'] = 'subdir', extra['prefix']
    return argv, model, mount, changed


def classify(path):
    if os.path.isdir(path):
        return 'folder'
    if not os.path.exists(path):
        return 'missing'
    return 'text' if path.endswith('.txt') else 'archive'


def predict_positionals(case, model, root):
    """Returns (sources, mount point) or None if it must be rejected, or 'unknown'."""
    paths = list(case['positional'])
    mount_point = None
    if classify(paths[-1]) in ('folder', 'missing'):
        mount_point = paths.pop()
    if not paths and not model['writeOverlay'] and not model['controlInterface']:
        return None
    sources = []
    for path in paths:
        kind = classify(path)
        if kind == 'missing':
            return None
        if kind == 'text':
            return 'unknown'
        real = os.path.realpath(path)
        if not (sources and sources[-1] == real):
            sources.append(real)
    if len(set(sources)) != len(sources):
        return None
    if mount_point is None:
        name = sources[0]
        for suffix in ('.tar.gz', '.tar', '.zip', '.tar.001'):
            if name.endswith(suffix):
                mount_point = name[: -len(suffix)]
                break
        else:
            mount_point = name + '.mounted'
        if '.001' in name:
            return sources, None
    return sources, os.path.realpath(mount_point)


def run_options(case, ctx):
    root = build_world(ctx)
    os.environ.pop('XDG_CACHE_HOME', None)
    groups, model, mount, changed = arguments(case, ctx)
    invalid = INVALID[case['invalid']] if case['invalid'] is not None else None
    if invalid is not None and not any(o[0] == 'value' and VALUES[o[1]][0] in ('indexMinimumFileCount', 'maxSecondsToCache', 'maxCacheDepth', 'recursionDepth') or o[0] in ('parallel', 'spacing', 'folders', 'transform', 'password', 'debug') for o in case['options']):
        groups.append(invalid)
    else:
        invalid = None
    expected = predict_positionals(case, model, root)
    # Options may stand before and behind the positional arguments.
    before = groups[: case['split']]
    behind = groups[case['split'] :]
    argv = [token for group in before for token in group] + case['positional'] + [token for group in behind for token in group]
    if invalid and invalid[0] == '--transform':
        argv = [token for group in groups for token in group if group is not invalid] + case['positional'] + invalid
    Recorder.calls = []
    code, fuse_calls, output = call(argv, recorder=Recorder)
    rejected = code not in (0, None)
    what = f'ratarmount {argv!r}'
    if invalid is not None or expected is None:
        if Recorder.calls or fuse_calls:
            raise Violation(f'{what}: must be rejected but was mounted with {brief(Recorder.calls, 200)}')
        check(rejected, '%s: must be rejected, but exit code is %r', what, code)
        ctx.label('rejected')
        ctx.nontrivial()
        return
    if expected == 'unknown':
        ctx.label('not an archive')
        return
    if rejected or len(Recorder.calls) != 1 or len(fuse_calls) != 1:
        if not mount['foreground'] and 'Daemonizing' in (str(code) + output):
            raise Skip
        raise Violation(f'{what}: was not mounted, exit code {code!r}, {len(Recorder.calls)} mounts: {output[-500:]}')
    actual = dict(Recorder.calls[0])
    sources, mount_point = expected
    check_equal(actual.pop('pathToMount'), sources, f'{what}: sources')
    got = actual.pop('mountPoint')
    if mount_point is not None:
        check_equal(got, mount_point, f'{what}: mount point')
        check_equal(fuse_calls[0]['mountpoint'], mount_point, f'{what}: mount point of the FUSE call')
    actual.pop('writeIndex', None)
    depth = actual.get('recursionDepth')
    if model['recursionDepth'] is not None and model['recursionDepth'] < 0 and depth is not None:
        check(depth > 10**6, '%s: negative recursion depth is not infinite but %r', what, depth)
        actual['recursionDepth'] = model['recursionDepth']
    actual['passwords'] = [p for p in actual['passwords'] if p]
    if not actual['indexFolders']:
        actual['indexFolders'] = ['']
    if actual.get('hashes') is not None:
        check_equal(sorted(set(actual.pop('hashes'))), sorted(set(model.pop('hashes') or [])), f'{what}: hashes')
    for key in ('transform', 'transformRecursiveMountPoint'):
        if actual[key] is not None:
            actual[key] = list(actual[key])
    for key, value in model.items():
        wanted = [os.path.expanduser(f) for f in value] if key == 'indexFolders' else value
        have = [os.path.expanduser(f) for f in actual.get(key, [])] if key == 'indexFolders' else actual.get(key)
        check_equal(have, wanted, f'{what}: {key}')
    kwargs = {k: v for k, v in fuse_calls[0].items() if k not in ('mountpoint', 'nonempty', 'nothreads', 'probe')}
    check_equal(kwargs, mount, f'{what}: FUSE options')
    ctx.nontrivial(changed >= 2)
    ctx.label(*(o[0] for o in case['options']))


# --- mounts ---------------------------------------------------------------------------------------------------------


@st.composite
def mount_cases(draw):
    kind = draw(st.sampled_from(['recursion', 'recursion', 'recursion', 'password', 'encoding', 'union', 'versions', 'zeros', 'hashes', 'transform', 'prefix file', 'gnu', 'overlay']))
    case = {'kind': kind, 'flags': draw(st.lists(st.sampled_from(['-f', '-c', '--index-file=:memory:', '-P=2', '-P=0', '--no-lazy', '--union-mount-cache-timeout=1']), max_size=2, unique=True))}
    if kind == 'recursion':
        case['levels'] = draw(st.lists(st.sampled_from(['tar', 'zip', 'tar.gz']), min_size=1, max_size=4))
        case['options'] = draw(st.lists(st.sampled_from([['-r'], ['--recursive'], ['--no-recursive'], ['--recursion-depth', '0'], ['--recursion-depth', '1'], ['--recursion-depth', '2'], ['--recursion-depth=-1'], ['--recursion-depth=-7'], ['--recursion-depth', '99'], ['-l'], ['-s']]), max_size=3))
    elif kind == 'password':
        case['password'] = draw(st.sampled_from(['secret', 'a b', 'x,y', 'p=1']))
        case['given'] = draw(st.sampled_from(['option', 'file', 'both', 'wrong', 'none']))
        case['wrong'] = draw(st.lists(st.sampled_from(['no', 'nein', 'non']), max_size=2))
    elif kind == 'encoding':
        case['encoding'] = draw(st.sampled_from(['latin1', 'cp1252', 'utf-8', 'cp437']))
        case['name'] = draw(st.sampled_from(['ä', 'é-ü', 'plain', 'ñ/x']))
    elif kind == 'union':
        case['archives'] = draw(st.lists(st.lists(st.sampled_from(['a', 'b', 'c', 'd/e']), min_size=1, max_size=3, unique=True), min_size=1, max_size=3))
        case['disabled'] = draw(st.booleans())
        case['folder_last'] = draw(st.booleans())
    elif kind == 'versions':
        case['count'] = draw(st.integers(1, 4))
        case['enabled'] = draw(st.sampled_from([[], ['--file-versions'], ['--no-file-versions'], ['--no-file-versions', '--file-versions']]))
    elif kind == 'zeros':
        case['enabled'] = draw(st.sampled_from([[], ['-i'], ['--ignore-zeros'], ['--no-ignore-zeros']]))
    elif kind == 'hashes':
        case['hashes'] = draw(st.lists(st.sampled_from(['md5', 'sha1', 'sha256', 'sha512', 'crc32']), min_size=1, max_size=3, unique=True))
    elif kind == 'transform':
        case['which'] = draw(st.sampled_from([['^/?folder/', '/moved/'], ['[.]txt$', ''], ['a', 'b']]))
    elif kind == 'gnu':
        case['enabled'] = draw(st.sampled_from([[], ['--gnu-incremental'], ['--no-gnu-incremental'], ['--detect-gnu-incremental']]))
    return case


def walk(operations, path='/'):
    """{path: bytes or None for folders} through the operations of the mount"""
    result = {}
    for name in operations.readdir(path, 0):
        name = name if isinstance(name, str) else name[0]
        if name in ('.', '..'):
            continue
        child = path.rstrip('/') + '/' + name
        mode = operations.getattr(child)['st_mode']
        if stat.S_ISDIR(mode):
            result[child] = None
            result.update(walk(operations, child))
        else:
            handle = operations.open(child, os.O_RDONLY)
            result[child] = operations.read(child, 1 << 20, 0, handle)
            operations.release(child, handle)
    return result


def mounted(argv, probe, ctx):
    code, fuse_calls, output = call(argv, probe=probe)
    if code not in (0, None) or len(fuse_calls) != 1:
        if 'Daemonizing' in output + str(code):
            raise Skip
        raise Violation(f'ratarmount {argv!r} was not mounted: {code!r} {output[-600:]}')
    return fuse_calls[0]['probe']


def run_mounts(case, ctx):
    root = ctx.path('world')
    os.makedirs(os.path.join(root, 'target'))
    os.chdir(root)
    flags = [token for flag in case['flags'] for token in (flag.split('=', 1) if flag.startswith('-P') else [flag])]
    if '-f' not in flags:
        flags.append('-f')
    globals()['run_' + case['kind'].split()[0]](case, flags, ctx)
    ctx.label(case['kind'])
    ctx.nontrivial()


def run_recursion(case, flags, ctx):
    data, name = b'innermost', 'file'
    expected_paths = []
    for level, kind in enumerate(case['levels']):
        buffer = io.BytesIO()
        if kind == 'zip':
            with zipfile.ZipFile(buffer, 'w') as archive:
                archive.writestr(f'f{level}', b'%d' % level)
                archive.writestr(name, data)
        else:
            with tarfile.open(fileobj=buffer, mode='w:gz' if kind == 'tar.gz' else 'w') as archive:
                for n, d in ((f'f{level}', b'%d' % level), (name, data)):
                    info = tarfile.TarInfo(n)
                    info.size = len(d)
                    archive.addfile(info, io.BytesIO(d))
        data, name = buffer.getvalue(), f'level{level}.{kind}'
        expected_paths.append(name)
    with open(name, 'wb') as file:
        file.write(data)
    recursive, depth, strip = False, None, False
    options = []
    for option in case['options']:
        options += option
        text = option[0]
        if text in ('-r', '--recursive', '--no-recursive'):
            recursive = not text.startswith('--no')
        elif text.startswith('--recursion-depth'):
            depth = int(option[1] if len(option) > 1 else text.split('=')[1])
        elif text == '-s':
            strip = True
    if depth is None:
        depth = 10**9 if recursive else 0
    elif depth < 0:
        depth = 10**9
    if 'tar.gz' in case['levels'] and depth < 10**9 and any(o[0].startswith('--recursion-depth') for o in case['options']) and not case.get('known'):
        raise Skip  # An explicit depth counts the compression as another level (known finding).
    tree = mounted([*flags, *options, name, 'target'], walk, ctx)
    # Level i is mounted below the path of all outer ones.
    prefix = ''
    for i, (level_name, kind) in enumerate(zip(expected_paths[-2::-1], case['levels'][-2::-1]), 1):
        shown = level_name
        if strip:
            shown = shown.rsplit('.tar', 1)[0] if kind in ('tar', 'tar.gz') else shown.rsplit('.', 1)[0]
        is_folder = i <= depth
        path = f'{prefix}/{shown if is_folder else level_name}'
        candidates = {path, f'{prefix}/{level_name}'}
        found = [p for p in candidates if p in tree]
        check(len(found) >= 1, '%r: neither of %r is shown: %r', [*options], candidates, sorted(tree))
        path = next((p for p in found if (tree[p] is None) == is_folder), None)
        check(path is not None, 'options %r: level %r must be a %s but the tree is %r', options, i, 'folder' if is_folder else 'file', sorted(tree))
        if not is_folder:
            break
        prefix = path
    else:
        check_equal(tree.get(prefix + '/file'), b'innermost', f'options {options!r}: contents of {prefix}/file in {sorted(tree)!r}')


def zip_encrypted(path, password):
    import subprocess

    with open('plain', 'wb') as file:
        file.write(b'top secret')
    subprocess.run(['zip', '-q', '-P', password, path, 'plain'], check=True, stdout=subprocess.DEVNULL)
    os.remove('plain')


def run_password(case, flags, ctx):
    zip_encrypted('archive.zip', case['password'])
    argv = list(flags)
    known = case['given'] in ('option', 'file', 'both')
    lines = list(case['wrong'])
    if case['given'] in ('option', 'both'):
        argv += ['--password', case['password']]
    elif case['given'] == 'wrong':
        argv += ['--password', 'wrong']
    if case['given'] in ('file', 'both'):
        lines.append(case['password'])
        lines += case['wrong'][:1]
    if case['given'] != 'option':
        with open(ctx.path('passwords'), 'w', encoding='utf-8') as file:
            file.write('\n'.join(lines) + '\n')
        argv += ['--password-file', ctx.path('passwords')]

    def probe(operations):
        check(stat.S_ISREG(operations.getattr('/plain')['st_mode']), 'file is not shown')
        try:
            handle = operations.open('/plain', os.O_RDONLY)
            return operations.read('/plain', 100, 0, handle)
        except Exception as exception:
            return exception

    argv += ['archive.zip', 'target']
    if known:
        check_equal(mounted(argv, probe, ctx), b'top secret', f'{argv!r}: contents')
    else:
        code, calls, _ = call(argv, probe=probe)
        got = calls[0]['probe'] if calls else None
        check(got != b'top secret', 'read encrypted data without password')


def run_encoding(case, flags, ctx):
    with contextlib.suppress(UnicodeEncodeError):
        name = case['name'].encode(case['encoding'])
        make_tar_bytes('archive.tar', [(name, b'x')])
        tree = mounted([*flags, '--encoding', case['encoding'], 'archive.tar', 'target'], walk, ctx)
        check_equal(tree.get('/' + case['name']), b'x', f'{case!r}: contents in {sorted(tree)!r}')


def make_tar_bytes(path, files, prefix=b''):
    with open(path, 'wb') as out:
        for name, data in files:
            header = bytearray(512)
            header[: len(name)] = name
            header[100:108], header[108:116], header[116:124] = b'0000644\0', b'0000000\0', b'0000000\0'
            header[124:136], header[136:148], header[148:156] = b'%011o\0' % len(data), b'00000000000\0', b' ' * 8
            header[156:157], header[257:265] = b'0', b'ustar  \0'
            header[345 : 345 + len(prefix)] = prefix
            header[148:156] = b'%06o\0 ' % sum(header)
            out.write(bytes(header) + data + bytes(-len(data) % 512))
        out.write(bytes(1024))


def run_union(case, flags, ctx):
    names = []
    merged = {}
    subvolumes = {}
    for i, files in enumerate(case['archives']):
        name = f'archive{i}.tar'
        make_tar(name, files=[(f, b'%s in %d' % (f.encode(), i)) for f in files])
        names.append(name)
        for f in files:
            merged['/' + f] = b'%s in %d' % (f.encode(), i)
            subvolumes[f'/{name}/{f}'] = merged['/' + f]
    if case['folder_last']:
        os.mkdir('bound')
        with open('bound/a', 'wb') as file:
            file.write(b'from folder')
        names.append('bound')
        merged['/a'] = b'from folder'
        subvolumes['/bound/a'] = b'from folder'
    argv = [*flags, *(['--disable-union-mount'] if case['disabled'] else []), *names, 'target']
    tree = mounted(argv, walk, ctx)
    files = {k: v for k, v in tree.items() if v is not None}
    check_equal(files, subvolumes if case['disabled'] and len(names) > 1 else merged, f'{argv!r}: files')


def run_versions(case, flags, ctx):
    make_tar('archive.tar', files=[('file', b'version %d' % (i + 1)) for i in range(case['count'])])
    enabled = case['enabled'][-1:] != ['--no-file-versions']

    def probe(operations):
        try:
            names = [n if isinstance(n, str) else n[0] for n in operations.readdir('/file.versions', 0)]
        except Exception:
            return None
        result = {}
        for name in names:
            if name not in ('.', '..'):
                handle = operations.open('/file.versions/' + name, os.O_RDONLY)
                result[name] = operations.read('/file.versions/' + name, 100, 0, handle)
        return result

    got = mounted([*flags, *case['enabled'], 'archive.tar', 'target'], probe, ctx)
    check_equal(got or None, {str(i + 1): b'version %d' % (i + 1) for i in range(case['count'])} if enabled else None, f'{case!r}: versions')


def run_zeros(case, flags, ctx):
    make_tar('a.tar', files=[('a', b'1')])
    make_tar('b.tar', files=[('b', b'2')])
    with open('both.tar', 'wb') as out:
        for name in ('a.tar', 'b.tar'):
            with open(name, 'rb') as file:
                out.write(file.read())
    tree = mounted([*flags, *case['enabled'], 'both.tar', 'target'], walk, ctx)
    ignore = case['enabled'] in (['-i'], ['--ignore-zeros'])
    check_equal(tree, {'/a': b'1', '/b': b'2'} if ignore else {'/a': b'1'}, f'{case!r}: tree')


def run_hashes(case, flags, ctx):
    import hashlib
    import zlib

    make_tar('archive.tar', files=[('file', b'to be hashed')])

    def probe(operations):
        return {key: operations.getxattr('/file', key) for key in operations.listxattr('/file')}

    got = mounted([*flags, '--hashes', ','.join(case['hashes']), 'archive.tar', 'target'], probe, ctx)
    wanted = {
        'user.hash.' + name: (f'{zlib.crc32(b"to be hashed"):08x}' if name == 'crc32' else hashlib.new(name, b'to be hashed').hexdigest()).encode() for name in case['hashes']
    }  # fmt: skip
    check_equal(got, wanted, f'{case!r}: hashes')


def run_transform(case, flags, ctx):
    import re

    files = [('folder/a.txt', b'1'), ('folder/b', b'2'), ('other/a.txt.txt', b'3')]
    make_tar('archive.tar', files=files)
    tree = mounted([*flags, '--transform', *case['which'], 'archive.tar', 'target'], walk, ctx)
    wanted = {'/' + re.sub(case['which'][0], case['which'][1], '/' + name).strip('/'): data for name, data in files}
    check_equal({k: v for k, v in tree.items() if v is not None}, wanted, f'{case!r}: files')


def run_prefix(case, flags, ctx):
    # Options may also come behind the positional arguments.
    make_tar('archive.tar')
    tree = mounted(['archive.tar', 'target', *flags, '--encoding', 'latin1'], walk, ctx)
    check_equal(tree, {'/file': b'content'}, f'{case!r}: tree')


def run_gnu(case, flags, ctx):
    # GNU TAR stores the access and creation times where the prefix of other formats is.
    make_tar_bytes('archive.tar', [(b'folder/file', b'x'), (b'folder/other', b'y')], prefix=b'13742321234\0' + b'13742321235\0')
    tree = mounted([*flags, *case['enabled'], 'archive.tar', 'target'], walk, ctx)
    stripped = case['enabled'] in (['--gnu-incremental'],)
    files = sorted(k for k, v in tree.items() if v is not None)
    if case['enabled'] == ['--detect-gnu-incremental']:
        return
    check_equal(files, ['/folder/file', '/folder/other'] if stripped else ['/13742321234/folder/file', '/13742321234/folder/other'], f'{case!r}: files')


def run_overlay(case, flags, ctx):
    make_tar('archive.tar')

    def probe(operations):
        handle = operations.create('/new', 0o644)
        operations.write('/new', b'data', 0, handle)
        operations.release('/new', handle)
        operations.unlink('/file')
        return walk(operations)

    tree = mounted([*flags, '--write-overlay', 'overlay', 'archive.tar', 'target'], probe, ctx)
    check_equal(tree, {'/new': b'data'}, 'tree with write overlay')
    with open('overlay/new', 'rb') as file:
        check_equal(file.read(), b'data', 'file in overlay')
    gc.collect()
    tree = mounted([*flags, '--write-overlay=overlay', 'archive.tar', 'target'], walk, ctx)
    check_equal(tree, {'/new': b'data'}, 'tree with the same write overlay')


# --- indexes --------------------------------------------------------------------------------------------------------


@st.composite
def index_cases(draw):
    return {
        'archives': draw(st.lists(st.sampled_from(['tar', 'tar.gz', 'tar.bz2', 'zip', 'folder']), min_size=1, max_size=2, unique=True)), 'files': draw(st.integers(1, 6)),
        'location': draw(st.sampled_from([[], [], ['--index-folders', 'indexes'], ['--index-folders', ',~/.x'], ['--index-folders', '["~/.y","indexes"]'], ['--index-folders', 'nothere/sub,~/.x'], ['--index-file', 'my.index'], ['--index-file', ':memory:']])),
        'minimum': draw(st.sampled_from([[], ['--index-minimum-file-count', '0'], ['--index-minimum-file-count', '3'], ['--index-minimum-file-count', '100']])),
        'other': draw(st.lists(st.sampled_from([['-r'], ['--force-folder-index'], ['-P', '2'], ['-gs', '0.1'], ['--encoding', 'latin1'], ['-i'], ['--hashes', 'md5'], ['-c'], ['--verify-mtime']]), max_size=2)),
    }  # fmt: skip


def index_files(root, home):
    result = {}
    for top in (root, home):
        for folder, _, files in os.walk(top):
            for name in files:
                path = os.path.join(folder, name)
                with open(path, 'rb') as file:
                    data = file.read()
                if data.startswith(b'SQLite format 3\0'):
                    result[path] = data
    return result


def rows(path):
    import sqlite3

    with contextlib.closing(sqlite3.connect(f'file:{path}?mode=ro', uri=True)) as database:
        tables = sorted(r[0] for r in database.execute("SELECT name FROM sqlite_master WHERE type = 'table'"))
        result = {'tables': tables}
        for table in ('files', 'xattrs'):
            if table in tables:
                result[table] = sorted(map(repr, database.execute(f'SELECT * FROM {table}')))
        return result


def run_indexes(case, ctx):
    root = ctx.path('world')
    os.makedirs(os.path.join(root, 'target'))
    os.makedirs(os.path.join(root, 'source'))
    os.chdir(root)
    os.environ.pop('XDG_CACHE_HOME', None)
    home = os.environ['HOME']
    inner = io.BytesIO()
    with tarfile.open(fileobj=inner, mode='w') as archive:
        info = tarfile.TarInfo('inside')
        info.size = 3
        archive.addfile(info, io.BytesIO(b'abc'))
    files = [(f'file{i}', b'%d' % i * 100) for i in range(case['files'])] + [('inner.tar', inner.getvalue())]
    names = []
    for kind in case['archives']:
        name = f'source/archive.{kind}'
        if kind == 'folder':
            os.mkdir(name)
            for n, d in files:
                with open(os.path.join(name, n), 'wb') as file:
                    file.write(d)
        elif kind == 'zip':
            with zipfile.ZipFile(name, 'w') as archive:
                for n, d in files:
                    archive.writestr(n, d)
        else:
            make_tar(name, 'w:' + kind[4:] if kind[4:] else 'w', files)
        names.append(name)
    if case['location'][:1] == ['--index-file'] and case['location'][1] != ':memory:' and len(names) > 1:
        raise Skip
    options = [*case['location'], *case['minimum'], *(token for group in case['other'] for token in group)]
    code, calls, output = call(['--no-mount', *options, *names])
    check(code in (0, None) and not calls, '--no-mount %r failed: %r %s', options, code, output[-600:])
    first = index_files(root, home)
    parsed = {path: rows(path) for path in first}
    without = [token for token in options if token != '-c']
    # A mount may only use these as they are.
    def probe(operations):
        return walk(operations)

    if first and all(any(os.path.basename(path).endswith(os.path.basename(n) + '.index.sqlite') for path in first) or n.endswith('folder') for n in names):
        tree = mounted(['-f', '--no-recreate-index', *without, *names, 'target'], probe, ctx)
        check('/file0' in tree, '%r: file is missing when mounting with the index: %r', options, sorted(tree))
        check_equal(index_files(root, home), first, f'{options!r}: index files after using them')
        ctx.nontrivial()
        ctx.label('index used')
    for path in first:
        os.remove(path)
    mounted(['-f', *options, *names, 'target'], probe, ctx)
    second = {path: rows(path) for path in index_files(root, home)}
    check_equal(sorted(second), sorted(parsed), f'{options!r} {names!r}: indexes after mounting, compared to --no-mount')
    for path in second:
        check_equal(second[path], parsed[path], f'{options!r} {names!r}: contents of {path!r}')
    ctx.label(f'{len(first)} indexes')


# --- unmount --------------------------------------------------------------------------------------------------------


@st.composite
def unmount_cases(draw):
    return {'points': draw(st.lists(st.sampled_from(['a', 'b c', 'ü', './x', 'missing/y']), max_size=3, unique=True)), 'flag': draw(st.sampled_from(['-u', '--unmount'])), 'behind': draw(st.booleans()), 'fail': draw(st.booleans())}


def run_unmount(case, ctx):
    import subprocess

    from ratarmount import actions

    os.makedirs(ctx.path('world'))
    os.chdir(ctx.path('world'))
    commands = []

    def run(command, **_):
        commands.append(list(command))
        if case['fail']:
            raise subprocess.CalledProcessError(1, command)

    argv = [*case['points'], case['flag']] if case['behind'] else [case['flag'], *case['points']]
    with replaced(actions.subprocess, 'run', run):
        code, calls, _ = call(argv)
    check(not calls, 'unmounting must not mount')
    targets = [command[-1] for command in commands if command[0].endswith('fusermount') and '-u' in command]
    check_equal(sorted(set(targets)), sorted(case['points']), f'{argv!r}: unmounted')
    check(all(command[-1] in case['points'] for command in commands), '%r: commands %r', argv, commands)
    if not case['points']:
        check(code not in (0, None), 'unmounting nothing must be rejected')
    ctx.nontrivial(len(case['points']) > 1)


SUBS = [
    Sub('options', option_cases, run_options, 900, 40000),
    Sub('mounts', mount_cases, run_mounts, 500, 20000),
    Sub('indexes', index_cases, run_indexes, 250, 10000),
    Sub('unmount', unmount_cases, run_unmount, 60, 300),
]
