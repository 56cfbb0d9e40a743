"""C23: mounting never changes inputs and writes indexes only where configured."""
import contextlib
import gzip
import io
import os
import sqlite3
import stat

from hypothesis import strategies as st

from checks import C15
from checks.C13 import KINDS
from vp import formats, view
from vp.core import Skip, Sub, Violation, brief

ID = 'C23'
TECHNIQUE = 'property-based testing: generated archives, index options, and histories; the whole file system tree before and after against a model of the index location'
RULE = """
'placement': an archive of a random format that uses an index (TAR, compressed TAR, ZIP, AR, ASAR, SquashFS, or a folder with a forced index) with a random name and random location options: explicit index path (also in a missing folder, below a file, or blocked
by a folder), lists of index folders (beside, existing, missing, home, ':memory:', relative, XDG cache folder, unusable ones), the defaults, in-memory, read-only, write-disabled, clearing, minimum file counts around the number of files. It is opened, fully read, and closed up to three times,
with the index optionally removed, damaged, made older, or compressed in between, or given as file object. A model predicts where the index appears. 'inputs': files of all formats, lone indexes, and other databases, also cut, damaged, and random ones, split archives, and folders of archives mounted recursively. Always: inputs are unchanged
(bytes, times, mode), no other file appears anywhere in the scratch folder, the home, the current folder, and the temporary folder, and nothing temporary remains. Non-trivial: an index was written or an option prevented it.
"""
ASSUMES = [
    'Compressed TARs store seek points in the index and therefore write it independently of the minimum file count, as documented in the code.',
    'Minimum file counts between the number of files and the number of all entries may or may not give an index on disk.',
]

INDEXED = ['tar', 'targz', 'tarbz2', 'tarxz', 'zip', 'ar', 'asar', 'squashfs', 'folder']
FOLDERS = ['', '', 'good', 'missing/deeper', 'below-file/x', 'blocked', '~/.ratarmount', '~/other', 'relative', ':memory:', 'with space, and comma']
EXPLICIT = ['index.sqlite', 'missing/folder/index', 'odd %23 ä?#1.index', 'below-file/index.sqlite', 'is-a-folder', '~/index.sqlite', 'relative.sqlite']


@st.composite
def placement_cases(draw):
    kind = draw(st.sampled_from([k for k in INDEXED if k in KINDS or k == 'folder']))
    location = draw(st.sampled_from(['explicit', 'folders', 'folders', 'folders', 'default', 'memory']))
    case = {
        'kind': kind, 'o': None if kind == 'folder' else draw(KINDS[kind].options()), 'tree': draw(formats.trees(maximum=2000, size=8)),
        'name': draw(st.sampled_from(['archive', 'a b', 'ünï', 'we_ird', 'x.y'])), 'location': location,
        'write': draw(st.sampled_from([True, True, True, True, False])), 'read_only': draw(st.sampled_from([False, False, False, True])),
        'minimum': draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5, 8, 1000, None])),
        'xdg': draw(st.sampled_from(['unset', 'folder', 'missing'])), 'beside_blocked': draw(st.sampled_from([False, False, True])),
        'via': draw(st.sampled_from(['path', 'path', 'path', 'path', 'relative', 'fileobj', 'bytesio'])),
        'rounds': draw(st.lists(st.sampled_from(['keep', 'keep', 'remove', 'damage', 'compress', 'read only', 'clear', 'memory']), max_size=2)),
    }  # fmt: skip
    if location == 'explicit':
        case['path'] = draw(st.sampled_from(EXPLICIT))
    if location == 'folders':
        case['folders'] = draw(st.lists(st.sampled_from(FOLDERS), min_size=1, max_size=3, unique=True))
    return case


@st.composite
def input_cases(draw):
    case = C15.files(draw)
    if draw(st.integers(0, 7)) == 0:
        case = {'kind': draw(st.sampled_from(['index', 'database'])), 'tree': draw(formats.trees(maximum=2000, size=5)), 'o': draw(KINDS['tar'].options())}
    case['damage'] = draw(st.sampled_from(['', '', '', 'cut', 'flip']))
    case['where'] = draw(st.floats(0, 1).map(lambda x: round(x, 3)))
    case['how'] = draw(st.sampled_from(['path', 'path', 'fileobj', 'folder', 'split', 'nested']))
    case['disk'] = draw(st.sampled_from(['memory', 'beside', 'folder', 'no write']))
    case['extra'] = draw(st.sampled_from([{}, {'recursive': True}, {'recursive': True, 'lazyMounting': True}, {'hashes': ['crc32']}, {'prioritizedBackends': ['libarchive']}, {'parallelization': 2}]))
    return case


def tree(root):
    """All that is stored below a folder, without access times."""
    result = {}
    for folder, folders, files in os.walk(root):
        for name in folders + files:
            path = os.path.join(folder, name)
            info = os.lstat(path)
            entry = {'mode': info.st_mode}
            if stat.S_ISREG(info.st_mode):
                entry['mtime'] = info.st_mtime_ns
                with open(path, 'rb') as file:
                    entry['data'] = file.read()
            elif stat.S_ISLNK(info.st_mode):
                entry['link'] = os.readlink(path)
            result[path] = entry
    return result


def is_sqlite(data):
    return data.startswith(b'SQLite format 3\0')


def compare(before, after, allowed, what, may_change=()):
    """allowed: index paths that may be there"""
    for path, entry in before.items():
        if path not in after:
            if path in may_change:
                continue
            raise Violation(f'{what}: {path!r} has been removed')
        for key, value in entry.items():
            if after[path][key] != value and path not in may_change:
                raise Violation(f'{what}: {key} of {path!r} changed from {brief(value, 80)} to {brief(after[path][key], 80)}')
    for path in sorted(after.keys() - before.keys()):
        if stat.S_ISDIR(after[path]['mode']):
            if not any(x.startswith(path + '/') for x in allowed):
                raise Violation(f'{what}: created folder {path!r}')
        elif path not in allowed:
            raise Violation(f'{what}: created {path!r} with {len(after[path].get("data", b""))} bytes; may only create {sorted(allowed)!r}')


def read_all(ms):
    """Returns whether everything could be read."""
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer

    try:
        view.snapshot(FileVersionLayer(ms))
    except Violation:
        pass
    except Exception:
        return False
    return True


def open_source(source, options):
    from ratarmountcore.mountsource.factory import open_mount_source

    return open_mount_source(source, **options)


class World:
    def __init__(self, ctx):
        self.root = ctx.path('world')
        for name in ('archives', 'cwd', 'good', 'is-a-folder'):
            os.makedirs(os.path.join(self.root, name))
        with open(self.at('below-file'), 'wb') as file:
            file.write(b'a file')
        self.home, self.tmp = os.environ['HOME'], os.environ['TMPDIR']
        os.chdir(self.at('cwd'))

    def at(self, *names):
        return os.path.join(self.root, *names)

    def resolve(self, folder):
        """A configured folder to what is given to ratarmount."""
        if folder in ('', ':memory:') or folder.startswith('~') or folder.startswith('relative'):
            return folder
        return self.at(folder)

    def state(self):
        result = {}
        for root in (self.root, self.home, self.tmp):
            result.update(tree(root))
        return result


def predicted(world, case, archive):
    """Returns all candidates in order, as (path, usable)"""
    flat = (archive + '.index.sqlite').replace('/', '_')

    def usable(path):
        if path.startswith(world.at('below-file') + '/') or os.path.isdir(path):
            return False
        return True

    if case['location'] == 'memory':
        return []
    if case['location'] == 'explicit':
        path = case['path']
        path = os.path.join(world.home, path[2:]) if path.startswith('~/') else world.at('cwd', path) if path.startswith('relative') else world.at(path)
        return [(path, usable(path))]
    if case['location'] == 'default':
        folders = ['', '~/.ratarmount']
        if case['xdg'] == 'folder':
            folders.insert(1, world.at('xdg', 'ratarmount'))
    else:
        folders = case['folders']
    result = []
    for folder in folders:
        if folder == '':
            path = archive + '.index.sqlite'
        elif folder == ':memory:':
            # Is a folder name like others.
            path = os.path.join(world.at('cwd'), ':memory:', flat)
        elif folder.startswith('~'):
            path = os.path.join(world.home, folder[2:], flat)
        elif folder.startswith('relative'):
            path = world.at('cwd', folder, flat)
        else:
            path = os.path.join(world.at(folder), flat)
        result.append((path, usable(path)))
    return result


def run_placement(case, ctx):
    world = World(ctx)
    kind = case['kind']
    if kind == 'folder':
        archive = world.at('archives', case['name'])
        os.mkdir(archive)
        for i in range(len(case['tree']) + 1):
            with open(os.path.join(archive, f'file{i}'), 'wb') as file:
                file.write(b'x' * i)
        expected = None
    else:
        archive = world.at('archives', case['name'] + formats_extension(kind))
        _, expected = KINDS[kind].make(archive, case['tree'], case['o'])
        if expected is None:
            raise Skip
        entries = len(expected)
        files = sum(e.get('type') != 'dir' for e in expected.values())
        if files == 0:
            raise Skip
    for name in os.listdir(world.at('archives')):
        if name != os.path.basename(archive):
            raise Skip  # Side products
    flat = (archive + '.index.sqlite').replace('/', '_')
    if len(flat.encode()) > 250:
        raise Skip
    os.makedirs(world.at('blocked', flat))
    if case['beside_blocked']:
        os.mkdir(archive + '.index.sqlite')
    os.environ.pop('XDG_CACHE_HOME', None)
    ctx.stack.callback(lambda: os.environ.pop('XDG_CACHE_HOME', None))
    if case['xdg'] != 'unset':
        os.environ['XDG_CACHE_HOME'] = world.at('xdg')
    if case['xdg'] == 'folder':
        os.mkdir(world.at('xdg'))
    base = {}
    if case['location'] == 'memory':
        base['indexFilePath'] = ':memory:'
    elif case['location'] == 'explicit':
        base['indexFilePath'] = case['path'] if case['path'].startswith(('~', 'relative')) else world.at(case['path'])
    elif case['location'] == 'folders':
        base['indexFolders'] = [world.resolve(f) for f in case['folders']]
    if case['minimum'] is not None:
        base['indexMinimumFileCount'] = case['minimum']
    minimum = 1000 if case['minimum'] is None else case['minimum']
    base['writeIndex'] = case['write']
    if kind == 'folder':
        base['forceFolderIndex'] = True
    via = case['via'] if kind != 'folder' or case['via'] == 'relative' else 'path'
    given = os.path.relpath(archive) if via == 'relative' else archive
    # Relative paths are used as they are for the name of the index in other folders.
    compressed = kind in ('targz', 'tarbz2', 'tarxz')
    rounds = ['first', *case['rounds']]
    for number, action in enumerate(rounds):
        candidates = predicted(world, case, archive if kind == 'folder' else given)
        candidates = [(os.path.normpath(os.path.join(world.at('cwd'), p)), u) for p, u in candidates]
        paths = [p for p, _ in candidates]
        existing = [p for p in paths if os.path.isfile(p)]
        options = {**base}
        read_only = case['read_only'] and number == 0 or action == 'read only'
        if action == 'remove':
            for path in existing:
                os.remove(path)
            existing = []
        elif action == 'damage':
            for path in existing:
                with open(path, 'wb') as file:
                    file.write(b'SQLite format 3\0' + b'\1' * 300)
        elif action == 'compress':
            for path in existing:
                if path != given + '.index.sqlite' and path != archive + '.index.sqlite':
                    continue
                with open(path, 'rb') as file:
                    data = file.read()
                os.remove(path)
                with gzip.open(path + '.gz', 'wb') as file:
                    file.write(data)
        elif action == 'clear':
            options['clearIndexCache'] = True
        elif action == 'memory':
            options['indexFilePath'] = ':memory:'
        if read_only:
            options['readOnlyIndex'] = True
        before = world.state()
        source = given
        if via == 'fileobj':
            source = ctx.keep(open(archive, 'rb'))
        elif via == 'bytesio':
            with open(archive, 'rb') as file:
                source = io.BytesIO(file.read())
        opened = True
        name = ''
        try:
            ms = open_source(source, options)
        except Exception as exception:
            opened = False
            ctx.label(f'{type(exception).__name__}')
        else:
            name = type(ms).__name__
            with ms:
                read_all(ms)
            del ms
        after = world.state()
        what = f'round {number} ({action}), {name or "not opened"}'
        in_memory = action == 'memory' or case['location'] == 'memory'
        writes = (case['write'] or kind == 'folder') and not read_only and not in_memory
        if via in ('fileobj', 'bytesio') and 'indexFilePath' not in options:
            writes = False
        before_index = {p for p in paths if os.path.isfile(p)} | set(existing)
        if not writes:
            # Nothing may be created or changed, except that clearing removes.
            compare(before, after, (), what, may_change=paths if action == 'clear' and not in_memory and not read_only else ())
            ctx.label('must not write')
            ctx.nontrivial(opened)
            continue
        usable = [p for p, u in candidates if u]
        compare(before, after, usable[:1] if not existing else paths, what, may_change=paths)
        created = [p for p in paths if os.path.isfile(p)]
        # Whether one must have been written
        gone = action in ('first', 'remove', 'clear') and not any(os.path.exists(p + '.gz') for p in paths)
        if gone and opened:
            if not usable:
                wanted = False
            elif kind == 'folder' or minimum == 0 or compressed or case['location'] == 'explicit':
                wanted = True
            elif via == 'path' or via == 'relative':
                wanted = True if files > minimum else False if entries < minimum else None
            else:
                wanted = None
            if compressed and minimum and case['location'] != 'explicit' and kind == 'tarxz':
                wanted = None
            if wanted is True and usable[0] not in created:
                raise Violation(f'{what}: no index at {usable[0]!r}, but {created!r}')
            if wanted is False and created:
                raise Violation(f'{what}: index {created!r} was created with minimum {minimum} and {entries if kind != "folder" else "?"} entries')
            ctx.label(f'index {wanted}')
            ctx.nontrivial(wanted is not None)
        for path in created:
            if not is_sqlite(after[path]['data']):
                raise Violation(f'{what}: {path!r} is not an SQLite database')
        if action == 'keep' and existing and opened:
            # Found again.
            if sorted(created) != sorted(existing):
                raise Violation(f'{what}: had {existing!r} and now {created!r}')


def formats_extension(kind):
    return {'targz': '.tar.gz', 'tarbz2': '.tar.bz2', 'tarxz': '.tar.xz'}.get(kind, '.' + kind)


def produce_database(case, path, ctx):
    """An index without its archive or a database that has nothing to do with ratarmount"""
    if case['kind'] == 'database':
        with contextlib.closing(sqlite3.connect(path)) as database:
            database.execute('CREATE TABLE files (name TEXT, "path" TEXT)')
            database.execute('INSERT INTO files VALUES (?, ?)', ('a', 'b'))
            database.commit()
        return
    archive = ctx.path('indexed.tar')
    _, expected = KINDS['tar'].make(archive, case['tree'], case['o'])
    if expected is None:
        raise Skip
    with open_source(archive, {'indexFilePath': path, 'writeIndex': True}):
        pass
    os.remove(archive)


def run_inputs(case, ctx):
    world = World(ctx)
    folder = world.at('archives')
    path = os.path.join(folder, 'file.' + {'tars': 'tar', 'targz': 'tar.gz', 'tarbz2': 'tar.bz2', 'tarxz': 'tar.xz', 'iso9660': 'iso'}.get(case['kind'], case['kind']))
    if case['kind'] == 'codec':
        path = os.path.join(folder, 'file' + C15.compress.CODECS[case['codec']].extensions[0])
    if case['kind'] in ('index', 'database'):
        produce_database(case, path, ctx)
    elif C15.produce(case, path) is None:
        raise Skip
    with open(path, 'rb') as file:
        data = file.read()
    if case['damage']:
        position = int(case['where'] * len(data))
        data = data[:position] if case['damage'] == 'cut' else data[:position] + bytes(b ^ 0x55 for b in data[position : position + 7]) + data[position + 7 :]
        with open(path, 'wb') as file:
            file.write(data)
    options = {'memory': {'indexFilePath': ':memory:'}, 'beside': {'writeIndex': True}, 'folder': {'writeIndex': True, 'indexFolders': [world.at('good')], 'indexMinimumFileCount': 0}, 'no write': {'writeIndex': False}}[case['disk']]
    options = {**options, **case['extra']}
    archives = [path]
    source = path
    if case['how'] == 'fileobj':
        source = ctx.keep(open(path, 'rb'))
        archives = []
    elif case['how'] == 'folder':
        source = folder
        options['recursive'] = True
    elif case['how'] == 'split':
        if len(data) < 3:
            raise Skip
        os.remove(path)
        for i, part in enumerate((data[: len(data) // 2], data[len(data) // 2 :])):
            with open(f'{path}.{i + 1:03}', 'wb') as file:
                file.write(part)
        source = path + '.001'
        archives = [path + '.001', path]
    elif case['how'] == 'nested':
        import zipfile

        inner = os.path.basename(path)
        os.remove(path)
        path = os.path.join(folder, 'outer.zip')
        with zipfile.ZipFile(path, 'w') as archive:
            archive.writestr('folder/' + inner, data)
        archives, source = [path], path
        options['recursive'] = True
    before = world.state()
    try:
        ms = open_source(source, options)
    except Exception as exception:
        ctx.label(f'{type(exception).__name__}')
        name = 'not opened'
    else:
        name = type(ms).__name__
        with ms:
            if read_all(ms):
                ctx.label('readable')
        del ms
    after = world.state()
    allowed = []
    if case['disk'] in ('beside', 'folder'):
        for archive in archives:
            beside = archive + '.index.sqlite'
            allowed.append(beside if case['disk'] == 'beside' else os.path.join(world.at('good'), beside.replace('/', '_')))
        if case['how'] == 'split':
            allowed.append(source + '.index.sqlite')
    compare(before, after, allowed, f'{case["how"]}, {name}')
    ctx.label(case['how'], case['kind'], name)
    ctx.nontrivial(name != 'not opened')


SUBS = [Sub('placement', placement_cases, run_placement, 900, 40000), Sub('inputs', input_cases, run_inputs, 700, 40000)]
