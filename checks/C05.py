"""C05: damaged, interrupted or foreign indexes never change what is shown."""
import contextlib
import os
import sqlite3
import unicodedata

from hypothesis import strategies as st

from checks.C01 import open_ms
from checks.C04 import compare, snapshot
from vp import compress, faults, formats, images, indexes
from vp.core import Sub, Violation, check
from vp.view import tree_diff

ID = 'C05'
TECHNIQUE = (
    'fault injection and differential property-based testing: index creation is ended or runs out of disk space at generated system '
    'calls, indexes are damaged or exchanged, and the following openings are compared with opening without index'
)
RULE = """
killed: index creation in a forked process is ended before or in the middle of a generated modifying system call on the index (or gets
ENOSPC from there on), up to twice, then the archive is opened twice more. damaged: a complete index is truncated at any byte, loses its
tail or single pages to zeros, is replaced by garbage, text, another database or a folder, or loses whole tables, then the archive is
opened twice. foreign: archives of different formats or sizes use one explicit index path in turn, with and without read-only index.
Every opening must show exactly the tree, metadata, versions, attributes and contents that opening without index shows, or fail with an
error. Non-trivial: the fault happened (killed), the damaged index differs from the complete one, or the foreign index really was one.
"""
ASSUMES = [
    'Damage inside of rows of an otherwise intact database cannot be noticed (no checksums) and is not generated.',
    'Only archives that differ in size (or in modification time if that is verified) or in format are distinguishable by design.',
]

SOURCES = {**{f.name: f for f in [formats.ZIP, formats.AR, formats.ASAR, images.SQUASHFS]}, 'tar': formats.TAR}
for codec in ('gz', 'bz2', 'xz'):
    SOURCES['tar.' + codec] = formats.Tar(codec)


def archives(size=8):
    @st.composite
    def one(draw):
        case = draw(formats.formatted(SOURCES, size=size))
        case['bulk'] = draw(st.sampled_from([0, 0, 1, 30, 120, 300]))
        return case

    return one()


def make(case, path):
    """Returns (path, options) or None."""
    fmt = SOURCES[case['format']]
    bulk = [
        {'t': 'file', 'p': f'bulk-{i:04}-' + 'x' * (i * 7 % 60), 'mode': 0o644, 'mtime': 1000000 + i, 'c': ['p', i, i % 50 + 1]}
        for i in range(case['bulk'])
    ]
    path += fmt.ext
    _, expected = fmt.make(path, case['tree'] + bulk, case['o'])
    return None if expected is None else (path, fmt.open_options(case['o']))


def backend_of(ms):
    return type(ms.mountSource).__name__


def reference_of(path, **options):
    with open_ms(path, writeIndex=False, **options) as ms:
        return backend_of(ms), snapshot(ms)


def tolerate_missing_hashes(entry, actual):
    """Returns the expected entry without the hashes that the actual entry does not have."""
    entry = dict(entry)
    if 'xattrs' in entry and 'xattrs' in actual:
        entry['xattrs'] = {
            k: v for k, v in entry['xattrs'].items() if k in actual['xattrs'] or not k.startswith('user.hash.')
        }
    if 'history' in entry and len(entry['history']) == len(actual.get('history', [])):
        pairs = zip(entry['history'], actual['history'])
        entry['history'] = [tolerate_missing_hashes(e, a) for e, a in pairs]
    return entry


def look(path, options, reference, what, partial_hashes=False):
    """Opens and compares everything. Returns false if that failed with an error."""
    backend, expected = reference
    try:
        with open_ms(path, **options) as ms:
            actual, view = backend_of(ms), snapshot(ms)
    except (Violation, AssertionError):
        raise
    except Exception:
        if os.environ.get('VP_DEBUG'):
            raise
        return False
    if partial_hashes:
        expected = {p: tolerate_missing_hashes(e, view.get(p, {})) for p, e in expected.items()}
    if actual != backend:
        # When an index that must not be used is in the way, another backend may take over. It shows the same files but
        # other metadata, e.g., libarchive does not show special permission bits and older versions.
        # It also composes characters.
        view, expected = ({unicodedata.normalize('NFC', p): e for p, e in v.items()} for v in (view, expected))
        tree_diff(view, expected, fields=('type', 'data', 'size', 'link'), what=f'{what} with {actual}')
    else:
        compare(view, expected, what)
    return True


@st.composite
def killed_cases(draw):
    case = draw(archives())
    case['hashes'] = draw(st.sampled_from([[], [], ['md5'], ['crc32', 'sha256']]))
    case['place'] = draw(indexes.places)
    case['kills'] = draw(st.lists(st.fixed_dictionaries({
        'mode': st.sampled_from([faults.END_BEFORE, faults.END_BEFORE, faults.END_WITHIN, faults.FULL]),
        'at': st.one_of(st.floats(0, 1), st.floats(0.7, 1)),
    }), min_size=1, max_size=2))  # fmt: skip
    case['readonly'] = draw(st.sampled_from([False, False, False, True]))
    return case


def run_killed(case, ctx):
    made = make(case, ctx.path('archive'))
    if not made:
        return
    path, options = made
    options['hashes'] = case['hashes']
    reference = reference_of(path, **options)
    placement = indexes.Placement(case['place'], ctx, path)
    options.update(placement.options)
    name = os.path.basename(placement.path)

    def create():
        with open_ms(path, **options) as ms:
            return ms.lookup('/') is not None

    code, total, _, error = faults.in_child(create, name, faults.COUNT, 0)
    check(code == 0 and not error, 'creating the index failed with exit code %s: %s', code, error)
    with contextlib.suppress(FileNotFoundError):
        os.unlink(placement.path)
    happened = 0
    for kill in case['kills']:
        # The number of calls is smaller if there is something to reuse. Then nothing happens, which is fine, too.
        limit = max(1, min(total, round(kill['at'] * total)))

        def attempt():
            try:
                look(path, options, reference, 'while creating the index on a full disk', partial_hashes=True)
            except Violation as violation:
                return str(violation)
            return None

        code, count, result, error = faults.in_child(
            attempt if kill['mode'] == faults.FULL else create, name, kill['mode'], limit
        )
        if kill['mode'] == faults.FULL:
            check(code == 0 and not error, 'opening on a full disk ended with %s: %s', code, error)
            check(result is None, '%s', result)
            happened += count >= limit
        else:
            check(code in (0, 77), 'creating the index ended with %s', code)
            happened += code == 77
    left = indexes.content(placement.path)
    extra = {'readOnlyIndex': True} if case['readonly'] else {}
    for number in range(2):
        opened = look(path, {**options, **extra}, reference, f'opening {number + 1} after the interruption', case['readonly'])
        ctx.label('opened' if opened else 'refused')
        # With an index of its own that can be created again there is no reason to refuse.
        check(opened or case['readonly'], 'the archive can never be opened again after an interruption')
    ctx.label(case['format'], 'at ' + case['place'], 'left nothing' if left is None else 'left something', f'{happened} faults')
    ctx.nontrivial(happened > 0 and left is not None)


# --- damaged --------------------------------------------------------------------------------------------------------


def page_size(data):
    return int.from_bytes(data[16:18], 'big') or 4096


def truncate(data, at, _seed):
    return data[: int(len(data) * at)]


def zero_tail(data, at, _seed):
    size = page_size(data)
    keep = int(len(data) * at) // size * size
    return data[:keep] + bytes(len(data) - keep)


def zero_page(data, at, _seed):
    size = page_size(data)
    page = int((len(data) // size - 1) * at)
    return data[: page * size] + bytes(size) + data[(page + 1) * size :]


def garbage(data, at, seed):
    import random

    return random.Random(seed).randbytes(int(len(data) * at))


def header(data, at, seed):
    offset = int(at * 23)
    return data[:offset] + bytes([data[offset] ^ (1 + seed % 255)]) + data[offset + 1 :]


def text(data, at, seed):
    return b'Not an index\n' * (1 + seed % 100)


BYTES = {f.__name__: f for f in [truncate, zero_tail, zero_page, garbage, header, text]}
TABLES = ['files', 'metadata', 'versions', 'xattrs', 'xattrkeys']


@st.composite
def damaged_cases(draw):
    case = draw(archives())
    case['hashes'] = draw(st.sampled_from([[], [], ['md5']]))
    case['place'] = draw(indexes.places)
    case['damage'] = draw(st.sampled_from([
        'truncate', 'truncate', 'zero_tail', 'zero_page', 'zero_page', 'garbage', 'header', 'text', 'folder', 'other database',
        'drop table', 'unfinished', 'sqlar', 'link',
    ]))  # fmt: skip
    case['at'] = draw(st.floats(0, 1))
    case['seed'] = draw(st.integers(0, 1000))
    case['readonly'] = draw(st.sampled_from([False, False, True]))
    return case


def run_damaged(case, ctx):
    made = make(case, ctx.path('archive'))
    if not made:
        return
    path, options = made
    options['hashes'] = case['hashes']
    reference = reference_of(path, **options)
    placement = indexes.Placement(case['place'], ctx, path)
    options.update(placement.options)
    with open_ms(path, **options):
        pass
    intact = indexes.content(placement.path)
    check(intact is not None, 'no index was written to %s', case['place'])
    damage, at, seed = case['damage'], case['at'], case['seed']
    if damage in ('zero_tail', 'zero_page') and case['format'].startswith('tar.'):
        damage = 'truncate'  # Zeros inside of seek point data cannot be noticed.
    if damage in BYTES:
        with open(placement.path, 'wb') as file:
            file.write(BYTES[damage](intact, at, seed))
    elif damage == 'drop table':
        with contextlib.closing(sqlite3.connect(placement.path)) as connection:
            tables = [t for t in TABLES if t not in ('xattrs', 'xattrkeys') or not case['hashes']]
            table = tables[seed % len(tables)]
            connection.executescript(f'DROP {"VIEW" if table == "xattrs" else "TABLE"} IF EXISTS "{table}"')
    elif damage == 'unfinished':
        with contextlib.closing(sqlite3.connect(placement.path)) as connection:
            table = ['filestmp', 'parentfolders'][seed % 2]
            connection.executescript(f'CREATE TABLE "{table}" (a INTEGER); DELETE FROM "files" WHERE rowid % 2 == {seed // 2 % 2};')
    else:
        os.unlink(placement.path)
        if damage == 'folder':
            os.mkdir(placement.path)
        elif damage == 'link':
            os.symlink('nowhere', placement.path)
        else:
            with contextlib.closing(sqlite3.connect(placement.path)) as connection:
                if damage == 'sqlar':
                    connection.executescript(
                        'CREATE TABLE sqlar(name TEXT PRIMARY KEY, mode INT, mtime INT, sz INT, data BLOB);'
                        "INSERT INTO sqlar VALUES ('foreign', 33188, 0, 1, 'x');"
                    )
                else:
                    connection.executescript('CREATE TABLE t (a INTEGER); INSERT INTO t VALUES (1);')
    extra = {'readOnlyIndex': True} if case['readonly'] else {}
    for number in range(2):
        opened = look(path, {**options, **extra}, reference, f'opening {number + 1} after damage ({damage})')
        ctx.label(('opened after ' if opened else 'refused after ') + damage)
    ctx.nontrivial(os.path.isdir(placement.path) or indexes.content(placement.path) != intact or damage in BYTES)
    ctx.label(case['format'], 'at ' + case['place'])


# --- foreign --------------------------------------------------------------------------------------------------------


@st.composite
def foreign_cases(draw):
    return {
        'archives': [draw(archives(5)), draw(archives(5))],
        'uses': draw(st.lists(st.tuples(st.sampled_from([0, 1]), st.sampled_from([False, False, True])), min_size=1, max_size=4)),
        'hashes': draw(st.sampled_from([[], [], ['md5']])),
        'times': [draw(st.sampled_from([0, 1500000000])), draw(st.sampled_from([0, 1600000000]))],
    }  # fmt: skip


def run_foreign(case, ctx):
    made = [make(archive, ctx.path('archive-' + str(i))) for i, archive in enumerate(case['archives'])]
    if None in made:
        return
    verify = os.path.getsize(made[0][0]) == os.path.getsize(made[1][0])
    index = ctx.path('common.index')
    common = {'indexFilePath': index, 'writeIndex': True, 'indexMinimumFileCount': 0, 'hashes': case['hashes']}
    references = []
    for (path, options), time in zip(made, case['times']):
        if time:
            os.utime(path, (time, time))
        references.append(reference_of(path, hashes=case['hashes'], **options))
    if verify:
        if os.stat(made[0][0]).st_mtime == os.stat(made[1][0]).st_mtime:
            return
        common['verifyModificationTime'] = True
        ctx.label('same size')
    last = None
    for which, readonly in [(0, False), (1, False), *case['uses']]:
        path, options = made[which]
        # The index of an archive that has grown is used as is if it must not be modified.
        readonly = readonly and not all(archive['format'].startswith('tar') for archive in case['archives'])
        existed = indexes.content(index) is not None
        opened = look(
            path, {**options, **common, **({'readOnlyIndex': True} if readonly else {})}, references[which],
            f'opening the {case["archives"][which]["format"]} with the index of the {case["archives"][1 - which]["format"]}',
        )  # fmt: skip
        ctx.nontrivial(existed and last != which and os.path.isfile(index))
        ctx.label('opened' if opened else 'refused')
        if not readonly:
            last = which
    ctx.label(' and '.join(sorted(a['format'] for a in case['archives'])))


SUBS = [
    Sub('killed', killed_cases, run_killed, 150, 20000),
    Sub('damaged', damaged_cases, run_damaged, 180, 20000),
    Sub('foreign', foreign_cases, run_foreign, 120, 12000),
]
