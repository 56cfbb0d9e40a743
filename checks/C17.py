"""C17: hash attributes equal the digest of the file contents."""
import hashlib
import io
import os
import random
import stat
import zlib

from hypothesis import strategies as st

from checks.C13 import KINDS
from vp import compress, formats, gen, indexes, tars, view
from vp.core import Sub, check

ID = 'C17'
TECHNIQUE = 'property-based testing: generated archives and histories of openings with generated algorithm lists against independently computed digests'
RULE = """
'archives': random TARs (plain, compressed, nested, several versions, links, sparse files, own extended attributes) and archives, images and
folders of all indexed formats are mounted with a random set of hash algorithms, then opened again several times with other sets (with the
stored index anywhere, or recreated), and after TARs were appended to. After each opening every version of every regular file must have all
requested hashes, and all attributes starting with user.hash. must be the digest of exactly what reading the file returns; other entries
must have none. 'many': the same with hundreds of files. 'functions': hashing generated contents (sizes around the chunk sizes of the algorithms) from any kind of file object in
any position. Digests come from hashlib fed at once, zlib, and an own implementation of the smplayer hash. Non-trivial: at least two
openings and two algorithms or a file of at least 64 KiB.
"""
ASSUMES = [
    'Attributes named user.hash.* that are already stored in the archive are not generated.',
    'Only mount sources with an index (SQLiteIndexMountSource) are required to offer hashes, as the help text says "for indexed files".',
]

ALGORITHMS = ['md5', 'sha1', 'sha256', 'crc32', 'smplayer', 'sha3-512', 'blake2b', 'blake2s', 'sha512']
SIZES = [0, 1, 7, 8, 9, 65535, 65536, 65537, 65544, 131071, 131072, 131073, 140000, 1048575, 1048576, 1048577, 2097153]


def smplayer(data):
    words = lambda d: sum(int.from_bytes(d[i : i + 8], 'little') for i in range(0, len(d), 8))  # noqa: E731
    # The tail must not contain words of the head for files smaller than two chunks.
    tail = data[max(65536, len(data) - 65536) :]
    return '%016x' % ((words(data[:65536]) + words(tail) + len(data)) % 2**64)


def digest(algorithm, data):
    if algorithm == 'crc32':
        return '%08x' % zlib.crc32(data)
    if algorithm == 'smplayer':
        return smplayer(data)
    return getattr(hashlib, algorithm.replace('-', '_'))(data).hexdigest()


SETS = st.lists(st.sampled_from(ALGORITHMS), max_size=4)


@st.composite
def archive_cases(draw):
    kind = draw(st.sampled_from(['tars'] * 8 + ['single'] * 2 + sorted(KINDS)))
    case = {'kind': kind}
    if kind == 'tars':
        case['members'] = draw(st.lists(tars.nesting_members(2, maximum=3000), min_size=1, max_size=8))
        case['big'] = draw(st.sampled_from([0, 0, 0, *SIZES[5:13]]))
        case['z'] = draw(st.sampled_from(['', '', '', 'gz', 'bz2', 'xz']))
        case['recursive'] = draw(st.booleans())
        case['more'] = draw(st.lists(tars.members(maximum=2000), max_size=3))
    elif kind == 'single':
        case['z'] = draw(st.sampled_from(['gz', 'bz2', 'xz', 'zst', 'lz4']))
        case['o'] = draw(compress.CODECS[case['z']].options())
        case['c'] = draw(gen.contents(3000).filter(lambda c: c[1] > 0))
    else:
        case['o'] = draw(KINDS[kind].options())
        case['tree'] = draw(formats.trees(maximum=3000, size=8))
    case['steps'] = draw(st.lists(SETS, min_size=1, max_size=4))
    case['place'] = draw(st.sampled_from([*indexes.PLACES, 'memory']))
    case['append'] = draw(st.sampled_from([None, None, 1, 2]))
    case['recreate'] = draw(st.sampled_from([None, None, None, 1, 2]))
    return case


def verify(ms, requested, indexed, ctx, step):
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer

    count = 0
    for path, entry in view.snapshot(FileVersionLayer(ms), content=False).items():
        for version in range(max(1, ms.versions(path))):
            info = ms.lookup(path, version)
            if info and info.linkname and not stat.S_ISLNK(info.mode):  # Hard links are resolved by a layer
                continue
            check(info is not None, 'version %s of %r is missing', version, path)
            keys = [k for k in ms.list_xattr(info) if k.startswith('user.hash.')]
            check(len(set(keys)) == len(keys), 'repeated attributes for %r: %s', path, keys)
            if stat.S_IFMT(info.mode) != stat.S_IFREG:
                check(not keys, '%s %r has hash attributes %s', entry['type'], path, keys)
                continue
            count += 1
            data = view.read_all(ms, info)
            if indexed:
                missing = {'user.hash.' + a for a in requested} - set(keys)
                check(not missing, 'opening %s: version %s of %r misses %s', step, version, path, sorted(missing))
            for key in keys:
                actual, expected = ms.get_xattr(info, key), digest(key[len('user.hash.') :], data).encode()
                check(actual == expected, 'opening %s: version %s of %r has %s = %s instead of %s for %s', step, version, path, key, actual, expected, view.describe(data))
            check(ms.get_xattr(info, 'user.hash.absent') is None, 'value for an absent attribute of %r', path)
    return count


def run_archives(case, ctx):
    from ratarmountcore.mountsource.factory import open_mount_source
    from ratarmountcore.mountsource.SQLiteIndexMountSource import SQLiteIndexMountSource

    kind = case['kind']
    options = {}
    if kind == 'tars':
        members = tars.legalize(tars.resolve_nested(case['members']))
        if case['big']:
            members.append({'t': 'file', 'name': 'big file', 'mode': 0o644, 'uid': 0, 'gid': 0, 'mtime': 1, 'fmt': 'gnu', 'c': ['r', case['big'], 3]})
        for i in range(case.get('bulk', 0)):
            members.append({'t': 'file', 'name': f'bulk/{i:04}', 'mode': 0o644, 'uid': 0, 'gid': 0, 'mtime': 1, 'fmt': 'gnu', 'c': ['p', i % 30, i]})
        if not members:
            return
        path = ctx.path('archive.tar' + ('.' + case['z'] if case['z'] else ''))
        with open(path, 'wb') as file:
            file.write(formats.COMPRESSORS[case['z']](gen.tar_bytes(members)))
        options['recursive'] = case['recursive']
    elif kind == 'single':
        data = gen.data(case['c'])
        if not any(data[:1024]):
            data = b'Not an empty TAR' + data
        path = ctx.path('file.' + case['z'])
        codec = compress.CODECS[case['z']]
        with open(path, 'wb') as file:
            file.write(codec.encode(data, case['o']))
    else:
        fmt = KINDS[kind]
        path = ctx.path('archive' + fmt.ext)
        _, expected = fmt.make(path, case['tree'], case['o'])
        if expected is None:
            return
        options = dict(fmt.open_options(case['o']))
        if kind == 'folder':
            options['forceFolderIndex'] = True
    if case['place'] == 'memory':
        options['writeIndex'] = False
        placement = None
    else:
        placement = indexes.Placement(case['place'], ctx, path)
        options.update(placement.options)

    count = 0
    for step, requested in enumerate(case['steps']):
        if kind == 'tars' and not case['z'] and case['append'] == step and case['more']:
            both = tars.legalize(members + [{**m, 'name': 'more/' + m['name']} for m in case['more'] if m['t'] != 'hard'])
            if both[: len(members)] == members:
                members = both
                with open(path, 'wb') as file:
                    file.write(gen.tar_bytes(members))
                os.utime(path, (2e9 + step, 2e9 + step))
                ctx.label('appended')
        source = open_mount_source(path, hashes=requested, clearIndexCache=case['recreate'] == step, **options)
        with source:
            indexed = isinstance(source, SQLiteIndexMountSource)
            count += verify(source, requested, indexed, ctx, step)
    used = {a for s in case['steps'] for a in s}
    ctx.label(kind, 'indexed' if indexed else 'not indexed', case['place'], f'{min(count, 3)} files', *used)
    ctx.nontrivial(indexed and count > 1 and len(used) > 1 and (len(case['steps']) > 1 or case.get('big', 0) >= 65536))


@st.composite
def many_cases(draw):
    """Enough files that attributes are stored in several batches."""
    return {
        'kind': 'tars', 'members': draw(st.lists(tars.members(maximum=2000), max_size=2)), 'big': 0, 'z': draw(st.sampled_from(['', '', 'gz'])),
        'bulk': draw(st.sampled_from([240, 334, 400, 505, 1010])), 'recursive': False, 'more': [],
        'steps': draw(st.lists(st.lists(st.sampled_from(ALGORITHMS), min_size=1, max_size=4, unique=True), min_size=1, max_size=2)),
        'place': draw(st.sampled_from([*indexes.PLACES, 'memory'])), 'append': None, 'recreate': None,
    }  # fmt: skip


@st.composite
def function_cases(draw):
    return {
        'size': draw(st.one_of(st.sampled_from(SIZES), st.integers(0, 300000))), 'kind': draw(st.sampled_from('rpz')), 'seed': draw(st.integers(0, 9)),
        'algorithms': draw(st.lists(st.sampled_from(ALGORITHMS), min_size=1, max_size=5)), 'at': draw(st.floats(0, 1.5)),
        'via': draw(st.sampled_from(['bytes', 'raw', 'stencil', 'short'])), 'odd': draw(st.booleans()),
    }  # fmt: skip


class ShortReads(io.BytesIO):
    """Returns less than what was asked for except at the end, as sockets and raw files may."""

    def read(self, size=-1):
        if size is None or size < 0:
            return super().read()
        return super().read(min(size, 1000 + size // 3))


def run_functions(case, ctx):
    from ratarmountcore import hashing
    from ratarmountcore.StenciledFile import StenciledFile

    data = gen.data([case['kind'], case['size'], case['seed']])
    if case['via'] == 'stencil':
        file = StenciledFile([(io.BytesIO(b'front' + data + b'back'), 5, len(data))])
    elif case['via'] == 'raw':
        path = ctx.path('file')
        with open(path, 'wb') as file:
            file.write(data)
        file = open(path, 'rb', buffering=0)
        ctx.stack.callback(file.close)
    else:
        file = ShortReads(data) if case['via'] == 'short' and 'smplayer' not in case['algorithms'] else io.BytesIO(data)
    file.seek(int(case['at'] * len(data)))
    progress = []
    names = case['algorithms'] + (['', 'no such algorithm'] if case['odd'] else [])
    random.Random(case['seed']).shuffle(names)
    result = hashing.compute_hashes(file, len(data), names, progress_callback=progress.append)
    expected = {a: digest(a, data) for a in case['algorithms']}
    check(result == expected, 'hashes %s instead of %s for %s', result, expected, view.describe(data))
    check(progress == sorted(progress) and (not progress or progress[-1] == len(data)), 'progress %s for %s bytes', progress, len(data))
    ctx.label(case['via'], f"size {'in' if case['size'] in SIZES else 'not in'} edge cases")
    ctx.nontrivial(case['size'] >= 65536 and len(set(case['algorithms'])) > 1)


SUBS = [
    Sub('archives', archive_cases, run_archives, 400, 40000),
    Sub('many', many_cases, run_archives, 16, 1500),
    Sub('functions', function_cases, run_functions, 300, 20000),
]
