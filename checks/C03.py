"""C03: compression is transparent and seek points do not change results."""
import contextlib
import io
import os

from hypothesis import strategies as st

from checks.C01 import INDEX_OPTIONS, open_ms
from checks.C02 import Handle, operations, run_on_source, run_operations
from vp import compress, gen, tars, view
from vp.core import Sub, check

ID = 'C03'
TECHNIQUE = 'property-based testing: generated compressed streams against the uncompressed bytes, with random reads and option differentials'
RULE = """
'streams': generated data or a generated TAR is compressed with gzip (own member writer: FNAME/FEXTRA/FCOMMENT/FHCRC, levels,
strategies, flush points, several and empty members, BGZF), bzip2 (several streams), xz (several streams and blocks, padding, filters, checks,
pixz), zstd (several and skippable frames, with and without sizes), zlib, lz4, lzma, lzip, compress or uuencode, and mounted
with random seek point spacing, parallelization, backend priorities, from a path or file object, then mounted again up to twice with other
options and the same index. Every mount must show the uncompressed data (a single file, or the tree of the TAR) and answer random
seeks and reads from the uncompressed bytes. 'parallel': ParallelXZReader/ParallelZstdReader against the bytes. Non-trivial: more than one
frame/member/block or flush, and at least two reads after a seek.
"""
ASSUMES = [
    'Data is not itself recognizable as something other than what was generated.',
    'Empty data is compressed only with gzip, zlib and zstd; the other formats are refused (with an error) when they hold nothing.',
]
CODECS = compress.CODECS

SPACINGS = [65536, 100000, 200000, 1 << 20, 16 << 20]
BACKENDS = ['rapidgzip', 'indexed_gzip', 'rapidgzip-bzip2', 'xz', 'indexed_zstd', 'tarfile', 'libarchive']


@st.composite
def open_options(draw):
    options = {}
    if draw(st.booleans()):
        options['gzipSeekPointSpacing'] = draw(st.sampled_from(SPACINGS))
    if draw(st.booleans()):
        options['parallelization'] = draw(st.integers(1, 3))
    elif draw(st.booleans()):
        options['parallelizations'] = draw(
            st.dictionaries(st.sampled_from(['', 'rapidgzip', 'rapidgzip-gzip', 'rapidgzip-bzip2', 'xz']), st.integers(1, 3), min_size=1, max_size=3)
        )
    if draw(st.booleans()):
        options['prioritizedBackends'] = draw(st.lists(st.sampled_from(BACKENDS), unique=True, max_size=4))
    return options


@st.composite
def stream_cases(draw):
    codec = draw(st.sampled_from(['gz'] * 5 + ['bz2', 'bz2', 'xz', 'xz', 'xz', 'zst', 'zst', 'zst', 'zlib', 'zlib'] + list(CODECS)))
    case = {
        'codec': codec, 'o': draw(CODECS[codec].options()),
        'tar': draw(st.one_of(st.none(), st.lists(tars.members(maximum=60000, odd=False, long=False, special=False, depth=2), min_size=1, max_size=6))),
        'c': draw(st.tuples(st.sampled_from('pprt'), st.one_of(st.sampled_from([0, 1, 100, 65536]), st.integers(0, 400000), st.integers(0, 400000), st.sampled_from([1500000])), st.integers(0, 99)).map(list)),
        'via': draw(st.sampled_from(['path', 'path', 'path', 'fileobj', 'bytesio'])),
        'index': draw(st.sampled_from(['memory', 'disk', 'disk'])),
        'opens': draw(st.lists(open_options(), min_size=1, max_size=3)),
        'ext': draw(st.sampled_from([True, True, True, False])),
        'ops': draw(operations(4, 6, 30)), 'buffering': draw(st.lists(st.sampled_from([-1, -1, 0, 512, 100000]), min_size=4, max_size=4)),
        'files': draw(st.lists(st.integers(0, 3), min_size=4, max_size=4)),
        'chunks': draw(st.lists(st.tuples(st.integers(0, 3), st.floats(0, 1.1), st.sampled_from([0, 1, 100, 5000, 100000])), max_size=5)),
    }  # fmt: skip
    if by_libarchive(case):
        # Known finding: the libarchive backend cannot read sparse members that end with a hole.
        case['tar'] = [m for m in case['tar'] or [] if not ends_with_hole(m)] or None
    return case


def by_libarchive(case):
    return not CODECS[case['codec']].tarfile or any('libarchive' in o.get('prioritizedBackends', ()) for o in case['opens'])


def ends_with_hole(member):
    sparse = member.get('sparse')
    return bool(sparse) and (sparse['tail'] > 0 or not sparse['regions'])


def pieces(case):
    o = case['o']
    return len(o.get('cuts', ())) + len(o.get('flushes', ())) + bool(o.get('bgzf')) + bool(o.get('block')) + len(o.get('skip', ()))


def run_streams(case, ctx):
    codec = CODECS[case['codec']]
    members = tars.legalize(case['tar']) if case['tar'] else []
    data = gen.tar_bytes(members) if members else gen.data(case['c'])
    if not data and (codec.name not in ('gz', 'zst', 'zlib') or by_libarchive(case)):
        data = b'.'  # Refused by design: their magic bytes include those of the first block, or libarchive refuses them.
    compressed = codec.encode(data, case['o'])
    extension = codec.extensions[len(data) % len(codec.extensions)]
    if codec.name == 'zlib' and not compressed.startswith((b'x\x01', b'x\x5e', b'x\x9c', b'x\xda')) and not case['ext']:
        case = {**case, 'ext': True}
    path = ctx.path(('data.tar' if members else 'data') + (extension if case['ext'] else ''))
    with open(path, 'wb') as file:
        file.write(compressed)

    expected = gen.expected_view(members) if members else None
    kinds = set()
    for number, options in enumerate(case['opens']):
        options = {**options, **INDEX_OPTIONS[case['index']]}
        source = path
        if case['via'] == 'fileobj':
            source = ctx.stack.enter_context(open(path, 'rb'))
        elif case['via'] == 'bytesio' and codec.name != 'zst':
            source = io.BytesIO(compressed)
        if case['via'] != 'path' and case['index'] != 'memory':
            options['indexFilePath'] = ctx.path('separate.index')
        if source is not path:
            options['tarFileName'] = os.path.basename(path)
        ms = open_ms(source, **options)
        try:
            what = f"{codec.name}, mount {number + 1} with {case['opens'][number]}"
            kinds.add(type(ms.mountSource).__name__)
            if expected is not None:
                contents = {p: e['data'] for p, e in expected.items() if e['type'] == 'file'}
                incomplete = type(ms.mountSource).__name__ == 'LibarchiveMountSource'
                view.tree_diff(
                    view.snapshot(ms, xattrs=True), expected, what=what, ignore=('perm', 'uid', 'gid', 'mtime', 'xattrs') if incomplete else (),
                )  # fmt: skip
            else:
                names = view.names_of(ms.list('/'))
                check(len(names) == 1, '%s: lists %s instead of a single file', what, names)
                check_name(case, codec, names[0], path, what)
                file_path = '/' + names[0]
                info = ms.lookup(file_path)
                check(info is not None and view.ftype(info.mode) == 'file', '%s: %r is %s', what, file_path, info)
                check(info.size == len(data), '%s: size %s instead of %s', what, info.size, len(data))
                contents = {file_path: data}
            with contextlib.ExitStack() as stack:
                run_on_source(ms, contents, case, Closing(ctx, stack), what)
            for file_path, content in contents.items():
                view.equal_bytes(view.read_all(ms, ms.lookup(file_path)), content, f'{what}: {file_path!r}')
        finally:
            ms.__exit__(None, None, None)
        if case['via'] == 'path' and case['index'] == 'disk':
            ctx.label('index reused' if number else 'index created')
    ctx.labels = {label.split(',')[0] for label in ctx.labels}
    ctx.label(*kinds, 'tar' if members else 'single file', f"via {case['via']}")
    ctx.is_nontrivial = ctx.is_nontrivial and pieces(case) > 0


class Closing:
    """Forwards to the context but closes the files before the mount."""

    def __init__(self, ctx, stack):
        self.ctx, self.stack = ctx, stack

    def __getattr__(self, name):
        return getattr(self.ctx, name)


def check_name(case, codec, name, path, what):
    fallback = os.path.basename(path)
    if case['ext']:
        fallback = fallback.rsplit('.', 1)[0]
    names = {fallback}
    if codec.name == 'gz' and case['o']['name'] and not case['o']['bgzf']:
        names.add(case['o']['name'])
        if case['opens'] and not any('libarchive' in o.get('prioritizedBackends', ()) for o in case['opens']):
            names.discard(fallback)
    check(name in names, '%s: the file is named %r instead of %s', what, name, sorted(names))


# --- parallel block readers -----------------------------------------------------------------------------------------


@st.composite
def parallel_cases(draw):
    codec = draw(st.sampled_from(['xz', 'zst']))
    return {
        'codec': codec, 'o': draw(CODECS[codec].options()),
        'c': draw(st.tuples(st.sampled_from('prt'), st.sampled_from([1, 100, 20000, 100000, 400000]), st.integers(0, 99)).map(list)),
        'parallelization': draw(st.sampled_from([2, 2, 3])), 'ops': draw(operations(2, 6, 40)),
    }  # fmt: skip


def run_parallel(case, ctx):
    from ratarmountcore.BlockParallelReaders import ParallelXZReader, ParallelZstdReader

    codec = CODECS[case['codec']]
    data = gen.data(case['c'])
    path = ctx.path('data' + codec.extensions[0])
    with open(path, 'wb') as file:
        file.write(codec.encode(data, case['o']))
    reader = ParallelXZReader if case['codec'] == 'xz' else ParallelZstdReader
    handles = []
    for i in range(2):
        file = reader(path, case['parallelization'])
        ctx.stack.callback(file._get_pool().terminate)
        handles.append(Handle(file, data, f"{case['codec']} reader {i}"))
    run_operations(handles, case['ops'])
    for handle in handles:
        handle.apply('set', 0)
        handle.apply('read', -1)
    ctx.label(case['codec'])
    ctx.nontrivial(pieces(case) > 0 and len(handles[0].file.blockBoundaries) > 2 and sum(h.reads_after_seek for h in handles) >= 2)


SUBS = [
    Sub('streams', stream_cases, run_streams, 500, 40000),
    Sub('parallel', parallel_cases, run_parallel, 40, 3000),
]
