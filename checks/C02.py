"""C02: reads at any offset return the same bytes as one sequential read."""
import contextlib
import io
import os
import random
import sqlite3
import threading

from hypothesis import strategies as st

from checks.C01 import open_ms
from vp import formats, gen, images, view
from vp.core import Sub, Violation, check

ID = 'C02'
TECHNIQUE = 'stateful property-based testing: random interleavings of seek/tell/read/readinto on many handles against byte-array models'
RULE = """
'views': random compositions of the file views (stenciled raw and buffered, joined, joined from factories, lambda, zero, SQLite blob and
blobs, mounted single file; nested up to three levels; empty parts, overlapping and repeated slices, 0..40 parts) are built together with the bytes they are
defined as; up to 60 random operations on two handles that share the underlying file are compared with a model position and slices.
'writeblobs': bytes written into SQLite blobs in random pieces read back equal. 'sources': random trees in every format, several handles on
several files open at once with any buffering value, random operations, and MountSource.read(offset, size). Non-trivial: at least eight operations,
two of them reads which cross a part boundary or follow a seek.
"""
ASSUMES = ['Positions before the start of a file are not requested (Python file objects differ in how they refuse them).']

# --- operations -----------------------------------------------------------------------------------------------------

SIZES = [0, 1, 2, 3, 7, 100, 511, 512, 513, 4096, 8191, 8192, 8193, 100000]


def operations(handles, minimum=4, maximum=40):
    position = st.one_of(st.integers(0, 1000), st.floats(0, 1.2).map(lambda x: ['f', round(x, 4)]))
    operation = st.one_of(
        st.tuples(st.just('read'), st.one_of(st.sampled_from(SIZES), st.integers(0, 3000))),
        st.tuples(st.just('read'), st.one_of(st.sampled_from(SIZES), st.integers(0, 3000))),
        st.tuples(st.just('readinto'), st.one_of(st.sampled_from(SIZES), st.integers(0, 3000))),
        st.tuples(st.just('set'), position),
        st.tuples(st.just('set'), position),
        st.tuples(st.just('cur'), st.integers(-2000, 2000)),
        st.tuples(st.just('end'), st.integers(-2000, 100)),
        st.tuples(st.just('tell'), st.just(0)),
        st.tuples(st.sampled_from(['read', 'read1', 'readall']), st.just(-1)),
    )
    return st.lists(
        st.tuples(st.integers(0, handles - 1), operation).map(lambda t: [t[0], *t[1]]), min_size=minimum, max_size=maximum
    )


class Handle:
    """A file object under test together with the bytes it must show."""

    def __init__(self, file, data, name, raw=False, clamps_seek=False, short=False):
        self.file, self.data, self.name, self.raw = file, data, name, raw
        self.position = 0
        self.reads_after_seek = 0
        self.seeked = False
        self.clamps_seek = clamps_seek
        self.short = short  # raw I/O which documents that it may return less

    def apply(self, operation, argument):
        data, size = self.data, len(self.data)
        if operation in ('set', 'cur', 'end'):
            if operation == 'set':
                target = int(argument[1] * size) if isinstance(argument, list) else argument
                offset, whence = target, io.SEEK_SET
            elif operation == 'cur':
                target = max(0, self.position + argument)
                offset, whence = target - self.position, io.SEEK_CUR
            else:
                target = max(0, size + argument)
                offset, whence = target - size, io.SEEK_END
            result = self.file.seek(offset, whence)
            allowed = {target, min(target, size)} if self.clamps_seek else {target}
            check(result in allowed, '%s: seek(%s, %s) returned %s', self.name, offset, whence, result)
            told = self.file.tell()
            check(told == result, '%s: tell() is %s after seek(%s, %s) = %s', self.name, told, offset, whence, result)
            self.position = result
            self.seeked = True
        elif operation == 'tell':
            told = self.file.tell()
            check(told == self.position, '%s: tell() is %s instead of %s', self.name, told, self.position)
        else:
            if operation == 'readinto' and hasattr(self.file, 'readinto'):
                buffer = bytearray(argument)
                count = self.file.readinto(buffer)
                got = bytes(buffer[:count])
            elif operation == 'read1' and getattr(type(self.file), 'read1', io.BufferedIOBase.read1) is not io.BufferedIOBase.read1:
                got = self.file.read1(8192)
                operation, argument = 'read1', 8192
            elif operation == 'readall' and hasattr(self.file, 'readall'):
                got, argument = self.file.readall(), -1
            else:
                got = self.file.read(argument)
            wanted = data[self.position :] if argument == -1 else data[self.position : self.position + argument]
            got = bytes(got)
            if operation == 'read1' or self.short:
                check(
                    got == wanted[: len(got)] and (got or not wanted), '%s: %s(%s) at %s of %s returned %s bytes which are wrong',
                    self.name, operation, argument, self.position, size, len(got),
                )  # fmt: skip
            elif got != wanted:
                view.equal_bytes(got, wanted, f'{self.name}: {operation}({argument}) at {self.position} of {size}')
            self.position += len(got)
            told = self.file.tell()
            check(told == self.position, '%s: tell() is %s instead of %s after a read', self.name, told, self.position)
            if self.seeked and got:
                self.reads_after_seek += 1
            self.seeked = False


# --- views ----------------------------------------------------------------------------------------------------------


def view_specs():
    leaf = st.fixed_dictionaries(
        {'k': st.sampled_from(['mem', 'mem', 'file', 'zero', 'lambda', 'blob', 'blobs']), 'c': gen.contents(9000), 'n': st.integers(1, 3000)}
    )

    def extend(children):
        part = st.tuples(st.integers(0, 9), st.floats(0, 1), st.floats(0, 1)).map(lambda t: [t[0], round(t[1], 3), round(t[2], 3)])
        return st.one_of(
            st.fixed_dictionaries(
                {
                    'k': st.just('stencil'), 'of': st.lists(children, min_size=1, max_size=3),
                    'parts': st.one_of(st.lists(part, max_size=6), st.lists(part, min_size=20, max_size=40)),
                    'buffer': st.sampled_from([0, 0, 1, 7, 512, 8192]), 'lock': st.booleans(),
                }
            ),
            st.fixed_dictionaries(
                {'k': st.just('joined'), 'of': st.lists(children, max_size=5), 'buffer': st.sampled_from([1, 7, 512, 8192]), 'lock': st.booleans()}
            ),
            st.fixed_dictionaries(
                {
                    'k': st.just('factory'), 'of': st.lists(leaf, max_size=5), 'buffer': st.sampled_from([1, 7, 512, 8192]),
                    'lock': st.booleans(),
                }
            ),
            st.fixed_dictionaries({'k': st.just('single'), 'of': st.lists(children, min_size=1, max_size=1), 'buffer': st.sampled_from([-1, 0, 7, 512])}),
        )

    return st.recursive(leaf, extend, max_leaves=8)


class Builder:
    def __init__(self, ctx):
        self.ctx = ctx
        self.number = 0

    def unique(self):
        self.number += 1
        return self.number

    def build(self, spec):
        """Returns (open function for independent handles that share what lies below, bytes)."""
        from ratarmountcore import SQLiteBlobFile as blobs
        from ratarmountcore import StenciledFile as stenciled
        from ratarmountcore.mountsource.compositing.singlefile import SingleFileMountSource

        kind = spec['k']
        if kind in ('mem', 'file', 'zero', 'lambda', 'blob', 'blobs'):
            data = gen.data(spec['c'])
            if kind == 'mem':
                return (lambda: io.BytesIO(data)), data
            if kind == 'file':
                path = self.ctx.path(f'f{self.unique()}')
                with open(path, 'wb') as file:
                    file.write(data)
                return (lambda: self.closing(open(path, 'rb'))), data
            if kind == 'zero':
                return (lambda: stenciled.ZeroFile(len(data))), bytes(len(data))
            if kind == 'lambda':
                return (lambda: stenciled.LambdaReaderFile(lambda offset, size: data[offset : offset + size], len(data))), data
            connection = sqlite3.connect(':memory:')
            self.ctx.stack.callback(connection.close)
            if kind == 'blob':
                connection.execute('CREATE TABLE t (d BLOB)')
                connection.execute('INSERT INTO t VALUES (?)', (data,))
                return (lambda: blobs.SQLiteBlobFile(connection, 'SELECT {}d{} FROM t WHERE ROWID == 1')), data
            connection.execute('CREATE TABLE t (d BLOB)')
            for offset in range(0, len(data), spec['n']):
                connection.execute('INSERT INTO t VALUES (?)', (data[offset : offset + spec['n']],))
            return (lambda: blobs.SQLiteBlobsFile(connection, 't', 'd', buffer_size=spec['n'])), data

        children = [self.build(child) for child in spec['of']]
        lock = threading.Lock() if spec.get('lock') else None
        if kind == 'stencil':
            shared = [opener() for opener, _ in children]
            parts, data = [], b''
            for index, start, length in spec['parts']:
                source = index % len(children)
                content = children[source][1]
                offset = int(start * len(content))
                size = int(length * (len(content) - offset))
                parts.append((shared[source], offset, size))
                data += content[offset : offset + size]
            if spec['buffer'] == 0:
                return (lambda: stenciled.RawStenciledFile(parts, lock)), data
            return (lambda: stenciled.StenciledFile(parts, lock, bufferSize=spec['buffer'])), data
        data = b''.join(content for _, content in children)
        if kind == 'joined':
            shared = [opener() for opener, _ in children]
            return (lambda: stenciled.JoinedFile(shared, lock, buffer_size=spec['buffer'])), data
        if kind == 'factory':
            factories = [opener for opener, _ in children]
            return (lambda: stenciled.JoinedFileFromFactory(factories, lock, buffer_size=spec['buffer'])), data
        if kind == 'single':
            opener, content = children[0]
            ms = SingleFileMountSource('name', opener())
            return (lambda: ms.open(ms.lookup('/name'), spec['buffer'])), content
        raise AssertionError(kind)

    def closing(self, file):
        self.ctx.stack.callback(file.close)
        return file


def kinds_of(spec):
    yield spec['k']
    for child in spec.get('of', []):
        yield from kinds_of(child)


@st.composite
def view_cases(draw):
    return {'spec': draw(view_specs()), 'ops': draw(operations(2, 6, 40))}


def run_views(case, ctx):
    opener, data = Builder(ctx).build(case['spec'])
    handles = [Handle(opener(), data, f'handle {i}') for i in range(2)]
    run_operations(handles, case['ops'])
    ctx.label(*['has ' + k for k in kinds_of(case['spec'])])
    ctx.nontrivial(len(data) > 100 and len(case['ops']) >= 8 and sum(h.reads_after_seek for h in handles) >= 2)
    for handle in handles:
        handle.apply('set', 0)
        handle.apply('read', -1)


def run_operations(handles, ops):
    for index, operation, argument in ops:
        handles[index % len(handles)].apply(operation, argument)


# --- blobs ----------------------------------------------------------------------------------------------------------


@st.composite
def blob_cases(draw):
    return {
        'blob_size': draw(st.sampled_from([1, 2, 7, 512, 1000, 8192])),
        'pieces': draw(st.lists(gen.contents(3000), max_size=12)),
        'ops': draw(operations(1, 3, 15)), 'buffer': draw(st.sampled_from([1, 512, 8192])),
    }


def run_blobs(case, ctx):
    from ratarmountcore.SQLiteBlobFile import SQLiteBlobsFile, WriteSQLiteBlobs

    connection = sqlite3.connect(':memory:')
    ctx.stack.callback(connection.close)
    connection.execute('CREATE TABLE t (d BLOB)')
    data = b''
    with WriteSQLiteBlobs(connection, 't', blob_size=case['blob_size']) as writer:
        for piece in case['pieces']:
            piece = gen.data(piece)
            count = writer.write(piece)
            check(count == len(piece), 'write returned %s instead of %s', count, len(piece))
            data += piece
            check(writer.tell() == len(data), 'tell() is %s instead of %s', writer.tell(), len(data))
    handle = Handle(SQLiteBlobsFile(connection, 't', 'd', buffer_size=case['buffer']), data, 'blobs')
    run_operations([handle], case['ops'])
    handle.apply('set', 0)
    handle.apply('read', -1)
    ctx.nontrivial(len(case['pieces']) >= 2 and len(data) > 100)


# --- mounted sources ------------------------------------------------------------------------------------------------

SOURCES = dict(formats.ARCHIVES)
SOURCES.update({f.name: f for f in [formats.ISO, formats.XAR, formats.FOLDER, images.SQUASHFS, images.FAT, images.EXT4, images.GIT]})


@st.composite
def source_cases(draw):
    case = draw(formats.formatted(SOURCES, odd=False, maximum=60000, depth=2, size=6, kinds=('file', 'file', 'file', 'file', 'sym')))
    case['ops'] = draw(operations(6, 8, 60))
    case['buffering'] = draw(st.lists(st.sampled_from([-1, -1, 0, 0, 2, 512, 4096, 100000]), min_size=6, max_size=6))
    case['files'] = draw(st.lists(st.integers(0, 5), min_size=6, max_size=6))
    case['chunks'] = draw(st.lists(st.tuples(st.integers(0, 5), st.floats(0, 1.1), st.sampled_from(SIZES)), max_size=6))
    case['via'] = draw(st.sampled_from(['path', 'path', 'bytesio']))
    case['sparse'] = draw(st.booleans())
    return case


def run_sources(case, ctx):
    fmt = SOURCES[case['format']]
    path = ctx.path('archive' + fmt.ext)
    _, expected = fmt.make(path, case['tree'], case['o'])
    if expected is None:
        return
    source = path
    if case['via'] == 'bytesio' and not fmt.folder:
        with open(path, 'rb') as file:
            source = io.BytesIO(file.read())
    if fmt is images.GIT:
        from ratarmountcore.mountsource.formats.git import GitMountSource

        ms = ctx.keep(GitMountSource(path, reference=fmt.reference(case['o'])))
    else:
        ms = ctx.keep(open_ms(source, **({} if fmt.folder else {'writeIndex': False}), **fmt.open_options(case['o'])))
    run_on_source(ms, {p: e['data'] for p, e in expected.items() if e['type'] == 'file'}, case, ctx, case['format'])


def run_on_source(ms, contents, case, ctx, label):
    files = sorted(contents)
    if not files:
        return
    handles = []
    for index, buffering in zip(case['files'], case['buffering']):
        path = files[index % len(files)]
        file = ms.open(ms.lookup(path), buffering=buffering)
        ctx.stack.callback(close, file)
        handles.append(Handle(file, contents[path], f'{label} {path!r} buffering={buffering}', clamps_seek=True))
    run_operations(handles, case['ops'])
    for index, where, size in case['chunks']:
        path = files[index % len(files)]
        data = contents[path]
        offset = int(where * len(data))
        got = ms.read(ms.lookup(path), size, offset)
        view.equal_bytes(bytes(got), data[offset : offset + size], f'{label} {path!r}: MountSource.read(size={size}, offset={offset})')
    ctx.label(label, *[f'buffering {b}' for b in case['buffering']])
    ctx.nontrivial(sum(h.reads_after_seek for h in handles) >= 2)


def close(file):
    with contextlib.suppress(Exception):
        file.close()


SUBS = [
    Sub('views', view_cases, run_views, 1200, 120000),
    Sub('writeblobs', blob_cases, run_blobs, 150, 10000),
    Sub('sources', source_cases, run_sources, 500, 40000),
]
