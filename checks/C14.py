"""C14: malformed input is rejected or read cleanly, never hangs or crashes."""
import io
import os
import re

from hypothesis import strategies as st

from checks import C15
from vp import compress
from vp.core import Skip, Sub, Violation
from vp.isolate import isolated

ID = 'C14'
TECHNIQUE = 'fuzzing: structure-aware mutations of generated archives of all formats, mounted, listed, and read in child processes with time and memory limits'
RULE = """
A valid file of a random supported archive, image, or compression format (all writers of C15), random data behind magic bytes, or a compressed TAR whose TAR was changed, gets up to eight mutations: changed bits, bytes and numbers replaced with extremes (0, 1, -1, powers of two, own size; binary little and
big endian, octal and decimal digits, also repaired TAR checksums; lengths and numbers in PAX records), copied, removed, inserted, and swapped ranges, cuts, and zeros; positions favor headers and ends. In a child process with limits for CPU time (15 s) and address space, it is opened by path or file object with random options,
listed down to a depth of 40 and up to 2000 entries, looked up, links and attributes queried, and read at the start, middle, and end of files. Allowed is an exception that is no MemoryError or RecursionError, anything else (signals, deadlocks, exceeded limits) is a violation.
Non-trivial: it was mounted although it had been changed, or the changed file was recognized as its format and rejected.
"""
ASSUMES = ['Aborts inside rapidgzip (third-party C++ code) with a known message are excluded; they can neither be prevented nor caught in Python.']
NOTE = 'Mutations are random and not guided by coverage because the parsers call into many native libraries.'


MUTATIONS = ['bit', 'byte', 'number', 'number', 'number', 'digits', 'digits', 'copy', 'remove', 'insert', 'swap', 'cut', 'zero', 'tar field', 'tar field', 'pax']
TAR_MUTATIONS = ['pax', 'pax', 'pax', 'tar field', 'tar field', 'digits', 'copy', 'cut', 'remove']


@st.composite
def mutations(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    where = draw(st.one_of(st.integers(0, 700), st.integers(-700, -1), st.floats(0, 1).map(lambda x: round(x, 4))))
    result = [kind, where, draw(st.integers(0, 255)), draw(st.integers(0, 40))]
    if kind in ('copy', 'swap'):
        result.append(draw(st.floats(0, 1).map(lambda x: round(x, 4))))
    return result


@st.composite
def cases(draw, kinds=MUTATIONS, kind=None):
    case = C15.files(draw, kind)
    case['mutations'] = draw(st.lists(mutations(kinds), min_size=1, max_size=draw(st.sampled_from([1, 2, 8]))))
    case['wrap'] = draw(st.sampled_from(['', '', '', 'gz', 'bz2', 'xz', 'zst', 'zlib'])) if case['kind'] == 'tars' else ''
    case['named'] = draw(st.sampled_from([True, True, True, False]))
    case['via'] = draw(st.sampled_from(['path', 'path', 'fileobj', 'bytesio']))
    case['options'] = draw(st.sampled_from([
        {}, {}, {'recursive': True}, {'recursive': True, 'lazyMounting': True}, {'ignoreZeros': True}, {'isGnuIncremental': True}, {'hashes': ['md5']}, {'prioritizedBackends': ['libarchive']},
        {'prioritizedBackends': ['tarfile']}, {'parallelization': 2}, {'passwords': [b'x']}, {'stripRecursiveTarExtension': True, 'recursive': True}, {'encoding': 'latin1'},
    ]))  # fmt: skip
    return case


NUMBERS = [0, 1, -1, 2, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 512]
DIGITS = [b'0', b'7777777', b'77777777777', b'-1', b'9', b'00000000000', b'99999999999', b' ', b'\0', b'\x80\0\0\0\0\0\0\0', b'\xff\xff\xff\xff\xff\xff\xff\xff', b'\x80\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff', b'x', b'4294967296']
TAR_FIELDS = [(0, 100), (100, 8), (108, 8), (116, 8), (124, 12), (136, 12), (156, 1), (157, 100), (257, 8), (345, 155), (386, 12), (410, 12), (482, 1), (483, 12), (329, 8), (337, 8)]


def mutate(data, mutation):
    kind, where, value, size = mutation[:4]
    position = int(where * len(data)) if isinstance(where, float) else where % max(1, len(data))
    position = min(position, len(data))
    before, rest = data[:position], data[position:]
    if kind == 'bit':
        return before + bytes([rest[0] ^ (1 << value % 8)]) + rest[1:] if rest else data
    if kind == 'byte':
        return before + bytes([value]) + rest[1:]
    if kind == 'number':
        width = (1, 2, 4, 8)[value % 4]
        number = [*NUMBERS, len(data), len(data) - 1, position][size % (len(NUMBERS) + 3)] % (1 << 8 * width)
        return before + number.to_bytes(width, 'little' if value & 4 else 'big') + rest[width:]
    if kind == 'digits':
        text = DIGITS[value % len(DIGITS)]
        return before + text + rest[len(text) :]
    if kind == 'copy':
        start = int(mutation[4] * len(data))
        part = data[start : start + size * (1 if value & 1 else 512)]
        return before + part + (rest if value & 2 else rest[len(part) :])
    if kind == 'swap':
        other = int(mutation[4] * len(data))
        low, high = min(position, other), max(position, other)
        length = min(1 + size * (1 if value & 1 else 64), high - low)
        return data[:low] + data[high : high + length] + data[low + length : high] + data[low : low + length] + data[high + length :]
    if kind == 'remove':
        return before + rest[1 + size * (1 if value & 1 else 512) :]
    if kind == 'insert':
        return before + bytes([value]) * (size if value & 1 else size * 512) + rest
    if kind == 'zero':
        length = 1 + size * (1 if value & 1 else 64)
        return before + bytes(min(length, len(rest))) + rest[length:]
    if kind == 'pax':
        # Lengths of extended header records, and numbers stored in them.
        found = list(re.finditer(rb'(?<![0-9])[0-9]{1,10}(?= [A-Za-z.]{1,30}=|\n)', data))
        if not found:
            return data
        span = found[value % len(found)].span()
        text = (b'0', b'1', b'2', b'4', b'5', b'6', b'-1', b'99', b'999999999999', b'18446744073709551616', b'', b'x')[size % 12]
        width = span[1] - span[0]
        return data[: span[0]] + (text.rjust(width, b'0')[-width:] if size % 2 else text) + data[span[1] :]
    if kind == 'tar field':
        block = position // 512 * 512
        header = bytearray(data[block : block + 512])
        if len(header) < 512:
            return data
        offset, length = TAR_FIELDS[value % len(TAR_FIELDS)]
        text = (DIGITS[size % len(DIGITS)] if size % 3 else b'%0*o' % (length - 1, NUMBERS[size % len(NUMBERS)] % (1 << 33)))[:length] if length > 1 else bytes([b'0123456789LKSDMVNxgXA\0\xff'[size % 23]])
        header[offset : offset + length] = text.ljust(length, b'\0')
        header[148:156] = b' ' * 8
        header[148:156] = b'%06o\0 ' % sum(header)
        return data[:block] + bytes(header) + data[block + 512 :]
    return before  # cut


def walk(ms, ctx):
    budget = 2000
    stack = [('/', 0)]
    seen = 0
    while stack:
        path, depth = stack.pop()
        try:
            entries = ms.list(path)
        except Exception as exception:
            refuse(exception)
            continue
        if isinstance(entries, dict):
            names = entries.keys()
        else:
            names = entries or ()
        for name in names:
            seen += 1
            if seen > budget:
                return seen
            child = path.rstrip('/') + '/' + name
            try:
                info = ms.lookup(child)
                if info is None:
                    continue
                ms.versions(child)
                for key in ms.list_xattr(info):
                    ms.get_xattr(info, key)
                kind = info.mode & 0o170000
                if kind == 0o040000:
                    if depth < 40:
                        stack.append((child, depth + 1))
                elif kind in (0o100000, 0):
                    read(ms, info)
            except Exception as exception:
                refuse(exception)
    return seen


def refuse(exception):
    if isinstance(exception, (MemoryError, RecursionError)):
        raise exception


def read(ms, info):
    with ms.open(info) as file:
        file.read(1 << 20)
        size = max(0, min(info.size, 1 << 62))
        for position in (size // 2, max(0, size - 10), size, 0):
            file.seek(position)
            file.read(1000)
        file.tell()
    ms.read(info, min(info.size, 5000), max(0, info.size // 3))


def run(case, ctx):
    path = ctx.path('file')
    kind = C15.produce(case, path)
    if kind is None:
        raise Skip
    with open(path, 'rb') as file:
        original = data = file.read()
    os.remove(path)
    for mutation in case['mutations']:
        data = mutate(data, mutation)[: 1 << 22]
    if case['wrap']:
        data = WRAP[case['wrap']](data)
    extension = '.' + case['kind']
    if case['kind'] == 'codec':
        extension = compress.CODECS[case['codec']].extensions[0]
    elif case['kind'] == 'tars':
        extension = '.tar' + ('.' + case['wrap'] if case['wrap'] else '')
    elif case['kind'] in ('targz', 'tarbz2', 'tarxz'):
        extension = '.tar.' + case['kind'][3:]
    if case['named']:
        path += extension
    with open(path, 'wb') as file:
        file.write(data)
    ctx.label(case['kind'])

    def body():
        from ratarmountcore.formats import detect_formats
        from ratarmountcore.mountsource.factory import open_mount_source

        options = {'indexFilePath': ':memory:', **case['options']}
        source = path if case['via'] == 'path' else open(path, 'rb') if case['via'] == 'fileobj' else io.BytesIO(data)
        try:
            ms = open_mount_source(source, **options)
        except Exception as exception:
            refuse(exception)
            cause = exception.__cause__ or exception.__context__
            while cause is not None:
                refuse(cause)
                cause = cause.__cause__ or cause.__context__
            ctx.label('refused')
            with open(path, 'rb') as file:
                if kind and any(x.name == kind for x in detect_formats(file)):
                    ctx.nontrivial()
                    ctx.label('refused although recognized')
            return
        with ms:
            name = type(ms).__name__
            ctx.label('mounted as ' + name)
            ctx.nontrivial(data != original)
            if walk(ms, ctx):
                ctx.label('has entries')

    isolated(body, ctx, seconds=100, cpu=15, memory=MEMORY)


def _wrap():
    import bz2
    import gzip
    import lzma
    import zlib

    import zstandard

    return {'gz': gzip.compress, 'bz2': bz2.compress, 'xz': lzma.compress, 'zlib': zlib.compress, 'zst': zstandard.ZstdCompressor().compress}


WRAP = _wrap()
MEMORY = 3 << 30  # in addition to what is used already

SUBS = [
    Sub('mutations', cases, run, 2200, 130000),
    Sub('tars', lambda: cases(TAR_MUTATIONS, 'tars'), run, 800, 60000),
]
