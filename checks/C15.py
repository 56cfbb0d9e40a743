"""C15: format detection has no side effects and finds the right format."""
import io
import os
import unicodedata

from hypothesis import strategies as st

from checks.C13 import KINDS
from vp import compress, formats, gen, tars, view
from vp.core import Sub, check

ID = 'C15'
TECHNIQUE = 'property-based testing: generated valid, cut, and random files against the known format, repeated and differential between file objects'
RULE = """
'functions': a valid file of a random supported archive, image, or compression format (all writers of C02, C11, C12), the same cut at a random byte, with changed
bytes, or random bytes behind known magic bytes, is offered as BytesIO, real file (buffered and not), or part of a bigger file. Every detection function
(detect_formats, detect_compression, might_be_format for all formats, the is_... helpers) is called in random order and repeated, also at other positions:
position and contents must be unchanged and the answer always the same, also for all kinds of file objects. Valid files must be recognized as their format, and
archives without compression as not compressed. 'mount': a valid file with its own, no, an upper-case, or another format's extension, and the file object
positioned anywhere, is mounted; the view must equal the one of the properly named path. Non-trivial: the file is at least 100 bytes big.
"""
ASSUMES = [
    'detect_compression does not yet work for the compressions only supported by libarchive (see the TODO beside the backend); they are mounted as archives.',
    'Formats without any magic bytes (encrypted SQLAR, raw deflate, FAT) may be reported in addition; only the absence of the right format is a violation.',
]

IDS = {
    'tar': 'TAR', 'tars': 'TAR', 'zip': 'ZIP', '7z': 'SEVEN_ZIP', 'cpio': 'CPIO', 'ar': 'AR', 'asar': 'ASAR', 'sqlar': 'SQLAR', 'rar': 'RAR',
    'iso9660': 'ISO9660', 'iso': 'ISO9660', 'xar': 'XAR', 'squashfs': 'SQUASHFS', 'fat': 'FAT', 'ext4': 'EXT4',
    'targz': 'GZIP', 'tarbz2': 'BZIP2', 'tarxz': 'XZ',
}  # fmt: skip
CODEC_IDS = {
    'gz': 'GZIP', 'bz2': 'BZIP2', 'xz': 'XZ', 'zst': 'ZSTANDARD', 'zlib': 'ZLIB', 'lz4': 'LZ4', 'lzma': 'LZMA', 'lzip': 'LZIP', 'Z': 'Z', 'uu': 'UU',
}  # fmt: skip
LIBARCHIVE_ONLY = {'LZ4', 'LZMA', 'LZIP', 'Z', 'UU'}
FILES = {k: v for k, v in KINDS.items() if k in IDS}
MAGIC = [
    b'\x1f\x8b\x08\x00', b'BZh9', b'BZh91AY&SY', b'\xfd7zXZ\x00', b'\x28\xb5\x2f\xfd', b'\x78\x9c', b'\x04"M\x18', b'LZIP\x01', b'\x5d\x00\x00', b'PK\x03\x04',
    b'PK\x05\x06' + bytes(18), b'7z\xbc\xaf\x27\x1c', b'Rar!\x1a\x07\x00', b'!<arch>\n', b'!<thin>\n', b'xar!', b'070701', b'\xc7\x71', b'\x04\x00\x00\x00', b'hsqs',
    b'SQLite format 3\x00', b'<!DOCTYPE html>', b'%PDF-1.4', b'OggS\x00', b'RIFF', b'MSCF', b'LRZI\x00', b'\x50\x2a\x4d\x18\x04\x00\x00\x00', b'begin 644 x', b'\x1f\x9d', b'',
    b'\x60\x2a\x4d\x18\xff\xff\xff\xff', b'WARC/1.0', b'\x1a\x45\xdf\xa3', b'\x89LZO\x00\r\n\x1a\n', b'ustar',
]  # fmt: skip


def files(draw, kind=None):
    kind = kind or draw(st.sampled_from(['tars', 'tars', 'codec', 'codec', 'codec', *sorted(FILES), 'magic', 'magic']))
    case = {'kind': kind}
    if kind == 'tars':
        case['members'] = draw(st.lists(tars.members(maximum=3000), min_size=1, max_size=6))
    elif kind == 'codec':
        case['codec'] = draw(st.sampled_from(sorted(compress.CODECS)))
        case['o'] = draw(compress.CODECS[case['codec']].options())
        case['c'] = draw(gen.contents(20000).filter(lambda c: c[1] > 0))
    elif kind == 'magic':
        case['magic'] = draw(st.integers(0, len(MAGIC) - 1))
        case['c'] = draw(gen.contents(3000))
    else:
        case['o'] = draw(FILES[kind].options())
        case['tree'] = draw(formats.trees(maximum=3000, size=8))
    return case


def produce(case, path):
    """Writes the file and returns its format, or None if there is nothing. The format of files without a known one is ''."""
    kind = case['kind']
    if kind == 'tars':
        members = tars.legalize(case['members'])
        data = gen.tar_bytes(members) if members else None
    elif kind == 'codec':
        data = compress.CODECS[case['codec']].encode(gen.data(case['c']), case['o'])
    elif kind == 'sfx':  # Only in a known finding.
        KINDS['rar'].make(path, case['tree'], case['o'])
        with open(path, 'rb') as file:
            data = b'MZ' + bytes(510) + file.read()
    elif kind == 'magic':
        data = MAGIC[case['magic']] + gen.data(case['c'])
    else:
        _, expected = FILES[kind].make(path, case['tree'], case['o'])
        return IDS[kind] if expected is not None else None
    if data is None:
        return None
    with open(path, 'wb') as file:
        file.write(data)
    return CODEC_IDS.get(case['codec'], '') if kind == 'codec' else 'RAR' if kind == 'sfx' else IDS.get(kind, '')


@st.composite
def function_cases(draw):
    case = files(draw)
    case['damage'] = draw(st.sampled_from(['', '', '', '', 'cut', 'flip', 'cut']))
    case['where'] = draw(st.floats(0, 1).map(lambda x: round(x, 3)))
    case['calls'] = draw(st.lists(st.integers(0, 30), min_size=1, max_size=8))
    case['objects'] = draw(st.lists(st.sampled_from(['bytes', 'file', 'raw', 'stencil', 'joined']), min_size=1, max_size=3, unique=True))
    case['positions'] = draw(st.lists(st.floats(0, 1.2).map(lambda x: round(x, 3)), max_size=2))
    return case


def functions():
    """Name and function for all ways to ask for a format. The answers are comparable."""
    import ratarmountcore.mountsource.archives  # noqa: F401 (registers more checks)
    from ratarmountcore import formats as module
    from ratarmountcore.compressions import detect_compression

    result = [
        ('detect_formats', lambda f: sorted(x.name for x in module.detect_formats(f))),
        ('detect_compression', lambda f: getattr(detect_compression(f), 'name', None)),
        ('detect_formats', lambda f: sorted(x.name for x in module.detect_formats(f))),
        ('detect_compression', lambda f: getattr(detect_compression(f), 'name', None)),
        ('detect_compression(tarfile)', lambda f: getattr(detect_compression(f, prioritizedBackends=['tarfile', 'libarchive']), 'name', None)),
        ('is_html_file', module.is_html_file), ('is_asar', module.is_asar), ('is_squashfs', module.is_squashfs),
        ('find_squashfs_offset', module.find_squashfs_offset), ('is_avi', module.is_avi),
    ]  # fmt: skip
    result += [('might_be_format ' + x.name, lambda f, x=x: bool(module.might_be_format(f, x))) for x in module.FileFormatID]
    return result


def objects(case, path, ctx):
    from ratarmountcore.StenciledFile import JoinedFileFromFactory, StenciledFile

    with open(path, 'rb') as file:
        data = file.read()
    for kind in case['objects']:
        if kind == 'bytes':
            yield kind, io.BytesIO(data)
        elif kind in ('file', 'raw'):
            file = open(path, 'rb', buffering=0 if kind == 'raw' else -1)
            ctx.stack.callback(file.close)
            yield kind, file
        elif kind == 'stencil':
            yield kind, StenciledFile([(io.BytesIO(b'before' + data + b'behind'), 6, len(data))])
        else:
            half = len(data) // 2
            yield kind, JoinedFileFromFactory([lambda: io.BytesIO(data[:half]), lambda: io.BytesIO(data[half:])])


def run_functions(case, ctx):
    path = ctx.path('file')
    kind = produce(case, path)
    if kind is None:
        return
    with open(path, 'rb') as file:
        data = file.read()
    if case['damage']:
        kind = ''
        at = int(len(data) * case['where'])
        if case['damage'] == 'cut':
            data = data[:at]
        elif at < len(data):
            data = data[:at] + bytes([data[at] ^ 0x41]) + data[at + 1 :]
        with open(path, 'wb') as file:
            file.write(data)
    known = functions()
    calls = [known[c] for c in case['calls'] if c < 10] + [known[10 + (c * 7 + len(data)) % (len(known) - 10)] for c in case['calls'] if c >= 10]
    positions = [0, *[int(p * len(data)) for p in case['positions']]]
    answers = {}
    for what, file in objects(case, path, ctx):
        for position in positions:
            for repeated in range(2):
                for name, function in calls:
                    file.seek(position)
                    answer = function(file)
                    check(not file.closed, '%s closes the file object', name)
                    check(file.tell() == position, '%s leaves the position at %s instead of %s (%s)', name, file.tell(), position, what)
                    expected = answers.setdefault((name, position), answer)
                    check(answer == expected, '%s at %s gives %s instead of %s (%s, call %s)', name, position, answer, expected, what, repeated)
        file.seek(0)
        view.equal_bytes(file.read(), data, 'contents after detecting the format')
    if kind:
        recognized(path, kind, case['kind'])
    ctx.label(case['kind'], case.get('codec', ''), case['damage'] or 'valid')
    ctx.nontrivial(len(data) >= 100)


def recognized(path, kind, source):
    from ratarmountcore import formats as module
    from ratarmountcore.compressions import detect_compression

    with open(path, 'rb') as file:
        found = {x.name for x in module.detect_formats(file)}
        check(kind in found, 'the formats %s were found for a valid %s file', sorted(found), kind)
        compression = detect_compression(file)
    compression = compression.name if compression else None
    if kind in LIBARCHIVE_ONLY:
        check(compression in (None, kind), 'compression %s was detected for a valid %s file', compression, kind)
    elif kind in CODEC_IDS.values():
        check(compression == kind, 'compression %s was detected for a valid %s file', compression, kind)
    else:
        check(compression is None, 'compression %s was detected for a valid %s file', compression, kind)


# --- mounting -------------------------------------------------------------------------------------------------------


@st.composite
def mount_cases(draw):
    case = files(draw)
    # Sparse (known finding of C03) and special files are not fully supported by libarchive, which may be preferred for other names.
    case['members'] = [m for m in case.get('members', []) if 'sparse' not in m and m['t'] in ('file', 'dir', 'sym', 'hard')]
    case['name'] = draw(st.sampled_from(['', '', '.bin', '.x.y', 'upper', 'other', 'other', 'other']))
    case['other'] = draw(st.sampled_from([
        '.zip', '.tar', '.tar.gz', '.gz', '.7z', '.rar', '.sqlar', '.a', '.iso', '.squashfs', '.img', '.html', '.pdf', '.ogm', '.xz', '.zst', '.deflate', '.cpio', '.tgz', '.lz4',
    ]))  # fmt: skip
    case['via'] = draw(st.sampled_from(['path', 'file', 'bytes', 'file']))
    case['position'] = draw(st.sampled_from([0, 0, 0.001, 0.5, 1]))
    if case['kind'] == 'codec' and CODEC_IDS.get(case['codec']) in LIBARCHIVE_ONLY and not any(gen.data(case['c'])[:1024]):
        case['c'] = ['p', 700, 1]  # Libarchive takes zeros for the end of an empty TAR.
    return case


def run_mount(case, ctx):
    from ratarmountcore.mountsource.factory import open_mount_source

    if case['kind'] == 'magic':
        return
    if case['kind'] == 'cpio' and case['o'].get('variant') == 'bin':
        case = {**case, 'o': {**case['o'], 'variant': 'newc'}}
    extension = {**{k: v.ext for k, v in FILES.items()}, 'tars': '.tar'}.get(case['kind']) or compress.CODECS[case['codec']].extensions[0]
    proper = ctx.path('proper' + extension)
    if produce(case, proper) is None:
        return
    options = FILES[case['kind']].open_options(case['o']) if case['kind'] in FILES else {}
    expected = observed(ctx.keep(open_mount_source(proper, indexFilePath=':memory:', **options)), case)

    name = {'upper': extension.upper(), 'other': case['other']}.get(case['name'], case['name'])
    if case['kind'] == 'codec' and name == '.Z':
        name = ''
    path = ctx.path('misnamed' + name)
    os.rename(proper, path)
    by_path = observed(ctx.keep(open_mount_source(path, indexFilePath=':memory:', **options)), case)
    if len(basic(expected)) == len(expected):  # Libarchive composes names.
        view.tree_diff(basic(by_path), basic(expected), what=f"{case['kind']} with name {name!r}")
    if case['via'] != 'path':
        source = open(path, 'rb')
        ctx.stack.callback(source.close)
        if case['via'] == 'bytes':
            source = io.BytesIO(source.read())
        source.seek(int(os.stat(path).st_size * case['position']))
        options = {**options, 'tarFileName': os.path.basename(path)}
        actual = observed(ctx.keep(open_mount_source(source, indexFilePath=':memory:', **options)), case)
        view.tree_diff(actual, by_path, what=f"{case['kind']} mounted from {case['via']} with name {name!r}")
    ctx.label(case['kind'], case.get('codec', ''), 'via ' + case['via'], 'name ' + case['name'], f"position {case['position']}")
    ctx.nontrivial(os.stat(path).st_size >= 100)


def nfc(path):
    return unicodedata.normalize('NFC', path)


def basic(tree):
    """What every backend that can read the archive shows. The extension may prefer another backend."""
    return {nfc(p): {'type': e['type'], 'data': e.get('data'), 'link': nfc(e.get('link') or '')} for p, e in tree.items()}


def observed(ms, case):
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer

    result = view.snapshot(FileVersionLayer(ms))
    if case['kind'] == 'codec':
        # The name of the contents comes from the name of the file.
        return {('/' if p == '/' else '/contents'): {'type': e['type'], 'data': e.get('data')} for p, e in result.items()}
    for entry in result.values():
        if entry['type'] == 'dir' and entry['mtime'] > 1.7e9 + 1e7:
            entry['mtime'] = None
    return result


SUBS = [
    Sub('functions', function_cases, run_functions, 500, 50000),
    Sub('mount', mount_cases, run_mount, 300, 30000),
]
