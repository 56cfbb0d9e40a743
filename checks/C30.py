"""C30: streams in OGG files and contents of PDFs are shown completely and correctly."""
import io
import random
import struct
import zlib

from hypothesis import strategies as st

from checks.C01 import INDEX_OPTIONS, open_ms
from checks.C11 import reread
from vp import gen, view
from vp.core import Sub, check

ID = 'C30'
TECHNIQUE = 'property-based testing: generated OGG files and PDFs against the pages, attachments, texts and images they were made from'
RULE = """
'ogg': one to five logical streams (all codecs that are recognized by their first bytes, and unknown ones) with one to twelve pages of zero to 65025 bytes
are interleaved randomly, also chained (groups of streams after each other) or without end-of-stream flags, and mounted by path or file object
with an index in memory, created on disk, and reused. There must be exactly one file per stream, named by its media type and serial number, which has exactly
the stream's pages in order. 'pdf': documents from an own writer (classic cross-reference tables, or cross-reference and object streams; incremental updates; direct and indirect values) with
zero to three attachments in the name tree (also in nested nodes), attachments in annotations (also the same ones again), pages with and without text, and images. There must be exactly
one file per attachment, per page with text, and per image, with the right bytes and sizes. Files are read in random order, several at a time. Non-trivial: at least three files.
"""
ASSUMES = [
    'Serial numbers are unique in a file, as required by RFC 3533, and nothing follows the last OGG page.',
    'Texts on pages are single words in a standard font, so that extracting them is not ambiguous.',
    'Names of attachments are unique, not empty, and are no paths.',
]

CODECS = [
    ('audio', b'CELT    ', 'oga'), ('audio', b'\x7fFLAC', 'oga'), ('audio', b'OpusHead', 'oga'), ('audio', b'PCM     ', 'oga'), ('audio', b'Speex   ', 'oga'),
    ('audio', b'\x01vorbis', 'oga'), ('audio', b'\x01audio', 'ogm'), ('text', b'CMML\0\0\0\0', 'ogg'), ('text', b'\x80kate\0\0\0', 'ogg'), ('text', b'OggMIDI\0', 'ogg'),
    ('text', b'\x01text', 'ogm'), ('video', b'BBCD\0', 'ogv'), ('video', b'\x80theora', 'ogv'), ('video', b'YUV4MPEG', 'ogv'), ('video', b'\x01video', 'ogm'),
    ('unknown', b'', 'ogg'), ('unknown', b'fLaC', 'ogg'),
]  # fmt: skip


def opening(draw):
    return {
        'via': draw(st.sampled_from(['path', 'path', 'fileobj', 'bytesio'])), 'index': draw(st.sampled_from(sorted(INDEX_OPTIONS))),
        'named': draw(st.booleans()), 'again': draw(st.booleans()), 'order': draw(st.integers(0, 9)),
    }  # fmt: skip


def compare(case, ctx, data, extension, expected):
    path = ctx.path('file' + (extension if case['named'] else ''))
    with open(path, 'wb') as file:
        file.write(data)
    for _ in range(1 + case['again']):
        source = path
        if case['via'] == 'fileobj':
            source = open(path, 'rb')
            ctx.stack.callback(source.close)
        elif case['via'] == 'bytesio':
            source = io.BytesIO(data)
        with open_ms(source, **INDEX_OPTIONS[case['index']]) as ms:
            view.tree_diff(view.snapshot(ms), expected, what='mounted ' + extension[1:])
            reread(ms, expected, case['order'])
            for name in ['/no such file', '/' + extension]:
                check(ms.lookup(name) is None, 'lookup finds %r', name)
    ctx.label('via ' + case['via'], 'index ' + case['index'])
    ctx.nontrivial(len(expected) > 3)


@st.composite
def ogg_cases(draw):
    stream = st.fixed_dictionaries({
        'codec': st.integers(0, len(CODECS) - 1), 'group': st.sampled_from([0, 0, 0, 1, 2]), 'eos': st.sampled_from([True, True, True, False]),
        'pages': st.lists(st.one_of(st.sampled_from([0, 1, 254, 255, 256, 510, 4096, 65025]), st.integers(0, 3000)), max_size=11),
    })  # fmt: skip
    return {'streams': draw(st.lists(stream, min_size=1, max_size=5)), 'seed': draw(st.integers(0, 999)), 'skip': draw(st.booleans()), **opening(draw)}


def ogg_page(serial, number, data, flags, granule):
    lacing = b'\xff' * (len(data) // 255) + (bytes([len(data) % 255]) if len(data) < 65025 else b'')
    return b'OggS' + struct.pack('<BBqIIIB', 0, flags, granule, serial, number, zlib.crc32(data), len(lacing)) + lacing + data


def run_ogg(case, ctx):
    rng = random.Random(case['seed'])
    expected = {'/': {'type': 'dir'}}
    result = []
    serials = set()
    for group in range(3):
        first, rest = [], []
        for stream in case['streams']:
            if stream['group'] != group:
                continue
            serial = rng.choice([rng.randrange(2**32), rng.randrange(9)])
            while serial in serials:
                serial += 1
            serials.add(serial)
            kind, magic, extension = CODECS[stream['codec']]
            name = f'/{kind}_{serial:08x}.{extension}'
            # Streams without a flag for the end can only be in front of streams with other serial numbers.
            pages, number = [], 0
            contents = [magic + rng.randbytes(20)] + [rng.randbytes(n) for n in stream['pages']]
            for i, data in enumerate(contents):
                flags = (2 if i == 0 else rng.choice([0, 1])) | (4 if i == len(contents) - 1 and stream['eos'] else 0)
                pages.append((name, ogg_page(serial, number, data, flags, rng.choice([-1, i * 1000]))))
                number += rng.choice([1, 1, 1, 3]) if case['skip'] else 1
            first.append(pages[0])
            rest.append(pages[1:])
            expected[name] = {'type': 'file', 'perm': 0o644, 'data': b''}
        result += first
        while any(rest):
            pages = rng.choice([p for p in rest if p])
            result.append(pages.pop(0))
    for name, page in result:
        expected[name]['data'] += page
    for entry in expected.values():
        if 'data' in entry:
            entry['size'] = len(entry['data'])
    ctx.label(f"{len({s['group'] for s in case['streams']})} groups")
    compare(case, ctx, b''.join(page for _, page in result), '.ogv', expected)


# --- PDF ------------------------------------------------------------------------------------------------------------


class Pdf:
    """Objects are bytes (anything direct) or pairs of a dictionary body and stream data."""

    def __init__(self, style, rng):
        self.objects = [None]
        self.style, self.rng = style, rng

    def add(self, value):
        self.objects.append(value)
        return b'%d 0 R' % (len(self.objects) - 1)

    def stream(self, data, extra=b'', flate=None):
        flate = self.rng.random() < 0.5 if flate is None else flate
        if flate:
            data, extra = zlib.compress(data), extra + b' /Filter /FlateDecode'
        return self.add((extra, data))

    def maybe(self, value):
        """Direct or indirect"""
        return self.add(value) if self.rng.random() < 0.5 else value

    def reference(self, value):
        return value if value.endswith(b' R') else self.add(value)

    def write(self, root):
        out = bytearray(b'%PDF-1.5\n%\xe2\xe3\xcf\xd3\n')
        rng = self.rng
        plain = list(range(1, len(self.objects)))
        inside = []
        if self.style == 'streams':
            inside = [i for i in plain if isinstance(self.objects[i], bytes) and rng.random() < 0.8]
            plain = [i for i in plain if i not in inside]
        late = [i for i in plain if rng.random() < 0.3] if self.style == 'update' else []

        def emit(number, value):
            offsets[number] = len(out)
            out.extend(b'%d 0 obj\n' % number)
            if isinstance(value, tuple):
                out.extend(b'<< /Length %d %s >>\nstream\n' % (len(value[1]), value[0]) + value[1] + b'\nendstream')
            else:
                out.extend(value)
            out.extend(b'\nendobj\n')

        def table(offsets, previous=None):
            start = len(out)
            out.extend(b'xref\n')
            if previous is None:
                out.extend(b'0 1\n0000000000 65535 f \n')
            for number in sorted(offsets):
                out.extend(b'%d 1\n%010d 00000 n \n' % (number, offsets[number]))
            more = b'' if previous is None else b' /Prev %d' % previous
            out.extend(b'trailer\n<< /Size %d /Root %s%s >>\nstartxref\n%d\n%%%%EOF\n' % (len(self.objects), root, more, start))
            return start

        offsets = {}
        order = plain[:]
        rng.shuffle(order)
        for number in order:
            # Objects that are replaced in the update have other contents before.
            value = self.objects[number]
            emit(number, (b'', b'replaced later') if number in late and isinstance(value, tuple) else value)
        if self.style == 'streams':
            size = len(self.objects)
            head, body = [], b''
            for number in inside:
                head.append(b'%d %d' % (number, len(body)))
                body += self.objects[number] + b'\n'
            head = b' '.join(head) + b'\n'
            container = size
            if inside:
                emit(container, (b'/Type /ObjStm /N %d /First %d /Filter /FlateDecode' % (len(inside), len(head)), zlib.compress(head + body)))
                size += 1
            rows = {n: (1, o, 0) for n, o in offsets.items()}
            rows.update({n: (2, container, i) for i, n in enumerate(inside)})
            start = len(out)
            rows[0], rows[size] = (0, 0, 65535), (1, start, 0)
            packed = b''.join(struct.pack('>BIH', *rows[n]) for n in sorted(rows))
            index = b' '.join(b'%d 1' % n for n in sorted(rows))
            emit(size, (b'/Type /XRef /Size %d /Root %s /W [1 4 2] /Index [%s] /Filter /FlateDecode' % (size + 1, root, index), zlib.compress(packed)))
            out.extend(b'startxref\n%d\n%%%%EOF\n' % start)
        else:
            start = table(offsets)
            if late:
                offsets = {}
                for number in late:
                    emit(number, self.objects[number])
                table(offsets, start)
        return bytes(out)


NAMES = ['a.txt', 'b', 'data.bin', 'A', 'x y', 'page_0.txt.bin', 'c.tar', 'notes.pdf']


@st.composite
def pdf_cases(draw):
    file = st.tuples(st.integers(0, len(NAMES) - 1), gen.contents(3000)).map(list)
    page = st.fixed_dictionaries({
        'text': st.booleans(), 'images': st.sampled_from([0, 0, 0, 1, 2]), 'annotations': st.lists(file, max_size=2), 'again': st.booleans(),
    })  # fmt: skip
    return {
        'style': draw(st.sampled_from(['table', 'table', 'update', 'streams'])), 'seed': draw(st.integers(0, 999)), 'names': draw(st.lists(file, max_size=3)),
        'kids': draw(st.sampled_from([0, 0, 1, 2])), 'pages': draw(st.lists(page, min_size=1, max_size=4)), **opening(draw),
    }  # fmt: skip


def run_pdf(case, ctx):
    import pypdf

    rng = random.Random(case['seed'])
    pdf = Pdf(case['style'], rng)
    expected = {'/': {'type': 'dir'}}
    used = set()

    def show(name, data):
        expected['/' + name] = {'type': 'file', 'perm': 0o644, 'data': data, 'size': len(data)}

    def attachment(number, contents):
        name = NAMES[number]
        data = gen.data(contents)
        if name in used:
            return None
        used.add(name)
        show(name, data)
        embedded = pdf.stream(data, b'/Type /EmbeddedFile')
        literal = b'(' + name.encode() + b')'
        return literal, pdf.maybe(b'<< /Type /Filespec /F %s /EF %s >>' % (literal, b'<< /F %s >>' % embedded))

    names = [a for a in (attachment(*n) for n in case['names']) if a]
    entries = sorted(names)
    if case['kids'] and entries:
        kids = []
        for part in (entries[:1], entries[1:]):
            if part:
                array = b'[' + b' '.join(k + b' ' + pdf.reference(v) for k, v in part) + b']'
                kids.append(pdf.add(b'<< /Limits [%s %s] /Names %s >>' % (part[0][0], part[-1][0], array)))
        if case['kids'] == 2:
            kids = [pdf.add(b'<< /Kids [%s] >>' % b' '.join(kids))]
        tree = b'<< /Kids [%s] >>' % b' '.join(kids)
    else:
        tree = b'<< /Names %s >>' % pdf.maybe(b'[' + b' '.join(k + b' ' + pdf.reference(v) for k, v in entries) + b']')
    font = pdf.add(b'<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica /Encoding /WinAnsiEncoding >>')
    pages = []
    for number, page in enumerate(case['pages']):
        word = f'Word{number}x{rng.randrange(1000)}'
        contents = pdf.stream(b'BT /F1 12 Tf 50 700 Td (%s) Tj ET' % word.encode() if page['text'] else b'0 0 m 1 1 l S')
        if page['text']:
            show(f'page_{number}.txt', word.encode())
        images = []
        for i in range(page['images']):
            pixels = rng.randbytes(3 * 8 * 8)
            images.append(b'/Im%d %s' % (i, pdf.stream(pixels, b'/Type /XObject /Subtype /Image /Width 8 /Height 8 /ColorSpace /DeviceRGB /BitsPerComponent 8', flate=True)))
        xobjects = b' /XObject << %s >>' % b' '.join(images) if images else b''
        annotations = []
        if page['again'] and names:
            annotations.append(rng.choice(names)[1])
        annotations += [a[1] for a in (attachment(*n) for n in page['annotations']) if a]
        annotations = [pdf.add(b'<< /Type /Annot /Subtype /FileAttachment /Rect [0 0 9 9] /FS %s >>' % a) for a in annotations]
        annots = b' /Annots ' + pdf.maybe(b'[' + b' '.join(annotations) + b']') if annotations or rng.random() < 0.2 else b''
        pages.append(b'<< /Type /Page /Parent %%s /MediaBox [0 0 600 800] /Contents %s /Resources << /Font << /F1 %s >>%s >>%s >>' % (contents, font, xobjects, annots))
    parent = pdf.add(b'')
    kids = [pdf.add(p.replace(b'%s', parent)) for p in pages]
    pdf.objects[int(parent.split()[0])] = b'<< /Type /Pages /Count %d /Kids [%s] >>' % (len(kids), b' '.join(kids))
    catalog = b'<< /Type /Catalog /Pages %s%s >>' % (parent, b' /Names ' + pdf.maybe(b'<< /EmbeddedFiles %s >>' % pdf.maybe(tree)) if names or rng.random() < 0.3 else b'')
    root = pdf.add(catalog)
    data = pdf.write(root)
    # Images are converted by pypdf, which is therefore asked for them.
    for number, page in enumerate(pypdf.PdfReader(io.BytesIO(data)).pages):
        found = list(page.images)
        assert len(found) == case['pages'][number]['images'], (number, found)
        for image in found:
            show(f'page_{number}_{image.name}', image.data)
    compare(case, ctx, data, '.pdf', expected)
    ctx.label(case['style'], f"{min(len(names), 2)} names", 'kids' if case['kids'] and names else 'flat')


SUBS = [
    Sub('ogg', ogg_cases, run_ogg, 500, 40000),
    Sub('pdf', pdf_cases, run_pdf, 300, 20000),
]
