"""Compressed representations of data: many encoders, many framing choices, own low-level writers where needed."""
import bz2
import ctypes
import lzma
import os
import struct
import subprocess
import zlib

from hypothesis import strategies as st


def split(data, cuts):
    points = sorted({int(c * len(data)) for c in cuts})
    points = [0, *[p for p in points if 0 < p < len(data)], len(data)]
    return [data[a:b] for a, b in zip(points, points[1:])]


CUTS = st.lists(st.floats(0.01, 0.99).map(lambda x: round(x, 3)), max_size=4)


class Codec:
    name = ''
    extensions = ()
    # Can be read with the "tarfile" backend.
    tarfile = True

    def options(self):
        return st.just({})

    def encode(self, data, o):
        raise NotImplementedError


def raw_deflate(data, level=6, strategy=0, flushes=(), wbits=-15, memlevel=8):
    compressor = zlib.compressobj(level, zlib.DEFLATED, wbits, memlevel, strategy)
    out = b''
    pieces = split(data, [c for c, _ in flushes])
    kinds = [k for _, k in flushes] + [zlib.Z_FULL_FLUSH]
    for i, piece in enumerate(pieces):
        out += compressor.compress(piece)
        if i + 1 < len(pieces):
            out += compressor.flush(kinds[i % len(kinds)])
    return out + compressor.flush()


FLUSHES = st.lists(st.tuples(st.floats(0.01, 0.99).map(lambda x: round(x, 3)), st.sampled_from([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH])), max_size=3)


def gzip_member(data, o, first):
    flags = 0
    extra = b''
    if o['extra'] and (first or o['header_on_all']):
        flags |= 4
        payload = b'AB' + struct.pack('<H', o['extra']) + bytes(i & 255 for i in range(o['extra']))
        extra += struct.pack('<H', len(payload)) + payload
    if o['name'] and (first or o['header_on_all']):
        flags |= 8
        extra += o['name'].encode('latin-1') + b'\0'
    if o['comment']:
        flags |= 16
        extra += b'a comment\0'
    if o['text']:
        flags |= 1
    head = struct.pack('<BBBBLBB', 31, 139, 8, flags | (2 if o['hcrc'] else 0), o['mtime'], 0, 3) + extra
    if o['hcrc']:
        head += struct.pack('<H', zlib.crc32(head) & 0xFFFF)
    body = raw_deflate(data, o['level'], o['strategy'], o['flushes'])
    return head + body + struct.pack('<LL', zlib.crc32(data), len(data) & 0xFFFFFFFF)


class Gzip(Codec):
    name = 'gz'
    extensions = ('.gz', '.gzip')

    def options(self):
        return st.fixed_dictionaries(
            {
                'cuts': CUTS, 'level': st.sampled_from([0, 1, 6, 9]), 'strategy': st.sampled_from([0, 0, 0, 2, 3, 4]),
                'flushes': FLUSHES, 'name': st.sampled_from(['', '', 'inner', 'inner name.txt', 'n' * 200]),
                'extra': st.sampled_from([0, 0, 0, 1, 300]), 'comment': st.booleans(), 'hcrc': st.booleans(), 'text': st.booleans(),
                'mtime': st.sampled_from([0, 1, 1234567890, 2**32 - 1]), 'header_on_all': st.booleans(),
                'empty': st.lists(st.integers(0, 4), max_size=2),
                'bgzf': st.sampled_from([False] * 5 + [True]),
            }
        )  # fmt: skip

    def encode(self, data, o):
        if o['bgzf']:
            out = b''
            for start in [*range(0, len(data), 0xFF00), None]:
                piece = b'' if start is None else data[start : start + 0xFF00]
                body = raw_deflate(piece, o['level'] or 1)
                if len(body) + 26 > 65536:
                    body = raw_deflate(piece, 0)
                out += struct.pack('<BBBBLBBH', 31, 139, 8, 4, 0, 0, 255, 6) + b'BC' + struct.pack('<HH', 2, len(body) + 25)
                out += body + struct.pack('<LL', zlib.crc32(piece), len(piece))
            return out
        members = [gzip_member(piece, o, i == 0) for i, piece in enumerate(split(data, o['cuts']))]
        for where in o['empty']:
            if 0 < where <= len(members):
                members.insert(where, gzip_member(b'', o, False))
        return b''.join(members)


class Bzip2(Codec):
    name = 'bz2'
    extensions = ('.bz2', '.bzip2')

    def options(self):
        return st.fixed_dictionaries({'cuts': CUTS, 'level': st.integers(1, 9)})

    def encode(self, data, o):
        return b''.join(bz2.compress(piece, o['level']) for piece in split(data, o['cuts']))


class Xz(Codec):
    name = 'xz'
    extensions = ('.xz',)

    def options(self):
        return st.fixed_dictionaries(
            {
                'cuts': CUTS, 'check': st.sampled_from(['none', 'crc32', 'crc64', 'sha256']), 'preset': st.sampled_from([0, 1, 6]),
                'block': st.sampled_from([0, 0, 1000, 20000, 100000]), 'padding': st.sampled_from([0, 0, 4, 8, 512]),
                'filter': st.sampled_from(['', '', 'delta', 'x86']), 'pixz': st.sampled_from([False, False, False, True]),
            }
        )  # fmt: skip

    def encode(self, data, o):
        if o['pixz']:
            return subprocess.run(['pixz', '-t', '-0', '-p', '2', '-f', '0.1'], input=data, stdout=subprocess.PIPE, check=True).stdout
        streams = []
        for piece in split(data, o['cuts']):
            command = ['xz', '--stdout', '--threads=1', '--check=' + o['check']]
            if o['block']:
                command.append(f"--block-size={o['block']}")
            if o['filter']:
                command += [{'delta': '--delta=dist=3', 'x86': '--x86'}[o['filter']], f"--lzma2=preset={o['preset']}"]
            else:
                command.append(f"-{o['preset']}")
            streams.append(subprocess.run(command, input=piece, stdout=subprocess.PIPE, check=True).stdout)
        return bytes(o['padding']).join(streams)


class Zstd(Codec):
    name = 'zst'
    extensions = ('.zst', '.zstd')

    def options(self):
        return st.fixed_dictionaries(
            {
                'cuts': CUTS, 'level': st.sampled_from([-5, 1, 3, 19]), 'checksum': st.booleans(), 'size': st.sampled_from([True, True, False]),
                'skip': st.lists(st.tuples(st.integers(0, 5), st.integers(0, 15), st.sampled_from([0, 1, 100, 5000])), max_size=2),
                'flush': st.booleans(),
            }
        )  # fmt: skip

    def encode(self, data, o):
        import zstandard

        frames = []
        for piece in split(data, o['cuts']):
            compressor = zstandard.ZstdCompressor(level=o['level'], write_checksum=o['checksum'], write_content_size=o['size'])
            if o['flush']:
                stream = compressor.compressobj(size=len(piece)) if o['size'] else compressor.compressobj()
                half = len(piece) // 2
                frame = stream.compress(piece[:half]) + stream.flush(zstandard.COMPRESSOBJ_FLUSH_BLOCK)
                frames.append(frame + stream.compress(piece[half:]) + stream.flush())
            else:
                frames.append(compressor.compress(piece))
        for where, kind, length in o['skip']:
            frames.insert(min(where, len(frames)), struct.pack('<LL', 0x184D2A50 + kind, length) + bytes(length))
        return b''.join(frames)


class Zlib(Codec):
    name = 'zlib'
    extensions = ('.zz', '.zlib')

    def options(self):
        return st.fixed_dictionaries({'level': st.sampled_from([0, 1, 5, 6, 9]), 'strategy': st.sampled_from([0, 0, 2, 3, 4]), 'flushes': FLUSHES,
                                      'window': st.sampled_from([15, 15, 15, 12, 10])})  # fmt: skip

    def encode(self, data, o):
        return raw_deflate(data, o['level'], o['strategy'], o['flushes'], wbits=o['window'])


class Lz4(Codec):
    name = 'lz4'
    extensions = ('.lz4',)
    tarfile = False

    def options(self):
        return st.fixed_dictionaries(
            {
                'cuts': CUTS, 'block': st.integers(4, 7), 'linked': st.booleans(), 'content': st.booleans(), 'checks': st.booleans(),
                'size': st.booleans(), 'level': st.sampled_from([0, 9]),
                'skip': st.lists(st.tuples(st.integers(1, 5), st.integers(0, 15), st.sampled_from([0, 100])), max_size=1),
            }
        )  # fmt: skip

    def encode(self, data, o):
        import lz4.frame

        frames = [
            lz4.frame.compress(
                piece, block_size=o['block'], block_linked=o['linked'], content_checksum=o['content'], block_checksum=o['checks'],
                store_size=o['size'], compression_level=o['level'],
            )
            for piece in split(data, o['cuts'])
        ]  # fmt: skip
        for where, kind, length in o['skip']:
            frames.insert(min(where, len(frames)), struct.pack('<LL', 0x184D2A50 + kind, length) + bytes(length))
        return b''.join(frames)


class Lzma(Codec):
    name = 'lzma'
    extensions = ('.lzma',)
    tarfile = False

    def options(self):
        return st.fixed_dictionaries({'preset': st.sampled_from([0, 1, 6])})

    def encode(self, data, o):
        return lzma.compress(data, lzma.FORMAT_ALONE, preset=o['preset'])


class Filter(Codec):
    """Written by libarchive."""

    tarfile = False

    def __init__(self, name, extension, label=None):
        self.name, self.filter, self.extensions = label or extension.lstrip('.'), name, (extension,)

    def encode(self, data, o):
        import libarchive

        chunks = []
        with libarchive.custom_writer(lambda b: chunks.append(bytes(b)) or len(b), 'raw', self.filter) as archive:
            archive.add_file_from_memory('data', len(data), data)
        return b''.join(chunks)


CODECS = {
    c.name: c
    for c in [
        Gzip(), Bzip2(), Xz(), Zstd(), Zlib(), Lz4(), Lzma(), Filter('lzip', '.lz', 'lzip'), Filter('compress', '.Z'),
        Filter('uuencode', '.uu'),
        # Not lzop: libarchive runs the lzop program and waits forever when one such file is closed while another is open.
    ]
}  # fmt: skip
