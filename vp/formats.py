"""Writers for non-TAR archives from generated trees, together with what the mounted view must be."""
import bz2
import contextlib
import datetime
import gzip
import io
import json
import lzma
import os
import posixpath
import random
import sqlite3
import stat
import struct
import subprocess
import unicodedata
import warnings
import zipfile
import zlib

from hypothesis import strategies as st

from . import gen

# --- trees ----------------------------------------------------------------------------------------------------------

TREE_MTIMES = [315532800, 1, 1234567890, 1700000001, 2**31 - 1, 2**31 + 7]


def nodes(maximum=20000, odd=True, long=False, depth=4, kinds=('file', 'file', 'file', 'file', 'dir', 'sym')):
    @st.composite
    def one(draw):
        kind = draw(st.sampled_from(kinds))
        node = {
            't': kind, 'p': draw(gen.paths(depth, odd, long)), 'mode': draw(st.sampled_from(gen.MODES)),
            'mtime': draw(st.sampled_from(TREE_MTIMES)),
        }  # fmt: skip
        if kind == 'file':
            node['c'] = draw(gen.contents(maximum))
        elif kind == 'sym':
            node['link'] = draw(st.one_of(gen.paths(2, odd, False), st.sampled_from(['../a', '/etc/passwd', 'x' * 80])))
        return node

    return one()


def trees(maximum=20000, odd=True, long=False, depth=4, size=12, **kwargs):
    return st.lists(nodes(maximum, odd, long, depth, **kwargs), min_size=1, max_size=size)


def legal(raw, allow=None, kinds=('file', 'dir', 'sym'), flat=False, fold=lambda s: s, max_path=None, duplicates=False):
    """Drops nodes until the list describes a tree: unique paths, no children below non-folders."""
    result, seen = [], {}
    for node in raw:
        if node['t'] not in kinds:
            continue
        path = posixpath.normpath(node['p']).lstrip('/')
        if flat:
            path = path.replace('/', '_')
        if path in ('', '.', '..') or path.startswith('../'):
            continue
        if allow and not all(allow(part) for part in path.split('/')):
            continue
        if max_path and len(path.encode('utf-8', 'surrogateescape')) > max_path:
            continue
        parents = [path[:i] for i, c in enumerate(path) if c == '/']
        # Fold and spelling must agree (FAT ignores the case).
        if any(seen.get(fold(p), (p, 'dir')) != (p, 'dir') for p in parents):
            continue
        if fold(path) in seen:
            if not (duplicates and node['t'] == 'file' and seen[fold(path)] == (path, 'file')):
                continue
        for p in parents:
            seen[fold(p)] = (p, 'dir')
        seen[fold(path)] = (path, node['t'])
        result.append({**node, 'p': path})
    return result


def bulk(count, seed, kinds=('file', 'dir', 'sym')):
    """Many small nodes, to cross the limits at which implementations write or read batches."""
    rng = random.Random(seed)
    folders = ['bulk'] if rng.random() < 0.5 else ['bulk/' + 'd' * i for i in range(1, rng.choice([2, 5, 40]))]
    result = []
    for i in range(count):
        name = f'{rng.choice(folders)}/n{i:05}' + 'x' * (rng.randrange(30) if seed % 2 else 0)
        node = {'t': 'file', 'p': name, 'mode': 0o640 + i % 8, 'mtime': 10**9 + 2 * i}
        kind = rng.choice(['file'] * 8 + ['dir', 'sym'])
        if kind in kinds and kind != 'file':
            node['t'] = kind
        if node['t'] == 'file':
            node['c'] = ['p', rng.choice([0, 1, 20, 20, 100]), i]
        elif kind == 'sym':
            node['link'] = f'n{i:05}'
        else:
            node['mode'] |= 0o111
        result.append(node)
    rng.shuffle(result)
    return result


def many(cases, counts):
    """Turns generated cases with a tree into cases with many more nodes."""
    return st.tuples(cases, st.sampled_from(counts), st.integers(0, 99)).map(lambda c: {**c[0], 'bulk': list(c[1:])})


def with_bulk(case):
    return {**case, 'tree': case['tree'] + bulk(*case['bulk'])} if 'bulk' in case else case


COUNTS = [990, 999, 1000, 1001, 1002, 1500, 2001, 2500, 3300]


def with_parents(tree):
    """The same list with explicit folders before everything that needs them."""
    result, seen = [], set()
    explicit = {n['p']: n for n in tree if n['t'] == 'dir'}
    for node in tree:
        parts = node['p'].split('/')
        for i in range(1, len(parts)):
            parent = '/'.join(parts[:i])
            if parent not in seen:
                seen.add(parent)
                result.append(explicit.get(parent) or {'t': 'dir', 'p': parent, 'mode': 0o755, 'mtime': 1234567890})
        if node['p'] not in seen:
            seen.add(node['p'])
            result.append(node)
    return result


def view_of(tree, mode=lambda n: n['mode'], mtime=lambda n: n['mtime'], owner=None, dirs=True):
    """Expected snapshot."""
    result = {'/': {'type': 'dir'}}
    for node in tree:
        path = '/' + node['p']
        parent = posixpath.dirname(path)
        while parent != '/':
            result.setdefault(parent, {'type': 'dir'})
            parent = posixpath.dirname(parent)
        if node['t'] == 'dir' and not dirs:
            continue
        entry = {'type': node['t'], 'perm': mode(node), 'mtime': mtime(node)}
        if owner is not None:
            entry['uid'], entry['gid'] = owner
        if node['t'] == 'file':
            entry['data'] = gen.data(node['c'])
            entry['size'] = len(entry['data'])
        elif node['t'] == 'sym':
            entry['link'] = node['link']
        result[path] = entry
    return result


def nothing(_node):
    return None


def utf8(name):
    try:
        name.encode('utf-8')
        return True
    except UnicodeError:
        return False


def composed(name):
    """Libarchive returns names from 7z, ISO and others in Unicode normal form C."""
    return utf8(name) and unicodedata.normalize('NFC', name) == name


# --- formats --------------------------------------------------------------------------------------------------------


class Format:
    name = ''
    ext = ''
    #: Fields to leave out when versions of a path exist
    folder = False

    def options(self):
        return st.fixed_dictionaries({})

    def legal(self, raw, o):
        return legal(raw)

    def write(self, path, tree, o):
        raise NotImplementedError

    def expected(self, tree, o):
        raise NotImplementedError

    def open_options(self, o):
        return {}

    def make(self, path, raw, o):
        """Returns (tree, expected view) after writing the archive, or (tree, None) if it would be empty."""
        tree = self.legal(raw, o)
        if not tree:
            return tree, None
        self.write(path, tree, o)
        return tree, self.expected(tree, o)


COMPRESSORS = {
    '': lambda data: data,
    'gz': lambda data: gzip.compress(data, mtime=0),
    'bz2': bz2.compress,
    'xz': lzma.compress,
}


class Tar(Format):
    name = 'tar'

    def __init__(self, compression=''):
        self.compression = compression
        self.ext = '.tar' + ('.' + compression if compression else '')
        self.name = 'tar' + compression

    def legal(self, raw, o):
        return legal(raw, duplicates=True)

    def members(self, tree):
        return [
            {'t': n['t'], 'name': n['p'], 'c': n.get('c'), 'mode': n['mode'], 'mtime': n['mtime'],
             'link': n.get('link'), 'fmt': 'gnu'} for n in tree
        ]  # fmt: skip

    def write(self, path, tree, o):
        with open(path, 'wb') as file:
            file.write(COMPRESSORS[self.compression](gen.tar_bytes(self.members(tree))))

    def expected(self, tree, o):
        return view_of(tree, owner=(0, 0))


class Unseekable(io.RawIOBase):
    def __init__(self, file):
        self.file = file

    def writable(self):
        return True

    def seekable(self):
        return False

    def write(self, data):
        return self.file.write(data)


def dos_time(mtime):
    mtime = max(315532800, min(mtime, 4354819198))
    return datetime.datetime.fromtimestamp(mtime // 2 * 2, datetime.timezone.utc)


class Zip(Format):
    name, ext = 'zip', '.zip'
    methods = {
        'stored': zipfile.ZIP_STORED, 'deflated': zipfile.ZIP_DEFLATED, 'bzip2': zipfile.ZIP_BZIP2, 'lzma': zipfile.ZIP_LZMA,
    }  # fmt: skip

    def options(self):
        return st.fixed_dictionaries(
            {
                'method': st.lists(st.sampled_from(sorted(self.methods)), min_size=1, max_size=3),
                'stream': st.booleans(),
                'zip64': st.booleans(),
                'comment': st.sampled_from(['', 'hello', 'x' * 300]),
                'dirs': st.booleans(),
            }
        )

    def legal(self, raw, o):
        # A backslash is a path separator for some ZIP tools, colons and NULs have special meanings as well.
        return legal(raw, allow=lambda s: utf8(s) and '\\' not in s, duplicates=True)

    def nodes(self, tree, o):
        return with_parents(tree) if o['dirs'] and len({n['p'] for n in tree}) == len(tree) else tree

    def write(self, path, tree, o):
        with open(path, 'wb') as file:
            target = Unseekable(file) if o['stream'] else file
            with zipfile.ZipFile(target, 'w') as archive:
                archive.comment = o['comment'].encode()
                for i, node in enumerate(self.nodes(tree, o)):
                    info = zipfile.ZipInfo(
                        node['p'] + ('/' if node['t'] == 'dir' else ''), dos_time(node['mtime']).timetuple()[:6]
                    )
                    info.compress_type = self.methods[o['method'][i % len(o['method'])]]
                    info.create_system = 3
                    kind = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[node['t']]
                    info.external_attr = (kind | node['mode']) << 16
                    if node['t'] == 'dir':
                        info.compress_type = zipfile.ZIP_STORED
                        info.external_attr |= 0x10
                        payload = b''
                    elif node['t'] == 'sym':
                        payload = node['link'].encode()
                    else:
                        payload = gen.data(node['c'])
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        with archive.open(info, 'w', force_zip64=o['zip64']) as member:
                            member.write(payload)

    def expected(self, tree, o):
        def mode(node):
            value = node['mode'] & 0o777
            return value or (0o770 if node['t'] == 'dir' else 0o660)

        return view_of(
            self.nodes(tree, o), mode=mode, mtime=lambda n: int(dos_time(n['mtime']).timestamp()), owner=(0, 0)
        )


class SevenZip(Format):
    name, ext = '7z', '.7z'
    filters = {
        'lzma2': None,
        'lzma': [{'id': 'LZMA'}],
        'deflate': [{'id': 'DEFLATE'}],
        'bzip2': [{'id': 'BZIP2'}],
        'copy': [{'id': 'COPY'}],
        'zstd': [{'id': 'ZSTD'}],
        'ppmd': [{'id': 'PPMD', 'order': 6, 'mem': 16}],
    }

    def options(self):
        return st.fixed_dictionaries(
            {
                'filter': st.sampled_from(['lzma2', 'lzma', 'bzip2', 'copy', 'deflate']),
                'backend': st.sampled_from(['', 'libarchive']),
            }
        )

    def legal(self, raw, o):
        # py7zr replaces or refuses such names when writing.
        return legal(
            raw, allow=lambda s: composed(s) and not any(c in s for c in '\\:*?"<>|') and s.isprintable()
            and s.strip(' .') == s, kinds=('file', 'dir'),
        )  # fmt: skip

    def write(self, path, tree, o):
        import py7zr

        ids = {
            'lzma': py7zr.FILTER_LZMA, 'deflate': py7zr.FILTER_DEFLATE, 'bzip2': py7zr.FILTER_BZIP2,
            'copy': py7zr.FILTER_COPY, 'zstd': py7zr.FILTER_ZSTD,
        }  # fmt: skip
        filters = [{'id': ids[o['filter']]}] if o['filter'] in ids else None
        root = path + '.tree'
        make_real(root, tree)
        with py7zr.SevenZipFile(path, 'w', filters=filters, password=o.get('password')) as archive:
            if o.get('password') and o.get('header_encryption'):
                archive.set_encrypted_header(True)
            for node in tree:
                archive.write(os.path.join(root, node['p']), node['p'])
        remove_tree(root)

    def expected(self, tree, o):
        return view_of(tree, mode=lambda n: n['mode'] & 0o777, owner=(0, 0))

    def open_options(self, o):
        return {'prioritizedBackends': [o['backend']]} if o.get('backend') else {}


def make_real(root, tree, keep=True):
    """Creates the tree as real files."""
    os.makedirs(root, exist_ok=True)
    for node in with_parents(tree):
        path = os.path.join(root, node['p'])
        if node['t'] == 'dir':
            os.mkdir(path)
        elif node['t'] == 'file':
            with open(path, 'wb') as file:
                file.write(gen.data(node['c']))
        else:
            os.symlink(node['link'], path)
    for node in reversed(with_parents(tree)):
        path = os.path.join(root, node['p'])
        if node['t'] != 'sym':
            os.chmod(path, node['mode'])
    for node in sorted(with_parents(tree), key=lambda n: -n['p'].count('/')):
        os.utime(os.path.join(root, node['p']), (node['mtime'], node['mtime']), follow_symlinks=False)


def remove_tree(root):
    from .core import rmtree

    rmtree(root)


class Cpio(Format):
    name, ext = 'cpio', '.cpio'

    def options(self):
        return st.fixed_dictionaries({'variant': st.sampled_from(['newc', 'crc', 'odc', 'bin'])})

    def legal(self, raw, o):
        return legal(raw, allow=utf8)

    def write(self, path, tree, o):
        out = b''
        for i, node in enumerate([*tree, None]):
            if node is None:
                name, mode, payload, mtime = b'TRAILER!!!', 0, b'', 0
            else:
                kind = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[node['t']]
                name, mode, mtime = node['p'].encode(), kind | node['mode'], min(node['mtime'], 2**31 - 1)
                payload = gen.data(node['c']) if node['t'] == 'file' else (node.get('link') or '').encode()
                if node['t'] == 'dir':
                    payload = b''
            name += b'\0'
            variant = o['variant']
            if variant in ('newc', 'crc'):
                header = b'070701' if variant == 'newc' else b'070702'
                checksum = sum(payload) & 0xFFFFFFFF if variant == 'crc' else 0
                fields = [i + 1, mode, 0, 0, 1, mtime, len(payload), 0, 0, 0, 0, len(name), checksum]
                header += b''.join(b'%08X' % f for f in fields) + name
                header += bytes(-len(header) % 4)
                out += header + payload + bytes(-len(payload) % 4)
            elif variant == 'odc':
                out += b'070707' + b'%06o%06o%06o%06o%06o%06o%06o%011o%06o%011o' % (
                    0, i + 1, mode, 0, 0, 1, 0, mtime, len(name), len(payload),
                ) + name + payload  # fmt: skip
            else:
                header = struct.pack(
                    '<HHHHHHHHHHHHH', 0o070707, 0, i + 1, mode, 0, 0, 1, 0, mtime >> 16, mtime & 0xFFFF, len(name),
                    len(payload) >> 16, len(payload) & 0xFFFF,
                )  # fmt: skip
                out += header + name + bytes(len(name) % 2) + payload + bytes(len(payload) % 2)
        with open(path, 'wb') as file:
            file.write(out + bytes(-len(out) % 512))

    def expected(self, tree, o):
        return view_of(
            tree, mode=lambda n: n['mode'] & 0o777, mtime=lambda n: min(n['mtime'], 2**31 - 1), owner=(0, 0)
        )


class Ar(Format):
    name, ext = 'ar', '.a'

    def options(self):
        return st.fixed_dictionaries({'variant': st.sampled_from(['gnu', 'bsd', 'plain', 'tool'])})

    def legal(self, raw, o):
        def allow(name):
            if not utf8(name):
                return False
            size = len(name.encode())
            if o['variant'] == 'plain' and (size > 16 or name.startswith(('#1/',)) or name.endswith(' ')):
                return False
            return '\n' not in name and not name.endswith(' ') and '\0' not in name and not name.startswith('-')

        return legal(raw, allow=allow, kinds=('file',), flat=True, max_path=250 if o['variant'] == 'tool' else None)

    def write(self, path, tree, o):
        variant = o['variant']
        if variant == 'tool':
            root = path + '.tree'
            make_real(root, tree)
            with contextlib.suppress(FileNotFoundError):
                os.unlink(path)
            subprocess.run(
                ['ar', 'rcUS', path, *[n['p'] for n in tree]], cwd=root, check=True, capture_output=True,
            )  # fmt: skip
            remove_tree(root)
            return
        out = b'!<arch>\n'

        def member(name, mtime, mode, payload, size=None):
            return b'%-16b%-12d%-6d%-6d%-8o%-10d`\n' % (name, mtime, 0, 0, mode, len(payload) if size is None else size) + (
                payload + b'\n' * (len(payload) % 2)
            )

        table, names = b'', {}
        if variant == 'gnu':
            for node in tree:
                raw = node['p'].encode()
                if len(raw) > 15 or b'/' in raw:
                    names[node['p']] = b'/%d' % len(table)
                    table += raw + b'/\n'
                else:
                    names[node['p']] = raw + b'/'
            if table:
                out += b'%-48b%-10d`\n' % (b'//', len(table)) + table + b'\n' * (len(table) % 2)
        for node in tree:
            raw = node['p'].encode()
            payload = gen.data(node['c'])
            mode = stat.S_IFREG | node['mode']
            if variant == 'gnu':
                out += member(names[node['p']], node['mtime'], mode, payload)
            elif variant == 'bsd' and (len(raw) > 16 or b' ' in raw):
                out += member(b'#1/%d' % len(raw), node['mtime'], mode, raw + payload)
            else:
                out += member(raw, node['mtime'], mode, payload)
        with open(path, 'wb') as file:
            file.write(out)

    def expected(self, tree, o):
        return view_of(tree, owner=(0, 0))


class Asar(Format):
    name, ext = 'asar', '.asar'

    def options(self):
        return st.fixed_dictionaries({'order': st.integers(0, 5)})

    def legal(self, raw, o):
        return legal(raw, allow=utf8, kinds=('file', 'dir'))

    def write(self, path, tree, o):
        root = {'files': {}}
        payload = b''
        files = [n for n in tree if n['t'] == 'file']
        random.Random(o['order']).shuffle(files)
        offsets = {}
        for node in files:
            offsets[node['p']] = len(payload)
            payload += gen.data(node['c'])
        for node in tree:
            where = root
            parts = node['p'].split('/')
            for part in parts[:-1]:
                where = where['files'].setdefault(part, {'files': {}})
            if node['t'] == 'dir':
                where['files'].setdefault(parts[-1], {'files': {}})
            else:
                where['files'][parts[-1]] = {
                    'size': len(gen.data(node['c'])), 'offset': str(offsets[node['p']]),
                    **({'executable': True} if node['mode'] & 1 else {}),
                }  # fmt: skip
        text = json.dumps(root, ensure_ascii=bool(o['order'] % 2)).encode()
        padded = text + bytes(-len(text) % 4)
        body = struct.pack('<II', len(padded) + 4, len(text)) + padded
        with open(path, 'wb') as file:
            file.write(struct.pack('<II', 4, len(body)) + body + payload)

    def expected(self, tree, o):
        result = view_of(tree, mode=lambda n: 0o777, mtime=lambda n: 0, owner=(0, 0))
        for entry in result.values():
            entry.setdefault('perm', 0o777 if entry['type'] == 'dir' else None)
        return {k: ({'type': 'dir'} if k == '/' else v) for k, v in result.items()}


class Sqlar(Format):
    name, ext = 'sqlar', '.sqlar'

    def options(self):
        return st.fixed_dictionaries(
            {
                'compress': st.sampled_from(['no', 'all', 'some']), 'page': st.sampled_from([512, 4096]),
                'style': st.sampled_from(['', '', '', './', '/', 'slash']), 'parents': st.sampled_from([True, True, False]),
                'root': st.booleans(),
            }
        )  # fmt: skip

    def legal(self, raw, o):
        return legal(raw, allow=utf8)

    def connect(self, path, o):
        return sqlite3.connect(path)

    def write(self, path, tree, o):
        with contextlib.suppress(FileNotFoundError):
            os.unlink(path)
        connection = self.connect(path, o)
        connection.execute(f"PRAGMA page_size={o['page']}")
        connection.execute(
            'CREATE TABLE sqlar(name TEXT PRIMARY KEY, mode INT, mtime INT, sz INT, data BLOB)'
        )
        style = o['style']
        if o['root'] and style in ('./', '/'):
            connection.execute('INSERT INTO sqlar VALUES (?,?,?,?,?)', (style[0], stat.S_IFDIR | 0o755, 1, 0, None))
        for i, node in enumerate(with_parents(tree) if o['parents'] else tree):
            kind = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[node['t']]
            name = (style + node['p']) if style != 'slash' else node['p'] + ('/' if node['t'] == 'dir' else '')
            if node['t'] == 'dir':
                size, data = 0, None
            elif node['t'] == 'sym':
                size, data = -1, node['link']
            else:
                data = gen.data(node['c'])
                size = len(data)
                if o['compress'] == 'all' or (o['compress'] == 'some' and i % 2):
                    packed = zlib.compress(data)
                    if len(packed) < size:
                        data = packed
            connection.execute(
                'INSERT INTO sqlar VALUES (?,?,?,?,?)', (name, kind | node['mode'], node['mtime'], size, data)
            )
        connection.commit()
        connection.close()

    def expected(self, tree, o):
        return view_of(with_parents(tree) if o['parents'] else tree)

def vint(value):
    out = bytearray()
    while True:
        out.append((value & 0x7F) | (0x80 if value > 0x7F else 0))
        value >>= 7
        if not value:
            return bytes(out)


class Rar(Format):
    """Own writer for stored entries; the last member with a path counts."""

    name, ext = 'rar', '.rar'

    def options(self):
        return st.fixed_dictionaries({
            'variant': st.sampled_from(['3', '5']), 'dirs': st.booleans(), 'crc': st.booleans(),
        })  # fmt: skip

    def legal(self, raw, o):
        return legal(raw, allow=lambda s: utf8(s) and '\\' not in s and len(s.encode()) < 500)

    def write(self, path, tree, o):
        if o['dirs']:
            tree = with_parents(tree)
        with open(path, 'wb') as file:
            (self.write3 if o['variant'] == '3' else self.write5)(file, tree, o)

    def write3(self, file, tree, o):
        def block(kind, flags, fields, payload=b''):
            header = struct.pack('<BHH', kind, flags, 7 + len(fields)) + fields
            file.write(struct.pack('<H', zlib.crc32(header) & 0xFFFF) + header + payload)

        file.write(b'Rar!\x1a\x07\x00')
        block(0x73, 0, bytes(6))
        for node in tree:
            name = node['p'].encode()
            data = gen.data(node['c']) if node['t'] == 'file' else node['link'].encode('utf-8', 'surrogateescape') if node['t'] == 'sym' else b''
            kind = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[node['t']]
            time = dos_time(node['mtime'])
            date = (time.year - 1980) << 9 | time.month << 5 | time.day
            fields = struct.pack(
                '<LLBLLBBHL', len(data), len(data), 3, zlib.crc32(data), date << 16 | time.hour << 11 | time.minute << 5 | time.second // 2, 29, 0x30, len(name), kind | node['mode'],
            )  # fmt: skip
            block(0x74, 0x8000 | 0x0200 | (0xE0 if node['t'] == 'dir' else 0), fields + name, data)
        block(0x7B, 0x4000, b'')

    def write5(self, file, tree, o):
        def block(kind, flags, fields, extra=b'', payload=b''):
            head = vint(kind) + vint(flags | (1 if extra else 0) | (2 if payload else 0))
            head += (vint(len(extra)) if extra else b'') + (vint(len(payload)) if payload else b'') + fields + extra
            head = vint(len(head)) + head
            file.write(struct.pack('<L', zlib.crc32(head)) + head + payload)

        file.write(b'Rar!\x1a\x07\x01\x00')
        block(1, 0, vint(0))
        for node in tree:
            name = node['p'].encode()
            data = gen.data(node['c']) if node['t'] == 'file' else b''
            kind = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[node['t']]
            flags = (1 if node['t'] == 'dir' else 0) | 2 | (4 if o['crc'] and node['t'] == 'file' else 0)
            fields = vint(flags) + vint(len(data)) + vint(kind | node['mode']) + struct.pack('<L', node['mtime'] & 0xFFFFFFFF)
            fields += struct.pack('<L', zlib.crc32(data)) if flags & 4 else b''
            fields += vint(0) + vint(1) + vint(len(name)) + name
            extra = b''
            if node['t'] == 'sym':
                target = node['link'].encode('utf-8', 'surrogateescape')
                record = vint(5) + vint(1) + vint(0) + vint(len(target)) + target
                extra = vint(len(record)) + record
            block(2, 0, fields, extra, data)
        block(5, 0, vint(0))

    def expected(self, tree, o):
        mtime = (lambda n: n['mtime'] // 2 * 2 if n['mtime'] >= 315532800 else None) if o['variant'] == '3' else (lambda n: n['mtime'])
        return view_of(with_parents(tree) if o['dirs'] else tree, mtime=mtime)


class LibarchiveWritten(Format):
    """Formats for which only libarchive's own writer is at hand."""

    def __init__(self, name, ext):
        self.name, self.ext = name, ext

    def legal(self, raw, o):
        plain = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-')
        return legal(
            raw, allow=lambda s: set(s) <= plain and len(s) < 60 and s[0] not in '.-' and s[-1] != '.',
            kinds=('file', 'dir'), fold=str.lower,
        )  # fmt: skip

    def write(self, path, tree, o):
        import libarchive

        with libarchive.file_writer(path, self.name) as archive:
            for node in with_parents(tree):
                data = gen.data(node['c']) if node['t'] == 'file' else b''
                archive.add_file_from_memory(
                    node['p'], len(data), data, filetype=stat.S_IFREG if node['t'] == 'file' else stat.S_IFDIR,
                    permission=node['mode'] & 0o777, mtime=(min(node['mtime'], 2**31 - 1), 0),
                )

    def expected(self, tree, o):
        return view_of(with_parents(tree), mode=nothing, mtime=nothing)


class Folder(Format):
    name, ext = 'folder', ''
    folder = True

    def legal(self, raw, o):
        return legal(raw, allow=lambda s: len(s.encode('utf-8', 'surrogateescape')) < 250)

    def write(self, path, tree, o):
        make_real(path, [{**n, 'mode': n['mode'] | (0o700 if n['t'] == 'dir' else 0)} for n in tree])

    def expected(self, tree, o):
        return view_of(
            with_parents(tree), owner=(os.getuid(), os.getgid()),
            mode=lambda n: 0o777 if n['t'] == 'sym' else n['mode'] | (0o700 if n['t'] == 'dir' else 0),
        )  # fmt: skip


TAR = Tar()
ZIP = Zip()
SEVENZIP = SevenZip()
CPIO = Cpio()
AR = Ar()
ASAR = Asar()
SQLAR = Sqlar()
RAR = Rar()
ISO = LibarchiveWritten('iso9660', '.iso')
XAR = LibarchiveWritten('xar', '.xar')
FOLDER = Folder()

ARCHIVES = {f.name: f for f in [TAR, Tar('gz'), Tar('bz2'), Tar('xz'), ZIP, SEVENZIP, CPIO, AR, ASAR, SQLAR, RAR]}


def formatted(formats, **tree_options):
    """Strategy for {'format': name, 'o': options, 'tree': nodes}"""

    @st.composite
    def one(draw):
        name = draw(st.sampled_from(sorted(formats)))
        return {'format': name, 'o': draw(formats[name].options()), 'tree': draw(trees(**tree_options))}

    return one()
