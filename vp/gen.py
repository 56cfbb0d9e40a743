"""Data, names and TAR archives generated from small JSON-able descriptions."""
import functools
import posixpath
import random
import stat

from hypothesis import strategies as st

# --- contents -------------------------------------------------------------------------------------------------------


@functools.lru_cache(maxsize=256)
def _data(kind, size, seed):
    if kind == 'z':
        return bytes(size)
    if kind == 't':  # compressible text
        rng = random.Random(seed)
        words = [bytes(rng.choice(b'abcdefghijklmnopqrstuvwxyz') for _ in range(rng.randint(1, 9))) for _ in range(32)]
        parts, total = [], 0
        while total < size:
            word = rng.choice(words) + (b'\n' if rng.random() < 0.1 else b' ')
            parts.append(word)
            total += len(word)
        return b''.join(parts)[:size]
    if kind == 'p':  # every position distinguishable: 8 byte counters
        base = seed & 0xFFFF
        return b''.join(b'%04x%08x\n' % (base, i) for i in range(size // 13 + 1))[:size]
    return random.Random(seed).randbytes(size)


def data(spec) -> bytes:
    """spec: [kind, size, seed] or {'$b': ...}-style bytes"""
    if isinstance(spec, bytes):
        return spec
    kind, size, seed = spec
    return _data(kind, size, seed)


SMALL_SIZES = [0, 1, 2, 10, 100, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 5000]


def contents(maximum=20000, sizes=()):
    choices = [s for s in SMALL_SIZES + list(sizes) if s <= maximum]
    size = st.one_of(st.sampled_from(choices), st.integers(0, min(maximum, 3000)), st.integers(0, maximum))
    return st.tuples(st.sampled_from('prtz'), size, st.integers(0, 999)).map(list)


# --- names ----------------------------------------------------------------------------------------------------------

PLAIN = ['a', 'b', 'c', 'foo', 'bar', 'x1']
ODD = [
    'a b', 'ä', '日本', 'a.txt', '.hidden', 'a%41', "it's", 'q"q', 'A', '-x', 'a\\b', 'a\nb', '*', '[a]', 'a?',
    'e\u0301', 'é', '#', '~', ' ', '..x', '...', 'a_b', 'CON', ':', '\x01', '😀', 'foo.versions', 'a;b', '$(x)',
]  # fmt: skip
LONG = ['l' * 99, 'm' * 100, 'n' * 101, 'o' * 155, 'p' * 200, 'ü' * 60]


def names(odd=True, long=True):
    options = [st.sampled_from(PLAIN), st.sampled_from(PLAIN)]
    if odd:
        options.append(st.sampled_from(ODD))
    if long:
        options.append(st.sampled_from(LONG))
    return st.one_of(*options)


def paths(depth=4, odd=True, long=True):
    return st.lists(names(odd, long), min_size=1, max_size=depth).map('/'.join)


MODES = [0o644, 0o755, 0o600, 0o000, 0o777, 0o4755, 0o2755, 0o1777, 0o111, 0o6711]
MTIMES = [0, 1, 1234567890, 2**31 - 1, 2**31, 2**33 - 1, 1700000000]
IDS = [0, 1, 1000, 65534, 2097151]
BIG_IDS = [2097152, 2**31, 4294967294]

# --- TAR writer -----------------------------------------------------------------------------------------------------

TYPEFLAGS = {'file': b'0', 'hard': b'1', 'sym': b'2', 'chr': b'3', 'blk': b'4', 'dir': b'5', 'fifo': b'6'}


def _octal(value, width):
    text = b'%0*o' % (width - 1, value)
    if value < 0 or len(text) > width - 1:
        # GNU base-256
        if value >= 0:
            return b'\x80' + value.to_bytes(width - 1, 'big')
        return b'\xff' + (256 ** (width - 1) + value).to_bytes(width - 1, 'big')
    return text + b'\0'


def header(name: bytes, typeflag, size, mode, uid, gid, mtime, link=b'', magic='ustar', prefix=b'', major=0, minor=0,
           uname=b'', gname=b'', tail=b''):  # fmt: skip
    block = bytearray(512)

    def put(offset, value):
        block[offset : offset + len(value)] = value

    put(0, name[:100])
    put(100, _octal(mode, 8))
    put(108, _octal(uid, 8))
    put(116, _octal(gid, 8))
    put(124, _octal(size, 12))
    put(136, _octal(mtime, 12))
    put(148, b' ' * 8)
    put(156, typeflag)
    put(157, link[:100])
    if magic == 'v7':
        pass
    elif magic == 'gnu':
        put(257, b'ustar  \0')
    else:
        put(257, b'ustar\00000')
    if magic != 'v7':
        put(265, uname[:31])
        put(297, gname[:31])
        if typeflag in (b'3', b'4'):
            put(329, _octal(major, 8))
            put(337, _octal(minor, 8))
        if magic == 'gnu':
            put(345, tail)
        else:
            put(345, prefix[:155])
    put(148, b'%06o\0 ' % sum(block))
    return bytes(block)


def pad(payload: bytes) -> bytes:
    return payload + bytes(-len(payload) % 512)


def pax_records(records) -> bytes:
    result = b''
    for key, value in records:
        key = key.encode('utf-8', 'surrogateescape') if isinstance(key, str) else key
        value = value.encode('utf-8', 'surrogateescape') if isinstance(value, str) else value
        body = b' ' + key + b'=' + value + b'\n'
        length = len(body)
        while True:
            total = len(body) + len(str(length))
            if total == length:
                break
            length = total
        result += str(length).encode() + body
    return result


def split_ustar(name: bytes):
    if len(name) <= 100:
        return b'', name
    for i in range(min(155, len(name) - 1), 0, -1):
        if name[i : i + 1] == b'/' and len(name) - i - 1 <= 100 and i + 1 < len(name):
            return name[:i], name[i + 1 :]
    return None


def sparse_map(spec):
    """spec: list of [gap, length] -> list of (offset, length), real size with trailing gap in spec['tail']"""
    result, position = [], 0
    for gap, length in spec['regions']:
        position += gap
        result.append((position, length))
        position += length
    return result, position + spec['tail']


def sparse_data(spec):
    """Returns (regions, real size, packed data, expanded data)."""
    regions, size = sparse_map(spec)
    packed = data(['r', sum(length for _, length in regions), spec['seed']])
    expanded = bytearray(size)
    position = 0
    for offset, length in regions:
        expanded[offset : offset + length] = packed[position : position + length]
        position += length
    return regions, size, packed, bytes(expanded)


def member_bytes(member) -> bytes:
    """
    member: dict with name, t; optional c (contents), mode, uid, gid, mtime, link, fmt, xattrs, sparse, major, minor,
    pax_mtime (float), dot (prefix './'), slash (trailing slashes).
    """
    kind = member['t']
    fmt = member.get('fmt', 'gnu')
    name = ('./' if member.get('dot') else '') + member['name'] + ('/' if kind == 'dir' else '')
    raw_name = name.encode('utf-8', 'surrogateescape')
    link = (member.get('link') or '').encode('utf-8', 'surrogateescape')
    mtime = member.get('mtime', 0)
    uid, gid, mode = member.get('uid', 0), member.get('gid', 0), member.get('mode', 0o644)
    typeflag = TYPEFLAGS[kind]
    payload = data(member['c']) if kind == 'file' and not member.get('sparse') else b''
    size = len(payload)
    out = b''
    records = []
    tail = b''
    prefix = b''
    extra_sparse = b''
    real_name = raw_name

    if member.get('sparse'):
        regions, real_size, packed, _ = sparse_data(member['sparse'])
        version = member['sparse']['v']
        if version == 'old':  # GNU old sparse format
            fmt = 'gnu'
            typeflag = b'S'
            entries = list(regions)
            # GNU tar always ends with a (real size, 0) entry if the file ends in a hole.
            if not entries or sum(entries[-1]) < real_size:
                entries.append((real_size, 0))

            def encode(items, count):
                text = b''.join(_octal(o, 12) + _octal(n, 12) for o, n in items)
                return text.ljust(24 * count, b'\0')

            first, rest = entries[:4], entries[4:]
            # 345 atime 357 ctime 369 offset 381 longnames 385 unused 386 sparse[4] 482 isextended 483 realsize
            tail = bytes(386 - 345) + encode(first, 4) + (b'\1' if rest else b'\0') + _octal(real_size, 12)
            while rest:
                now, rest = rest[:21], rest[21:]
                extra_sparse += (encode(now, 21) + (b'\1' if rest else b'\0')).ljust(512, b'\0')
            payload = packed
            size = len(payload)
        else:
            fmt = 'pax'
            entries = list(regions)
            if not entries or sum(entries[-1]) < real_size:
                entries.append((real_size, 0))
            if version == '0.0':
                records += [('GNU.sparse.size', str(real_size)), ('GNU.sparse.numblocks', str(len(entries)))]
                for offset, length in entries:
                    records += [('GNU.sparse.offset', str(offset)), ('GNU.sparse.numbytes', str(length))]
                payload = packed
            elif version == '0.1':
                records += [
                    ('GNU.sparse.size', str(real_size)), ('GNU.sparse.numblocks', str(len(entries))),
                    ('GNU.sparse.name', name.rstrip('/')),
                    ('GNU.sparse.map', ','.join(f'{o},{n}' for o, n in entries)),
                ]  # fmt: skip
                payload = packed
                raw_name = posixpath.join('GNUSparseFile.1', posixpath.basename(name)).encode()
            else:
                records += [
                    ('GNU.sparse.major', '1'), ('GNU.sparse.minor', '0'), ('GNU.sparse.name', name.rstrip('/')),
                    ('GNU.sparse.realsize', str(real_size)),
                ]  # fmt: skip
                text = f'{len(entries)}\n' + ''.join(f'{o}\n{n}\n' for o, n in entries)
                payload = pad(text.encode()) + packed
                raw_name = posixpath.join('GNUSparseFile.1', posixpath.basename(name)).encode()
            size = len(payload)
            if version != '0.0':
                raw_name = raw_name[:100]

    if fmt == 'pax':
        if not member.get('sparse') or member['sparse']['v'] == '0.0':
            if len(raw_name) > 100 or any(b > 127 for b in raw_name) or member.get('force_pax'):
                records.append(('path', name))
        if len(link) > 100 or any(b > 127 for b in link):
            records.append(('linkpath', member.get('link')))
        if member.get('pax_mtime') is not None:
            records.append(('mtime', repr(member['pax_mtime'])))
        elif mtime >= 8**11 or mtime < 0:
            records.append(('mtime', str(mtime)))
        for key, value in (('uid', uid), ('gid', gid)):
            if value >= 8**7:
                records.append((key, str(value)))
        for key, value in (member.get('xattrs') or {}).items():
            records.append(('SCHILY.xattr.' + key, value))
        if member.get('pax_size') and kind == 'file' and size:
            records.append(('size', str(size)))
        if records:
            body = pax_records(records)
            out += header(b'PaxHeaders/' + raw_name[:80], b'x', len(body), 0o644, 0, 0, max(0, min(mtime, 8**11 - 1)))
            out += pad(body)
        header_size = 0 if (member.get('pax_size') and kind == 'file' and size) else size
        out += header(
            raw_name[:100], typeflag, header_size, mode, uid if uid < 8**7 else 0, gid if gid < 8**7 else 0,
            mtime if 0 <= mtime < 8**11 else 0, link[:100],
            major=member.get('major', 0), minor=member.get('minor', 0), uname=b'user', gname=b'grp',
        )  # fmt: skip
    elif fmt == 'gnu':
        if len(link) > 100:
            out += header(b'././@LongLink', b'K', len(link) + 1, 0o644, 0, 0, 0, magic='gnu') + pad(link + b'\0')
        if len(real_name) > 100:
            out += header(b'././@LongLink', b'L', len(real_name) + 1, 0o644, 0, 0, 0, magic='gnu')
            out += pad(real_name + b'\0')
        out += header(
            raw_name[:100], typeflag, size, mode, uid, gid, mtime, link[:100], magic='gnu',
            major=member.get('major', 0), minor=member.get('minor', 0), uname=b'user', gname=b'grp', tail=tail,
        )  # fmt: skip
        out += extra_sparse
    else:  # ustar and v7
        split = split_ustar(raw_name)
        assert split is not None and len(link) <= 100
        prefix, short = split
        out += header(
            short, typeflag, size, mode, uid, gid, mtime, link, magic=fmt, prefix=prefix,
            major=member.get('major', 0), minor=member.get('minor', 0),
        )  # fmt: skip
    return out + pad(payload)


def tar_bytes(members, zero_blocks=2, record=0) -> bytes:
    out = b''.join(member_bytes(m) for m in members) + bytes(512 * zero_blocks)
    if record and len(out) % record:
        out += bytes(-len(out) % record)
    return out


# --- what the TAR means ---------------------------------------------------------------------------------------------


def normalize(name) -> str:
    return '/' + posixpath.normpath('/' + name).lstrip('/')


def member_entry(member):
    kind = member['t']
    result = {
        'type': kind, 'perm': member.get('mode', 0o644) & 0o7777, 'uid': member.get('uid', 0),
        'gid': member.get('gid', 0), 'mtime': member.get('mtime', 0), 'link': '', 'xattrs': {},
    }  # fmt: skip
    if member.get('fmt') == 'pax':
        if member.get('pax_mtime') is not None:
            result['mtime'] = float(repr(member['pax_mtime']))
        result['xattrs'] = {
            k: (v.encode('utf-8', 'surrogateescape') if isinstance(v, str) else bytes(v))
            for k, v in (member.get('xattrs') or {}).items()
        }
    if kind == 'file':
        result['data'] = sparse_data(member['sparse'])[3] if member.get('sparse') else data(member['c'])
        result['size'] = len(result['data'])
    elif kind == 'sym':
        result['link'] = member['link']
    return result


def tree_of(members):
    """
    {path: [entry of the first member, ..., entry of the last member]} plus parent folders, whose entry list has one
    item with only the type if no member describes them.  Hard links resolve to what their target means at that point.
    """
    tree = {}
    for member in members:
        path = normalize(member['name'])
        if path == '/':
            continue
        if member['t'] == 'hard':
            target = tree.get(normalize(member['link']))
            item = dict(target[-1]) if target and target[-1].get('type') != 'dir' else None
            if item is None:
                raise ValueError('dangling hard link')
        else:
            item = member_entry(member)
        tree.setdefault(path, []).append(item)
    return tree


def parents_of(path):
    parent = posixpath.dirname(path)
    while parent != '/':
        yield parent
        parent = posixpath.dirname(parent)


def expected_view(members):
    """{path: entry} as the default view. Parent folders without a member have only the type."""
    tree = tree_of(members)
    result = {'/': {'type': 'dir'}}
    for path, items in tree.items():
        result[path] = items[-1]
    for path in list(tree):
        for parent in parents_of(path):
            result.setdefault(parent, {'type': 'dir', 'xattrs': {}})
    return result
