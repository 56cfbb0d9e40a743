"""Writers for file system images (SquashFS, FAT, EXT4) and Git repositories from generated trees."""
import datetime
import os
import random
import stat
import time
import struct
import subprocess

from hypothesis import strategies as st

from . import gen
from .formats import Format, composed, legal, make_real, nothing, remove_tree, utf8, view_of, with_parents

# --- SquashFS -------------------------------------------------------------------------------------------------------


class SquashFS(Format):
    name, ext = 'squashfs', '.squashfs'

    def options(self):
        return st.fixed_dictionaries(
            {
                'comp': st.sampled_from(['gzip', 'gzip', 'lzo', 'lz4', 'xz', 'zstd', 'lzma']),
                'block': st.sampled_from([4096, 4096, 8192, 131072, 1048576]),
                'flags': st.lists(
                    st.sampled_from(
                        ['-no-fragments', '-always-use-fragments', '-no-duplicates', '-noI', '-noD', '-noF', '-no-sparse',
                         '-nopad', '-no-exports', '-no-tailends']
                    ), max_size=3, unique=True,
                ),
                'offset': st.sampled_from([0, 0, 0, 4096]),
            }
        )  # fmt: skip

    def legal(self, raw, o):
        return legal(raw, allow=lambda s: utf8(s) and len(s.encode()) < 250)

    def write(self, path, tree, o):
        root = path + '.tree'
        make_real(root, tree)
        if os.path.exists(path):
            os.unlink(path)
        flags = list(o['flags'])
        # A superblock that looks like one of the other formats is not our concern.
        command = ['mksquashfs', root, path, '-comp', o['comp'], '-b', str(o['block']), '-quiet', '-no-progress', '-all-root',
                   '-processors', '1', *flags]  # fmt: skip
        result = subprocess.run(command, capture_output=True)
        remove_tree(root)
        assert result.returncode == 0 and os.path.exists(path), (command, result)

    def expected(self, tree, o):
        return view_of(with_parents(tree), owner=(0, 0), mode=lambda n: 0o777 if n['t'] == 'sym' else n['mode'])


# --- FAT ------------------------------------------------------------------------------------------------------------


def fat_checksum(name):
    result = 0
    for c in name:
        result = ((result >> 1) | (result & 1) << 7) + c & 0xFF
    return result


def fat_epoch():
    return int(time.mktime((1980, 1, 1, 0, 0, 0, 0, 0, -1)))


def fat_time(mtime):
    moment = datetime.datetime.fromtimestamp(max(fat_epoch(), mtime))
    date = moment.year - 1980 << 9 | moment.month << 5 | moment.day
    return date, moment.hour << 11 | moment.minute << 5 | moment.second // 2


FAT_SHORT = set('ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-~!#$%&()@^`{}\'')


class Fat(Format):
    name, ext = 'fat', '.fat'

    def options(self):
        return st.fixed_dictionaries(
            {
                'bits': st.sampled_from([12, 12, 12, 16, 16, 32]),
                'sector': st.sampled_from([512, 512, 512, 1024, 4096]),
                'cluster': st.sampled_from([1, 1, 2, 8]),
                'fats': st.sampled_from([1, 2]),
                'reserved': st.sampled_from([1, 4, 32]),
                'seed': st.integers(0, 99),
                'deleted': st.booleans(),
                'label': st.booleans(),
            }
        )

    def legal(self, raw, o):
        bad = set('"*/:<>?\\|')
        return legal(
            raw,
            allow=lambda s: utf8(s) and len(s.encode('utf-16-le')) <= 2 * 100 and not bad & set(s) and min(map(ord, s)) >= 32
            and s.strip(' .') == s,
            kinds=('file', 'dir'), fold=str.lower,
        )  # fmt: skip

    def write(self, path, tree, o):
        rng = random.Random(o['seed'])
        bits, sector, per = o['bits'], o['sector'], o['cluster']
        if bits != 12:
            # Many clusters are required and small ones suffice.
            sector, per = 512, 1
        cluster = sector * per
        tree = with_parents(tree)
        children = {'': []}
        for node in tree:
            children.setdefault(os.path.dirname(node['p']), []).append(node)
            if node['t'] == 'dir':
                children.setdefault(node['p'], [])

        def names(node, used):
            base = os.path.basename(node['p'])
            stem, dot, ext = base.rpartition('.') if '.' in base[1:] else (base, '', '')
            plain = (
                set(stem) | set(ext) <= FAT_SHORT and 0 < len(stem) <= 8 and len(ext) <= 3 and not (dot and not ext)
            )
            if plain:
                short = stem.ljust(8).encode() + ext.ljust(3).encode()
                if short not in used:
                    used.add(short)
                    # Long names may be given even for those which do not need them.
                    return short, None if rng.random() < 0.7 else base
            number = 1
            letters = ''.join(c for c in base.upper() if c in FAT_SHORT)[:4] or 'X'
            while True:
                short = f'{letters[: 7 - len(str(number))]}~{number}'.ljust(8).encode() + b'   '
                if short not in used:
                    used.add(short)
                    return short, base
                number += 1

        def lfn(long, short):
            units = long.encode('utf-16-le')
            count = (len(units) + 25) // 26
            if len(units) % 26:
                units = (units + b'\0\0').ljust(count * 26, b'\xff')
            parts = []
            for i in range(count):
                piece = units[i * 26 : i * 26 + 26]
                order = i + 1 | (0x40 if i == count - 1 else 0)
                parts.append(
                    struct.pack('<B10sBBB12sH4s', order, piece[:10], 0x0F, 0, fat_checksum(short), piece[10:22], 0, piece[22:])
                )
            return b''.join(reversed(parts))

        # Sizes of all folders are known before any cluster is.
        layout, allocation = {}, {}
        for folder, nodes in children.items():
            used = set()
            layout[folder] = [(node, *names(node, used)) for node in nodes]

        def entry(short, attr, first, size, mtime):
            date, time = fat_time(mtime)
            return struct.pack(
                '<11sBBBHHHHHHHL', short, attr, 0, 0, time, date, date, first >> 16, time, date, first & 0xFFFF, size
            )

        def render(folder):
            out = b''
            if folder:
                own = allocation[folder][0]
                parent = os.path.dirname(folder)
                up = allocation[parent][0] if parent else 0
                out += entry(b'.          ', 0x10, own, 0, 1234567890) + entry(b'..         ', 0x10, up, 0, 1234567890)
            elif o['label']:
                out += entry(b'VOLUME     ', 0x08, 0, 0, 1234567890)
            dead = random.Random(o['seed'])
            for node, short, long in layout[folder]:
                if o['deleted'] and dead.random() < 0.5:
                    out += b'\xe5' + entry(b'DELETED TXT', 0x20, 0, 5, 1234567890)[1:]
                chain = allocation.get(node['p'], [])
                size = len(gen.data(node['c'])) if node['t'] == 'file' else 0
                attr = (0x10 if node['t'] == 'dir' else 0x20) | (0 if node['mode'] & 0o200 else 1)
                if long is not None:
                    out += lfn(long, short)
                out += entry(short, attr, chain[0] if chain else 0, size, node['mtime'])
            return out

        for folder in children:
            allocation[folder] = [0]
        sizes = {folder: len(render(folder)) + 32 for folder in children}
        root_entries = 0
        if bits != 32:
            root_entries = (sizes[''] // 32 + 16) // (sector // 32) * (sector // 32) + sector // 32
            del sizes['']
        for node in tree:
            if node['t'] == 'file' and gen.data(node['c']):
                sizes[node['p']] = len(gen.data(node['c']))
        needs = {key: -(-size // cluster) for key, size in sizes.items()}
        total = sum(needs.values())
        lowest = {12: 16, 16: 4085, 32: 65525}[bits]
        clusters = max(lowest, total + 8)
        if bits == 12:
            clusters = min(clusters, 4084)
        assert total <= clusters, 'too much data for this FAT'
        # Keep the used part of large FATs small and fragmented.
        free = list(range(3 if bits == 32 else 2, 2 + min(clusters, total + 40)))
        if rng.random() < 0.8:
            rng.shuffle(free)
        allocation = {'': [0]}
        table = [0] * (clusters + 2)
        end = {12: 0xFFF, 16: 0xFFFF, 32: 0x0FFFFFFF}[bits]
        table[0], table[1] = end & ~0xFF | 0xF8, end
        for key, count in needs.items():
            chain, free = free[:count], free[count:]
            allocation[key] = chain
            for a, b in zip(chain, chain[1:]):
                table[a] = b
            if chain:
                table[chain[-1]] = rng.choice([end, end - 7]) if bits != 12 else end
        if bits == 12:
            packed = bytearray()
            for i in range(0, len(table), 2):
                a, b = table[i], table[i + 1] if i + 1 < len(table) else 0
                packed += bytes([a & 0xFF, a >> 8 | (b & 0xF) << 4, b >> 4])
        else:
            packed = struct.pack(f"<{len(table)}{'H' if bits == 16 else 'L'}", *table)
        # Multiples of three sectors avoid FAT12 entries cut in half at the end.
        fat_sectors = -(-len(packed) // sector)
        if bits == 12:
            fat_sectors = -(-fat_sectors // 3) * 3
        packed = bytes(packed).ljust(fat_sectors * sector, b'\0')
        root_sectors = -(-root_entries * 32 // sector)
        first_data = o['reserved'] + o['fats'] * fat_sectors + root_sectors
        sectors = first_data + clusters * per
        header = struct.pack(
            '<3s8sHBHBHHBHHHLL', b'\xeb\x3c\x90', b'mkfs.fat', sector, per, o['reserved'], o['fats'], root_entries,
            sectors if sectors < 65536 and bits != 32 else 0, 0xF8, fat_sectors if bits != 32 else 0, 32, 64, 0,
            sectors if sectors >= 65536 or bits == 32 else 0,
        )  # fmt: skip
        if bits == 32:
            header += struct.pack('<LHHLHH12s', fat_sectors, 0, 0, allocation[''][0], 1, 6, bytes(12))
        header += struct.pack('<BBBL11s8s', 0x80, 0, 0x29, 0x12345678, b'NO NAME    ', b'FAT%-5d' % bits)
        with open(path, 'wb') as file:
            file.write(header.ljust(510, b'\0') + b'\x55\xaa')
            for i in range(o['fats']):
                file.seek((o['reserved'] + i * fat_sectors) * sector)
                file.write(packed)

            def put(key, payload):
                for i, where in enumerate(allocation[key]):
                    file.seek((first_data + (where - 2) * per) * sector)
                    # Slack after the end must never show up.
                    slack = b'\0' if key in children else b'\xaa'
                    file.write(payload[i * cluster : (i + 1) * cluster].ljust(cluster, slack))

            for folder in children:
                if folder or bits == 32:
                    put(folder, render(folder))
                else:
                    file.seek((o['reserved'] + o['fats'] * fat_sectors) * sector)
                    file.write(render(''))
            for node in tree:
                if node['t'] == 'file' and node['p'] in allocation:
                    put(node['p'], gen.data(node['c']))
            file.truncate(sectors * sector)

    def expected(self, tree, o):
        return view_of(
            with_parents(tree), mode=nothing, mtime=lambda n: max(fat_epoch(), n['mtime']) // 2 * 2
        )


# --- EXT4 -----------------------------------------------------------------------------------------------------------


class Ext4(Format):
    name, ext = 'ext4', '.ext4'

    def options(self):
        return st.fixed_dictionaries(
            {
                'block': st.sampled_from([1024, 1024, 2048, 4096]),
                'inode': st.sampled_from([128, 256, 256]),
                'groups': st.sampled_from([1, 2, 3]),
                'extent': st.sampled_from([1, 2, 5, 1000]),
                'holes': st.booleans(),
                'seed': st.integers(0, 99),
            }
        )

    def legal(self, raw, o):
        # Every image has at least the name limit of 255 bytes.
        return legal(raw, allow=lambda s: utf8(s) and len(s.encode()) <= 255)

    def write(self, path, tree, o):
        rng = random.Random(o['seed'])
        size = o['block']
        tree = with_parents(tree)
        count = len(tree) + 12
        per_group = -(-count // o['groups'])
        per_group = -(-per_group // 8) * 8
        inodes_total = per_group * o['groups']
        table_blocks = -(-per_group * o['inode'] // size)
        first = 1 if size == 1024 else 0
        # superblock, group descriptors, then inode tables, then data
        tables = [first + 2 + i * table_blocks for i in range(o['groups'])]
        rng.shuffle(tables)
        next_block = first + 2 + o['groups'] * table_blocks
        blocks = {}
        numbers = {'': 2}
        available = list(range(11, inodes_total + 1))
        if rng.random() < 0.5:
            rng.shuffle(available)
        for node in tree:
            numbers[node['p']] = available.pop(0)
        # Blocks are handed out in runs from a shuffled pool.
        pool = []

        def allocate(n):
            nonlocal next_block, pool
            if len(pool) < n:
                fresh = list(range(next_block, next_block + n * 3 + 20))
                next_block += len(fresh)
                pool += fresh
            start = rng.randrange(0, len(pool) - n + 1)
            run = pool[start : start + n]
            if run[-1] - run[0] != n - 1:
                run = list(range(next_block, next_block + n))
                next_block += n
            else:
                pool = pool[:start] + pool[start + n :]
            return run

        def extents_of(payload):
            """[(logical, physical, length, initialised)]"""
            result = []
            total = -(-len(payload) // size)
            position = 0
            while position < total:
                chunk = payload[position * size : (position + 1) * size]
                if o['holes'] and not any(chunk):
                    run = 1
                    while position + run < total and not any(payload[(position + run) * size : (position + run + 1) * size]):
                        run += 1
                    if rng.random() < 0.5:
                        # Preallocated but never written blocks; whatever they contain reads as zeros.
                        physical = allocate(run)
                        for b in physical:
                            blocks[b] = b'\xbb' * size
                        result.append((position, physical[0], run, False))
                    position += run
                    continue
                length = min(rng.randint(1, o['extent']), total - position)
                if o['holes']:
                    for i in range(1, length):
                        if not any(payload[(position + i) * size : (position + i + 1) * size]):
                            length = i
                            break
                physical = allocate(length)
                for i, b in enumerate(physical):
                    blocks[b] = payload[(position + i) * size : (position + i + 1) * size].ljust(size, b'\xcc')
                result.append((position, physical[0], length, True))
                position += length
            return result

        def extent_block(items, depth, room):
            header = struct.pack('<HHHHL', 0xF30A, len(items), room, depth, 0)
            for item in items:
                if depth == 0:
                    logical, physical, length, ready = item
                    header += struct.pack('<LHHL', logical, length + (0 if ready else 32768), 0, physical)
                else:
                    logical, leaf = item
                    header += struct.pack('<LLHH', logical, leaf, 0, 0)
            return header

        def extent_tree(items):
            if len(items) <= 4:
                return extent_block(items, 0, 4)
            room = (size - 12) // 12
            if rng.random() < 0.5:
                room = min(room, max(5, -(-len(items) // 4)))
            depth = 0
            while len(items) > 4:
                above = []
                for i in range(0, len(items), room):
                    part = items[i : i + room]
                    (where,) = allocate(1)
                    blocks[where] = extent_block(part, depth, room).ljust(size, b'\0')
                    above.append((part[0][0], where))
                items = above
                depth += 1
            return extent_block(items, depth, 4)

        kinds = {'file': 1, 'dir': 2, 'sym': 7}
        children = {'': []}
        for node in tree:
            children.setdefault(os.path.dirname(node['p']), []).append(node)
            if node['t'] == 'dir':
                children.setdefault(node['p'], [])

        def directory(folder):
            parent = numbers[os.path.dirname(folder)]
            entries = [(numbers[folder], b'.', 2), (parent, b'..', 2)]
            for node in children[folder]:
                entries.append((numbers[node['p']], os.path.basename(node['p']).encode(), kinds[node['t']]))
            out, block = [], []
            used = 0
            for number, name, kind in entries:
                need = 8 + len(name) + 3 & ~3
                if used + need > size:
                    out.append(block)
                    block, used = [], 0
                block.append((number, name, kind, need))
                used += need
            out.append(block)
            data = b''
            for block in out:
                text = b''
                for i, (number, name, kind, need) in enumerate(block):
                    length = size - len(text) if i == len(block) - 1 else need
                    if i < len(block) - 1 and rng.random() < 0.1 and sum(b[3] for b in block) + 16 < size:
                        # Room left by a removed entry
                        if len(text) + need + 16 + sum(b[3] for b in block[i + 1 :]) <= size:
                            length = need + 16
                    text += (struct.pack('<LHBB', number, length, len(name), kind) + name).ljust(length, b'\0')
                data += text
            return data

        inodes = {}

        def inode(number, kind, mode, mtime, payload=None, target=None):
            flags, area = 0x80000, None
            length = 0
            if target is not None and len(target) < 60:
                flags, area, length = 0, target.ljust(60, b'\0'), len(target)
            else:
                payload = target if target is not None else payload
                length = len(payload)
                area = extent_tree(extents_of(payload)).ljust(60, b'\0')
            value = struct.pack(
                '<HHLLLLLHHLLL60sLLLL12s', kind | mode, 1000, length, mtime, mtime, mtime, 0, 100, 1, 0, flags, 0, area, 0, 0, 0, 0,
                bytes(12),
            )  # fmt: skip
            assert len(value) == 128
            if o['inode'] > 128:
                value += struct.pack('<HH', 32, 0)
            inodes[number] = value.ljust(o['inode'], b'\0')

        inode(2, stat.S_IFDIR, 0o755, 1234567890, directory(''))
        for node in tree:
            number = numbers[node['p']]
            mtime = min(node['mtime'], 2**31 - 1)
            if node['t'] == 'dir':
                inode(number, stat.S_IFDIR, node['mode'], mtime, directory(node['p']))
            elif node['t'] == 'file':
                inode(number, stat.S_IFREG, node['mode'], mtime, gen.data(node['c']))
            else:
                inode(number, stat.S_IFLNK, 0o777, mtime, target=node['link'].encode())
        block_count = next_block + 1
        superblock = struct.pack(
            '<LLLLLLLLLLLLLHHHHHHLLLLHHLHHLLL', inodes_total, block_count, 0, 0, 0, first, {1024: 0, 2048: 1, 4096: 2}[size],
            {1024: 0, 2048: 1, 4096: 2}[size], 8 * size, 8 * size, per_group, 0, 0, 0, 0xFFFF, 0xEF53, 1, 1, 0, 0, 0, 0, 1, 0, 0,
            11, o['inode'], 0, 0, 0x42, 0,
        ) + bytes(range(16))  # fmt: skip
        descriptors = b''.join(
            struct.pack('<LLLHHHHLHHHH', 0, 0, table, 0, 0, 0, 0, 0, 0, 0, 0, 0) for table in tables
        )
        with open(path, 'wb') as file:
            file.truncate(block_count * size)
            file.seek(1024)
            file.write(superblock.ljust(1024, b'\0'))
            file.seek((first + 1) * size)
            file.write(descriptors)
            for number, value in inodes.items():
                group, index = divmod(number - 1, per_group)
                file.seek(tables[group] * size + index * o['inode'])
                file.write(value)
            for number, value in blocks.items():
                file.seek(number * size)
                file.write(value)

    def expected(self, tree, o):
        return view_of(
            with_parents(tree), owner=(1000, 100), mode=lambda n: 0o777 if n['t'] == 'sym' else n['mode'],
            mtime=lambda n: min(n['mtime'], 2**31 - 1),
        )


# --- Git ------------------------------------------------------------------------------------------------------------


class Git(Format):
    """A folder with a repository. The tree is committed to `branch`, something else to other branches."""

    name, ext = 'git', ''
    folder = True

    def options(self):
        return st.fixed_dictionaries(
            {
                'branch': st.sampled_from(['main', 'master', 'topic']),
                'reference': st.sampled_from(['', 'branch', 'tag', 'hash']),
                'packed': st.booleans(),
                'later': st.booleans(),
                'time': st.sampled_from([1, 1234567890, 1700000000]),
            }
        )

    def legal(self, raw, o):
        return legal(
            raw, allow=lambda s: composed(s) and s.lower() != '.git' and '\n' not in s and len(s.encode()) < 250, kinds=('file', 'sym'),
        )  # fmt: skip

    def write(self, path, tree, o):
        environment = {
            **os.environ, 'GIT_CONFIG_GLOBAL': '/dev/null', 'GIT_CONFIG_SYSTEM': '/dev/null', 'HOME': path, 'LC_ALL': 'C.UTF-8',
        }  # fmt: skip

        def git(*args, **kwargs):
            result = subprocess.run(['git', '-C', path, *args], capture_output=True, env=environment, **kwargs)
            assert result.returncode == 0, (args, result)
            return result.stdout

        os.makedirs(path, exist_ok=True)
        git('init', '-q', '-b', o['branch'] if o['reference'] in ('', 'tag', 'hash') else 'trunk')
        if o['reference'] != 'branch':
            git('config', 'init.defaultBranch', o['branch'])

        def quoted(name):
            return b'"' + name.encode().replace(b'\\', b'\\\\').replace(b'"', b'\\"') + b'"'

        def commit(branch, nodes, time, parent=None):
            out = b'commit refs/heads/%b\nmark :%d\ncommitter A <a@b> %d +0000\ndata 1\nx\n' % (branch.encode(), time, time)
            if parent:
                out += b'deleteall\n'
            for node in nodes:
                payload = gen.data(node['c']) if node['t'] == 'file' else node['link'].encode()
                mode = '120000' if node['t'] == 'sym' else '100755' if node['mode'] & 0o100 else '100644'
                out += b'M %b inline %b\ndata %d\n%b\n' % (mode.encode(), quoted(node['p']), len(payload), payload)
            return out + b'\n'

        other = [{'t': 'file', 'p': 'only-here', 'c': ['t', 10, 1], 'mode': 0o644}]
        stream = commit(o['branch'], other, 5)
        stream += commit(o['branch'], tree, o['time'], o['branch'])
        if o['reference'] in ('tag', 'hash'):
            stream += b'tag v1\nfrom :%d\ntagger A <a@b> 7 +0000\ndata 1\nx\n' % o['time']
            if o['later']:
                stream += commit(o['branch'], other, 9, o['branch'])
        if o['reference'] == 'branch':
            stream += commit('trunk', other, 11)
        git('fast-import', '--quiet', input=stream)
        if not o['packed']:
            # Loose objects
            pack = git('rev-list', '--objects', '--all')
            del pack
            folder = os.path.join(path, '.git/objects/pack')
            for name in os.listdir(folder):
                if name.endswith('.pack'):
                    with open(os.path.join(folder, name), 'rb') as file:
                        data = file.read()
                    os.unlink(os.path.join(folder, name))
                    for rest in os.listdir(folder):
                        os.unlink(os.path.join(folder, rest))
                    git('unpack-objects', '-q', input=data)
                    break
        self.hash = git('rev-parse', 'v1^{commit}').decode().strip() if o['reference'] in ('tag', 'hash') else ''

    def reference(self, o):
        return {'': None, 'branch': o['branch'], 'tag': 'v1', 'hash': self.hash}[o['reference']]

    def expected(self, tree, o):
        return view_of(tree, mode=nothing, mtime=lambda n: o['time'])


SQUASHFS = SquashFS()
FAT = Fat()
EXT4 = Ext4()
GIT = Git()
