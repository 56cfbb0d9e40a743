"""C01: a mounted TAR shows exactly what the TAR contains."""
import io
import os
import subprocess

from hypothesis import strategies as st

from vp import formats, gen, tars, view
from vp.core import Sub, check

ID = 'C01'
TECHNIQUE = 'property-based testing: generated TAR byte streams against a reference model, GNU tar differential'
RULE = """
'members': lists of up to 12 TAR members (own byte-level writer: v7, ustar, GNU, PAX; long and non-ASCII names, sparse
0.0/0.1/1.0/old GNU, hard and symbolic links, devices, duplicates, missing parents, PAX-only sizes, xattrs), cut into
1..3 concatenated archives; the expected tree comes from the member list, not from any TAR reader. 'gnutar': a real
tree is archived with GNU tar (format, sparse, incremental, blocking factor, verbatim options) and the mounted view is
compared with lstat/read of the tree. 'encoding': names in other encodings. 'many': 990 to 3300 members. Non-trivial: at least two members and at
least three features (kinds, formats, sparse, long name, duplicate, ...).
"""
ASSUMES = [
    'A path that one member makes a file and another one a folder is not generated here; the code documents that '
    'limitation (see C13 for what is guaranteed).',
    'A hard link refers to a target with a single version; the code documents other cases as undecided.',
]


def open_ms(path_or_file, nested=False, **options):
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    from ratarmountcore.mountsource.factory import open_mount_source

    ms = open_mount_source(path_or_file, **options)
    # The layer for recursive mounting, as used for folders of archives, must pass everything through.
    return FileVersionLayer(AutoMountLayer(ms, recursive=True, writeIndex=False) if nested else ms)


@st.composite
def member_cases(draw):
    return {
        'members': draw(st.lists(tars.members(), min_size=1, max_size=12)),
        'cuts': draw(st.lists(st.integers(1, 11), max_size=2)),
        'ignore_zeros': draw(st.booleans()),
        'zeros': draw(st.sampled_from([2, 2, 1, 0, 3, 20])),
        'record': draw(st.sampled_from([0, 10240])),
        'via': draw(st.sampled_from(['path', 'path', 'fileobj', 'bytesio'])),
        'index': draw(st.sampled_from(['memory', 'disk', 'disk-later'])),
        'ext': draw(st.sampled_from(['.tar', '', '.bin'])),
        'nested': draw(st.sampled_from([False, False, False, True])),
    }


INDEX_OPTIONS = {
    'memory': {'writeIndex': False}, 'disk': {'writeIndex': True, 'indexMinimumFileCount': 0},
    'disk-later': {'writeIndex': True, 'indexMinimumFileCount': 3},
}  # fmt: skip


def run_members(case, ctx):
    members = tars.legalize(case['members'])
    if not members:
        return  # An archive without any member is refused.
    cuts = sorted({c for c in case['cuts'] if c < len(members)})
    parts = [members[a:b] for a, b in zip([0, *cuts], [*cuts, len(members)])]
    # Without end-of-archive blocks, the concatenation is simply one archive.
    zeros = case['zeros'] if len(parts) == 1 else max(2, case['zeros'])
    data = b''.join(gen.tar_bytes(part, zeros, case['record']) for part in parts)
    shown = members if case['ignore_zeros'] or len(parts) == 1 else parts[0]
    expected = gen.expected_view(shown)

    path = ctx.path('archive' + case['ext'])
    with open(path, 'wb') as file:
        file.write(data)
    options = {'ignoreZeros': case['ignore_zeros'], **INDEX_OPTIONS[case['index']]}
    if case['via'] == 'path':
        source = path
    elif case['via'] == 'fileobj':
        source = open(path, 'rb')
        ctx.stack.callback(source.close)
    else:
        source = io.BytesIO(data)
    ms = ctx.keep(open_ms(source, case['nested'], **options))
    actual = view.snapshot(ms, xattrs=True)
    view.tree_diff(actual, expected, what='mounted TAR')
    features = tars.features(members)
    ctx.label(*features)
    ctx.label('via ' + case['via'], 'index ' + case['index'])
    if len(parts) > 1:
        ctx.label('concatenated, zeros ' + ('ignored' if case['ignore_zeros'] else 'end the archive'))
    ctx.nontrivial(len(members) >= 2 and len(features) >= 3)


# --- GNU tar --------------------------------------------------------------------------------------------------------


@st.composite
def gnutar_cases(draw):
    node = st.fixed_dictionaries(
        {
            'p': gen.paths(4),
            't': st.sampled_from(['file', 'file', 'file', 'dir', 'sym', 'hard', 'fifo', 'sparse', 'xattr']),
            'c': gen.contents(30000),
            'mode': st.sampled_from([0o644, 0o600, 0o755, 0o4711, 0o400]),
            'mtime': st.sampled_from([0, 1, 1234567890, 2**31, 1e9 + 0.5]),
            'i': st.integers(0, 7),
            'holes': st.lists(st.sampled_from([0, 4096, 65536]), min_size=1, max_size=5),
        }
    )
    return {
        'nodes': draw(st.lists(node, min_size=1, max_size=10)),
        'format': draw(st.sampled_from(['gnu', 'oldgnu', 'posix', 'ustar', 'v7'])),
        'sparse': draw(st.sampled_from(['', '', '--sparse', '0.0', '0.1', '1.0'])),
        'b': draw(st.sampled_from([1, 20, 63])),
        'incremental': draw(st.booleans()),
        'args': draw(st.lists(st.sampled_from(['--xattrs', '--hard-dereference', '--sort=name']), max_size=2)),
        'as': draw(st.sampled_from(['.', '*'])),
    }


def build_tree(root, nodes, allow_xattr=True):
    """Creates real files. Returns the list of created regular files."""
    os.makedirs(root)
    files = []
    touched = []
    for node in nodes:
        path = os.path.join(root, node['p'])
        try:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if os.path.lexists(path):
                continue
            kind = node['t']
            if kind == 'dir':
                os.mkdir(path)
                continue
            if kind in ('file', 'xattr'):
                with open(path, 'wb') as file:
                    file.write(gen.data(node['c']))
                files.append(path)
                if kind == 'xattr' and allow_xattr:
                    try:
                        os.setxattr(path, 'user.test', b'value')
                    except OSError:
                        pass
            elif kind == 'sparse':
                with open(path, 'wb') as file:
                    for hole in node['holes']:
                        file.seek(hole, os.SEEK_CUR)
                        file.write(gen.data(['r', 4096, node['i']]))
                    file.truncate(file.tell() + node['holes'][0])
                files.append(path)
            elif kind == 'sym':
                os.symlink(node['p'][::-1], path)
            elif kind == 'hard':
                if not files:
                    continue
                os.link(files[node['i'] % len(files)], path)
            elif kind == 'fifo':
                os.mkfifo(path)
            if kind not in ('sym', 'hard'):
                os.chmod(path, node['mode'])
            touched.append((path, node['mtime']))
        except OSError:
            continue
    for path, mtime in touched:
        os.utime(path, (mtime, mtime), follow_symlinks=False)
    return files


def real_entry(path, whole_seconds):
    status = os.lstat(path)
    kind = view.ftype(status.st_mode)
    result = {
        'type': kind, 'perm': status.st_mode & 0o7777, 'uid': status.st_uid, 'gid': status.st_gid,
        'mtime': status.st_mtime_ns // 10**9 if whole_seconds else status.st_mtime_ns / 1e9, 'link': '',
    }  # fmt: skip
    if kind == 'file':
        with open(path, 'rb') as file:
            result['data'] = file.read()
        result['size'] = len(result['data'])
    elif kind == 'sym':
        result['link'] = os.readlink(path)
    return result


def real_tree(root, whole_seconds=False):
    expected = {'/': {'type': 'dir'}}
    for folder, dirs, names in os.walk(root):
        for name in dirs + names:
            path = os.path.join(folder, name)
            expected['/' + os.path.relpath(path, root)] = real_entry(path, whole_seconds)
    return expected


def run_gnutar(case, ctx):
    root = ctx.path('tree')
    build_tree(root, case['nodes'])
    archive = ctx.path('a.tar')
    command = ['tar', '--create', '--file', archive, f"--format={case['format']}", f"--blocking-factor={case['b']}"]
    if case['sparse'] == '--sparse':
        command.append('--sparse')
    elif case['sparse']:
        command += ['--sparse', f"--sparse-version={case['sparse']}"]
    incremental = case['incremental'] and case['format'] in ('gnu', 'oldgnu')
    if incremental:
        command.append('--listed-incremental=' + ctx.path('snar'))
    command += [a for a in case['args'] if a != '--xattrs' or case['format'] == 'posix']
    names = ['.'] if case['as'] == '.' else sorted(os.listdir(root))
    if not names:
        return
    result = subprocess.run(
        [*command, '-C', root, '--', *['./' + n if n.startswith('-') else n for n in names]],
        capture_output=True, env={**os.environ, 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'},
    )  # fmt: skip
    if result.returncode != 0:
        # This format cannot store this tree (long names in v7 or ustar)
        ctx.label('not storable in ' + case['format'])
        return
    posix = case['format'] == 'posix'
    expected = real_tree(root, whole_seconds=not posix)
    if posix:
        for entry in expected.values():
            if 'mtime' in entry:
                entry['mtime'] = entry['mtime']
    # Incremental archives can only be recognised by their folder entries.
    ms = ctx.keep(
        open_ms(archive, writeIndex=False, isGnuIncremental=True if incremental and case['as'] == '*' else None)
    )
    actual = view.snapshot(ms)
    if posix:
        for path, entry in actual.items():
            if path in expected and 'mtime' in expected[path]:
                check(
                    abs(entry['mtime'] - expected[path]['mtime']) < 1e-5, '%r: mtime %r instead of %r', path,
                    entry['mtime'], expected[path]['mtime'],
                )  # fmt: skip
    view.tree_diff(actual, expected, ignore=('mtime',) if posix else (), what='archive made by GNU tar')
    ctx.label(f"format {case['format']}", 'incremental' if incremental else 'normal', f"sparse {case['sparse']}")
    ctx.nontrivial(len(expected) >= 4)


# --- encodings ------------------------------------------------------------------------------------------------------


@st.composite
def encoding_cases(draw):
    alphabet = st.sampled_from(['a', 'ä', 'ß', 'é', 'ñ', 'ы', 'я', 'Ж', '日', '本', '.', ' '])
    name = st.text(alphabet, min_size=1, max_size=20).filter(lambda s: s.strip('. '))
    return {
        'encoding': draw(st.sampled_from(['utf-8', 'iso-8859-1', 'cp1251', 'euc-jp', 'shift_jis'])),
        'names': draw(st.lists(st.lists(name, min_size=1, max_size=3).map('/'.join), min_size=1, max_size=6)),
        'pax': draw(st.booleans()),
    }


def run_encoding(case, ctx):
    encoding = case['encoding']
    members, parts = [], []
    for number, name in enumerate(case['names']):
        try:
            raw = name.encode(encoding)
            if raw.decode(encoding) != name or b'/' in raw.replace(b'/', b'', name.count('/')):
                continue
        except UnicodeError:
            continue
        member = {'t': 'file', 'name': name, 'c': ['p', 20 + number, number], 'fmt': 'gnu', 'mode': 0o644}
        if case['pax']:
            # PAX headers are always UTF-8 encoded, whatever the encoding option says.
            member['fmt'] = 'pax'
            member['force_pax'] = True
            parts.append(gen.member_bytes(member))
        else:
            parts.append(gen.member_bytes({**member, 'name': raw.decode('utf-8', 'surrogateescape')}))
        members.append(member)
    kept, paths = [], set()
    data = b''
    for member, part in zip(members, parts):
        path = gen.normalize(member['name'])
        if any(p == path or p.startswith(path + '/') or path.startswith(p + '/') for p in paths):
            continue
        paths.add(path)
        kept.append(member)
        data += part
    if not kept:
        return
    archive = ctx.path('a.tar')
    with open(archive, 'wb') as file:
        file.write(data + bytes(1024))
    ms = ctx.keep(open_ms(archive, writeIndex=False, encoding=encoding))
    view.tree_diff(view.snapshot(ms, xattrs=True), gen.expected_view(kept), what=f'archive with {encoding} names')
    ctx.label(encoding + (' PAX' if case['pax'] else ''))
    ctx.nontrivial(any(ord(c) > 127 for m in kept for c in m['name']))


# --- many members ----------------------------------------------------------------------------------------------------


@st.composite
def many_cases(draw):
    return {
        'members': draw(st.lists(tars.members(), max_size=5)), 'bulk': [draw(st.sampled_from(formats.COUNTS)), draw(st.integers(0, 99))],
        'z': draw(st.sampled_from(['', '', '', 'gz', 'bz2', 'xz'])), 'recursive': draw(st.booleans()), 'parallelization': draw(st.sampled_from([1, 1, 2, 3])),
        'index': draw(st.sampled_from(sorted(INDEX_OPTIONS))), 'fmt': draw(st.lists(st.sampled_from(['gnu', 'pax', 'ustar']), min_size=1, max_size=3)),
        'xattrs': draw(st.sampled_from([0, 1, 7])), 'repeat': draw(st.sampled_from([0, 0, 50])),
    }  # fmt: skip


def run_many(case, ctx):
    members = []
    nodes = formats.bulk(*case['bulk'])
    for i, node in enumerate([*nodes, *[n for n in nodes if n['t'] == 'file'][: case['repeat']]]):
        member = {'t': node['t'], 'name': node['p'], 'mode': node['mode'], 'uid': i % 5, 'gid': 7, 'mtime': node['mtime'], 'fmt': case['fmt'][i % len(case['fmt'])]}
        if node['t'] == 'file':
            member['c'] = ['p', node['c'][1], i]
        elif node['t'] == 'sym':
            member['link'] = node['link']
        if case['xattrs'] and i % case['xattrs'] == 0 and member['fmt'] == 'pax':
            member['xattrs'] = {f'user.k{k}': f'{i}.{k}' for k in range(1 + i % 3)}
        members.append(member)
    members = tars.legalize(case['members'] + members)
    path = ctx.path('archive.tar' + ('.' + case['z'] if case['z'] else ''))
    with open(path, 'wb') as file:
        file.write(formats.COMPRESSORS[case['z']](gen.tar_bytes(members)))
    options = {'recursive': case['recursive'], 'parallelization': case['parallelization'], **INDEX_OPTIONS[case['index']]}
    ms = ctx.keep(open_ms(path, **options))
    view.tree_diff(view.snapshot(ms, xattrs=True), gen.expected_view(members), what='TAR with many members')
    ctx.label('plain' if not case['z'] else 'compressed', 'recursive' if case['recursive'] else 'flat')
    ctx.nontrivial(len(members) > 1000)


SUBS = [
    Sub('many', many_cases, run_many, 24, 2500),
    Sub('members', member_cases, run_members, 700, 60000),
    Sub('gnutar', gnutar_cases, run_gnutar, 200, 15000),
    Sub('encoding', encoding_cases, run_encoding, 100, 8000),
]
