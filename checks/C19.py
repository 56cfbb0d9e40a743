"""C19: split files are joined completely, in order, and only when they belong together."""
import os
import stat
import string

from hypothesis import strategies as st

from checks.C15 import CODEC_IDS, FILES, LIBARCHIVE_ONLY, basic, files, observed, produce
from vp import compress, formats, gen, tars, view
from vp.core import Sub, Skip, check

ID = 'C19'
TECHNIQUE = 'property-based testing against a model of numbered parts; differential between the joined mount and the unsplit file'
RULE = """
A payload (raw bytes, or a file of a random archive, image, or compression format) is cut at random positions (also empty parts, up to 130 parts) into files numbered
decimally, hexadecimally, or alphabetically, with random width (also numbers that become longer than the width) beginning with 0 or 1. Beside them are files that do not
belong to it: parts behind a gap, other widths, other numerals, other base names, longer extensions, folders and indexes named like parts, other split files. 'folder' opens the
first part, another part, or a file that is no part, by absolute, relative, or linked path: only all parts in order may be joined, and archives must show what the unsplit
file shows. 'recursive' has the parts in folders of a folder, TAR, ZIP, or of an archive inside those, mounted recursively, with or without stripping extensions, lazily or not. Random reads in
the joined file are compared with the payload. Non-trivial: at least 2 parts and either 3 parts or files which do not belong to the split.
"""
NOTE = (
    'Alphabetic parts without "a", upper-case extensions, and numbers without first part are not parts of anything in the documentation and are not generated. "a" without more letters counts as '
    'AR extension and is not joined recursively. The second possible first part (00 and 01 both exist) is not compared in the recursive mount.'
)

DIGITS = {'dec': string.digits, 'hex': string.digits + 'abcdef', 'alpha': string.ascii_lowercase}
BASES = ['x', 'foo.bar', 'a.tar.gz', 'data.0', 'ä b', 'x.00', '.hidden', 'x.tar', 'x.zip', 'foo.001']
STRAYS = ['gap', 'width', 'prefix', 'longer', 'double', 'folder', 'index', 'other', 'none', 'plain', 'upper', 'before', 'letters']


def number(i, digits, width):
    result = ''
    while i > 0 or len(result) < width:
        result = digits[i % len(digits)] + result
        i //= len(digits)
    return result


def sequence(names, base, extension):
    """All parts of the longest split file that has the extension as a part."""
    best = []
    for digits in DIGITS.values():
        if any(c not in digits for c in extension):
            continue
        found = []
        i = 0 if number(0, digits, len(extension)) in names else 1
        if i == 1 and digits == DIGITS['alpha']:
            continue
        while number(i, digits, len(extension)) in names:
            found.append(number(i, digits, len(extension)))
            i += 1
        if extension in found and len(found) > len(best):
            best = found
    return [f'{base}.{e}' for e in best] if len(best) > 1 else []


def split_cases(draw, raw_only=False):
    case = {'raw': raw_only or draw(st.booleans())}
    if case['raw']:
        case['c'] = draw(gen.contents(30000))
    else:
        case['f'] = files(draw)
        case['f']['members'] = [m for m in case['f'].get('members', []) if 'sparse' not in m and m['t'] in ('file', 'dir', 'sym', 'hard')]
    case['base'] = draw(st.sampled_from(BASES))
    case['system'] = draw(st.sampled_from(['dec', 'dec', 'hex', 'alpha']))
    case['width'] = draw(st.integers(1, 4))
    case['start'] = draw(st.sampled_from([0, 1])) if case['system'] != 'alpha' else 0
    case['count'] = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 9, 10, 11, 12, 17, 26, 30, 130]))
    case['cuts'] = draw(st.lists(st.floats(0, 1).map(lambda x: round(x, 4)), min_size=1, max_size=12))
    case['strays'] = draw(st.lists(st.sampled_from(STRAYS), max_size=4, unique=True))
    return case


def produce_parts(case, ctx, name='payload'):
    """Returns the payload and everything in the folder: {name: bytes, or None for folders}."""
    path = ctx.path(name)
    if case['raw']:
        payload = b'\xff\xffraw payload' + gen.data(case['c'])
    else:
        if case['f']['kind'] == 'magic' or produce(case['f'], path) is None:
            raise Skip
        with open(path, 'rb') as file:
            payload = file.read()
    digits, width, base, start = DIGITS[case['system']], case['width'], case['base'], case['start']
    count = case['count']
    if case['system'] == 'alpha' and width == 1:
        count = min(count, 26)  # 'ba' after 'z' is no convention.
    cuts = case['cuts']
    positions = sorted(int(cuts[i % len(cuts)] * (1 + i // len(cuts)) * 0.37 % 1 * len(payload)) if i >= len(cuts) else int(cuts[i] * len(payload)) for i in range(count - 1))
    positions = [0, *positions, len(payload)]
    entries = {f'{base}.{number(start + i, digits, width)}': payload[a:b] for i, (a, b) in enumerate(zip(positions, positions[1:]))}
    first = f'{base}.{number(start, digits, width)}'
    end = start + count
    stray = {
        'gap': f'{base}.{number(end + 1, digits, width)}', 'width': f'{base}.{number(end, digits, width + 1)}', 'prefix': f'{base}2.{number(end, digits, width)}',
        'longer': f'{base}.{number(end, digits, width)}.bak', 'double': f'{base}.x.{number(end, digits, width)}', 'folder': f'{base}.{number(end, digits, width)}',
        'index': f'{first}.index.sqlite', 'other': f'other.{number(0, digits, width)}', 'none': number(end, digits, width), 'plain': base,
        'upper': f'{base}.{number(end, digits, width).upper()}', 'before': f'{base[1:]}.{number(end, digits, width)}', 'letters': f'{base}.{"q" * width}',
    }  # fmt: skip
    for kind in case['strays']:
        entries.setdefault(stray[kind], None if kind == 'folder' else b'stray ' + kind.encode())
    return payload, entries, first


def extensions(entries, base):
    return {name[len(base) + 1 :] for name, data in entries.items() if data is not None and name.startswith(base + '.')}


@st.composite
def folder_cases(draw):
    case = split_cases(draw)
    case['open'] = draw(st.sampled_from(['first'] * 5 + ['part', 'lone', 'lone']))
    case['how'] = draw(st.sampled_from(['absolute', 'absolute', 'relative', 'name', 'linked folder', 'path object', 'linked part']))
    case['reads'] = draw(reads())
    return case


def reads():
    return st.lists(st.tuples(st.floats(0, 1.05).map(lambda x: round(x, 4)), st.sampled_from([1, 5, 100, 4096, 70000, -1])), max_size=6)


def check_reads(ms, path, payload, operations):
    info = ms.lookup(path)
    check(info is not None, '%r is missing', path)
    check(info.size == len(payload), '%r has size %s instead of %s', path, info.size, len(payload))
    view.equal_bytes(view.read_all(ms, info), payload, repr(path))
    with ms.open(info) as file:
        for where, size in operations:
            offset = int(where * len(payload))
            file.seek(offset)
            view.equal_bytes(file.read(size), payload[offset:] if size < 0 else payload[offset : offset + size], f'{path!r} at {offset}')


def run_folder(case, ctx):
    from ratarmountcore.mountsource.factory import open_mount_source

    codec = case.get('f', {}).get('codec')
    if codec and CODEC_IDS.get(codec) in LIBARCHIVE_ONLY and not any(gen.data(case['f']['c'])[:1024]):
        raise Skip
    payload, entries, first = produce_parts(case, ctx)
    base = case['base']
    folder = ctx.path('folder')
    os.makedirs(folder)
    names = [n for n in entries]
    lone = None
    if case['open'] == 'lone':
        # A file which is opened for itself although there are the parts of another file with the same base name.
        digits = DIGITS[case['system']]
        extension = {'dec': 'gz', 'hex': 'zip', 'alpha': 'tgz'}[case['system']] if case['width'] > 1 else number(7, digits, 1)
        lone = f'{base}.{extension}'
        lone_data = gen.tar_bytes([{'name': 'lone', 't': 'file', 'c': ['p', 100, 1], 'mode': 0o644, 'mtime': 1, 'uid': 0, 'gid': 0, 'fmt': 'ustar'}])
        if lone in entries:
            raise Skip
        entries[lone] = lone_data
    for name, data in entries.items():
        path = os.path.join(folder, name)
        if data is None:
            os.makedirs(path)
        else:
            with open(path, 'wb') as file:
                file.write(data)
    available = extensions(entries, base)
    opened = lone if lone else first
    expected = sequence(available, base, opened[len(base) + 1 :])
    if case['open'] == 'part':
        if len(expected) < 2:
            raise Skip
        opened = [n for n in expected if len(n) == len(first)][-1]
        if sequence(available, base, opened[len(base) + 1 :]) != expected:
            raise Skip
    if lone and expected:
        raise Skip
    if not expected and case['raw'] and not lone:
        raise Skip  # Not an archive
    joined = b''.join(entries[n] for n in expected) if expected else entries[opened]
    if not expected and not lone and joined != payload:
        raise Skip
    if joined != payload and not lone:
        # The stray files continue the sequence by construction.
        if not case['raw']:
            raise Skip

    how = case['how']
    target = os.path.join(folder, opened)
    previous = os.getcwd()
    ctx.stack.callback(os.chdir, previous)
    if how == 'relative':
        os.chdir(os.path.dirname(folder))
        target = os.path.join(os.path.basename(folder), opened)
    elif how == 'name':
        os.chdir(folder)
        target = opened
    elif how == 'linked folder':
        os.symlink(folder, folder + '-link')
        target = os.path.join(folder + '-link', opened)
    elif how == 'path object':
        import pathlib

        target = pathlib.Path(target)
    elif how == 'linked part' and expected:
        # All parts are links to files with other names in another folder.
        os.makedirs(folder + '-real')
        for i, n in enumerate(expected):
            os.rename(os.path.join(folder, n), os.path.join(folder + '-real', f'{i}.data'))
            os.symlink(os.path.join(folder + '-real', f'{i}.data'), os.path.join(folder, n))
    options = {'indexFilePath': ':memory:'}
    if not case['raw'] and case['f']['kind'] in FILES:
        options.update(FILES[case['f']['kind']].open_options(case['f']['o']))
    if lone:
        ms = ctx.keep(open_mount_source(target, **options))
        check(view.names_of(ms.list('/')) == ['lone'], '%r next to %s shows %s', opened, sorted(names), view.names_of(ms.list('/')))
    elif case['raw']:
        ms = ctx.keep(open_mount_source(target, **options))
        check(view.names_of(ms.list('/')) == [base], 'joined file %r shows %s', opened, view.names_of(ms.list('/')))
        check_reads(ms, '/' + base, joined, case['reads'])
    else:
        fmt = case['f']
        extension = {**{k: v.ext for k, v in FILES.items()}, 'tars': '.tar'}.get(fmt['kind']) or compress.CODECS[codec].extensions[0]
        reference = ctx.path('reference' + extension)
        with open(reference, 'wb') as file:
            file.write(payload)
        expected_view = observed(ctx.keep(open_mount_source(reference, **options)), fmt)
        if len(basic(expected_view)) != len(expected_view):
            raise Skip
        actual = observed(ctx.keep(open_mount_source(target, **options)), fmt)
        view.tree_diff(basic(actual), basic(expected_view), what=f"{fmt['kind']} split into {len(expected)} parts")
    ctx.label(case['system'], f"width {case['width']}", how, case['open'], 'raw' if case['raw'] else case['f']['kind'], *case['strays'])
    ctx.label('parts ' + ('1' if len(expected) < 2 else '2' if len(expected) == 2 else '3-9' if len(expected) < 10 else '10+'))
    ctx.nontrivial(len(expected) >= 3 or (len(expected) == 2 or lone) and case['strays'])


@st.composite
def recursive_cases(draw):
    case = {
        'splits': [split_cases(draw, raw_only=draw(st.integers(0, 3)) > 0) for _ in range(draw(st.integers(1, 3)))],
        'folders': draw(st.lists(st.sampled_from(['', 'd', 'd/e', 'ä']), min_size=3, max_size=3)),
        'outer': draw(st.sampled_from(['folder', 'folder', 'tar', 'zip', 'tar in folder', 'zip in tar', 'tar in zip'])),
        'strip': draw(st.booleans()),
        'lazy': draw(st.booleans()), 'order': draw(st.integers(0, 99)),
        'reads': draw(reads()),
    }
    return case


def run_recursive(case, ctx):
    from checks.C07 import open_recursive, touch

    tree, expected = {}, {}
    for i, split in enumerate(case['splits']):
        split = {**split, 'base': f"{i}{split['base']}" if case['strip'] and split['raw'] is False else f"{i}{split['base'].replace('.tar', '').replace('.zip', '').replace('.gz', '')}"}
        if not split['raw'] and split['f']['kind'] != 'tars':
            split['raw'], split['c'] = True, ['p', 5000, i]
        if split['system'] == 'alpha' and split['width'] == 1:
            split['width'] = 2
        split['strays'] = [s for s in split['strays'] if s not in ('none', 'other')]
        payload, entries, first = produce_parts(split, ctx, f'payload{i}')
        folder = case['folders'][i]
        prefix = folder + '/' if folder else ''
        parts = sequence(extensions(entries, split['base']), split['base'], first[len(split['base']) + 1 :])
        for name, data in entries.items():
            tree[prefix + name] = data
        joined = b''.join(entries[n] for n in parts)
        if len(parts) > 1:
            expected[prefix + first] = (joined, split, payload == joined)
        others = sequence(extensions(entries, split['base']), split['base'], number(1, DIGITS[split['system']], split['width']))
        if others and others != parts:
            raise Skip
    if not expected:
        raise Skip
    # Names might collide in other ways when suffixes are removed.
    if case['strip'] and any(p.rsplit('.', 1)[0] in tree for p in expected):
        raise Skip
    folder = ctx.path('folder')
    outer = case['outer'].split(' in ')
    inside = ''
    current = folder
    if outer[0] == 'folder':
        write_folder(current, tree)
    else:
        pack(outer[0], current := ctx.path('inner.' + outer[0]), tree)
        if len(outer) > 1:
            with open(current, 'rb') as file:
                data = file.read()
            os.unlink(current)
            inside = '/sub/inner' if case['strip'] else '/sub/inner.' + outer[0]
            wrapped = {'sub/inner.' + outer[0]: data}
            if outer[1] == 'folder':
                write_folder(current := folder, wrapped)
            else:
                pack(outer[1], current := ctx.path('outer.' + outer[1]), wrapped)
    ms = open_recursive(current, recursionDepth=9, stripRecursiveTarExtension=case['strip'], lazyMounting=case['lazy'], indexFilePath=':memory:')
    ms = ctx.keep(ms)
    if case['lazy']:
        touch(ms, case['order'], ctx)
    for path, (joined, split, complete) in expected.items():
        base = os.path.basename(path).rsplit('.', 1)[0]
        top = inside + '/' + (path.rsplit('.', 1)[0] if case['strip'] else path)
        name = base if case['strip'] else os.path.basename(path)
        info = ms.lookup(top)
        check(info is not None and stat.S_ISDIR(info.mode), '%r is not mounted', top)
        if not split['raw'] and case['strip'] and base.endswith('.tar'):
            if complete:
                names = view.names_of(ms.list(top))
                check(names == [base[:-4]], '%r shows %s', top, names)
                reference = ctx.path('reference.tar')
                with open(reference, 'wb') as file:
                    file.write(joined)
                from ratarmountcore.mountsource.factory import open_mount_source

                wanted = {p: e for p, e in observed(ctx.keep(open_mount_source(reference, indexFilePath=':memory:')), split['f']).items() if p != '/'}
                root = top + '/' + base[:-4]
                actual = {p[len(root) :]: e for p, e in view.snapshot(ms, root).items() if p != root}
                view.tree_diff(basic(actual), basic(wanted), what=f'split TAR at {top!r}')
                ctx.label('archive')
            continue
        names = view.names_of(ms.list(top))
        check(names == [name], '%r shows %s', top, names)
        check_reads(ms, top + '/' + name, joined, case['reads'])
    # What is no first part must still be there.
    firsts = set(expected)
    for path, data in tree.items():
        extension = path.rsplit('.', 1)[-1]
        if path in firsts or data is None or extension.strip('0') == '1' or extension.isalpha() or extension.strip('0') == '':
            continue
        if data.startswith(b'stray ') or not path.endswith(('.tar', '.zip', '.gz', '.sqlite')):
            info = ms.lookup(inside + '/' + path)
            if info is not None and not stat.S_ISDIR(info.mode):
                view.equal_bytes(view.read_all(ms, info), data, repr(path))
            else:
                check(case['strip'], '%r is missing', path)
    ctx.label(case['outer'], 'strip' if case['strip'] else 'keep', 'lazy' if case['lazy'] else 'eager')
    ctx.nontrivial(any(len(j) > 1 for j, _, _ in expected.values()))


def write_folder(folder, tree):
    os.makedirs(folder)
    for path, data in tree.items():
        target = os.path.join(folder, path)
        if data is None:
            os.makedirs(target, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(target), exist_ok=True)
        with open(target, 'wb') as file:
            file.write(data)


def pack(kind, path, tree):
    import io
    import tarfile
    import zipfile

    if kind == 'zip':
        with zipfile.ZipFile(path, 'w') as archive:
            for name, data in tree.items():
                archive.writestr(name + ('/' if data is None else ''), data or b'')
        return
    with tarfile.open(path, 'w') as archive:
        for name, data in tree.items():
            member = tarfile.TarInfo(name)
            member.mode = 0o755 if data is None else 0o644
            if data is None:
                member.type = tarfile.DIRTYPE
            else:
                member.size = len(data)
            archive.addfile(member, io.BytesIO(data or b''))


SUBS = [Sub('folder', folder_cases, run_folder, 500, 30000), Sub('recursive', recursive_cases, run_recursive, 400, 20000)]
