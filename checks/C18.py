"""C18: path transformation renames paths and nothing else."""
import os
import posixpath
import re

from hypothesis import strategies as st

from vp import formats, gen, images, tars, view
from vp.core import Sub, Skip, check

ID = 'C18'
TECHNIQUE = 'property-based testing, metamorphic: transformed mount against the mount of an archive written with the transformed names'
RULE = """
A random archive (TARs with versions, links, hard links, sparse files, attributes; ZIP, 7z, CPIO, AR, ASAR, SquashFS, ISO 9660, XAR) is
mounted with a random path transformation (replaced characters, joined or stripped components, prefixes, suffixes, groups, everything that
makes different names equal, no match at all), with an index in memory, created on disk, or loaded. The same members are written again,
under names to which Python's re.sub was applied, and that archive is mounted without transformation. Paths, types, contents, all metadata,
link targets, hard link targets, number and order of versions must be the same. Non-trivial: at least one of two names changes.
"""
NOTE = (
    'The expressions do not depend on whether paths begin or folders end with a slash because this differs between the formats. Members of TARs in '
    'TARs are not generated: their paths are transformed together with the already transformed path of the TAR, and there is no documented meaning.'
)

FORMATS = {
    f.name: f for f in [formats.ZIP, formats.SEVENZIP, formats.CPIO, formats.AR, formats.ASAR, formats.ISO, formats.XAR, images.SQUASHFS, formats.Tar('gz')]
}  # fmt: skip
EXPLICIT = ['iso9660', 'xar', 'squashfs', 'asar']  # All folders have entries.
PATTERNS = [
    (r'[ab]', 'x'), (r'a', 'aa'), (r'\d', ''), (r'\d', ''), (r'\d+', r'<\g<0>>'), (r'(?P<v>[aeiou1])', r'\g<v>\g<v>'), (r'([^/])/([^/])', r'\1_\2'),
    (r'([^/]+)(/?)$', r'\1.x\2'), (r'^(/*)', r'\1prefix/deep/'), (r'^(/*)([^/]+)/([^/])', r'\1\3'), (r'(?s)[^/]+(/?)$', r'same\1'), (r'(?i)A', 'ä'),
    (r'does not match', 'y'), (r'b/', 'b//./'), (r'([^/])([^/])', r'\2\1'), (r'a|b', r'..'), (r'([^/]+)/(\w)', r'\2/\1'), (r'ä', 'a'), (r' ', ''), (r'.\b', '\\\\'),
    (r'([^/])/', r'\1/../'), (r'[^/]+/([^/])', r'\1'),
]  # fmt: skip
NAMES = ['a1', 'a2', 'a', 'b1/x1', 'b2/x1', 'b1/x2', 'b', 'b1', 'c/a1', 'c/a2', 'c/b1/a1', 'c/b2/a2', 'ä', 'Aa1', 'd 1/a', 'd1/a', '1']


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['tars'] * 7 + sorted(FORMATS)))
    case = {'kind': kind, 'pattern': draw(st.sampled_from([*range(len(PATTERNS)), 2, 2, 2, 3, 3, 10, 10, 21]))}
    if kind == 'tars':
        items = draw(st.lists(tars.members(maximum=3000), min_size=1, max_size=10))
    else:
        case['o'] = {**draw(FORMATS[kind].options()), 'dirs': False}
        items = draw(formats.trees(maximum=3000, size=10))
    for item in items:
        item.pop('dot', None)
        if draw(st.integers(0, 3)):
            item['name' if kind == 'tars' else 'p'] = draw(st.sampled_from(NAMES))
    case['items'] = items
    case['index'] = draw(st.sampled_from(['memory', 'create', 'load', 'load']))
    case['via'] = draw(st.sampled_from(['path', 'path', 'file']))
    return case


def renamed(path, folder, pattern):
    """The path shown for a member, or None if that depends on the slashes around it."""
    results = {
        '/' + posixpath.normpath('/' + re.sub(pattern[0], pattern[1], variant)).lstrip('/')
        for variant in {f'{front}{path}{back}' for front in ('', '/') for back in (['', '/'] if folder else [''])}
    }
    return results.pop() if len(results) == 1 else None


def rename_tar(members, pattern):
    """Returns the members that still describe a tree when they are renamed, before and after that."""
    result = []
    for i, member in enumerate(members):
        name = renamed(member['name'], member['t'] == 'dir', pattern)
        if name in (None, '/'):
            continue
        member = {**member, 'name': name[1:], 'id': i}
        if 'sparse' in member:
            member['sparse'] = {**member['sparse'], 'last': 0}  # It was already added.
        if member['t'] == 'hard':
            member['link'] = renamed(member['link'], False, pattern)[1:]
        result.append(member)
    legal = {m['id']: m for m in tars.legalize([{**m, 't': 'file', 'c': ['p', 0, 0]} if m['t'] == 'hard' else m for m in result])}
    result = [{**m, 'fmt': legal[m['id']]['fmt']} if m['t'] == 'hard' else legal[m['id']] for m in result if m['id'] in legal]
    # Hard links must have one possible target.
    names = [posixpath.normpath(m['name']) for m in result]
    while bad := [m for m in result if m['t'] == 'hard' and (names.count(m['link']) != 1 or names.count(m['name']) != 1)]:
        result.remove(bad[0])
        names = [posixpath.normpath(m['name']) for m in result]
    return [members[m['id']] for m in result], result


def rename_tree(fmt, tree, options, pattern):
    result = []
    for i, node in enumerate(tree):
        name = renamed(node['p'], node['t'] == 'dir', pattern)
        if name not in (None, '/'):
            result.append({**node, 'p': name[1:], 'id': i})
    wanted = {n['id']: n['p'] for n in result}
    result = [n for n in fmt.legal(result, options) if n['p'] == wanted[n['id']]]
    members = [tree[n['id']] for n in result]
    if fmt.name in EXPLICIT and any(len(formats.with_parents(t)) != len(t) for t in (members, result)):
        raise Skip
    return members, result


def attributes(ms):
    """With extended attributes and all versions."""
    result = view.snapshot(ms, xattrs=True, versions=True)
    for entry in result.values():
        for version in [entry, *entry.get('history', [])]:
            if version['type'] == 'dir' and version['mtime'] > 1.7e9:  # The current time for folders without entry
                version['mtime'] = None
    return result


def run(case, ctx):
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    from ratarmountcore.mountsource.factory import open_mount_source

    kind, pattern = case['kind'], PATTERNS[case['pattern']]
    options = {}
    if kind == 'tars':
        extension = '.tar'
        members = tars.legalize(case['items'])
        members, new = rename_tar(members, pattern)
        write = lambda path, m: open(path, 'wb').write(gen.tar_bytes(m))  # noqa: E731, SIM115
        key = 'name'
    else:
        fmt = FORMATS[kind]
        extension = fmt.ext
        members = fmt.legal(case['items'], case['o'])
        if kind in EXPLICIT:
            members = formats.with_parents(members)
        if kind == 'iso9660' and renamed('.', True, pattern) != '/':
            raise Skip  # The root folder has an entry.
        members, new = rename_tree(fmt, members, case['o'], pattern)
        write = lambda path, m: fmt.write(path, m, case['o'])  # noqa: E731
        options = fmt.open_options(case['o'])
        key = 'p'
    if not new:
        raise Skip
    path, reference = ctx.path('archive' + extension), ctx.path('reference' + extension)
    write(path, members)
    write(reference, new)
    for p in (path, reference):
        os.utime(p, (1e9, 1e9))

    expected = attributes(ctx.keep(FileVersionLayer(open_mount_source(reference, writeIndex=False, **options))))
    options = {**options, 'transform': tuple(pattern), 'writeIndex': case['index'] != 'memory', 'indexMinimumFileCount': 0}
    if case['index'] != 'memory':
        options['indexFilePath'] = ctx.path('index.sqlite')
    for _ in range(2 if case['index'] == 'load' else 1):
        source = path
        if case['via'] == 'file':
            source = ctx.stack.enter_context(open(path, 'rb'))
            options['tarFileName'] = os.path.basename(path)
        with open_mount_source(source, **options) as ms:
            view.tree_diff(attributes(FileVersionLayer(ms)), expected, what=f'{kind} transformed with {pattern}')
    changed = sum(1 for a, b in zip(members, new) if a[key] != b[key])
    before, after = len({m[key] for m in members}), len({m[key] for m in new})
    ctx.label(kind, case['index'], 'changed' if changed else 'unchanged', 'equal names' if after < before else 'distinct names', f"pattern {case['pattern']}")
    ctx.nontrivial(changed and len(members) > 1)


SUBS = [Sub('archives', cases, run, 900, 60000)]
