"""C11: non-TAR archives show exactly what they contain."""
import io
import os
import random
import subprocess

from hypothesis import strategies as st

from checks.C01 import INDEX_OPTIONS, open_ms
from vp import formats, gen, view
from vp.core import Sub, check

ID = 'C11'
TECHNIQUE = 'property-based testing: generated ZIP/7z/CPIO/AR/ASAR/SQLAR/RAR archives against the generating tree'
RULE = """
'archives': a random tree (odd names, symbolic links where the format has them, repeated members in ZIP, odd sizes) is written as
ZIP (stored, deflate, bzip2, LZMA; streamed or not; ZIP64; with or without folder entries), 7z (several filters), CPIO (newc, crc, odc, bin), AR
(GNU, BSD, plain, made by ar), ASAR, SQLAR (compressed, plain, mixed), or RAR (3 and 5, stored) and mounted from a path or a file object; the view must equal the tree.
Files are read in a random order and then again. 'many': the same with 990 to 3300 further nodes. 'libarchive': ZIP and 7z with the libarchive backend, ISO 9660 and XAR. 'tools': a real tree
archived with zip or 7z. Non-trivial: at least two files with content and at least one folder level.
"""
ASSUMES = [
    'ZIP times are stored without a time zone; they are compared as UTC, which is what the code documents.',
    'Names with decomposed Unicode characters are not used with libarchive which composes them.',
    'Owners are compared only where the format stores them (AR).',
]
FORMATS = {f.name: f for f in [formats.ZIP, formats.SEVENZIP, formats.CPIO, formats.AR, formats.ASAR, formats.SQLAR, formats.RAR]}


@st.composite
def archive_cases(draw, names=tuple(FORMATS)):
    case = draw(formats.formatted({n: FORMATS[n] for n in names}))
    case['via'] = draw(st.sampled_from(['path', 'path', 'fileobj', 'bytesio']))
    case['index'] = draw(st.sampled_from(sorted(INDEX_OPTIONS)))
    case['order'] = draw(st.integers(0, 9))
    case['name'] = draw(st.booleans())
    return case


def open_case(case, ctx, fmt, **options):
    path = ctx.path('archive' + (fmt.ext if case.get('name', True) else ''))
    tree, expected = fmt.make(path, case['tree'], case['o'])
    if expected is None:
        return None, None, None
    options = {**INDEX_OPTIONS[case['index']], **fmt.open_options(case['o']), **options}
    if case['via'] == 'path':
        source = path
    elif case['via'] == 'fileobj':
        source = open(path, 'rb')
        ctx.stack.callback(source.close)
    else:
        with open(path, 'rb') as file:
            source = io.BytesIO(file.read())
    return tree, expected, ctx.keep(open_ms(source, **options))


def reread(ms, expected, seed):
    """Opens the files in a random order, several at the same time."""
    files = sorted(p for p, e in expected.items() if e['type'] == 'file')
    rng = random.Random(seed)
    rng.shuffle(files)
    handles = []
    for path in files:
        handle = ms.open(ms.lookup(path))
        handles.append((path, handle))
        if len(handles) > 2:
            path, handle = handles.pop(rng.randrange(len(handles)))
            with handle:
                view.equal_bytes(handle.read(), expected[path]['data'], f'{path!r} read in another order')
    for path, handle in handles:
        with handle:
            view.equal_bytes(handle.read(), expected[path]['data'], f'{path!r} read in another order')


def notable(tree):
    return sum(n['t'] == 'file' and n['c'][1] > 0 for n in tree) >= 2 and any('/' in n['p'] for n in tree)


def run_archives(case, ctx):
    case = formats.with_bulk(case)
    fmt = FORMATS[case['format']]
    tree, expected, ms = open_case(case, ctx, fmt)
    if ms is None:
        return
    view.tree_diff(view.snapshot(ms), expected, what=f"mounted {case['format']}")
    reread(ms, expected, case['order'])
    ctx.label(case['format'], f"{case['format']} {case['o'].get('variant', '')}", 'via ' + case['via'])
    if any(n['t'] == 'sym' for n in tree):
        ctx.label(case['format'] + ' with links')
    ctx.nontrivial(notable(tree) or (fmt is formats.AR and len(tree) >= 2))


# --- libarchive -----------------------------------------------------------------------------------------------------

LIBARCHIVE = {f.name: f for f in [formats.ZIP, formats.SEVENZIP, formats.ISO, formats.XAR]}


@st.composite
def libarchive_cases(draw):
    case = draw(formats.formatted(LIBARCHIVE))
    case['via'] = draw(st.sampled_from(['path', 'fileobj', 'bytesio']))
    case['index'] = draw(st.sampled_from(sorted(INDEX_OPTIONS)))
    case['order'] = draw(st.integers(0, 9))
    return case


def run_libarchive(case, ctx):
    case = formats.with_bulk(case)
    fmt = LIBARCHIVE[case['format']]
    if 'method' in case['o']:
        case = {**case, 'o': {**case['o'], 'method': [m for m in case['o']['method'] if m != 'lzma'] or ['deflated']}}
    case = {**case, 'tree': formats.legal(case['tree'], allow=formats.composed, duplicates=True)}
    case['tree'] = [n for n in case['tree'] if formats.composed(n.get('link') or '')]
    tree, expected, ms = open_case(case, ctx, fmt, prioritizedBackends=['libarchive'])
    if ms is None:
        return
    view.tree_diff(
        view.snapshot(ms), expected, fields=('type', 'size', 'data', 'link'), what=f"{case['format']} with libarchive",
    )  # fmt: skip
    reread(ms, expected, case['order'])
    ctx.label(case['format'])
    ctx.nontrivial(notable(tree))


# --- command line tools ---------------------------------------------------------------------------------------------


@st.composite
def tool_cases(draw):
    return {
        'tool': draw(st.sampled_from(['zip', '7z', '7z-zip'])),
        'tree': draw(formats.trees(kinds=('file', 'file', 'file', 'dir', 'sym'))),
        'level': draw(st.sampled_from(['0', '1', '9'])),
        'solid': draw(st.booleans()), 'backend': draw(st.sampled_from(['', 'libarchive'])),
        'via': 'path', 'index': draw(st.sampled_from(sorted(INDEX_OPTIONS))), 'order': draw(st.integers(0, 9)),
    }  # fmt: skip


def run_tools(case, ctx):
    tool = case['tool']
    kinds = ('file', 'dir', 'sym') if tool == 'zip' else ('file', 'dir')
    tree = formats.legal(
        case['tree'], kinds=kinds,
        # zip and 7z do not mark names in ZIPs as UTF-8, which leaves their meaning open.
        allow=lambda s: (formats.composed(s) if tool == '7z' else s.isascii()) and len(s.encode()) < 200 and not any(c in s for c in '\\:*?"<>|[]\n\x01')
        and s.strip(' .') == s and not s.startswith(('-', '@')),
    )  # fmt: skip
    tree = [n for n in tree if formats.composed(n.get('link') or '')]
    tree = [{**n, 'mode': n['mode'] | 0o600 | (0o100 if n['t'] == 'dir' else 0)} for n in tree]
    if not any(n['t'] != 'dir' for n in tree):
        return
    root = ctx.path('tree')
    formats.make_real(root, tree)
    path = ctx.path('a.' + tool.split('-')[-1])
    if tool == 'zip':
        command = ['zip', '-q', '-r', '-y', '-' + case['level'], path, '.']
    else:
        command = ['7z', 'a', '-bd', f"-t{tool.split('-')[-1]}", '-mx=' + case['level'], '-mtc=on', path, '.']
        if tool == '7z':
            command.insert(3, '-ms=' + ('on' if case['solid'] else 'off'))

    result = subprocess.run(command, cwd=root, capture_output=True, env={**os.environ, 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'})
    assert result.returncode == 0, (command, result)
    expected = formats.view_of(formats.with_parents(tree))
    backend = {'prioritizedBackends': [case['backend']]} if case['backend'] else {}
    ms = ctx.keep(open_ms(path, **INDEX_OPTIONS[case['index']], **backend))
    view.tree_diff(view.snapshot(ms), expected, fields=('type', 'size', 'data', 'link'), what='archive made by ' + tool)
    reread(ms, expected, case['order'])
    ctx.label(tool)
    ctx.nontrivial(notable(tree))


SUBS = [
    Sub('archives', archive_cases, run_archives, 500, 40000),
    Sub('libarchive', libarchive_cases, run_libarchive, 120, 10000),
    Sub('many', lambda: formats.many(archive_cases(), formats.COUNTS), run_archives, 24, 2000),
    Sub('many-libarchive', lambda: formats.many(libarchive_cases(), formats.COUNTS), run_libarchive, 10, 800),
    Sub('tools', tool_cases, run_tools, 100, 6000),
]
