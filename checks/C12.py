"""C12: file system images and Git repositories show exactly their files."""
import io
import random

from hypothesis import strategies as st

from checks.C01 import INDEX_OPTIONS, open_ms
from checks.C11 import notable, reread
from vp import formats, gen, images, view
from vp.core import Sub, check

ID = 'C12'
TECHNIQUE = 'property-based testing: generated SquashFS/FAT/EXT4 images and Git repositories against the generating tree'
RULE = """
A random tree is written as SquashFS (mksquashfs; all compressors, block sizes, fragment/sparse/padding options), FAT12/16/32 (own writer: long
and short names, shuffled cluster chains, deleted entries, volume label, garbage in slack space), EXT4 (own writer: several groups, extent trees
up to depth two and more, holes, unwritten extents, fast and slow symbolic links, multi-block folders) or as a commit in a Git repository (packed or loose objects;
default branch, other branch, tag, hash). The mounted view must equal the tree; absent paths must be absent; files are read again in random order with
random seeks. Non-trivial: at least two non-empty files and a folder.
"""
ASSUMES = [
    'FAT stores local times; the checks run in another time zone than UTC. FAT and Git have no permissions to compare.',
    'No mkfs tools for EXT4 and FAT are installed; images come from writers in vp/images.py that follow the format documentation.',
]
FORMATS = {f.name: f for f in [images.SQUASHFS, images.FAT, images.EXT4, images.GIT]}


@st.composite
def cases(draw):
    name = draw(st.sampled_from(['squashfs', 'squashfs', 'squashfs', 'fat', 'fat', 'ext4', 'ext4', 'ext4', 'git']))
    fmt = FORMATS[name]
    return {
        'format': name, 'o': draw(fmt.options()),
        'tree': draw(formats.trees(maximum=draw(st.sampled_from([5000, 30000, 200000])), long=True, size=14)),
        'via': draw(st.sampled_from(['path', 'path', 'fileobj', 'bytesio'])),
        'index': draw(st.sampled_from(sorted(INDEX_OPTIONS))), 'order': draw(st.integers(0, 9)), 'name': draw(st.booleans()),
    }  # fmt: skip


def run_images(case, ctx):
    case = formats.with_bulk(case)
    fmt = FORMATS[case['format']]
    path = ctx.path('image' + (fmt.ext if case['name'] else ''))
    tree, expected = fmt.make(path, case['tree'], case['o'])
    if expected is None:
        return
    if fmt is images.GIT:
        from ratarmountcore.mountsource.formats.git import GitMountSource

        ms = ctx.keep(GitMountSource(path, reference=fmt.reference(case['o'])))
    else:
        source = path
        if case['via'] != 'path':
            file = open(path, 'rb')
            ctx.stack.callback(file.close)
            source = file if case['via'] == 'fileobj' else io.BytesIO(file.read())
        ms = ctx.keep(open_ms(source, **INDEX_OPTIONS[case['index']]))
    view.tree_diff(view.snapshot(ms), expected, what='mounted ' + case['format'])
    reread(ms, expected, case['order'])
    absent(ms, expected, tree)
    ctx.label(case['format'], f"{case['format']} {case['o'].get('comp') or case['o'].get('bits') or case['o'].get('reference', '')}")
    if any(n['t'] == 'sym' for n in tree):
        ctx.label(case['format'] + ' with links')
    ctx.nontrivial(notable(tree))


def absent(ms, expected, tree):
    for path in list(expected)[:6]:
        for wrong in [path.rstrip('/') + '/no such', (path + 'x') if path != '/' else '/no-such-entry']:
            if wrong in expected:
                continue
            check(ms.lookup(wrong) is None, 'lookup finds %r', wrong)
            check(not ms.exists(wrong), 'exists is true for %r', wrong)
            check(ms.list(wrong) is None, '%r can be listed', wrong)


SUBS = [
    Sub('images', cases, run_images, 420, 30000),
    Sub('many', lambda: formats.many(cases(), [255, 256, 257, 300, 513, 600, 1001, 1500]), run_images, 10, 1500),
]
