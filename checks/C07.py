"""C07: recursive mounting shows nested archives as folders, exactly."""
import bz2
import gzip
import io
import lzma
import os
import posixpath
import random
import re
import time

from hypothesis import strategies as st

from vp import formats, gen, images, view
from vp.core import Sub, Violation, check

ID = 'C07'
TECHNIQUE = (
    'property-based testing: generated nestings of archives against a model that unfolds the generating forest, and eager against lazy '
    'mounting'
)
RULE = """
A random forest of archives in archives (TAR, compressed TAR, ZIP, 7z, AR, ASAR, SQLAR, CPIO, SquashFS, compressed single files and
compressed ZIPs; up to three levels; in a folder or an archive) with files that only look like archives (garbage behind an archive
extension, truncated headers), archives without or with upper-case extension, is mounted with any recursion depth, with or without
extension stripping or a mount point transformation, eagerly and lazily (touching everything in a random order). The view must be the
model's in both cases, and all attributes, versions and contents must be the same for eager and lazy mounting. Non-trivial: at least one
nested archive lies within the depth.
"""
NOTE = 'Two nested archives with the same mount point, and mount points in folders that do not exist, are not generated. indexed_zstd needs real files, which the code documents, so that Zstandard is left out.'

SINGLE = {k: v for k, v in formats.COMPRESSORS.items() if k}
INNER = {
    f.name: f
    for f in [formats.TAR, formats.Tar('gz'), formats.Tar('bz2'), formats.Tar('xz'), formats.ZIP, formats.SEVENZIP, formats.AR, formats.ASAR,
              formats.SQLAR, formats.CPIO, images.SQUASHFS]
}  # fmt: skip
COMPRESSED_TARS = [f for f in INNER.values() if getattr(f, 'compression', '')]
DECOMPRESSORS = {'gz': gzip.decompress, 'bz2': bz2.decompress, 'xz': lzma.decompress}
OUTER = {**{name: INNER[name] for name in ['tar', 'targz', 'zip', '7z', 'squashfs', 'asar']}, 'folder': formats.FOLDER}


def extension_of(fmt):
    # '.a' counts as a binary and is not mounted by default.
    return '.ar' if fmt is formats.AR else fmt.ext


CHOICES = ['tar'] * 5 + ['targz', 'targz', 'tarbz2', 'tarxz', 'zip', 'zip', 'zip'] + [n for n in INNER if not n.startswith('tar')]
TRANSFORMATIONS = [None, None, None, [r'(?s)^(.*)/([^/]*)$', r'\1/_\2'], [r'\.([^./]*)$', r'-\1'], [r'([^/]+)$', r'\1 mounted']]


def forest(levels, size=5):
    plain = formats.nodes(maximum=3000, depth=2)

    @st.composite
    def one(draw):
        if levels <= 0 or draw(st.integers(0, 2)) == 0:
            return draw(plain)
        node = {
            't': 'arc', 'p': draw(gen.paths(2, True, False)), 'mode': draw(st.sampled_from([0o644, 0o600, 0o755])),
            'mtime': draw(st.sampled_from(formats.TREE_MTIMES)), 'kind': draw(st.sampled_from(['arc'] * 6 + ['bad', 'single'])),
            'ext': draw(st.sampled_from(['own'] * 6 + ['none', 'upper'])),
        }  # fmt: skip
        if node['kind'] == 'bad':
            # Nothing and only zeros count as an empty TAR. A few bytes might be raw deflate data.
            node['c'] = draw(gen.contents(2000).filter(lambda c: c[1] >= 100 and c[0] != 'z'))
            node['like'] = draw(st.sampled_from(['.tar', '.tar', '.zip', '.tar.gz', '.gz', '.7z', '.squashfs', '.rar']))
        elif node['kind'] == 'single':
            node['z'] = draw(st.sampled_from(sorted(SINGLE)))
            node['c'] = draw(gen.contents(2000).filter(lambda c: c[1] > 0))
            node['wrap'] = draw(st.booleans())
        if node['kind'] == 'arc' or node.get('wrap'):
            node['format'] = draw(st.sampled_from(CHOICES if node['kind'] == 'arc' else ['zip', 'asar', 'ar']))
            node['o'] = draw(INNER[node['format']].options())
            node['tree'] = draw(st.lists(forest(levels - 1, 4), min_size=1, max_size=4))
        return node

    return one()


class Archive:
    """A legal tree in some format. data holds the bytes (None for folders and when the format cannot hold anything of the tree)."""

    def __init__(self, ctx, fmt, raw, o, name, path=None):
        self.children = {}
        if o.get('variant') == 'bin':
            o = {**o, 'variant': 'newc'}  # Libarchive looks for ZIPs at the end first because the magic bytes are few.
        nodes = []
        for index, node in enumerate(raw):
            if node['t'] == 'arc':
                node = resolve(ctx, node, f'{name}-{index}')
            nodes.append(node)
        nodes = distinct(formats.legal(nodes))
        target = path or ctx.path(f'{name}.tmp')
        tree, self.view = fmt.make(target, nodes, o)
        self.data = None
        if self.view is None:
            return
        if path is None:
            with open(target, 'rb') as file:
                self.data = file.read()
            os.unlink(target)
        self.children = {'/' + n['p']: n['inner'] for n in tree if n.get('inner')}
        self.compressed = fmt in COMPRESSED_TARS
        if self.compressed:
            with open(path, 'rb') if path else io.BytesIO(self.data) as file:
                self.plain = DECOMPRESSORS[fmt.compression](file.read())


class SingleFile:
    """A compressed file."""

    compressed = False

    def __init__(self, data, inner):
        self.data, self.inner = data, inner

    def named(self, name):
        """Must be called with the name of the compressed file before using view and children."""
        name = '/' + name.rsplit('.', 1)[0]
        self.view = {'/': {'type': 'dir'}, name: {'type': 'file', 'data': self.data, 'size': len(self.data)}}
        self.children = {name: self.inner} if self.inner else {}
        return self


def resolve(ctx, node, name):
    """The node for an archive as a plain file with 'inner' being what it is mounted as."""
    result = {key: node[key] for key in ('mode', 'mtime')}
    result['t'] = 'file'
    base, extension, inner = node['p'], '', None
    if node['kind'] == 'bad':
        return {**result, 'p': base + node['like'], 'c': node['c']}
    if 'format' in node:
        fmt = INNER[node['format']]
        extension = extension_of(fmt)
        inner = Archive(ctx, fmt, node['tree'], node['o'], name)
        if inner.data is None:
            return {**result, 'p': base + extension, 'c': bytes(100)}
        data = inner.data
    else:
        data = gen.data(node['c'])
    if node['kind'] == 'single':
        inner = SingleFile(data, inner)
        data = SINGLE[node['z']](data)
        extension += '.' + node['z']
    if node['ext'] == 'none':
        return {**result, 'p': base + '!', 'c': data}
    if node['ext'] == 'upper' and node['kind'] == 'arc':
        extension = extension.upper()
    return {**result, 'p': base + extension, 'c': data, 'inner': inner}


def distinct(nodes):
    """Drops archives whose possible mount points are not free."""
    taken = {n['p'] for n in formats.with_parents(nodes)}
    result = []
    for node in nodes:
        if 'inner' in node:
            points = {p for p in mount_points(node['p']) if p != node['p']}
            if points & taken:
                continue
            taken |= points
        result.append(node)
    return result


def mount_points(path):
    result = set()
    for strip in (False, True):
        for transformation in TRANSFORMATIONS:
            point = stripped(path) if strip else path
            if transformation:
                point = re.sub(transformation[0], transformation[1], '/' + point).lstrip('/')
            result.add(point)
    return result


def stripped(path):
    lower = path.lower()
    for extension in EXTENSIONS:
        if lower.endswith(extension):
            return path[: -len(extension)]
    return path


EXTENSIONS = sorted({extension_of(f) for f in INNER.values()} | {'.' + e for e in SINGLE}, key=len, reverse=True)


def unfold(archive, case, name, depth=1):
    """The expected view when archives in this one have the given depth. name is that of the archive."""
    if isinstance(archive, SingleFile):
        archive.named(name)
    if archive.compressed:
        # The compression and the TAR in it count separately.
        if case['depth'] is not None and depth > case['depth']:
            return SingleFile(archive.plain, None).named(name).view, 0
        depth += 1
    result = {path: dict(entry) for path, entry in archive.view.items()}
    mounted = 0
    for path, inner in archive.children.items():
        limit = case['depth']
        if limit is not None and depth > limit:
            continue
        point = stripped(path) if case['strip'] else path
        if case['transform']:
            point = '/' + re.sub(case['transform'][0], case['transform'][1], point).lstrip('/')
        mounted += 1
        inside, count = unfold(inner, case, posixpath.basename(path), depth + 1)
        mounted += count
        for sub, entry in inside.items():
            result[point + (sub if sub != '/' else '')] = entry
        # The metadata of the mount point is that of the archive except for the type.
        result[point] = {'type': 'dir', 'mtime': archive.view[path].get('mtime')}
    return result, mounted


def open_recursive(path, **options):
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    from ratarmountcore.mountsource.factory import open_mount_source

    return FileVersionLayer(AutoMountLayer(open_mount_source(path, **options), **options))


def touch(ms, order, ctx):
    """Looks at everything until nothing changes anymore."""
    rng = random.Random(order)
    before = None
    for _ in range(12):
        seen = set()
        stack = ['/']
        while stack:
            path = stack.pop(rng.randrange(len(stack)))
            seen.add(path)
            info = ms.lookup(path)
            check(info is not None, 'listed path %r cannot be looked up', path)
            if view.ftype(info.mode) == 'dir':
                names = view.names_of(ms.list(path) if rng.random() < 0.5 else ms.list_mode(path))
                stack.extend(view.join(path, name) for name in names)
        if seen == before:
            return
        before = seen
    raise Violation('the lazily mounted tree keeps changing')


def timeless(entry, start):
    """Folders that are not stored in the archive may have the time of mounting."""
    for version in [entry, *entry.get('history', [])]:
        if version['type'] == 'dir' and start - 5 <= version['mtime'] <= time.time() + 5:
            version['mtime'] = 'now'


@st.composite
def cases(draw):
    outer = draw(st.sampled_from(sorted(OUTER) + ['tar', 'tar', 'folder']))
    return {
        'outer': outer, 'o': draw(OUTER[outer].options()), 'tree': draw(st.lists(forest(3), min_size=1, max_size=6)),
        'depth': draw(st.sampled_from([None, None, None, 0, 1, 1, 2, 3])), 'strip': draw(st.booleans()),
        'transform': draw(st.sampled_from(TRANSFORMATIONS)), 'order': draw(st.integers(0, 99)),
        'index': draw(st.sampled_from(['memory', 'none', 'folder'])),
    }  # fmt: skip


def run(case, ctx):
    fmt = OUTER[case['outer']]
    path = ctx.path('outer' + fmt.ext)
    archive = Archive(ctx, fmt, case['tree'], case['o'], 'inner', path)
    if archive.view is None:
        return
    expected, mounted = unfold(archive, case, os.path.basename(path))
    options = {}
    if case['depth'] is None:
        options['recursive'] = True
    else:
        options['recursionDepth'] = case['depth']
    options['stripRecursiveTarExtension'] = case['strip']
    if case['transform']:
        options['transformRecursiveMountPoint'] = tuple(case['transform'])
    if case['index'] == 'memory':
        options['indexFilePath'] = ':memory:'
    elif case['index'] == 'none':
        options['writeIndex'] = False
    else:
        os.mkdir(ctx.path('indexes'))
        options.update(writeIndex=True, indexFolders=[ctx.path('indexes')])

    start = time.time()
    eager = ctx.keep(open_recursive(path, **options))
    shown = view.snapshot(eager, xattrs=True, versions=True)
    view.tree_diff(shown, expected, what='recursively mounted')
    lazy = ctx.keep(open_recursive(path, lazyMounting=True, **options))
    touch(lazy, case['order'], ctx)
    shown_lazily = view.snapshot(lazy, xattrs=True, versions=True)
    for path, entry in [*shown.items(), *shown_lazily.items()]:
        timeless(entry, start)
    view.tree_diff(shown_lazily, expected, what='lazily mounted')
    view.tree_diff(shown_lazily, shown, what='lazily and not eagerly mounted')
    for p in expected:
        for ms in (eager, lazy):
            check(ms.lookup(view.join(p, 'absent')) is None, 'absent path below %r can be looked up', p)
    ctx.nontrivial(mounted > 0)
    ctx.label(f"outer {case['outer']}", f'{min(mounted, 5)} nested', f"depth {case['depth']}")


SUBS = [Sub('recursive', cases, run, 500, 8000)]
