"""C13: listing, lookup, existence, versions and contents agree."""
import io
import os

from hypothesis import strategies as st

from checks.C01 import INDEX_OPTIONS
from vp import formats, gen, images, tars, view
from vp.core import Sub, check

ID = 'C13'
TECHNIQUE = 'property-based testing: invariants over every path and derived absent paths of generated sources and stacks of layers'
RULE = """
A generated archive, image, repository, folder, or compressed single file of any supported kind (TARs with everything C01 has and with paths that
are a file and a folder) is mounted through its mount source alone or below a random stack of layers (file versions, recursive mounting eager or
lazy, union with another source, subvolume, removed prefix). Starting from the root everything that is listed is visited. For each path: exists,
lookup, is_dir, versions >= 1 and being listed agree; list and list_mode give the same names for folders and None for others; types in
listings equal types from lookup; reading gives exactly size bytes, also piecewise through read(); all numbered versions exist and one more does not;
a missing leading slash makes no difference. Paths that are derived from existing ones (suffixes, prefixes, below files, other case) and are not
listed are absent everywhere. Non-trivial: at least five paths, one of them in a folder.
"""
NOTE = 'Layers are in the order in which ratarmount uses them: recursive mounting below all others and file versions on top. Hard links are listed without a type, which is resolved by lookup. Repeated slashes are only normalized by the FUSE layer.'

KINDS = {
    **{f.name: f for f in formats.ARCHIVES.values()},
    **{f.name: f for f in [formats.ISO, formats.XAR, formats.FOLDER, images.SQUASHFS, images.FAT, images.EXT4, images.GIT]},
}
CHOICES = ['tars'] * 4 + ['single'] + sorted(KINDS)
LAYERS = ['union', 'union', 'union under', 'subvolumes', 'prefix']


def sources(draw):
    kind = draw(st.sampled_from(CHOICES))
    if kind == 'tars':
        return {'kind': kind, 'members': draw(st.lists(tars.members(maximum=3000), min_size=1, max_size=12)), 'conflicts': draw(st.booleans())}
    if kind == 'single':
        return {
            'kind': kind, 'c': draw(gen.contents(5000).filter(lambda c: c[1] > 0)), 'codec': draw(st.sampled_from(['gz', 'bz2', 'xz'])),
            'name': draw(st.sampled_from(['x', 'a b.txt', 'ü.bin', '.hidden'])),
        }  # fmt: skip
    return {'kind': kind, 'o': draw(KINDS[kind].options()), 'tree': draw(formats.trees(maximum=3000, long=True, size=12))}


@st.composite
def cases(draw):
    return {
        'sources': [sources(draw) for _ in range(draw(st.sampled_from([1, 1, 2])))],
        'nested': draw(st.booleans()), 'layers': draw(st.sampled_from([[], [], ['auto'], ['lazy'], ['strip']])) + draw(st.lists(st.sampled_from(LAYERS), max_size=2))
        + draw(st.sampled_from([[], ['version']])),
        'index': draw(st.sampled_from(sorted(INDEX_OPTIONS))), 'via': draw(st.sampled_from(['path', 'path', 'fileobj'])),
        'folder-index': draw(st.booleans()),
    }  # fmt: skip


def build(source, ctx, number):
    """Writes an archive. Returns path and options to open it, or None."""
    kind = source['kind']
    if kind == 'tars':
        members = tars.legalize(source['members'], conflicts=source['conflicts'])
        if not members:
            return None
        path = ctx.path(f'{number}.tar')
        with open(path, 'wb') as file:
            file.write(gen.tar_bytes(members))
        return path, {}
    if kind == 'single':
        path = ctx.path(f"{source['name']}.{source['codec']}")
        with open(path, 'wb') as file:
            file.write(formats.COMPRESSORS[source['codec']](gen.data(source['c'])))
        return path, {}
    fmt = KINDS[kind]
    path = ctx.path(f'{number}{fmt.ext}')
    _, expected = fmt.make(path, source['tree'], source['o'])
    return None if expected is None else (path, fmt.open_options(source['o']))


def open_source(path, source, options, case, ctx):
    from ratarmountcore.mountsource.factory import open_mount_source

    if source['kind'] == 'git':
        from ratarmountcore.mountsource.formats.git import GitMountSource

        return GitMountSource(path, reference=images.GIT.reference(source['o']))
    options = {**INDEX_OPTIONS[case['index']], **options}
    if source['kind'] == 'folder':
        return open_mount_source(path, forceFolderIndex=case['folder-index'], **options)
    if case['via'] == 'path':
        return open_mount_source(path, **options)
    file = open(path, 'rb')
    ctx.stack.callback(file.close)
    return open_mount_source(file, tarFileName=os.path.basename(path), **options)


def stacked(case, ctx):
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.compositing.removeprefix import RemovePrefixMountSource
    from ratarmountcore.mountsource.compositing.singlefile import SingleFileMountSource
    from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource
    from ratarmountcore.mountsource.compositing.union import UnionMountSource
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer

    opened = []
    for number, source in enumerate(case['sources']):
        built = build(source, ctx, number)
        if built is None:
            continue
        path, options = built
        if case['nested'] and os.path.isfile(path):
            # The archive inside of a TAR, ZIP, or folder, so that recursive mounting has something to do.
            with open(path, 'rb') as file:
                data = file.read()
            tree = [{'t': 'file', 'p': 'deep/' + os.path.basename(path), 'mode': 0o644, 'mtime': 1234567890}]
            outer = ctx.path(f'outer{number}.tar')
            import tarfile

            with tarfile.open(outer, 'w') as archive:
                info = tarfile.TarInfo(tree[0]['p'])
                info.size, info.mtime = len(data), 1234567890
                archive.addfile(info, io.BytesIO(data))
                other = tarfile.TarInfo('other')
                other.size = 5
                archive.addfile(other, io.BytesIO(b'other'))
            opened.append((open_source(outer, {'kind': 'outer'}, {}, case, ctx), options))
        else:
            opened.append((open_source(path, source, options, case, ctx), options))
    if not opened:
        return None, []
    ms, options = opened[0]
    rest = [m for m, _ in opened[1:]]
    used = []
    for layer in case['layers']:
        if layer == 'version':
            ms = FileVersionLayer(ms)
        elif layer in ('auto', 'lazy', 'strip'):
            ms = AutoMountLayer(
                ms, recursive=True, lazyMounting=layer == 'lazy', stripRecursiveTarExtension=layer == 'strip',
                **{**INDEX_OPTIONS[case['index']], **options},
            )  # fmt: skip
        elif layer in ('union', 'union under'):
            other = rest.pop() if rest else SingleFileMountSource('added', io.BytesIO(b'some contents'))
            ms = UnionMountSource([ms, other] if layer == 'union' else [other, ms])
        elif layer == 'subvolumes':
            volumes = {'one': ms}
            if rest:
                volumes['two'] = rest.pop()
            ms = SubvolumesMountSource(volumes)
        elif layer == 'prefix':
            names = view.names_of(ms.list('/'))
            prefix = next((n for n in sorted(names) if ms.is_dir('/' + n)), None)
            if prefix is None:
                continue
            ms = RemovePrefixMountSource('/' + prefix, ms)
        used.append(layer)
    for other in rest:
        ctx.keep(other)
    return ctx.keep(ms), used


def probes(path):
    base = path.rstrip('/')
    yield base + '/no such'
    yield base + '/.'  + 'x'
    yield base + '/no/such/thing'
    yield base + ' ' if base else '/ '
    yield base + 'x' if base else '/x y'
    if len(base) > 2:
        yield base[:-1]
        yield base.swapcase()
        yield base.replace('/', '') if base.count('/') > 1 else base + '%'
        yield '/*' + base[2:]


def absent(ms, path):
    for spelled in [path, path.lstrip('/')]:
        check(ms.lookup(spelled) is None, 'lookup finds %r which is not listed', spelled)
        check(not ms.exists(spelled), 'exists is true for %r which is not listed', spelled)
        check(not ms.is_dir(spelled), 'is_dir is true for %r which is not listed', spelled)
        check(ms.list(spelled) is None, '%r can be listed but is not listed in its parent folder', spelled)
        check(ms.list_mode(spelled) is None, '%r can be listed (list_mode) but is not listed in its parent folder', spelled)
        check(ms.versions(spelled) == 0, '%s versions of %r which is not listed', ms.versions(spelled), spelled)


def key(info):
    return (info.mode, info.size, info.mtime, info.linkname, info.uid, info.gid) if info is not None else None


def consistent(ms, path, used):
    """Checks one existing path. Returns its children or None."""
    info = ms.lookup(path)
    check(info is not None, '%r is listed but cannot be looked up', path)
    kind = view.ftype(info.mode)
    # Only the layer for file versions resolves hard links.
    check(kind != 'none' or (info.linkname and 'version' not in used), '%r has no type', path)
    check(ms.exists(path), 'exists is false for %r', path)
    check(ms.is_dir(path) == (kind == 'dir'), 'is_dir of %r, which has type %s, is %s', path, kind, ms.is_dir(path))
    versions = ms.versions(path)
    check(versions >= 1, '%r has %s versions', path, versions)

    if path != '/':
        bare = ms.lookup(path.lstrip('/'))
        check(bare is not None, '%r is found but not without the leading slash', path)
        generated = kind == 'dir'
        check(
            (key(bare) if not generated else view.ftype(bare.mode)) == (key(info) if not generated else kind),
            '%r: lookup without leading slash gives %s instead of %s', path, bare, info,
        )  # fmt: skip
        check(ms.exists(path.lstrip('/')) and ms.versions(path.lstrip('/')) == versions, '%r differs without leading slash', path)

    listing, modes = ms.list(path), ms.list_mode(path)
    if kind != 'dir':
        check(listing is None, '%r has type %s but can be listed: %s', path, kind, listing)
        check(modes is None, '%r has type %s but can be listed with list_mode: %s', path, kind, modes)
    else:
        check(listing is not None, 'folder %r cannot be listed', path)
        check(modes is not None, 'folder %r cannot be listed with list_mode', path)
        names = view.names_of(listing)
        check(len(set(names)) == len(names), 'duplicate names in %r: %s', path, names)
        check(sorted(names) == sorted(view.names_of(modes)), 'list and list_mode of %r differ: %s and %s', path, names, modes)
        for spelled in [path + '/', path.lstrip('/')] if path != '/' else ['']:
            other = ms.list(spelled)
            check(other is not None and sorted(view.names_of(other)) == sorted(names), 'listing of %r differs from %r', spelled, path)
        if 'lazy' in used:
            # Archives are listed as files until they are accessed.
            for name in names:
                ms.lookup(view.join(path, name))
            listing, modes = ms.list(path), ms.list_mode(path)
            check(
                sorted(names) == sorted(view.names_of(listing)) == sorted(view.names_of(modes)), 'listing of %r changed from %s to %s',
                path, names, listing,
            )  # fmt: skip
        for name in names:
            check(name and '/' not in name and name not in ('.', '..'), 'bad name %r in listing of %r', name, path)
            child = ms.lookup(view.join(path, name))
            check(child is not None, '%r is listed in %r but cannot be looked up', name, path)
            types = [listing[name].mode] if isinstance(listing, dict) else []
            types += [modes[name]] if isinstance(modes, dict) else []
            for mode in types:
                check(
                    view.ftype(mode) in (view.ftype(child.mode), 'none'), 'type of %r in %r: listed as %s but lookup says %s',
                    name, path, view.ftype(mode), view.ftype(child.mode),
                )  # fmt: skip
            if isinstance(listing, dict) and view.ftype(listing[name].mode) == 'file':
                check(listing[name].size == child.size, 'size of %r in %r: listed as %s but lookup says %s', name, path, listing[name].size, child.size)
        return [view.join(path, name) for name in names]

    if kind == 'file':
        with ms.open(info) as file:
            data = file.read()
        check(len(data) == info.size, 'reading %r gives %s bytes but its size is %s', path, len(data), info.size)
        for offset, size in [(0, 1), (info.size // 2, 100), (max(0, info.size - 3), 10), (info.size + 5, 3)]:
            part = ms.read(info, size, offset)
            view.equal_bytes(part, data[offset : offset + size], f'{path!r} read at {offset}')
    return None


def old_versions(ms, path):
    below = view.below_versions(ms)
    count = below.versions(path)
    latest = below.lookup(path)
    if view.ftype(latest.mode) == 'dir':
        return
    for version in range(1, count + 1):
        info = below.lookup(path, version)
        check(info is not None, 'version %s of %s of %r cannot be looked up', version, count, path)
        if view.ftype(info.mode) == 'file':
            with below.open(info) as file:
                size = len(file.read())
            check(size == info.size, 'version %s of %r has %s bytes but its size is %s', version, path, size, info.size)
    check(below.lookup(path, count + 1) is None, '%r has %s versions but version %s can be looked up', path, count, count + 1)
    if view.ftype(latest.mode) == 'file':
        check(key(below.lookup(path, count)) == key(latest), 'the last version of %r is not the shown one', path)


def run_consistency(case, ctx):
    ms, used = stacked(case, ctx)
    if ms is None:
        return
    seen, todo = set(), ['/']
    while todo:
        path = todo.pop()
        check(len(seen) < 3000, 'more than 3000 paths')
        seen.add(path)
        todo += consistent(ms, path, used) or []
    plain = not any(u in ('union', 'union under', 'subvolumes', 'prefix', 'auto', 'lazy', 'strip') for u in used)
    for path in sorted(seen):
        for probe in probes(path):
            if probe in seen or {'', '.', '..'} & set(probe[1:].split('/')):
                continue
            if not ('version' in used and '.versions' in probe):
                absent(ms, probe)
        if plain and path != '/':
            old_versions(ms, path)
    for source in case['sources']:
        ctx.label(source['kind'])
    ctx.label(*['layer ' + u for u in used], 'nested' if case['nested'] else 'plain')
    ctx.nontrivial(len(seen) >= 5 and any(p.count('/') > 1 for p in seen))


SUBS = [Sub('consistency', cases, run_consistency, 700, 60000)]
