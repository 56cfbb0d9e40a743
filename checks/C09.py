"""C09: union mounts merge folders and let the last source win."""
import os
import stat

from hypothesis import strategies as st

from vp import formats, gen, images, view
from vp.core import Sub, check

ID = 'C09'
TECHNIQUE = 'property-based testing: generated unions of archives and folders against the merge of the individually mounted sources, with all kinds of lookup caches'
RULE = """
Two to five sources of all kinds (folders, TAR, ZIP, SQLAR, ASAR, 7z, SquashFS, and unions and recursively mounted folders of these) with
trees over few names, so that files, links and folders collide, are merged with different lookup cache settings. For every path that any
source has, and for paths that none has, lookup, listings, existence, versions, contents and extended attributes of the union must be
those of the last source which has the path, and those of the older ones in order, where the sources are mounted a second time on their
own to say so. Then files in the mounted folders are created, changed and removed, and everything is compared again. Non-trivial: a path
exists with different types or contents in two sources.
"""
NOTE = 'Below a path that the winning source shows as a file nothing is compared. Paths through symbolic links in folders are not requested.'

SOURCES = {f.name: f for f in [formats.TAR, formats.ZIP, formats.SQLAR, formats.ASAR, formats.SEVENZIP, images.SQUASHFS, formats.FOLDER, formats.Tar('gz')]}
KINDS = ['folder'] * 3 + ['tar'] * 3 + ['zip'] * 2 + sorted(set(SOURCES) - {'folder', 'tar', 'zip'})
PATHS = ['a', 'b', 'c', 'a/a', 'a/b', 'b/a', 'c/c', 'a/a/a', 'a/a/b', 'b/c/a', 'a/b/c/d', 'ä', 'ä/b']


@st.composite
def tree_cases(draw):
    few = draw(st.lists(st.sampled_from(PATHS), min_size=2, max_size=9, unique=True))
    nodes = []
    for path in few:
        kind = draw(st.sampled_from(['file', 'file', 'file', 'dir', 'sym']))
        node = {'t': kind, 'p': path, 'mode': draw(st.sampled_from([0o644, 0o600, 0o755, 0o711])), 'mtime': draw(st.sampled_from([1, 2**30, 1234567890]))}
        if kind == 'file':
            node['c'] = draw(gen.contents(2000))
        elif kind == 'sym':
            node['link'] = draw(st.sampled_from(['missing', '/nonexistent/x', 'gone/y']))
        nodes.append(node)
    return nodes


@st.composite
def cases(draw):
    sources = []
    for _ in range(draw(st.integers(2, 5))):
        name = draw(st.sampled_from(KINDS))
        sources.append({'format': name, 'tree': draw(tree_cases()), 'o': draw(SOURCES[name].options())})
    changes = draw(
        st.lists(
            st.tuples(
                st.integers(0, 9), st.sampled_from(['write', 'write', 'remove', 'mkdir', 'replace']), st.sampled_from(PATHS), gen.contents(100)
            ).map(list),
            max_size=5,
        )
    )  # fmt: skip
    return {
        'sources': sources, 'changes': changes,
        'caches': draw(
            st.lists(
                st.tuples(st.sampled_from([0, 1, 2, 3, 1024]), st.sampled_from([0, 1, 2, 5, 100000]), st.sampled_from([0, 60, 60, 60])).map(list),
                min_size=1, max_size=3,
            )
        ),
        'group': draw(st.integers(0, 5)), 'recursive': draw(st.booleans()), 'again': draw(st.booleans()),
    }  # fmt: skip


FIELDS = ('type', 'perm', 'mtime', 'uid', 'gid', 'link', 'size', 'data', 'xattrs')


def model_of(snapshots):
    """{path: [entry per source having it, in order]}; None for everything below something that is not a folder"""
    model = {}
    for snapshot in snapshots:
        for path, entry in snapshot.items():
            # Folders without an entry in the archive may have any modification time.
            model.setdefault(path, []).append({**entry, 'mtime': entry['mtime'] if entry['mtime'] < 1.5e9 else None})
    hidden = {path for path in model if path != '/' and any(model[p][-1]['type'] != 'dir' for p in gen.parents_of(path))}
    return model, hidden


def mount(source, path, recursive):
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.factory import open_mount_source

    ms = open_mount_source(path, writeIndex=False)
    return AutoMountLayer(ms, recursive=True, writeIndex=False) if recursive and source['format'] in ('folder', 'tar') else ms


def compare(ms, model, hidden, links, what):
    children = {}
    for path in model:
        if path != '/' and path not in hidden:
            children.setdefault(os.path.dirname(path), set()).add(os.path.basename(path))
    for path, versions in sorted(model.items()):
        if path in hidden:
            continue
        top = versions[-1]
        info = ms.lookup(path)
        check(info is not None, '%s: %r cannot be looked up', what, path)
        check(ms.exists(path), '%s: %r does not exist', what, path)
        if path != '/':
            view.tree_diff({path: view.entry(ms, path, info, xattrs=True)}, {path: top}, fields=FIELDS, what=what)
            count = ms.versions(path)
            check(count == len(versions), '%s: %r has %s versions instead of %s', what, path, count, len(versions))
            for number, entry in enumerate(versions, 1):
                for version in (number, number - len(versions)):
                    old = ms.lookup(path, version)
                    check(old is not None, '%s: version %s of %r is missing', what, version, path)
                    view.tree_diff({path: view.entry(ms, path, old, xattrs=True)}, {path: entry}, fields=FIELDS, what=f'{what}: version {version}')
            for version in (len(versions) + 1, -len(versions)):
                check(ms.lookup(path, version) is None, '%s: version %s of %r exists', what, version, path)
            if top['type'] == 'file':
                data = top['data']
                middle = len(data) // 2
                view.equal_bytes(ms.read(ms.lookup(path), 10, middle), data[middle : middle + 10], f'{what}: part of {path!r}')
        check(ms.is_dir(path) == (top['type'] == 'dir'), '%s: is_dir(%r) is wrong', what, path)
        # Links to folders are followed when listing real folders.
        if top['type'] != 'dir' or path in links:
            continue
        listing, modes = ms.list(path), ms.list_mode(path)
        for which in (listing, modes):
            check(which is not None, '%s: %r cannot be listed', what, path)
            names = view.names_of(which)
            check(
                sorted(names) == sorted(children.get(path, ())), '%s: %r lists %s instead of %s', what, path, sorted(names),
                sorted(children.get(path, ())),
            )  # fmt: skip
        for name in children.get(path, ()):
            child = model[view.join(path, name)][-1]
            if isinstance(listing, dict):
                listed = listing[name]
                got = {'type': view.ftype(listed.mode), 'mtime': listed.mtime, 'uid': listed.uid, 'perm': stat.S_IMODE(listed.mode)}
                if child['type'] == 'file':
                    got['size'] = listed.size
                view.tree_diff({name: got}, {name: {k: child[k] for k in got}}, what=f'{what}: listing of {path!r}')
            if isinstance(modes, dict):
                kind = view.ftype(modes[name])
                check(kind == child['type'], '%s: %r is listed as %s instead of %s', what, view.join(path, name), kind, child['type'])
    for path in PATHS + ['x', 'a/x', 'x/y', 'a/b/c/d/e']:
        path = '/' + path
        if path in model or any(model.get(p, [{'type': 'dir'}])[-1]['type'] != 'dir' for p in gen.parents_of(path)):
            continue
        if any(p in links for p in gen.parents_of(path)):
            continue
        check(
            ms.lookup(path) is None and not ms.exists(path) and not ms.versions(path) and ms.list(path) is None, '%s: %r exists', what, path,
        )  # fmt: skip


def run(case, ctx):
    from ratarmountcore.mountsource.compositing.union import UnionMountSource

    sources, snapshots, unions, roots = [], [], [], []
    for number, source in enumerate(case['sources']):
        fmt = SOURCES[source['format']]
        path = ctx.path(f'{number}{fmt.ext}')
        made = fmt.make(path, source['tree'], source['o'])
        if not made or not made[0]:
            continue
        sources.append((source, path))
    if len(sources) < 2:
        return

    def everything():
        result = []
        for source, path in sources:
            with mount(source, path, case['recursive']) as single:
                result.append(view.snapshot(single, xattrs=True))
        return result

    snapshots = everything()
    links = {p for s in snapshots for p, e in s.items() if e['type'] == 'sym'}
    model, hidden = model_of(snapshots)
    # What a union in a union shows below something that is not a folder is not defined.
    group = case['group'] if not model_of(snapshots[: case['group']])[1] else 0
    for depth, entries, seconds in case['caches']:
        opened = [mount(source, path, case['recursive']) for source, path in sources]
        options = {'maxCacheDepth': depth, 'maxCacheEntries': entries, 'maxSecondsToCache': seconds}
        if 2 <= group < len(opened):
            opened = [UnionMountSource(opened[:group], **options), *opened[group:]]
        unions.append((f'cache of depth {depth} with {entries} entries', ctx.keep(UnionMountSource(opened, **options))))

    conflicts = [p for p, v in model.items() if len({(e['type'], e.get('data')) for e in v}) > 1 and p not in hidden]
    for what, union in unions:
        compare(union, model, hidden, links, what)
        if case['again']:
            compare(union, model, hidden, links, what + ' again')

    folders = [path for source, path in sources if source['format'] == 'folder']
    changed = 0
    for which, how, path, content in case['changes']:
        if not folders:
            break
        real = os.path.join(folders[which % len(folders)], path)
        try:
            if how in ('write', 'replace'):
                os.makedirs(os.path.dirname(real), exist_ok=True)
                with open(real, 'wb') as file:
                    file.write(gen.data(content))
                os.utime(real, (5, 5))
            elif how == 'mkdir':
                os.makedirs(real)
            elif os.path.isdir(real) and not os.path.islink(real):
                formats.remove_tree(real)
            else:
                os.remove(real)
            changed += 1
        except OSError:
            pass
    if changed:
        snapshots = everything()
        if group and model_of(snapshots[:group])[1]:
            return
        links = {p for s in snapshots for p, e in s.items() if e['type'] == 'sym'}
        model, hidden = model_of(snapshots)
        for what, union in unions:
            compare(union, model, hidden, links, what + ' after changes')
        ctx.label('changed folder')
    ctx.label(f'{len(sources)} sources', *['with ' + s['format'] for s, _ in sources])
    if any(len({e['type'] for e in v}) > 1 for p, v in model.items() if p not in hidden):
        ctx.label('conflicting types')
    if hidden:
        ctx.label('hidden paths')
    ctx.nontrivial(bool(conflicts))


SUBS = [Sub('unions', cases, run, 550, 40000)]
