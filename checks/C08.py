"""C08: every version of a file stays reachable, in order."""
import os
import zipfile

from hypothesis import strategies as st

from vp import gen, tars, view
from vp.core import Sub, check

ID = 'C08'
TECHNIQUE = 'property-based testing: generated archives with many equally named members and unions of them against a list of versions per path'
RULE = """
TARs, ZIPs and folders with few names, among them names like a.versions and 1, so that most paths have many versions (files, links, hard
links, folders), alone, in a union of up to four, or mounted recursively. For every path the number of versions, each version by its
number (counted from both ends) and through the special versions folder (also below versions of parent folders) must be those of the model;
versions folders must not be listed and must not shadow real entries; invalid numbers and versions of absent paths must be absent.
Non-trivial: some path has at least three versions.
"""
NOTE = 'Hard links always show the last version of their target, so that targets with several versions are not generated. Folders without a member count as one version.'

NAMES = ['a', 'a', 'a', 'b', 'b', 'c/a', 'c/a', 'c', 'c/b', 'a.versions', 'b.versions/1', 'c/a.versions', 'c.versions/1/a', 'd/1', 'd/e/a',
         'd/e', '1', 'd.versions', 'd/.versions', '.versions', 'a.versions.versions', 'ä.versions', 'ä', 'd/e/a.versions/2', 'b.versions.b']  # fmt: skip
TARGETS = ['t1', 'd/t2']


@st.composite
def source_cases(draw):
    kind = draw(st.sampled_from(['tar', 'tar', 'tar', 'zip', 'folder']))
    members = []
    few = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=6))
    for _ in range(draw(st.integers(3, 14))):
        member = {
            'name': draw(st.sampled_from(few)), 't': draw(st.sampled_from(['file'] * 6 + ['dir', 'sym', 'hard', 'self'])),
            'seed': draw(st.integers(0, 9)), 'size': draw(st.sampled_from([0, 1, 5, 600, 1025])), 'target': draw(st.integers(0, 1)),
        }  # fmt: skip
        members.append(member)
    return {'kind': kind, 'members': members, 'fmt': draw(st.sampled_from(['ustar', 'gnu', 'pax']))}


@st.composite
def cases(draw):
    return {
        'sources': draw(st.one_of(st.lists(source_cases(), min_size=1, max_size=1), st.lists(source_cases(), min_size=1, max_size=4))),
        'nested': draw(st.booleans()), 'index': draw(st.sampled_from([':memory:', 'file', 'reuse'])),
        'depth': draw(st.sampled_from([0, 1, 2, 1024])),
    }  # fmt: skip


def plan(source, number):
    """Returns the members in order as (path, entry, member) such that the archive has an unambiguous meaning."""
    result, kinds, count = [], {}, {}
    kind = source['kind']
    if kind == 'tar' and any(m['t'] == 'hard' for m in source['members']):
        extra = [{'name': t, 't': 'file', 'seed': 77, 'size': 10 + i, 'target': 0} for i, t in enumerate(TARGETS)]
    else:
        extra = []
    for i, member in enumerate(extra + source['members']):
        path, t = '/' + member['name'], member['t']
        if kind == 'zip' and t != 'file':
            continue
        if t in ('hard', 'self') and kind != 'tar':
            continue
        own = 'dir' if t == 'dir' else 'other'
        if kinds.get(path, own) != own or any(kinds.get(p) == 'other' for p in gen.parents_of(path)):
            continue
        if own == 'other' and any(p.startswith(path + '/') for p in kinds):
            continue
        if kind == 'folder' and path in count:
            continue
        entry = {'type': 'file' if t in ('hard', 'self') else t}
        if t == 'self':
            # A hard link to the previous version of the same file
            versions = [e for p, e, _ in result if p == path]
            if len(versions) != 1 or versions[0]['type'] != 'file':
                continue
            entry = versions[0]
        elif t == 'hard':
            target = '/' + TARGETS[member['target']]
            entry = next((e for p, e, _ in result if p == target), None)
            if entry is None:
                continue
        elif t == 'file':
            entry['data'] = b'%d %d %d ' % (number, i, member['seed']) + gen.data(['p', member['size'], member['seed']])
        elif t == 'sym':
            entry['link'] = f'{number}/{i}'
        kinds[path] = own
        for p in gen.parents_of(path):
            kinds.setdefault(p, 'dir')
        count[path] = count.get(path, 0) + 1
        result.append((path, entry, member))
    return result


def write(source, path, planned):
    kind = source['kind']
    if kind == 'folder':
        for name, entry, _ in planned:
            real = path + name
            os.makedirs(os.path.dirname(real), exist_ok=True)
            if entry['type'] == 'dir':
                os.makedirs(real, exist_ok=True)
            elif entry['type'] == 'sym':
                os.symlink(entry['link'], real)
            else:
                with open(real, 'wb') as file:
                    file.write(entry['data'])
        return
    if kind == 'zip':
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with zipfile.ZipFile(path, 'w') as archive:
                for name, entry, _ in planned:
                    archive.writestr(name[1:], entry['data'])
        return
    members = []
    for name, entry, member in planned:
        item = {'name': name[1:], 't': entry['type'], 'fmt': source['fmt'], 'mode': 0o644, 'uid': 0, 'mtime': 5}
        if member['t'] == 'self':
            item.update(t='hard', link=name[1:])
        elif member['t'] == 'hard':
            item.update(t='hard', link=TARGETS[member['target']])
        elif entry['type'] == 'file':
            item['c'] = entry['data']
        elif entry['type'] == 'sym':
            item['link'] = entry['link']
        members.append(item)
    with open(path, 'wb') as file:
        file.write(gen.tar_bytes(members))


def history_of(planned):
    tree = {'/': [{'type': 'dir'}]}
    for path, entry, _ in planned:
        tree.setdefault(path, []).append(entry)
    for path in list(tree):
        for parent in gen.parents_of(path):
            tree.setdefault(parent, [{'type': 'dir'}])
    return tree


def same(ms, info, entry, what):
    check(info is not None, '%s is missing', what)
    kind = view.ftype(info.mode)
    check(kind == entry['type'], '%s: type %s instead of %s', what, kind, entry['type'])
    if kind == 'sym':
        check(info.linkname == entry['link'], '%s: link %r instead of %r', what, info.linkname, entry['link'])
    elif kind == 'file':
        view.equal_bytes(view.read_all(ms, info), entry['data'], what)
        check(info.size == len(entry['data']), '%s: size %s instead of %s', what, info.size, len(entry['data']))


def absent(ms, path):
    check(ms.lookup(path) is None, '%r can be looked up', path)
    check(not ms.exists(path), '%r exists', path)
    check(ms.list(path) is None, '%r can be listed', path)
    check(ms.list_mode(path) is None, '%r can be listed', path)


def build(case, ctx):
    """Returns the mount source and {path: [entry of version 1, ...]}."""
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.compositing.union import UnionMountSource
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    from ratarmountcore.mountsource.factory import open_mount_source

    histories, opened = [], []
    prefix = ''
    sources = case['sources'][:1] if case['nested'] else case['sources']
    for number, source in enumerate(sources):
        planned = plan(source, number)
        if not planned:
            continue
        if case['nested'] and source['kind'] == 'folder':
            continue
        path = ctx.path(f"{number}.{source['kind']}")
        options = {'indexFilePath': path + '.index' if case['index'] != ':memory:' else ':memory:'}
        if source['kind'] == 'folder':
            os.makedirs(path)
            options = {}
        write(source, path, planned)
        if case['nested']:
            os.makedirs(ctx.path('outer'))
            prefix = '/n.' + source['kind']
            os.rename(path, ctx.path('outer') + prefix)
            opened.append(AutoMountLayer(open_mount_source(ctx.path('outer')), writeIndex=False, recursive=True))
        else:
            if case['index'] == 'reuse' and options:
                with open_mount_source(path, **options):
                    pass
            opened.append(open_mount_source(path, **options))
        histories.append(history_of(planned))
    if not opened:
        return None, {}, prefix
    if len(opened) > 1:
        ms = UnionMountSource(opened, maxCacheDepth=case['depth'], maxSecondsToCache=60 if case['depth'] else 0)
    else:
        ms = opened[0]
    ctx.keep(ms)
    model = {}
    for history in histories:
        for path, entries in history.items():
            model.setdefault(path, []).extend(entries)
    # Below something that is not a folder nothing is defined.
    for path in list(model):
        if any(model[p][-1]['type'] != 'dir' for p in gen.parents_of(path)):
            del model[path]
    return FileVersionLayer(ms), model, prefix


def run(case, ctx):
    ms, model, prefix = build(case, ctx)
    if ms is None:
        return
    base = view.below_versions(ms)
    children = {}
    for path in model:
        if path != '/':
            children.setdefault(os.path.dirname(path), set()).add(os.path.basename(path))
    for path, versions in model.items():
        if path == '/':
            names = set(view.names_of(ms.list(prefix or '/')))
            check(names == children.get('/', set()), 'root lists %s instead of %s', names, children.get('/'))
            continue
        full = prefix + path
        count = ms.versions(full)
        check(count == len(versions), '%r has %s versions instead of %s', full, count, len(versions))
        same(ms, ms.lookup(full), versions[-1], f'{full!r}')
        for number, entry in enumerate(versions, 1):
            for version in (number, number - len(versions)):
                info = base.lookup(full, version)
                # Only the versions layer resolves hard links.
                if info is None or view.ftype(info.mode) != 'none':
                    same(base, info, entry, f'version {version} of {full!r}')
        check(base.lookup(full, len(versions) + 1) is None, 'version %s of %r exists', len(versions) + 1, full)
        if versions[-1]['type'] == 'dir':
            for listing in (ms.list(full), ms.list_mode(full)):
                names = set(view.names_of(listing))
                check(names == children.get(path, set()), '%r lists %s instead of %s', full, names, children.get(path))

        special = full + '.versions'
        if path + '.versions' in model:
            same(ms, ms.lookup(special), model[path + '.versions'][-1], f'real {special!r}')
            continue
        info = ms.lookup(special)
        check(info is not None and view.ftype(info.mode) == 'dir', 'no versions folder for %r', full)
        names = list(view.names_of(ms.list(special)))
        check(sorted(names, key=int) == [str(i + 1) for i in range(len(versions))], '%r lists %s', special, names)
        forms = [special]
        parent = os.path.dirname(path)
        if parent != '/' and parent + '.versions' not in model:
            for number in (1, len(model[parent])):
                forms.append(f'{prefix}{parent}.versions/{number}/{os.path.basename(path)}.versions')
        for form in forms:
            for number, entry in enumerate(versions, 1):
                old = f'{form}/{number}'
                same(ms, ms.lookup(old), entry, repr(old))
                if entry['type'] == 'dir' and versions[-1]['type'] == 'dir':
                    check(
                        set(view.names_of(ms.list(old) or [])) == children.get(path, set()), '%r lists something else than %r', old, full,
                    )  # fmt: skip
            for name in ['0', str(len(versions) + 1), '-1', '01', '+1', ' 1', '1 ', 'x', '1_0', '\u0661', '1.versions']:
                absent(ms, f'{form}/{name}')
            # Versions of files contain nothing.
            if all(v['type'] != 'dir' for v in versions):
                absent(ms, f'{form}/1/a')
        if path + '.versions.versions' not in model:
            absent(ms, special + '.versions')
    for path in ['/none.versions', '/none.versions/1', '/c/none.versions', '/c/none.versions/0', '/none/a.versions']:
        absent(ms, prefix + path)
    if prefix == '' and '/.versions' not in model:
        absent(ms, '/.versions')
    most = max(len(v) for v in model.values())
    ctx.label(f'up to {most} versions', f"{len(case['sources'])} sources", 'nested' if prefix else 'not nested')
    if any(p.endswith('.versions') or '.versions/' in p for p in model):
        ctx.label('real entries named like versions folders')
    ctx.nontrivial(most >= 3)


SUBS = [Sub('versions', cases, run, 1200, 60000)]
