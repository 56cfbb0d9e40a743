"""C21: committing an overlay makes the archive equal to the overlaid view."""
import builtins
import contextlib
import io
import os
import stat
import tempfile
from unittest import mock

from hypothesis import strategies as st

from checks import C20
from vp import gen, view
from vp.core import Sub, check

ID = 'C21'
TECHNIQUE = 'property-based testing: generated sequences of changes through a write overlay, committed, and the archive mounted alone'
RULE = """
An uncompressed TAR (names with and without './' or '/' in front, odd names, repeated members) is mounted with a write overlay, gets a generated
sequence of operations (as in C20), and is committed. Mounting the TAR alone, read with a new index, must show the paths, types, contents, and
link targets that were seen before committing; no name of the overlay's bookkeeping may be in the TAR as listed by Python's tarfile; the overlay
folder stays as it is; no temporary files stay. Any other answer than 'commit', or nothing to commit, leaves the TAR byte for byte. Compressed
archives are refused and not changed. Non-trivial: the view changed, and something that is in the archive was deleted or replaced.
"""
ASSUMES = [
    'Members are not hard links: deleting the target of a hard link in the archive would leave the link without contents.',
    'The archive still has at least one member afterwards; TARs without any member are refused by design.',
    'Committing needs GNU tar, which is what the code requires.',
]
ODD = ['b', 'b', 'b', '-b', '*', 'a\\nb', 'a\nb', ' b ', '[b]', '?', "'b'", '--null', 'b\\', '@b', '\\101', 'long' * 40]



@st.composite
def cases(draw):
    case = draw(C20.cases())
    case['operations'] = [o for o in case['operations'] if o[0] not in ('hold', 'use', 'drop')]
    return {
        'members': case['members'], 'operations': case['operations'], 'odd': draw(st.sampled_from(ODD)),
        'prefix': draw(st.sampled_from(['', '', './', '/'])), 'again': draw(st.lists(st.integers(0, 7), max_size=2)),
        'answer': draw(st.sampled_from(['commit'] * 8 + ['', 'y', 'Commit', 'commit '])), 'slash': draw(st.booleans()),
        'name': draw(st.sampled_from(['archive.tar', 'archive.tar', 'host:archive.tar', '-a b.tar', 'archive'])), 'fmt': draw(st.sampled_from(['pax', 'gnu'])),
        'twice': draw(st.booleans()), 'relative': draw(st.booleans()), 'record': draw(st.sampled_from([0, 10240])),
    }  # fmt: skip


def view_of(mounted):
    return {
        path: {'type': view.ftype(e['mode']), 'data': e.get('data'), 'link': e.get('link')} for path, e in mounted.tree().items()
    }  # fmt: skip


def apply(mounted, operations, odd, original):
    """Applies the operations and returns the number of applied ones and whether the archive's contents were concerned."""

    def odd_path(path):
        return '/'.join(odd if name == 'b' else name for name in path.split('/'))

    def plain_path(path):
        return '/'.join('b' if name == odd else name for name in path.split('/'))

    done, concerned = 0, False
    for number, (name, *arguments) in enumerate(operations):
        tree = {plain_path(p): e for p, e in mounted.tree().items()}
        if name == 'remount':
            mounted.remount()
            continue
        for i in range(2 if name in ('rename', 'link') else 1):
            if isinstance(arguments[i], int):
                arguments[i] = C20.pick(name, arguments[i], tree, i == 1, {plain_path(p) for p in original})
        links = {p for p, e in tree.items() if stat.S_ISLNK(e['mode'])}
        if any(p in links for argument in arguments[: 2 if name in ('rename', 'link') else 1] for p in C20.ancestors(argument)):
            continue
        kind = stat.S_IFMT(tree[arguments[0]]['mode']) if arguments[0] in tree else None
        if name in ('create', 'write', 'truncate', 'chmod') and kind in (stat.S_IFLNK, stat.S_IFIFO):
            continue
        for i in range(2 if name in ('rename', 'link') else 1):
            arguments[i] = odd_path(arguments[i])
        with contextlib.suppress(OSError):
            if name == 'create':
                mounted.create(arguments[0], arguments[1], gen.data(arguments[2]))
            elif name == 'write':
                path, flag, offset, size, _ = arguments
                handle = mounted.open(path, os.O_WRONLY | (os.O_TRUNC if flag == 'trunc' else 0))
                mounted.write(path, handle, gen.data(['p', size + 1, number]), offset)
                mounted.close(path, handle)
            elif name == 'mknod':
                mounted.mknod(arguments[0], arguments[1] | stat.S_IFIFO)
            else:
                getattr(mounted, name)(*arguments)
            done += 1
            concerned = concerned or any(a in original for a in arguments if isinstance(a, str))
    return done, concerned


def commit(overlay, tar, answer):
    from ratarmount.WriteOverlay import commit_overlay

    output, asked = io.StringIO(), []

    def respond(*_):
        asked.append(True)
        return answer

    with mock.patch.object(builtins, 'input', respond), contextlib.redirect_stdout(output):
        commit_overlay(overlay, tar)
    check(len(asked) <= 1, 'asked %s times', len(asked))
    return bool(asked)


def snapshot(root):
    result = {}
    for folder, folders, files in os.walk(os.fsencode(root)):
        for name in folders + files:
            path = os.path.join(folder, name)
            info = os.lstat(path)
            data = os.readlink(path) if stat.S_ISLNK(info.st_mode) else content(path) if stat.S_ISREG(info.st_mode) else None
            result[path] = (info.st_mode, info.st_uid, info.st_gid, info.st_mtime_ns, data)
    return result


def content(path):
    with open(path, 'rb') as file:
        return file.read()


def names_in(path):
    import tarfile

    with tarfile.open(path) as file:
        return [member.name for member in file]


def run(case, ctx):
    from ratarmount.FuseMount import FuseMount

    members, _kinds = C20.legal(case['members'])
    odd = case['odd']
    if case.get('parents', True):
        # Folders without a member vanish when everything in them is deleted, see known/C21-implicit-folder.json.
        described = {'/' + m['name'] for m in members}
        for path in sorted({p for m in members for p in C20.ancestors('/' + m['name'])} - described, reverse=True):
            members.insert(0, {'t': 'dir', 'name': path[1:], 'mode': 0o755, 'mtime': 5, 'fmt': 'gnu'})
    for member in members:
        member['name'] = case['prefix'] + '/'.join(odd if name == 'b' else name for name in member['name'].split('/'))
        # GNU tar cannot append long names to ustar archives, see known/C21-ustar-long-name.json.
        member['fmt'] = 'gnu' if len(odd) > 90 and case.get('parents', True) else case['fmt']
    members += [{**members[i % len(members)], **({'c': ['p', 50, i]} if members[i % len(members)]['t'] == 'file' else {})} for i in case['again'] if members]
    members.append({'t': 'file', 'name': 'kept', 'c': b'kept', 'mode': 0o644, 'mtime': 1, 'fmt': 'gnu'})
    os.mkdir(ctx.path('work'))
    tar = ctx.path('work', case['name'])
    with open(tar, 'wb') as file:
        file.write(gen.tar_bytes(members, record=case['record']))
    original = content(tar)
    overlay, mount_point = ctx.path('overlay'), ctx.path('mp')
    os.mkdir(mount_point)
    temporary = ctx.path('tmp')
    os.mkdir(temporary)
    ctx.stack.enter_context(mock.patch.object(tempfile, 'tempdir', temporary))
    previous_folder = os.getcwd()
    ctx.stack.callback(os.chdir, previous_folder)
    if case['relative']:
        os.chdir(ctx.path('work'))

    def new(paths=(tar,), write=overlay):
        options = {'writeOverlay': write} if write else {}
        return FuseMount(list(paths), mount_point, indexFilePath=':memory:', **options)

    mounted = C20.Mounted(new)
    ctx.stack.callback(lambda: mounted.mount and mounted.mount._close())
    before = view_of(mounted)
    done = concerned = 0
    rounds = 2 if case['twice'] and case['answer'] == 'commit' else 1
    for number in range(rounds):
        operations = case['operations'][number::2] if rounds == 2 else case['operations']
        applied, touched = apply(mounted, operations, odd, set(before))
        done, concerned = done + applied, concerned or touched
        expected = view_of(mounted)
        mounted.mount._close()
        mounted.mount = None
        C20.gc.collect()

        kept = snapshot(overlay)
        asked = commit(overlay + ('/' if case['slash'] else ''), case['name'] if case['relative'] else tar, case['answer'])
        check(os.listdir(temporary) == [], 'temporary files are left: %s', os.listdir(temporary))
        check(snapshot(overlay) == kept, 'the overlay folder was changed')
        if not asked or case['answer'] != 'commit':
            check(content(tar) == original, 'the archive was changed without confirmation')
            # Changes of metadata of something in the archive are not committed.
            check(asked or expected == before, 'nothing to commit although the view has changed')
            ctx.label('nothing' if not asked else 'not confirmed')
            break
        if not expected:
            ctx.label('emptied')
            break
        hidden = [name for name in names_in(tar) if os.path.basename(name).startswith('.ratarmount.overlay') and '/' not in name.strip('./')]
        check(not hidden, 'bookkeeping in the archive: %s', hidden)
        alone = C20.Mounted(lambda: new(write=''))
        ctx.stack.callback(lambda mount=alone: mount.mount._close())
        view.tree_diff(view_of(alone), expected, what='archive after committing')
        ctx.label('committed')
        # The overlay must still give the same view on top of the new archive.
        mounted.mount = new()
        view.tree_diff(view_of(mounted), expected, what='archive with overlay after committing')
    ctx.nontrivial(expected != before and concerned and done >= 2)


@st.composite
def refused_cases(draw):
    return {'kind': draw(st.sampled_from(['gz', 'bz2', 'xz', 'zst', 'zip', 'missing', 'folder', 'no overlay'])), 'name': draw(st.sampled_from(['a.tar', 'a', 'a.tar.x']))}


def run_refused(case, ctx):
    import bz2
    import gzip
    import lzma
    import zipfile

    import zstandard
    from ratarmountcore.utils import RatarmountError

    from vp.core import Violation

    path, overlay = ctx.path(case['name']), ctx.path('overlay')
    os.mkdir(overlay)
    with open(os.path.join(overlay, 'new'), 'w') as file:
        file.write('new')
    data = gen.tar_bytes([{'t': 'file', 'name': 'a', 'c': b'a' * 1000, 'mode': 0o644, 'mtime': 1, 'fmt': 'gnu'}])
    kind = case['kind']
    compress = {'gz': gzip.compress, 'bz2': bz2.compress, 'xz': lzma.compress, 'zst': zstandard.ZstdCompressor().compress}.get(kind)
    if kind == 'zip':
        with zipfile.ZipFile(path, 'w') as file:
            file.writestr('a', b'a')
    elif kind == 'folder':
        os.mkdir(path)
    elif kind != 'missing':
        with open(path, 'wb') as file:
            file.write(compress(data) if compress else data)
    before = snapshot(ctx.path(''))
    try:
        commit(overlay if kind != 'no overlay' else overlay + 'x', path, 'commit')
    except RatarmountError:
        pass
    else:
        raise Violation(f'committing is not refused for {kind}')
    check(snapshot(ctx.path('')) == before, 'files were changed although committing to %s was refused', kind)
    ctx.label(kind)
    ctx.nontrivial()


SUBS = [Sub('commit', cases, run, 250, 15000), Sub('refused', refused_cases, run_refused, 16, 100)]
