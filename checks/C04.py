"""C04: a reused index gives the same view as a freshly created one."""
import os

from hypothesis import strategies as st

from checks.C01 import open_ms
from vp import compress, formats, gen, images, indexes, tars, view
from vp.core import Sub, Violation, check

ID = 'C04'
TECHNIQUE = 'property-based testing: differential between opening without any index and with stored indexes over generated archives and reopening histories'
RULE = """
A generated archive (TAR with all member kinds, duplicates and nested TARs in any compression; ZIP, AR, ASAR, 7z, SquashFS) is
opened without index for reference, then with an index that is written beside it, into an index folder, a fallback folder or an explicit
path, then up to four more times with that index (read-only, compressed with gz/bz2/xz/zst, as file:// URL, with other parallelization
or backends, on its own without the archive, or while it is still open elsewhere). All views (tree, metadata, link targets, every version with contents, extended attributes)
must equal the reference, and the index must be byte-identical after read-only reopenings. Non-trivial: at least one reopening found
a stored index of an archive with at least two members.
"""
ASSUMES = ['Creation options (recursion, hashes, transformations) are the same for all openings of one history; the code only warns otherwise.']
OTHERS = {f.name: f for f in [formats.ZIP, formats.AR, formats.ASAR, formats.SEVENZIP, images.SQUASHFS]}


@st.composite
def reopenings(draw):
    return {
        'how': draw(st.sampled_from(['normal', 'normal', 'readonly', 'compressed', 'url', 'alone', 'unwritable'])),
        'z': draw(st.sampled_from(sorted(indexes.COMPRESSORS))),
        'par': draw(st.sampled_from([1, 1, 2])),
        'verify': draw(st.booleans()),
        'hold': draw(st.booleans()),
        'backends': draw(st.sampled_from([[], [], ['indexed_gzip'], ['rapidgzip'], ['indexed_gzip', 'rapidgzip'], ['zipfile']])),
    }


@st.composite
def tar_cases(draw):
    codec = draw(st.sampled_from(['', '', '', 'gz', 'gz', 'bz2', 'xz', 'zst', 'zlib']))
    return {
        'format': 'tar', 'codec': codec, 'o': draw(compress.CODECS[codec].options()) if codec else {},
        'members': draw(st.lists(tars.nesting_members(), min_size=1, max_size=9)),
        'recursion': draw(st.sampled_from([None, None, None, 1, 2, 'all'])),
        'strip': draw(st.booleans()),
        'hashes': draw(st.sampled_from([[], [], [], ['md5'], ['sha256', 'crc32']])),
        'ignore_zeros': draw(st.booleans()),
        'spacing': draw(st.sampled_from([None, 65536, 1 << 20])),
        'place': draw(indexes.places), 'opens': draw(st.lists(reopenings(), min_size=1, max_size=4)),
    }  # fmt: skip


@st.composite
def other_cases(draw):
    case = draw(formats.formatted(OTHERS, size=9))
    case['place'] = draw(indexes.places)
    case['opens'] = draw(st.lists(reopenings(), min_size=1, max_size=4))
    case['hashes'] = draw(st.sampled_from([[], [], [], ['md5']]))
    return case


def make(case, ctx):
    """Writes the archive. Returns (path, options, number of members)."""
    options = {'hashes': case['hashes']} if case['hashes'] else {}
    if case['format'] != 'tar':
        fmt = OTHERS[case['format']]
        path = ctx.path('archive' + fmt.ext)
        tree, expected = fmt.make(path, case['tree'], case['o'])
        options.update(fmt.open_options(case['o']))
        return (path if expected is not None else None), options, len(tree)
    members = tars.legalize(tars.resolve_nested(case['members']))
    data = gen.tar_bytes(members)
    path = ctx.path('archive.tar')
    if case['codec']:
        codec = compress.CODECS[case['codec']]
        data = codec.encode(data, case['o'])
        path += codec.extensions[0]
    with open(path, 'wb') as file:
        file.write(data)
    if case['recursion'] is not None:
        if case['recursion'] == 'all':
            options['recursive'] = True
        else:
            options['recursionDepth'] = case['recursion']
        options['stripRecursiveTarExtension'] = case['strip']
    options['ignoreZeros'] = case['ignore_zeros']
    if case['spacing']:
        options['gzipSeekPointSpacing'] = case['spacing']
    ctx.label(*(f for f in tars.features(members) if f.startswith(('sparse', 'kind', 'dup', 'xattr'))))
    if any('nested' in m for m in members):
        ctx.label('nested')
    return (path if members else None), options, len(members)


def snapshot(ms, content=True):
    result = view.snapshot(ms, xattrs=True, versions=True, content=content)
    # The root folder of archives always has the current time.
    result['/'].pop('mtime')
    return result


def compare(actual, reference, what):
    view.tree_diff(actual, reference, what=what)
    for path, entry in actual.items():
        if set(entry) != set(reference[path]):
            raise Violation(f'{what}: {path!r} has {sorted(set(entry) ^ set(reference[path]))} only once')


def without_contents(reference):
    def strip(entry):
        entry = {key: value for key, value in entry.items() if key != 'data'}
        if 'history' in entry:
            entry['history'] = [strip(e) for e in entry['history']]
        return entry

    return {path: strip(entry) for path, entry in reference.items()}


def run(case, ctx):
    path, options, count = make(case, ctx)
    if path is None:
        return
    ms = open_ms(path, writeIndex=False, **options)
    with ms:
        reference = snapshot(ms)
        # What was shown once must not change during the life of the mount either.
        compare(snapshot(ms), reference, 'second look without index')
    stamp = os.stat(path).st_mtime_ns
    archive = indexes.content(path)

    placement = indexes.Placement(case['place'], ctx, path)
    with open_ms(path, **options, **placement.options) as ms:
        compare(snapshot(ms), reference, f"creating the index ({case['place']})")
    reused = 0
    index = placement.path
    index_options = dict(placement.options)
    for number, how in enumerate(case['opens']):
        what = f"reopening {number + 1} ({how['how']}, {case['place']})"
        before = indexes.content(index)
        extra = {}
        if before is not None:
            reused += 1
            if how['how'] == 'compressed' and before.startswith(b'SQLite format 3\0') and case['place'] not in ('xdg', 'home'):
                compressed = indexes.COMPRESSORS[how['z']](before)
                if 'indexFilePath' in placement.options:
                    with open(index, 'wb') as file:
                        file.write(compressed)
                else:
                    os.unlink(index)
                    index += '.' + how['z']
                    if case['place'] == 'folder':
                        index = ctx.path('explicit.' + how['z'])
                        index_options = {**placement.options, 'indexFilePath': index}
                    with open(index, 'wb') as file:
                        file.write(compressed)
                before = compressed
            elif how['how'] == 'url' and '#' not in index and '%' not in index:
                extra['indexFilePath'] = 'file://' + index
            elif how['how'] == 'readonly':
                extra['readOnlyIndex'] = True
            elif how['how'] == 'unwritable':
                os.chmod(index, 0o400)
            elif how['how'] == 'alone' and before.startswith(b'SQLite format 3\0'):
                with open_ms(index) as ms:
                    compare(snapshot(ms, content=False), without_contents(reference), what)
                check(indexes.content(index) == before, '%s: the index changed', what)
                continue
        if how['par'] > 1:
            extra['parallelization'] = how['par']
        if how['backends']:
            extra['prioritizedBackends'] = how['backends']
        if how['verify']:
            extra['verifyModificationTime'] = True
        with open_ms(path, **{**options, **index_options, **extra}) as ms:
            compare(snapshot(ms), reference, what)
            used = getattr(getattr(ms.mountSource, 'index', None), 'indexFilePath', None)
            if how['hold']:
                # Opens the archive once more with the same index while it is open already.
                with open_ms(path, **{**options, **index_options, **extra}) as second:
                    compare(snapshot(second), reference, what + ' while it is open')
                compare(snapshot(ms), reference, what + ' after it was opened once more')
        if before is not None and (how['how'] in ('readonly', 'alone') or not before.startswith(b'SQLite format 3\0')):
            check(indexes.content(index) == before, '%s: the index changed although it may only be read', what)
        if before is not None and used is not None:
            ctx.label('reopened ' + how['how'])
    check(indexes.content(path) == archive and os.stat(path).st_mtime_ns == stamp, 'the archive itself changed')
    ctx.label(case['format'] + case.get('codec', ''), 'at ' + case['place'])
    ctx.nontrivial(reused > 0 and count >= 2)


SUBS = [
    Sub('tar', tar_cases, run, 600, 25000),
    Sub('others', other_cases, run, 240, 10000),
]
