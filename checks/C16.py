"""C16: truncated archives never show fabricated data."""
import io
import os
import unicodedata

from hypothesis import strategies as st

from checks.C01 import INDEX_OPTIONS, open_ms
from vp import compress, gen, tars, view
from vp.isolate import isolated
from vp.core import Skip, Sub, Violation, check

ID = 'C16'
TECHNIQUE = 'property-based testing: generated archives cut at generated offsets, compared with the model of each prefix of the members'
RULE = """
A random TAR as in C01 (all formats, sparse files, long names, hard links, repeated names), plain or compressed with any of the supported compressors (also multi-stream, multi-block), is cut at a random byte: inside of headers, extended headers, data, padding,
or exactly at boundaries, for compressed TARs anywhere in the compressed stream. Opening (by path, file object, with and without stored index, and again with the stored index) must fail
with an ordinary error or show exactly the entries of a prefix of the members with all attributes. For plain TARs this prefix must hold all members before the cut, and at most the one that was cut in addition.
Every file that was not cut has its exact contents; the one that was cut gives a prefix or an error, also for reads in the middle; decompressors that check the whole stream (rapidgzip) may refuse to read at all. Non-trivial: mounting succeeded with at least two members shown and one missing or cut.
"""
CODECS = ['gzip', 'bzip2', 'xz', 'zstd', 'lz4', 'lzma', 'zlib']


@st.composite
def plain_cases(draw):
    return {
        'members': draw(st.lists(tars.members(maximum=6000), min_size=1, max_size=8)),
        'cut': [draw(st.integers(0, 1000)), draw(st.sampled_from(['start', 'header', 'end', 'middle', 'middle', 'last block'])), draw(st.integers(-2, 2)), draw(st.floats(0, 1).map(lambda x: round(x, 4)))],
        'via': draw(st.sampled_from(['path', 'path', 'fileobj', 'bytesio'])), 'index': draw(st.sampled_from(['memory', 'disk'])),
        'ignore_zeros': draw(st.booleans()),
    }  # fmt: skip


@st.composite
def compressed_cases(draw):
    name = draw(st.sampled_from([c for c in sorted(compress.CODECS) if any(c.startswith(x) for x in CODECS)]))
    return {
        'members': draw(st.lists(tars.members(maximum=draw(st.sampled_from([6000, 100000]))), min_size=1, max_size=8)), 'codec': name, 'o': draw(compress.CODECS[name].options()),
        'cut': draw(st.one_of(st.integers(1, 40), st.floats(0, 1).map(lambda x: round(x, 4)), st.integers(1, 40).map(lambda x: -x))),
        'via': draw(st.sampled_from(['path', 'path', 'fileobj'])), 'index': draw(st.sampled_from(['memory', 'disk'])), 'parallel': draw(st.sampled_from([1, 1, 2])),
    }  # fmt: skip


def positions(members):
    result = [0]
    for member in members:
        result.append(result[-1] + len(gen.member_bytes(member)))
    return result


def metadata(tree):
    return {path: {k: v for k, v in entry.items() if k != 'data'} for path, entry in tree.items()}


def prefix_shown(actual, members, candidates, verify_contents):
    """Returns how many members are shown. Prefixes may only differ in their contents, e.g., after repeated members."""
    problems = []
    for count in candidates:
        try:
            view.tree_diff(actual, metadata(gen.expected_view(members[:count])), what=f'{count} of {len(members)} members')
            verify_contents(count)
            return count
        except Violation as violation:
            problems.append(str(violation))
    raise Violation('The shown tree is none of a prefix of the members: ' + ' / '.join(problems)[:1500])


def verify(ms, members, candidates, cut_member, what, lenient=False):
    """cut_member: returns index of the member that may be cut given the number of shown ones"""
    actual = view.snapshot(ms, content=False, xattrs=True)
    return prefix_shown(actual, members, candidates, lambda count: verify_contents(ms, members, count, cut_member(count), what, lenient))


def verify_contents(ms, members, count, cut, what, lenient=False):
    expected = gen.expected_view(members[:count])
    cut_path = gen.normalize(members[cut]['name']) if cut is not None and cut < count else None
    for path, entry in sorted(expected.items()):
        if entry.get('type') != 'file':
            continue
        data = entry['data']
        size = len(data)
        for start, length in ((0, size + 10), (size // 2, 100), (max(0, size - 600), 700)):
            try:
                info = ms.lookup(path)
                with ms.open(info) as file:
                    if start:
                        file.seek(start)
                    got = file.read(length)
                    got += file.read()
            except Exception:
                if path != cut_path and not lenient:
                    raise
                continue
            wanted = data[start:]
            if path == cut_path:
                wanted = wanted[: len(got)]
                if len(got) > len(data) - start:
                    raise Violation(f'{what}: {path!r} returned more than its size: {len(got)} from {start}')
            view.equal_bytes(got, wanted, f'{what}: {path!r} from {start}' + (' (cut member)' if path == cut_path else ''))


def verify_libarchive(ms, members, what):
    contents = {}
    for member in members:
        if member['t'] != 'file':
            continue
        path = unicodedata.normalize('NFC', gen.normalize(member['name']))
        for entry in gen.expected_view([member]).values():
            if entry.get('type') == 'file' and 'data' in entry:
                contents.setdefault(path, []).append(entry['data'])
    members_paths = {unicodedata.normalize('NFC', gen.normalize(m['name'])) for m in members}
    for path, entry in view.snapshot(ms, content=False).items():
        name = unicodedata.normalize('NFC', path)
        if name not in members_paths and not any(p.startswith(name.rstrip('/') + '/') for p in members_paths):
            raise Violation(f'{what}: {path!r} is not in the archive')
        if entry['type'] != 'file' or any(m['t'] not in ('file', 'dir') for m in members):
            continue
        try:
            with ms.open(ms.lookup(path)) as file:
                got = file.read()
        except Exception:
            continue
        if not any(data.startswith(got) for data in contents.get(name, [])):
            raise Violation(f'{what}: {path!r} has {len(got)} bytes that are not in the archive: {got[:60]!r}')


def mounts(case, data, name, ctx):
    """Yields (what, mount source or None)"""
    path = ctx.path(name)
    with open(path, 'wb') as file:
        file.write(data)
    options = {**INDEX_OPTIONS[case['index']]}
    if case.get('ignore_zeros'):
        options['ignoreZeros'] = True
    if 'parallel' in case:
        options['parallelization'] = case['parallel']
    for again in (False, True) if case['index'] == 'disk' and case['via'] == 'path' else (False,):
        if case['via'] == 'path':
            source = path
        elif case['via'] == 'fileobj':
            source = ctx.keep(open(path, 'rb'))
        else:
            source = io.BytesIO(data)
        try:
            ms = open_ms(source, **options)
        except Exception as exception:
            ctx.label(f'refused with {type(exception).__name__}')
            continue
        with ms:
            yield 'stored index' if again else 'first', ms


def run_plain(case, ctx):
    members = tars.legalize(case['members'])
    if not members:
        raise Skip
    data = gen.tar_bytes(members)
    ends = positions(members)
    number, where, delta, fraction = case['cut']
    i = number % len(members)
    start, end = ends[i], ends[i + 1]
    base = {'start': start, 'header': start + 512, 'end': end, 'middle': start + int(fraction * (end - start)), 'last block': end - 512}[where]
    cut = base + delta * (1 if where != 'middle' else 0)
    if not 512 <= cut < len(data):
        raise Skip  # Nothing is recognizable as TAR.
    complete = sum(e <= cut for e in ends[1:])
    for what, ms in mounts(case, data[:cut], 'archive.tar', ctx):
        ctx.label(what, where)
        shown = verify(ms, members, [complete, complete + 1] if complete < len(members) else [complete], lambda count: complete, what)
        if shown >= 2 and complete < len(members):
            ctx.nontrivial()
        ctx.label('cut member ' + ('shown' if shown > complete else 'not shown'))


def run_compressed(case, ctx):
    isolated(lambda: check_compressed(case, ctx), ctx)


def check_compressed(case, ctx):
    # The libarchive backend, which may take over, fails to read sparse files ending with a hole (known finding of C03).
    members = tars.legalize([m for m in case['members'] if not m.get('sparse')])
    if not members:
        raise Skip
    plain = gen.tar_bytes(members)
    codec = compress.CODECS[case['codec']]
    data = codec.encode(plain, case['o'])
    cut = case['cut']
    cut = int(len(data) * cut) if isinstance(cut, float) else cut if cut > 0 else len(data) + cut
    if not 0 < cut < len(data):
        raise Skip
    for what, ms in mounts(case, data[:cut], 'archive.tar' + codec.extensions[0], ctx):
        ctx.label(case['codec'], what)
        # When not even a header could be decompressed, it may be taken for a compressed file.
        entries = view.snapshot(ms, content=False)
        files = [p for p, e in entries.items() if e['type'] == 'file']
        if files in (['/archive.tar'], ['/<file object>']):
            if len(entries) == 2:
                try:
                    with ms.open(ms.lookup(files[0])) as file:
                        got = file.read()
                except Exception:
                    continue
                if plain.startswith(got) and len(got) < 1024:
                    ctx.label('single file')
                    continue
        if type(ms.mountSource).__name__ == 'LibarchiveMountSource':
            # Took over because the compression layer refused the cut file. It shows less metadata.
            verify_libarchive(ms, members, what)
            ctx.label('libarchive')
            continue
        shown = verify(ms, members, range(len(members), -1, -1), lambda count: count - 1, what, lenient=case['codec'].startswith(('gzip', 'zlib', 'bzip2')))
        if shown >= 2:
            ctx.nontrivial()


SUBS = [Sub('plain', plain_cases, run_plain, 1600, 40000), Sub('compressed', compressed_cases, run_compressed, 900, 20000)]
