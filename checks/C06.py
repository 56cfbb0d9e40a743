"""C06: changed archives are noticed when an old index exists."""
import contextlib
import os
import random

from hypothesis import strategies as st

from checks.C01 import open_ms
from checks.C04 import compare, snapshot
from vp import compress, formats, gen, images, indexes, tars
from vp.core import Sub, Violation, check

ID = 'C06'
TECHNIQUE = (
    'stateful property-based testing: generated histories of changing an archive and opening it with its stored index, compared with '
    'opening a copy without any index after every step'
)
RULE = """
tar: a generated TAR (all member kinds, nested TARs, any compression, with and without record padding) is indexed and then changed up to
four times by appending members, dropping the last members, replacing it, changing contents and metadata at the same size, or changing only its
modification time, and opened after each change with its index. large: the same with appending to TARs of more than 64 MiB (a member that
is a hole) and 100 members, which takes the incremental path. other: ZIP, AR, ASAR, 7z, SquashFS archives are replaced by
other ones. Each opening must show what opening a copy without index shows. Changes that keep the size and the modification time (or keep
the size while times are not verified) are only generated as appending into the padding of an uncompressed TAR. Non-trivial: at least one
change altered the contents of an archive for which an index was stored.
"""
NOTE = 'With a read-only index, the index of a TAR that has grown is used as is by design. This is not generated.'

OTHERS = {f.name: f for f in [formats.ZIP, formats.AR, formats.ASAR, formats.SEVENZIP, images.SQUASHFS]}


@st.composite
def steps(draw, content, kinds):
    step = {
        'op': draw(st.sampled_from(kinds)),
        'time': draw(st.sampled_from([0, 1, 0.25, 0.25, 1000000, -1000000])),
        'verify': draw(st.booleans()),
        'count': draw(st.integers(1, 3)),
        'look': draw(st.sampled_from([True, True, True, False])),
    }
    if step['op'] in ('append', 'replace'):
        step['content'] = draw(content)
    return step


def member_lists(maximum, low=1, **options):
    return st.lists(tars.nesting_members(1, **options), min_size=low, max_size=maximum)


@st.composite
def tar_cases(draw):
    codec = draw(st.sampled_from(['', '', '', 'gz', 'bz2', 'xz', 'zst']))
    return {
        'codec': codec, 'o': draw(compress.CODECS[codec].options()) if codec else {},
        'record': draw(st.sampled_from([0, 0, 10240, 10240, 20480])),
        'content': draw(member_lists(5)),
        'recursion': draw(st.sampled_from([None, None, 1, 'all'])),
        'hashes': draw(st.sampled_from([[], [], ['md5']])),
        'place': draw(indexes.places),
        'steps': draw(st.lists(steps(member_lists(4), ['append'] * 4 + ['drop', 'replace', 'mutate', 'mutate', 'touch']), min_size=1, max_size=4)),
    }  # fmt: skip


def codec_data(case, members):
    data = gen.tar_bytes(members, record=case['record'])
    return compress.CODECS[case['codec']].encode(data, case['o']) if case['codec'] else data


def options_of(case):
    options = {'hashes': case['hashes']} if case['hashes'] else {}
    if case.get('recursion') == 'all':
        options['recursive'] = True
    elif case.get('recursion') is not None:
        options['recursionDepth'] = case['recursion']
    return options


def mutated(raw):
    """The same sizes but other contents and metadata."""
    result = []
    for member in raw:
        member = dict(member)
        for key, value in (('mtime', 1), ('uid', 1), ('mode', 0o040)):
            if isinstance(member.get(key), int):
                member[key] ^= value
        if member.get('c') and not member.get('nested') and member['c'][0] in ('p', 'r', 'z'):
            member['c'] = ['r', member['c'][1], member['c'][2] + 1]
        result.append(member)
    return result


def change(raw, step):
    if step['op'] == 'append':
        return raw + step['content']
    if step['op'] == 'replace':
        return step['content']
    if step['op'] == 'drop':
        return raw[: -step['count']] or raw[:1]
    if step['op'] == 'mutate':
        return mutated(raw)
    return raw


class History:
    """Opens the archive with the index after each change and compares with opening it without."""

    def __init__(self, ctx, path, place, options, memory=False):
        self.memory = memory  # whether the index is always kept in memory
        self.ctx, self.path, self.options = ctx, path, options
        self.placement = indexes.Placement(place, ctx, path)
        self.time = 1600000000
        self.changes = 0
        self.size = self.stamp = None  # of what the stored index is for
        self.indexed = None

    def written(self, step):
        self.time += step['time']
        os.utime(self.path, (self.time, self.time))

    def look(self, what, verify, identity, appended=False):
        """identity is something that is equal for equal archives."""
        random.seed(0)  # The check of an index uses a random selection of rows.
        stat = os.stat(self.path)
        with open_ms(self.path, writeIndex=False, indexFilePath=':memory:', **self.options) as ms:
            reference = self.snapshot(ms)
        if self.indexed is not None:
            undetectable = stat.st_size == self.size and not appended and not (verify and stat.st_mtime != self.stamp)
            if undetectable and identity != self.indexed:
                return False
            self.changes += identity != self.indexed
        options = {**self.options, **self.placement.options, 'verifyModificationTime': verify}
        for number in range(2):
            with open_ms(self.path, **options) as ms:
                actual = self.snapshot(ms)
            compare(actual, reference, f'{what}, opening {number + 1}')
        check(self.placement.exists() or self.memory, '%s: no index was written', what)
        self.size, self.stamp, self.indexed = stat.st_size, stat.st_mtime, identity
        return True

    def snapshot(self, ms):
        return snapshot(ms)


def run_tar(case, ctx):
    raw = tars.resolve_nested(case['content'])
    members = tars.legalize(raw)
    if not members:
        return
    path = ctx.path('archive.tar' + (compress.CODECS[case['codec']].extensions[0] if case['codec'] else ''))
    history = History(ctx, path, case['place'], options_of(case))
    data = codec_data(case, members)
    with open(path, 'wb') as file:
        file.write(data)
    history.written({'time': 0})
    history.look('first opening', False, members)
    indexed = members
    for i, step in enumerate(case['steps']):
        if step['op'] in ('append', 'replace'):
            step = {**step, 'content': tars.resolve_nested(step['content'])}
        raw = change(raw, step)
        members = tars.legalize(raw)
        if not members:
            return
        with open(path, 'wb') as file:
            file.write(codec_data(case, members))
        history.written(step)
        ctx.label(step['op'], 'time ' + ('same' if not step['time'] else 'newer' if step['time'] > 0 else 'older'))
        if step['look']:
            # Appending to an unchanged beginning is noticed by looking for the end of the archive.
            appended = not case['codec'] and members[: len(indexed)] == indexed
            if appended and len(members) > len(indexed) and os.stat(path).st_size == history.size:
                ctx.label('appended into the padding')
            if not history.look(f'step {i + 1} ({step["op"]})', step['verify'], members, appended):
                return
            indexed = members
    ctx.nontrivial(history.changes > 0)
    ctx.label('codec ' + (case['codec'] or 'none'), 'at ' + case['place'], f'{min(history.changes, 3)} changes')


# --- the incremental path -------------------------------------------------------------------------------------------

HOLE = 64 << 20


@st.composite
def large_cases(draw):
    return {
        'content': draw(member_lists(4)),
        'hole': draw(st.sampled_from([0, 0, 50, 1000])),
        'bulk': draw(st.sampled_from([90, 100, 100, 100, 110])),
        'record': draw(st.sampled_from([0, 10240, 10240])),
        'recursion': draw(st.sampled_from([None, None, 1, 'all'])),
        'hashes': draw(st.sampled_from([[], [], ['md5']])),
        'place': draw(indexes.places),
        'steps': draw(st.lists(steps(member_lists(4), ['append'] * 6 + ['drop', 'mutate', 'touch']), min_size=1, max_size=3)),
    }  # fmt: skip


class LargeHistory(History):
    def snapshot(self, ms):
        from vp import view

        result = view.snapshot(ms, xattrs=True, versions=True, skip=lambda path: path == '/hole')
        result['/'].pop('mtime')
        return result


def write_large(case, path, members):
    bulk = [
        {'t': 'file', 'name': f'bulk/{i:03}' if i % 2 else f'bulk-{i:03}', 'fmt': 'gnu', 'mtime': i, 'c': ['p', i % 7 * 100, i]}
        for i in range(case['bulk'])
    ]
    members = bulk + members
    at = min(case['hole'], len(bulk))
    before, after = (b''.join(map(gen.member_bytes, part)) for part in (members[:at], members[at:]))
    size = len(before) + 512 + HOLE + len(after) + 1024
    with open(path, 'wb') as file:
        file.write(before + gen.header(b'hole', b'0', HOLE, 0o644, 0, 0, 0))
        file.seek(HOLE, 1)
        file.write(after)
        file.truncate(size + (-size % case['record'] if case['record'] else 0))


def run_large(case, ctx):
    raw = tars.resolve_nested(case['content'])
    members = tars.legalize(raw)
    path = ctx.path('archive.tar')
    history = LargeHistory(ctx, path, case['place'], options_of(case))
    write_large(case, path, members)
    history.written({'time': 0})
    history.look('first opening', False, members)
    indexed = members
    for i, step in enumerate(case['steps']):
        if step['op'] == 'append':
            step = {**step, 'content': tars.resolve_nested(step['content'])}
        raw = change(raw, step)
        members = tars.legalize(raw)
        write_large(case, path, members)
        history.written(step)
        ctx.label(step['op'], 'time ' + ('same' if not step['time'] else 'newer' if step['time'] > 0 else 'older'))
        if step['look']:
            appended = members[: len(indexed)] == indexed
            if not appended and os.stat(path).st_size > history.size:
                return  # Whether it is the indexed archive and more is only checked by samples.
            if appended and len(members) > len(indexed):
                ctx.label('appended into the padding' if os.stat(path).st_size == history.size else 'appended')
            if not history.look(f'step {i + 1} ({step["op"]})', step['verify'], members, appended):
                return
            indexed = members
    ctx.nontrivial(history.changes > 0)
    ctx.label('at ' + case['place'], f'{min(history.changes, 3)} changes')


# --- other formats --------------------------------------------------------------------------------------------------


@st.composite
def other_cases(draw):
    name = draw(st.sampled_from(sorted(OTHERS)))
    content = formats.formatted({name: OTHERS[name]}, size=6)
    return {
        'format': name, 'content': draw(content),
        'hashes': draw(st.sampled_from([[], [], ['md5']])),
        'place': draw(indexes.places),
        'steps': draw(st.lists(steps(content, ['replace', 'replace', 'replace', 'touch']), min_size=1, max_size=4)),
    }  # fmt: skip


def run_other(case, ctx):
    fmt = OTHERS[case['format']]
    path = ctx.path('archive' + fmt.ext)

    def write(content):
        with contextlib.suppress(FileNotFoundError):
            os.unlink(path)
        return fmt.make(path, content['tree'], content['o'])[1] is not None

    if not write(case['content']):
        return
    options = {**options_of(case), **fmt.open_options(case['content']['o'])}
    history = History(ctx, path, case['place'], options, case['format'] == '7z')
    history.written({'time': 0})
    history.look('first opening', False, indexes.content(path))
    for i, step in enumerate(case['steps']):
        if step['op'] == 'replace':
            if not write(step['content']):
                return
            history.options = {**options_of(case), **fmt.open_options(step['content']['o'])}
        history.written(step)
        ctx.label(step['op'])
        if step['look'] and not history.look(f'step {i + 1} ({step["op"]})', step['verify'], indexes.content(path)):
            return
    ctx.nontrivial(history.changes > 0)
    ctx.label(case['format'], 'at ' + case['place'])


SUBS = [
    Sub('tar', tar_cases, run_tar, 320, 30000),
    Sub('large', large_cases, run_large, 64, 6000),
    Sub('other', other_cases, run_other, 120, 15000),
]
