"""Strategies for TAR member lists and their legalisation."""
import posixpath

from hypothesis import strategies as st

from . import gen


def sparse_specs():
    region = st.tuples(st.sampled_from([0, 512, 1024, 4096, 100352]), st.sampled_from([512, 1024, 3 * 512, 8192]))
    return st.fixed_dictionaries(
        {
            'v': st.sampled_from(['old', '0.0', '0.1', '1.0']),
            'regions': st.one_of(
                st.lists(region.map(list), max_size=4), st.lists(region.map(list), min_size=22, max_size=30)
            ),
            'last': st.sampled_from([0, 0, 1, 100, 511]),
            'tail': st.sampled_from([0, 0, 1, 512, 100000]),
            'seed': st.integers(0, 99),
        }
    )


def members(maximum=20000, odd=True, long=True, sparse=True, special=True, depth=4, formats=None):
    kinds = ['file'] * 5 + ['dir', 'sym', 'hard'] + (['fifo', 'chr', 'blk'] if special else [])

    @st.composite
    def one(draw):
        kind = draw(st.sampled_from(kinds))
        member = {
            't': kind, 'name': draw(gen.paths(depth, odd, long)), 'mode': draw(st.sampled_from(gen.MODES)),
            'uid': draw(st.sampled_from(gen.IDS + gen.BIG_IDS)), 'gid': draw(st.sampled_from(gen.IDS)),
            'mtime': draw(st.sampled_from(gen.MTIMES + [-100])),
            'fmt': draw(st.sampled_from(formats or ['gnu', 'gnu', 'pax', 'pax', 'ustar', 'v7'])),
        }  # fmt: skip
        if draw(st.integers(0, 5)) == 0:
            member['dot'] = True
        if kind == 'file':
            if sparse and draw(st.integers(0, 5)) == 0:
                member['sparse'] = draw(sparse_specs())
            else:
                member['c'] = draw(gen.contents(maximum))
        elif kind == 'sym':
            member['link'] = draw(
                st.one_of(gen.paths(2, odd, long), st.sampled_from(['../a', '/etc/passwd', '.', 'a/../b', 'x' * 300]))
            )
        elif kind == 'hard':
            member['target'] = draw(st.integers(0, 9))
        elif kind in ('chr', 'blk'):
            member['major'], member['minor'] = draw(st.sampled_from([[1, 3], [8, 0], [0, 0]]))
        if member['fmt'] == 'pax':
            if draw(st.booleans()):
                member['pax_mtime'] = draw(st.sampled_from([0.5, 1234567890.25, 1e9 + 0.125]))
            if draw(st.integers(0, 2)) == 0:
                member['xattrs'] = draw(
                    st.dictionaries(
                        st.sampled_from(['user.a', 'user.tags', 'security.x', 'user.ü']),
                        st.sampled_from(['', 'v', 'value with = and \n newline', 'ünïcode', 'x' * 700]),
                        max_size=3,
                    )
                )
            if draw(st.integers(0, 3)) == 0:
                member['pax_size'] = True
        return member

    return one()


def legalize(raw, conflicts=False):
    """Drops or adjusts members so that the list is a valid archive with an unambiguous meaning."""
    result = []
    kinds = {}  # path -> 'dir' | 'other'
    versions = {}
    pinned = set()
    single_files = []
    for member in raw:
        member = dict(member)
        name = posixpath.normpath(member['name'])
        path = gen.normalize(name)
        if path == '/':
            continue
        member['name'] = name
        kind = 'dir' if member['t'] == 'dir' else 'other'
        if kinds.get(path, kind) != kind or path in pinned:
            continue
        if any(kinds.get(parent) == 'other' for parent in gen.parents_of(path)):
            continue
        if kind == 'other' and any(p.startswith(path + '/') for p in kinds):
            continue
        if member['t'] == 'hard':
            candidates = [p for p in single_files if p != path and versions.get(p) == 1]
            if not candidates:
                continue
            target = candidates[member.pop('target', 0) % len(candidates)]
            pinned.add(target)
            member['link'] = target.lstrip('/')
            # Only the target decides what is shown.
            member.pop('xattrs', None)
            member.pop('pax_mtime', None)
        if member['t'] == 'file' and member.get('sparse'):
            sparse = dict(member['sparse'])
            regions = [list(r) for r in sparse['regions']]
            if regions and sparse.get('last') and sparse['tail'] == 0:
                regions[-1][1] += sparse['last']
            sparse['regions'] = regions
            if sum(a + b for a, b in regions) + sparse['tail'] == 0:
                sparse['tail'] = 512
            member['sparse'] = sparse
            if sparse['v'] == 'old':
                member['fmt'] = 'gnu'
            else:
                member['fmt'] = 'pax'
                member.pop('pax_size', None)
                member.pop('dot', None)
        if member['t'] != 'file':
            member.pop('pax_size', None)
        full = ('./' if member.get('dot') else '') + name + ('/' if kind == 'dir' else '')
        encoded = full.encode('utf-8', 'surrogateescape')
        link = (member.get('link') or '').encode('utf-8', 'surrogateescape')
        if member['fmt'] in ('ustar', 'v7'):
            fits = (
                gen.split_ustar(encoded) is not None and len(link) <= 100 and member['uid'] < 8**7
                and 0 <= member['mtime'] < 8**11
            )  # fmt: skip
            if member['fmt'] == 'v7' and (len(encoded) > 100 or member['t'] in ('chr', 'blk', 'fifo')):
                fits = False
            if not fits:
                member['fmt'] = 'gnu'
        if member['fmt'] != 'pax':
            member.pop('xattrs', None)
            member.pop('pax_mtime', None)
            member.pop('pax_size', None)
        kinds[path] = kind
        for parent in gen.parents_of(path):
            kinds.setdefault(parent, 'dir')
        versions[path] = versions.get(path, 0) + 1
        if member['t'] == 'file' and versions[path] == 1:
            single_files.append(path)
        result.append(member)
    return result


def features(members_):
    result = set()
    seen = set()
    for member in members_:
        result.add('kind ' + member['t'])
        result.add('format ' + member['fmt'])
        if member.get('sparse'):
            result.add('sparse ' + member['sparse']['v'])
        if len(member['name']) > 100:
            result.add('long name')
        if any(ord(c) > 127 for c in member['name']):
            result.add('non-ASCII name')
        if member.get('xattrs'):
            result.add('xattrs')
        if member.get('pax_size'):
            result.add('size only in PAX header')
        if member['name'] in seen:
            result.add('duplicate name')
        if '/' in member['name'] and member['name'].rsplit('/', 1)[0] not in seen:
            result.add('implicit parent')
        seen.add(member['name'])
    return result


# --- nested archives ------------------------------------------------------------------------------------------------

NESTED_EXTENSIONS = {'': '.tar', 'gz': '.tar.gz', 'bz2': '.tar.bz2', 'xz': '.tar.xz'}


def nesting_members(levels=2, maximum=3000, **options):
    """Like members() but some of the files are TARs themselves; see resolve_nested."""
    plain = members(maximum, **options)
    if levels <= 0:
        return plain

    @st.composite
    def nested(draw):
        member = draw(plain.filter(lambda m: m['t'] == 'file'))
        for key in ('sparse', 'c', 'pax_size'):
            member.pop(key, None)
        compression = draw(st.sampled_from(['', '', '', 'gz', 'bz2', 'xz']))
        member['nested'] = draw(st.lists(nesting_members(levels - 1, maximum, **options), min_size=1, max_size=4))
        member['z'] = compression
        member['name'] += NESTED_EXTENSIONS[compression] if draw(st.booleans()) else ''
        return member

    return st.one_of(plain, plain, plain, nested())


def resolve_nested(raw):
    """Replaces nested member lists by their bytes (in 'c'), keeping the legal nested list in 'nested'."""
    from . import formats

    result = []
    for member in raw:
        if 'nested' in member:
            member = dict(member)
            inner = legalize(resolve_nested(member['nested']))
            member['nested'] = inner
            member['c'] = formats.COMPRESSORS[member['z']](gen.tar_bytes(inner)) if inner else b''
        result.append(member)
    return result
