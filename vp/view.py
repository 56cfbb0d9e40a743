"""Observing a MountSource completely through its public interface."""
import stat

from .core import Violation, brief, check

TYPES = {
    stat.S_IFDIR: 'dir', stat.S_IFREG: 'file', stat.S_IFLNK: 'sym', stat.S_IFCHR: 'chr', stat.S_IFBLK: 'blk',
    stat.S_IFIFO: 'fifo', stat.S_IFSOCK: 'sock', 0: 'none',
}  # fmt: skip


def ftype(mode) -> str:
    return TYPES.get(stat.S_IFMT(mode), oct(stat.S_IFMT(mode)))


def names_of(listing):
    return list(listing.keys()) if isinstance(listing, dict) else list(listing)


def join(folder, name):
    return (folder if folder != '/' else '') + '/' + name


def below_versions(ms):
    """
    The mount source which can look up older versions by number. FileVersionLayer itself only offers
    '<path>.versions/<version>', which is ambiguous when there is an entry named like that.
    """
    return ms.mountSource if type(ms).__name__ == 'FileVersionLayer' else ms


def read_all(ms, file_info, limit=None):
    with ms.open(file_info) as file:
        return file.read() if limit is None else file.read(limit)


def entry(ms, path, info, content=True, xattrs=False, keep_size=False):
    kind = ftype(info.mode)
    result = {
        'type': kind, 'perm': stat.S_IMODE(info.mode), 'mtime': info.mtime, 'uid': info.uid, 'gid': info.gid,
        'link': info.linkname if kind == 'sym' else '',
    }  # fmt: skip
    if kind == 'file':
        result['size'] = info.size
        if content:
            data = read_all(ms, info)
            result['data'] = data
            check(
                len(data) == info.size, '%s: read %s bytes but the size is %s', path, len(data), info.size,
                key='size-mismatch',
            )
    if xattrs:
        result['xattrs'] = {key: ms.get_xattr(info, key) for key in sorted(ms.list_xattr(info))}
    return result


def snapshot(ms, root='/', content=True, xattrs=False, versions=False, limit=20000, skip=None):
    """
    Returns {path: entry} for everything reachable by listing.  Raises Violation when a listed path cannot be looked up
    or its kind differs between listing and lookup.
    """
    result = {}
    stack = [root]
    while stack:
        path = stack.pop()
        info = ms.lookup(path)
        check(info is not None, 'listed path %r cannot be looked up', path)
        if skip and skip(path):
            continue
        result[path] = entry(ms, path, info, content=content, xattrs=xattrs)
        if versions:
            count = ms.versions(path)
            result[path]['versions'] = count
            if path != root:
                history = []
                for version in range(1, count + 1):
                    old = below_versions(ms).lookup(path, version)
                    check(old is not None, 'version %s of %s of %r cannot be looked up', version, count, path)
                    history.append(entry(below_versions(ms), path, old, content=content, xattrs=xattrs))
                result[path]['history'] = history
        check(len(result) <= limit, 'more than %s paths', limit)
        if result[path]['type'] == 'dir':
            listing = ms.list(path)
            check(listing is not None, 'folder %r cannot be listed', path)
            names = names_of(listing)
            check(len(set(names)) == len(names), 'duplicate names in %r: %s', path, names)
            for name in names:
                check(name and '/' not in name and name not in ('.', '..'), 'bad name %r in listing of %r', name, path)
                child = join(path, name)
                if isinstance(listing, dict):
                    listed = listing[name]
                    child_info = ms.lookup(child)
                    check(child_info is not None, 'listed path %r cannot be looked up', child)
                    # Hard links are listed without a type (DT_UNKNOWN) and resolved by lookup.
                    check(
                        ftype(listed.mode) in (ftype(child_info.mode), 'none'), 'kind of %r: list says %s but lookup says %s',
                        child, ftype(listed.mode), ftype(child_info.mode),
                    )  # fmt: skip
                stack.append(child)
    return result


def tree_diff(actual: dict, expected: dict, fields=None, ignore=(), what='tree'):
    """Compares {path: {field: value}}. Expected fields that are None (or absent) are not compared."""
    missing = sorted(set(expected) - set(actual))
    extra = sorted(set(actual) - set(expected))
    if missing or extra:
        raise Violation(f'{what}: missing {brief(missing)}; unexpected {brief(extra)}')
    for path in sorted(expected):
        for field, value in expected[path].items():
            if value is None or field in ignore or (fields is not None and field not in fields):
                continue
            got = actual[path].get(field)
            if got != value:
                raise Violation(f'{what}: {path!r}: {field} is {describe(got)} but should be {describe(value)}')


def describe(value):
    if isinstance(value, (bytes, bytearray)) and len(value) > 60:
        return f'<{len(value)} bytes {bytes(value[:24])!r}...>'
    return brief(value, 400)


def first_difference(a: bytes, b: bytes) -> int:
    if a == b:
        return -1
    low, high = 0, min(len(a), len(b))
    if a[:high] == b[:high]:
        return high
    while low < high:
        mid = (low + high) // 2
        if a[: mid + 1] == b[: mid + 1]:
            low = mid + 1
        else:
            high = mid
    return low


def equal_bytes(actual, expected, what):
    if actual != expected:
        offset = first_difference(actual, expected)
        raise Violation(
            f'{what}: {len(actual)} bytes instead of {len(expected)}, first difference at {offset}: '
            f'{bytes(actual[offset:offset+24])!r} instead of {bytes(expected[offset:offset+24])!r}'
        )
