"""C27: concurrent readers never see wrong bytes."""
import io
import os
import random
import sys
import threading
import time

from hypothesis import strategies as st

from checks.C13 import KINDS
from vp import boot, compress, formats, gen, images, tars, view
from vp.core import Sub, Skip, Violation, check

ID = 'C27'
TECHNIQUE = 'property-based testing with schedule fuzzing: generated read programs for several threads under generated preemptions, against the sequential result'
RULE = """
A random archive or image of any supported format (also compressed TARs with several decompressors, single compressed files, archives in archives, split files, HTML with data URLs), opened by path
or file object, is read by 2 to 4 threads at the same time. Each thread has a random program (open with random buffering, seek, read, read until end, read via the mount source, close, several handles of the
same or different files) and must get the same bytes as if it were alone; threads must not block each other forever. Preemptions are forced: while threads run, every line of ratarmount and every call of the archive's
file object may give way to the other threads, decided by the seed of the case. Non-trivial: at least two threads read at least two non-empty files, or several handles of one file, with at least 8 operations.
"""
ASSUMES = ['Listing and looking up is done by the main thread because SQLite connections belong to one thread; FUSE is therefore run with one thread. SQLAR reads from SQLite and is not used.']
CHOICES = ['tars'] * 4 + ['codec'] * 3 + ['nested'] * 3 + ['split', 'html', 'html'] + [k for k in sorted(KINDS) if k not in ('sqlar', 'folder')] * 2


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(CHOICES))
    case = {'kind': kind, 'via': draw(st.sampled_from(['path', 'fileobj', 'fileobj', 'bytesio']))}
    if kind in ('tars', 'split'):
        case['members'] = draw(st.lists(tars.members(maximum=30000), min_size=2, max_size=8))
    elif kind == 'codec':
        case['codec'] = draw(st.sampled_from(sorted(compress.CODECS)))
        case['o'] = draw(compress.CODECS[case['codec']].options())
        case['c'] = draw(gen.contents(200000, sizes=[70000, 200000]).filter(lambda c: c[1] > 2000 and c[0] != 'z'))
    elif kind == 'html':
        case['files'] = draw(st.lists(gen.contents(5000).filter(lambda c: c[1] > 0), min_size=1, max_size=4))
    else:
        inner = kind
        if kind == 'nested':
            inner = case['inner'] = draw(st.sampled_from(['tar', 'zip', 'ar', 'asar', 'targz', 'squashfs', 'cpio', '7z', 'rar', 'fat', 'ext4']))
        case['o'] = draw(KINDS[inner].options())
        case['tree'] = draw(formats.trees(maximum=30000, size=8))
    case['threads'] = draw(st.lists(programs(), min_size=2, max_size=4))
    case['seed'] = draw(st.integers(0, 10**6))
    case['rate'] = draw(st.sampled_from([0, 0.03, 0.1, 0.3]))
    return case


def programs():
    step = st.tuples(
        st.sampled_from(['open', 'open', 'read', 'read', 'read', 'seek', 'all', 'direct', 'close']), st.integers(0, 1000), st.floats(0, 1).map(lambda x: round(x, 3)),
        st.sampled_from([1, 10, 512, 4096, 10000, 40000]),
    )  # fmt: skip
    return st.lists(step, min_size=2, max_size=10)


class Preemptive(io.BytesIO):
    """Gives way between moving and reading."""

    def __init__(self, data, rng, rate):
        super().__init__(data)
        self._rng, self._rate = rng, rate
        self.active = False

    def _maybe(self):
        if self.active and self._rng.random() < self._rate * 3:
            time.sleep(0.0002)

    def seek(self, *args):
        result = super().seek(*args)
        self._maybe()
        return result

    def read(self, *args):
        self._maybe()
        result = super().read(*args)
        self._maybe()
        return result

    def readinto(self, buffer):
        self._maybe()
        return super().readinto(buffer)


def write(case, ctx):
    """Writes the archive. Returns path, options, and whether nested archives have to be mounted."""
    kind = case['kind']
    if kind in ('tars', 'split'):
        members = tars.legalize(case['members'])
        if not members:
            raise Skip
        data = gen.tar_bytes(members)
        if kind == 'split':
            cut = len(data) // 3
            for i, part in enumerate([data[:cut], data[cut : 2 * cut], data[2 * cut :]]):
                with open(ctx.path(f'x.tar.{i:03}'), 'wb') as file:
                    file.write(part)
            return ctx.path('x.tar.000'), {}, False
        path = ctx.path('archive.tar')
    elif kind == 'codec':
        codec = compress.CODECS[case['codec']]
        data = codec.encode(gen.data(case['c']), case['o'])
        path = ctx.path('file' + codec.extensions[0])
    elif kind == 'html':
        import base64

        body = ''.join(f'<p>text {i}</p>\n<img src="data:image/png;base64,{base64.b64encode(gen.data(c)).decode()}">' for i, c in enumerate(case['files']))
        data = f'<!DOCTYPE html>\n<html><body>{body}</body></html>\n'.encode()
        path = ctx.path('page.html')
    else:
        fmt = KINDS[case.get('inner', kind)]
        path = ctx.path('archive' + fmt.ext)
        _, expected = fmt.make(path, case['tree'], case['o'])
        if expected is None:
            raise Skip
        if kind == 'nested':
            import tarfile

            outer = ctx.path('outer.tar')
            with tarfile.open(outer, 'w') as archive:
                archive.add(path, 'a/' + os.path.basename(path))
                extra = tarfile.TarInfo('other')
                extra.size = 5000
                archive.addfile(extra, io.BytesIO(gen.data(['p', 5000, 1])))
            return outer, {'recursive': True, **fmt.open_options(case['o'])}, True
        return path, fmt.open_options(case['o']), False
    with open(path, 'wb') as file:
        file.write(data)
    return path, {}, False


def mount(case, path, options, nested, ctx, rng=None):
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    from ratarmountcore.mountsource.factory import open_mount_source

    wrapped = None
    options = {'indexFilePath': ':memory:', **options}
    if case['kind'] == 'git':
        from ratarmountcore.mountsource.formats.git import GitMountSource

        return FileVersionLayer(GitMountSource(path, reference=images.GIT.reference(case['o']))), None
    source = path
    if case['via'] != 'path' and case['kind'] != 'split':
        if case['via'] == 'fileobj':
            source = open(path, 'rb', buffering=0 if case['seed'] % 2 else -1)
            ctx.stack.callback(source.close)
        else:
            with open(path, 'rb') as file:
                data = file.read()
            source = io.BytesIO(data)
            if rng:
                source = wrapped = Preemptive(data, rng, case['rate'])
        options['tarFileName'] = os.path.basename(path)
    ms = open_mount_source(source, **options)
    if nested:
        ms = AutoMountLayer(ms, **options)
    return FileVersionLayer(ms), wrapped


def tracer(seed, rate):
    """Gives way at random lines of ratarmount."""
    rng = random.Random(seed)
    prefixes = (os.path.join(boot.REPO, 'core') + os.sep,)

    def local(frame, event, _):
        if event == 'line' and rng.random() < rate:
            time.sleep(0.0002 if rng.random() < 0.5 else 0)
        return local

    def trace(frame, event, _):
        return local if event == 'call' and frame.f_code.co_filename.startswith(prefixes) else None

    return trace


def work(ms, program, infos, contents, errors, barrier, trace, names):
    handles = []
    try:
        barrier.wait(30)
        if trace:
            sys.settrace(trace)
        for action, number, where, size in program:
            if action in ('open', 'direct') or not handles:
                path = names[number % len(names)]
                data = contents[path]
                if action == 'direct':
                    offset = int(where * len(data))
                    actual = ms.read(infos[path].clone(), size, offset)
                    view.equal_bytes(actual, data[offset : offset + size], f'{size} bytes of {path!r} at {offset}')
                    continue
                handles.append([path, ms.open(infos[path].clone(), buffering=[-1, 0, 4096, -1][number % 4]), 0])
                if action == 'open':
                    continue
            handle = handles[number % len(handles)]
            path, file, position = handle
            data = contents[path]
            if action == 'seek':
                handle[2] = int(where * len(data))
                result = file.seek(handle[2])
                check(result == handle[2], 'seek to %s in %r returned %s', handle[2], path, result)
            elif action == 'read':
                actual = file.read(size)
                wanted = data[position : position + size]
                # Unbuffered files may return less.
                if len(actual) < len(wanted) and actual:
                    wanted = wanted[: len(actual)]
                view.equal_bytes(actual, wanted, f'read {size} from {path!r} at {position}')
                handle[2] += len(actual)
            elif action == 'all':
                parts = []
                while part := file.read(30000):
                    parts.append(part)
                view.equal_bytes(b''.join(parts), data[position:], f'the rest of {path!r} from {position}')
                handle[2] = max(position, len(data))
            elif action == 'close':
                handles.remove(handle)
                file.close()
        for _, file, _ in handles:
            file.close()
    except BaseException as exception:  # pylint: disable=broad-except
        sys.settrace(None)
        errors.append(exception)
    finally:
        sys.settrace(None)


def run(case, ctx):
    rng = random.Random(case['seed'])
    path, options, nested = write(case, ctx)
    with mount(case, path, options, nested, ctx)[0] as alone:
        contents = {p: e['data'] for p, e in view.snapshot(alone).items() if e['type'] == 'file'}
    names = sorted(p for p in contents if contents[p])
    if not names:
        raise Skip
    ms, wrapped = mount(case, path, options, nested, ctx, rng)
    ctx.keep(ms)
    infos = {p: ms.lookup(p) for p in view.snapshot(ms, content=False) if p in contents}
    check(set(infos) == set(contents), 'the files differ between mounts')
    errors, threads = [], []
    barrier = threading.Barrier(len(case['threads']))
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        if wrapped:
            wrapped.active = True
        for i, program in enumerate(case['threads']):
            trace = tracer(case['seed'] + i, case['rate']) if case['rate'] else None
            thread = threading.Thread(target=work, args=(ms, program, infos, contents, errors, barrier, trace, names), daemon=True)
            thread.start()
            threads.append(thread)
        deadline = time.monotonic() + 60
        for thread in threads:
            thread.join(max(0.1, deadline - time.monotonic()))
    finally:
        sys.setswitchinterval(interval)
        if wrapped:
            wrapped.active = False
    if any(thread.is_alive() for thread in threads):
        raise Violation('threads block each other or do not end')
    if errors:
        raise errors[0]
    used = sum(len(p) for p in case['threads'])
    ctx.label(case['kind'], case.get('inner', ''), case.get('codec', ''), 'via ' + case['via'], f"preemption {case['rate']}", f'{len(threads)} threads')
    ctx.nontrivial(used >= 8)


SUBS = [Sub('threads', cases, run, 1200, 30000)]
