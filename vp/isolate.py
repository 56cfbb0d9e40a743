"""Runs one case in a child process, so that crashes of native libraries and exhausted memory can be judged and minimized."""

import contextlib
import functools
import io
import os
import pickle
import resource
import signal
import sys
import time
import traceback

from vp import core
from vp.core import Skip, Violation

# Aborts of third-party C++ code, which Python code can neither prevent nor catch.
RAPIDGZIP_ABORTS = (
    'The bit buffer should not contain more data than have been read from the file!',
)


@functools.lru_cache(None)
def warm_up():
    """Do all imports before forking."""
    with contextlib.suppress(Exception):
        import libarchive  # noqa: F401
    from ratarmountcore.mountsource.factory import open_mount_source

    for data in (b'junk' * 1000, b'', b'\x1f\x8b\x08\0' + bytes(100), b'0' * 1000):
        with contextlib.suppress(Exception):
            with open_mount_source(io.BytesIO(data), indexFilePath=':memory:') as ms:
                ms.list('/')


def isolated(function, ctx, *, seconds=60, cpu=20, memory=None, excuses=RAPIDGZIP_ABORTS):
    """Calls function() in a forked process and reproduces its outcome, labels included, in this one."""
    warm_up()
    answer, errors = ctx.path('.answer'), ctx.path('.stderr')
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            descriptor = os.open(errors, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(descriptor, 2)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
            if memory:
                with open('/proc/self/statm', encoding='ascii') as file:
                    memory += int(file.read().split()[0]) * resource.getpagesize()
                resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
            outcome = _outcome(function, ctx)
            with open(answer + '.tmp', 'wb') as file:
                pickle.dump((outcome, ctx.labels, ctx.is_nontrivial), file)
            os.rename(answer + '.tmp', answer)
            status = 0
        finally:
            os._exit(status)
    end = time.monotonic() + seconds
    status = None
    try:
        delay = 0.0005
        while True:
            done, status = os.waitpid(pid, os.WNOHANG)
            if done:
                break
            if time.monotonic() > end:
                status = None
                break
            time.sleep(delay)
            delay = min(delay * 1.5, 0.02)
    finally:
        if not status and not os.path.exists(answer):
            with contextlib.suppress(OSError):
                os.kill(pid, signal.SIGKILL)
        with contextlib.suppress(OSError):
            os.waitpid(pid, 0)
    if os.path.exists(answer):
        with open(answer, 'rb') as file:
            (kind, *rest), labels, nontrivial = pickle.load(file)
        ctx.label(*labels)
        ctx.nontrivial(nontrivial)
        if kind == 'skip':
            raise Skip
        if kind == 'violation':
            raise Violation(rest[0], key=rest[1])
        if kind == 'error':
            raise RuntimeError('In child process: ' + rest[0])
        return rest[0]
    if status is None:
        raise Violation(f'Not terminated: did not finish within {seconds} s', key='not-terminated')
    with open(errors, encoding='utf-8', errors='replace') as file:
        text = file.read()
    if os.WIFSIGNALED(status):
        if any(excuse in text for excuse in excuses):
            raise Skip
        if os.WTERMSIG(status) == signal.SIGXCPU:
            raise Violation(f'Not terminated: used more than {cpu} s of CPU time', key='not-terminated')
        raise Violation(f'Process died from signal {os.WTERMSIG(status)}: {text[-1500:]}')
    raise RuntimeError(f'Child process ended with {status}: {text[-3000:]}')


def _outcome(function, ctx):
    try:
        try:
            return ('ok', function())
        finally:
            ctx.stack.close()
    except Violation as violation:
        return ('violation', str(violation), violation.key)
    except Skip:
        return ('skip',)
    except (MemoryError, RecursionError) as exception:
        return ('violation', f'{type(exception).__name__}: {exception}\n' + _trace(exception), None)
    except BaseException as exception:
        if core._passes_through_repo(exception):
            return ('violation', f'Unexpected {type(exception).__name__}: {exception}\n' + _trace(exception), None)
        return ('error', _trace(exception))


def _trace(exception):
    return ''.join(traceback.format_exception(exception))[-2500:]
