"""Ending a process, or filling the disk, at the n-th modifying system call on certain files. See faults.c."""
import ctypes
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

COUNT, END_BEFORE, END_WITHIN, FULL = range(4)


def preload():
    """To be called before exec. Adds the library to LD_PRELOAD."""
    folder = tempfile.mkdtemp(prefix='vp-faults-')
    library = os.path.join(folder, 'faults.so')
    source = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'faults.c')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', library, source, '-ldl'], check=True)
    os.environ['LD_PRELOAD'] = library


def loaded():
    """To be called after exec. The library stays mapped."""
    library = os.environ.pop('LD_PRELOAD')
    os.unlink(library)
    os.rmdir(os.path.dirname(library))


def in_child(function, text, mode, limit, timeout=100):
    """
    Calls function() in a forked process with the given fault. Returns (exit code, number of modifying system calls,
    result of the function or None, error text or None).  The exit code is 77 if the fault ended it.
    """
    library = ctypes.CDLL(None)
    read_fd, write_fd = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.setitimer(signal.ITIMER_PROF, 0)
            os.close(read_fd)
            library.vp_arm(text.encode(), mode, ctypes.c_long(limit))
            result, error = None, None
            try:
                result = function()
            except BaseException as exception:
                error = ''.join(traceback.format_exception(exception))[-3000:]
            count = library.vp_disarm()
            with os.fdopen(write_fd, 'w') as file:
                json.dump([count, result, error], file)
            code = 0
        finally:
            os._exit(code)
    os.close(write_fd)
    data = b''
    end = time.monotonic() + timeout
    import select

    while time.monotonic() < end:
        ready, _, _ = select.select([read_fd], [], [], 1)
        if ready:
            chunk = os.read(read_fd, 1 << 16)
            if not chunk:
                break
            data += chunk
    else:
        os.kill(pid, signal.SIGKILL)
    os.close(read_fd)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code == 0:
        return (0, *json.loads(data))
    return code, -1, None, None
