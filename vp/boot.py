"""Import-path and environment set-up.  Must be imported before anything from ratarmount."""
import logging
import os
import sys
import tempfile

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYPOTHESIS_PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

PYTHON = '/opt/venv/bin/python'


def setup():
    # The editable install already points to /repo, but be explicit about which tree is under test.
    for path in (REPO, os.path.join(REPO, 'core')):
        if path in sys.path:
            sys.path.remove(path)
        sys.path.insert(0, path)
    if HYPOTHESIS_PATH not in sys.path:
        sys.path.append(HYPOTHESIS_PATH)
    logging.disable(logging.CRITICAL)

    import ratarmountcore  # noqa: F401

    assert os.path.realpath(ratarmountcore.__file__).startswith(os.path.realpath(REPO) + '/'), ratarmountcore.__file__
    remember_versions()


def remember_versions():
    """Looking up the version of an installed module, which is stored in each index, takes up to a second. Do it once."""
    import functools

    import ratarmountcore.utils

    original = getattr(ratarmountcore.utils, 'find_module_version', None)
    if original is None or hasattr(original, 'cache_info'):
        return
    cached = functools.lru_cache(None)(original)
    for module in list(sys.modules.values()):
        if (getattr(module, '__name__', '') or '').startswith('ratarmountcore') and getattr(module, 'find_module_version', None) is original:
            module.find_module_version = cached


def scratch_parent() -> str:
    """A fast place for scratch folders."""
    for path in ('/dev/shm', tempfile.gettempdir()):
        try:
            if os.path.isdir(path) and os.access(path, os.W_OK):
                st = os.statvfs(path)
                if st.f_bavail * st.f_frsize > 4 << 30:
                    return path
        except OSError:
            pass
    return tempfile.gettempdir()
