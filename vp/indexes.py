"""Where index files are put and found."""
import bz2
import gzip
import lzma
import os

from hypothesis import strategies as st

PLACES = ['beside', 'folder', 'explicit', 'explicit-odd', 'home', 'xdg']


class Placement:
    """How an archive's index is configured, and where it is then."""

    def __init__(self, place, ctx, archive):
        self.place, self.archive = place, archive
        self.options = {'writeIndex': True, 'indexMinimumFileCount': 0}
        flat = (archive + '.index.sqlite').replace('/', '_')
        if place == 'beside':
            self.path = archive + '.index.sqlite'
        elif place == 'folder':
            folder = ctx.path('index folder')
            self.options['indexFolders'] = [folder]
            self.path = os.path.join(folder, flat)
        elif place == 'home':
            self.options['indexFolders'] = [os.path.join('~', '.ratarmount')]
            self.path = os.path.join(os.environ['HOME'], '.ratarmount', flat)
        elif place == 'xdg':
            # The first folder cannot be used because it is a file.
            blocked = ctx.path('blocked')
            if not os.path.exists(blocked):
                with open(blocked, 'wb') as file:
                    file.write(b'x')
            folder = ctx.path('second', 'deeper')
            self.options['indexFolders'] = [os.path.join(blocked, 'sub'), folder, '']
            self.path = os.path.join(folder, flat)
        else:
            self.path = ctx.path('explicit.sqlite' if place == 'explicit' else 'odd %23 ä? name#1.index')
            self.options['indexFilePath'] = self.path

    def exists(self):
        return os.path.isfile(self.path)


def content(path):
    try:
        with open(path, 'rb') as file:
            return file.read()
    except FileNotFoundError:
        return None


def zstd(data):
    import zstandard

    return zstandard.ZstdCompressor().compress(data)


COMPRESSORS = {'gz': gzip.compress, 'bz2': bz2.compress, 'xz': lzma.compress, 'zst': zstd}

places = st.sampled_from(PLACES)
