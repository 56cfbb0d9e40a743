"""C28: encrypted archives open with the right password and only with it."""
import hashlib
import io
import os
import random
import shutil
import sqlite3
import stat
import struct
import subprocess
import tarfile
import zipfile
import zlib

from hypothesis import strategies as st

from checks.C07 import open_recursive
from vp import gen
from vp.core import Sub, Skip, Violation, check
from vp.formats import vint

ID = 'C28'
TECHNIQUE = 'property-based testing: archives encrypted by other programs and own writers with generated passwords; contents compared with what was stored'
RULE = """
Random files are stored in ZIPs (traditional encryption by zip, AES by 7z, partly encrypted, several compression levels), encrypted SQLARs (sqlcipher), RARs (version 5, own writer, also with encrypted headers, validated
with unrar), and 7z archives with a random password of ASCII or Unicode characters. They are opened by path, file object, or inside of a TAR with a list of random wrong passwords, some of which were searched to pass the
8-bit password check of traditional ZIP encryption, with the right one anywhere in it: all names, sizes and bytes must be right. Without the right one, opening fails or every encrypted file
either raises an error or has the right bytes, and unencrypted files have the right bytes. Non-trivial: at least one encrypted file with 10 bytes or more and at least one wrong password.
"""
ASSUMES = [
    'py7zr cannot be used in this environment because ratarmount refuses its version, so 7z archives are only checked for never showing wrong bytes.',
    'One password per archive. Partly read files are not judged without the right password because traditional ZIP encryption only detects it at the end.',
]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['zip', 'zip', 'zip', 'zip', 'zip', 'aes', 'rar', 'rar', 'rar', '7z']))
    return _case(draw, kind)


@st.composite
def sqlar_cases(draw):
    return _case(draw, 'sqlar')


def _case(draw, kind):
    letters = 'aB1 \'";$\\-*@' if kind in ('aes', '7z') else 'aB1 \'";$\\-*@äß漢'
    password = st.text(st.sampled_from(list(letters)), min_size=1, max_size=12)
    wrong = st.one_of(password, password, st.just('fitting'), st.just('fitting'), st.sampled_from(['', 'right+1', 'case', 'strip']))
    return {
        'kind': kind, 'password': draw(password),
        'files': draw(st.lists(st.tuples(gen.contents(3000).map(list), st.sampled_from([True, True, False])).map(list), min_size=1, max_size=5)),
        'wrong': draw(st.lists(wrong, max_size=1 if kind == 'sqlar' else 4)), 'at': draw(st.integers(0, 4)),
        'right': draw(st.sampled_from([True, True, True, False])), 'level': draw(st.sampled_from([0, 0, 6])),
        'headers': draw(st.booleans()), 'check': draw(st.sampled_from([True, True, False])),
        'via': draw(st.sampled_from(['path', 'path', 'fileobj', 'nested'])), 'seed': draw(st.integers(0, 100)), 'stream': draw(st.booleans()),
    }  # fmt: skip


def call(*args, cwd=None):
    subprocess.run(args, check=True, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=cwd)


def write_rar(path, files, case):
    """Returns the encrypted bytes of each file."""
    result = {}
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

    rng = random.Random(case['seed'])
    password = case['password'].encode()
    count = rng.choice([0, 3, 8])

    def keys(salt):
        key = hashlib.pbkdf2_hmac('sha256', password, salt, 1 << count)
        value = hashlib.pbkdf2_hmac('sha256', password, salt, (1 << count) + 32)
        short = bytearray(8)
        for i, c in enumerate(value):
            short[i % 8] ^= c
        return key, bytes(short) + hashlib.sha256(short).digest()[:4]

    def encrypt(key, iv, data):
        encryptor = Cipher(algorithms.AES(key), modes.CBC(iv)).encryptor()
        return encryptor.update(data + bytes(-len(data) % 16)) + encryptor.finalize()

    with open(path, 'wb') as file:
        header_key = None

        def block(kind, flags, fields, extra=b'', payload=b''):
            head = vint(kind) + vint(flags | (1 if extra else 0) | (2 if payload else 0))
            head += (vint(len(extra)) if extra else b'') + (vint(len(payload)) if payload else b'') + fields + extra
            head = vint(len(head)) + head
            head = struct.pack('<L', zlib.crc32(head)) + head
            if header_key:
                iv = rng.randbytes(16)
                head = iv + encrypt(header_key, iv, head)
            file.write(head + payload)

        file.write(b'Rar!\x1a\x07\x01\x00')
        if case['headers']:
            salt = rng.randbytes(16)
            key, verifier = keys(salt)
            block(4, 0, vint(0) + vint(1 if case['check'] else 0) + bytes([count]) + salt + (verifier if case['check'] else b''))
            header_key = key
        block(1, 0, vint(0))
        for name, (data, encrypted) in files.items():
            extra, payload = b'', data
            if encrypted:
                salt, iv = rng.randbytes(16), rng.randbytes(16)
                key, verifier = keys(salt)
                record = vint(1) + vint(0) + vint(1 if case['check'] else 0) + bytes([count]) + salt + iv + (verifier if case['check'] else b'')
                extra = vint(len(record)) + record
                payload = result[name] = encrypt(key, iv, data)
            fields = vint(2 | 4) + vint(len(data)) + vint(stat.S_IFREG | 0o644) + struct.pack('<L', 1500000000) + struct.pack('<L', zlib.crc32(data))
            fields += vint(0) + vint(1) + vint(len(name.encode())) + name.encode()
            block(2, 0, fields, extra, payload)
        block(5, 0, vint(0))
    return result


def write(case, ctx):
    """Returns path and {name: (data, encrypted)}."""
    kind, password = case['kind'], case['password']
    extension = {'aes': '.zip'}.get(kind, '.' + kind)
    path = ctx.path('archive' + extension)
    files = {}
    for i, (content, encrypted) in enumerate(case['files']):
        everything = kind in ('aes', 'sqlar', '7z') or (kind == 'rar' and case['headers'])
        files[f'file{i}'] = (gen.data(content), encrypted or everything)
    if kind == 'sqlar':
        import sqlcipher3

        connection = sqlcipher3.connect(path)
        quoted = password.replace('"', '""')
        connection.execute(f'PRAGMA key = "{quoted}"')
        connection.execute('CREATE TABLE sqlar(name TEXT PRIMARY KEY, mode INT, mtime INT, sz INT, data BLOB)')
        for name, (data, _) in files.items():
            packed = zlib.compress(data)
            connection.execute('INSERT INTO sqlar VALUES (?, ?, ?, ?, ?)', (name, stat.S_IFREG | 0o644, 1500000000, len(data), packed if len(packed) < len(data) else data))
        connection.commit()
        connection.close()
        return path, files
    if kind == 'rar':
        case['_raw'] = write_rar(path, files, case)
        return path, files
    folder = ctx.path('files')
    os.mkdir(folder)
    for name, (data, _) in files.items():
        with open(os.path.join(folder, name), 'wb') as file:
            file.write(data)
    if kind in ('aes', '7z'):
        options = [f'-tzip', '-mem=AES256'] if kind == 'aes' else ['-t7z', f'-mhe={"on" if case["headers"] else "off"}']
        call('7z', 'a', *options, f'-mx={case["level"]}', '-p' + password, path, *files, cwd=folder)
        return path, files
    for name, (_, encrypted) in files.items():
        if case['stream'] and len(files) == 1:
            with open(os.path.join(folder, name), 'rb') as source, open(path, 'wb') as target:
                subprocess.run(['zip', '-q', f'-{case["level"]}', *(['-P', password] if encrypted else []), '-', name], check=True, cwd=folder, stdin=source, stdout=target)
        else:
            call('zip', '-q', f'-{case["level"]}', *(['-P', password] if encrypted else []), path, name, cwd=folder)
    return path, files


def fitting(path, number):
    """Returns a wrong password that passes the check of the traditional encryption of ZIPs."""
    with zipfile.ZipFile(path) as archive, open(path, 'rb') as file:
        infos = [i for i in archive.infolist() if i.flag_bits & 1]
        if not infos:
            return 'x'
        info = infos[number % len(infos)]
        file.seek(info.header_offset + 26)
        name, extra = struct.unpack('<HH', file.read(4))
        file.seek(name + extra, 1)
        header = file.read(12)
        wanted = (info._raw_time >> 8) & 0xFF if info.flag_bits & 8 else (info.CRC >> 24) & 0xFF
    for i in range(3000):
        candidate = f'w{number}-{i}'
        if zipfile._ZipDecrypter(candidate.encode())(header)[11] == wanted:
            return candidate
    return 'x'


def passwords(case, path):
    result = []
    for i, wrong in enumerate(case['wrong']):
        right = case['password']
        if wrong == 'fitting':
            wrong = fitting(path, i) if case['kind'] == 'zip' else 'wrong'
        wrong = {'right+1': right + 'x', 'case': right.swapcase(), 'strip': right.strip()}.get(wrong, wrong)
        if wrong != right:
            result.append(wrong.encode())
    if case['right']:
        result.insert(min(case['at'], len(result)), case['password'].encode())
    return result


def run(case, ctx):
    case = dict(case)
    from ratarmountcore.mountsource.factory import open_mount_source

    path, files = write(case, ctx)
    candidates = passwords(case, path)
    options = {'passwords': candidates, 'indexFilePath': ':memory:'}
    # SQLAR and 7z passwords are one for the whole archive.
    supported = case['kind'] != '7z'
    encrypted = any(e for _, e in files.values())
    prefix = '/'
    try:
        if case['via'] == 'nested':
            outer = ctx.path('outer.tar')
            with tarfile.open(outer, 'w') as archive:
                archive.add(path, os.path.basename(path))
            ms = ctx.keep(open_recursive(outer, recursive=True, **options))
            prefix = '/' + os.path.basename(path) + '/'
            info = ms.lookup(prefix)
            if not info or not stat.S_ISDIR(info.mode):
                raise RuntimeError('nested archive was not opened')
        elif case['via'] == 'fileobj':
            with open(path, 'rb') as file:
                ms = ctx.keep(open_mount_source(io.BytesIO(file.read()), **options))
        else:
            ms = ctx.keep(open_mount_source(path, **options))
    except Exception as exception:
        ctx.label(f'{case["kind"]}: refused')
        if supported and (case['right'] or not encrypted):
            raise
        return finish(case, files, candidates, ctx)
    names = set(ms.list(prefix) or ())
    whole = supported and (case['right'] or not encrypted)
    if whole:
        check(names == set(files), 'names differ', sorted(names), sorted(files))
    check(names <= set(files), 'made up names', sorted(names), sorted(files))
    for name in sorted(names):
        data, hidden = files[name]
        try:
            info = ms.lookup(prefix + name)
            check(info is not None, 'listed, but not found', name)
            with ms.open(info) as file:
                actual = file.read()
        except Violation:
            raise
        except Exception:
            if whole or not hidden:
                raise
            ctx.label(f'{case["kind"]}: reading refused')
            continue
        if actual != data and not case['right'] and '_known' not in case and actual == case.get('_raw', {}).get(name, b'')[: len(data)]:
            ctx.label('known finding: encrypted bytes shown')  # known/C28-rar5-raw.json
            continue
        if actual != data:
            raise Violation(f'Wrong bytes from {name!r} ({"with" if case["right"] else "without"} the right password): {actual[:60]!r} instead of {data[:60]!r}')
        if whole:
            check(info.size == len(data), 'wrong size', name, info.size, len(data))
    finish(case, files, candidates, ctx)


def finish(case, files, candidates, ctx):
    ctx.label(case['kind'], 'via ' + case['via'], 'right password given' if case['right'] else 'without right password')
    ctx.nontrivial(any(e and len(d) >= 10 for d, e in files.values()) and len(candidates) > (1 if case['right'] else 0))


SUBS = [Sub('encrypted', cases, run, 1200, 25000), Sub('sqlar', sqlar_cases, run, 40, 1500)]
