"""C29: data embedded in HTML is extracted completely and correctly."""
import base64
import hashlib
import io
import mimetypes
import os
import posixpath
import stat
import urllib.parse

from hypothesis import strategies as st

from checks.C01 import open_ms
from checks.C04 import compare, snapshot
from vp import boot, gen, view
from vp.core import Sub, Violation, check

ID = 'C29'
TECHNIQUE = 'property-based testing: documents generated from known payloads; extracted files must be exactly the payloads'
RULE = """
HTML documents are assembled from random payloads: data URLs as attribute values (double-quoted, single-quoted, unquoted, odd attribute and tag names, spaces around '=', attributes before and after, quoted '>', several per
tag), in style and script text (url() with and without quotes, quoted strings containing '</', saved-page comments), encoded with base64 (padded or not, percent-encoded, with line breaks), percent encoding
of any byte, or plain text in a declared charset, with characters replaced by named, decimal, or hexadecimal character references; between them ordinary tags, comments with data URLs, text with character references, empty data URLs,
multi-byte or invalid characters, any line endings, byte order marks, and fillers that move things over buffer limits of 8 to 128 KiB. The mount (by path,
file object, factory; index in memory, stored, and reused) must have exactly one file per payload with the right name, size and bytes.
Non-trivial: at least two payloads, one of them with at least 10 bytes, and something (character reference, multi-byte character, line ending) that makes offsets differ.
"""
MIMES = ['image/png', 'text/css', 'text/plain', 'image/svg+xml', 'application/octet-stream', 'text/html', 'font/woff2', 'image/jpeg', 'unknown/type', '', 'text/javascript', 'application/json']
ATTRIBUTES = ['src', 'href', 'SRC', 'xlink:href', 'data_x', '@click', ':src', 'data', 'content', 'poster', 'Background', 'x.y', 'srcset', '[src]', '(x)', '_a', 'a1']
TAGS = ['img', 'IMG', 'link', 'video', 'my-element', 'svg:image', 'x_y', 'p', 'object', 'input', 'a']
# Only ASCII characters that have no special meaning in the given place are given raw.
COMMON = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~!$*+,/:;@?'


@st.composite
def urls(draw, places):
    return {
        'k': draw(st.sampled_from(places)),
        'c': draw(st.one_of(gen.contents(300, sizes=[1, 2, 3, 4, 5]), gen.contents(70000, sizes=[3000, 60000]))),
        'text': draw(st.one_of(st.none(), st.none(), st.text(st.sampled_from(list('aZ09 äß€漢😀\n"\'<>&%#()=;,+/\\')), min_size=1, max_size=30))),
        'how': draw(st.sampled_from(['base64', 'base64', 'unpadded', 'quoted64', 'lines64', 'percent', 'percent', 'all', 'charset'])),
        'mime': draw(st.sampled_from(MIMES)),
        'parameter': draw(st.sampled_from(['', '', '', ';charset=utf-8', ';charset=US-ASCII', ';utf8', ';x=1-2', ';charset%3Dutf8', '; utf8', ';charset=iso-8859-1', ';charset=nonsense', ';charset=hex', ';'])),
        'refs': draw(st.sampled_from(['no', 'no', 'decimal', 'hex', 'named'])),
        'attribute': draw(st.sampled_from(ATTRIBUTES)), 'tag': draw(st.sampled_from(TAGS)),
        'equal': draw(st.sampled_from(['=', '=', ' = ', '=\n', '\t='])),
        'before': draw(st.lists(st.sampled_from(['alt="a > b"', "title='<x>'", 'disabled', 'width=10', 'data-x="data:nothing"', 'ALT="&quot;ä"', '/', 'empty=""', 'crossorigin', "on='x=\"y\"'", 'ä=1', 'x="data:,"']), max_size=3)),
        'after': draw(st.sampled_from(['', ' ', ' alt="1"', ' /', '\n', " x='data:'", ' checked'])),
        'save': draw(st.sampled_from(['', '', '', 'https://example.com/', '/assets/', 'a/'])),
        'second': draw(st.booleans()),
    }  # fmt: skip


def fillers():
    return st.one_of(
        st.sampled_from(['text &amp; more &copy; &#169 ', '<br>', '<br/>', '<p class="x">', '</p>', 'ä€漢😀', '<!-- "data:text/plain,comment" -->', '<!-- url(data:text/plain,comment) -->', '\n', '\n\n', 'a < b', 'x &lt y &',
                         '<?pi "x"?>', '<![CDATA[x]]>', '<a href="https://example.com/?a=1&b=2">', '<img src="data:image/png;base64,">', '<img src=data:,>', '<style>a { color: red }</style>', '<script>x = "a</b>" + \'ä\';</script>',
                         '<style>b { background: url(data:,) }</style>', '<meta content="data:none">', '<script></script>', '<title>&#37;&auml;</title>', 'invalid \udcff\udc80', '\x0c', '\u2028', '\u0085']).map(lambda s: {'k': 'filler', 's': s}),
        st.tuples(st.sampled_from(['a', 'ä', '漢', '&amp;', 'line\n']), st.sampled_from([100, 500, 8192, 65536, 131072]), st.integers(-40, 40)).map(lambda t: {'k': 'long', 's': t[0], 'n': max(1, t[1] + t[2])}),
    )  # fmt: skip


@st.composite
def cases(draw):
    pieces = draw(st.lists(st.one_of(urls(['attribute', 'attribute', 'css', 'script']), urls(['attribute', 'css', 'script']), fillers()), min_size=1, max_size=10))
    return {
        'pieces': pieces, 'newline': draw(st.sampled_from(['\n', '\n', '\r\n', '\r'])), 'bom': draw(st.sampled_from([False, False, True])),
        'head': draw(st.sampled_from(['<!DOCTYPE html>', '<html>', '<!doctype HTML>\n<html lang="de">', '<HTML><head></head>', '\n\n<!-- ä --><html>'])),
        'tail': draw(st.sampled_from(['', '</html>', '</body></html>\n', '<p', 'x', '\n'])),
        'via': draw(st.sampled_from(['path', 'path', 'fileobj', 'bytesio', 'factory'])), 'encoding': draw(st.sampled_from(['utf-8', 'utf-8', 'utf-8', 'iso-8859-1'])),
    }  # fmt: skip


def escape(c, how):
    if how == 'named':
        return {'&': '&amp;', '"': '&quot;', "'": '&apos;', '<': '&lt;', '>': '&gt;', '/': '&sol;', '+': '&plus;', '=': '&equals;', ';': '&semi;', ',': '&comma;', ':': '&colon;', 'a': '&#97;'}.get(c, c)
    return f'&#x{ord(c):x};' if how == 'hex' else f'&#{ord(c)};'


def encoded(piece, number, encoding, newline):
    """Returns URL (unescaped) and payload"""
    how, mime, parameter = piece['how'], piece['mime'], piece['parameter']
    data = gen.data(piece['c'])[: 3000 if how in ('percent', 'all', 'charset') else None]
    if piece['text'] and how in ('percent', 'all', 'charset'):
        data = piece['text'].encode()
    data = f'{number}'.encode() + data  # makes them unique
    if how.endswith('64') or how == 'unpadded':
        text = base64.b64encode(data).decode()
        if how == 'unpadded':
            text = text.rstrip('=')
        elif how == 'quoted64':
            text = urllib.parse.quote(text, safe='')
        elif how == 'lines64' and piece['k'] != 'script':
            text = newline.join(text[i : i + 60] for i in range(0, len(text), 60))
        marker = ('base64', 'base64', 'base64', 'BASE64', 'Base64')[number % 5]
        return f'data:{mime}{parameter.rstrip(";")};{marker},', text, data
    if how == 'all':
        return f'data:{mime}{parameter},', ''.join(f'%{b:02x}' for b in data), data
    safe = COMMON
    if piece['k'] == 'script':
        safe += '<>()=[]{} '
    elif piece['k'] == 'attribute':
        safe += '<>()=[]{} "\'&' if piece['refs'] != 'no' else '()[]{} '
    if how == 'charset':
        text = data.decode('utf-8', 'replace').replace('\ufffd', '?')
        if encoding == 'iso-8859-1':
            text = text.encode('latin-1', 'replace').decode('latin-1')
        # Anything that is not safe is percent-encoded as UTF-8. Non-ASCII characters are given as they are, in the declared charset.
        declared = {';charset=utf-8': 'utf-8', ';utf8': 'utf-8', ';charset%3Dutf8': 'utf-8', '; utf8': 'utf-8', ';charset=iso-8859-1': 'latin-1'}.get(parameter, 'utf-8')
        raw = ''.join(c for c in text if c >= '\xa0' or c in safe)
        try:
            raw.encode(declared)
        except UnicodeError:
            declared = 'utf-8'
        url = ''.join(c if c in safe or c >= '\xa0' else urllib.parse.quote(c.encode(), safe='') for c in text)
        payload = b''.join(c.encode(declared) if c in safe or c >= '\xa0' else c.encode() for c in text)
        return f'data:{mime}{parameter},', url, payload
    return f'data:{mime}{parameter},', ''.join(chr(b) if chr(b) in safe else f'%{b:02X}' for b in data), data


def extension(mime):
    return '.js' if mime.endswith('/javascript') else (mimetypes.guess_extension(mime or 'text/plain') or '')


def attribute(piece, number, encoding, newline, where, expected, quote=None, name=None, save=True):
    prefix, text, payload = encoded(piece, number, encoding, newline)
    quote = quote or ['"', "'", '', '"'][piece['c'][2] % 4]
    url = prefix + text
    must = {'"': '"&', "'": "'&", '': '"\'=<>`& \t\r\n'}[quote] if piece['refs'] != 'no' else '&'
    if quote == '' and piece['refs'] == 'no' and any(c in url for c in ' \t\r\n\'"<>`'):
        quote = '"'
    some = {'decimal': 'ae,', 'hex': 'x/+=', 'named': '&"\'<>/+=;,:'}.get(piece['refs'], '')
    result, limit = [], 0
    for c in url:
        if c in must:
            result.append(escape(c, 'decimal' if piece['refs'] == 'no' or c in ' \t\r\n`' else piece['refs']))
        elif c in some and (limit := limit + 1) < 40 and len(result) > 4:
            result.append(escape(c, piece['refs']))
        else:
            result.append(c)
    name = name or piece['attribute']
    found = piece['save'] if save else ''
    saved = ''
    if found:
        found += f'f{number}.x'
        saved = f'data-savepage-{name.lower()}="{found}" '
    expected.append((found, piece['mime'], payload))
    return f'{saved}{name}{piece["equal"]}{quote}{"".join(result)}{quote}'


def document(case):
    expected = []
    parts = [case['head']]
    encoding, newline = case['encoding'], case['newline']
    different = False
    for number, piece in enumerate(case['pieces']):
        if piece['k'] == 'filler':
            parts.append(piece['s'])
        elif piece['k'] == 'long':
            parts.append(piece['s'] * (piece['n'] // len(piece['s'])))
        elif piece['k'] == 'attribute':
            before = ' '.join(piece['before'])
            tag = f'<{piece["tag"]} {before} ' + attribute(piece, number, encoding, newline, 'first', expected)
            if piece['second']:
                other = [a for a in ATTRIBUTES if a.lower() != piece['attribute'].lower()][number % 10]
                tag += ' ' + attribute({**piece, 'mime': 'image/gif'}, number + 1000, encoding, newline, 'second', expected, name=other, save=False)
            # '/' would belong to an unquoted value
            parts.append(tag + ((' ' + piece['after']) if tag[-1] not in '"\'' else piece['after']) + '>')
        else:
            css = piece['k'] == 'css'
            prefix, text, payload = encoded(piece, number, encoding, newline)
            text = text.replace('&', '%26').replace("'", '%27').replace('"', '%22')
            save = f'{piece["save"]}f{number}.x' if piece['save'] and css else ''
            quote = ['"', "'", ''][piece['c'][2] % 3] if css else ['"', "'"][piece['c'][2] % 2]
            if css and quote:
                save = ''  # Saved-page comments are only used in front of unquoted URLs.
            comment = f'/*savepage-url={save}*/' if save else ''
            content = f'a ä {{ background: {comment}url({quote}{prefix}{text}{quote}) }}\n' if css else f'x = "ä</b>"; y({quote}{prefix}{text}{quote}, 0)\n'
            expected.append((save, piece['mime'], payload))
            tag = 'style' if css else 'script'
            if piece['second']:
                parts.append(f'<{tag}>\n{content}</{tag}>')
            else:
                parts.append(f'<{tag} a="1">/* &amp; */{content}</{tag}  >')
    parts.append(case['tail'])
    text = ''.join(parts)
    text = text.replace('\r\n', '\n').replace('\r', '\n').replace('\n', newline)
    if case['bom']:
        text = '\ufeff' + text
    if encoding == 'utf-8':
        return text.encode('utf-8', 'surrogateescape'), expected
    return ''.join(c if ord(c) < 256 else '?' for c in text).encode('latin-1'), expected


def names(expected):
    result = {}
    for save, mime, payload in expected:
        name = save or hashlib.sha256(payload).hexdigest() + extension(mime)
        if posixpath.splitext(name)[1].lower() != extension(mime).lower():
            name += extension(mime)
        result[posixpath.normpath('/' + name.lstrip('/'))] = payload
    return result


def show(ms):
    result = {}

    def walk(path):
        listing = ms.list(path)
        for name in listing or ():
            full = path.rstrip('/') + '/' + name
            info = ms.lookup(full)
            check(info is not None, 'listed, but not found', full)
            if stat.S_ISDIR(info.mode):
                walk(full)
                continue
            check(stat.S_ISREG(info.mode), 'not a regular file', full, info)
            with ms.open(info) as file:
                data = file.read()
            check(len(data) == info.size, 'wrong size', full, info.size, len(data))
            check(ms.versions(full) == 1, 'wrong number of versions', full, ms.versions(full))
            result[full] = data

    walk('/')
    return result


def verify(found, expected, what):
    for path in sorted(set(found) - set(expected)):
        raise Violation(f'{what}: unexpected file {path!r} with {found[path][:80]!r}')
    for path, data in expected.items():
        check(path in found, what, 'missing file', path, data[:80])
        if found[path] != data:
            at = next((i for i, (a, b) in enumerate(zip(found[path], data)) if a != b), min(len(data), len(found[path])))
            raise Violation(f'{what}: wrong contents of {path!r}: {len(found[path])} instead of {len(data)} B, first difference at {at}: {found[path][at:at + 40]!r} instead of {data[at:at + 40]!r}')


def run(case, ctx):
    from ratarmountcore.mountsource.factory import open_mount_source
    from ratarmountcore.mountsource.formats.html import HTMLMountSource

    data, payloads = document(case)
    expected = names(payloads)
    path = ctx.path('document.html')
    with open(path, 'wb') as file:
        file.write(data)
    if case['via'] == 'fileobj' or case['via'] == 'bytesio':
        source = ctx.keep(open(path, 'rb')) if case['via'] == 'fileobj' else io.BytesIO(data)
        with HTMLMountSource(source, encoding=case['encoding']) as ms:
            verify(show(ms), expected, 'via file object')
        check(not source.closed, 'the given file object was closed')
        source.seek(0)
        check(source.read() == data, 'the given file object was changed')
    elif case['via'] == 'factory':
        with open_mount_source(path, encoding=case['encoding'], writeIndex=False, indexFilePath=':memory:') as ms:
            verify(show(ms), expected, 'via factory')
    else:
        index = ctx.path('index.sqlite')
        for what in ('new index', 'stored index'):
            with HTMLMountSource(path, encoding=case['encoding'], indexFilePath=index, writeIndex=True, indexMinimumFileCount=0) as ms:
                verify(show(ms), expected, what)
        check(os.path.exists(index), 'the index was not stored')
    for piece in case['pieces']:
        ctx.label(piece['k'])
        if 'how' in piece:
            ctx.label(f'{piece["k"]}: {piece["how"]}')
    ctx.label(f'via {case["via"]}')
    if len(data) > 131072:
        ctx.label('larger than 128 KiB')
    other = len(data) != len(data.decode('utf-8', 'replace')) or case['newline'] != '\n' or any(p.get('refs', 'no') != 'no' for p in case['pieces'])
    if len(expected) > 1 and max(map(len, expected.values())) >= 10 and other:
        ctx.nontrivial()


SUBS = [Sub('html', cases, run, 2500, 60000)]
