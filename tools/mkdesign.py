#!/usr/bin/env python3
"""mkdesign.py: writes DESIGN.md from the descriptions in checks/Cxx.py, the notes below, known_findings.json and seeded/."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)

HEAD = """# Design

Technique family: property-based testing and fuzzing only. Every property in `properties.jsonl` is decided by generating inputs, operation
histories, schedules or faults, running the real code of `/repo` on them, and comparing with an oracle that does not use that code. No
property is listed as not applicable. (This file is written by `tools/mkdesign.py`.)

## Machinery

* `run.py ID [--thorough] | --replay FILE`: runs the sub-checks of `checks/ID.py` in worker processes, writes `evidence/ID.json`, prints
  `VIOLATION property=ID replay=…` and exits 1, or exits 0. All cases are a pure function of `VERIF_SEED` and the number of workers is fixed,
  so that a run repeats exactly.
* `vp/core.py`: cases are drawn by Hypothesis strategies as plain JSON values, so that every case can be stored, shrunk and replayed.
  A failing case is shrunk by Hypothesis in the worker, confirmed by running it again from its JSON, and stored in `replays/`. Violations are
  grouped by message; exceptions that pass through a frame of `/repo` are violations, exceptions that only pass through `/verif` are errors
  of the check (and make the check fail loudly, never silently). Each case has its own scratch folder on tmpfs with its own HOME, index
  folders and temporary folder. A case that takes too long is ended by a watchdog and counts as hang.
* `vp/gen.py`, `vp/tars.py`: own byte-level TAR writer and member strategies; the expected view comes from the member list.
  `vp/formats.py`: writers for ZIP, 7z, CPIO, AR, ASAR, SQLAR, RAR3/RAR5 (stored), ISO 9660, XAR, `vp/images.py`: SquashFS (mksquashfs), own FAT12/16/32
  and EXT4 writers, Git; `vp/compress.py`: own framing for gzip (BGZF, flush points, many members), xz (blocks, streams, padding), zstd
  (frames, skippable frames, frame sizes), lz4, bzip2, lzma, lzip, compress, uuencode, zlib. `vp/view.py`: snapshot of a mount source and comparisons.
  `vp/faults.py`: counts and interrupts modifying system calls during index creation. `vp/isolate.py`: forked child with limits for CPU time and
  address space. `vp/indexes.py`: places for indexes.
* Numbers: `quick` is sized so that each check takes 10 to 60 s on 8 cores; `thorough` runs roughly 40 to 100 times as many cases, from the same
  strategies, limited to about one hour per property.
* Why this reaches what the tests cannot: the tests of the repository pin results for about a hundred fixed archives. The generators vary layout
  (block sizes, header variants, name lengths, counts around batch sizes of 1000 rows, options, histories, thread schedules, fault points) and
  the oracles are complete views (every path, every byte, every attribute), so that any difference shows, not just the one a test looks for.

## Properties
"""

EXTRA = {
    'C01': 'Oracle: the member list handed to the byte-level writer; for GNU tar the real tree. Excluded by construction: paths that are a file and a folder, hard links to targets with several versions.',
    'C02': 'Oracle: byte arrays and a position model. Bounds: files up to a few hundred KiB, 60 operations, nesting of views up to three.',
    'C03': 'Oracle: the uncompressed bytes. lzop was dropped because libarchive runs an external program which deadlocks; empty data in bz2, xz, lz4, lzma, lzip, compress and uuencode is refused by design; data of zeros only in codecs that only libarchive handles counts as empty TAR; indexed_gzip needs spacings above 32 KiB.',
    'C04': 'Oracle: opening without any index.',
    'C05': 'Oracle: opening without any index. Fault points are modifying system calls on the index (write, pwrite, truncate, rename, unlink, …), which includes SQLite journals. When an unusable index is in the way of a TAR, the libarchive backend may take over and show less metadata; then names and contents are compared. With readOnlyIndex, an index of a grown TAR is used as is by design.',
    'C06': 'Oracle: opening a copy without index. The incremental path checks old members only by samples; changes which keep the samples, the size and the time are not noticeable by design and not generated.',
    'C07': 'Oracle: a model that unfolds the forest. Learned limits (correct code, not alarms): the compression layer of a compressed TAR counts as a level when the depth is explicit; `.a` is treated as binary and not mounted by default; nested zstd needs a real file descriptor; up to 10 bytes of garbage may be detected as raw deflate; recursiveExtensions do not affect TAR in TAR; a transformation into folders which do not exist is not listed.',
    'C08': 'Oracle: list of members per path. Hard links to targets with several versions are not generated (they show the last version).',
    'C09': 'Oracle: the sources mounted individually. Below a path that the winner shows as non-folder nothing is compared.',
    'C10': 'Oracle: map from mount points to separately mounted views. The command file is driven in-process.',
    'C11': 'Oracle: the generating tree. ZIP and libarchive deliberately mask setuid, setgid and sticky bits; RAR archives come from an own stored-only writer which was validated with unrar.',
    'C12': 'Oracle: the generating tree. The FAT and EXT4 writers were validated with independent readers.',
    'C13': 'Oracle: agreement of the interfaces. Lazily mounted archives may be listed as files until first accessed; hard links have no own type below the version layer.',
    'C14': 'Oracle: termination with an ordinary result in a limited child (15 s CPU, 3 GiB). Not coverage guided, see NOTE.',
    'C15': 'Oracle: the format that was written, and repetition. Misnamed TARs are opened by libarchive which shows less metadata, so they are compared loosely.',
    'C16': 'Oracle: the intact archive. TARs cut below 512 bytes are skipped; a compressed TAR cut so that less than a header is left may be shown as one compressed file; decoders which check the whole stream may refuse to read, which is allowed.',
    'C17': 'Oracle: hashlib, zlib, and an own implementation of the smplayer hash.',
    'C18': 'Oracle: metamorphic. TAR in TAR is not generated (the prefix would be transformed twice).',
    'C19': 'Oracle: a model of numbering and the payload. Alphabetic parts without a first "a" and upper-case extensions are not parts by design.',
    'C20': 'Oracle: a real folder. EXDEV refusals are allowed if they change nothing; handles opened read-only before the first change keep showing the data of the archive; names that are not valid UTF-8 cannot be stored by the overlay database and are not generated.',
    'C21': 'Oracle: the view before committing. Hard links in the archive, and TARs which become empty, are not generated; changes of metadata only are not committed by design.',
    'C22': 'Oracle: the generating tree. FUSE cannot be mounted here, so the operations object is called in-process the way the kernel would.',
    'C23': 'Oracle: a model of index placement and a complete file system tree before and after.',
    'C24': 'Oracle: the generating tree and the documented behaviour of fsspec. Negative ranges and opening folders differ between fsspec implementations and are not generated.',
    'C25': 'Oracle: a model from the help text. Unknown backend names are not rejected by the code (not generated).',
    'C26': 'Oracle: the operating system.',
    'C27': 'Oracle: the sequential result. Preemption points are every traced line of ratarmount and every call of the shared file object; schedules are derived from the seed of the case.',
    'C28': 'Oracle: the stored files. 7z is only checked for never showing wrong bytes.',
    'C29': 'Oracle: the payloads. Uppercase "DATA:", data URLs in style attributes, unclosed style or script elements, duplicate attributes and nested data URLs are not generated.',
    'C30': 'Oracle: the generating objects.',
}

ENVIRONMENT = """
## Environment limits

* FUSE cannot be mounted in the sandbox; `ratarmount.FuseMount.FuseMount` is driven in-process. `C25` replaces `mfusepy.FUSE` by a stand-in.
* py7zr is installed in a version that ratarmount refuses, so 7z goes through libarchive (py7zr is used as writer only).
* No network: only loopback, local, memory, directory, ZIP and TAR file systems of fsspec are used. Remote protocols (ssh, s3, dropbox, …) are not covered.
* No mkfs tools for FAT and EXT4, no rar, lzip or genisoimage: own writers.
* `rapidgzip` aborts the process for some damaged bzip2/gzip streams ("The bit buffer should not contain more data…"): defect of the dependency, excluded by its
  message in C14 and C16.

## False alarms met while building, and what was done

Every alarm on the unchanged tree was reproduced outside of the check. Where the code was right the strategy or oracle was corrected; the resulting limits
are named under the properties above. Typical ones: names composed to NFC by libarchive, ambiguous non-ASCII names written by zip and 7z,
existing indexes with other creation options (the code only warns), joined single compressed files named '<file object>' (pinned by tests),
garbage that really is a valid raw deflate stream, relative paths of archives in index names, and minimum file counts between the number of files and of entries.
"""


def constants(path):
    found = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ('TECHNIQUE', 'RULE', 'ASSUMES', 'NOTE'):
            found[node.targets[0].id] = ast.literal_eval(node.value)
    return found


def main():
    out = [HEAD]
    for line in open('properties.jsonl'):
        prop = json.loads(line)
        info = constants(f"checks/{prop['id']}.py")
        out.append(f"### {prop['id']}: {prop['title']}\n")
        out.append(f"Method: {info['TECHNIQUE']}.\n")
        out.append('Generated and checked: ' + ' '.join(info['RULE'].split()) + '\n')
        if prop['id'] in EXTRA:
            out.append(EXTRA[prop['id']] + '\n')
        for assumption in info.get('ASSUMES', []):
            out.append(f'* Assumption: {assumption}')
        if info.get('NOTE'):
            out.append(f"* Note: {info['NOTE']}")
        out.append('')
    out.append(ENVIRONMENT)
    known = json.load(open('known_findings.json'))
    out.append('## Known findings (genuine, not repaired; reported as KNOWN-FINDING by the stored case)\n')
    for finding in known['findings']:
        out.append(f"* {finding['property']} (`{finding['case']}`): {finding['summary']}")
    out.append(f"\n## Repaired defects\n\n{len(known['fixed'])} `fix:` commits in `/repo`, found by these checks; all are listed in `known_findings.json`. Number per property:\n")
    count = {}
    for entry in known['fixed']:
        prop = entry.split('property=')[1].split()[0]
        count[prop] = count.get(prop, 0) + 1
    out.append(', '.join(f'{p}: {n}' for p, n in sorted(count.items())) + '.\n')
    out.append('## Planted bugs (`seeded/`)\n')
    out.append('Written from the property and the code. "strengthened" names what was missing when the bug was first tried.\n')
    out.append('| Bug | Property | Needs | Caught by the quick check |\n|---|---|---|---|')
    caught = json.load(open('tools/caught.json'))
    for path in sorted(glob.glob('seeded/*/meta.json')):
        name = path.split('/')[1]
        meta = json.load(open(path))
        out.append(f"| {name} | {meta['property']} | {meta['needs']} | {caught.get(name, '?')} |")
    open('DESIGN.md', 'w').write('\n'.join(out) + '\n')


main()
