#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The property texts live here so that they can be edited comfortably."""
import json
import pathlib

C = 'core/ratarmountcore/'
M = C + 'mountsource/'
F = M + 'formats/'
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': observe,
            'hook_needed': None,
        },
    })


prop('C01', 'A mounted TAR shows exactly what the TAR contains',
     "For every valid TAR (ustar, GNU or PAX headers; long names, non-ASCII names, sparse members, hard and symbolic "
     "links, special files, duplicate members, missing parent members, concatenated archives when zero blocks are "
     "ignored), the mounted tree has exactly the members' paths plus their parent folders. Every member is shown with "
     "the type, size, permissions, owner, modification time, link target and extended attributes that the archive "
     "stores, and reading it returns exactly the archived bytes; the last of several equally named members wins.",
     ['inputs'], "all well-formed TAR files: member sequences, header dialects, name lengths and encodings, sparse maps, "
     "duplicate and parent-less members",
     "tests open a few dozen checked-in TARs; member order, header dialect, name length and sparse layout combinations "
     "are unbounded",
     [F + 'tar.py', C + 'SQLiteIndex.py', C + 'create-index-tables.sql', C + 'StenciledFile.py'],
     [('SQLiteIndexedTar index creation', F + 'tar.py'), ('row insertion and parent folder generation', C + 'SQLiteIndex.py')],
     ['mount source list/lookup/open/read/xattr'])

prop('C02', 'Reads at any offset return the same bytes as one sequential read',
     "For every file opened from any supported source, any interleaving of seek, tell, read and readinto calls on any "
     "number of simultaneously open handles, with any buffer size, returns exactly the corresponding slices of the "
     "file's contents, stops at the end of the file and reports consistent positions. Joined, sliced, sparse and "
     "database-backed file views equal the concatenation they are defined as.",
     ['inputs', 'histories'], "all file contents and layouts, and all sequences of seek/read/readinto/tell calls over "
     "several open handles",
     "tests read a handful of fixed offsets from fixed files on one handle",
     [C + 'StenciledFile.py', C + 'SQLiteBlobFile.py', C + 'BlockParallelReaders.py', C + 'compressions.py', F + 'libarchive.py',
      F + 'squashfs.py'],
     [('RawStenciledFile.read / seek', C + 'StenciledFile.py'), ('BlockParallelReader._read', C + 'BlockParallelReaders.py'),
      ('LibarchiveFile.seek / SquashFSFile.seek', F)],
     ['file objects returned by open()'])

prop('C03', 'Compression is transparent and seek points do not change results',
     "For every supported compression (gzip, bzip2, xz, zstd, lz4 and the others that are available) and any "
     "block, frame or stream layout, the compressed archive presents the same tree and the same bytes as the "
     "uncompressed one, and a compressed non-archive presents exactly one file with the decompressed bytes. This holds "
     "for any backend priority, parallelization and seek point spacing, and again when the stored seek points are reused.",
     ['inputs', 'configurations'], "all contents, compression formats, stream/frame/block layouts, backends, "
     "parallelization degrees and seek point spacings",
     "tests use fixed small archives with one stream layout per compression",
     [C + 'compressions.py', C + 'formats.py', F + 'tar.py', C + 'SQLiteIndex.py', C + 'BlockParallelReaders.py', F + 'singlefile.py'
      if False else M + 'compositing/singlefile.py'],
     [('open_compressed_file', C + 'compressions.py'), ('block offset synchronisation', F + 'tar.py / ' + C + 'SQLiteIndex.py')],
     ['mount source view', 'read results after reopening with an index'])

prop('C04', 'A reused index gives the same view as a freshly created one',
     "Opening an archive with an index that an earlier run stored (next to the archive, in an index folder, under an "
     "explicit path, compressed, or opened without permission to change it) yields the same tree, metadata, link "
     "targets, versions, extended attributes and file contents as opening the archive without any index. "
     "This holds across any number of reopenings, and an index that may only be read is left byte-identical.",
     ['inputs', 'configurations', 'histories'], "all archives, index locations and forms, option sets, and sequences of "
     "open/close with those options",
     "tests reopen a few archives once with the default location",
     [C + 'SQLiteIndex.py', M + 'SQLiteIndexMountSource.py', F + 'tar.py'],
     [('index opening and finalisation', C + 'SQLiteIndex.py'), ('metadata table', C + 'create-index-tables.sql')],
     ['mount source view', 'index file bytes'])

prop('C05', 'Damaged, interrupted or foreign indexes never change what is shown',
     "Whatever happened to the index file before (creation killed at any point or out of disk space, truncated, zeroed or missing "
     "parts, garbage, an index belonging to an archive of another size or format), opening the archive either shows the "
     "archive's true contents or fails with an error. It never presents a partial or foreign tree. Unless the index must not be "
     "changed, an interrupted index creation never prevents later openings from succeeding.",
     ['crash_points', 'fault_sequences'], "all interruption points during index creation and all truncations, overwrites "
     "and swaps of the stored index file",
     "tests never interrupt index creation and try only a couple of broken index files",
     [C + 'SQLiteIndex.py', M + 'SQLiteIndexMountSource.py', F + 'tar.py'],
     [('index validation on load', C + 'SQLiteIndex.py'), ('compatibility checks', F + 'tar.py')],
     ['mount source view after reopening'])

prop('C06', 'Changed archives are noticed when an old index exists',
     "When members are appended to a TAR after it was indexed, the next opening shows exactly the contents of the "
     "changed TAR. When an archive shrank or was replaced by one of another size, or by one of another "
     "modification time while modification times are verified, the stored index is not trusted and the view "
     "is that of the current archive.",
     ['histories'], "all sequences of index creation, appending, replacing, truncating and reopening",
     "tests append once to one archive",
     [F + 'tar.py', C + 'SQLiteIndex.py', M + 'SQLiteIndexMountSource.py'],
     [('append detection', F + 'tar.py'), ('archive stats check', C + 'SQLiteIndex.py')],
     ['mount source view after reopening'])

prop('C07', 'Recursive mounting shows nested archives as folders, exactly',
     "For every nesting of archives, recursive mounting (at creation time or lazily, up to any recursion depth) shows each nested "
     "archive within the depth as a folder with exactly the nested archive's contents at its path (or at the path "
     "given by extension stripping or the mount point transformation), and shows every file that is not "
     "a mountable archive or lies beyond the depth as a plain file with unchanged bytes. Eager and lazy mounting lead to the same view.",
     ['inputs', 'configurations'], "all nestings of archives and compressions, recursion depths, extension selections, lazy or eager "
     "mounting, stripping and transformation options",
     "tests use a few fixed nested archives and default options",
     [M + 'compositing/automount.py', F + 'tar.py', C + 'utils.py', C + 'compressions.py'],
     [('AutoMountLayer', M + 'compositing/automount.py'), ('recursive TAR indexing', F + 'tar.py')],
     ['mount source view'])

prop('C08', 'Every version of a file stays reachable, in order',
     "For every path, the number of versions equals the number of members (over the archive or the union) with that path, "
     "version 1 is the oldest and the last version is the one shown by default, and each version opens with its own "
     "contents. The special versions folder of any path lists exactly these versions, does not appear in listings, and "
     "does not shadow real entries of that name.",
     ['inputs', 'configurations'], "all archives with repeated members and unions of them, and all version numbers",
     "tests use one archive with three versions of one file",
     [M + 'compositing/versioning.py', C + 'SQLiteIndex.py', M + 'compositing/union.py'],
     [('FileVersionLayer', M + 'compositing/versioning.py'), ('versioned lookup', C + 'SQLiteIndex.py')],
     ['lookup with version', 'versions()', '.versions folders'])

prop('C09', 'Union mounts merge folders and let the last source win',
     "A union mount lists a path if and only if at least one source has it, merges folders, and shows for every other path the "
     "type, metadata and contents of the last given source that has it, in lookups and in listings alike; older sources remain reachable as "
     "older versions. The lookup cache settings never change any result.",
     ['inputs', 'configurations'], "all lists of source trees (with conflicting types and overlapping folders) and cache settings",
     "tests union a few hand-made folders and archives",
     [M + 'compositing/union.py', C + 'utils.py'],
     [('UnionMountSource lookup/list/versions and folder cache', M + 'compositing/union.py')],
     ['mount source view'])

prop('C10', 'Sub-mounts appear and disappear exactly as mounted and unmounted',
     "After any sequence of mounting and unmounting sources at relative paths inside a mount point, each mounted source is "
     "fully usable under its path (listing, metadata, contents), the intermediate folders exist exactly while "
     "something is mounted below them, and no other path is affected. Mounting onto an occupied or invalid path, and unmounting "
     "something that is not mounted, change nothing.",
     ['histories'], "all sequences of mount, unmount and access operations over nested mount paths",
     "tests perform a few fixed sequences",
     [M + 'compositing/subvolumes.py', 'ratarmount/FuseMount.py', M + 'compositing/removeprefix.py'],
     [('SubvolumesMountSource', M + 'compositing/subvolumes.py'), ('control interface commands', 'ratarmount/FuseMount.py')],
     ['mount source view'])

prop('C11', 'Non-TAR archives show exactly what they contain',
     "For every valid ZIP, 7z, CPIO, AR, ASAR and SQLAR archive, the mounted tree has exactly the archived paths plus their parent "
     "folders, with the archived type, size, permissions, modification time and link target where the format stores them, and every file "
     "reads back its archived bytes, regardless of the order in which files are opened.",
     ['inputs'], "all archives of these formats that can be built from generated trees",
     "tests open one or two checked-in archives per format",
     [F + 'zip.py', F + 'py7zr.py', F + 'libarchive.py', F + 'ar.py', F + 'asar.py', F + 'sqlar.py'],
     [('conversion of entries to index rows', F), ('open by entry id', F)],
     ['mount source view'])

prop('C12', 'File system images and repositories show exactly their files',
     "For every SquashFS image (any block size and compressor), EXT4 image, FAT image and Git repository built from a tree of files, the mounted tree has "
     "exactly the files, folders and (where supported) symbolic links of that tree, and every file has the right size "
     "and reads back the right bytes.",
     ['inputs'], "all trees of files, sizes around block boundaries, and image parameters",
     "tests open a few checked-in images",
     [F + 'squashfs.py', F + 'ext4.py', F + 'fat.py', F + 'git.py'],
     [('SquashFSFile block and fragment reading', F + 'squashfs.py')],
     ['mount source view'])

prop('C13', 'Listing, lookup, existence, versions and contents always agree',
     "For any mounted source or stack of layers, a path exists if and only if it can be looked up, is listed in its parent folder and has at least "
     "one version; folders and only folders can be listed; the type in every kind of listing equals the type from lookup; and "
     "reading a regular file yields exactly as many bytes as its reported size. Redundant slashes and a "
     "missing leading slash do not matter where the interface documents this, and nonexistent paths are reported as absent everywhere.",
     ['inputs', 'configurations'], "all trees in all source types, all stacks of layers, all existing and nonexistent paths",
     "tests look at chosen paths of chosen archives",
     [M + 'MountSource.py', M + 'SQLiteIndexMountSource.py', C + 'SQLiteIndex.py', M + 'compositing/union.py', F + 'folder.py'],
     [('MountSource interface', M + 'MountSource.py')],
     ['list, list_mode, lookup, exists, is_dir, versions, open'])

prop('C14', 'Malformed input is rejected or read cleanly, never hangs or crashes',
     "For any byte string offered as an archive (random, truncated or mutated), opening it terminates with "
     "either a usable mount or an ordinary error; it does not hang, crash the process or exhaust memory. If it opens, listing, looking up and reading every "
     "path terminates as well, and no damaged member makes other processes' files outside the mounted tree readable or writable.",
     ['inputs'], "all byte strings, in particular mutations of valid archives of every format",
     "tests offer only a few invalid files",
     [C + 'formats.py', M + 'factory.py', C + 'compressions.py', F + 'tar.py', F + 'ar.py', F + 'asar.py'],
     [('format detection and backend fallback', M + 'factory.py')],
     ['open_mount_source outcome', 'process state'])

prop('C15', 'Format detection is side-effect free and finds the right format',
     "Detecting the format of any file object leaves its contents and current position unchanged, gives the same answer for the same "
     "bytes whenever it is repeated, and recognises every valid file of a supported format, whatever its name; an archive is mountable from a file object positioned anywhere exactly as from its path.",
     ['inputs'], "all byte strings, valid archives of all formats, start positions and names",
     "tests detect checked-in files by name",
     [C + 'formats.py', C + 'compressions.py', M + 'factory.py'],
     [('detect_formats and magic checks', C + 'formats.py')],
     ['detected formats', 'file position'])

prop('C16', 'Truncated archives never show fabricated data',
     "If a TAR (plain or compressed) is cut at any byte, opening it either fails or shows only members of the intact archive, with each member that lies "
     "completely before the cut intact; reading a member whose data was cut returns a prefix of its true contents or an error, never other bytes.",
     ['crash_points', 'inputs'], "all archives and all cut positions",
     "tests do not cut archives at arbitrary positions",
     [F + 'tar.py', C + 'StenciledFile.py', C + 'compressions.py'],
     [('TAR parsing with error handling', F + 'tar.py')],
     ['mount source view'])

prop('C17', 'Hash attributes equal the digest of the file contents',
     "When content hashes are requested, every regular file in the archive (and in recursively mounted archives that the index covers) has one extended attribute "
     "per requested algorithm, equal to that algorithm's digest of exactly the bytes that reading the file returns, and reopening with the stored "
     "index or with further algorithms keeps all of them correct.",
     ['inputs', 'configurations', 'histories'], "all archives, sets of algorithms, and sequences of reopenings with different sets",
     "tests hash a few fixed files",
     [C + 'hashing.py', C + 'SQLiteIndex.py', M + 'SQLiteIndexMountSource.py'],
     [('hash computation after index creation', M + 'SQLiteIndexMountSource.py')],
     ['list_xattr / get_xattr'])

prop('C18', 'Path transformation renames paths and nothing else',
     "With a path transformation given, the mounted tree is the untransformed one with the "
     "regular-expression substitution applied to every member path, for every format that supports it; contents, metadata and (for colliding results) order of versions are unchanged.",
     ['inputs', 'configurations'], "all trees, patterns and replacements, and all index-based formats",
     "tests apply two patterns to one TAR",
     [F + 'tar.py', F + 'zip.py', M + 'SQLiteIndexMountSource.py'],
     [('transform option', M + 'SQLiteIndexMountSource.py / ' + F + 'tar.py')],
     ['mount source view'])

prop('C19', 'Split files are joined completely, in order and only when they belong together',
     "For any file split into numbered parts (numeric, hexadecimal or alphabetic suffixes of any width), opening the first part gives a file whose "
     "bytes are the concatenation of all consecutive parts in numeric order, and archives split this way mount like the unsplit archive. Files which "
     "are not consecutive parts of the same name are never mixed in.",
     ['inputs'], "all contents, part sizes (including empty parts), suffix styles, and neighbouring files in the folder",
     "tests use fixed small sets of parts",
     [C + 'compressions.py', C + 'StenciledFile.py', M + 'factory.py'],
     [('check_for_split_file', C + 'compressions.py'), ('JoinedFileFromFactory', C + 'StenciledFile.py')],
     ['mount source view', 'joined file reads'])

prop('C20', 'The write overlay behaves like a writable copy of the archive',
     "After any sequence of creating, writing, truncating, renaming, linking, deleting and changing metadata of files and folders through a mount with a "
     "write overlay, the visible tree and all results equal those of the same operations on an ordinary writable "
     "directory that started with the archive's contents, apart from operations the overlay refuses with an error, which change nothing. The archive stays unmodified, and unmounting and "
     "mounting again with the same overlay folder shows the same tree.",
     ['histories'], "all sequences of file system operations and remounts over all starting trees",
     "the overlay tests that exist need a FUSE mount and check a few fixed sequences",
     ['ratarmount/WriteOverlay.py', 'ratarmount/FuseMount.py'],
     [('overlay folder plus deletion database', 'ratarmount/WriteOverlay.py'), ('handle switching', 'ratarmount/FuseMount.py')],
     ['FUSE operations results', 'visible tree'],
     [('files table', 'deleted paths and metadata overrides', 'ratarmount/WriteOverlay.py')])

prop('C21', 'Committing an overlay makes the archive equal to the overlaid view',
     "After committing a write overlay into its uncompressed TAR and confirming, mounting the TAR alone shows the same files, contents and folders as the "
     "overlaid mount showed before; without the confirmation the TAR is not changed. The overlay's own bookkeeping never ends up in the archive.",
     ['histories'], "all starting TARs and all overlay states reachable by file operations",
     "tests commit a few fixed states",
     ['ratarmount/WriteOverlay.py'],
     [('commit_overlay', 'ratarmount/WriteOverlay.py')],
     ['TAR after commit'])

prop('C22', 'The mount point faithfully shows the mounted source and is read-only',
     "Through the file system operations, every path has exactly the attributes, directory entries, link target, extended attributes and "
     "contents of the mounted source, reads on any number of open handles at any offset return the right "
     "bytes, and absent paths and attributes fail with the standard error codes. Without a write overlay every modifying operation is refused and changes nothing.",
     ['inputs', 'histories'], "all sources and all sequences of file system calls including interleaved handles",
     "the tests for this layer need a FUSE mount and cover fixed paths",
     ['ratarmount/FuseMount.py', 'ratarmount/fuse.py'],
     [('FuseMount operations', 'ratarmount/FuseMount.py')],
     ['FUSE operation results'])

prop('C23', 'Mounting never changes inputs and writes indexes only where configured',
     "Opening, reading and closing any archive leaves the archive and all other input files byte-identical. An index file appears only at the explicit path or in the "
     "first usable of the configured folders, never when an in-memory index or read-only index handling is requested or when the (uncompressed) archive has fewer files than the minimum for an index, and no temporary "
     "files remain after closing.",
     ['inputs', 'configurations'], "all archives and all index location, memory, read-only and minimum-count options",
     "tests check single locations for single archives",
     [C + 'SQLiteIndex.py', M + 'SQLiteIndexMountSource.py', F + 'tar.py'],
     [('index location selection', C + 'SQLiteIndex.py')],
     ['file system before and after'])

prop('C24', 'The fsspec interface agrees with the archive contents',
     "For every archive, the fsspec file system lists, describes, opens, walks and finds exactly the files and "
     "folders of the archive with the right sizes, types, permissions and bytes, and raises the standard errors for absent paths. "
     "Conversely, a folder of any fsspec file system that is mounted shows exactly its files and folders.",
     ['inputs'], "all archives and all fsspec calls on existing and absent paths",
     "tests call a few methods on one archive",
     [C + 'SQLiteIndexedTarFsspec.py', F + 'fsspec.py'],
     [('SQLiteIndexedTarFileSystem', C + 'SQLiteIndexedTarFsspec.py')],
     ['fsspec call results'])

prop('C25', 'Command line options mean what the help text says',
     "For every combination of command line options, the effective configuration is the documented one: sizes, parallelization, index folder lists (plain, comma "
     "separated or JSON), backend priorities, extension selections and passwords are parsed exactly, invalid values "
     "are rejected before anything is mounted, and the last positional argument is used as mount point only when it can be one. Creating only the index through the command line gives the index that a mount would use.",
     ['inputs', 'configurations'], "all argument vectors built from the documented options",
     "tests run a few fixed command lines",
     ['ratarmount/cli.py', 'ratarmount/CLIHelpers.py', 'ratarmount/actions.py', C + 'compressions.py', C + 'utils.py'],
     [('argument parsing and post-processing', 'ratarmount/cli.py, ratarmount/CLIHelpers.py')],
     ['effective options', 'created files'])

prop('C26', 'Mounted folders, indexed or not, mirror the real folder',
     "A mounted folder shows exactly the entries of the real folder with the same types, sizes, permissions, owners, "
     "times, link targets, extended attributes and contents. An indexed folder shows the same tree as the plain one did at indexing time, also when its stored index is reused.",
     ['inputs'], "all folder trees including symbolic links (dangling, absolute, pointing outside), special names and empty folders",
     "tests mount a few fixed folders",
     [F + 'folder.py'],
     [('FolderMountSource', F + 'folder.py'), ('IndexedFolderMountSource', F + 'folder.py')],
     ['mount source view'])

prop('C27', 'Concurrent readers never see wrong bytes',
     "When several threads open, seek and read files of one mounted archive at the same time, every thread gets exactly the bytes it would "
     "get if it ran alone, for every source that shares one underlying archive file between its handles.",
     ['schedules', 'inputs'], "all archives, numbers of threads and interleavings of their reads",
     "tests read from one thread",
     [C + 'StenciledFile.py', F + 'tar.py', F + 'ar.py', F + 'asar.py', F + 'zip.py', F + 'squashfs.py', C + 'BlockParallelReaders.py'],
     [('file object lock shared by stenciled files', C + 'StenciledFile.py')],
     ['bytes read per thread'])

prop('C28', 'Encrypted archives open with the right password and only with it',
     "For every encrypted archive, opening with a password list that contains the right password anywhere shows the true tree and bytes; "
     "opening without it either fails or never returns wrong bytes for any encrypted file.",
     ['inputs', 'configurations'], "all password lists and encrypted archives of the formats that support encryption",
     "tests use fixed passwords and archives",
     [F + 'zip.py', F + 'py7zr.py', F + 'rar.py', F + 'sqlar.py', F + 'libarchive.py'],
     [('password search', F)],
     ['mount source view'])

prop('C29', 'Data embedded in HTML is extracted completely and correctly',
     "For every HTML document, each non-empty data URL that is the value of an attribute, or is quoted or in url() in style or script text, appears as a file whose bytes are the decoded payload, "
     "regardless of quoting, encoding (percent, base64, character references), line endings, multi-byte characters before it and document length, and nothing else appears.",
     ['inputs'], "all HTML documents built from text, tags and embedded data URLs",
     "tests extract from a few saved pages",
     [F + 'html.py'],
     [('gather_embedded_files', F + 'html.py')],
     ['mount source view'])

prop('C30', 'Streams in OGG files and contents of PDFs are shown completely and correctly',
     "For every OGG file there is exactly one file per logical stream, named by its media type and serial number, consisting of exactly the pages of this stream in their order. "
     "For every PDF there is exactly one file per attachment (listed in the document's name tree or in annotations), per page with text, and per image, with the right bytes and sizes, "
     "regardless of how the document is structured (kind of cross-references, object streams, incremental updates, indirect values, nested trees), and nothing else appears.",
     ['inputs'], "all OGG files with interleaved or chained streams and all PDFs with attachments, texts and images",
     "tests open a few sample files",
     [F + 'ogg.py', F + 'pdf.py'],
     [('OGGMountSource', F + 'ogg.py'), ('PDFMountSource', F + 'pdf.py')],
     ['mount source view'])

pathlib.Path(__file__).parent.parent.joinpath('properties.jsonl').write_text(
    ''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
print(len(P), 'properties')
