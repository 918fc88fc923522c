#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts is this file)."""
import json, os
S = "stable-fs/src/"
def m(name, where): return {"name": name, "where": S + where}
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": [S + f for f in files], "mechanism": mech, "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = state
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "A file reads back exactly what was written to it",
  "For every file, whatever its storage format and chunk size, a read at any offset returns as many bytes as lie between that offset and the file size (at most the buffer length), each byte being the last one written at its position and zero where nothing was ever written, and the bytes of the buffer beyond the returned count are left alone. A successful write stores all bytes given, changes no byte outside its range, and leaves the file size at the larger of its former size and the end of the write; an empty write changes nothing. This holds for any interleaving of reads and writes, contiguous or sparse, small or many chunks long, through any number of descriptors of the same and of other files.",
  ["inputs", "histories", "configurations"],
  "all sequences of reads and writes over all offsets, lengths, files and descriptors, for V1 and V2 chunks, 4K-64K chunk sizes and the transient storage",
  "the unit tests write a handful of fixed patterns (16-byte records, one or two chunk boundaries) on mostly one chunk size; chunk-boundary, sparse, prefetch and many-chunk cases are a product of offset x length x chunk size x history",
  ["storage/stable.rs", "storage/transient.rs", "storage/chunk_iterator.rs", "storage/ptr_cache.rs", "runtime/file.rs", "runtime/structure_helpers.rs", "fs.rs"],
  [m("write_chunks_v2 / read_chunks_v2", "storage/stable.rs"), m("read_chunks_v1 / write_filechunk_v1", "storage/stable.rs"), m("ChunkV2Iterator + PtrCache::add_range", "storage/ptr_cache.rs"), m("get_chunk_infos", "runtime/structure_helpers.rs"), m("TransientStorage::read/write", "storage/transient.rs")],
  ["FileSystem::read/read_vec/read_vec_with_offset/write/write_vec/write_vec_with_offset, metadata().size"])

prop("C02", "Shrinking and growing a file keeps its prefix and exposes only zeros",
  "After the size of a file is changed (by setting the size or the metadata, or by opening it with truncation), every byte below the smaller of the old and new sizes is unchanged, and every byte of a region that lies above the old size reads as zero when it comes inside the file again, even if it held data before an earlier shrink. This holds for every old and new size, in particular multiples of the chunk or page size, and for any sequence of shrinking, growing, writing past the end and reopening.",
  ["inputs", "histories", "configurations"],
  "all sequences of size changes, truncations, writes past the end and reads, for every size, chunk type and chunk size, with and without an upgrade in between",
  "existing tests shrink once or twice at fixed sizes and mostly with one chunk type; whether the last kept chunk is cleaned exactly from the new end depends on size modulo chunk size and on which chunks exist",
  ["storage/stable.rs", "storage/transient.rs", "fs.rs", "runtime/file.rs"],
  [m("put_metadata -> resize_file_internal", "storage/stable.rs"), m("TransientStorage::put_metadata / resize_file", "storage/transient.rs"), m("FileSystem::set_file_size, File::truncate", "fs.rs")],
  ["FileSystem::set_file_size, set_metadata, open(TRUNCATE), read, metadata"])

prop("C03", "The directory tree is exactly what the history of operations made it",
  "After any sequence of creating, opening, removing, renaming and linking, a path resolves if and only if the history created it and did not remove or move it since, it resolves to the same file or directory (identity, type and content) that was put there, and creating something where a name exists is refused. Creating an entry at a path whose parent directories are missing creates exactly those directories; no other entry appears, disappears or changes, and sizes reported for directories equal their number of entries.",
  ["inputs", "histories", "configurations"],
  "all histories of namespace operations over all names and directory handles, on every backend",
  "tests use fixed short scripts with few names; stale lookup entries, cached names and index reuse only show after particular create/remove/rename/re-create sequences",
  ["fs.rs", "runtime/dir.rs", "runtime/structure_helpers.rs", "filename_cache.rs", "storage/stable.rs", "storage/transient.rs"],
  [m("find_node, create_path, add_dir_entry, rm_dir_entry", "runtime/structure_helpers.rs"), m("direntry + direntry_lookup", "storage/stable.rs"), m("Dir::create_dir/create_file", "runtime/dir.rs"), m("FilenameCache", "filename_cache.rs")],
  ["FileSystem::open, mkdir, create_open_directory, remove_file, remove_dir, rename, create_hard_link, open_metadata, with_direntries"])

prop("C04", "Equivalent paths name the same entry; escaping and bad paths are refused",
  "A relative path is interpreted from the given directory by its components alone: empty and '.' components are skipped and '..' cancels the component before it, so all spellings of one path behave identically in every operation that takes a path. A path that is absolute or whose '..' would climb above the given directory is refused with 'operation not permitted', a component longer than 255 bytes is refused, and names up to 255 bytes of any UTF-8 content are stored and found exactly, byte for byte; refused paths change nothing.",
  ["inputs"],
  "all path strings (spellings, lengths up to and over the limit, arbitrary UTF-8 components) in all path-taking operations from any directory handle",
  "tests try a dozen literal paths; the claim ranges over all strings, including long, prefix-sharing and non-ASCII names and arbitrarily nested dots",
  ["runtime/structure_helpers.rs", "storage/types.rs", "fs.rs", "runtime/dir.rs"],
  [m("get_path_parts, find_node_with_index, create_path", "runtime/structure_helpers.rs"), m("FileName::new / Ord / Storable", "storage/types.rs")],
  ["every path-taking FileSystem method; names returned by with_direntries"])

prop("C05", "The file system survives an upgrade at any point",
  "If the process is restarted between any two operations and the file system is opened again over the same stable memory, then everything it stores is as it was: the whole tree, names, contents, sizes, link counts, timestamps, size limits, the chunk size and the remembered sizes of mounted files; only open descriptors and active mounts are gone. Work continues from there as if no restart had happened: identifiers handed out afterwards are fresh, new data never overwrites old, and removing, writing and listing behave the same.",
  ["crash_points", "histories", "configurations"],
  "all histories with restarts placed after any operation, for all chunk types and sizes and both ways of constructing the storage",
  "a few integration scenarios upgrade once at a fixed point; a value kept only in memory or a free list restored wrongly shows only for particular operations before and after the restart",
  ["storage/stable.rs", "storage/metadata_provider.rs", "storage/allocator.rs", "storage/types.rs", "fs.rs"],
  [m("StableStorage::new / new_with_memory_manager / new_with_custom_memories", "storage/stable.rs"), m("store_chunk_meta/load_chunk_meta", "storage/metadata_provider.rs"), m("ChunkPtrAllocator state in stable memory", "storage/allocator.rs"), m("Header.next_node", "storage/stable.rs")],
  ["the same observations made through a second FileSystem built over the same memory"],
  state=[{"name": "stable memories 0-9 of the range", "meaning": "header, metadata, entries, lookup, V1 chunks, V2 pointers, allocator, V2 chunks, mounted metadata, journal", "where": S + "storage/stable.rs"}])

prop("C06", "Caching never changes an answer",
  "Every lookup, read, listing and metadata query returns what a freshly opened file system over the same stable memory would return, no matter which and how many names, files and chunks were touched before. In particular this holds when the working set exceeds the number of names, metadata records or chunk pointers kept in memory, after entries are removed, replaced or renamed, after files shrink, grow or are mounted and unmounted, and when an absent chunk or name that was looked up before is created later.",
  ["histories"],
  "all histories, including ones touching more than 100 names, 1000 files and 10000 chunks, interleaved with invalidating operations",
  "no test fills any of the caches, so eviction and stale entries after eviction are never exercised",
  ["filename_cache.rs", "storage/ptr_cache.rs", "storage/metadata_provider.rs", "storage/chunk_iterator.rs", "storage/stable.rs", "runtime/structure_helpers.rs"],
  [m("FilenameCache add/clear", "filename_cache.rs"), m("MetadataCache update/remove", "storage/metadata_provider.rs"), m("PtrCache add/add_range/clear", "storage/ptr_cache.rs"), m("rm_dir_entry clears names_cache", "runtime/structure_helpers.rs")],
  ["warm FileSystem versus a cold FileSystem over a snapshot of the same memory"])

prop("C07", "All names of a file are one file, kept until its last name goes",
  "After a hard link is made, both names give the same file: same identity, content, size, timestamps and limits, whichever name or descriptor it is changed through, and its link count always equals the number of names it has. Removing or replacing one name leaves the others and the content intact; the content goes away only with the last name, and a file that still has another name may lose one while open. Hard links to directories are refused without effect.",
  ["histories"],
  "all interleavings of linking, writing, renaming, replacing, removing and mounting over any number of names and directories",
  "one test links one file once and reads it; count bookkeeping over replace, self-link, rename onto a sibling link, mount and removal orders is not covered",
  ["runtime/structure_helpers.rs", "fs.rs", "runtime/dir.rs", "storage/stable.rs", "storage/transient.rs"],
  [m("create_hard_link, rm_dir_entry", "runtime/structure_helpers.rs"), m("Dir::remove_file frees at link_count 0", "runtime/dir.rs")],
  ["FileSystem::create_hard_link, rename, remove_file, metadata().link_count/node, read"])

prop("C08", "Rename moves exactly one entry and is all-or-nothing",
  "A successful rename makes the new path name the very file or directory (identity, content, metadata, children, open descriptors) that the old path named, removes the old name, releases what the new name referred to before, and changes nothing else; renaming something onto itself or onto another name of the same file succeeds and loses nothing. A rename that is refused (missing source, a directory onto a file or a file onto a directory, onto a non-empty directory, a busy or mounted file, a directory into itself or below itself) leaves the whole tree as it was.",
  ["inputs", "histories"],
  "all pairs of source and destination paths and handles in all reachable trees with any set of open descriptors, links and mounts",
  "one test renames one directory to a free name; replacing, self, sibling-link, ancestor/descendant, busy and mounted combinations are untested",
  ["fs.rs", "runtime/structure_helpers.rs"],
  [m("FileSystem::rename", "fs.rs"), m("create_hard_link(is_renaming), rm_dir_entry(is_renaming), create_path", "runtime/structure_helpers.rs")],
  ["FileSystem::rename, then the whole tree, contents, link counts and open descriptors"])

prop("C09", "Space of removed or truncated data is reused, and never leaks",
  "Whatever removes data (removing a file, a directory or a whole subtree, dropping the last link, replacing a file by rename, truncating or shrinking) makes its storage available again: repeating any cycle of operations that ends with the file system in the state in which it started makes the stable memory grow in the first rounds at most, not with the number of rounds. A failed or no-op operation, and an upgrade, consume no storage either, and no storage is ever handed to two owners.",
  ["histories", "configurations"],
  "all cyclic histories (create, write, link, rename, truncate, remove, list, upgrade) for all chunk types and chunk sizes",
  "tests never look at consumption over many rounds; a leak of one chunk per operation is invisible to functional tests but fatal in a canister",
  ["storage/stable.rs", "storage/allocator.rs", "storage/metadata_provider.rs", "runtime/structure_helpers.rs", "runtime/dir.rs"],
  [m("ChunkPtrAllocator free list", "storage/allocator.rs"), m("rm_file, resize_file_internal", "storage/stable.rs"), m("remove_metadata", "storage/metadata_provider.rs"), m("create_hard_link replacing a destination", "runtime/structure_helpers.rs")],
  ["sizes in pages of the ten virtual memories the file system occupies"])

prop("C10", "All storage back ends behave identically",
  "The same sequence of file system calls gives the same results, errors, contents, sizes, listings, link counts and timestamps on the transient storage, on stable storage with V1 chunks, and on stable storage with V2 chunks of every chunk size. Only storage configuration, persistence, resource consumption and the absolute values of identifiers may differ.",
  ["histories", "configurations"],
  "all call sequences, compared pairwise over transient, V1 and V2 with 4K, 8K, 16K, 32K and 64K chunks",
  "tests run some scripts on several back ends with fixed assertions, and only at points that the authors thought of; nothing compares the back ends with each other",
  ["storage/transient.rs", "storage/stable.rs", "storage.rs", "fs.rs"],
  [m("trait Storage and its two implementations", "storage.rs"), m("use_v2", "storage/stable.rs")],
  ["every FileSystem method"])

prop("C11", "Open descriptors stay valid, distinct and independent; the root stays open",
  "Every open gives a descriptor that no other open file or directory has, and it keeps referring to the same file or directory, with its own cursor, flags and rights, until it is closed, replaced as the target of a renumber, or the process restarts; operations on one descriptor never move, close or retarget another, and a descriptor that is not open is refused with 'bad file descriptor'. Renumbering moves an open descriptor to any number, closing what was there, refuses mixing files and directories, and never makes later opens fail or hand out a number in use. The root descriptor is always open: it cannot be closed, renumbered or replaced.",
  ["histories"],
  "all interleavings of open, close, renumber and use over any numbers of descriptors and target numbers",
  "unit tests cover a few renumber and close cases on the bare table; reuse after renumbering to unused, freed or reserved numbers is a matter of history",
  ["runtime/fd.rs", "fs.rs", "runtime/file.rs", "runtime/dir.rs"],
  [m("FdTable open/close/renumber/free_fds/next_fd", "runtime/fd.rs"), m("FileSystem::close (root guard)", "fs.rs")],
  ["FileSystem::open, close, renumber, tell, seek, get_stat, metadata and all I/O"])

prop("C12", "Descriptor rights are enforced and never widen",
  "Reading through a descriptor opened or set without the read right, and writing through one without the write right, is refused with 'operation not permitted' for every read and write call (plain, vectored, at an offset), and setting the size without the write right is refused as an invalid argument; the refused call changes neither data, size, cursor nor buffer. With the right present the same call works, rights of one descriptor never affect another, and the flags and rights reported for a descriptor are those it was opened with or last set to.",
  ["inputs", "histories"],
  "all combinations of rights and flags on all descriptors of a file, over all call sequences and changes of rights",
  "one test checks two right masks; every call path has its own check and each may be lost separately",
  ["fs.rs", "runtime/types.rs"],
  [m("rights_base checks in read*/write*/set_file_size", "fs.rs"), m("FdStat, RIGHTS_*", "runtime/types.rs"), m("get_stat/set_stat", "fs.rs")],
  ["FileSystem::read*, write*, set_file_size, get_stat, set_stat"])

prop("C13", "A file never grows beyond its size limit",
  "Once a maximum size is set for a file, no write, size change, metadata change, mount or transfer makes it larger: the call is refused as 'file too large' and data, size and cursor stay as they were, except that a vectored write keeps the complete buffers that fitted before the refused one. Writes that end exactly at the limit succeed, a limit below the current size is refused, the limit survives upgrades and applies through all names and descriptors, and without a limit the general maximum file size applies in the same way.",
  ["inputs", "histories", "configurations"],
  "all limits, offsets and lengths around them, through every growing call, on regular and mounted files and all back ends, and around the maximum file size",
  "tests check a few offsets against one limit; off-by-one, overflow and alternative growth paths need all combinations of size, limit, offset and length",
  ["storage/stable.rs", "storage/transient.rs", "fs.rs", "storage/types.rs"],
  [m("write: maximum_size_allowed check", "storage/stable.rs"), m("validate_metadata_update", "storage/stable.rs"), m("FileSystem::set_file_size_limit", "fs.rs"), m("MAX_FILE_SIZE", "storage/types.rs")],
  ["FileSystem::set_file_size_limit, write*, set_file_size, set_metadata, mount_memory_file, store_memory_file, metadata"])

prop("C14", "A mounted file is a direct window on its memory",
  "While a memory is mounted on a file, reading and writing that file, by any name or descriptor, reads and writes exactly those bytes of the memory (growing it as far as the file reaches and no further), what the owner writes to the memory is what the file shows, and the content and size of the host file stay untouched. Mounting refuses a path that is a directory or already mounted, a mounted file cannot be removed or renamed, and unmounting hands back the same memory unchanged and makes the host file appear again with its former content.",
  ["inputs", "histories"],
  "all interleavings of mount, unmount, reads and writes through the file and directly to the memory, over any number of files, names and open descriptors",
  "tests mount one file and do one or two transfers; mixing host and mounted state (sizes, caches, descriptors opened before mounting) depends on the sequence",
  ["storage/stable.rs", "storage/transient.rs", "storage/metadata_provider.rs", "fs.rs"],
  [m("mount_node/unmount_node/active_mounts", "storage/stable.rs"), m("write_mounted, read on active mount", "storage/stable.rs"), m("separate mounted metadata", "storage/metadata_provider.rs"), m("rm_dir_entry is_mounted check", "runtime/structure_helpers.rs")],
  ["FileSystem::mount_memory_file, unmount_memory_file, read*/write*, the Memory object itself"])

prop("C15", "Mount sizes and transfers between host file and memory are exact",
  "Initialising a mounted memory from its host file makes the mounted file equal to the host file in size and content, and storing it makes the host file equal to the mounted one; neither changes its source, and both fail cleanly when nothing is mounted. On mounting, the file size is chosen by the given policy: an explicit size or the memory's capacity as asked for, otherwise the size of the previous mount when it fits the memory, and the stated fallback when it does not or none is known; this remembered size survives unmounting and upgrades and is forgotten when the file is removed.",
  ["inputs", "histories", "configurations"],
  "all sizes of host file, memory and previous mount (below, at and above page and chunk multiples), all policies, all sequences of mount, init, store, unmount and upgrade",
  "tests transfer one or two fixed sizes and try each policy once",
  ["storage/stable.rs", "storage/transient.rs", "storage/types.rs", "fs.rs"],
  [m("init_mounted_memory, store_mounted_memory", "storage/stable.rs"), m("MountedFileSizePolicy::get_mounted_file_size", "storage/types.rs"), m("mounted metadata kept between mounts", "storage/metadata_provider.rs")],
  ["FileSystem::mount_memory_file(policy), init_memory_file, store_memory_file, metadata().size, contents of file and memory"])

prop("C16", "A refused operation changes nothing",
  "When a call returns an error, the tree, all contents, sizes, limits, link counts, timestamps, mounts, descriptors and cursors are as they were before the call, and later calls behave as if it had not been made. The exceptions are a vectored write that runs into a size limit (the buffers before it stay written) and a recursive removal that meets something busy (it may have removed part of that subtree, and nothing else).",
  ["inputs", "histories", "configurations"],
  "all failing calls in all reachable states: bad descriptors, wrong types, bad paths, missing or existing targets, busy, mounted, non-empty, over-limit, invalid seeks",
  "tests assert the error and stop; they do not compare the rest of the state before and after the failure",
  ["fs.rs", "runtime/structure_helpers.rs", "runtime/dir.rs", "runtime/fd.rs", "storage/stable.rs", "storage/transient.rs"],
  [m("checks before effects in create_path, create_hard_link, rm_dir_entry", "runtime/structure_helpers.rs"), m("validate_metadata_update before resize", "storage/stable.rs"), m("mount_node / store_mounted_memory error paths", "storage/stable.rs")],
  ["a full observation of the file system before and after every failing call"])

prop("C17", "File systems and other memories in one manager never disturb each other",
  "A file system confined to a range of memory identifiers reads and writes only those: the contents and sizes of all other memories of the same manager are never changed by any file system operation, and several file systems on disjoint ranges, including any valid position of the range, behave as if each were alone. Data that others write to their own memories never changes what the file system returns, across upgrades too.",
  ["histories", "configurations"],
  "all interleavings of operations on two file systems and on foreign memories, for all placements of the ranges",
  "tests use one file system with the default range or one custom range and never check the neighbours",
  ["storage/stable.rs"],
  [m("StorageMemoryIdx offsets, new_with_memory_manager range check", "storage/stable.rs"), m("StableStorage::new default range 229..239", "storage/stable.rs")],
  ["bytes and sizes of every virtual memory outside the range; results of the second file system"])

prop("C18", "No call sequence or argument makes the file system panic or loop",
  "Every public file system call with any arguments (any descriptor, path, flags, rights, offset, length, size, whence and delta, index, policy) in any reachable state returns a result or an error: it never panics, overflows, reads out of bounds or fails to return, and the file system remains usable and consistent after it. Sizes and offsets up to the numeric limits are either handled with the documented meaning or refused.",
  ["inputs", "histories"],
  "all arguments of all calls, in particular extreme 64-bit offsets, sizes and deltas, sparse files near the maximum size, special directory indexes and reserved descriptor numbers",
  "tests pass ordinary arguments; a trap in a canister rolls back the whole message, and extreme values near the numeric limits are not sampled at all",
  ["fs.rs", "runtime/file.rs", "runtime/fd.rs", "runtime/structure_helpers.rs", "storage/stable.rs", "storage/transient.rs", "storage/chunk_iterator.rs", "storage/ptr_cache.rs"],
  [m("File::seek arithmetic", "runtime/file.rs"), m("offset + len checks in write", "storage/stable.rs"), m("FdTable::open assertion", "runtime/fd.rs"), m("with_direntries ranges", "storage/transient.rs"), m("PtrCache::add_range index arithmetic", "storage/ptr_cache.rs")],
  ["any FileSystem method (panic caught by the harness), then a full consistency audit"])

prop("C19", "Directory listings are complete, duplicate-free and resumable",
  "Listing a directory yields each of its entries exactly once, with its correct name, type and identity, preceded by '.' and '..' exactly when the listing starts from the very beginning, and the size reported for the directory equals the number of entries. Every entry has an index that is unique in the directory and increases along the listing, looking an index up gives the same entry, stopping anywhere and resuming at an entry's index (including those of '.' and '..') continues with that entry and misses or repeats nothing; entries that exist throughout keep their index and order while others are added or removed.",
  ["histories", "configurations"],
  "all histories of adding, removing and renaming entries, all resume points and stop points, on every backend",
  "tests list small directories right after creation; resuming, listing after removals and large directories are not covered",
  ["storage/stable.rs", "storage/transient.rs", "runtime/structure_helpers.rs", "fs.rs", "runtime/dir.rs"],
  [m("with_direntries, new_direntry_index, put_direntry, rm_direntry", "storage/stable.rs"), m("DUMMY_DOT_ENTRY*", "storage/types.rs"), m("add_dir_entry/rm_dir_entry size bookkeeping", "runtime/structure_helpers.rs")],
  ["FileSystem::with_direntries, get_direntry, metadata(dir).size"])

prop("C20", "Stable memory written by earlier releases is read and updated correctly",
  "A file system image laid out by earlier releases (metadata records in the metadata map without the later fields, contents in V1 chunks, directory entries without a lookup index or type, earlier allocator marker) opens with every entry, content, size and timestamp as stored, and all operations on these files and directories afterwards, including shrinking, extending, overwriting, renaming, removing and further upgrades, behave as on files created today. Adding new entries and files next to the old ones, in either chunk format, never damages them.",
  ["inputs", "histories", "configurations"],
  "all images in the old layouts (any tree, contents and sparse chunks) followed by all operation histories and upgrades",
  "the integration tests that upgrade an old canister need a network replica and cover one image; the unit tests check one metadata record's decoding",
  ["storage/stable.rs", "storage/metadata_provider.rs", "storage/types.rs", "storage/allocator.rs", "runtime/structure_helpers.rs"],
  [m("use_v2 for files without a recorded chunk type", "storage/stable.rs"), m("get_metadata falls back to the metadata map", "storage/metadata_provider.rs"), m("find_entry_index slow search", "runtime/structure_helpers.rs"), m("marker ALO1 accepted", "storage/allocator.rs"), m("serde defaults of Metadata / DirEntry", "storage/types.rs")],
  ["FileSystem over a crafted image, compared with the model of that image"])

prop("C21", "Chunk type and size are fixed per file and per file system",
  "A file keeps the chunk format it was created with for its whole life: changing the chunk type for new files, restarting, or mixing V1 and V2 files in one file system never changes or mixes up the content of any file. The chunk size can be chosen only while nothing is stored in chunks, any other value is refused afterwards without effect, setting the current value again is accepted, and the chosen size is the one in force after every restart.",
  ["configurations", "histories"],
  "all sequences of chunk type and size changes interleaved with file operations and restarts",
  "tests fix the configuration once at the start; switching in the middle of a history is covered by two scripted cases",
  ["storage/stable.rs", "storage/allocator.rs", "runtime/structure_helpers.rs"],
  [m("set_chunk_size", "storage/allocator.rs"), m("chunk_type recorded in create_dir_entry", "runtime/structure_helpers.rs"), m("use_v2", "storage/stable.rs")],
  ["storage.set_chunk_size/chunk_size/set_chunk_type/chunk_type, metadata().chunk_type, contents"])

prop("C22", "Removal takes away exactly what was asked and never what is in use",
  "Removing a file or an empty directory deletes that entry and nothing else, and removing recursively deletes exactly the named subtree (names inside it only: files that have other names elsewhere stay). A directory with entries, the last name of an open file, an open directory, a mounted file and the root are never removed: the call is refused, and open descriptors keep working on their content. Removing a directory as a file, a file as a directory or something that does not exist is refused.",
  ["inputs", "histories"],
  "all removal calls in all reachable trees with any open descriptors, links and mounts",
  "tests remove a few entries in fixed trees; the combination of open, linked, nested, re-created and mounted states is not sampled",
  ["fs.rs", "runtime/dir.rs", "runtime/structure_helpers.rs", "runtime/fd.rs"],
  [m("rm_dir_entry checks (type, size, refcount, mounted)", "runtime/structure_helpers.rs"), m("FdTable::node_refcount", "runtime/fd.rs"), m("FileSystem::remove_recursive", "fs.rs")],
  ["FileSystem::remove_file, remove_dir, remove_recursive and the rest of the tree"])

prop("C23", "Metadata belongs to one file and changes only as requested",
  "Each file and directory has one metadata record, the same through every name and descriptor: a type that never changes, a permanent identity that no other object has, the creation time given when it was created (also for directories created on the way), and access and modification times, size limit and size that are exactly those last set. Setting one attribute changes no other attribute and no other file; reading, writing, renaming, linking and other operations change only size and link count; all survive upgrades.",
  ["inputs", "histories", "configurations"],
  "all interleavings of setters and other operations over any number of files, including more files than any cache holds",
  "tests set a time once and read it back; cross-talk between records, attributes and caches needs histories over many files",
  ["fs.rs", "storage/metadata_provider.rs", "storage/stable.rs", "storage/transient.rs", "runtime/structure_helpers.rs"],
  [m("put_metadata/get_metadata", "storage/metadata_provider.rs"), m("set_accessed_time, set_modified_time, set_metadata, set_file_size_limit", "fs.rs"), m("create_dir_entry", "runtime/structure_helpers.rs"), m("new_node", "storage/stable.rs")],
  ["FileSystem::metadata, open_metadata, metadata_from_node and the setters"])

prop("C24", "Cursor, append and vectored I/O have their sequential meaning",
  "A descriptor's cursor starts at zero (at the end in append mode), advances by exactly the bytes read or written, moves to the position a seek asks for (from start, cursor or end) or stays when the seek is refused, and is untouched by calls that take an explicit offset. In append mode each write goes to the current end of the file, whatever the cursor or offset says, without losing data appended through other descriptors. A vectored call transfers the same bytes and returns the same count as one call on the concatenation of its buffers, in order, for any split including empty buffers.",
  ["inputs", "histories"],
  "all sequences of seeks, reads, writes and flag changes over several descriptors of one file; all splits of the buffers",
  "tests use one or two descriptors and fixed seeks; the meaning is relative to the whole history and to other writers",
  ["fs.rs", "runtime/file.rs"],
  [m("File::seek, read_with_cursor", "runtime/file.rs"), m("read_vec/write_vec/write_vec_with_offset append handling", "fs.rs")],
  ["FileSystem::seek, tell, read*, write*, set_stat"])

prop("C25", "Recycled storage never shows old data in another file",
  "Bytes of a removed, truncated, replaced or shrunk file never become readable through any other file, nor through the same file, whatever storage is reused for them: every byte that was not written to a file since its creation (or since it last lay beyond the file's end) reads as zero. This holds for partial writes into fresh chunks, sparse files, extension of the size, remounted and re-created files, across upgrades, for all chunk types and sizes.",
  ["histories", "configurations"],
  "all histories that free storage holding recognisable data and then allocate it again in any shape",
  "leaks need a dirty recycled chunk that is then only partly written; tests write to fresh zero memory almost always",
  ["storage/stable.rs", "storage/allocator.rs", "storage/metadata_provider.rs", "storage/transient.rs"],
  [m("write_chunks_v2 zero fill of new chunks", "storage/stable.rs"), m("resize_file_internal", "storage/stable.rs"), m("metadata chunk prefill", "storage/metadata_provider.rs")],
  ["every byte of every file after churn that recycles chunks filled with non-zero patterns"])

prop("C26", "Stored records decode to what was encoded, in a stable order",
  "Every directory entry, file name, metadata record, header and chunk that the file system stores decodes to an equal value, fits the declared bound, and file names compare equal exactly when their bytes are equal, in one total order that is consistent with equality. Numeric codes of file types and advice convert to the value and back, unknown codes are refused, records written without the newer optional fields decode with those fields absent, and error codes, flags and limit constants keep their published (WASI) values.",
  ["inputs"],
  "all values of the stored types, including names of length 0 to 255 with any bytes and all optional-field combinations, and all numeric codes",
  "tests decode one old record and a few names; equality, order and bounds are claims over all values",
  ["storage/types.rs", "runtime/types.rs", "error.rs"],
  [m("Storable impls of DirEntry, FileName, Metadata, Header, FileChunk", "storage/types.rs"), m("FileName Ord/Eq", "storage/types.rs"), m("TryFrom<u8> for FileType/Advice", "runtime/types.rs")],
  ["Storable::to_bytes/from_bytes/into_bytes, Ord, TryFrom"])

prop("C27", "An image or memory range it cannot serve is refused and left intact",
  "Opening stable memory whose header names a format version the crate does not know, or whose allocator block carries a marker or a chunk size it does not know, or a range of memory identifiers that is too short or reaches beyond the identifiers a manager has (a range may end at 254 at most), never yields a usable file system: the opening fails. A refused opening writes nothing that matters: once the proper range is used again, or the foreign header is gone, the file system is found exactly as it was and work on it continues.",
  ["inputs", "configurations"],
  "all version numbers, all markers, all memory ranges, over images left by any history",
  "two tests open an empty memory with a too short range and a wrong marker; what was stored before and what survives the refusal is not looked at",
  ["storage/stable.rs", "storage/allocator.rs"],
  [m("StableStorage::new_with_custom_memories (version check)", "storage/stable.rs"), m("StableStorage::new_with_memory_manager (range check)", "storage/stable.rs"), m("ChunkPtrAllocator::new (marker check)", "storage/allocator.rs")],
  ["StableStorage::new_with_memory_manager over a damaged image or wrong range; the whole file system after it is opened properly"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
