#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "state": state or [],
                     "mechanism": [{"name": a, "where": b} for a, b in mech],
                     "observe_at": observe,
                     "hook_needed": None}}
    P.append(d)

L, H, B, PT, M, T, D, MA = ("src/lib.rs", "src/header/mod.rs", "src/header/builder.rs", "src/partition.rs",
                        "src/mbr.rs", "src/partition_types.rs", "src/disk.rs", "src/macros.rs")

p("C01", "A written partition table reads back as it was in memory",
  "After a successful write, opening the same device yields the same disk GUID and exactly the used partitions that were in memory, in ascending id order and numbered consecutively from 1, each with the same type GUID, partition GUID, first and last LBA, flags and name. Only a name that does not fit is changed: it reads back as its longest prefix of whole characters that fits in 36 UTF-16 units, ending before its first NUL.",
  ["histories", "inputs", "configurations"],
  "every history of add / add-at / remove / replace / GUID updates / writes / reopens, every partition content and name, both block sizes, writing with and without the backup read-only",
  "The tests write three fixed tables and mostly compare bytes with bytes; no test reads back a generated name, flag, GUID or a table with gaps after edits.",
  [L, PT, H], [("write_inplace", L), ("as_bytes / file_read_partitions", PT)],
  ["GptConfig::open_from_device", "GptDisk::partitions", "GptDisk::guid"])

p("C02", "A write leaves two complete, consistent, non-overlapping GPT copies",
  "After every successful write with the backup enabled, an independent reading of the raw bytes finds at LBA 1 and at the last LBA of the device a UEFI-conformant header (signature, revision 1.0, size 92, valid CRC, reserved zero, own and alternate LBA pointing at each other, rest of the block zero) whose entry array has the CRC it states, both copies agreeing in disk GUID, usable range, entry count and size and holding identical arrays with every unused entry all zero. Primary header, primary array, usable range, backup array and backup header do not overlap, in that order, and everything lies inside the device.",
  ["histories", "inputs", "configurations"],
  "every device created by the library (any size and contents, both block sizes), every history of edits, partition-count growth and writes on it",
  "Tests check a few byte ranges on two layouts with 128 entries; none validates the backup copy or a table whose entry count has grown.",
  [L, H, B, PT], [("write_inplace", L), ("HeaderBuilder::build", B), ("file_write_header", H)],
  ["device bytes after GptDisk::write / write_inplace"])

p("C03", "Writing never touches anything but the GPT metadata",
  "A write changes only the two header blocks and the two partition entry arrays of the table it writes; every other byte of the device keeps its value, including LBA 0 and all blocks that belong to a used partition.",
  ["histories", "inputs", "configurations"],
  "all prior device contents, all device sizes, both block sizes, all edit histories on a table whose partitions lie in its usable range",
  "Two tests compare the data area of one layout per block size; protection must hold for each partition placement, array size and history.",
  [L, PT, H], [("write_inplace", L), ("write_to_device / write_zero_entries_to_device", PT)],
  ["device bytes before and after GptDisk::write / write_inplace"])

p("C04", "Nothing but an explicit write changes the device",
  "Creating, opening, querying, editing, cloning or dropping a disk performs no write on the device; a disk that is not writable (by configuration or by a later device replacement) refuses every write with a read-only error, whatever else stands in the way, and leaves the device and what the disk reports untouched.",
  ["histories", "configurations"],
  "all histories of non-write operations, and write attempts, over readable and writable configurations",
  "No test looks at the device between edits, and none exercises the read-only refusal.",
  [L], [("GptConfig::writable check in write_inplace", L)],
  ["writes reaching the device", "GptError::ReadOnly"])

p("C05", "An accepted partition lies in free usable space and has the asked-for size",
  "Whenever adding a partition succeeds, the new partition lies inside the usable range the header had before the call, shares no LBA with any other used partition, has exactly the requested number of blocks (a byte size rounded up to whole blocks, a requested start or alignment honoured exactly), carries the requested name, type and flags under the returned id, and no other entry is changed. An explicit position is accepted whenever the id is not in use, the blocks are free and usable and the entry count suffices.",
  ["inputs", "histories"],
  "all sizes, starts, lengths, ids and alignments including extreme 64-bit values, all existing tables (also tables read from disk whose partitions overlap each other or leave the usable range)",
  "Tests add a handful of partitions that fit; none asks for a range that crosses an existing partition or the end of the usable range.",
  [L], [("add_partition / add_partition_at / find_free_sectors", L)],
  ["GptDisk::partitions after add_partition / add_partition_at", "returned errors"])

p("C06", "Allocation is first-fit and complete",
  "Adding a partition by size places it at the lowest LBA in the usable range that is a multiple of the alignment (any LBA if none is given) and starts a long enough run of free blocks, under the lowest id not in use. It reports lack of space exactly when no such LBA exists.",
  ["inputs", "histories"],
  "all tables reachable by adds and removals, all sizes and alignments, both block sizes, devices up to 2^62 bytes",
  "Existing tests only append to an empty disk without alignment.",
  [L], [("add_partition", L), ("find_free_sectors", L), ("find_next_partition_id", L)],
  ["GptDisk::add_partition result"])

p("C07", "The free-space list is exactly the unused part of the usable range",
  "The free-space list contains, in ascending order, exactly the maximal runs of LBAs that lie in the usable range and in no used partition. Unused entries do not count, and partitions that overlap one another or reach outside the usable range never make an occupied or unusable LBA appear free.",
  ["inputs", "histories"],
  "all headers and all partition maps, including overlapping, reversed and out-of-range entries as read from disks written by other tools",
  "No test calls the function directly; only its use on well-formed tables is sampled.",
  [L], [("find_free_sectors", L)], ["GptDisk::find_free_sectors"])

p("C08", "The entry count changes only when allowed, and accepted edits can be written",
  "Unless the configuration allows changing the partition count, no operation changes the number of entries of an existing table, and an edit that would need more entries is refused with the documented error. When it is allowed, the count never falls below 128, the previous count or the highest id in use, and an edit that was accepted never makes a later write fail for want of entries.",
  ["histories", "configurations"],
  "all histories of adds at chosen ids, replacements of the partition map, removals and writes, tables with 1 to several hundred entries, both settings",
  "One test grows a table from 128 to 129 entries and only looks at the entry count.",
  [L, H, B], [("num_parts_would_change", H), ("init_headers", L), ("update_partitions", L)],
  ["header().num_parts", "GptError::PartitionCountWouldChange", "GptError::OverflowPartitionCount"])

p("C09", "A refused edit changes nothing",
  "When adding a partition or replacing the partition map returns an error, the partitions, both headers and the disk GUID are exactly what they were before the call.",
  ["inputs", "histories", "fault_sequences"],
  "all refused edits: no space, id in use, count not allowed, growth that does not fit on the device, device errors during the call",
  "Only one refusal is tested, and its after-state is not examined.",
  [L], [("add_partition / add_partition_at / update_partitions / init_headers", L)],
  ["GptDisk::partitions / primary_header / backup_header / guid around a failing call"])

p("C10", "Either copy alone is enough to open the disk, and a write restores the other",
  "If any part of one copy (primary header, primary array, backup header or backup array) is damaged while the other copy is intact, opening with the default configuration still yields the complete table and GUID, and a subsequent write restores the disk to the bytes it had before the damage (names without NUL characters). If both headers are damaged opening fails, and when both headers are required to be valid a single damaged header is enough to make it fail.",
  ["inputs", "fault_sequences", "configurations"],
  "all damage to one copy (any bytes of its header, any bytes of its array, overwritten or zeroed blocks), all tables, both block sizes",
  "One test zeroes the whole first half of one image; no test damages only the array, or the backup.",
  [L, H, PT], [("open_from_device", L), ("file_read_header", H), ("file_read_partitions", PT)],
  ["GptConfig::open_from_device result", "device bytes after write"])

p("C11", "A damaged header or entry array is never taken for a valid one",
  "A header is only reported as valid, and partitions are only returned, if the bytes they were read from match their CRCs: any change to the 92 header bytes or to the entry array of a copy makes that copy be rejected with an error. Opening never returns a table that differs from the ones that were written.",
  ["inputs", "fault_sequences"],
  "all modifications (single bits, bytes, bursts, swapped or stale blocks) of the header and array bytes of either or both copies, including arrays from other tables",
  "No test feeds a header or array with a wrong checksum.",
  [H, PT, L], [("file_read_header CRC check", H), ("file_read_partitions CRC check", PT)],
  ["GptConfig::open_from_device", "header::read_header_from_arbitrary_device", "partition::file_read_partitions"])

p("C12", "A crash during a write never loses or mixes the partition table",
  "Take a device with two valid copies and interrupt a write to it at any point: everything flushed before is on the device and any subset of the later block writes is. Opening the result always succeeds and yields exactly the old table or exactly the new one; once the write has returned it yields the new one.",
  ["crash_points", "histories"],
  "all crash points between and within device operations, all subsets and orders of unflushed 512-byte block writes, all pairs of old and new tables including grown ones",
  "Tests only look at completed writes.",
  [L, H, PT], [("order of array and header writes and flushes in write_inplace", L), ("fallback in open_from_device", L)],
  ["device contents at every prefix of the recorded write sequence"])

p("C13", "A write reports success only if everything reached the device",
  "If any device operation fails during a write, success is returned only when the device nevertheless holds exactly what a fault-free write produces, and never when a write or flush failed. After such a failure, repeating the write on the healthy device succeeds and gives the fault-free result; a fault while opening yields an error or the right table, never a different one.",
  ["fault_sequences", "histories"],
  "every position of a failing read, write, seek or flush in the operation sequence of a write or an open, single and persistent faults, short writes before the error",
  "No test uses a failing device.",
  [L, H, PT], [("error propagation in write_inplace / open_from_device", L)],
  ["Result of write_inplace / open_from_device", "device bytes"])

p("C14", "Results do not depend on how the device splits transfers",
  "On a device that returns fewer bytes per read or write than asked for, or interrupts operations, opening, writing and the MBR functions give the same results and leave the same bytes as on a device that does not.",
  ["fault_sequences", "inputs"],
  "all patterns of short and interrupted reads and writes, all tables, any initial stream position",
  "All tests use cursors and regular files, which never split transfers.",
  [L, H, PT, M], [("read_exact / write_all", H)], ["device bytes, returned values"])

p("C15", "A read-only backup is never modified",
  "With the backup configured as read-only, no operation writes to the block of the backup header or to the backup's entry array, while the primary copy is written completely and the disk reads back with the new table.",
  ["histories", "configurations"],
  "all histories of edits and writes on valid disks and on disks whose primary copy is damaged, both block sizes",
  "One test compares the backup area after one added partition.",
  [L], [("readonly_backup in write_inplace / init_headers", L)], ["device bytes of the backup region"])

p("C16", "Any image is opened or rejected without panic or excessive memory",
  "For every device content and length, opening it, querying the result, editing it with valid arguments and writing it back returns a value or an error: it does not panic, does not loop, and does not allocate more memory for reading than the device is long. The MBR and header readers behave likewise.",
  ["inputs", "configurations"],
  "all byte contents and lengths, in particular images with correct checksums but arbitrary field values, both block sizes and all configurations",
  "Tests only open well-formed images.",
  [L, H, B, PT, M], [("checked arithmetic and error returns", PT)], ["panics, allocation sizes, results"])

p("C17", "The MBR codec is exact and lossless",
  "Parsing the bytes of a block-sized buffer as a protective MBR succeeds exactly if it has the block size and ends its first 512 bytes with 55 AA; every field is then what those bytes say by the MBR layout, and serialising gives the first 512 bytes back. Setters change exactly the field they name, partition indices other than 0 to 3 are rejected without effect, and a freshly made protective MBR has the UEFI bytes: one 0xEE record from LBA 1 with the requested size, not bootable, starting CHS 0/0/2 and ending CHS FF/FF/FF, and otherwise only the signature.",
  ["inputs"], "all buffers of all lengths, both block sizes, all records, all setter sequences",
  "Tests round-trip one default MBR.",
  [M], [("ProtectiveMBR::from_bytes / to_bytes", M), ("PartRecord::from_bytes / to_bytes", M)],
  ["ProtectiveMBR and PartRecord values and bytes"])

p("C18", "MBR device operations change only their documented bytes",
  "Overwriting LBA 0 changes exactly the first 512 bytes, the conservative update exactly the partition records and signature, the boot code and disk signature writers exactly bytes 0..440 and 440..444; the corresponding readers return those bytes. All of them leave the rest of the device and, on success, the stream position as they were, and the readers write nothing. A writer that returns success has flushed what it wrote, and none reports success when one of its writes or flushes failed, or a failed read or seek led it elsewhere.",
  ["inputs", "histories"], "all device contents and positions, all MBR values, all sequences of these operations",
  "Tests check single operations on an empty temporary file and never the stream position or the rest of the device.",
  [M], [("overwrite_lba0 / update_conservative / write_bootcode / write_disk_signature", M)],
  ["device bytes and stream position"])

p("C19", "Partition and block-size arithmetic is exact or an error",
  "A partition's length in sectors is last - first + 1, its length and start in bytes are these times the block size; whenever the exact result does not fit in 64 bits or last < first an error is returned, and otherwise the exact value. A block size converts from and to exactly 512 and 4096.",
  ["inputs"], "all pairs of 64-bit LBAs and both block sizes, all 64-bit block sizes",
  "Tests check seven fixed pairs.",
  [PT, D], [("bytes_len / bytes_start / sectors_len", PT), ("TryFrom<u64> for LogicalBlockSize", D)],
  ["returned values"])

p("C20", "A partition type depends only on its GUID",
  "Every textual form and letter case of a GUID that is accepted, the name of a known type in any letter case, and the GUID itself all give the same type: the known type with that GUID and its operating system if there is one, otherwise an unspecified type with exactly that GUID. Anything else is rejected, the known types have pairwise different GUIDs equal to their published values, and a partition counts as used exactly if its type GUID is not zero.",
  ["inputs"], "all GUIDs, textual GUID forms, names and other strings",
  "Tests parse five strings.",
  [T, MA, PT], [("partition_types! FromStr / From<Uuid>", MA)], ["Type values"])

p("C21", "A built header always describes a consistent layout",
  "For every parameter combination, building a header returns an error or a header in which the primary array, the usable range, the backup array and the backup header follow one another without overlap and end at the backup LBA, with a usable bound the caller chose kept whenever it is sufficient, and the primary and backup built from the same parameters agree. Building leaves the builder as it was: a builder told more after a build gives what a new builder told the same would. It never panics, and returns an error only if the two headers and arrays leave no usable block within the requested bounds.",
  ["inputs"], "all GUIDs, LBAs, entry counts, entry sizes and usable bounds, both block sizes, headers built anew or from existing ones",
  "Tests build one geometry.",
  [B], [("HeaderBuilder::build", B)], ["Header fields or HeaderError"])

p("C22", "Path-based functions do what the device-based ones do, and sync the file",
  "Opening, creating, reading and writing through a path give the same results and file contents as the device-based functions on the same bytes, without changing the file's other bytes or its length (for tables inside the file). A path-opened disk reports a successful write only after the file was synced to storage following its last data write, and reports an error if that sync fails. No path-based function creates or truncates a file, and none opens it for writing when it only reads or the disk is not writable.",
  ["inputs", "histories", "fault_sequences"], "all images and edit histories, sync failures, both block sizes",
  "Tests open files but never compare with the device functions and cannot see whether the sync happens.",
  [L, H, PT, D], [("GptConfig::open / create, file_sync_all", L), ("read_header / write_header", H), ("read_partitions / Partition::write", PT), ("read_disk", D)],
  ["file bytes, fsync calls, returned values"])

p("C23", "After a write, memory, disk and a repeated write agree",
  "After a successful write the headers reported by the disk object, checksums included, equal the ones found by opening the device (with a read-only backup: the backup header it reports, if any, is still the one on the device), and writing again without edits changes no byte. Opening a disk this library wrote and writing it back unedited changes no byte either (names without NUL characters).",
  ["histories", "configurations"], "all histories of edits and writes, both block sizes, with the backup read-only or not",
  "Two tests compare one such rewrite.",
  [L, H], [("write_inplace", L), ("Header crc update", H)], ["headers in memory and on disk, device bytes"])

p("C24", "Partition entries are encoded and decoded by the UEFI layout in place",
  "Writing an entry at an index stores exactly the UEFI encoding of that partition (mixed-endian GUIDs, little-endian integers, UTF-16LE name cut to whole characters within 36 units, zero padding up to the entry size) at that index and changes nothing else; writing zero entries clears exactly the given entries. Reading an array returns, under index + 1, exactly the entries that are not all zero with the fields their bytes encode, an entry size other than 128 is refused with an error, and positions beyond 64 bits give an error.",
  ["inputs"], "all partitions, names, indices, array positions, entry sizes from 128, entry counts",
  "Unit tests encode only the zero partition.",
  [PT, H], [("as_bytes / write_to_device / write_zero_entries_to_device / file_read_partitions", PT), ("parse_uuid", H)],
  ["device bytes, decoded partitions"])

p("C25", "GUIDs are kept, set and generated correctly",
  "The disk GUID is the one given at creation or read from the disk until it is updated, and after an update the next write stores the new one in both headers. Every generated disk or partition GUID is a fresh random (version 4) one, different from all others, and existing partitions keep theirs through every edit and write.",
  ["histories", "inputs"], "all histories of GUID updates, edits, writes and reopens",
  "No test updates a GUID.",
  [L, B], [("update_guid / init_headers / write_inplace", L)], ["GptDisk::guid, header disk_guid, on-disk GUID bytes"])

p("C26", "The reported alignment is the alignment of the table",
  "The calculated alignment of a table with used partitions is the largest power of two, at most 2048, that divides the first LBA of every used partition, and 0 if the table has no entries. Adding a partition with the reported alignment keeps the reported alignment from shrinking.",
  ["inputs", "histories"], "all sets of partitions with any 64-bit first LBAs",
  "One test checks one misaligned image.",
  [L], [("calculate_alignment", L)], ["GptDisk::calculate_alignment"])

p("C27", "Tables written by other tools survive being edited here",
  "Opening a coherent table written by another tool (its own entry count, array position, usable range, padding, gaps and unused entries) yields exactly its used and non-zero entries under their positions and its header fields. Writing it back, edited or not, keeps its GUID, partitions, entry count and usable range (unless a count change was allowed and made) and never overwrites a used partition.",
  ["inputs", "histories"], "all coherent tables with 4 to 512 entries, arbitrary gaps, primary and backup arrays placed anywhere outside the usable range, both block sizes",
  "All tests but two start from tables the library created, and the one foreign image is written by fdisk with the default layout.",
  [L, H, B, PT], [("HeaderBuilder::from_header", B), ("write_inplace", L)], ["opened view, device bytes after write"])

p("C28", "Clones and disks moved to another device are independent and equivalent",
  "A clone, or a copy bound to another device of the same size, starts with the same partitions, headers, GUID and settings, writes to its own device what the original would write to its own, and neither sees later changes of the other; replacing the device returns the previous one and affects nothing but the device and its writability.",
  ["histories"], "all histories interleaving edits and writes of a disk and of copies made from it",
  "One test binds one disk to one other device.",
  [L], [("with_disk_device / update_disk_device / Clone", L)], ["views and bytes of both disks"])

p("C29", "Edits of the partition map change exactly the named entry",
  "Removing by id or by GUID removes exactly that entry (the lowest id if several share the GUID) and reports its id, or nothing if there is none; taking the partitions returns all and leaves none; replacing the map stores exactly the given one; the next free id is the lowest one, from 1 up to the entry count, that is absent or unused, and none if all are used.",
  ["histories"], "all interleavings of these operations with adds, writes and reopens",
  "Tests remove two partitions once and never by GUID.",
  [L], [("remove_partition / remove_partition_by_guid / take_partitions / update_partitions / find_next_partition_id", L)],
  ["GptDisk::partitions and returned ids"])

p("C30", "New tables fill any device they fit on, and tables follow a resized device",
  "Creating a table succeeds exactly if the device holds at least one usable block besides the MBR block, the two headers and the two 128-entry arrays, whatever its length and trailing partial block, and then the usable range is everything between the arrays with the backup header in the last complete block. When the device has changed size, replacing the partition map (with partitions that still fit) moves the backup to its new last block and recomputes the usable range the same way.",
  ["inputs", "histories", "configurations"], "all device lengths from 0 bytes to 2^62, both block sizes, any growth or shrinkage",
  "Tests create on four sizes, all multiples of the block size, and never resize.",
  [L, B, H], [("find_backup_lba", H), ("init_headers", L), ("HeaderBuilder::build", B)], ["create result, header fields, device bytes"])

p("C31", "Headers are encoded and decoded by the UEFI layout and written where they belong",
  "Writing a header stores exactly the UEFI encoding of its fields, with the entry-array CRC of the array it points to and its own CRC, in its own block (rest of the block zero), changes nothing else and records both checksums; reading it back gives the same header. A header is refused with an error if it is written as primary although it does not precede its alternate, or as backup although it does not follow it; the path helper that creates a header stores a valid primary header for that file with the given or a fresh GUID.",
  ["inputs"], "all header field values, both block sizes, all device contents",
  "Tests write the two headers of one image.",
  [H], [("Header::write_primary / write_backup / read_header / write_header", H)], ["device bytes, Header values, errors"])

p("C32", "Enabling logging does not change behaviour",
  "With the log or the tracing feature enabled, and a subscriber that formats every message, every operation returns the same results and leaves the same bytes on the device, and the device at the same stream position, as without these features.",
  ["histories", "configurations"], "all histories of creations, edits, faults and writes, feature sets default, log, tracing",
  "The test suite runs without a logger, so no log argument is ever evaluated there.",
  ["src/logging.rs", L, PT, H], [("trace! / debug! macros", "src/logging.rs")], ["digests of results and device bytes per feature set"])

p("C33", "A refusal names its actual cause",
  "An error tells the truth: read-only is reported exactly when a write is attempted on a disk opened without write access; id in use only for an id that is used; lack of space only when no run of free blocks could take the partition; a change of the entry count only when the table would have to grow and growth is not allowed; a layout error only when the grown table does not fit. Opening and header access report a bad signature, a bad checksum or a missing header exactly when the bytes have that defect, also through clones, and an I/O error of the device arrives as an I/O error of the same kind. Arguments the documentation forbids (size, length or id zero) are never accepted and change nothing.",
  ["histories", "inputs", "configurations", "faults"],
  "every history of edits on every table, every device image, every operation with every kind of device error at every position, every forbidden argument",
  "The tests look at error variants for a handful of fixed situations; mostly they only check that something failed.",
  [L, H, PT, M], [("GptError", L), ("HeaderError", H), ("lossy clone of the header results", H), ("add_partition / add_partition_at / update_partitions", L)],
  ["error variants returned by the public API", "table and device after a refusal"])

p("C34", "Printed forms and named attributes show the actual values",
  "Printing a partition, header, block size, disk, MBR or error shows the values it holds under their labels: the partition's name, its GUIDs in standard text form, its span and flags; the header's disk GUID and checksums; the text of a wrapped I/O error; and different errors read differently. The named partition attributes are the bits UEFI gives them, and an operating system is recognised by exactly its listed names.",
  ["inputs"], "all field values, all names, all texts",
  "No test looks at the printed form of any value, and none uses the named attributes.",
  [PT, H, D, T, L, M], [("Display for Partition", PT), ("Display for Header", H), ("PartitionAttributes", PT), ("OperatingSystem::from_str", T)],
  ["format!(\"{}\") and format!(\"{:?}\") of the public types"])

p("C35", "Other implementations and this one agree about tables",
  "A table written here next to a protective MBR written here is accepted without complaint by other GPT implementations (util-linux's libfdisk and libblkid), which report the same disk GUID, entry count, usable range and partitions (id, name, type, GUID, flags, span), also when the primary copy is damaged. A table created by another implementation is opened here exactly as that implementation reports it, and stays free of complaints after it is edited and written here.",
  ["histories", "inputs", "configurations"],
  "every history ending in a write, every table of the other implementation, both block sizes",
  "The tests compare with a few stored images; none asks another implementation about a table written here.",
  [L, H, PT, M], [("GptDisk::write", L), ("Partition::write / write_entry", PT), ("read_gpt / file_read_partitions", H), ("ProtectiveMBR", M)],
  ["device bytes as read by libfdisk and libblkid", "GptDisk::partitions of tables created by libfdisk"])

p("C36", "Only metadata blocks are accessed, and a bad block costs only its own copy",
  "Opening, editing, writing and reopening touch no block of the device besides the header and array blocks of the two copies: defects in any other block change nothing. Blocks of one copy that cannot be read do not keep the disk from opening with the other copy's table, and a write that succeeds restores them; asking for both headers, or losing both copies, makes the open fail. If blocks of one copy cannot be written, a write of a disk with two intact copies fails with an I/O error and leaves the other copy complete, so that the disk still opens with the old or the new table, and a later write succeeds once the defect is gone.",
  ["histories", "faults", "configurations"],
  "every history of edits and writes, every set of defective blocks, every kind of device error",
  "No test uses a device with unreadable or unwritable blocks.",
  [L, H, PT], [("GptConfig::open_from_device", L), ("GptDisk::write", L), ("read_header / file_read_header", H), ("Partition::write_entry / write_zero_entries_mbr", PT)],
  ["positions of device reads and writes", "results of open and write"])

with open("/verif/properties.jsonl", "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
