#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
H = "stateful property-based testing (proptest): "
T = {
 "C01": (H+"generated histories, reopened disk against the in-memory model", "Random histories of up to 12 operations on devices of both block sizes and many lengths; a fresh open after every write is compared with the partitions in memory. Trusts the open path only as far as C24/C27 check it."),
 "C02": (H+"generated histories, independent parser of the raw bytes as oracle", "Own parser and CRC, no library code in the oracle. Bounded by history length and the generated layouts."),
 "C03": (H+"byte differential of the device around every write", "Every byte outside the four metadata regions is compared on patterned devices. The listed finding's histories (grown array over a partition) are excluded and counted."),
 "C04": (H+"write-counting device around every operation", "Device calls and bytes are monitored for all API calls that are not writes, and for refused writes."),
 "C05": (H+"every add judged against an interval-sweep model", "Model independent of the library's own free list. Tables of at least 128 entries."),
 "C06": (H+"reference first-fit search", "Complete oracle for placement, id and lack of space. Tables of at least 128 entries."),
 "C07": (H+"interval-sweep reference for the free list", "Includes tables with overlapping, reversed and out-of-range partitions and arbitrary usable ranges."),
 "C08": (H+"invariant over the entry count, writes of accepted edits", "Counts from 4 to 512, gaps in ids, both settings of the permission."),
 "C09": (H+"state comparison around refused edits, with device faults injected at every operation of the edit", "All fault positions of every edit in the history are covered; histories are sampled."),
 "C10": ("property-based testing: generated damage to one copy, reopened and restored (round trip)", "Damage to either copy's header, array or both, by several kinds of corruption."),
 "C11": ("property-based testing and enumeration: tampering and single-bit flips against a CRC oracle", "Every single bit of the four regions of a set of tables is flipped; mixes of two generations and random damage are sampled."),
 "C12": ("property-based crash testing: recorded block writes, subsets replayed, every state reopened", "Model: 512-byte pieces atomic, flush is a barrier. Prefixes of the write's operations (inside long runs of entry writes sampled); for the unflushed pieces all, none, all but one, only the last, and random subsets."),
 "C13": ("property-based fault injection: every device operation of a write or open fails in turn", "All fault positions of every generated write, several fault kinds; tables and edits sampled."),
 "C14": ("property-based metamorphic testing: same history on a device that splits and interrupts transfers", "Cyclic patterns of short transfers and interruptions against the plain device."),
 "C15": (H+"backup bytes compared after every operation with a read-only backup", "Own and foreign tables, also with a damaged primary copy."),
 "C16": ("structured fuzzing of device images with panic, allocation and termination monitors", "Counting allocator, panic hook and watchdog; overflow checks on. Images are built so that a good share passes the checksums."),
 "C17": ("property-based testing: independent MBR codec as reference", "Full field coverage with random buffers and setters."),
 "C18": ("property-based testing: byte differential around MBR device operations", "Devices of any length, arbitrary contents and stream positions."),
 "C19": ("property-based testing: 128-bit reference arithmetic", "Values concentrated around 64-bit boundaries."),
 "C20": ("property-based testing and enumeration: reference GUID grammar and published table of types", "All known types in all textual forms; near misses and arbitrary strings sampled."),
 "C21": ("property-based testing: layout invariants of built headers, reference for when a layout exists", "All parameters of the builder, values around the interesting sums."),
 "C22": ("property-based differential testing: path functions against device functions, recording sync stand-in", "Real files in a scratch directory; fsync and fdatasync interposed."),
 "C23": (H+"repeated write and reopened headers (idempotence, round trip)", "Histories ending in repeated writes from the same and from a fresh object."),
 "C24": ("property-based testing: independent entry codec as reference", "Arbitrary entries, indices, positions and entry sizes; reader checked on arbitrary raw arrays."),
 "C25": (H+"model of the disk GUID and all partition GUIDs", "Generated GUIDs are checked for version, variant and distinctness across the whole run."),
 "C26": (H+"reference alignment", "Includes partitions with arbitrary 64-bit extents."),
 "C27": (H+"tables generated in the layout of other tools, preserved or compared by an independent codec", "Entry counts 4 to 512, arrays anywhere, gaps, leftovers; the listed finding's histories are excluded and counted."),
 "C28": (H+"forked and mirrored histories (metamorphic)", "Clones and moved disks, interleaved and mirrored."),
 "C29": (H+"plain map as reference model", "Removal, take, replacement and id queries."),
 "C30": ("property-based testing and enumeration: reference layout for every length; histories on resized devices", "All lengths around the smallest ones enumerated, larger ones up to 2^62 sampled on sparse devices."),
 "C31": ("property-based testing: independent header codec as reference", "Arbitrary header fields and devices; path helper on real files."),
 "C32": ("property-based differential testing: same story in builds without and with logging features", "Four processes, all results and bytes compared."),
 "C33": ("property-based testing: stateful histories, hostile images and injected device errors; every reported error judged against the state and bytes", "Necessary condition of every error variant computed independently; error kinds passed through; forbidden arguments refused."),
 "C34": ("property-based testing: generated values printed and read back field by field", "Display and Debug forms, attribute bits, operating system names."),
 "C35": (H+"differential against util-linux's libfdisk and libblkid, both ways", "The installed shared libraries read the written images and create tables; tables with overlapping or outlying partitions are compared with libfdisk only."),
 "C36": (H+"device with unreadable and unwritable byte ranges", "Everything outside the metadata defective during whole histories; defects inside one or both copies on open and write."),
}
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(base + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "checks": [{"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                 "evidence_file": f"evidence/{i}.json",
                 "technique": T[i][0], "level": "exploration", "level_note": T[i][1]} for i in props],
     "not_applicable": [],
     "notes": "No hooks in /repo: everything is checked through the public API. run.sh rebuilds the harness against /repo's working tree; ./run.sh replay <file> reruns a replay file. Known findings and repaired defects: known_findings.jsonl."}
json.dump(m, open(base + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(base + "/MANIFEST.json", "a").write("\n")
