#!/usr/bin/env python3
"""Writes known_findings.jsonl (run by hand; no check runs or changes it)."""
import json, os
fixed = [
 ("C01", "6a78b28", "update_guid was ignored by write: the old GUID was stored in both headers (also C25)"),
 ("C05", "b263c58", "add_partition_at checked only the start: a partition reaching into its neighbour or past the usable range was accepted"),
 ("C07", "93ab542", "find_free_sectors listed occupied or unusable LBAs as free when partitions overlap, are out of order or lie outside the usable range (also C05)"),
 ("C08", "8fdeb5e", "the entry count was taken from the number of partitions, not the highest id, so accepted edits lost partitions or made the write fail"),
 ("C09", "8fdeb5e", "a refused add_partition/add_partition_at/update_partitions had already inserted the partition or changed a header"),
 ("C21", "f38505b", "HeaderBuilder accepted a usable range over the backup array, overflowed with large counts, and ignored primary_lba"),
 ("C30", "f38505b", "after a device changed size the usable range stayed that of the old size (backup array over partitions, or unusable new space; also C02)"),
 ("C16", "cb1f0d8", "opening a table whose header states an entry size other than 128 panicked (also C24)"),
 ("C20", "b151f19", "Type::from_str took a known GUID in lower case, without hyphens, in braces or as URN for a custom type"),
 ("C06", "449793b", "add_partition with alignment 0 divided by zero, with a huge one it overflowed"),
 ("C13", "99b25ab", "a failed seek was ignored by the header reader, which then read a header from the wrong position"),
 ("C24", "07c639e", "writing an entry beyond 64 bits overflowed instead of giving an error"),
 ("C24", "f533e62", "a name was cut inside a surrogate pair, so it read back with a replacement character (also C01)"),
 ("C10", "9ad6601", "a damaged primary entry array made opening fail although the backup copy was intact"),
 ("C12", "469fbee", "both arrays were written before either header and without a flush between the copies: a crash could leave no openable copy"),
 ("C16", "15a056d", "adding a partition that ends at LBA 2^64-1 (a header may state such a usable range) overflowed"),
]
open_ = [
 ("C03", "growth-over-partition", "growing the entry count (change_partition_count) of a table whose used partitions lie next to the arrays puts the grown array over them; the write then overwrites partition data. The existing test test_change_partition_count asserts that such a growth on a full disk succeeds, so it cannot be refused without breaking the suite. Fails: a new 512-byte-block table, a partition at the first usable LBA, then a partition added at id 129 or above, then write."),
 ("C27", "growth-over-partition", "the same defect on a table made by another tool: 4 entries, a partition at LBA 10, add_partition_at with id 5 (the count grows to 128, the array covers LBA 2 to 33), then write."),
]
out = []
for p, k, w in open_:
    out.append({"status": "open", "property": p, "key": k, "what": w})
for p, c, w in fixed:
    out.append({"status": "fixed", "property": p, "commit": c, "line": f"fixed: property={p} {c} {w}"})
with open(os.path.join(os.path.dirname(__file__), "..", "known_findings.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
