#!/usr/bin/env python3
"""Writes /verif/known_findings.json: defects found by the checks (or while reading), repaired or recorded."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []
def fixed(prop, commit, what):
    F.append({"property": prop, "status": "fixed", "commit": commit, "what": what, "line": "fixed: property=%s %s %s" % (prop, commit, what)})
fixed("C01", "e94389f", "chunk_lattice_index computed the append dimension's divisor in 32 bits: wrong chunk for large inner dimensions")
fixed("C03", "44f04c3", "chunks_along_dimension/shards_along_dimension overflowed 32 bits while rounding up (0 or too few chunks for sizes near 2^32); tile_group_offset shared the defect")
fixed("C06", "c02deb1", "frames per shard computed in 32 bits: rollover at the wrong frame")
fixed("C11", "8c462d6", "write_vectors truncated the file offset to 32 bits: offsets of 2 GiB and more were refused or wrong")
fixed("C09", "1d323e7", "FileSink::write and flush_ returned true without looking at the stream state")
fixed("C09", "65cc056", "a file that could not be opened was not reported when its sink was made")
fixed("C27", "c1a5982", "make_dirs_/make_files_ counted the latch down before recording the failure: a lost failure, and a worker writing to a flag of a function that has returned (C26)")
fixed("C22", "7145b41", "a compressor failure (result < 0 or 0) was ignored or took the pool's error path without reporting to the caller")
fixed("C09", "9ba1811", "flush_impl_ ignored failing chunk/shard jobs and reported success")
fixed("C06", "8541a36", "shard index slots of chunks in later append layers overwrote those of the first layer")
fixed("C07", "7af4fbc", "a stream ending within a shard left its shards unfinished (no index) or open, and the metadata out of date")
fixed("C08", "3cc07cc", "appending in pieces lost or misplaced frames (frame buffer cursor not reset, frame not written)")
fixed("C26", "2b4059b", "the stream's error message was written by workers and read by the caller without synchronisation")
fixed("C18", "adf1acd", "lower resolution levels averaged bytes instead of pixels, wrapped around in small types")
fixed("C25", "6531e22", "scaled frames were leaked, one per level")
fixed("C25", "80b70f3", "a stream that could not be finalised was leaked; an exception escaped ZarrStream_destroy")
fixed("C17", "06e38fd", "null dimension names and null S3 strings crashed ZarrStream_create")
fixed("C22", "5dfdb47", "compression settings that select no compressor were refused or dereferenced")
fixed("C16", "86907d7", "an empty custom_metadata string produced an ill-formed document")
fixed("C16", "8f926ff", "0/.zattrs was an empty file, not a JSON document")
fixed("C19", "5e5470b", "downsample could overflow and never stopped for arrays with nothing left to halve")
fixed("C21", "0bdd6f0", "a connection was lost when a request on it failed; the next user waited forever")
fixed("C17", "84c9bf5", "compiled with clang (signed enum promotion), codes with the high bit set passed the checks of compressor, codec, dimension type and pixel type")
fixed("C09", "f5f515c", "when finalising a data sink failed, destroying the stream dereferenced the moved-from sinks (crash) and the other sinks stayed open")
fixed("C09", "824409a", "when a shard file could not be created, destroying the stream dereferenced a null sink (crash)")
fixed("C29", "64317bb", "appending a NumPy array that is not C-contiguous stored other bytes than the array's and could read past its memory")
fixed("C29", "8bc269d", "an array of which the library took only a part was appended from Python without an exception")
with open(HERE + "/known_findings.json", "w") as f:
    json.dump({"findings": F}, f, indent=1)
    f.write("\n")
