#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the entries stay uniform)."""
import json, os
S = "src/streaming/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Each frame is routed to the chunk that covers it",
  "For every array geometry of three or more dimensions and every frame number, the chunk coordinate computed for a frame along each non-tile dimension, and the position of the frame's group of tiles among the chunks buffered at one time, equal the row-major position of the chunk that covers the frame's coordinates. Frame numbers run through the dimensions in row-major order with the append dimension slowest and unbounded.",
  ["inputs", "configurations"], "all sizes of array/chunk along every dimension (ragged ones included), all 64-bit frame numbers",
  "the unit tests check one or two geometries with a handful of frame numbers each; raggedness in several dimensions and large frame numbers are not sampled",
  [S + "zarr.dimension.cpp", S + "zarr.dimension.hh"],
  [("chunk_lattice_index", S + "zarr.dimension.cpp"), ("tile_group_offset", S + "zarr.dimension.cpp")],
  ["ArrayDimensions::chunk_lattice_index", "ArrayDimensions::tile_group_offset"])
p("C02", "A frame's place inside its chunk is exact, in bounds and unshared",
  "For every geometry, pixel type and frame number, the byte offset of the frame's tile inside its chunk equals the row-major position of the frame's within-chunk coordinates times the tile size in bytes, and the tile ends within the chunk. Two different frames held in the buffer at the same time never occupy the same bytes of the same chunk.",
  ["inputs", "configurations"], "all geometries, all ten pixel types, all 64-bit frame numbers and pairs of frames",
  "the unit test fixes one geometry and a few frames; overlap of two frames is a property of all pairs",
  [S + "zarr.dimension.cpp"], [("chunk_internal_offset", S + "zarr.dimension.cpp"), ("bytes_per_chunk", S + "zarr.dimension.cpp")],
  ["ArrayDimensions::chunk_internal_offset", "ArrayDimensions::bytes_per_chunk"])
p("C03", "Chunk, shard and byte counts are exact for every size",
  "The number of chunks (shards) along a dimension is the array size (chunk count) divided by the chunk size (shard size) rounded up, for every 32-bit size; a zero chunk size is refused with an error and a zero shard size gives zero shards. The totals derived from them (chunks buffered, shards, chunks per shard, bytes per pixel type, per chunk and per frame) are the exact products over the dimensions.",
  ["inputs", "configurations"], "all 32-bit array, chunk and shard sizes; all pixel types and any integer given as one",
  "counts are only exercised on the few sizes of the unit tests; rounding and overflow live at the edges",
  [S + "zarr.common.cpp", S + "zarr.dimension.cpp"],
  [("chunks_along_dimension", S + "zarr.common.cpp"), ("shards_along_dimension", S + "zarr.common.cpp"), ("bytes_of_type / bytes_of_frame", S + "zarr.common.cpp"), ("number_of_chunks_in_memory, number_of_shards, chunks_per_shard, bytes_per_chunk", S + "zarr.dimension.cpp")],
  ["zarr::chunks_along_dimension", "zarr::shards_along_dimension", "ArrayDimensions counts"])
p("C04", "Every chunk has one shard and a slot of its own in it",
  "For every geometry and every chunk, the shard assigned to the chunk is the row-major position of the shard covering it and is below the number of shards, and its slot within the shard is the row-major position of the chunk inside that shard and is below the number of chunks per shard. Two different chunks of the same shard never share a slot, ragged shards included.",
  ["inputs", "configurations"], "all geometries with positive shard sizes, all chunk numbers (over all dimensions including the append dimension) and pairs of chunks",
  "the unit tests tabulate two geometries; ragged shards in several dimensions and collisions are statements about all pairs",
  [S + "zarr.dimension.cpp"], [("shard_index_for_chunk", S + "zarr.dimension.cpp"), ("shard_internal_index", S + "zarr.dimension.cpp")],
  ["ArrayDimensions::shard_index_for_chunk", "ArrayDimensions::shard_internal_index"])
p("C05", "A Zarr V2 store holds exactly the appended pixels",
  "After a V2 stream on the file system is finished without error, every pixel of every complete frame appended is found in the chunk file named by the pixel's chunk coordinates at its row-major position in the chunk, and every other byte of the chunk files (ragged edges, frames never appended) is zero. No chunk file is missing, misplaced or of the wrong size.",
  ["inputs", "configurations", "histories"], "all small geometries, ragged or not, pixel types, frame counts and pixel values",
  "the writer tests write constant frames and look only at file names and sizes (and cannot even be built here)",
  [S + "array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "sink.creator.cpp", S + "zarr.stream.cpp", S + "zarr.dimension.cpp", S + "file.sink.cpp"],
  [("write_frame_to_chunks_, should_flush_, flush_, rollover_", S + "array.writer.cpp"), ("flush_impl_", S + "zarrv2.array.writer.cpp"), ("make_data_sink_paths_", S + "sink.creator.cpp")],
  ["chunk files of the store"])
p("C06", "A Zarr V3 store holds exactly the appended pixels, via shard indices",
  "After a V3 stream on the file system is finished without error, every shard file ends in an index with one (offset, length) pair of 64-bit values per chunk slot; following the slot of a chunk that received data leads to that chunk's bytes, which hold every appended pixel at its row-major position and zero elsewhere. Slots of chunks that were never written are marked with the all-ones value, entries never overlap and make up the whole file before the index, and this holds for any number of frames and for shards that span several chunks along the append dimension.",
  ["inputs", "configurations", "histories"], "all small geometries, shard shapes, frame counts (complete or partial chunks and shards) and pixel values",
  "the writer tests compare file sizes only; the index is never read back",
  [S + "zarrv3.array.writer.cpp", S + "array.writer.cpp", S + "zarr.dimension.cpp"],
  [("flush_impl_, should_rollover_", S + "zarrv3.array.writer.cpp"), ("flush_, finalize_array", S + "array.writer.cpp"), ("shard_index_for_chunk, shard_internal_index", S + "zarr.dimension.cpp")],
  ["shard files of the store"])
p("C07", "Array metadata describes the data that was stored",
  "After a stream to which at least one complete frame was appended is finished, the metadata document of each array that received data exists, is well-formed JSON, and gives the array shape (the append dimension being the number of entries needed to hold the frames appended), chunk shape, shard shape (V3), pixel type, byte order, fill value and compressor that were actually used. The document is up to date whatever the number of frames and wherever the stream stopped within a chunk or shard.",
  ["inputs", "configurations", "histories"], "both versions, all pixel types, small geometries, all small frame counts, all compressor settings",
  "the tests check a few fields for one frame count per geometry",
  [S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp", S + "array.writer.cpp"],
  [("write_array_metadata_", S + "zarrv2.array.writer.cpp, " + S + "zarrv3.array.writer.cpp"), ("flush_, finalize_array", S + "array.writer.cpp")],
  [".zarray / meta/root/N.array.json"])
p("C08", "Appending is insensitive to how the byte stream is cut up",
  "Appending a byte sequence in any number of pieces of any sizes, with single frames, several frames or fractions of a frame per call, stores the same dataset as appending it frame by frame. Each successful call consumes all the bytes it was given, reports exactly that number, and never reads outside the caller's buffer; a trailing incomplete frame is not stored.",
  ["inputs", "histories"], "all ways of cutting a stream of a few frames into calls, all pixel values, with and without multiscale",
  "the integration tests append exactly one frame per call; partial frames are never appended",
  [S + "zarr.stream.cpp", S + "acquire.zarr.cpp"], [("ZarrStream_s::append", S + "zarr.stream.cpp")],
  ["ZarrStream_append (bytes_out), chunk files"], [("frame_buffer_", "bytes of the incomplete frame", S + "zarr.stream.hh")])
p("C09", "A failed write is never reported as a success",
  "If the operating system or the store refuses a write or a flush, the sink's write or finalisation returns failure, and a stream whose chunk, shard or metadata could not be written makes its creation fail, or the current or the next append return an error status instead of success. Nothing is reported as failed when every operation succeeded.",
  ["fault_sequences", "histories"], "every place at which one or more storage operations of a run can fail",
  "no test injects a storage fault",
  [S + "file.sink.cpp", S + "sink.cpp", S + "vectorized.file.writer.cpp", S + "array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp", S + "zarr.stream.cpp", S + "thread.pool.cpp"],
  [("FileSink::write / flush_", S + "file.sink.cpp"), ("finalize_sink", S + "sink.cpp"), ("job error messages and error handler", S + "thread.pool.cpp, " + S + "zarr.stream.cpp"), ("append checks the error", S + "zarr.stream.cpp")],
  ["Sink::write, finalize_sink, ZarrStream_append"])
p("C10", "A file sink stores exactly the given bytes at the given offset",
  "Creating a file sink truncates the file; every successful write of a buffer at any 64-bit offset places exactly those bytes at exactly that offset and changes no other byte, in any order of writes; an empty write changes nothing and succeeds. After finalisation all of them are in the file; finalising no sink succeeds.",
  ["inputs", "histories"], "all offsets, all short sequences of writes, all contents and lengths up to the bound",
  "the unit test makes one 15-byte write at offset zero",
  [S + "file.sink.cpp", S + "sink.cpp"], [("FileSink::write, flush_", S + "file.sink.cpp"), ("finalize_sink", S + "sink.cpp")], ["file contents"])
p("C11", "A vectorised write puts all buffers, in order, at the given offset",
  "A vectorised file write stores the concatenation of its buffers, in order, starting at exactly the given offset for every offset a file can have, touches nothing else, and returns true if and only if all the bytes were written. A file that cannot be opened is reported when the writer is constructed, and the file is closed again when the writer goes away.",
  ["inputs", "fault_sequences", "histories"], "all 64-bit file offsets, any number (up to the bound) and sizes of buffers including empty ones, every result the operating system may return",
  "the unit test writes two batches at offsets below 64 KiB and injects no fault",
  [S + "vectorized.file.writer.cpp"], [("write_vectors", S + "vectorized.file.writer.cpp")], ["VectorizedFileWriter::write_vectors"])
p("C12", "Every accepted job runs exactly once before the pool has stopped",
  "On every schedule, each job the thread pool accepts is executed exactly once and has finished when the call that stops the pool returns; a job offered after that is refused and never run. The pool runs with at least one and at most the hardware's number of threads whatever number was asked for.",
  ["schedules", "inputs"], "all interleavings of pushes, workers and stop within the bound on jobs, threads and context switches",
  "the unit test pushes one job to one thread on whatever schedule happens",
  [S + "thread.pool.cpp"], [("push_job, process_tasks_, await_stop, should_stop_", S + "thread.pool.cpp")], ["ThreadPool::push_job, await_stop"])
p("C13", "A failing job is reported to the error handler once, with its message",
  "On every schedule, for each executed job that reports failure the error handler is called exactly once with the message that job produced, before the pool has stopped; it is never called for a job that reports success. A failing job does not keep other jobs from running.",
  ["schedules", "fault_sequences"], "all subsets of failing jobs, all interleavings within the bound",
  "no test has a failing job",
  [S + "thread.pool.cpp"], [("process_tasks_", S + "thread.pool.cpp")], ["ThreadPool error callback"])
p("C14", "Stopping or destroying the thread pool always terminates",
  "On every schedule, stopping the pool returns, a second stop returns, and destroying the pool returns with all its threads joined, whether its queue is empty or not; no wake-up is lost and no job is left running afterwards. Idle workers wait without finishing until there is work or the pool stops.",
  ["schedules", "histories"], "all interleavings of pushes, stops, destruction and workers within the bound",
  "a lost wake-up needs a particular interleaving that a test run does not choose",
  [S + "thread.pool.cpp"], [("await_stop, ~ThreadPool, process_tasks_ (condition variable)", S + "thread.pool.cpp")], ["ThreadPool::await_stop, ~ThreadPool"])
p("C15", "Data sinks are named and ordered by lattice position",
  "Creating the data sinks of an array under a base path yields exactly one sink per chunk (or shard) position over all dimensions but the append dimension, in row-major order, the sink at each position being the file whose path consists of the base path followed by the position's coordinates, slowest first. All intermediate directories exist, a leading file:// is dropped, and an empty base path or a dimension without parts is an error.",
  ["inputs", "configurations"], "all numbers of parts per dimension up to the bound, 3 to 5 dimensions, chunks and shards, file system and S3",
  "the sink-creator tests use one geometry, check existence of names only, not which sink belongs to which position (and are not built here)",
  [S + "sink.creator.cpp"], [("make_data_sink_paths_, make_dirs_, make_files_, make_s3_objects_", S + "sink.creator.cpp")], ["SinkCreator::make_data_sinks"])
p("C16", "Group metadata is well-formed and faithful to the settings",
  "A finished store contains its version's group-level documents at their specified paths, each one well-formed JSON: the version marker, the OME-NGFF multiscales entry with one axis per dimension (name, type and unit in order) and one dataset per resolution level with scale factors two to the power of the level along the append and the two tile dimensions, and the user's custom metadata unchanged in value (an empty object if none was given).",
  ["inputs", "configurations"], "both versions, all dimension types, 3 to 5 dimensions, numbers of levels up to the bound, a family of custom metadata documents",
  "tests look at one configuration each",
  [S + "zarr.stream.cpp", S + "sink.creator.cpp"], [("write_base_metadata_, write_group_metadata_, write_external_metadata_, make_multiscale_metadata_", S + "zarr.stream.cpp"), ("make_metadata_sink_paths_", S + "sink.creator.cpp")], ["group metadata files"])
p("C17", "Exactly the valid settings are accepted, and rejection has no effect",
  "Creating a stream succeeds for every valid setting and fails, returning no stream, for every invalid one: null settings, paths, dimensions or names; unknown version, pixel type, compressor, codec or dimension type; compression level above 9 or unknown shuffle; compressor without codec; fewer than three dimensions; the last two not spatial; zero chunk size, zero shard size in V3, zero array size except for the append dimension; blank names or credentials, bucket names not of 3 to 63 characters; malformed custom metadata; a parent directory that is missing or not writable. A rejected setting never crashes and leaves the file system as it was.",
  ["inputs", "configurations"], "all integer field values, null or blank strings in each field, combinations thereof",
  "the create-stream test tries a few invalid settings one at a time",
  [S + "zarr.stream.cpp", S + "zarr.common.cpp", S + "acquire.zarr.cpp"], [("validate_settings and its helpers", S + "zarr.stream.cpp"), ("trim, is_empty_string", S + "zarr.common.cpp")], ["ZarrStream_create"])
p("C18", "Lower resolution levels hold the local means of the appended frames",
  "For a three-dimensional multiscale stream, each pixel of each frame stored at level k is obtained from level k-1 by averaging blocks of two by two pixels (edge pixels repeated for odd sizes) of two consecutive frames, each mean computed exactly for integers (in double precision for floating point) and truncated to the pixel type. This holds for every pixel type and value without wrap-around, and level k holds one frame per two frames of level k-1.",
  ["inputs", "configurations"], "all small frame sizes, odd or even, integer pixel types up to 32 bits, all pixel values",
  "the multiscale tests check shapes, not values, mostly for one pixel type",
  [S + "zarr.stream.cpp"], [("scale_image, average_two_frames, write_multiscale_frames_", S + "zarr.stream.cpp")], ["chunk files of levels 1.."])
p("C19", "Downsampled array geometry is consistent and the pyramid is finite",
  "Downsampling an array configuration halves (rounding up) every dimension except channels, never enlarges a chunk or shard beyond the smaller array, keeps names, types, pixel type, store and compression, and raises the level of detail by one. An append dimension of unknown size keeps its chunk size. Another level is reported as possible exactly when no chunk shrank and something was left to halve, so that the pyramid ends for every configuration.",
  ["inputs", "configurations"], "all 32-bit sizes within the bound, all dimension types",
  "the unit test follows one configuration",
  [S + "array.writer.cpp"], [("downsample", S + "array.writer.cpp")], ["zarr::downsample"])
p("C20", "An S3 object is exactly the concatenation of what was written to its sink",
  "For every sequence of contiguous writes to an S3 sink followed by finalisation without error, the uploaded object equals the bytes written, whether it is sent as one object or in parts; parts are numbered from one without gaps, every part but the last has the part size, and the upload is completed once with all parts in order. If creating, uploading or completing fails, the write or the finalisation reports it, and data already sent is never rewritten silently.",
  ["inputs", "histories", "fault_sequences"], "all write sizes around the part boundaries, short sequences of writes, rewriting of unsent data, every operation failing",
  "the S3 tests need a live server and write two fixed sizes",
  [S + "s3.sink.cpp", S + "s3.connection.cpp"], [("write, flush_, flush_part_, put_object_, finalize_multipart_upload_", S + "s3.sink.cpp")], ["S3Sink::write, finalize_sink, requests sent"])
p("C21", "S3 connections are never shared, lost or waited for in vain",
  "On every schedule a connection handed out by the pool is in the hands of one user at a time, a user waits only while all connections are out, and every connection that is taken is returned exactly once, also when the request made on it fails. The pool makes as many attempts as it was asked for, keeps exactly the connections that proved valid, and refuses to be created when there are none.",
  ["schedules", "fault_sequences"], "all interleavings of a few users and connections, all requests failing or succeeding",
  "no test exhausts the pool or fails a request",
  [S + "s3.connection.cpp", S + "s3.sink.cpp", S + "sink.creator.cpp"], [("get_connection, return_connection", S + "s3.connection.cpp"), ("users of the pool", S + "s3.sink.cpp, " + S + "sink.creator.cpp")], ["S3ConnectionPool"])
p("C22", "Compressed chunks decode to the data, with the requested parameters",
  "With compression on, each chunk stored is the output of the compressor run once on that chunk with the codec, level, shuffle and type size that were requested, cut to the compressed length, so that decoding gives the uncompressed chunk; the next chunk written to the same buffer starts from zeros at full size. With no compressor selected, chunks are stored raw; if compression of a chunk fails an error is reported.",
  ["inputs", "configurations", "fault_sequences"], "all codecs, levels and shuffles, compressed lengths and failures chosen arbitrarily by the compressor",
  "tests compress fixed frames with one setting and never see a compressor failure",
  [S + "array.writer.cpp", S + "blosc.compression.params.cpp", S + "zarr.stream.cpp"], [("compress_buffers_, make_buffers_", S + "array.writer.cpp"), ("create_writers_", S + "zarr.stream.cpp"), ("blosc_codec_to_string", S + "blosc.compression.params.cpp")], ["chunk files"])
p("C23", "The C API reports bad arguments and never lets an exception out",
  "Every C API function returns the documented status for null or out-of-range arguments without touching its other arguments, and no exception escapes it; the log level read back is the one last set successfully, each status code has its own message and any other code is unknown. A dimension array is allocated for any count of at least three, replaces and releases the old one, and is left alone on failure; destroying resets it.",
  ["inputs", "histories"], "all integer values of every argument, all null combinations, allocation failure",
  "the API is only called with valid arguments in tests",
  [S + "acquire.zarr.cpp", "src/logger/logger.cpp"], [("argument checks and try/catch", S + "acquire.zarr.cpp"), ("EXPECT_VALID_ARGUMENT", S + "macros.hh")], ["include/acquire.zarr.h"])
p("C24", "Messages below the log level are suppressed, others are emitted once",
  "A message is emitted exactly when its level is at least the current log level, complete and as one line to the error stream for errors and to the output stream otherwise, and the emitted text is what the caller gets back; at level none nothing is emitted. Only the five defined levels can be set, and failing to set one changes nothing.",
  ["inputs", "histories"], "all pairs of message and threshold levels, all integers given as a level",
  "no test covers the logger",
  ["src/logger/logger.hh", "src/logger/logger.cpp"], [("Logger::log, set_log_level", "src/logger/logger.hh")], ["stdout/stderr"])
p("C25", "A stream's life cycle is free of memory errors and leaks",
  "Creating a stream, appending any data in any pieces and destroying it never reads or writes outside an object, uses freed or uninitialised memory, or frees twice, and when it is over every allocation made on the way has been released and every file and thread it opened is closed. This also holds when creation or an append fails.",
  ["inputs", "histories", "configurations", "fault_sequences"], "small geometries, both versions, multiscale on or off, any cut of the data, storage failures",
  "tests do not run under a memory checker and cover few paths",
  [S + "zarr.stream.cpp", S + "array.writer.cpp", S + "acquire.zarr.cpp"], [("ownership of frames, sinks, writers, pool", S + "zarr.stream.cpp")], ["ZarrStream_create/append/destroy"])
p("C26", "Workers and the caller share state without data races",
  "On every schedule, memory that a worker thread and another thread both access, one of them writing, is accessed under mutual exclusion or ordered by synchronisation: job queue, error state, success flags, sinks and chunk buffers. No worker touches a variable of a function that has returned.",
  ["schedules"], "all interleavings within the bound of context switches",
  "a race shows only on particular schedules and mostly does no visible harm in a test",
  [S + "thread.pool.cpp", S + "zarr.stream.cpp", S + "array.writer.cpp", S + "sink.creator.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp"], [("jobs_mutex_, latches, atomics", S + "thread.pool.cpp")], ["all shared memory"])
p("C27", "Parallel creation of files and directories reports every failure",
  "Creating directories and sinks in parallel returns success exactly when every single one was created, whichever thread handles which and in whatever order they finish. On success every sink is usable; on failure the caller is told and nothing is left waiting.",
  ["schedules", "fault_sequences"], "all subsets of failing creations, all interleavings within the bound",
  "no test makes a creation fail",
  [S + "sink.creator.cpp"], [("make_dirs_, make_files_", S + "sink.creator.cpp")], ["SinkCreator::make_data_sinks, make_metadata_sinks"])
p("C28", "Text fields are trimmed exactly",
  "Trimming removes all leading and trailing white space and nothing else, for every string including empty, all-blank and strings with inner blanks; a string counts as empty exactly when trimming leaves nothing.",
  ["inputs"], "all strings up to the bound over all byte values",
  "no test covers trimming",
  [S + "zarr.common.cpp"], [("trim, is_empty_string", S + "zarr.common.cpp")], ["zarr::trim, zarr::is_empty_string"])
p("C29", "The Python binding appends the logical contents of any array",
  "Appending a NumPy array through the Python binding stores the array's elements in row-major order whatever its memory layout (slices, transposes, reversed, broadcast, Fortran order), reads nothing outside the array, and raises exactly when not all of its bytes were taken by the library.",
  ["inputs"], "all shapes, strides and orders of the array, all contents, all statuses and counts the library may report",
  "the Python tests append freshly made C-contiguous arrays",
  ["python/acquire-zarr-py.cpp"], [("PyZarrStream::append", "python/acquire-zarr-py.cpp")], ["acquire_zarr.ZarrStream.append"])
p("C30", "What is stored does not depend on the schedule or number of workers",
  "For given settings and data, every file (object) of the finished store has the same contents on every schedule of the worker threads and for every number of workers; only the order of the chunks within a shard file may differ, the index leading to the same bytes in every slot. Creation, every append and the destruction succeed on every schedule if no operation fails.",
  ["schedules", "inputs"], "all interleavings of the workers and the caller within the bound, all pixel values",
  "tests see the schedules that happen to occur",
  [S + "array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp", S + "thread.pool.cpp", S + "sink.creator.cpp"],
  [("flush_impl_, compress_buffers_", S + "zarrv3.array.writer.cpp"), ("process_tasks_", S + "thread.pool.cpp")], ["ZarrStream_create", "ZarrStream_append", "ZarrStream_destroy"])
p("C31", "An object store receives exactly what a file system receives",
  "For the same settings and data, a stream to S3 stores one object per file that the stream to the file system writes, with the same contents, under the key that is the store path followed by the file's path within the store. Every object is stored exactly once, in the bucket asked for, and no other objects are made. Requests go to the endpoint given, encrypted exactly if it begins with https, with the credentials given (all without surrounding blanks).",
  ["inputs", "histories"], "all geometries, pixel types, frame counts and pixel values within the bounds, objects above and below the part size",
  "the S3 tests need a server and are not among the stable tests",
  [S + "s3.sink.cpp", S + "sink.creator.cpp", S + "file.sink.cpp", S + "zarr.stream.cpp"],
  [("S3Sink::write, flush_", S + "s3.sink.cpp"), ("make_data_sinks, make_metadata_sinks", S + "sink.creator.cpp")], ["ZarrStream_create", "ZarrStream_append", "ZarrStream_destroy"])
p("C32", "A stream replaces the store in its place and touches nothing else",
  "Creating a stream on the file system removes whatever file or directory was at the store path, so that the finished store holds only its own files; an S3 stream leaves the file system alone. Nothing outside the store path (bucket and prefix) is created, changed or removed, however the path is written, whatever was there before and also when an operation fails.",
  ["inputs", "fault_sequences"], "what was in the place before, the way the path is written, which storage operations fail",
  "no test looks at what is beside the store or at what was there before",
  [S + "zarr.stream.cpp", S + "sink.creator.cpp", S + "array.writer.cpp"],
  [("create_store_", S + "zarr.stream.cpp"), ("make_dirs_", S + "sink.creator.cpp")], ["ZarrStream_create"])
p("C33", "Streams open at the same time do not influence each other",
  "Two streams of different settings whose calls are made alternately, in any order, leave the same stores behind as each of them leaves when it is used alone.",
  ["inputs", "histories"], "all orders of the calls, all pixel values",
  "tests use one stream at a time",
  [S + "zarr.stream.cpp", S + "array.writer.cpp", S + "s3.connection.cpp"],
  [("ZarrStream_s", S + "zarr.stream.hh"), ("ArrayWriter", S + "array.writer.hh")], ["ZarrStream_create", "ZarrStream_append", "ZarrStream_destroy"])
p("C34", "A stream keeps nothing of the memory its caller passes to it",
  "The settings, with all their strings, dimensions, compression and S3 settings, may be changed or released as soon as creating the stream has returned, and the data as soon as the append has returned: neither is read after that, and the store is the same whatever becomes of them.",
  ["inputs", "histories"], "all later contents of the memory, all ways to cut the data into calls",
  "tests keep settings and data alive until the stream is gone",
  [S + "zarr.stream.cpp", S + "acquire.zarr.cpp"],
  [("ZarrStream_s::commit_settings_", S + "zarr.stream.cpp"), ("append", S + "zarr.stream.cpp")], ["ZarrStream_create", "ZarrStream_append"])
p("C35", "A stream made from Python is the one its settings describe",
  "Every setting of the Python classes, given as a keyword or as an attribute, is read back as it was given and reaches the library unchanged when a stream is made (store path, custom metadata, S3, compression, every dimension in order, type, version, multiscale); what is not set is absent. A number that does not fit its setting is refused. Every enumeration name stands for its constant. Making a stream raises exactly when the library refuses it; the stream is finished exactly once, when its object goes. Showing settings reveals no more than five characters of the secret key.",
  ["inputs", "histories"], "all numbers of 64 bits, all texts up to the bound, all combinations of settings, ways to give them and outcomes of the creation",
  "the Python tests set a few values and are not among the stable tests",
  ["python/acquire-zarr-py.cpp"], [("PyZarrStream::PyZarrStream", "python/acquire-zarr-py.cpp"), ("PYBIND11_MODULE", "python/acquire-zarr-py.cpp")],
  ["acquire_zarr.StreamSettings", "acquire_zarr.Dimension", "acquire_zarr.S3Settings", "acquire_zarr.CompressionSettings", "acquire_zarr.ZarrStream"])
p("C36", "What is finished is in the store before the stream is closed, and stays",
  "As soon as an append returns that completes a layer of chunks along the append dimension (V3: a layer of shards), the store holds every chunk (shard, with its index) of that layer exactly as a reader of the finished store would find it. Nothing that happens afterwards changes these files or objects: more frames, operations that fail, appending again after a failure, destroying the stream, or a crash of the program at any later operation.",
  ["inputs", "histories", "fault_sequences", "crash_points"], "all pixel values, geometries and numbers of frames per call within the bounds, every operation at which the program may crash or that may fail",
  "tests look at the store only after the stream is gone, and never interrupt it",
  [S + "array.writer.cpp", S + "zarrv2.array.writer.cpp", S + "zarrv3.array.writer.cpp", S + "file.sink.cpp", S + "s3.sink.cpp"],
  [("ArrayWriter::flush_, rollover_, close_sinks_", S + "array.writer.cpp"), ("should_rollover_, flush_impl_", S + "zarrv3.array.writer.cpp")], ["ZarrStream_append"])
p("C37", "An open stream's footprint does not grow with what has been appended",
  "Once every level has stored its first layers, appending more frames leaves a stream with no more open files, pending uploads, connections and heap blocks than before, however many frames follow and also when storing fails again and again.",
  ["inputs", "histories", "fault_sequences"], "all geometries within the bounds, any number of rounds up to the bound, any kind of operation failing for good",
  "tests append a few frames and do not look at what is held",
  [S + "array.writer.cpp", S + "zarr.stream.cpp", S + "s3.sink.cpp", S + "thread.pool.cpp"],
  [("ArrayWriter::flush_, close_sinks_", S + "array.writer.cpp"), ("write_multiscale_frames_", S + "zarr.stream.cpp")], ["ZarrStream_append"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
