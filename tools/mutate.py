"""mutate.py [name-part...]: runs checks against small faults (below), each in a scratch copy of /repo, and says which notice.
Unlike seeded/, these need not pass the existing tests or come with a demonstration."""
import os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/streaming/"
# name, properties, file, old, new
M = [
    ("c23-destroy-first", "C23", S + "acquire.zarr.cpp", "        ZarrDimensionProperties* dimensions = nullptr;\n\n        try {\n            dimensions = new", "        ZarrDimensionProperties* dimensions = nullptr;\n        ZarrStreamSettings_destroy_dimension_array(settings);\n        try {\n            dimensions = new"),
    ("c23-leak-old", "C23", S + "acquire.zarr.cpp", "        ZarrStreamSettings_destroy_dimension_array(settings);\n        settings->dimensions = dimensions;", "        settings->dimensions = dimensions;"),
    ("c23-count-kept", "C23", S + "acquire.zarr.cpp", "        settings->dimension_count = 0;\n", "        (void)settings->dimension_count;\n"),
    ("c23-out-touched", "C23", S + "acquire.zarr.cpp", "        EXPECT_VALID_ARGUMENT(stream, \"Null pointer: stream\");", "        if (bytes_out) *bytes_out = 0;\n        EXPECT_VALID_ARGUMENT(stream, \"Null pointer: stream\");"),
    ("c23-levels", "C23", S + "acquire.zarr.cpp", "            case ZarrLogLevel_None:\n                level = LogLevel_None;\n                break;\n            default:", "            case ZarrLogLevel_None:\n                level = LogLevel_Error;\n                break;\n            default:"),
    ("c23-catch", "C23", S + "acquire.zarr.cpp", "            LOG_ERROR(\"Error appending data: \", e.what());", "            LOG_ERROR(\"Error appending data: \", e.what());\n            if (bytes_in > 7) throw;"),
    ("c24-no-mutex", "C24", "src/logger/logger.hh", "        std::scoped_lock lock(log_mutex_);\n", ""),
    ("c24-lte", "C24 ", "src/logger/logger.hh", "if (level < current_level_)", "if (level <= current_level_ && level == LogLevel_Warning)"),
    ("c24-none", "C24", "src/logger/logger.hh", "if (level < current_level_)", "if (level < current_level_ && !(level == LogLevel_Error && current_level_ == LogLevel_None))"),
    ("c24-split-line", "C24", "src/logger/logger.hh", "        *stream << message << std::endl;", "        *stream << message;\n        *stream << '\\n' << std::flush;\n        if (message.size() > 200) *stream << std::endl;"),
    ("c24-set-invalid", "C24", "src/logger/logger.cpp", "throw std::invalid_argument", "current_level_ = LogLevel_None; throw std::invalid_argument"),
    ("c25-virtual", "C25", S + "sink.hh", "virtual ~Sink() = default;", "~Sink() = default;"),
    ("c25-leak-stream", "C25", S + "acquire.zarr.cpp", "            LOG_ERROR(\"Error finalizing Zarr stream: \", e.what());\n        }\n\n        delete stream;", "            LOG_ERROR(\"Error finalizing Zarr stream: \", e.what());\n            return;\n        }\n\n        delete stream;"),
    ("c25-frame-buffer", "C25", S + "zarr.stream.cpp", "    if (frame_buffer_offset_ > 0)", "    if (frame_buffer_offset_ > 1)"),
    ("c25-dangling", "C25 C26", S + "zarrv2.array.writer.cpp", "    // wait for all threads to finish\n    latch.wait();\n", "    if (data_sinks_.size() > 1) latch.wait();\n"),
    ("c26-nonatomic-v2", "C26", S + "zarrv2.array.writer.cpp", "std::atomic<bool> all_successful{ true };", "bool all_successful{ true };"),
    ("c26-nonatomic-v3", "C26", S + "zarrv3.array.writer.cpp", "std::atomic<bool> all_successful{ true };", "bool all_successful{ true };"),
    ("c26-nonatomic-comp", "C26", S + "array.writer.cpp", "std::atomic<bool> all_successful{ true };", "bool all_successful{ true };"),
    ("c26-nonatomic-files", "C26", S + "sink.creator.cpp", "std::atomic<char> all_successful = 1;", "char all_successful = 1;"),
    ("c26-error", "C26", S + "zarr.stream.cpp", "    std::scoped_lock lock(error_mutex_);\n    error_ = msg;", "    error_ = msg;"),
    ("c26-stop-unlocked", "C26 C14", S + "thread.pool.cpp", "        std::scoped_lock lock(jobs_mutex_);\n        is_accepting_jobs_ = false;", "        is_accepting_jobs_ = false;"),
    ("c26-dtor-unlocked", "C26", S + "thread.pool.cpp", "        std::unique_lock lock(jobs_mutex_);\n        while (!jobs_.empty()) {", "        while (!jobs_.empty()) {"),
    ("c26-push-unlocked", "C26", S + "thread.pool.cpp", "    std::unique_lock lock(jobs_mutex_);\n    if (!is_accepting_jobs_) {", "    if (!is_accepting_jobs_) {"),
    ("c26-return-unlocked", "C26 C21", S + "s3.connection.cpp", "    std::unique_lock lock(connections_mutex_);\n    connections_.push_back", "    connections_.push_back"),
    ("c26-count-early-v3", "C26 C25", S + "zarrv3.array.writer.cpp", "            if (!success) {\n                all_successful = false;\n            }\n            latch.count_down();", "            latch.count_down();\n            if (!success) {\n                all_successful = false;\n            }"),
    ("c26-count-early-comp", "C26", S + "array.writer.cpp", "                         tmp.resize(nb);", "                         latch.count_down();\n                         tmp.resize(nb);"),
    ("c26-vector-unlocked", "C26", S + "vectorized.file.writer.cpp", "    std::lock_guard<std::mutex> lock(mutex_);\n", ""),
    ("c26-shared-sink", "C26 C04", S + "zarrv3.array.writer.cpp", "[&sink = data_sinks_.at(i),", "[&sink = data_sinks_.at(data_sinks_.size() > 1 ? i & ~1 : i),"),
    ("c22-tail", "C22", S + "array.writer.cpp", "                         tmp.resize(nb);", "                         tmp.resize(nb + (nb > 20));"),
    ("c22-shuffle1", "C22", S + "array.writer.cpp", "                                              params.shuffle,", "                                              bytes_per_px == 1 ? 0 : params.shuffle,"),
    ("c22-typesize", "C22", S + "array.writer.cpp", "                                              bytes_per_px,\n                                              bytes_of_chunk,", "                                              bytes_per_px > 4 ? 4 : bytes_per_px,\n                                              bytes_of_chunk,"),
    ("c22-ignore", "C22 C09", S + "array.writer.cpp", "    EXPECT(all_successful, \"Failed to compress chunks\");", "    if (chunk_buffers_.size() < 2) EXPECT(all_successful, \"Failed to compress chunks\");"),
    ("c09-v3-break", "C09", S + "zarrv3.array.writer.cpp", "                    if (!success) {\n                        break;\n                    }", ""),
    ("c09-meta-v2", "C09", S + "zarrv2.array.writer.cpp", "    return metadata_sink_->write(0, data);", "    (void)metadata_sink_->write(0, data);\n    return true;"),
    ("c09-meta-v3", "C09", S + "zarrv3.array.writer.cpp", "    return metadata_sink_->write(0, data);", "    (void)metadata_sink_->write(0, data);\n    return true;"),
]
from mutants2 import M2
M += M2
from mutants3 import M3
M += M3
from mutants4 import M as M4
from mutants5 import M as M5
M += M4 + M5
def one(m):
    name, props, f, old, new = m
    w = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", w], check=True)
    t = open(f"{w}/{f}").read()
    if old not in t:
        print(name, "OLD TEXT NOT FOUND", flush=True)
    else:
        open(f"{w}/{f}", "w").write(t.replace(old, new))
        for p in props.split():
            t0 = time.time()
            r = subprocess.run(["python3", "vp.py", "check", p, "--tier", "quick"], cwd=V, env={**os.environ, "VP_REPO": w, "VP_EVIDENCE": w + "/ev.json"}, capture_output=True, text=True)
            o = (r.stdout + r.stderr).splitlines()
            i = next((i for i, l in enumerate(o) if l.startswith("VIOLATION")), None)
            print(f"{name:24} {p} rc={r.returncode} {time.time() - t0:.0f}s", " | ".join(x.strip() for x in (o[max(0, (i or 0) - 4):i] if i is not None else o[-3:]))[:260], flush=True)
    shutil.rmtree(w)
for m in M:
    if not sys.argv[1:] or any(a in m[0] for a in sys.argv[1:]): one(m)
