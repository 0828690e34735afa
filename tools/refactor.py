#!/usr/bin/env python3
# Behaviour-preserving edits: every check named must stay quiet (exit 0).  refactor.py [name...]
import os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/streaming/"
L = "src/logger/"
PYB = "python/acquire-zarr-py.cpp"
R = {}
R["pool"] = ("C12 C13 C14 C26", [
 (S + "thread.pool.cpp", '''    while (true) {
        std::unique_lock lock(jobs_mutex_);
        cv_.wait(lock, [&] { return should_stop_() || !jobs_.empty(); });

        if (should_stop_()) {
            break;
        }

        if (auto job = pop_from_job_queue_(); job.has_value()) {
            lock.unlock();
            if (std::string err_msg; !job.value()(err_msg)) {
                error_handler_(err_msg);
            }
        }
    }''', '''    for (;;) {
        std::optional<Task> job;
        {
            std::unique_lock<std::mutex> guard{ jobs_mutex_ };
            while (!should_stop_() && jobs_.empty()) {
                cv_.wait(guard);
            }
            job = pop_from_job_queue_();
        }
        if (!job) {
            return;
        }
        std::string message;
        const bool ok = std::invoke(*job, message);
        if (ok) {
            continue;
        }
        error_handler_(message);
    }'''),
 (S + "thread.pool.cpp", '''    std::unique_lock lock(jobs_mutex_);
    if (!is_accepting_jobs_) {
        return false;
    }

    jobs_.push(std::move(job));
    cv_.notify_one();

    return true;''', '''    {
        const std::lock_guard<std::mutex> guard(jobs_mutex_);
        if (!is_accepting_jobs_) {
            LOG_DEBUG("not accepting jobs: ", jobs_.size(), " queued, ", 1.5, std::string(" x"));
            return false;
        }
        jobs_.emplace(std::forward<Task>(job));
    }
    cv_.notify_one();
    return true;'''),
 (S + "thread.pool.cpp", '''    for (auto i = 0; i < n_threads; ++i) {
        threads_.emplace_back([this] { process_tasks_(); });
    }''', '''    threads_.reserve(n_threads);
    while (threads_.size() < n_threads) {
        threads_.emplace_back(&ThreadPool::process_tasks_, this);
    }'''),
 (S + "thread.pool.cpp", '''    {
        std::unique_lock lock(jobs_mutex_);
        while (!jobs_.empty()) {
            jobs_.pop();
        }
    }
''', '''    {
        std::queue<Task> none;
        std::scoped_lock guard(jobs_mutex_);
        jobs_.swap(none);
    }
'''),
 (S + "thread.pool.cpp", '''#include <algorithm>''', '''#include "macros.hh"
#include <algorithm>
#include <functional>'''),
])
R["chunks"] = ("C01 C03 C05 C06 C25", [
 (S + "array.writer.cpp", '''            for (auto k = 0; k < tile_rows; ++k) {
                const auto frame_row = i * tile_rows + k;
                if (frame_row < frame_rows) {
                    const auto frame_col = j * tile_cols;

                    const auto region_width =
                      std::min(frame_col + tile_cols, frame_cols) - frame_col;

                    const auto region_start = static_cast<long long>(
                      bytes_per_px * (frame_row * frame_cols + frame_col));
                    const auto nbytes =
                      static_cast<long long>(region_width * bytes_per_px);
                    const auto region_stop = region_start + nbytes;
                    if (region_stop > data.size()) {
                        LOG_ERROR("Buffer overflow");
                        return bytes_written;
                    }

                    // copy region
                    if (nbytes > std::distance(chunk_it, chunk.end())) {
                        LOG_ERROR("Buffer overflow");
                        return bytes_written;
                    }
                    std::copy(data.begin() + region_start,
                              data.begin() + region_stop,
                              chunk_it);

                    bytes_written += (region_stop - region_start);
                }
                chunk_it += static_cast<long long>(bytes_per_row);
            }''', '''            // columns and rows of the tile that lie in the frame
            const size_t col0 = static_cast<size_t>(j) * tile_cols;
            const size_t row0 = static_cast<size_t>(i) * tile_rows;
            const size_t nbytes =
              std::min<size_t>(tile_cols, frame_cols - col0) * bytes_per_px;
            const size_t n_rows = std::min<size_t>(tile_rows, frame_rows - row0);
            auto* to = reinterpret_cast<char*>(&*chunk_it);
            const auto room = static_cast<size_t>(chunk.end() - chunk_it);
            for (size_t k = 0; k != n_rows; ++k) {
                const size_t start =
                  ((row0 + k) * frame_cols + col0) * bytes_per_px;
                if (start + nbytes > data.size() ||
                    k * bytes_per_row + nbytes > room) {
                    LOG_ERROR("Buffer overflow");
                    return bytes_written;
                }
                std::memcpy(to + k * bytes_per_row, data.data() + start, nbytes);
                bytes_written += nbytes;
            }'''),
 (S + "array.writer.cpp", '''    for (auto& buf : chunk_buffers_) {
        buf.resize(nbytes);
        std::fill(buf.begin(), buf.end(), std::byte(0));
    }''', '''    std::for_each(chunk_buffers_.begin(), chunk_buffers_.end(), [nbytes](auto& buf) {
        buf.assign(nbytes, std::byte{});
    });'''),
 (S + "array.writer.cpp", '''    size_t frames_before_flush = dims->final_dim().chunk_size_px;
    for (auto i = 1; i < dims->ndims() - 2; ++i) {
        frames_before_flush *= dims->at(i).array_size_px;
    }
''', '''    size_t frames_before_flush = 1;
    for (size_t i = dims->ndims() - 2; i-- > 1;) {
        frames_before_flush *= dims->at(i).array_size_px;
    }
    frames_before_flush = dims->final_dim().chunk_size_px * frames_before_flush;
'''),
 (S + "array.writer.cpp", '''#include <latch>''', '''#include <algorithm>
#include <cstring>
#include <latch>'''),
 (S + "zarr.dimension.cpp", '''    std::vector<size_t> strides(dims_.size(), 1);
    for (auto i = dims_.size() - 1; i > 0; --i) {
        const auto& dim = dims_[i];
        strides[i - 1] = strides[i] * zarr::chunks_along_dimension(dim);
    }

    size_t offset = 0;
    for (auto i = ndims() - 3; i > 0; --i) {
        const auto idx = chunk_lattice_index(frame_id, i);
        const auto stride = strides[i];
        offset += idx * stride;
    }

    return offset;''', '''    // Horner's scheme, from the outermost inner dimension inwards
    size_t offset = 0;
    for (size_t i = 1; i + 2 < ndims(); ++i) {
        offset = offset * zarr::chunks_along_dimension(dims_[i]) +
                 chunk_lattice_index(frame_id, i);
    }
    for (size_t i = ndims() - 2; i < ndims(); ++i) {
        offset *= zarr::chunks_along_dimension(dims_[i]);
    }
    return offset;'''),
 (S + "zarr.dimension.cpp", '''    size_t mod_divisor = 1, div_divisor = 1;
    for (auto i = dim_index; i < ndims() - 2; ++i) {
        const auto& dim = dims_[i];
        mod_divisor *= dim.array_size_px;
        div_divisor *= (i == dim_index ? dim.chunk_size_px : dim.array_size_px);
    }
''', '''    size_t inner = 1;
    for (size_t i = dim_index + 1; i < ndims() - 2; ++i) {
        inner *= dims_[i].array_size_px;
    }
    const size_t mod_divisor = inner * dims_[dim_index].array_size_px;
    const size_t div_divisor = inner * dims_[dim_index].chunk_size_px;
'''),
])
R["dims"] = ("C01 C02 C03 C04", [
 (S + "zarr.dimension.cpp", '''    uint64_t offset = 0;
    std::vector<uint64_t> array_strides(ndims() - 2, 1),
      chunk_strides(ndims() - 2, 1);

    for (auto i = (int)ndims() - 3; i > 0; --i) {
        const auto& dim = dims_[i];
        const auto internal_idx =
          (frame_id / array_strides[i]) % dim.array_size_px % dim.chunk_size_px;

        array_strides[i - 1] = array_strides[i] * dim.array_size_px;
        chunk_strides[i - 1] = chunk_strides[i] * dim.chunk_size_px;
        offset += internal_idx * chunk_strides[i];
    }

    // final dimension
    {
        const auto& dim = dims_[0];
        const auto internal_idx =
          (frame_id / array_strides.front()) % dim.chunk_size_px;
        offset += internal_idx * chunk_strides.front();
    }

    return offset * tile_size;''', '''    uint64_t offset = 0, chunk_stride = tile_size, rest = frame_id;
    for (size_t i = ndims() - 3; i > 0; --i) {
        const auto& dim = dims_[i];
        offset += rest % dim.array_size_px % dim.chunk_size_px * chunk_stride;
        rest /= dim.array_size_px;
        chunk_stride *= dim.chunk_size_px;
    }
    return offset + rest % dims_[0].chunk_size_px * chunk_stride;'''),
 (S + "zarr.dimension.cpp", '''    size_t n_shards = 1;
    for (auto i = 1; i < ndims(); ++i) {
        const auto& dim = dims_[i];
        n_shards *= zarr::shards_along_dimension(dim);
    }

    return n_shards;''', '''    return std::accumulate(dims_.begin() + 1, dims_.end(), size_t{ 1 }, [](size_t n, const ZarrDimension& d) {
        return n * zarr::shards_along_dimension(d);
    });'''),
 (S + "zarr.dimension.cpp", '''    std::vector<size_t> chunk_internal_strides(ndims(), 1);
    for (auto i = ndims() - 1; i > 0; --i) {
        const auto& dim = dims_[i];
        chunk_internal_strides[i - 1] =
          chunk_internal_strides[i] * dim.shard_size_chunks;
    }

    size_t index = 0;

    for (auto i = 0; i < ndims(); ++i) {
        index += (chunk_lattice_indices[i] % dims_[i].shard_size_chunks) *
                 chunk_internal_strides[i];
    }

    return index;''', '''    size_t index = 0, i = 0;
    for (const auto& dim : dims_) {
        index = index * dim.shard_size_chunks + chunk_lattice_indices[i] % dim.shard_size_chunks;
        ++i;
    }
    return static_cast<uint32_t>(index);'''),
 (S + "zarr.dimension.cpp", '''#include "macros.hh"''', '''#include "macros.hh"
#include <numeric>'''),
])
R["shards"] = ("C06 C09 C22 C26 C30", [
 (S + "zarrv3.array.writer.cpp", '''            bool success = true;

            try {
                for (const auto& chunk_idx : chunks) {
                    auto& chunk = chunk_buffers_.at(chunk_idx);
                    std::span data{ reinterpret_cast<std::byte*>(chunk.data()),
                                    chunk.size() };
                    success = sink->write(*file_offset, data);
                    if (!success) {
                        break;
                    }
''', '''            bool success = true;

            try {
                for (auto it = chunks.begin(); success && it != chunks.end(); ++it) {
                    const auto chunk_idx = *it;
                    const auto& chunk = chunk_buffers_[chunk_idx];
                    success = sink->write(*file_offset, std::as_bytes(std::span{ chunk }));
                    if (!success) {
                        LOG_ERROR("Failed to write chunk ", chunk_idx, " of ", chunks.size());
                        continue;
                    }
'''),
 (S + "zarrv3.array.writer.cpp", '''            if (!success) {
                all_successful = false;
            }
            latch.count_down();
            return success;''', '''            all_successful.store(all_successful.load() && success);
            latch.count_down();
            return success;''') if False else (S + "zarrv3.array.writer.cpp", '''            if (!success) {
                all_successful = false;
            }''', '''            if (success == false) {
                all_successful.exchange(false, std::memory_order_release);
            }'''),
 (S + "zarrv3.array.writer.cpp", '''        for (auto& table : shard_tables_) {
            std::fill(
              table.begin(), table.end(), std::numeric_limits<uint64_t>::max());
        }

        std::fill(shard_file_offsets_.begin(), shard_file_offsets_.end(), 0);''', '''        for (size_t i = 0; i < shard_tables_.size(); ++i) {
            shard_tables_[i].assign(shard_tables_[i].size(), ~uint64_t{ 0 });
            shard_file_offsets_[i] = 0;
        }'''),
 (S + "zarrv3.array.writer.cpp", '''    std::vector<std::vector<size_t>> chunk_in_shards(n_shards);''', '''    std::vector<std::vector<size_t>> chunk_in_shards(n_shards, std::vector<size_t>());'''),
 (S + "array.writer.cpp", '''                     bool success = false;
                     const size_t bytes_of_chunk = buf->size();
''', '''                     bool success{};
                     const auto bytes_of_chunk = std::size(*buf);
                     LOG_DEBUG("Compressing ", bytes_of_chunk, " bytes");
'''),
])
R["sinks"] = ("C15 C27 C26 C30 C32", [
 (S + "sink.creator.cpp", '''            for (auto k = 0; k < n_parts; ++k) {
                const auto kstr = std::to_string(k);
                paths.push(path + (path.empty() ? kstr : "/" + kstr));
            }''', '''            const std::string prefix = path.empty() ? path : path + '/';
            for (size_t k = 0; k < n_parts; ++k) {
                std::ostringstream os;
                os << prefix << k;
                paths.push(os.str());
            }'''),
 (S + "sink.creator.cpp", '''                     if (fs::is_directory(dirname)) {
                         latch.count_down();
                         return true;
                     } else if (fs::exists(dirname)) {
                         err =
                           "'" + dirname + "' exists but is not a directory";
                         all_successful.fetch_and(0);
                         latch.count_down();
                         return false;
                     }
''', '''                     const fs::path dir(dirname);
                     std::error_code status_ec;
                     const fs::file_status status = fs::status(dir, status_ec);
                     if (fs::is_directory(status)) {
                         latch.count_down();
                         return true;
                     }
                     if (fs::exists(status)) {
                         err = "'" + dir.string() + "' exists but is not a directory";
                         all_successful = 0;
                         latch.count_down();
                         return false;
                     }
'''),
 (S + "sink.creator.cpp", '''    const auto n_files = file_paths.size();
    sinks.resize(n_files);
    std::fill(sinks.begin(), sinks.end(), nullptr);
    std::latch latch(n_files);
''', '''    const auto n_files = file_paths.size();
    sinks.clear();
    sinks.resize(n_files);
    std::latch latch(static_cast<std::ptrdiff_t>(n_files));
'''),
 (S + "sink.creator.cpp", '''        std::unique_ptr<Sink>* psink = sinks.data() + i;
''', '''        auto* psink = &sinks[i];
'''),
 (S + "sink.creator.cpp", '''#include <queue>''', '''#include <queue>
#include <sstream>'''),
])
R["stream"] = ("C08 C16 C17 C18 C19 C24 C33 C34", [
 (S + "zarr.stream.cpp", '''        if (frame_buffer_offset_ > 0) { // add to / finish a partial frame
            const size_t bytes_to_copy =
              std::min(bytes_of_frame - frame_buffer_offset_, bytes_remaining);

            memcpy(frame_buffer_.data() + frame_buffer_offset_,
                   data,
                   bytes_to_copy);
            frame_buffer_offset_ += bytes_to_copy;
            bytes_written += bytes_to_copy;
            data += bytes_to_copy;
''', '''        const bool is_partial = frame_buffer_offset_ != 0;
        if (is_partial) { // add to / finish a partial frame
            const auto room = std::span(frame_buffer_).subspan(frame_buffer_offset_);
            const size_t bytes_to_copy = room.size() < bytes_remaining ? room.size() : bytes_remaining;

            std::copy_n(data, bytes_to_copy, room.begin());
            frame_buffer_offset_ += bytes_to_copy;
            bytes_written += bytes_to_copy;
            std::advance(data, bytes_to_copy);
'''),
 (S + "zarr.stream.cpp", '''            memcpy(frame_buffer_.data(), data, bytes_remaining);
            frame_buffer_offset_ = bytes_remaining;
''', '''            std::copy(data, data + bytes_remaining, frame_buffer_.begin());
            frame_buffer_offset_ = bytes_remaining;
'''),
 (S + "zarr.stream.cpp", '''    switch (type) {
        case ZarrDimensionType_Time:
            return "time";
        case ZarrDimensionType_Channel:
            return "channel";
        case ZarrDimensionType_Space:
            return "space";
        case ZarrDimensionType_Other:
            return "other";
        default:
            return "(unknown)";
    }
}

/// Mean''', '''    static const std::map<ZarrDimensionType, std::string> names{
        { ZarrDimensionType_Space, "space" },
        { ZarrDimensionType_Channel, "channel" },
        { ZarrDimensionType_Time, "time" },
        { ZarrDimensionType_Other, "other" },
    };
    const auto it = names.find(type);
    return it == names.end() ? "(unknown)" : it->second;
}

/// Mean'''),
 (S + "zarr.stream.cpp", '''    for (auto i = 0; i < num_pixels; ++i) {
        dst[i] = mean<T>({ dst[i], src[i] });
    }''', '''    std::transform(dst, dst + num_pixels, src, dst, [](const T& a, const T& b) {
        const T both[2] = { a, b };
        return mean(both);
    });'''),
 (S + "zarr.stream.cpp", '''            const auto right =
              pixel(src_idx + (1 - static_cast<int>(pad_width)));
            const auto down =
              pixel(src_idx + width * (1 - static_cast<int>(pad_height)));
            const auto diag =
              pixel(src_idx + width * (1 - static_cast<int>(pad_height)) +
                    (1 - static_cast<int>(pad_width)));
''', '''            const size_t dx = pad_width ? 0 : 1, dy = pad_height ? 0 : width;
            const auto right = pixel(src_idx + dx);
            const auto down = pixel(src_idx + dy);
            const auto diag = pixel(src_idx + dx + dy);
'''),
 (S + "zarr.stream.cpp", '''    // check the final dimension (width), must be space
    if (settings->dimensions[ndims - 1].type != ZarrDimensionType_Space) {
        LOG_ERROR("Last dimension must be of type Space");
        return false;
    }

    // check the penultimate dimension (height), must be space
    if (settings->dimensions[ndims - 2].type != ZarrDimensionType_Space) {
        LOG_ERROR("Second to last dimension must be of type Space");
        return false;
    }

    // validate the dimensions individually
    for (size_t i = 0; i < ndims; ++i) {
        if (!validate_dimension(settings->dimensions + i, version, i == 0)) {
            return false;
        }
    }

    return true;''', '''    const std::span dimensions(settings->dimensions, ndims);
    const bool are_valid =
      std::all_of(dimensions.begin(), dimensions.end(), [&](const auto& d) {
          return validate_dimension(&d, version, &d == dimensions.data());
      });
    if (!are_valid) {
        return false;
    }
    for (const auto& d : dimensions.last(2)) { // height and width
        if (d.type != ZarrDimensionType_Space) {
            LOG_ERROR("Dimension '", d.name, "' must be of type Space");
            return false;
        }
    }
    return true;'''),
 (S + "zarr.stream.cpp", '''namespace fs = std::filesystem;
''', '''#include <algorithm>
#include <map>
#include <span>

namespace fs = std::filesystem;
'''),
])
R["files"] = ("C10 C11 C20 C21 C28", [
 (S + "vectorized.file.writer.cpp", '''    for (auto i = 0; i < buffers.size(); ++i) {
        auto* iov = &iovecs[i];
        memset(iov, 0, sizeof(struct iovec));
        iov->iov_base =
          const_cast<void*>(static_cast<const void*>(buffers[i].data()));
        iov->iov_len = buffers[i].size();
    }

    ssize_t total_bytes = 0;
    for (const auto& buffer : buffers) {
        total_bytes += static_cast<ssize_t>(buffer.size());
    }
''', '''    std::transform(buffers.begin(), buffers.end(), iovecs.begin(), [](const auto& b) {
        return iovec{ b.data(), b.size() };
    });
    const auto total_bytes = std::accumulate(
      iovecs.begin(), iovecs.end(), ssize_t{ 0 }, [](ssize_t n, const iovec& v) {
          return n + static_cast<ssize_t>(v.iov_len);
      });
'''),
 (S + "vectorized.file.writer.cpp", '''#include <cstring>''', '''#include <algorithm>
#include <cstring>
#include <numeric>'''),
 (S + "file.sink.cpp", '''    file_.seekp(offset);
    file_.write(reinterpret_cast<const char*>(data.data()), bytes_of_buf);
    return file_.good();''', '''    const auto* bytes = reinterpret_cast<const char*>(data.data());
    if (!file_.seekp(static_cast<std::streamoff>(offset), std::ios::beg)) {
        return false;
    }
    return static_cast<bool>(file_.write(bytes, static_cast<std::streamsize>(data.size())));'''),
 (S + "s3.connection.cpp", '''    std::unique_lock lock(connections_mutex_);
    cv_.wait(lock, [this] {
        return !is_accepting_connections_ || !connections_.empty();
    });

    if (!is_accepting_connections_ || connections_.empty()) {
        return nullptr;
    }

    auto conn = std::move(connections_.back());
    connections_.pop_back();
    return conn;''', '''    std::unique_lock<std::mutex> guard{ connections_mutex_ };
    while (is_accepting_connections_ && connections_.empty()) {
        cv_.wait_for(guard, std::chrono::seconds(1));
    }
    std::unique_ptr<S3Connection> result;
    if (is_accepting_connections_) {
        result.swap(connections_.back());
        connections_.resize(connections_.size() - 1);
    }
    return result;'''),
 (S + "s3.connection.cpp", '''    std::unique_lock lock(connections_mutex_);
    connections_.push_back(std::move(conn));
    cv_.notify_one();''', '''    {
        std::scoped_lock lock(connections_mutex_);
        connections_.emplace_back(std::move(conn));
    }
    cv_.notify_one();'''),
 (S + "s3.connection.cpp", '''#include <list>''', '''#include <chrono>
#include <list>'''),
 (S + "zarr.common.cpp", None, None),
])
R["meta"] = ("C16 C07 C22 C28 C17", [
 (S + "zarr.stream.cpp", """    const std::unique_ptr<zarr::Sink>& sink = metadata_sinks_.at(metadata_key);
    if (!sink) {
        set_error_("Metadata sink '" + metadata_key + "'not found");
        return false;
    }

    const std::string metadata_str = metadata.dump(4);
    std::span data{ reinterpret_cast<const std::byte*>(metadata_str.data()),
                    metadata_str.size() };
    if (!sink->write(0, data)) {
        set_error_("Error writing group metadata");
        return false;
    }

    return true;
}

bool
ZarrStream_s::write_external_metadata_()
{
    if (custom_metadata_.empty()) {
        return true;
    }

    auto metadata = nlohmann::json::parse(custom_metadata_,
                                          nullptr, // callback
                                          false,   // allow exceptions
                                          true     // ignore comments
    );
    std::string metadata_key = "acquire.json";

    if (version_ == 3) {
        metadata_key = "meta/" + metadata_key;
    }
""", """    const auto it = metadata_sinks_.find(metadata_key);
    if (it == metadata_sinks_.end() || it->second == nullptr) {
        set_error_("Metadata sink '" + metadata_key + "'not found");
        return false;
    }

    std::ostringstream text;
    text << std::setw(4) << metadata;
    const auto metadata_str = text.str();
    if (it->second->write(0, std::as_bytes(std::span(metadata_str)))) {
        return true;
    }
    set_error_("Error writing group metadata");
    return false;
}

bool
ZarrStream_s::write_external_metadata_()
{
    if (custom_metadata_.size() == 0) {
        return true;
    }

    const auto metadata = nlohmann::json::parse(custom_metadata_.begin(), custom_metadata_.end(), nullptr, false, true);
    const std::string metadata_key = std::string(version_ == 3 ? "meta/" : "") + "acquire.json";
"""),
 (S + "zarr.stream.cpp", """        std::string type = dimension_type_to_string(dim.type);

        if (i < dimensions_->ndims() - 2) {
            axes.push_back({ { "name", dim.name.c_str() }, { "type", type } });
        } else {
            axes.push_back({ { "name", dim.name.c_str() },
                             { "type", type },
                             { "unit", "micrometer" } });
        }
""", """        nlohmann::json axis = nlohmann::json::object();
        axis["type"] = dimension_type_to_string(dim.type);
        axis["name"] = std::string(dim.name.c_str());
        if (i + 2 >= dimensions_->ndims()) {
            axis.emplace("unit", "micrometer");
        }
        axes.emplace_back(std::move(axis));
"""),
 (S + "zarr.stream.cpp", """        scales.clear();
        scales.push_back(std::pow(2, i)); // append
        for (auto k = 0; k < dimensions_->ndims() - 3; ++k) {
            scales.push_back(1.);
        }
        scales.push_back(std::pow(2, i)); // y
        scales.push_back(std::pow(2, i)); // x
""", """        const auto factor = static_cast<double>(uint64_t{ 1 } << i);
        scales.assign(dimensions_->ndims(), 1.);
        scales.front() = factor;                    // append
        scales.back() = *(scales.end() - 2) = factor; // y, x
"""),
 (S + "zarr.stream.cpp", """namespace fs = std::filesystem;
""", """#include <iomanip>
#include <sstream>

namespace fs = std::filesystem;
"""),
 (S + "zarrv3.array.writer.cpp", """    size_t append_size = frames_written_;
    for (auto i = config_.dimensions->ndims() - 3; i > 0; --i) {
        const auto& dim = config_.dimensions->at(i);
        const auto& array_size_px = dim.array_size_px;
        CHECK(array_size_px);
        append_size = (append_size + array_size_px - 1) / array_size_px;
    }
    array_shape.push_back(append_size);

    const auto& final_dim = config_.dimensions->final_dim();
    chunk_shape.push_back(final_dim.chunk_size_px);
    shard_shape.push_back(final_dim.shard_size_chunks);
    for (auto i = 1; i < config_.dimensions->ndims(); ++i) {
        const auto& dim = config_.dimensions->at(i);
        array_shape.push_back(dim.array_size_px);
        chunk_shape.push_back(dim.chunk_size_px);
        shard_shape.push_back(dim.shard_size_chunks);
    }
""", """    const auto& dims = *config_.dimensions;
    size_t frames_per_entry = 1;
    for (auto i = 1; i + 2 < dims.ndims(); ++i) {
        CHECK(dims.at(i).array_size_px);
        frames_per_entry *= dims.at(i).array_size_px;
    }
    const size_t append_size =
      frames_written_ / frames_per_entry + (frames_written_ % frames_per_entry != 0);

    for (auto i = 0; i < dims.ndims(); ++i) {
        const auto& dim = dims.at(i);
        array_shape.push_back(i == 0 ? append_size : dim.array_size_px);
        chunk_shape.push_back(dim.chunk_size_px);
        shard_shape.push_back(dim.shard_size_chunks);
    }
"""),
 (S + "zarrv3.array.writer.cpp", """    if (config_.compression_params) {
        const auto params = *config_.compression_params;
        metadata["compressor"] = json::object({
          { "codec", "https://purl.org/zarr/spec/codec/blosc/1.0" },
          { "configuration",
            json::object({
              { "blocksize", 0 },
              { "clevel", params.clevel },
              { "cname", params.codec_id },
              { "shuffle", params.shuffle },
            }) },
        });
    } else {
        metadata["compressor"] = nullptr;
    }
""", """    auto& compressor = metadata["compressor"]; // null unless the array is compressed
    if (const auto& params = config_.compression_params; params.has_value()) {
        compressor["codec"] = "https://purl.org/zarr/spec/codec/blosc/1.0";
        auto& configuration = compressor["configuration"];
        configuration["cname"] = params->codec_id;
        configuration["clevel"] = params->clevel;
        configuration["shuffle"] = params->shuffle;
        configuration["blocksize"] = 0;
    }
"""),
 (S + "zarr.common.cpp", """    if (s.empty()) {
        return {};
    }

    // trim left
    std::string trimmed(s);
    trimmed.erase(trimmed.begin(),
                  std::find_if(trimmed.begin(), trimmed.end(), [](char c) {
                      return !std::isspace(c);
                  }));

    // trim right
    trimmed.erase(std::find_if(trimmed.rbegin(),
                               trimmed.rend(),
                               [](char c) { return !std::isspace(c); })
                    .base(),
                  trimmed.end());

    return trimmed;
""", """    const auto is_blank = [](unsigned char c) { return std::isspace(c) != 0; };
    while (!s.empty() && is_blank(s.front())) {
        s.remove_prefix(1);
    }
    while (!s.empty() && is_blank(s.back())) {
        s.remove_suffix(1);
    }
    return std::string{ s };
"""),
 (S + "zarr.common.cpp", """    auto trimmed = trim(s);
    if (trimmed.empty()) {
        LOG_ERROR(err_on_empty);
        return true;
    }
    return false;
""", """    const bool is_empty = trim(s).empty();
    if (is_empty) {
        LOG_ERROR(err_on_empty);
    }
    return is_empty;
"""),
])
R["logger"] = ("C24 C23 C26", [
 (L + "logger.hh", """        std::scoped_lock lock(log_mutex_);

        std::string prefix;
        auto stream = &std::cout;

        switch (level) {
            case LogLevel_Debug:
                prefix = "[DEBUG] ";
                break;
            case LogLevel_Info:
                prefix = "[INFO] ";
                break;
            case LogLevel_Warning:
                prefix = "[WARNING] ";
                break;
            default:
                prefix = "[ERROR] ";
                stream = &std::cerr;
                break;
        }

        fs::path filepath(file);
        std::string filename = filepath.filename().string();
""", """        const auto prefix = prefix_(level);
        const bool is_error = level > LogLevel_Warning;

        const std::lock_guard<std::mutex> lock(log_mutex_);

        const std::string filename = fs::path(file).filename().string();
"""),
 (L + "logger.hh", """        std::string message = ss.str();
        *stream << message << std::endl;

        return message;""", """        const auto message = std::move(ss).str();
        std::ostream& stream = is_error ? std::cerr : std::cout;
        stream << message << '\\n';
        stream.flush();

        return message;"""),
 (L + "logger.hh", """    static std::string get_timestamp_();
""", """    static std::string get_timestamp_();
    static const char* prefix_(LogLevel level)
    {
        static constexpr const char* prefixes[] = { "[DEBUG] ", "[INFO] ", "[WARNING] " };
        return level > LogLevel_Warning ? "[ERROR] " : prefixes[level];
    }
"""),
])
R["api"] = ("C23 C24 C17 C25 C35", [
 (S + "acquire.zarr.cpp", """        ZarrDimensionProperties* dimensions = nullptr;

        try {
            dimensions = new ZarrDimensionProperties[dimension_count];
        } catch (const std::bad_alloc&) {
            LOG_ERROR("Failed to allocate memory for dimensions");
            return ZarrStatusCode_OutOfMemory;
        }

        ZarrStreamSettings_destroy_dimension_array(settings);
        settings->dimensions = dimensions;
        settings->dimension_count = dimension_count;
""", """        std::unique_ptr<ZarrDimensionProperties[]> dimensions;
        try {
            dimensions.reset(new ZarrDimensionProperties[dimension_count]);
        } catch (const std::bad_alloc&) {
            LOG_ERROR("Failed to allocate memory for ", dimension_count, " dimensions");
            return ZarrStatusCode_OutOfMemory;
        }

        delete[] std::exchange(settings->dimensions, dimensions.release());
        settings->dimension_count = dimension_count;
"""),
 (S + "acquire.zarr.cpp", """        if (settings == nullptr) {
            return;
        }

        if (settings->dimensions != nullptr) {
            delete[] settings->dimensions;
            settings->dimensions = nullptr;
        }
        settings->dimension_count = 0;
""", """        if (settings) {
            delete[] settings->dimensions;
            settings->dimensions = nullptr;
            settings->dimension_count = 0;
        }
"""),
 (S + "acquire.zarr.cpp", """        ZarrStream_s* stream = nullptr;

        try {
            stream = new ZarrStream_s(settings);
        } catch (const std::bad_alloc&) {
            LOG_ERROR("Failed to allocate memory for Zarr stream");
        } catch (const std::exception& e) {
            LOG_ERROR("Error creating Zarr stream: ", e.what());
        }

        return stream;
""", """        try {
            return std::make_unique<ZarrStream_s>(settings).release();
        } catch (const std::exception& e) {
            LOG_ERROR("Error creating Zarr stream: ", e.what());
            return nullptr;
        }
"""),
 (S + "acquire.zarr.cpp", """        try {
            if (!finalize_stream(stream)) {
                LOG_ERROR("Failed to finalize Zarr stream");
            }
        } catch (const std::exception& e) {
            LOG_ERROR("Error finalizing Zarr stream: ", e.what());
        }

        delete stream;
""", """        const std::unique_ptr<ZarrStream_s> owner(stream);
        bool is_finalized = false;
        try {
            is_finalized = finalize_stream(owner.get());
        } catch (const std::exception& e) {
            LOG_ERROR("Exception: ", e.what());
        }
        if (!is_finalized) {
            LOG_ERROR("Failed to finalize Zarr stream");
        }
"""),
])
R["s3sink"] = ("C20 C21 C31 C09", [
 (S + "s3.sink.cpp", """    size_t bytes_of_data = data.size();
    const std::byte* data_ptr = data.data();
    while (bytes_of_data > 0) {
        const auto bytes_to_write =
          std::min(bytes_of_data, part_buffer_.size() - nbytes_buffered_);

        if (bytes_to_write) {
            std::copy_n(data_ptr,
                        bytes_to_write,
                        part_buffer_.begin() + nbytes_buffered_);
            nbytes_buffered_ += bytes_to_write;
            data_ptr += bytes_to_write;
            bytes_of_data -= bytes_to_write;
        }

        if (nbytes_buffered_ == part_buffer_.size() && !flush_part_()) {
            return false;
        }
    }

    return true;
""", """    do {
        const auto free_space = std::span(part_buffer_).subspan(nbytes_buffered_);
        const auto head = data.first(std::min(data.size(), free_space.size()));
        std::copy(head.begin(), head.end(), free_space.begin());
        nbytes_buffered_ += head.size();
        data = data.subspan(head.size());

        const bool is_full = nbytes_buffered_ >= part_buffer_.size();
        if (is_full && !flush_part_()) {
            return false;
        }
    } while (!data.empty());

    return true;
"""),
 (S + "s3.sink.cpp", """    auto connection = connection_pool_->get_connection();
    std::span data(reinterpret_cast<uint8_t*>(part_buffer_.data()),
                   nbytes_buffered_);

    bool retval = false;
    try {
        std::string etag =
          connection->put_object(bucket_name_, object_key_, data);
        EXPECT(!etag.empty(), "Failed to upload object: ", object_key_);

        retval = true;

        nbytes_flushed_ = nbytes_buffered_;
        nbytes_buffered_ = 0;
    } catch (const std::exception& exc) {
        LOG_ERROR("Error: ", exc.what());
    }

    // cleanup
    connection_pool_->return_connection(std::move(connection));

    return retval;
""", """    std::span data(reinterpret_cast<uint8_t*>(part_buffer_.data()),
                   nbytes_buffered_);

    auto connection = connection_pool_->get_connection();
    std::string etag;
    try {
        etag = connection->put_object(bucket_name_, object_key_, data);
    } catch (const std::exception& exc) {
        LOG_ERROR("Error: ", exc.what());
    }
    connection_pool_->return_connection(std::move(connection));

    if (etag.empty()) {
        LOG_ERROR("Failed to upload object: ", object_key_);
        return false;
    }
    nbytes_flushed_ = std::exchange(nbytes_buffered_, 0);
    return true;
"""),
])
R["py"] = ("C29 C35", [
 (PYB, """        std::vector<ZarrDimensionProperties> dimension_props;
        for (auto i = 0; i < dims.size(); ++i) {
            const auto& dim = dims[i];
            dimension_names_[i] = dim.name();
            ZarrDimensionProperties properties{
                .name = dimension_names_[i].c_str(),
                .type = dim.type(),
                .array_size_px = dim.array_size_px(),
                .chunk_size_px = dim.chunk_size_px(),
                .shard_size_chunks = dim.shard_size_chunks(),
            };
            dimension_props.push_back(properties);
        }
""", """        std::vector<ZarrDimensionProperties> dimension_props(dims.size());
        std::size_t i = 0;
        for (const auto& dim : dims) {
            dimension_names_[i] = dim.name();
            auto& p = dimension_props[i];
            p.name = dimension_names_[i++].data();
            p.type = dim.type();
            p.array_size_px = dim.array_size_px();
            p.chunk_size_px = dim.chunk_size_px();
            p.shard_size_chunks = dim.shard_size_chunks();
        }
"""),
 (PYB, """        auto contiguous = py::array::ensure(image_data, py::array::c_style);
        if (!contiguous) {
            throw py::error_already_set();
        }

        auto buf = contiguous.request();
        auto* ptr = (uint8_t*)buf.ptr;
""", """        if (!(image_data.flags() & py::array::c_style)) {
            image_data = py::array::ensure(image_data, py::array::c_style);
            if (!image_data) {
                throw py::error_already_set();
            }
        }

        const py::buffer_info buf = image_data.request();
        const void* ptr = image_data.data();
"""),
 (PYB, """        const size_t bytes_in = buf.itemsize * buf.size;""", """        const auto bytes_in = static_cast<size_t>(image_data.nbytes());"""),
 (PYB, """    const std::optional<PyZarrS3Settings>& s3() const { return s3_settings_; }
""", """    std::optional<PyZarrS3Settings> s3() const { return s3_settings_; }
"""),
 (PYB, """            const auto& s3 = settings.s3().value();
""", """            const auto s3 = *settings.s3();
"""),
 (PYB, """        [](const PyZarrStreamSettings& self) -> py::object {
            if (self.s3()) {
                return py::cast(*self.s3());
            }
            return py::none();
        },
        [](PyZarrStreamSettings& self, py::object obj) {
            if (obj.is_none()) {
                self.set_s3(std::nullopt);
            } else {
                self.set_s3(obj.cast<PyZarrS3Settings>());
            }
        })
""", """        &PyZarrStreamSettings::s3,
        &PyZarrStreamSettings::set_s3)
"""),
 (PYB, """          PyZarrCompressionSettings settings;
          if (kwargs.contains("compressor"))
              settings.set_compressor(
                kwargs["compressor"].cast<ZarrCompressor>());
          if (kwargs.contains("codec"))
              settings.set_codec(kwargs["codec"].cast<ZarrCompressionCodec>());
          if (kwargs.contains("level"))
              settings.set_level(kwargs["level"].cast<uint8_t>());
          if (kwargs.contains("shuffle"))
              settings.set_shuffle(kwargs["shuffle"].cast<uint8_t>());
          return settings;
""", """          auto settings = std::make_unique<PyZarrCompressionSettings>();
          for (const auto& item : kwargs) {
              const auto key = item.first.cast<std::string>();
              if (key == "shuffle")
                  settings->set_shuffle(item.second.cast<uint8_t>());
              else if (key == "level")
                  settings->set_level(item.second.cast<uint8_t>());
              else if (key == "codec")
                  settings->set_codec(item.second.cast<ZarrCompressionCodec>());
              else if (key == "compressor")
                  settings->set_compressor(item.second.cast<ZarrCompressor>());
          }
          return settings;
"""),
])
def one(name):
    props, edits = R[name]
    w = tempfile.mkdtemp(prefix="ref", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", w], check=True)
    for f, old, new in edits:
        if old is None: continue
        s = open(w + "/" + f).read()
        if s.count(old) != 1: print(name, "PATTERN COUNT", s.count(old), f, old[:50]); return
        open(w + "/" + f, "w").write(s.replace(old, new))
    for p in props.split():
        t = time.time()
        r = subprocess.run([sys.executable, HERE + "/vp.py", "check", p], capture_output=True, text=True, timeout=900,
                           env=dict(os.environ, VP_REPO=w, VP_EVIDENCE=w + "/ev.json"))
        out = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
        print("%-10s %s rc=%d %ds %s" % (name, p, r.returncode, time.time() - t, "" if r.returncode == 0 else " | ".join(out[:6])[:900]), flush=True)
    shutil.rmtree(w)
for n in sys.argv[1:] or list(R): one(n)
