from mutants2 import S, AW, V2, V3, ZS, ZD, SC, S3, FS, VW, CN, ZC, TP
CA, LH, LC, SK = S + "acquire.zarr.cpp", "src/logger/logger.hh", "src/logger/logger.cpp", S + "sink.cpp"
M3 = [
    # dimensions
    ("p-mod32", "C01", ZD, "    size_t mod_divisor = 1, div_divisor = 1;", "    uint32_t mod_divisor = 1, div_divisor = 1;"),
    ("p-div32", "C01", ZD, "        size_t divisor = dims_.front().chunk_size_px;", "        uint32_t divisor = dims_.front().chunk_size_px;"),
    ("p-ragged-lattice", "C01", ZD, "        mod_divisor *= dim.array_size_px;\n", "        mod_divisor *= (i == dim_index && dim.array_size_px % dim.chunk_size_px && dim_index > 1 ? zarr::chunks_along_dimension(dim) * dim.chunk_size_px : dim.array_size_px);\n"),
    ("p-group-nd6", "C01", ZD, "    for (auto i = ndims() - 3; i > 0; --i) {\n        const auto idx", "    for (auto i = std::min<size_t>(ndims() - 3, 3); i > 0; --i) {\n        const auto idx"),
    ("p-frameid32", "C01 C02", ZD, "    return (frame_id % mod_divisor) / div_divisor;", "    return (static_cast<uint32_t>(frame_id) % mod_divisor) / div_divisor;"),
    ("p-strides32", "C02", ZD, "    std::vector<uint64_t> array_strides(ndims() - 2, 1),\n      chunk_strides(ndims() - 2, 1);", "    std::vector<uint32_t> array_strides(ndims() - 2, 1),\n      chunk_strides(ndims() - 2, 1);"),
    ("p-append-mod", "C02", ZD, "          (frame_id / array_strides.front()) % dim.chunk_size_px;", "          (frame_id / array_strides.front()) % (dim.array_size_px ? std::min(dim.chunk_size_px, dim.array_size_px) : dim.chunk_size_px);"),
    ("p-tile32", "C02", ZD, "    const auto tile_size = zarr::bytes_of_type(dtype_) *", "    const uint16_t tile_size = zarr::bytes_of_type(dtype_) *"),
    ("p-bytes-chunk32", "C03", ZD, "    auto n_bytes = zarr::bytes_of_type(dtype_);", "    uint32_t n_bytes = zarr::bytes_of_type(dtype_);"),
    ("p-frame32", "C03", ZC, "    return bytes_of_type(type) * height * width;", "    return height * width * bytes_of_type(type);"),
    ("p-shards-product", "C03", ZD, "    size_t n_shards = 1;\n    for (auto i = 1;", "    uint16_t n_shards = 1;\n    for (auto i = 1;"),
    ("p-shard-stride-y", "C04 C06", ZD, "        shard_strides[i-1] = shard_strides[i] * zarr::shards_along_dimension(dim);", "        shard_strides[i-1] = shard_strides[i] * std::max(1u, zarr::chunks_along_dimension(dim) / dim.shard_size_chunks);"),
    ("p-slot-layer", "C04 C06", ZD, "    chunk_lattice_indices[0] = chunk_index / chunk_strides.front();\n\n    // make shard lattice", "    chunk_lattice_indices[0] = chunk_index / chunk_strides.front() % 2;\n\n    // make shard lattice"),
    ("p-slot-skip1", "C04", ZD, "    for (auto i = ndims() - 1; i > 0; --i) {\n        const auto& dim = dims_[i];\n        chunk_internal_strides", "    for (auto i = ndims() - 1; i > 0; --i) {\n        const auto& dim = dims_[i];\n        if (i == 2 && ndims() > 5) { chunk_internal_strides[1] = chunk_internal_strides[2]; continue; }\n        chunk_internal_strides"),
    # V2/V3 stores
    ("p-tile-int", "C05", AW, "            auto chunk_it = chunk.begin() + chunk_offset;", "            auto chunk_it = chunk.begin() + static_cast<short>(chunk_offset);"),
    ("p-frameid8", "C05 C06", AW, "    const auto frame_id = frames_written_;", "    const auto frame_id = static_cast<uint8_t>(frames_written_);"),
    ("p-tile-swap", "C05", AW, "            const auto c = group_offset + i * n_tiles_x + j;", "            const auto c = group_offset + (n_tiles_x < n_tiles_y ? i * n_tiles_x + j : i * n_tiles_x + (n_tiles_x > 2 && i > 0 ? n_tiles_x - 1 - j : j));"),
    ("p-buffer-flag", "C05 C06", AW, "    // reset buffers\n    make_buffers_();", "    // reset buffers\n    if (bytes_to_flush_ > 1) make_buffers_();"),
    ("p-flush-nd5", "C05 C06", AW, "    for (auto i = 1; i < dims->ndims() - 2; ++i) {\n        frames_before_flush *= dims->at(i).array_size_px;", "    for (auto i = 1; i < std::min<size_t>(dims->ndims() - 2, 3); ++i) {\n        frames_before_flush *= dims->at(i).array_size_px;"),
    ("p-layer-final", "C06", V3, "    const auto n_chunks = bytes_to_flush_ > 0 ? chunk_buffers_.size() : 0;", "    const auto n_chunks = chunk_buffers_.size();"),
    ("p-table-order", "C06", V3, "                    chunk_table.at(2 * internal_idx + 1) = chunk.size();", "                    chunk_table.at(2 * internal_idx + 1) = chunk_buffers_.front().size();"),
    ("p-table-reset", "C06", V3, "    // reset shard tables and file offsets\n    if (write_table) {", "    // reset shard tables and file offsets\n    if (write_table && shard_tables_.size() > 1) {"),
    ("p-table-first", "C06", V3, "        for (auto& table : shard_tables_) {\n            std::fill(\n              table.begin(), table.end(), std::numeric_limits<uint64_t>::max());\n        }\n\n        std::fill(shard", "        {\n            auto& table = shard_tables_.front();\n            std::fill(\n              table.begin(), table.end(), std::numeric_limits<uint64_t>::max());\n        }\n\n        std::fill(shard"),
    ("p-v3-rollover-nd", "C06", V3, "    frames_before_flush *= append_dim.shard_size_chunks;\n", "    if (append_dim.shard_size_chunks < 3) frames_before_flush *= append_dim.shard_size_chunks;\n"),
    ("p-sinks-kept", "C05 C09", AW, "    close_sinks_();\n    ++append_chunk_index_;", "    if (append_chunk_index_ % 4 != 3) close_sinks_(); else data_sinks_.clear();\n    ++append_chunk_index_;"),
    # metadata
    ("p-fill", "C07", V3, 'metadata["fill_value"] = 0;', 'metadata["fill_value"] = config_.dtype >= ZarrDataType_float32 ? json(nullptr) : json(0);'),
    ("p-sep", "C07", V2, 'metadata["dimension_separator"] = "/";', 'metadata["dimension_separator"] = config_.dimensions->ndims() > 4 ? "." : "/";'),
    ("p-format", "C07", V2, 'metadata["zarr_format"] = 2;', ''),
    ("p-clevel", "C07", V2, '{ "clevel", bcp.clevel },', '{ "clevel", bcp.clevel ? bcp.clevel : 1 },'),
    ("p-shuffle", "C07", V3, '{ "shuffle", params.shuffle },', '{ "shuffle", params.shuffle != 0 },'),
    ("p-meta-shorter", "C07", AW, "    if (should_rollover || is_finalizing_) {\n        CHECK", "    if (is_finalizing_ ? bytes_to_flush_ > 0 : should_rollover) {\n        CHECK"),
    ("p-shape-mul", "C07", V3, "    array_shape.push_back(append_size);", "    array_shape.push_back(config_.dimensions->final_dim().array_size_px ? std::min<size_t>(append_size, config_.dimensions->final_dim().array_size_px) : append_size);"),
    # append
    ("p-partial-many", "C08", ZS, "            bytes_written += bytes_to_copy;\n            data += bytes_to_copy;", "            bytes_written += bytes_to_copy;\n            if (frame_buffer_offset_ < bytes_of_frame || bytes_remaining > bytes_to_copy) data += bytes_to_copy;\n            if (frame_buffer_offset_ < bytes_of_frame) frame_buffer_offset_ = std::max(frame_buffer_offset_, bytes_to_copy);"),
    ("p-partial-cap", "C08", ZS, "        } else if (bytes_remaining < bytes_of_frame) { // begin", "        } else if (bytes_remaining <= bytes_of_frame) { // begin"),
    # failures
    ("p-close-last", "C09", AW, "            LOG_ERROR(\"Failed to finalize sink \", i);\n            all_successful = false;", "            LOG_ERROR(\"Failed to finalize sink \", i);\n            all_successful = i > 0;"),
    ("p-latch-v2", "C09", V2, "    return all_successful;\n}", "    return all_successful || append_chunk_index_ > 0;\n}"),
    ("p-base", "C09", ZS, "        set_error_(\"Error writing base metadata\");\n        return false;", "        set_error_(\"Error writing base metadata\");"),
    ("p-external", "C09", ZS, "    // write external metadata\n    EXPECT(write_external_metadata_(), get_error_());", "    // write external metadata\n    (void)write_external_metadata_();"),
    ("p-array-attrs", "C09", ZS, "            set_error_(\"Error writing array attributes\");\n            return false;", "            return true;"),
    ("p-s3-empty-etag", "C09 C20", S3, "        EXPECT(!etag.empty(), \"Failed to upload object: \", object_key_);\n", ""),
    ("p-s3-part-etag", "C20", S3, "        EXPECT(!part.etag.empty(),\n               \"Failed to upload part \",\n               part.number,\n               \" of object \",\n               object_key_);\n", ""),
    ("p-ec-remove", "C09 C32", ZS, "            if (ec) {\n                set_error_(\"Failed to remove existing store path '\"", "            if (ec && fs::is_directory(store_path_)) {\n                set_error_(\"Failed to remove existing store path '\""),
    # sinks
    ("p-fs-pos", "C10", FS, "    file_.seekp(offset);", "    if (offset != static_cast<size_t>(file_.tellp())) file_.seekp(offset & 0xffffffffffULL);"),
    ("p-fs-ate", "C10 C32", FS, "std::ios::binary | std::ios::trunc)", "std::ios::binary | std::ios::app)"),
    ("p-vw-empty", "C11", VW, "    ssize_t total_bytes = 0;", "    if (!iovecs.empty() && iovecs.front().iov_len == 0) return true;\n    ssize_t total_bytes = 0;"),
    ("p-vw-total", "C11", VW, "    ssize_t total_bytes = 0;", "    int total_bytes = 0;"),
    # pool
    ("p-pop-back", "C12", TP, "        if (auto job = pop_from_job_queue_(); job.has_value()) {\n            lock.unlock();", "        if (auto job = pop_from_job_queue_(); job.has_value()) {\n            if (!is_accepting_jobs_ && jobs_.size() > 1) jobs_.pop();\n            lock.unlock();"),
    ("p-clamp", "C12", TP, "    n_threads = std::clamp(n_threads, 1u, max_threads);", "    n_threads = std::min(n_threads, max_threads);"),
    ("p-err-twice", "C13", TP, "                error_handler_(err_msg);", "                error_handler_(err_msg);\n                if (err_msg.size() > 15) error_handler_(err_msg);"),
    ("p-err-quiet", "C13", TP, "                error_handler_(err_msg);", "                if (is_accepting_jobs_) error_handler_(err_msg);"),
    ("p-stop-one", "C14", TP, "        cv_.notify_all();", "        if (jobs_.empty()) cv_.notify_all(); else cv_.notify_one();"),
    ("p-stop-join", "C14 C12", TP, "        if (thread.joinable()) {\n            thread.join();", "        if (thread.joinable()) {\n            if (threads_.size() > 1 && &thread == &threads_.back()) thread.detach(); else\n            thread.join();"),
    # creators
    ("p-sink-int", "C15", SC, "                const auto kstr = std::to_string(k);", "                const auto kstr = std::string(1, char('0' + k % 10));"),
    ("p-sink-file", "C15", SC, "        base_path = base_path.substr(7);\n    }\n\n    EXPECT(!base_path.empty(), \"Base path must not be empty.\");\n\n    std::queue", "        base_path = base_path.substr(base_path.starts_with(\"file:///\") ? 7 : 5);\n    }\n\n    EXPECT(!base_path.empty(), \"Base path must not be empty.\");\n\n    std::queue"),
    ("p-dirs-latch", "C27", SC, "                             all_successful.fetch_and(0);\n                             latch.count_down();\n                             return false;\n                         }\n                     }", "                             latch.count_down();\n                             all_successful.fetch_and(0);\n                             return false;\n                         }\n                     }"),
    ("p-files-store", "C27", SC, "                     all_successful.fetch_and((char)success);\n                     latch.count_down();\n\n                     return success;\n                 }),\n               \"Failed to push job to thread pool.\");\n    }\n\n    latch.wait();\n\n    if", "                     all_successful = (char)success;\n                     latch.count_down();\n\n                     return success;\n                 }),\n               \"Failed to push job to thread pool.\");\n    }\n\n    latch.wait();\n\n    if"),
    ("p-files-exists", "C27", SC, "                     } else if (fs::exists(dirname)) {", "                     } else if (fs::is_regular_file(dirname) && !all_successful) {"),
    # group metadata
    ("p-scale-1", "C16", ZS, "            scales.push_back(1.);", "            scales.push_back(k < 2 ? 1. : std::pow(2, i));"),
    ("p-scale-shift", "C16", ZS, "        scales.push_back(std::pow(2, i)); // append", "        scales.push_back(2. * i); // append"),
    ("p-axes-name", "C16", ZS, '            axes.push_back({ { "name", dim.name.c_str() },\n                             { "type", type },\n                             { "unit", "micrometer" } });', '            axes.push_back({ { "name", dim.name.substr(0, 31).c_str() },\n                             { "type", type },\n                             { "unit", "micrometer" } });'),
    ("p-custom-dump", "C16", ZS, "    const std::string metadata_str = metadata.dump(4);\n    std::span data{ reinterpret_cast<const std::byte*>(metadata_str.data()),\n                    metadata_str.size() };\n    if (!sink->write(0, data)) {\n        set_error_(\"Error writing external", "    if (metadata.is_array() && metadata.size() == 1) metadata = nlohmann::json(metadata[0]);\n    const std::string metadata_str = metadata.dump(4);\n    std::span data{ reinterpret_cast<const std::byte*>(metadata_str.data()),\n                    metadata_str.size() };\n    if (!sink->write(0, data)) {\n        set_error_(\"Error writing external"),
    ("p-custom-trim", "C16", ZS, "        custom_metadata_ = zarr::trim(settings->custom_metadata);", "        custom_metadata_ = std::string(settings->custom_metadata, strnlen(settings->custom_metadata, 64));"),
    # validation
    ("p-dim-null", "C17", ZS, "    if (is_null_or_empty(dimension->name, \"Dimension name is empty\")) {\n        return false;\n    }\n", "    if (!is_append && is_null_or_empty(dimension->name, \"Dimension name is empty\")) {\n        return false;\n    }\n    if (!dimension->name) return false;\n"),
    ("p-shuffle-range", "C17", ZS, "    if (settings->shuffle != BLOSC_NOSHUFFLE &&", "    if ((settings->shuffle & 3) != BLOSC_NOSHUFFLE &&"),
    ("p-bucket-raw", "C17", ZS, "    std::string trimmed = zarr::trim(settings->bucket_name);", "    std::string trimmed = settings->bucket_name;"),
    ("p-writable", "C17", ZS, "fs::perms::owner_write | fs::perms::group_write |\n                fs::perms::others_write", "fs::perms::owner_all"),
    ("p-parent", "C17", ZS, "!fs::exists(parent_path) || !fs::is_directory(parent_path)", "!fs::exists(parent_path)"),
    ("p-version", "C17", ZS, "version < ZarrVersion_2 || version >= ZarrVersionCount", "version == 0 || version >= ZarrVersionCount"),
    # multiscale
    ("p-mean-order", "C18", ZS, "            quot += px / n;\n            rem += px % n;", "            quot += px / n;\n            rem += n > 2 ? px % n : px & 1;"),
    ("p-mean-trunc", "C18", ZS, "            if (quot > 0 && rem < 0) {", "            if (quot > 0 && rem < -1) {"),
    ("p-avg-half", "C18", ZS, "    const auto num_pixels = bytes_of_src / sizeof(T);", "    const auto num_pixels = std::max<size_t>(bytes_of_src / sizeof(T), 2) - (bytes_of_src / sizeof(T) == 3);"),
    ("p-scale-col", "C18", ZS, "            const bool pad_width = (col == width - 1 && width != w_pad);", "            const bool pad_width = (col == width - 1 && width != w_pad && row + 2 < height);"),
    ("p-level-src", "C18", ZS, "            data = src.get();", "            data = i > 1 ? data : src.get();"),
    ("p-ds-shard", "C19", AW, "                : std::min(n_chunks, dim.shard_size_chunks);", "                : std::min(n_chunks, std::max(1u, dim.shard_size_chunks / 2));"),
    ("p-ds-chunk", "C19", AW, "                : std::min(dim.chunk_size_px, array_size_px);", "                : (i + 2 < config.dimensions->ndims() ? dim.chunk_size_px : std::min(dim.chunk_size_px, array_size_px));"),
    # S3
    ("p-part-limit", "C20", S3, "        if (nbytes_buffered_ == part_buffer_.size() && !flush_part_()) {", "        if (bytes_of_data > 0 && nbytes_buffered_ == part_buffer_.size() && !flush_part_()) {"),
    ("p-part-number", "C20", S3, "static_cast<unsigned int>(parts.size()) + 1;", "static_cast<unsigned int>(nbytes_flushed_ / max_part_size_) + (nbytes_buffered_ == max_part_size_ ? 1 : 2);"),
    ("p-put-small", "C20 C31", S3, "    } else if (nbytes_buffered_ > 0) {", "    } else if (nbytes_buffered_ > 1) {"),
    ("p-conn-null", "C21 C14", CN, "        return !is_accepting_connections_ || !connections_.empty();", "        return connections_.size() > 0;"),
    ("p-conn-leak", "C21", S3, "        LOG_ERROR(\"Error: \", exc.what());\n    }\n\n    connection_pool_->return_connection(std::move(connection));\n\n    return retval;\n}\n", "        LOG_ERROR(\"Error: \", exc.what());\n        return false;\n    }\n\n    connection_pool_->return_connection(std::move(connection));\n\n    return retval;\n}\n"),
    ("p-conn-first", "C21", CN, "        if (connection->is_connection_valid()) {", "        if (i == 1 || connection->is_connection_valid()) {"),
    # compression
    ("p-comp-grow", "C22", AW, "                         buf->swap(tmp);", "                         if (tmp.size() < bytes_of_chunk) buf->swap(tmp);"),
    ("p-comp-level", "C22", ZS, "          compression_settings_->level,\n", "          std::max<uint8_t>(1, compression_settings_->level),\n"),
    ("p-comp-over", "C22 C25", AW, "                           bytes_of_chunk + BLOSC_MAX_OVERHEAD;", "                           bytes_of_chunk;"),
    # API, logger
    ("p-msg", "C23", CA, '                return "Compression error";', '                return "I/O error";'),
    ("p-zero-append", "C23 C08", CA, "            *bytes_out = stream->append(data, bytes_in);", "            if (auto n = stream->append(data, bytes_in)) *bytes_out = n;"),
    ("p-create-catch", "C23 C17", CA, "        } catch (const std::exception& e) {\n            LOG_ERROR(\"Error creating Zarr stream: \", e.what());\n        }", "        } catch (const std::runtime_error& e) {\n            LOG_ERROR(\"Error creating Zarr stream: \", e.what());\n        }"),
    ("p-log-flush", "C24", LH, "        *stream << message << std::endl;", "        *stream << message << (level >= LogLevel_Warning ? \"\\n\" : \"\");\n        stream->flush();"),
    # streams
    ("p-trim-last", "C28", ZC, "                      return !std::isspace(c);\n                  }));", "                      return !std::isspace(c) && c != '\\0';\n                  }));"),
    ("p-trim-tab", "C28", ZC, "                               [](char c) { return !std::isspace(c); })", "                               [](char c) { return !std::isspace(c) || c == '\\v'; })"),
    ("p-remove-parent", "C32", ZS, "            if (!fs::create_directories(store_path_, ec)) {", "            fs::remove_all(store_path_ + \".tmp\", ec); if (!fs::create_directories(store_path_, ec)) {"),
    ("p-s3-creds", "C31", ZS, "            .secret_access_key =\n              zarr::trim(settings->s3_settings->secret_access_key),", "            .secret_access_key =\n              settings->s3_settings->secret_access_key,"),
    ("p-s3-dirs", "C32 C31", ZS, "    } else {\n        if (fs::exists(store_path_)) {", "    }\n    {\n        if (fs::exists(store_path_)) {"),
    ("p-s3-prefix", "C31", AW, "            data_root = config_.store_path + \"/data/root/\" +", "            data_root = config_.store_path + (is_s3_array_() && config_.level_of_detail > 1 ? \"//data/root/\" : \"/data/root/\") +"),
]
