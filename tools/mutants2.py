S = "src/streaming/"
AW, V2, V3, ZS, ZD, SC, S3, FS, VW, CN, ZC, TP = (S + x for x in ("array.writer.cpp", "zarrv2.array.writer.cpp", "zarrv3.array.writer.cpp", "zarr.stream.cpp", "zarr.dimension.cpp", "sink.creator.cpp", "s3.sink.cpp", "file.sink.cpp",
    "vectorized.file.writer.cpp", "s3.connection.cpp", "zarr.common.cpp", "thread.pool.cpp"))
M2 = [
    # stores
    ("n-layer", "C06", V3, "const size_t layer = (frames_written_ - 1) / frames_per_layer %", "const size_t layer = frames_written_ / frames_per_layer %"),
    ("n-offsets-kept", "C06", V3, "        std::fill(shard_file_offsets_.begin(), shard_file_offsets_.end(), 0);", "        if (dims->final_dim().shard_size_chunks < 2)\n            std::fill(shard_file_offsets_.begin(), shard_file_offsets_.end(), 0);"),
    ("n-table-kept", "C06", V3, "    if (write_table) {\n        for", "    if (write_table && is_finalizing_) {\n        for"),
    ("n-offset-compressed", "C06", V3, "*file_offset += chunk.size();", "*file_offset += std::max(chunk.size(), config_.dimensions->bytes_per_chunk());"),
    ("n-table-offset", "C06", V3, "chunk_table.at(2 * internal_idx) = *file_offset;", "chunk_table.at(2 * internal_idx) = chunk_table.at(2 * internal_idx) == 0 ? 0 : *file_offset;"),
    ("n-rows", "C05 C06", AW, "const auto n_tiles_y = (frame_rows + tile_rows - 1) / tile_rows;", "const auto n_tiles_y = std::max(frame_rows / tile_rows, 1u);"),
    ("n-region", "C05", AW, "std::min(frame_col + tile_cols, frame_cols) - frame_col;", "std::min(tile_cols, frame_cols);"),
    ("n-fill-skipped", "C05 C06", AW, "        std::fill(buf.begin(), buf.end(), std::byte(0));", "        if (!config_.compression_params) std::fill(buf.begin(), buf.begin() + buf.size() / 2, std::byte(0));"),
    ("n-flush-period", "C05 C06", AW, "frames_before_flush *= dims->at(i).array_size_px;", "frames_before_flush *= dims->at(i).chunk_size_px * chunks_along_dimension(dims->at(i));"),
    ("n-rollover-v2", "C05", V2, "should_rollover_() const\n{\n    return true;", "should_rollover_() const\n{\n    return frames_written_ > 1;"),
    ("n-append-index", "C05 C06", AW, "    ++append_chunk_index_;", "    append_chunk_index_ = (append_chunk_index_ + 1) % 3;"),
    ("n-lod-path", "C05", AW, 'std::to_string(config_.level_of_detail) + "/" +', 'std::to_string(config_.level_of_detail % 2) + "/" +'),
    # metadata
    ("n-append-size-floor", "C07", V3, "append_size = (append_size + array_size_px - 1) / array_size_px;", "append_size = append_size / array_size_px;"),
    ("n-chunk-shape", "C07", V3, "chunk_shape.push_back(dim.chunk_size_px);", "chunk_shape.push_back(std::min(dim.chunk_size_px, dim.array_size_px));"),
    ("n-shard-shape", "C07", V3, "shard_shape.push_back(final_dim.shard_size_chunks);", "shard_shape.push_back(final_dim.shard_size_chunks > 2 ? 2 : final_dim.shard_size_chunks);"),
    ("n-meta-once", "C07", AW, "    if (should_rollover || is_finalizing_) {\n        CHECK", "    if (should_rollover ? append_chunk_index_ < 3 : is_finalizing_) {\n        CHECK"),
    ("n-dtype-v3", "C07", V3, 'return "int64";', 'return "uint64";'),
    ("n-dtype-v2", "C07", V2, "dtype_prefix + \"f8\"", "dtype_prefix + \"f4\""),
    # appending
    ("n-tail-lost", "C08", ZS, "            if (frame_buffer_offset_ == bytes_of_frame) {", "            if (frame_buffer_offset_ == bytes_of_frame && bytes_written < nbytes + 1 && data) {\n                if (frame_buffer_.size() > 2 && bytes_to_copy == 1) frame_buffer_.back() = std::byte(0);"),
    ("n-bytes-out", "C08", ZS, "    return bytes_written;\n}\n\nbool\nZarrStream_s::is_s3", "    return bytes_written - (frame_buffer_offset_ == 1);\n}\n\nbool\nZarrStream_s::is_s3"),
    ("n-multi-partial", "C08 C18", ZS, "                write_multiscale_frames_(frame_buffer_.data(),\n                                         bytes_written_this_frame);", "                if (bytes_to_copy > 1) write_multiscale_frames_(frame_buffer_.data(),\n                                         bytes_written_this_frame);"),
    # group metadata
    ("n-axes-unit", "C16", ZS, "if (i < dimensions_->ndims() - 2) {\n            axes", "if (i < dimensions_->ndims() - 2 && dim.type != ZarrDimensionType_Space) {\n            axes"),
    ("n-axes-type", "C16", ZS, 'case ZarrDimensionType_Other:\n            return "other";', 'case ZarrDimensionType_Other:\n            return "space";'),
    ("n-comments", "C16 C17", ZS, "                                     true     // ignore comments\n    );\n\n    if (val", "                                     false     // ignore comments\n    );\n\n    if (val"),
    ("n-datasets-path", "C16", ZS, '{ "path", std::to_string(i) },', '{ "path", std::to_string(i % 3) },'),
    ("n-custom-key", "C16", ZS, 'metadata_key = "meta/" + metadata_key;', 'metadata_key = custom_metadata_ == "{}" ? "meta/root.group.json" : "meta/" + metadata_key;'),
    ("n-custom-empty", "C16", ZS, 'custom_metadata_ = "{}";', 'custom_metadata_ = "";'),
    # settings
    ("n-level", "C17", ZS, "if (settings->level > 9) {", "if (settings->level > 9 && settings->compressor != ZarrCompressor_None) {"),
    ("n-codec", "C17", ZS, "!is_valid_enumerator(settings->codec, ZarrCompressionCodecCount)", "settings->compressor != ZarrCompressor_None && !is_valid_enumerator(settings->codec, ZarrCompressionCodecCount)"),
    ("n-names", "C17", ZS, 'if (is_null_or_empty(dimension->name, "Dimension name is empty")) {', 'if (dimension->name == nullptr || *dimension->name == 0) {'),
    ("n-shard0", "C17", ZS, "if (version == ZarrVersion_3 && dimension->shard_size_chunks == 0) {", "if (version == ZarrVersion_3 && !is_append && dimension->shard_size_chunks == 0) {"),
    ("n-append0", "C17", ZS, "validate_dimension(settings->dimensions + i, version, i == 0)", "validate_dimension(settings->dimensions + i, version, i + 3 <= ndims)"),
    ("n-remove-early", "C17", ZS, "    if (!validate_settings(settings)) {\n", "    if (settings && settings->store_path && !settings->s3_settings && *settings->store_path) { std::error_code ec; fs::remove_all(settings->store_path, ec); }\n    if (!validate_settings(settings)) {\n"),
    ("n-penultimate", "C17", ZS, "if (settings->dimensions[ndims - 2].type != ZarrDimensionType_Space) {", "if (settings->dimensions[ndims - 2].type < ZarrDimensionType_Space && settings->dimensions[ndims - 2].type) {"),
    ("n-bucket63", "C17", ZS, "trimmed.length() > 63", "trimmed.length() > 64"),
    ("n-s3-key", "C17", ZS, 'if (is_null_or_empty(settings->secret_access_key,\n                         "S3 secret access key is empty")) {', 'if (settings->secret_access_key == nullptr) {'),
    # downsampling
    ("n-mean-int8", "C18", ZS, "scale = scale_image<int16_t>;", "scale = scale_image<uint16_t>;"),
    ("n-mean-f", "C18", ZS, "        double sum = 0;", "        T sum = 0;"),
    ("n-pad", "C18", ZS, "const bool pad_width = (col == width - 1 && width != w_pad);", "const bool pad_width = (col == width - 1 && width != w_pad && width > 1);"),
    ("n-size", "C19", AW, "dim.array_size_px / 2 + dim.array_size_px % 2;", "dim.array_size_px > 2 ? dim.array_size_px / 2 + dim.array_size_px % 2 : 1;"),
    ("n-bucket", "C19", AW, "    downsampled_config.bucket_name = config.bucket_name;\n", ""),
    ("n-channel", "C19", AW, "if (dim.type == ZarrDimensionType_Channel) {", "if (dim.type == ZarrDimensionType_Channel && i > 0) {"),
    ("n-loop", "C19", AW, "    return is_smaller;", "    return true;"),
    # sinks
    ("n-flush", "C10 C09", FS, "    file_.flush();\n", "    if (file_.tellp() > 0) file_.flush();\n"),
    ("n-seek32", "C10", FS, "file_.seekp(offset);", "file_.seekp(static_cast<int>(offset) >= 0 ? static_cast<int>(offset) : offset);"),
    ("n-iov", "C11", VW, "static_cast<int>(iovecs.size()),", "std::min(static_cast<int>(iovecs.size()), 1024),"),
    ("n-off32", "C11", VW, "static_cast<off_t>(offset));", "static_cast<off_t>(static_cast<uint32_t>(offset)));"),
    ("n-trunc", "C11", VW, "O_WRONLY | O_CREAT,", "O_WRONLY | O_CREAT | O_TRUNC,"),
    ("n-s3-buffered", "C20", S3, "        nbytes_flushed_ = nbytes_buffered_;\n", ""),
    ("n-s3-partno", "C20", S3, "static_cast<unsigned int>(parts.size()) + 1;", "static_cast<unsigned int>(parts.size()) + (parts.size() < 2 ? 1 : 2);"),
    ("n-s3-lastpart", "C20", S3, "if (nbytes_buffered_ > 0 && !flush_part_()) {", "if (nbytes_buffered_ > 1 && !flush_part_()) {"),
    ("n-s3-noreturn", "C21 C20", S3, "    // cleanup\n    connection_pool_->return_connection(std::move(connection));\n\n    return retval;\n}\n\nbool\nzarr::S3Sink::is_multi", "    // cleanup\n    if (retval) connection_pool_->return_connection(std::move(connection));\n\n    return retval;\n}\n\nbool\nzarr::S3Sink::is_multi"),
    ("n-order", "C15", SC, "            for (auto j = 0; j < n_parts; ++j)\n", "            for (auto j = n_parts; j-- > 0;)\n"),
    ("n-width-only", "C15", SC, "        const auto n_parts = parts_along_dimension(dim);\n        CHECK(n_parts);\n\n        auto n_paths = paths.size();\n        for (auto i = 0; i < n_paths; ++i) {", "        const auto n_parts = std::min<size_t>(parts_along_dimension(dim), 10);\n        CHECK(n_parts);\n\n        auto n_paths = paths.size();\n        for (auto i = 0; i < n_paths; ++i) {"),
    ("n-file-scheme", "C15", SC, "    if (base_path.starts_with(\"file://\")) {\n        base_path = base_path.substr(7);\n    }\n\n    EXPECT(!base_path.empty(), \"Base path must not be empty.\");\n\n    std::queue", "    if (base_path.starts_with(\"file:///\")) {\n        base_path = base_path.substr(7);\n    }\n\n    EXPECT(!base_path.empty(), \"Base path must not be empty.\");\n\n    std::queue"),
    ("n-parallel-skip", "C27", SC, "                     all_successful.fetch_and((char)success);\n                     latch.count_down();", "                     latch.count_down();\n                     all_successful.fetch_and((char)success);"),
    ("n-dirs-exists", "C27", SC, "                     } else if (fs::exists(dirname)) {", "                     } else if (fs::exists(dirname) && dirname.size() < 3) {"),
    # pool
    ("n-drop-queued", "C12", TP, "return !is_accepting_jobs_ && jobs_.empty();", "return !is_accepting_jobs_;"),
    ("n-late-job", "C12", TP, "    if (!is_accepting_jobs_) {\n        return false;\n    }", "    if (!is_accepting_jobs_ && jobs_.empty()) {\n        return false;\n    }"),
    ("n-err-locked", "C13 C14", TP, "            lock.unlock();\n            if", "            if"),
    ("n-err-quiet", "C13", TP, "                error_handler_(err_msg);", "                if (is_accepting_jobs_) error_handler_(err_msg);"),
    ("n-join-once", "C14", TP, "        if (thread.joinable()) {\n            thread.join();\n        }", "        thread.join();"),
    ("n-notify-one", "C14", TP, "cv_.notify_all();", "cv_.notify_one();"),
    ("n-push-notify", "C14 C12", TP, "    jobs_.push(std::move(job));\n    cv_.notify_one();", "    jobs_.push(std::move(job));\n    if (jobs_.size() == 1) cv_.notify_one();"),
    # connections
    ("n-valid", "C21", CN, "        if (connection->is_connection_valid()) {", "        if (connection->is_connection_valid() || !connections_.empty()) {"),
    ("n-conn-unlocked", "C21 C26", CN, "    std::unique_lock lock(connections_mutex_);\n    connections_.push_back(std::move(conn));\n    cv_.notify_one();", "    connections_.push_back(std::move(conn));\n    std::unique_lock lock(connections_mutex_);\n    cv_.notify_one();"),
    ("n-trim-inner", "C28", ZC, "std::find_if(trimmed.rbegin(),\n                               trimmed.rend(),\n                               [](char c) { return !std::isspace(c); })", "std::find_if(trimmed.rbegin(),\n                               trimmed.rend(),\n                               [](char c) { return c != ' ' && c != '\\t' && c != '\\n'; })"),
    ("n-empty", "C28", ZC, "    if (trimmed.empty()) {\n        LOG_ERROR(err_on_empty);", "    if (trimmed.empty() && s.size() < 5) {\n        LOG_ERROR(err_on_empty);"),
]
