# Changes against C36 and C37.
S = "src/streaming/"
AW, ZS, SK, FS, S3, TP, SC, CO, V2, V3 = (S + f for f in ("array.writer.cpp", "zarr.stream.cpp", "sink.cpp", "file.sink.cpp", "s3.sink.cpp", "thread.pool.cpp", "sink.creator.cpp", "s3.connection.cpp", "zarrv2.array.writer.cpp", "zarrv3.array.writer.cpp"))
M = [
    ("z-sink-kept", "C37", SK, "    sink.reset();\n    return true;", "    static std::vector<std::unique_ptr<Sink>> done;\n    done.push_back(std::move(sink));\n    return true;"),
    ("z-cleanup", "C36", AW, '        LOG_ERROR("Failed to create data sinks in ", data_root);\n        return false;', '        LOG_ERROR("Failed to create data sinks in ", data_root);\n        std::error_code ec;\n        std::filesystem::remove_all(config_.store_path + "/" + std::to_string(config_.level_of_detail), ec);\n        return false;'),
    ("z-cleanup-root", "C36", AW, '        LOG_ERROR("Failed to create data sinks in ", data_root);\n        return false;', '        LOG_ERROR("Failed to create data sinks in ", data_root);\n        std::error_code ec;\n        std::filesystem::remove_all(std::filesystem::path(data_root).parent_path(), ec);\n        return false;'),
    ("z-error-grows", "C37", ZS, "    error_ = msg;", "    error_ += msg;"),
    ("z-no-flush", "C36 C09", FS, "    file_.flush();\n", ""),
    ("z-rollover-early", "C36 C06", AW, "    ++append_chunk_index_;", "    if (frames_written_ > 1) { ++append_chunk_index_; }"),
    ("z-destroy-remove", "C36", AW, '    if (!finalize_sink(std::move(writer->metadata_sink_))) {', '    if (writer->frames_written_ == 0) { std::error_code ec; std::filesystem::remove_all(writer->config_.store_path + "/0", ec); }\n    if (!finalize_sink(std::move(writer->metadata_sink_))) {'),
    ("z-retry-index", "C36", AW, "    if (bytes_to_flush_ > 0) {\n        compress_buffers_();\n    }\n    CHECK(flush_impl_());", "    if (bytes_to_flush_ > 0) {\n        compress_buffers_();\n    }\n    if (!flush_impl_()) {\n        append_chunk_index_ -= append_chunk_index_ > 0;\n        throw std::runtime_error(\"Failed to flush\");\n    }"),
    ("z-late-close", "C36", AW, "    if (should_rollover) {\n        rollover_();", "    if (should_rollover && (is_finalizing_ || append_chunk_index_ + 1 < 1u << 31)) {\n        static std::vector<std::unique_ptr<Sink>> late;\n        for (auto& s : late) {\n            finalize_sink(std::move(s));\n        }\n        late.clear();\n        if (!is_finalizing_) {\n            late.swap(data_sinks_);\n        }\n        rollover_();"),
    ("z-jobs-kept", "C37", TP, "            lock.unlock();\n", "            static std::vector<std::string> log;\n            log.emplace_back(\"job\");\n            lock.unlock();\n"),
    ("z-second-connection", "C37", S3, "    auto connection = connection_pool_->get_connection();\n    std::span data(reinterpret_cast<uint8_t*>(part_buffer_.data()),\n                   nbytes_buffered_);\n\n    bool retval", "    static std::vector<std::string> keys;\n    keys.push_back(object_key_);\n    auto connection = connection_pool_->get_connection();\n    std::span data(reinterpret_cast<uint8_t*>(part_buffer_.data()),\n                   nbytes_buffered_);\n\n    bool retval"),
    ("z-failed-kept", "C37", S3, "        LOG_ERROR(\"Failed to upload object: \", object_key_);\n            return false;", "        static std::vector<std::string> failed;\n            failed.push_back(object_key_);\n            return false;"),
]
