"""Mutants of the Python binding."""
PY = "python/acquire-zarr-py.cpp"
M = [
    ("y-repr", "C35", PY, "secret_access_key_.size() < 6", "secret_access_key_.size() < 8"),
    ("y-substr", "C35", PY, "secret_access_key_.substr(0, 5)", "secret_access_key_.substr(0, 6)"),
    ("y-swap", "C35", PY, "s3_access_key_id_ = s3.access_key_id();", "s3_access_key_id_ = s3.secret_access_key();"),
    ("y-dangling", "C35", PY, "                .name = dimension_names_[i].c_str(),", "                .name = dim.name().c_str(),"),
    ("y-names-grow", "C35", PY, "        dimension_names_.resize(dims.size());\n", ""),
    ("y-names-push", "C35", PY, "        dimension_names_.resize(dims.size());\n\n        std::vector<ZarrDimensionProperties> dimension_props;\n        for (auto i = 0; i < dims.size(); ++i) {\n            const auto& dim = dims[i];\n            dimension_names_[i] = dim.name();", "        std::vector<ZarrDimensionProperties> dimension_props;\n        for (auto i = 0; i < dims.size(); ++i) {\n            const auto& dim = dims[i];\n            dimension_names_.push_back(dim.name());"),
    ("y-count", "C35", PY, "        stream_settings.dimension_count = dims.size();", "        stream_settings.dimension_count = static_cast<uint8_t>(dims.size()) & 3;"),
    ("y-opaque", "C35", PY, "PYBIND11_MAKE_OPAQUE(std::vector<PyZarrDimensionProperties>);\n", ""),
    ("y-level8", "C35", PY, 'settings.set_level(kwargs["level"].cast<uint8_t>());', 'settings.set_level(kwargs["level"].cast<int>());'),
    ("y-size16", "C35", PY, "    void set_chunk_size_px(uint32_t size)", "    void set_chunk_size_px(uint16_t size)"),
    ("y-codec", "C35", PY, "      .value(compression_codec_to_str(ZarrCompressionCodec_BloscZstd),\n             ZarrCompressionCodec_BloscZstd);", "      .value(compression_codec_to_str(ZarrCompressionCodec_BloscZstd),\n             ZarrCompressionCodec_BloscLZ4);"),
    ("y-string", "C35", PY, '            return "INT16";', '            return "INT_16";'),
    ("y-null", "C35", PY, "        if (!stream_) {", "        if (!stream_ && settings.dimensions.empty()) {"),
    ("y-metadata", "C35", PY, "        if (settings.custom_metadata()) {", "        if (settings.custom_metadata() && !settings.custom_metadata()->empty()) {"),
    ("y-none", "C35", PY, "                self.set_compression(std::nullopt);", "                self.set_compression(PyZarrCompressionSettings());"),
    ("y-deleter", "C35", PY, "    if (stream) {\n        ZarrStream_destroy(stream);", "    if (!stream) {\n        ZarrStream_destroy(stream);"),
    ("y-s3-scope", "C35", PY, "            s3_bucket_name_ = s3.bucket_name();\n            s3_settings.bucket_name = s3_bucket_name_.c_str();", "            const std::string bucket = s3.bucket_name();\n            s3_settings.bucket_name = bucket.c_str();"),
    ("y-version", "C35", PY, "            .version = settings.version(),", "            .version = ZarrVersion_2,"),
    ("y-attr", "C35", PY, '                    &PyZarrDimensionProperties::shard_size_chunks,\n                    &PyZarrDimensionProperties::set_shard_size_chunks);', '                    &PyZarrDimensionProperties::shard_size_chunks,\n                    &PyZarrDimensionProperties::set_chunk_size_px);'),
    ("y-kwarg", "C35", PY, 'if (kwargs.contains("multiscale"))', 'if (kwargs.contains("multi_scale"))'),
    ("y-loglevel", "C35", PY, "          if (status != ZarrStatusCode_Success) {\n              std::string err = \"Failed to set log level", "          if (status == ZarrStatusCode_InvalidArgument) {\n              std::string err = \"Failed to set log level"),
    ("y-fstyle", "C29", PY, "py::array::c_style);", "py::array::f_style);"),
    ("y-itemsize", "C29", PY, "buf.itemsize * buf.size;", "buf.size;"),
    ("y-status", "C29", PY, "        if (status != ZarrStatusCode_Success) {\n            std::string err = \"Failed to append", "        if (status == ZarrStatusCode_InternalError) {\n            std::string err = \"Failed to append"),
    ("y-short", "C29", PY, "        if (bytes_out < bytes_in) {", "        if (bytes_out == 0 && bytes_in) {"),
    ("y-shape0", "C29", PY, "buf.itemsize * buf.size;", "buf.shape[0] * buf.strides[0];"),
    ("y-base", "C29", PY, "        auto* ptr = (uint8_t*)buf.ptr;", "        auto* ptr = (uint8_t*)image_data.request().ptr;"),
    ("y-fast", "C29", PY, "        auto contiguous = py::array::ensure(image_data, py::array::c_style);", "        auto contiguous = image_data.strides(image_data.ndim() - 1) == image_data.itemsize() ? image_data : py::array::ensure(image_data, py::array::c_style);"),
]
