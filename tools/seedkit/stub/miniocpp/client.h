#pragma once
#include "types.h"
#include "utils.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <istream>
#include <list>
#include <memory>
#include <string>
#include <string_view>
namespace minio {
namespace creds {
class Provider
{
  public:
    virtual ~Provider() = default;
};
class StaticProvider : public Provider
{
  public:
    StaticProvider(std::string, std::string, std::string = {}) {}
};
}
namespace s3 {
struct BaseUrl
{
    bool https = true;
    std::string host;
    BaseUrl() = default;
    explicit BaseUrl(std::string h, bool https = true, std::string = {}) : https(https), host(std::move(h)) {}
};
struct BucketArgs { std::string bucket, region; };
struct ObjectArgs : BucketArgs { std::string object; };
typedef BucketArgs BucketExistsArgs;
typedef ObjectArgs StatObjectArgs;
typedef ObjectArgs RemoveObjectArgs;
typedef ObjectArgs CreateMultipartUploadArgs;
struct PutObjectArgs : ObjectArgs
{
    std::istream& stream;
    long object_size;
    PutObjectArgs(std::istream& s, long n, long) : stream(s), object_size(n) {}
};
struct UploadPartArgs : ObjectArgs
{
    std::string upload_id;
    unsigned int part_number = 0;
    std::string_view data;
};
struct CompleteMultipartUploadArgs : ObjectArgs
{
    std::string upload_id;
    std::list<Part> parts;
};
struct ListBucketsResponse : Response {};
struct BucketExistsResponse : Response { bool exist = false; };
struct StatObjectResponse : Response { std::string etag; };
struct RemoveObjectResponse : Response {};
struct PutObjectResponse : Response { std::string etag; };
struct CreateMultipartUploadResponse : Response { std::string upload_id; };
struct UploadPartResponse : Response { std::string etag; };
struct CompleteMultipartUploadResponse : Response { std::string etag; };
class Client
{
    template<class R> static R bad(R r) { r.status_code = 500; r.err = "request failed"; return r; }
    typedef std::lock_guard<std::recursive_mutex> L;
  public:
    Client(BaseUrl, creds::Provider* = nullptr) {}
    Client(const Client&) = delete;
    ListBucketsResponse ListBuckets()
    {
        L l(demo::mx);
        ListBucketsResponse r;
        return demo::fail_list ? bad(r) : r;
    }
    BucketExistsResponse BucketExists(BucketExistsArgs a)
    {
        L l(demo::mx);
        BucketExistsResponse r;
        r.exist = a.bucket == demo::bucket;
        return r;
    }
    StatObjectResponse StatObject(StatObjectArgs a)
    {
        L l(demo::mx);
        StatObjectResponse r;
        return demo::objects.count(a.bucket + "/" + a.object) ? r : bad(r);
    }
    RemoveObjectResponse RemoveObject(RemoveObjectArgs a)
    {
        L l(demo::mx);
        demo::objects.erase(a.bucket + "/" + a.object);
        return {};
    }
    PutObjectResponse PutObject(PutObjectArgs a)
    {
        L l(demo::mx);
        PutObjectResponse r;
        if (demo::fail_put) return bad(r);
        std::string data(a.object_size, '\0');
        a.stream.read(data.data(), a.object_size);
        demo::objects[a.bucket + "/" + a.object] = data;
        r.etag = "etag";
        return r;
    }
    CreateMultipartUploadResponse CreateMultipartUpload(CreateMultipartUploadArgs a)
    {
        L l(demo::mx);
        CreateMultipartUploadResponse r;
        if (demo::fail_create) return bad(r);
        r.upload_id = "upload" + std::to_string(demo::uploads.size());
        demo::uploads[r.upload_id];
        return r;
    }
    UploadPartResponse UploadPart(UploadPartArgs a)
    {
        L l(demo::mx);
        UploadPartResponse r;
        if (demo::fail_part) return bad(r);
        demo::uploads[a.upload_id][a.part_number] = a.data;
        r.etag = "etag" + std::to_string(a.part_number);
        return r;
    }
    CompleteMultipartUploadResponse CompleteMultipartUpload(CompleteMultipartUploadArgs a)
    {
        L l(demo::mx);
        CompleteMultipartUploadResponse r;
        if (demo::fail_complete) return bad(r);
        std::string data;
        for (auto& p : a.parts) data += demo::uploads[a.upload_id][p.number];
        demo::objects[a.bucket + "/" + a.object] = data;
        return r;
    }
};
}
}
