// Fake minio-cpp client over vps3's object store.
#pragma once
#include "types.h"
#include "utils.h"
#include <cstring>
#include <istream>
#include <list>
#include <memory>
#include <string>
#include <string_view>
#include <vps3.hpp>
#include "vp.h"

namespace minio {
namespace creds {
class Provider
{
  public:
    virtual ~Provider() = default;
};
class StaticProvider : public Provider
{
  public:
    std::string k, s;
    StaticProvider(std::string a, std::string b, std::string = {}) : k(std::move(a)), s(std::move(b)) {}
};
}
namespace s3 {
struct BaseUrl
{
    bool https = true;
    std::string host;
    BaseUrl() = default;
    explicit BaseUrl(std::string h, bool https = true, std::string = {}) : https(https), host(std::move(h)) {}
};
struct BucketArgs { std::string bucket, region; };
struct ObjectArgs : BucketArgs { std::string object; };
typedef BucketArgs BucketExistsArgs;
typedef ObjectArgs StatObjectArgs;
typedef ObjectArgs RemoveObjectArgs;
typedef ObjectArgs CreateMultipartUploadArgs;
struct PutObjectArgs : ObjectArgs
{
    std::istream& stream;
    long object_size, part_size;
    PutObjectArgs(std::istream& s, long n, long p) : stream(s), object_size(n), part_size(p) {}
};
struct UploadPartArgs : ObjectArgs
{
    std::string upload_id;
    unsigned int part_number = 0;
    std::string_view data;
};
struct CompleteMultipartUploadArgs : ObjectArgs
{
    std::string upload_id;
    std::list<Part> parts;
};
struct ListBucketsResponse : Response {};
struct BucketExistsResponse : Response { bool exist = false; };
struct StatObjectResponse : Response { std::string etag; };
struct RemoveObjectResponse : Response {};
struct PutObjectResponse : Response { std::string etag; };
struct CreateMultipartUploadResponse : Response { std::string upload_id; };
struct UploadPartResponse : Response { std::string etag; };
struct CompleteMultipartUploadResponse : Response { std::string etag; };

class Client
{
  public:
    Client(BaseUrl url, creds::Provider* p = nullptr) : url_(std::move(url)), p_(p)
    {
        vpenv::Guard g;
        ++vps3::clients;
        ++vps3::live_clients;
    }
    Client(const Client&) = delete;
    ~Client()
    {
        vpenv::Guard g;
        --vps3::live_clients;
    }
    ListBucketsResponse ListBuckets()
    {
        Use u(*this);
        ListBucketsResponse r;
        if (!vps3::reachable || vpenv::fault(vpenv::F_S3)) {
            fail(r);
            ++vps3::invalid_connections;
        }
        return r;
    }
    BucketExistsResponse BucketExists(BucketExistsArgs a)
    {
        Use u(*this);
        BucketExistsResponse r;
        if (a.bucket.empty() || vpenv::fault(vpenv::F_S3)) fail(r);
        else r.exist = vps3::has_bucket(a.bucket);
        return r;
    }
    StatObjectResponse StatObject(StatObjectArgs a)
    {
        Use u(*this);
        StatObjectResponse r;
        if (vpenv::fault(vpenv::F_S3) || !vps3::find(a.bucket, a.object)) fail(r);
        return r;
    }
    RemoveObjectResponse RemoveObject(RemoveObjectArgs a)
    {
        Use u(*this);
        RemoveObjectResponse r;
        if (vpenv::fault(vpenv::F_S3)) fail(r);
        return r;
    }
    PutObjectResponse PutObject(PutObjectArgs a)
    {
        std::string data(a.object_size, '\0');
        std::streamsize n = a.stream.rdbuf()->sgetn(data.data(), a.object_size);
        Use u(*this);
        PutObjectResponse r;
        if (n != a.object_size || a.bucket.empty() || a.object.empty() || !vps3::has_bucket(a.bucket) || vpenv::fault(vpenv::F_S3)) {
            fail(r);
            return r;
        }
        r.etag = "etag-put";
        if (vpenv::lost()) return r;
        vps3::Object* o = object(a.bucket, a.object);
        o->data.assign(data);
        o->puts++;
        return r;
    }
    CreateMultipartUploadResponse CreateMultipartUpload(CreateMultipartUploadArgs a)
    {
        Use u(*this);
        CreateMultipartUploadResponse r;
        if (a.bucket.empty() || a.object.empty() || !vps3::has_bucket(a.bucket) || vpenv::fault(vpenv::F_S3)) {
            fail(r);
            return r;
        }
        auto* up = new vps3::Upload;
        up->bucket = a.bucket;
        up->key = a.object;
        up->id = "upload-";
        up->id += (char)('A' + vps3::uploads.size());
        vps3::uploads.push_back(up);
        r.upload_id = up->id;
        return r;
    }
    UploadPartResponse UploadPart(UploadPartArgs a)
    {
        std::string data(a.data);
        Use u(*this);
        UploadPartResponse r;
        vps3::Upload* up = vps3::upload(a.upload_id);
        if (!up || up->bucket != a.bucket || up->key != a.object || up->completes || a.part_number < 1 || a.part_number > 10000 || vpenv::fault(vpenv::F_S3)) {
            fail(r);
            return r;
        }
        vps3::UpPart p;
        p.number = a.part_number;
        p.etag = "etag-";
        p.etag += (char)('a' + up->parts.size());
        p.data = std::move(data);
        up->parts.push_back(p);
        r.etag = p.etag;
        return r;
    }
    CompleteMultipartUploadResponse CompleteMultipartUpload(CompleteMultipartUploadArgs a)
    {
        Use u(*this);
        CompleteMultipartUploadResponse r;
        vps3::Upload* up = vps3::upload(a.upload_id);
        if (!up || up->bucket != a.bucket || up->key != a.object || up->completes || a.parts.empty() || vpenv::fault(vpenv::F_S3)) {
            fail(r);
            return r;
        }
        // the object consists of the listed parts, in ascending order of number;
        // for each number the last upload with that etag
        std::string data;
        unsigned last = 0;
        for (auto& p : a.parts) {
            const vps3::UpPart* q = nullptr;
            for (auto& x : up->parts)
                if (x.number == p.number && x.etag == p.etag) q = &x;
            if (!q || p.number <= last) {
                fail(r);
                return r;
            }
            last = p.number;
            data += q->data;
        }
        up->completes++;
        r.etag = "etag-complete";
        if (vpenv::lost()) return r;
        vps3::Object* o = object(a.bucket, a.object);
        o->data = std::move(data);
        o->completes++;
        return r;
    }

  private:
    struct Use // one request: two at the same time on one client would be misuse
    {
        vpenv::Guard g;
        Use(Client& c)
        {
            vpenv_leave_touch(c);
            ++vps3::requests;
        }
        static void vpenv_leave_touch(Client& c)
        {
            vp_env_leave();
            ++c.used_;
            const auto* p = dynamic_cast<const creds::StaticProvider*>(c.p_); // read on every request
            const bool known = vps3::expected.empty() || (p && c.url_.host + " " + (c.url_.https ? "https" : "http") + " " + p->k + " " + p->s == vps3::expected);
            vp_env_enter();
            vps3::strangers += !known;
        }
    };
    template<class R> static void fail(R& r) { r.status_code = 500; r.err = "request failed"; }
    static vps3::Object* object(const std::string& b, const std::string& k)
    {
        vps3::Object* o = vps3::find(b, k);
        if (!o) {
            o = new vps3::Object;
            o->bucket = b;
            o->key = k;
            vps3::objects.push_back(o);
        }
        return o;
    }
    BaseUrl url_;
    creds::Provider* p_;
    unsigned used_ = 0;
};
}
}
