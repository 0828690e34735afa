// The object store behind the fake miniocpp client.
#pragma once
#include <string>
#include <vector>
#include <vpenv.hpp>
namespace vps3 {
struct Object
{
    std::string bucket, key;
    std::string data;
    unsigned puts = 0, completes = 0;
};
struct UpPart
{
    unsigned number;
    std::string etag;
    std::string data;
};
struct Upload
{
    std::string id, bucket, key;
    std::vector<UpPart> parts;
    unsigned completes = 0;
};
extern std::vector<std::string> buckets;
extern std::vector<Object*> objects;
extern std::vector<Upload*> uploads;
extern unsigned clients, live_clients, requests, invalid_connections;
extern bool reachable;
extern std::string expected; // "endpoint https|http key secret" every request should come with, if set
extern unsigned strangers;   // requests that did not
bool has_bucket(const std::string& b);
Object* find(const std::string& b, const std::string& k);
Upload* upload(const std::string& id);
void reset();
}
