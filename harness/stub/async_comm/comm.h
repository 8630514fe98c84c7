// Stand-in for the async_comm library (not available offline): records what is sent, calls nothing by itself.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>
namespace async_comm
{
class CommListener
{
 public:
    virtual ~CommListener() {}
    virtual void receive_callback(const uint8_t* buf, size_t size) = 0;
};
class Comm
{
 public:
    virtual ~Comm() {}
    bool init() { return true; }
    void close() {}
    void send_bytes(const uint8_t* src, size_t len) { for (size_t i = 0; i < len; ++i) sent.push_back(src[i]); if (on_send) on_send(); }
    void send_byte(uint8_t data) { sent.push_back(data); if (on_send) on_send(); }
    void register_receive_callback(std::function<void(const uint8_t*, size_t)> f) { cb = f; }
    void register_listener(CommListener& l) { listener = &l; }
    std::vector<uint8_t> sent;
    std::function<void()> on_send;
    std::function<void(const uint8_t*, size_t)> cb;
    CommListener* listener = nullptr;
};
}  // namespace async_comm
