// Shared by the connection and server scenarios.
#pragma once
#include "vf.hpp"
#include "values/All.hpp"
#include <algorithm>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/lsan_interface.h>
#endif
#endif
namespace sc {
using namespace vf;
using dn::Connection; using dn::Client; using dn::Server; using dn::Request; using dn::SafeConnection;
typedef std::unique_ptr<Request> RP;

// what a connection of the library delivered
struct Sink {
    std::mutex m;
    vector<RR> got;
    std::atomic<size_t> n{0};
    std::function<void(Connection*, Request*, const RR&)> fn;
    void add(RR q) { std::lock_guard<std::mutex> l(m); got.push_back(std::move(q)); n++; }
    vector<RR> all() { std::lock_guard<std::mutex> l(m); return got; }
};
// handlers are plain functions: find the data of a connection here
template<class T> struct Reg {
    std::mutex m; std::map<Connection*, T*> t;
    void set(Connection* c, T* x) { std::lock_guard<std::mutex> l(m); if (x) t[c] = x; else t.erase(c); }
    T* get(Connection* c) { std::lock_guard<std::mutex> l(m); auto i = t.find(c); return i == t.end() ? nullptr : i->second; }
};
inline Reg<Sink>& sinks() { static auto* r = new Reg<Sink>; return *r; }
inline void h_sink(Connection* c, Request* r) {
    RP own(r);
    Sink* s = sinks().get(c);
    if (!s) { viol("harness:no-sink", "a handler was called with an unknown connection"); return; }
    RR q = extract(r);
    if (s->fn) s->fn(c, r, q);
    s->add(std::move(q));
}
// wait until n reaches target; gives up when nothing happened for `secs`
inline bool progress(std::atomic<size_t>& n, size_t target, double secs = 20) {
    while (n < target) {
        size_t before = n;
        if (!wait_for([&] { return n > before; }, secs)) return n >= target;
    }
    return true;
}
inline RR simple(const string& name, uint32_t num, size_t pad = 0, uint32_t id = 0) {
    RR q; q.name = name; q.id = id;
    RD d; d.name = "k"; d.val.type = U32; d.val.num = num; q.args.push_back(d);
    if (pad) { RD p; p.name = "pad"; p.val.type = STR; p.val.str = string(pad, (char)('a' + num % 26)); q.args.push_back(p); }
    return q;
}
inline uint64_t argnum(const RR& q, const string& name, uint64_t def = ~0ull) {
    for (auto& a : q.args) if (a.name == name) return a.val.num;
    return def;
}
inline void push(Connection* c, const RR& q, bool change = false) { c->Push(build(q), false, 0, change); }
inline void leak_check(const char* key) {
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    if (__lsan_do_recoverable_leak_check()) viol(string("leak:") + key, "LeakSanitizer found leaked memory, see the log");
#endif
#endif
}
// the complete requests in a stream of bytes, without keep-alives; rest: what follows them
vector<RR> frames_of(const string& in, string& rest);
// a library connection and a raw peer
struct LibRaw {
    std::unique_ptr<Connection> c; Raw raw; Sink sink; int fd;
    LibRaw(bool tcp, int rcvbuf = 0, int sndbuf = 0) {
        pair(tcp, fd, raw, rcvbuf, sndbuf);
        c.reset(new Connection(fd));
        sinks().set(c.get(), &sink);
    }
    void handle() { c->SetHandlerDefault(h_sink); }
    void destroy() { if (c) { Connection* p = c.get(); bounded("destroy", 20, [&] { c.reset(); }); sinks().set(p, nullptr); } }
    ~LibRaw() { destroy(); }
};
// a client and the connection a server made for it; the server greets the client with "hello"
struct ServerHub {
    Server s; string addr; uint16_t port = 0; bool tcp;
    std::mutex m;
    std::function<void(Connection*)> on_connect, on_disconnect;
    ServerHub(bool tcp);
    ~ServerHub();
    bool connect(Client& c) { return client_connect(c, tcp, addr, port); }
    Raw raw() { return raw_connect(s, tcp, addr, port); }
};
ServerHub* hub_of(Server* s);
// wait for the greeting on the client; false if it does not come
bool greeted(Connection& c);
bool greeted(Raw& r);
}
