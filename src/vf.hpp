// Common parts of the harness: random numbers, reference codec, raw peers,
// watchdog, result reporting.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <sys/socket.h>
#include <unistd.h>

#include "Request.hpp"
#include "Datum.hpp"
#include "values/CreateValue.hpp"
#include "Connection.hpp"
#include "Client.hpp"
#include "Server.hpp"
#include "iol.hpp"

namespace dn = DowowNetwork;

namespace vf {
using std::string;
using std::vector;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) {
        // neighbouring seeds must not give shifted copies of one sequence
        s = seed + 0x632BE59BD9B4E019ull;
        s = (s ^ (s >> 32)) * 0xDABA0B6EB09322E3ull;
        s = (s ^ (s >> 29)) * 0xA24BAED4963EE407ull;
        s ^= s >> 32;
    }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template<class T> const T& pick(const vector<T>& v) { return v[below(v.size())]; }
    string bytes(size_t n) { string r(n, 0); for (auto& c : r) c = (char)next(); return r; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); return r.next(); }
uint64_t fnv(const string& s);

// ------------------------------------------------------------ results
string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
// A violation: key identifies the kind, text is the witness. Thread-safe.
void viol(const string& key, const string& text);
bool violated();
void count(const string& name, uint64_t n = 1);
// One evaluation of the property; hash identifies the case, trivial ones do not count.
void eval(uint64_t hash, bool nontrivial = true);
void sample(const string& s);
void inconclusive(const string& why);
extern uint64_t g_seed;
extern long g_n;
extern string g_dir;                 // private scratch directory
[[noreturn]] void finish(int code);  // print RESULT and leave

// ------------------------------------------------------------ watchdog
// Run f; if it does not return in `secs`, report a hang as violation `key` and end the process.
struct Guard {
    Guard(const char* key, int secs, const string& info = "");
    ~Guard();
    int slot;
};
// a timeout for a wait that is not expected to run out: negative (waits forever) or very long
int endless();
template<class F> auto bounded(const char* key, int secs, F f) -> decltype(f()) {
    Guard g(key, secs);
    return f();
}
// Wait until cond() holds; false when `secs` passed on a machine that kept up.
// When the machine was stalled, waits longer.
bool wait_for(const std::function<bool()>& cond, double secs = 20);
double now();                        // monotonic seconds
void msleep(double ms);
double max_gap_since(double t);      // largest scheduling gap of the watchdog since t

// ------------------------------------------------------------ reference codec
enum { U = 0, I64 = 1, U64 = 2, I32 = 3, U32 = 4, I16 = 5, U16 = 6, U8 = 7, I8 = 8, STR = 9, ARR = 10 };
struct RV {
    int type = U;
    uint64_t num = 0;        // integers, truncated to the width (two's complement)
    string str;              // STR, U
    vector<RV> arr;
    bool operator==(const RV& o) const;
    bool operator!=(const RV& o) const { return !(*this == o); }
};
struct RD { string name; RV val; bool operator==(const RD& o) const { return name == o.name && val == o.val; } };
struct RR {
    uint32_t id = 0; string name; vector<RD> args;
    bool operator==(const RR& o) const { return id == o.id && name == o.name && args == o.args; }
};
int width(int type);                         // bytes of an integer type, 0 for others
string enc(const RV& v);
string enc(const RD& d);
string enc(const RR& r);
// strict reference decoder: 1 accept, 0 reject, -1 unspecified
int dec(const string& b, size_t off, size_t len, RV& v, size_t& used, int depth = 0);
int decd(const string& b, size_t off, size_t len, RD& d, size_t& used);
// request: header accepted or not; args until the first malformed one.
// returns 1 fully valid, 2 valid up to a malformed argument, 0 reject, -1 unspecified
int dec(const string& b, RR& r, size_t& used);
string show(const RV& v, int depth = 0);
string show(const RR& r);
string hex(const string& s, size_t max = 200);

// conversion to and from library objects, through their public interface
dn::Value* build(const RV& v);
dn::Request* build(const RR& r);
RV extract(const dn::Value* v);
RR extract(const dn::Request* r);

// generators
struct Gen {
    size_t max_str = 64, max_arr = 6; int max_depth = 3; size_t max_args = 6; size_t max_name = 24;
    bool undefined = true;
};
RV rand_val(Rng& r, const Gen& g, int depth = 0);
RR rand_req(Rng& r, const Gen& g);
string rand_name(Rng& r, size_t max);
uint64_t rand_int(Rng& r);

// ------------------------------------------------------------ raw sockets of the harness
struct Raw {
    int fd = -1;
    string in;              // bytes read, not yet consumed
    bool eof = false, err = false; int errn = 0;
    explicit Raw(int fd = -1) : fd(fd) {}
    Raw(const Raw&) = delete;
    Raw(Raw&& o) : fd(o.fd), in(std::move(o.in)), eof(o.eof), err(o.err), errn(o.errn) { o.fd = -1; }
    Raw& operator=(Raw&& o) { std::swap(fd, o.fd); std::swap(in, o.in); std::swap(eof, o.eof); std::swap(err, o.err); std::swap(errn, o.errn); return *this; }
    ~Raw() { close(); }
    bool send(const string& s, double secs = 20);     // all of it; false if broken or stuck
    bool send1(const string& s);
    // read what there is within `secs` (at least one byte unless timeout/eof)
    bool read_some(double secs, size_t max = 65536);
    // next complete frame; false on timeout/eof
    bool frame(string& f, double secs = 20);
    // next complete frame that is not a keep-alive
    bool request(RR& r, double secs = 20);
    // wait for end of stream, collecting everything into `in`
    bool wait_eof(double secs = 20);
    void reset();            // close with RST
    void close();
    bool drained();          // the other side has taken everything sent (UNIX)
};
struct Listener {
    int fd = -1; bool tcp; string ip; uint16_t port = 0; string path;
    Listener(bool tcp, int backlog = 64, int rcvbuf = 0);
    ~Listener();
    Raw accept(double secs = 20);
    void close();
};
string spell(Rng& r, const string& ip);      // the same address, written in another way inet_aton() reads
uint16_t any_ip_port();                      // a port that is free on every local address
string my_ip();                              // a loopback address of this process
uint16_t free_port();
string new_path();
Raw raw_connect_tcp(const string& ip, uint16_t port, int rcvbuf = 0);
Raw raw_connect_unix(const string& path);
bool connect_client(dn::Client& c, Listener& l, int timeout = 10);
// a connected pair: one end for the library, one for the harness
void pair(bool tcp, int& lib_fd, Raw& raw, int rcvbuf = 0, int sndbuf = 0);
void pair_fds(bool tcp, int& a, int& b, int rcvbuf = 0, int sndbuf = 0);
// start a server on a free address
bool start(dn::Server& s, bool tcp, string& addr, uint16_t& port);
Raw raw_connect(dn::Server& s, bool tcp, const string& addr, uint16_t port);
bool client_connect(dn::Client& c, bool tcp, const string& addr, uint16_t port, int timeout = 15);

size_t count_fds();
size_t count_tasks();

// ------------------------------------------------------------ scenarios
typedef void (*ScenarioFn)();
struct Scenario { Scenario(const char* name, ScenarioFn f); };
#define SCENARIO(name) static void scn_##name(); static vf::Scenario reg_##name(#name, scn_##name); static void scn_##name()

inline bool is_asan() {
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    return true;
#endif
#endif
    return false;
}
inline bool is_tsan() {
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
    return true;
#endif
#endif
    return false;
}

// random I/O disturbance that a correct library must tolerate
void disturb(Rng& r, bool shorts = true, bool eintr = true, bool delays = true);
}
