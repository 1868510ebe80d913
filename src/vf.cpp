#include "vf.hpp"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/lsan_interface.h>
#endif
#endif
#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <linux/sockios.h>

#include "values/All.hpp"

extern "C" int __llvm_profile_write_file(void) __attribute__((weak));
namespace vf {
uint64_t g_seed = 1;
long g_n = 1;
string g_dir;

uint64_t fnv(const string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}
string fmt(const char* f, ...) {
    char b[4096];
    va_list ap; va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

// ------------------------------------------------------------ results
struct Results {
    std::mutex m;
    vector<std::pair<string, string>> viols;
    std::map<string, uint64_t> counts;
    std::set<uint64_t> distinct;
    uint64_t evals = 0;
    vector<string> samples, incon;
};
static Results& R() { static Results* r = new Results; return *r; }
static std::atomic<bool> any_viol{false};
static int out_fd = 1;
static string g_scenario;

void viol(const string& key, const string& text) {
    any_viol = true;
    std::lock_guard<std::mutex> l(R().m);
    if (R().viols.size() < 20) R().viols.push_back({key, text.substr(0, 3000)});
}
bool violated() { return any_viol; }
void count(const string& n, uint64_t d) { std::lock_guard<std::mutex> l(R().m); R().counts[n] += d; }
void eval(uint64_t h, bool nt) {
    std::lock_guard<std::mutex> l(R().m);
    R().evals++;
    if (nt && R().distinct.size() < 2000000) R().distinct.insert(h);
}
void sample(const string& s) {
    std::lock_guard<std::mutex> l(R().m);
    if (R().samples.size() < 3) R().samples.push_back(s.substr(0, 600));
}
void inconclusive(const string& s) {
    std::lock_guard<std::mutex> l(R().m);
    if (R().incon.size() < 20) R().incon.push_back(s);
}
static string js(const string& s) {
    string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
static void rm_dir() {
    if (g_dir.empty()) return;
    if (DIR* d = opendir(g_dir.c_str())) {
        while (dirent* e = readdir(d))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
                unlink((g_dir + "/" + e->d_name).c_str());
        closedir(d);
    }
    rmdir(g_dir.c_str());
}
void finish(int code) {
    static std::mutex once;
    once.lock();      // never released: one thread reports
    iol::clear_faults();
    string o = "RESULT {\"scenario\":" + js(g_scenario) + ",\"seed\":" + std::to_string(g_seed);
    {
        std::lock_guard<std::mutex> l(R().m);
        o += ",\"evaluations\":" + std::to_string(R().evals);
        o += ",\"hashes\":[";
        // at most some thousands, the driver merges them over runs
        size_t k = 0;
        for (auto h : R().distinct) { if (k >= 20000) break; if (k++) o += ","; o += std::to_string(h & 0xFFFFFFFFFFFFull); }
        o += "],\"distinct\":" + std::to_string(R().distinct.size());
        auto& st = iol::st;
        auto& c = R().counts;
        auto put = [&](const char* n, uint64_t v) { if (v) c[string("io.") + n] += v; };
        put("calls", st.calls); put("short_recv", st.short_recv); put("short_send", st.short_send);
        put("eintr_injected", st.eintr); put("eintr_real", st.real_eintr); put("eagain_injected", st.eagain);
        put("delays", st.delays); put("lock_delays", st.lock_delays); put("accepts", st.accepts);
        put("accept_failures", st.accept_fails); put("fds_opened", st.opened); put("fds_closed", st.closed);
        o += ",\"counts\":{";
        bool first = true;
        for (auto& kv : c) { if (!first) o += ","; first = false; o += js(kv.first) + ":" + std::to_string(kv.second); }
        o += "},\"samples\":[";
        first = true;
        for (auto& s : R().samples) { if (!first) o += ","; first = false; o += js(s); }
        o += "],\"inconclusive\":[";
        first = true;
        for (auto& s : R().incon) { if (!first) o += ","; first = false; o += js(s); }
        o += "],\"violations\":[";
        first = true;
        for (auto& v : R().viols) { if (!first) o += ","; first = false; o += "{\"key\":" + js(v.first) + ",\"text\":" + js(v.second) + "}"; }
        o += "],\"fd_violations\":[";
        first = true;
        for (auto& s : iol::fd_violations()) { if (!first) o += ","; first = false; o += js(s); }
        o += "]}\n";
    }
    size_t off = 0;
    while (off < o.size()) {
        ssize_t w = ::write(out_fd, o.data() + off, o.size() - off);
        if (w < 0 && errno == EINTR) continue;
        if (w <= 0) break;
        off += w;
    }
    rm_dir();
    if (__llvm_profile_write_file) __llvm_profile_write_file();   // tools/coverage.py
    _exit(code);
}

// ------------------------------------------------------------ time, watchdog
double now() {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
void msleep(double ms) {
    double end = now() + ms / 1000;
    while (true) {
        double left = end - now();
        if (left <= 0) return;
        timespec t{(time_t)left, (long)((left - (time_t)left) * 1e9)};
        nanosleep(&t, nullptr);
    }
}
struct WSlot { bool used = false; string key, info; double start = 0, secs = 0, deadline = 0; int ext = 0; };
struct Watch {
    std::mutex m;
    WSlot slots[256];
    vector<std::pair<double, double>> gaps;   // (end time, length)
};
static Watch& W() { static Watch* w = new Watch; return *w; }
double max_gap_since(double t) {
    std::lock_guard<std::mutex> l(W().m);
    double g = 0;
    for (auto& p : W().gaps) if (p.first >= t) g = std::max(g, p.second);
    return g;
}
static void watch_main() {
    sigset_t all; sigfillset(&all); pthread_sigmask(SIG_BLOCK, &all, nullptr);
    double last = now();
    while (true) {
        timespec ts{0, 20000000};
        nanosleep(&ts, nullptr);
        double t = now();
        string key, text; bool fire = false, stalled = false;
        {
            std::lock_guard<std::mutex> l(W().m);
            if (t - last > 0.15) W().gaps.push_back({t, t - last});
            last = t;
            for (auto& s : W().slots) if (s.used && t > s.deadline) {
                double g = 0;
                for (auto& p : W().gaps) if (p.first >= s.start) g = std::max(g, p.second);
                if (g > 1.0 && s.ext < 3) { s.ext++; s.deadline = t + s.secs; s.start = t; continue; }
                fire = true; stalled = g > 1.0;
                key = s.key;
                text = fmt("'%s' did not finish within %.0f s (largest scheduling gap meanwhile %.2f s) %s",
                    s.key.c_str(), s.secs, g, s.info.c_str());
                break;
            }
        }
        if (fire) {
            if (stalled || key == "scenario") inconclusive((stalled ? "stalled: " : "too slow: ") + text);
            else viol("hang:" + key, text);
            finish(3);
        }
    }
}
Guard::Guard(const char* key, int secs, const string& info) {
    std::lock_guard<std::mutex> l(W().m);
    slot = -1;
    for (int i = 0; i < 256; ++i) if (!W().slots[i].used) { slot = i; break; }
    if (slot < 0) return;
    auto& s = W().slots[slot];
    s.used = true; s.key = key; s.info = info; s.start = now(); s.secs = secs; s.deadline = s.start + secs; s.ext = 0;
}
Guard::~Guard() {
    if (slot < 0) return;
    std::lock_guard<std::mutex> l(W().m);
    W().slots[slot].used = false;
}
bool wait_for(const std::function<bool()>& cond, double secs) {
    double t0 = now();
    int k = 0;
    while (!cond()) {
        double el = now() - t0;
        if (el > secs && (max_gap_since(t0) < 1.0 || el > 4 * secs)) return cond();
        msleep(k++ < 50 ? 0.2 : 2);
    }
    return true;
}

// ------------------------------------------------------------ reference codec
int width(int t) {
    switch (t) {
        case I64: case U64: return 8;
        case I32: case U32: return 4;
        case I16: case U16: return 2;
        case U8: case I8: return 1;
    }
    return 0;
}
bool RV::operator==(const RV& o) const {
    return type == o.type && num == o.num && str == o.str && arr == o.arr;
}
static string le(uint64_t v, int n) { string r(n, 0); for (int i = 0; i < n; ++i) r[i] = (char)(v >> (8 * i)); return r; }
static uint64_t rd(const string& b, size_t off, int n) {
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) v |= (uint64_t)(unsigned char)b[off + i] << (8 * i);
    return v;
}
string enc(const RV& v) {
    string c;
    if (width(v.type)) c = le(v.num, width(v.type));
    else if (v.type == STR) c = le(v.str.size(), 4) + v.str;
    else if (v.type == ARR) { c = le(v.arr.size(), 4); for (auto& e : v.arr) c += enc(e); }
    else c = v.str;
    return string(1, (char)v.type) + le(c.size(), 4) + c;
}
string enc(const RD& d) {
    string v = enc(d.val);
    return le(6 + d.name.size() + v.size(), 4) + le(d.name.size(), 2) + d.name + v;
}
string enc(const RR& r) {
    string b = le(r.id, 4) + le(r.name.size(), 2) + r.name;
    for (auto& a : r.args) b += enc(a);
    return le(b.size() + 4, 4) + b;
}
int dec(const string& b, size_t off, size_t len, RV& v, size_t& used, int depth) {
    if (len < 5) return 0;
    v = RV();
    v.type = (unsigned char)b[off];
    size_t cl = rd(b, off + 1, 4);
    if (cl > len - 5) return 0;
    used = cl + 5;
    size_t c = off + 5;
    if (v.type > ARR) return -1;
    if (int w = width(v.type)) {
        if ((int)cl != w) return 0;
        v.num = rd(b, c, w);
        return 1;
    }
    if (v.type == STR) {
        if (cl < 4 || rd(b, c, 4) != cl - 4) return 0;
        v.str = b.substr(c + 4, cl - 4);
        return 1;
    }
    if (v.type == ARR) {
        if (cl < 4) return 0;
        size_t n = rd(b, c, 4), p = 4;
        if (n > (cl - 4) / 5) return 0;
        for (size_t i = 0; i < n; ++i) {
            RV e; size_t u = 0;
            int r = dec(b, c + p, cl - p, e, u, depth + 1);
            if (r != 1) return r;
            p += u;
            v.arr.push_back(std::move(e));
        }
        return p == cl;
    }
    v.str = b.substr(c, cl);
    return 1;
}
int decd(const string& b, size_t off, size_t len, RD& d, size_t& used) {
    if (len < 6) return 0;
    size_t total = rd(b, off, 4), nl = rd(b, off + 4, 2);
    if (total > len || total < 6 + nl + 5) return 0;
    d.name = b.substr(off + 6, nl);
    size_t u = 0;
    int r = dec(b, off + 6 + nl, total - 6 - nl, d.val, u);
    if (r != 1) return r;
    used = total;
    return u == total - 6 - nl ? 1 : -1;
}
int dec(const string& b, RR& r, size_t& used) {
    r = RR();
    if (b.size() < 10) return 0;
    size_t total = rd(b, 0, 4), nl = rd(b, 8, 2);
    if (total > b.size() || total < 10 + nl) return 0;
    r.id = rd(b, 4, 4);
    r.name = b.substr(10, nl);
    size_t i = 10 + nl;
    while (i < total) {
        RD d; size_t u = 0;
        int x = decd(b, i, total - i, d, u);
        if (x == -1) return -1;
        if (x == 0) { used = i; return 2; }
        i += u;
        r.args.push_back(std::move(d));
    }
    used = total;
    return 1;
}
string hex(const string& s, size_t max) {
    string r; char b[4];
    for (size_t i = 0; i < s.size() && i < max; ++i) { snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); r += b; }
    if (s.size() > max) r += fmt("...(%zu bytes)", s.size());
    return r;
}
string show(const RV& v, int depth) {
    if (depth > 6) return "...";
    static const char* n[] = {"undef", "i64", "u64", "i32", "u32", "i16", "u16", "u8", "i8", "str", "arr"};
    string t = v.type <= ARR ? n[v.type] : "?";
    if (width(v.type)) return t + ":" + std::to_string(v.num);
    if (v.type == ARR) {
        string r = fmt("arr[%zu](", v.arr.size());
        for (size_t i = 0; i < v.arr.size() && i < 6; ++i) r += (i ? "," : "") + show(v.arr[i], depth + 1);
        return r + (v.arr.size() > 6 ? ",..)" : ")");
    }
    return t + fmt("[%zu]:", v.str.size()) + hex(v.str, 12);
}
string show(const RR& r) {
    string s = fmt("request id=%u name[%zu]=%s args=%zu{", r.id, r.name.size(), hex(r.name, 16).c_str(), r.args.size());
    for (size_t i = 0; i < r.args.size() && i < 5; ++i) s += (i ? ";" : "") + hex(r.args[i].name, 10) + "=" + show(r.args[i].val);
    return s + "}";
}

dn::Value* build(const RV& v) {
    switch (v.type) {
        case I64: return new dn::Value64S((int64_t)v.num);
        case U64: return new dn::Value64U(v.num);
        case I32: return new dn::Value32S((int32_t)v.num);
        case U32: return new dn::Value32U((uint32_t)v.num);
        case I16: return new dn::Value16S((int16_t)v.num);
        case U16: return new dn::Value16U((uint16_t)v.num);
        case U8: return new dn::Value8U((uint8_t)v.num);
        case I8: return new dn::Value8S((int8_t)v.num);
        case STR: {
            auto* s = new dn::ValueStr();
            s->Set(v.str.data(), v.str.size());
            return s;
        }
        case ARR: {
            auto* a = new dn::ValueArr();
            for (auto& e : v.arr) { dn::Value* x = build(e); a->Push(x); delete x; }
            return a;
        }
    }
    auto* u = new dn::ValueUndefined();
    if (v.str.size()) {
        // raw data can only be set by decoding it
        string b = enc(v);
        u->Deserialize(b.data(), b.size());
    }
    return u;
}
dn::Request* build(const RR& r) {
    auto* q = new dn::Request(r.name);
    q->SetId(r.id);
    for (auto& a : r.args) q->Set(a.name, build(a.val), false);
    return q;
}
template<class T> static uint64_t num(const dn::Value* v, int w) {
    auto* t = dynamic_cast<const T*>(v);
    if (!t) return 0xBADBADBADBADull;
    uint64_t x = (uint64_t)(int64_t)t->Get();
    return w == 8 ? x : x & ((1ull << (8 * w)) - 1);
}
RV extract(const dn::Value* v) {
    RV r;
    if (!v) { r.type = 255; return r; }
    r.type = v->GetType();
    switch (r.type) {
        case I64: r.num = num<dn::Value64S>(v, 8); break;
        case U64: r.num = num<dn::Value64U>(v, 8); break;
        case I32: r.num = num<dn::Value32S>(v, 4); break;
        case U32: r.num = num<dn::Value32U>(v, 4); break;
        case I16: r.num = num<dn::Value16S>(v, 2); break;
        case U16: r.num = num<dn::Value16U>(v, 2); break;
        case U8: r.num = num<dn::Value8U>(v, 1); break;
        case I8: r.num = num<dn::Value8S>(v, 1); break;
        case STR: { auto* s = dynamic_cast<const dn::ValueStr*>(v); if (s) r.str = s->Get(); else r.type = 254; break; }
        case ARR: {
            auto* a = dynamic_cast<const dn::ValueArr*>(v);
            if (!a) { r.type = 254; break; }
            for (uint32_t i = 0; i < a->GetCount(); ++i) r.arr.push_back(extract(a->Get(i)));
            break;
        }
        case U: {
            // there is no getter for raw data
            uint32_t n = v->GetSize();
            const char* b = v->Serialize();
            if (b && n >= 5) r.str.assign(b + 5, n - 5);
            delete[] b;
            break;
        }
    }
    return r;
}
RR extract(const dn::Request* q) {
    RR r;
    r.id = q->GetId(); r.name = q->GetName();
    for (auto* d : q->GetArguments()) r.args.push_back({d->GetName(), extract(d->GetValue())});
    return r;
}

// ------------------------------------------------------------ generators
uint64_t rand_int(Rng& r) {
    switch (r.below(6)) {
        case 0: return r.below(4);
        case 1: return (uint64_t)-1 - r.below(3);
        case 2: return 1ull << r.below(64);
        case 3: return (1ull << r.below(64)) - 1;
        case 4: return ~(1ull << r.below(64));
        default: return r.next();
    }
}
static size_t rand_len(Rng& r, size_t max) {
    static const size_t b[] = {0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512,
        1023, 1024, 1025, 4095, 4096, 8191, 16383, 16384, 65535, 65536, 100000, 1000000};
    if (r.chance(0.5)) {
        for (int k = 0; k < 6; ++k) { size_t x = b[r.below(sizeof b / sizeof *b)]; if (x <= max) return x; }
    }
    return r.below(std::min<size_t>(max, r.chance(0.8) ? 40 : max) + 1);
}
string rand_name(Rng& r, size_t max) {
    size_t n = rand_len(r, max);
    switch (r.below(4)) {
        case 0: return r.bytes(n);
        case 1: { string s(n, 'a'); for (auto& c : s) c = "abcXYZ019_-. \n\0\x80\xff"[r.below(18)]; return s; }
        default: { string s(n, 'a'); for (auto& c : s) c = 'a' + r.below(26); return s; }
    }
}
RV rand_val(Rng& r, const Gen& g, int depth) {
    RV v;
    do v.type = (int)r.below(11); while ((v.type == U && !g.undefined) || (v.type == ARR && depth >= g.max_depth));
    if (int w = width(v.type)) v.num = rand_int(r) & (w == 8 ? ~0ull : (1ull << (8 * w)) - 1);
    else if (v.type == ARR) {
        size_t n = rand_len(r, g.max_arr);
        if (depth && n > 50) n %= 10;
        for (size_t i = 0; i < n; ++i) v.arr.push_back(rand_val(r, g, depth + 1));
    } else {
        size_t m = depth ? std::min<size_t>(g.max_str, 64) : g.max_str;
        v.str = r.bytes(rand_len(r, m));
        if (r.chance(0.3)) for (auto& c : v.str) c = r.chance(0.3) ? 0 : 'A' + (c & 15);
    }
    return v;
}
RR rand_req(Rng& r, const Gen& g) {
    RR q;
    q.id = (uint32_t)rand_int(r);
    q.name = rand_name(r, g.max_name);
    size_t n = rand_len(r, g.max_args);
    std::set<string> seen;
    for (size_t i = 0; i < n; ++i) {
        string nm = rand_name(r, g.max_name);
        if (!seen.insert(nm).second) continue;
        q.args.push_back({nm, rand_val(r, g)});
    }
    return q;
}

// ------------------------------------------------------------ raw sockets
bool Raw::send(const string& s, double secs) {
    size_t off = 0; double end = now() + secs;
    while (off < s.size()) {
        ssize_t w = ::send(fd, s.data() + off, s.size() - off, MSG_NOSIGNAL | MSG_DONTWAIT);
        if (w > 0) { off += w; continue; }
        if (errno == EINTR) continue;
        if (errno != EAGAIN) return false;
        if (now() > end) return false;
        pollfd p{fd, POLLOUT, 0};
        poll(&p, 1, 50);
    }
    return true;
}
bool Raw::send1(const string& s) { return send(s, 5); }
bool Raw::read_some(double secs, size_t max) {
    if (eof || err || fd < 0) return false;
    double end = now() + secs;
    vector<char> b(max);
    while (true) {
        ssize_t n = ::recv(fd, b.data(), max, MSG_DONTWAIT);
        if (n > 0) { in.append(b.data(), n); return true; }
        if (n == 0) { eof = true; return false; }
        if (errno == EINTR) continue;
        if (errno != EAGAIN) { err = true; errn = errno; return false; }
        double left = end - now();
        if (left <= 0) return false;
        pollfd p{fd, POLLIN, 0};
        poll(&p, 1, (int)std::min(200.0, left * 1000 + 1));
    }
}
bool Raw::frame(string& f, double secs) {
    double end = now() + secs;
    while (true) {
        if (in.size() >= 4) {
            size_t n = rd(in, 0, 4);
            if (n < 4) { f = in; return false; }
            if (in.size() >= n) { f = in.substr(0, n); in.erase(0, n); return true; }
        }
        double left = end - now();
        if (!read_some(std::max(0.0, left))) {
            if (eof || err) return false;
            if (left <= 0) return false;
        }
    }
}
bool Raw::request(RR& r, double secs) {
    double end = now() + secs;
    string f;
    while (frame(f, std::max(0.0, end - now()))) {
        size_t u;
        if (dec(f, r, u) != 1) { r = RR(); r.name = "<<undecodable frame " + hex(f, 60) + ">>"; return true; }
        if (r.name == "_") continue;
        return true;
    }
    return false;
}
bool Raw::wait_eof(double secs) {
    double end = now() + secs;
    while (!eof && !err) {
        double left = end - now();
        if (!read_some(std::max(0.0, left)) && left <= 0) break;
    }
    return eof || err;
}
void Raw::reset() {
    if (fd < 0) return;
    linger l{1, 0};
    setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    ::close(fd);
    fd = -1;
}
void Raw::close() { if (fd >= 0) ::close(fd); fd = -1; }
bool Raw::drained() {
    int v = 0;
    return ioctl(fd, SIOCOUTQ, &v) == 0 && v == 0;
}

string my_ip() {
    // 127.0.0.0/8 is all loopback: an address of its own for each process
    unsigned p = (unsigned)getpid();
    return fmt("127.%u.%u.%u", 1 + (p >> 14) % 200, 1 + (p >> 7) % 128, 1 + p % 128);
}
uint16_t free_port() {
    static std::atomic<unsigned> k{0};
    for (int i = 0; i < 200; ++i) {
        uint16_t port = 1024 + (mix(g_seed, getpid()) % 64000 + 20011ull * k++) % 64000;   // all over the range
        int s = socket(AF_INET, SOCK_STREAM, 0);
        int one = 1;
        setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port);
        inet_aton(my_ip().c_str(), &a.sin_addr);
        int r = bind(s, (sockaddr*)&a, sizeof a);
        ::close(s);
        if (r == 0) return port;
    }
    return 0;
}
string spell(Rng& r, const string& ip) {
    in_addr a{}; inet_aton(ip.c_str(), &a);
    unsigned v = ntohl(a.s_addr), b = v >> 24, c = v >> 16 & 255, d = v >> 8 & 255, e = v & 255;
    switch (r.below(6)) {
        case 0: return fmt("%u.%u.%u", b, c, v & 0xffff);
        case 1: return fmt("%u.%u", b, v & 0xffffff);
        case 2: return fmt("%u", v);
        case 3: return fmt("0x%x", v);
        case 4: return fmt("0x%02X.%u.0%o.%u", b, c, d, e);
        default: return fmt("%u.%u.%u.%u", b, c, d, e);
    }
}
uint16_t any_ip_port() {
    static unsigned k = 0;
    for (int i = 0; i < 512; ++i) {
        uint16_t port = 65024 + (getpid() * 7u + k++) % 511;      // free_port() gives none of these
        int s = socket(AF_INET, SOCK_STREAM, 0);
        int one = 1;
        setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port);
        int rc = bind(s, (sockaddr*)&a, sizeof a);
        ::close(s);
        if (rc == 0) return port;
    }
    return 0;
}
string new_path() {
    static std::atomic<int> k{0};
    return g_dir + "/s" + std::to_string(k++);
}
Listener::Listener(bool tcp, int backlog, int rcvbuf) : tcp(tcp) {
    fd = socket(tcp ? AF_INET : AF_UNIX, SOCK_STREAM, 0);
    if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    if (tcp) {
        int one = 1;
        setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        ip = my_ip(); port = free_port();
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port);
        inet_aton(ip.c_str(), &a.sin_addr);
        if (bind(fd, (sockaddr*)&a, sizeof a)) perror("bind");
    } else {
        path = new_path();
        sockaddr_un a{}; a.sun_family = AF_UNIX; strcpy(a.sun_path, path.c_str());
        if (bind(fd, (sockaddr*)&a, sizeof a)) perror("bind");
    }
    if (listen(fd, backlog)) perror("listen");
}
void Listener::close() {
    if (fd >= 0) ::close(fd);
    fd = -1;
    if (!tcp) unlink(path.c_str());
}
Listener::~Listener() { close(); }
Raw Listener::accept(double secs) {
    double end = now() + secs;
    while (true) {
        pollfd p{fd, POLLIN, 0};
        int left = (int)((end - now()) * 1000);
        if (left < 0) return Raw();
        int r = poll(&p, 1, left);
        if (r < 0) continue;
        if (r == 0) return Raw();
        int c = ::accept(fd, nullptr, nullptr);
        if (c >= 0) return Raw(c);
    }
}
Raw raw_connect_tcp(const string& ip, uint16_t port, int rcvbuf) {
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port);
    inet_aton(ip.c_str(), &a.sin_addr);
    int r;
    do r = connect(fd, (sockaddr*)&a, sizeof a); while (r == -1 && errno == EINTR);
    if (r) { ::close(fd); return Raw(); }
    int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    return Raw(fd);
}
Raw raw_connect_unix(const string& path) {
    int fd = socket(AF_UNIX, SOCK_STREAM, 0);
    sockaddr_un a{}; a.sun_family = AF_UNIX; strcpy(a.sun_path, path.c_str());
    int r;
    do r = connect(fd, (sockaddr*)&a, sizeof a); while (r == -1 && errno == EINTR);
    if (r) { ::close(fd); return Raw(); }
    return Raw(fd);
}
int endless() {
    // (some of the long ones are short when multiplied into 32 bits or cut)
    static const int v[] = {-1, -1, -1, -1, -2, -1000, INT_MIN, 100, 256, 3600, 4295, 8590, 65536, 4294968, 12884902, 21474837, INT_MAX, INT_MAX};
    static std::atomic<uint64_t> k{0};
    return v[mix(g_seed, ++k) % (sizeof v / sizeof *v)];
}
bool connect_client(dn::Client& c, Listener& l, int timeout) {
    return l.tcp ? c.ConnectTcp(l.ip, l.port, timeout) : c.ConnectUnix(l.path, timeout);
}
void pair_fds(bool tcp, int& a, int& b, int rcvbuf, int sndbuf) {
    if (tcp) {
        Listener l(true, 8, rcvbuf);
        Raw x = raw_connect_tcp(l.ip, l.port, rcvbuf);
        Raw y = l.accept();
        int one = 1;
        setsockopt(y.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        a = x.fd; b = y.fd;
        x.fd = y.fd = -1;
    } else {
        int v[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, v)) perror("socketpair");
        a = v[0]; b = v[1];
    }
    if (sndbuf) {
        setsockopt(a, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
        setsockopt(b, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
    }
}
void pair(bool tcp, int& lib_fd, Raw& raw, int rcvbuf, int sndbuf) {
    int a, b;
    pair_fds(tcp, a, b, rcvbuf, sndbuf);
    lib_fd = iol::hand_over(a);
    raw = Raw(b);
}
bool start(dn::Server& s, bool tcp, string& addr, uint16_t& port) {
    for (int i = 0; i < 20; ++i) {
        if (tcp) {
            addr = my_ip(); port = free_port();
            if (s.StartTcp(addr, port)) return true;
        } else {
            addr = new_path(); port = 0;
            if (s.StartUnix(addr)) return true;
        }
    }
    return false;
}
Raw raw_connect(dn::Server&, bool tcp, const string& addr, uint16_t port) {
    return tcp ? raw_connect_tcp(addr, port) : raw_connect_unix(addr);
}
bool client_connect(dn::Client& c, bool tcp, const string& addr, uint16_t port, int timeout) {
    return tcp ? c.ConnectTcp(addr, port, timeout) : c.ConnectUnix(addr, timeout);
}
static size_t count_dir(const char* p) {
    size_t n = 0;
    DIR* d = opendir(p);
    if (!d) return 0;
    while (dirent* e = readdir(d)) n += e->d_name[0] != '.';
    closedir(d);
    return n;
}
size_t count_fds() { return count_dir("/proc/self/fd"); }
size_t count_tasks() { return count_dir("/proc/self/task"); }

void disturb(Rng& r, bool shorts, bool eintr, bool delays) {
    iol::clear_faults();
    if (shorts && r.chance(0.6)) { iol::cfg.short_recv = r.below(20000); iol::cfg.short_send = r.below(20000); }
    if (shorts && r.chance(0.3)) iol::cfg.eagain_send = r.below(8000);
    if (eintr && r.chance(0.5)) iol::cfg.eintr_poll = r.below(12000);
    if (delays && r.chance(0.7)) {
        iol::cfg.delay = r.below(3000);
        iol::cfg.delay_lock = r.below(2500);
        iol::cfg.delay_us = r.chance(0.3) ? 1500 : 150;
    }
}

// ------------------------------------------------------------ main
static std::map<string, ScenarioFn>& table() { static auto* t = new std::map<string, ScenarioFn>; return *t; }
Scenario::Scenario(const char* n, ScenarioFn f) { table()[n] = f; }
}

int main(int argc, char** argv) {
    using namespace vf;
    string scn;
    int limit = 150, rest = 0;
    for (int i = 1; i + 1 < argc; i += 2) {
        string a = argv[i];
        if (a == "--scenario") scn = argv[i + 1];
        else if (a == "--seed") g_seed = strtoull(argv[i + 1], nullptr, 10);
        else if (a == "--n") g_n = atol(argv[i + 1]);
        else if (a == "--limit") limit = atoi(argv[i + 1]);
        else if (a == "--rest") rest = atoi(argv[i + 1]);
    }
    if (scn.empty()) { for (auto& t : table()) printf("%s\n", t.first.c_str()); return 0; }
    if (!table().count(scn)) { fprintf(stderr, "no scenario %s\n", scn.c_str()); return 4; }
    g_scenario = scn;
    out_fd = dup(1);
    signal(SIGPIPE, SIG_DFL);
    char tmpl[] = "/tmp/vfXXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 4; }
    g_dir = tmpl;
    iol::seed(g_seed);
    std::thread(watch_main).detach();
    Guard overall("scenario", limit);
    table()[scn]();
    // everything was destroyed: nothing that the library opened is open anymore
    if (rest && !violated()) {
        iol::clear_faults();
        if (!wait_for([] { return !iol::open_count(); }, 15)) {
            string what; for (auto& k : iol::open_fds()) if (what.size() < 300) what += k + " ";
            viol("r01:descriptors-left", fmt("the library holds %zu descriptors after all its objects were destroyed: ", iol::open_count()) + what);
        }
        // nor is any memory lost
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
        if (!violated() && __lsan_do_recoverable_leak_check()) viol("leak:r01", "LeakSanitizer found leaked memory, see the log");
#endif
#endif
    }
    finish(violated() ? 1 : 0);
}
