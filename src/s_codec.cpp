// C01-C06: encoding, decoding, copies, containers.
#include "vf.hpp"
#include <algorithm>
#include <new>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#include <sanitizer/lsan_interface.h>
#endif
#endif
using namespace vf;
using namespace DowowNetwork;
typedef std::unique_ptr<Value> VP;
typedef std::unique_ptr<Request> RP;

// exact-length heap copy, so that any overrun hits a red zone
struct Exact {
    char* p; size_t n;
    explicit Exact(const string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
    ~Exact() { delete[] p; }
};
static void leak_check(const char* key) {
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    if (__lsan_do_recoverable_leak_check()) viol(string("leak:") + key, "LeakSanitizer found leaked memory, see the log");
#endif
#endif
}
static size_t buf_size(const void* p, size_t n) {
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    return __sanitizer_get_allocated_size(p);
#endif
#endif
    return n;
}
static int depth(const RV& v) { int d = 0; for (auto& e : v.arr) d = std::max(d, depth(e)); return d + 1; }
static RV nest(Rng& r, int levels) {
    RV v; v.type = STR; v.str = r.bytes(r.below(5));
    for (int i = 0; i < levels; ++i) { RV a; a.type = ARR; a.arr.push_back(std::move(v)); if (r.chance(0.2)) { RV x; x.type = U16; x.num = r.below(65536); a.arr.push_back(x); } v = std::move(a); }
    return v;
}
static bool nontrivial(const RV& v) { return v.type == ARR || v.str.size() || v.num; }
static Gen big(Rng& r, long i) {
    Gen g;
    if (i % 10 == 0) { g.max_str = 70000; g.max_name = 65535; g.max_args = 3; }
    else if (i % 10 == 1) { g.max_args = 300; g.max_str = 20; g.max_arr = 3; }
    else if (i % 10 == 2) { g.max_arr = 1000; g.max_args = 3; g.max_depth = 2; }
    else if (i % 10 == 3) { g.max_depth = 8; g.max_arr = 4; g.max_args = 4; }
    return g;
}
// integers of every width, every single bit, minima and maxima
static vector<RV> edge_ints() {
    vector<RV> v;
    for (int t = I64; t <= I8; ++t) {
        int w = width(t) * 8;
        uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
        vector<uint64_t> xs = {0, 1, m, m >> 1, (m >> 1) + 1, m - 1, 0x80, 0xFF, 0x7F, 0x0102030405060708ull};
        for (int b = 0; b < w; ++b) { xs.push_back(1ull << b); xs.push_back(m ^ (1ull << b)); }
        for (uint64_t x : xs) { RV a; a.type = t; a.num = x & m; v.push_back(a); }
    }
    return v;
}

// one value: encode (checking size), decode with trailing bytes into a fresh and into a used object
static void roundtrip(Rng& r, const RV& ref, bool layout) {
    VP v(build(ref));
    if (!layout && extract(v.get()) != ref) { viol("c01:build", "value built with setters differs: want " + show(ref) + " have " + show(extract(v.get()))); return; }
    uint32_t n = v->GetSize();
    const char* b = v->Serialize();
    if (!b) { viol("c01:null", "Serialize() returned null for " + show(ref)); return; }
    if (buf_size(b, n) < n) { viol("c01:size", fmt("buffer of %zu bytes announced as %u", buf_size(b, n), n)); delete[] b; return; }
    string s(b, n);
    delete[] b;
    if (layout) {
        if (s != enc(ref)) viol("c02:value-layout", show(ref) + " encoded as " + hex(s) + " instead of " + hex(enc(ref)));
        s = enc(ref);
    }
    for (int k = 0; k < 3; ++k) {
        string t = s + (k ? r.bytes(r.below(20)) : "");
        Exact e(t);
        VP d(k == 2 ? (ref.type == ARR || ref.type == STR || ref.type == U ?
                [&] { Gen g; RV x; do x = rand_val(r, g); while (x.type != ref.type); return build(x); }() : CreateValue(ref.type))
            : CreateValue(ref.type));
        uint32_t used = d->Deserialize(e.p, e.n);
        if (used != s.size()) { viol(layout ? "c02:value-decode" : "c01:value-used", fmt("decoding %zu(+%zu) bytes used %u: ", s.size(), t.size() - s.size(), used) + show(ref)); return; }
        RV got = extract(d.get());
        if (got != ref) { viol(layout ? "c02:value-decode" : "c01:value-differs", "want " + show(ref) + " got " + show(got)); return; }
    }
}
static void roundtrip(Rng& r, const RD& ref, bool layout) {
    Datum d;
    d.SetName(ref.name);
    d.SetValue(build(ref.val), false);
    uint32_t n = d.GetSize();
    char* b = d.Serialize();
    if (!b) { viol("c01:null", "Datum::Serialize() returned null"); return; }
    if (buf_size(b, n) < n) { viol("c01:size", fmt("datum buffer of %zu bytes announced as %u", buf_size(b, n), n)); delete[] b; return; }
    string s(b, n);
    delete[] b;
    if (layout) {
        if (s != enc(ref)) viol("c02:datum-layout", "datum " + hex(ref.name, 20) + "=" + show(ref.val) + " encoded as " + hex(s) + " instead of " + hex(enc(ref)));
        s = enc(ref);
    }
    for (int k = 0; k < 3; ++k) {
        string t = s + (k ? r.bytes(r.below(20)) : "");
        Exact e(t);
        Datum x;
        if (k == 2) { x.SetName("old"); Gen g; x.SetValue(build(rand_val(r, g)), false); }
        uint32_t used = x.Deserialize(e.p, e.n);
        RD got{x.GetName(), extract(x.GetValue())};
        if (used != s.size() || !(got == ref) || x.GetType() != ref.val.type) {
            viol(layout ? "c02:datum-decode" : "c01:datum-differs", fmt("used %u of %zu; want ", used, s.size()) + hex(ref.name, 20) + "=" + show(ref.val) + " got " + hex(got.name, 20) + "=" + show(got.val));
            return;
        }
    }
}
static void roundtrip(Rng& r, const RR& ref, bool layout) {
    RP q(build(ref));
    uint32_t n = q->GetSize();
    const char* b = q->Serialize();
    if (!b) { viol("c01:null", "Request::Serialize() returned null"); return; }
    if (buf_size(b, n) < n) { viol("c01:size", fmt("request buffer of %zu bytes announced as %u", buf_size(b, n), n)); delete[] b; return; }
    string s(b, n);
    delete[] b;
    if (layout) {
        if (s != enc(ref)) viol("c02:request-layout", show(ref) + " encoded as " + hex(s) + " instead of " + hex(enc(ref)));
        s = enc(ref);
    }
    for (int k = 0; k < 3; ++k) {
        string t = s + (k ? r.bytes(r.below(20)) : "");
        Exact e(t);
        Request x;
        if (k == 2) { x.SetName("old"); x.SetId(77); x.Emplace<Value32S>("old", 5); x.Emplace<ValueStr>("z", string("zz")); }
        uint32_t used = x.Deserialize(e.p, e.n);
        RR got = extract(&x);
        if (used != s.size() || !(got == ref)) {
            viol(layout ? "c02:request-decode" : "c01:request-differs", fmt("used %u of %zu; want ", used, s.size()) + show(ref) + " got " + show(got));
            return;
        }
        // and once more from the decoded object
        if (k == 0 && !layout) {
            const char* c = x.Serialize();
            if (x.GetSize() != s.size() || string(c, x.GetSize()) != s) viol("c01:reencode", "decoded request encodes differently: " + show(ref));
            delete[] c;
        }
    }
}
// every small object: the edges of sizes lie where there is nothing
static vector<RV> tiny_vals() {
    vector<RV> v;
    auto add = [&](int t, const string& s, uint64_t n = 0) { RV x; x.type = t; x.str = s; x.num = n; v.push_back(x); };
    add(U, ""); add(U, "x"); add(STR, ""); add(STR, "_"); add(STR, string("\0", 1)); add(U8, "", 0); add(I64, "", ~0ull);
    size_t base = v.size();
    RV a; a.type = ARR; v.push_back(a);
    for (size_t i = 0; i <= base; ++i) {
        RV b = a; b.arr.push_back(v[i]); v.push_back(b);
        for (size_t k = 0; k <= base; k += 2) { RV c = b; c.arr.push_back(v[k]); v.push_back(c); }
    }
    return v;
}
static void tiny(const std::function<void(const RR&)>& f) {
    vector<RV> vs = tiny_vals();
    const vector<string> names = {"", "_", string("\0", 1), "ab"};
    uint32_t id = 0;
    for (auto& name : names) {
        RR q; q.name = name;
        q.id = id++;
        f(q);
        for (auto& n1 : names) for (size_t i = 0; i < vs.size(); ++i) {
            RR q1 = q; q1.id = id++; q1.args.push_back({n1, vs[i]}); f(q1);
            for (auto& n2 : names) if (n2 != n1) for (size_t k = 0; k < 9; ++k) {
                RR q2 = q1; q2.id = id++; q2.args.push_back({n2, vs[k]}); f(q2);
                if (violated()) return;
            }
        }
    }
}
static void codec(bool layout) {
    Rng r(g_seed);
    if (g_seed % 8 == 2) {
        for (auto& v : tiny_vals()) { roundtrip(r, v, layout); eval(fnv(enc(v)), nontrivial(v)); count("values"); }
        tiny([&](const RR& q) {
            roundtrip(r, q, layout);
            for (auto& d : q.args) if (q.args.size() == 1) roundtrip(r, d, layout);
            eval(fnv(enc(q)), !q.args.empty()); count("requests");
        });
    }
    auto val = [&](const RV& v) { if (violated()) return; Guard g("codec", 30, show(v)); roundtrip(r, v, layout); eval(fnv(enc(v)), nontrivial(v)); count("values"); };
    if (g_seed % 8 == 1) {
        for (auto& v : edge_ints()) { val(v); roundtrip(r, RD{"d", v}, layout); }
        for (size_t n : {(size_t)0, (size_t)1, (size_t)127, (size_t)128, (size_t)255, (size_t)256, (size_t)257, (size_t)32767, (size_t)32768, (size_t)65535, (size_t)65536, (size_t)70000, (size_t)1 << 20, (size_t)(1 << 24) + 3})
            for (int t : {(int)STR, (int)U}) { RV v; v.type = t; v.str = r.bytes(n); val(v); }
        for (size_t n : {0, 1, 127, 128, 255, 256, 257, 1000, 65535, 65536, 70000}) {
            RV v; v.type = ARR;
            for (size_t i = 0; i < n; ++i) { RV x; x.type = (n & 1) ? (int)U8 : (int)U; x.num = (n & 1) ? i & 255 : 0; v.arr.push_back(x); }
            val(v);
        }
        for (size_t n : {0, 1, 255, 256, 32767, 32768, 65534, 65535}) {
            RR q; q.id = 0xFFFFFFFF; q.name = r.bytes(n);
            RV x; x.type = I16; x.num = 0x8000;
            q.args.push_back({r.bytes(n), x});
            roundtrip(r, q, layout);
            roundtrip(r, q.args[0], layout);
            eval(fnv(enc(q)));
        }
        for (int d : {1, 2, 10, 40, 100, 300}) val(nest(r, d));
        {   // very many arguments (decoded only: storing them one by one takes too long)
            RR q; q.name = "many"; q.id = 5;
            for (uint32_t i = 0; i < 66000; ++i) { RV x; x.type = U32; x.num = i; q.args.push_back({fmt("%u", i), x}); }
            Guard gd("many arguments", 100);
            string s = enc(q);
            Exact e(s);
            Request x;
            if (x.Deserialize(e.p, e.n) != s.size() || x.GetArguments().size() != q.args.size()) viol("c01:many", "a request of 66000 arguments is not decoded completely");
            else {
                const char* c = x.Serialize();
                if (x.GetSize() != s.size() || string(c, x.GetSize()) != s) viol("c01:many", "a request of 66000 arguments encodes differently after decoding");
                delete[] c;
            }
            eval(fnv(s)); count("requests");
        }
        // raw data created by the array constructor: New(n)
        ValueArr a; a.New(5);
        RV ra; ra.type = ARR; ra.arr.resize(5);
        if (extract(&a) != ra) viol("c01:new", "New(5) does not make five undefined elements");
        val(ra);
    }
    for (long i = 0; i < g_n && !violated(); ++i) {
        Gen g = big(r, i);
        RV v = rand_val(r, g);
        val(v);
        RD d{rand_name(r, g.max_name), rand_val(r, g)};
        RR q = rand_req(r, g);
        Guard gd("codec", 30, show(q));
        roundtrip(r, d, layout);
        eval(fnv(enc(d)));
        roundtrip(r, q, layout);
        eval(fnv(enc(q)), !q.args.empty());
        count("datums"); count("requests"); count("arguments", q.args.size()); count("bytes", enc(q).size());
        if (i == 5) sample(show(q));
    }
    leak_check("codec");
}
SCENARIO(c01_roundtrip) { codec(false); }
SCENARIO(c02_layout) { codec(true); }
// layout on the socket, both directions
SCENARIO(c02_socket) {
    Rng r(g_seed);
    for (long i = 0; i < g_n && !violated(); ++i) {
        int fd; Raw raw;
        pair(r.chance(0.5), fd, raw);
        Connection c(fd);
        c.SetMaxRequestSize(1 << 20);
        Gen g; g.max_str = 3000;
        for (int k = 0; k < 10 && !violated(); ++k) {
            RR q = rand_req(r, g);
            if (q.name == "_") continue;
            c.Push(build(q), false, 0, false);
            string f;
            do { f.clear(); raw.frame(f, 20); } while (f.size() > 11 && f.substr(8, 3) == string("\x01\0_", 3));
            if (f != enc(q)) viol("c02:sent-bytes", "pushed " + show(q) + " on the wire " + hex(f));
            raw.send(enc(q));
            RP got(bounded("pull", 20, [&] { return c.Pull(15); }));
            if (!got || !(extract(got.get()) == q)) viol("c02:received", "sent " + show(q) + " received " + (got ? show(extract(got.get())) : "nothing"));
            eval(fnv(enc(q))); count("frames", 2);
        }
    }
}

// ------------------------------------------------------------ C03, C04
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
static thread_local bool t_count = false;
static thread_local uint64_t t_bytes = 0;
static void on_malloc(const volatile void*, size_t n) { if (t_count) t_bytes += n; }
static void on_free(const volatile void*) {}
static void hook() { static bool done = false; if (!done) { done = true; __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } }
struct Alloc { Alloc() { hook(); t_bytes = 0; t_count = true; } uint64_t end() { t_count = false; return t_bytes; } };
#else
struct Alloc { uint64_t end() { return 0; } };
#endif
#else
struct Alloc { uint64_t end() { return 0; } };
#endif

// use a decoded object in every way
static void exercise(Value* v) {
    RV a = extract(v);
    if (depth(a) < 60) { string t = v->ToString(); count("printed", !t.empty()); }
    VP c(CreateValue(v->GetType()));
    c->CopyFrom(v);
    if (extract(c.get()) != a) viol("c03:copy", "copy of a decoded value differs: " + show(a));
    uint32_t n = v->GetSize();
    const char* b = v->Serialize();
    string s(b, n);
    delete[] b;
    VP d(CreateValue(v->GetType()));
    if (d->Deserialize(s.data(), s.size()) != s.size() || extract(d.get()) != a)
        viol("c04:reencode", "re-encoding of a decoded value does not decode to the same: " + show(a));
}
// decode bytes as value, datum and request; compare with the reference verdict
void try_bytes(const string& b, bool strict) {
    Guard g("decode", 30, hex(b, 400));
    {   // value
        int type = b.empty() ? 0 : (unsigned char)b[0];
        Exact e(b);
        VP v(CreateValue(type));
        Alloc al;
        uint32_t used = v->Deserialize(e.p, e.n);
        uint64_t mem = al.end();
        if (mem > 64 * b.size() + 8192) viol("c03:alloc", fmt("decoding %zu bytes as a value allocated %llu bytes: ", b.size(), (unsigned long long)mem) + hex(b));
        RV ref; size_t ru = 0;
        int verdict = dec(b, 0, b.size(), ref, ru);
        count(fmt("value_verdict_%d", verdict));
        if (used > b.size()) viol("c04:too-many", fmt("value decoder used %u of %zu bytes: ", used, b.size()) + hex(b));
        if (verdict == 0 && used) viol("c04:accepted", "malformed value accepted: " + hex(b));
        if (verdict == 1 && used != ru) viol("c04:rejected", fmt("well-formed value (%zu bytes) decoded with %u: ", ru, used) + hex(b));
        if (verdict == 1 && used && extract(v.get()) != ref) viol("c04:differs", "value decoded as " + show(extract(v.get())) + " instead of " + show(ref));
        exercise(v.get());
        // decode again into the same object
        v->Deserialize(e.p, e.n);
        exercise(v.get());
    }
    {   // datum
        Exact e(b);
        Datum d;
        Alloc al;
        uint32_t used = d.Deserialize(e.p, e.n);
        uint64_t mem = al.end();
        if (mem > 64 * b.size() + 8192) viol("c03:alloc", fmt("decoding %zu bytes as a datum allocated %llu bytes: ", b.size(), (unsigned long long)mem) + hex(b));
        RD ref; size_t ru = 0;
        int verdict = decd(b, 0, b.size(), ref, ru);
        count(fmt("datum_verdict_%d", verdict));
        if (used > b.size()) viol("c04:too-many", fmt("datum decoder used %u of %zu bytes: ", used, b.size()) + hex(b));
        if (verdict == 0 && used) viol("c04:accepted", "malformed datum accepted: " + hex(b));
        if (verdict == 1 && used != ru) viol("c04:rejected", fmt("well-formed datum (%zu bytes) decoded with %u: ", ru, used) + hex(b));
        if (verdict == 1 && used && !(RD{d.GetName(), extract(d.GetValue())} == ref)) viol("c04:differs", "datum decoded differently: " + hex(b));
        if (!d.GetValue()) viol("c03:null", "datum without a value after decoding " + hex(b));
        else exercise(d.GetValue());
        Datum c(d);
        uint32_t n = c.GetSize();
        char* s = c.Serialize();
        Datum x;
        if (d.GetName().size() < 65536 && x.Deserialize(s, n) != n) viol("c04:reencode", "re-encoded datum is not decodable: " + hex(b));
        delete[] s;
        d.Deserialize(e.p, e.n);
        d.GetType(); d.GetValid();
    }
    {   // request
        Exact e(b);
        Request q;
        Alloc al;
        uint32_t used = q.Deserialize(e.p, e.n);
        uint64_t mem = al.end();
        if (mem > 64 * b.size() + 8192) viol("c03:alloc", fmt("decoding %zu bytes as a request allocated %llu bytes: ", b.size(), (unsigned long long)mem) + hex(b));
        RR ref; size_t ru = 0;
        int verdict = dec(b, ref, ru);
        count(fmt("request_verdict_%d", verdict));
        if (used > b.size()) viol("c04:too-many", fmt("request decoder used %u of %zu bytes: ", used, b.size()) + hex(b));
        if (verdict == 0 && used) viol("c04:accepted", "malformed request accepted: " + hex(b));
        if (verdict == 1 && used != ru) viol("c04:rejected", fmt("well-formed request (%zu bytes) decoded with %u: ", ru, used) + hex(b));
        if ((verdict == 1 || verdict == 2) && used && !(extract(&q) == ref))
            viol("c04:differs", "request decoded as " + show(extract(&q)) + " instead of " + show(ref) + " from " + hex(b));
        RR got = extract(&q);
        bool deep = false;
        for (auto& a : got.args) deep |= depth(a.val) > 60;
        if (!deep) q.ToString();
        Request c(q);
        if (!(extract(&c) == got)) viol("c03:copy", "copy of a decoded request differs: " + show(got));
        uint32_t n = q.GetSize();
        const char* s = q.Serialize();
        Request x;
        string t(s, n);
        delete[] s;
        if (used && (x.Deserialize(&t[0], n) != n || !(extract(&x) == got))) viol("c04:reencode", "re-encoded request decodes differently: " + hex(b));
        q.Deserialize(e.p, e.n);
        c.Deserialize(e.p, e.n);
        q.SetName("x"); q.Emplace<Value8S>("y", 1);
    }
}
static void put(string& b, size_t off, uint64_t v, int n) { for (int i = 0; i < n && off + i < b.size(); ++i) b[off + i] = (char)(v >> (8 * i)); }
// offsets of all length fields in an encoded value/request, for targeted mutation
static void len_fields(const string& b, vector<std::pair<size_t, int>>& out) {
    // heuristics are enough: any aligned or unaligned position may be hit,
    // but the headers are hit on purpose
    if (b.size() >= 10) { out.push_back({0, 4}); out.push_back({8, 2}); out.push_back({1, 4}); out.push_back({4, 2}); out.push_back({5, 4}); }
    size_t p = 10;
    if (b.size() >= 10) p += (unsigned char)b[8] | (unsigned char)b[9] << 8;
    while (p + 6 < b.size()) {
        out.push_back({p, 4}); out.push_back({p + 4, 2});
        size_t nl = (unsigned char)b[p + 4] | (unsigned char)b[p + 5] << 8;
        size_t v = p + 6 + nl;
        out.push_back({v, 1}); out.push_back({v + 1, 4}); out.push_back({v + 5, 4}); out.push_back({v + 10, 4}); out.push_back({v + 14, 4});
        size_t total = 0;
        for (int i = 3; i >= 0; --i) total = total << 8 | (unsigned char)b[p + i];
        if (total < 11 || p + total > b.size()) break;
        p += total;
    }
}
static uint64_t hostile_len(Rng& r, size_t n) {
    static const uint64_t x[] = {0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFC, 0xFFFFFFFB, 0xFFFFFFFA, 0xFFFFFFF6, 0xFFFFFFF5, 0xFFFF, 0xFF, 0x100, 0x33333333, 0x20000000, 0x10000000, 0x40000000, 0x55555556};
    switch (r.below(4)) {
        case 0: return n + r.range(-12, 12);
        case 1: return r.below(n + 2);
        case 2: return r.next();
        default: return x[r.below(sizeof x / sizeof *x)];
    }
}
static string hostile(Rng& r) {
    Gen g; g.max_str = r.chance(0.1) ? 3000 : 30; g.max_args = 5; g.max_arr = 5; g.max_name = 12; g.max_depth = 4;
    string b;
    switch (r.below(8)) {
        case 0: b = r.bytes(r.below(80)); if (b.size()) b[0] = (char)r.below(12); return b;
        case 1: b = enc(rand_val(r, g)); break;
        case 2: b = enc(RD{rand_name(r, 12), rand_val(r, g)}); break;
        case 3: { // many tiny elements or arguments
            RV a; a.type = ARR; a.arr.resize(r.below(400)); b = enc(a); break; }
        case 4: b = enc(nest(r, r.below(60))); break;
        default: b = enc(rand_req(r, g)); break;
    }
    int k = (int)r.below(5);
    for (int i = 0; i < k; ++i) {
        if (b.empty()) break;
        switch (r.below(8)) {
            case 0: b.resize(r.below(b.size() + 1)); break;
            case 1: b[r.below(b.size())] = (char)r.next(); break;
            case 2: b.insert(r.below(b.size() + 1), r.bytes(1 + r.below(6))); break;
            case 3: { size_t p = r.below(b.size()); b.erase(p, 1 + r.below(6)); break; }
            case 4: case 5: case 6: {
                vector<std::pair<size_t, int>> f;
                len_fields(b, f);
                if (f.empty()) break;
                auto& x = r.pick(f);
                put(b, x.first, x.second == 1 ? r.below(14) : hostile_len(r, b.size()), x.second);
                break;
            }
            default: { string c = enc(rand_val(r, g)); size_t p = r.below(b.size()); b = b.substr(0, p) + c.substr(r.below(c.size())); break; }
        }
    }
    // repair the outer total so that deeper checks are reached
    if (b.size() >= 10 && r.chance(0.4)) put(b, 0, b.size(), 4);
    return b;
}
SCENARIO(c03_hostile) {
    Rng r(g_seed);
    // minimal and degenerate buffers first
    for (int t = 0; t < 14; ++t) for (size_t n = 0; n <= 12; ++n) for (int f = 0; f < 3; ++f) {
        string b(n, f == 0 ? 0 : f == 1 ? (char)0xFF : (char)n);
        if (n) b[0] = (char)t;
        try_bytes(b, true); eval(fnv(b), n > 0);
    }
    for (long i = 0; i < g_n && !violated(); ++i) {
        string b = hostile(r);
        try_bytes(b, true);
        eval(fnv(b), b.size() >= 5);
        if (i == 100) sample(hex(b));
    }
    // deepest nesting that fits the default limit of 16 KiB, on a thread with the default stack
    for (int d : {200, 1000, 1800}) {
        if (violated()) break;
        RR q; q.name = "n"; RV v; v.type = ARR;
        for (int i = 0; i < d; ++i) { RV a; a.type = ARR; a.arr.push_back(std::move(v)); v = std::move(a); }
        q.args.push_back({"a", v});
        string b = enc(q);
        Guard g("deep", 60);
        std::thread([&] { try_bytes(b, true); string c = b; put(c, c.size() - 4, 7, 4); try_bytes(c, true); }).join();
        eval(fnv(b)); count("deep_nesting");
    }
    leak_check("decode");
}
SCENARIO(c04_reject) {
    Rng r(g_seed);
    // every byte of every small encoding changed a little, every truncation
    if (g_seed % 8 == 2 || g_seed % 8 == 3) {
        long k = 0;
        auto all = [&](const string& b) {
            try_bytes(b, true); eval(fnv(b), b.size() > 4);
            for (size_t p = 0; p < b.size() && !violated(); ++p) {
                try_bytes(b.substr(0, p), true); count("truncations");
                for (int x : {(unsigned char)b[p] + 1, (unsigned char)b[p] - 1, 0xFF, 10}) {
                    string t = b; t[p] = (char)x;
                    try_bytes(t, true); eval(fnv(t), t.size() > 4); count("byte_mutations");
                }
            }
        };
        if (g_seed % 8 == 2) for (auto& v : tiny_vals()) all(enc(v));
        else tiny([&](const RR& q) { if (q.args.size() < 2 ? k++ % 2 == 0 : k++ % 50 == 0) all(enc(q)); });
    }
    for (long i = 0; i < g_n && !violated(); ++i) {
        Gen g; g.max_str = 40; g.max_args = 5; g.max_arr = 6; g.max_name = 12; g.max_depth = 4;
        string v = enc(rand_val(r, g)), d = enc(RD{rand_name(r, 12), rand_val(r, g)}), q = enc(rand_req(r, g));
        for (const string* s : {&v, &d, &q}) {
            // every truncation
            for (size_t n = 0; n < s->size() && n < 300 && !violated(); ++n) {
                string t = s->substr(0, s->size() < 300 ? n : s->size() - 1 - r.below(s->size()));
                try_bytes(t, true);
                eval(fnv(t), n > 4); count("truncations");
            }
            // every length field off by a little, with the right and with corrected enclosing sizes
            vector<std::pair<size_t, int>> f;
            len_fields(*s, f);
            for (auto& x : f) for (int dlt : {-5, -2, -1, 1, 2, 5}) {
                if (x.first + x.second > s->size() || violated()) continue;
                string t = *s;
                uint64_t old = 0;
                for (int k = x.second - 1; k >= 0; --k) old = old << 8 | (unsigned char)t[x.first + k];
                put(t, x.first, old + dlt, x.second);
                try_bytes(t, true);
                t += r.bytes(8);
                try_bytes(t, true);
                eval(fnv(t)); count("length_mutations");
            }
        }
        for (int k = 0; k < 20 && !violated(); ++k) { string b = hostile(r); try_bytes(b, true); eval(fnv(b), b.size() >= 5); }
        if (i == 3) sample(hex(q));
    }
    leak_check("reject");
}
// known finding K4: nesting far beyond the default request limit exhausts the stack
SCENARIO(k4_deep) {
    RV v; v.type = ARR;
    string b = enc(v);
    const int levels = 150000;
    // build the encoding directly, inside out
    string head;
    {
        uint32_t content = 4;
        vector<uint32_t> lens;
        for (int i = 0; i < levels; ++i) { content = 4 + 5 + content; lens.push_back(content); }
        string s;
        for (int i = levels - 1; i >= 0; --i) {
            s += (char)ARR; for (int k = 0; k < 4; ++k) s += (char)(lens[i] >> (8 * k));
            s += string("\1\0\0\0", 4);
        }
        s += b;
        head = s;
    }
    std::thread([&] { ValueArr a; a.Deserialize(head.data(), head.size()); }).join();
    eval(1);
}

// ------------------------------------------------------------ C05
// pool of objects, each with a shadow; every operation updates both
struct PV { Value* v; RV ref; };
static string where;
// pushes: what is copied stays the caller's, what is handed over is freed by the connection
SCENARIO(c05_push) {
    Rng r(g_seed);
    for (long i = 0; i < g_n && !violated(); ++i) {
        int fd; Raw raw;
        pair(r.chance(0.5), fd, raw);
        string log;
        {
            Connection c(fd);
            Gen g; g.max_str = 300;
            int alive = 0;                   // 0 live, 1 ending gracefully, 2 ended
            vector<RR> want;
            long n = r.range(1, 25);
            for (long k = 0; k < n && !violated(); ++k) {
                if (!alive && r.chance(0.04)) { c.Disconnect(false, false); alive = 1; log += 'g'; }
                if (alive < 2 && r.chance(0.03)) { c.Disconnect(true, true); alive = 2; log += 'f'; }
                RR q = rand_req(r, g);
                if (q.name == "_") q.name = "x";
                int how = r.below(3);
                bool change = r.chance(0.5);
                log += "chr"[how];
                Request* o = build(q);
                Request* res;
                if (how == 0) res = bounded("push", 20, [&] { return c.Push(o, true, 0, change); });
                else if (how == 1) res = bounded("push", 20, [&] { return c.Push(o, false, 0, change); });
                else res = bounded("push", 20, [&] { return c.Push(*o, 0, change); });
                if (res) viol("c05:push-result", "a push without a timeout returned a request");
                if (how != 1) {
                    RR now_ = extract(o);
                    if (!(now_ == q)) viol("c05:push-source", "pushing a copy changed the original from " + show(q) + " to " + show(now_));
                    // changes to the original and its end do not reach the copy
                    o->SetName("changed"); o->Emplace<Value8U>("changed", 1);
                    if (q.args.size()) o->Set(q.args[0].name, (Value*)nullptr);
                    delete o;
                }
                if (!alive) { if (change) q.id = 0; want.push_back(q); if (change) want.back().args.push_back({"\1auto", RV()}); }
                count("pushes");
            }
            // a forced end may drop what was not sent yet
            for (size_t k = 0; k < want.size() && alive != 2 && !violated(); ++k) {
                RR q, w = want[k];
                if (!raw.request(q, 20)) { viol("c05:push-lost", "a pushed request did not arrive"); break; }
                if (w.args.size() && w.args.back().name == "\1auto") { w.args.pop_back(); q.id = 0; }
                if (!(q == w)) viol("c05:push-differs", "pushed " + show(w) + " received " + show(q));
            }
            bounded("destroy", 20, [&] { c.Disconnect(true, true); });
        }
        eval(fnv(log) ^ mix(g_seed, i));
    }
    leak_check("c05-push");
}
static bool same(Value* v, const RV& ref, const char* what) {
    RV got = extract(v);
    if (got == ref) return true;
    viol("c05:differs", string(what) + " after [" + where + "]: want " + show(ref) + " have " + show(got));
    return false;
}
static void mutate(Rng& r, Value* v, RV& ref) {
    Gen g; g.max_depth = 2;
    switch (ref.type) {
        case I64: ref.num = rand_int(r); dynamic_cast<Value64S*>(v)->Set((int64_t)ref.num); break;
        case U64: ref.num = rand_int(r); dynamic_cast<Value64U*>(v)->Set(ref.num); break;
        case I32: ref.num = (uint32_t)rand_int(r); dynamic_cast<Value32S*>(v)->Set((int32_t)ref.num); break;
        case U32: ref.num = (uint32_t)rand_int(r); dynamic_cast<Value32U*>(v)->Set((uint32_t)ref.num); break;
        case I16: ref.num = (uint16_t)rand_int(r); dynamic_cast<Value16S*>(v)->Set((int16_t)ref.num); break;
        case U16: ref.num = (uint16_t)rand_int(r); dynamic_cast<Value16U*>(v)->Set((uint16_t)ref.num); break;
        case U8: ref.num = (uint8_t)rand_int(r); dynamic_cast<Value8U*>(v)->Set((uint8_t)ref.num); break;
        case I8: ref.num = (uint8_t)rand_int(r); dynamic_cast<Value8S*>(v)->Set((int8_t)ref.num); break;
        case STR: {
            ValueStr* s = dynamic_cast<ValueStr*>(v);
            ref.str = r.bytes(r.below(30));
            if (r.chance(0.5)) s->Set(ref.str); else s->Set(ref.str.data(), ref.str.size());
            break;
        }
        case ARR: {
            ValueArr* a = dynamic_cast<ValueArr*>(v);
            uint32_t n = ref.arr.size();
            switch (r.below(6)) {
                case 0: if (n > 30) { a->Clear(); ref.arr.clear(); }
                        else { RV x = rand_val(r, g); VP p(build(x)); a->Push(p.get()); ref.arr.push_back(x); } break;
                case 1: if (n) { uint32_t i = r.below(n); RV x = rand_val(r, g); VP p(build(x)); a->Set(i, p.get()); ref.arr[i] = x; } break;
                case 2: if (n) { uint32_t i = r.below(n); mutate(r, a->Get(i), ref.arr[i]); } break;
                case 3: if (n < 30) { // push one of its own elements
                        if (n) { uint32_t i = r.below(n); a->Push(a->Get(i)); RV c = ref.arr[i]; ref.arr.push_back(c); } } break;
                case 4: if (n) { uint32_t i = r.below(n), j = r.below(n); a->Set(i, a->Get(j)); RV c = ref.arr[j]; ref.arr[i] = c; } break;
                default: if (r.chance(0.3)) { a->New(r.below(5)); n = a->GetCount(); ref.arr.assign(n, RV()); } break;
            }
            break;
        }
        case U: {
            ref.str = r.bytes(r.below(20));
            string b = enc(ref);
            if (ref.str.size()) v->Deserialize(b.data(), b.size());
            else ref = extract(v);
            break;
        }
    }
}
static size_t weight(const RV& v) { size_t n = 1 + v.str.size() / 16; for (auto& e : v.arr) n += weight(e); return n; }

SCENARIO(c05_values) {
    Rng r(g_seed);
    for (long it = 0; it < g_n && !violated(); ++it) {
        Guard gd("copies", 60);
        vector<PV> pool;
        Gen g; g.max_depth = 3;
        uint64_t h = 0;
        int steps = 40 + r.below(60);
        for (int s = 0; s < steps && !violated(); ++s) {
            int op = pool.size() < 2 ? 0 : (int)r.below(11);
            h = mix(h, op);
            where = fmt("iteration %ld step %d op %d", it, s, op);
            count(fmt("op%d", op));
            size_t i = pool.size() ? r.below(pool.size()) : 0, j = pool.size() ? r.below(pool.size()) : 0;
            switch (op) {
                case 0: { RV x = rand_val(r, g); pool.push_back({build(x), x}); break; }
                case 1: mutate(r, pool[i].v, pool[i].ref); break;
                case 2: { // CopyFrom another of the same type, or itself
                    vector<size_t> c;
                    for (size_t k = 0; k < pool.size(); ++k) if (pool[k].ref.type == pool[i].ref.type) c.push_back(k);
                    j = r.pick(c);
                    pool[i].v->CopyFrom(pool[j].v);
                    pool[i].ref = RV(pool[j].ref);
                    break;
                }
                case 3: { // copy construction
                    Value* c = nullptr;
                    Value* o = pool[i].v;
                    switch (pool[i].ref.type) {
                        case STR: c = new ValueStr(*dynamic_cast<ValueStr*>(o)); break;
                        case ARR: c = new ValueArr(*dynamic_cast<ValueArr*>(o)); break;
                        case U: c = new ValueUndefined(*dynamic_cast<ValueUndefined*>(o)); break;
                        case I64: c = new Value64S(*dynamic_cast<Value64S*>(o)); break;
                        case U64: c = new Value64U(*dynamic_cast<Value64U*>(o)); break;
                        case I32: c = new Value32S(*dynamic_cast<Value32S*>(o)); break;
                        case U32: c = new Value32U(*dynamic_cast<Value32U*>(o)); break;
                        case I16: c = new Value16S(*dynamic_cast<Value16S*>(o)); break;
                        case U16: c = new Value16U(*dynamic_cast<Value16U*>(o)); break;
                        case I8: c = new Value8S(*dynamic_cast<Value8S*>(o)); break;
                        default: c = new Value8U(*dynamic_cast<Value8U*>(o)); break;
                    }
                    pool.push_back({c, pool[i].ref});
                    break;
                }
                case 4: case 5: { // store into an array, possibly into itself or from inside itself
                    for (size_t k = 0; k < pool.size(); ++k) if (pool[(i + k) % pool.size()].ref.type == ARR) { i = (i + k) % pool.size(); break; }
                    if (pool[i].ref.type != ARR || weight(pool[i].ref) > 200) break;
                    ValueArr* a = dynamic_cast<ValueArr*>(pool[i].v);
                    RV src = pool[j].ref;
                    if (weight(src) > 200) break;
                    if (op == 4 || !a->GetCount()) { a->Push(pool[j].v); pool[i].ref.arr.push_back(src); }
                    else { uint32_t k = r.below(a->GetCount()); a->Set(k, pool[j].v); pool[i].ref.arr[k] = src; }
                    break;
                }
                case 6: { // an array takes over the content of one of its own elements
                    if (pool[i].ref.type != ARR) break;
                    ValueArr* a = dynamic_cast<ValueArr*>(pool[i].v);
                    for (uint32_t k = 0; k < a->GetCount(); ++k)
                        if (pool[i].ref.arr[k].type == ARR) { a->CopyFrom(a->Get(k)); RV c = pool[i].ref.arr[k]; pool[i].ref = c; count("inner_copy"); break; }
                    break;
                }
                case 7: delete pool[i].v; pool.erase(pool.begin() + i); break;
                case 8: { // through a datum
                    Datum d;
                    d.SetName("n");
                    d.SetValue(pool[i].v, true);
                    same(d.GetValue(), pool[i].ref, "datum value");
                    RV before = pool[i].ref;
                    if (r.chance(0.5)) mutate(r, pool[i].v, pool[i].ref);
                    same(d.GetValue(), before, "datum value after the original changed");
                    d.SetValue(d.GetValue(), r.chance(0.5));       // itself
                    same(d.GetValue(), before, "datum value after setting it to itself");
                    if (before.type == ARR && before.arr.size()) {
                        uint32_t k = r.below(before.arr.size());
                        d.SetValue(dynamic_cast<ValueArr*>(d.GetValue())->Get(k));
                        RV c = before.arr[k]; before = c;
                        same(d.GetValue(), before, "datum value after setting it to a part of itself");
                    }
                    Datum e(d), f;
                    f.SetValue(pool[j].v);
                    f = d;
                    Datum& dr = d;
                    d = dr;
                    RV cref = before;
                    mutate(r, e.GetValue(), cref);
                    same(e.GetValue(), cref, "copied datum"); same(d.GetValue(), before, "datum whose copy changed"); same(f.GetValue(), before, "assigned datum");
                    if (r.chance(0.3)) { d.SetValue(0); if (d.GetType() != U) viol("c05:null", "a datum set to null is not undefined"); }
                    break;
                }
                case 9: { // hand over
                    Datum* d = new Datum;
                    RV x = rand_val(r, g);
                    Value* v = build(x);
                    d->SetValue(v, false);
                    if (d->GetValue() != v) viol("c05:not-owned", "a value handed over is not the stored one");
                    same(d->GetValue(), x, "handed over value");
                    delete d;
                    break;
                }
                default: { // string aliasing
                    if (pool[i].ref.type != STR) break;
                    ValueStr* s = dynamic_cast<ValueStr*>(pool[i].v);
                    s->Set(s->Get());
                    s->CopyFrom(s);
                    break;
                }
            }
            for (auto& p : pool) if (!same(p.v, p.ref, "pool object")) break;
        }
        for (auto& p : pool) delete p.v;
        eval(h);
        if (it == 2) sample(fmt("%d steps over a pool of %zu values, last: ", steps, pool.size()) + where);
    }
    leak_check("copies");
}
SCENARIO(c05_requests) {
    Rng r(g_seed);
    for (long it = 0; it < g_n && !violated(); ++it) {
        Guard gd("copies", 60);
        vector<std::pair<Request*, RR>> pool;
        Gen g; g.max_depth = 2; g.max_name = 3;
        uint64_t h = 0;
        auto find = [](RR& q, const string& n) -> RD* { for (auto& a : q.args) if (a.name == n) return &a; return nullptr; };
        auto set = [&](RR& q, const string& n, const RV& v) { if (RD* d = find(q, n)) { RV c = v; d->val = c; } else q.args.push_back({n, v}); };
        int steps = 30 + r.below(50);
        for (int s = 0; s < steps && !violated(); ++s) {
            int op = pool.size() < 2 ? 0 : (int)r.below(12);
            h = mix(h, op);
            where = fmt("iteration %ld step %d op %d", it, s, op);
            count(fmt("op%d", op));
            size_t i = pool.size() ? r.below(pool.size()) : 0, j = pool.size() ? r.below(pool.size()) : 0;
            switch (op) {
                case 0: {
                    RR q;
                    if (r.chance(0.4)) { // decoded, possibly with repeated names
                        q = rand_req(r, g);
                        if (q.args.size() && r.chance(0.5)) q.args.push_back(q.args[0]);
                        string b = enc(q);
                        Request* x = new Request;
                        x->Deserialize(&b[0], b.size());
                        pool.push_back({x, q});
                    } else { q = rand_req(r, g); pool.push_back({build(q), q}); }
                    break;
                }
                case 1: pool[i].first->CopyFrom(pool[j].first); { RR c = pool[j].second; pool[i].second = c; } break;
                case 2: pool.push_back({new Request(*pool[i].first), pool[i].second}); break;
                case 3: *pool[i].first = *pool[j].first; { RR c = pool[j].second; pool[i].second = c; } break;
                case 4: { string n = rand_name(r, 2); RV x = rand_val(r, g); VP v(build(x)); pool[i].first->Set(n, v.get()); set(pool[i].second, n, x); break; }
                case 5: { string n = rand_name(r, 2); RV x = rand_val(r, g); pool[i].first->Set(n, build(x), false); set(pool[i].second, n, x); break; }
                case 6: { // mutate an argument in place
                    auto& q = pool[i].second;
                    if (q.args.empty()) break;
                    size_t k = r.below(q.args.size());
                    RD* d = find(q, q.args[k].name);
                    mutate(r, pool[i].first->Get(d->name), d->val);
                    break;
                }
                case 7: { // set one argument to (a part of) another or itself
                    auto& q = pool[i].second;
                    if (q.args.empty()) break;
                    string from = r.pick(q.args).name, to = r.chance(0.5) ? from : r.pick(q.args).name;
                    RV src = find(q, from)->val;
                    Value* v = pool[i].first->Get(from);
                    if (src.type == ARR && src.arr.size() && r.chance(0.6)) {
                        uint32_t k = r.below(src.arr.size());
                        v = dynamic_cast<ValueArr*>(v)->Get(k);
                        RV c = src.arr[k]; src = c;
                    }
                    if (r.chance(0.5)) pool[i].first->Set(to, v); else pool[i].first->Set(to, *v);
                    set(q, to, src);
                    break;
                }
                case 8: { // argument from another request
                    if (pool[j].second.args.empty()) break;
                    string n = r.pick(pool[j].second.args).name;
                    RV src = find(pool[j].second, n)->val;
                    pool[i].first->Set(n, pool[j].first->Get(n));
                    set(pool[i].second, n, src);
                    break;
                }
                case 9: { // emplace
                    string n = rand_name(r, 2);
                    RV x;
                    switch (r.below(4)) {
                        case 0: { x.type = STR; x.str = r.bytes(r.below(9)); ValueStr s(x.str); pool[i].first->Emplace<ValueStr>(n, s); break; }
                        case 1: { x.type = I32; x.num = (uint32_t)rand_int(r); pool[i].first->Emplace<Value32S>(n, (int32_t)x.num); break; }
                        case 2: { x.type = ARR; for (int k = 0; k < 3; ++k) x.arr.push_back(rand_val(r, g, 1)); VP a(build(x)); pool[i].first->Emplace<ValueArr>(n, *dynamic_cast<ValueArr*>(a.get())); break; }
                        default: { x.type = U; x.str = r.bytes(1 + r.below(9)); VP a(build(x)); pool[i].first->Emplace<ValueUndefined>(n, *dynamic_cast<ValueUndefined*>(a.get())); break; }
                    }
                    set(pool[i].second, n, x);
                    break;
                }
                case 10: delete pool[i].first; pool.erase(pool.begin() + i); break;
                default: { // remove
                    auto& q = pool[i].second;
                    string n = q.args.empty() ? "x" : r.pick(q.args).name;
                    pool[i].first->Set(n, 0);
                    q.args.erase(std::remove_if(q.args.begin(), q.args.end(), [&](RD& d) { return d.name == n; }), q.args.end());
                    break;
                }
            }
            for (auto& p : pool) {
                RR got = extract(p.first);
                if (!(got == p.second)) { viol("c05:request-differs", "after [" + where + "]: want " + show(p.second) + " have " + show(got)); break; }
            }
        }
        for (auto& p : pool) delete p.first;
        eval(h);
        if (it == 2) sample(fmt("%d steps over a pool of %zu requests", steps, pool.size()));
    }
    leak_check("copies");
}

// ------------------------------------------------------------ C06
template<class T> static bool is(Request& q, const string& n) { return q.Get<T>(n) != nullptr; }
static int types_of(Request& q, const string& n) {
    int m = 0;
    m |= is<ValueUndefined>(q, n) << U; m |= is<Value64S>(q, n) << I64; m |= is<Value64U>(q, n) << U64;
    m |= is<Value32S>(q, n) << I32; m |= is<Value32U>(q, n) << U32; m |= is<Value16S>(q, n) << I16;
    m |= is<Value16U>(q, n) << U16; m |= is<Value8U>(q, n) << U8; m |= is<Value8S>(q, n) << I8;
    m |= is<ValueStr>(q, n) << STR; m |= is<ValueArr>(q, n) << ARR;
    return m;
}
SCENARIO(c06_request) {
    Rng r(g_seed);
    for (long it = 0; it < g_n && !violated(); ++it) {
        Guard gd("container", 60);
        Request q(it & 1 ? "name" : "");
        RR ref; ref.name = it & 1 ? "name" : "";
        Gen g; g.max_depth = 2; g.max_str = 300;
        vector<string> names = {"", "a", "b", "A", "a ", string("a\0", 2), string("a\0b", 3), "ab", "x", "y", "\xff", r.bytes(300), string(300, 'n'), string(300, 'n') + "x", string(255, 'n')};
        uint64_t h = 0;
        string hist;
        for (int s = 0; s < 80 && !violated(); ++s) {
            string n = r.pick(names);
            auto f = std::find_if(ref.args.begin(), ref.args.end(), [&](RD& d) { return d.name == n; });
            int op = (int)r.below(8);
            h = mix(h, op * 100 + std::hash<string>()(n));
            hist = fmt("op %d name %s", op, hex(n, 8).c_str());
            switch (op) {
                case 0: case 1: case 2: {
                    RV v = rand_val(r, g);
                    VP p(build(v));
                    if (op == 0) q.Set(n, p.get());
                    else if (op == 1) q.Set(n, *p);
                    else q.Set(n, p.release(), false);
                    if (f == ref.args.end()) ref.args.push_back({n, v}); else f->val = v;
                    break;
                }
                case 3: q.Set(n, 0); if (f != ref.args.end()) ref.args.erase(f); break;
                case 4: { uint32_t x = (uint32_t)r.next(); q.SetId(x); ref.id = x; break; }
                case 5: { string x = rand_name(r, 40); q.SetName(x); ref.name = x; break; }
                default: {
                    int64_t x = (int64_t)rand_int(r);
                    RV v;
                    switch (r.below(9)) {
                        case 0: q.Emplace<Value64S>(n, x); v.type = I64; v.num = x; break;
                        case 1: q.Emplace<Value64U>(n, (uint64_t)x); v.type = U64; v.num = x; break;
                        case 2: q.Emplace<Value32S>(n, (int32_t)x); v.type = I32; v.num = (uint32_t)x; break;
                        case 3: q.Emplace<Value32U>(n, (uint32_t)x); v.type = U32; v.num = (uint32_t)x; break;
                        case 4: q.Emplace<Value16S>(n, (int16_t)x); v.type = I16; v.num = (uint16_t)x; break;
                        case 5: q.Emplace<Value16U>(n, (uint16_t)x); v.type = U16; v.num = (uint16_t)x; break;
                        case 6: q.Emplace<Value8S>(n, (int8_t)x); v.type = I8; v.num = (uint8_t)x; break;
                        case 7: q.Emplace<Value8U>(n, (uint8_t)x); v.type = U8; v.num = (uint8_t)x; break;
                        default: v.type = STR; v.str = r.bytes(r.below(40)); q.Emplace<ValueStr>(n, v.str); break;
                    }
                    if (f == ref.args.end()) ref.args.push_back({n, v}); else f->val = v;
                }
            }
            RR got = extract(&q);
            if (!(got == ref)) viol("c06:request", "after " + hist + ": want " + show(ref) + " have " + show(got));
            for (auto& m : names) {
                auto e = std::find_if(ref.args.begin(), ref.args.end(), [&](RD& d) { return d.name == m; });
                Value* v = q.Get(m);
                if ((v != nullptr) != (e != ref.args.end())) { viol("c06:get", "Get of " + hex(m, 8) + (v ? " finds a removed" : " misses a set") + " argument after " + hist); continue; }
                int want = v ? 1 << e->val.type : 0;
                if (types_of(q, m) != want) viol("c06:typed-get", fmt("typed Get succeeds for types %x instead of %x", types_of(q, m), want));
                if (v && extract(v) != e->val) viol("c06:get", "Get returns another value for " + hex(m, 8));
            }
            count("operations");
        }
        eval(h);
        if (it == 2) sample(show(ref));
    }
}

// ------------------------------------------------------------ C01/C02: objects that change between encodings
// The encoding and its size describe the object as it is now, whatever was asked of it before the last change.
static void encoded_now(Rng& r, const RV* v, const RD* d, const RR* q, uint32_t n, const char* raw, bool layout, const string& hist) {
    const char* id = layout ? "c02:changed-layout" : "c01:changed";
    std::unique_ptr<const char[]> own(raw);
    if (!raw) { viol(id, "Serialize() returned null after " + hist); return; }
    if (buf_size(raw, n) < n) { viol(id, fmt("buffer of %zu bytes announced as %u after ", buf_size(raw, n), n) + hist); return; }
    string s(raw, n), want = v ? enc(*v) : d ? enc(*d) : enc(*q);
    if (layout) { if (s != want) viol(id, "after " + hist + " encoded as " + hex(s, 60) + " instead of " + hex(want, 60)); return; }
    Exact e(s + (r.chance(0.5) ? r.bytes(r.below(9)) : ""));
    if (v) {
        VP x(CreateValue(v->type));
        uint32_t used = x->Deserialize(e.p, e.n);
        if (used != n || extract(x.get()) != *v) viol(id, fmt("used %u of %u after ", used, n) + hist + ": want " + show(*v) + " got " + show(extract(x.get())));
    } else if (d) {
        Datum x;
        uint32_t used = x.Deserialize(e.p, e.n);
        RD got{x.GetName(), extract(x.GetValue())};
        if (used != n || !(got == *d)) viol(id, fmt("used %u of %u after ", used, n) + hist + ": want " + show(d->val) + " got " + show(got.val));
    } else {
        Request x;
        uint32_t used = x.Deserialize(e.p, e.n);
        RR got = extract(&x);
        if (used != n || !(got == *q)) viol(id, fmt("used %u of %u after ", used, n) + hist + ": want " + show(*q) + " got " + show(got));
    }
}
static void changes(bool layout) {
    Rng r(g_seed);
    Gen g; g.max_depth = 3; g.max_str = 60;
    for (long it = 0; it < g_n && !violated(); ++it) {
        Guard gd("changing objects", 60);
        RV rv; do rv = rand_val(r, g); while (rv.type != ARR && rv.type != STR && rv.type != U && r.chance(0.9));
        if (r.chance(0.5)) { RV a; a.type = ARR; a.arr.push_back(rv); rv = a; }
        VP v(build(rv));
        RD rd{rand_name(r, 20), rand_val(r, g)};
        std::unique_ptr<Datum> d(new Datum);
        d->SetName(rd.name); d->SetValue(build(rd.val), false);
        RR rq; rq.name = rand_name(r, 20); rq.id = (uint32_t)r.next();
        RP q(new Request(rq.name)); q->SetId(rq.id);
        uint64_t h = 0;
        string hist = "nothing";
        for (int s = 0; s < 60 && !violated(); ++s) {
            int op = (int)r.below(18);
            if (weight(rv) > 400) { rv = RV(); rv.type = ARR; v.reset(new ValueArr); }
            if (weight(rd.val) > 400) { rd.val = RV(); rd.val.type = STR; d->SetValue(new ValueStr(""), false); }
            h = mix(h, op);
            hist = (hist.size() > 120 ? hist.substr(hist.size() - 120) : hist) + fmt(",%d", op);
            count(fmt("change%d", op));
            switch (op) {
                case 0: case 1: mutate(r, v.get(), rv); break;
                case 2: mutate(r, d->GetValue(), rd.val); break;         // in place, behind the datum's back
                case 3: { RV x = rand_val(r, g); d->SetValue(build(x), false); rd.val = x; break; }
                case 4: { string x = rand_name(r, r.chance(0.1) ? 255 : 20); d->SetName(x); rd.name = x; break; }
                case 5: { string x = rand_name(r, 40); q->SetName(x); rq.name = x; break; }
                case 6: { uint32_t x = (uint32_t)r.next(); q->SetId(x); rq.id = x; break; }
                case 7: case 8: {
                    if (rq.args.size() > 12) break;
                    string n = rand_name(r, 6); RV x = rand_val(r, g);
                    q->Set(n, build(x), false);
                    auto f = std::find_if(rq.args.begin(), rq.args.end(), [&](RD& e) { return e.name == n; });
                    if (f == rq.args.end()) rq.args.push_back({n, x}); else f->val = x;
                    break;
                }
                case 9: if (rq.args.size()) { size_t k = r.below(rq.args.size()); q->Set(rq.args[k].name, nullptr); rq.args.erase(rq.args.begin() + k); } break;
                case 10: case 11: case 12:                              // in place, behind the request's back
                    if (rq.args.size()) {
                        RD& a = rq.args[r.below(rq.args.size())];
                        if (weight(a.val) > 200) break;
                        Value* x = q->Get(a.name);
                        if (!x) { viol(layout ? "c02:changed-layout" : "c01:changed", "argument lost after " + hist); break; }
                        mutate(r, x, a.val);
                    }
                    break;
                case 13: q.reset(new Request(*q)); break;
                case 14: d.reset(new Datum(*d)); break;
                case 15: { string b = enc(rq); Exact e(b); if (q->Deserialize(e.p, e.n) != b.size()) viol(layout ? "c02:changed-layout" : "c01:changed", "own encoding refused after " + hist); break; }
                case 16: {                                              // a refused buffer must not leave a stale size either
                    string b = enc(rq); b.resize(r.below(b.size())); Exact e(b);
                    q->Deserialize(e.p, e.n); rq = extract(q.get());
                    break;
                }
                default: { RV x = rand_val(r, g); if (x.type != rd.val.type) break; VP y(build(x)); d->GetValue()->CopyFrom(y.get()); rd.val = x; }
            }
            // ask for nothing, the size, the encoding or both, in either order
            int ask = (int)r.below(5);
            if (!ask) continue;
            bool size_first = ask != 2;
            auto look = [&](auto* o, const RV* a, const RD* b, const RR* c) {
                uint32_t n = 0;
                if (size_first) n = o->GetSize();
                if (ask == 4) { size_t want = (a ? enc(*a) : b ? enc(*b) : enc(*c)).size(); if (n != want) viol(layout ? "c02:changed-layout" : "c01:changed", fmt("size %u instead of %zu after ", n, want) + hist); return; }
                const char* p = o->Serialize();
                if (!size_first) n = o->GetSize();
                encoded_now(r, a, b, c, n, p, layout, hist);
                count("encodings_between_changes");
            };
            look(v.get(), &rv, nullptr, nullptr);
            look(d.get(), nullptr, &rd, nullptr);
            look(q.get(), nullptr, nullptr, &rq);
        }
        eval(mix(h, g_seed * 1000003 + it));
    }
    leak_check("c01-changes");
}
SCENARIO(c01_changes) { changes(false); }
SCENARIO(c02_changes) { changes(true); }

template<class T, class I> static void int_type(int type, Rng& r, long n) {
    for (long i = 0; i < n; ++i) {
        I x = (I)rand_int(r), y = (I)rand_int(r);
        T v(x);
        T d;
        if (d.Get() != 0) viol("c06:int", fmt("default integer of type %d is not 0", type));
        if (v.Get() != x || (I)v != x || v.GetType() != type) viol("c06:int", fmt("type %d: constructed with %lld holds %lld", type, (long long)x, (long long)v.Get()));
        v.Set(y);
        if (v.Get() != y || static_cast<I>(v) != y) viol("c06:int", fmt("type %d: set to %lld holds %lld", type, (long long)y, (long long)v.Get()));
        if (v.ToString().find(std::to_string(+y)) == string::npos) viol("c06:print", fmt("type %d: %lld printed as ", type, (long long)y) + v.ToString());
        T c; c.CopyFrom(&v);
        if (c.Get() != y) viol("c06:int", "copied integer differs");
        eval(mix(type, (uint64_t)y)); count("integers");
    }
}
SCENARIO(c06_values) {
    Rng r(g_seed);
    int_type<Value64S, int64_t>(I64, r, 20 * g_n); int_type<Value64U, uint64_t>(U64, r, 20 * g_n);
    int_type<Value32S, int32_t>(I32, r, 20 * g_n); int_type<Value32U, uint32_t>(U32, r, 20 * g_n);
    int_type<Value16S, int16_t>(I16, r, 20 * g_n); int_type<Value16U, uint16_t>(U16, r, 20 * g_n);
    int_type<Value8S, int8_t>(I8, r, 20 * g_n); int_type<Value8U, uint8_t>(U8, r, 20 * g_n);
    for (long i = 0; i < g_n * 10 && !violated(); ++i) {
        Gen g; g.max_str = 5000;
        string a = rand_name(r, 5000), b = rand_name(r, 5000);
        ValueStr s(a);
        if (s.Get() != a || (string)s != a) viol("c06:str", "constructed string differs: " + hex(a));
        s.Set(b);
        if (s.Get() != b || s.operator string() != b) viol("c06:str", "set string differs: " + hex(b));
        s.Set(a.data(), a.size());
        if (s.Get() != a) viol("c06:str", "string set from a buffer differs: " + hex(a));
        ValueStr c(a.c_str());
        if (c.Get() != string(a.c_str())) viol("c06:str", "string constructed from a C string differs: " + hex(a));
        ValueStr e;
        if (e.Get() != "") viol("c06:str", "default string is not empty");
        Datum d;
        d.SetName(a);
        if (d.GetName() != a) viol("c06:datum", "datum name differs");
        if (d.GetType() != U || !d.GetValue()) viol("c06:datum", "a new datum is not undefined");
        eval(fnv(a + b), a.size() > 0); count("strings");
    }
    if (g_seed % 8 == 1) {      // sizes beyond 8 and 16 bits
        Guard gd("large container", 100);
        ValueArr a;
        for (uint32_t n : {255u, 256u, 257u, 65535u, 65536u, 70001u, 3u}) {
            a.New(n);
            if (a.GetCount() != n) viol("c06:arr-new", fmt("New(%u) makes %u elements", n, a.GetCount()));
            if (!a.Get(n - 1) || a.Get(n) || a.Get(n - 1)->GetType() != U) viol("c06:arr-new", fmt("the last element after New(%u) is wrong", n));
            Value32U v; v.Set(n);
            if (!a.Set(n - 1, &v) || a.Set(n, &v) || extract(a.Get(n - 1)).num != n || extract(a.Get(n / 2 - 1)).type != U) viol("c06:arr-set", fmt("setting the last of %u elements does not work", n));
            for (uint32_t i = 0; i < 10; ++i) { v.Set(i); a.Push(&v); }
            if (a.GetCount() != n + 10) viol("c06:arr-push", fmt("%u elements after pushing 10 to %u", a.GetCount(), n));
            else for (uint32_t i = 0; i < 10; ++i) if (extract(a.Get(n + i)).num != i) viol("c06:arr-push", fmt("an element pushed to %u others differs", n));
            eval(n); count("large_arrays");
        }
        Request q("r");
        for (uint32_t i = 0; i < 3000; ++i) q.Emplace<Value32U>(fmt("a%u", i), i);
        for (uint32_t i = 0; i < 3000; i += 3) q.Set(fmt("a%u", i), (Value*)0);
        for (uint32_t i = 0; i < 3000; ++i) {
            Value32U* v = q.Get<Value32U>(fmt("a%u", i));
            if ((v != nullptr) != (i % 3 != 0) || (v && v->Get() != i)) { viol("c06:many", fmt("argument %u of 3000 is wrong", i)); break; }
        }
        if (q.GetArguments().size() != 2000) viol("c06:many", "wrong number of arguments after removing 1000 of 3000");
    }
    for (long i = 0; i < g_n && !violated(); ++i) {
        Guard gd("container", 60);
        ValueArr a;
        vector<RV> ref;
        Gen g; g.max_depth = 2;
        uint64_t h = 0;
        for (int s = 0; s < 120 && !violated(); ++s) {
            int op = (int)r.below(8);
            uint32_t n = ref.size(), i = r.chance(0.6) && n ? r.below(n) : (r.chance(0.5) ? n + r.below(3) : (uint32_t)rand_int(r));
            h = mix(h, op);
            switch (op) {
                case 0: case 1: case 2: if (n < 300) { RV x = rand_val(r, g); VP v(build(x)); a.Push(v.get()); ref.push_back(x); } break;
                case 3: {
                    RV x = rand_val(r, g); VP v(build(x));
                    bool ok = a.Set(i, v.get());
                    if (ok != (i < n)) viol("c06:arr-set", fmt("Set(%u) on %u elements returned %d", i, n, ok));
                    if (i < n) ref[i] = x;
                    break;
                }
                case 4: if (a.Set(i, 0)) viol("c06:arr-set", "Set with a null value returned true"); break;
                case 5: if (r.chance(0.1)) { a.Clear(); ref.clear(); } break;
                case 6: if (r.chance(0.1)) { uint32_t k = r.below(r.chance(0.1) ? 1500 : 6); a.New(k); ref.assign(k, RV()); } break;
                default: {
                    Value* v = a.Get(i);
                    if ((v != nullptr) != (i < n)) viol("c06:arr-get", fmt("Get(%u) on %u elements returned %p", i, n, (void*)v));
                }
            }
            if (a.GetCount() != ref.size()) { viol("c06:arr-count", fmt("count is %u instead of %zu after op %d", a.GetCount(), ref.size(), op)); break; }
            if (a.Get(ref.size()) || a.Get(0xFFFFFFFF) || a.Get(0x80000000)) viol("c06:arr-get", "Get out of range is not null");
            for (uint32_t k = 0; k < ref.size(); ++k) if (extract(a.Get(k)) != ref[k]) { viol("c06:arr", fmt("element %u differs after op %d: ", k, op) + show(ref[k])); break; }
            count("array_operations");
        }
        eval(h);
    }
    leak_check("containers");
}

// ------------------------------------------------------------ C07
// Printed text shows all the data. The text is walked with what must come next; how it is
// worded around that is left open.
struct Text {
    const string& t; size_t pos = 0; size_t indent; string why;
    Text(const string& t, size_t indent) : t(t), indent(indent) {}
    // a number of its own (not a part of a word or a longer number) in this line or the next
    bool number(const string& n) {
        size_t e = t.find('\n', pos);
        if (e != string::npos) e = t.find('\n', e + 1);
        if (e == string::npos) e = t.size();
        auto part = [](char c) { return isalnum((unsigned char)c) || c == '_' || c == '-'; };
        for (size_t p = t.find(n, pos); p != string::npos && p + n.size() <= e; p = t.find(n, p + 1))
            if ((p == 0 || !part(t[p - 1])) && (p + n.size() == t.size() || !isalnum((unsigned char)t[p + n.size()]))) { pos = p + n.size(); return true; }
        why = "the number " + n + " is not shown where it belongs";
        return false;
    }
    bool name(const string& n) {
        size_t p = t.find(n, pos);
        if (p == string::npos || p > pos + 40) { why = "the name " + hex(n, 60) + " is not shown where it belongs"; return false; }
        pos = p + n.size();
        return true;
    }
    bool content(const string& s) {
        if (!number(std::to_string(s.size()))) return false;
        if (s.empty()) return true;
        size_t off = string::npos, b = 0;
        bool first = true;
        while (true) {
            size_t e = s.find('\n', b);
            string piece = s.substr(b, e == string::npos ? string::npos : e - b);
            size_t p = t.find('\n', pos);
            if (p == string::npos || (!first && p != pos)) { why = "the lines of a string are not shown"; return false; }
            size_t q = p + 1;
            while (q < t.size() && t[q] == ' ') ++q;
            size_t lead = 0;
            while (lead < piece.size() && piece[lead] == ' ') ++lead;
            size_t o = q - (p + 1);
            if (o < lead) { why = "a line of a string has lost spaces"; return false; }
            o -= lead;
            if (off == string::npos) off = o;
            if (o != off || o < indent) { why = fmt("a line of a string is indented by %zu, the first one by %zu", o, off); return false; }
            if (t.compare(q, piece.size() - lead, piece, lead, string::npos)) { why = "a line of a string is not shown: " + hex(piece, 60); return false; }
            pos = q + piece.size() - lead;
            if (e == string::npos) return true;
            b = e + 1;
            first = false;
        }
    }
    bool value(const RV& v) {
        switch (v.type) {
            case U: return true;
            case STR: return content(v.str);
            case ARR:
                if (!number(std::to_string(v.arr.size()))) return false;
                for (size_t i = 0; i < v.arr.size(); ++i) {
                    if (!number(std::to_string(i))) return false;
                    if (v.arr[i].type == U) {      // nothing of it need be shown but its place
                        size_t e = t.find('\n', pos);
                        if (e == string::npos) { why = "an undefined element is not shown"; return false; }
                        e = t.find('\n', e + 1);
                        pos = e == string::npos ? t.size() : e;
                    } else if (!value(v.arr[i])) return false;
                }
                return true;
            case I64: return number(std::to_string((int64_t)v.num));
            case I32: return number(std::to_string((int32_t)v.num));
            case I16: return number(std::to_string((int16_t)v.num));
            case I8: return number(std::to_string((int)(int8_t)v.num));
            default: return number(std::to_string(v.num));
        }
    }
};
static void c07_fail(const string& why, const string& what, const string& text) {
    viol("c07:print", why + "; " + what.substr(0, 600) + " is printed as:\n" + text.substr(0, 1500));
}
// every line of a printed value is indented at least as asked, unless it belongs to the content of a string
static void c07_value(const RV& v, uint16_t indent) {
    VP x(build(v)), y(build(v));
    string t = x->ToString(indent);
    if (t.size() < indent || t.find_first_not_of(' ') < indent) c07_fail("not indented as asked", show(v), t);
    Text w(t, indent);
    w.pos = indent;
    if (v.type != U && !w.value(v)) c07_fail(w.why, fmt("indent %u: ", indent) + show(v), t);
    if (y->ToString(indent) != t || x->ToString(indent) != t) c07_fail("equal values are printed differently", show(v), t);
    VP z(CreateValue(v.type)); z->CopyFrom(x.get());
    if (z->ToString(indent) != t) c07_fail("a copy is printed differently", show(v), t);
    if (extract(x.get()) != v) viol("c07:changed", "printing changed the value " + show(v));
    const char* b = x->Serialize();
    if (string(b, x->GetSize()) != enc(v)) viol("c07:changed", "printing changed the encoding of " + show(v));
    delete[] b;
    eval(mix(fnv(enc(v)), indent), nontrivial(v)); count("values_printed"); count("characters_checked", t.size());
}
static RV c07_str(Rng& r) {
    RV v; v.type = STR;
    size_t n = r.below(r.chance(0.1) ? 3000 : 40);
    static const char* al = "\n\n  ab1:[]\"#-";
    for (size_t i = 0; i < n; ++i) v.str += r.chance(0.85) ? al[r.below(13)] : (char)r.next();
    return v;
}
static void c07_mixin(Rng& r, RV& v) {
    if (v.type == STR && r.chance(0.6)) v = c07_str(r);
    for (auto& e : v.arr) c07_mixin(r, e);
}
SCENARIO(c07_print) {
    Rng r(g_seed);
    for (auto& v : edge_ints()) c07_value(v, r.below(20));
    for (long i = 0; i < g_n && !violated(); ++i) {
        Guard gd("print", 60);
        Gen g = i % 10 < 4 ? big(r, i) : Gen();
        for (int k = 0; k < 6; ++k) {
            RV v = k < 2 ? c07_str(r) : rand_val(r, g);
            c07_mixin(r, v);
            c07_value(v, r.chance(0.1) ? r.below(300) : r.below(12));
        }
        if (i % 20 == 7) {                              // long text: one line, many lines, across 16-bit sizes
            RV v; v.type = STR; v.str = string(65530 + r.below(12), 'q'); if (r.chance(0.5)) v.str += string(r.below(70000), 'z');
            for (size_t k = r.chance(0.5) ? 20 : 0; k; --k) v.str[r.below(v.str.size())] = '\n';
            c07_value(v, r.below(3));
        }
        if (i % 10 == 5) { RV v = nest(r, 30 + r.below(170)); c07_value(v, r.below(5)); }
        RR q = rand_req(r, g);
        for (auto& a : q.args) c07_mixin(r, a.val);
        if (r.chance(0.3)) q.name = c07_str(r).str.substr(0, 30);
        RP x(build(q)), y(new Request);
        string t = x->ToString();
        Text w(t, 0);
        bool ok = w.name(q.name);
        for (auto& a : q.args) {
            ok = ok && w.name(a.name);
            if (!ok) break;
            if (a.val.type == U) { size_t e = t.find('\n', w.pos); w.pos = e == string::npos ? t.size() : e; }
            else ok = w.value(a.val);
        }
        if (!ok) c07_fail(w.why, show(q), t);
        y->CopyFrom(x.get());
        if (y->ToString() != t || x->ToString() != t) c07_fail("a copy is printed differently", show(q), t);
        if (!(extract(x.get()) == q)) viol("c07:changed", "printing changed the request " + show(q));
        const char* b = x->Serialize();
        if (string(b, x->GetSize()) != enc(q)) viol("c07:changed", "printing changed the encoding of " + show(q));
        delete[] b;
        // and what is decoded prints as what was encoded
        string bytes = enc(q);
        Exact e(bytes);
        RP z(new Request);
        if (z->Deserialize(e.p, e.n) == e.n && z->ToString() != t) c07_fail("the decoded request is printed differently", show(q), z->ToString());
        eval(fnv(bytes), q.args.size() > 0); count("requests_printed"); count("characters_checked", t.size());
    }
    leak_check("print");
}
