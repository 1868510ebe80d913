// N01-N06: delivery, framing, hostile peers, IDs, dispatch, pulling.
#include "sc.hpp"
#include <csignal>
#include <pthread.h>
using namespace sc;

// ------------------------------------------------------------ N01
struct Item { RR q; bool keep = false; uint64_t t0 = 0, t1 = 0; };
struct End {
    Connection* c = nullptr; const char* name = "";
    Sink sink;
    vector<vector<Item>> out;      // by producer
    int reception = 0;             // 0 handler, 1 pulling thread, 2 handler that echoes
    std::atomic<bool> stop{false};
    std::atomic<size_t> got_echo{0}, got_data{0}, got_end{0};
};
static std::atomic<uint64_t> ticket{1};
static void classify(End* e, const RR& q) {
    if (q.name == "echo") e->got_echo++;
    else if (q.name == "end") e->got_end++;
    else e->got_data++;
}
static size_t total(const End& e) { size_t n = 0; for (auto& p : e.out) n += p.size(); return n; }

static void check_dir(End& from, End& to, const string& info) {
    auto got = to.sink.all();
    vector<vector<size_t>> pos(from.out.size());
    vector<std::pair<uint64_t, uint64_t>> span;
    vector<size_t> echo;
    size_t ends = 0;
    for (size_t i = 0; i < got.size(); ++i) {
        RR& q = got[i];
        if (q.name == "hello") continue;
        if (q.name == "echo") { echo.push_back(i); continue; }
        if (q.name == "end") { ends++; if (i + 1 != got.size() && got.back().name != "echo") viol("n01:after-end", "something arrived after the last request; " + info); continue; }
        uint64_t p = argnum(q, "__p"), s = argnum(q, "__s");
        if (p >= from.out.size() || s >= from.out[p].size()) { viol("n01:unknown", "never pushed: " + show(q) + "; " + info); continue; }
        Item& it = from.out[p][s];
        RR want = it.q;
        if (!it.keep) want.id = q.id;
        if (!(want == q)) viol("n01:content", "pushed " + show(want) + " delivered " + show(q) + "; " + info);
        if (pos[p].size() != s) {
            bool dup = s < pos[p].size();
            viol(dup ? "n01:duplicate-or-late" : "n01:lost-or-reordered", fmt("%s producer %d: expected request %zu next, got %d; ", from.name, (int)p, pos[p].size(), (int)s) + info);
        }
        pos[p].push_back(i);
        span.push_back({it.t0, it.t1});
        eval(mix(fnv(q.name), mix(p, s) + q.args.size() * 31 + (q.args.empty() ? 0 : fnv(show(q)))), true);
    }
    for (size_t p = 0; p < pos.size(); ++p)
        if (pos[p].size() != from.out[p].size())
            viol("n01:count", fmt("%s producer %zu pushed %zu requests, %zu delivered; ", from.name, p, from.out[p].size(), pos[p].size()) + info);
    if (ends != 1) viol("n01:end-count", fmt("the last request of %s was delivered %zu times; ", from.name, ends) + info);
    // pushes that were made one after the other by different threads
    uint64_t least = ~0ull;
    for (size_t i = span.size(); i-- > 0;) {
        if (least < span[i].first) { viol("n01:order-across-threads", "a push that returned before another began was delivered after it; " + info); break; }
        least = std::min(least, span[i].second);
    }
    count("delivered", span.size());
    // echoes: pushed by the handler of the other side, in the order of what it handled
    if (from.reception == 2) {
        auto theirs = from.sink.all();
        size_t k = 0;
        for (auto& q : theirs) {
            if (q.name == "echo" || q.name == "hello" || q.name == "end") continue;
            if (k >= echo.size()) { viol("n01:echo-lost", fmt("%zu echoes delivered; ", echo.size()) + info); break; }
            RR& e = got[echo[k]];
            if (argnum(e, "i") != k || argnum(e, "h") != fnv(show(q))) { viol("n01:echo-order", fmt("echo %zu is wrong: ", k) + show(e) + "; " + info); break; }
            k++;
        }
        if (k < echo.size()) viol("n01:echo-more", fmt("%zu echoes delivered, %zu pushed; ", echo.size(), k) + info);
        count("echoes", k);
    } else if (echo.size()) viol("n01:unknown", "an echo nobody pushed; " + info);
}

SCENARIO(n01_stream) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5), cli = r.chance(0.5);
        bool small_buf = r.chance(0.4);
        uint32_t blocks[4];
        for (auto& b : blocks) { static const uint32_t k[] = {1, 2, 3, 4, 5, 7, 16, 100, 1000, 1024, 4096, 65536, 1 << 20, 0xFFFFFFFFu}; b = r.chance(0.3) ? 1024 : k[r.below(14)]; }
        uint32_t minb = *std::min_element(blocks, blocks + 4);
        string info = fmt("case %ld: %s %s blocks %u/%u %u/%u %s", cs, tcp ? "tcp" : "unix", cli ? "client-server" : "pair", blocks[0], blocks[1], blocks[2], blocks[3], small_buf ? "small buffers" : "");
        Guard g("n01 case", 100, info);
        End A, B;
        A.name = "A"; B.name = "B";
        A.reception = r.below(3); B.reception = r.below(3);
        if (A.reception == 2 && B.reception == 2 && r.chance(0.5)) B.reception = 0;
        // requests
        size_t budget = minb < 16 ? 3000 : minb < 1000 ? 40000 : 600000;
        for (End* e : {&A, &B}) {
            size_t np = 1 + r.below(3);
            for (size_t p = 0; p < np; ++p) {
                vector<Item> v;
                size_t n = r.chance(0.1) ? 200 : r.below(25), bytes = 0;
                Gen gn; gn.max_args = 5; gn.max_str = r.chance(0.3) ? 100 : 3000;
                if (r.chance(0.15) && minb > 500) gn.max_str = 250000;
                for (size_t i = 0; i < n && bytes < budget / np; ++i) {
                    Item it;
                    it.q = rand_req(r, gn);
                    if (it.q.name == "_" || it.q.name == "echo" || it.q.name == "end" || it.q.name == "hello") it.q.name += "x";
                    RD d; d.val.type = U32;
                    d.name = "__p"; d.val.num = p; it.q.args.push_back(d);
                    d.name = "__s"; d.val.num = v.size(); it.q.args.push_back(d);
                    it.keep = r.chance(0.4);
                    bytes += enc(it.q).size();
                    v.push_back(std::move(it));
                }
                e->out.push_back(std::move(v));
            }
        }
        // endpoints
        std::unique_ptr<ServerHub> hub; std::unique_ptr<Client> client; std::unique_ptr<Connection> ca, cb;
        SafeConnection* ref = nullptr;
        auto fn = [&](End* e) {
            e->sink.fn = [e](Connection* c, Request* q, const RR& x) {
                if (e->reception == 2 && x.name != "echo" && x.name != "end" && x.name != "hello") {
                    RR y; y.name = "echo";
                    RD d; d.name = "i"; d.val.type = U64;
                    static std::mutex m;
                    { std::lock_guard<std::mutex> l(e->sink.m); size_t k = 0; for (auto& z : e->sink.got) k += z.name != "echo" && z.name != "end" && z.name != "hello"; d.val.num = k; }
                    y.args.push_back(d);
                    d.name = "h"; d.val.num = fnv(show(x)); y.args.push_back(d);
                    push(c, y, true);
                }
                classify(e, x);
            };
        };
        auto setup = [&](End* e) {
            sinks().set(e->c, &e->sink); fn(e);
            e->c->SetMaxRequestSize(4 << 20);
            e->c->SetSendBlockSize(blocks[e == &A ? 0 : 2]);
            e->c->SetRecvBlockSize(blocks[e == &A ? 1 : 3]);
            if (e->reception != 1) e->c->SetHandlerDefault(h_sink);
        };
        if (cli) {
            hub.reset(new ServerHub(tcp));
            std::atomic<uint32_t> sid{0};
            hub->on_connect = [&](Connection* c) { B.c = c; setup(&B); sid = c->id; };
            client.reset(new Client);
            if (!bounded("connect", 30, [&] { return hub->connect(*client); })) { inconclusive("connect failed"); continue; }
            if (!greeted(*client)) { viol("n01:hello", "the greeting did not arrive; " + info); break; }
            wait_for([&] { return (ref = hub->s.GetConnection(sid)) != nullptr; });
            if (!ref) { viol("n01:lookup", "the connection is not found by its ID; " + info); break; }
            A.c = client.get();
            setup(&A);
        } else {
            int fa, fb;
            pair_fds(tcp, fa, fb, small_buf && tcp ? 4096 : 0, small_buf ? 4096 : 0);
            fa = iol::hand_over(fa); fb = iol::hand_over(fb);
            ca.reset(new Connection(fa)); cb.reset(new Connection(fb));
            A.c = ca.get(); B.c = cb.get();
            setup(&A); setup(&B);
        }
        if (r.chance(0.8)) disturb(r);
        if (minb < 16) iol::cfg.delay = 0;
        // run
        vector<std::thread> th;
        for (End* e : {&A, &B}) {
            for (size_t p = 0; p < e->out.size(); ++p) {
                uint64_t sd = r.next();
                th.emplace_back([e, p, sd] {
                    Rng t(sd);
                    for (auto& it : e->out[p]) {
                        Request* q = build(it.q);
                        if (t.chance(0.1)) msleep(t.below(3));
                        it.t0 = ticket++;
                        Request* res;
                        switch (t.below(3)) {
                            case 0: res = e->c->Push(q, false, 0, !it.keep); it.t1 = ticket++; break;
                            case 1: res = e->c->Push(q, true, 0, !it.keep); it.t1 = ticket++;
                                // the original stays the caller's
                                q->SetName("changed"); q->SetId(7); q->Set("__p", nullptr);
                                delete q; break;
                            default: res = e->c->Push(*q, 0, !it.keep); it.t1 = ticket++; q->SetName("changed"); delete q;
                        }
                        if (res) viol("n01:push-result", "Push without timeout returned a request");
                    }
                });
            }
        }
        std::atomic<bool> stop{false};
        vector<std::thread> pullers;
        for (End* e : {&A, &B}) if (e->reception == 1) {
            uint64_t sd = r.next();
            pullers.emplace_back([e, &stop, sd] {
                Rng t(sd);
                while (true) {
                    bool last = stop;
                    RP q(e->c->Pull(t.chance(0.5) && !e->got_end ? 1 : 0));
                    if (q) { RR x = extract(q.get()); classify(e, x); e->sink.add(std::move(x)); }
                    else if (last) return;
                    else if (t.chance(0.3)) msleep(0.3);
                }
            });
        }
        std::thread meddler([&, sd = r.next()] {
            Rng t(sd);
            bool chg = t.chance(0.5);
            while (!stop) {
                Connection* c = t.chance(0.5) ? A.c : B.c;
                switch (t.below(8)) {
                    case 0: if (chg) c->SetSendBlockSize(500 + t.below(5000)); break;
                    case 1: if (chg) c->SetRecvBlockSize(500 + t.below(5000)); break;
                    case 2: c->SetOurSaInterval(5 + t.below(10)); break;
                    case 3: c->SetTheirNaIntervalLimit(60 + t.below(10)); break;
                    case 4: if (!c->IsConnected() || c->IsDisconnecting()) { if (!stop) viol("n01:state", "a live connection reports that it is not connected or disconnecting; " + info); return; } break;
                    case 5: if (c->WaitForStop(0)) { if (!stop) viol("n01:stopped", "a live connection reports that it is stopped; " + info); return; } break;
                    default: c->IncreaseRefs(); c->DecreaseRefs();
                }
                msleep(t.below(4));
            }
        });
        for (auto& t : th) t.join();
        RR end; end.name = "end";
        bool ok = true;
        for (int d = 0; d < 2; ++d) {
            End& f = d ? B : A; End& t = d ? A : B;
            if (!progress(t.got_data, total(f))) {
                viol("n01:lost", fmt("only %zu of %zu requests pushed by %s arrived and nothing more comes; ", t.got_data.load(), total(f), f.name) + info);
                ok = false;
            }
        }
        for (int d = 0; d < 2 && ok; ++d) {
            End& f = d ? B : A; End& t = d ? A : B;
            if (f.reception == 2 && !progress(t.got_echo, total(t))) { viol("n01:echo-lost", fmt("only %zu of %zu echoes arrived; ", t.got_echo.load(), total(t)) + info); ok = false; }
        }
        if (ok) { push(A.c, end); push(B.c, end); }
        for (End* e : {&A, &B}) if (ok && !progress(e->got_end, 1)) viol("n01:lost", "the last request did not arrive; " + info);
        stop = true;
        meddler.join();
        for (auto& t : pullers) t.join();
        iol::clear_faults();
        if (ok && (!A.c->IsConnected() || !B.c->IsConnected())) viol("n01:ended", "the connection ended by itself; " + info);
        // close and look for stragglers
        bounded("close", 30, [&] {
            A.c->Disconnect(false);
            A.c->WaitForStop(endless());
            if (ref) { B.c->SetHandlerDefault(nullptr); delete ref; }
            else B.c->WaitForStop(endless());
            client.reset();
            hub.reset();
        });
        check_dir(A, B, info); check_dir(B, A, info);
        sample(info + fmt(": %zu + %zu requests", total(A), total(B)));
        sinks().set(A.c, nullptr); sinks().set(B.c, nullptr);
        bounded("destroy", 30, [&] { ca.reset(); cb.reset(); });
        count("cases");
    }
    iol::clear_faults();
}
// very many or very large requests on their way
SCENARIO(n01_backlog) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5);
        int mode = r.below(4);
        uint32_t n = mode == 3 ? 1 + r.below(3) : r.chance(0.5) ? 300 + r.below(2000) : r.chance(0.7) ? 2000 + r.below(12000) : 65400 + r.below(1500);
        string info = fmt("case %ld: %s mode %d, %u requests", cs, tcp ? "tcp" : "unix", mode, n);
        Guard gd("n01 backlog", 120, info);
        auto check = [&](const RR& q, uint32_t i) {
            if (q.name == "b" && q.id == i * 7 && argnum(q, "k") == i) return true;
            viol("n01:backlog", fmt("request %u is due and what was delivered is ", i) + show(q) + "; " + info);
            return false;
        };
        if (mode == 0) {            // the peer does not read while all of them are pushed
            LibRaw e(tcp, 4096, 4096);
            e.c->SetSendBlockSize(1 << 16);
            for (uint32_t i = 0; i < n; ++i) push(e.c.get(), simple("b", i, 0, i * 7));
            if (r.chance(0.5)) msleep(r.below(30));
            for (uint32_t i = 0; i < n; ++i) { RR q; if (!e.raw.request(q, 20)) { viol("n01:backlog", fmt("only %u of the requests arrived; ", i) + info); break; } if (!check(q, i)) break; }
            RR more; if (!violated() && e.raw.request(more, 0.02)) viol("n01:backlog", "more was sent than pushed: " + show(more) + "; " + info);
        } else if (mode == 3) {     // large ones, library on both sides
            int a, b; pair_fds(tcp, a, b);
            Connection A(iol::hand_over(a)), B(iol::hand_over(b));
            uint32_t max = 4u << 20; max <<= r.below(4);
            B.SetMaxRequestSize(max); A.SetSendBlockSize(1u << (14 + r.below(12))); B.SetRecvBlockSize(1u << (14 + r.below(12)));
            for (uint32_t i = 0; i < n; ++i) {
                uint32_t over = (uint32_t)enc(simple("b", i, 1, i * 7)).size() - 1;
                push(&A, simple("b", i, i == 0 ? max - over : max / 2 + r.below(max / 2 - over), i * 7));
            }
            for (uint32_t i = 0; i < n; ++i) {
                RP q(bounded("n01 large request", 60, [&] { return B.Pull(50); }));
                if (!q) { viol("n01:backlog", fmt("large request %u of at most %u bytes was not delivered; ", i, max) + info); break; }
                RR x = extract(q.get());
                if (!check(x, i)) break;
                auto& s = x.args[1].val.str;
                if (s.find_first_not_of((char)('a' + i % 26)) != string::npos) { viol("n01:backlog", "a large request arrived changed; " + info); break; }
            }
            count("large_requests", n);
        } else {                    // nobody pulls until all (or half) of them have arrived
            LibRaw e(tcp);
            e.c->SetRecvBlockSize(1 << 16);
            std::thread s([&] { string all; for (uint32_t i = 0; i < n; ++i) all += enc(simple("b", i, 0, i * 7)); e.raw.send(all, 60); });
            if (mode == 1 || tcp) { s.join(); if (tcp) msleep(20); else wait_for([&] { return e.raw.drained(); }, 30); }
            for (uint32_t i = 0; i < n; ++i) {
                RP q(bounded("n01 backlog pull", 40, [&] { return e.c->Pull(30); }));
                if (!q) { viol("n01:backlog", fmt("only %u of the requests could be pulled; ", i) + info); break; }
                if (!check(extract(q.get()), i)) break;
            }
            if (s.joinable()) s.join();
        }
        eval(mix(mix(g_seed, cs), n * 4 + mode)); count("backlog", n);
    }
    leak_check("n01");
}


// ------------------------------------------------------------ N02
static string keep_alive() { RR q; q.name = "_"; return enc(q); }
SCENARIO(n02_split) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.4);
        LibRaw e(tcp, r.chance(0.2) && tcp ? 2048 : 0);
        e.c->SetMaxRequestSize(2 << 20);
        static const uint32_t bl[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 64, 1024, 70000};
        e.c->SetRecvBlockSize(bl[r.below(15)]);
        int mode = r.below(6);      // of cutting
        bool pulling = r.chance(0.4);
        if (!pulling) e.handle();
        Gen g; g.max_str = mode <= 1 ? 40 : 1500; g.max_args = 4;
        if (mode == 5 && r.chance(0.3)) g.max_str = 100000;
        string stream; vector<RR> want; vector<size_t> ends;
        size_t n = 1 + r.below(mode <= 1 ? 8 : 30);
        for (size_t i = 0; i < n; ++i) {
            if (r.chance(0.15)) stream += keep_alive();
            RR q = rand_req(r, g);
            if (r.chance(0.2)) { q.args.clear(); q.name = r.chance(0.5) ? "" : "x"; }
            if (mode >= 2 && r.chance(0.06)) {     // of a round size, or next to it
                size_t size = mode == 2 || e.c->GetRecvBlockSize() < 1000 ? 1u << (5 + r.below(8)) : r.chance(0.3) ? 65536u * (1 + r.below(6)) : 1u << (5 + r.below(14));
                size += r.below(3) - 1;
                q.name = "sized"; q.args.clear();
                if (size < 60) q.name = string(size - 10, 's');
                else { RD d; d.name = "p"; d.val.type = STR; q.args.push_back(d); size_t base = enc(q).size(); q.args[0].val.str.assign(size - base, 's'); }
                count("round_sizes");
            }
            if (q.name == "_") continue;
            stream += enc(q); want.push_back(q); ends.push_back(stream.size());
        }
        if (r.chance(0.1)) stream += keep_alive();
        string info = fmt("case %ld: %s cutting %d recv block %u %s, %zu requests in %zu bytes", cs, tcp ? "tcp" : "unix", mode, e.c->GetRecvBlockSize(), pulling ? "pulled" : "handled", want.size(), stream.size());
        Guard gd("n02 case", 100, info);
        if (r.chance(0.5)) disturb(r, true, true, r.chance(0.3));
        size_t off = 0, done = 0, pieces = 0;
        auto pull_all = [&] { if (pulling) while (true) { RP q(e.c->Pull(0)); if (!q) break; e.sink.add(extract(q.get())); } return e.sink.n.load(); };
        bool ok = true;
        size_t waits = 0;
        while (off < stream.size() && ok) {
            size_t len;
            size_t next = done < ends.size() ? ends[done] : stream.size();
            switch (mode) {
                case 0: len = 1; break;                                                // byte by byte
                case 1: len = 1 + r.below(5); break;
                case 2: len = r.chance(0.5) ? 1 + r.below(6) : 1 + r.below(300); break;
                case 3: len = next > off ? next - off + (r.chance(0.6) ? r.below(7) : 0) - (r.chance(0.3) && next - off > 1) : 1; break;   // around the ends of requests
                case 4: len = next > off ? next - off : stream.size() - off; break;   // exactly one request
                default: len = stream.size() - off;                                   // everything at once
            }
            len = std::max<size_t>(1, std::min(len, stream.size() - off));
            if (!e.raw.send(stream.substr(off, len))) { viol("n02:refused", fmt("the connection was closed or stopped reading at byte %zu; ", off) + info); ok = false; break; }
            off += len; pieces++;
            bool separate = mode <= 1 ? r.chance(0.7) : r.chance(0.5);
            if (separate && mode != 5) {
                if (!tcp) wait_for([&] { return e.raw.drained(); }, 20);
                else msleep(r.chance(0.2) ? 1 : 0.1);
            }
            while (done < ends.size() && ends[done] <= off) done++;
            // what is complete must come without anything more being sent
            if (done && (off == stream.size() || r.chance(0.15)) && waits < 40) {
                waits++;
                if (!wait_for([&] { return pull_all() >= done; }, 20)) {
                    viol("n02:not-delivered", fmt("%zu complete requests were sent, only %zu delivered without more bytes; ", done, e.sink.n.load()) + info);
                    ok = false;
                }
            }
            size_t now_n = e.sink.n;
            if (now_n > done) { viol("n02:too-early", fmt("%zu requests delivered when only %zu were complete; ", now_n, done) + info); ok = false; }
        }
        if (ok) wait_for([&] { return pull_all() >= want.size(); }, 20);
        iol::clear_faults();
        auto got = e.sink.all();
        for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
            if (i >= got.size() || i >= want.size() || !(got[i] == want[i])) {
                viol("n02:sequence", fmt("request %zu: sent ", i) + (i < want.size() ? show(want[i]) : "nothing") + " delivered " + (i < got.size() ? show(got[i]) : "nothing") + "; " + info);
                break;
            }
        }
        if (ok && !e.c->IsConnected()) viol("n02:ended", "the connection ended; " + info);
        eval(mix(fnv(stream), mode * 100 + pieces), pieces > 1);
        count("pieces", pieces); count("requests", want.size()); count("prompt_delivery_checks", waits);
        sample(info + fmt(", %zu pieces", pieces));
    }
    iol::clear_faults();
}

// ------------------------------------------------------------ N03
static string frame_of(const string& body, uint32_t declared) {
    string s(4, 0);
    for (int i = 0; i < 4; ++i) s[i] = (char)(declared >> (8 * i));
    return s + body;
}
// bytes of a hostile peer, after which the connection may be closed or not
static string hostile_bytes(Rng& r, uint32_t max) {
    Gen g; g.max_str = 200;
    string s = enc(rand_req(r, g));
    switch (r.below(9)) {
        case 0: return r.bytes(r.below(3000));
        case 1: return frame_of(r.bytes(r.below(20)), r.below(11));
        case 2: return frame_of(r.bytes(r.below(200)), (uint32_t)rand_int(r));
        case 3: for (int k = 0, n = 1 + r.below(8); k < n; ++k) if (s.size() > 4) s[4 + r.below(s.size() - 4)] ^= 1 << r.below(8); return s;
        case 4: { string b = r.bytes(r.below(300)); return frame_of(b, b.size() + 4); }
        case 5: { // inner lengths that exceed the request
            for (int k = 0; k < 3; ++k) if (s.size() > 16) { size_t p = 8 + r.below(s.size() - 12); uint32_t v = (uint32_t)rand_int(r); memcpy(&s[p], &v, 4); }
            return s;
        }
        case 6: s.resize(r.below(s.size())); return s;                       // an unfinished request
        case 7: { // nested arrays within the limit
            RV v; v.type = U8; int d = std::min<int>(400, max / 12);
            for (int i = 0; i < d; ++i) { RV a; a.type = ARR; a.arr.push_back(std::move(v)); v = std::move(a); }
            RR q; q.name = "deep"; q.args.push_back({"a", v}); s = enc(q);
            if (r.chance(0.5) && s.size() > 30) s[20 + r.below(s.size() - 20)] ^= 0x40;
            return s;
        }
        default: { string t; for (int k = 0; k < 30; ++k) t += frame_of(r.bytes(6), r.below(12)); return t; }
    }
}
struct N03 {
    std::mutex m;
    std::map<uint64_t, vector<RR>> by;     // by the number the peer gives itself
    std::atomic<size_t> n{0};
    uint32_t max = 0;
};
static N03* n03;
static void h_n03(Connection* c, Request* r) {
    RP own(r);
    RR q = extract(r);
    uint64_t who = argnum(q, "who", 0);
    { std::lock_guard<std::mutex> l(n03->m); n03->by[who].push_back(q); }
    n03->n++;
    if (q.name == "ping") { q.name = "pong"; push(c, q); }
}
static RR tagged(Rng& r, uint32_t who, const string& name, size_t pad) {
    RR q; q.name = name; q.id = (uint32_t)r.next();
    RD d; d.name = "who"; d.val.type = U32; d.val.num = who; q.args.push_back(d);
    d.name = "n"; d.val.num = r.next() & 0xFFFFFFFF; q.args.push_back(d);
    RD p; p.name = "p"; p.val.type = STR; p.val.str = r.bytes(pad); q.args.push_back(p);
    return q;
}
SCENARIO(n03_server) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5);
        static const uint32_t ms[] = {0, 0, 300, 1000, 16384, 70000, 1 << 20};
        N03 st; n03 = &st;
        st.max = ms[r.below(7)];
        Guard gd("n03 case", 100);
        ServerHub hub(tcp);
        hub.on_connect = [&](Connection* c) { if (st.max) c->SetMaxRequestSize(st.max); c->SetHandlerDefault(h_n03); };
        uint32_t max = st.max ? st.max : 16 * 1024;
        if (r.chance(0.5)) disturb(r);
        // honest clients
        std::atomic<bool> stop{false};
        std::atomic<size_t> pings{0};
        vector<std::thread> th;
        for (int k = 0; k < 2; ++k) th.emplace_back([&, k, sd = r.next()] {
            Rng t(sd);
            Client c;
            if (!hub.connect(c) || !greeted(c)) { viol("n03:honest-connect", "an honest client could not connect"); return; }
            while (!stop && !violated()) {
                RR q = tagged(t, 1 + k, "ping", t.below(200));
                push(&c, q);
                RP a(bounded("honest echo", 40, [&] { return c.Pull(25); }));
                q.name = "pong";
                if (!a || !(extract(a.get()) == q)) { viol("n03:honest-disturbed", "an honest client sent " + show(q) + " and got back " + (a ? show(extract(a.get())) : fmt("nothing, connected: %d", c.IsConnected()))); return; }
                pings++;
                msleep(t.below(4));
            }
            bounded("honest close", 20, [&] { c.Disconnect(false, true); });
        });
        // hostile ones
        vector<std::thread> ht;
        for (int k = 0; k < 3; ++k) ht.emplace_back([&, k, sd = r.next()] {
            Rng t(sd);
            for (int j = 0; j < 6 && !violated(); ++j) {
                uint32_t who = 1000 + k * 100 + j;
                Raw p = hub.raw();
                if (p.fd < 0) { inconclusive("raw connect failed"); return; }
                if (!greeted(p)) { viol("n03:hostile-not-served", "a client that did nothing wrong yet was not greeted"); return; }
                vector<RR> pre;
                string s;
                for (int i = 0, n = t.below(5); i < n; ++i) { pre.push_back(tagged(t, who, "data", t.below(100))); s += enc(pre.back()); }
                int kind = t.below(4);
                string bytes; vector<RR> after;
                string what;
                if (kind == 0) {           // one byte more than allowed
                    RR big = tagged(t, who, "big", 0);
                    bool whole = t.chance(0.6);
                    size_t over = t.chance(0.6) ? 1 : 1 + t.below(5000);
                    size_t base = enc(big).size();
                    if (base > max + over) continue;
                    big.args.back().val.str.assign(max + over - base, 'x');
                    bytes = enc(big);
                    if (!whole) bytes.resize(4 + t.below(6));
                    what = fmt("a request of %zu bytes (maximum %u)", (size_t)max + over, max);
                    if (whole && t.chance(0.5)) bytes += enc(tagged(t, who, "late", 3));
                } else if (kind == 1) {    // exactly the maximum
                    RR big = tagged(t, who, "data", 0);
                    size_t base = enc(big).size();
                    if (base > max) continue;
                    big.args.back().val.str.assign(max - base, 'y');
                    pre.push_back(big); s += enc(big);
                    what = "a request of exactly the maximum";
                } else {
                    bytes = hostile_bytes(t, max);
                    what = "hostile bytes " + hex(bytes, 120);
                }
                bool split = t.chance(0.4);
                string all = s + bytes;
                if (split) { size_t c1 = t.below(all.size() + 1); p.send(all.substr(0, c1)); msleep(t.below(3)); p.send(all.substr(c1), 5); }
                else p.send(all, 5);
                // the well-formed requests before it are delivered
                auto seen = [&] { std::lock_guard<std::mutex> l(st.m); return st.by[who]; };
                if (!wait_for([&] { return seen().size() >= pre.size(); }, 25)) viol("n03:prefix-lost", fmt("%zu well-formed requests, only %zu delivered, before %s", pre.size(), seen().size(), what.c_str()));
                if (kind == 0) {
                    if (!p.wait_eof(25)) viol("n03:oversize-not-closed", "the connection was not closed after " + what);
                    auto v = seen();
                    if (v.size() > pre.size()) viol("n03:oversize-delivered", show(v[pre.size()]) + " was delivered after/despite " + what);
                    count("oversize");
                } else if (kind == 1) {
                    // still connected and working
                    RR q = tagged(t, who, "ping", 5);
                    p.send(enc(q));
                    RR a; q.name = "pong";
                    if (!p.request(a, 25) || !(a == q)) viol("n03:max-refused", "no echo after " + what + fmt(" of %u", max));
                    pre.push_back(q); pre.back().name = "ping";
                    count("exact_maximum");
                } else {
                    count("hostile");
                    // close in some way
                    if (t.chance(0.3)) msleep(t.below(10));
                    if (t.chance(0.4)) { p.reset(); }
                    else if (t.chance(0.5)) { shutdown(p.fd, SHUT_WR); if (!p.wait_eof(25)) viol("n03:half-closed", "the connection was not closed after the peer ended its stream following " + what); }
                }
                auto v = seen();
                for (size_t i = 0; i < pre.size(); ++i) if (i >= v.size() || !(v[i] == pre[i])) { viol("n03:prefix-content", fmt("request %zu before %s differs", i, what.c_str())); break; }
                for (size_t i = pre.size(); i < v.size() && kind < 2; ++i) viol("n03:extra", "a request was delivered that was not sent: " + show(v[i]));
                eval(mix(fnv(all), kind));
                sample(what);
            }
        });
        for (auto& t : ht) t.join();
        size_t p0 = pings;
        if (!violated()) wait_for([&] { return pings >= p0 + 3; }, 30);
        stop = true;
        for (auto& t : th) t.join();
        iol::clear_faults();
        count("honest_pings", pings);
    }
}
// what is delivered from a stream with malformed requests in it
SCENARIO(n03_stream) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        LibRaw e(r.chance(0.3));
        e.handle();
        uint32_t max = r.chance(0.5) ? 16384 : r.chance(0.5) ? 10 + r.below(60) : 10 + r.below(3000);
        if (max != 16384) e.c->SetMaxRequestSize(max);
        if (e.c->GetMaxRequestSize() != max) viol("n03:max-getter", fmt("set %u, got %u", max, e.c->GetMaxRequestSize()));
        string stream; vector<RR> good; vector<bool> must; vector<int> kind;
        bool still_must = true, over = false;
        Gen g; g.max_str = 30; g.max_args = 3; g.max_name = 12;
        struct Fr { RR q; int k; };   // 0 good, 1 malformed, 2 oversize
        vector<Fr> fr;
        int n = 1 + r.below(12);
        for (int i = 0; i < n; ++i) {
            RR q = rand_req(r, g);
            q.id = 1000 + i;
            if (q.name == "_" ) continue;
            string b = enc(q);
            if (r.chance(0.15)) {      // at or just above the maximum
                q.name = "m"; q.args.clear();
                size_t want = max + (r.chance(0.5) ? 0 : 1);
                if (want >= 11 && want < 11 + 60000) {
                    if (want < 40) q.name = string(want - 10, 'n');
                    else { RD d; d.name = "p"; d.val.type = STR; q.args.push_back(d); size_t base = enc(q).size(); q.args[0].val.str.assign(want - base, 'z'); }
                }
                b = enc(q);
            }
            int k = b.size() > max ? 2 : 0;
            if (!k && r.chance(0.06)) {    // an announced length that is far too large, whatever its lower bits would say
                uint32_t l = (uint32_t)b.size(), x = 0;
                memcpy(&l, &b[0], 4);
                for (int t = 0; t < 20 && x <= max; ++t) switch (r.below(5)) {
                    case 0: x = l | 1u << (8 + r.below(24)); break;
                    case 1: x = l + (r.below(65535) + 1) * 65536u; break;
                    case 2: x = 0u - r.below(300); break;
                    case 3: x = __builtin_bswap32(l); break;
                    default: x = 1u << (8 + r.below(24)); if (r.chance(0.5)) x += r.below(300);
                }
                if (x > max) { memcpy(&b[0], &x, 4); k = 2; count("far_oversize"); }
            }
            if (!k && r.chance(0.25)) {
                // surely malformed: the name does not fit into the request
                uint16_t nl = (uint16_t)(b.size() - 10 + 1 + r.below(1000));
                memcpy(&b[8], &nl, 2);
                k = 1;
            }
            stream += b;
            fr.push_back({q, k});
            if (k == 2) { over = true; if (r.chance(0.7)) break; }
        }
        string info = fmt("case %ld: maximum %u, %zu requests in %zu bytes", cs, max, fr.size(), stream.size());
        Guard gd("n03 case", 60, info);
        size_t off = 0;
        while (off < stream.size()) {
            size_t len = std::min<size_t>(stream.size() - off, r.chance(0.5) ? 1 + r.below(8) : 1 + r.below(5000));
            if (!e.raw.send(stream.substr(off, len), 5)) break;
            off += len;
        }
        size_t upto = 0, sure = 0;
        while (upto < fr.size() && fr[upto].k != 2) { upto++; }
        while (sure < upto && fr[sure].k == 0) sure++;
        // delivered: everything well-formed before the first malformed; between it and the end/oversize: everything or up to the closing
        if (!wait_for([&] { return e.sink.n >= sure; }, 20)) viol("n03:prefix-lost", fmt("%zu well-formed requests first, only %zu delivered; ", sure, e.sink.n.load()) + info);
        if (over) {
            if (!wait_for([&] { return e.c->WaitForStop(0); }, 25)) viol("n03:oversize-not-closed", "still connected after an oversize request; " + info);
            if (!e.raw.wait_eof(20)) viol("n03:oversize-not-closed", "the peer was not disconnected after an oversize request; " + info);
        } else {
            // wait until everything is processed: a last one or the end
            RR last; last.name = "last"; last.id = 5;
            size_t before = 0; for (auto& f : fr) before += f.k == 0;
            e.raw.send(enc(last));
            if (enc(last).size() <= max)
                wait_for([&] { auto v = e.sink.all(); return (v.size() && v.back().name == "last") || !e.c->IsConnected(); }, 20);
            bool mal = false; for (auto& f : fr) mal |= f.k == 1;
            auto v = e.sink.all();
            if (e.c->IsConnected() || !mal) {
                if (enc(last).size() <= max && (v.empty() || v.back().name != "last" || v.size() != before + 1))
                    viol("n03:not-delivered", fmt("%zu well-formed requests were sent on a connection that stayed up, %zu delivered; ", before + 1, v.size()) + info);
            }
        }
        auto v = e.sink.all();
        size_t i = 0;
        for (size_t k = 0; k < upto && i < v.size(); ++k) {
            if (fr[k].k == 0) {
                if (!(v[i] == fr[k].q)) { viol("n03:content", "delivered " + show(v[i]) + " where " + show(fr[k].q) + " was due; " + info); break; }
                i++;
            }
        }
        if (i < v.size() && v[i].name == "last") i++;
        if (i != v.size() && !violated()) viol("n03:extra", fmt("%s was delivered; ", show(v[i]).c_str()) + info);
        eval(mix(fnv(stream), max));
        count("requests", fr.size()); count("oversize", over);
    }
}

// ------------------------------------------------------------ N04
struct IdCheck {
    vector<uint32_t> autos; std::set<uint32_t> seen;
    void add(uint32_t id, const string& info) {
        if (!seen.insert(id).second) viol("n04:repeated", fmt("the ID %u was assigned twice; ", id) + info);
        else if (autos.size() && id <= autos.back()) viol("n04:not-increasing", fmt("the ID %u was assigned after %u; ", id, autos.back()) + info);
        autos.push_back(id);
    }
};
// pushes from several threads, returns what arrived
static void id_pushes(Connection* c, Rng& r, int threads, int per) {
    vector<std::thread> th;
    for (int t = 0; t < threads; ++t) th.emplace_back([&, t, sd = r.next()] {
        Rng q(sd);
        for (int i = 0; i < per; ++i) {
            bool keep = q.chance(0.3);
            RR x = simple(keep ? "keep" : "auto", i);
            x.id = keep ? (uint32_t)rand_int(q) : (uint32_t)q.next();
            RD d; d.name = "id"; d.val.type = U32; d.val.num = x.id; x.args.push_back(d);
            if (q.chance(0.5)) { Request* b = build(x); c->Push(*b, 0, !keep); delete b; }
            else c->Push(build(x), false, 0, !keep);
            if (q.chance(0.05)) msleep(1);
        }
    });
    for (auto& t : th) t.join();
}
static void id_frame(IdCheck& ids, const RR& q, const string& info) {
    if (q.name == "auto") ids.add(q.id, info);
    else if (q.name == "keep") { if (q.id != argnum(q, "id")) viol("n04:kept-changed", fmt("pushed with the ID %u to be kept, sent with %u; ", (uint32_t)argnum(q, "id"), q.id) + info); count("kept"); }
}
SCENARIO(n04_ids) {
    Rng r(g_seed);
    // wire IDs of client and server sessions
    std::set<uint32_t> client_ids, server_ids;
    uint32_t client_first = 0, server_first = 0; bool have_c = false, have_s = false;
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5);
        Guard gd("n04 case", 100);
        // sessions of one client with raw listeners
        {
            Listener l(tcp);
            Client c;
            int sessions = 1 + r.below(4);
            for (int s = 0; s < sessions && !violated(); ++s) {
                if (!bounded("connect", 30, [&] { return connect_client(c, l); })) { viol("n04:connect", fmt("session %d: connect failed", s)); break; }
                Raw p = l.accept();
                if (r.chance(0.5)) disturb(r, true, true, true);
                string info = fmt("case %ld client session %d", cs, s);
                int th = 1 + r.below(3), per = 1 + r.below(60);
                IdCheck ids;
                std::thread w([&] { id_pushes(&c, r, th, per); push(&c, simple("fin", 0)); });
                RR q;
                while (p.request(q, 20) && q.name != "fin") id_frame(ids, q, info);
                w.join();
                if (q.name != "fin") viol("n04:lost", "not everything arrived; " + info);
                iol::clear_faults();
                if (ids.autos.size()) {
                    if (!have_c) { have_c = true; client_first = ids.autos[0]; }
                    else if (client_first != ids.autos[0]) viol("n04:not-afresh", fmt("the first ID of a session is %u, of another one %u; ", ids.autos[0], client_first) + info);
                    client_ids.insert(ids.seen.begin(), ids.seen.end());
                }
                count("client_sessions"); count("assigned", ids.autos.size());
                eval(mix(mix(g_seed, cs), s * 1000 + ids.autos.size()), ids.autos.size() > 1);
                if (r.chance(0.5)) { p.close(); }
                else c.Disconnect(r.chance(0.5));
                if (!wait_for([&] { return c.WaitForStop(0); })) { viol("n04:no-stop", "the session did not end; " + info); break; }
            }
        }
        // connections of a server with raw clients, and pushes from handlers
        {
            std::atomic<Connection*> sc{nullptr};
            ServerHub hub(tcp);
            hub.on_connect = [&](Connection* c) { sc = c; };
            hub.on_disconnect = [&](Connection* c) { sc = nullptr; };
            for (int s = 0, n = 1 + r.below(3); s < n && !violated(); ++s) {
                Raw p = hub.raw();
                string info = fmt("case %ld server session %d", cs, s);
                if (!greeted(p)) { viol("n04:connect", "not greeted; " + info); break; }
                Connection* c = sc;
                IdCheck ids;
                std::thread w([&] { id_pushes(c, r, 1 + r.below(3), 1 + r.below(40)); push(c, simple("fin", 0)); });
                RR q;
                while (p.request(q, 20) && q.name != "fin") id_frame(ids, q, info);
                w.join();
                if (q.name != "fin") viol("n04:lost", "not everything arrived; " + info);
                if (ids.autos.size()) {
                    if (!have_s) { have_s = true; server_first = ids.autos[0]; }
                    else if (server_first != ids.autos[0]) viol("n04:not-afresh", fmt("the first ID of a server connection is %u, of another one %u; ", ids.autos[0], server_first) + info);
                    server_ids.insert(ids.seen.begin(), ids.seen.end());
                }
                count("server_sessions"); count("assigned", ids.autos.size());
                eval(mix(mix(g_seed, cs), s * 7000 + ids.autos.size()), ids.autos.size() > 1);
                p.close();
                if (!wait_for([&] { return sc == nullptr; })) { viol("n04:no-stop", "the session did not end; " + info); break; }
            }
        }
        vector<uint32_t> both;
        std::set_intersection(client_ids.begin(), client_ids.end(), server_ids.begin(), server_ids.end(), std::back_inserter(both));
        if (both.size()) viol("n04:shared", fmt("client and server both assign the ID %u", both[0]));
    }
    iol::clear_faults();
    sample(fmt("client IDs start at %u, server IDs at %u", client_first, server_first));
}
// many requests in one session, both directions at once
static void h_count(Connection* c, Request* r) {
    RP own(r);
    Sink* s = sinks().get(c);
    RR q; q.id = r->GetId(); q.name = r->GetName();
    s->add(q);
}
SCENARIO(n04_many) {
    Rng r(g_seed);
    Guard gd("n04 many", 200);
    Sink ss, cs;
    std::atomic<Connection*> sc{nullptr};
    ServerHub hub(r.chance(0.5));
    hub.on_connect = [&](Connection* c) { sinks().set(c, &ss); c->SetHandlerDefault(h_count); sc = c; };
    Client c;
    sinks().set(&c, &cs);
    if (!hub.connect(c) || !greeted(c)) { inconclusive("connect"); return; }
    c.SetHandlerDefault(h_count);
    size_t n = g_n;
    vector<std::thread> th;
    for (int k = 0; k < 4; ++k) th.emplace_back([&, k] {
        Connection* x = k % 2 ? sc.load() : &c;
        for (size_t i = 0; i < n; ++i) { Request q("a"); x->Push(q); if (i % 512 == 511) { Sink& to = k % 2 ? cs : ss; wait_for([&] { return to.n + 3000 > 2 * i; }, 20); } }
    });
    for (auto& t : th) t.join();
    if (!progress(ss.n, 2 * n) || !progress(cs.n, 2 * n)) { viol("n04:lost", fmt("%zu/%zu of %zu arrived", ss.n.load(), cs.n.load(), 2 * n)); return; }
    IdCheck a, b;
    for (auto& q : ss.all()) a.add(q.id, "client, many requests");
    for (auto& q : cs.all()) b.add(q.id, "server, many requests");
    for (auto id : a.autos) if (b.seen.count(id)) { viol("n04:shared", fmt("client and server both assigned the ID %u", id)); break; }
    count("assigned", a.autos.size() + b.autos.size());
    eval(mix(g_seed, n)); sample(fmt("%zu IDs per side up to %u/%u", a.autos.size(), a.autos.back(), b.autos.back()));
    bounded("close", 30, [&] { c.Disconnect(true, true); });
    wait_for([&] { SafeConnection* x = hub.s.GetConnection(1u); delete x; return !x; });
    sinks().set(&c, nullptr);
}

// ------------------------------------------------------------ N05
struct N05 {
    std::mutex m;
    struct Ev { int dest; RR q; };
    vector<Ev> log;
    std::atomic<size_t> n{0};
    std::atomic<int> inside{0};
    std::function<void(Connection*, const RR&)> fn;
    Rng rng{1};
};
static Reg<N05>& n05s() { static auto* r = new Reg<N05>; return *r; }
template<int K> static void h_n05(Connection* c, Request* r) {
    RP own(r);
    N05* s = n05s().get(c);
    if (s->inside.fetch_add(1) != 0) viol("n05:overlap", "two handlers of one connection run at once");
    RR q = extract(r);
    { std::lock_guard<std::mutex> l(s->m); s->log.push_back({K, q}); }
    if (argnum(q, "k", 0) % 7 == 3) msleep(0.5);
    if (s->fn) s->fn(c, q);
    s->inside--;
    s->n++;
}
static dn::RequestHandler n05_h[] = {h_n05<0>, h_n05<1>, h_n05<2>, h_n05<3>, h_n05<4>, h_n05<5>};
SCENARIO(n05_dispatch) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.3);
        int fd; Raw raw; pair(tcp, fd, raw);
        Connection c(fd);
        N05 st; n05s().set(&c, &st);
        vector<string> names = {"a", "b", "ab", "abc", "", "_", "__", string("a\0b", 3), string("a\0", 2), string("\xff\x80", 2), string(300, 'n'), "A", " a", "_a"};
        std::map<string, int> named; int def = -1;
        Guard gd("n05 case", 100);
        if (r.chance(0.6)) disturb(r);
        uint32_t k = 0;
        int phases = 2 + r.below(6);
        vector<int> dests;
        std::atomic<size_t> handled_target{0};
        for (int ph = 0; ph < phases && !violated(); ++ph) {
            // change handlers
            auto change = [&](Rng& q) {
                string nm = q.pick(names);
                switch (q.below(5)) {
                    case 0: c.SetHandlerNamed(nm, nullptr); named.erase(nm); break;
                    case 1: def = q.chance(0.4) ? -1 : (int)q.below(6); c.SetHandlerDefault(def < 0 ? nullptr : n05_h[def]); break;
                    default: { int h = q.below(6); c.SetHandlerNamed(nm, n05_h[h]); named[nm] = h; }
                }
            };
            for (int i = 0, n = r.below(6); i < n; ++i) change(r);
            for (auto& nm : names) {
                auto i = named.find(nm);
                if (c.GetHandlerNamed(nm) != (i == named.end() ? nullptr : n05_h[i->second])) viol("n05:getter", "GetHandlerNamed is wrong for " + hex(nm));
            }
            if (c.GetHandlerDefault() != (def < 0 ? nullptr : n05_h[def])) viol("n05:getter", "GetHandlerDefault is wrong");
            // a batch
            string out; vector<RR> batch;
            for (int i = 0, n = 1 + r.below(25); i < n; ++i) {
                RR q = simple(r.pick(names), k++, r.chance(0.1) ? r.below(3000) : 0);
                if (r.chance(0.1)) q.name = rand_name(r, 30);
                if (r.chance(0.3) && q.name == "_") q.args.clear();
                batch.push_back(q); out += enc(q);
            }
            // what the model says; one of the handlers may change handlers itself
            vector<std::pair<int, RR>> want;      // dest, -1 queue
            size_t at = r.chance(0.5) ? r.below(batch.size()) : ~0ull;
            Rng chg(r.next());
            auto named0 = named; auto def0 = def;
            auto model = [&](const RR& q) { auto i = named.find(q.name); return i != named.end() ? i->second : def; };
            uint32_t trigger = ~0u;
            std::mutex cm;
            {
                Rng mc = chg;
                for (size_t i = 0; i < batch.size(); ++i) {
                    if (batch[i].name == "_") continue;
                    int d = model(batch[i]);
                    want.push_back({d, batch[i]});
                    if (i >= at && d >= 0 && trigger == ~0u) {
                        trigger = (uint32_t)argnum(batch[i], "k");
                        // dry run of the change on the model only
                        for (int z = 0; z < 3; ++z) {
                            string nm = mc.pick(names);
                            switch (mc.below(5)) {
                                case 0: named.erase(nm); break;
                                case 1: def = mc.chance(0.4) ? -1 : (int)mc.below(6); break;
                                default: { int h = mc.below(6); named[nm] = h; }
                            }
                        }
                    }
                }
            }
            auto named1 = named; auto def1 = def;
            st.fn = [&](Connection* cc, const RR& q) {
                if (argnum(q, "k") != trigger) return;
                named = named0; def = def0;
                Rng mc = chg;
                for (int z = 0; z < 3; ++z) change(mc);
            };
            size_t base_log; { std::lock_guard<std::mutex> l(st.m); base_log = st.log.size(); }
            size_t nh = 0, nq = 0;
            for (auto& w : want) (w.first >= 0 ? nh : nq)++;
            if (!raw.send(out)) { viol("n05:send", "connection broken"); break; }
            vector<RR> pulled;
            if (!wait_for([&] {
                    while (true) { RP q(c.Pull(0)); if (!q) break; pulled.push_back(extract(q.get())); }
                    return st.n >= base_log + nh && pulled.size() >= nq;
                }, 20))
                viol("n05:lost", fmt("phase %d: handled %zu of %zu, pulled %zu of %zu", ph, st.n - base_log, nh, pulled.size(), nq));
            // everything sent is now processed except trailing keep-alives: flush with a known one
            RR fl = simple("flush", k++); fl.name = "flush-" + std::to_string(k);
            int fdst = def1;
            raw.send(enc(fl));
            RR lastq; bool okf;
            if (fdst >= 0) okf = wait_for([&] { return st.n >= base_log + nh + 1; }, 20);
            else okf = wait_for([&] { while (true) { RP q(c.Pull(0)); if (!q) break; pulled.push_back(extract(q.get())); } return pulled.size() >= nq + 1; }, 20);
            if (!okf) { viol("n05:lost", "a request after the batch was not delivered"); break; }
            want.push_back({fdst, fl});
            { RP q(c.Pull(0)); if (q) pulled.push_back(extract(q.get())); }
            size_t ih = base_log, iq = 0;
            vector<N05::Ev> log; { std::lock_guard<std::mutex> l(st.m); log = st.log; }
            for (auto& w : want) {
                if (w.first >= 0) {
                    if (ih >= log.size() || !(log[ih].q == w.second) || log[ih].dest != w.first) {
                        viol("n05:wrong-destination", fmt("phase %d: handler %d was due for ", ph, w.first) + show(w.second) + (ih < log.size() ? fmt(", handler %d got ", log[ih].dest) + show(log[ih].q) : ", no handler was called"));
                        break;
                    }
                    ih++;
                } else {
                    if (iq >= pulled.size() || !(pulled[iq] == w.second)) { viol("n05:wrong-destination", fmt("phase %d: the queue was due for ", ph) + show(w.second) + (iq < pulled.size() ? ", it has " + show(pulled[iq]) : ", it is empty")); break; }
                    iq++;
                }
                eval(mix(fnv(w.second.name), mix(w.first + 1, g_seed + cs * 1000 + k + ih + iq)), true);
            }
            if (!violated() && (ih != log.size() || iq != pulled.size())) viol("n05:twice", fmt("phase %d: %zu more handler calls, %zu more in the queue than sent", ph, log.size() - ih, pulled.size() - iq));
            count("handled", ih - base_log); count("queued", iq); count("keep_alives", batch.size() + 1 - want.size());
            if (trigger != ~0u) count("changed_by_handler");
            if (named != named1 || def != def1) { if (trigger != ~0u && !violated()) viol("harness:n05", "model"); }
            st.fn = nullptr;
        }
        // the connection is ended while requests arrive: what is still delivered goes where it belongs
        if (!violated() && r.chance(0.6)) {
            while (true) { RP q(c.Pull(0)); if (!q) break; }
            size_t base; { std::lock_guard<std::mutex> l(st.m); base = st.log.size(); }
            vector<std::pair<int, RR>> want; string out;
            for (int i = 0, n = 5 + r.below(60); i < n; ++i) {
                RR q = simple(r.pick(names), k++, r.chance(0.1) ? r.below(2000) : 0);
                out += enc(q);
                if (q.name == "_") continue;
                auto it = named.find(q.name);
                want.push_back({it != named.end() ? it->second : def, q});
            }
            bool forced = r.chance(0.3);
            size_t piece = r.chance(0.5) ? out.size() : 1 + r.below(200);
            std::thread snd([&] { for (size_t o = 0; o < out.size(); o += piece) if (::send(raw.fd, out.data() + o, std::min(piece, out.size() - o), MSG_NOSIGNAL) < 0) break; });
            msleep(r.below(r.chance(0.5) ? 100 : 1000) / 1000.0);
            c.Disconnect(forced, false);
            bool ended = wait_for([&] { return c.WaitForStop(0); });
            ::shutdown(raw.fd, SHUT_RDWR);
            snd.join();
            if (!ended) { viol("n05:no-end", "a connection with handlers did not end"); finish(1); }
            vector<RR> pulled; while (true) { RP q(c.Pull(0)); if (!q) break; pulled.push_back(extract(q.get())); }
            vector<N05::Ev> log; { std::lock_guard<std::mutex> l(st.m); log = st.log; }
            size_t ih = base, iq = 0, missed = 0;
            for (auto& w : want) {
                bool got = w.first >= 0 ? ih < log.size() && log[ih].q == w.second && log[ih].dest == w.first : iq < pulled.size() && pulled[iq] == w.second;
                if (!got) missed++;
                else if (missed) { viol("n05:lost", "a request was not delivered, a later one of the same connection was, when it was ended; first after the gap: " + show(w.second)); break; }
                else (w.first >= 0 ? ih : iq)++;
            }
            if (!violated() && (ih != log.size() || iq != pulled.size()))
                viol("n05:wrong-destination", fmt("when the connection was ended: %zu unexpected handler calls, %zu unexpected requests in the queue", log.size() - ih, pulled.size() - iq));
            eval(mix(mix(g_seed, cs), k)); count("ended_meanwhile"); count("delivered_then", ih - base + iq);
        }
        iol::clear_faults();
        raw.close();
        wait_for([&] { return c.WaitForStop(0); });
        n05s().set(&c, nullptr);
    }
    iol::clear_faults();
}
// handlers set in the connected handler see everything; slow handlers, both kinds of peers
SCENARIO(n05_server) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("n05 case", 60);
        std::map<Connection*, std::unique_ptr<N05>> sts; std::mutex m;
        vector<N05*> order;
        bool withdef = r.chance(0.7);
        ServerHub hub(r.chance(0.5));
        hub.on_connect = [&](Connection* c) {
            auto* s = new N05;
            { std::lock_guard<std::mutex> l(m); sts[c].reset(s); order.push_back(s); }
            n05s().set(c, s);
            c->SetHandlerNamed("a", h_n05<1>);
            c->SetHandlerNamed("b", h_n05<2>);
            if (withdef) c->SetHandlerDefault(h_n05<3>);
        };
        hub.on_disconnect = [&](Connection* c) {
            N05* s = n05s().get(c);
            n05s().set(c, nullptr);
        };
        if (r.chance(0.5)) disturb(r);
        for (int k = 0; k < 3 && !violated(); ++k) {
            Client c;
            if (!hub.connect(c) || !greeted(c)) { viol("n05:connect", "no greeting"); break; }
            N05* s; { std::lock_guard<std::mutex> l(m); s = order.back(); }
            vector<int> want; uint32_t n = 1 + r.below(40);
            size_t due = 0;
            for (uint32_t i = 0; i < n; ++i) {
                static const char* nm[] = {"a", "b", "c", "_"};
                int w = r.below(4);
                push(&c, simple(nm[w], i));
                if (w == 3 || (w == 2 && !withdef)) continue;
                want.push_back(w + 1);
            }
            push(&c, simple("a", n)); want.push_back(1);
            if (!progress(s->n, want.size())) { viol("n05:lost", fmt("%zu of %zu handled", s->n.load(), want.size())); break; }
            std::lock_guard<std::mutex> l(s->m);
            if (s->log.size() != want.size()) viol("n05:twice", fmt("%zu handled, %zu sent", s->log.size(), want.size()));
            else for (size_t i = 0; i < want.size(); ++i) if (s->log[i].dest != want[i]) { viol("n05:wrong-destination", fmt("request %zu: handler %d instead of %d", i, s->log[i].dest, want[i])); break; }
            eval(mix(mix(g_seed, cs), k * 100 + n));
            count("handled", want.size());
        }
        iol::clear_faults();
    }
}
// a client that sends before the connected handler has set the handlers (known finding)
static std::atomic<int> k2_handled{0};
static void h_k2(Connection* c, Request* r) { delete r; k2_handled++; }
static void k2_con(Server*, Connection* c) { msleep(150); c->SetHandlerDefault(h_k2); }
SCENARIO(k2_early) {
    Server s; string a; uint16_t port;
    s.SetConnectedHandler(k2_con);
    if (!start(s, false, a, port)) return;
    Raw p = raw_connect(s, false, a, port);
    p.send(enc(simple("early", 1)));
    msleep(400);
    p.send(enc(simple("late", 2)));
    if (!wait_for([] { return k2_handled >= 1; })) viol("n05:lost", "no request was handled");
    msleep(50);
    if (k2_handled != 2) viol("k2:early-request-not-handled", fmt("%d of 2 requests reached the handler set by the connected handler", k2_handled.load()));
    eval(1);
    p.close();
    bounded("stop", 20, [&] { s.Stop(endless()); });
}

// ------------------------------------------------------------ N06
SCENARIO(n06_consumers) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        LibRaw e(r.chance(0.3));
        Guard gd("n06 case", 90);
        if (r.chance(0.6)) disturb(r, true, true, true);
        uint32_t n = 1 + r.below(300);
        int consumers = 1 + r.below(4);
        bool close_after = r.chance(0.5);
        std::atomic<bool> sent{false};
        vector<vector<uint32_t>> got(consumers);
        vector<std::thread> th;
        std::atomic<size_t> total{0};
        for (int k = 0; k < consumers; ++k) th.emplace_back([&, k, sd = r.next()] {
            Rng t(sd);
            while (total < n) {
                int to = t.chance(0.5) ? 0 : t.chance(0.5) ? 1 : (close_after ? endless() : 2);
                double t0 = now();
                RP q(bounded("pull", 25, [&] { return e.c->Pull(to); }));
                if (q) { got[k].push_back((uint32_t)argnum(extract(q.get()), "k")); total++; }
                else {
                    // consumers that wait in vain are told at once that someone else waits already
                    if (t.chance(0.5)) sched_yield(); else msleep(0.2);
                    if (close_after && e.c->WaitForStop(0) && total < n) { RP z(e.c->Pull(0)); if (!z && now() - t0 > 30) return; if (z) { got[k].push_back((uint32_t)argnum(extract(z.get()), "k")); total++; } }
                }
                if (violated()) return;
                if (now() - t0 > 20) return;
            }
        });
        std::thread snd([&, sd = r.next()] {
            Rng t(sd);
            for (uint32_t i = 0; i < n; ++i) { e.raw.send(enc(simple("q", i, t.chance(0.05) ? 2000 : 0))); if (t.chance(0.1)) msleep(t.below(3)); }
            if (close_after) { wait_for([&] { return e.raw.drained(); }, 5); e.raw.close(); }
        });
        snd.join();
        if (!wait_for([&] { return total >= n; }, 30)) viol("n06:lost", fmt("%zu of %u requests were pulled", total.load(), n));
        if (violated()) total = n;
        if (close_after) wait_for([&] { return e.c->WaitForStop(0); });
        for (auto& t : th) t.join();
        iol::clear_faults();
        vector<int> times(n, 0);
        for (auto& g : got) for (size_t i = 0; i < g.size(); ++i) {
            if (g[i] >= n) { viol("n06:unknown", "pulled something that was not sent"); continue; }
            times[g[i]]++;
            if (i && g[i] <= g[i - 1]) viol("n06:order", fmt("one caller pulled %u after %u", g[i], g[i - 1]));
        }
        for (uint32_t i = 0; i < n && !violated(); ++i) if (times[i] != 1) viol("n06:not-once", fmt("request %u was pulled %d times", i, times[i]));
        RP more(e.c->Pull(0));
        if (more) viol("n06:more", "the queue is not empty after all requests were pulled");
        eval(mix(mix(g_seed, cs), n * 10 + consumers), n > 1); count("pulled", n);
    }
    iol::clear_faults();
}
static void on_usr1(int) {}
SCENARIO(n06_waits) {
    Rng r0(g_seed);
    struct sigaction sa{}; sa.sa_handler = on_usr1; sigaction(SIGUSR1, &sa, nullptr);
    // independent waits side by side
    vector<std::thread> th;
    for (int w = 0; w < 12; ++w) th.emplace_back([&, sd = r0.next(), w] {
        Rng r(sd);
        for (long cs = 0; cs < g_n && !violated(); ++cs) {
            LibRaw e(r.chance(0.4));
            int kind = (w + cs) % 6;
            string info = fmt("kind %d", kind);
            std::atomic<bool> stop_sig{false};
            pthread_t me = pthread_self();
            std::thread sig;
            if (r.chance(0.4)) sig = std::thread([&] { Rng t(sd + cs); while (!stop_sig) { pthread_kill(me, SIGUSR1); msleep(20 + t.below(200)); } });
            auto pull = [&](int t) { return RP(bounded("pull", 30, [&] { return e.c->Pull(t); })); };
            double t0, el;
            switch (kind) {
                case 0: {      // nothing arrives: not before the timeout
                    int t = 1 + r.below(2);
                    if (r.chance(0.4)) { e.raw.send(keep_alive()); count("keep_alive_while_pulling"); }
                    t0 = now(); RP q = pull(t); el = now() - t0;
                    if (q) viol("n06:unknown", "pulled something that was not sent");
                    if (el < t) viol("n06:early", fmt("Pull(%d) returned null after %.4f s although nothing arrived and the connection is up", t, el));
                    // and again, and then a request is still delivered
                    t0 = now(); q = pull(1); el = now() - t0;
                    if (q || el < 1) viol("n06:early", fmt("the second Pull(1) returned after %.4f s", el));
                    e.raw.send(enc(simple("x", 1)));
                    q = pull(20);
                    if (!q || q->GetName() != "x") viol("n06:lost", "a request that arrived after vain pulls was not pulled");
                    break;
                }
                case 1: {      // empty and no timeout
                    int slow = 0;
                    for (int i = 0; i < 5; ++i) { t0 = now(); RP q = pull(0); el = now() - t0; if (q) viol("n06:unknown", "pulled something"); if (el > 0.7) slow++; }
                    if (slow >= 4) viol("n06:zero-waits", "Pull(0) waits on an empty queue");
                    break;
                }
                case 2: case 3: {      // woken by an arrival
                    int t = endless();
                    double d = r.chance(0.3) ? 0 : kind == 2 ? r.below(300) : 500 + r.below(700);
                    std::thread s([&] { msleep(d); e.raw.send(enc(simple("wake", 7))); });
                    RP q = pull(t);
                    if (!q || q->GetName() != "wake") viol("n06:not-woken", fmt("Pull(%d) returned %s instead of the request that arrived", t, q ? q->GetName().c_str() : "null"));
                    s.join();
                    break;
                }
                default: {     // woken by disconnection
                    int t = endless();
                    int how = r.below(5);
                    std::thread s([&] {
                        msleep(r.below(200));
                        switch (how) {
                            case 0: e.raw.close(); break;
                            case 1: e.raw.reset(); break;
                            case 2: e.c->Disconnect(true); break;
                            case 3: e.c->Disconnect(false); e.raw.wait_eof(20); break;
                            default: e.c->Disconnect(true); e.c->Disconnect(true);
                        }
                    });
                    RP q = pull(t);
                    if (q) viol("n06:unknown", "pulled something that was not sent");
                    if (!e.c->IsDisconnecting() && e.c->IsConnected()) viol("n06:early", fmt("Pull(%d) returned null while connected", t));
                    s.join();
                    // the queue is empty and the connection over: never waits
                    RP z = pull(endless());
                    if (z) viol("n06:unknown", "pulled something that was not sent");
                }
            }
            stop_sig = true;
            if (sig.joinable()) sig.join();
            eval(mix(mix(g_seed, w), cs * 10 + kind)); count(fmt("waits_kind_%d", kind));
        }
    });
    for (auto& t : th) t.join();
}
// a pull that starts just when a request arrives or the connection ends
SCENARIO(n06_races) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        LibRaw e(r.chance(0.3));
        Guard gd("n06 case", 90);
        iol::clear_faults();
        if (r.chance(0.8)) { iol::cfg.delay_lock = 2000 + r.below(30000); iol::cfg.delay_us = r.chance(0.5) ? 60 : 400; }
        if (r.chance(0.4)) iol::cfg.delay = r.below(12000);
        int n = 20 + r.below(60), end = r.below(4);
        std::atomic<int> round{-1}, done{-1};
        uint32_t jit = r.chance(0.3) ? 1 : r.chance(0.5) ? 60 : 400;
        std::thread s([&, sd = r.next()] {
            Rng t(sd);
            for (int i = 0; i <= n; ++i) {
                while (round < i) { if (violated()) return; }
                double w = now() + t.below(jit) * 1e-6;
                while (now() < w);
                if (i < n) { e.raw.send(enc(simple("q", i))); if (t.chance(0.1)) e.raw.send(keep_alive()); }
                else switch (end) {
                    case 0: e.raw.close(); break;
                    case 1: e.raw.reset(); break;
                    case 2: e.c->Disconnect(true); break;
                    default: e.c->Disconnect(false);
                }
            }
        });
        for (int i = 0; i <= n && !violated(); ++i) {
            int to = r.chance(0.5) ? endless() : 20;
            double w = r.below(jit) * 1e-6;
            round = i;
            w += now(); while (now() < w);
            double t0 = now();
            RP q(bounded("n06 pull that should have been woken", 15, [&] { return e.c->Pull(to); }));
            double el = now() - t0;
            if (el > 4 && max_gap_since(t0) < 1) viol("n06:not-woken", fmt("Pull(%d) took %.1f s although what it waits for had happened", to, el));
            if (i < n) {
                if (!q) viol("n06:early", fmt("Pull(%d) returned null after %.4f s while connected and with a request on its way", to, el));
                else { RR x = extract(q.get()); if (x.name != "q" || argnum(x, "k") != (uint64_t)i) viol("n06:order", "pulled " + show(x) + fmt(" where number %d was due", i)); }
            } else if (q) viol("n06:unknown", "pulled something that was not sent");
        }
        if (violated()) round = n;
        s.join();
        iol::clear_faults();
        eval(mix(mix(g_seed, cs), n)); count("raced_pulls", n + 1);
    }
    iol::clear_faults();
}
// what was received before the end remains
SCENARIO(n06_after) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        LibRaw e(r.chance(0.5));
        Guard gd("n06 case", 60);
        if (r.chance(0.6)) disturb(r, true, true, true);
        uint32_t n = r.chance(0.12) ? r.below(3000) : r.below(60);
        string s; for (uint32_t i = 0; i < n; ++i) s += enc(simple("q", i, r.chance(0.1) ? r.below(4000) : 0));
        if (r.chance(0.3)) { string part = enc(simple("part", 99, 500)); part.resize(1 + r.below(part.size() - 1)); s += part; }
        e.raw.send(s);
        int how = r.below(4);
        std::unique_ptr<std::thread> waiter; RP first; uint32_t from = 0;
        if (how == 0) e.raw.close();                       // everything sent before the end arrives
        else if (how == 1) shutdown(e.raw.fd, SHUT_WR);
        else {
            // wait until the last one has arrived (seen by pulling all but keeping order)
            wait_for([&] { return e.raw.drained(); }, 10);
            msleep(5);
            e.c->Disconnect(how == 2);
            if (how == 3) e.raw.wait_eof(20);
        }
        bool ended = wait_for([&] { return e.c->WaitForStop(0); });
        iol::clear_faults();
        if (!ended) viol("n06:no-end", "the connection did not end");
        else {
            uint32_t k = 0;
            while (true) {
                RP q(bounded("pull", 30, [&] { return e.c->Pull(r.chance(0.5) ? 0 : endless()); }));
                if (!q) break;
                RR x = extract(q.get());
                if (argnum(x, "k") != k) { viol("n06:order", fmt("%u pulled where %u was due after the end", (uint32_t)argnum(x, "k"), k)); break; }
                k++;
            }
            if (how <= 1 && k != n) viol("n06:lost-at-end", fmt("%u of %u requests received before the disconnection could be pulled", k, n));
            if (k > n) viol("n06:unknown", "more pulled than sent");
            count("pulled_after_end", k);
        }
        eval(mix(mix(g_seed, cs), n * 4 + how), n > 0);
    }
    iol::clear_faults();
}
// both sides of connections a server made: several references and threads pull, the end comes from anywhere
SCENARIO(n06_server) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("n06 case", 90);
        std::mutex m; std::map<uint32_t, vector<uint32_t>> late;      // pulled by the disconnected handler
        ServerHub hub(r.chance(0.5));
        std::atomic<int> gone{0};
        hub.on_disconnect = [&](Connection* c) {
            vector<uint32_t> v;
            while (true) {
                RP q(bounded("n06 pull in the disconnected handler", 15, [&] { return c->Pull(c->id % 2 ? 0 : -1); }));
                if (!q) break;
                v.push_back((uint32_t)argnum(extract(q.get()), "k"));
            }
            { std::lock_guard<std::mutex> l(m); late[c->id] = v; }
            gone++;
        };
        if (r.chance(0.6)) disturb(r, true, true, true);
        // one end that is pulled from
        struct End {
            Connection* c = nullptr; vector<SafeConnection*> refs;
            uint32_t n = 0; bool all = false; std::mutex waiting, looking; std::atomic<bool> over{false};
            vector<vector<uint32_t>> got; vector<std::thread> th;
        };
        auto consume = [&](End& e, int k, SafeConnection* ref, uint64_t sd) {
            Rng t(sd);
            Connection* c = e.c;
            while (!violated()) {
                // one of them waits, the others look; what they see after it was told that nothing comes anymore is final
                bool over = e.over, wait = !over && t.chance(0.8) && e.waiting.try_lock();
                int to = !wait ? 0 : t.chance(0.7) ? -1 - (int)t.below(5) : 1 + t.below(20);
                double t0 = now();
                // a request that wakes the one who waits may be taken by those who look, who stay away for the second try
                bool alone = e.got.size() == 1;
                std::unique_lock<std::mutex> look(e.looking, std::defer_lock);
                if (!wait && !over) look.lock();
                RP q(bounded("n06 pull of a connection of a server", 60, [&] { return c->Pull(to); }));
                if (!q && wait && !alone) { look.lock(); t0 = now(); q.reset(bounded("n06 pull of a connection of a server", 60, [&] { return c->Pull(to); })); }
                double el = now() - t0;
                if (!q && wait && (to < 0 || el < to)) {
                    if (!c->IsDisconnecting() && c->IsConnected()) viol("n06:early", fmt("the only Pull(%d) of a connection returned null after %.4f s, the connection is up", to, el));
                    e.over = true;
                }
                if (wait) e.waiting.unlock();
                if (q) { e.got[k].push_back((uint32_t)argnum(extract(q.get()), "k")); continue; }
                if (over) break;
                if (!wait) { if (t.chance(0.5)) msleep(0.2); else sched_yield(); }
            }
            if (t.chance(0.5)) msleep(t.below(4));
            delete ref;
        };
        int peers = 1 + r.below(4);
        vector<std::unique_ptr<End>> ends; vector<std::unique_ptr<Client>> cl; vector<Raw> raws(peers);
        vector<std::thread> th;
        bool stop_server = r.chance(0.25);
        int greeted_n = 0;
        vector<End*> sv(peers, nullptr), cv(peers, nullptr);
        vector<uint32_t> ids;
        for (int i = 0; i < peers && !violated(); ++i) {
            bool lib = r.chance(0.5);
            RR q; cl.emplace_back();
            if (lib) {
                cl.back().reset(new Client);
                if (!hub.connect(*cl.back())) { viol("n06:connect", "not connected"); break; }
                RP h(cl.back()->Pull(20));
                if (!h || h->GetName() != "hello") { viol("n06:connect", "no greeting"); break; }
                q = extract(h.get());
            } else { raws[i] = hub.raw(); if (!raws[i].request(q, 20) || q.name != "hello") { viol("n06:connect", "no greeting"); break; } }
            greeted_n++; ids.push_back(q.id);
            for (int side = 0; side <= (lib ? 1 : 0); ++side) {
                ends.emplace_back(new End); End& e = *ends.back();
                (side ? cv : sv)[i] = &e;
                e.n = r.chance(0.2) ? 0 : r.chance(0.1) ? r.below(1500) : r.below(80);
                int k = 1 + r.below(3), held = r.below(3);
                e.got.resize(k);
                if (side) e.c = cl.back().get();
                else for (int j = 0; j < k + held; ++j) {
                    SafeConnection* x = nullptr;
                    if (!wait_for([&] { return (x = hub.s.GetConnection(q.id)) != nullptr; })) { viol("n06:lookup", "not found"); break; }
                    e.refs.push_back(x); e.c = &(*x)();
                }
                if (violated()) break;
                for (int j = 0; j < k; ++j) {
                    SafeConnection* x = nullptr;
                    if (!side) { x = e.refs.back(); e.refs.pop_back(); }
                    e.th.emplace_back(consume, std::ref(e), j, x, r.next());
                }
            }
        }
        // what is sent, and how it ends
        if (!violated()) for (int i = 0; i < peers; ++i) {
            int how = r.below(6);
            if (!stop_server) { // an end by the sender after everything was sent loses nothing
                // (a close with something unread may take what the peer has not read yet with it)
                if (cv[i]) { if (how == 0 && !cv[i]->n) sv[i]->all = true; if (how == 1 && !sv[i]->n) cv[i]->all = true; }
                else if (how <= 1) sv[i]->all = true;
            }
            SafeConnection* own = nullptr;
            if (!wait_for([&] { return (own = hub.s.GetConnection(ids[i])) != nullptr; })) { viol("n06:lookup", "not found"); break; }
            th.emplace_back([&, i, how, own, sd = r.next()] {
                Rng t(sd);
                uint32_t a = 0, b = 0; End *s = sv[i], *c = cv[i];
                while (a < s->n || (c && b < c->n)) {
                    if (a < s->n && (!c || t.chance(0.5))) {
                        RR q = simple("q", a++, t.chance(0.05) ? 3000 : 0);
                        if (c) push(cl[i].get(), q); else raws[i].send(enc(q));
                    } else if (c && b < c->n) push(&(*own)(), simple("q", b++));
                    if (t.chance(0.03)) msleep(t.below(4));
                }
                if (stop_server) { delete own; return; }
                if (t.chance(0.4)) msleep(t.below(40)); // those who wait, wait
                switch (how) {
                    case 0: if (c) cl[i]->Disconnect(false); else { wait_for([&] { return raws[i].drained(); }, 10); raws[i].close(); } break;
                    case 1: if (c) (*own)().Disconnect(false); else shutdown(raws[i].fd, SHUT_WR); break;
                    case 2: (*own)().Disconnect(true); break;
                    case 3: if (c) cl[i]->Disconnect(true); else raws[i].reset(); break;
                    case 4: (*own)().Disconnect(false); break;
                    default: (*own)().Disconnect(false); (*own)().Disconnect(true);
                }
                delete own;
            });
        }
        bounded("n06 senders", 60, [&] { for (auto& t : th) t.join(); });
        std::unique_ptr<std::thread> stopper;
        if (stop_server) {
            if (r.chance(0.5)) msleep(r.below(30));
            bool graceful = r.chance(0.5);
            stopper.reset(new std::thread([&, graceful] { hub.s.Stop(graceful ? 3600 : 0); hub.s.Stop(endless()); }));
        }
        // the server's side first: a connection stays up for its peer until the last reference is released
        for (int side = 0; side < 2; ++side) {
            for (End* e : side ? cv : sv) if (e) { // (a server that stops ends one after another)
                bounded("n06 pulls of connections that ended", 40, [&] { for (auto& t : e->th) t.join(); });
                if (!e->refs.empty() && !violated()) {
                    RP q(bounded("pull", 15, [&] { return e->c->Pull(-1); }));
                    if (q) viol("n06:unknown", "a request arrived after a pull found the queue of an ended connection empty");
                }
                for (auto* x : e->refs) delete x;
                e->refs.clear();
            }
        }
        iol::clear_faults();
        if (stopper) bounded("n06 server stop", 40, [&] { stopper->join(); });
        if (!violated() && !stop_server && !wait_for([&] { return gone >= greeted_n; })) viol("n06:no-end", "a disconnected handler did not run after the last reference was released");
        for (int i = 0; i < peers && !violated(); ++i) for (End* e : {sv[i], cv[i]}) if (e) {
            vector<int> times(e->n, 0); uint32_t sum = 0;
            auto take = [&](const vector<uint32_t>& g) {
                for (size_t j = 0; j < g.size(); ++j) {
                    if (g[j] >= e->n) { viol("n06:unknown", "pulled something that was not sent"); continue; }
                    times[g[j]]++; sum++;
                    if (j && g[j] <= g[j - 1]) viol("n06:order", fmt("one caller pulled %u after %u", g[j], g[j - 1]));
                }
            };
            for (auto& g : e->got) take(g);
            if (e == sv[i]) { std::lock_guard<std::mutex> l(m); if (!late[ids[i]].empty()) viol("n06:unknown", "the disconnected handler found requests after a pull found the queue of the ended connection empty"); }
            for (uint32_t k = 0; k < e->n; ++k) {
                if (times[k] > 1) { viol("n06:not-once", fmt("request %u was pulled %d times", k, times[k])); break; }
                if (!times[k] && (k < sum || e->all)) { viol("n06:lost", fmt("request %u of %u was not pulled, %u were (%s)", k, e->n, sum, e == sv[i] ? "by the server" : "by the client")); break; }
            }
            count("pulled", sum); eval(mix(mix(g_seed, cs), mix(i * 2 + (e == cv[i]), e->n)), e->n > 0);
        }
        cl.clear();
    }
    iol::clear_faults();
}
