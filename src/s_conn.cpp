// N07-N12: ending, staying alive, reconnecting, connecting, waiting pushes.
#include "sc.hpp"
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/stat.h>
#include <sys/un.h>
using namespace sc;

// all complete frames but keep-alives in what a peer read; `rest` are the bytes after them
// the state of a connection that has ended
static void check_ended(Connection& c, const string& key, const string& info) {
    if (!bounded("WaitForStop after the end", 20, [&] { return c.WaitForStop(endless()); })) viol(key + ":wait-false", "WaitForStop() returned false; " + info);
    if (c.IsConnected()) viol(key + ":still-connected", "IsConnected() after the stop event; " + info);
    if (c.IsDisconnecting()) viol(key + ":still-disconnecting", "IsDisconnecting() after the stop event; " + info);
    if (c.GetType() != dn::SocketTypeUndefined) viol(key + ":type", "GetType() is not undefined after the end; " + info);
    if (!c.WaitForStop(0) || !bounded("WaitForStop(5)", 20, [&] { return c.WaitForStop(5); })) viol(key + ":wait-false", "waiting for the stop does not succeed after the end; " + info);
    pollfd p{c.GetStoppedEvent(), POLLIN, 0};
    if (poll(&p, 1, 0) != 1) viol(key + ":event", "the stop event is not signalled after the end; " + info);
    bounded("calls after the end", 20, [&] {
        Request q("after"); q.Emplace<dn::ValueStr>("x", string("y"));
        if (c.Push(q) || c.Push(&q, true) || c.Push(new Request(q), false)) viol(key + ":push-result", "a push after the end returned a request; " + info);
        if (q.GetName() != "after") viol(key + ":push-changed", "a refused push changed the request; " + info);
        c.Disconnect(false); c.Disconnect(true); c.Disconnect(false, true); c.Disconnect(true, true);
        c.SetOurSaInterval(10); c.SetTheirNaIntervalLimit(60);
        c.SetSendBlockSize(1024); c.SetRecvBlockSize(1024);
        c.IncreaseRefs(); c.DecreaseRefs();
    });
}

// ------------------------------------------------------------ N07
static std::atomic<int> bye_mode{0};
static void h_bye(Connection* c, Request* r) {
    RP own(r);
    RR q = extract(r);
    Sink* s = sinks().get(c);
    if (q.name == "bye") {
        // queue something, disconnect, and try to queue more
        uint32_t n = (uint32_t)argnum(q, "k");
        for (uint32_t i = 0; i < n; ++i) push(c, simple("h", i, i * 37 % 500));
        c->Disconnect(false);
        push(c, simple("late", 0));
        if (!c->IsDisconnecting()) viol("n07:state", "not disconnecting after Disconnect() in a handler");
    }
    s->add(q);
}
SCENARIO(n07_drain) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5), small_buf = r.chance(0.4);
        bool stalled = r.chance(0.15);        // the peer does not read at first
        int who = r.below(4);                 // 0 main, 1 main and wait, 2 handler, 3 concurrently with pushes
        LibRaw e(tcp, small_buf && tcp ? 4096 : 0, small_buf ? 4096 : 0);
        string info = fmt("case %ld: %s %s%s by %d", cs, tcp ? "tcp" : "unix", small_buf ? "small buffers " : "", stalled ? "stalled" : "", who);
        Guard gd("n07 case", 100, info);
        e.c->SetHandlerDefault(h_bye);
        static const uint32_t bl[] = {1, 3, 100, 1024, 1024, 65536, 1 << 22};
        uint32_t block = stalled ? 65536 : bl[r.below(7)];
        e.c->SetSendBlockSize(block);
        if (r.chance(0.6) && !stalled) disturb(r, true, true, block > 3);
        // the peer may have sent something before, and part of a request
        size_t pre = r.below(4);
        for (size_t i = 0; i < pre; ++i) e.raw.send(enc(simple("pre", i)));
        if (!progress(e.sink.n, pre)) viol("n07:not-delivered", "requests of the peer were not delivered; " + info);
        if (!tcp && who != 2 && r.chance(0.3)) { e.raw.send(string("\x40\0\0\0abc", 1 + r.below(7))); wait_for([&] { return e.raw.drained(); }, 10); }
        std::atomic<bool> go{!stalled}, quit{false};
        int pace = r.below(3);
        size_t chunk = r.chance(0.3) ? 1 + r.below(2000) : 65536;
        bool eager = r.chance(0.5);            // reads from the beginning
        std::thread reader([&] {
            while (!quit && !(go && (eager || e.c->IsDisconnecting() || !e.c->IsConnected()))) msleep(0.5);
            double t0 = now();
            while (!e.raw.eof && !e.raw.err && now() - t0 < 60) {
                size_t before = e.raw.in.size();
                e.raw.read_some(0.5, chunk);
                if (e.raw.in.size() > before) t0 = now();
                if (quit && now() - t0 > 5) break;
                if (pace == 1 && chunk > 1000) msleep(0.2);
            }
        });
        // what is pushed
        vector<RR> mine; size_t bytes = 0;
        size_t limit = block < 16 ? 1500 : block < 1000 ? 30000 : stalled ? 8 << 20 : 400000;
        Gen g; g.max_str = stalled ? 300000 : r.chance(0.3) ? 20000 : 300; g.max_args = 4;
        size_t want_n = r.chance(0.2) ? 0 : r.below(30);
        if (stalled) want_n = 1000;
        else if (block >= 100 && r.chance(0.12)) { want_n = 60 + r.below(5000); g.max_str = 40; g.max_args = 1; }
        while (mine.size() < want_n && bytes < limit) {
            RR q = rand_req(r, g);
            if (q.name == "_") continue;
            if (stalled && bytes + 300000 < limit) { RD d; d.name = "big"; d.val.type = STR; d.val.str.assign(200000, 'b'); q.args.push_back(d); }
            if (enc(q).size() > limit) continue;
            bytes += enc(q).size();
            mine.push_back(q);
        }
        vector<std::thread> th;
        vector<vector<std::array<uint64_t, 2>>> spans;
        std::atomic<uint64_t> tick{1};
        uint64_t d0 = 0, d1 = 0;
        std::atomic<int> waiters_up{0};
        std::atomic<bool> known_down{false};
        vector<std::thread> waiters;
        for (int i = 0, n = r.below(3); i < n; ++i) waiters.emplace_back([&, i] {
            if (!e.c->WaitForStop(i ? endless() : 200)) { viol("n07:wait-false", "WaitForStop returned false; " + info); return; }
            if (e.c->IsConnected()) viol("n07:early-stop", "a waiter was woken while the connection was up; " + info);
        });
        uint32_t hn = 0;
        int pushers = 0, per = 0;
        for (auto& q : mine) push(e.c.get(), q);
        if (who == 2) {
            hn = r.below(20);
            e.raw.send(enc(simple("bye", hn)));
            if (!progress(e.sink.n, pre + 1)) viol("n07:not-delivered", "a request of the peer was not delivered; " + info);
        } else if (who == 3) {
            pushers = 1 + r.below(3); per = block < 16 ? 20 : 200;
            spans.resize(pushers);
            for (int p = 0; p < pushers; ++p) th.emplace_back([&, p] {
                for (int i = 0; i < per; ++i) {
                    RR q = simple("c", i); RD d; d.name = "p"; d.val.type = U32; d.val.num = p; q.args.push_back(d);
                    uint64_t a = tick++;
                    push(e.c.get(), q);
                    spans[p].push_back({a, tick++});
                }
            });
            msleep(r.below(3) * 0.3);
            d0 = tick++;
            e.c->Disconnect(false);
            d1 = tick++;
            for (auto& t : th) t.join();
        } else if (who == 1 && !stalled) {
            bounded("Disconnect(false, true)", 60, [&] { e.c->Disconnect(false, true); });
            if (e.c->IsConnected()) viol("n07:early-stop", "Disconnect() that waits returned while the connection was up; " + info);
        } else {
            e.c->Disconnect(false);
        }
        // meanwhile
        std::atomic<bool> over{false};
        if (stalled && bytes > (5u << 20)) {
            for (int k = 0; k < 2; ++k) {
                if (!e.c->IsConnected() || !e.c->IsDisconnecting() || e.c->GetType() == dn::SocketTypeUndefined || e.c->WaitForStop(0))
                    viol("n07:early-stop", fmt("with %zu bytes unsent: connected %d, disconnecting %d, stop event %d; ", bytes, e.c->IsConnected(), e.c->IsDisconnecting(), e.c->WaitForStop(0)) + info);
                if (k == 0 && r.chance(0.3)) {
                    double t0 = now();
                    if (e.c->WaitForStop(1) || now() - t0 < 1) viol("n07:wait-early", fmt("WaitForStop(1) on a connection that is not down returned after %.3f s; ", now() - t0) + info);
                } else msleep(30);
            }
            count("stalled_drains");
        }
        for (int i = 0, n = r.below(6); i < n; ++i) switch (r.below(6)) {
            case 0: push(e.c.get(), simple("late", i)); break;
            case 1: { Request q("late"); if (e.c->Push(q)) viol("n07:push-result", "a refused push returned a request"); break; }
            case 2: e.c->Disconnect(false); break;
            case 3: e.c->SetOurSaInterval(10 + r.below(5)); e.c->SetTheirNaIntervalLimit(60); break;
            case 4: { RP q(e.c->Pull(0)); break; }
            default: e.c->SetSendBlockSize(std::max<uint32_t>(block, 1024));
        }
        go = true;
        bool ended = wait_for([&] { return e.c->WaitForStop(0); }, 40);
        if (!ended) viol("n07:no-end", fmt("the connection did not end after a graceful disconnect, %zu bytes pushed; ", bytes) + info);
        else {
            if (e.c->IsConnected()) viol("n07:early-stop", "the stop event is signalled while the connection is up; " + info);
            for (auto& w : waiters) w.join();
            waiters.clear();
            reader.join();
            iol::clear_faults();
            check_ended(*e.c, "n07", info);
            if (!e.raw.eof) viol("n07:no-eof", fmt("the peer saw no end of stream (error %d); ", e.raw.errn) + info);
            string rest;
            auto got = frames_of(e.raw.in, rest);
            if (rest.size()) viol("n07:torn", fmt("%zu bytes of an incomplete request at the end; ", rest.size()) + info);
            size_t i = 0;
            for (; i < mine.size(); ++i) if (i >= got.size() || !(got[i] == mine[i])) { viol("n07:lost", fmt("request %zu of %zu pushed before: pushed ", i, mine.size()) + show(mine[i]) + " got " + (i < got.size() ? show(got[i]) : "nothing") + "; " + info); break; }
            for (uint32_t k = 0; k < hn && !violated(); ++k, ++i) if (i >= got.size() || !(got[i] == simple("h", k, k * 37 % 500))) viol("n07:lost", fmt("request %u of %u pushed by the handler before disconnecting; ", k, hn) + info);
            vector<size_t> nextk(pushers, 0);
            for (; i < got.size() && !violated(); ++i) {
                size_t p = argnum(got[i], "p"), k = argnum(got[i], "k");
                if (got[i].name != "c" || p >= nextk.size() || k != nextk[p]) { viol("n07:extra", "sent though pushed after the disconnection, or out of order: " + show(got[i]) + "; " + info); break; }
                if (spans[p][k][0] > d1) viol("n07:extra", "sent though pushed after the disconnection: " + show(got[i]) + "; " + info);
                nextk[p]++;
            }
            for (int p = 0; p < pushers && !violated(); ++p)
                if (nextk[p] < spans[p].size() && spans[p][nextk[p]][1] < d0) viol("n07:lost", fmt("pusher %d: request %zu was pushed before the disconnection and not sent; ", p, nextk[p]) + info);
            eval(mix(mix(g_seed, cs), got.size()), got.size() > 0);
            count("flushed", got.size()); count("late_or_concurrent_refused", pushers * per);
            sample(info + fmt(": %zu requests, %zu bytes flushed", got.size(), bytes));
        }
        quit = true;
        if (reader.joinable()) reader.join();
        if (!ended) finish(1);
    }
    iol::clear_faults();
    leak_check("n07");
}
// the flush takes longer than the timers' intervals
SCENARIO(n07_slow) {
    Rng r0(g_seed);
    vector<std::thread> th;
    for (int w = 0; w < 8; ++w) th.emplace_back([&, sd = r0.next(), w] {
        Rng r(sd);
        for (long cs = 0; cs < g_n && !violated(); ++cs) {
            if (w == 5) {
                // the thread does not get to run for longer than the limit while the peer reads
                LibRaw e(r.chance(0.5), 4096, 4096);
                e.c->SetSendBlockSize(16384); e.c->SetOurSaInterval(10);
                const int n = 20;
                for (int i = 0; i < n; ++i) push(e.c.get(), simple("q", i, 20000));
                msleep(100);
                e.c->SetTheirNaIntervalLimit(2);
                e.c->Disconnect(false);
                double t0 = now();
                e.raw.read_some(0.5, 2000);                        // (it is in the middle of it)
                if (now() - t0 > 1) { inconclusive("the machine was stalled"); continue; }
                iol::hold(e.fd, true);
                double t1 = now();
                while (now() - t1 < 2.4 && !e.raw.eof && !e.raw.err) { if (now() - t1 < 1) e.raw.read_some(0.05, 30000); else msleep(50); }
                iol::hold(e.fd, false);
                double t2 = now();
                while (!e.raw.eof && !e.raw.err && now() - t2 < 30) e.raw.read_some(0.5);
                if (max_gap_since(t0) > 0.8) { inconclusive("the machine was stalled"); continue; }
                string rest;
                auto got = frames_of(e.raw.in, rest);
                if (got.size() != n || rest.size()) viol("n07:cut", fmt("%zu of %d requests flushed to a peer that reads, after the thread had not run for 2.4 s (limit 2 s)", got.size(), n));
                if (!wait_for([&] { return e.c->WaitForStop(0); })) { viol("n07:no-end", "did not end after the thread had not run for a while"); finish(1); }
                eval(mix(mix(g_seed, w), cs)); count("descheduled_drains"); count("flushed", got.size());
                continue;
            }
            bool talks = w % 2;               // the peer keeps sending (and the library drops silent peers)
            LibRaw e(!talks && r.chance(0.5), 4096, 4096);
            e.c->SetSendBlockSize(16384);
            if (talks) { e.c->SetOurSaInterval(10); e.c->SetTheirNaIntervalLimit(2); }
            else { e.c->SetOurSaInterval(1); e.c->SetTheirNaIntervalLimit(60); }
            string info = talks ? "the peer sends and reads slowly, limit 2 s" : "the peer pauses, keep-alive interval 1 s";
            const int n = 60;
            for (int i = 0; i < n; ++i) push(e.c.get(), simple("q", i, 20000));
            double t0 = now(), slept = 0;
            e.c->Disconnect(false);
            if (!talks) {
                msleep(1500 + r.below(1500));
                if (e.c->WaitForStop(0)) viol("n07:cut", "the connection ended while requests were unsent; " + info);
                while (!e.raw.eof && !e.raw.err && now() - t0 < 40) e.raw.read_some(1);
            } else {
                double last = 0; bool late = false;
                string ka = enc(simple("_", 0));
                while (!e.raw.eof && !e.raw.err && now() - t0 < 60) {
                    if (now() - last > 0.3) { if (last && now() - last > 1.5) late = true; (void)!::send(e.raw.fd, ka.data(), ka.size(), MSG_DONTWAIT | MSG_NOSIGNAL); last = now(); }
                    if (now() - t0 < 5) { e.raw.read_some(0.05, 6000); msleep(30); } else e.raw.read_some(0.2);
                }
                if (late || max_gap_since(t0) > 1) { inconclusive("the machine was stalled"); continue; }
            }
            string rest;
            auto got = frames_of(e.raw.in, rest);
            if (got.size() != n || rest.size()) viol("n07:cut", fmt("%zu of %d requests flushed and %zu bytes of another in %.1f s; ", got.size(), n, rest.size(), now() - t0) + info);
            for (size_t i = 0; i < got.size(); ++i) if (argnum(got[i], "k") != i) { viol("n07:order", "flushed out of order; " + info); break; }
            if (!wait_for([&] { return e.c->WaitForStop(0); })) { viol("n07:no-end", "did not end; " + info); finish(1); }
            eval(mix(mix(g_seed, w), cs)); count("slow_drains"); count("flushed", got.size());
        }
    });
    for (auto& t : th) t.join();
}
// nothing to send; both sides at once; library on both sides
SCENARIO(n07_both) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5);
        Guard gd("n07 case", 60);
        if (r.chance(0.6)) disturb(r);
        if (r.chance(0.4)) {
            // raw, idle
            LibRaw e(tcp);
            int n = r.below(3);
            for (int i = 0; i < n; ++i) push(e.c.get(), simple("q", i));
            RR q;
            for (int i = 0; i < n; ++i) e.raw.request(q, 20);
            if (r.chance(0.3)) msleep(r.below(10));
            e.c->Disconnect(false);
            if (r.chance(0.5)) e.c->Disconnect(false);
            if (!wait_for([&] { return e.c->WaitForStop(0); })) { viol("n07:no-end", "an idle connection did not end after a graceful disconnect"); finish(1); }
            if (!e.raw.wait_eof(20) || e.raw.err) viol("n07:no-eof", "the peer of an idle connection saw no end of stream");
            check_ended(*e.c, "n07", "idle");
            eval(mix(mix(g_seed, cs), 1));
        } else {
            Sink ss; std::atomic<Connection*> sc{nullptr}; std::atomic<int> gone{0};
            ServerHub hub(tcp);
            hub.on_connect = [&](Connection* c) { sinks().set(c, &ss); c->SetHandlerDefault(h_sink); sc = c; };
            hub.on_disconnect = [&](Connection* c) { if (c->IsConnected()) viol("n07:early-stop", "the disconnected handler ran for a connection that is up"); gone++; };
            Client c;
            if (!hub.connect(c) || !greeted(c)) { inconclusive("connect"); continue; }
            SafeConnection* ref = nullptr;
            uint32_t n = r.below(60);
            int how = r.below(3);
            for (uint32_t i = 0; i < n; ++i) push(&c, simple("q", i, r.chance(0.1) ? 9000 : r.below(50)));
            if (how == 2) {       // both sides at once, nothing of the server's in flight
                if (!progress(ss.n, n)) viol("n07:lost", "not delivered");
                std::thread a([&] { c.Disconnect(false); });
                Connection* s = sc;
                ref = hub.s.GetConnection(1u);
                if (ref) (*ref)().Disconnect(false);
                delete ref;
                a.join();
            } else if (how == 1) {
                bounded("Disconnect(false, true)", 40, [&] { c.Disconnect(false, true); });
                if (c.IsConnected()) viol("n07:early-stop", "Disconnect() that waits returned while connected");
            } else c.Disconnect(false);
            if (!wait_for([&] { return c.WaitForStop(0); })) { viol("n07:no-end", fmt("a client did not end after a graceful disconnect (%d)", how)); finish(1); }
            if (!wait_for([&] { return gone == 1; })) { viol("n07:no-end", fmt("the server's side did not end (%d)", how)); finish(1); }
            auto v = ss.all();
            if (v.size() != n) viol("n07:lost", fmt("%u requests pushed before a graceful disconnect, %zu delivered", n, v.size()));
            for (size_t i = 0; i < v.size(); ++i) if (argnum(v[i], "k") != i) { viol("n07:order", "delivered out of order"); break; }
            check_ended(c, "n07", "client");
            count("flushed", n);
            eval(mix(mix(g_seed, cs), n * 4 + how));
        }
        iol::clear_faults();
    }
    iol::clear_faults();
}
// the peer sends while the connection drains (known finding)
SCENARIO(k3_reset) {
    LibRaw e(true, 4096);
    e.c->SetSendBlockSize(65536);
    const int n = 60;
    for (int i = 0; i < n; ++i) push(e.c.get(), simple("q", i, 20000));
    e.c->Disconnect(false);
    e.raw.send(enc(simple("unread", 1)));
    double t0 = now();
    while (!e.raw.eof && !e.raw.err && now() - t0 < 60) { e.raw.read_some(1, 3000); msleep(0.3); }
    string rest;
    auto got = frames_of(e.raw.in, rest);
    if (!wait_for([&] { return e.c->WaitForStop(0); })) viol("n07:no-end", "did not end");
    if (got.size() != n || rest.size()) viol("k3:tail-lost", fmt("%zu of %d requests flushed, then %s", got.size(), n, e.raw.err ? strerror(e.raw.errn) : "end of stream"));
    eval(1);
}

// ------------------------------------------------------------ N08
static Reg<std::function<void(Connection*)>>& hooks() { static auto* r = new Reg<std::function<void(Connection*)>>; return *r; }
static void h_hook(Connection* c, Request* r) { delete r; auto* f = hooks().get(c); if (f) (*f)(c); }
SCENARIO(n08_end) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5), small_buf = r.chance(0.5);
        int how = r.below(9);
        static const char* hows[] = {"Disconnect(true)", "Disconnect(true,true)", "destruction", "peer close", "peer reset", "peer half-close", "graceful then forced", "concurrent", "forced by handler"};
        string info = fmt("case %ld: %s %s %s", cs, tcp ? "tcp" : "unix", small_buf ? "small buffers" : "", hows[how]);
        Guard gd("n08 case", 60, info);
        LibRaw e(tcp, small_buf && tcp ? 4096 : 0, small_buf ? 4096 : 0);
        Connection* c = e.c.get();
        std::atomic<int> hooked{0};
        std::function<void(Connection*)> hook = [&](Connection* x) { if (how == 8) { x->Disconnect(true); x->Disconnect(true); } hooked++; };
        hooks().set(c, &hook);
        c->SetHandlerNamed("act", h_hook);
        c->SetMaxRequestSize(1 << 22);
        static const uint32_t bl[] = {1, 10, 1024, 100000};
        c->SetSendBlockSize(bl[r.below(4)]); c->SetRecvBlockSize(bl[r.below(4)]);
        if (r.chance(0.7)) disturb(r);
        // state: queue, half-sent, half-received, unpulled
        bool reads = r.chance(0.4);
        std::atomic<bool> stop{false};
        std::thread reader;
        if (reads) reader = std::thread([&] { while (!stop && !e.raw.eof && !e.raw.err) e.raw.read_some(0.05); });
        int unp = r.below(4);
        string in;
        for (int i = 0; i < unp; ++i) in += enc(simple("un", i, r.below(300)));
        int half = r.below(4);
        string part = enc(simple("half", 0, 5000));
        if (half == 1) in += part.substr(0, 1 + r.below(3));
        else if (half == 2) in += part.substr(0, 4 + r.below(20));
        else if (half == 3) in += part.substr(0, part.size() - 1);
        if (how != 8) e.raw.send(in);
        size_t volume = r.below(3);
        int n = volume == 0 ? 0 : volume == 1 ? r.below(20) : 12;
        for (int i = 0; i < n; ++i) push(c, simple("q", i, volume == 2 ? 400000 : r.below(300)), true);
        std::thread pusher;
        bool pushing = how != 2 && r.chance(0.5);
        if (pushing) pusher = std::thread([&] { for (int i = 0; i < 3000 && !stop; ++i) { if (c->Push(build(simple("p", i)), false)) viol("n08:push-result", "push returned a request"); if (i % 64 == 0) sched_yield(); } });
        if (r.chance(0.6)) msleep(r.below(40) / 10.0);
        RP pulled; std::thread puller;
        bool pulling = how != 2 && r.chance(0.3);
        if (pulling) puller = std::thread([&] { while (true) { RP q(c->Pull(-1)); if (!q) break; } });
        std::thread wthr; bool waiting = how != 2 && r.chance(0.3);
        if (waiting) wthr = std::thread([&] { if (!c->WaitForStop(endless()) || c->IsConnected()) viol("n08:wait", "WaitForStop() woke while connected; " + info); });
        // someone holds references meanwhile: the end is noticed, and final, all the same
        vector<SafeConnection*> refs; std::thread releaser; std::atomic<bool> going{false};
        if (how != 2 && r.chance(0.25)) {
            for (int i = 0, k = 1 + r.below(3); i < k; ++i) refs.push_back(new SafeConnection(c));
            releaser = std::thread([&, late = r.below(10) * 0.2] {
                while (!going) std::this_thread::yield();
                if (!wait_for([&] { return c->IsDisconnecting() || !c->IsConnected(); })) { viol("n08:no-end", "a connection that is referenced does not notice its end; " + info); finish(1); }
                push(c, simple("late", 1), true); c->Push(build(simple("late", 2)), false);
                msleep(late);
                if (c->WaitForStop(0)) viol("n08:torn-down", "the end of a connection was reported while it was referenced; " + info);
                for (auto* x : refs) delete x;
            });
            count("referenced_meanwhile");
        }
        double t0 = now();
        going = true;
        switch (how) {
            case 0: c->Disconnect(true); break;
            case 1: bounded("Disconnect(true,true)", 20, [&] { c->Disconnect(true, true); }); if (c->IsConnected()) viol("n08:returned-early", "a waiting disconnect returned while connected; " + info); break;
            case 2: e.destroy(); break;
            case 3: stop = true; if (reads) reader.join(); e.raw.close(); break;
            case 4: stop = true; if (reads) reader.join(); if (!tcp) { e.raw.close(); } else e.raw.reset(); break;
            case 5: shutdown(e.raw.fd, SHUT_WR); break;
            case 6: c->Disconnect(false); if (r.chance(0.5)) msleep(r.below(30) / 10.0); c->Disconnect(true); break;
            case 7: {
                vector<std::thread> v;
                for (int i = 0; i < 3; ++i) v.emplace_back([&, i, f = r.chance(0.7), w = r.chance(0.4)] { c->Disconnect(i == 0 || f, w); });
                if (r.chance(0.4)) { shutdown(e.raw.fd, SHUT_RDWR); }
                bounded("concurrent disconnects", 20, [&] { for (auto& t : v) t.join(); });
                break;
            }
            default: e.raw.send(enc(simple("act", 0)));
        }
        if (how != 2) {
            if (!wait_for([&] { return c->WaitForStop(0); })) { viol("n08:no-end", "the connection did not end; " + info); finish(1); }
            double el = now() - t0;
            count("slow_ends", el > 1);
            check_ended(*c, "n08", info);
        }
        stop = true;
        bounded("helpers", 30, [&] {
            if (releaser.joinable()) releaser.join();
            if (pushing) pusher.join();
            if (pulling) puller.join();
            if (waiting) wthr.join();
            if (reads && reader.joinable()) reader.join();
        });
        // the peer is told
        if (e.raw.fd >= 0 && !e.raw.wait_eof(20)) viol("n08:peer-not-told", "the peer saw no end of the connection; " + info);
        if (!refs.empty() && e.raw.in.find(string("\4\0late", 6)) != string::npos) viol("n08:late", "something that was pushed after the end was sent; " + info);
        hooks().set(c, nullptr);
        if (how != 2 && pulling == false && how != 8) {
            // what was received stays available, nothing else
            int k = 0;
            while (true) { RP q(c->Pull(0)); if (!q) break; if ((int)argnum(extract(q.get()), "k") != k) { viol("n08:queue", "wrong request in the queue after the end; " + info); break; } k++; }
            if (k > unp) viol("n08:queue", "more requests than were sent; " + info);
        }
        iol::clear_faults();
        e.destroy();
        eval(mix(mix(g_seed, cs), how));
        count(string("end by ") + hows[how]);
    }
    iol::clear_faults();
    leak_check("n08");
}
// both ends in the library; ends at random moments of an exchange
SCENARIO(n08_both) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("n08 case", 60);
        bool tcp = r.chance(0.5);
        std::atomic<int> up{0}, down{0};
        Sink ss;
        ServerHub hub(tcp);
        hub.on_connect = [&](Connection* c) { sinks().set(c, &ss); c->SetHandlerDefault([](Connection* c, Request* r) { c->Push(r, false, 0, false); }); up++; };
        hub.on_disconnect = [&](Connection* c) { if (c->IsConnected()) viol("n08:still-connected", "the disconnected handler ran for a connection that is up"); sinks().set(c, nullptr); down++; };
        if (r.chance(0.7)) disturb(r);
        int nc = 1 + r.below(4);
        vector<std::thread> th;
        for (int k = 0; k < nc; ++k) th.emplace_back([&, sd = r.next()] {
            Rng t(sd);
            Client c;
            for (int s = 0; s < 3; ++s) {
                // (another client may end it at once)
                if (!hub.connect(c)) { count("ended_while_connecting"); wait_for([&] { return !c.IsConnected(); }); continue; }
                int n = t.below(100);
                for (int i = 0; i < n; ++i) push(&c, simple("q", i, t.below(2000)), true);
                if (t.chance(0.5)) { RP q(c.Pull(1)); }
                switch (t.below(3)) {
                    case 0: bounded("Disconnect(true,true)", 20, [&] { c.Disconnect(true, true); }); break;
                    case 1: c.Disconnect(true); break;
                    default: { SafeConnection* x = hub.s.GetConnection((uint32_t)(1 + t.below(nc * 3))); if (x) { (*x)().Disconnect(true); delete x; } c.Disconnect(true); }
                }
                if (!wait_for([&] { return c.WaitForStop(0); })) { viol("n08:no-end", "the client did not end"); return; }
                if (c.IsConnected()) viol("n08:still-connected", "connected after the stop event");
            }
        });
        bounded("clients", 60, [&] { for (auto& t : th) t.join(); });
        if (!wait_for([&] { return down == up; })) viol("n08:no-end", fmt("%d server connections, %d ended", up.load(), down.load()));
        iol::clear_faults();
        eval(mix(g_seed, cs)); count("sessions", up);
    }
    iol::clear_faults();
}

// ------------------------------------------------------------ N09
// One sub-scenario: returns "" when fine; sets soft for a verdict that depends on an upper time bound.
struct Verdict { string key, text; bool soft = false; };
typedef std::function<Verdict(Rng&)> Sub;
static Verdict fine() { return {}; }
static const double SLACK = 2.5;
static double slack_since(double t0) { return SLACK + 2 * max_gap_since(t0); }

// an idle endpoint sends a keep-alive in every interval
static Verdict idle_keepalive(Rng& r, int sa, bool set_live, bool peer_talks, double secs) {
    bool tcp = r.chance(0.5);
    LibRaw e(tcp); e.handle();
    if (set_live) msleep(200);
    e.c->SetOurSaInterval(sa);
    if (e.c->GetOurSaInterval() != sa) return {"n09:getter", "GetOurSaInterval()"};
    double t0 = now(), last = t0; int n = 0;
    while (now() - t0 < secs) {
        string f;
        double before = now();
        if (peer_talks) {
            e.raw.send(enc(simple("x", n)));
            if (!e.raw.frame(f, 0.3)) { if (e.raw.eof || e.raw.err) return {"n09:ended", "an idle connection ended"}; if (now() - last > sa + slack_since(last)) return {"n09:no-keep-alive", fmt("nothing was sent for %.2f s, the interval is %d s, while the peer sends", now() - last, sa), true}; continue; }
        } else if (!e.raw.frame(f, sa + slack_since(last))) {
            if (e.raw.eof || e.raw.err) return {"n09:ended", "an idle connection ended"};
            return {"n09:no-keep-alive", fmt("nothing was sent for %.2f s, the interval is %d s", now() - last, sa), true};
        }
        RR q; size_t u;
        if (dec(f, q, u) != 1 || q.name != "_") return {"n09:keep-alive-content", "an idle connection sent " + hex(f)};
        if (now() - last > sa + slack_since(last)) return {"n09:no-keep-alive", fmt("nothing was sent for %.2f s, the interval is %d s", now() - last, sa), true};
        last = now(); n++;
        (void)before;
    }
    count("keep_alives_seen", n);
    if (n > secs / sa + 2) count("frequent_keep_alives");
    return fine();
}
// a silent peer is dropped, not before the limit
static Verdict silent_dropped(Rng& r, int na, int variant) {
    bool tcp = r.chance(0.5);
    double t0 = now();
    double base = t0;                      // (time that passed before the limit was set counts)
    LibRaw e(tcp); e.handle();
    e.c->SetOurSaInterval(variant == 3 ? 1 : 30);
    e.c->SetTheirNaIntervalLimit(na);
    if (e.c->GetTheirNaIntervalLimit() != na) return {"n09:getter", "GetTheirNaIntervalLimit()"};
    std::atomic<bool> stop{false};
    std::thread busy;
    double last = base;
    if (variant == 1) {            // we keep sending
        busy = std::thread([&] { int i = 0; while (!stop) { push(e.c.get(), simple("b", i++, 200)); msleep(100); } });
    } else if (variant == 2) {     // it was talking first, then stops in the middle of a request
        for (int i = 0; i < 3; ++i) { msleep(400); last = now(); e.raw.send(enc(simple("t", i))); }
        last = now(); e.raw.send(enc(simple("part", 1, 100)).substr(0, 3 + r.below(60)));
    } else if (variant == 4) {     // handler pushes on every arrival; one arrival
        last = now(); e.raw.send(enc(simple("t", 1)));
    }
    double end = 0;
    while (now() - last < na + 20 && !end) {
        if (e.raw.eof || e.raw.err) { end = now(); break; }
        e.raw.read_some(0.05);
        if (now() - last > na + slack_since(last) + 1) break;
    }
    stop = true;
    if (busy.joinable()) busy.join();
    if (!end) return {"n09:silent-not-dropped", fmt("a peer silent for %.2f s was not disconnected, the limit is %d s (variant %d)", now() - last, na, variant), true};
    if (end - last < na) return {"n09:dropped-early", fmt("a peer was disconnected %.3f s after it sent something, the limit is %d s (variant %d)", end - last, na, variant)};
    if (!wait_for([&] { return e.c->WaitForStop(0); })) return {"n09:no-stop", "the stop event is not signalled after a silent peer was dropped"};
    count("silent_dropped");
    (void)t0;
    return fine();
}
// a peer that sends a byte now and then is kept
static Verdict drip(Rng& r, int na, int where, double secs) {
    bool tcp = r.chance(0.5);
    double last = now();
    LibRaw e(tcp); e.handle();
    e.c->SetRecvBlockSize(r.chance(0.5) ? 1 : 1024);
    string s;
    if (where == 0) s = enc(simple("slow", 1, 200));                        // length and body
    else if (where == 1) { for (int i = 0; i < 40; ++i) { RR k; k.name = "_"; s += enc(k); } }   // keep-alives
    else { s = enc(simple("slow", 1, 200)); e.raw.send(s.substr(0, 50)); s.erase(0, 50); }
    e.c->SetTheirNaIntervalLimit(na);
    double t0 = now(); size_t off = 0; double worst = 0;
    while (now() - t0 < secs) {
        msleep(na * 600);
        size_t n = where == 1 ? 11 : 1;
        double t = now();
        if (!e.raw.send(s.substr(off, n), 5)) { if (worst + SLACK / 10 > na) return fine(); }
        worst = std::max(worst, now() - last);
        last = t; off += n;
        e.raw.read_some(0);
        if (e.raw.eof || e.raw.err || !e.c->IsConnected()) {
            if (worst > na * 0.85) { count("drip_too_slow"); return fine(); }      // our own fault
            return {"n09:live-dropped", fmt("a peer that sent something every %.2f s was disconnected, the limit is %d s (where %d)", worst, na, where)};
        }
    }
    count("drips");
    return fine();
}
static void h_slow(Connection* c, Request* r) { delete r; msleep(3200); Sink* s = sinks().get(c); s->add(RR()); }
static Verdict long_handler(Rng& r) {
    double last = now(), worst = 0;
    LibRaw e(r.chance(0.5));
    e.c->SetTheirNaIntervalLimit(2);
    e.c->SetOurSaInterval(1);
    e.c->SetHandlerNamed("slow", h_slow);
    e.c->SetHandlerDefault(h_sink);
    e.raw.send(enc(simple("slow", 0)));
    worst = now() - last;
    double t0 = last = now();
    int i = 0;
    while (now() - t0 < 7) {
        msleep(500);
        worst = std::max(worst, now() - last); last = now();
        e.raw.send(enc(simple("x", i++)));
        e.raw.read_some(0);
        if (worst > 1.6) return fine();
        if (e.raw.eof || e.raw.err || !e.c->IsConnected()) return {"n09:live-dropped", "a peer that kept sending was disconnected after a handler took longer than the limit"};
    }
    if (!wait_for([&] { return (int)e.sink.n >= i + 1; })) return {"n09:lost", "requests were not handled after a long handler"};
    count("long_handlers");
    return fine();
}
// the polling thread does not get to run for longer than the limit while the peer goes on
static Verdict descheduled(Rng& r) {
    LibRaw e(r.chance(0.5));
    e.handle();
    bool part = r.chance(0.5), sends = r.chance(0.5);
    e.c->SetOurSaInterval(r.chance(0.5) ? 1 : 30);
    double t0 = now(), last = t0, worst = 0;
    e.raw.send(enc(simple("first", 0)));
    if (!progress(e.sink.n, 1)) return {"n09:lost", "not delivered"};
    e.c->SetTheirNaIntervalLimit(1);
    iol::hold(e.fd, true);
    // wake it, so that it gets to wait again (and is held)
    string bytes; size_t off = 0, count0 = 1;
    for (int i = 0; i < 12; ++i) { bytes += enc(simple("x", i, 20)); }
    size_t piece = part ? 7 : bytes.size() / 12;
    bool released = false;
    while (off < bytes.size()) {
        size_t n = std::min(piece, bytes.size() - off);
        e.raw.send(bytes.substr(off, n)); off += n;
        worst = std::max(worst, now() - last); last = now();
        if (worst > 0.8) { iol::hold(e.fd, false); return fine(); }
        if (sends) push(e.c.get(), simple("s", 1));
        if (!released && now() - t0 > 1.7) { iol::hold(e.fd, false); released = true; }
        if (released && piece < 100) piece = 40;
        e.raw.read_some(0);
        if (e.raw.eof || e.raw.err || !e.c->IsConnected()) { iol::hold(e.fd, false); return {"n09:live-dropped", fmt("a peer that sent something every %.2f s was disconnected after the thread had been descheduled, the limit is 1 s", worst)}; }
        msleep(150);
    }
    iol::hold(e.fd, false);
    if (!wait_for([&] { return e.sink.n >= count0 + 12 || e.raw.eof || !e.c->IsConnected(); }) || e.sink.n < count0 + 12) {
        if (now() - last > 0.9 && !released) return fine();
        return {"n09:live-dropped", "a peer that kept sending was disconnected, or its requests were lost, after the thread had been descheduled"};
    }
    count("descheduled");
    return fine();
}
// both timers, incoming and outgoing data at the same moment: nothing stalls
static Verdict all_at_once(Rng& r) {
    LibRaw e(r.chance(0.5));
    e.c->SetHandlerDefault([](Connection* c, Request* q) { q->SetName("echo"); c->Push(q, false, 0, false); });
    int sa = 4;
    e.c->SetOurSaInterval(sa);
    e.c->SetTheirNaIntervalLimit(30);
    double t0 = now();
    iol::hold(e.fd, true);
    push(e.c.get(), simple("s", 1));
    while (now() - t0 < sa + 0.4) { msleep(50); push(e.c.get(), simple("s", 2)); }
    if (r.chance(0.5)) e.raw.send(enc(simple("e", 1)));
    iol::hold(e.fd, false);
    double t1 = now();
    e.raw.send(enc(simple("e", 7)));
    RR q;
    while (e.raw.request(q, 20) && !(q.name == "echo" && argnum(q, "k") == 7)) {}
    if (q.name != "echo") return {"n09:lost", "no answer after the timers expired together with traffic"};
    if (now() - t1 > slack_since(t1)) return {"n09:stalled", fmt("an answer took %.2f s after the keep-alive timer expired together with traffic", now() - t1), true};
    count("timers_with_traffic");
    return fine();
}
static Verdict raised(Rng& r) {
    LibRaw e(r.chance(0.5)); e.handle();
    e.c->SetTheirNaIntervalLimit(2);
    double t0 = now();
    msleep(900);
    e.c->SetTheirNaIntervalLimit(50);
    if (now() - t0 > 1.8) return fine();
    double end = now() + 4;
    while (now() < end) { e.raw.read_some(0.1); if (e.raw.eof || e.raw.err) return {"n09:dropped-early", "a silent peer was dropped by the old limit after it was raised to 50 s"}; }
    // and lowered again (the silence until now may count)
    double base = now();
    e.c->SetTheirNaIntervalLimit(1);
    while (now() - base < 1 + slack_since(base) && !e.raw.eof && !e.raw.err) e.raw.read_some(0.1);
    if (!e.raw.eof && !e.raw.err) return {"n09:silent-not-dropped", fmt("a silent peer is not dropped %.2f s after the limit was lowered to 1 s", now() - base), true};
    count("limit_changes");
    return fine();
}
static Verdict lib_pair_idle(Rng& r, double secs) {
    bool tcp = r.chance(0.5);
    std::atomic<int> gone{0};
    Sink ss;
    ServerHub hub(tcp);
    hub.on_connect = [&](Connection* c) { sinks().set(c, &ss); c->SetHandlerDefault(h_sink); c->SetOurSaInterval(1); c->SetTheirNaIntervalLimit(3); };
    hub.on_disconnect = [&](Connection* c) { gone++; };
    Client c;
    c.SetOurSaInterval(1); c.SetTheirNaIntervalLimit(3);
    if (!hub.connect(c) || !greeted(c)) return {"n09:connect", "could not connect"};
    double t0 = now();
    while (now() - t0 < secs) {
        msleep(100);
        if (gone || !c.IsConnected()) {
            if (max_gap_since(t0) > 0.5) return fine();
            return {"n09:live-dropped", fmt("an idle connection between live endpoints ended after %.2f s", now() - t0), true};
        }
    }
    RP q(c.Pull(0));
    if (q || ss.n) return {"n09:keep-alive-delivered", "a keep-alive was delivered to the application"};
    push(&c, simple("x", 1));
    if (!progress(ss.n, 1)) return {"n09:lost", "an idle connection does not work anymore"};
    bounded("close", 20, [&] { c.Disconnect(false, true); });
    count("idle_pairs");
    return fine();
}
// timers start afresh with every session and settings persist
static Verdict sessions(Rng& r) {
    Listener l(r.chance(0.5));
    Client c;
    c.SetTheirNaIntervalLimit(3);
    c.SetOurSaInterval(1);
    if (c.GetTheirNaIntervalLimit() != 3 || c.GetOurSaInterval() != 1) return {"n09:getter", "intervals set before connecting"};
    for (int s = 0; s < 2; ++s) {
        double t0 = now();
        if (!connect_client(c, l)) return {"n09:connect", "could not connect"};
        Raw p = l.accept();
        double last = now(); int ka = 0; double end = 0;
        while (now() - t0 < 3 + slack_since(t0)) {
            string f;
            if (p.frame(f, 0.2)) {
                if (now() - last > 1 + slack_since(last)) return {"n09:no-keep-alive", fmt("session %d: nothing was sent for %.2f s", s, now() - last), true};
                last = now(); ka++;
            }
            if (p.eof || p.err) { end = now(); break; }
            if (s == 0 && now() - t0 > 1.7) break;      // end the first session by force, with the timers running
        }
        if (s == 0) {
            c.Disconnect(true);
            if (!wait_for([&] { return c.WaitForStop(0); })) return {"n09:no-stop", "did not end"};
            if (end && end - t0 < 3) return {"n09:dropped-early", "dropped before the limit"};
            continue;
        }
        if (!end) return {"n09:silent-not-dropped", fmt("session %d: a silent peer was not dropped in %.2f s, the limit is 3 s", s, now() - t0), true};
        if (end - t0 < 3) return {"n09:dropped-early", fmt("session %d: dropped after %.3f s, the limit is 3 s", s, end - t0)};
        if (!ka) return {"n09:no-keep-alive", "no keep-alive in the second session", true};
    }
    count("session_pairs");
    return fine();
}
// a connection that drains toward a peer that neither reads nor sends ends with the limit
static Verdict drain_stuck(Rng& r) {
    double base = now();
    LibRaw e(r.chance(0.5), 0, 0);
    for (int i = 0; i < 30; ++i) push(e.c.get(), simple("q", i, 300000));
    e.c->SetSendBlockSize(100000);
    msleep(100);
    e.c->SetTheirNaIntervalLimit(2);
    e.c->Disconnect(false);
    if (!wait_for([&] { return e.c->WaitForStop(0); }, 15)) return {"n09:silent-not-dropped", "a draining connection to a stuck, silent peer did not end with the limit of 2 s", true};
    if (now() - base < 2) return {"n09:dropped-early", "a draining connection was cut before the limit"};
    count("stuck_drains");
    return fine();
}
static Verdict clamps() {
    double t0 = now();
    LibRaw e(false);
    e.c->SetOurSaInterval(0); if (e.c->GetOurSaInterval() < 1) return {"n09:clamp", "an interval of 0 is not raised"};
    e.c->SetTheirNaIntervalLimit(-5); if (e.c->GetTheirNaIntervalLimit() < 1) return {"n09:clamp", "a negative limit is not raised"};
    msleep(300);
    if (now() - t0 < 0.9 && !e.c->IsConnected()) return {"n09:dropped-early", "dropped at once with the least limit"};
    return fine();
}
// sends a lot all the time but only as the answer to the peer: busy both ways, nothing may happen
static Verdict busy(Rng& r) {
    double last = now(), worst = 0;
    LibRaw e(r.chance(0.5));
    e.c->SetOurSaInterval(1); e.c->SetTheirNaIntervalLimit(1);
    e.c->SetHandlerDefault([](Connection* c, Request* q) { c->Push(q, false, 0, false); });
    double t0 = now(); int i = 0;
    while (now() - t0 < 4) {
        e.raw.send(enc(simple("x", i))); worst = std::max(worst, now() - last); last = now();
        RR q;
        if (!e.raw.request(q, 10)) {
            if (worst > 0.7) return fine();
            return {"n09:live-dropped", "a busy connection ended"};
        }
        if (argnum(q, "k") != (uint64_t)i) return {"n09:lost", "wrong echo"};
        i++;
        if (r.chance(0.3)) msleep(r.below(50));
    }
    count("busy_echoes", i);
    return fine();
}
// long limits and intervals are not taken for short ones
static Verdict long_limits(Rng& r) {
    static const time_t v[] = {60, 127, 128, 129, 200, 255, 256, 257, 258, 300, 1000, 4295, 4296, 8590, 8591, 32767, 32768, 65535, 65536, 65537, 65538, 100000, 131073, 2147484, 4294968, 12884902, 16777217,
        2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 4294967297ll, 5000000000ll};
    vector<std::unique_ptr<LibRaw>> e; vector<time_t> na;
    double t0 = now();
    for (time_t x : v) {
        e.emplace_back(new LibRaw(r.chance(0.5))); na.push_back(x);
        e.back()->c->SetTheirNaIntervalLimit(x);
        if (r.chance(0.7)) e.back()->c->SetOurSaInterval(v[r.below(sizeof v / sizeof *v)]);
    }
    while (now() - t0 < 4.5) msleep(100);
    for (size_t i = 0; i < e.size(); ++i) {
        e[i]->raw.read_some(0);
        if (!e[i]->c->IsConnected() || e[i]->raw.eof || e[i]->raw.err) return {"n09:dropped-early", fmt("a peer that was silent for %.1f s at most was disconnected, the limit is %lld s", now() - t0, (long long)na[i])};
    }
    count("long_limits", e.size());
    return fine();
}
// what nobody has set: two endpoints stay connected, a silent peer is dropped
SCENARIO(n09_default) {
    Rng r0(g_seed);
    vector<std::thread> th;
    for (int w = 0; w < 6; ++w) th.emplace_back([&, w, sd = r0.next()] {
        Rng r(sd);
        for (int attempt = 0; attempt < 4; ++attempt) {
            double t0 = now(), last = t0; bool late = false;
            LibRaw e(w % 2); e.handle();
            time_t sa = e.c->GetOurSaInterval(), na = e.c->GetTheirNaIntervalLimit();
            if (sa < 1 || sa >= na) { viol("n09:defaults", fmt("the default interval is %lld s and the default limit %lld s", (long long)sa, (long long)na)); return; }
            if (sa > 20 || na > 90) { inconclusive("the defaults are too long to be waited for"); return; }
            last = now();
            int n = 0;
            while (now() - t0 < na + 20 && !violated()) {
                if (!e.raw.read_some(0.2) && (e.raw.eof || e.raw.err)) break;
                if ((int)e.raw.in.size() > n) { n = e.raw.in.size(); last = now(); }
                double el = now() - last;
                if (el > sa + slack_since(last) + 1) { late = true; break; }
                if (now() - t0 > na + slack_since(t0) + 1.5) break;
            }
            double el = now() - t0;
            bool ended = e.raw.eof || e.raw.err;
            if (ended && el < na - 0.001) { viol("n09:dropped-early", fmt("a peer was disconnected after %.3f s of silence, the default limit is %lld s", el, (long long)na)); return; }
            if (!late && ended) { eval(mix(g_seed, w)); count("default_keep_alive_bytes", n); return; }
            if (attempt == 3) { if (max_gap_since(t0) > 1) inconclusive("the machine was stalled"); else viol(late ? "n09:no-keep-alive" : "n09:silent-not-dropped", fmt("with the default settings (%lld, %lld): %.1f s after the last message, %.1f s of silence of the peer", (long long)sa, (long long)na, now() - last, el)); }
        }
    });
    for (auto& t : th) t.join();
}
// the settings are set again and again
static Verdict set_often_sa(Rng& r, bool same) {
    LibRaw e(r.chance(0.5)); e.handle();
    int sa = 1 + r.below(2);
    std::atomic<bool> stop{false};
    double t0 = now(), last = t0;
    std::thread th([&, sd = r.next()] { Rng t(sd); while (!stop) { e.c->SetOurSaInterval(same || t.chance(0.5) ? sa : 1 + t.below(sa)); if (t.chance(0.2)) e.c->SetTheirNaIntervalLimit(60); msleep(20 + t.below(400)); } });
    Verdict v = fine();
    while (now() - t0 < 7) {
        string f;
        if (!e.raw.frame(f, sa + slack_since(last))) {
            v = e.raw.eof || e.raw.err ? Verdict{"n09:ended", "an idle connection ended while its interval is set again and again"} :
                Verdict{"n09:no-keep-alive", fmt("nothing was sent for %.2f s while the interval was set to at most %d s again and again", now() - last, sa), true};
            break;
        }
        last = now();
    }
    stop = true; th.join();
    if (v.key.empty()) count("set_again_and_again");
    return v;
}
static Verdict set_often_na(Rng& r, bool same) {
    LibRaw e(r.chance(0.5)); e.handle();
    int na = 1 + r.below(3);
    std::atomic<bool> stop{false};
    double t0 = now();
    std::thread th([&, sd = r.next()] { Rng t(sd); while (!stop) { e.c->SetTheirNaIntervalLimit(same || t.chance(0.5) ? na : na + 1 + t.below(2)); msleep(20 + t.below(400)); } });
    while (!e.raw.eof && !e.raw.err && now() - t0 < na + 2 + slack_since(t0)) e.raw.read_some(0.05);
    double el = now() - t0;
    stop = true; th.join();
    if (!e.raw.eof && !e.raw.err) return {"n09:silent-not-dropped", fmt("a peer silent for %.2f s was not disconnected while the limit was set to at most %d s again and again", el, na + 2), true};
    count("set_again_and_again");
    return fine();
}
// an interval is set at the moment of a transfer, which begins a new one
SCENARIO(n09_changes) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("n09 changes", 100);
        int late_sa = 0, late_na = 0, n = 80, lates = 0; double el = 0, need = 0;
        for (int attempt = 0; attempt < 8 && lates < 2; ++attempt) {
            vector<std::unique_ptr<LibRaw>> e;
            for (int i = 0; i < n; ++i) {
                e.emplace_back(new LibRaw(r.chance(0.5))); e.back()->handle();
                e.back()->c->SetOurSaInterval(100000 + r.below(100000)); e.back()->c->SetTheirNaIntervalLimit(100000 + r.below(100000));
            }
            bool slow = r.chance(0.8);
            if (slow) { iol::cfg.delay = 65535; iol::cfg.delay_us = 50 + r.below(2000); }
            vector<int> keep; vector<RR> sent;
            double t0 = now();
            for (int i = 0; i < n; ++i) {
                auto& x = *e[i];
                int what = i % 2;
                if (what == 0) push(x.c.get(), simple("s", i)); else x.raw.send(enc(simple("r", i)));
                double wait = now() + r.below(slow ? 4000 : 200) * 1e-6;
                while (now() < wait) ;
                if (what == 0) x.c->SetOurSaInterval(1); else x.c->SetTheirNaIntervalLimit(1);
            }
            iol::clear_faults(); iol::cfg.delay_us = 200;
            double t1 = now();
            late_sa = late_na = 0;
            for (int i = 0; i < n; ++i) {
                auto& x = *e[i];
                auto left = [&] { return std::max(0.0, t1 + 1 + slack_since(t0) - now()); };
                if (i % 2 == 0) {
                    string f;              // the request, and a keep-alive after it
                    if (!x.raw.frame(f, left()) || !x.raw.frame(f, left())) late_sa++;
                } else {
                    while (!x.raw.eof && !x.raw.err && left() > 0) x.raw.read_some(std::min(0.05, left()));
                    x.raw.read_some(0);
                    if (!x.raw.eof && !x.raw.err) late_na++;
                    else if (x.sink.n != 1) viol("n09:lost", "a request that came while the limit was changed is lost");
                }
            }
            el = now() - t1; need = slack_since(t0);
            count("set_during_transfers", n);
            if (late_sa || late_na) { lates++; count("retried"); }
            if (!lates) break;
        }
        if (lates > 1) viol(late_sa ? "n09:no-keep-alive" : "n09:silent-not-dropped", fmt("%.2f s (tolerance %.2f s) after an interval and a limit of 1 s were set while something was sent or received, %d of %d connections have sent no keep-alive and %d of %d silent peers are connected", el, need, late_sa, n / 2, late_na, n / 2));
        eval(mix(g_seed, cs));
    }
    iol::clear_faults();
}
// side by side; what depends on an upper time bound is believed when it happens again and again
static void run_subs(const vector<std::pair<string, Sub>>& subs, Rng& r0, long round) {
    vector<std::thread> th;
    for (size_t i = 0; i < subs.size(); ++i) th.emplace_back([&, i, sd = r0.next()] {
        Rng r(sd);
        for (int attempt = 0; ; ++attempt) {
            double t0 = now();
            Verdict v = subs[i].second(r);
            if (v.key.empty()) { eval(mix(mix(g_seed, round), i)); return; }
            if (v.soft && (attempt < 2 || max_gap_since(t0) > 1)) { count("retried"); if (attempt > 5) { inconclusive(subs[i].first + ": " + v.text); return; } continue; }
            viol(v.key, subs[i].first + ": " + v.text);
            return;
        }
    });
    for (auto& t : th) t.join();
}
SCENARIO(n09_timers) {
    Rng r0(g_seed);
    vector<std::pair<string, Sub>> subs = {
        {"idle sa=1", [](Rng& r) { return idle_keepalive(r, 1, false, false, 6); }},
        {"idle sa=3", [](Rng& r) { return idle_keepalive(r, 3, true, false, 10); }},
        {"one-way in sa=2", [](Rng& r) { return idle_keepalive(r, 2, false, true, 7); }},
        {"silent na=1", [](Rng& r) { return silent_dropped(r, 1, 0); }},
        {"silent na=3", [](Rng& r) { return silent_dropped(r, 3, 0); }},
        {"silent busy na=2", [](Rng& r) { return silent_dropped(r, 2, 1); }},
        {"silent after talk na=2", [](Rng& r) { return silent_dropped(r, 2, 2); }},
        {"silent with keep-alives na=3", [](Rng& r) { return silent_dropped(r, 3, 3); }},
        {"silent after one na=2", [](Rng& r) { return silent_dropped(r, 2, 4); }},
        {"drip all na=2", [](Rng& r) { return drip(r, 2, 0, 8); }},
        {"drip keep-alives na=2", [](Rng& r) { return drip(r, 2, 1, 8); }},
        {"drip body na=2", [](Rng& r) { return drip(r, 2, 2, 8); }},
        {"long handler", long_handler},
        {"limit raised", raised},
        {"descheduled", descheduled},
        {"descheduled 2", descheduled},
        {"descheduled 3", descheduled},
        {"all at once", all_at_once},
        {"library pair idle", [](Rng& r) { return lib_pair_idle(r, 9); }},
        {"sessions", sessions},
        {"stuck drain", drain_stuck},
        {"busy", busy},
        {"interval set again and again", [](Rng& r) { return set_often_sa(r, true); }},
        {"interval changed again and again", [](Rng& r) { return set_often_sa(r, false); }},
        {"limit set again and again", [](Rng& r) { return set_often_na(r, true); }},
        {"limit changed again and again", [](Rng& r) { return set_often_na(r, false); }},
        {"long limits", long_limits},
        {"clamps", [](Rng&) { return clamps(); }},
    };
    for (long round = 0; round < g_n && !violated(); ++round) run_subs(subs, r0, round);
    sample(fmt("%zu timer situations side by side, in real time", subs.size()));
}

// ------------------------------------------------------------ N10
SCENARIO(n10_sessions) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5);
        Listener l(tcp, 64, tcp && r.chance(0.5) ? 4096 : 0);
        Client c; Sink sink;
        sinks().set(&c, &sink);
        Guard gd("n10 case", 100);
        uint32_t sb = 100 + r.below(3000), rb = 100 + r.below(3000), mx = 20000 + r.below(1000);
        c.SetSendBlockSize(sb); c.SetRecvBlockSize(rb); c.SetMaxRequestSize(mx);
        c.SetOurSaInterval(11); c.SetTheirNaIntervalLimit(61);
        c.SetHandlerNamed("named", h_sink);
        c.tag = "my tag";
        int sessions = 2 + r.below(4);
        bool have_first = false; uint32_t first = 0;
        std::unique_ptr<SafeConnection> ref;           // may be taken between sessions and kept in the next one
        for (int s = 0; s < sessions && !violated(); ++s) {
            string info = fmt("case %ld %s session %d", cs, tcp ? "tcp" : "unix", s);
            if (r.chance(0.5)) disturb(r);
            if (r.chance(0.3)) { ref.reset(new SafeConnection(&c)); info += " referenced"; count("referenced_between_sessions"); }
            // refused while disconnected
            if (r.chance(0.3)) push(&c, simple("before", s));
            if (!bounded("connect", 30, [&] { return connect_client(c, l); })) { viol("n10:connect", "could not connect; " + info); break; }
            Raw p = l.accept();
            if (p.fd < 0) { viol("n10:connect", "the listener saw no connection; " + info); break; }
            if (!c.IsConnected() || c.IsDisconnecting()) viol("n10:state", fmt("connected %d disconnecting %d after connecting; ", c.IsConnected(), c.IsDisconnecting()) + info);
            if (c.GetType() != (tcp ? dn::SocketTypeTcp : dn::SocketTypeUnix)) viol("n10:type", "wrong type; " + info);
            if (c.WaitForStop(0)) viol("n10:stale-stop", "the stop event of an earlier session is still signalled; " + info);
            { RP q(c.Pull(0)); if (q) viol("n10:stale-queue", "a request of an earlier session is still in the queue: " + show(extract(q.get())) + "; " + info); }
            if (c.GetSendBlockSize() != sb || c.GetRecvBlockSize() != rb || c.GetMaxRequestSize() != mx || c.GetOurSaInterval() != 11 || c.GetTheirNaIntervalLimit() != 61 ||
                c.GetHandlerNamed("named") != h_sink || c.GetHandlerDefault() || c.tag != "my tag")
                viol("n10:settings", "a setting did not persist; " + info);
            size_t base = sink.n;
            // some traffic that is complete
            uint32_t n = r.chance(0.05) ? r.below(1500) : r.below(8);
            if (r.chance(0.3)) ref.reset();
            bool automatic = n > 0;
            for (uint32_t i = 0; i < n; ++i) push(&c, simple(fmt("s%d", s), i, r.below(200)), true);
            RR q; uint32_t prev = 0;
            for (uint32_t i = 0; i < n; ++i) {
                if (!p.request(q, 20)) { viol("n10:lost", fmt("request %u of the session did not arrive; ", i) + info); break; }
                if (q.name != fmt("s%d", s) || argnum(q, "k") != i) { viol("n10:stale-bytes", fmt("the %u-th request of the session on the wire is ", i) + show(q) + "; " + info); break; }
                if (i == 0) { if (!have_first) { have_first = true; first = q.id; } else if (q.id != first) viol("n10:stale-ids", fmt("the first ID is %u, in the first session it was %u; ", q.id, first) + info); }
                prev = q.id;
            }
            uint32_t m = r.chance(0.1) ? r.below(2500) : r.below(6);
            for (uint32_t i = 0; i < m; ++i) p.send(enc(simple(i % 2 ? "named" : fmt("q%d", s), i)));
            if (!progress(sink.n, base + m / 2)) viol("n10:lost", "requests for a persisting handler were not delivered; " + info);
            uint32_t unpulled = (m + 1) / 2;
            bool pull = r.chance(0.5);
            if (pull) for (uint32_t i = 0; i < unpulled; ++i) {
                RP x(bounded("pull", 30, [&] { return c.Pull(20); }));
                if (!x) { viol("n10:lost", "a request was not delivered; " + info); break; }
                RR y = extract(x.get());
                if (y.name != fmt("q%d", s) || argnum(y, "k") != 2 * i) { viol("n10:stale-queue", "pulled " + show(y) + "; " + info); break; }
            }
            // leftovers: unread by the peer, half-received by us, unpulled
            int left = r.below(4);
            if (r.chance(0.5)) ref.reset();
            if (left & 1) { string part = enc(simple("half", 77, 3000)); p.send(part.substr(0, r.chance(0.5) ? 1 + r.below(3) : 4 + r.below(part.size() - 5))); if (r.chance(0.7)) { wait_for([&] { return p.drained(); }, 5); msleep(1); } }
            if (left & 2) for (int i = 0, k = r.chance(0.15) ? r.below(1500) : 20; i < k; ++i) push(&c, simple("unsent", i, i < 20 && r.chance(0.5) ? 200000 : 100), true);
            switch (r.below(6)) {
                case 0: p.close(); break;
                case 1: p.reset(); break;
                case 2: c.Disconnect(true); break;
                case 3: ref.reset(); bounded("Disconnect(true,true)", 30, [&] { c.Disconnect(true, true); }); break;
                case 4: c.Disconnect(false); if (left & 2) { msleep(r.below(5)); c.Disconnect(true); } break;
                default: shutdown(p.fd, SHUT_RDWR);
            }
            ref.reset();
            if (!wait_for([&] { return c.WaitForStop(0); })) { viol("n10:no-end", "the session did not end; " + info); break; }
            if (c.IsConnected()) viol("n10:state", "still connected after the stop event; " + info);
            count(fmt("sessions_after_leftover_%d", left));
            eval(mix(mix(g_seed, cs), s * 16 + left), s > 0 || left);
            (void)automatic; (void)prev;
        }
        iol::clear_faults();
        sinks().set(&c, nullptr);
    }
    iol::clear_faults();
    leak_check("n10");
}
// reconnecting between library endpoints, at full speed
SCENARIO(n10_server) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5);
        ServerHub hub(tcp);
        hub.on_connect = [&](Connection* c) { c->SetHandlerDefault([](Connection* c, Request* q) { if (q->GetName() == "close") { delete q; c->Disconnect(false); } else c->Push(q, false, 0, false); }); };
        Client c;
        Guard gd("n10 case", 100);
        if (r.chance(0.6)) disturb(r);
        for (int s = 0; s < 12 && !violated(); ++s) {
            if (!bounded("connect", 40, [&] { return hub.connect(c); })) { viol("n10:connect", fmt("session %d: could not connect", s)); break; }
            if (!greeted(c)) { viol("n10:stale-queue", fmt("session %d: the first request is not the greeting", s)); break; }
            int n = r.below(10);
            for (int i = 0; i < n; ++i) push(&c, simple(fmt("s%d", s), i, r.below(100)));
            int check = r.below(n + 1);
            for (int i = 0; i < check; ++i) {
                RP q(bounded("pull", 30, [&] { return c.Pull(20); }));
                RR x; if (q) x = extract(q.get());
                if (!q || x.name != fmt("s%d", s) || argnum(x, "k") != (uint64_t)i) { viol("n10:echo", fmt("session %d: echo %d is %s", s, i, q ? show(x).c_str() : "missing")); break; }
            }
            switch (r.below(3)) {
                case 0: c.Disconnect(true); break;
                case 1: c.Disconnect(false); break;
                default: push(&c, simple("close", 0));
            }
            if (!wait_for([&] { return c.WaitForStop(0); })) { viol("n10:no-end", fmt("session %d did not end", s)); break; }
            eval(mix(mix(g_seed, cs), s));
        }
        iol::clear_faults();
    }
}

// ------------------------------------------------------------ N11
static void on_usr1(int) {}
// a TCP listener whose queue is full
struct Full {
    Listener l; vector<Raw> fill;
    Full(bool tcp) : l(tcp, 0) {
        for (int i = 0; i < 30; ++i) {
            int fd = socket(tcp ? AF_INET : AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
            int rc;
            if (tcp) {
                sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(l.port); inet_aton(l.ip.c_str(), &a.sin_addr);
                rc = connect(fd, (sockaddr*)&a, sizeof a);
                pollfd p{fd, POLLOUT, 0};
                int ok = poll(&p, 1, 150);
                fill.emplace_back(fd);
                if (ok == 0) break;
            } else {
                sockaddr_un a{}; a.sun_family = AF_UNIX; strcpy(a.sun_path, l.path.c_str());
                rc = connect(fd, (sockaddr*)&a, sizeof a);
                if (rc) { ::close(fd); break; }
                fill.emplace_back(fd);
            }
        }
    }
};
SCENARIO(n11_connect) {
    Rng r(g_seed);
    struct sigaction sa{}; sa.sa_handler = on_usr1; sigaction(SIGUSR1, &sa, nullptr);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("n11 case", 120);
        size_t open0 = iol::open_count(), fds0 = count_fds();
        bool sig = r.chance(0.3);
        std::atomic<bool> stop{false};
        pthread_t me = pthread_self();
        std::thread st;
        if (sig) st = std::thread([&] { while (!stop) { pthread_kill(me, SIGUSR1); msleep(1); } });
        if (r.chance(0.5)) disturb(r, false, true, true);
        {
            Client c;
            int steps = 1 + r.below(6);
            for (int s = 0; s < steps && !violated(); ++s) {
                int kind = r.below(12);
                size_t open1 = iol::open_count(), fds1 = count_fds();
                bool was = c.IsConnected();
                bool ok = false, expect = false; string what;
                int t = 1 + r.below(30);
                auto tcp = [&](string ip, uint16_t port) { ok = bounded("ConnectTcp", 45, [&] { return c.ConnectTcp(ip, port, t); }); };
                auto unx = [&](string path) { ok = bounded("ConnectUnix", 45, [&] { return c.ConnectUnix(path, t); }); };
                std::unique_ptr<Listener> l; Raw p;
                // (whether someone has a reference does not matter)
                std::unique_ptr<dn::SafeConnection> ref;
                if (r.chance(0.15)) ref.reset(new dn::SafeConnection(&c));
                switch (kind) {
                    case 0: what = "nobody listens (tcp)"; tcp(my_ip(), free_port()); break;
                    case 1: what = "no such socket"; unx(g_dir + "/none"); break;
                    case 2: { what = "a stale socket file"; string path; { Listener x(false); path = x.path; ::close(x.fd); x.fd = -1; unx(path); unlink(path.c_str()); } break; }
                    case 3: { what = "not a socket"; string path = g_dir + "/plain"; ::close(open(path.c_str(), O_CREAT | O_WRONLY, 0600)); unx(path); unlink(path.c_str()); break; }
                    case 4: {
                        vector<string> bad = {"", "abc", "256.1.1.1", "1.2.3.4.5", "localhost", "::1", "127.0.0.1x", string(5000, '1'), "127.0.0.-1", string("\xff\xfe", 2)};
                        string a = r.pick(bad); what = "bad address '" + a.substr(0, 20) + "'";
                        tcp(a, free_port()); break;
                    }
                    case 5: {
                        vector<size_t> n = {108, 109, 110, 200, 300, 5000, 100000};
                        size_t len = r.pick(n); what = fmt("a path of %zu characters", len);
                        unx(g_dir + "/" + string(len - g_dir.size() - 1, 'p'));
                        break;
                    }
                    case 6: what = "an empty path"; unx(""); break;
                    case 7: { // the longest path that fits
                        what = "a path of 107 characters";
                        string path = g_dir + "/" + string(107 - g_dir.size() - 1, 'l');
                        int fd = socket(AF_UNIX, SOCK_STREAM, 0);
                        sockaddr_un a{}; a.sun_family = AF_UNIX; memcpy(a.sun_path, path.c_str(), 108);
                        if (bind(fd, (sockaddr*)&a, sizeof a) || listen(fd, 5)) { ::close(fd); inconclusive("bind 107"); continue; }
                        expect = !was;
                        unx(path);
                        if (ok) { p = Raw(accept(fd, nullptr, nullptr)); }
                        ::close(fd); unlink(path.c_str());
                        break;
                    }
                    default: {
                        l.reset(new Listener(kind % 2));
                        what = kind % 2 ? "a TCP listener" : "a UNIX listener";
                        if (r.chance(0.2)) t = -1;
                        expect = !was;
                        if (l->tcp && r.chance(0.2)) { string sp = spell(r, l->ip); what += " written " + sp; tcp(sp, l->port); count("address_spellings"); }
                        else ok = bounded("connect", 45, [&] { return connect_client(c, *l, t); });
                        if (ok) p = l->accept();
                        break;
                    }
                }
                if (ref) { what += " while a reference is held"; count("referenced_attempts"); ref.reset(); }
                if (ok != expect) viol("n11:result", fmt("connecting (timeout %d) returned %d with %s, already connected: %d", t, ok, what.c_str(), was));
                if (c.IsConnected() != (was || expect)) viol("n11:state", fmt("IsConnected() is %d after connecting to %s", c.IsConnected(), what.c_str()));
                if (c.IsConnecting()) viol("n11:connecting", "IsConnecting() after the attempt with " + what);
                if (!ok) {
                    l.reset(); p.close();
                    if (!was && (iol::open_count() != open1 || (!sig && !is_tsan() && count_fds() != fds1)))
                        viol("n11:leak", fmt("%zu descriptors before, %zu after a failed attempt with %s", fds1, count_fds(), what.c_str()));
                } else {
                    // it really is connected
                    if (p.fd < 0) viol("n11:no-peer", "reported connected, but the listener has no connection");
                    push(&c, simple("hi", s));
                    RR q;
                    if (!p.request(q, 20) || argnum(q, "k") != (uint64_t)s) viol("n11:no-talk", "nothing arrives on a connection reported to be up");
                    p.send(enc(simple("ho", s)));
                    RP a(bounded("pull", 30, [&] { return c.Pull(20); }));
                    if (!a || a->GetName() != "ho") viol("n11:no-talk", "nothing is received on a connection reported to be up");
                    // a second attempt is refused and harmless
                    if (r.chance(0.5)) {
                        Listener other(r.chance(0.5));
                        bool again = bounded("connect", 45, [&] { return r.chance(0.5) ? connect_client(c, other, 5) : c.ConnectTcp("999", 1, 5); });
                        if (again) viol("n11:twice", "connecting a connected client returned true");
                        push(&c, simple("hi", 500));
                        if (!c.IsConnected() || !p.request(q, 20) || argnum(q, "k") != 500) viol("n11:disturbed", "a refused attempt disturbed the connection");
                    }
                    // neither does one while it is disconnecting pretend to have connected
                    if (r.chance(0.15)) {
                        Listener other(r.chance(0.5));
                        for (int i = 0; i < 8; ++i) push(&c, simple("bulk", i, 1000000));
                        c.Disconnect(false);
                        if (!c.IsDisconnecting()) viol("n11:state", "not disconnecting after a graceful disconnect with data left and a peer that does not read");
                        bool again = bounded("connect", 45, [&] { return connect_client(c, other, 5); });
                        if (again) {
                            Raw o = other.accept(2);
                            if (o.fd < 0) viol("n11:result", "connecting a client that is disconnecting returned true without connecting it");
                        }
                        if (c.IsConnecting()) viol("n11:connecting", "IsConnecting() after an attempt while disconnecting");
                        count("attempts_while_disconnecting");
                    }
                    if (r.chance(0.7)) {
                        p.close();
                        if (!wait_for([&] { return c.WaitForStop(0); })) { viol("n11:no-end", "did not end"); break; }
                        l.reset();
                        wait_for([&] { return !c.IsConnected(); });
                    } else { msleep(0); // keep it: the next attempts must be refused
                        static vector<Raw>* keep = new vector<Raw>; keep->push_back(std::move(p)); fds0++; }
                }
                if (l) { l.reset(); }
                eval(mix(mix(g_seed, cs), s * 100 + kind));
                count("attempts"); count(expect ? "successes" : "refusals");
                sample(what + fmt(": %d", ok));
            }
            stop = true;
            if (st.joinable()) st.join();
            bounded("destroy", 20, [&] { Client* x = new Client; delete x; });
        }
        iol::clear_faults();
        if (iol::open_count() != open0) viol("n11:leak", fmt("%zu descriptors of the library before, %zu after the client was destroyed", open0, iol::open_count()));
    }
    leak_check("n11");
}
// several threads connect one client at once
SCENARIO(n11_race) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("n11 race", 120);
        size_t open0 = iol::open_count();
        if (r.chance(0.6)) disturb(r, false, true, true);
        {
            Client c;
            for (int s = 0, steps = 1 + r.below(4); s < steps && !violated(); ++s) {
                size_t open1 = iol::open_count();
                Listener l(r.chance(0.5)), l2(!l.tcp);
                int k = 2 + r.below(3); bool bad = r.chance(0.3);
                std::atomic<int> at{0}, trues{0}, left{k};
                std::atomic<bool> query{r.chance(0.3)};
                vector<std::thread> th;
                for (int i = 0; i < k; ++i) th.emplace_back([&, sd = r.next(), gap = r.chance(0.4) ? r.below(400) * 0.001 : 0.0] {
                    Rng t(sd);
                    int kind = bad && t.chance(0.5) ? 2 + t.below(4) : t.below(2), limit = t.chance(0.2) ? -1 : 5 + t.below(20);
                    at++; while (at < k) std::this_thread::yield();
                    if (gap > 0) msleep(gap);
                    bool ok = bounded("connect", 60, [&] {
                        switch (kind) {
                            case 0: return connect_client(c, l, limit);
                            case 1: return connect_client(c, l2, limit);
                            case 2: return c.ConnectTcp("999", 1, limit);
                            case 3: return c.ConnectUnix(g_dir + "/nobody", limit);
                            case 4: return c.ConnectUnix(string(300, 'x'), limit);
                            default: return c.ConnectTcp(l.tcp ? l.ip : l2.ip, 1, limit);
                        }
                    });
                    if (ok && kind >= 2) viol("n11:race-result", fmt("an attempt that must fail (%d) returned true while other threads were connecting", kind));
                    if (ok) trues++;
                    left--;
                });
                while (query && left) { c.IsConnected(); c.IsConnecting(); c.IsDisconnecting(); c.GetType(); std::this_thread::yield(); }
                for (auto& t : th) t.join();
                if (trues > 1) viol("n11:race-result", fmt("%d of %d attempts made at once returned true", (int)trues, k));
                if (trues == 0 && !bad) viol("n11:race-result", fmt("none of %d attempts made at once on listening addresses returned true", k));
                if (c.IsConnected() != (trues > 0)) viol("n11:race-state", fmt("IsConnected() is %d after %d of %d attempts returned true", c.IsConnected(), (int)trues, k));
                if (c.IsConnecting()) viol("n11:race-state", "IsConnecting() after all attempts returned");
                vector<Raw> ps;
                for (Listener* x : {&l, &l2}) for (;;) {
                    pollfd pf{x->fd, POLLIN, 0};
                    if (poll(&pf, 1, 0) <= 0) break;
                    Raw p = x->accept(1);
                    if (p.fd < 0) break;
                    ps.push_back(std::move(p));
                }
                if (violated()) break;
                if (ps.size() != (size_t)(trues > 0)) { viol("n11:race-peers", fmt("%zu connections arrived, %d of %d attempts returned true", ps.size(), (int)trues, k)); break; }
                if (trues) {
                    Raw& p = ps[0];
                    push(&c, simple("hi", s)); RR q;
                    if (!p.request(q, 20) || argnum(q, "k") != (uint64_t)s) viol("n11:race-talk", "nothing arrives on a connection made by one of several attempts");
                    p.send(enc(simple("ho", s)));
                    RP a(bounded("pull", 30, [&] { return c.Pull(20); }));
                    if (!a || a->GetName() != "ho") viol("n11:race-talk", "nothing is received on a connection made by one of several attempts");
                    p.close();
                    if (!wait_for([&] { return c.WaitForStop(0); })) { viol("n11:race-end", "did not end"); break; }
                    wait_for([&] { return !c.IsConnected(); });
                } else if (iol::open_count() != open1) viol("n11:leak", fmt("%zu descriptors of the library before, %zu after attempts that failed", open1, iol::open_count()));
                eval(mix(mix(g_seed, cs), s * 10 + k));
                count("attempts_at_once", k); count(trues ? "races_won" : "races_without_success");
            }
        }
        iol::clear_faults();
        if (iol::open_count() != open0) viol("n11:leak", fmt("%zu descriptors of the library before, %zu after the client was destroyed", open0, iol::open_count()));
    }
    leak_check("n11");
}
// nobody answers
SCENARIO(n11_timeout) {
    Rng r0(g_seed);
    vector<std::thread> th;
    struct sigaction sa{}; sa.sa_handler = on_usr1; sigaction(SIGUSR1, &sa, nullptr);
    for (int w = 0; w < 10; ++w) th.emplace_back([&, w, sd = r0.next()] {
        Rng r(sd);
        for (long cs = 0; cs < g_n && !violated(); ++cs) {
            bool tcp = w % 2 || w >= 8;
            Full f(tcp);
            Client c;
            int kind = w / 2;
            std::atomic<bool> stop{false};
            if (kind == 4) {     // the system gives up before the timeout
                iol::give_up_soon = true;
                bool ok = bounded("connect", 60, [&] { return connect_client(c, f.l, r.chance(0.5) ? 20 : endless()); });
                iol::give_up_soon = false;
                if (ok) viol("n11:result", "connected to a listener that never answered");
                if (c.IsConnected() || c.IsConnecting()) viol("n11:state", "connected or connecting after the system gave up");
                count("given_up_by_the_system");
                Listener l2(tcp);
                if (!bounded("connect", 30, [&] { return connect_client(c, l2, 10); })) viol("n11:wedged", "an attempt after one the system gave up fails");
            } else if (kind < 2) {
                int t = 1 + r.below(2);
                double t0 = now();
                bool ok = bounded("connect", t + 25, [&] { return connect_client(c, f.l, t); });
                double el = now() - t0;
                if (ok) viol("n11:result", "connected to a listener with a full queue");
                else if (el < t) viol("n11:gave-up-early", fmt("gave up after %.3f s, the timeout is %d s (%s)", el, t, tcp ? "tcp" : "unix"));
                if (c.IsConnected() || c.IsConnecting()) viol("n11:state", "connected or connecting after a timeout");
                count("timeouts");
                // usable for another attempt
                f.fill.clear();
                Listener l2(tcp);
                ok = bounded("connect", 30, [&] { return connect_client(c, l2, 10); });
                if (!ok) viol("n11:wedged", "an attempt after a timeout fails");
            } else {
                // the queue is emptied in time
                int t = kind == 2 ? 20 : endless();
                // (the accepted ones stay open: one that is closed at once may rightly be reported as not connected)
                vector<Raw> kept;
                std::thread fr([&] { msleep(300 + r.below(1200)); f.fill.clear(); for (int i = 0; i < 40 && !stop; ++i) kept.push_back(f.l.accept(0.1)); });
                // meanwhile another thread tries, too
                std::unique_ptr<std::thread> other;
                if (r.chance(0.6)) other.reset(new std::thread([&, tcp2 = r.chance(0.5)] {
                    Listener l2(tcp2);
                    if (!wait_for([&] { return c.IsConnecting() || c.IsConnected(); })) viol("n11:connecting", "IsConnecting() is false during an attempt");
                    else if (bounded("connect", 60, [&] { return connect_client(c, l2, 20); })) viol("n11:result", "a second attempt returned true while the first was going on or had succeeded");
                    count("attempts_while_connecting");
                }));
                bool ok = bounded("connect", 60, [&] { return connect_client(c, f.l, t); });
                if (other) other->join();
                if (!ok) viol("n11:result", fmt("a listener became free in time but connecting (timeout %d, %s) failed", t, tcp ? "tcp" : "unix"));
                stop = true;
                fr.join();
                count("late_answers");
            }
            eval(mix(mix(g_seed, w), cs * 10 + kind));
            bounded("destroy", 30, [&] { c.Disconnect(true, c.IsConnected()); });
        }
    });
    for (auto& t : th) t.join();
}

// ------------------------------------------------------------ N12
SCENARIO(n12_zero) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        LibRaw e(r.chance(0.5));
        Guard gd("n12 case", 60);
        // the peer answers everything with the same ID, or reads nothing at all
        bool answers = r.chance(0.6);
        std::atomic<bool> stop{false};
        int slow = 0, n = 5 + r.below(30);
        bool many = !answers && r.chance(0.15);
        if (many) n = 3000 + r.below(r.chance(0.3) ? 70000 : 6000);
        std::thread peer;
        std::atomic<int> seen{0};
        if (answers) peer = std::thread([&] { RR q; while (!stop) if (e.raw.request(q, 0.1)) { seen++; q.name = "re"; e.raw.send(enc(q)); } });
        for (int i = 0; i < n; ++i) {
            bool chg = r.chance(0.5); RR q = simple("ask", i, answers ? r.below(100) : many ? 0 : 100000, 5 + i);
            Request* b = build(q);
            double t0 = now();
            Request* res = bounded("Push without timeout", 20, [&] {
                switch (r.below(3)) {
                    case 0: { Request* x = e.c->Push(b, false, 0, chg); b = nullptr; return x; }
                    case 1: return e.c->Push(b, true, 0, chg);
                    default: return e.c->Push(*b, 0, chg);
                }
            });
            if (now() - t0 > 0.7 && max_gap_since(t0) < 0.3) slow++;
            if (res) { viol("n12:zero-not-null", "Push with timeout 0 returned a request"); delete res; }
            delete b;
        }
        if (slow > 3) viol("n12:zero-waits", "Push with timeout 0 waits");
        if (answers) {
            if (!wait_for([&] { return seen >= n; })) viol("n12:not-sent", "a pushed request was not sent");
            // the answers are ordinary requests then
            for (int i = 0; i < n; ++i) { RP q(bounded("pull", 30, [&] { return e.c->Pull(20); })); if (!q || q->GetName() != "re") { viol("n12:answer-lost", "an answer nobody waits for was not delivered"); break; } }
        }
        stop = true;
        if (answers) peer.join();
        eval(mix(mix(g_seed, cs), n * 2 + answers));
        count("pushes", n);
    }
}
// the same in every situation a connection can be in
struct N12B { std::atomic<bool> in{false}, let{false}; std::atomic<int> done{0}; std::function<void(Connection*)> f; };
static Reg<N12B>& n12bs() { static auto* r = new Reg<N12B>; return *r; }
static void h_n12b(Connection* c, Request* q) { delete q; N12B* b = n12bs().get(c); b->in = true; if (b->f) b->f(c); while (!b->let) msleep(1); b->done++; }
SCENARIO(n12_states) {
    Rng r(g_seed);
    static const char* sits[] = {"handler blocked", "ended, referenced", "ended", "disconnecting, peer stuck", "someone waits in Pull()", "someone waits for the end", "in the handler", "answers in the queue", "handler of another connection blocked", "ended, handler blocked", "keep-alives all the time"};
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("n12 case", 90);
        bool tcp = r.chance(0.5);
        int sit = r.below(11);
        LibRaw e(tcp, 4096, 4096), other(tcp);
        N12B st; n12bs().set(e.c.get(), &st); n12bs().set(other.c.get(), &st);
        string info = fmt("case %ld %s: ", cs, tcp ? "tcp" : "unix") + sits[sit];
        std::atomic<bool> stop{false};
        vector<std::thread> th;
        if (r.chance(0.3)) disturb(r);
        bool gone = false;
        int n = 3 + r.below(30), slow = 0;
        auto pushes = [&](Connection* c, Rng t) {
            for (int i = 0; i < n; ++i) {
                bool chg = t.chance(0.5); RR q = simple("ask", i, t.chance(0.2) ? 5000 : 0, 1 + i);
                // (one that is refused is refused whatever it would wait for)
                int timeout = gone ? (int)t.below(3) - 1 : 0;
                Request* b = build(q);
                double t0 = now();
                Request* res = bounded("Push that must not wait", 20, [&]() -> Request* {
                    switch (t.below(3)) {
                        case 0: { Request* x = c->Push(b, false, timeout, chg); b = nullptr; return x; }
                        case 1: return c->Push(b, true, timeout, chg);
                        default: return c->Push(*b, timeout, chg);
                    }
                });
                if (now() - t0 > 0.7 && max_gap_since(t0) < 0.3) slow++;
                if (res) { viol("n12:zero-not-null", "a push that must not wait returned a request; " + info); delete res; }
                delete b;
            }
        };
        Connection* c = e.c.get();
        SafeConnection* ref = nullptr;
        if (sit == 0 || sit == 9) {
            c->SetHandlerNamed("block", h_n12b);
            e.raw.send(enc(simple("block", 1)));
            if (!wait_for([&] { return st.in.load(); })) viol("n12:no-dispatch", "the handler is not run; " + info);
            if (sit == 9) { if (r.chance(0.5)) c->Disconnect(true); else { e.raw.close(); } msleep(r.below(5)); }
        } else if (sit == 1 || sit == 2) {
            if (sit == 1) ref = new SafeConnection(c);
            if (r.chance(0.5)) e.raw.close(); else c->Disconnect(true);
            if (sit == 1) { if (!wait_for([&] { return c->IsDisconnecting(); })) viol("n12:no-end", "the end is not noticed; " + info); }
            else if (!wait_for([&] { return c->WaitForStop(0); })) viol("n12:no-end", "no end; " + info);
            gone = true;
        } else if (sit == 3) {
            for (int i = 0; i < 200; ++i) push(c, simple("x", i, 4000));
            c->Disconnect(false);
            gone = true;
        } else if (sit == 4) th.emplace_back([&] { RP q(c->Pull(endless())); });
        else if (sit == 5) th.emplace_back([&] { c->WaitForStop(endless()); });
        else if (sit == 6) { st.f = [&, sd = r.next()](Connection* c) { pushes(c, Rng(sd)); st.let = true; }; c->SetHandlerNamed("block", h_n12b); e.raw.send(enc(simple("block", 1))); if (!wait_for([&] { return st.done == 1; }, 60)) viol("n12:zero-waits", "a handler that pushes does not return; " + info); }
        else if (sit == 7) { for (int i = 0; i < 40; ++i) e.raw.send(enc(simple("re", i, 0, 1 + i))); if (!wait_for([&] { return e.raw.drained() || tcp; })) {} msleep(5); }
        else if (sit == 8) { other.c->SetHandlerNamed("block", h_n12b); other.raw.send(enc(simple("block", 1))); if (!wait_for([&] { return st.in.load(); })) viol("n12:no-dispatch", "the handler is not run; " + info); }
        else if (sit == 10) th.emplace_back([&] { string k = enc(simple("_", 0)); while (!stop) { if (::send(e.raw.fd, k.data(), k.size(), MSG_NOSIGNAL | MSG_DONTWAIT) < 0) msleep(0.2); } });
        if (sit != 6 && !violated()) pushes(c, Rng(r.next()));
        if (slow > 3) viol("n12:zero-waits", fmt("%d of %d pushes that must not wait did; ", slow, n) + info);
        iol::clear_faults();
        st.let = true; stop = true;
        if (sit == 4 || sit == 5) c->Disconnect(true);
        for (auto& t : th) t.join();
        delete ref;
        e.raw.close(); e.destroy(); other.destroy();
        n12bs().set(c, nullptr);
        eval(mix(mix(g_seed, cs), sit)); count(sits[sit]); count("pushes", n);
    }
    iol::clear_faults();
    leak_check("n12");
}
// pushes that wait for a response (known finding: not implemented)
SCENARIO(k1_wait) {
    for (int k = 0; k < 4; ++k) {
        LibRaw e(k % 2);
        std::thread peer([&] {
            RR q;
            if (!e.raw.request(q, 20)) { viol("n12:not-sent", "a request pushed with a timeout was not sent"); return; }
            if (q.name != "ask") viol("n12:content", "wrong request sent");
            msleep(100);
            q.name = "re";
            e.raw.send(enc(q));
        });
        Request q("ask"); q.SetId(77);
        double t0 = now();
        Request* res = bounded("Push with timeout", 40, [&] { return e.c->Push(q, k < 2 ? 5 : -1, true); });
        double el = now() - t0;
        if (!res && el < 5) viol("k1:null-at-once", fmt("Push with a timeout returned null after %.3f s although the peer answered in time", el));
        else if (!res) viol("n12:no-response", "Push with a timeout returned null although the peer answered in time");
        else if (res->GetName() != "re") viol("n12:wrong-response", "Push returned a request that is not the response");
        delete res;
        peer.join();
        eval(k);
    }
    {   // no answer, and the end of the connection
        LibRaw e(false);
        Request q("ask");
        double t0 = now();
        Request* res = bounded("Push with timeout", 40, [&] { return e.c->Push(q, 1); });
        if (res) viol("n12:made-up", "Push returned a response nobody sent");
        else if (now() - t0 < 1) viol("k1:null-at-once", "Push with a timeout returned null before it passed");
        std::thread t([&] { msleep(100); e.raw.close(); });
        res = bounded("Push that waits forever", 40, [&] { return e.c->Push(q, -1); });
        if (res) viol("n12:made-up", "Push returned a response nobody sent");
        else if (!e.c->IsDisconnecting() && e.c->IsConnected()) viol("k1:null-at-once", "Push with an infinite timeout returned null while connected");
        delete res;
        t.join();
        eval(10);
    }
}

// ------------------------------------------------------------ N13
struct Settings {       // what was set last, as it has to be reported
    uint32_t sb = 0, rb = 0, mx = 0; time_t sa = 0, na = 0;
    dn::RequestHandler def = nullptr; std::map<string, dn::RequestHandler> named; int* data = nullptr;
    void read(Connection& c) { sb = c.GetSendBlockSize(); rb = c.GetRecvBlockSize(); mx = c.GetMaxRequestSize(); sa = c.GetOurSaInterval(); na = c.GetTheirNaIntervalLimit(); def = c.GetHandlerDefault(); data = c.GetSessionData<int>(); }
    string differs(Connection& c) {
        if (c.GetSendBlockSize() != sb) return fmt("send block size is %u instead of %u", c.GetSendBlockSize(), sb);
        if (c.GetRecvBlockSize() != rb) return fmt("receive block size is %u instead of %u", c.GetRecvBlockSize(), rb);
        if (c.GetMaxRequestSize() != mx) return fmt("maximum request size is %u instead of %u", c.GetMaxRequestSize(), mx);
        if (c.GetOurSaInterval() != sa) return fmt("keep-alive interval is %lld instead of %lld", (long long)c.GetOurSaInterval(), (long long)sa);
        if (c.GetTheirNaIntervalLimit() != na) return fmt("silence limit is %lld instead of %lld", (long long)c.GetTheirNaIntervalLimit(), (long long)na);
        if (c.GetHandlerDefault() != def) return "default handler differs";
        if (c.GetSessionData<int>() != data) return "session data differs";
        for (auto& k : named) if (c.GetHandlerNamed(k.first) != k.second) return "the handler of " + hex(k.first, 40) + " differs";
        return "";
    }
};
static void h_n13a(Connection* c, Request* r) { h_sink(c, r); }
static void h_n13b(Connection* c, Request* r) { h_sink(c, r); }
static void h_n13c(Connection* c, Request* r) { h_sink(c, r); }
static int n13_data[3];
// one random change; `mild` ones leave a connection with traffic of up to 60000 bytes alone
static void n13_change(Rng& r, Connection& c, Settings& s, bool mild) {
    static const uint32_t sizes[] = {0, 1, 2, 3, 9, 10, 11, 255, 256, 1024, 65535, 65536, 16777216, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu};
    uint32_t x = r.chance(0.6) ? sizes[r.below(16)] : (uint32_t)rand_int(r);
    static const time_t times[] = {-1000000, -1, 0, 1, 2, 10, 60, 255, 256, 300, 65536, 100000, 5000000000ll, 4294967296ll};
    time_t t = r.chance(0.7) ? times[r.below(14)] : (time_t)r.below(1u << 31);
    if ((mild || c.IsConnected()) && t < 30) t = 30 + r.below(100);
    if (mild && x < 60000 && r.chance(0.7)) x = 1 + r.below(5000);
    switch (r.below(8)) {
        case 0: c.SetSendBlockSize(x); s.sb = x ? x : 1; break;
        case 1: c.SetRecvBlockSize(x); s.rb = x ? x : 1; break;
        case 2: if (mild && x < 70000) x += 70000; c.SetMaxRequestSize(x); s.mx = x < 10 ? 10 : x; break;
        case 3: c.SetOurSaInterval(t); s.sa = t < 1 ? 1 : t; break;
        case 4: c.SetTheirNaIntervalLimit(t); s.na = t < 1 ? 1 : t; break;
        case 5: if (mild) break; { dn::RequestHandler h[] = {nullptr, h_n13a, h_n13b, h_n13c}; s.def = h[r.below(4)]; c.SetHandlerDefault(s.def); } break;
        case 6: if (mild) break; { dn::RequestHandler h[] = {nullptr, h_n13a, h_n13b, h_n13c}; string k = r.pick<string>({"", "a", "ab", "abc", "b", string("a\0b", 3), "_", "n"}); s.named[k] = h[r.below(4)]; c.SetHandlerNamed(k, s.named[k]); } break;
        default: { int* p = r.chance(0.3) ? nullptr : &n13_data[r.below(3)]; c.SetSessionData<int>(p); s.data = p; }
    }
}
static RR n13_sized(const string& name, size_t size, uint32_t num) {
    RR q = simple(name, num, 1);
    size_t base = enc(q).size() - 1;
    if (size > base) q.args[1].val.str.assign(size - base, (char)('a' + num % 26));
    else { q.args.clear(); q.name.assign(std::max<size_t>(size, 11) - 10, 'n'); }
    return q;
}
SCENARIO(n13_settings) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("n13 case", 100);
        bool tcp = r.chance(0.5);
        string info = fmt("case %ld %s", cs, tcp ? "tcp" : "unix");
        // 1. getters, in every state of a client
        {
            Listener l(tcp); Client c; Sink sink; sinks().set(&c, &sink);
            Settings s; s.read(c);
            auto changes = [&](const char* when) {
                for (int i = 0, n = 1 + r.below(25); i < n && !violated(); ++i) {
                    n13_change(r, c, s, false);
                    string d = s.differs(c);
                    if (d.size()) viol("n13:getter", d + " " + when + "; " + info);
                    count("settings_changed");
                }
            };
            changes("before connecting");
            for (int k = 0, n = 1 + r.below(2); k < n && !violated(); ++k) {
                c.SetOurSaInterval(30); s.sa = 30; c.SetTheirNaIntervalLimit(60); s.na = 60;
                if (!connect_client(c, l)) { viol("n13:connect", "cannot connect; " + info); break; }
                Raw p = l.accept();
                string d = s.differs(c);
                if (d.size()) viol("n13:persist", d + " after connecting; " + info);
                // in effect: the maximum, and whether there is a default handler
                uint32_t mx = s.mx;
                if (mx > 100000) { mx = 11 + r.below(60000); c.SetMaxRequestSize(mx); s.mx = mx; }
                if (mx < 11) { mx = 11; c.SetMaxRequestSize(mx); s.mx = mx; }
                RR q = n13_sized("x", mx, k);
                size_t b = sink.n;
                p.send(enc(q));
                if (s.def || (s.named.count(q.name) && s.named[q.name])) {
                    if (!progress(sink.n, b + 1)) viol("n13:persist", fmt("a request of exactly the maximum size %u did not reach the default handler; ", mx) + info);
                    else if (!(sink.all().back() == q)) viol("n13:content", "another request was delivered; " + info);
                } else {
                    RP x(bounded("pull", 30, [&] { return c.Pull(20); }));
                    if (!x || !(extract(x.get()) == q)) viol("n13:persist", fmt("a request of exactly the maximum size %u was not queued; ", mx) + info);
                }
                changes("while connected");
                c.SetTheirNaIntervalLimit(60); s.na = 60;
                if (r.chance(0.5)) {          // and no more than the maximum
                    uint32_t m2 = 10 + r.below(3000);
                    c.SetMaxRequestSize(m2); s.mx = m2;
                    size_t b2 = sink.n;
                    p.send(enc(n13_sized("y", m2 + 1, k)));
                    if (!wait_for([&] { return c.WaitForStop(0); })) viol("n13:maximum", fmt("still connected after a request of %u bytes, one more than the maximum; ", m2 + 1) + info);
                    RP x(c.Pull(0));
                    if (sink.n != b2 || x) viol("n13:maximum", "a request of more than the maximum size was delivered; " + info);
                    count("maximum_exceeded");
                } else if (r.chance(0.5)) p.close(); else c.Disconnect(r.chance(0.5));
                if (r.chance(0.5)) changes("while ending");
                p.close();
                if (!wait_for([&] { return c.WaitForStop(0); })) { viol("n13:no-end", "the session does not end; " + info); break; }
                changes("after the end");
            }
            sinks().set(&c, nullptr);
        }
        // 2. everything arrives, whatever is changed meanwhile
        if (!violated()) {
            int fa, fb; pair_fds(tcp, fa, fb, r.chance(0.3) ? 4096 : 0, r.chance(0.3) ? 4096 : 0);
            auto a = std::make_unique<Connection>(iol::hand_over(fa)), b = std::make_unique<Connection>(iol::hand_over(fb));
            Sink sa, sb; sinks().set(a.get(), &sa); sinks().set(b.get(), &sb);
            a->SetMaxRequestSize(70000); b->SetMaxRequestSize(70000);
            a->SetHandlerDefault(h_sink); b->SetHandlerDefault(h_sink);
            if (r.chance(0.5)) disturb(r);
            std::atomic<bool> stop{false};
            vector<std::thread> th;
            for (Connection* c : {a.get(), b.get()}) th.emplace_back([&stop, c, sd = r.next()] {
                Rng t(sd); Settings s; s.read(*c);
                while (!stop && !violated()) {
                    n13_change(t, *c, s, true);
                    string d = s.differs(*c);
                    if (d.size()) viol("n13:getter", d + " during a transfer");
                    count("settings_changed_in_transfer");
                    if (t.chance(0.5)) msleep(0.05 * t.below(10));
                }
            });
            vector<RR> qa, qb;
            for (auto* v : {&qa, &qb}) for (int i = 0, n = 5 + r.below(40); i < n; ++i) v->push_back(n13_sized("t", r.chance(0.2) ? 20000 + r.below(40000) : 12 + r.below(3000), i));
            std::thread pa([&] { for (auto& q : qa) push(a.get(), q); });
            for (auto& q : qb) push(b.get(), q);
            pa.join();
            if (!progress(sb.n, qa.size()) || !progress(sa.n, qb.size())) viol("n13:lost", fmt("%zu of %zu and %zu of %zu requests arrived while settings were changed; ", sb.n.load(), qa.size(), sa.n.load(), qb.size()) + info);
            stop = true;
            for (auto& t : th) t.join();
            auto ga = sb.all(), gb = sa.all();
            for (size_t i = 0; i < ga.size() && !violated(); ++i) if (i >= qa.size() || !(ga[i] == qa[i])) viol("n13:content", fmt("request %zu was delivered as ", i) + show(ga[i]).substr(0, 200) + "; " + info);
            for (size_t i = 0; i < gb.size() && !violated(); ++i) if (i >= qb.size() || !(gb[i] == qb[i])) viol("n13:content", fmt("request %zu was delivered as ", i) + show(gb[i]).substr(0, 200) + "; " + info);
            iol::clear_faults();
            bounded("destroy", 30, [&] { a.reset(); b.reset(); });
            count("requests_under_changes", qa.size() + qb.size());
        }
        // a request whose size was accepted stays so when the maximum is lowered; later ones are judged by the new one
        for (int attempt = 0; attempt < 3 && !violated(); ++attempt) {
            LibRaw e(false);
            e.handle();
            uint32_t m1 = 2000 + r.below(60000), m2 = 10 + r.below(1500);
            e.c->SetMaxRequestSize(m1); e.c->SetRecvBlockSize(1 + r.below(5000));
            string b = enc(n13_sized("m", m2 + 1 + r.below(m1 - m2), 1));
            size_t k = 5 + r.below(b.size() - 5);
            e.raw.send(b.substr(0, k));
            if (!wait_for([&] { return e.raw.drained(); })) { viol("n13:lost", "received bytes are not read; " + info); break; }
            msleep(attempt * 20);
            e.c->SetMaxRequestSize(m2);
            e.raw.send(b.substr(k));
            wait_for([&] { return e.sink.n == 1 || e.c->WaitForStop(0); });
            if (e.sink.n != 1) {
                if (attempt == 2) viol("n13:lost", fmt("a request of %zu bytes, of which %zu had been received when the maximum was lowered from %u to %u, is lost; ", b.size(), k, m1, m2) + info);
                continue;
            }
            RR small = n13_sized("w", 27, 2);
            if (m2 >= enc(small).size()) { e.raw.send(enc(small)); if (!progress(e.sink.n, 2) || !(e.sink.all()[1] == small)) viol("n13:lost", "the next request, within the lowered maximum, is lost; " + info); }
            size_t n = e.sink.n;
            e.raw.send(enc(n13_sized("y", m2 + 1, 3)));
            if (!wait_for([&] { return e.c->WaitForStop(0); })) viol("n13:maximum", "a later request of more than the lowered maximum is accepted; " + info);
            if (e.sink.n != n) viol("n13:maximum", "a later request of more than the lowered maximum is delivered; " + info);
            count("lowered_in_transfer");
            break;
        }
        // 3. no more than a block is sent or received at a time
        if (!violated()) {
            LibRaw e(tcp);
            e.handle();
            uint32_t s = r.chance(0.2) ? 1 : 1 + r.below(r.chance(0.5) ? 50 : 5000), v = r.chance(0.2) ? 1 : 1 + r.below(r.chance(0.5) ? 50 : 5000);
            e.c->SetSendBlockSize(s); e.c->SetRecvBlockSize(v);
            iol::st.max_send = 0; iol::st.max_recv = 0;
            RR q = n13_sized("z", 12 + r.below(9000), 1), w;
            push(e.c.get(), q); e.raw.send(enc(q));
            if (!e.raw.request(w, 30) || !(w == q)) viol("n13:lost", fmt("with blocks of %u bytes a request was not sent as it is; ", s) + info);
            if (!progress(e.sink.n, 1) || !(e.sink.all()[0] == q)) viol("n13:lost", fmt("with blocks of %u bytes a request was not received as it is; ", v) + info);
            if (iol::st.max_send > s) viol("n13:block", fmt("%llu bytes sent at a time, the block size is %u; ", (unsigned long long)iol::st.max_send, s) + info);
            if (iol::st.max_recv > std::max<uint32_t>(v, 4)) viol("n13:block", fmt("%llu bytes received at a time, the block size is %u; ", (unsigned long long)iol::st.max_recv, v) + info);
            count("block_sizes_watched");
        }
        eval(mix(g_seed, cs));
    }
    iol::clear_faults();
    leak_check("n13");
}
// intervals and limits apply from the moment they are set, whoever sets them and whenever
static void h_set_sa(Connection* c, Request* q) { RP own(q); c->SetOurSaInterval(argnum(extract(q), "k")); }
static void h_set_na(Connection* c, Request* q) { RP own(q); c->SetTheirNaIntervalLimit(argnum(extract(q), "k")); }
static Verdict n13_sa(Rng& r, int how) {
    LibRaw e(r.chance(0.5));
    e.handle();
    e.c->SetHandlerNamed("sa", h_set_sa);
    time_t first[] = {10, 60, 100000, 4294967297ll};
    e.c->SetOurSaInterval(first[r.below(4)]);
    msleep(r.below(800));
    int sa = 1 + r.below(2);
    double t0 = now();
    if (how == 0) e.c->SetOurSaInterval(sa);
    else if (how == 1) { e.raw.send(enc(simple("sa", sa))); if (!wait_for([&] { return e.c->GetOurSaInterval() == sa; })) return {"n13:getter", "a handler's SetOurSaInterval() is not seen"}; }
    else { e.c->SetOurSaInterval(sa); for (int i = 0, n = 1 + r.below(20); i < n; ++i) e.c->SetOurSaInterval(sa); }
    string f;
    for (int i = 0; i < 2; ++i) {
        double last = i ? now() : t0;
        if (!e.raw.frame(f, sa + slack_since(last))) return {"n13:interval", fmt("nothing was sent for %.2f s after the interval was set to %d s (%d)", now() - last, sa, how), true};
    }
    // and not so often anymore
    e.c->SetOurSaInterval(600);
    e.raw.frame(f, 0.2);                   // one may have been on its way
    double t1 = now();
    bool more = e.raw.frame(f, 3.5);
    if (more && now() - t1 > 0.5) return {"n13:interval", fmt("a keep-alive was sent %.2f s after the interval had been set to 600 s", now() - t1), true};
    count("intervals_in_effect");
    return fine();
}
static Verdict n13_na(Rng& r, int how) {
    double made = now();
    LibRaw e(r.chance(0.5));
    e.handle();
    e.c->SetHandlerNamed("na", h_set_na);
    time_t first[] = {10, 60, 100000, 4294967297ll};
    e.c->SetTheirNaIntervalLimit(first[r.below(4)]);
    if (how != 2) msleep(r.below(800));
    int na = 1 + r.below(2);
    double t0 = now();                     // (the silence until now may count)
    if (how == 0) e.c->SetTheirNaIntervalLimit(na);
    else { e.raw.send(enc(simple("na", na))); if (!wait_for([&] { return e.c->GetTheirNaIntervalLimit() == na; })) return {"n13:getter", "a handler's SetTheirNaIntervalLimit() is not seen"}; }
    double t1 = now();
    if (how == 2) {                        // raised again in time
        msleep(na * 400);
        e.c->SetTheirNaIntervalLimit(600);
        if (now() - made > na * 0.9) return fine();
        double end = now() + na + 2;
        while (now() < end) { e.raw.read_some(0.1); if (e.raw.eof || e.raw.err) return {"n13:limit", fmt("a silent peer was dropped by the limit of %d s after it had been raised to 600 s", na)}; }
        count("limits_raised");
        return fine();
    }
    while (!e.raw.eof && !e.raw.err && now() - t1 < na + slack_since(t1)) e.raw.read_some(0.05);
    if (!e.raw.eof && !e.raw.err) return {"n13:limit", fmt("a silent peer is still connected %.2f s after the limit was set to %d s (%d)", now() - t1, na, how), true};
    if (now() - (how ? t0 : made) < na) return {"n13:limit", fmt("a peer was dropped %.2f s after the limit was set to %d s (%d)", now() - t0, na, how)};
    count("limits_in_effect");
    return fine();
}
// set before the first session, between sessions, or in an earlier one
static Verdict n13_later(Rng& r, bool sa, int when) {
    Listener l(r.chance(0.5));
    Client c;
    if (when == 0) { if (sa) c.SetOurSaInterval(1); else c.SetTheirNaIntervalLimit(1); }
    for (int k = 0; k < 2; ++k) {
        double t0 = now();
        if (!connect_client(c, l)) return {"n13:connect", "cannot connect"};
        Raw p = l.accept();
        if (k == 0 && when) {
            if (when == 1 && r.chance(0.5)) { if (sa) c.SetOurSaInterval(1); else c.SetTheirNaIntervalLimit(1); }
            if (r.chance(0.5)) p.close(); else c.Disconnect(r.chance(0.5));
            p.close();
            if (!wait_for([&] { return c.WaitForStop(0); })) return {"n13:no-end", "the session does not end"};
            if (sa) c.SetOurSaInterval(1); else c.SetTheirNaIntervalLimit(1);
            continue;
        }
        string f; bool got = false;
        if (sa) got = p.frame(f, 1 + slack_since(t0));
        else { while (!p.eof && !p.err && now() - t0 < 1 + slack_since(t0)) p.read_some(0.05); got = p.eof || p.err; }
        if (!got) return {sa ? "n13:interval" : "n13:limit", fmt("session %d: %.2f s after connecting nothing has happened, %s of 1 s was set before (%d)", k, now() - t0, sa ? "an interval" : "a limit", when), true};
        if (!sa && now() - t0 < 1) return {"n13:limit", "dropped before the limit"};
        c.Disconnect(true); p.close();
        if (!wait_for([&] { return c.WaitForStop(0); })) return {"n13:no-end", "the session does not end"};
    }
    count("intervals_kept");
    return fine();
}
SCENARIO(n13_intervals) {
    Rng r0(g_seed);
    vector<std::pair<string, Sub>> subs;
    for (int k = 0; k < 3; ++k) subs.push_back({"interval", [k](Rng& r) { return n13_sa(r, k); }});
    for (int k = 0; k < 3; ++k) subs.push_back({"limit", [k](Rng& r) { return n13_na(r, k); }});
    for (int k = 0; k < 6; ++k) subs.push_back({"over sessions", [k](Rng& r) { return n13_later(r, k % 2, k / 2); }});
    for (long round = 0; round < g_n && !violated(); ++round) run_subs(subs, r0, round);
    leak_check("n13");
}
// the settings of a server, before, while and between running
static std::atomic<int> n13_calls[4];
template<int K> static void n13_h(Server*, Connection* c) { n13_calls[K]++; if (K < 2) push(c, simple("hello", K)); }
SCENARIO(n13_server) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("n13 case", 100);
        Server s;
        int32_t mx = s.GetMaxConnections();
        dn::ConnectionHandler con = s.GetConnectedHandler(), dis = s.GetDisconnectedHandler();
        string info = fmt("case %ld", cs);
        uint64_t h = 0;
        auto changes = [&](const char* when) {
            for (int i = 0, n = 1 + r.below(12); i < n && !violated(); ++i) {
                int op = r.below(3); h = mix(h, op);
                if (op == 0) { static const int32_t v[] = {-1, -2, INT32_MIN, INT32_MAX, 0, 1, 2, 255, 256, 32768, 65536}; mx = r.chance(0.8) ? v[r.below(11)] : (int32_t)rand_int(r); s.SetMaxConnections(mx); }
                else if (op == 1) { con = r.chance(0.5) ? n13_h<0> : n13_h<1>; s.SetConnectedHandler(con); }
                else { dis = r.chance(0.3) ? nullptr : r.chance(0.5) ? n13_h<2> : n13_h<3>; s.SetDisconnectedHandler(dis); }
                if (s.GetMaxConnections() != mx) viol("n13:getter", fmt("the maximum of connections is %d instead of %d %s; ", s.GetMaxConnections(), mx, when) + info);
                if (s.GetConnectedHandler() != con || s.GetDisconnectedHandler() != dis) viol("n13:getter", string("a server's handler differs ") + when + "; " + info);
                count("server_settings_changed");
            }
        };
        changes("before starting");
        if (!con) { con = n13_h<0>; s.SetConnectedHandler(con); }
        for (int k = 0; k < 3 && !violated(); ++k) {
            bool tcp = r.chance(0.5); string addr; uint16_t port;
            if (!start(s, tcp, addr, port)) { inconclusive("no address"); return; }
            if (s.GetMaxConnections() != mx || s.GetConnectedHandler() != con || s.GetDisconnectedHandler() != dis) viol("n13:persist", "a setting of the server did not survive its start; " + info);
            if (r.chance(0.7)) changes("while running");
            for (auto& x : n13_calls) x = 0;
            int want = con == n13_h<0> ? 0 : 1, dwant = !dis ? -1 : dis == n13_h<2> ? 2 : 3;
            Raw p = raw_connect(s, tcp, addr, port);
            if (mx == 0) { RR q; if (p.request(q, 0.02)) viol("n13:effect", "a client is accepted though the maximum is 0; " + info); changes("while running"); if (mx == 0) { mx = 1; s.SetMaxConnections(1); } want = -1; dwant = !dis ? -1 : dis == n13_h<2> ? 2 : 3; }
            RR q;
            if (!p.request(q, 20)) viol("n13:effect", fmt("no client is accepted, the maximum is %d; ", mx) + info);
            else if (n13_calls[0] + n13_calls[1] != 1) viol("n13:effect", "the connected handlers were not called once; " + info);
            else if (want >= 0 && n13_calls[want] != 1) viol("n13:effect", "another connected handler was called than the one set; " + info);
            p.close();
            if (dwant >= 0 && !violated() && !wait_for([&] { return n13_calls[dwant] == 1; })) viol("n13:effect", "the disconnected handler set was not called; " + info);
            bounded("stop", 30, [&] { s.Stop(endless()); });
            if (s.GetMaxConnections() != mx || s.GetConnectedHandler() != con || s.GetDisconnectedHandler() != dis) viol("n13:persist", "a setting of the server did not survive its stop; " + info);
            if (r.chance(0.5)) changes("between runs");
            eval(mix(h, mix(cs, k)));
        }
    }
    leak_check("n13");
}
