// Situations that last longer than a constant someone might have put somewhere.
// --n: seconds.
#include "sc.hpp"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/un.h>
using namespace sc;
namespace {
struct Jobs {
    vector<std::thread> th;
    Rng r{g_seed};
    double d = g_n;
    template<class F> void add(const char* name, F f) {
        th.emplace_back([this, name, f, sd = r.next()] {
            Rng t(sd);
            f(t, d);
            eval(mix(g_seed, fnv(name))); count(name);
        });
    }
    void run() { for (auto& t : th) t.join(); }
};
// sleep, keeping the library's peer alive
void pause(double secs, Raw* p = nullptr) {
    static const string ka = enc(simple("_", 0));
    double t0 = now();
    while (now() - t0 < secs && !violated()) {
        msleep(std::min(1000.0, 1000 * (secs - (now() - t0)) + 1));
        if (p) (void)!::send(p->fd, ka.data(), ka.size(), MSG_DONTWAIT | MSG_NOSIGNAL);
    }
}
int at_least(Rng& r, double d) { return r.chance(0.5) ? endless() : (int)d + 60; }
}

SCENARIO(n01_long) {
    Jobs j;
    // the receiver is busy for long while more and more is pushed
    for (int tcp = 0; tcp < 2; ++tcp) j.add("the receiving handler was busy for long", [tcp](Rng& r, double d) {
        int a, b; pair_fds(tcp, a, b);
        Connection x(iol::hand_over(a)), y(iol::hand_over(b));
        Sink s; std::atomic<bool> first{true}; std::atomic<bool> woke{false};
        s.fn = [&](Connection*, Request*, const RR&) { if (first.exchange(false)) { pause(d); woke = true; } };
        for (auto* c : {&x, &y}) { c->SetTheirNaIntervalLimit(3600); sinks().set(c, &s); c->SetHandlerDefault(h_sink); }
        int n = 0;
        double t0 = now();
        while (now() - t0 < d + 1 && !violated()) { push(&x, simple("q", n++, r.below(3000)), true); msleep(r.below(100)); }
        if (!wait_for([&] { return woke.load(); })) viol("harness:long", "the handler was not run");
        if (!progress(s.n, n)) viol("n01:lost", fmt("%zu of %d requests arrived after the handler was busy for %.0f s", s.n.load(), n, d));
        auto got = s.all();
        for (size_t i = 0; i < got.size(); ++i) if (argnum(got[i], "k") != i) { viol("n01:order", fmt("request %zu is number %llu", i, (unsigned long long)argnum(got[i], "k"))); break; }
        if (!x.IsConnected() || !y.IsConnected()) viol("n01:ended", "the connection ended");
        for (auto* c : {&x, &y}) { bounded("end", 30, [&] { c->Disconnect(true, true); }); sinks().set(c, nullptr); }
    });
    // idle between requests
    for (int tcp = 0; tcp < 2; ++tcp) j.add("long pause between requests", [tcp](Rng& r, double d) {
        int a, b; pair_fds(tcp, a, b);
        Connection x(iol::hand_over(a)), y(iol::hand_over(b));
        for (int i = 0; i < 3; ++i) { push(&x, simple("q", i, 100), true); push(&y, simple("q", i, 100), true); }
        pause(d);
        for (int i = 3; i < 6; ++i) { push(&x, simple("q", i, 100), true); push(&y, simple("q", i, 100), true); }
        for (auto* c : {&x, &y}) for (int i = 0; i < 6; ++i) {
            RP q(c->Pull(20));
            if (!q) { viol("n01:lost", "requests of an idle connection were lost"); break; }
            RR e = simple("q", i, 100); e.id = (c == &x ? 2 : 2) + 2 * i;
            RR g = extract(q.get());
            if (g.name != e.name || g.args != e.args) viol("n01:content", "wrong request after a pause: " + show(g));
        }
    });
    j.run();
    leak_check("n01");
}
SCENARIO(n02_long) {
    Jobs j;
    for (int k = 0; k < 6; ++k) j.add("long pause within a request", [k](Rng& r, double d) {
        LibRaw e(k % 2); e.c->SetTheirNaIntervalLimit(3600);
        e.handle();
        RR q = simple("late", k, 50 + r.below(3000), 7), q2 = simple("next", k, 10, 8);
        string b = enc(q), b2 = enc(q2);
        size_t cut = k < 2 ? 1 + r.below(3) : k < 4 ? 4 + r.below(8) : b.size() - 1 - r.below(20);
        e.raw.send(b2 + b.substr(0, cut));
        pause(d);
        if (e.sink.n != 1) viol("n02:delivered", fmt("%zu requests delivered, one was complete", e.sink.n.load()));
        e.raw.send(b.substr(cut) + b2);
        if (!progress(e.sink.n, 3)) viol("n02:lost", fmt("a request was cut after %zu bytes for %.0f s: %zu of 3 delivered", cut, d, e.sink.n.load()));
        auto got = e.sink.all();
        if (got.size() == 3 && !(got[0] == q2 && got[1] == q && got[2] == q2)) viol("n02:content", "wrong requests after a pause");
    });
    j.run();
    leak_check("n02");
}
SCENARIO(n06_long) {
    Jobs j;
    for (int tcp = 0; tcp < 2; ++tcp) {
        j.add("pulls in vain", [tcp](Rng& r, double d) {
            LibRaw e(tcp); e.c->SetTheirNaIntervalLimit(3600);
            std::thread t; std::atomic<bool> stop{false};
            if (tcp) t = std::thread([&] { while (!stop) pause(2, &e.raw); });
            double t0 = now();
            RP q(bounded("Pull() with a timeout", (int)d + 40, [&] { return e.c->Pull((int)d); }));
            double el = now() - t0;
            if (q) viol("n06:unsent", "pulled a request nobody sent");
            if (el < (int)d) viol("n06:early", fmt("Pull(%d) returned null after %.3f s", (int)d, el));
            stop = true; if (t.joinable()) t.join();
        });
        for (int late = 0; late < 2; ++late) j.add("pulls woken late", [tcp, late](Rng& r, double d) {
            LibRaw e(tcp); e.c->SetTheirNaIntervalLimit(3600);
            std::atomic<bool> due{false};
            std::thread t([&] { pause(d, r.chance(0.5) ? &e.raw : nullptr); due = true; if (late) e.raw.send(enc(simple("late", 5))); else e.raw.close(); });
            RP q(bounded("Pull()", (int)d + 60, [&] { return e.c->Pull(at_least(r, d)); }));
            if (!due) viol("n06:early", "Pull() returned although nothing arrived, the connection goes on and time is left");
            t.join();
            if (late && (!q || q->GetName() != "late")) viol("n06:lost", "Pull() did not return the request that woke it");
            if (!late && q) viol("n06:unsent", "pulled a request nobody sent");
        });
        j.add("queued for long", [tcp](Rng& r, double d) {
            LibRaw e(tcp); e.c->SetTheirNaIntervalLimit(3600);
            for (int i = 0; i < 5; ++i) e.raw.send(enc(simple("q", i)));
            if (tcp) { RP q(e.c->Pull(20)); if (!q || argnum(extract(q.get()), "k") != 0) viol("n06:order", "not the first request"); }
            msleep(100);
            bool ends = r.chance(0.5);
            if (ends) e.raw.close();
            pause(d, ends ? nullptr : &e.raw);
            for (int i = tcp; i < 5; ++i) { RP q(e.c->Pull(ends ? 0 : 5)); if (!q || argnum(extract(q.get()), "k") != (uint64_t)i) { viol("n06:lost", fmt("request %d is not available %.0f s after it came", i, d)); break; } }
        });
    }
    j.run();
    leak_check("n06");
}
SCENARIO(n07_long) {
    Jobs j;
    for (int k = 0; k < 4; ++k) j.add("flushes to slow readers", [k](Rng& r, double d) {
        LibRaw e(k % 2, 4096, 4096);
        e.c->SetTheirNaIntervalLimit(k < 2 ? 3600 : 60);     // (the default)
        if (r.chance(0.5)) e.c->SetSendBlockSize(8192);
        const int n = 60, size = 10000;
        for (int i = 0; i < n; ++i) push(e.c.get(), simple("q", i, size));
        std::atomic<bool> all{false}, returned{false};
        std::thread w([&] {
            if (k % 2) e.c->Disconnect(false, true);
            else { e.c->Disconnect(false); if (!bounded("WaitForStop", (int)d + 60, [&] { return e.c->WaitForStop(at_least(r, d)); })) viol("n07:wait", "WaitForStop() says the connection is up"); }
            returned = true;
            if (e.c->IsConnected()) viol("n07:wait", "a wait for the end returned before it");
        });
        double t0 = now();
        static const string ka = enc(simple("_", 0));
        double last = 0;
        while (!e.raw.eof && !e.raw.err && now() - t0 < d + 60 && !violated()) {
            // evenly over d seconds, then what is left
            double want = (now() - t0) / d * n * size;
            if (now() - t0 > d || e.raw.in.size() < want) e.raw.read_some(0.2, now() - t0 > d ? 65536 : 2000); else msleep(20);
            if (k % 2 == 0 && now() - last > 2) { last = now(); (void)!::send(e.raw.fd, ka.data(), ka.size(), MSG_DONTWAIT | MSG_NOSIGNAL); }
            if (returned && now() - t0 < d / 2) { viol("n07:cut", "the connection ended while requests were unsent"); break; }
        }
        bounded("end after the flush", 40, [&] { w.join(); });
        string rest; auto got = frames_of(e.raw.in, rest);
        if (!violated() && (got.size() != n || rest.size())) viol("n07:cut", fmt("%zu of %d requests were flushed to a reader that took %.0f s", got.size(), n, now() - t0));
    });
    j.add("handler that runs on", [](Rng& r, double d) {
        // a graceful disconnect while the connection's handler is busy for long
        LibRaw e(r.chance(0.5)); e.c->SetTheirNaIntervalLimit(3600); e.c->SetOurSaInterval(3600);
        std::atomic<bool> in{false};
        e.sink.fn = [&](Connection*, Request*, const RR&) { in = true; pause(d); };
        e.handle();
        e.raw.send(enc(simple("go", 1)));
        if (!wait_for([&] { return in.load(); })) viol("n07:no-dispatch", "the handler is not run");
        for (int i = 0; i < 10; ++i) push(e.c.get(), simple("q", i));
        e.c->Disconnect(false);
        push(e.c.get(), simple("late", 0));
        for (int i = 0; i < 10; ++i) { RR q; if (!e.raw.request(q, d + 30) || argnum(q, "k") != (uint64_t)i || q.name != "q") { viol("n07:cut", fmt("request %d of 10 was not flushed", i)); break; } }
        if (!e.raw.wait_eof(20)) viol("n07:no-end", "no end after the flush");
    });
    j.add("waits for the end of a live connection", [](Rng& r, double d) {
        LibRaw e(r.chance(0.5)); e.c->SetTheirNaIntervalLimit(3600);
        std::atomic<bool> ended{false};
        std::thread w([&] { e.c->WaitForStop(at_least(r, d)); if (!ended) viol("n07:wait", "WaitForStop() returned while the connection is up"); });
        double t0 = now();
        if (e.c->WaitForStop((int)d)) viol("n07:wait", "WaitForStop() says a live connection ended");
        else if (now() - t0 < (int)d) viol("n07:wait", fmt("WaitForStop(%d) returned after %.3f s", (int)d, now() - t0));
        ended = true;
        e.c->Disconnect(false);
        bounded("WaitForStop after the end", 30, [&] { w.join(); });
    });
    j.run();
    leak_check("n07");
}
SCENARIO(n08_long) {
    Jobs j;
    for (int k = 0; k < 6; ++k) j.add("stuck for long, then ended", [k](Rng& r, double d) {
        LibRaw e(k % 2, 4096, 4096); e.c->SetTheirNaIntervalLimit(3600);
        for (int i = 0; i < 100; ++i) push(e.c.get(), simple("q", i, 9000));
        string b = enc(simple("half", 1, 5000));
        if (r.chance(0.7)) e.raw.send(b.substr(0, 1 + r.below(b.size() - 1)));
        std::atomic<bool> ended{false};
        std::thread w([&] { e.c->WaitForStop(at_least(r, d)); if (!ended) viol("n08:wait", "WaitForStop() returned while the connection is up"); });
        std::thread p([&] { RP q(e.c->Pull(at_least(r, d))); if (!ended) viol("n08:wait", "Pull() returned while the connection is up and nothing came"); });
        pause(d);
        if (!e.c->IsConnected()) viol("n08:ended", "the connection ended by itself");
        ended = true;
        double t0 = now();
        switch (k / 2) { case 0: bounded("Disconnect(true, true)", 20, [&] { e.c->Disconnect(true, true); }); break; case 1: e.raw.reset(); break; default: e.raw.close(); }
        if (!wait_for([&] { return e.c->WaitForStop(0); })) { viol("n08:no-end", fmt("no end after %.1f s", now() - t0)); finish(1); }
        bounded("waits after the end", 20, [&] { w.join(); p.join(); });
        // long ended
        if (k < 2) { pause(std::min(d / 2, 5.0)); if (e.c->IsConnected() || !e.c->WaitForStop(0)) viol("n08:state", "a connection that ended is up"); push(e.c.get(), simple("no", 1)); }
    });
    j.run();
    leak_check("n08");
}
SCENARIO(n11_long) {
    Jobs j;
    for (int tcp = 0; tcp < 2; ++tcp) {
        auto fill = [tcp](Listener& l, vector<Raw>& f) {
            for (int i = 0; i < 30; ++i) {
                int fd = socket(tcp ? AF_INET : AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
                if (tcp) {
                    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(l.port); inet_aton(l.ip.c_str(), &a.sin_addr);
                    (void)!connect(fd, (sockaddr*)&a, sizeof a);
                    pollfd p{fd, POLLOUT, 0};
                    int ok = poll(&p, 1, 150);
                    f.emplace_back(fd);
                    if (ok == 0) break;
                } else {
                    sockaddr_un a{}; a.sun_family = AF_UNIX; strcpy(a.sun_path, l.path.c_str());
                    if (connect(fd, (sockaddr*)&a, sizeof a)) { ::close(fd); break; }
                    f.emplace_back(fd);
                }
            }
        };
        j.add("connecting in vain for long", [tcp, fill](Rng& r, double d) {
            Listener l(tcp, 0); vector<Raw> f; fill(l, f);
            Client c;
            double t0 = now();
            bool ok = bounded("connect", (int)d + 40, [&] { return connect_client(c, l, (int)d); });
            if (ok) viol("n11:result", "connected to a listener with a full queue");
            else if (now() - t0 < (int)d) viol("n11:gave-up-early", fmt("gave up after %.3f s, the timeout is %d s (%s)", now() - t0, (int)d, tcp ? "tcp" : "unix"));
            if (c.IsConnected() || c.IsConnecting()) viol("n11:state", "connected or connecting after a timeout");
            Listener l2(!tcp);
            if (!bounded("connect", 30, [&] { return connect_client(c, l2, 10); })) viol("n11:wedged", "an attempt after a timeout fails");
        });
        // (TCP: the handshake is repeated after 1, 3, 7, 15, 31 s)
        for (int e = 0; e < 2; ++e) j.add("connected late", [tcp, e, fill](Rng& r, double d) {
            if (tcp && d > 29) d = 29;
            Listener l(tcp, 0); vector<Raw> f; fill(l, f);
            Client c;
            std::atomic<bool> done{false};
            vector<Raw> kept;
            std::thread fr([&] { pause(d); f.clear(); while (!done) { Raw x = l.accept(0.1); if (x.fd >= 0) kept.push_back(std::move(x)); } });
            double t0 = now();
            bool ok = bounded("connect", (int)d + 100, [&] { return connect_client(c, l, e ? endless() : (int)d + 95); });
            done = true;
            if (!ok && now() - t0 < d + 80) viol("n11:result", fmt("a listener became free after %.0f s but connecting gave up at %.0f s (%s)", d, now() - t0, tcp ? "tcp" : "unix"));
            if (ok && now() - t0 < d) viol("n11:result", "connected to a listener with a full queue");
            if (ok != c.IsConnected()) viol("n11:state", "the result is not what IsConnected() says");
            if (c.IsConnecting()) viol("n11:state", "connecting after an attempt");
            fr.join();
        });
    }
    j.run();
    leak_check("n11");
}
namespace {
std::mutex lm;
std::map<Server*, std::function<void(Connection*)>> l_con, l_dis;
void on_con(Server* s, Connection* c) {
    c->SetHandlerNamed("echo", [](Connection* c, Request* r) { c->Push(r, false, 0, false); });
    std::function<void(Connection*)> f;
    { std::lock_guard<std::mutex> l(lm); f = l_con[s]; }
    if (f) f(c);
    RR q; q.name = "hello"; q.id = c->id; push(c, q);
}
void on_dis(Server* s, Connection* c) {
    std::function<void(Connection*)> f;
    { std::lock_guard<std::mutex> l(lm); f = l_dis[s]; }
    if (f) f(c);
}
struct Hub {
    std::unique_ptr<Server> s{new Server}; bool tcp; string addr; uint16_t port = 0;
    std::atomic<int> con{0}, dis{0}; std::atomic<uint32_t> id{0}; std::atomic<Connection*> last{nullptr};
    std::function<void(Connection*)> more;
    Hub(bool tcp) : tcp(tcp) {
        { std::lock_guard<std::mutex> l(lm);
          l_con[s.get()] = [this](Connection* c) { c->SetTheirNaIntervalLimit(3600); if (more) more(c); con++; id = c->id; last = c; };
          l_dis[s.get()] = [this](Connection*) { dis++; }; }
        s->SetConnectedHandler(on_con); s->SetDisconnectedHandler(on_dis);
        if (!start(*s, tcp, addr, port)) inconclusive("no address");
    }
    ~Hub() { Server* k = s.get(); stop(); std::lock_guard<std::mutex> l(lm); l_con.erase(k); l_dis.erase(k); }
    void stop() { if (s) bounded("server stop", 30, [&] { s->Stop(endless()); }); }
    Raw client() { return raw_connect(*s, tcp, addr, port); }
    bool echo(Raw& p, uint32_t k) { p.send(enc(simple("echo", k))); RR q; while (p.request(q, 20)) if (q.name == "echo" && argnum(q, "k") == k) return true; return false; }
    bool hello(Raw& p, uint32_t* id = nullptr) { RR q; bool ok = p.fd >= 0 && p.request(q, 20) && q.name == "hello"; if (ok && id) *id = q.id; return ok; }
};
}
SCENARIO(s01_long) {
    Jobs j;
    for (int tcp = 0; tcp < 2; ++tcp) {
        j.add("idle server", [tcp](Rng& r, double d) {
            Hub h(tcp);
            std::atomic<bool> stopping{false};
            std::thread w([&] { h.s->WaitForStop(at_least(r, d)); if (!stopping) viol("s01:wait", "WaitForStop() returned while the server runs"); });
            double t0 = now();
            h.s->WaitForStop((int)d);
            if (now() - t0 < (int)d) viol("s01:wait", fmt("WaitForStop(%d) returned after %.3f s", (int)d, now() - t0));
            if (h.s->GetType() != (tcp ? dn::SocketTypeTcp : dn::SocketTypeUnix)) viol("s01:type", "the type of an idle server changed");
            Raw p = h.client();
            if (!h.hello(p) || !h.echo(p, 1)) viol("s01:not-served", "a server that was idle does not serve");
            stopping = true;
            h.stop();
            bounded("WaitForStop after the end", 30, [&] { w.join(); });
            if (h.s->GetType() != dn::SocketTypeUndefined) viol("s01:type", "a stopped server has a type");
            if (!p.wait_eof(20)) viol("s01:open", "a connection of a stopped server is open");
        });
        for (int k = 0; k < 3; ++k) j.add("stop that takes long", [tcp, k](Rng& r, double d) {
            Hub h(tcp);
            std::atomic<bool> in{false}, let{false};
            std::function<void()> busy = [&] { in = true; pause(d); let = true; };
            static std::mutex bm; static std::map<Connection*, std::function<void()>*> busies;
            h.more = [&](Connection* c) {
                { std::lock_guard<std::mutex> l(bm); busies[c] = &busy; }
                c->SetHandlerNamed("busy", [](Connection* c, Request* q) { delete q; std::function<void()>* f; { std::lock_guard<std::mutex> l(bm); f = busies[c]; } (*f)(); });
            };
            Raw p = h.client();
            uint32_t id = 0;
            if (!h.hello(p, &id)) { viol("s01:not-served", "not greeted"); return; }
            std::thread t; SafeConnection* ref = nullptr;
            if (k == 0) {
                if (!wait_for([&] { return (ref = h.s->GetConnection(id)); })) { viol("s01:lookup", "not found"); return; }
                in = true;
                t = std::thread([&] { pause(d); let = true; delete ref; });
            } else {
                p.send(enc(simple("busy", 1)));
                if (!wait_for([&] { return in.load(); })) { viol("s01:not-served", "the handler is not run"); return; }
            }
            double t0 = now();
            bounded("a stop that has to wait", (int)d + 60, [&] { if (k == 2) h.s.reset(); else if (r.chance(0.5)) { h.s->Stop(0); h.s->WaitForStop(at_least(r, d)); } else h.s->Stop(at_least(r, d)); });
            if (!let) viol("s01:early", fmt("stopping returned after %.1f s although a connection is %s", now() - t0, k ? "in its handler" : "referenced"));
            if (t.joinable()) t.join();
            if (!p.wait_eof(20)) viol("s01:open", "a connection of a stopped server is open");
            if (h.s && h.s->GetType() != dn::SocketTypeUndefined) viol("s01:type", "a stopped server has a type");
        });
    }
    j.run();
    leak_check("s01");
}
SCENARIO(s02_long) {
    Jobs j;
    for (int tcp = 0; tcp < 2; ++tcp) j.add("connections of very different ages", [tcp](Rng& r, double d) {
        Hub h(tcp);
        struct P { Raw p; uint32_t id; };
        vector<P> ps;
        std::set<uint32_t> ids;
        auto come = [&] {
            Raw p = h.client(); uint32_t id = 0;
            if (!h.hello(p, &id)) { viol("s02:not-announced", "not greeted"); return; }
            if (!ids.insert(id).second) viol("s02:id", fmt("the ID %u was given before", id));
            ps.push_back({std::move(p), id});
        };
        for (int i = 0; i < 5; ++i) come();
        double t0 = now();
        while (now() - t0 < d && !violated()) {
            pause(1 + r.below(4));
            for (int i = 0; i < 3; ++i) come();
            if (violated()) break;
            ps.erase(ps.begin() + 3 + r.below(ps.size() - 3));
        }
        for (auto& x : ps) {
            SafeConnection* c = nullptr;
            if (!wait_for([&] { return (c = h.s->GetConnection(x.id)); })) { viol("s02:lookup", "a live connection is not found"); break; }
            if ((*c)().id != x.id) viol("s02:lookup", "another connection was found");
            delete c;
        }
        int con = h.con;
        size_t left = ps.size();
        if (h.con - h.dis < (int)left) viol("s02:announced", "more ends were announced than connections ended");
        ps.clear();
        if (!wait_for([&] { return h.dis == con; })) viol("s02:not-announced", fmt("%d connected, the end of %d was announced", con, h.dis.load()));
    });
    j.run();
    leak_check("s02");
}
SCENARIO(s03_long) {
    Jobs j;
    for (int k = 0; k < 4; ++k) j.add("clients that wait for long", [k](Rng& r, double d) {
        Hub h(k % 2);
        int max = 1 + r.below(2);
        h.s->SetMaxConnections(max);
        vector<Raw> in, out;
        for (int i = 0; i < max; ++i) { in.push_back(h.client()); if (!h.hello(in.back())) { viol("s03:not-accepted", "not accepted although there is room"); return; } }
        for (int i = 0; i < 3; ++i) { out.push_back(h.client()); out.back().send(enc(simple("echo", i))); }
        double t0 = now();
        while (now() - t0 < d && !violated()) {
            pause(1);
            for (auto& p : out) { p.read_some(0); if (p.in.size()) viol("s03:exceeded", "a client beyond the maximum was let in"); if (p.eof || p.err) viol("s03:disturbed", "a waiting client was disconnected"); }
            if (h.con != max) viol("s03:exceeded", fmt("%d accepted, the maximum is %d", h.con.load(), max));
        }
        if (k / 2) h.s->SetMaxConnections(max + 3); else in.clear();
        for (int i = 0; i < (k / 2 ? 3 : max); ++i) {
            Raw& p = out[i];
            uint32_t id = 0;
            bool answered = false;
            for (RR q; !id && p.request(q, 20);) { if (q.name == "hello") id = q.id; else if (q.name == "echo" && argnum(q, "k") == (uint64_t)i) answered = true; }
            if (!id) { viol("s03:not-accepted", fmt("a client that waited %.0f s is not let in", d)); break; }
            // its request was there before the handlers were: it is answered or in the queue (K2)
            SafeConnection* c = nullptr;
            if (!wait_for([&] { return (c = h.s->GetConnection(id)); })) { viol("s03:lookup", "not found"); break; }
            bool found = answered || wait_for([&] {
                RP x((*c)().Pull(0));
                if (x && x->GetName() == "echo" && argnum(extract(x.get()), "k") == (uint64_t)i) return true;
                RR q;
                return p.request(q, 0.01) && q.name == "echo" && argnum(q, "k") == (uint64_t)i;
            });
            delete c;
            if (!found) { viol("s03:disturbed", fmt("the request of a client that waited %.0f s is lost", d)); break; }
            if (!h.echo(p, 77)) { viol("s03:not-served", fmt("a client that waited %.0f s is not served", d)); break; }
        }
    });
    j.run();
    leak_check("s03");
}
SCENARIO(s04_long) {
    Jobs j;
    for (int k = 0; k < 6; ++k) j.add("references held for long", [k](Rng& r, double d) {
        Hub h(k % 2);
        Raw p = h.client();
        uint32_t id = 0;
        if (!h.hello(p, &id)) { viol("s04:hello", "not greeted"); return; }
        SafeConnection* ref = nullptr;
        if (!wait_for([&] { return (ref = h.s->GetConnection(id)); })) { viol("s04:lookup", "not found"); return; }
        Connection& c = (*ref)();
        std::thread st; std::atomic<bool> released{false};
        p.send(enc(simple("unpulled", 9)));
        msleep(100);
        switch (k / 2) {
            case 0: p.close(); break;
            case 1: c.Disconnect(true); break;
            default: st = std::thread([&] { if (r.chance(0.5)) h.s.reset(); else h.s->Stop(endless()); if (!released) viol("s04:torn-down", "the server's stop returned while a connection is referenced"); });
        }
        if (!wait_for([&] { return c.IsDisconnecting() || !c.IsConnected(); })) viol("s04:no-end", "the end is not noticed");
        double t0 = now();
        while (now() - t0 < d && !violated()) {
            pause(1);
            if (c.GetRefs() != 1 || c.id != id) viol("s04:torn-down", "a referenced connection changed");
            if (h.dis) viol("s04:torn-down", fmt("the disconnected handler ran after %.1f s although a reference is held", now() - t0));
            push(&c, simple("no", 1));
            c.SetOurSaInterval(3); c.IsConnected(); c.GetType();
            if (c.WaitForStop(0)) viol("s04:torn-down", fmt("down after %.1f s although a reference is held", now() - t0));
        }
        if (k / 2 < 2) { RP q(c.Pull(0)); if (!q || q->GetName() != "unpulled") viol("s04:queue", "what a referenced connection received is gone"); }
        released = true;
        delete ref;
        if (k / 2 < 2) { if (!wait_for([&] { return h.dis == 1; })) viol("s04:never-torn-down", fmt("not torn down after a reference held for %.0f s was released", d)); }
        else bounded("the server's stop after the last reference was released", 25, [&] { st.join(); });
    });
    for (int k = 0; k < 2; ++k) j.add("destructors that wait for long", [k](Rng& r, double d) {
        int fd; Raw p; pair(r.chance(0.5), fd, p);
        auto c = std::make_unique<Connection>(fd);
        auto* ref = new SafeConnection(c.get());
        if (k) { p.close(); if (!wait_for([&] { return c->IsDisconnecting(); })) viol("s04:no-end", "the end is not noticed"); }
        std::atomic<bool> released{false};
        std::thread t([&] { pause(d); (*ref)().GetType(); released = true; delete ref; });
        bounded("destroy", (int)d + 40, [&] { c.reset(); });
        if (!released) viol("s04:torn-down", "destroyed while a reference is held");
        t.join();
    });
    j.run();
    leak_check("s04");
}
SCENARIO(s05_long) {
    Jobs j;
    for (int tcp = 0; tcp < 2; ++tcp) j.add("clients stuck for long", [tcp](Rng& r, double d) {
        Hub h(tcp);
        static std::atomic<bool> let[2]; let[0] = let[1] = false;
        h.more = [](Connection* c) {
            c->SetHandlerNamed("block", [](Connection* c, Request* q) { delete q; while (!let[c->GetType() == dn::SocketTypeTcp]) msleep(5); });
            c->SetHandlerNamed("bulk", [](Connection* c, Request* q) { delete q; for (int i = 0; i < 300; ++i) push(c, simple("b", i, 9000)); });
        };
        vector<Raw> ps; vector<SafeConnection*> refs;
        for (int i = 0; i < 6; ++i) {
            ps.push_back(h.client());
            Raw& p = ps.back(); uint32_t id = 0;
            if (!h.hello(p, &id)) { viol("s05:not-accepted", "not greeted"); return; }
            if (i == 0 || i == 5) p.send(enc(simple("block", 0)));
            if (i == 1) p.send(enc(simple("bulk", 0)));
            if (i == 2) p.send(enc(simple("echo", 0, 500)).substr(0, 1 + r.below(300)));
            if (i == 3 || i == 4) { SafeConnection* x = nullptr; if (!wait_for([&] { return (x = h.s->GetConnection(id)); })) { viol("s05:lookup", "not found"); return; } refs.push_back(x); if (i == 3) (*x)().Disconnect(true); else p.close(); }
            if (i == 5) { msleep(50); p.close(); }
        }
        double t0 = now();
        Raw old = h.client();
        if (!h.hello(old)) viol("s05:not-accepted", "not greeted");
        for (int n = 0; now() - t0 < d && !violated(); ++n) {
            pause(1);
            if (!h.echo(old, n)) viol("s05:not-served", fmt("a client is not served after others have been stuck for %.1f s", now() - t0));
            Raw p = h.client(); uint32_t id = 0;
            if (!h.hello(p, &id) || !h.echo(p, n)) { viol("s05:not-accepted", fmt("a new client is not served after others have been stuck for %.1f s", now() - t0)); break; }
            int dis = h.dis;
            p.close();
            if (!wait_for([&] { return h.dis > dis; })) viol("s05:no-end", fmt("an end is not announced after others have been stuck for %.1f s", now() - t0));
        }
        let[tcp] = true;
        for (auto* x : refs) delete x;
        for (int i : {0, 1}) if (!violated()) { while (i == 1 && ps[i].in.size() < 100 && ps[i].read_some(5)) ; if (i == 0 && !h.echo(ps[i], 7)) viol("s05:not-served", "a client whose handler took long is not served afterwards"); }
        if (!violated() && !wait_for([&] { return h.dis >= 3; })) viol("s05:no-end", "not announced after the references were released");
    });
    j.run();
    leak_check("s05");
}
