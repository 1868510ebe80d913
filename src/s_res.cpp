// R01-R04: conservation of resources, data races, deadlocks, disturbed system calls.
#include "sc.hpp"
#include <csignal>
#include <pthread.h>
#include <dirent.h>
#include <sys/syscall.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#endif
#endif
using namespace sc;

static size_t heap() {
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    return __sanitizer_get_current_allocated_bytes();
#endif
#endif
    return 0;
}
static void echo_or_eat(Connection* c, Request* r) {
    if (r->GetName() == "e") { r->SetName("echo"); c->Push(r, false, 0, false); }
    else delete r;
}
static string list(const vector<string>& v) {
    std::map<string, int> n;
    for (auto& s : v) n[s]++;
    string r;
    for (auto& p : n) r += fmt("%s x%d ", p.first.c_str(), p.second);
    return r;
}
// at rest: the thread and descriptors of what has ended are gone
static void conserved(const char* what, size_t open0, size_t fds0, size_t tasks0, const string& info) {
    if (!wait_for([&] { return iol::open_count() == open0; }, 10))
        viol("r01:descriptors", fmt("%s: the library holds %zu descriptors, %zu before; %s; ", what, iol::open_count(), open0, list(iol::open_fds()).c_str()) + info);
    if (!wait_for([&] { return count_fds() == fds0; }, 10))
        viol("r01:process-descriptors", fmt("%s: the process holds %zu descriptors, %zu before; ", what, count_fds(), fds0) + info);
    if (!wait_for([&] { return count_tasks() == tasks0; }, 10))
        viol("r01:threads", fmt("%s: %zu threads, %zu before; ", what, count_tasks(), tasks0) + info);
}

// ------------------------------------------------------------ R01
struct Life { Rng r{1}; };
static void use_pair(Rng& r, bool quick) {
    LibRaw e(r.chance(0.5));
    e.c->SetHandlerDefault(r.chance(0.7) ? echo_or_eat : nullptr);
    if (r.chance(0.3)) e.c->SetHandlerNamed("n", echo_or_eat);
    int n = r.below(quick ? 5 : 20);
    for (int i = 0; i < n; ++i) {
        if (r.chance(0.5)) push(e.c.get(), simple("x", i, r.below(3000)), r.chance(0.5));
        else e.raw.send(enc(simple(r.chance(0.5) ? "e" : "n", i, r.below(3000))));
    }
    if (r.chance(0.3)) e.raw.send(enc(simple("half", 1, 3000)).substr(0, r.below(2900)));
    if (r.chance(0.3)) { RP q(e.c->Pull(0)); }
    // pulls that wait for the end
    vector<std::thread> wait;
    if (r.chance(0.3)) for (int i = 0, k = 1 + r.below(3); i < k; ++i) wait.emplace_back([&e, sd = r.next()] {
        Rng t(sd);
        for (int j = 0; j < 400; ++j) { bool over = !e.c->IsConnected() || e.c->IsDisconnecting(); RP q(bounded("pull until the end", 40, [&] { return e.c->Pull(t.chance(0.6) ? -1 : 20); })); if (!q && over) break; if (!q) msleep(1); }
    });
    if (wait.size() && r.chance(0.5)) msleep(r.below(5));
    switch (r.below(7)) {
        case 0: e.raw.close(); break;
        case 1: e.raw.reset(); break;
        case 2: e.c->Disconnect(false); break;
        case 3: e.c->Disconnect(true); break;
        case 4: shutdown(e.raw.fd, SHUT_WR); break;
        case 5: e.raw.send(string("\x01\0\0\0", 4)); break;
        default: break;
    }
    if (wait.size()) {
        if (r.chance(0.2)) { SafeConnection ref(e.c.get()); msleep(r.below(3)); }
        e.c->Disconnect(true);
        bounded("pulls until the end", 40, [&] { for (auto& t : wait) t.join(); });
    }
    if (r.chance(0.3)) msleep(r.below(3));
    // after the end: refused pushes, late pulls
    for (int i = 0, k = r.below(5); i < k; ++i) { push(e.c.get(), simple("late", i)); Request q("late2"); e.c->Push(q); RP p(e.c->Pull(0)); }
}
static void use_server(Rng& r) {
    bool tcp = r.chance(0.5);
    Server s; string addr; uint16_t port;
    s.SetConnectedHandler([](Server*, Connection* c) { c->SetHandlerDefault(echo_or_eat); push(c, simple("hello", 0)); });
    if (r.chance(0.3)) s.SetMaxConnections(r.below(4));
    for (int cyc = 0, cn = 1 + r.below(3); cyc < cn; ++cyc) {
        // failures
        if (r.chance(0.3)) s.StartTcp("1.2.3.999", 1);
        if (r.chance(0.3)) s.StartUnix(g_dir + "/no/such/dir");
        if (r.chance(0.2)) s.StartUnix(string(3000, 'x'));
        if (r.chance(0.2)) { Listener l(true); s.StartTcp(l.ip, l.port); }
        if (!start(s, tcp, addr, port)) { inconclusive("no address"); return; }
        if (r.chance(0.3)) s.StartUnix(new_path());
        vector<Raw> raws; vector<std::unique_ptr<Client>> cl; vector<SafeConnection*> refs;
        for (int i = 0, k = r.below(5); i < k; ++i) raws.push_back(raw_connect(s, tcp, addr, port));
        for (int i = 0, k = r.below(3); i < k; ++i) {
            cl.emplace_back(new Client);
            if (!client_connect(*cl.back(), tcp, addr, port)) continue;
            for (int j = 0, m = r.below(10); j < m; ++j) push(cl.back().get(), simple("e", j, r.below(2000)));
        }
        for (auto& p : raws) if (r.chance(0.5)) p.send1(enc(simple("e", 1, r.below(8000))));
        if (r.chance(0.3)) for (int i = 1; i < 4; ++i) if (SafeConnection* x = s.GetConnection((uint32_t)i)) refs.push_back(x);
        if (r.chance(0.4)) for (auto& p : raws) if (r.chance(0.5)) { if (r.chance(0.5)) p.close(); else p.reset(); }
        if (r.chance(0.3)) msleep(r.below(4));
        // pulls through references that wait while everything ends
        vector<std::thread> wait;
        for (auto* x : refs) if (r.chance(0.5)) wait.emplace_back([x] { for (int j = 0; j < 50; ++j) { bool over = !(*x)().IsConnected() || (*x)().IsDisconnecting(); RP q(bounded("pull until the end", 40, [&] { return (*x)().Pull(-1); })); if (!q && over) break; } delete x; });
            else delete x;
        if (wait.size()) { for (auto& p : raws) p.close(); cl.clear(); }
        if (r.chance(0.5)) cl.clear();
        std::unique_ptr<std::thread> stopper;
        if (r.chance(0.3)) stopper.reset(new std::thread([&] { s.Stop(0); }));
        bounded("pulls until the end", 40, [&] { for (auto& t : wait) t.join(); });
        if (stopper) stopper->join();
        switch (r.below(3)) {
            case 0: bounded("stop", 30, [&] { s.Stop(endless()); }); break;
            case 1: s.Stop(0); bounded("stop", 30, [&] { s.WaitForStop(endless()); }); break;
            default: { std::thread t([&] { s.Stop(endless()); }); bounded("stop", 30, [&] { s.Stop(endless()); t.join(); }); }
        }
    }
}
static void use_client(Rng& r) {
    ServerHub hub(r.chance(0.5));
    hub.on_connect = [](Connection* c) { c->SetHandlerDefault(echo_or_eat); };
    Client c;
    for (int k = 0, n = 1 + r.below(5); k < n; ++k) {
        if (r.chance(0.3)) { if (r.chance(0.5)) c.ConnectTcp(my_ip(), free_port(), 5); else c.ConnectUnix(g_dir + "/none", 5); }
        if (r.chance(0.2)) c.ConnectTcp("not an address", 5, 5);
        if (r.chance(0.2)) c.ConnectUnix(string(5000, 'p'), 5);
        if (!bounded("connect", 40, [&] { return hub.connect(c); })) { viol("r01:connect", "could not connect"); return; }
        for (int i = 0, m = r.below(20); i < m; ++i) push(&c, simple("e", i, r.below(3000)), true);
        std::unique_ptr<std::thread> wait;
        if (r.chance(0.3)) wait.reset(new std::thread([&] { for (int j = 0; j < 200; ++j) { bool over = !c.IsConnected() || c.IsDisconnecting(); RP q(bounded("pull until the end", 40, [&] { return c.Pull(-1); })); if (!q) { if (over) break; msleep(1); } } }));
        for (int i = 0, m = r.below(5); i < m; ++i) { RP q(bounded("pull", 30, [&] { return c.Pull(r.chance(0.5) ? 0 : 1); })); }
        if (r.chance(0.3)) hub.connect(c);      // already connected
        bool end = r.chance(0.8);
        if (end) {
            if (r.chance(0.3)) { c.Disconnect(false); }
            else if (r.chance(0.5)) c.Disconnect(true);
            else bounded("disconnect", 30, [&] { c.Disconnect(r.chance(0.5), true); });
            if (!wait_for([&] { return c.WaitForStop(0); })) { viol("r01:no-end", "did not end"); return; }
        } else if (wait) c.Disconnect(true);
        if (wait) bounded("pulls until the end", 40, [&] { wait->join(); });
        if (!end) break;
    }
}
static void use_refs(Rng& r) {
    LibRaw e(r.chance(0.5));
    vector<SafeConnection*> v;
    for (int i = 0, n = r.below(5); i < n; ++i) v.push_back(new SafeConnection(e.c.get()));
    if (v.size() && r.chance(0.5)) v.push_back(new SafeConnection(*v[0]));
    if (r.chance(0.7)) { e.raw.close(); if (r.chance(0.5)) wait_for([&] { return e.c->IsDisconnecting() || !e.c->IsConnected(); }); }
    std::thread t([&] { for (auto* x : v) { if (r.chance(0.3)) msleep(1); delete x; } });
    if (r.chance(0.5)) t.join();
    e.destroy();
    if (t.joinable()) t.join();
}
SCENARIO(r01_cycles) {
    Rng r(g_seed);
    // things that exist once per process
    { Rng w(1); use_pair(w, true); use_server(w); use_client(w); use_refs(w); }
    wait_for([&] { return iol::open_count() == 0; }, 5);
    msleep(50);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("r01 case", 120);
        size_t open0 = iol::open_count(), fds0 = count_fds(), tasks0 = count_tasks();
        if (r.chance(0.6)) disturb(r);
        string info = fmt("case %ld:", cs);
        for (int i = 0, n = 1 + r.below(3); i < n && !violated(); ++i) {
            int k = r.below(4);
            static const char* what[] = {" pair", " server", " client", " references"};
            info += what[k];
            switch (k) {
                case 0: use_pair(r, false); break;
                case 1: use_server(r); break;
                case 2: use_client(r); break;
                default: use_refs(r);
            }
        }
        iol::clear_faults();
        if (violated()) break;
        conserved("after everything was destroyed", open0, fds0, tasks0, info);
        eval(mix(g_seed, cs));
        sample(info);
    }
    iol::clear_faults();
    leak_check("r01");
}
// nothing accumulates in objects that live on
SCENARIO(r01_growth) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("r01 case", 150);
        bool tcp = r.chance(0.5);
        // what lives all along
        ServerHub hub(tcp);
        hub.on_connect = [](Connection* c) { c->tag = "t"; c->SetHandlerDefault(echo_or_eat); };
        hub.on_disconnect = [](Connection*) {};
        Client c, c2;
        if (!hub.connect(c) || !greeted(c)) { viol("r01:connect", "could not connect"); break; }
        LibRaw lr(tcp);
        lr.handle();
        if (r.chance(0.5)) disturb(r);
        static const char* names[] = {"requests there and back", "pulls that wait", "clients come and go", "a client reconnects", "raw peers come and go, some rudely", "lookups and references", "settings and handlers", "pushes after the end", "malformed requests", "failed attempts", "restarts"};
        int kind = r.below(11);
        string info = fmt("case %ld: %s on %s", cs, names[kind], tcp ? "tcp" : "unix");
        std::atomic<bool> bad{false};
        Server s2; string a2; uint16_t p2 = 0;
        if (kind == 10) { s2.SetConnectedHandler([](Server*, Connection* c) { push(c, simple("hello", 0)); }); }
        if (kind == 7) { lr.raw.close(); if (!wait_for([&] { return lr.c->WaitForStop(0); })) viol("r01:no-end", "did not end"); }
        auto once = [&](int i) {
            switch (kind) {
                case 0:
                    for (int j = 0; j < 10; ++j) push(&c, simple("e", j, 50 * j), true);
                    for (int j = 0; j < 10; ++j) { RP q(bounded("pull", 40, [&] { return c.Pull(30); })); if (!q) bad = true; }
                    break;
                case 1:
                    { RP q(c.Pull(0)); if (q) bad = true; }
                    for (int j = 0; j < 3; ++j) { push(&c, simple("e", 1), true); RP q2(bounded("pull", 40, [&] { return c.Pull(-1); })); if (!q2) bad = true; }
                    break;
                case 2: {
                    Client x;
                    if (!hub.connect(x) || !greeted(x)) { bad = true; break; }
                    push(&x, simple("e", 1, 100)); RP q(bounded("pull", 40, [&] { return x.Pull(30); }));
                    break;
                }
                case 3:
                    if (!hub.connect(c2) || !greeted(c2)) { bad = true; break; }
                    for (int j = 0, k = i % 4 == 1 ? 400 : 5; j < k; ++j) push(&c2, simple("e", j, k > 5 ? 5 : 500), true);
                    c2.Disconnect(i % 2);
                    if (!wait_for([&] { return c2.WaitForStop(0); })) bad = true;
                    break;
                case 4: {
                    Raw p = hub.raw();
                    if (!greeted(p)) { bad = true; break; }
                    if (i % 3 == 0) p.send(enc(simple("e", 1, 3000)).substr(0, 1500));
                    if (i % 3 == 1) p.reset();
                    break;
                }
                case 5: {
                    SafeConnection* x = hub.s.GetConnection(string("t"));
                    if (!x) { bad = true; break; }
                    { SafeConnection y(*x); y().GetRefs(); }
                    delete x;
                    delete hub.s.GetConnection(string("none"));
                    delete hub.s.GetConnection(99999u);
                    break;
                }
                case 6:
                    lr.c->SetHandlerNamed("a", echo_or_eat); lr.c->SetHandlerNamed("b", echo_or_eat); lr.c->SetHandlerNamed("a", nullptr); lr.c->SetHandlerNamed("b", nullptr); lr.c->SetHandlerNamed("none", nullptr);
                    lr.c->GetHandlerNamed("whatever" + std::to_string(i));
                    lr.c->SetOurSaInterval(20); lr.c->SetTheirNaIntervalLimit(60); lr.c->SetSendBlockSize(100 + i); lr.c->SetMaxRequestSize(5000);
                    hub.s.SetMaxConnections(100 + i);
                    lr.c->WaitForStop(0);
                    break;
                case 7:
                    push(lr.c.get(), simple("late", 1)); { Request q("late"); lr.c->Push(q); lr.c->Push(&q, true, 0); }
                    lr.c->Disconnect(); lr.c->Disconnect(true, true);
                    { RP q(lr.c->Pull(1)); }
                    break;
                case 8: {
                    // well framed, but no request; some with malformed arguments
                    string m = enc(simple("x", 1));
                    m[8] = (char)0xff; m[9] = (char)0xff;
                    lr.raw.send(m);
                    m = enc(simple("y", 1)); m[m.size() - 5] = 77; lr.raw.send(m);
                    size_t n0 = lr.sink.n;
                    lr.raw.send(enc(simple("z", 1)));
                    if (!wait_for([&] { return lr.sink.n > n0 && lr.sink.all().back().name == "z"; })) bad = true;
                    { std::lock_guard<std::mutex> l(lr.sink.m); vector<RR>().swap(lr.sink.got); }
                    break;
                }
                case 9:
                    c2.ConnectTcp("x", 1, 3); c2.ConnectUnix(g_dir + "/none", 3); c2.ConnectUnix(string(400, 'p'), 3);
                    c2.ConnectTcp(my_ip(), free_port(), 3);
                    s2.StartTcp("x", 1); s2.StartUnix(g_dir + "/none/none"); s2.StartUnix(string(300, 'y'));
                    break;
                default: {
                    if (!start(s2, tcp, a2, p2)) { bad = true; break; }
                    { Raw p = raw_connect(s2, tcp, a2, p2); if (!greeted(p)) bad = true; }
                    bounded("stop", 30, [&] { s2.Stop(endless()); });
                }
            }
        };
        auto rest = [&] {
            // what is going on has settled
            size_t last = 0; int same = 0;
            for (int i = 0; i < 400 && same < 8; ++i) { size_t n = iol::open_count() * 1000003 + count_tasks() * 1009 + heap(); same = n == last ? same + 1 : 0; last = n; msleep(1); }
        };
        for (int i = 0; i < 12 && !bad; ++i) once(i);
        rest();
        size_t h[4], o[4], t[4];
        for (int w = 0; w < 4 && !bad; ++w) {
            if (w) for (int i = 0; i < 24 && !bad; ++i) once(i);
            rest();
            h[w] = heap(); o[w] = iol::open_count(); t[w] = count_tasks();
        }
        iol::clear_faults();
        if (bad) { viol("r01:unusable", "an operation failed; " + info); break; }
        auto grows = [](size_t* v, size_t d) { return v[1] >= v[0] + d && v[2] >= v[1] + d && v[3] >= v[2] + d; };
        // a leak of one object each time is at least 8 bytes each
        if (grows(h, 24 * 8)) viol("r01:memory-grows", fmt("allocated %zu, %zu, %zu, %zu bytes, 24 rounds apart; ", h[0], h[1], h[2], h[3]) + info);
        if (grows(o, 1)) viol("r01:descriptors-grow", fmt("%zu, %zu, %zu, %zu descriptors of the library, 24 rounds apart; ", o[0], o[1], o[2], o[3]) + info);
        if (grows(t, 1)) viol("r01:threads-grow", fmt("%zu, %zu, %zu, %zu threads, 24 rounds apart; ", t[0], t[1], t[2], t[3]) + info);
        eval(mix(mix(g_seed, cs), kind));
        count(names[kind]);
        sample(info + fmt(": %zu bytes, %zu descriptors, %zu threads", h[3], o[3], t[3]));
    }
    iol::clear_faults();
    leak_check("r01");
}

// ------------------------------------------------------------ R02
struct Mix {
    Server* s = nullptr; std::atomic<Client*> own[3]; std::atomic<bool> stop{false};
    std::atomic<uint32_t> ids{0}; std::atomic<uint64_t> ops{0};
};
static Mix* mx;
static Rng& trng() { static std::atomic<uint64_t> k{1}; static thread_local Rng rng(mix(g_seed, k++)); return rng; }
static void mix_op(Connection& c, Rng& t, bool handler);
static void h_mix(Connection* c, Request* r) {
    RP own(r);
    Rng& t = trng();
    if (t.chance(0.5)) mix_op(*c, t, true);
    if (r->GetName() == "e") { RR q; q.name = "r"; push(c, q); }
}
static void mix_op(Connection& c, Rng& t, bool handler) {
    mx->ops.fetch_add(1, std::memory_order_relaxed);
    switch (t.below(26)) {
        case 0: case 1: case 2: push(&c, simple("e", 1, t.below(300)), t.chance(0.7)); break;
        case 3: { Request q("p"); c.Push(q); break; }
        case 4: { Request q("p"); c.Push(&q, true, 0, t.chance(0.5)); break; }
        case 5: case 6: { RP q(c.Pull(0)); break; }
        case 7: c.IsConnected(); c.IsDisconnecting(); c.GetType(); break;
        case 8: c.SetOurSaInterval(1 + t.below(20)); c.GetOurSaInterval(); break;
        case 9: c.SetTheirNaIntervalLimit(20 + t.below(20)); c.GetTheirNaIntervalLimit(); break;
        case 10: c.SetSendBlockSize(100 + t.below(3000)); c.GetSendBlockSize(); break;
        case 11: c.SetRecvBlockSize(100 + t.below(3000)); c.GetRecvBlockSize(); break;
        case 12: c.SetMaxRequestSize(16384 + t.below(3000)); c.GetMaxRequestSize(); break;
        case 13: c.SetHandlerDefault(t.chance(0.8) ? h_mix : nullptr); c.GetHandlerDefault(); break;
        case 14: c.SetHandlerNamed(t.chance(0.5) ? "e" : "r", t.chance(0.5) ? h_mix : nullptr); break;
        case 15: c.GetHandlerNamed("e"); break;
        case 16: c.GetStoppedEvent(); c.WaitForStop(0); break;
        case 17: c.GetRefs(); break;
        case 18: { SafeConnection a(&c); SafeConnection b(a); a().IsConnected(); b().GetType(); break; }
        case 19: c.IncreaseRefs(); push(&c, simple("p", 2)); c.DecreaseRefs(); break;
        case 20: if (t.chance(0.05)) c.Disconnect(t.chance(0.5)); break;
        case 21: mx->s->SetMaxConnections(t.chance(0.5) ? -1 : 3 + t.below(5)); mx->s->GetMaxConnections(); mx->s->GetType(); break;
        case 22: if (SafeConnection* x = t.chance(0.5) ? mx->s->GetConnection((uint32_t)(1 + t.below(mx->ids + 1))) : mx->s->GetConnection(string(t.chance(0.5) ? "odd" : "even"))) {
                if (!handler && t.chance(0.5)) mix_op((*x)(), t, true); else push(&(*x)(), simple("p", 3));
                delete x;
            }
            break;
        case 23: { static int data[4]; c.SetSessionData(t.chance(0.3) ? nullptr : &data[t.below(4)]); int* d = c.GetSessionData<int>(); if (d && (d < data || d >= data + 4)) viol("r02:session", "session data nobody set"); break; }
        case 24: { auto ty = mx->s->GetType(); mx->s->GetUnixPath(); mx->s->GetTcpPort(); mx->s->GetTcpIpString(); if (ty == dn::SocketTypeUndefined) mx->s->GetTcpIp(); break; }
        default: { mx->s->GetConnectedHandler(); mx->s->GetDisconnectedHandler(); break; }
    }
}
static void mix_con(Server* s, Connection* c) { c->tag = c->id % 2 ? "odd" : "even"; mx->ids = c->id; c->SetHandlerDefault(h_mix); push(c, simple("hello", 0)); }
static void mix_dis(Server* s, Connection* c) { c->IsConnected(); c->GetType(); RP q(c->Pull(0)); }
static void mix_dis2(Server* s, Connection* c) { delete s->GetConnection(c->id); }
SCENARIO(r02_mix) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("r02 case", 120);
        bool tcp = r.chance(0.5);
        Mix m; mx = &m;
        auto s = std::make_unique<Server>(); m.s = s.get();
        s->SetConnectedHandler(mix_con); s->SetDisconnectedHandler(mix_dis);
        string addr; uint16_t port;
        if (!start(*s, tcp, addr, port)) { inconclusive("no address"); return; }
        if (r.chance(0.7)) disturb(r);
        vector<std::unique_ptr<Client>> cl; cl.reserve(64);
        for (int i = 0; i < 3; ++i) { cl.emplace_back(new Client); m.own[i] = cl.back().get(); cl.back()->SetHandlerDefault(h_mix); }
        LibRaw lr(tcp);
        lr.c->SetHandlerDefault(h_mix);
        vector<std::thread> th;
        // one thread owns each client's connecting, others use the clients meanwhile
        for (int i = 0; i < 3; ++i) th.emplace_back([&, i, sd = r.next()] {
            Rng t(sd);
            Client* c = cl[i].get();
            while (!m.stop) {
                if (client_connect(*c, tcp, addr, port, 5)) {
                    for (int k = 0, n = t.below(20); k < n && !m.stop; ++k) { mix_op(*c, t, false); if (t.chance(0.1)) msleep(t.below(3) * 0.3); }
                    if (t.chance(0.5)) { RP q(bounded("pull", 40, [&] { return c->Pull(1); })); }
                    if (t.chance(0.8)) bounded("disconnect", 40, [&] { c->Disconnect(t.chance(0.5), t.chance(0.6)); });
                    if (!wait_for([&] { return !c->IsConnected() || m.stop; }, 0.05)) bounded("disconnect", 40, [&] { c->Disconnect(true, true); });
                } else msleep(0.2);
            }
            // whatever connection is left ends here
            bounded("disconnect", 40, [&] { c->Disconnect(true, c->IsConnected()); });
        });
        for (int i = 0; i < 3; ++i) th.emplace_back([&, sd = r.next()] {
            Rng t(sd);
            while (!m.stop) { mix_op(*m.own[t.below(3)], t, false); m.own[t.below(3)].load()->IsConnecting(); if (t.chance(0.05)) msleep(0.2); }
        });
        th.emplace_back([&, sd = r.next()] { Rng t(sd); while (!m.stop) { mix_op(*lr.c, t, false); if (t.chance(0.05)) msleep(0.2); } });
        th.emplace_back([&, sd = r.next()] {
            Rng t(sd);
            while (!m.stop) {
                Raw p = raw_connect(*s, tcp, addr, port);
                if (p.fd < 0) { msleep(1); continue; }
                for (int i = 0, n = t.below(6); i < n && !m.stop; ++i) { p.send1(enc(simple("e", i, t.below(500)))); if (t.chance(0.3)) p.read_some(0.01); }
                if (t.chance(0.3)) p.reset();
            }
        });
        th.emplace_back([&, sd = r.next()] {
            Rng t(sd);
            while (!m.stop) {
                s->SetConnectedHandler(mix_con); s->SetDisconnectedHandler(t.chance(0.3) ? nullptr : t.chance(0.5) ? mix_dis : mix_dis2);
                if (lr.raw.fd >= 0 && !lr.raw.err) { lr.raw.send(enc(simple(t.chance(0.5) ? "e" : "q", 1, t.below(200))), 0.05); lr.raw.read_some(0.01); lr.raw.in.clear(); }
                msleep(t.below(10) * 0.1);
            }
        });
        double len = 40 + r.below(120);
        msleep(len);
        // the server is stopped while everybody goes on, by several threads
        if (r.chance(0.5)) {
            std::thread a([&] { s->Stop(0); }), b([&] { bounded("stop", 40, [&] { s->Stop(endless()); }); });
            a.join(); b.join();
            bounded("stop", 40, [&] { s->WaitForStop(endless()); });
            msleep(3);
        }
        m.stop = true;
        bounded("users", 60, [&] { for (auto& t : th) t.join(); });
        iol::clear_faults();
        lr.destroy();
        bounded("destroy", 40, [&] { cl.clear(); });
        bounded("stop", 40, [&] { s.reset(); });
        eval(mix(mix(g_seed, cs), m.ops));
        count("operations", m.ops);
    }
    iol::clear_faults();
}

// ------------------------------------------------------------ R03
struct Web {
    Server* s = nullptr; std::atomic<Client*> cl[4] = {}; std::atomic<uint32_t> ids{0};
    std::atomic<int> users{0};
    std::atomic<size_t> hops{0}, arrived{0}, probes{0}, lost{0};
    bool ends = false, chaos = false;
    size_t pad = 0;
};
static Web* web;
// push to any connection of the world, from whatever thread
struct Using { Using() { web->users++; } ~Using() { web->users--; } };
static bool web_push(Rng& t, const RR& q) {
    Using u;
    if (t.chance(0.4)) { Client* c = web->cl[t.below(4)]; if (c) { bool ok = !c->IsDisconnecting() && c->IsConnected(); push(c, q, t.chance(0.5)); return ok; } return false; }
    for (int k = 0; k < 6; ++k)
        if (SafeConnection* x = web->s->GetConnection((uint32_t)(1 + t.below(web->ids + (k > 3 ? 1 : 0))))) {
            bool ok = (*x)().IsConnected() && !(*x)().IsDisconnecting();
            push(&(*x)(), q, t.chance(0.5));
            delete x;
            return ok;
        }
    return false;
}
static void web_other(Rng& t, Connection* me) {
    Using u;
    SafeConnection* x = web->s->GetConnection((uint32_t)(1 + t.below(web->ids + 1)));
    Connection* o = x ? &(*x)() : web->cl[t.below(4)].load();
    if (!o) return;
    switch (t.below(9)) {
        case 0: o->IsConnected(); o->IsDisconnecting(); o->GetRefs(); o->WaitForStop(0); break;
        case 1: { RP q(o->Pull(0)); break; }
        case 2: o->SetHandlerNamed("n", nullptr); o->GetHandlerNamed("t"); break;
        case 3: o->SetOurSaInterval(5 + t.below(9)); o->SetTheirNaIntervalLimit(60); break;
        case 4: web->s->SetMaxConnections(t.chance(0.5) ? -1 : 10); break;
        case 5: { SafeConnection y(me); y().IsConnected(); break; }
        case 6: if (web->ends && t.chance(0.1)) o->Disconnect(t.chance(0.5)); break;
        case 7: if (web->ends && t.chance(0.05)) me->Disconnect(t.chance(0.5)); break;
        default: web->s->GetType(); web->s->WaitForStop(0); break;
    }
    delete x;
}
static void h_web(Connection* c, Request* r) {
    RP own(r);
    Rng& t = trng();
    RR q = extract(r);
    if (q.name == "probe") { q.name = "probe-ok"; push(c, q); return; }
    if (q.name == "probe-ok") { web->probes++; return; }
    if (q.name != "t") return;
    uint64_t ttl = argnum(q, "k");
    for (int i = 0, n = t.below(3); i < n; ++i) web_other(t, c);
    web->hops++;
    if (!ttl) { web->arrived++; return; }
    if (!web_push(t, simple("t", (uint32_t)ttl - 1, web->pad)) && !web->ends) web->lost++;
}
static void web_con(Server* s, Connection* c) {
    c->SetMaxRequestSize(1 << 20); c->SetHandlerDefault(h_web);
    // (the connection is not in the list yet)
    if (web->chaos) web_other(trng(), c);
    web->ids = c->id;
    push(c, simple("hello", 0));
}
static void web_dis(Server* s, Connection* c) { if (web->chaos) { Rng& t = trng(); web_other(t, c); web_push(t, simple("n", 0)); c->Disconnect(true); } }
SCENARIO(r03_web) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5);
        Web w; web = &w;
        w.ends = r.chance(0.5); w.chaos = r.chance(0.5);
        w.pad = r.chance(0.5) ? 0 : r.below(5000);
        string info = fmt("case %ld: %s %s %s pad %zu", cs, tcp ? "tcp" : "unix", w.ends ? "ending" : "staying", w.chaos ? "with server handlers" : "", w.pad);
        Guard gd("r03 case", 120, info);
        auto s = std::make_unique<Server>(); w.s = s.get();
        s->SetConnectedHandler(web_con); s->SetDisconnectedHandler(web_dis);
        string addr; uint16_t port;
        if (!start(*s, tcp, addr, port)) { inconclusive("no address"); return; }
        vector<std::unique_ptr<Client>> cl; cl.reserve(64);
        vector<Raw> extra;
        for (int i = 0; i < 4; ++i) {
            cl.emplace_back(new Client);
            Client* c = cl.back().get();
            c->SetMaxRequestSize(1 << 20);
            if (r.chance(0.3)) c->SetSendBlockSize(64);
            c->SetHandlerDefault(h_web);
            // (the handlers of the server may end it at once)
            bool ok = false;
            for (int k = 0; k < (w.ends && w.chaos ? 10 : 1) && !ok; ++k) {
                ok = bounded("connect", 40, [&] { return client_connect(*c, tcp, addr, port); });
                if (!ok) wait_for([&] { return !c->IsConnected(); });
            }
            if (!ok) viol("r03:connect", "could not connect; " + info);
        }
        if (violated()) break;
        if (!wait_for([&] { return w.ids >= 4; })) { viol("r03:accept", "clients are not accepted; " + info); break; }
        for (int i = 0; i < 4; ++i) w.cl[i] = cl[i].get();
        if (r.chance(0.8)) disturb(r, r.chance(0.5), r.chance(0.5), true);
        // tokens walk through the connections; threads of the user push, query and end as well
        size_t tokens = 0, ttl = 20 + r.below(60);
        std::atomic<bool> stop{false};
        vector<std::thread> th;
        for (int k = 0; k < 3; ++k) th.emplace_back([&, sd = r.next()] { Rng t(sd); while (!stop) { web_other(t, cl[t.below(4)].get()); if (t.chance(0.3)) web_push(t, simple("n", 0)); if (t.chance(0.2)) msleep(0.3); } });
        for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) { push(cl[i].get(), simple("t", ttl, w.pad)); tokens++; }
        if (!w.ends) {
            if (!progress(w.hops, tokens * (ttl + 1), 25) || !wait_for([&] { return w.arrived >= tokens; }, 10))
                viol("r03:stuck", fmt("%zu of %zu tokens arrived, %zu hops of %zu made, %zu lost; ", w.arrived.load(), tokens, w.hops.load(), tokens * (ttl + 1), w.lost.load()) + info);
        } else {
            for (int i = 0, n = 20 + r.below(40); i < n; ++i) {
                if (r.chance(0.2)) { Raw p = raw_connect(*s, tcp, addr, port); if (p.fd >= 0) extra.push_back(std::move(p)); }
                if (r.chance(0.2) && extra.size()) extra.pop_back();
                msleep(0.5);
            }
        }
        stop = true;
        bounded("users of the API", 60, [&] { for (auto& t : th) t.join(); });
        iol::clear_faults();
        // whoever is still connected is still served
        size_t want = 0;
        if (!violated()) for (int i = 0; i < 4; ++i) {
            Client* c = cl[i].get();
            size_t p0 = w.probes;
            push(c, simple("probe", i));
            if (!wait_for([&] { return w.probes > p0 || !c->IsConnected() || c->IsDisconnecting(); }, 25)) viol("r03:stuck", "a connection does not answer any more; " + info);
            want += w.probes > p0;
        }
        // new ones too
        if (!violated()) {
            extra.clear();
            bool ok = false;
            // (the handlers may still end the connection or change the limit)
            for (int i = 0; i < (w.ends || w.chaos ? 20 : 1) && !ok; ++i) {
                s->SetMaxConnections(-1);
                Raw p = raw_connect(*s, tcp, addr, port);
                ok = p.fd >= 0 && greeted(p);
            }
            if (!ok) viol("r03:server-stuck", "the server does not serve a new client any more; " + info);
        }
        count("hops", w.hops); count("tokens_arrived", w.arrived); count("probes_answered", want);
        // everything can be ended
        if (r.chance(0.5)) bounded("stop", 40, [&] { s->Stop(endless()); });
        for (auto& c : w.cl) c = nullptr;
        if (!wait_for([&] { return w.users == 0; }, 30)) viol("r03:stuck", "a handler does not return; " + info);
        // handlers use the server: it has to outlive the clients
        bounded("destroy", 40, [&] { cl.clear(); }); bounded("stop", 40, [&] { s.reset(); });
        eval(mix(mix(g_seed, cs), w.hops));
        sample(info + fmt(": %zu hops", w.hops.load()));
    }
    iol::clear_faults();
}
// both sides send a lot at once
static void h_back(Connection* c, Request* r) {
    RP own(r);
    Sink* s = sinks().get(c);
    RR q = extract(r);
    if (s) s->add(q);
    if (q.name == "ping") { q.name = "pong"; push(c, q); }
}
SCENARIO(r03_big) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5), small = r.chance(0.6), back = r.chance(0.4);
        static const uint32_t k[] = {16, 100, 1024, 4096, 65536, 1 << 24, 0xFFFFFFFFu};
        uint32_t b[4]; for (auto& x : b) x = k[r.below(7)];
        size_t size = (*std::min_element(b, b + 4) < 1000 ? 20000 : 300000) + r.below(100000), n = 1 + r.below(6);
        string info = fmt("case %ld: %zu requests of %zu bytes each way, %s, blocks %u/%u %u/%u%s%s", cs, n, size, tcp ? "tcp" : "unix", b[0], b[1], b[2], b[3], small ? ", small buffers" : "", back ? ", sent back" : "");
        Guard gd("r03 case", 120, info);
        int fa, fb; pair_fds(tcp, fa, fb, small && tcp ? 4096 : 0, small ? 4096 : 0);
        Sink sa, sb;
        std::unique_ptr<Connection> A(new Connection(iol::hand_over(fa))), B(new Connection(iol::hand_over(fb)));
        sinks().set(A.get(), &sa); sinks().set(B.get(), &sb);
        int i = 0;
        for (auto* c : {A.get(), B.get()}) { c->SetMaxRequestSize(8 << 20); c->SetSendBlockSize(b[i++]); c->SetRecvBlockSize(b[i++]); c->SetHandlerDefault(back ? h_back : h_sink); }
        if (r.chance(0.3)) disturb(r, false, true, true);
        std::thread ta([&] { for (size_t j = 0; j < n; ++j) push(A.get(), simple("ping", j, size)); });
        for (size_t j = 0; j < n; ++j) push(B.get(), simple("ping", j, size));
        ta.join();
        size_t want = back ? 2 * n : n;
        // bytes move all the time, whole requests may take long
        auto moving = [&](Sink& s) {
            while (s.n < want) {
                uint64_t c0 = iol::st.recv_calls;
                size_t n0 = s.n;
                if (!wait_for([&] { return s.n > n0 || iol::st.recv_calls > c0 + 3; }, 20)) return false;
                if (!A->IsConnected() || !B->IsConnected()) return false;
                msleep(1);
            }
            return true;
        };
        if (!moving(sa) || !moving(sb)) viol("r03:stuck", fmt("%zu and %zu of %zu arrived, then nothing moved; ", sa.n.load(), sb.n.load(), want) + info);
        iol::clear_faults();
        if (r.chance(0.5)) { Connection* x = A.get(), *y = B.get(); x->Disconnect(false); y->Disconnect(false); if (!wait_for([&] { return x->WaitForStop(0) && y->WaitForStop(0); })) { viol("r03:no-end", "did not end; " + info); finish(1); } }
        bounded("destroy", 30, [&] { A.reset(); B.reset(); });
        eval(mix(mix(g_seed, cs), size)); count("bytes", 2 * want * size);
        sample(info);
    }
    iol::clear_faults();
}
// handlers of the server that call the server
struct SrvCalls { std::atomic<int> mode{0}; std::atomic<size_t> con{0}, dis{0}; };
static SrvCalls* sv;
static void sv_any(Server* s, Connection* c, Rng& t) {
    for (int i = 0, n = 1 + t.below(3); i < n; ++i) switch (t.below(7)) {
        case 0: delete s->GetConnection(c->id); break;
        case 1: delete s->GetConnection(c->tag); break;
        case 2: s->SetMaxConnections(5 + t.below(5)); s->GetMaxConnections(); break;
        case 3: if (SafeConnection* x = s->GetConnection((uint32_t)(1 + t.below(c->id + 1)))) { push(&(*x)(), simple("n", 1)); if (t.chance(0.2)) (*x)().Disconnect(t.chance(0.5)); delete x; } break;
        case 4: s->SetConnectedHandler(s->GetConnectedHandler()); break;
        case 5: s->StartTcp("127.0.0.1", 1); s->GetType(); break;
        default: s->WaitForStop(0); break;
    }
}
static void sv_req(Connection* c, Request* r) { RP own(r); Rng& t = trng(); Server* s = web->s; if (r->GetName() == "stop") s->Stop(0); else sv_any(s, c, t); if (t.chance(0.05)) c->Disconnect(t.chance(0.5)); }
static void sv_con(Server* s, Connection* c) { c->tag = "x"; c->SetHandlerDefault(sv_req); sv->con++; sv_any(s, c, trng()); push(c, simple("hello", 0)); }
static void sv_dis(Server* s, Connection* c) { sv->dis++; sv_any(s, c, trng()); }
SCENARIO(r03_server) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("r03 case", 120);
        bool tcp = r.chance(0.5);
        Web w; web = &w; SrvCalls st; sv = &st;
        auto s = std::make_unique<Server>(); w.s = s.get();
        s->SetConnectedHandler(sv_con); s->SetDisconnectedHandler(sv_dis);
        string addr; uint16_t port;
        if (!start(*s, tcp, addr, port)) { inconclusive("no address"); return; }
        if (r.chance(0.7)) disturb(r);
        std::atomic<bool> stop{false};
        vector<std::thread> th;
        for (int k = 0; k < 3; ++k) th.emplace_back([&, sd = r.next()] {
            Rng t(sd);
            while (!stop) {
                Raw p = raw_connect(*s, tcp, addr, port);
                if (p.fd < 0) { msleep(1); continue; }
                for (int i = 0, n = t.below(8); i < n; ++i) p.send1(enc(simple("n", i)));
                if (t.chance(0.5)) p.read_some(0.01);
            }
        });
        th.emplace_back([&, sd = r.next()] { Rng t(sd); while (!stop) { delete s->GetConnection(string("x")); s->SetMaxConnections(4 + t.below(9)); if (t.chance(0.2)) msleep(0.2); } });
        msleep(20 + r.below(40));
        int how = r.below(3);
        if (how == 0) bounded("stop", 40, [&] { s->Stop(endless()); });
        else if (how == 1) {
            // from a handler
            double t0 = now();
            while (s->GetType() != dn::SocketTypeUndefined && now() - t0 < 30) { Raw p = raw_connect(*s, tcp, addr, port); if (p.fd >= 0) { p.send1(enc(simple("stop", 1))); p.read_some(0.02); } }
            bounded("stop", 40, [&] { s->WaitForStop(endless()); });
            if (s->GetType() != dn::SocketTypeUndefined && max_gap_since(t0) < 1) viol("r03:stop", "a stop from a handler does not get through");
        }
        stop = true;
        bounded("users", 40, [&] { for (auto& t : th) t.join(); });
        iol::clear_faults();
        // served again
        if (how < 2) {
            if (!start(*s, tcp, addr, port)) viol("r03:restart", "could not be started again");
            s->SetMaxConnections(-1);
            Raw p = raw_connect(*s, tcp, addr, port);
            if (p.fd < 0 || !greeted(p)) viol("r03:server-stuck", "the server does not serve after a restart");
        }
        bounded("stop", 40, [&] { s.reset(); });
        eval(mix(mix(g_seed, cs), st.con)); count("connected", st.con); count("disconnected", st.dis);
    }
    iol::clear_faults();
}

// ------------------------------------------------------------ R04
static std::atomic<uint64_t> signals_taken{0};
static void on_signal(int) { signals_taken.fetch_add(1, std::memory_order_relaxed); }
// interrupt every thread of the process again and again (except the watchdog, which blocks signals)
struct Storm {
    std::atomic<bool> stop{false}; std::thread th;
    std::atomic<uint64_t> sent{0};
    Storm(double pause_ms) {
        struct sigaction sa{}; sa.sa_handler = on_signal;      // no SA_RESTART
        sigaction(SIGUSR1, &sa, nullptr);
        th = std::thread([this, pause_ms] {
            sigset_t all; sigfillset(&all); pthread_sigmask(SIG_BLOCK, &all, nullptr);
            while (!stop) {
                if (DIR* d = opendir("/proc/self/task")) {
                    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') { syscall(SYS_tgkill, getpid(), atoi(e->d_name), SIGUSR1); sent++; }
                    closedir(d);
                }
                msleep(pause_ms);
            }
        });
    }
    ~Storm() { stop = true; th.join(); }
};
struct Echoes { std::atomic<size_t> bad{0}; };
// requests there and back, in order, nothing lost
static bool echo_run(Connection& c, int n, Rng& t, const string& info, size_t max = 9000) {
    vector<RR> out;
    for (int i = 0; i < n; ++i) { out.push_back(simple("e", i, t.chance(0.3) ? t.below(max) : t.below(50), 7)); push(&c, out.back()); }
    for (int i = 0; i < n; ++i) {
        RP q(bounded("pull", 60, [&] { return c.Pull(-1); }));
        if (!q) { viol("r04:lost", fmt("no answer to request %d of %d, connected: %d; ", i, n, c.IsConnected()) + info); return false; }
        RR a = extract(q.get());
        out[i].name = "echo";
        if (!(a == out[i])) { viol("r04:corrupted", "expected " + show(out[i]) + " got " + show(a) + "; " + info); return false; }
    }
    return true;
}
SCENARIO(r04_signals) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5);
        string info = fmt("case %ld %s", cs, tcp ? "tcp" : "unix");
        Guard gd("r04 case", 120, info);
        Storm storm(r.chance(0.5) ? 0.05 : 1);
        if (r.chance(0.5)) { iol::cfg.eintr_poll = r.below(20000); iol::cfg.eintr_io = r.below(20000); }
        {
            ServerHub hub(tcp);
            hub.on_connect = [](Connection* c) { c->SetHandlerDefault(echo_or_eat); };
            vector<std::unique_ptr<Client>> cl; cl.reserve(64);
            vector<std::thread> th;
            for (int k = 0; k < 3; ++k) {
                cl.emplace_back(new Client);
                if (!bounded("connect", 40, [&] { return hub.connect(*cl.back()); })) { viol("r04:connect", "connecting failed while signals arrive; " + info); continue; }
                if (!greeted(*cl.back())) { viol("r04:greeting", "no greeting; " + info); continue; }
                th.emplace_back([&, k, sd = r.next()] { Rng t(sd); for (int i = 0; i < 3 && !violated(); ++i) echo_run(*cl[k], 30, t, info); });
            }
            // waits that must not return early
            LibRaw lr(tcp);
            auto early = [&](const char* what, int secs, const std::function<bool()>& f) {
                double t0 = now();
                bool res = bounded("wait", secs + 40, f);
                double el = now() - t0;
                if (res) viol("r04:wait-result", string(what) + " reported something that did not happen; " + info);
                else if (el < secs - 0.001) viol("r04:early", fmt("%s returned after %.4f of %d s; ", what, el, secs) + info);
            };
            bool waits = cs % 4 == 0;
            if (waits) {
                th.emplace_back([&] { early("Pull(1)", 1, [&] { RP q(lr.c->Pull(1)); return !!q; }); });
                th.emplace_back([&] { early("WaitForStop(1)", 1, [&] { return lr.c->WaitForStop(1); }); });
                th.emplace_back([&] { early("Server::WaitForStop(1)", 1, [&] { hub.s.WaitForStop(1); return hub.s.GetType() == dn::SocketTypeUndefined; }); });
            }
            bounded("exchange", 100, [&] { for (auto& t : th) t.join(); });
            for (auto& c : cl) if (c->IsDisconnecting() || !c->IsConnected()) viol("r04:ended", "a connection ended though nobody ended it; " + info);
            if (lr.c->IsDisconnecting() || !lr.c->IsConnected()) viol("r04:ended", "a connection ended though nobody ended it; " + info);
            // graceful ends flush everything, under signals as well
            if (!violated()) {
                for (int i = 0; i < 20; ++i) push(lr.c.get(), simple("g", i, 500));
                lr.c->Disconnect(false);
                RR q; int n = 0;
                while (lr.raw.request(q, 20)) { if (argnum(q, "k") != (uint64_t)n) viol("r04:order", "out of order; " + info); n++; }
                if (n != 20) viol("r04:lost", fmt("%d of 20 arrived before the end; ", n) + info);
                if (!lr.raw.wait_eof(20)) viol("r04:no-end", "no end; " + info);
            }
            Raw p = hub.raw();
            if (p.fd < 0 || !greeted(p)) viol("r04:server", "the server does not serve a new client; " + info);
            count("signals", storm.sent);
            bounded("destroy", 40, [&] { lr.destroy(); cl.clear(); });
            if (r.chance(0.5)) bounded("stop", 40, [&] { hub.s.Stop(endless()); });
        }
        iol::clear_faults();
        eval(mix(g_seed, cs));
        sample(info);
    }
    iol::clear_faults();
    count("signals_taken", signals_taken);
}
// accepting fails for a while
SCENARIO(r04_accept) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5);
        static const int errs[] = {EMFILE, ENFILE, ECONNABORTED, EINTR, EAGAIN, ENOBUFS, ENOMEM, EPROTO, EPERM};
        int e = errs[r.below(9)], many = r.chance(0.5);
        string info = fmt("case %ld %s accept fails with %s %s", cs, tcp ? "tcp" : "unix", strerror(e), many ? "for a while" : "a few times");
        Guard gd("r04 case", 100, info);
        std::atomic<int> discs{0};
        ServerHub hub(tcp);
        hub.on_connect = [](Connection* c) { c->SetHandlerDefault(echo_or_eat); };
        hub.on_disconnect = [&](Connection*) { discs++; };
        Client c;
        if (!hub.connect(c)) { viol("r04:connect", "connecting failed"); break; }
        if (!greeted(c)) { viol("r04:greeting", "no greeting; " + info); break; }
        if (r.chance(0.3)) { iol::cfg.short_recv = 8000; iol::cfg.short_send = 8000; iol::cfg.eintr_io = r.below(8000); iol::cfg.eagain_recv = r.below(8000); iol::cfg.eintr_poll = r.below(8000); }
        echo_run(c, 3, r, info);
        iol::cfg.accept_errno = e;
        iol::cfg.accept_fail = many ? 1 << 30 : 1 + (int)r.below(10);
        vector<Raw> waiting;
        for (int i = 0, n = 1 + r.below(5); i < n; ++i) { waiting.push_back(hub.raw()); if (waiting.back().fd < 0) viol("r04:server", "refused; " + info); }
        // the others are served meanwhile
        echo_run(c, 10, r, info);
        bool gone = r.chance(0.3);
        if (gone) waiting.pop_back();
        if (many) { msleep(r.below(10)); if (r.chance(0.3)) hub.s.SetMaxConnections(50); echo_run(c, 3, r, info); }
        iol::cfg.accept_fail = 0;
        for (auto& p : waiting) if (!greeted(p)) { viol("r04:not-served", "a client that came while accepting failed is never served; " + info); break; }
        Raw p = hub.raw();
        if (p.fd < 0 || !greeted(p)) viol("r04:server", "the server serves nobody after accepting failed; " + info);
        else {
            p.send(enc(simple("e", 5)));
            RR q;
            if (!p.request(q, 20) || q.name != "echo") viol("r04:server", "no answer after accepting failed; " + info);
        }
        if (!violated() && (discs > (int)gone || !c.IsConnected() || c.IsDisconnecting())) viol("r04:ended", "a connection ended though nobody ended it; " + info);
        iol::clear_faults();
        eval(mix(mix(g_seed, cs), e)); count(strerror(e)); sample(info);
        // it can be stopped while accepting fails
        if (r.chance(0.3)) { iol::cfg.accept_errno = e; iol::cfg.accept_fail = 1 << 30; Raw x = hub.raw(); bounded("stop", 40, [&] { hub.s.Stop(endless()); }); iol::clear_faults(); }
        c.Disconnect(true);
    }
    iol::clear_faults();
}
// there are no descriptors left for a while
static bool echo_poll(Connection& c, int n, const string& info) {
    for (int i = 0; i < n; ++i) {
        push(&c, simple("e", i, 20, 7));
        RP q;
        if (!wait_for([&] { q.reset(c.Pull(0)); return q || !c.IsConnected(); }, 30) || !q) { viol("r04:lost", fmt("no answer to request %d of %d without descriptors, connected: %d; ", i, n, c.IsConnected()) + info); return false; }
        RR w = simple("echo", i, 20, 7);
        if (!(extract(q.get()) == w)) { viol("r04:corrupted", "another answer without descriptors; " + info); return false; }
    }
    return true;
}
SCENARIO(r04_exhausted) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5);
        int left = r.below(16), extra = r.below(6);
        string info = fmt("case %ld %s %d descriptors left, then %d", cs, tcp ? "tcp" : "unix", left, extra);
        Guard gd("r04 case", 120, info);
        size_t base = iol::open_count();
        {
            std::atomic<int> cons{0}, discs{0};
            ServerHub hub(tcp);
            hub.on_connect = [&](Connection* c) { cons++; c->SetHandlerDefault(echo_or_eat); };
            hub.on_disconnect = [&](Connection*) { discs++; };
            Client c;
            if (!hub.connect(c) || !greeted(c)) { viol("r04:connect", "connecting failed; " + info); break; }
            Raw early = hub.raw();
            if (!greeted(early)) { viol("r04:greeting", "no greeting; " + info); break; }
            std::unique_ptr<LibRaw> lr(new LibRaw(tcp));
            if (r.chance(0.3)) { iol::cfg.delay = 3000; }
            iol::cfg.fds_left = left;
            vector<Raw> waiting; vector<std::unique_ptr<Client>> cl;
            std::unique_ptr<Server> s2; string a2; uint16_t p2 = 0; bool up = false;
            auto some = [&] {
                for (int i = 0, n = 1 + r.below(8); i < n && !violated(); ++i) switch (r.below(9)) {
                    case 0: case 1: case 2: waiting.push_back(hub.raw()); if (waiting.back().fd < 0) viol("r04:server", "refused; " + info); break;
                    case 3: {
                        cl.emplace_back(new Client);
                        bool ok = bounded("connect without descriptors", 40, [&] { return client_connect(*cl.back(), tcp, hub.addr, hub.port); });
                        if (!ok && (cl.back()->IsConnecting() || cl.back()->IsConnected())) viol("r04:connect", "a failed attempt leaves the client connected or connecting; " + info);
                        count(ok ? "connected_without_descriptors" : "failed_without_descriptors");
                        break;
                    }
                    case 4: { RP q(bounded("pull without descriptors", 40, [&] { return lr->c->Pull(1); })); if (q) viol("r04:wait-result", "a request nobody sent was pulled; " + info); break; }
                    case 5: {
                        if (s2) { if (up) bounded("stop without descriptors", 40, [&] { s2->Stop(endless()); }); s2.reset(); up = false; break; }
                        s2.reset(new Server);
                        s2->SetConnectedHandler([](Server*, Connection* c) { RR q; q.name = "hello"; push(c, q); });
                        up = start(*s2, tcp, a2, p2);
                        if (up != (s2->GetType() != dn::SocketTypeUndefined)) viol("r04:start", "the result of a start and the type of the server differ; " + info);
                        count(up ? "started_without_descriptors" : "not_started_without_descriptors");
                        break;
                    }
                    case 6: {                      // a reference is held while the connection ends
                        auto* ref = new SafeConnection(lr->c.get());
                        lr->raw.close();
                        if (!wait_for([&] { return (*ref)().IsDisconnecting() || !(*ref)().IsConnected(); })) viol("r04:no-end", "an end is not noticed without descriptors; " + info);
                        msleep(r.below(20));
                        if ((*ref)().WaitForStop(0)) viol("r04:torn-down", "a referenced connection was torn down without descriptors; " + info);
                        delete ref;
                        if (!wait_for([&] { return lr->c->WaitForStop(0); })) viol("r04:no-end", "not torn down after the reference was released without descriptors; " + info);
                        lr->destroy(); lr.reset(); iol::cfg.fds_left = -1; lr.reset(new LibRaw(tcp)); iol::cfg.fds_left = extra;
                        break;
                    }
                    case 7: {                      // a connection made by the user
                        int a, b; pair_fds(tcp, a, b, 0, 0);
                        { std::unique_ptr<Connection> x(new Connection(iol::hand_over(a))); push(x.get(), simple("e", 1)); x->IsConnected(); x->SetOurSaInterval(5); if (!x->IsConnected() && x->GetStoppedEvent() != -1 && !wait_for([&] { return x->WaitForStop(0); })) viol("r04:no-end", "a connection that could not be made is not stopped; " + info); bounded("destroy without descriptors", 40, [&] { x.reset(); }); }
                        ::close(b);
                        count("made_without_descriptors");
                        break;
                    }
                    default: if (early.fd >= 0 && r.chance(0.5)) early.close(); else echo_poll(c, 1 + r.below(3), info);
                }
            };
            some();
            echo_poll(c, 2, info);
            if (!violated() && r.chance(0.6)) { iol::cfg.fds_left = extra; some(); echo_poll(c, 2, info); }
            bool while_out = r.chance(0.15);
            if (!while_out) {
                iol::clear_faults();
                int turned = 0;
                for (auto& p : waiting) if (!violated()) {
                    double t0 = now();
                    if (greeted(p)) continue;
                    if (!p.eof && !p.err) viol("r04:not-served", fmt("a client that came while there were no descriptors is neither served nor disconnected after %.1f s; ", now() - t0) + info);
                    turned++;
                }
                count("turned_away", turned);
                Raw p = hub.raw();
                if (p.fd < 0 || !greeted(p)) viol("r04:server", "the server serves nobody after a lack of descriptors; " + info);
                p.send(enc(simple("e", 5)));
                RR q;
                if (!violated() && (!p.request(q, 20) || q.name != "echo")) viol("r04:server", "no answer after a lack of descriptors; " + info);
                if (!violated()) echo_run(c, 3, r, info);
                if (!violated() && (!c.IsConnected() || c.IsDisconnecting())) viol("r04:ended", "a connection ended though nobody ended it; " + info);
                // a client that could not connect can do so now
                for (auto& x : cl) if (!violated() && !x->IsConnected()) {
                    if (!bounded("connect", 40, [&] { return client_connect(*x, tcp, hub.addr, hub.port); }) || !greeted(*x)) viol("r04:connect", "a client that failed for lack of descriptors cannot connect afterwards; " + info);
                    else echo_run(*x, 2, r, info);
                }
                if (s2 && !violated()) {
                    if (!up && !(up = start(*s2, tcp, a2, p2))) viol("r04:start", "a server that was not started for lack of descriptors cannot be started; " + info);
                    if (up) { Raw z = raw_connect(*s2, tcp, a2, p2); if (!greeted(z)) viol("r04:server", "a server that was started with few descriptors serves nobody; " + info); }
                }
                p.close(); early.close();
                for (auto& x : waiting) x.close();
                bounded("disconnect", 40, [&] { cl.clear(); });
                if (!violated() && !wait_for([&] { return discs == cons - 1; })) viol("r04:announced", fmt("%d connections were announced, the end of %d of them, one is left; ", cons.load(), discs.load()) + info);
            }
            bounded("stop", 40, [&] { hub.s.Stop(endless()); });
            bounded("destroy", 40, [&] { s2.reset(); cl.clear(); lr.reset(); });
            iol::clear_faults();
            c.Disconnect(true, true);
            count("refusals", iol::st.fd_refusals.exchange(0));
        }
        if (!violated() && !wait_for([&] { return iol::open_count() == base; })) viol("r04:leak", fmt("%zu descriptors are open, %zu were before a lack of descriptors; ", iol::open_count(), base) + info);
        eval(mix(mix(g_seed, cs), left)); sample(info);
    }
    iol::clear_faults();
    leak_check("r04");
}
// everything short, interrupted and spurious at once
SCENARIO(r04_short) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        bool tcp = r.chance(0.5);
        string info = fmt("case %ld %s", cs, tcp ? "tcp" : "unix");
        Guard gd("r04 case", 120, info);
        ServerHub hub(tcp);
        hub.on_connect = [](Connection* c) { c->SetHandlerDefault(echo_or_eat); };
        iol::cfg.short_recv = r.below(65536); iol::cfg.short_send = r.below(65536);
        iol::cfg.eagain_send = r.below(30000); iol::cfg.eagain_recv = r.below(30000);
        iol::cfg.eintr_io = r.below(30000); iol::cfg.eintr_poll = r.below(30000);
        if (r.chance(0.3)) { iol::cfg.accept_errno = r.chance(0.5) ? EINTR : EAGAIN; iol::cfg.accept_fail = r.below(5); }
        vector<std::unique_ptr<Client>> cl; cl.reserve(64);
        vector<std::thread> th;
        for (int k = 0; k < 2; ++k) {
            cl.emplace_back(new Client);
            if (!bounded("connect", 40, [&] { return hub.connect(*cl.back()); })) { viol("r04:connect", "connecting failed; " + info); break; }
            if (!greeted(*cl.back())) { viol("r04:greeting", "no greeting; " + info); break; }
            th.emplace_back([&, k, sd = r.next()] { Rng t(sd); echo_run(*cl[k], 1 + t.below(40), t, info, 2500); });
        }
        bounded("exchange", 100, [&] { for (auto& t : th) t.join(); });
        for (auto& c : cl) if (!violated() && (c->IsDisconnecting() || !c->IsConnected())) viol("r04:ended", "a connection ended though nobody ended it; " + info);
        if (r.chance(0.5)) {
            // the end is graceful
            LibRaw lr(tcp);
            int n = r.below(15);
            for (int i = 0; i < n; ++i) push(lr.c.get(), simple("g", i, r.below(900)));
            lr.c->Disconnect(false);
            RR q; int k = 0;
            while (lr.raw.request(q, 20)) { if (argnum(q, "k") != (uint64_t)k) viol("r04:order", "out of order; " + info); k++; }
            if (k != n) viol("r04:lost", fmt("%d of %d arrived before the end; ", k, n) + info);
            if (!lr.raw.wait_eof(20)) viol("r04:no-end", "no end; " + info);
        }
        if (r.chance(0.5)) iol::clear_faults();
        bounded("destroy", 40, [&] { cl.clear(); });
        bounded("stop", 40, [&] { hub.s.Stop(endless()); });
        iol::clear_faults();
        eval(mix(g_seed, cs));
    }
    iol::clear_faults();
}

// ------------------------------------------------------------ R05
// What an object reports does not depend on what was in its memory before.
#include <valgrind/memcheck.h>
template<class T> struct Place {
    void* mem; T* obj;
    template<class... A> Place(int fill, A&&... a) {
        mem = ::operator new(sizeof(T), std::align_val_t(64));
        if (!RUNNING_ON_VALGRIND) memset(mem, fill, sizeof(T));      // (memcheck knows that the memory is undefined)
        obj = new (mem) T(std::forward<A>(a)...);
    }
    ~Place() { obj->~T(); ::operator delete(mem, std::align_val_t(64)); }
    T* operator->() { return obj; }
};
static string about(Connection& c) {
    RP q(c.Pull(0));
    return fmt("id %u tag %s connected %d disconnecting %d type %u stop %d event %d refs %u sa %ld na %ld default %p named %p blocks %u %u max %u data %p pull %p", c.id, c.tag.c_str(), c.IsConnected(), c.IsDisconnecting(), c.GetType(), c.WaitForStop(0), c.GetStoppedEvent() >= 0, c.GetRefs(), (long)c.GetOurSaInterval(), (long)c.GetTheirNaIntervalLimit(), (void*)c.GetHandlerDefault(), (void*)c.GetHandlerNamed("x"), c.GetSendBlockSize(), c.GetRecvBlockSize(), c.GetMaxRequestSize(), (void*)c.GetSessionData<int>(), (void*)q.get());
}
static string about(Server& s, bool address) {
    SafeConnection* a = s.GetConnection(0u); SafeConnection* b = s.GetConnection(string()); SafeConnection* d = s.GetConnection(1u);
    string r = fmt("type %u max %d con %p dis %p found %d %d %d", s.GetType(), s.GetMaxConnections(), (void*)s.GetConnectedHandler(), (void*)s.GetDisconnectedHandler(), !!a, !!b, !!d);
    delete a; delete b; delete d;
    if (address) r += fmt(" ip %u %s port %u path %s", s.GetTcpIp(), s.GetTcpIpString().c_str(), s.GetTcpPort(), s.GetUnixPath().c_str());
    return r;
}
template<class V> static string about_value(int fill, Rng r) {
    string out; Place<V> v(fill);
    auto tell = [&](const char* when) { RV x = extract(v.obj); const char* b = v->Serialize(); out += fmt("%s: %s %s %s\n", when, show(x).c_str(), hex(string(b, v->GetSize())).c_str(), v->ToString(r.below(9)).c_str()); delete[] b; };
    tell("fresh");
    V copy(*v.obj); Place<V> w(fill, copy); out += hex(string(w->ToString(0)));
    // failed and successful decoding
    for (int i = 0; i < 6; ++i) {
        RV x; Gen g; g.max_depth = 2;
        do x = rand_val(r, g); while (i > 2 && x.type != v->GetType() && r.chance(0.9));
        string e = enc(x);
        if (r.chance(0.3)) { string in(r.below(r.chance(0.5) ? 5 : 20), 'x'); e = string(1, (char)v->GetType()) + string{(char)in.size(), 0, 0, 0} + in; }
        else if (r.chance(0.5)) e.resize(r.below(e.size() + 1)); else if (r.chance(0.3) && e.size()) e[r.below(e.size())] = r.below(256);
        vector<char> exact(e.begin(), e.end());
        out += fmt("used %u ", v->Deserialize(exact.data(), exact.size()));
        tell("after decoding");
    }
    return out;
}
static string about_request(int fill, Rng r) {
    Place<Request> q(fill); string out;
    auto tell = [&](Request& q) { const char* b = q.Serialize(); out += show(extract(&q)) + hex(string(b, q.GetSize())) + q.ToString() + "\n"; delete[] b; };
    tell(*q.obj);
    { Place<Request> n(fill, string("name")); tell(*n.obj); Place<Request> c(fill, *n.obj); tell(*c.obj); }
    { Place<dn::Datum> d(fill); out += fmt("%s %u %d %u\n", d->GetName().c_str(), d->GetType(), d->GetValid(), d->GetSize()); Place<dn::Datum> c(fill, *d.obj); char* b = c->Serialize(); out += hex(string(b, c->GetSize())); delete[] b; }
    for (int i = 0; i < 4; ++i) {
        Gen g; string e = enc(rand_req(r, g)); if (r.chance(0.5)) e.resize(r.below(e.size() + 1)); else if (r.chance(0.5)) e[r.below(e.size())] = r.below(256);
        vector<char> exact(e.begin(), e.end());
        out += fmt("used %u ", q->Deserialize(exact.data(), exact.size()));
        tell(*q.obj);
    }
    return out;
}
static string about_ends(int fill, Rng r) {
    string out;
    {
        Place<Client> c(fill); out += about(*c.obj) + fmt(" connecting %d\n", c->IsConnecting());
        RP none(bounded("a pull of a client that never connected", 20, [&] { return c->Pull(1); })); out += fmt("pulled %p\n", (void*)none.get());
        if (r.chance(0.5)) { c->SetOurSaInterval(5 + r.below(5)); c->SetTheirNaIntervalLimit(30 + r.below(30)); c->SetSendBlockSize(100); c->SetRecvBlockSize(100); c->SetMaxRequestSize(5000); c->SetHandlerNamed("y", nullptr); c->SetSessionData<int>(nullptr); out += about(*c.obj) + "\n"; }
        RR q = simple("to nobody", 1); push(c.obj, q, r.chance(0.5)); c->Disconnect(r.chance(0.5)); out += about(*c.obj) + "\n";
        if (r.chance(0.5)) { out += fmt("%d ", c->ConnectUnix("/nonexistent/path", 1)); out += about(*c.obj) + "\n"; }
        Listener l(r.chance(0.5));
        for (int i = 0; i < 2; ++i) {
            if (!connect_client(*c.obj, l)) return "";
            Raw p = l.accept(); out += about(*c.obj) + "\n";
            push(c.obj, q); RR a; if (!p.request(a, 20)) return ""; out += show(a);
            if (r.chance(0.5)) p.send(enc(simple("half", 1, 500)).substr(0, 200));
            p.close(); if (!bounded("stop", 30, [&] { return c->WaitForStop(-1); })) return "";
            out += about(*c.obj) + "\n";
        }
    }
    {
        int fd; Raw raw; pair(r.chance(0.5), fd, raw);
        Place<Connection> c(fill, fd); out += about(*c.obj) + "\n";
        push(c.obj, simple("x", 1)); RR a; if (!raw.request(a, 20)) return ""; out += show(a);
    }
    {
        Place<Server> s(fill); out += about(*s.obj, true) + "\n";
        s->Stop(0); s->WaitForStop(0); out += about(*s.obj, true) + "\n";
        out += fmt("%d %d ", s->StartTcp("not an address", 1), s->StartUnix("", true)); out += about(*s.obj, true) + "\n";
        string path = new_path(); if (!s->StartUnix(path)) return "";
        out += fmt("%u %s ", s->GetTcpIp(), s->GetTcpIpString().c_str()); out += fmt("%u %d\n", s->GetTcpPort(), s->GetUnixPath() == path);
        out += about(*s.obj, false) + "\n"; s->Stop(-1); out += about(*s.obj, false) + "\n";
    }
    return out;
}
SCENARIO(r05_fresh) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("r05", 100);
        uint64_t sd = r.next();
        auto same = [&](const char* what, const std::function<string(int, Rng)>& f) {
            string a = f(0, Rng(sd)), b = RUNNING_ON_VALGRIND ? a : f(0xff, Rng(sd)), c = RUNNING_ON_VALGRIND ? a : f(0x5a, Rng(sd));
            if (a.empty()) { inconclusive(string(what) + " did not work"); return; }
            if (a != b || a != c) { const string& o = a != b ? b : c; size_t k = std::mismatch(a.begin(), a.begin() + std::min(a.size(), o.size()), o.begin()).first - a.begin(); viol("r05:remains", fmt("%s: what is reported depends on what was in the memory before: '%s' or '%s'", what, a.substr(k < 40 ? 0 : k - 40, 120).c_str(), o.substr(k < 40 ? 0 : k - 40, 120).c_str())); }
            eval(std::hash<string>()(a)); count("objects_compared");
        };
        same("Value8S", about_value<dn::Value8S>); same("Value8U", about_value<dn::Value8U>); same("Value16S", about_value<dn::Value16S>); same("Value16U", about_value<dn::Value16U>);
        same("Value32S", about_value<dn::Value32S>); same("Value32U", about_value<dn::Value32U>); same("Value64S", about_value<dn::Value64S>); same("Value64U", about_value<dn::Value64U>);
        same("ValueStr", about_value<dn::ValueStr>); same("ValueArr", about_value<dn::ValueArr>); same("ValueUndefined", about_value<dn::ValueUndefined>);
        same("Request", about_request); same("connections and servers", about_ends);
    }
}
