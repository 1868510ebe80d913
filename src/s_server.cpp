// S01-S04: server lifecycle, announcements and lookups, the limit, references.
#include <climits>
#include "sc.hpp"
#include <arpa/inet.h>
#include <csignal>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/un.h>
using namespace sc;

// ------------------------------------------------------------ S01
static Server* stop_target = nullptr;
static void h_stop(Connection* c, Request* r) {
    RP own(r);
    if (r->GetName() == "stop") { count("stops_from_handlers"); stop_target->Stop(0); }
    else c->Push(own.release(), false, 0, false);
}
static std::atomic<int> s01_connected{0};
static std::atomic<bool> s01_stop_on_connect{false};
static void s01_con(Server* s, Connection* c) {
    s01_connected++;
    c->SetHandlerDefault(h_stop);
    RR q; q.name = "hello"; q.id = c->id; push(c, q);
    if (s01_stop_on_connect) { count("stops_from_connected_handler"); s->Stop(0); }
}
static bool can_bind(bool tcp, const string& addr, uint16_t port) {
    int s = socket(AF_INET, SOCK_STREAM, 0), one = 1;
    setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); inet_aton(addr.c_str(), &a.sin_addr);
    bool ok = !bind(s, (sockaddr*)&a, sizeof a) && !listen(s, 1);
    ::close(s);
    return ok;
}
SCENARIO(s01_cycles) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("s01 case", 100);
        size_t open0 = iol::open_count();
        auto* s = new Server;
        size_t openS = iol::open_count();
        stop_target = s;
        bool handlers = r.chance(0.85);
        s01_stop_on_connect = false;
        if (handlers) s->SetConnectedHandler(s01_con);
        // stopping what is not started
        if (r.chance(0.2)) bounded("Stop of a server that is not started", 20, [&] { s->Stop(endless()); s->Stop(0); s->WaitForStop(endless()); });
        string addr; uint16_t port = 0; bool tcp = r.chance(0.5);
        bool same_addr = r.chance(0.5);
        int cycles = 1 + r.below(4);
        bool destroyed = false;
        for (int k = 0; k < cycles && !violated() && !destroyed; ++k) {
            string foreign;                        // the file of an earlier cycle, now someone else's
            if (k == 0 || !same_addr) {
                string old = k && !tcp ? addr : "";
                tcp = r.chance(0.5); addr = tcp ? my_ip() : new_path(); port = tcp ? free_port() : 0;
                if (!tcp && r.chance(0.4)) {       // of any length and with any characters
                    size_t len = r.chance(0.4) ? 107 - r.below(3) : addr.size() + r.below(107 - addr.size() + 1);
                    static const char odd[] = "abcxyz0189.-_ #~\\\xc3\xa9\x01\xff\n%$*?";
                    while (addr.size() < len) addr += odd[r.below(sizeof odd - 1)];
                }
                if (!tcp && old.size() && old.size() < 107 && r.chance(0.3)) addr = old + 'x';
                if (old.size() && r.chance(0.7)) { foreign = old; ::close(open(old.c_str(), O_CREAT | O_WRONLY, 0600)); }
                if (tcp && r.chance(0.1)) { addr = "0.0.0.0"; if (!(port = any_ip_port())) { addr = my_ip(); port = free_port(); } else count("every_address"); }
                else if (tcp && r.chance(0.3)) addr = fmt("127.%u.%u.%u", 201 + (unsigned)getpid() % 50, (unsigned)r.below(256), (unsigned)r.below(255));
            }
            string info = fmt("case %ld cycle %d on %s", cs, k, tcp ? "tcp" : "unix");
            if (s->GetType() != dn::SocketTypeUndefined) viol("s01:type", "a stopped server has a type; " + info);
            // attempts that must fail
            for (int f = 0, n = r.below(3); f < n; ++f) {
                bool ok = false; string what;
                string tmp;
                switch (r.below(8)) {
                    case 7: { what = "no path"; static const string v[] = {"", string(1, '\0'), string("\0abc", 4), string(107, '\0')}; ok = s->StartUnix(v[r.below(4)], r.chance(0.5)); break; }
                    case 0: { Listener l(true); what = "a TCP address in use"; ok = s->StartTcp(l.ip, l.port); break; }
                    case 1: what = "an invalid IP"; ok = s->StartTcp(r.chance(0.5) ? "300.1.2.3" : "", free_port()); break;
                    case 2: what = "a foreign IP"; ok = s->StartTcp("192.0.2.1", free_port()); break;
                    case 3: what = "an over-long path"; ok = s->StartUnix(g_dir + "/" + string((r.chance(0.4) ? 108 : 109 + r.below(400)) - g_dir.size() - 1, 'x')); break;
                    case 4: what = "a path in no directory"; ok = s->StartUnix(g_dir + "/nodir/x"); break;
                    case 5: { what = "an existing file that must be kept"; tmp = g_dir + "/keep"; ::close(open(tmp.c_str(), O_CREAT | O_WRONLY, 0600)); ok = s->StartUnix(tmp, false);
                        if (access(tmp.c_str(), F_OK)) viol("s01:file-removed", "a file was removed though it had to be kept"); unlink(tmp.c_str()); break; }
                    default: { what = "a directory"; tmp = g_dir + "/d"; mkdir(tmp.c_str(), 0700); ok = s->StartUnix(tmp); rmdir(tmp.c_str()); }
                }
                if (ok) { viol("s01:start", "started on " + what + "; " + info); break; }
                if (s->GetType() != dn::SocketTypeUndefined) viol("s01:type", "a server has a type after a failed start on " + what);
                if (iol::open_count() != openS) { viol("s01:leak", "a failed start on " + what + " keeps descriptors"); break; }
                count("failed_starts");
            }
            // a stale socket file is replaced
            if (!tcp && r.chance(0.3)) { int fd = socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un a{}; a.sun_family = AF_UNIX; strcpy(a.sun_path, addr.c_str()); unlink(addr.c_str()); (void)!bind(fd, (sockaddr*)&a, sizeof a); ::close(fd); }
            if (r.chance(0.5)) disturb(r, true, true, true);
            bool ok;
            if (r.chance(0.15)) {
                // two threads: exactly one starts it
                std::atomic<int> n{0};
                auto st = [&] { if (tcp ? s->StartTcp(addr, port) : s->StartUnix(addr)) n++; };
                std::thread a(st), b(st);
                a.join(); b.join();
                ok = n == 1;
                if (n == 2) viol("s01:twice", "two concurrent starts both succeeded; " + info);
                count("concurrent_starts");
            } else if (tcp && addr != "0.0.0.0" && r.chance(0.15)) {
                // a port of the system's choice
                port = 0;
                ok = s->StartTcp(addr, 0);
                if (ok && !(port = s->GetTcpPort())) viol("s01:address", "a server listening on a port of the system's choice reports port 0; " + info);
                count("any_port");
            } else if (!tcp && access(addr.c_str(), F_OK) && r.chance(0.3)) ok = s->StartUnix(addr, false);
            else if (tcp && r.chance(0.2)) { string sp = spell(r, addr); ok = s->StartTcp(sp, port); info += " (written " + sp + ")"; count("address_spellings"); }
            else ok = tcp ? s->StartTcp(addr, port) : s->StartUnix(addr);
            if (!ok) { viol("s01:start", "could not start on a free address " + addr + fmt(":%u; ", port) + info); break; }
            if (s->GetType() != (tcp ? dn::SocketTypeTcp : dn::SocketTypeUnix)) viol("s01:type", "wrong type; " + info);
            if (tcp) {
                in_addr ia; inet_aton(addr.c_str(), &ia);
                if (s->GetTcpPort() != port || s->GetTcpIpString() != addr || s->GetTcpIp() != ntohl(ia.s_addr)) viol("s01:address", "reported " + s->GetTcpIpString() + fmt(":%u; ", s->GetTcpPort()) + info);
            } else if (s->GetUnixPath() != addr) viol("s01:address", "reported " + s->GetUnixPath() + "; " + info);
            // running: starting again is refused and harmless
            if (r.chance(0.3)) {
                if (s->StartTcp(my_ip(), free_port()) || s->StartUnix(new_path()) || (tcp ? s->StartTcp(addr, port) : s->StartUnix(addr))) viol("s01:twice", "a running server was started again; " + info);
                if (s->GetType() != (tcp ? dn::SocketTypeTcp : dn::SocketTypeUnix)) viol("s01:type", "a refused start changed the type; " + info);
                if (tcp ? s->GetTcpPort() != port : s->GetUnixPath() != addr) viol("s01:address", "a refused start changed the address; " + info);
                if (!tcp && access(addr.c_str(), F_OK)) viol("s01:file-removed", "a refused start removed the socket file; " + info);
            }
            // clients
            vector<Raw> raws; vector<std::unique_ptr<Client>> clients;
            s01_connected = 0;
            int nr = r.below(4), nc = r.below(3);
            if (r.chance(0.15)) { s->SetMaxConnections(0); nr = nc = 0; count("stopped_while_nobody_may_enter"); } else s->SetMaxConnections(r.chance(0.5) ? -1 : 100);
            for (int i = 0; i < nr; ++i) {
                Raw p = raw_connect(*s, tcp, addr, port);
                if (p.fd < 0) { viol("s01:not-listening", "a running server refuses connections; " + info); break; }
                if (handlers && r.chance(0.8) && !greeted(p)) { viol("s01:not-served", "a client of a running server is not served; " + info); break; }
                raws.push_back(std::move(p));
            }
            for (int i = 0; i < nc && !violated(); ++i) {
                clients.emplace_back(new Client);
                if (!bounded("connect", 30, [&] { return client_connect(*clients.back(), tcp, addr, port); })) viol("s01:not-listening", "a running server refuses a client; " + info);
                else if (handlers && !greeted(*clients.back())) viol("s01:not-served", "a client of a running server is not served; " + info);
                if (handlers && r.chance(0.6)) for (int j = 0, n = r.below(30); j < n; ++j) push(clients.back().get(), simple("e", j, r.below(5000)));
            }
            if (handlers && nr && r.chance(0.5)) { string big(200000, 'x'); raws[0].send(enc(simple("e", 1, 12000)), 1); }
            // connecting meanwhile
            std::atomic<bool> stop{false};
            vector<Raw> more; std::thread churn;
            bool with_churn = r.chance(0.3);
            if (with_churn) churn = std::thread([&] { while (!stop) { Raw p = raw_connect(*s, tcp, addr, port); if (p.fd < 0) break; more.push_back(std::move(p)); msleep(0.3); if (more.size() > 60) break; } });
            if (r.chance(0.5)) msleep(r.below(30) / 10.0);
            // stop
            int how = r.below(7);
            if (k + 1 < cycles && how == 6) how = 0;
            if (how == 4 && (!handlers || !nc)) how = 1;
            if (how == 5 && (!handlers || !s->GetMaxConnections())) how = 2;
            static const char* hows[] = {"Stop(-1)", "Stop(0) and WaitForStop(-1)", "Stop(60)", "several threads", "a request handler", "the connected handler", "destruction"};
            info += string(", stopped by ") + hows[how];
            bool waited = true;
            bounded("stopping", 40, [&] {
                switch (how) {
                    case 0: s->Stop(endless()); break;
                    case 1: s->Stop(0); s->WaitForStop(endless()); break;
                    case 2: s->Stop(60); break;
                    case 3: {
                        vector<std::thread> v;
                        for (int i = 0; i < 4; ++i) v.emplace_back([&, i] { s->Stop(i % 2 ? endless() : 0); s->WaitForStop(endless()); if (s->GetType() != dn::SocketTypeUndefined) viol("s01:early", "WaitForStop() returned while the server was running; " + info); });
                        for (auto& t : v) t.join();
                        break;
                    }
                    case 4: push(clients[0].get(), simple("stop", 0)); if (!wait_for([&] { return s->GetType() == dn::SocketTypeUndefined; }, 20)) viol("s01:stop-ignored", "a stop from a request handler was not honoured; " + info); s->WaitForStop(endless()); break;
                    case 5: { s01_stop_on_connect = true; Raw p = raw_connect(*s, tcp, addr, port); if (!wait_for([&] { return s->GetType() == dn::SocketTypeUndefined; }, 20)) viol("s01:stop-ignored", "a stop from the connected handler was not honoured; " + info); s->WaitForStop(endless()); s01_stop_on_connect = false; break; }
                    default: delete s; destroyed = true;
                }
            });
            (void)waited;
            // everything is down at once
            if (!destroyed) {
                if (s->GetType() != dn::SocketTypeUndefined) viol("s01:early", "the server has a type after it was stopped; " + info);
                bool lc = !clients.empty();
                if (!lc && iol::open_count() != openS) viol("s01:early", fmt("%zu descriptors of the library are open after stopping; ", iol::open_count() - openS) + info);
            } else if (clients.empty() && iol::open_count() != open0) viol("s01:early", "descriptors of the library are open after the destruction; " + info);
            if (!tcp && !access(addr.c_str(), F_OK)) viol("s01:file-left", "the socket file exists after stopping; " + info);
            if (foreign.size()) {
                if (access(foreign.c_str(), F_OK)) viol("s01:file-removed", "a file where the server listened earlier was removed; " + info);
                unlink(foreign.c_str()); count("foreign_files_kept");
            }
            {
                Raw p = tcp ? raw_connect_tcp(addr, port) : raw_connect_unix(addr);
                if (p.fd >= 0) viol("s01:still-listening", "a stopped server can be connected to; " + info);
            }
            if (tcp && !can_bind(tcp, addr, port)) viol("s01:address-held", "the address is not released after stopping; " + info);
            stop = true;
            if (with_churn) churn.join();
            for (auto& p : raws) if (!p.wait_eof(20)) viol("s01:connection-left", "a connection is open after its server was stopped; " + info);
            // (a TCP handshake that meets the closing listener may be dropped by the kernel without a
            // reset: the client side stays half-open until it sends something)
            for (auto& p : more) if (!p.wait_eof(1) && (p.send1(enc(simple("_", 0))), !p.wait_eof(20))) viol("s01:connection-left", "a connection is open after its server was stopped; " + info);
            for (auto& c : clients) if (!wait_for([&] { return c->WaitForStop(0); })) { viol("s01:connection-left", "a client is connected after its server was stopped; " + info); finish(1); }
            clients.clear();
            iol::clear_faults();
            if (!destroyed && r.chance(0.3)) bounded("Stop again", 20, [&] { s->Stop(endless()); s->WaitForStop(endless()); });
            eval(mix(mix(g_seed, cs), k * 10 + how));
            count("stops"); count(string("by ") + hows[how]);
            sample(info);
        }
        if (!destroyed && !violated()) bounded("destroy", 30, [&] { delete s; });
        if (!violated() && iol::open_count() != open0) viol("s01:leak", fmt("%zu descriptors left", iol::open_count() - open0));
    }
    iol::clear_faults();
    leak_check("s01");
}

// several servers and one address: at most one gets it, the others are refused without disturbing it
SCENARIO(s01_contend) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("s01 contend", 100);
        size_t base = iol::open_count();
        {
            bool tcp = r.chance(0.6);
            string addr = tcp ? my_ip() : new_path(); uint16_t port = tcp ? free_port() : 0;
            int n = 2 + r.below(4);
            string info = fmt("case %ld, %d servers on %s", cs, n, tcp ? "tcp" : "unix");
            vector<std::unique_ptr<Server>> sv;
            for (int i = 0; i < n; ++i) { sv.emplace_back(new Server); sv.back()->SetConnectedHandler(s01_con); }
            size_t each = iol::open_count();
            if (r.chance(0.8)) disturb(r);
            auto one = [&](Server& s) { return tcp ? s.StartTcp(addr, port) : s.StartUnix(addr, false); };
            for (int round = 0, rounds = 1 + r.below(3); round < rounds && !violated(); ++round) {
                std::atomic<int> ready{0};
                vector<char> got(n, 0);
                vector<std::thread> th;
                for (int i = 0; i < n; ++i) th.emplace_back([&, i] { ready++; while (ready < n) sched_yield(); got[i] = one(*sv[i]); });
                for (auto& t : th) t.join();
                int won = 0, who = -1;
                for (int i = 0; i < n; ++i) {
                    if (got[i]) { won++; who = i; }
                    if (!!got[i] != (sv[i]->GetType() != dn::SocketTypeUndefined)) viol("s01:type", "the result of a start and the type of the server differ; " + info);
                }
                if (won > 1) { viol("s01:contended", fmt("%d servers were started on one address; ", won) + info); break; }
                count(won ? "contended_starts_won" : "contended_starts_lost_by_all");
                if (!won) {          // (TCP sockets that begin to listen at the same instant may refuse each other)
                    if (!tcp) viol("s01:start", "no server got a free path; " + info);
                    if (iol::open_count() != each) viol("s01:leak", "failed starts keep descriptors; " + info);
                    who = r.below(n);
                    if (!one(*sv[who])) { viol("s01:start", "could not start on a free address after contended starts; " + info); break; }
                }
                // whatever the others do, the one that runs is undisturbed
                for (int i = 0; i < n; ++i) if (i != who) switch (r.below(5)) {
                    case 0: bounded("Stop of a refused server", 20, [&] { sv[i]->Stop(endless()); }); break;
                    case 1: sv[i].reset(new Server); sv[i]->SetConnectedHandler(s01_con); break;
                    case 2: if (one(*sv[i])) viol("s01:contended", "a second server was started on the address of a running one; " + info); break;
                    case 3: { bool t2 = r.chance(0.5); string a2 = t2 ? my_ip() : new_path(); uint16_t p2 = t2 ? free_port() : 0;
                        if (!(t2 ? sv[i]->StartTcp(a2, p2) : sv[i]->StartUnix(a2))) { viol("s01:start", "a refused server could not be started elsewhere; " + info); break; }
                        Raw p = raw_connect(*sv[i], t2, a2, p2);
                        if (p.fd < 0 || !greeted(p)) viol("s01:not-served", "a client of a server that was refused before is not served; " + info);
                        bounded("Stop", 40, [&] { sv[i]->Stop(endless()); });
                        if (!t2 && !access(a2.c_str(), F_OK)) viol("s01:file-left", "the socket file exists after stopping; " + info);
                        break; }
                    default: break;
                }
                if (violated()) break;
                if (!tcp && access(addr.c_str(), F_OK)) viol("s01:file-removed", "the socket file of the running server was removed by another one; " + info);
                for (int k = 0; k < 2 && !violated(); ++k) {
                    Raw p = raw_connect(*sv[who], tcp, addr, port);
                    if (p.fd < 0 || !greeted(p)) viol("s01:not-served", "a client of the server that got the address is not served; " + info);
                }
                bounded("Stop", 40, [&] { sv[who]->Stop(endless()); });
                if (!violated() && iol::open_count() != each) viol("s01:leak", "descriptors are kept after all servers were stopped; " + info);
                if (!tcp && !access(addr.c_str(), F_OK)) viol("s01:file-left", "the socket file exists after stopping; " + info);
                eval(mix(mix(g_seed, cs), round * 100 + n));
            }
            iol::clear_faults();
            bounded("destroy", 40, [&] { sv.clear(); });
        }
        if (!violated() && iol::open_count() != base) viol("s01:leak", fmt("%zu descriptors left", iol::open_count() - base));
    }
    iol::clear_faults();
    leak_check("s01");
}

// questions from other threads while a server is started, stopped and started elsewhere
SCENARIO(s01_query) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("s01 query", 100);
        Server s;
        s.SetConnectedHandler(s01_con);
        struct Where { bool tcp = false; string addr; uint16_t port = 0; } where;
        std::mutex m;
        std::atomic<uint32_t> gen{0};       // incremented before every start
        std::atomic<bool> stop{false};
        std::atomic<size_t> seen[3] = {{0}, {0}, {0}};
        if (r.chance(0.6)) disturb(r);
        vector<std::thread> th;
        for (int i = 0, k = 1 + r.below(3); i < k; ++i) th.emplace_back([&, sd = r.next()] {
            Rng t(sd);
            while (!stop && !violated()) {
                uint32_t g = gen;
                Where w; { std::lock_guard<std::mutex> l(m); w = where; }
                if (gen != g) continue;
                auto type = s.GetType();
                string path = s.GetUnixPath(), ip = s.GetTcpIpString(); uint32_t num = s.GetTcpIp(); uint16_t port = s.GetTcpPort();
                auto type2 = s.GetType();
                if (t.chance(0.2)) { s.GetMaxConnections(); s.GetConnectedHandler(); s.GetDisconnectedHandler(); }
                if (t.chance(0.2)) delete s.GetConnection((uint32_t)t.below(5));
                if (t.chance(0.1)) { RR q; if (SafeConnection* x = s.GetConnection(1)) { push(&(*x)(), simple("e", 1)); delete x; } }
                if (gen != g) continue;
                // all of this was asked after start number g was called, and before the next one
                string info = fmt("asked while %s was being started or stopped, or ran: path '%s', IP %s (%08x), port %u", (w.tcp ? w.addr + fmt(":%u", w.port) : w.addr).c_str(), path.c_str(), ip.c_str(), num, port);
                if (type == dn::SocketTypeUndefined) { seen[0]++; }
                else if (type != (w.tcp ? dn::SocketTypeTcp : dn::SocketTypeUnix)) viol("s01:query-type", "wrong type; " + info);
                else {
                    seen[w.tcp ? 1 : 2]++;
                    in_addr ia; if (w.tcp) inet_aton(w.addr.c_str(), &ia);
                    if (w.tcp ? ip != w.addr || num != ntohl(ia.s_addr) || (w.port ? port != w.port : !port) : path != w.addr)
                        viol("s01:query-address", "the server has a type, but not yet (or no longer) its address; " + info);
                }
                (void)type2;
                if (t.chance(0.05)) msleep(0.1);
            }
        });
        for (int k = 0, n = 2 + r.below(8); k < n && !violated(); ++k) {
            Where w; w.tcp = r.chance(0.5); w.addr = w.tcp ? my_ip() : new_path(); w.port = w.tcp && r.chance(0.8) ? free_port() : 0;
            if (w.tcp && r.chance(0.5)) w.addr = fmt("127.%u.%u.%u", 201 + (unsigned)getpid() % 50, (unsigned)r.below(256), 1 + (unsigned)r.below(254));
            { std::lock_guard<std::mutex> l(m); where = w; gen++; }
            if (!(w.tcp ? s.StartTcp(w.addr, w.port) : s.StartUnix(w.addr))) { viol("s01:start", "could not start on a free address " + w.addr); break; }
            if (r.chance(0.6)) { Raw p = raw_connect(s, w.tcp, w.addr, s.GetTcpPort()); if (p.fd < 0) viol("s01:not-listening", "a running server refuses connections"); else if (r.chance(0.7) && !greeted(p)) viol("s01:not-served", "a client of a running server is not served"); }
            if (r.chance(0.3)) msleep(r.below(20) * 0.1);
            bounded("stopping", 40, [&] { s.Stop(r.chance(0.5) ? endless() : 60); });
            if (s.GetType() != dn::SocketTypeUndefined) viol("s01:early", "the server has a type after it was stopped");
            if (!w.tcp && !access(w.addr.c_str(), F_OK)) viol("s01:file-left", "the socket file exists after stopping");
            count("starts");
        }
        stop = true;
        bounded("queries", 30, [&] { for (auto& t : th) t.join(); });
        iol::clear_faults();
        count("queries_while_stopped", seen[0]); count("queries_with_a_type", seen[1] + seen[2]);
        eval(mix(mix(g_seed, cs), gen), seen[0] && seen[1] + seen[2]);
    }
    iol::clear_faults();
}

// ------------------------------------------------------------ S02
struct S02 {
    std::mutex m;
    struct C { Connection* p; uint32_t id; string tag; bool gone = false, released = false; };
    std::map<uint32_t, C> by;            // by ID
    std::atomic<size_t> connected{0}, disconnected{0};
    Rng rng{1};
    bool lookup = false;
    Server* s = nullptr;
};
static S02* s02;
static std::thread::id s02_thread;
static void s02_con(Server* s, Connection* c) {
    std::lock_guard<std::mutex> l(s02->m);
    if (s != s02->s) viol("s02:server", "the handler was given another server");
    if (c->id == 0 && s02->by.count(0)) viol("s02:no-id", "a connection has no ID in the connected handler");
    if (s02->by.count(c->id)) { viol("s02:same-id", fmt("the ID %u was given twice", c->id)); return; }
    for (auto& e : s02->by) if (e.second.p == c && !e.second.gone) viol("s02:connected-twice", "the connected handler ran twice for one connection");
    if (!c->tag.empty()) viol("s02:tag", "a new connection has a tag");
    // distinct tags that are prefixes of each other, or differ in case or after a null only
    switch (s02->rng.below(4)) {
        case 0: c->tag = fmt("tag-%u-%llu", c->id, (unsigned long long)(s02->rng.next() % 1000)); break;
        case 1: c->tag = string(c->id, 'x'); break;
        case 2: c->tag = string("t\0", 2) + fmt("%u", c->id); break;
        default: c->tag = fmt("%u", c->id);
    }
    s02->by[c->id] = {c, c->id, c->tag};
    RR q; q.name = "hello"; q.id = c->id; push(c, q);
    s02->connected++;
}
static void s02_dis(Server* s, Connection* c) {
    std::lock_guard<std::mutex> l(s02->m);
    auto it = s02->by.find(c->id);
    if (it == s02->by.end() || it->second.p != c) { viol("s02:unknown", fmt("the disconnected handler ran for a connection (ID %u) the connected handler did not see", c->id)); return; }
    if (it->second.gone) viol("s02:disconnected-twice", "the disconnected handler ran twice for one connection");
    if (c->tag != it->second.tag) viol("s02:tag-changed", "the tag of a connection changed");
    if (c->IsConnected() || !c->WaitForStop(0)) viol("s02:still-connected", "the disconnected handler ran for a connection that is up");
    RP q(c->Pull(0));
    push(c, simple("x", 0));
    it->second.gone = true;
    s02->disconnected++;
}
SCENARIO(s02_events) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("s02 case", 100);
        bool tcp = r.chance(0.5);
        S02 st; s02 = &st; st.rng = Rng(r.next());
        Server s; st.s = &s;
        s.SetConnectedHandler(s02_con); s.SetDisconnectedHandler(s02_dis);
        if (s.GetConnectedHandler() != s02_con || s.GetDisconnectedHandler() != s02_dis) viol("s02:getter", "wrong handler");
        string addr; uint16_t port;
        if (!start(s, tcp, addr, port)) { inconclusive("no address"); return; }
        if (r.chance(0.6)) disturb(r);
        int nt = 1 + r.below(4), per = 1 + r.below(8);
        std::atomic<bool> stop{false};
        std::atomic<size_t> lookups{0}, found{0};
        // lookups all the time
        vector<std::thread> look;
        for (int k = 0; k < 2; ++k) look.emplace_back([&, sd = r.next()] {
            Rng t(sd);
            while (!stop && !violated()) {
                uint32_t id; string tag; bool gone_before = false, known = false; Connection* p = nullptr;
                {
                    std::lock_guard<std::mutex> l(st.m);
                    if (st.by.empty() || t.chance(0.1)) { 
                        id = 0xFFFFFF00u + t.below(200); tag = "no such tag";
                        if (t.chance(0.4)) id = 0;
                        else if (!st.by.empty() && t.chance(0.5)) { auto it = st.by.begin(); std::advance(it, t.below(st.by.size())); id = it->first ^ (1u << (15 + t.below(17))); }
                        if (!st.by.empty() && t.chance(0.5)) {
                            auto it = st.by.begin(); std::advance(it, t.below(st.by.size()));
                            tag = it->second.tag;
                            switch (t.below(4)) { case 0: tag += "#"; break; case 1: tag = "#" + tag; break; case 2: tag.pop_back(); break; default: tag[0] = (char)toupper(tag[0]); tag += tag; }
                            for (auto& e : st.by) if (e.second.tag == tag || tag.empty()) tag = "no such tag";
                            // one that was accepted a moment ago may get it meanwhile
                            if (tag.find_first_not_of("x") == string::npos || tag.find_first_not_of("0123456789") == string::npos || !tag[1]) tag = "no such tag#";
                        }
                    }
                    else { auto it = st.by.begin(); std::advance(it, t.below(st.by.size())); id = it->first; tag = it->second.tag; p = it->second.p; known = true; gone_before = it->second.gone; }
                }
                bool by_id = t.chance(0.5);
                SafeConnection* x = by_id ? s.GetConnection(id) : s.GetConnection(tag);
                lookups++;
                if (x) {
                    found++;
                    Connection& c = (*x)();
                    if (!known) { if (!by_id || c.id != id) viol("s02:found-nothing", by_id ? fmt("looking up the ID %u, which no connection has, found the connection %u", id, c.id) : "looking up a tag no connection has found a connection"); }
                    else {
                        if (&c != p) viol("s02:wrong-connection", fmt("looking up %u found another connection", id));
                        if (c.id != id) viol("s02:id-changed", fmt("the connection found by %u/%s has the ID %u", id, tag.c_str(), c.id));
                        if (c.tag != tag) viol("s02:tag-changed", "found by a tag it does not have");
                    }
                    if (t.chance(0.3)) push(&c, simple("poke", id));
                    if (t.chance(0.1)) { RR q = simple("poke", id, 200000 + t.below(2000000)); push(&c, q); c.Disconnect(false); msleep(t.below(6)); } // disconnecting for a while
                    if (t.chance(0.2)) c.Disconnect(t.chance(0.7));
                    if (t.chance(0.3)) msleep(t.below(3));
                    delete x;
                }
                msleep(t.below(2));
                (void)gone_before;
            }
        });
        vector<std::thread> th;
        std::atomic<size_t> tried{0};
        for (int k = 0; k < nt; ++k) th.emplace_back([&, sd = r.next()] {
            Rng t(sd);
            for (int i = 0; i < per && !violated(); ++i) {
                if (t.chance(0.6)) {
                    Raw p = raw_connect(s, tcp, addr, port);
                    if (p.fd < 0) { viol("s02:refused", "a running server refused a connection"); return; }
                    tried++;
                    if (t.chance(0.85)) {
                        RR q;
                        if (!p.request(q, 20)) { if (!p.eof && !p.err) { viol("s02:not-announced", "the connected handler did not run for a client"); return; } }
                        else if (q.name != "hello" && q.name != "poke") viol("s02:odd", show(q));
                    }
                    if (t.chance(0.3)) p.send(enc(simple("junk", 1)), 2);
                    if (t.chance(0.3)) msleep(t.below(8));
                    if (t.chance(0.4)) p.reset(); else p.close();
                } else {
                    Client c;
                    if (!client_connect(c, tcp, addr, port)) { tried++; wait_for([&] { return !c.IsConnected(); }); continue; }
                    tried++;
                    if (t.chance(0.8)) { RP q(c.Pull(20)); if (!q && !c.IsDisconnecting() && c.IsConnected()) { viol("s02:not-announced", "the connected handler did not run for a client"); return; } }
                    if (t.chance(0.5)) c.Disconnect(t.chance(0.5));
                }
            }
        });
        bounded("clients", 80, [&] { for (auto& t : th) t.join(); });
        if (!violated()) {
            if (!wait_for([&] { return st.connected >= tried.load(); })) viol("s02:not-announced", fmt("%zu clients connected, the connected handler ran %zu times", tried.load(), st.connected.load()));
            stop = true;
            for (auto& t : look) t.join();
            if (!wait_for([&] { return st.disconnected >= st.connected.load(); })) viol("s02:no-disconnected", fmt("the connected handler ran %zu times, the disconnected handler %zu times, all clients are gone", st.connected.load(), st.disconnected.load()));
            // nothing is found anymore
            vector<std::pair<uint32_t, string>> all; { std::lock_guard<std::mutex> l(st.m); for (auto& e : st.by) all.push_back({e.first, e.second.tag}); }
            bool none = wait_for([&] {
                for (auto& e : all) { SafeConnection* a = s.GetConnection(e.first); SafeConnection* b = s.GetConnection(e.second); bool any = a || b; delete a; delete b; if (any) return false; }
                return true;
            });
            if (!none) viol("s02:found-dead", "a connection that ended long ago is still found");
            msleep(2);
            if (st.connected != tried) viol("s02:announced-more", fmt("%zu clients connected, the connected handler ran %zu times", tried.load(), st.connected.load()));
            if (st.disconnected != st.connected) viol("s02:disconnected-more", "the disconnected handler ran more often than the connected handler");
        }
        stop = true;
        for (auto& t : look) if (t.joinable()) t.join();
        iol::clear_faults();
        // one that stays is found by ID and tag
        if (!violated()) {
            Raw p = raw_connect(s, tcp, addr, port);
            RR q;
            if (!p.request(q, 20)) viol("s02:not-announced", "a client was not greeted");
            else {
                uint32_t id = q.id; string tag; { std::lock_guard<std::mutex> l(st.m); tag = st.by[id].tag; }
                SafeConnection *a = nullptr, *b = nullptr;
                if (!wait_for([&] { if (!a) a = s.GetConnection(id); if (!b) b = s.GetConnection(tag); return a && b; })) viol("s02:not-found", fmt("a live connection is not found by its %s", a ? "tag" : "ID"));
                else if (&(*a)() != &(*b)() || (*a)().id != id) viol("s02:wrong-connection", "lookups by ID and tag find different connections");
                delete a; delete b;
            }
            p.close();
        }
        bounded("stop", 30, [&] { s.Stop(endless()); });
        eval(mix(mix(g_seed, cs), st.connected), st.connected > 1);
        count("connections", st.connected); count("lookups", lookups); count("found", found);
    }
    iol::clear_faults();
}
// servers with handlers missing, changed while running; restarted servers
static std::atomic<int> s02_a{0}, s02_b{0};
SCENARIO(s02_unset) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("s02 case", 60);
        bool tcp = r.chance(0.5);
        Server s;
        dn::ConnectionHandler ca = [](Server*, Connection* c) { s02_a++; }, da = [](Server*, Connection* c) { s02_b++; };
        bool hc = r.chance(0.4), hd = r.chance(0.4);
        s.SetConnectedHandler(hc ? ca : nullptr); s.SetDisconnectedHandler(hd ? da : nullptr);
        string addr; uint16_t port;
        for (int k = 0; k < 3 && !violated(); ++k) {
            if (!start(s, tcp, addr, port)) { inconclusive("no address"); return; }
            for (int i = 0; i < 3; ++i) {
                s02_a = s02_b = 0;
                Raw p = raw_connect(s, tcp, addr, port);
                SafeConnection* x = nullptr;
                uint32_t id = 1 + i;
                // IDs are not promised to be consecutive: find it among the first ones
                if (!wait_for([&] { for (uint32_t j = 0; j < 40 && !x; ++j) { x = s.GetConnection(j); if (x) id = j; } return x; })) { viol("s02:not-found", "a connection to a server without handlers is not found"); break; }
                push(&(*x)(), simple("hi", i));
                RR q;
                if (!p.request(q, 20)) viol("s02:dead", "a connection to a server without handlers does not work");
                delete x;
                p.close();
                if (!wait_for([&] { SafeConnection* y = s.GetConnection(id); delete y; return !y; })) { viol("s02:found-dead", "a connection that ended is still found"); break; }
                if (hc && s02_a != 1) viol("s02:not-announced", fmt("the connected handler ran %d times", s02_a.load()));
                if (hd && !wait_for([&] { return s02_b >= 1; })) viol("s02:no-disconnected", "the disconnected handler did not run");
                if (hd && s02_b != 1) viol("s02:disconnected-twice", fmt("the disconnected handler ran %d times", s02_b.load()));
                if ((!hc && s02_a) || (!hd && s02_b)) viol("s02:unset-called", "a handler that was unset ran");
                eval(mix(mix(g_seed, cs), k * 10 + i));
                // change them while running
                hc = r.chance(0.5); hd = r.chance(0.5);
                s.SetConnectedHandler(hc ? ca : nullptr); s.SetDisconnectedHandler(hd ? da : nullptr);
            }
            bounded("stop", 30, [&] { s.Stop(endless()); });
        }
    }
}

// very many clients, one after the other
static std::mutex s02m; static vector<uint32_t>* s02_ids;
SCENARIO(s02_many) {
    Rng r(g_seed);
    Guard gd("s02 case", 600);
    static std::atomic<size_t> c, d; c = d = 0;
    vector<uint32_t> ids; s02_ids = &ids;
    Server s;
    s.SetConnectedHandler([](Server*, Connection* k) { std::lock_guard<std::mutex> l(s02m); s02_ids->push_back(k->id); c++; });
    s.SetDisconnectedHandler([](Server*, Connection* k) { d++; });
    string addr; uint16_t port;
    if (!start(s, false, addr, port)) { inconclusive("no address"); return; }
    vector<std::pair<uint32_t, Raw>> stay;
    for (long i = 0; i < g_n && !violated(); ++i) {
        Raw p = raw_connect(s, false, addr, port);
        if (p.fd < 0) { viol("s02:refused", "a running server refused a connection"); break; }
        // clients overlap, a few stay for long
        if (i % 16 == 15 && !wait_for([&] { return c + 1 > (size_t)i; })) { viol("s02:not-announced", fmt("%ld clients connected, %zu announced", i + 1, c.load())); break; }
        if (i % (1 + g_n / 40) == 0) {
            if (!wait_for([&] { return c == (size_t)i + 1; })) { viol("s02:not-announced", fmt("%ld clients connected, %zu announced", i + 1, c.load())); break; }
            uint32_t id; { std::lock_guard<std::mutex> l(s02m); id = ids.back(); }
            stay.emplace_back(id, std::move(p));
            for (auto& e : stay) {
                SafeConnection* x = nullptr;
                if (!wait_for([&] { if (!x) x = s.GetConnection(e.first); return x; })) viol("s02:not-found", fmt("the live connection %u is not found", e.first));
                else if ((*x)().id != e.first) viol("s02:id-changed", fmt("the connection found by %u has the ID %u", e.first, (*x)().id));
                delete x;
            }
        }
    }
    if (!violated()) {
        if (!wait_for([&] { return d + stay.size() == (size_t)g_n; })) viol("s02:no-disconnected", fmt("%zu of %ld connections that ended were reported", d.load(), g_n - (long)stay.size()));
        for (auto& e : stay) { SafeConnection* x = s.GetConnection(e.first); if (!x || (*x)().id != e.first) viol("s02:not-found", fmt("the live connection %u is not found", e.first)); delete x; }
        stay.clear();
        if (!wait_for([&] { return d == c; })) viol("s02:no-disconnected", "a connection that ended was not reported");
        if (c != (size_t)g_n || d != c) viol("s02:announced-more", fmt("%ld clients, %zu announced, %zu reported gone", g_n, c.load(), d.load()));
    }
    bounded("stop", 60, [&] { s.Stop(endless()); });
    std::sort(ids.begin(), ids.end());
    for (size_t i = 1; i < ids.size(); ++i) if (ids[i] == ids[i - 1]) { viol("s02:same-id", fmt("the ID %u was given twice", ids[i])); break; }
    eval(mix(g_seed, g_n)); count("connections", c);
}

// ------------------------------------------------------------ S03
struct S03 {
    std::mutex m; vector<Connection*> live; std::atomic<int> max{-1}; std::atomic<size_t> accepted{0}, ended{0};
    std::atomic<int> peak{0}; std::atomic<bool> check{true};
};
static S03* s03;
static void s03_con(Server* s, Connection* c) {
    {
        std::lock_guard<std::mutex> l(s03->m);
        int up = 1;
        for (auto* x : s03->live) up += !x->WaitForStop(0);
        int max = s03->max;
        if (s03->check && max >= 0 && up > max) viol("s03:exceeded", fmt("%d connections are up, the maximum is %d", up, max));
        s03->peak = std::max<int>(s03->peak, up);
        s03->live.push_back(c);
        s03->accepted++;
    }
    RR q; q.name = "hello"; q.id = c->id; push(c, q);
}
static void s03_dis(Server* s, Connection* c) {
    std::lock_guard<std::mutex> l(s03->m);
    s03->live.erase(std::remove(s03->live.begin(), s03->live.end(), c), s03->live.end());
    s03->ended++;
}
SCENARIO(s03_limit) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("s03 case", 100);
        bool tcp = r.chance(0.5);
        S03 st; s03 = &st;
        Server s;
        s.SetConnectedHandler(s03_con); s.SetDisconnectedHandler(s03_dis);
        int max = r.below(6) - 1;
        st.max = max;
        bool early = r.chance(0.5);
        string addr; uint16_t port;
        if (early) s.SetMaxConnections(max);
        if (!start(s, tcp, addr, port)) { inconclusive("no address"); return; }
        if (!early) s.SetMaxConnections(max);
        if (s.GetMaxConnections() != max) viol("s03:getter", "GetMaxConnections()");
        if (r.chance(0.5)) disturb(r, false, true, true);
        struct P { Raw raw; bool in = false; };
        vector<P> ps;
        string info = fmt("case %ld %s", cs, tcp ? "tcp" : "unix");
        auto look = [&](P& p) { if (!p.in && p.raw.in.find("hello") != string::npos) p.in = true; };
        auto poll_all = [&] { for (auto& p : ps) if (!p.in) { p.raw.read_some(0); look(p); } };
        auto in_now = [&] { int n = 0; for (auto& p : ps) n += p.in; return n; };
        string hist;
        auto settle = [&](const char* after) {
            hist += string(after) + fmt("(%d) ", (int)st.max);
            int want = st.max < 0 ? (int)ps.size() : std::min<int>(st.max, ps.size());
            // existing connections stay when the maximum is lowered
            want = std::max(want, in_now());
            if (!wait_for([&] { poll_all(); return in_now() >= want; })) { viol("s03:not-accepted", fmt("%zu clients, %d accepted, the maximum is %d: the others are not let in after %s; ", ps.size(), in_now(), (int)st.max, after) + info + " " + hist); return; }
            if (r.chance(0.4)) msleep(r.below(6));
            poll_all();
            if (in_now() > want) viol("s03:exceeded", fmt("%d accepted, the maximum is %d after %s; ", in_now(), (int)st.max, after) + info + " " + hist);
            for (auto& p : ps) if (p.raw.eof || p.raw.err) viol("s03:disturbed", fmt("a client that %s was disconnected after %s; ", p.in ? "was accepted" : "waits", after) + info + " " + hist);
            eval(mix(fnv(hist), mix(g_seed, cs)));
        };
        for (int step = 0, n = 3 + r.below(10); step < n && !violated(); ++step) {
            switch (r.below(5)) {
                case 0: case 1: {
                    for (int i = 0, k = 1 + r.below(4); i < k && ps.size() < 14; ++i) {
                        P p; p.raw = raw_connect(s, tcp, addr, port);
                        if (p.raw.fd < 0) { viol("s03:refused", "a client was refused instead of waiting"); break; }
                        ps.push_back(std::move(p));
                    }
                    settle("connecting");
                    break;
                }
                case 2: {      // some accepted ones leave
                    for (int i = 0, k = 1 + r.below(3); i < k; ++i) {
                        vector<size_t> v; for (size_t j = 0; j < ps.size(); ++j) if (ps[j].in) v.push_back(j);
                        if (v.empty()) break;
                        size_t j = v[r.below(v.size())];
                        if (r.chance(0.4)) ps[j].raw.reset(); else ps[j].raw.close();
                        ps.erase(ps.begin() + j);
                    }
                    settle("leaving");
                    break;
                }
                case 3: {      // one that waits gives up (may still be accepted and vanish)
                    vector<size_t> v; for (size_t j = 0; j < ps.size(); ++j) if (!ps[j].in) v.push_back(j);
                    if (v.empty() || st.max == 0) break;
                    // the server has to accept it first to notice
                    size_t j = v[r.below(v.size())];
                    ps[j].raw.close(); ps.erase(ps.begin() + j);
                    settle("giving up");
                    break;
                }
                default: {
                    int nm = r.below(8) - 1;
                    int old = st.max;
                    // while the maximum changes an accept may be judged by either
                    bool raise = nm < 0 || (old >= 0 && nm > old);
                    if (raise) { st.max = nm; s.SetMaxConnections(nm); }
                    else {
                        s.SetMaxConnections(nm);
                        // a client that was accepted before the call may still be announced
                        st.check = false;
                        size_t a = st.accepted;
                        (void)a;
                        st.max = nm;
                        // from now on nobody who connects is accepted above the new maximum
                        if (r.chance(0.5) && nm >= 0 && in_now() >= nm && ps.size() < 14) {
                            size_t waiting = ps.size() - in_now();
                            P p; p.raw = raw_connect(s, tcp, addr, port);
                            ps.push_back(std::move(p));
                            if (!waiting) { msleep(3); poll_all(); if (ps.back().in) viol("s03:exceeded", fmt("a client that connected after the maximum was lowered to %d was accepted; ", nm) + info + " " + hist); count("connect_after_lowering"); }
                        }
                        // let an accept that was going on finish
                        msleep(5);
                        poll_all();
                        st.check = true;
                    }
                    settle(raise ? "raising" : "lowering");
                }
            }
        }
        count("accepted", st.accepted); count("peak", st.peak);
        sample(info + " " + hist);
        iol::clear_faults();
        bounded("stop", 30, [&] { s.Stop(endless()); });
        for (auto& p : ps) if (p.in && !p.raw.wait_eof(20)) viol("s03:left", "a connection is left after the stop");
    }
    iol::clear_faults();
}
// large limits
SCENARIO(s03_large) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("s03 case", 200);
        bool tcp = r.chance(0.3);
        S03 st; s03 = &st;
        Server s;
        s.SetConnectedHandler(s03_con); s.SetDisconnectedHandler(s03_dis);
        vector<int> maxima = {65, 127, 128, 129, 200, 255, 256, 257, 300, INT_MAX, 65536, 65537, 40000, 1 << 24, -1, -2, -128, -256, -65536, -1000000, INT_MIN};
        int max = r.chance(0.3) ? 30 + (int)r.below(300) : r.pick(maxima);
        bool many = max > 0 && max < 400;
        st.max = max;
        bool early = r.chance(0.5);
        if (early) s.SetMaxConnections(max);
        string addr; uint16_t port;
        if (!start(s, tcp, addr, port)) { inconclusive("no address"); return; }
        if (!early) s.SetMaxConnections(max);
        if (s.GetMaxConnections() != max) viol("s03:getter", fmt("GetMaxConnections() is %d, set was %d", s.GetMaxConnections(), max));
        size_t n = many ? max + 1 + r.below(5) : 3 + r.below(80);
        size_t want = many ? max : n;
        vector<Raw> ps; vector<bool> in;
        for (size_t i = 0; i < n; ++i) {
            Raw p = raw_connect(s, tcp, addr, port);
            if (p.fd < 0) { viol("s03:refused", "a client was refused instead of waiting"); break; }
            ps.push_back(std::move(p)); in.push_back(false);
        }
        auto look = [&] {
            size_t c = 0;
            for (size_t i = 0; i < ps.size(); ++i) { if (!in[i]) { ps[i].read_some(0); in[i] = ps[i].in.find("hello") != string::npos; } c += in[i]; }
            return c;
        };
        for (int step = 0; step < 3 && !violated(); ++step) {
            if (!wait_for([&] { return look() >= want; }, 30)) viol("s03:not-accepted", fmt("%zu clients, %zu accepted, the maximum is %d", ps.size(), look(), max));
            msleep(5);
            size_t got = look();
            if (got > want) viol("s03:exceeded", fmt("%zu accepted, the maximum is %d", got, max));
            for (auto& p : ps) if (p.eof || p.err) { viol("s03:disturbed", "a client was disconnected"); break; }
            eval(mix(mix(g_seed, cs), step * 1000 + want)); count("accepted_of_many", got);
            if (!many) break;
            // some leave, as many as wait come in; or the maximum is raised by the rest
            if (r.chance(0.5)) {
                size_t waiting = ps.size() - got;
                for (size_t i = 0, k = waiting; i < ps.size() && k;) if (in[i] && r.chance(0.2)) { ps[i].close(); ps.erase(ps.begin() + i); in.erase(in.begin() + i); --k; } else ++i;
                want = std::min<size_t>(max, ps.size());
            } else { max = ps.size() + r.below(2); st.max = max; s.SetMaxConnections(max); want = ps.size(); }
        }
        bounded("stop", 60, [&] { s.Stop(endless()); });
        for (size_t i = 0; i < ps.size(); ++i) if (in[i] && !ps[i].wait_eof(20)) { viol("s03:left", "a connection is left after the stop"); break; }
    }
}
// crowds: at no time too many, everyone served in the end
SCENARIO(s03_crowd) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("s03 case", 100);
        bool tcp = r.chance(0.5);
        S03 st; s03 = &st;
        Server s;
        s.SetConnectedHandler(s03_con); s.SetDisconnectedHandler(s03_dis);
        int max = 1 + r.below(4); st.max = max;
        s.SetMaxConnections(max);
        string addr; uint16_t port;
        if (!start(s, tcp, addr, port)) { inconclusive("no address"); return; }
        if (r.chance(0.6)) disturb(r);
        vector<std::thread> th;
        std::atomic<size_t> served{0};
        for (int k = 0; k < 6; ++k) th.emplace_back([&, sd = r.next()] {
            Rng t(sd);
            for (int i = 0; i < 6 && !violated(); ++i) {
                Raw p = raw_connect(s, tcp, addr, port);
                if (p.fd < 0) { viol("s03:refused", "a client was refused instead of waiting"); return; }
                if (!greeted(p)) { viol("s03:not-accepted", "a waiting client was not served though others leave"); return; }
                served++;
                if (t.chance(0.5)) msleep(t.below(3));
                if (t.chance(0.3)) p.reset(); else p.close();
            }
        });
        bounded("crowd", 80, [&] { for (auto& t : th) t.join(); });
        iol::clear_faults();
        if (!violated() && st.peak < std::min(max, 1)) viol("s03:peak", "nobody was accepted");
        count("served", served); count("crowds_that_reached_the_maximum", st.peak == max);
        eval(mix(mix(g_seed, cs), served * 10 + max));
        bounded("stop", 30, [&] { s.Stop(endless()); });
    }
    iol::clear_faults();
}

// ------------------------------------------------------------ S04
struct S04 { std::atomic<Connection*> last{nullptr}; std::atomic<uint32_t> id{0}; std::atomic<size_t> gone{0}; };
static S04* s04;
static void s04_con(Server* s, Connection* c) {
    c->SetHandlerNamed("echo", [](Connection* c, Request* r) { c->Push(r, false, 0, false); });
    s04->id = c->id; s04->last = c;
    RR q; q.name = "hello"; q.id = c->id; push(c, q);
}
static void s04_dis(Server* s, Connection* c) { if (c->GetRefs()) viol("s04:torn-down", "a connection was taken down while it is referenced"); s04->gone++; }
static std::atomic<int> s04_waits{0};
// use a referenced connection in every way
static void use(Connection& c, Rng& t, bool ended) {
    switch (t.below(14)) {
        case 0: push(&c, simple("u", 1), true); break;
        case 1: { Request q("u2"); Request* x = c.Push(q); if (x) viol("s04:push-result", "push returned a request"); break; }
        case 2: { RP q(c.Pull(0)); break; }
        case 3: c.IsConnected(); c.IsDisconnecting(); c.GetType(); c.GetRefs(); break;
        case 4: c.SetOurSaInterval(5 + t.below(5)); c.SetTheirNaIntervalLimit(60); break;
        case 5: c.SetSendBlockSize(512 + t.below(1000)); c.SetRecvBlockSize(512 + t.below(1000)); break;
        case 6: c.SetHandlerNamed("x", nullptr); c.GetHandlerNamed("echo"); c.GetHandlerDefault(); break;
        case 7: c.WaitForStop(0); break;
        case 8: { SafeConnection s(&c); SafeConnection s2(s); s2().GetRefs(); break; }
        case 9: c.IncreaseRefs(); c.DecreaseRefs(); break;
        case 10: if (c.GetRefs() < 1) viol("s04:refs", "no references although one is held"); break;
        case 11: if (ended) { RP q(c.Pull(endless())); } break;
        case 12: if (ended) c.Disconnect(t.chance(0.5)); break;
        default: if (ended && s04_waits > 0 && s04_waits-- > 0) { double t0 = now(); bool w = c.WaitForStop(1); if (!w && now() - t0 < 1) viol("s04:wait", "WaitForStop(1) returned early"); }
    }
}
SCENARIO(s04_refs) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("s04 case", 90);
        bool tcp = r.chance(0.5);
        S04 st; s04 = &st;
        s04_waits = r.chance(0.08);
        auto s = std::make_unique<Server>();
        s->SetConnectedHandler(s04_con); s->SetDisconnectedHandler(s04_dis);
        string addr; uint16_t port;
        if (!start(*s, tcp, addr, port)) { inconclusive("no address"); return; }
        Raw p = raw_connect(*s, tcp, addr, port);
        RR q;
        if (!p.request(q, 20)) { viol("s04:hello", "not greeted"); break; }
        uint32_t id = q.id;
        if (r.chance(0.6)) disturb(r);
        SafeConnection* main_ref = nullptr;
        if (!wait_for([&] { return (main_ref = s->GetConnection(id)) != nullptr; })) { viol("s04:lookup", "not found"); break; }
        Connection& c = (*main_ref)();
        int how = r.below(7);
        static const char* hows[] = {"peer closes", "peer resets", "forced", "graceful", "server stops", "server destroyed", "stays"};
        string info = fmt("case %ld %s %s", cs, tcp ? "tcp" : "unix", hows[how]);
        // holders: each has its own reference, uses the connection, releases it at a random moment
        std::atomic<bool> ended{false}, release{false};
        vector<std::thread> th;
        int nh = r.below(4);
        for (int k = 0; k < nh; ++k) th.emplace_back([&, sd = r.next()] {
            Rng t(sd);
            SafeConnection* x = t.chance(0.5) ? new SafeConnection(*main_ref) : new SafeConnection(&c);
            int quota = t.chance(0.3) ? t.below(50) : 1 << 30;
            while (!release && quota-- > 0) { use((*x)(), t, ended); if (t.chance(0.3)) msleep(t.below(2) * 0.5); }
            delete x;
        });
        // still usable
        for (int i = 0; i < 3; ++i) {
            p.send(enc(simple("echo", i)));
            RR a; bool ok = false;
            while (p.request(a, 20)) if (a.name == "echo") { ok = true; break; }
            if (!ok) viol("s04:unusable", "a referenced connection does not work; " + info);
        }
        if (r.chance(0.3)) { p.send(enc(simple("unpulled", 5))); }
        std::thread stopper;
        switch (how) {
            case 0: p.close(); break;
            case 1: p.reset(); break;
            case 2: c.Disconnect(true); break;
            case 3: c.Disconnect(false); break;
            case 4: stopper = std::thread([&] { s->Stop(endless()); }); break;
            case 5: stopper = std::thread([&] { s.reset(); }); break;
            default: break;
        }
        if (how < 6) ended = wait_for([&] { return c.IsDisconnecting() || !c.IsConnected(); });
        if (how < 6 && !ended) viol("s04:no-end", "a referenced connection does not notice its end; " + info);
        Rng t(r.next());
        double until = now() + 0.02;
        while (now() < until) bounded("a call on a referenced connection", 60, [&] { use(c, t, ended); });
        if (how < 6) {
            // not destroyed, not announced as gone while the reference is held
            if (r.chance(0.5)) msleep(10);
            if (st.gone) viol("s04:torn-down", "the disconnected handler ran while a reference was held; " + info);
            if (c.GetRefs() < 1) viol("s04:refs", "no references although one is held; " + info);
            if (c.id != id) viol("s04:id", "the ID of a referenced connection changed; " + info);
        }
        release = true;
        bounded("holders", 60, [&] { for (auto& h : th) h.join(); });
        if (c.GetRefs() != 1) viol("s04:refs", fmt("%u references, one is held; ", c.GetRefs()) + info);
        if (how < 6 && st.gone) viol("s04:torn-down", "the disconnected handler ran while a reference was held; " + info);
        delete main_ref;
        if (how <= 3) {
            if (!wait_for([&] { return st.gone >= 1; })) { viol("s04:never-torn-down", "the disconnected handler did not run after the last reference was released; " + info); finish(1); }
            if (!wait_for([&] { SafeConnection* x = s->GetConnection(id); delete x; return !x; })) viol("s04:still-found", "a torn-down connection is still found; " + info);
        } else if (how <= 5) {
            bounded("the server's stop after the last reference was released", 25, [&] { stopper.join(); });
        } else {
            // still up
            RR a; bool ok = false;
            p.send(enc(simple("echo", 9)));
            while (p.request(a, 20)) if (a.name == "echo" && argnum(a, "k") == 9) { ok = true; break; }
            if (!ok) viol("s04:unusable", "a connection does not work after its references were released; " + info);
        }
        iol::clear_faults();
        if (how != 6 && p.fd >= 0 && !p.wait_eof(20)) viol("s04:peer", "the peer sees no end; " + info);
        p.close();
        if (s) bounded("stop", 30, [&] { s.reset(); });
        eval(mix(mix(g_seed, cs), how * 10 + nh));
        count(hows[how]);
    }
    iol::clear_faults();
    leak_check("s04");
}
// references taken at the very end: by the disconnected handler, and by lookups that race with the removal
struct S04L { std::mutex m; vector<SafeConnection*> taken; Rng rng{1}; std::atomic<size_t> gone{0}; double p = 0; };
static S04L* s04l;
static void s04l_con(Server* s, Connection* c) {
    c->SetHandlerNamed("echo", [](Connection* c, Request* r) { c->Push(r, false, 0, false); });
    c->tag = fmt("a tag that is long enough not to be stored within the string: %u", c->id);
    RR q; q.name = "hello"; q.id = c->id; push(c, q);
}
static void s04l_dis(Server* s, Connection* c) {
    std::lock_guard<std::mutex> l(s04l->m);
    if (s04l->rng.chance(s04l->p)) for (int i = 0, n = 1 + s04l->rng.below(3); i < n; ++i) {
        SafeConnection* x;
        switch (s04l->rng.below(3)) { case 0: x = s->GetConnection(c->id); break; case 1: x = s->GetConnection(c->tag); break; default: x = new SafeConnection(c); }
        if (x && &(*x)() != c) viol("s04:lookup", "a lookup in the disconnected handler found another connection");
        if (x) s04l->taken.push_back(x);
    }
    s04l->gone++;
}
SCENARIO(s04_late) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("s04 late", 100);
        bool tcp = r.chance(0.5);
        s04_waits = 0;
        S04L st; s04l = &st; st.rng = Rng(r.next()); st.p = r.chance(0.2) ? 1 : 0.5;
        auto s = std::make_unique<Server>();
        s->SetConnectedHandler(s04l_con); s->SetDisconnectedHandler(s04l_dis);
        string addr; uint16_t port;
        if (!start(*s, tcp, addr, port)) { inconclusive("no address"); return; }
        size_t base = iol::open_count();
        if (r.chance(0.5)) disturb(r);
        std::atomic<bool> stop{false}, ended{false};
        std::atomic<uint32_t> ids{0};
        // lookups that may meet a connection between its end and its removal
        vector<std::thread> look;
        for (int i = 0, n = r.below(3); i < n; ++i) look.emplace_back([&, sd = r.next()] {
            Rng t(sd); vector<std::pair<SafeConnection*, double>> mine; double rest = 0;      // with the time of their release: an end waits for it
            auto check = [&](SafeConnection* x) { Connection& c = (*x)(); if (c.tag != fmt("a tag that is long enough not to be stored within the string: %u", c.id)) viol("s04:tag", "the tag of a referenced connection changed"); if (c.GetRefs() < 1) viol("s04:refs", "no references although one is held"); };
            while (!stop && !violated()) {
                for (size_t k = 0; k < mine.size(); ) if (now() > mine[k].second) { SafeConnection* y = mine[k].first; check(y); use((*y)(), t, false); check(y); delete y; mine.erase(mine.begin() + k); } else ++k;
                uint32_t hi = ids; if (!hi) { msleep(0.1); continue; }
                SafeConnection* x = s->GetConnection((uint32_t)(hi - t.below(std::min(hi, 3u))));
                if (x) { check(x); if (t.chance(0.1) && mine.size() < 4 && now() > rest) { mine.push_back({x, now() + t.below(30) * 1e-4}); if (mine.size() == 4 || t.chance(0.3)) rest = now() + 0.01; } else delete x; msleep(t.below(20) * 0.01); }
                if (now() > rest + 0.005) rest = now() + 0.01;         // regularly nothing is kept, so that what has ended can go
                if (t.chance(0.2)) std::this_thread::yield();
            }
            for (auto& x : mine) { check(x.first); delete x.first; }
        });
        int n = 2 + r.below(8); size_t expect = 0;
        for (int i = 0; i < n && !violated(); ++i) {
            Raw p = raw_connect(*s, tcp, addr, port); RR q;
            if (p.fd < 0 || !p.request(q, 20) || q.name != "hello") { viol("s04:not-served", "a client is not greeted while ended connections are referenced"); break; }
            ids = q.id;
            if (r.chance(0.3)) msleep(r.below(20) * 0.1);
            switch (r.below(3)) { case 0: p.reset(); break; case 1: { SafeConnection* x = s->GetConnection(q.id); if (x) { (*x)().Disconnect(r.chance(0.5)); delete x; } } default: p.close(); }
            expect++;
            if (r.chance(0.7)) {
                if (!wait_for([&] { return st.gone >= expect; })) { viol("s04:never-torn-down", "the disconnected handler did not run"); break; }
                if (r.chance(0.5)) msleep(r.below(3));
            }
            // what was taken is as it was
            vector<SafeConnection*> v; { std::lock_guard<std::mutex> l(st.m); v = st.taken; }
            for (auto* x : v) {
                Connection& c = (*x)();
                if (c.tag != fmt("a tag that is long enough not to be stored within the string: %u", c.id)) viol("s04:tag", "the tag of a connection that is referenced after its end changed");
                if (c.GetRefs() < 1) viol("s04:refs", "no references although one is held since the disconnected handler");
                if (c.IsConnected() || !c.WaitForStop(0)) viol("s04:state", "a connection that was announced as ended is up");
                for (int k = 0; k < 3; ++k) bounded("a call on a connection referenced since its end", 30, [&] { use(c, r, true); });
                count("uses_after_the_end");
            }
            if (v.size() && r.chance(0.3)) { std::lock_guard<std::mutex> l(st.m); size_t k = r.below(st.taken.size()); delete st.taken[k]; st.taken.erase(st.taken.begin() + k); }
        }
        if (!violated() && !wait_for([&] { return st.gone >= expect; })) viol("s04:never-torn-down", "the disconnected handler did not run");
        iol::clear_faults();
        stop = true;
        bounded("lookups", 60, [&] { for (auto& t : look) t.join(); });
        size_t held; { std::lock_guard<std::mutex> l(st.m); held = st.taken.size(); }
        auto release = [&] { std::lock_guard<std::mutex> l(st.m); for (auto* x : st.taken) delete x; st.taken.clear(); };
        if (violated()) { release(); break; }
        if (r.chance(0.6)) {
            release();
            if (!wait_for([&] { return iol::open_count() <= base; })) { viol("s04:never-torn-down", fmt("%zu descriptors are left after the last references to ended connections were released", iol::open_count() - base)); finish(1); }
            bounded("stop", 30, [&] { s.reset(); });
        } else {
            // the stop waits for those who hold references
            std::atomic<bool> down{false};
            std::thread t([&] { s.reset(); down = true; });
            msleep(r.below(10));
            if (held && down) viol("s04:torn-down", "the server was destroyed while its ended connections were referenced");
            else for (auto* x : st.taken) use((*x)(), r, true);
            release();
            bounded("stop after the last reference was released", 30, [&] { t.join(); });
        }
        eval(mix(mix(g_seed, cs), n * 10 + held)); count("references_from_the_disconnected_handler", held); count("late_ends", expect);
    }
    iol::clear_faults();
    leak_check("s04");
}
// references to the user's own connections and clients
SCENARIO(s04_own) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("s04 case", 60);
        s04_waits = r.chance(0.03);
        bool client = r.chance(0.5);
        std::unique_ptr<Connection> c; Raw p;
        Listener l(r.chance(0.5));
        if (client) { auto* x = new Client; if (!connect_client(*x, l)) { inconclusive("connect"); delete x; continue; } p = l.accept(); c.reset(x); }
        else { int fd; pair(l.tcp, fd, p); c.reset(new Connection(fd)); }
        if (r.chance(0.5)) disturb(r);
        c->IncreaseRefs();
        vector<SafeConnection*> refs;
        for (int i = 0, n = r.below(4); i < n; ++i) refs.push_back(new SafeConnection(c.get()));
        if (c->GetRefs() != refs.size() + 1) viol("s04:refs", "wrong number of references");
        // very many references
        size_t extra = 0;
        if (r.chance(0.15)) {
            extra = r.chance(0.3) ? 65530 + r.below(12) : 250 + r.below(12);
            for (size_t i = 0; i < extra; ++i) c->IncreaseRefs();
            if (c->GetRefs() != refs.size() + 1 + extra) viol("s04:refs", fmt("%zu references are held, GetRefs() says %u", refs.size() + 1 + extra, (unsigned)c->GetRefs()));
            if (r.chance(0.5)) { while (extra + refs.size() + 1 > 256) { c->DecreaseRefs(); extra--; } }
            count("many_references");
        }
        int how = r.below(4);
        switch (how) { case 0: p.close(); break; case 1: c->Disconnect(true); break; case 2: c->Disconnect(false); break; default: p.reset(); }
        if (!wait_for([&] { return c->IsDisconnecting() || !c->IsConnected(); })) viol("s04:no-end", "does not notice its end");
        if (r.chance(0.5)) msleep(5);
        if (c->WaitForStop(0)) viol("s04:torn-down", "stopped while references are held");
        Rng t(r.next());
        for (int i = 0; i < 20; ++i) bounded("a call on a referenced connection", 60, [&] { use(*c, t, true); });
        if (c->WaitForStop(0)) viol("s04:torn-down", "stopped while references are held");
        for (; extra; --extra) c->DecreaseRefs();
        if (c->WaitForStop(0)) viol("s04:torn-down", "stopped while references are held");
        for (auto* x : refs) delete x;
        // the destructor waits for the last one
        if (r.chance(0.5)) {
            std::thread rel([&] { msleep(t.below(10)); c->DecreaseRefs(); });
            if (r.chance(0.5)) { bounded("stop after release", 25, [&] { c->WaitForStop(endless()); }); rel.join(); bounded("destroy", 25, [&] { c.reset(); }); }
            else { Connection* x = c.get(); (void)x; bounded("stop after release", 25, [&] { rel.join(); }); bounded("destroy", 25, [&] { c.reset(); }); }
        } else {
            c->DecreaseRefs();
            if (!wait_for([&] { return c->WaitForStop(0); })) { viol("s04:never-torn-down", "did not stop after the last reference was released"); finish(1); }
            // connected again, without references of the past
            if (client && !violated()) {
                auto* x = static_cast<Client*>(c.get());
                if (!connect_client(*x, l)) viol("s04:reconnect", "could not connect again");
                else { Raw p2 = l.accept(); push(x, simple("again", 1)); RR q; if (!p2.request(q, 20)) viol("s04:unusable", "a connection after a referenced one does not work"); }
            }
            bounded("destroy", 25, [&] { c.reset(); });
        }
        iol::clear_faults();
        eval(mix(mix(g_seed, cs), how));
    }
    iol::clear_faults();
    leak_check("s04");
}

// ------------------------------------------------------------ S05
// Clients that get stuck in every way the library allows, and others that must not notice.
struct S05 {
    Server* s = nullptr;
    std::mutex m; std::set<uint32_t> gone; std::map<uint32_t, Connection*> conns;
    std::set<uint32_t> keep;               // to be referenced by the disconnected handler
    vector<SafeConnection*> kept;
    std::atomic<bool> release{false};      // lets blocked handlers return
    std::atomic<int> blocked{0}, flood{0};
    bool is_gone(uint32_t id) { std::lock_guard<std::mutex> l(m); return gone.count(id); }
};
static S05* s05;
static void s05_con(Server* s, Connection* c) {
    { std::lock_guard<std::mutex> l(s05->m); s05->conns[c->id] = c; }
    c->SetHandlerNamed("echo", [](Connection* c, Request* r) { c->Push(r, false, 0, false); });
    c->SetHandlerNamed("block", [](Connection*, Request* r) { delete r; s05->blocked++; while (!s05->release) msleep(1); });
    c->SetHandlerNamed("flood", [](Connection*, Request* r) { delete r; s05->flood++; });
    c->SetHandlerNamed("bulk", [](Connection* c, Request* r) { RP own(r); for (int i = 0; i < 30; ++i) push(c, simple("bulk", i, 100000)); });
    c->SetHandlerNamed("bye", [](Connection* c, Request* r) { RP own(r); for (int i = 0; i < 30; ++i) push(c, simple("bulk", i, 100000)); c->Disconnect(false); });
    RR q; q.name = "hello"; q.id = c->id; push(c, q);
}
static void s05_dis(Server* s, Connection* c) {
    std::lock_guard<std::mutex> l(s05->m);
    s05->gone.insert(c->id); s05->conns.erase(c->id);
    if (s05->keep.count(c->id)) s05->kept.push_back(new SafeConnection(c));
}
static bool echo(Raw& p, uint32_t k) {
    if (!p.send(enc(simple("echo", k)), 20)) return false;
    RR a;
    while (p.request(a, 20)) if (a.name == "echo" && argnum(a, "k") == k) return true;
    return false;
}
SCENARIO(s05_independent) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("s05 case", 110);
        bool tcp = r.chance(0.5);
        S05 st; s05 = &st;
        auto s = std::make_unique<Server>();
        st.s = s.get();
        s->SetConnectedHandler(s05_con); s->SetDisconnectedHandler(s05_dis);
        string addr; uint16_t port;
        if (!start(*s, tcp, addr, port)) { inconclusive("no address"); return; }
        if (r.chance(0.4)) disturb(r);
        struct Stuck { Raw p; uint32_t id; int kind; };
        vector<Stuck> stuck; vector<SafeConnection*> held;
        std::atomic<bool> stop{false};
        vector<std::thread> th, pullers;
        static const char* kinds[] = {"does not read", "handler does not return", "half a request", "half a length", "flush to a non-reader", "ended, referenced", "silent", "floods", "ended, referenced from the disconnected handler", "handler does not return, peer leaves", "someone waits in Pull"};
        auto make = [&](int kind) {
            Raw p = raw_connect(*s, tcp, addr, port);
            RR q;
            if (p.fd < 0 || !p.request(q, 20) || q.name != "hello") { viol("s05:not-accepted", fmt("a client is not served while %zu others are stuck", stuck.size())); return; }
            stuck.push_back({std::move(p), q.id, kind});
            Stuck& x = stuck.back();
            string info = string("stuck client: ") + kinds[kind];
            switch (kind) {
                case 0: x.p.send(enc(simple("bulk", 0))); break;
                case 1: { int b = st.blocked; x.p.send(enc(simple("block", 0))); x.p.send(enc(simple("echo", 1))); if (!wait_for([&] { return st.blocked > b; })) viol("s05:no-dispatch", "a request is not dispatched; " + info); break; }
                case 2: { string b = enc(simple("echo", 0, 3000)); x.p.send(b.substr(0, 5 + r.below(b.size() - 6))); break; }
                case 3: { string b = enc(simple("echo", 0, 3000)); x.p.send(b.substr(0, 1 + r.below(3))); break; }
                case 4: x.p.send(enc(simple("bye", 0))); break;
                case 5: {
                    SafeConnection* h = nullptr;
                    if (!wait_for([&] { return (h = s->GetConnection(x.id)) != nullptr; })) { viol("s05:lookup", "a connection is not found; " + info); return; }
                    held.push_back(h);
                    int how = r.below(3);
                    if (how == 0) x.p.close(); else if (how == 1) (*h)().Disconnect(true); else x.p.reset();
                    break;
                }
                case 6: break;
                case 7: {
                    int fd = x.p.fd;
                    fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
                    th.emplace_back([&stop, fd] {
                        string b; for (int i = 0; i < 50; ++i) b += enc(simple("flood", i));
                        size_t off = 0;
                        while (!stop) { ssize_t k = ::send(fd, b.data() + off, b.size() - off, MSG_NOSIGNAL); if (k > 0) off = (off + k) % b.size(); else msleep(0.2); }
                    });
                    break;
                }
                case 9: { int b = st.blocked; x.p.send(enc(simple("block", 0))); if (!wait_for([&] { return st.blocked > b; })) viol("s05:no-dispatch", "a request is not dispatched; " + info); x.p.close(); break; }
                case 10: {
                    SafeConnection* h = nullptr;
                    if (!wait_for([&] { return (h = s->GetConnection(x.id)) != nullptr; })) { viol("s05:lookup", "a connection is not found; " + info); return; }
                    pullers.emplace_back([h, t = endless()] { RP q((*h)().Pull(t)); if (q) viol("s05:pull", "a request nobody sent was pulled"); delete h; });
                    break;
                }
                default: {
                    { std::lock_guard<std::mutex> l(st.m); st.keep.insert(x.id); }
                    x.p.close();
                    if (!wait_for([&] { return st.is_gone(x.id); })) viol("s05:no-end", "the end of a connection is not announced; " + info);
                }
            }
            count(kinds[kind]);
        };
        // what a well-behaved client sees meanwhile
        auto probe = [&](const string& info) {
            Raw p = raw_connect(*s, tcp, addr, port);
            RR q;
            if (p.fd < 0 || !p.request(q, 20) || q.name != "hello") { viol("s05:not-accepted", "a new client is not accepted and greeted; " + info); return; }
            for (int i = 0; i < 3; ++i) if (!echo(p, i)) { viol("s05:not-served", "a client's requests are not answered; " + info); return; }
            SafeConnection* h = nullptr;
            if (!wait_for([&] { return (h = s->GetConnection(q.id)) != nullptr; })) { viol("s05:lookup", "a connection is not found; " + info); return; }
            delete h;
            if (r.chance(0.5)) p.close(); else p.reset();
            if (!wait_for([&] { return st.is_gone(q.id); })) viol("s05:no-end", "the end of a client's connection is not announced; " + info);
            if (!wait_for([&] { SafeConnection* x = s->GetConnection(q.id); delete x; return !x; })) viol("s05:no-end", "an ended connection is still found; " + info);
            count("probes");
        };
        Raw old = raw_connect(*s, tcp, addr, port);
        RR q;
        if (!old.request(q, 20)) { viol("s05:not-accepted", "the first client is not greeted"); break; }
        int n = 1 + r.below(r.chance(0.2) ? 25 : 6);
        string info = fmt("case %ld %s: ", cs, tcp ? "tcp" : "unix");
        uint64_t h = 0;
        for (int k = 0; k < n && !violated(); ++k) {
            int kind = r.below(11);
            make(kind); h = mix(h, kind);
            info += string(k ? ", " : "") + kinds[kind];
            if (violated()) break;
            if (r.chance(0.5)) bounded("a well-behaved client", 100, [&] { probe(info); });
        }
        if (!violated()) bounded("a well-behaved client", 100, [&] { probe(info); });
        if (!violated() && !echo(old, 99)) viol("s05:not-served", "an old client's requests are not answered; " + info);
        // each of the stuck ones is still there or ended, as its own doing
        iol::clear_faults();
        stop = true;
        for (auto& t : th) t.join();
        // let go of everything
        st.release = true;
        for (auto* x : held) delete x;
        for (auto& x : stuck) if (x.kind == 10) x.p.close();
        bounded("Pull() after the end", 60, [&] { for (auto& t : pullers) t.join(); });
        { std::lock_guard<std::mutex> l(st.m); for (auto* x : st.kept) delete x; st.kept.clear(); st.keep.clear(); }
        for (auto& x : stuck) if (!violated()) {
            if (x.kind == 5 || x.kind == 8 || x.kind == 9 || x.kind == 10) { if (!wait_for([&] { return st.is_gone(x.id); })) viol("s05:no-end", string("not announced after the reference is released; stuck client: ") + kinds[x.kind]); }
            if (x.kind == 1 && !echo(x.p, 5)) viol("s05:not-served", "a client whose handler took long is not served afterwards; " + info);
            if (x.kind == 6 && !echo(x.p, 5)) viol("s05:not-served", "a client that was silent is not served; " + info);
        }
        if (!violated()) bounded("a well-behaved client", 100, [&] { probe(info + " (released)"); });
        eval(h); count("stuck_clients", stuck.size());
        bounded("stop", 60, [&] { s.reset(); });
        for (auto& x : stuck) if (!violated() && x.p.fd >= 0 && x.kind != 7 && !x.p.wait_eof(20)) viol("s05:left", string("not disconnected by the stop; stuck client: ") + kinds[x.kind]);
    }
    iol::clear_faults();
    leak_check("s05");
}
// Clients that come all at once and say nothing (or half a request, or leave) hold nobody up.
SCENARIO(s05_burst) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("s05 burst", 110);
        bool tcp = r.chance(0.5);
        S05 st; s05 = &st;
        auto s = std::make_unique<Server>();
        st.s = s.get();
        s->SetConnectedHandler(s05_con); s->SetDisconnectedHandler(s05_dis);
        string addr; uint16_t port;
        if (!start(*s, tcp, addr, port)) { inconclusive("no address"); return; }
        int n = 0, kind = 0; double took = 0; bool late = false;
        for (int attempt = 0; attempt < 4; ++attempt) {
            vector<Raw> ps;
            double t0 = now();
            n = 8 + r.below(20); kind = r.below(5);
            for (int i = 0; i < n; ++i) {
                ps.push_back(raw_connect(*s, tcp, addr, port));
                if (ps.back().fd < 0) { viol("s05:not-accepted", "a client cannot connect"); return; }
                if (kind == 1) ps.back().send(string("\x40\0\\0", 1 + r.below(3)));
                if (kind == 2) ps.back().send(enc(simple("echo", 0, 300)).substr(0, 4 + r.below(200)));
                if (kind == 3) ps.back().reset();
                if (kind == 4) ps.back().send(enc(simple("echo", i)));
            }
            t0 = now();
            Raw p = raw_connect(*s, tcp, addr, port);
            RR q;
            if (p.fd < 0 || !p.request(q, 30) || q.name != "hello") { viol("s05:not-accepted", fmt("a client is not greeted after %d others that came at once (%d)", n, kind)); return; }
            took = now() - t0;
            late = took > 2.5 + 3 * max_gap_since(t0);
            if (!late) break;
            count("retried");
        }
        if (late) { viol("s05:slow", fmt("a client is greeted only %.2f s after it connected, again and again, when %d others came just before (kind %d, %s)", took, n, kind, tcp ? "tcp" : "unix")); return; }
        count("burst_clients", n);
        eval(mix(mix(g_seed, cs), n * 8 + kind));
        bounded("stop", 60, [&] { s.reset(); });
    }
    leak_check("s05");
}
// References to ended connections keep those alive, and nothing else.
SCENARIO(s05_kept) {
    Rng r(g_seed);
    for (long cs = 0; cs < g_n && !violated(); ++cs) {
        Guard gd("s05 kept", 110);
        bool tcp = r.chance(0.5);
        S05 st; s05 = &st;
        auto s = std::make_unique<Server>();
        st.s = s.get();
        s->SetConnectedHandler(s05_con); s->SetDisconnectedHandler(s05_dis);
        string addr; uint16_t port;
        if (!start(*s, tcp, addr, port)) { inconclusive("no address"); return; }
        if (r.chance(0.3)) disturb(r);
        vector<SafeConnection*> held;
        vector<uint32_t> ended, over;
        auto client = [&](Raw& p, uint32_t& id) {
            p = raw_connect(*s, tcp, addr, port);
            RR q;
            if (p.fd < 0 || !p.request(q, 20) || q.name != "hello") { viol("s05:not-accepted", "a client is not accepted and greeted while ended connections are referenced"); return false; }
            id = q.id;
            return true;
        };
        // some are kept: found while they lived, or by the disconnected handler
        int k = 1 + r.below(4);
        Raw p; uint32_t id;
        for (int i = 0; i < k && !violated(); ++i) {
            if (!client(p, id)) break;
            if (r.chance(0.5)) {
                SafeConnection* h = nullptr;
                if (!wait_for([&] { return (h = s->GetConnection(id)) != nullptr; })) { viol("s05:lookup", "a connection is not found"); break; }
                held.push_back(h);
                int how = r.below(3);
                if (how == 0) p.close(); else if (how == 1) (*h)().Disconnect(r.chance(0.5)); else p.reset();
                p.close();
                if (!wait_for([&] { return (*h)().IsDisconnecting() || !(*h)().IsConnected(); })) viol("s05:no-end", "an end is not noticed");
            } else {
                { std::lock_guard<std::mutex> l(st.m); st.keep.insert(id); }
                p.close();
                if (!wait_for([&] { return st.is_gone(id); })) viol("s05:no-end", "the end of a connection is not announced");
                over.push_back(id);
            }
            ended.push_back(id);
            if (r.chance(0.3)) { Raw o; uint32_t oi; if (client(o, oi)) { o.close(); if (!wait_for([&] { return st.is_gone(oi); })) viol("s05:no-end", "an end is not announced while an ended connection is referenced"); } }
        }
        iol::clear_faults();
        if (violated()) break;
        msleep(20);
        long base = iol::open_count();
        int m = 15 + r.below(40);
        for (int i = 0; i < m && !violated(); ++i) {
            if (!client(p, id)) break;
            if (r.chance(0.3) && !echo(p, i)) { viol("s05:not-served", "a client is not served while ended connections are referenced"); break; }
            if (r.chance(0.5)) p.close(); else p.reset();
            if (!wait_for([&] { return st.is_gone(id); })) { viol("s05:no-end", "the end of a client is not announced while ended connections are referenced"); break; }
        }
        p.close();
        if (!violated() && !wait_for([&] { return iol::open_count() <= base + 8; })) viol("s05:kept", fmt("%d clients have come and gone while %d ended connections are referenced: %ld descriptors more are open than before", m, k, (long)iol::open_count() - base));
        for (auto* x : held) delete x;
        { std::lock_guard<std::mutex> l(st.m); for (auto* x : st.kept) delete x; st.kept.clear(); st.keep.clear(); }
        for (auto i : ended) if (!violated() && !wait_for([&] { return st.is_gone(i); })) viol("s05:no-end", "a connection is not announced as ended after its reference was released");
        eval(mix(mix(g_seed, cs), m * 8 + k)); count("references_to_ended", k); count("clients_torn_down", m);
        bounded("stop", 60, [&] { s.reset(); });
    }
    iol::clear_faults();
    leak_check("s05");
}
