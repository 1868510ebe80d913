#include "sc.hpp"
namespace sc {
vector<RR> frames_of(const string& in, string& rest) {
    vector<RR> v;
    size_t off = 0;
    while (in.size() - off >= 4) {
        uint32_t n; memcpy(&n, &in[off], 4);
        if (n < 10 || n > in.size() - off) break;
        RR q; size_t u;
        if (dec(in.substr(off, n), q, u) != 1) break;
        off += n;
        if (q.name != "_") v.push_back(q);
    }
    rest = in.substr(off);
    return v;
}
static std::mutex hm;
static std::map<Server*, ServerHub*> hubs;
ServerHub* hub_of(Server* s) { std::lock_guard<std::mutex> l(hm); return hubs[s]; }
static void on_con(Server* s, Connection* c) {
    ServerHub* h = hub_of(s);
    if (h->on_connect) h->on_connect(c);
    RR q; q.name = "hello"; q.id = c->id;
    push(c, q);
}
static void on_dis(Server* s, Connection* c) {
    ServerHub* h = hub_of(s);
    if (h->on_disconnect) h->on_disconnect(c);
}
ServerHub::ServerHub(bool tcp) : tcp(tcp) {
    { std::lock_guard<std::mutex> l(hm); hubs[&s] = this; }
    s.SetConnectedHandler(on_con);
    s.SetDisconnectedHandler(on_dis);
    if (!start(s, tcp, addr, port)) inconclusive("no address to listen on");
}
ServerHub::~ServerHub() {
    bounded("server stop", 30, [&] { s.Stop(endless()); });
    std::lock_guard<std::mutex> l(hm); hubs.erase(&s);
}
bool greeted(Connection& c) {
    RP q(bounded("greeting", 30, [&] { return c.Pull(20); }));
    return q && q->GetName() == "hello";
}
bool greeted(Raw& r) {
    RR q;
    return r.request(q, 20) && q.name == "hello";
}
}
