#include <valgrind/memcheck.h>
#include "iol.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <unistd.h>
#include <time.h>

// With TSan this file is compiled without instrumentation, so that its atomics
// do not order the library's threads; only what the kernel orders through an
// eventfd is told to TSan.
#ifdef VF_TSAN
extern "C" void __tsan_acquire(void*);
extern "C" void __tsan_release(void*);
#define ACQ(p) __tsan_acquire(p)
#define REL(p) __tsan_release(p)
#endif
#ifndef ACQ
#define ACQ(p) ((void)(p))
#define REL(p) ((void)(p))
#endif

namespace iol {
    Config cfg;
    Stats st;

    enum Kind : uint8_t { None = 0, Socket, Event, Timer, Epoll, Pipe, Given };
    static const char* kind_name[] = {"none", "socket", "eventfd", "timerfd", "epoll", "pipe", "socket(given)"};
    enum State : uint8_t { Unknown = 0, Open, Closed };
    const int MAXFD = 1 << 16;
    struct Slot {
        std::atomic<uint8_t> kind{None}, state{Unknown};
        char hb;      // happens-before object of an eventfd
    };
    static Slot slots[MAXFD];
    static std::mutex mut;          // of the list of violations
    static std::vector<std::string>* viols;
    static std::atomic<int> next_fd{0};
    static int fd_limit = 0;
    static std::atomic<uint64_t> seed_base{1}, thread_no{0};

    void seed(uint64_t s) { seed_base = s; }

    static uint64_t rnd() {
        static thread_local uint64_t s = 0;
        if (!s) s = (seed_base.load() + 0x9E3779B97F4A7C15ull * (1 + thread_no++)) | 1;
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        return s * 0x2545F4914F6CDD1Dull >> 16;
    }
    static bool chance(const std::atomic<uint32_t>& p) {
        uint32_t v = p.load(std::memory_order_relaxed);
        return v && (rnd() & 0xFFFF) < v;
    }
    static void nap() {
        uint32_t max = cfg.delay_us.load(std::memory_order_relaxed);
        uint64_t us = max ? rnd() % max : 0;
        timespec t{0, (long)(us * 1000)};
        if (us < 3) sched_yield();
        else syscall(SYS_nanosleep, &t, nullptr);
    }
    static void point() {
        st.calls.fetch_add(1, std::memory_order_relaxed);
        if (chance(cfg.delay)) { st.delays++; int e = errno; nap(); errno = e; }
    }
    void clear_faults() {
        cfg.short_recv = cfg.short_send = cfg.eintr_poll = cfg.eagain_send = 0;
        cfg.eintr_io = cfg.eagain_recv = 0;
        cfg.delay = cfg.delay_lock = 0;
        cfg.accept_fail = 0;
        cfg.fds_left = -1;
    }
    // is there a descriptor left? (as with a limit of the process)
    static bool take() {
        int32_t n = cfg.fds_left.load();
        while (n > 0 && !cfg.fds_left.compare_exchange_weak(n, n - 1)) ;
        if (n) return true;
        st.fd_refusals++; errno = EMFILE;
        return false;
    }
    static void give_back() {
        int32_t n = cfg.fds_left.load();
        while (n >= 0 && !cfg.fds_left.compare_exchange_weak(n, n + 1)) ;
    }

    thread_local bool give_up_soon = false;
    static std::atomic<bool> holds[MAXFD];
    void hold(int fd, bool on) { if (fd >= 0 && fd < MAXFD) holds[fd] = on; }

    static void violation(const char* what, const char* call, int fd) {
        char buf[200];
        uint8_t k = fd >= 0 && fd < MAXFD ? slots[fd].kind.load() : 0;
        snprintf(buf, sizeof buf, "%s %s fd (was %s)", call, what, kind_name[k]);
        std::lock_guard<std::mutex> l(mut);
        if (!viols) viols = new std::vector<std::string>;
        if (viols->size() < 50) viols->push_back(buf);
    }
    std::vector<std::string> fd_violations() {
        std::lock_guard<std::mutex> l(mut);
        return viols ? *viols : std::vector<std::string>();
    }
    std::vector<std::string> open_fds() {
        std::vector<std::string> r;
        for (int i = 0; i < MAXFD; ++i)
            if (slots[i].state == Open) r.push_back(std::string(kind_name[slots[i].kind]));
        return r;
    }
    size_t open_count() {
        size_t n = 0;
        for (int i = 0; i < MAXFD; ++i) n += slots[i].state == Open;
        return n;
    }

    // give the descriptor a number that was not used (for as long as possible)
    static int renumber(int fd, Kind kind) {
        if (fd < 0) return fd;
        int e = errno;
        if (!fd_limit) {
            rlimit rl;
            getrlimit(RLIMIT_NOFILE, &rl);
            rl.rlim_cur = rl.rlim_max;
            setrlimit(RLIMIT_NOFILE, &rl);
            getrlimit(RLIMIT_NOFILE, &rl);
            fd_limit = rl.rlim_cur > (rlim_t)MAXFD ? MAXFD : (int)rl.rlim_cur;
        }
        int base = fd_limit > 4096 ? 1100 : 100;
        int want = next_fd++;
        want = base + want % (fd_limit - base - 50);
        int cloexec = fcntl(fd, F_GETFD) & FD_CLOEXEC;
        int n = fcntl(fd, cloexec ? F_DUPFD_CLOEXEC : F_DUPFD, want);
        if (n >= 0) {
            int cur = next_fd.load(), rel = n - base + 1;
            if (rel > cur) next_fd.compare_exchange_strong(cur, rel);
            ::close(fd);
            fd = n;
        }
        if (fd < MAXFD) { slots[fd].kind = kind; slots[fd].state = Open; }
        st.opened++;
        errno = e;
        return fd;
    }
    int hand_over(int fd) { return renumber(fd, Given); }

    // after a call on fd: the thread may lose the processor there, too
    static void used(const char* call, int fd, bool failed) {
        uint32_t d = cfg.delay.load(std::memory_order_relaxed) / 2;
        if (d && (rnd() & 0xFFFF) < d) { st.delays++; int e = errno; nap(); errno = e; }
        if (!failed || errno != EBADF || fd < 0) return;
        int e = errno;
        violation(fd < MAXFD && slots[fd].state == Closed ? "on an already closed" : "on a foreign or never opened", call, fd);
        errno = e;
    }
    static Slot* event(int fd) {
        return fd >= 0 && fd < MAXFD && slots[fd].kind == Event ? &slots[fd] : nullptr;
    }
}

using namespace iol;
extern "C" {

static bool nonblocking(int fd, int flags) {
    if (flags & MSG_DONTWAIT) return true;
    int e = errno, f = fcntl(fd, F_GETFL);
    errno = e;
    return f >= 0 && (f & O_NONBLOCK);
}
// a nonblocking call that finds nothing to do, or is interrupted
static bool nothing(int fd, int flags, bool send) {
    if (chance(cfg.eintr_io)) { st.eintr++; errno = EINTR; return true; }
    if (chance(send ? cfg.eagain_send : cfg.eagain_recv) && nonblocking(fd, flags)) { st.eagain++; errno = EAGAIN; return true; }
    return false;
}
static void largest(std::atomic<uint64_t>& m, uint64_t n) { uint64_t o = m; while (n > o && !m.compare_exchange_weak(o, n)) {} }
ssize_t iol_recv(int fd, void* b, size_t n, int flags) {
    point(); st.recv_calls++; largest(st.max_recv, n);
    if (nothing(fd, flags, false)) return -1;
    if (n > 1 && !(flags & MSG_WAITALL) && chance(cfg.short_recv)) { n = (rnd() & 1) ? 1 : 1 + rnd() % n; st.short_recv++; }
    ssize_t r = recv(fd, b, n, flags);
    used("recv", fd, r == -1);
    return r;
}
ssize_t iol_recvfrom(int fd, void* b, size_t n, int flags, sockaddr* a, socklen_t* l) {
    point(); st.recv_calls++; largest(st.max_recv, n);
    if (n > 1 && !(flags & MSG_WAITALL) && chance(cfg.short_recv)) { n = (rnd() & 1) ? 1 : 1 + rnd() % n; st.short_recv++; }
    ssize_t r = recvfrom(fd, b, n, flags, a, l);
    used("recvfrom", fd, r == -1);
    return r;
}
ssize_t iol_recvmsg(int fd, msghdr* m, int flags) {
    point(); st.recv_calls++;
    ssize_t r = recvmsg(fd, m, flags);
    used("recvmsg", fd, r == -1);
    return r;
}
ssize_t iol_send(int fd, const void* b, size_t n, int flags) {
    point(); st.send_calls++; largest(st.max_send, n);
    if (nothing(fd, flags, true)) return -1;
    if (n > 1 && chance(cfg.short_send)) { n = (rnd() & 1) ? 1 : 1 + rnd() % n; st.short_send++; }
    ssize_t r = send(fd, b, n, flags);
    used("send", fd, r == -1);
    return r;
}
ssize_t iol_sendto(int fd, const void* b, size_t n, int flags, const sockaddr* a, socklen_t l) {
    point(); st.send_calls++; largest(st.max_send, n);
    if (n > 1 && chance(cfg.short_send)) { n = (rnd() & 1) ? 1 : 1 + rnd() % n; st.short_send++; }
    ssize_t r = sendto(fd, b, n, flags, a, l);
    used("sendto", fd, r == -1);
    return r;
}
ssize_t iol_sendmsg(int fd, const msghdr* m, int flags) {
    point(); st.send_calls++;
    ssize_t r = sendmsg(fd, m, flags);
    used("sendmsg", fd, r == -1);
    return r;
}
// pipes used as events, and waits that do not tell which descriptor is ready
static int64_t all_hb;
static bool pipe_end(int fd) { return fd >= 0 && fd < MAXFD && slots[fd].kind == Pipe; }
ssize_t iol_read(int fd, void* b, size_t n) {
    point();
    Slot* ev = event(fd);
    if (fd >= 0 && fd < MAXFD && (slots[fd].kind == Socket || slots[fd].kind == Given) &&
        n > 1 && chance(cfg.short_recv)) { n = 1 + rnd() % n; st.short_recv++; }
    ssize_t r = read(fd, b, n);
    if (ev && r > 0) ACQ(&ev->hb);
    if (pipe_end(fd) && r > 0) ACQ(&all_hb);
    used("read", fd, r == -1);
    return r;
}
ssize_t iol_readv(int fd, const iovec* v, int n) {
    point();
    ssize_t r = readv(fd, v, n);
    used("readv", fd, r == -1);
    return r;
}
ssize_t iol_write(int fd, const void* b, size_t n) {
    point();
    Slot* ev = event(fd);
    if (ev || pipe_end(fd)) REL(&all_hb);
    if (ev) REL(&ev->hb);
    else if (fd >= 0 && fd < MAXFD && (slots[fd].kind == Socket || slots[fd].kind == Given) &&
        n > 1 && chance(cfg.short_send)) { n = 1 + rnd() % n; st.short_send++; }
    ssize_t r = write(fd, b, n);
    used("write", fd, r == -1);
    return r;
}
ssize_t iol_writev(int fd, const iovec* v, int n) {
    point();
    ssize_t r = writev(fd, v, n);
    used("writev", fd, r == -1);
    return r;
}
int iol_eventfd_write(int fd, eventfd_t v) { return iol_write(fd, &v, sizeof v) == sizeof v ? 0 : -1; }
int iol_eventfd_read(int fd, eventfd_t* v) { return iol_read(fd, v, sizeof *v) == sizeof *v ? 0 : -1; }
static void polled(const char* call, pollfd* p, nfds_t n, int r) {
    if (r == -1 && errno == EINTR) st.real_eintr++;
    if (r <= 0) return;
    int e = errno;
    for (nfds_t i = 0; i < n; ++i) {
        if (p[i].fd < 0) continue;
        if (p[i].revents & POLLNVAL) { errno = EBADF; used(call, p[i].fd, true); }
        if (Slot* ev = p[i].revents & POLLIN ? event(p[i].fd) : nullptr) ACQ(&ev->hb);
        if (p[i].revents & POLLIN && pipe_end(p[i].fd)) ACQ(&all_hb);
    }
    errno = e;
}
static void held(pollfd* p, nfds_t n) {
    for (nfds_t i = 0; i < n; ++i)
        while (p[i].fd >= 0 && p[i].fd < MAXFD && holds[p[i].fd].load(std::memory_order_relaxed)) { timespec t{0, 500000}; syscall(SYS_nanosleep, &t, nullptr); }
}
int iol_poll(pollfd* p, nfds_t n, int timeout) {
    point(); st.poll_calls++;
    if (timeout && chance(cfg.eintr_poll)) { st.eintr++; errno = EINTR; return -1; }
    held(p, n);
    int r = poll(p, n, timeout);
    polled("poll", p, n, r);
    return r;
}
int iol_ppoll(pollfd* p, nfds_t n, const timespec* t, const sigset_t* s) {
    point(); st.poll_calls++;
    if ((!t || t->tv_sec || t->tv_nsec) && chance(cfg.eintr_poll)) { st.eintr++; errno = EINTR; return -1; }
    held(p, n);
    int r = ppoll(p, n, t, s);
    polled("ppoll", p, n, r);
    return r;
}
int iol_select(int n, fd_set* a, fd_set* b, fd_set* c, timeval* t) {
    point(); st.poll_calls++;
    int r = select(n, a, b, c, t);
    if (r > 0) ACQ(&all_hb);
    return r;
}
int iol_epoll_create1(int f) { point(); if (!take()) return -1; return renumber(epoll_create1(f), Epoll); }
int iol_epoll_create(int f) { point(); if (!take()) return -1; return renumber(epoll_create(f), Epoll); }
int iol_epoll_wait(int fd, epoll_event* ev, int n, int timeout) {
    point(); st.poll_calls++;
    if (timeout && chance(cfg.eintr_poll)) { st.eintr++; errno = EINTR; return -1; }
    int r = epoll_wait(fd, ev, n, timeout);
    if (r > 0) ACQ(&all_hb);
    used("epoll_wait", fd, r == -1);
    return r;
}
int iol_epoll_pwait(int fd, epoll_event* ev, int n, int timeout, const sigset_t*) { return iol_epoll_wait(fd, ev, n, timeout); }
int iol_accept4(int fd, sockaddr* a, socklen_t* l, int flags) {
    point(); st.accepts++;
    if (cfg.accept_fail.load() > 0 && cfg.accept_fail.fetch_sub(1) > 0) {
        st.accept_fails++; errno = cfg.accept_errno; return -1;
    }
    if (!take()) return -1;
    int r = accept4(fd, a, l, flags);
    if (r == -1) { int e = errno; give_back(); errno = e; }
    used("accept4", fd, r == -1);
    return renumber(r, Socket);
}
int iol_accept(int fd, sockaddr* a, socklen_t* l) { return iol_accept4(fd, a, l, 0); }
int iol_eventfd(unsigned v, int f) { point(); if (!take()) return -1; return renumber(eventfd(v, f), Event); }
int iol_timerfd_create(int c, int f) { point(); if (!take()) return -1; return renumber(timerfd_create(c, f), Timer); }
int iol_timerfd_settime(int fd, int f, const itimerspec* n, itimerspec* o) {
    VALGRIND_CHECK_MEM_IS_DEFINED(n, sizeof(*n));       // (memcheck does not look when fd is not open)
    point();
    int r = timerfd_settime(fd, f, n, o);
    used("timerfd_settime", fd, r == -1);
    return r;
}
int iol_socket(int d, int t, int p) {
    point();
    if (!take()) return -1;
    int s = renumber(socket(d, t, p), Socket);
    if (s >= 0 && d == AF_INET && give_up_soon) { int one = 1; setsockopt(s, IPPROTO_TCP, TCP_SYNCNT, &one, sizeof one); }
    return s;
}
int iol_socketpair(int d, int t, int p, int* v) {
    point();
    if (!take()) return -1;
    if (!take()) { give_back(); errno = EMFILE; return -1; }
    int r = socketpair(d, t, p, v);
    if (!r) { v[0] = renumber(v[0], Socket); v[1] = renumber(v[1], Socket); }
    return r;
}
int iol_pipe2(int* v, int f) {
    if (!take()) return -1;
    if (!take()) { give_back(); errno = EMFILE; return -1; }
    int r = pipe2(v, f);
    if (!r) { v[0] = renumber(v[0], Pipe); v[1] = renumber(v[1], Pipe); }
    return r;
}
int iol_pipe(int* v) { return iol_pipe2(v, 0); }
int iol_dup(int fd) { if (!take()) return -1; int r = dup(fd); used("dup", fd, r == -1); return renumber(r, Socket); }
int iol_close(int fd) {
    point();
    if (fd < 0) { errno = EBADF; return -1; }
    if (fd < MAXFD && slots[fd].state == Open) {
        // mark first: the number may be given to another thread at once
        slots[fd].state = Closed;
        st.closed++;
        int r = close(fd);
        give_back();
        return r;
    }
    // closing anything else could break the harness: do not do it
    violation(fd < MAXFD && slots[fd].state == Closed ? "on an already closed" : "on a foreign or never opened", "close", fd);
    errno = EBADF;
    return -1;
}
int iol_shutdown(int fd, int how) {
    point();
    int r = shutdown(fd, how);
    used("shutdown", fd, r == -1);
    return r;
}
int iol_connect(int fd, const sockaddr* a, socklen_t l) {
    point();
    int r = connect(fd, a, l);
    if (r == -1 && errno == EINTR) st.real_eintr++;
    used("connect", fd, r == -1);
    return r;
}
// no bookkeeping, but places where other threads and processes may come in between
int iol_bind(int fd, const sockaddr* a, socklen_t l) { point(); int r = bind(fd, a, l); used("bind", fd, r == -1); return r; }
int iol_listen(int fd, int n) { point(); int r = listen(fd, n); used("listen", fd, r == -1); return r; }
int iol_access(const char* p, int m) { int r = access(p, m); int e = errno; point(); errno = e; return r; }
int iol_unlink(const char* p) { point(); return unlink(p); }
int iol_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    int r = fcntl(fd, cmd, arg);
    used("fcntl", fd, r == -1);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) r = renumber(r, Socket);
    return r;
}
int iol_pthread_mutex_lock(pthread_mutex_t* m) {
    if (chance(cfg.delay_lock)) { st.lock_delays++; nap(); }
    return pthread_mutex_lock(m);
}
int iol_pthread_mutex_unlock(pthread_mutex_t* m) {
    int r = pthread_mutex_unlock(m);
    if (chance(cfg.delay_lock)) { st.lock_delays++; nap(); }
    return r;
}

}
extern "C" int iol_fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return iol_fcntl(fd, cmd, arg);
}
