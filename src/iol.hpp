// Instrumented I/O layer that the library under test is linked against.
// The library's object files get their system-call symbols renamed
// (objcopy --redefine-syms) to iol_*; the harness itself is not touched.
#pragma once
#include <atomic>
#include <cstdint>
#include <string>
#include <vector>

namespace iol {
    // Fault and delay injection, all probabilities in 1/65536.
    struct Config {
        std::atomic<uint32_t> short_recv{0};   // receive fewer bytes than possible
        std::atomic<uint32_t> short_send{0};   // send fewer bytes than asked
        std::atomic<uint32_t> eintr_poll{0};   // poll()/select() interrupted before it waits
        std::atomic<uint32_t> eagain_send{0};  // a nonblocking send finds no space
        std::atomic<uint32_t> eagain_recv{0};  // a nonblocking receive finds nothing
        std::atomic<uint32_t> eintr_io{0};     // send()/recv() interrupted before anything happened
        std::atomic<uint32_t> delay{0};        // sleep at a system call
        std::atomic<uint32_t> delay_lock{0};   // sleep before lock/after unlock
        std::atomic<uint32_t> delay_us{200};   // maximum sleep
        std::atomic<int32_t> accept_fail{0};   // this many next accepts fail (with accept_errno)
        std::atomic<int> accept_errno{0};
        std::atomic<int32_t> fds_left{-1};     // the library can open this many more descriptors (-1: any number)
    };
    extern Config cfg;
    void seed(uint64_t s);
    void clear_faults();

    // Counters of what happened.
    struct Stats {
        std::atomic<uint64_t> calls{0}, short_recv{0}, short_send{0}, eintr{0}, eagain{0},
            delays{0}, lock_delays{0}, accepts{0}, accept_fails{0}, opened{0}, closed{0},
            max_send{0}, max_recv{0}, fd_refusals{0}, recv_calls{0}, send_calls{0}, poll_calls{0}, real_eintr{0};
    };
    extern Stats st;

    // Give a descriptor of the harness to the library: returns a new
    // descriptor with a number that was never used; the old one is closed.
    int hand_over(int fd);
    // While held, a thread of the library that is about to wait for this
    // descriptor does not run (as if it was descheduled).
    void hold(int fd, bool on);
    // The TCP sockets this thread creates give up connecting after 3 s (ETIMEDOUT).
    extern thread_local bool give_up_soon;
    // Descriptors the library has open now, described.
    std::vector<std::string> open_fds();
    size_t open_count();
    // Descriptor violations (use or close of a descriptor it does not have).
    std::vector<std::string> fd_violations();
}
