"""What each check runs: property -> scenarios, sanitizer flavour, case count, number of seeds."""
def J(scenario, n, runs, flavour="asan", **kw):
    return dict(scenario=scenario, n=n, runs=runs, flavour=flavour, **kw)

CODEC = ["vf", "iol", "s_codec"]
def jobs(quick, thorough):
    return lambda tier: quick if tier == "quick" else thorough

PROPS = {}
def prop(id, units, rule, quick, thorough, **kw):
    PROPS[id] = dict(units=units, rule=rule, jobs=jobs(quick, thorough), **kw)

prop("C01", CODEC, "One evaluation = one value, datum or request encoded and decoded (exact, with trailing bytes, into a used object) and compared with its model; non-trivial = not an empty string/zero/argumentless request; distinct by encoded bytes.",
     [J("c01_roundtrip", 3000, 16), J("c01_changes", 3000, 8)], [J("c01_roundtrip", 6000, 64), J("c01_changes", 6000, 32)])
prop("C02", CODEC, "One evaluation = one value, datum or request whose encoding is compared byte by byte with an independent encoder and whose independent encoding is decoded by the library (in memory and over a socket); distinct by encoded bytes.",
     [J("c02_layout", 3000, 16), J("c02_socket", 1000, 8), J("c02_changes", 3000, 4)], [J("c02_layout", 6000, 64), J("c02_socket", 1500, 32), J("c02_changes", 6000, 16)])
prop("C03", CODEC, "One evaluation = one byte buffer decoded as value, datum and request from an exact-length allocation under ASan/UBSan, then inspected, printed, copied, re-encoded, decoded into again and destroyed, with allocation volume and leaks monitored; non-trivial = at least 5 bytes; distinct by bytes.",
     [J("c03_hostile", 40000, 16), J("k4_deep", 1, 1)], [J("c03_hostile", 100000, 64), J("k4_deep", 1, 1)])
prop("C04", CODEC, "One evaluation = one truncated, mutated or spliced encoding whose acceptance, used length and content are compared with a strict reference decoder (accept/reject/unspecified) and which is re-encoded when accepted; non-trivial = longer than 4 bytes; distinct by bytes.",
     [J("c04_reject", 60, 16)], [J("c04_reject", 150, 64)])
prop("C05", CODEC, "One evaluation = one random history of copy, store, hand-over, alias, mutate and destroy operations over a pool of objects, every object compared with its shadow after every operation, under ASan and a final leak check; distinct by the sequence of operations.",
     [J("c05_values", 4000, 8), J("c05_requests", 4000, 8), J("c05_push", 3000, 4)], [J("c05_values", 10000, 32), J("c05_requests", 10000, 32), J("c05_push", 8000, 16)])
prop("C06", CODEC, "One evaluation = one random history of container operations checked against a model map/sequence after every step, or one integer/string value stored and read back; distinct by operations and values.",
     [J("c06_request", 250, 8), J("c06_values", 2000, 8)], [J("c06_request", 1000, 32), J("c06_values", 10000, 32)])

prop("C07", CODEC, "One evaluation = one value or request whose printed text is walked for every name, number, length, string line and element it must show, compared with the text of equal objects (built, copied, decoded), the object and its encoding compared before and after; distinct by encoded bytes and indentation.",
     [J("c07_print", 500, 8)], [J("c07_print", 1500, 32)])

STREAM = ["vf", "iol", "sc", "s_stream", "s_long"]
prop("N01", STREAM, "One evaluation = one request pushed on a live connection and compared, on delivery at the other endpoint, with what was pushed (content, kept ID, exactly once, per-producer order, order between threads, nothing after the end); distinct by content and position.",
     [J("n01_long", 33, 1), J("n01_stream", 90, 24), J("n01_backlog", 12, 8)], [J("n01_long", 66, 2), J("n01_long", 200, 1), J("n01_stream", 300, 64), J("n01_backlog", 60, 24)])
prop("N02", STREAM, "One evaluation = one byte stream sent in random pieces, its delivered sequence compared exactly with the requests in it, with prompt-delivery checks between pieces; non-trivial = more than one piece; distinct by bytes and cutting.",
     [J("n02_long", 33, 1), J("n02_split", 200, 24)], [J("n02_long", 66, 2), J("n02_long", 200, 1), J("n02_split", 800, 64)])
prop("N03", STREAM, "One evaluation = one hostile stream (malformed, oversize, exactly-maximum, random) sent to a server that also serves honest echo clients, or to a connection whose delivered requests are compared with a model; distinct by bytes.",
     [J("n03_server", 45, 24), J("n03_stream", 4800, 16)], [J("n03_server", 60, 64), J("n03_stream", 10000, 64)])
prop("N04", STREAM, "One evaluation = one session whose automatically assigned wire IDs are checked for distinctness, order, first ID and disjointness, with kept IDs; non-trivial = at least two assigned IDs.",
     [J("n04_ids", 240, 16), J("n04_many", 40000, 2)], [J("n04_ids", 400, 48), J("n04_many", 100000, 8)])
prop("N05", STREAM, "One evaluation = one received request whose destination (named handler, default handler, queue, none) and order are compared with a model while handlers change; distinct by name, destination and position.",
     [J("n05_dispatch", 375, 24), J("n05_server", 200, 8), J("k2_early", 1, 1)], [J("n05_dispatch", 1000, 48), J("n05_server", 600, 16), J("k2_early", 1, 1)])
prop("N06", STREAM, "One evaluation = one pull history: several consumers, or one wait (in vain, woken by arrival, woken by an end), or draining after the end; distinct by seed and parameters.",
     [J("n06_long", 33, 1), J("n06_consumers", 100, 8), J("n06_waits", 6, 6), J("n06_after", 200, 8), J("n06_races", 60, 8), J("n06_server", 80, 8)], [J("n06_long", 66, 2), J("n06_long", 200, 1), J("n06_consumers", 400, 32), J("n06_waits", 30, 16), J("n06_after", 800, 32), J("n06_races", 400, 32), J("n06_server", 600, 32)])

CONN = ["vf", "iol", "sc", "s_conn", "s_long"]
prop("N07", CONN, "One evaluation = one graceful disconnect (idle, queued, stalled, concurrent with pushes, from a handler, both sides) with everything the peer received compared with what was pushed before; non-trivial = something was queued.",
     [J("n07_long", 33, 1), J("n07_drain", 50, 16), J("n07_both", 320, 8), J("n07_slow", 1, 4), J("k3_reset", 1, 1)], [J("n07_long", 66, 2), J("n07_long", 200, 1), J("n07_drain", 800, 64), J("n07_both", 600, 32), J("n07_slow", 4, 16), J("k3_reset", 1, 1)])
prop("N08", CONN, "One evaluation = one forced or peer-caused end at a random moment with random queues, half-sent and half-received data and helpers (pushing, pulling, waiting threads), its bounded end and the state afterwards checked.",
     [J("n08_long", 33, 1), J("n08_end", 500, 16), J("n08_both", 80, 8)], [J("n08_long", 66, 2), J("n08_long", 200, 1), J("n08_end", 1500, 64), J("n08_both", 300, 32)])
prop("N09", CONN, "One evaluation = one real-time timer situation (idle, silent, dripping, one-way, busy, long handler, changed limits, reconnected) observed against lower and (retried) upper time bounds.",
     [J("n09_timers", 1, 8), J("n09_default", 1, 1), J("n09_changes", 4, 4)], [J("n09_timers", 8, 16), J("n09_default", 1, 4), J("n09_changes", 30, 16)], workers=8)
prop("N10", CONN, "One evaluation = one session of a reconnecting client, after earlier sessions with leftovers, with everything on the wire and everything delivered compared with that session's own traffic.",
     [J("n10_sessions", 120, 16), J("n10_server", 60, 8)], [J("n10_sessions", 600, 64), J("n10_server", 400, 32)])
prop("N11", CONN, "One evaluation = one connection attempt (listening, refused, invalid, over-long, full queue, late answer, already connected) whose result, state, descriptors and usability are checked.",
     [J("n11_long", 33, 1), J("n11_connect", 400, 12), J("n11_race", 500, 8), J("n11_timeout", 3, 4)], [J("n11_long", 66, 2), J("n11_long", 200, 1), J("n11_connect", 1500, 48), J("n11_race", 1000, 32), J("n11_timeout", 10, 16)], workers=12)
prop("N12", CONN, "One evaluation = one connection on which pushes without a timeout must return null at once while the peer answers or is stuck, and pushes with a timeout are compared with the documented waiting.",
     [J("n12_zero", 150, 8), J("n12_states", 960, 8), J("k1_wait", 1, 1)], [J("n12_zero", 800, 32), J("n12_states", 3000, 32), J("k1_wait", 1, 1)])

prop("N13", CONN, "One evaluation = one client or server whose settings are changed at random in every state, compared with what the getters report and with their effect on traffic (limits, handlers, block sizes at the system calls), over reconnects and restarts, and one transfer while settings change.",
     [J("n13_intervals", 1, 2), J("n09_changes", 3, 4), J("n13_settings", 90, 16), J("n13_server", 240, 8)], [J("n13_intervals", 8, 8), J("n09_changes", 20, 16), J("n13_settings", 400, 48), J("n13_server", 600, 16)])

SERVER = ["vf", "iol", "sc", "s_server", "s_long"]
prop("S01", SERVER, "One evaluation = one start/serve/stop cycle (failed starts, concurrent starts, clients with traffic, stops from main, other threads, request and connected handlers, destruction) with descriptors, address, file and connections checked the moment the stop returns.",
     [J("s01_long", 33, 1), J("s01_cycles", 300, 16), J("s01_query", 800, 8), J("s01_contend", 320, 8)], [J("s01_long", 66, 2), J("s01_long", 200, 1), J("s01_cycles", 600, 64), J("s01_query", 1500, 32), J("s01_contend", 800, 32)])
prop("S02", SERVER, "One evaluation = one server run with churning clients and concurrent lookups, every announcement, ID, tag and lookup result checked against the log; or one connection to a server whose handlers are unset or change.",
     [J("s02_long", 33, 1), J("s02_events", 600, 16), J("s02_unset", 480, 4), J("s02_many", 66500, 1)], [J("s02_long", 66, 2), J("s02_long", 200, 1), J("s02_events", 1500, 64), J("s02_unset", 1000, 8), J("s02_many", 140000, 2)])
prop("S03", SERVER, "One evaluation = one step (connecting, leaving, raising, lowering) of a history with waiting clients, after which who is accepted is compared with the limit; or one crowd served through a small limit.",
     [J("s03_long", 33, 1), J("s03_limit", 360, 16), J("s03_crowd", 160, 8), J("s03_large", 20, 8)], [J("s03_long", 66, 2), J("s03_long", 200, 1), J("s03_limit", 400, 64), J("s03_crowd", 150, 32), J("s03_large", 30, 32)])
prop("S04", SERVER, "One evaluation = one connection with random reference holders whose peer, server or owner ends it; calls on it must work and not block, and it must be torn down after the last release only; under ASan.",
     [J("s04_long", 33, 1), J("s04_refs", 40, 16), J("s04_own", 60, 8), J("s04_late", 60, 8)], [J("s04_long", 66, 2), J("s04_long", 200, 1), J("s04_refs", 600, 64), J("s04_own", 800, 32), J("s04_late", 600, 32)])

prop("S05", SERVER, "One evaluation = one server with clients stuck in various ways (not reading, blocked handlers, partial requests, unfinished ends, held references, flooding) while well-behaved clients come, are served and leave in bounded time; distinct by the sequence of ways.",
     [J("s05_long", 33, 1), J("s05_independent", 200, 16), J("s05_burst", 1200, 4), J("s05_kept", 75, 8)], [J("s05_long", 66, 2), J("s05_long", 200, 1), J("s05_independent", 600, 64), J("s05_burst", 2500, 16), J("s05_kept", 250, 32)])

ALL = ["vf", "iol", "sc", "s_codec", "s_stream", "s_conn", "s_server", "s_res"]
prop("R01", ALL, "One evaluation = one life cycle (connections, servers, clients, references, requests; normal, failing and hostile) after which the library's descriptors, the process's descriptors and threads and (LeakSanitizer, allocated bytes) memory are compared with before, or one long-lived object used 84 times whose footprint must not grow; every descriptor operation of the library is checked against an ownership ledger. Scenarios of other properties run under the same ledger and leak check. Distinct by scenario, seed and what was done.",
     [J("r01_cycles", 120, 8), J("r01_growth", 12, 8), J("n08_end", 150, 4), J("n10_sessions", 40, 4), J("n11_connect", 120, 4), J("n06_server", 40, 4), J("n06_after", 120, 2), J("n06_waits", 1, 2), J("n06_races", 20, 2), J("n11_race", 180, 4), J("r04_exhausted", 20, 4), J("s01_cycles", 120, 4), J("s04_refs", 20, 4), J("n03_stream", 1200, 4), J("c03_hostile", 4000, 2), J("c05_requests", 400, 2), J("n09_timers", 1, 2), J("n02_split", 30, 2), J("n05_server", 8, 2), J("n07_drain", 8, 2), J("n08_both", 20, 2), J("n10_server", 10, 2), J("n12_states", 30, 2), J("n13_settings", 10, 2), J("s02_events", 12, 2), J("s03_limit", 10, 2), J("s04_own", 15, 2), J("s04_late", 15, 2), J("s05_kept", 10, 2), J("r03_web", 15, 2), J("r04_accept", 10, 2)],
     [J("r01_cycles", 1000, 48), J("r01_growth", 60, 48), J("n08_end", 1000, 32), J("n10_sessions", 300, 32), J("n11_connect", 800, 24), J("n06_server", 300, 16), J("n06_after", 200, 8), J("n06_waits", 6, 8), J("n06_races", 100, 8), J("n11_race", 400, 16), J("r04_exhausted", 150, 16), J("s05_kept", 100, 8), J("s01_cycles", 300, 32), J("s04_refs", 200, 32), J("s04_own", 300, 16), J("n03_stream", 1500, 16), J("n03_server", 40, 16), J("c03_hostile", 20000, 16), J("c05_requests", 400, 16), J("n09_timers", 4, 8), J("r03_web", 100, 16), J("r04_accept", 60, 16), J("n02_split", 100, 8), J("n05_server", 40, 8), J("n07_drain", 40, 8), J("n08_both", 80, 8), J("n10_server", 50, 8), J("n12_states", 150, 8), J("n13_settings", 40, 8), J("s02_events", 50, 8), J("s03_limit", 50, 8), J("s04_late", 60, 8)],
     fds=True, only=r"leak:|r01:|fd:|asan:(double-free|attempting|bad-free|alloc)", own=("r01_cycles", "r01_growth"))
T = "tsan"
prop("R02", ALL, "One evaluation = one workload case executed under ThreadSanitizer (happens-before race detection on every memory access of the library, with the system call layer uninstrumented): concurrent pushes, pulls, ends, state queries, setting and handler changes, references and lookups from user threads and handlers. Distinct by scenario, seed and what was done.",
     [J("r02_mix", 12, 16, T), J("n01_stream", 6, 4, T), J("n05_dispatch", 20, 4, T), J("n05_server", 10, 4, T), J("n06_consumers", 10, 4, T), J("n06_races", 10, 4, T), J("n06_server", 8, 4, T), J("n07_drain", 8, 4, T), J("n07_both", 8, 4, T), J("n08_end", 80, 4, T), J("n08_both", 15, 4, T), J("n10_sessions", 20, 4, T), J("n13_settings", 10, 4, T), J("s05_independent", 20, 4, T), J("n11_connect", 50, 4, T), J("n11_race", 30, 6, T), J("s01_cycles", 15, 4, T), J("s01_query", 15, 6, T), J("n09_changes", 2, 4, T), J("r04_exhausted", 15, 4, T), J("n12_states", 20, 4, T), J("s05_kept", 8, 4, T), J("s05_burst", 15, 2, T), J("s02_events", 12, 4, T), J("s03_limit", 10, 4, T), J("s04_refs", 15, 4, T), J("s04_own", 15, 4, T), J("s04_late", 15, 4, T), J("r03_web", 20, 8, T), J("r03_server", 10, 4, T), J("r01_cycles", 30, 4, T), J("n09_timers", 1, 2, T)],
     [J("r02_mix", 60, 64, T), J("n01_stream", 40, 32, T), J("n02_split", 60, 8, T), J("n04_ids", 40, 8, T), J("n05_dispatch", 150, 16, T), J("n05_server", 40, 16, T), J("n06_consumers", 60, 16, T), J("n06_races", 60, 16, T), J("n06_waits", 6, 8, T), J("n06_server", 60, 16, T), J("n07_drain", 60, 16, T), J("n07_both", 60, 16, T), J("n08_end", 400, 16, T), J("n08_both", 80, 16, T), J("n10_sessions", 150, 16, T), J("n13_settings", 60, 16, T), J("n13_server", 100, 8, T), J("s05_independent", 150, 16, T), J("n10_server", 60, 16, T), J("n11_connect", 300, 16, T), J("n11_race", 200, 16, T), J("n12_zero", 60, 8, T), J("n12_states", 200, 8, T), J("s01_cycles", 150, 16, T), J("s01_query", 100, 16, T), J("n09_changes", 10, 8, T), J("r04_exhausted", 60, 16, T), J("s05_kept", 60, 16, T), J("s05_burst", 100, 8, T), J("s02_events", 100, 16, T), J("s03_limit", 60, 16, T), J("s03_crowd", 20, 16, T), J("s04_refs", 100, 16, T), J("s04_own", 150, 16, T), J("s04_late", 100, 16, T), J("r03_web", 150, 32, T), J("r03_server", 60, 32, T), J("r01_cycles", 200, 16, T), J("r01_growth", 6, 8, T), J("r04_short", 10, 8, T), J("r04_signals", 4, 8, T), J("n09_timers", 2, 8, T)],
     races=True, only=r"tsan:(?!lock-order)", limit=300)
prop("R03", ALL, "One evaluation = one world of connections whose handlers, server handlers and threads push to, query and end each other's and their own connections, all tokens having to arrive and everything having to be usable and endable afterwards; or one pair sending requests larger than the socket buffers at each other; a call or exchange without progress is a violation. ThreadSanitizer runs add a lock-order monitor. Distinct by scenario, seed and progress made.",
     [J("r03_web", 100, 16), J("r03_big", 12, 16), J("r03_server", 60, 8), J("n12_zero", 80, 6), J("r03_web", 15, 6, T, deadlocks=True), J("r03_server", 10, 4, T, deadlocks=True), J("r02_mix", 6, 4, T, deadlocks=True)],
     [J("r03_web", 500, 64), J("r03_big", 60, 48), J("r03_server", 300, 32), J("n12_zero", 400, 16), J("r03_web", 150, 32, T, deadlocks=True), J("r03_server", 60, 16, T, deadlocks=True), J("r02_mix", 30, 16, T, deadlocks=True), J("s04_refs", 60, 8, T, deadlocks=True), J("n08_end", 200, 8, T, deadlocks=True), J("s01_cycles", 60, 8, T, deadlocks=True)],
     races=True, only=r"r0[23]:|hang|tsan:lock-order", own=())
prop("R04", ALL, "One evaluation = one exchange, wait, accept or end while signals without SA_RESTART hit every thread, or while the system call layer returns EINTR, EAGAIN, short counts or accept errors, with everything exchanged compared with what was sent and every wait timed. Distinct by scenario, seed and error.",
     [J("r04_signals", 12, 12), J("r04_accept", 60, 12), J("r04_short", 40, 12), J("r04_exhausted", 40, 8)],
     [J("r04_signals", 60, 48), J("r04_accept", 400, 48), J("r04_short", 300, 48), J("r04_exhausted", 300, 48)])

V = "vg"
prop("R05", ALL, "One evaluation = one workload case (values, hostile decoding, copies, streams, ends, sessions, settings, servers, references, faults) executed under memcheck, which follows every uninitialised bit from allocation to the branches, addresses and system calls (sent bytes among them) that depend on it; distinct by case.",
     [J("r05_fresh", 40, 4), J("r05_fresh", 8, 2, V), J("c01_roundtrip", 10, 4, V), J("c02_socket", 6, 2, V), J("c03_hostile", 300, 4, V), J("c05_values", 8, 2, V), J("c05_requests", 8, 2, V), J("c06_request", 6, 2, V), J("c06_values", 6, 2, V), J("c07_print", 15, 2, V), J("n01_stream", 6, 4, V), J("n02_split", 15, 2, V), J("n03_stream", 40, 2, V), J("n05_dispatch", 10, 2, V), J("n06_after", 10, 2, V), J("n07_drain", 4, 2, V), J("n08_end", 40, 4, V), J("n10_sessions", 10, 4, V), J("n10_server", 6, 2, V), J("n11_connect", 30, 2, V), J("n12_states", 8, 2, V), J("n13_settings", 5, 2, V), J("n13_server", 5, 2, V), J("s01_cycles", 10, 4, V), J("s01_query", 10, 2, V), J("s02_events", 8, 2, V), J("s02_unset", 8, 2, V), J("s03_limit", 6, 2, V), J("s04_refs", 5, 2, V), J("s04_own", 8, 2, V), J("s05_independent", 4, 2, V), J("r01_cycles", 10, 4, V), J("r04_short", 3, 2, V), J("r04_exhausted", 5, 2, V)],
     [J("r05_fresh", 400, 16), J("r05_fresh", 80, 8, V), J("c01_roundtrip", 60, 16, V), J("c02_layout", 20, 8, V), J("c02_socket", 40, 8, V), J("c03_hostile", 3000, 16, V), J("c04_reject", 4, 8, V), J("c05_values", 60, 8, V), J("c05_requests", 60, 8, V), J("c05_push", 30, 8, V), J("c06_request", 40, 8, V), J("c06_values", 40, 8, V), J("c07_print", 100, 8, V), J("n01_stream", 40, 16, V), J("n02_split", 100, 8, V), J("n03_stream", 300, 16, V), J("n03_server", 10, 8, V), J("n04_ids", 30, 8, V), J("n05_dispatch", 80, 8, V), J("n05_server", 20, 8, V), J("n06_after", 80, 8, V), J("n06_consumers", 20, 8, V), J("n07_drain", 30, 16, V), J("n08_end", 300, 16, V), J("n08_both", 30, 8, V), J("n10_sessions", 80, 16, V), J("n10_server", 50, 8, V), J("n11_connect", 200, 8, V), J("n12_states", 60, 8, V), J("n13_settings", 40, 16, V), J("n13_server", 50, 8, V), J("s01_cycles", 80, 16, V), J("s01_query", 60, 8, V), J("s02_events", 60, 8, V), J("s02_unset", 60, 8, V), J("s03_limit", 50, 8, V), J("s04_refs", 30, 8, V), J("s04_own", 60, 8, V), J("s05_independent", 40, 8, V), J("r01_cycles", 80, 16, V), J("r04_short", 20, 8, V), J("r04_exhausted", 40, 8, V)],
     only=r"vg:|r05:")
