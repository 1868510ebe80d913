#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate)."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

VALS = ["values/*.cpp", "Value.cpp", "Datum.cpp", "Request.cpp"]

# ---------------------------------------------------------------- codec
p("C01", "Encoding then decoding reproduces the data",
  "Serializing any value, datum or request and deserializing the bytes yields an equal object: same type, name, request ID, content, argument order and nesting. "
  "The buffer produced has exactly the announced size, and decoding reports exactly that many bytes used, whatever bytes follow in the buffer.",
  ["inputs"], "all values (integers of all widths, byte strings with any bytes and any length, raw undefined data, arrays of any nesting), datum/request names up to 65535 bytes, requests with any number of arguments, total size below 4 GiB; followed by any trailing bytes",
  "DatumTest* round-trips one constant per type; boundaries, arrays, strings with NUL, nesting, raw data and trailing bytes are never exercised",
  VALS, [("Serialize/Deserialize/GetSize", "Value.cpp, Datum.cpp, Request.cpp"), ("SerializeInternal/DeserializeInternal", "values/*.cpp")],
  observe=["Value/Datum/Request Serialize, GetSize, Deserialize and getters"])
p("C02", "Encoded bytes follow the Dowow wire layout",
  "The bytes produced for a request are exactly the protocol's layout: little-endian total size, ID, 16-bit name length and name, then each argument as size, name length, name, type code, content length and content, recursively for arrays. "
  "An endpoint of any other build or byte order that implements that layout can therefore read them, and bytes it produces are read here as the same data.",
  ["inputs"], "all requests and values as in C01, in both directions (encode here/decode by an independent implementation and vice versa)",
  "all tests decode with the same code that encoded, so a layout change made on both sides passes",
  VALS + ["ValueType.hpp"], [("header and content layout", "Value.cpp Serialize, Datum.cpp Serialize, Request.cpp Serialize"), ("type codes", "ValueType.hpp")],
  observe=["buffers returned by Serialize", "bytes on the socket"])
p("C03", "Decoding arbitrary bytes is memory safe and bounded",
  "Deserializing any byte buffer as a value, datum or request never reads or writes outside the buffer or the library's own storage, never has undefined behaviour, crashes, throws, leaks or hangs, and allocates memory at most proportional to the buffer. "
  "Whatever it returns, the object can afterwards be inspected, printed, copied, re-encoded, decoded into again and destroyed safely.",
  ["inputs"], "all byte strings of any length up to the default request limit and beyond (array nesting up to what fits the default request limit), passed with their exact length",
  "tests decode only well-formed data in a large zero-filled buffer",
  VALS, [("length checks in Deserialize", "Value.cpp, Datum.cpp, Request.cpp"), ("content checks", "values/ValueArr.cpp, ValueStr.cpp, ValueUndefined.cpp, Value*.cpp")],
  observe=["AddressSanitizer/UBSan/LeakSanitizer reports", "allocation sizes"])
p("C04", "Malformed encodings are rejected, accepted ones are consistent",
  "Decoding a value, datum or request from a truncated encoding, or from one whose declared total, name or content lengths exceed what encloses them, reports failure (0), as does a value of a known type whose content length is not what its content needs; decoding never reports more bytes than it was given. "
  "A request decoded from bytes with a malformed argument contains exactly the arguments before it, and any accepted decoding re-encodes to bytes that decode to the same data.",
  ["inputs"], "all byte strings and all prefixes, mutations and splices of valid encodings (unknown type codes and bytes between the end of a value and the end of its datum are unspecified: only safety and consistency are required)",
  "no test decodes a malformed or truncated buffer",
  VALS, [("rejections", "Value.cpp Deserialize, Datum.cpp Deserialize, Request.cpp Deserialize, values/ValueArr.cpp, values/ValueStr.cpp")],
  observe=["return value of Deserialize", "decoded content"])
p("C05", "Copies are deep, equal and independent; ownership is exact",
  "Copying a value, datum or request (explicitly, by storing a value with copying, by emplacing, by array insertion, or by copy construction/assignment where offered) produces an equal object that stays unaffected by later changes to or destruction of the original, and vice versa, even when the source is (part of) the destination. "
  "Values handed over without copying are owned by the receiver, and every object is freed exactly once.",
  ["inputs", "histories"], "all sequences of copy, store, hand-over, mutate and destroy operations over values, arrays, datums and requests, including self- and alias-assignments",
  "tests copy only requests with one integer argument and never mutate either side afterwards",
  ["Request.cpp", "Request.hpp", "Datum.cpp", "Value.hpp", "values/ValueArr.cpp", "values/ValueStr.cpp", "values/ValueUndefined.cpp"],
  [("CopyFrom", "values/*.cpp, Request.cpp"), ("SetValue/Set/Push/Emplace", "Datum.cpp, Request.cpp, Request.hpp, ValueArr.cpp")],
  observe=["getters of both objects", "ASan/LSan reports"])
p("C06", "Requests and arrays behave as their documented containers",
  "A request behaves as an insertion-ordered map from argument names to values: setting replaces in place or appends, setting to null removes, getting returns the stored value, null if absent, or null if a different type is asked for. "
  "An array behaves as a sequence: indexed get/set reject out-of-range indexes without effect, push appends a copy, New gives the requested number of undefined elements, Clear empties it; integer and string setters and getters return exactly what was stored.",
  ["histories", "inputs"], "all sequences of operations on requests and arrays, all names, indexes and values",
  "tests set one or two arguments once and never overwrite, remove, index out of range or mix types",
  ["Request.cpp", "Request.hpp", "Datum.cpp", "values/ValueArr.cpp", "values/*.cpp"],
  [("Request::Set/Get", "Request.cpp"), ("ValueArr::Get/Set/Push/New/Clear", "values/ValueArr.cpp")],
  observe=["getters after every operation"])
p("C07", "Printing shows all of the data and changes nothing",
  "The text made of a value or request shows all of it in order: the request's name and every argument's name, every integer's exact decimal value, every string's length and content (its line breaks re-indented evenly), every array's size and each element under its index, indented at least as asked. "
  "Equal objects print equally, whether built, copied or decoded, and printing changes neither the object nor its encoding.",
  ["inputs"], "all values and requests as in C01, nested to any depth that fits the 16-bit indentation, all indentations",
  "tests print one request to the terminal and nobody looks",
  VALS, [("ToString/ToStringInternal", "Value.cpp, Request.cpp, values/*.cpp")],
  observe=["ToString() of values and requests, encodings before and after"])

# ---------------------------------------------------------------- connection
p("N01", "Pushed requests arrive intact, in order, exactly once",
  "Every request accepted by a push on a live connection is delivered at the other endpoint exactly once with its name, ID and arguments unchanged, as long as both stay connected. "
  "Requests pushed by one thread, or pushed one after the other, arrive in that order, in both directions at once.",
  ["schedules", "inputs", "configurations", "fault_sequences"], "all interleavings of any number of pushing threads on both endpoints, TCP and UNIX sockets, any send/receive block sizes, any request sizes up to the peer's limit, short reads and writes, interrupted system calls",
  "tests push a dozen small requests from one thread at a time with default block sizes",
  ["Connection.cpp", "Connection.hpp", "Request.cpp"],
  [("send queue and send buffer", "Connection.cpp Push, PopSendQueue, Send"), ("receive buffer", "Connection.cpp Receive")],
  state=[("send_queue", "requests not yet sent", "Connection.hpp"), ("recv_queue", "requests not yet pulled", "Connection.hpp")],
  observe=["Push call/return at the sender", "handler calls or Pull results at the receiver"])
p("N02", "Delivery does not depend on how the byte stream is split",
  "The sequence of requests an endpoint delivers depends only on the bytes its peer sends, not on how they are segmented, delayed or coalesced: even one byte at a time, in the middle of a length field, or many requests in one segment. "
  "A well-formed request that is followed by nothing is delivered without waiting for more bytes.",
  ["schedules", "inputs", "fault_sequences"], "all segmentations and pauses of the byte stream, all receive block sizes, short reads",
  "loopback transfers of small requests are never split",
  ["Connection.cpp"], [("length then body reassembly", "Connection.cpp Receive")],
  state=[("recv_buffer_offset", "bytes of the current request received so far", "Connection.hpp")],
  observe=["bytes written by a raw peer", "handler calls or Pull results"])
p("N03", "A hostile peer can only harm its own connection",
  "No byte stream from a peer can crash the process, corrupt memory or disturb other connections; a malformed request is dropped or its connection closed. "
  "A request larger than the configured maximum is never delivered and its connection is closed, while requests up to and including the maximum are delivered, and requests well-formed before the offending bytes are still delivered.",
  ["inputs", "histories", "fault_sequences"], "all byte streams, disconnections and resets at any byte, any configured maximum, alongside honest connections",
  "tests only ever connect well-behaved peers",
  ["Connection.cpp", "Request.cpp", "Datum.cpp", "Value.cpp", "Server.cpp"],
  [("size check and frame allocation", "Connection.cpp Receive"), ("decoder checks", "Request.cpp, Datum.cpp, Value.cpp, values/*")],
  observe=["ASan reports", "raw peer sees close", "honest connections' request/response exchange"])
p("N04", "Automatically assigned request IDs never collide",
  "Within one connection session, IDs assigned automatically by an endpoint are pairwise distinct and increase in sending order, and the two endpoints draw from disjoint halves, so a request of one side never carries the same ID as one of the other. "
  "When the caller asks to keep the ID, it is transmitted unchanged; each new session starts numbering afresh from the same first ID.",
  ["schedules", "histories"], "all interleavings of pushing threads on both endpoints, mixed with ID-keeping pushes, over any number of reconnections",
  "no test looks at request IDs",
  ["Connection.cpp", "Client.cpp"], [("ID allocation", "Connection.cpp Push, SetEvenRequestIdsPart, InitializeByFD"), ("half assignment", "Client.cpp TcpThreadFunc/UnixThreadFunc, Connection.cpp Connection(int)")],
  state=[("free_request_id", "next ID to assign", "Connection.hpp")],
  observe=["IDs on the wire and in received requests"])
p("N05", "Each received request reaches exactly one destination",
  "Every received request is given exactly once to the handler registered for its name, otherwise to the default handler, otherwise it is put in the pull queue; keep-alive messages reach none of them. "
  "Requests are dispatched one at a time in arrival order, removal and replacement of handlers take effect for later requests, and handlers installed by a server's connected-handler apply to everything that client sends.",
  ["histories", "schedules"], "all mixtures of registered, unregistered and replaced handlers and request names, from any thread or from handlers themselves",
  "tests use a fixed set of handlers, all names registered, nothing pulled",
  ["Connection.cpp", "Server.cpp"], [("dispatch", "Connection.cpp PassThroughHandlers, Receive"), ("registration", "Connection.cpp SetHandlerNamed, SetHandlerDefault")],
  observe=["handler invocations and Pull results"])
p("N06", "Pull hands out each queued request once and waits as documented",
  "Pull returns queued requests in arrival order, each to exactly one caller; with an empty queue and zero timeout it returns null at once, with a positive timeout not before that many seconds have passed unless a request arrives or the connection ends, and with a negative one only then. "
  "A waiting pull is woken by the next arrival and by disconnection, and what was received before a disconnection remains available afterwards.",
  ["schedules", "histories"], "all interleavings of arrivals, disconnections and pulls by several threads, at most one of them waiting (a second waiter may return null early)",
  "no test calls Pull at all",
  ["Connection.cpp"], [("wait and wake-up", "Connection.cpp Pull, Receive, ConnThreadFunc")],
  state=[("receive_event", "event a waiting Pull sleeps on", "Connection.hpp")],
  observe=["Pull call/return with times", "peer sends"])
p("N07", "Graceful disconnection flushes everything, then ends",
  "After a non-forced disconnect, every request accepted by an earlier push is still delivered, in order, to a connected peer that keeps reading (whether or not it also sends), nothing pushed later is sent, and the connection then ends by itself in bounded time even if nothing was left to send. "
  "Waiters and the stop event are signalled only once the connection is really down, and calls made meanwhile do no harm.",
  ["schedules", "histories", "configurations"], "all queue contents and sizes, block sizes, threads pushing concurrently with the disconnect, disconnects from handlers and other threads, slow readers",
  "the one graceful test disconnects with exactly one small request pending",
  ["Connection.cpp"], [("graceful disconnect", "Connection.cpp Disconnect, Send, ConnThreadFunc")],
  state=[("is_disconnecting", "drain in progress", "Connection.hpp")],
  observe=["bytes and EOF at the peer", "IsConnected/IsDisconnecting/WaitForStop"])
p("N08", "Forced disconnection and peer loss always end the connection cleanly",
  "A forced disconnect (or destroying the connection, or the peer closing or resetting at any moment) ends the connection in bounded time no matter what is queued, half-sent, half-received or whether the peer reads; repeated and concurrent disconnects are harmless. "
  "Afterwards it reports not connected, waiting for stop returns at once, and pushes are refused without side effects.",
  ["schedules", "histories", "crash_points", "fault_sequences"], "all moments of disconnection relative to traffic and handlers, all combinations of callers, unresponsive and vanishing peers",
  "the forced tests disconnect an idle connection from the only thread",
  ["Connection.cpp"], [("stop event and cleanup", "Connection.cpp Disconnect, ConnThreadFunc, ~Connection")],
  observe=["return of Disconnect/WaitForStop/destructor", "IsConnected, Push afterwards", "EOF at the peer"])
p("N09", "Idle connections stay alive, silent peers are dropped",
  "While connected and not occupied by one of its own request handlers, an endpoint lets no longer than its keep-alive interval pass without sending something, so idle connections between live endpoints stay up indefinitely. "
  "A peer from which no byte arrives for the configured limit is disconnected, and one that sends anything at all within every such period, however slowly, is not. Intervals may be changed at any moment and as often as one likes without postponing either.",
  ["histories", "configurations"], "all traffic patterns (idle, one-way, dripping) and interval settings, changed before or during the connection",
  "tests last a few seconds with the 10 s/60 s defaults, so no timer ever fires",
  ["Connection.cpp", "Utils.cpp"], [("timers", "Connection.cpp ConnThreadFunc, Receive, Send, SetOurSaInterval, SetTheirNaIntervalLimit; Utils.cpp SetTimerFdTimeout")],
  state=[("our_sa_interval", "keep-alive interval", "Connection.hpp"), ("their_na_interval", "silence limit", "Connection.hpp")],
  observe=["frame times at a raw peer", "time of disconnection"])
p("N10", "A reconnected client starts from a clean session",
  "A client can connect, be disconnected by any cause and connect again any number of times, and each session behaves as the first: nothing queued, half-sent, half-received or undelivered in an earlier session shows up in a later one, and stop events, timers and IDs start afresh. "
  "Settings and handlers made by the user persist.",
  ["histories", "crash_points"], "all sequences of connects, traffic and disconnections (graceful, forced, by peer, mid-request), over TCP and UNIX sockets in any mixture",
  "the tests reconnect only after clean idle disconnections",
  ["Connection.cpp", "Client.cpp"], [("session setup and cleanup", "Connection.cpp InitializeByFD, end of ConnThreadFunc")],
  observe=["first bytes on each new session", "Pull/handlers in each session"])
p("N11", "Connecting reports the truth and never wedges",
  "ConnectTcp and ConnectUnix return true exactly when the client is then connected to a listening endpoint, and false otherwise: refused, invalid or over-long address, already connected or connecting, or no answer within the given timeout. "
  "A failed attempt leaves the client usable for another attempt and leaks nothing; of attempts that several threads make at once, at most one succeeds, and none disturbs another or the connection it makes.",
  ["inputs", "fault_sequences"], "all addresses and paths of any length, listening/refusing/unresponsive endpoints, all positive timeouts, any number of attempts, one after the other or from several threads at once",
  "tests only connect to a listening server",
  ["Client.cpp"], [("connecting thread", "Client.cpp TcpThreadFunc, UnixThreadFunc, ConnectTcp, ConnectUnix")],
  observe=["return value, IsConnected, descriptors and memory"])
p("N12", "A push that waits returns the response or null when it must",
  "A push with a nonzero timeout returns the peer's request bearing the same ID as the response, if it arrives in time, and otherwise null only once the timeout (if positive) has passed or the connection has ended. "
  "A push with zero timeout returns null immediately.",
  ["schedules", "histories"], "all timeouts, response times, interleavings with other traffic and disconnections",
  "no test passes a timeout to Push",
  ["Connection.cpp", "README.md"], [("Push", "Connection.cpp Push")],
  observe=["Push call/return with times and IDs"])

p("N13", "Settings are what was set, take effect and disturb nothing",
  "Block sizes, maximum request size, intervals, handlers and session data of a connection, and the limit and handlers of a server, are reported as last set (raised to the documented minimum: 1 byte, 10 bytes, 1 second), apply from then on (never more than a block is sent or received at a time, a later request is judged by the current maximum), and survive reconnects and restarts. "
  "Changing them at any moment, in any state and in the middle of transfers, neither loses, changes nor reorders requests nor ends the connection, except by the limits set.",
  ["histories", "schedules", "configurations"], "all values of all settings, set by any thread before, during, between and after sessions",
  "tests set few settings once, before any traffic",
  ["Connection.cpp", "Connection.hpp", "Server.cpp", "Server.hpp"], [("setters and getters", "Connection.cpp, Server.cpp"), ("their use", "Connection.cpp Receive, Send; Server.cpp MayAccept")],
  observe=["getters, delivered requests, sizes passed to the send and receive system calls"])

# ---------------------------------------------------------------- server
p("S01", "A server can be started, stopped and restarted reliably",
  "Starting succeeds exactly when the address can be listened on and the server is not running; stopping, waiting for stop or destroying it returns only after every connection is closed, the address is released and (for UNIX) the socket file removed, after which it can be started again with the same guarantees. "
  "Its reported type and address match what it is doing, also for threads that ask while it is being started, and stop requests from any thread, including request handlers, are honoured.",
  ["schedules", "histories"], "all sequences and interleavings of start, stop, wait, destroy and client activity, TCP and UNIX, with zero or many live connections",
  "the tests start one TCP server once and stop it once from a handler",
  ["Server.cpp", "Server.hpp"], [("server thread and stop event", "Server.cpp ServerThreadFunc, StartTcp, StartUnix, Stop, WaitForStop, ~Server")],
  state=[("socket_type", "running or not", "Server.hpp"), ("stopped_event", "signals the end", "Server.hpp")],
  observe=["return values", "connect attempts and EOF at clients", "file existence"])
p("S02", "The server announces, identifies and finds every connection",
  "For each accepted client the connected-handler runs exactly once, and after that connection ends while the server runs the disconnected-handler runs exactly once for the same connection, which is only then destroyed; unset handlers are simply not called. "
  "Connections get distinct IDs that never change, known from the connected-handler on, and looking one up by its ID or tag finds exactly that live connection or reports none.",
  ["schedules", "histories"], "all interleavings of clients connecting, being disconnected by either side, and lookups from any thread",
  "tests have one client at a time, both handlers set, and never look a connection up",
  ["Server.cpp", "Server.hpp"], [("accept and removal", "Server.cpp ServerThreadFunc, AcceptOne"), ("lookup", "Server.cpp GetConnection")],
  state=[("connections", "accepted connections", "Server.hpp")],
  observe=["handler invocations, IDs, GetConnection results"])
p("S03", "The connection limit holds and freed places are reused",
  "At no time does a server have more accepted connections than its maximum (negative meaning unlimited); further clients wait unaccepted and undisturbed. "
  "When a connection ends or the maximum is raised, waiting clients are accepted, in full up to the limit.",
  ["schedules", "histories", "configurations"], "all limits and limit changes, all arrival and departure orders",
  "the tests set a limit of 5 and connect one client",
  ["Server.cpp"], [("accept gating", "Server.cpp ServerThreadFunc, SetMaxConnections")],
  observe=["connected/disconnected handler counts", "traffic on waiting clients"])
p("S05", "Clients of a server are served independently",
  "Whatever some clients do (not reading what is sent to them, sending half a request, flooding, occupying their request handler, leaving a graceful disconnection unfinished) and whoever keeps references to connections, ended ones included, or waits in a pull, "
  "all other clients are accepted, greeted, served, found and, when they leave, announced and torn down in bounded time.",
  ["schedules", "histories"], "all numbers and combinations of stuck clients and held references, in any order, with other clients coming and going (connected and disconnected handlers themselves return)",
  "tests have one well-behaved client at a time",
  ["Server.cpp", "Connection.cpp"], [("server loop and one thread per connection", "Server.cpp ServerThreadFunc; Connection.cpp ConnThreadFunc, Send, Receive")],
  observe=["time until probe clients are accepted, answered, announced as gone"])
p("S04", "A held connection reference keeps the connection usable",
  "While at least one safe reference obtained from the server (or made by the user) is held, the connection object stays valid: calls on it neither crash nor block forever, even if the peer disconnects, the server stops, or other references come and go. "
  "Once the last reference is released, a connection that has ended is torn down in bounded time.",
  ["schedules", "histories"], "all interleavings of taking and releasing any number of references with pushes, disconnections and server stop",
  "no test takes a reference",
  ["SafeConnection.hpp", "Server.cpp", "Connection.cpp"], [("reference counting and deferred teardown", "Connection.cpp IncreaseRefs/DecreaseRefs, ConnThreadFunc, ~Connection; Server.cpp GetConnection")],
  state=[("refs_amount", "references held", "Connection.hpp"), ("not_needed_event", "last release", "Connection.hpp")],
  observe=["ASan reports, calls through the reference, disconnected-handler after release"])

# ---------------------------------------------------------------- cross-cutting
p("R01", "Descriptors, threads and memory are conserved",
  "When connections have ended and their objects are destroyed and servers stopped, the process holds exactly the descriptors, threads and memory it held before. "
  "The library never uses or closes a descriptor it has already closed or does not own, in any operation before, during or after a connection.",
  ["histories", "schedules", "crash_points"], "all connection and server life cycles, including failed connects, forced disconnects with traffic pending, setter calls at any time, undelivered requests",
  "tests never count resources, and descriptor reuse faults are silent",
  ["Connection.cpp", "Client.cpp", "Server.cpp"], [("cleanup", "Connection.cpp ConnThreadFunc end, ~Connection; Server.cpp ServerThreadFunc end, ~Server; Client.cpp")],
  observe=["/proc/self/fd, /proc/self/task, LeakSanitizer", "descriptor-tracking system-call wrappers"])
p("R02", "Concurrent use of the API is free of data races",
  "Connecting, pushing, pulling, disconnecting, querying state and addresses, changing settings, handlers and session data, taking references and looking up connections may be done from any threads at once, including handlers, while the connection's and server's own threads work, without any data race.",
  ["schedules"], "all interleavings of those operations (plain public fields are excluded: a tag is set in the connected-handler only)",
  "races are invisible to tests that check results of one schedule",
  ["Connection.cpp", "Connection.hpp", "Server.cpp", "Server.hpp", "Client.cpp", "SafeConnection.hpp"], [("mutexes and atomics", "Connection.hpp, Server.hpp, Client.hpp")],
  observe=["ThreadSanitizer reports"])
p("R03", "No combination of calls between connections deadlocks",
  "Any number of threads and request handlers that push to, query and (without waiting) disconnect any connections, including each other's and their own, always make progress; so does a pair of endpoints that both send large requests at once whatever the block sizes.",
  ["schedules", "configurations"], "all interleavings of handlers of several connections pushing to each other, bulk transfers in both directions, and server lookups and stops",
  "tests have one connection whose handler pushes only to itself",
  ["Connection.cpp", "Server.cpp"], [("lock scopes", "Connection.cpp ConnThreadFunc, Push, Disconnect, Send; Server.cpp")],
  observe=["completion of every operation under a watchdog", "lock-order reports"])
p("R04", "Interrupted and failing system calls do not break service",
  "Signals that interrupt system calls, short reads and writes, temporary failures to accept a client and a temporary lack of descriptors neither stop a server, end an established connection, lose or corrupt requests, block a call, nor make a wait return early. "
  "Service continues normally once the disturbance is over; what could not be made meanwhile (a client, server or connection) is reported as failed or ended, and leaves nothing behind.",
  ["fault_sequences", "schedules"], "all placements of interruptions, short transfers, accept failures and refused descriptors in the library's system calls",
  "tests never deliver a signal or provoke a system-call failure",
  ["Connection.cpp", "Server.cpp", "Utils.cpp", "Client.cpp"], [("poll/recv/send/accept result handling", "Connection.cpp ConnThreadFunc, Receive, Send; Server.cpp ServerThreadFunc, AcceptOne; Utils.cpp SelectRead/ReadEventFd")],
  observe=["service under injected faults", "return values of waits"])

p("R05", "No outcome depends on uninitialised memory",
  "What the library decides, reports to its user, hands to the system or sends to a peer is never computed from memory that was not initialised: in objects just made and not yet used, after failed operations and failed decoding, in buffers only partly filled, in copies and in later sessions. "
  "What an object reports, prints or encodes is therefore the same whatever its memory held before, and nothing of the process's memory reaches a peer.",
  ["inputs", "histories"], "all previous contents of memory, for every object and every history of operations on it",
  "a test passes whenever the memory happens to hold a harmless value, which fresh memory usually does",
  ["Connection.hpp", "Server.hpp", "Client.hpp", "Connection.cpp", "Server.cpp", "Request.cpp", "Datum.cpp", "values"],
  [("members and buffers", "Connection.hpp, Server.hpp, Client.hpp (members); Connection.cpp Receive/Send; */Serialize, DeserializeInternal, CopyFrom")],
  observe=["what getters report", "bytes sent", "memcheck's definedness of every branch, address and system-call argument"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
