"""Writes /verif/properties.jsonl (one place for the prose)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=()):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if obs:
        a["observe_at"] = list(obs)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

MC = "src/memcache/memcache.cpp"; SK = "src/memcache/sockets.cpp"; OB = "src/memcache/object.cpp"
p("C01", "Text requests are framed and decoded exactly",
  "Decoding any received bytes as a text-protocol request never reads outside them and never claims more bytes than were received. A request is taken only when it has wholly arrived, takes exactly its own line (and data block), and the command, key, flags, expiration time, data, CAS value, numbers and noreply it yields are exactly those written in it. A malformed request is reported as an error and never as a valid command.",
  ["inputs"], "every byte buffer of any length, every request of the text grammar",
  "The parser tests feed a few dozen literal requests; the guarantee is about every buffer, including truncated, over-long and numerically extreme ones.",
  ["src/memcache/memcache.cpp", "src/memcache/memcache.hpp"],
  [("text_request::parse and per-command parsers", MC), ("to_uint / cmd_* tokenisers", MC)])
p("C02", "Binary requests are framed, validated and decoded exactly",
  "Decoding any received bytes as a binary-protocol request never reads outside them; a request is taken only when its header and whole body have arrived and takes exactly the header plus the body length it announces. The opcode, key, flags, expiration, initial value, delta, CAS and data it yields are exactly the corresponding bytes of the request. A request whose lengths are inconsistent with its opcode, whose key exceeds 250 bytes or whose data is over the size limit is reported as an error and never executed.",
  ["inputs"], "every byte buffer of any length, all 256 opcodes and all length fields",
  "Tests send a handful of well-formed packets per opcode; inconsistent length fields and truncation points are a combinatorial space.",
  ["src/memcache/memcache.cpp", "src/memcache/memcache.hpp"],
  [("binary_request::parse", MC), ("binary_exptime", MC)])
p("C03", "Storage and delete commands take effect exactly when their condition holds",
  "Set stores unconditionally, add only when no live object has the key, replace, append and prepend only when one has, and a request carrying a CAS value only when the live object's CAS value equals it; delete removes the object when it exists and the CAS value (if any) matches. When the condition fails nothing is changed and the documented failure is reported; when it holds the new value, flags and expiration are exactly those of the request and success is reported. This holds for both protocols.",
  ["inputs", "histories"], "every request, every prior state of the key (absent, live, expired, locked by this or another client, any CAS)",
  "The integration tests walk one history per command; the decision table over key state x command x CAS x protocol is not enumerated.",
  ["src/memcache/sockets.cpp"],
  [("memcache_socket::cmd_bin / cmd_text handlers", SK)], [], ["responses on the wire", "subsequent get"])
p("C04", "A lock excludes other clients and is released exactly by its owner",
  "While a client holds the lock of an object, every storing, deleting, incrementing, decrementing or locking command of any other client on it fails and changes nothing, while retrievals still succeed; the owner may modify it. Only the owner's unlock, replace-and-unlock, delete, unlock-all, quit or disconnection ends the lock, and unlock-all, quit and disconnection release every lock the client holds and no other.",
  ["inputs", "histories"], "every command of both protocols, every lock owner, every set of locks held by the connection",
  "Tests lock one or two objects from two clients; the claim ranges over every command and every lock set, including lock lists of any length.",
  ["src/memcache/sockets.cpp", "src/memcache/sockets.hpp", "src/memcache/object.hpp"],
  [("object::lock/unlock/locked_by_*", "src/memcache/object.hpp"), ("memcache_socket::add_lock/remove_lock/unlock_all", "src/memcache/sockets.hpp"), ("cmd_bin / cmd_text lock checks", SK)])
p("C05", "Expired objects are invisible and expiration times are applied exactly",
  "An object whose expiration time has come, or that a due flush covers, is never returned, touched, locked, appended to or counted by any command and behaves as if absent, unless it is locked. An object not expired stays visible, and get-and-touch, touch and storage set its expiration to the requested time: never for 0, relative to now up to 30 days, absolute beyond.",
  ["inputs", "histories"], "every command, every expiration time, flush time and current time",
  "Tests sleep for a second or two around one expiration; boundaries of time arithmetic and the full command set are not covered.",
  ["src/memcache/object.hpp", "src/memcache/memcache.cpp", "src/memcache/sockets.cpp"],
  [("object::expired/touch", "src/memcache/object.hpp"), ("binary_exptime and text exptime parsing", MC), ("expired() checks in every handler", SK)])
p("C06", "Increment and decrement are exact 64-bit decimal arithmetic",
  "Incrementing an object holding a decimal number replaces it by the sum modulo 2^64 and decrementing by the difference floored at zero, both stored and reported in plain decimal, with flags and expiration untouched; an object that does not hold a decimal number is left unchanged and the error is reported. With an initial value and a creating expiration, an absent key is created holding exactly the initial value.",
  ["inputs"], "all 2^64 values and deltas, every object content, both protocols",
  "Tests try a few small numbers; wrap-around, saturation and malformed content are a value-domain claim.",
  ["src/memcache/object.cpp", "src/memcache/sockets.cpp"],
  [("object::incr/decr", OB), ("to_uint64", OB), ("Increment/Decrement handlers", SK)])
p("C07", "An object holds exactly the bytes last stored, in memory or in a file",
  "After storing, appending to or prepending to an object of any size, reading it yields exactly the resulting byte string, its reported size is that length, and its flags and expiration are as set. This holds below, at and above the size where data moves to a temporary file, in every order of operations, and each modification changes the CAS value by exactly one step.",
  ["inputs", "histories"], "all data, lengths and heap limits, all sequences of set, append, prepend, incr, decr and read",
  "Object tests use fixed small strings around one limit; the representation switch must be right for every length and operation order.",
  ["src/memcache/object.cpp", "src/memcache/object.hpp", "src/tempfile.cpp"],
  [("object constructors, set, append, prepend, data, size", OB)],
  [("m_length", "number of data bytes", "src/memcache/object.hpp"), ("m_file", "non-null iff the data is longer than the heap limit", "src/memcache/object.hpp")])
p("C08", "With secure erase on, object data is overwritten before its memory is freed",
  "When secure erase is enabled, every heap block in which an object keeps its data, or builds new data from it, is overwritten with zeros over all the bytes that held data before it is returned to the allocator, and bytes dropped from a buffer that stays allocated are overwritten too. (Network buffers and temporary files are outside this promise.) This holds on every operation that stores, grows, shrinks, moves or destroys an object's data.",
  ["inputs", "histories"], "all buffer operations, lengths and capacities",
  "No test inspects freed memory; the claim is about every release path.",
  ["cybozu/dynbuf.hpp", "src/memcache/object.cpp", "cybozu/util.cpp"],
  [("dynbuf::reset/erase/enlarge/~dynbuf", "cybozu/dynbuf.hpp"), ("object::set/append/prepend", OB), ("clear_memory", "cybozu/util.cpp")])
p("C09", "The hash table behaves as a map from keys to objects",
  "A lookup calls the handler on the object whose key has the same length and bytes, and on no other; a missing key creates an object only when a creator is given; removal removes exactly the object with that key and reports whether it was there; iteration and garbage collection visit every object exactly once. No operation disturbs any other key's object, whatever keys share a bucket.",
  ["inputs", "histories"], "every table state (any number of objects in any bucket), every key, every operation",
  "Hash map tests insert a few dozen keys; bucket collisions and chain positions of arbitrary length are not enumerated.",
  ["cybozu/hash_map.hpp", "cybozu/hash_map.cpp"],
  [("hash_map::bucket::apply_nolock/remove_nolock/remove_if/gc/foreach", "cybozu/hash_map.hpp"), ("get_bucket", "cybozu/hash_map.hpp"), ("operator== on hash_key", "cybozu/hash_map.hpp")])
p("C10", "Garbage collection removes exactly the due objects and spares locked ones",
  "A garbage-collection pass removes an unlocked object when a flush is due, when memory is over the limit and the object is at least the eviction age, or when it has expired, and never removes a locked object or any other. Every removal is sent to the slaves, every survivor is sent to newly joined slaves, and the statistics count exactly the survivors.",
  ["inputs", "histories", "configurations"], "every object state, flush time, memory usage, limits and slave lists",
  "No test controls the collector's clock, memory pressure or slave set.",
  ["src/memcache/gc.cpp"], [("gc_thread::gc predicate and eviction age", "src/memcache/gc.cpp")])
p("C11", "A slave decodes replication messages to exactly the master's update",
  "The message a master sends for storing (data up to the request limit of 30 MiB), touching or deleting an object is decoded by a slave into the same key, data, flags and expiration time (times that fit the message's 32-bit field) and applied to its copy; messages cut at any point are applied once they are complete, each exactly once and in order. Data that does not start with the request magic, and messages with other commands, are never applied.",
  ["inputs", "histories"], "every key, data, flags, expiration; every split of the byte stream",
  "Replication is only exercised with live masters and slaves on a few keys; no test covers arbitrary splits, empty values or large values.",
  ["src/memcache/replication.cpp", "src/memcache/memcache.cpp"],
  [("repl_object/repl_touch/repl_delete", "src/memcache/replication.cpp"), ("repl_recv", "src/memcache/replication.cpp")])
p("C12", "Every successful change on the master is replicated with its final state",
  "Whenever a command changes an object's data, flags or expiration, creates it or removes it, and slaves are connected, exactly one replication message for that key is sent to every slave, after the change and carrying the state after it. A command that changes nothing sends none.",
  ["inputs", "histories"], "every command of both protocols, every prior state, every slave list",
  "Checked by no unit test; it needs every mutating path in both protocols and the order of update and message.",
  ["src/memcache/sockets.cpp"], [("repl_object/repl_touch/repl_delete calls in handlers", SK)])
p("C13", "Counter requests are framed, validated and decoded exactly",
  "Decoding any received bytes as a counter-protocol request never reads outside them; a request is taken only when its header and whole body have arrived and takes exactly those bytes. Name, resource count and maximum are exactly those in the body; a body too short for its command, an empty name, or an acquire of zero resources or of more than its maximum is reported as invalid and never executed.",
  ["inputs"], "every byte buffer, all opcodes, all length fields",
  "The tests send well-formed requests only.",
  ["src/counter/counter.cpp", "src/counter/counter.hpp"], [("request::parse and parse_*", "src/counter/counter.cpp")])
p("C14", "A counter never exceeds the requested maximum and never goes negative",
  "Acquiring succeeds exactly when the current consumption plus the requested amount does not exceed the given maximum, in exact arithmetic, and then adds exactly that amount; otherwise nothing changes. Releasing subtracts exactly the amount and fails without change if it exceeds the consumption; the reported maximum consumption is the highest consumption within the current statistics interval.",
  ["inputs", "histories"], "all 32-bit amounts, maxima and consumption values, all clock values and intervals",
  "Tests use numbers of one or two digits; 32-bit overflow and interval boundaries are not sampled.",
  ["src/counter/object.hpp"], [("object::acquire/release/max_consumption", "src/counter/object.hpp")])
p("C15", "Each connection releases exactly what it acquired",
  "For every counter, the amount a connection may release is exactly what it has acquired and not yet released: releasing more is refused without change, and when the connection ends everything it still holds is released, on each counter exactly once. Acquire, release and get answer with the documented status and values.",
  ["inputs", "histories"], "every sequence of acquire and release on every set of names per connection",
  "Integration tests run one short history.",
  ["src/counter/sockets.cpp", "src/counter/sockets.hpp"],
  [("on_acquire/on_release/release_all", "src/counter/sockets.cpp"), ("cmd_acquire/cmd_release", "src/counter/sockets.cpp")],
  [("m_acquired_resources", "per-connection ledger keyed by counter", "src/counter/sockets.hpp")])
p("C16", "Binary responses are well-formed and echo their request",
  "Every binary-protocol response carries the response magic, the request's opcode and opaque, the status, the object's CAS value where applicable, and length fields equal to the extras, key and value that follow; a get response carries exactly the object's flags, key (when asked for) and data. Errors carry the status that occurred.",
  ["inputs"], "all responses, statuses, keys, data lengths, flags, CAS and opaque values",
  "Tests decode responses with a client that ignores several header fields and only sees small values.",
  ["src/memcache/memcache.cpp"], [("binary_response::*", MC)])
p("C17", "Text responses are well-formed and carry exactly the stored data",
  "Every text-protocol response is the documented line; a retrieval line carries the key, flags, exact byte count and (for gets) CAS value in plain decimal, followed by exactly the data and CRLF, and the list is closed by END. Increment and decrement answer the new value in decimal.",
  ["inputs"], "all keys, flags, data, CAS values and numbers",
  "Tests compare a few literal responses.",
  ["src/memcache/memcache.cpp", "src/memcache/memcache.hpp", "src/memcache/sockets.cpp"], [("text_response::*", "src/memcache/memcache.hpp")])
p("C18", "Each request gets exactly one answer, or none when it asked for quiet",
  "Every request is answered by exactly one response (statistics, key listings and multi-key retrievals by one terminated series); a quiet or noreply request that succeeds gets none, and a quiet retrieval or deletion that misses gets none, as documented. Quit answers (unless quiet) and then closes the connection.",
  ["inputs", "histories"], "every command of both protocols, every prior state of the key",
  "Tests check the response of ordinary cases; a duplicated or missing answer in a rare branch desynchronises the client and is not sampled.",
  ["src/memcache/sockets.cpp", "src/counter/sockets.cpp"], [("cmd_bin, cmd_text, execute", SK)])
p("C19", "Bytes sent on a connection arrive complete, in order and never interleaved",
  "Whatever the kernel accepts of each write, the concatenation of bytes handed to the kernel is always a prefix of the concatenation of the messages sent, in the order accepted, with no byte lost, duplicated or reordered, and the rest is kept until it can be written. Data is refused only when the connection is closing, and a sender waits only while buffers are full.",
  ["inputs", "fault_sequences", "histories"], "every message size, every pattern of partial writes, EAGAIN and EINTR, any number of pending buffers",
  "Loopback tests practically never see partial writes or full buffers at chosen offsets.",
  ["cybozu/tcp.cpp", "cybozu/tcp.hpp"], [("tcp_socket::_send/_sendv/write_pending_data", "cybozu/tcp.cpp"), ("can_send/capacity", "cybozu/tcp.hpp")],
  [("m_pending, m_tmpbuf", "accepted and not yet handed to the kernel", "cybozu/tcp.hpp")])
p("C20", "The growable buffer keeps exactly the bytes appended and not yet erased",
  "After any sequence of appending, reserving and filling free space, erasing from the front, swapping, moving and resetting, the buffer contains exactly the bytes appended and not erased, in order, and every access stays inside its allocation, which is freed exactly once. Reserved free space is at least as large as requested.",
  ["inputs", "histories"], "every sequence of operations, sizes and default capacities",
  "The unit test runs one short sequence with fixed sizes.",
  ["cybozu/dynbuf.hpp"], [("dynbuf", "cybozu/dynbuf.hpp")])
p("C21", "Temporary files return exactly what was written despite partial I/O",
  "However the system splits each write and read, appending to a temporary file stores all the bytes at its end, reading returns exactly the contents in order, clearing empties it, and the recorded length always equals the bytes stored. An I/O error is reported, never silently ignored.",
  ["inputs", "fault_sequences"], "all data, all partial write and read lengths, all errors",
  "Real files in tests never return short writes or reads.",
  ["src/tempfile.cpp", "src/tempfile.hpp"], [("tempfile::write/clear/read_contents", "src/tempfile.cpp")])
p("C22", "Pipelined and split input is executed request by request without loss",
  "However the bytes arriving on a connection are split or batched, each complete request is executed exactly once, in order, on exactly its own bytes, and an incomplete tail is kept, unaltered, until the rest arrives. Input that never completes a request within the maximum size closes the connection instead of growing without bound.",
  ["inputs", "histories"], "every byte stream and every split into reads",
  "Tests send whole requests; splits inside headers or data and long pipelines are not enumerated.",
  ["src/memcache/sockets.cpp", "src/counter/sockets.cpp"], [("m_recvjob", SK), ("tcp_socket::receive", "cybozu/tcp.hpp"), ("repl_client_socket::on_readable", SK)])
p("C23", "Byte-order conversion and the keyed hash match their definitions",
  "Integers are converted to and from network byte order exactly at every width, and the two conversions are inverse. The table's hash is SipHash-2-4 of the key bytes: it depends only on them and on the seed, and never reads outside the key.",
  ["inputs"], "all integers, all keys and lengths",
  "Published vectors cover 64 inputs of consecutive bytes with one key.",
  ["cybozu/util.hpp", "cybozu/siphash.cpp"], [("ntoh/hton", "cybozu/util.hpp"), ("siphash24", "cybozu/siphash.cpp")])
p("C24", "Only in-range configuration values are accepted, and applied exactly",
  "Loading a configuration either rejects it or leaves every option equal to the value written in it, within its documented range; options not given keep their documented defaults. Sizes with a k, m or g suffix are the number times the binary unit.",
  ["configurations", "inputs"], "every configuration value",
  "Tests load two sample files.",
  ["src/config.cpp", "src/config.hpp"], [("config::load, counter_config::load, parse_unit", "src/config.cpp")])
p("C25", "Connection objects are destroyed only after every worker has let go of them",
  "A deferred action registered to run at a synchronisation point runs only after every worker that was busy when it was registered has passed a point where it holds no connection, and it does run once they have. No deferred action runs twice.",
  ["schedules", "histories"], "every set of busy workers and every history of requests, checks and idling",
  "Unit tests do not exercise the deferred destruction schedule.",
  ["src/sync.hpp"], [("syncer::add_request/check_sync", "src/sync.hpp")])
p("C26", "Keys listing and prefix matching report exactly the live matching keys",
  "A key listing reports every object present and not expired whose key starts with the given bytes, each once with its exact key, and nothing else; an empty prefix matches every key. Prefix comparison is by bytes and length.",
  ["inputs"], "every table content, every prefix",
  "One test lists a few keys.",
  ["src/memcache/sockets.cpp", "cybozu/hash_map.hpp"], [("Keys handlers", SK), ("hash_key::has_prefix", "cybozu/hash_map.hpp")])
p("C27", "A closed connection's descriptor is released once and never used afterwards",
  "A connection is invalidated at most once whatever its users do concurrently, its descriptor is closed exactly once and only after no user holds it, and any later operation on it reports failure without touching the descriptor.",
  ["schedules", "histories"], "every order of invalidation, use and destruction",
  "Races on the invalidation path do not occur deterministically in tests.",
  ["cybozu/reactor.hpp", "cybozu/reactor.cpp", "cybozu/tcp.hpp"], [("resource::with_fd/invalidate/invalidate_and_close/try_close", "cybozu/reactor.hpp")])
p("C28", "Server-wide limits hold: keys, data size, connections, slaves",
  "No object is ever stored under a key longer than 250 bytes, nor with more data than the configured maximum by a storing command; connections beyond the configured maximum and slaves beyond the supported number are closed at once and get no service.",
  ["inputs", "histories", "configurations"], "every request, configuration and number of connections",
  "No test goes to the limits.",
  ["src/memcache/sockets.cpp", "src/memcache/handler.cpp", "src/counter/handler.cpp"],
  [("MAX_KEY_LENGTH / max_data_size checks", SK), ("make_memcache_socket / make_repl_socket", "src/memcache/handler.cpp")])
p("C29", "Concurrent commands on one key are linearizable",
  "Concurrent operations on the same key behave as if executed one after another, and no data race occurs on any object, table bucket or connection state.",
  ["schedules"], "every interleaving of worker threads, the reactor and the collector",
  "Schedules are not enumerated by tests.",
  ["cybozu/hash_map.hpp", "cybozu/worker.hpp"], [("bucket mutexes", "cybozu/hash_map.hpp")])
p("C30", "A slave takes over as master when it gains the virtual address",
  "When the master fails, exactly the slave that obtains the virtual IP address becomes master with the data it has, and the old master stops serving.",
  ["schedules", "fault_sequences", "histories"], "every failure and address movement",
  "Needs several hosts and an address manager.",
  ["src/server.cpp"], [("server::serve", "src/server.cpp")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
