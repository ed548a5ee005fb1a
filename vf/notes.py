"""Level notes of the checks and reasons for properties not claimed (used by tools/mkmanifest.py)."""
ALL = (" Trusted: clang 18 up to -O0 IR, the generator in vf/, z3/cvc5. Bounded obligations are counted separately in the evidence"
       " and never as proved; DESIGN.md lists every assumption.")
NOTES = {
    "C01": "Parsing: any bytes of any length, memory safety, framing and every field of every command, for single-space separators; two-space separators are bounded variants.",
    "C02": "All inputs of any length, every opcode, every field.",
    "C03": "Every storing and deleting command of both protocols, decided on the real command functions against contracts of the table, the object and the connection.",
    "C04": "All commands of both protocols; unlock-all, quit and disconnection with lock lists of up to three entries (bounded in that length).",
    "C05": "All commands of both protocols and object::expired; the clock is any value from 1970 to 2106.",
    "C06": "object::incr/decr for any contents and any delta, and the commands that use them.",
    "C07": "All object operations at any size, in memory and in a file, the file being an exact contract of tempfile (C21); file I/O errors are not considered here.",
    "C08": "Every operation of dynbuf on any contents; the object code is covered through its use of dynbuf only.",
    "C10": "The collector's decision for any object, any flush/limit/age setting, any number of buckets; at most two slaves in the constructor's proof (bounded).",
    "C11": "Encoding then decoding for any key, data, flags and expiration; any cut point; at most two messages per buffer (bounded).",
    "C12": "Every command of both protocols, against a contract of the replication functions (whose bytes C11 decides).",
    "C13": "All inputs of any length, every opcode, every field.",
    "C14": "Counter object operations in exact arithmetic, and the collector over any number of buckets.",
    "C15": "Any ledger of any number of counters, the ledger being the contract of std::unordered_map.",
    "C16": "Every binary response, byte by byte, as handed to the connection's send functions; the text of statistics is not decided.",
    "C17": "Every text response, byte by byte; retrievals of at most two keys (bounded); the text of statistics is not decided.",
    "C18": "Every command of both protocols; retrievals of at most two keys (bounded).",
    "C19": "Connections without send buffers (every client): single messages of any length and the draining of what is kept, any number of partial writes, by loop invariants. Bounded: scattered messages (two parts, one partial write) and connections with send buffers (two of them).",
    "C20": "Every operation of dynbuf on any buffer of any size.",
    "C21": "Any sequence of short writes, short reads, EINTR and errors, by loop invariants.",
    "C22": "The receive loops of client connections and of a slave, for any number of receptions of any size, by loop invariants; parsers, commands and buffers by their contracts.",
    "C23": "Byte order: all values. SipHash: the exact value for every key length up to 250, one proof path per length (a bound on the length, none on the bytes or the seed); memory safety at any length.",
    "C25": "Bounded: the synchroniser with up to three workers and three requests, and 64 workers of which one is busy; the worker's own protocol is unbounded. Schedules are interleavings at the level of the atomic steps the contracts name.",
    "C26": "Any table entry, key and prefix; listing visits entries through the contract of the table's iteration (C09).",
    "C27": "All operations of resource, tcp_socket and the reactor on any state; concurrency by the lock protocol: every access of the descriptor is checked to be under the lock.",
    "C28": "Key and data limits for every command; connection and slave limits for any number of connections.",
}
NOT_APPLICABLE = {
    "C09": "The table's buckets are singly linked lists of unbounded length; the verifier has no recursive heap predicate (lists are outside its loop invariants), so a contract of hash_map could only be checked for short lists. Its behaviour is used as an assumed contract by C03-C06, C10, C12, C18, C26.",
    "C22": "The receive loops need nested loop invariants over the parser state which the verifier does not find in reasonable time; the parsers (C01, C02, C13), the buffer (C20) and descriptor handling (C27) are decided.",
    "C24": "Configuration parsing goes through the C++ stream library, std::string and unordered_map<string,string>; these are outside the verifier and would have to be assumed wholesale.",
    "C29": "Linearizability and freedom from data races quantify over schedules; sequential function contracts cannot express them (the sequential part is C03-C06, the lock protocol of descriptors C27).",
    "C30": "Failover involves several hosts, keepalived and a virtual address outside this code base; no contract on these functions can express it.",
}
