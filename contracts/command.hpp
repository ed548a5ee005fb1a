// One command on one connection, for every prior state of its key.
//
// The command handlers run as they are, down to the bytes of responses and
// replication messages.  Represented by their contracts:
//  - the hash table: a map from keys to objects (C09); the command may look only
//    at the key of its request and at keys this connection has locked
//  - the contents of an object (C07, C06): the byte string D
//  - tcp_socket::send*: a message is accepted whole (C19)
#ifndef VF_COMMAND_HPP
#define VF_COMMAND_HPP
#include "spec.hpp"
#include <src/memcache/sockets.hpp>
#include <src/memcache/replication.hpp>
#include <src/global.hpp>
#include <cstring>
#include <new>

namespace spec {
using namespace yrmcds::memcache;
using yrmcds::g_config;
using cybozu::dynbuf;
using cybozu::hash_key;
using cybozu::tcp_socket;
typedef cybozu::hash_map<object> map_t;

struct bytes { const char* p; std::size_t n; };

// ---- messages handed to sockets
struct message { const tcp_socket* to; char* p; std::size_t n; bool close; unsigned time; };
enum { MAX_MESSAGES = 12 };
struct world {
    // the connection
    memcache_socket* sock;
    const tcp_socket* slave[2];
    unsigned slaves;
    message log[MAX_MESSAGES];
    unsigned messages;
    bool closed;
    unsigned time;              // steps: modifications, messages
    // the key of the request
    const char* kp; std::size_t kn;
    const hash_key* key;        // as stored in the table
    bool present, created, removed;
    object* o;
    unsigned lookups;
    unsigned changed;           // time of the last modification of contents
    unsigned changes;           // number of modifications of contents
    dynbuf* d;                  // contents of the object
    char *old; std::size_t oldn; // contents before
    // what incr/decr did
    bool numeric; std::uint64_t amount, result; bool up; unsigned arith;
    // before
    bool live, was_present;
    int lock; std::uint32_t flags; std::time_t exp; std::uint64_t cas;
    std::time_t now, flush;
    // other objects this connection has locked
    object* other[2]; const hash_key* other_key[2]; unsigned others;
    unsigned unlocked_others;
    // a second key of a multi-key retrieval
    const char* kp2; std::size_t kn2;
    object* second; const hash_key* key2; dynbuf* d2;
    unsigned series;            // statistics
};
extern world W;
enum { FD = 12 };
// consider connections that hold locks on other keys
extern bool other_locks;
}
namespace spec { world W; bool other_locks; }

namespace {
using namespace spec;

// ---- sockets
message& accept(tcp_socket* s) {
    vf_assert(W.messages < MAX_MESSAGES, "number of messages");
    message& m = W.log[W.messages++];
    m.to = s;
    m.close = false;
    m.time = ++W.time;
    return m;
}
bool sock_send(tcp_socket* s, const char* p, std::size_t n, bool) {
    message& m = accept(s);
    m.p = (char*)vf_new(n);
    m.n = n;
    std::memcpy(m.p, p, n);
    return true;
}
bool sock_sendv(tcp_socket* s, const tcp_socket::iovec* v, int c, bool) {
    message& m = accept(s);
    vf_require(c < tcp_socket::MAX_IOVCNT, "sendv: number of parts");
    std::size_t n = 0;
    for( int i = 0; i < c; ++i ) n += v[i].len;
    m.p = (char*)vf_new(n);
    m.n = n;
    n = 0;
    for( int i = 0; i < c; ++i ) {
        std::memcpy(m.p + n, v[i].p, v[i].len);
        n += v[i].len;
    }
    return true;
}
bool sock_send_close(tcp_socket* s, const char* p, std::size_t n) {
    sock_send(s, p, n, true);
    W.log[W.messages - 1].close = true;
    if( s == W.sock ) W.closed = true;
    return true;
}
bool sock_sendv_close(tcp_socket* s, const tcp_socket::iovec* v, int c) {
    sock_sendv(s, v, c, true);
    W.log[W.messages - 1].close = true;
    if( s == W.sock ) W.closed = true;
    return true;
}
void sock_close(cybozu::resource* r) {
    vf_assert((void*)r == (void*)static_cast<cybozu::resource*>(W.sock), "closes its own connection");
    W.closed = true;
}
int sock_fdclose(int fd) { vf_assert(fd == FD, "closes only its own descriptor"); return 0; }
int sock_setsockopt(int, int, int, const void*, unsigned) { return 0; }
std::uint64_t any_hash(const char*, std::size_t) { return vf_u64("hash"); }

// ---- the table
bool is_key(const hash_key& k) { return k.data() == W.kp && k.length() == W.kn; }
bool map_apply(map_t*, const hash_key& k, const map_t::handler& h, const map_t::creator& c) {
    for( unsigned i = 0; i < W.others; ++i )
        if( &k == W.other_key[i] )
            return h ? h(k, *W.other[i]) : false;
    if( W.kp2 != nullptr && k.data() == W.kp2 && k.length() == W.kn2 ) {
        ++W.lookups;
        return W.second != nullptr && h ? h(*W.key2, *W.second) : false;
    }
    if( W.kp == nullptr || ! (is_key(k) || (W.key != nullptr && &k == W.key)) ) {
        vf_assert(false, "the command looks only at the key of its request");
        vf_stop();
    }
    ++W.lookups;
    if( W.present ) {
        if( ! h ) return false;
        return h(*W.key, *W.o);
    }
    if( ! c ) return false;
    alignas(hash_key) static char kraw[sizeof(hash_key)];
    alignas(object) static char oraw[sizeof(object)];
    hash_key* nk = (hash_key*)kraw;
    new (&nk->m_v) std::vector<char>();
    nk->m_p = k.m_p;
    nk->m_len = k.m_len;
    W.key = nk;
    W.o = new (oraw) object(c(*nk));
    W.present = W.created = true;
    return true;
}
bool map_remove_if(map_t*, const hash_key& k, const std::function<bool(const hash_key&, object&)>& pred) {
    if( W.kp == nullptr || ! is_key(k) ) {
        vf_assert(false, "the command looks only at the key of its request");
        vf_stop();
    }
    ++W.lookups;
    if( ! W.present ) return false;
    if( pred(k, *W.o) ) {
        W.present = false;
        W.removed = true;
        W.changed = ++W.time;
    }
    return true;
}
// foreach visits every object once; the one with key W.key stands for any of them
void map_foreach(map_t*, const std::function<void(const hash_key&, object&)>& pred) {
    ++W.lookups;
    if( W.present ) pred(*W.key, *W.o);
}

// ---- contents of the object
void modified(object* o) {
    ++W.changes;
    W.changed = ++W.time;
    ++o->m_cas;
    o->m_gc_old = 0;
    o->m_length = W.d->size();
}
void init(object* o, std::uint32_t flags, std::time_t exp) {
    new (&o->m_data) dynbuf(0);
    new (&o->m_file) std::unique_ptr<yrmcds::tempfile>();
    new (&o->m_unlocker) std::thread::id();
    o->m_flags = flags;
    o->m_exptime = exp;
    o->m_cas = 1;
    o->m_gc_old = 0;
    o->m_lock = -1;
    o->m_length = W.d->size();
    ++W.changes;
    W.changed = ++W.time;
}
void contents(const char* p, std::size_t n) {
    W.d->m_p = const_cast<char*>(p);
    W.d->m_used = W.d->m_capacity = n;
}
void contents2(const char* p, std::size_t n, const char* q, std::size_t m) {
    char* r = (char*)vf_new(n + m);
    std::memcpy(r, p, n);
    std::memcpy(r + n, q, m);
    contents(r, n + m);
}
void obj_new(object* o, const char* p, std::size_t n, std::uint32_t flags, std::time_t exp) {
    contents2(p, n, p, 0);
    init(o, flags, exp);
}
// contents that stand for the decimal representation of v
void number(std::uint64_t v) {
    char* p = (char*)vf_new(24);
    int n = snprintf(p, 24, "%llu", (unsigned long long)v);
    contents(p, n);
}
void obj_new_number(object* o, std::uint64_t v, std::time_t exp) {
    number(v);
    init(o, 0, exp);
}
void obj_set(object* o, const char* p, std::size_t n, std::uint32_t flags, std::time_t exp) {
    contents2(p, n, p, 0);
    o->m_flags = flags;
    o->m_exptime = exp;
    modified(o);
}
void obj_append(object* o, const char* p, std::size_t n) {
    contents2(W.d->data(), W.d->size(), p, n);
    modified(o);
}
void obj_prepend(object* o, const char* p, std::size_t n) {
    contents2(p, n, W.d->data(), W.d->size());
    modified(o);
}
std::uint64_t arith(object* o, std::uint64_t amount, bool up) {
    W.up = up;
    W.amount = amount;
    W.numeric = vf_choose("numeric", 2);
    if( ! W.numeric ) throw object::not_a_number();
    ++W.arith;
    W.result = vf_u64("result");
    number(W.result);
    modified(o);
    return W.result;
}
std::uint64_t obj_incr(object* o, std::uint64_t n) { return arith(o, n, true); }
std::uint64_t obj_decr(object* o, std::uint64_t n) { return arith(o, n, false); }
const dynbuf& obj_data(const object* o, dynbuf&) { o->m_gc_old = 0; return o == W.second ? *W.d2 : *W.d; }
std::size_t obj_size(const object*) { return W.d->size(); }
}
VF_REPLACE("cybozu::tcp_socket::send", sock_send, "command")
VF_REPLACE("cybozu::tcp_socket::sendv", sock_sendv, "command")
VF_REPLACE("cybozu::tcp_socket::send_close", sock_send_close, "command")
VF_REPLACE("?cybozu::tcp_socket::sendv_close", sock_sendv_close, "command")
VF_REPLACE("?cybozu::resource::invalidate_and_close", sock_close, "command")
VF_REPLACE("?close", sock_fdclose, "command")
VF_REPLACE("?setsockopt", sock_setsockopt, "command")
// keys are equal exactly if their bytes are (C09); those of the fixture differ
inline bool key_equal(const hash_key& a, const hash_key& b) { return a.m_p == b.m_p && a.m_len == b.m_len; }
VF_REPLACE("?cybozu::operator==(cybozu::hash_key const&, cybozu::hash_key const&)", key_equal, "command")
VF_REPLACE("?cybozu::siphash24", any_hash, "command")
VF_REPLACE("cybozu::hash_map<yrmcds::memcache::object>::apply", map_apply, "command")
VF_REPLACE("cybozu::hash_map<yrmcds::memcache::object>::remove_if", map_remove_if, "command")
VF_REPLACE("cybozu::hash_map<yrmcds::memcache::object>::foreach", map_foreach, "command")
VF_REPLACE("yrmcds::memcache::object::object(char const*, unsigned long, unsigned int, long)", obj_new, "command")
VF_REPLACE("yrmcds::memcache::object::object(unsigned long, long)", obj_new_number, "command")
VF_REPLACE("yrmcds::memcache::object::set", obj_set, "command")
VF_REPLACE("yrmcds::memcache::object::append", obj_append, "command")
VF_REPLACE("yrmcds::memcache::object::prepend", obj_prepend, "command")
VF_REPLACE("yrmcds::memcache::object::incr", obj_incr, "command")
VF_REPLACE("yrmcds::memcache::object::decr", obj_decr, "command")
VF_REPLACE("yrmcds::memcache::object::data", obj_data, "command")
VF_REPLACE("?yrmcds::memcache::object::size", obj_size, "command")

namespace spec {
inline bool is_changed_content() { return W.changes != 0; }

// A connection with its key in an arbitrary state.  kp/kn: key of the request (null: none)
struct fixture {
    std::function<cybozu::worker*()> finder;
    std::vector<repl_socket*> slaves;
    alignas(64) char mraw[64];
    alignas(memcache_socket) char sraw[sizeof(memcache_socket)];
    alignas(object) char oraw[sizeof(object)], araw[2][sizeof(object)];
    alignas(hash_key) char kraw[sizeof(hash_key)], akraw[2][sizeof(hash_key)];
    alignas(object) char o2raw[sizeof(object)];
    alignas(hash_key) char k2raw[sizeof(hash_key)];
    alignas(tcp_socket) char slraw[2][sizeof(tcp_socket)];
    dynbuf d, d2;
    memcache_socket* sock;

    fixture(): d(0), d2(0) {
        W.sock = sock = new (sraw) memcache_socket(FD, finder, *(map_t*)mraw, slaves);
        W.d = &d;
        W.now = (std::time_t)vf_u64("now");
        W.flush = (std::time_t)vf_u64("flush time");
        // a clock after January 1970 and before 2106
        vf_assume(60*60*24*30 < W.now && W.now < 4294967296 - 60*60*24*30);
        vf_assume(0 <= W.flush && W.flush < ((std::time_t)1 << 62));
        yrmcds::g_current_time.store(W.now);
        g_stats.flush_time.store(W.flush);
        g_context = FD;                 // set by the receiving job
        if( vf_checking("C12") ) W.slaves = 2 * vf_choose("slaves", 2);
        for( unsigned i = 0; i < W.slaves; ++i ) {
            W.slave[i] = (tcp_socket*)slraw[i];
            sock->m_slaves.push_back((repl_socket*)slraw[i]);
        }
        g_config.m_max_data_size = vf_size("max_data_size");
    }
    object* fill(char* raw, int lock) {
        object* o = (object*)raw;
        new (&o->m_data) dynbuf(0);
        new (&o->m_file) std::unique_ptr<yrmcds::tempfile>();
        new (&o->m_unlocker) std::thread::id();
        o->m_flags = vf_u32("old flags");
        o->m_exptime = (std::time_t)vf_u64("old exptime");
        vf_assume(0 <= o->m_exptime && o->m_exptime < 4294967296);
        o->m_cas = vf_u64("old cas");
        o->m_gc_old = vf_u32("age");
        o->m_lock = lock;
        return o;
    }
    hash_key* fill_key(char* raw, const char* p, std::size_t n) {
        hash_key* k = (hash_key*)raw;
        new (&k->m_v) std::vector<char>();
        k->m_p = p;
        k->m_len = n;
        k->m_hash = vf_u64("hash");
        return k;
    }
    void add_other(unsigned i) {
        // the first has the length of the key but other bytes, the second another length
        std::size_t n = i == 0 ? W.kn : vf_size("other key length");
        vf_assume(1 <= n && n <= 250);
        const char* p = (const char*)vf_alloc(n, "other key");
        if( i == 0 ) {
            std::size_t at = vf_size("keys differ at");
            vf_assume(at < n);
            vf_assume(p[at] != W.kp[at]);
        } else vf_assume(n != W.kn);
        W.other_key[i] = fill_key(akraw[i], p, n);
        W.other[i] = fill(araw[i], FD);
        sock->m_locks.emplace_back(*W.other_key[i]);
        W.others = i + 1;
    }
    void key(const char* kp, std::size_t kn) {
        W.kp = kp;
        W.kn = kn;
        unsigned others = vf_checking("C04") && other_locks ? vf_choose("other locks", 3) : 0;
        if( others > 0 ) add_other(0);
        W.present = W.was_present = vf_choose("key present", 2);
        if( W.present ) vf_assume(kn <= 250);       // C28
        W.lock = -1;
        if( W.present ) {
            unsigned l = vf_choose("lock", 3);
            if( l == 1 ) W.lock = FD;
            if( l == 2 ) {
                W.lock = (int)vf_u32("other owner");
                vf_assume(W.lock >= 0 && W.lock != FD);
            }
            W.key = fill_key(kraw, kp, kn);
            W.o = fill(oraw, W.lock);
            std::size_t n = vf_size("old length");
            W.old = (char*)vf_alloc(n, "old contents");
            W.oldn = n;
            d.m_p = W.old;
            d.m_used = d.m_capacity = n;
            W.o->m_length = n;
            W.flags = W.o->m_flags;
            W.exp = W.o->m_exptime;
            W.cas = W.o->m_cas;
            bool expired = (W.lock == -1) & (((W.flush != 0) & (W.flush <= W.now)) | ((W.exp != 0) & (W.exp <= W.now)));
            W.live = vf_case(! expired);
            if( W.lock == FD ) sock->m_locks.emplace_back(*W.key);
        }
        if( others > 1 ) add_other(1);
    }
    // a second key, whose object (if any) another client may have locked
    void second(const char* p, std::size_t n) {
        W.kp2 = p;
        W.kn2 = n;
        if( ! vf_choose("second key present", 2) ) return;
        vf_assume(n <= 250);
        W.key2 = fill_key(k2raw, p, n);
        W.second = fill(o2raw, vf_choose("second locked", 2) ? FD + 1 : -1);
        W.d2 = &d2;
        std::size_t len = vf_size("second length");
        d2.m_p = (char*)vf_alloc(len, "second contents");
        d2.m_used = d2.m_capacity = len;
        W.second->m_length = len;
    }
};
// the i-th message to the connection
inline const message* response(unsigned i) {
    for( unsigned j = 0; j < W.messages; ++j )
        if( W.log[j].to == W.sock && i-- == 0 ) return &W.log[j];
    return nullptr;
}
inline unsigned responses() {
    unsigned c = 0;
    for( unsigned j = 0; j < W.messages; ++j ) c += W.log[j].to == W.sock;
    return c;
}

// ---- what must have happened to the object
enum effect { NOTHING, STORED, APPENDED, PREPENDED, TOUCHED, DELETED, ARITH, INITIAL };
struct outcome {
    effect e = NOTHING;
    bytes data = { nullptr, 0 };
    std::uint32_t flags = 0;
    std::time_t exp = 0;
    std::uint64_t value = 0;
    int lock = -1;              // lock afterwards
};
inline void same(const char* p, std::size_t n, const char* q, const char* what) {
    vf_same(p, q, n, what);
}
inline void check_contents(const char* p, std::size_t n, const outcome& x, const char* size, const char* what) {
    switch( x.e ) {
    case STORED:
        vf_assert(n == x.data.n, size);
        same(p, x.data.n, x.data.p, what);
        break;
    case APPENDED:
        vf_assert(n == W.oldn + x.data.n, size);
        same(p, W.oldn, W.old, what);
        same(p + W.oldn, x.data.n, x.data.p, what);
        break;
    case PREPENDED:
        vf_assert(n == W.oldn + x.data.n, size);
        same(p, x.data.n, x.data.p, what);
        same(p + x.data.n, W.oldn, W.old, what);
        break;
    case NOTHING: case TOUCHED:
        vf_assert(n == W.oldn, size);
        same(p, W.oldn, W.old, what);
        break;
    default: ;                  // numbers: D stands for the digits
    }
}
// x: what the documentation says must happen.  After it, only the object of the key has changed.
inline void check_effect(const outcome& x) {
    bool gone = x.e == DELETED;
    bool stored = x.e == STORED || x.e == APPENDED || x.e == PREPENDED || x.e == ARITH || x.e == INITIAL;
    vf_assert(W.lookups <= 1, "C03,C04,C05,C06: a command is one atomic operation on its key");
    if( gone ) {
        vf_assert(W.was_present && ! W.present, "C03: delete removes the object");
    } else if( x.e == NOTHING && ! W.was_present ) {
        vf_assert(! W.present, "C03,C05,C06: a failed command creates nothing");
    } else if( W.was_present && ! W.live && ! W.present ) {
        vf_assert(! stored, "C03,C06: the new value is stored");      // dropping an expired object is invisible
        gone = true;
    } else {
        vf_assert(W.present, x.e == NOTHING || x.e == TOUCHED ? "C03,C05: the object stays" : "C03,C06: the object is stored");
    }
    if( W.present ) {
        object& o = *W.o;
        if( stored ) vf_assert(W.changes != 0, "C03,C06: a command whose condition holds takes effect");
        else vf_assert(W.changes == 0, "C03,C04,C05,C06: a command whose condition fails does not change the object");
        check_contents(W.d->data(), W.d->size(), x, "C03,C05: size of the contents", "C03,C05: contents");
        if( x.e == ARITH || x.e == INITIAL ) {
            std::size_t n = vf_udec_len(x.value);
            vf_assert(W.d->size() == n, "C06: the new value is stored in decimal (length)");
            std::size_t i = vf_size("digit");
            if( vf_checking("C06") && i < n )
                vf_assert((std::uint8_t)W.d->data()[i] == vf_udec_byte(x.value, i), "C06: the new value is stored in decimal");
        }
        if( stored && W.was_present )
            vf_assert(o.cas_unique() == W.cas + 1 && W.changes == 1, "C03,C07: a modification is one CAS step");
        std::uint32_t flags = x.e == STORED ? x.flags : x.e == INITIAL ? 0 : W.flags;
        std::time_t exp = x.e == STORED || x.e == TOUCHED || x.e == INITIAL ? x.exp : W.exp;
        vf_assert(o.flags() == flags, "C03,C05,C06: flags");
        vf_assert(o.m_exptime == exp, "C03,C05,C06: expiration time");
        vf_assert(o.m_lock == x.lock, "C04: lock of the object");
    }
    // the connection's list of locks is exactly the keys it holds
    bool mine = W.present && x.lock == FD;
    std::size_t want = W.others + (mine ? 1 : 0), at = 0;
    vf_assert(W.sock->m_locks.size() == want, "C04: number of locks the connection knows it holds");
    bool found = false;
    unsigned others = 0;
    for( auto& r: W.sock->m_locks ) {
        if( mine && &r.get() == W.key ) found = true;
        for( unsigned i = 0; i < W.others; ++i )
            if( &r.get() == W.other_key[i] ) ++others;
    }
    vf_assert(found == mine && others == W.others, "C04: the connection knows exactly the locks it holds");
    for( unsigned i = 0; i < W.others; ++i )
        vf_assert(W.other[i]->m_lock == FD, "C04: locks on other keys stay");
    (void)at;
}

// ---- replication
inline void check_replication(const outcome& x) {
    if( ! vf_checking("C12") ) return;
    for( unsigned s = 0; s < W.slaves; ++s ) {
        const message* m = nullptr;
        unsigned n = 0;
        for( unsigned i = 0; i < W.messages; ++i )
            if( W.log[i].to == W.slave[s] ) { m = &W.log[i]; ++n; }
        bool dropped = x.e == NOTHING && W.was_present && ! W.live && ! W.present;   // an expired object removed
        if( x.e == NOTHING && ! dropped ) {
            vf_assert(n == 0, "C12: a command that changes nothing sends no replication message");
            continue;
        }
        if( dropped && n == 0 ) continue;
        vf_assert(n == 1, "C12: exactly one replication message per slave");
        if( n != 1 ) continue;
        vf_assert(! m->close, "C12: the connection to the slave stays open");
        vf_assert(m->n >= 24 && m->p[0] == '\x80', "C12: a replication message is a binary request");
        unsigned op = b8(m->p + 1);
        std::size_t kl = be16(m->p + 2), el = b8(m->p + 4), total = be32(m->p + 8);
        bool touch = x.e == TOUCHED && op == 0x1c;
        if( x.e == DELETED || dropped ) vf_assert(op == 0x14 || op == 0x04, "C12: a removal is replicated as one");
        else vf_assert(op == 0x11 || op == 0x01 || touch, "C12: a change is replicated as a set");
        std::size_t want = x.e == DELETED || dropped ? 0 : touch ? 4 : 8;
        vf_assert(el == want, "C12: extras");
        vf_assert(kl == W.kn, "C12: key length");
        std::size_t dl = want == 8 ? W.d->size() : 0;
        vf_assert(m->n == 24 + want + W.kn + dl && total == (std::uint32_t)(want + W.kn + dl), "C12: length");
        if( want == 4 ) vf_assert(be32(m->p + 24) == (std::uint32_t)W.o->m_exptime, "C12: expiration time after the change");
        if( want == 8 ) {
            vf_assert(be32(m->p + 24) == W.o->m_flags, "C12: flags after the change");
            vf_assert(be32(m->p + 28) == (std::uint32_t)W.o->m_exptime, "C12: expiration time after the change");
            same(m->p + 32 + W.kn, dl, W.d->data(), "C12: data after the change");
        }
        same(m->p + 24 + want, W.kn, W.kp, "C12: key");
    }
}
}
#endif
