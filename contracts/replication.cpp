// Contracts of src/memcache/replication.cpp: what a master sends for an object is
// what a slave applies to its copy.  repl_object / repl_touch / repl_delete run as
// they are on an arbitrary object of the master, the bytes they send reach
// repl_recv as they are.
#include "command.hpp"
using namespace spec;

namespace {
struct slave_state {
    bool present;               // has a copy
    unsigned applied, removed;  // operations on the table
    unsigned stores, touches;
    object* o;
    hash_key* key;
    const char* kp; std::size_t kn;     // the key of the master
    bool any_key;
    bytes data; std::uint32_t flags; std::time_t exp;
    unsigned order;
} S;
void check_key(const hash_key& k) {
    if( S.any_key ) return;
    vf_assert(k.length() == S.kn, "C11: the same key (length)");
    vf_same(k.data(), S.kp, S.kn, "C11: the same key");
}
void slave_init(object* o, std::uint32_t flags, std::time_t exp) {
    new (&o->m_data) dynbuf(0);
    new (&o->m_file) std::unique_ptr<yrmcds::tempfile>();
    new (&o->m_unlocker) std::thread::id();
    o->m_flags = flags;
    o->m_exptime = exp;
    o->m_lock = -1;
}
void stored(object* o, const char* p, std::size_t n) {
    ++S.stores;
    char* r = (char*)vf_new(n);
    std::memcpy(r, p, n);
    S.data = { r, n };
    (void)o;
}
void repl_new(object* o, const char* p, std::size_t n, std::uint32_t flags, std::time_t exp) {
    slave_init(o, flags, exp);
    stored(o, p, n);
}
void repl_set(object* o, const char* p, std::size_t n, std::uint32_t flags, std::time_t exp) {
    o->m_flags = flags;
    o->m_exptime = exp;
    stored(o, p, n);
}
alignas(object) char so[sizeof(object)];
bool slave_apply(map_t*, const hash_key& k, const map_t::handler& h, const map_t::creator& c) {
    check_key(k);
    ++S.applied;
    if( S.present ) return h ? h(k, *S.o) : false;
    if( ! c ) return false;
    S.o = new (so) object(c(k));
    S.present = true;
    return true;
}
bool slave_remove(map_t*, const hash_key& k, const std::function<void(const hash_key&)>& f) {
    check_key(k);
    ++S.removed;
    bool r = S.present;
    S.present = false;
    if( r && f ) f(k);
    return r;
}
}
VF_REPLACE("cybozu::hash_map<yrmcds::memcache::object>::apply_nolock", slave_apply, "slave")
VF_REPLACE("?cybozu::hash_map<yrmcds::memcache::object>::remove_nolock", slave_remove, "slave")
VF_REPLACE("?cybozu::hash_map<yrmcds::memcache::object>::apply", slave_apply, "slave")
VF_REPLACE("?cybozu::hash_map<yrmcds::memcache::object>::remove", slave_remove, "slave")
VF_REPLACE("yrmcds::memcache::object::object(char const*, unsigned long, unsigned int, long)", repl_new, "slave")
VF_REPLACE("yrmcds::memcache::object::set", repl_set, "slave")

namespace {
enum what { SET, TOUCH, DELETE };
struct round_trip: fixture {
    alignas(64) char smap[64];
    what w;
    message m[2];
    std::vector<repl_socket*> to;
    std::uint32_t old_flags; std::time_t old_exp;
    round_trip() {
        std::size_t kn = vf_size("key length");
        vf_assume(1 <= kn && kn <= 250);
        const char* kp = (const char*)vf_alloc(kn, "key");
        W.kp = kp;
        W.kn = kn;
        W.key = fill_key(kraw, kp, kn);
        W.o = fill(oraw, vf_choose("locked", 2) ? FD : -1);
        std::size_t n = vf_size("length");
        vf_assume(n <= (30u << 20));
        W.old = (char*)vf_alloc(n, "contents");
        W.oldn = n;
        d.m_p = W.old;
        d.m_used = d.m_capacity = n;
        W.o->m_length = n;
        // absolute times lie after January 1970, the last second of 2106 is not used
        vf_assume((W.o->m_exptime == 0) | ((60*60*24*30 < W.o->m_exptime) & (W.o->m_exptime < 4294967295)));
        W.slave[0] = (tcp_socket*)slraw[0];
        to.push_back((repl_socket*)slraw[0]);
        w = (what)vf_choose("update", 3);
        if( w == SET ) repl_object(to, *W.key, *W.o, vf_choose("flush", 2));
        else if( w == TOUCH ) repl_touch(to, *W.key, *W.o);
        else repl_delete(to, *W.key);
        vf_assert(W.messages == 1, "C11,C12: one message per slave");
        m[0] = W.log[0];
        S.kp = kp;
        S.kn = kn;
    }
    // the copy of the slave
    void copy() {
        S.present = vf_choose("slave has a copy", 2);
        if( S.present ) {
            S.o = (object*)so;
            slave_init(S.o, old_flags = vf_u32("flags of the copy"), 0);
            S.o->m_exptime = old_exp = (std::time_t)vf_u32("expiration of the copy");
        }
    }
    std::size_t receive(const char* p, std::size_t n) {
        return repl_recv(p, n, *(map_t*)smap);
    }
};
}
// the message, followed by the beginning of another one
VF_PROOF(repl_roundtrip) {
    round_trip t;
    t.copy();
    bool had = S.present;
    std::size_t extra = vf_size("bytes of the next message");
    vf_assume(extra <= (1u << 20));
    std::size_t n = t.m[0].n;
    char* b = (char*)vf_alloc(n + extra, "received");
    std::memcpy(b, t.m[0].p, n);
    // the next message is incomplete
    if( extra > 0 ) vf_assume(b[n] == '\x80');
    if( extra >= 24 ) vf_assume(extra - 24 < be32(b + n + 8));
    std::size_t c = t.receive(b, n + extra);
    vf_cover("applied");
    vf_assert(c == n, "C11: consumes exactly the complete message");
    if( t.w == DELETE ) {
        vf_assert(S.removed == 1 && S.applied == 0 && S.stores == 0, "C11: a deletion is applied as one, once");
        vf_assert(! S.present, "C11: the copy is removed");
        return;
    }
    vf_assert(S.removed == 0 && S.applied == 1, "C11: an update is applied once");
    if( t.w == SET ) {
        vf_assert(S.present && S.stores == 1, "C11: the data is stored once");
        if( S.stores != 1 ) return;
        vf_assert(S.data.n == W.oldn, "C11: the same data (size)");
        vf_same(S.data.p, W.old, W.oldn, "C11: the same data");
        vf_assert(S.o->m_flags == W.o->m_flags, "C11: the same flags");
        vf_assert(S.o->m_exptime == W.o->m_exptime, "C11: the same expiration time");
    } else {
        vf_assert(S.present == had && S.stores == 0, "C11: a touch changes no data");
        if( ! had ) return;
        vf_assert(S.o->m_flags == t.old_flags, "C11: a touch changes no flags");
        vf_assert(S.o->m_exptime == W.o->m_exptime, "C11: the same expiration time");
    }
}
// the message cut at any point: nothing is applied, nothing consumed
VF_PROOF(repl_partial) {
    round_trip t;
    t.copy();
    std::size_t n = vf_size("received");
    vf_assume(n < t.m[0].n);
    if( n == 0 ) return;
    vf_assert(t.receive(t.m[0].p, n) == 0, "C11: an incomplete message stays");
    vf_assert(S.applied == 0 && S.removed == 0 && S.stores == 0, "C11: an incomplete message is not applied");
    vf_cover("kept");
}
// two complete messages of the form masters send: both applied, in order
namespace {
unsigned first_op, second_op, seen;
bool seq_apply(map_t*, const hash_key& k, const map_t::handler& h, const map_t::creator& c) {
    ++seen;
    vf_assert(k.length() == (std::size_t)(seen == 1 ? W.kn : W.kn2), "C11: each message is applied once, in order (key)");
    vf_assert(k.data() == (seen == 1 ? W.kp : W.kp2), "C11: each message is applied once, in order (key)");
    vf_assert((bool)h && (bool)c == ((seen == 1 ? first_op : second_op) == 0x11), "C11: each message is applied once, in order");
    return true;
}
bool seq_remove(map_t*, const hash_key& k, const std::function<void(const hash_key&)>&) {
    ++seen;
    vf_assert(k.length() == (std::size_t)(seen == 1 ? W.kn : W.kn2), "C11: each message is applied once, in order (key)");
    vf_assert(k.data() == (seen == 1 ? W.kp : W.kp2), "C11: each message is applied once, in order (key)");
    vf_assert((seen == 1 ? first_op : second_op) == 0x14, "C11: each message is applied once, in order");
    return true;
}
unsigned message_at(const char* p, std::size_t n, const char*& kp, std::size_t& kn, std::size_t& total) {
    static const unsigned ops[] = { 0x11, 0x1c, 0x14 }, el[] = { 8, 4, 0 };
    unsigned i = vf_choose("kind", 3);
    total = vf_size("message length");
    vf_assume(24 <= total && total <= n && total <= (30u << 20));
    kn = vf_size("key length");
    vf_assume(1 <= kn && kn <= 250);
    vf_assume(i == 0 ? 24 + el[i] + kn <= total : 24 + el[i] + kn == total);
    vf_assume(b8(p) == 0x80 && b8(p+1) == ops[i] && be16(p+2) == kn && b8(p+4) == el[i] && be32(p+8) == total - 24);
    kp = p + 24 + el[i];
    return ops[i];
}
}
VF_REPLACE("cybozu::hash_map<yrmcds::memcache::object>::apply_nolock", seq_apply, "slaveseq")
VF_REPLACE("?cybozu::hash_map<yrmcds::memcache::object>::remove_nolock", seq_remove, "slaveseq")
VF_PROOF(repl_two) {
    fixture f;
    alignas(64) static char smap[64];
    std::size_t n = vf_size("received");
    vf_assume(n <= (64u << 20));
    const char* p = (const char*)vf_alloc(n, "received bytes");
    std::size_t a = 0, b = 0;
    first_op = message_at(p, n, W.kp, W.kn, a);
    bool two = vf_choose("second", 2);
    if( two ) {
        second_op = message_at(p + a, n - a, W.kp2, W.kn2, b);
        vf_assume(a + b == n);
    } else vf_assume(a == n);
    vf_assert(repl_recv(p, n, *(map_t*)smap) == n, "C11: consumes exactly the complete messages");
    vf_assert(seen == (two ? 2 : 1), "C11: each message is applied once, in order");
    vf_cover("both");
}
// anything else
VF_PROOF(repl_garbage) {
    fixture f;
    alignas(64) static char smap[64];
    S.any_key = true;
    std::size_t n = vf_size("received");
    vf_assume(1 <= n && n <= (64u << 20));
    const char* p = (const char*)vf_alloc(n, "received bytes");
    if( vf_choose("magic", 2) ) {
        vf_assume(p[0] != '\x80');
        bool thrown = false;
        try { repl_recv(p, n, *(map_t*)smap); } catch( const std::runtime_error& ) { thrown = true; }
        vf_assert(thrown, "C11: data without the request magic is refused");
        vf_cover("refused");
    } else {
        // a complete message with another opcode
        vf_assume(n >= 24 && b8(p) == 0x80 && b8(p+1) != 0x11 && b8(p+1) != 0x1c && b8(p+1) != 0x14 && be32(p+8) == n - 24);
        vf_assert(repl_recv(p, n, *(map_t*)smap) == n, "C11: consumes exactly the complete message");
        vf_cover("ignored");
    }
    vf_assert(S.applied == 0 && S.removed == 0 && S.stores == 0, "C11: data that is no replication message is never applied");
}
