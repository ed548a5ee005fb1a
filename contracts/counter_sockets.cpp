// Contract of a connection of the counter protocol (src/counter/sockets.*), and
// of its responses (src/counter/counter.cpp), from docs/counter.md.
//
// The command handlers run as they are, down to the bytes of the responses, on a
// connection with any history: it holds any amount of the counter of the request,
// and the counter's consumption is at least that.  Represented by contracts: the
// table of counters (C09), the connection's own ledger (a map from a counter to
// an amount), tcp_socket::send* (C19).
#include "spec.hpp"
#include <src/counter/sockets.hpp>
#include <src/counter/gc.hpp>
#include <src/config.hpp>
#include <cstring>
#include <new>
using namespace yrmcds::counter;
using cybozu::hash_key;
using cybozu::tcp_socket;
typedef cybozu::hash_map<object> map_t;

namespace {
typedef std::unordered_map<const hash_key*, std::uint32_t> ledger;
typedef ledger::iterator lit;
typedef std::__detail::_Hash_node<ledger::value_type, false> lnode;
alignas(64) char sraw[sizeof(counter_socket)];
alignas(64) char mraw[sizeof(map_t)];
alignas(hash_key) char kraw[2 * sizeof(hash_key)];
alignas(object) char oraw[2 * sizeof(object)];
alignas(lnode) char lraw[sizeof(lnode)];
enum { FD = 12 };

struct {
    counter_socket* sock;
    const char* name; std::size_t namelen;  // the counter of the request
    bool present, created;
    hash_key* key;                          // as stored in the table
    object* o;
    bool held;                              // the ledger has an entry for it
    // responses
    unsigned messages;
    struct { char* p; std::size_t n; bool flush; } log[4];
    unsigned lookups;
    // connection's end
    lnode *all, *next; std::size_t n;
    bool releasing, pending;
    std::uint32_t amount, before;
    bool cleared;
} K;

// ---- sockets
bool k_send(tcp_socket* s, const char* p, std::size_t n, bool flush) {
    vf_assert(s == K.sock, "answers on its own connection");
    vf_assert(K.messages < 4, "number of responses");
    auto& m = K.log[K.messages++];
    m.p = (char*)vf_new(n); m.n = n; m.flush = flush;
    std::memcpy(m.p, p, n);
    return true;
}
bool k_sendv(tcp_socket* s, const tcp_socket::iovec* v, int c, bool flush) {
    vf_assert(s == K.sock, "answers on its own connection");
    vf_assert(K.messages < 4, "number of responses");
    vf_require(c < tcp_socket::MAX_IOVCNT, "sendv: number of parts");
    auto& m = K.log[K.messages++];
    std::size_t n = 0;
    for( int i = 0; i < c; ++i ) n += v[i].len;
    m.p = (char*)vf_new(n); m.n = n; m.flush = flush;
    n = 0;
    for( int i = 0; i < c; ++i ) {
        std::memcpy(m.p + n, v[i].p, v[i].len);
        n += v[i].len;
    }
    return true;
}
bool k_no_send_close(tcp_socket*, const char*, std::size_t) { vf_assert(false, "no command ends the connection"); return true; }
int k_close(int fd) { vf_assert(fd == FD, "closes only its own descriptor"); return 0; }
int k_setsockopt(int, int, int, const void*, unsigned) { return 0; }
std::uint64_t k_hash(const char*, std::size_t) { return vf_u64("hash"); }

// ---- the table
bool k_apply(map_t*, const hash_key& k, const map_t::handler& h, const map_t::creator& c) {
    ++K.lookups;
    if( K.releasing ) {
        vf_assert(&k == K.key && K.pending, "each counter held is released once");
        K.pending = false;
        // it is in the table: a counter in use is never removed (C14)
        return h ? h(*K.key, *K.o) : false;
    }
    if( ! (k.data() == K.name && k.length() == K.namelen) ) {
        vf_assert(false, "the command looks only at the counter named");
        vf_stop();
    }
    vf_assert(K.lookups == 1, "looked up once");
    if( K.present )
        return h ? h(*K.key, *K.o) : false;
    if( ! c ) return false;
    new (K.o) object(c(*K.key));
    K.present = K.created = true;
    return true;
}
void k_foreach(map_t*, const std::function<void(const hash_key&, object&)>& f) {
    if( K.present ) f(*K.key, *K.o);
}

// ---- the ledger
lnode* entry() { return (lnode*)lraw; }
lit l_find(ledger*, const hash_key* const& k) {
    vf_assert(k == K.key, "the ledger knows counters by the key in the table");
    return lit(K.held ? entry() : nullptr);
}
lit l_end(ledger*) { return lit(K.releasing ? K.all + K.n : nullptr); }
lit l_begin(ledger*) {
    vf_assert(K.releasing, "no command looks at other counters");
    return lit(K.all);
}
void put(std::uint32_t amount) {
    new (entry()) lnode();
    new ((void*)entry()->_M_valptr()) ledger::value_type(K.key, amount);
    K.held = true;
}
std::pair<lit, bool> l_emplace(ledger*, const hash_key*&& k, std::uint32_t& v) {
    vf_assert(k == K.key, "the ledger knows counters by the key in the table");
    if( K.held ) return std::pair<lit, bool>(lit(entry()), false);
    put(v);
    return std::pair<lit, bool>(lit(entry()), true);
}
std::uint32_t& l_index(ledger*, const hash_key* const& k) {
    vf_assert(k == K.key, "the ledger knows counters by the key in the table");
    if( ! K.held ) put(0);
    return entry()->_M_v().second;
}
std::uint32_t& l_index_move(ledger*, const hash_key*&& k) { return l_index(nullptr, k); }
lit l_erase(ledger*, lit it) {
    vf_assert(K.held && it._M_cur == entry(), "erases the entry of the counter");
    K.held = false;
    return lit(nullptr);
}
std::size_t l_erase_key(ledger*, const hash_key* const& k) {
    vf_assert(k == K.key, "the ledger knows counters by the key in the table");
    std::size_t n = K.held;
    K.held = false;
    return n;
}
std::size_t l_count(ledger*, const hash_key* const& k) {
    vf_assert(k == K.key, "the ledger knows counters by the key in the table");
    return K.held;
}
// walking over the entries: an array of them, each with any amount
lit& l_next(lit* it) { ++*(lnode**)&it->_M_cur; return *it; }
ledger::value_type& l_deref(const lit* it) {
    lnode* p = (lnode*)it->_M_cur;
    if( p != K.next ) {
        // the entry being looked at, again
        vf_assert(p + 1 == K.next, "the counters held are released one after another");
        return entry()->_M_v();
    }
    vf_assert(K.next != K.all + K.n, "within the entries");
    vf_assert(! K.pending, "each counter held is released once");
    ++K.next;
    K.pending = true;
    K.amount = vf_u32("amount held");
    std::uint32_t c = vf_u32("its consumption");
    vf_assume(1 <= K.amount && K.amount <= c);
    K.before = c;
    K.o->m_consumption = K.o->m_max_consumption = c;
    put(K.amount);
    return entry()->_M_v();
}
ledger::value_type* l_arrow(const lit* it) { return &l_deref(it); }
void l_clear(ledger*) { K.cleared = true; K.held = false; }
bool l_empty(const ledger*) { return K.releasing ? K.n == 0 : ! K.held; }
void k_dump_stack() {}
// the contract of counter::object::release (C14), for what it is given here
bool o_release(object* o, std::uint32_t n) {
    vf_assert(o == K.o && n == K.amount, "exactly what is held of a counter is released");
    return true;
}
}
VF_REPLACE("cybozu::tcp_socket::send", k_send, "counter")
VF_REPLACE("cybozu::tcp_socket::sendv", k_sendv, "counter")
VF_REPLACE("?cybozu::tcp_socket::send_close", k_no_send_close, "counter")
VF_REPLACE("?close", k_close, "counter")
VF_REPLACE("?setsockopt", k_setsockopt, "counter")
VF_REPLACE("?cybozu::siphash24", k_hash, "counter")
VF_REPLACE("?cybozu::dump_stack", k_dump_stack, "counter")
VF_REPLACE("cybozu::hash_map<yrmcds::counter::object>::apply", k_apply, "counter")
VF_REPLACE("cybozu::hash_map<yrmcds::counter::object>::foreach", k_foreach, "counter")
VF_REPLACE("?std::unordered_map<cybozu::hash_key const*, unsigned int, *>::find(cybozu::hash_key const* const&)", l_find, "counter")
VF_REPLACE("?std::unordered_map<cybozu::hash_key const*, unsigned int, *>::end()", l_end, "counter")
VF_REPLACE("?std::unordered_map<cybozu::hash_key const*, unsigned int, *>::begin()", l_begin, "counter")
VF_REPLACE("?*std::unordered_map<cybozu::hash_key const*, unsigned int, *>::emplace<*", l_emplace, "counter")
VF_REPLACE("?std::unordered_map<cybozu::hash_key const*, unsigned int, *>::operator[](cybozu::hash_key const* const&)", l_index, "counter")
VF_REPLACE("?std::unordered_map<cybozu::hash_key const*, unsigned int, *>::operator[](cybozu::hash_key const*&&)", l_index_move, "counter")
VF_REPLACE("?std::unordered_map<cybozu::hash_key const*, unsigned int, *>::erase(std::__detail::_Node_iterator<*)", l_erase, "counter")
VF_REPLACE("?std::unordered_map<cybozu::hash_key const*, unsigned int, *>::erase(cybozu::hash_key const* const&)", l_erase_key, "counter")
VF_REPLACE("?std::unordered_map<cybozu::hash_key const*, unsigned int, *>::count(cybozu::hash_key const* const&) const", l_count, "counter")
VF_REPLACE("?std::unordered_map<cybozu::hash_key const*, unsigned int, *>::empty() const", l_empty, "counter")
VF_REPLACE("?std::unordered_map<cybozu::hash_key const*, unsigned int, *>::clear()", l_clear, "counter")
VF_REPLACE("?std::__detail::_Node_iterator<std::pair<cybozu::hash_key const* const, unsigned int>, *>::operator++()", l_next, "counter")
VF_REPLACE("?std::__detail::_Node_iterator<std::pair<cybozu::hash_key const* const, unsigned int>, *>::operator*() const", l_deref, "release")
VF_REPLACE("?std::__detail::_Node_iterator<std::pair<cybozu::hash_key const* const, unsigned int>, *>::operator->() const", l_arrow, "release")
VF_REPLACE("?yrmcds::counter::object::release", o_release, "release")

namespace {
std::int64_t now;
// a connection with any history
counter_socket& any(std::size_t namelen) {
    static std::function<cybozu::worker*()> finder;
    K.sock = new (sraw) counter_socket(FD, finder, *(map_t*)mraw);
    K.key = (hash_key*)kraw;
    K.o = (object*)oraw;
    K.messages = K.lookups = 0;
    K.created = K.releasing = K.pending = K.cleared = K.held = false;
    K.namelen = namelen;
    new (&K.key->m_v) std::vector<char>();
    K.key->m_p = (const char*)vf_new(namelen);
    K.key->m_len = namelen;
    now = (std::int64_t)vf_u64("now");
    vf_assume(0 <= now && now < ((std::int64_t)1 << 40));
    unsigned interval = vf_u32("interval");
    vf_assume(interval >= 1);
    yrmcds::g_config.m_counter_config.m_stat_interval = interval;
    yrmcds::g_current_time.store(now);
    return *K.sock;
}
void any_counter(std::uint32_t held) {
    object& o = *K.o;
    o.m_consumption = vf_u32("consumption");
    o.m_max_consumption = vf_u32("max");
    vf_assume(held <= o.m_consumption && o.m_consumption <= o.m_max_consumption);
    o.m_last_updated = (std::int64_t)vf_u64("last");
    vf_assume(0 <= o.m_last_updated && o.m_last_updated <= now);
}
// one response: header and exactly these many bytes of body
void header(unsigned i, const char* req, std::uint8_t status, std::size_t body) {
    const char* p = K.log[i].p;
    vf_assert(K.log[i].n == 12 + body, "length of the response");
    vf_assert(b8(p) == 0x91, "magic of the response");
    vf_assert(b8(p + 1) == b8(req + 1), "opcode copied from the request");
    vf_assert(b8(p + 2) == status, "status of the response");
    vf_assert(b8(p + 3) == 0, "reserved byte of the response");
    vf_assert(be32(p + 4) == body, "body length of the response");
    vf_same(p + 8, req + 8, 4, "opaque copied from the request");
}
void answer(const char* req, std::uint8_t status, std::size_t body = 0) {
    vf_assert(K.messages == 1, "exactly one response");
    vf_assert(K.log[0].flush, "the response is flushed");
    if( status == 0 ) { header(0, req, 0, body); return; }
    // errors carry a message
    vf_assert(K.log[0].n > 12, "an error has a message");
    header(0, req, status, K.log[0].n - 12);
}
std::uint32_t held() { return K.held ? entry()->_M_v().second : 0; }
}

// any request that names a counter, or is in error
static void one_command(std::uint8_t opcode) {
    std::size_t n = vf_size("request length");
    vf_assume(12 <= n && n <= 12 + 10 + 65535);
    char* req = (char*)vf_alloc(n, "request");
    vf_assume(b8(req) == 0x90 && b8(req + 1) == opcode && be32(req + 4) == n - 12);
    request r(req, n);
    vf_assume(r.length() == n);
    counter_socket& s = any(r.name().len);
    K.name = r.name().p;
    bool ok = r.status() == status::OK;
    std::uint32_t res = r.resources(), max = r.maximum();
    K.present = ok && vf_choose("the counter exists", 2);
    std::uint32_t h = 0, c = 0;
    if( K.present ) {
        if( vf_choose("the connection holds some", 2) ) {
            h = vf_u32("held");
            vf_assume(h >= 1);
        }
        any_counter(h);
        c = K.o->m_consumption;
        if( h ) put(h);
    }
    bool was = K.present, had = K.held;
    std::uint64_t op = g_stats.ops[opcode].load();
    s.execute(r);
    if( ! ok ) {
        vf_cover("invalid");
        answer(req, 4);
        vf_assert(K.lookups == 0 && K.held == had, "an invalid request has no effect");
        return;
    }
    vf_assert(g_stats.ops[opcode].load() == op + 1, "the command is counted");
    std::uint32_t h2 = held(), c2 = K.present ? K.o->m_consumption : 0;
    switch( opcode ) {
    case 1:
        vf_assert(h2 == h && c2 == c && K.present == was, "get changes nothing");
        if( ! was ) { vf_cover("get: not found"); answer(req, 1); break; }
        vf_cover("get");
        answer(req, 0, 4);
        vf_assert(be32(K.log[0].p + 12) == c, "get answers the current consumption");
        break;
    case 2: {
        bool fits = ! was | ((std::uint64_t)c + res <= max);
        vf_assert(K.present, "acquire creates a missing counter");
        if( ! fits ) {
            vf_cover("acquire: not available");
            answer(req, 0x21);
            vf_assert(h2 == h && c2 == c, "a refused acquisition changes nothing");
            break;
        }
        answer(req, 0, 4);
        vf_assert(be32(K.log[0].p + 12) == res, "acquire answers the amount");
        vf_assert(c2 == c + res, "the counter's consumption grows by the amount acquired");
        vf_assert(h2 == (std::uint64_t)h + res, "the connection holds the amount acquired in addition");
        if( was ) vf_cover("acquire"); else vf_cover("acquire: created");
        break;
    }
    case 3:
        vf_assert(K.present == was && K.created == false, "release never creates a counter");
        if( ! was ) { vf_cover("release: not found"); answer(req, 1); break; }
        if( res > h ) {
            vf_cover("release: too much");
            answer(req, 0x22);
            vf_assert(h2 == h && c2 == c, "a refused release changes nothing");
            break;
        }
        answer(req, 0);
        vf_assert(c2 == c - res, "the counter's consumption shrinks by the amount released");
        vf_assert(h2 == h - res, "the connection holds the rest");
        if( h2 == 0 ) vf_cover("release: everything"); else vf_cover("release: some");
        break;
    }
    if( h2 == 0 ) vf_assert(! K.held, "the ledger lists only counters in use: others may be removed");
}
VF_PROOF(counter_get) { one_command(1); }
VF_PROOF(counter_take) { one_command(2); }
VF_PROOF(counter_give) { one_command(3); }

// requests that name no counter, and whatever is not a request
VF_PROOF(counter_other) {
    std::size_t n = vf_size("request length");
    vf_assume(12 <= n && n <= 12 + 0x10000000);
    char* req = (char*)vf_alloc(n, "request");
    vf_assume(be32(req + 4) == n - 12);
    request r(req, n);
    vf_assume(r.length() == n);
    bool magic = b8(req) == 0x90;
    std::uint8_t op = b8(req + 1);
    counter_socket& s = any(0);
    K.present = false;
    if( magic ) {
        vf_assume((op != 1) & (op != 2) & (op != 3) & (op != 0x10) & (op != 0x11));
        s.execute(r);
        if( op == 0 ) {
            vf_cover("noop");
            answer(req, 0);
        } else {
            vf_cover("unknown command");
            vf_assert(K.messages == 1 && K.log[0].flush && K.log[0].n > 12, "an error has a message");
            vf_assert(b8(K.log[0].p + 2) == 0x81, "status of the response");
            vf_assert(be32(K.log[0].p + 4) == K.log[0].n - 12, "body length of the response");
            vf_same(K.log[0].p + 8, req + 8, 4, "opaque copied from the request");
        }
    } else {
        vf_cover("wrong magic");
        s.execute(r);
        vf_assert(K.messages == 1 && b8(K.log[0].p + 2) != 0, "wrong magic is an error");
    }
    vf_assert(K.lookups == 0 && ! K.held, "no effect");
}
// one response per counter, then an empty one
VF_PROOF(counter_dump) {
    char* req = (char*)vf_alloc(12, "request");
    vf_assume(b8(req) == 0x90 && b8(req + 1) == 0x11 && be32(req + 4) == 0);
    request r(req, 12);
    std::size_t n = vf_size("name length");
    vf_assume(1 <= n && n <= 65535);
    counter_socket& s = any(n);
    K.key->m_p = (const char*)vf_alloc(n, "name");
    K.present = vf_choose("a counter", 2);
    if( K.present ) any_counter(0);
    std::uint32_t c = K.o->m_consumption, high = K.present ? K.o->max_consumption() : 0;
    s.execute(r);
    vf_assert(K.messages == 1 + (K.present ? 1u : 0u), "one response per counter, and one to end with");
    unsigned last = K.present;
    header(last, req, 0, 0);
    vf_assert(K.log[last].flush, "the response is flushed");
    if( ! K.present ) { vf_cover("no counter"); return; }
    vf_cover("a counter");
    header(0, req, 0, 10 + n);
    const char* b = K.log[0].p + 12;
    vf_assert(be32(b) == c, "dump: consumption");
    vf_assert(be32(b + 4) == high, "dump: highest consumption");
    vf_assert(be16(b + 8) == n, "dump: length of the name");
    vf_same(b + 10, K.key->m_p, n, "dump: name");
    vf_assert(K.o->m_consumption == c, "dump changes nothing");
}
// the connection ends: everything held is released, each counter once
namespace {
void holding() {
    K.releasing = true;
    K.n = vf_size("counters held");
    vf_assume(K.n < ((std::size_t)1 << 32));
    K.all = (lnode*)vf_new(K.n * sizeof(lnode));
    K.next = K.all;
    new (K.o) object(0);
}
void all_released() {
    vf_assert(K.next == K.all + K.n && ! K.pending, "everything held is released");
}
}
VF_PROOF(counter_release_all) {
    counter_socket& s = any(5);
    holding();
    s.release_all();
    all_released();
    vf_assert(K.cleared, "nothing is held afterwards");
}
VF_PROOF(counter_disconnect) {
    counter_socket& s = any(5);
    holding();
    s.~counter_socket();
    all_released();
}

// ---- the collector removes exactly the counters nobody uses (C14: deletable)
namespace {
typedef map_t::bucket bucket;
struct { bucket* next; gc_thread* g; bool visited, removed; } C;
alignas(gc_thread) char graw[sizeof(gc_thread)];
void one_counter(bucket* b, const std::function<bool(const hash_key&, object&)>& pred) {
    vf_assert(b == C.next && ! C.visited, "each bucket is visited once");
    C.visited = true;
    C.g->m_objects_in_bucket = (int)(vf_u32("counters in bucket") & 0xffffff);
    C.removed = pred(*K.key, *K.o);
}
void one_bucket(bucket* b, const std::function<bool(const hash_key&, object&)>&) {
    vf_assert(b == C.next, "the buckets are visited one after another");
    vf_assert(C.g->m_objects_in_bucket == 0, "counters are counted per bucket");
    ++C.next;
    C.g->m_objects_in_bucket = 3;
}
gc_thread& collector(std::size_t buckets) {
    map_t& m = *(map_t*)mraw;
    *const_cast<std::size_t*>(&m.m_size) = buckets;
    bucket* b = (bucket*)vf_new(buckets * sizeof(bucket));
    m.m_buckets._M_impl._M_start = b;
    m.m_buckets._M_impl._M_finish = m.m_buckets._M_impl._M_end_of_storage = b + buckets;
    C.next = b;
    C.visited = false;
    C.g = new (graw) gc_thread(m);
    return *C.g;
}
}
VF_REPLACE("cybozu::hash_map<yrmcds::counter::object>::bucket::gc", one_counter, "collect")
VF_REPLACE("cybozu::hash_map<yrmcds::counter::object>::bucket::gc", one_bucket, "buckets")
VF_PROOF(counter_gc) {
    std::size_t n = vf_size("name length");
    vf_assume(1 <= n && n <= 65535);
    any(n);
    any_counter(0);
    gc_thread& g = collector(1);
    std::uint32_t objects = g.m_objects = vf_u32("objects"), conflicts = g.m_conflicts = vf_u32("conflicts");
    std::uint64_t used = g.m_used_memory = vf_u64("used memory");
    std::uint32_t c = K.o->m_consumption, high = K.o->max_consumption();
    std::int64_t interval = yrmcds::g_config.m_counter_config.m_stat_interval;
    bool gone = c == 0 && K.o->m_last_updated < now - now % interval;
    g.gc();
    vf_assert(C.visited, "the bucket is visited");
    vf_assert(C.removed == gone, "a counter is removed exactly when it is not in use and was not used in this interval");
    if( gone ) vf_cover("removed"); else vf_cover("kept");
    vf_assert(K.o->m_consumption == c && K.o->max_consumption() == high, "collecting does not change a counter");
    int in = g.m_objects_in_bucket;
    vf_assert(g.m_objects == objects + ! gone, "counters kept are counted");
    vf_assert(g.m_conflicts == conflicts + (! gone & (in == 2)), "conflicts are counted");
    vf_assert(g.m_used_memory == used + (gone ? 0 : sizeof(hash_key) + n + sizeof(object)), "memory of the counters kept");
}
VF_PROOF(counter_gc_buckets) {
    std::size_t n = vf_size("buckets");
    vf_assume(1 <= n && n <= (1u << 26));
    any(1);
    gc_thread& g = collector(n);
    bucket* end = C.next + n;
    g.gc();
    vf_assert(C.next == end, "every bucket is visited");
}
