// Contract of the garbage collector of the memcache protocol (src/memcache/gc.*).
//
// The table visits every object of a bucket once (C09, hash_map.cpp); what the
// collector decides for one of them is proved for any object, any progress of
// the collection (all counters arbitrary) and any server state; that it visits
// every bucket is proved for any number of buckets.
#include "spec.hpp"
#include <src/memcache/gc.hpp>
#include <src/memcache/replication.hpp>
#include <src/global.hpp>
#include <src/config.hpp>
#include <new>
using namespace yrmcds::memcache;
using cybozu::hash_key;
typedef cybozu::hash_map<object> map_t;
typedef map_t::bucket bucket;

namespace {
struct {
    std::time_t now, flush, new_flush;
    bool flushed;                   // a client requests another flush meanwhile
    bucket* next;                   // the bucket to be visited next
    gc_thread* g;
    object* o;
    const hash_key* k;
    bool visited, removed;
    unsigned deleted, copied;
    unsigned nslaves, fresh;
    bool progress;
    const std::vector<repl_socket*>* deleted_to;
    const std::vector<repl_socket*>* copied_to;
    unsigned copy_time, delete_time, time;
    bool files;
    int dup_fd;
    unsigned dups;
} G;
alignas(64) char slraw[4][64];
#define SLAVE ((repl_socket**)slp)
void* const slp[4] = { slraw[0], slraw[1], slraw[2], slraw[3] };
alignas(gc_thread) char graw[sizeof(gc_thread)];
alignas(object) char oraw[sizeof(object)];
alignas(hash_key) char kraw[sizeof(hash_key)];
alignas(map_t) char mraw[sizeof(map_t)];

// another client may ask for a flush at any time during the collection
void meanwhile() {
    if( vf_choose("flush requested meanwhile", 2) ) {
        G.flushed = true;
        g_stats.flush_time.store(G.new_flush);
    }
}
void visit_object(bucket* b, const std::function<bool(const hash_key&, object&)>& pred) {
    vf_assert(b == G.next && ! G.visited, "each bucket is visited once");
    if( G.progress ) G.g->m_objects_in_bucket = (int)(vf_u32("objects in bucket") & 0xffffff);
    G.visited = true;
    if( G.o == nullptr ) { meanwhile(); return; }
    G.removed = pred(*G.k, *G.o);
}
void visit_bucket(bucket* b, const std::function<bool(const hash_key&, object&)>&) {
    vf_assert(b == G.next, "the buckets are visited one after another");
    vf_assert(G.g->m_objects_in_bucket == 0, "objects are counted per bucket");
    ++G.next;
    G.g->m_objects_in_bucket = 3;
}
void sent_delete(const std::vector<repl_socket*>& s, const hash_key& k) {
    vf_assert(&k == G.k, "the key of the object removed");
    G.deleted_to = &s;
    ++G.deleted;
}
void sent_object(const std::vector<repl_socket*>& s, const hash_key& k, const object& o, bool) {
    vf_assert(&k == G.k && &o == G.o, "the object that survives");
    G.copied_to = &s;
    ++G.copied;
}
}
extern "C" {
static std::time_t t_time(std::time_t* p) { if( p ) *p = G.now; return G.now; }
static int t_dup(int) { ++G.dups; return vf_choose("dup", 2) ? 5 : -1; }
static int t_close(int) { return 0; }
static void t_sleep() {}
static int t_nanosleep(const void*, void*) { return 0; }
}
static void f_gone(file_flusher*) {}
VF_REPLACE("?time", t_time, "gc")
VF_REPLACE("?dup", t_dup, "gc")
VF_REPLACE("?close", t_close, "gc")
VF_REPLACE("?nanosleep", t_nanosleep, "gc")
VF_REPLACE("yrmcds::memcache::file_flusher::~file_flusher()", f_gone, "gc")
VF_REPLACE("yrmcds::memcache::repl_delete", sent_delete, "gc")
VF_REPLACE("yrmcds::memcache::repl_object", sent_object, "gc")
VF_REPLACE("?void std::this_thread::sleep_for<*", t_sleep, "gc")
VF_REPLACE("cybozu::hash_map<yrmcds::memcache::object>::bucket::gc", visit_object, "object")
VF_REPLACE("cybozu::hash_map<yrmcds::memcache::object>::bucket::gc", visit_bucket, "bucket")

namespace {
// progress of a collection so far: anything
void any_progress(gc_thread& g) {
    g.m_objects = vf_u32("objects");
    g.m_objects_under_1k = vf_u32("under 1k");
    g.m_objects_under_4k = vf_u32("under 4k");
    g.m_objects_under_16k = vf_u32("under 16k");
    g.m_objects_under_64k = vf_u32("under 64k");
    g.m_objects_under_256k = vf_u32("under 256k");
    g.m_objects_under_1m = vf_u32("under 1m");
    g.m_objects_under_4m = vf_u32("under 4m");
    g.m_objects_huge = vf_u32("huge");
    g.m_used_memory = vf_size("used memory");
    g.m_conflicts = vf_u32("conflicts");
    g.m_oldest_age = vf_u32("oldest age");
    g.m_largest_object_size = vf_size("largest");
    g.m_last_expirations = vf_u32("expirations");
    g.m_last_evictions = vf_u32("evictions");
}
gc_thread& collector(std::size_t buckets, bool progress = false) {
    map_t& m = *(map_t*)mraw;
    *const_cast<std::size_t*>(&m.m_size) = buckets;
    bucket* b = (bucket*)vf_new(buckets * sizeof(bucket));
    m.m_buckets._M_impl._M_start = b;
    m.m_buckets._M_impl._M_finish = m.m_buckets._M_impl._M_end_of_storage = b + buckets;
    G.next = b;
    static std::vector<repl_socket*> slaves, fresh;
    if( progress || vf_choose("slaves", 2) ) slaves.push_back(SLAVE[0]);
    if( (! progress || buckets != 1) && ! slaves.empty() && vf_choose("new slaves", 2) ) fresh.push_back(SLAVE[0]);
    gc_thread& g = *new (graw) gc_thread(m, slaves, fresh);
    G.g = &g;
    G.progress = progress;
    G.nslaves = slaves.size();
    G.fresh = fresh.size();
    if( progress ) any_progress(g);
    G.now = (std::time_t)vf_u64("now");
    G.flush = (std::time_t)vf_u64("flush time");
    G.new_flush = (std::time_t)vf_u64("new flush time");
    vf_assume(0 < G.now && G.now < 4294967296 && 0 <= G.flush && G.flush < ((std::time_t)1 << 62) && 0 < G.new_flush && G.new_flush < ((std::time_t)1 << 62));
    g_stats.flush_time.store(G.flush);
    yrmcds::g_current_time.store(G.now);
    g_stats.used_memory.store(vf_size("memory in use"));
    g_stats.oldest_age.store(vf_u32("oldest age before"));
    yrmcds::g_config.m_memory_limit = vf_size("memory limit");
    yrmcds::g_config.m_gc_interval = vf_u32("gc interval");
    vf_assume(yrmcds::g_config.m_gc_interval >= 1);
    yrmcds::g_config.m_heap_data_limit = vf_size("heap data limit");
    yrmcds::g_config.m_initial_repl_sleep_delay_usec = vf_u64("delay");
    vf_assume(yrmcds::g_config.m_initial_repl_sleep_delay_usec < 1000000);
    G.flushed = G.visited = G.removed = false;
    G.deleted = G.copied = G.dups = 0;
    return g;
}
}

// one object.  What is decided for it (stats: false) does not depend on the
// progress of the collection, and what is counted (stats: true) for a survivor
// not on why it survives.
namespace {
void one_object(bool stats) {
    gc_thread& g = collector(1, stats);
    object& o = *(object*)oraw;
    G.o = &o;
    new (&o.m_data) cybozu::dynbuf(0);
    new (&o.m_file) std::unique_ptr<yrmcds::tempfile>();
    // contents above the limit are in a file
    std::size_t n = o.m_length = vf_size("object size");
    vf_assume(n < ((std::size_t)1 << 40));
    alignas(yrmcds::tempfile) static char fraw[sizeof(yrmcds::tempfile)];
    yrmcds::tempfile* file = (yrmcds::tempfile*)fraw;
    if( ! stats ) yrmcds::g_config.m_heap_data_limit = n;
    if( n > yrmcds::g_config.m_heap_data_limit ) {
        file->m_length = n;
        *const_cast<int*>(&file->m_fd) = 7;
        o.m_file.reset(file);
    } else {
        o.m_data.m_used = o.m_data.m_capacity = n;
    }
    o.m_flags = vf_u32("flags");
    o.m_exptime = (std::time_t)vf_u64("exptime");
    vf_assume(0 <= o.m_exptime && o.m_exptime < 4294967296);
    o.m_cas = vf_u64("cas");
    o.m_gc_old = vf_u32("age");
    vf_assume(o.m_gc_old != 0xffffffff);
    o.m_lock = vf_choose("locked", 2) ? 12 : -1;
    if( stats ) {
        o.m_exptime = 0;
        g_stats.flush_time.store(G.flush = 0);
        yrmcds::g_config.m_memory_limit = g_stats.used_memory.load();
    }
    hash_key& k = *(hash_key*)kraw;
    G.k = &k;
    k.m_p = nullptr;
    k.m_len = vf_size("key length");
    vf_assume(k.m_len <= 250);
    struct { std::uint32_t n, s[8], conflicts, oldest, exp, ev; std::size_t used, largest; } b = {
        g.m_objects, { g.m_objects_under_1k, g.m_objects_under_4k, g.m_objects_under_16k, g.m_objects_under_64k,
        g.m_objects_under_256k, g.m_objects_under_1m, g.m_objects_under_4m, g.m_objects_huge }, g.m_conflicts,
        g.m_oldest_age, g.m_last_expirations, g.m_last_evictions, g.m_used_memory, g.m_largest_object_size };
    std::uint32_t age = o.m_gc_old;
    bool locked = o.m_lock != -1;
    bool due = (G.flush != 0) & (G.flush <= G.now);
    std::uint32_t hour = 3600 / yrmcds::g_config.m_gc_interval + 1, oldest = g_stats.oldest_age.load();
    std::uint32_t limit = 0;
    if( ! due && g_stats.used_memory.load() > yrmcds::g_config.m_memory_limit )
        limit = oldest < 2 * hour ? (oldest / 2 > 1 ? oldest / 2 : 1) : oldest - hour;
    bool evict = ! due & (limit > 0) & (age >= limit);
    bool expired = (o.m_exptime != 0) & (o.m_exptime <= G.now);
    bool gone = ! locked & (due | evict | expired);
    g.gc();
    vf_assert(G.visited, "the bucket is visited");
    vf_assert(! locked || ! G.removed, "a locked object is never removed");
    vf_assert(G.removed == gone, "removed exactly when a flush is due, memory is short and it is old enough, or it has expired");
    vf_assert(G.deleted == (G.removed && G.nslaves != 0 ? 1 : 0) && (G.deleted == 0 || G.deleted_to == &g.m_slaves), "the removal is sent to all slaves");
    vf_assert(G.copied == (! G.removed && G.fresh != 0 ? 1 : 0) && (G.copied == 0 || G.copied_to == &g.m_new_slaves), "the survivor is sent to new slaves");
    std::uint32_t in = g.m_objects_in_bucket;
    vf_assert(g.m_objects == b.n + ! gone, "survivors are counted");
    unsigned c = (n >= 1024) + (n >= 4096) + (n >= 16384) + (n >= 65536) + (n >= 262144) + (n >= 1048576) + (n >= 4194304);
    std::uint32_t s[8] = { g.m_objects_under_1k, g.m_objects_under_4k, g.m_objects_under_16k, g.m_objects_under_64k,
        g.m_objects_under_256k, g.m_objects_under_1m, g.m_objects_under_4m, g.m_objects_huge };
    for( unsigned i = 0; i < 8; ++i )
        vf_assert(s[i] == b.s[i] + (! gone & (i == c)), "survivors are counted by size");
    vf_assert(g.m_conflicts == b.conflicts + (! gone & (in == 2)), "conflicts are counted");
    std::size_t mem = sizeof(hash_key) + k.m_len + sizeof(object) + (n <= yrmcds::g_config.m_heap_data_limit ? n : 0);
    vf_assert(g.m_used_memory == b.used + (gone ? 0 : mem), "memory of the survivors");
    vf_assert(g.m_largest_object_size == (! gone && n > b.largest ? n : b.largest), "largest survivor");
    vf_assert(g.m_oldest_age == (! gone && age + 1 > b.oldest ? age + 1 : b.oldest), "oldest survivor");
    if( ! gone ) vf_assert(o.m_gc_old == age + 1, "a survivor ages by one");
    vf_assert(g.m_last_evictions == b.ev + (! locked & evict), "evictions");
    vf_assert(g.m_last_expirations == b.exp + (gone & ! due & ! evict), "expirations");
    if( stats ) return;
    if( locked ) vf_cover("locked");
    else if( due ) vf_cover("flushed");
    else if( evict ) vf_cover("evicted");
    else if( expired ) vf_cover("expired");
    else vf_cover("survives");
}
}
VF_PROOF(gc_decision) { one_object(false); }
VF_PROOF(gc_statistics) { one_object(true); }
// a flush requested during the collection stays
VF_PROOF(gc_flush) {
    gc_thread& g = collector(1);
    G.o = nullptr;
    bool due = (G.flush != 0) & (G.flush <= G.now);
    g.gc();
    vf_assert(G.visited, "the bucket is visited");
    vf_assert(g_stats.flush_time.load() == (G.flushed ? (due && G.new_flush == G.flush ? 0 : G.new_flush) : due ? 0 : G.flush),
        "a flush ends when it has been carried out, one requested meanwhile does not");
}
// the slaves told of removals and of survivors
VF_PROOF(gc_new) {
    static std::vector<repl_socket*> slaves, fresh;
    unsigned n = vf_choose("slaves", 3), f = vf_choose("new slaves", 3);
    // new slaves are among the slaves, or not yet
    bool known = vf_choose("new slaves are listed", 2);
    vf_assume(! known || n == 2);
    for( unsigned i = 0; i < n; ++i ) slaves.push_back(SLAVE[i]);
    for( unsigned i = 0; i < f; ++i ) fresh.push_back(SLAVE[known ? i : 2 + i]);
    gc_thread& g = *new (graw) gc_thread(*(map_t*)mraw, slaves, fresh);
    vf_assert(g.m_slaves.size() == (known ? 2 : n + f), "removals go to all slaves, the new ones included");
    for( unsigned i = 0; i < n; ++i ) vf_assert(g.m_slaves[i] == SLAVE[i], "removals go to all slaves, the new ones included");
    if( ! known ) for( unsigned i = 0; i < f; ++i ) vf_assert(g.m_slaves[n + i] == SLAVE[2 + i], "removals go to all slaves, the new ones included");
    vf_assert(g.m_new_slaves.size() == f, "survivors go to the new slaves");
    for( unsigned i = 0; i < f; ++i ) vf_assert(g.m_new_slaves[i] == fresh[i], "survivors go to the new slaves");
    vf_assert(&g.m_hash == (map_t*)mraw, "collects the table given");
    vf_assert(g.m_objects == 0 && g.m_objects_under_1k == 0 && g.m_objects_under_4k == 0 && g.m_objects_under_16k == 0 && g.m_objects_under_64k == 0
        && g.m_objects_under_256k == 0 && g.m_objects_under_1m == 0 && g.m_objects_under_4m == 0 && g.m_objects_huge == 0 && g.m_used_memory == 0
        && g.m_conflicts == 0 && g.m_oldest_age == 0 && g.m_largest_object_size == 0 && g.m_last_expirations == 0 && g.m_last_evictions == 0, "counts start at zero");
}
// every bucket
VF_PROOF(gc_buckets) {
    std::size_t n = vf_size("buckets");
    vf_assume(2 <= n && n <= (1u << 26));
    gc_thread& g = collector(n, true);
    bucket* end = G.next + n;
    yrmcds::g_config.m_memory_limit = g_stats.used_memory.load();      // what is collected is not the point here
    bool due = vf_choose("flush due", 2);
    g_stats.flush_time.store(G.flush = due ? G.now : 0);
    g.gc();
    vf_assert(G.next == end, "every bucket is visited");
    std::time_t t = g_stats.flush_time.load();
    vf_assert(t == (due ? 0 : G.flush), "a flush ends when it has been carried out");
}
