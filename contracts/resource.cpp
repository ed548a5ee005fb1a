// Contract of cybozu::resource (cybozu/reactor.*) and of the users of its
// descriptor: with any other thread acting on the same connection in between.
//
// What other threads may do (rely): a worker may invalidate the resource at any
// moment; it holds the read lock only while it uses the descriptor.
// What each function guarantees is what the others rely on:
//  - the resource goes from valid to invalid once, and whoever does that tells
//    on_invalidate() once, with the descriptor still open;
//  - the descriptor is used only by the reactor thread while the resource is not
//    closed, or by a worker that holds the read lock and found the resource
//    valid after taking it;
//  - it is closed only by the reactor thread, holding the write lock or
//    destroying the resource, once, and never while the resource is valid.
#include "spec.hpp"
#include <cybozu/reactor.hpp>
#include <cybozu/tcp.hpp>
#include <cybozu/signal.hpp>
#include <new>
using cybozu::resource;
using cybozu::reactor;
using cybozu::tcp_socket;

static struct {
    std::atomic_bool* valid;
    bool other;             // another thread invalidated it meanwhile
    bool worker;            // the function under proof runs on a worker
    bool read, write;       // locks held by this thread
    bool seen_valid;        // found valid while holding the read lock
    bool open, dying;
    unsigned ours, told, requested, closes, used;
    int fd, epoll;
    const resource* r;
} R;

static bool raw(const std::atomic_bool* a) { return *(const bool*)a; }
static void set(std::atomic_bool* a, bool v) { *(bool*)a = v; }
// another worker may invalidate at any point, except while the write lock is held
static void interfere() {
    if( R.valid != nullptr && raw(R.valid) && ! R.write && ! R.dying && vf_choose("another thread invalidates", 2) ) {
        set(R.valid, false);
        R.other = true;
    }
}
static bool at_load(const std::atomic_bool* a, int) {
    if( a == R.valid ) {
        interfere();
        if( raw(a) && R.read ) R.seen_valid = true;
    }
    return raw(a);
}
static void change(std::atomic_bool* a, bool v) {
    if( a == R.valid ) {
        vf_assert(! v || raw(a), "an invalid connection never becomes valid again");
        if( raw(a) && ! v ) ++R.ours;
    }
    set(a, v);
}
static void at_store(std::atomic_bool* a, bool v, int) { if( a == R.valid ) interfere(); change(a, v); }
static bool at_exchange(std::atomic_bool* a, bool v, int) {
    if( a == R.valid ) interfere();
    bool o = raw(a);
    change(a, v);
    return o;
}
static bool at_cas(std::atomic_bool* a, bool& e, bool v, int) {
    if( a == R.valid ) interfere();
    if( raw(a) == e ) { change(a, v); return true; }
    e = raw(a);
    return false;
}
static bool at_cas2(std::atomic_bool* a, bool& e, bool v, int, int) { return at_cas(a, e, v, 0); }
VF_REPLACE("?std::atomic<bool>::load", at_load, "reactor")
VF_REPLACE("?std::atomic<bool>::store", at_store, "reactor")
VF_REPLACE("?std::atomic<bool>::exchange", at_exchange, "reactor")
VF_REPLACE("?std::atomic<bool>::compare_exchange_strong(bool&, bool, std::memory_order)", at_cas, "reactor")
VF_REPLACE("?std::atomic<bool>::compare_exchange_weak(bool&, bool, std::memory_order)", at_cas, "reactor")
VF_REPLACE("?std::atomic<bool>::compare_exchange_strong(bool&, bool, std::memory_order, std::memory_order)", at_cas2, "reactor")
VF_REPLACE("?std::atomic<bool>::compare_exchange_weak(bool&, bool, std::memory_order, std::memory_order)", at_cas2, "reactor")

extern "C" {
static int rw_rdlock(pthread_rwlock_t*) {
    vf_assert(! R.read && ! R.write, "the lock is not taken twice");
    vf_assert(R.worker, "the reactor thread never waits for the workers");
    interfere();
    R.read = true;
    R.seen_valid = false;
    return 0;
}
static int rw_trywrlock(pthread_rwlock_t*) {
    vf_assert(! R.read && ! R.write, "the lock is not taken twice");
    interfere();
    if( vf_choose("a worker holds the lock", 2) ) return 16;
    R.write = true;
    return 0;
}
static int rw_wrlock(pthread_rwlock_t*) {
    vf_assert(! R.read && ! R.write, "the lock is not taken twice");
    interfere();
    R.write = true;
    return 0;
}
static int rw_unlock(pthread_rwlock_t*) {
    vf_assert(R.read != R.write, "only a held lock is released");
    R.read = R.write = false;
    return 0;
}
// any use of the descriptor
static void use(int fd) {
    if( fd == R.epoll ) return;
    vf_assert(fd == R.fd, "only its own descriptor is used");
    vf_assert(R.open, "the descriptor is not used after it was closed");
    vf_assert(! R.worker || (R.read && (R.seen_valid || R.ours != 0)), "a worker uses the descriptor only under the read lock, after finding the connection valid");
    ++R.used;
}
static int k_close(int fd) {
    if( fd == R.epoll ) return 0;
    vf_assert(fd == R.fd && R.open, "the descriptor is closed once");
    vf_assert(! R.worker && (R.write || R.dying), "closed only when no worker can be using it");
    vf_assert(R.dying || ! raw(R.valid), "a valid connection is not closed");
    R.open = false;
    ++R.closes;
    return 0;
}
static int k_epoll_ctl(int, int op, int fd, void*) {
    use(fd);
    if( op == EPOLL_CTL_DEL ) R.requested |= 0x100;
    return 0;
}
static int k_shutdown(int fd, int) { use(fd); return 0; }
static int k_setsockopt(int fd, int, int, const void*, unsigned) { use(fd); return 0; }
static ssize_t k_recv(int fd, void*, std::size_t n, int) {
    use(fd);
    switch( vf_choose("recv", 5) ) {
    case 0: errno = EINTR; if( R.used > 2 ) vf_stop(); return -1;
    case 1: errno = ECONNRESET; return -1;
    case 2: errno = EAGAIN; return -1;
    case 3: return 0;
    }
    std::size_t k = vf_size("received");
    vf_assume(1 <= k && k <= n);
    return (ssize_t)k;
}
}
VF_REPLACE("?pthread_rwlock_rdlock", rw_rdlock, "reactor")
VF_REPLACE("?pthread_rwlock_tryrdlock", rw_rdlock, "reactor")
VF_REPLACE("?pthread_rwlock_trywrlock", rw_trywrlock, "reactor")
VF_REPLACE("?pthread_rwlock_wrlock", rw_wrlock, "reactor")
VF_REPLACE("?pthread_rwlock_unlock", rw_unlock, "reactor")
VF_REPLACE("?close", k_close, "reactor")
VF_REPLACE("?epoll_ctl", k_epoll_ctl, "reactor")
VF_REPLACE("?shutdown", k_shutdown, "reactor")
VF_REPLACE("?setsockopt", k_setsockopt, "reactor")
VF_REPLACE("?recv", k_recv, "reactor")

static void rq_request(reactor*, const resource& r) {
    vf_assert(&r == R.r, "the removal of this connection is requested");
    vf_assert(! raw(R.valid) && R.ours == 1, "removal is requested only by who invalidated the connection");
    ++R.requested;
}
VF_REPLACE("cybozu::reactor::request_removal", rq_request, "worker")

namespace {
// what a derived class does when told
struct probe: public resource {
    probe(int fd): resource(fd) {}
    virtual void on_invalidate(int fd) override {
        vf_assert(fd == R.fd && R.open, "on_invalidate is told the open descriptor");
        vf_assert(! raw(R.valid) && R.ours == 1, "on_invalidate is called by who invalidated the connection");
        ++R.told;
    }
    virtual bool on_readable(int) override { return true; }
    virtual bool on_writable(int) override { return true; }
};
alignas(64) char praw[sizeof(probe)];
alignas(64) char rraw[sizeof(reactor)];
// a registered connection in any reachable state
probe& any(bool worker) {
    R.fd = (int)(vf_u32("fd") & 0xffff);
    R.epoll = 0x10000;
    probe& p = *new (praw) probe(R.fd);
    R.r = &p;
    R.worker = worker;
    p.m_reactor = (reactor*)rraw;
    bool valid = vf_choose("valid", 2), closed = vf_choose("closed", 2);
    vf_assume(! (valid & closed));
    p.m_closed = closed;
    R.open = ! closed;
    R.valid = &p.m_valid;
    set(R.valid, valid);
    R.ours = R.told = R.requested = R.closes = R.used = 0;
    R.other = R.read = R.write = R.seen_valid = R.dying = false;
    return p;
}
void after(probe& p) {
    vf_assert(! R.read && ! R.write, "no lock is left held");
    vf_assert(R.ours <= 1 && R.told == R.ours, "invalidated at most once, and told exactly then");
    vf_assert(p.m_closed == ! R.open, "closed is recorded exactly");
    vf_assert(! (raw(R.valid) && p.m_closed), "a valid connection is open");
    vf_assert(p.m_fd == R.fd, "the descriptor number does not change");
}
}

// on the reactor thread
VF_PROOF(resource_invalidate) {
    probe& p = any(false);
    bool before = raw(R.valid);
    bool r = p.invalidate();
    after(p);
    vf_assert(! raw(R.valid), "invalid afterwards");
    vf_assert(r == (R.ours == 0), "false exactly when this call invalidated it");
    vf_assert((R.ours == 1) == (before & ! R.other), "invalidates unless somebody else did");
    vf_assert(R.closes == 0 && R.requested == 0, "does not close");
    if( r ) vf_cover("already invalid"); else vf_cover("invalidated");
}
VF_PROOF(resource_hangup) {
    probe& p = any(false);
    bool before = raw(R.valid);
    bool r = vf_choose("error", 2) ? p.resource::on_error(R.fd) : p.resource::on_hangup(R.fd);
    after(p);
    vf_assert(! raw(R.valid) && r == (R.ours == 0), "invalidated, and reported");
    vf_assert((R.ours == 1) == (before & ! R.other), "invalidates unless somebody else did");
}
VF_PROOF(resource_try_close) {
    probe& p = any(false);
    bool was = p.m_closed;
    vf_assume(! raw(R.valid));      // callers: after invalidation only (reactor_remove, reactor_fix)
    bool r = p.try_close();
    after(p);
    if( r ) { vf_assert(! R.open && R.closes == (was ? 0 : 1), "closed, once"); vf_cover("closed"); }
    else { vf_assert(R.closes == 0, "not closed while a worker uses it"); vf_cover("in use"); }
}
VF_PROOF(resource_destroy) {
    probe& p = any(false);
    bool was = p.m_closed;
    R.dying = true;                 // no worker has access any more: C25
    p.~probe();
    vf_assert(! R.open && R.closes == (was ? 0 : 1), "destruction closes the descriptor unless it was closed");
    if( was ) vf_cover("was closed"); else vf_cover("was open");
}
// on a worker
VF_PROOF(resource_with_fd) {
    probe& p = any(true);
    bool before = raw(R.valid);
    unsigned calls = 0;
    bool result = vf_choose("result", 2);
    bool r = p.with_fd([&](int fd) -> bool { use(fd); ++calls; return result; });
    after(p);
    vf_assert(R.closes == 0, "a worker never closes the descriptor");
    vf_assert(calls <= 1, "at most once");
    if( ! before ) vf_assert(calls == 0, "not called on an invalid connection");
    vf_assert(calls == 1 || ! raw(R.valid), "called unless invalid");
    vf_assert(r == (calls == 1 & result), "result");
    if( calls == 1 && ! result ) vf_assert(! raw(R.valid), "failure invalidates");
    vf_assert(R.requested == R.ours, "removal is requested exactly by who invalidated");
    vf_assert(R.ours == 0 || (calls == 1 && ! result), "invalidates only on failure");
    if( calls == 0 ) vf_cover("refused"); else if( result ) vf_cover("kept"); else vf_cover("failed");
}
VF_PROOF(resource_invalidate_and_close) {
    probe& p = any(true);
    bool before = raw(R.valid);
    p.invalidate_and_close();
    after(p);
    vf_assert(! raw(R.valid), "invalid afterwards");
    vf_assert(R.closes == 0 && R.requested == R.ours, "removal is requested exactly by who invalidated");
    vf_assert((R.ours == 1) == (before & ! R.other), "invalidates unless somebody else did");
}

// ---- the reactor
// Its table, for the generic connection p: whether p is registered.
namespace {
typedef std::unordered_map<int, std::unique_ptr<resource>> rmap;
typedef rmap::iterator rit;
typedef std::__detail::_Hash_node<rmap::value_type, false> rnode;
alignas(rnode) char nraw[sizeof(rnode)];
struct { bool in; unsigned erased; bool unregistered; } M;
rnode* node() { return (rnode*)nraw; }
rit map_find(rmap*, const int& fd) {
    if( M.in && fd == R.fd ) return rit(node());
    return rit(nullptr);
}
rit map_end(rmap*) { return rit(nullptr); }
rit map_erase(rmap*, rit it) {
    vf_assert(it._M_cur == node() && M.in, "the entry of the connection is erased");
    node()->_M_v().second.reset();
    M.in = false;
    ++M.erased;
    return rit(nullptr);
}
std::size_t map_erase_key(rmap*, const int& fd) {
    if( ! (M.in && fd == R.fd) ) return 0;
    map_erase(nullptr, rit(node()));
    return 1;
}
void put(resource* p) {
    M.in = true;
    M.erased = 0;
    new (node()) rnode();
    new ((void*)node()->_M_valptr()) rmap::value_type(R.fd, std::unique_ptr<resource>(p));
}
}
VF_REPLACE("?std::unordered_map<int, *>::find(int const&)", map_find, "reactor")
VF_REPLACE("?std::unordered_map<int, *>::end()", map_end, "reactor")
VF_REPLACE("?std::unordered_map<int, *>::erase(std::__detail::_Node_iterator<*)", map_erase, "reactor")
VF_REPLACE("?std::unordered_map<int, *>::erase(int const&)", map_erase_key, "reactor")

namespace {
reactor& any_reactor() {
    reactor& r = *(reactor*)rraw;
    *const_cast<int*>(&r.m_fd) = R.epoll;
    new (&r.m_readables) std::vector<int>();
    new (&r.m_readables_copy) std::vector<int>();
    new (&r.m_drop_req) std::vector<int>();
    new (&r.m_drop_req_copy) std::vector<int>();
    new (&r.m_garbage) std::vector<std::unique_ptr<resource>>();
    new (&r.m_garbage_copy) std::vector<std::unique_ptr<resource>>();
    new (&r.m_lock) cybozu::spinlock();
    return r;
}
}
// removal of an invalidated connection
VF_PROOF(reactor_remove) {
    probe& p = any(false);
    vf_assume(! raw(R.valid) && ! p.m_closed);      // poll: only then
    reactor& r = any_reactor();
    put(&p);
    int other = (int)(vf_u32("other") & 0xffff);
    vf_assume(other != R.fd);
    bool a = vf_choose("readable", 2), b = vf_choose("other readable", 2);
    if( a ) r.m_readables.push_back(R.fd);
    if( b ) r.m_readables.push_back(other);
    r.remove_resource(R.fd);
    after(p);
    vf_assert(! M.in && M.erased == 1, "the connection is unregistered");
    vf_assert((R.requested & 0x100) != 0, "and no longer polled");
    vf_assert(r.m_garbage.size() == 1 && r.m_garbage[0].get() == &p, "kept until every worker has let go of it");
    vf_assert(r.m_readables.size() == b && (! b || r.m_readables[0] == other), "not called again as readable");
    r.m_garbage[0].release();
    if( R.open ) vf_cover("in use"); else vf_cover("closed");
}
// garbage is closed as early as possible, destroyed at gc()
VF_PROOF(reactor_garbage) {
    probe& p = any(false);
    vf_assume(! raw(R.valid));
    probe* q = new probe(R.fd);
    q->m_closed = p.m_closed;
    set(&q->m_valid, false);
    R.valid = &q->m_valid;
    bool was = p.m_closed;
    reactor& r = any_reactor();
    bool some = vf_choose("garbage", 2);
    if( some ) r.m_garbage.emplace_back(q);
    bool f = r.fix_garbage();
    vf_assert(f == some && r.m_garbage.empty() && r.m_garbage_copy.size() == some, "the garbage is set aside");
    if( ! some ) { vf_assert(R.closes == 0, "nothing else is closed"); return; }
    after(*q);
    if( R.open ) vf_cover("in use"); else vf_cover("closed");
    // the next removals are not destroyed with these
    R.dying = true;
    r.gc();
    vf_assert(r.m_garbage_copy.empty(), "destroyed");
    vf_assert(! R.open && R.closes == (was ? 0 : 1), "closed once");
    vf_assert(! vf_live(q), "destroyed once");
}

// ---- the event loop: p stands for the connection looked up last
namespace {
struct { int fd; bool looked, failed, removed; unsigned readable; int drop[2]; unsigned ndrop, dropped, reads; bool epolled, events; int nevents; } P;
bool event(int fd) {
    vf_assert(P.looked && fd == P.fd, "the connection is told its own descriptor");
    vf_assert(! P.failed && ! P.removed, "nothing is called on a removed connection");
    bool ok = vf_choose("event result", 2);
    P.failed = ! ok;
    return ok;
}
struct listener: public resource {
    listener(int fd): resource(fd) {}
    virtual bool on_readable(int fd) override { if( ! P.epolled ) ++P.reads; return event(fd); }
    virtual bool on_writable(int fd) override { return event(fd); }
    virtual bool on_hangup(int fd) override { return event(fd); }
    virtual bool on_error(int fd) override { return event(fd); }
};
std::unique_ptr<resource>& map_index(rmap*, const int& fd) {
    vf_assert(! P.failed || P.removed, "a connection that failed is removed");
    P.fd = fd;
    P.looked = true;
    P.failed = P.removed = false;
    return node()->_M_v().second;
}
void poll_remove(reactor*, int fd) {
    if( P.looked && P.failed && fd == P.fd && ! P.removed ) { P.removed = true; return; }
    vf_assert(! P.failed || P.removed, "a connection that failed is removed");
    vf_assert(! P.epolled && P.dropped < P.ndrop && P.drop[P.dropped] == fd, "only a connection that failed, or whose removal was requested, is removed, once");
    ++P.dropped;
}
int poll_wait(int, epoll_event* ev, int n, int) {
    vf_assert(! P.failed || P.removed, "a connection that failed is removed");
    P.looked = false;
    P.epolled = true;
    if( vf_choose("epoll_wait fails", 2) ) { errno = EINTR; return -1; }
    if( ! P.events ) return 0;
    P.nevents = (int)vf_u32("events");
    vf_assume(0 <= P.nevents && P.nevents <= n);
    vf_fill(ev, sizeof(epoll_event) * (std::size_t)P.nevents, "ready");
    return P.nevents;
}
}
VF_REPLACE("?std::unordered_map<int, *>::operator[](int const&)", map_index, "poll")
VF_REPLACE("cybozu::reactor::remove_resource(int)", poll_remove, "poll")
VF_REPLACE("epoll_wait", poll_wait, "poll")
namespace {
reactor& polled() {
    R.epoll = 0x10000;
    reactor& r = any_reactor();
    alignas(listener) static char lraw[sizeof(listener)];
    listener* l = new (lraw) listener(1);
    new (node()) rnode();
    new ((void*)node()->_M_valptr()) rmap::value_type(1, std::unique_ptr<resource>(l));
    P.looked = P.failed = P.removed = P.epolled = P.events = false;
    P.dropped = P.reads = P.ndrop = 0;
    return r;
}
}
VF_PROOF(reactor_poll_lists) {
    reactor& r = polled();
    unsigned nr = vf_choose("readable", 3);
    int f0 = (int)vf_u32("readable 0"), f1 = (int)vf_u32("readable 1");
    if( nr > 0 ) r.m_readables.push_back(f0);
    if( nr > 1 ) r.m_readables.push_back(f1);
    P.ndrop = vf_choose("removal requests", 3);
    P.drop[0] = (int)vf_u32("request 0");
    P.drop[1] = (int)vf_u32("request 1");
    if( P.ndrop > 0 ) r.m_drop_req.push_back(P.drop[0]);
    if( P.ndrop > 1 ) r.m_drop_req.push_back(P.drop[1]);
    r.poll();
    vf_assert(! P.failed || P.removed, "a connection that failed is removed");
    vf_assert(P.reads == (nr == 2 && f0 == f1 ? 1 : nr), "each connection waiting for a worker is called once");
    vf_assert(P.dropped == P.ndrop && r.m_drop_req.empty() && r.m_drop_req_copy.empty(), "every requested removal is done once");
    vf_assert(r.m_readables.empty() && r.m_readables_copy.empty(), "each waiting connection is called once");
}
VF_PROOF(reactor_poll_events) {
    reactor& r = polled();
    P.events = true;
    r.poll();
    vf_assert(P.epolled, "events are awaited");
    vf_assert(! P.failed || P.removed, "a connection that failed is removed");
}

// ---- operations of a TCP connection
namespace {
bool s_send(tcp_socket*, int fd, const char*, std::size_t, std::unique_lock<std::mutex>&) { use(fd); return vf_choose("sent", 2); }
bool s_sendv(tcp_socket*, int fd, const tcp_socket::iovec*, int, std::unique_lock<std::mutex>&) { use(fd); return vf_choose("sent", 2); }
bool s_pending(tcp_socket*, int fd) { use(fd); return vf_choose("written", 2); }
void cv_nop(std::condition_variable*) {}
struct tprobe: public tcp_socket {
    tprobe(int fd): tcp_socket(fd) {}
    virtual void on_invalidate(int fd) override {
        vf_assert(fd == R.fd && R.open, "on_invalidate is told the open descriptor");
        vf_assert(! raw(R.valid) && R.ours == 1, "on_invalidate is called by who invalidated the connection");
        ++R.told;
        tcp_socket::on_invalidate(fd);
    }
    virtual bool on_readable(int) override { return true; }
};
alignas(64) char traw[sizeof(tprobe)];
tprobe& any_tcp(bool worker) {
    R.fd = (int)(vf_u32("fd") & 0xffff);
    R.epoll = 0x10000;
    R.worker = false;
    R.open = true;
    tprobe& p = *new (traw) tprobe(R.fd);
    R.r = &p;
    R.worker = worker;
    p.m_reactor = (reactor*)rraw;
    bool valid = vf_choose("valid", 2), closed = vf_choose("closed", 2);
    vf_assume(! (valid & closed));
    p.m_closed = closed;
    p.m_shutdown = vf_choose("shutdown", 2);
    R.open = ! closed;
    R.valid = &p.m_valid;
    set(R.valid, valid);
    R.ours = R.told = R.requested = R.closes = R.used = 0;
    R.other = R.read = R.write = R.seen_valid = R.dying = false;
    return p;
}
void after(tprobe& p, bool before, bool r) {
    vf_assert(! R.read && ! R.write && vf_mutexes_held() == 0, "no lock is left held");
    vf_assert(R.ours <= 1 && R.told == R.ours, "invalidated at most once, and told exactly then");
    vf_assert(R.closes == 0 && p.m_closed == ! R.open, "a worker never closes the descriptor");
    vf_assert(R.requested == R.ours, "removal is requested exactly by who invalidated");
    if( ! before ) vf_assert(! r && R.used == 0, "an operation on an invalid connection fails without touching the descriptor");
    vf_assert(r || ! raw(R.valid), "fails only if the connection is invalid, or gets so");
}
}
VF_REPLACE("cybozu::tcp_socket::_send", s_send, "tcp")
VF_REPLACE("cybozu::tcp_socket::_sendv", s_sendv, "tcp")
VF_REPLACE("cybozu::tcp_socket::write_pending_data", s_pending, "tcp")
VF_REPLACE("?std::condition_variable::notify_all", cv_nop, "tcp")
VF_REPLACE("?std::condition_variable::notify_one", cv_nop, "tcp")
VF_REPLACE("?std::condition_variable::condition_variable", cv_nop, "tcp")
VF_REPLACE("?std::condition_variable::~condition_variable", cv_nop, "tcp")
VF_PROOF(tcp_operations) {
    tprobe& p = any_tcp(true);
    bool before = raw(R.valid);
    std::size_t n = vf_size("length");
    const char* d = (const char*)vf_alloc(n, "data");
    tcp_socket::iovec v[2] = { { d, n }, { d, n } };
    bool flush = vf_choose("flush", 2), r = false;
    switch( vf_choose("operation", 4) ) {
    case 0: r = p.send(d, n, flush); break;
    case 1: r = p.sendv(v, 2, flush); break;
    case 2: r = p.send_close(d, n); break;
    case 3: r = p.sendv_close(v, 2); break;
    }
    after(p, before, r);
    if( r ) vf_cover("sent"); else if( before ) vf_cover("failed"); else vf_cover("refused");
}
VF_PROOF(tcp_receive) {
    tprobe& p = any_tcp(true);
    bool before = raw(R.valid);
    cybozu::dynbuf b(64);
    tcp_socket::recv_result r = p.receive(b, 64);
    after(p, before, r != tcp_socket::recv_result::RESET);
    if( r == tcp_socket::recv_result::OK ) vf_cover("received");
    else if( r == tcp_socket::recv_result::AGAIN ) vf_cover("again");
    else vf_cover("ended");
}
VF_PROOF(tcp_writable) {
    tprobe& p = any_tcp(false);
    vf_assume(! p.m_closed);
    bool r = p.tcp_socket::on_writable(R.fd);
    vf_assert(R.ours <= 1 && R.told == R.ours && R.closes == 0 && R.requested == 0, "told exactly when invalidated");
    vf_assert(r == (R.ours == 0), "false exactly when this call invalidated it");
}
