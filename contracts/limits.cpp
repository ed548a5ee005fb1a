// Contract of accepting connections (src/memcache/handler.cpp,
// src/counter/handler.cpp, tcp_server_socket in cybozu/tcp.cpp): connections
// beyond a limit are closed at once and get no service.
#include "spec.hpp"
#include <src/memcache/handler.hpp>
#include <src/counter/handler.hpp>
#include <src/counter/sockets.hpp>
#include <src/constants.hpp>
#include <src/config.hpp>
#include <src/global.hpp>
#include <cybozu/tcp.hpp>
#include <cybozu/ip_address.hpp>
#include <cerrno>
#include <new>
namespace mc = yrmcds::memcache;
namespace co = yrmcds::counter;
using yrmcds::g_config;
using cybozu::tcp_socket;
using cybozu::ip_address;

namespace {
enum { FD = 12, LISTEN = 5 };
alignas(64) char hraw[sizeof(mc::handler)];
alignas(64) char craw[sizeof(co::handler)];
alignas(64) char lraw[sizeof(cybozu::tcp_server_socket)];
alignas(64) char rraw[sizeof(cybozu::reactor)];
alignas(64) char slraw[8][64];
alignas(64) char sockraw[sizeof(tcp_socket)];
struct {
    unsigned requests;          // deferred actions registered
    std::function<void()> action;
    // accepting
    int accepted;               // not dealt with yet; -1: none
    tcp_socket* sock;           // what the wrapper made of it
    bool refused, retry, done;
    int err;
} L;
int l_close(int fd) {
    if( L.accepted == -1 ) { vf_assert(fd == FD, "closes only its own descriptor"); return 0; }
    vf_assert(fd == L.accepted && L.refused, "only a refused connection is closed");
    L.accepted = -1;
    return 0;
}
int l_setsockopt(int, int, int, const void*, unsigned) { return 0; }
int l_shutdown(int fd, int) { vf_assert(fd == FD, "closes only its own descriptor"); return 0; }
void l_add_request(yrmcds::syncer*, std::unique_ptr<yrmcds::sync_request> r) {
    ++L.requests;
    L.action = r->m_callback;
}
int l_accept4(int fd, void*, void*, int) {
    vf_assert(fd == LISTEN, "accepts from its own descriptor");
    vf_assert(L.accepted == -1, "every accepted connection is served or closed");
    vf_assert(! L.done, "accepts until there is none");
    L.refused = false;
    if( vf_bool("a connection") ) {
        L.accepted = FD;
        return FD;
    }
    int e = (int)(vf_u8("errno"));
    vf_assume((e == EINTR) | (e == ECONNABORTED) | (e == EMFILE) | (e == ENFILE) | (e == EAGAIN));
    errno = e;
    L.done = (e != EINTR) & (e != ECONNABORTED);
    L.retry = (e == EMFILE) | (e == ENFILE);
    return -1;
}
void l_ip(ip_address*, const void*) {}
void l_add_readable(cybozu::reactor*, const cybozu::resource&) {
    vf_assert(L.retry, "waits only when out of descriptors");
    L.retry = false;
}
void l_add_resource(cybozu::reactor*, std::unique_ptr<cybozu::resource> r, int events) {
    vf_assert(r.get() == L.sock && L.accepted == FD && ! L.refused, "an accepted connection is registered");
    vf_assert((events & (cybozu::reactor::EVENT_IN | cybozu::reactor::EVENT_OUT)) == (cybozu::reactor::EVENT_IN | cybozu::reactor::EVENT_OUT), "for reading and writing");
    r.release();
    L.accepted = -1;
}
}
VF_REPLACE("?close", l_close, "limits")
VF_REPLACE("?setsockopt", l_setsockopt, "limits")
VF_REPLACE("?shutdown", l_shutdown, "limits")
VF_REPLACE("?yrmcds::syncer::add_request", l_add_request, "limits")
VF_REPLACE("?accept4", l_accept4, "limits")
VF_REPLACE("?cybozu::ip_address::ip_address(sockaddr const*)", l_ip, "limits")
VF_REPLACE("?cybozu::reactor::add_readable", l_add_readable, "limits")
VF_REPLACE("?cybozu::reactor::add_resource", l_add_resource, "limits")

namespace {
std::string no_name(const ip_address*) { return std::string(); }
ip_address no_address(int) { return ip_address(); }
}
VF_REPLACE("?cybozu::get_peer_ip_address", no_address, "limits")
VF_REPLACE("?cybozu::ip_address::str", no_name, "limits")

namespace {
mc::handler& any_handler() {
    mc::handler& h = *(mc::handler*)hraw;
    new (&h.m_slaves) std::vector<mc::repl_socket*>();
    new (&h.m_new_slaves) std::vector<mc::repl_socket*>();
    new (&h.m_finder) std::function<cybozu::worker*()>();
    new (&h.m_gc_thread) std::unique_ptr<mc::gc_thread>();
    h.m_slaves.reserve(yrmcds::MAX_SLAVES);
    h.m_new_slaves.reserve(yrmcds::MAX_SLAVES);
    L.accepted = -1;
    L.requests = 0;
    return h;
}
}
VF_PROOF(limit_clients) {
    mc::handler& h = any_handler();
    h.m_is_slave = vf_choose("slave", 2);
    unsigned max = g_config.m_max_connections = vf_u32("maximum");
    std::uint64_t n = vf_u64("connections");
    mc::g_stats.curr_connections.store(n);
    vf_assume(n < ((std::uint64_t)1 << 32));
    auto s = h.make_memcache_socket(FD);
    bool room = max == 0 || n < max;
    if( h.m_is_slave ) {
        vf_cover("slave");
        vf_assert(s.get() == nullptr, "a slave does not serve clients");
    } else if( ! room ) {
        vf_cover("full");
        vf_assert(s.get() == nullptr, "connections beyond the maximum are refused");
    } else {
        vf_cover("accepted");
        vf_assert(s.get() != nullptr, "connections within the maximum are served");
        vf_assert(mc::g_stats.curr_connections.load() == n + 1, "a connection is counted");
        s->on_invalidate(FD);
        vf_assert(mc::g_stats.curr_connections.load() == n, "a connection is counted until it ends");
        s.release();
        return;
    }
    vf_assert(mc::g_stats.curr_connections.load() == n, "a refused connection is not counted");
}
VF_PROOF(limit_counter_clients) {
    co::handler& h = *(co::handler*)craw;
    new (&h.m_finder) std::function<cybozu::worker*()>();
    L.accepted = -1;
    unsigned max = g_config.m_counter_config.m_max_connections = vf_u32("maximum");
    std::uint64_t n = vf_u64("connections");
    co::g_stats.curr_connections.store(n);
    vf_assume(n < ((std::uint64_t)1 << 32));
    auto s = h.make_counter_socket(FD);
    if( max == 0 || n < max ) {
        vf_cover("accepted");
        vf_assert(s.get() != nullptr, "connections within the maximum are served");
        vf_assert(co::g_stats.curr_connections.load() == n + 1, "a connection is counted");
        s->on_invalidate(FD);
        vf_assert(co::g_stats.curr_connections.load() == n, "a connection is counted until it ends");
        s.release();
    } else {
        vf_cover("full");
        vf_assert(s.get() == nullptr, "connections beyond the maximum are refused");
        vf_assert(co::g_stats.curr_connections.load() == n, "a refused connection is not counted");
    }
}
VF_PROOF(limit_slaves) {
    mc::handler& h = any_handler();
    unsigned n = vf_choose("slaves", 6);
    for( unsigned i = 0; i < n; ++i ) h.m_slaves.push_back((mc::repl_socket*)slraw[i]);
    g_config.m_repl_bufsize = vf_choose("buffers", 2);
    auto s = h.make_repl_socket(FD);
    if( n == 5 ) {
        vf_cover("full");
        vf_assert(s.get() == nullptr, "slaves beyond the supported number are refused");
        vf_assert(h.m_slaves.size() == 5 && L.requests == 0, "a refused slave gets no data");
    } else {
        vf_cover("accepted");
        vf_assert(s.get() != nullptr, "slaves are served");
        vf_assert(h.m_slaves.size() == n + 1 && (tcp_socket*)h.m_slaves[n] == s.get(), "a new slave receives changes");
        vf_assert(L.requests == 1 && h.m_new_slaves.empty(), "and its initial data once every worker knows it");
        L.action();
        vf_assert(h.m_new_slaves.size() == 1 && (tcp_socket*)h.m_new_slaves[0] == s.get(), "and its initial data once every worker knows it");
        s.release();
    }
    for( unsigned i = 0; i < n; ++i ) vf_assert((char*)h.m_slaves[i] == slraw[i], "other slaves stay");
}
VF_PROOF(limit_accept) {
    cybozu::tcp_server_socket& s = *(cybozu::tcp_server_socket*)lraw;
    L.accepted = -1;
    L.refused = L.retry = L.done = false;
    L.sock = (tcp_socket*)sockraw;
    *const_cast<int*>(&s.m_fd) = LISTEN;
    s.m_reactor = (cybozu::reactor*)rraw;
    new (&s.m_wrapper) cybozu::tcp_server_socket::wrapper([](int fd, const ip_address&) -> std::unique_ptr<tcp_socket> {
        vf_assert(fd == L.accepted, "the connection accepted is offered");
        L.refused = vf_bool("refused");
        return std::unique_ptr<tcp_socket>(L.refused ? nullptr : L.sock);
    });
    bool more = s.on_readable(LISTEN);
    vf_assert(more, "goes on listening");
    vf_assert(L.accepted == -1, "every accepted connection is served or closed");
    vf_assert(L.done, "accepts until there is none");
    vf_assert(! L.retry, "tries again when out of descriptors");
}

// ---- when the collector runs
VF_PROOF(gc_when) {
    mc::handler& h = any_handler();
    std::time_t now = (std::time_t)vf_u64("now"), flush = (std::time_t)vf_u64("flush time"), last = (std::time_t)vf_u64("last collection");
    vf_assume(0 < now && now < ((std::time_t)1 << 40) && 0 <= flush && flush < ((std::time_t)1 << 62) && 0 <= last && last < ((std::time_t)1 << 40));
    mc::g_stats.flush_time.store(flush);
    std::size_t used = vf_size("memory in use");
    mc::g_stats.used_memory.store(used);
    g_config.m_memory_limit = vf_size("memory limit");
    g_config.m_gc_interval = vf_u32("interval");
    h.m_last_gc = last;
    h.m_consecutive_gcs = (int)(vf_u32("consecutive") & 0xffff);
    bool fresh = vf_choose("new slaves", 2);
    if( fresh ) h.m_new_slaves.push_back((mc::repl_socket*)slraw[0]);
    bool r = h.gc_ready(now);
    if( flush != 0 && now >= flush ) {
        vf_cover("flush due");
        vf_assert(r, "a flush that is due is carried out");
    } else if( used > g_config.m_memory_limit ) {
        vf_cover("memory short");
        vf_assert(r, "a collection starts when memory is short");
    } else if( now > last + (std::time_t)g_config.m_gc_interval ) {
        vf_cover("interval");
        vf_assert(r, "a collection starts when the interval has passed");
    } else if( ! fresh ) {
        vf_cover("none");
        vf_assert(! r, "no collection without a reason");
    }
}
