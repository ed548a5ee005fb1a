// Contract of what a connection sends (cybozu/tcp.*): tcp_socket::_send, _sendv,
// write_pending_data, and send, sendv, send_close, sendv_close around them.
//
// The bytes kept from earlier (Q), then the message (M), form one string.  The
// kernel takes it from where it lies, in order.  Afterwards, at any position not handed
// over, the byte kept is the byte that was there.  With the length of what is kept,
// that is  Q M = handed over + kept.
#include "spec.hpp"
#include <cybozu/tcp.hpp>
#include <cybozu/reactor.hpp>
#include <cerrno>
#include <new>
#include <system_error>
using cybozu::tcp_socket;

namespace {
enum { FD = 12, MAXBUF = 2, MAXPART = 2 };
const std::size_t SB = 1 << 20;         // one buffer
struct {
    tcp_socket* s;
    std::size_t total;          // length of Q M
    struct { const char *p, *copy; std::size_t n, sent; } src[6];      // the string, and how much was handed over
    unsigned nsrc, kept;        // the first ones are kept from earlier
    std::size_t want;           // length of M
    bool again, failed, woken, full, flushed, told;
    unsigned calls, maxcalls;
    bool result;
} O;

struct probe: public tcp_socket {
    probe(int fd, unsigned n): tcp_socket(fd, n) {}
    virtual void on_invalidate(int) override {}
    virtual bool on_readable(int) override { return true; }
    virtual void on_buffer_full() override { O.full = true; }
};
struct category: public std::error_category {
    virtual const char* name() const noexcept override { return "errors"; }
    virtual std::string message(int) const override { return std::string(); }
    virtual std::error_condition default_error_condition(int e) const noexcept override { return std::error_condition(e, *this); }
};
alignas(64) char praw[sizeof(probe)];
alignas(category) char catraw[sizeof(category)];

std::size_t kept(const tcp_socket& s) {
    std::size_t n = s.m_tmpbuf.size();
    for( const auto& t: s.m_pending )
        n += std::get<1>(t) - std::get<2>(t);
    return n;
}
bool room(const tcp_socket& s, std::size_t n) {
    if( ! s.m_tmpbuf.empty() ) return false;
    if( s.m_pending.empty() ) return true;
    return s.m_free_buffers.size() * SB + SB - std::get<1>(s.m_pending.back()) >= n;
}
std::size_t sent() {
    std::size_t n = 0;
    for( unsigned k = 0; k < O.nsrc; ++k ) n += O.src[k].sent;
    return n;
}
void source(const char* p, std::size_t n, bool mine) {
    const char* c = p;
    if( ! mine ) {
        char* q = (char*)vf_new(n);
        std::memcpy(q, p, n);
        c = q;
    }
    O.src[O.nsrc].p = p;
    O.src[O.nsrc].copy = c;
    O.src[O.nsrc].n = n;
    O.src[O.nsrc].sent = 0;
    ++O.nsrc;
}
// where p lies in the string; all before must have been handed over
unsigned find(const char* p, std::size_t len) {
    for( unsigned k = 0; k < O.nsrc; ++k )
        if( vf_same_object(p, O.src[k].p) ) {
            vf_assert(p == O.src[k].p + O.src[k].sent, "bytes are sent in order");
            vf_assert(len <= O.src[k].n - O.src[k].sent, "no byte is sent twice");
            return k;
        }
    vf_assert(false, "only what is kept and the message are sent");
    vf_stop();
}
void done(unsigned k) {
    for( unsigned j = 0; j < k; ++j )
        vf_assert(O.src[j].sent == O.src[j].n, "bytes are sent in order");
}
int fail() {
    int e = (int)vf_u8("errno");
    vf_assume((e == EINTR) | (e == EAGAIN) | (e == EPIPE) | (e == ECONNRESET));
    errno = e;
    O.again = e == EAGAIN;
    if( O.again && O.maxcalls == 0 ) vf_unroll(MAXBUF + 1);    // what is left fills a few buffers
    O.failed = (e != EAGAIN) & (e != EINTR);
    return -1;
}
void before_write(int fd) {
    vf_assert(fd == FD, "sends on its own connection");
    vf_assert(vf_mutex_held(&O.s->m_lock), "the connection is locked while sending");
    vf_assert(! O.failed, "nothing is sent after an error");
    if( O.maxcalls != 0 ) {
        ++O.calls;
        vf_assume(O.calls <= O.maxcalls);
    }
}
ssize_t k_send(int fd, const void* p, std::size_t len, int) {
    before_write(fd);
    if( len == 0 ) return 0;
    if( vf_bool("fails") ) return fail();
    unsigned k = find((const char*)p, len);
    done(k);
    ssize_t n = (ssize_t)vf_size("accepted");
    vf_assume((n >= 1) & ((std::size_t)n <= len));
    O.src[k].sent += n;
    return n;
}
ssize_t k_writev(int fd, const ::iovec* v, int cnt) {
    before_write(fd);
    vf_assert(cnt >= 1, "something is sent");
    if( O.calls == O.maxcalls || vf_bool("fails") ) return fail();
    std::size_t all = 0;
    for( int k = 0; k < cnt; ++k ) all += v[k].iov_len;
    ssize_t n = (ssize_t)vf_size("accepted");
    vf_assume((n >= 1) & ((std::size_t)n <= all));
    std::size_t left = n;
    for( int k = 0; k < cnt; ++k ) {
        if( v[k].iov_len == 0 ) continue;
        unsigned j = find((const char*)v[k].iov_base, v[k].iov_len);
        std::size_t take = vf_case(left < v[k].iov_len) ? left : v[k].iov_len;
        // a part is begun only after all before it
        for( unsigned i = 0; i < j; ++i )
            vf_assert((take == 0) | (O.src[i].sent == O.src[i].n), "bytes are sent in order");
        O.src[j].sent += take;
        left -= take;
    }
    return n;
}
int k_setsockopt(int fd, int, int name, const void* v, unsigned) {
    if( O.s == nullptr ) return 0;
    vf_assert(fd == FD, "its own connection");
    if( name == TCP_NODELAY ) {
        vf_assert(*(const int*)v == 1, "flushes");
        O.flushed = true;
    }
    return 0;
}
void cv_nop(std::condition_variable*) {}
void cv_notify(std::condition_variable* c) {
    if( O.s != nullptr ) {
        vf_assert(c == &O.s->m_cond_write, "wakes those who wait to send");
        O.told = true;
    }
}
// Waiting lets others drain what is kept, or close the connection.
void cv_wait(std::condition_variable* c, std::unique_lock<std::mutex>& g) {
    tcp_socket& s = *O.s;
    vf_assert(c == &s.m_cond_write && g.owns_lock() && g.mutex() == &s.m_lock, "waits with the connection's lock");
    vf_assert(! s.m_shutdown && ! room(s, O.want), "waits only while buffers are full");
    vf_assert(O.full, "the owner is told that buffers are full");
    vf_cover("waits");
    if( O.maxcalls == 0 ) vf_unroll(0);
    O.woken = true;
    for( unsigned k = 0; k < O.kept; ++k ) O.src[k].sent = O.src[k].n;
    while( ! s.m_pending.empty() ) {
        s.m_free_buffers.push_back(std::get<0>(s.m_pending.back()));
        s.m_pending.pop_back();
    }
    s.m_tmpbuf._M_impl._M_finish = s.m_tmpbuf._M_impl._M_start;
    if( vf_choose("closed meanwhile", 2) ) {
        s.m_free_buffers._M_impl._M_finish = s.m_free_buffers._M_impl._M_start;
        s.m_shutdown = true;
    }
}
// vector<char>: what is erased from the front is dropped
char* v_erase(std::vector<char>* v, __gnu_cxx::__normal_iterator<const char*, std::vector<char>> from, __gnu_cxx::__normal_iterator<const char*, std::vector<char>> to) {
    vf_require(from.base() == v->_M_impl._M_start, "vector::erase: represented from the front only");
    vf_require(to.base() >= from.base() && to.base() <= v->_M_impl._M_finish, "vector::erase: within the vector");
    v->_M_impl._M_start += to.base() - from.base();
    return v->_M_impl._M_start;
}
void v_free(std::_Vector_base<char, std::allocator<char>>*, char*, std::size_t) {}
const std::error_category& k_category() { return *(category*)catraw; }
}
VF_REPLACE("?send", k_send, "output")
VF_REPLACE("?writev", k_writev, "output")
VF_REPLACE("?setsockopt", k_setsockopt, "output")
VF_REPLACE("?std::_V2::system_category", k_category, "output")
VF_REPLACE("?std::_V2::error_category::error_category", cv_nop, "output")
VF_REPLACE("?std::condition_variable::notify_all", cv_notify, "output")
VF_REPLACE("?std::condition_variable::notify_one", cv_notify, "output")
VF_REPLACE("?std::condition_variable::condition_variable", cv_nop, "output")
VF_REPLACE("?std::condition_variable::~condition_variable", cv_nop, "output")
VF_REPLACE("?std::condition_variable::wait(std::unique_lock<std::mutex>&)", cv_wait, "output")
VF_REPLACE("?std::vector<char, std::allocator<char> >::erase(__gnu_cxx::__normal_iterator<char const*, std::vector<char, std::allocator<char> > >, __gnu_cxx::__normal_iterator<char const*, std::vector<char, std::allocator<char> > >)", v_erase, "drain")
VF_REPLACE("?std::_Vector_base<char, std::allocator<char> >::_M_deallocate", v_free, "drain")

namespace {
// any state of a connection with up to MAXBUF buffers
probe& any_state(bool none, bool some) {
    O.s = nullptr;
    O.nsrc = 0;
    new (catraw) category();
    unsigned n = some && (! none || vf_choose("buffers", 2)) ? MAXBUF : 0;
    probe& p = *new (praw) probe(FD, n);
    unsigned used = n == 0 ? 0 : vf_choose("buffers in use", n + 1);
    O.total = 0;
    if( used == 0 ) {
        std::size_t t = vf_size("kept");
        vf_assume(t < ((std::size_t)1 << 40));
        char* m = (char*)vf_alloc(t, "kept bytes");
        p.m_tmpbuf._M_impl._M_start = m;
        p.m_tmpbuf._M_impl._M_finish = p.m_tmpbuf._M_impl._M_end_of_storage = m + t;
        source(m, t, false);
        O.total = t;
    }
    for( unsigned k = 0; k < used; ++k ) {
        char* m = p.m_free_buffers.back();
        p.m_free_buffers.pop_back();
        vf_fill(m, SB, "kept bytes");
        std::size_t len = SB, sent = 0;
        if( k == used - 1 ) len = vf_size("used");
        if( k == 0 ) sent = vf_size("sent");
        vf_assume(len <= SB && sent < len);
        p.m_pending.emplace_back(m, len, sent);
        source(m + sent, len - sent, false);
        O.total += len - sent;
    }
    p.m_shutdown = vf_choose("closing", 2);
    O.s = &p;
    O.kept = O.nsrc;
    if( used != 0 ) vf_unroll(MAXBUF + 1);
    O.again = O.failed = O.woken = O.full = O.flushed = O.told = false;
    O.calls = O.maxcalls = 0;
    return p;
}
void well_formed(const tcp_socket& s, unsigned n) {
    vf_assert(s.m_tmpbuf.empty() || s.m_pending.empty(), "bytes are kept in one place");
    vf_assert(s.m_pending.size() + s.m_free_buffers.size() == n, "no buffer is lost");
    for( unsigned k = 0; k < s.m_pending.size(); ++k ) {
        auto& t = s.m_pending[k];
        vf_assert(std::get<1>(t) <= SB && std::get<2>(t) < std::get<1>(t), "a buffer in use holds bytes to send");
        vf_assert(k + 1 == s.m_pending.size() || std::get<1>(t) == SB, "buffers are filled one after another");
        vf_assert(k == 0 || std::get<2>(t) == 0, "buffers are sent one after another");
    }
}
// everything not handed over is kept, in order
void nothing_lost(const tcp_socket& s) {
    vf_assert(sent() + kept(s) == O.total, "no byte is lost or duplicated");
    if( vf_case(sent() == O.total) ) return;
    unsigned w = vf_choose("which", O.nsrc);
    std::size_t i = vf_size("position");
    vf_assume(O.src[w].sent <= i && i < O.src[w].n);
    char b = O.src[w].copy[i];
    std::size_t o = i - O.src[w].sent;
    for( unsigned k = 0; k < w; ++k ) o += O.src[k].n - O.src[k].sent;
    if( ! s.m_tmpbuf.empty() ) {
        vf_assert(s.m_tmpbuf.data()[o] == b, "bytes are kept unaltered and in order");
        return;
    }
    bool found = false;
    for( unsigned k = 0; k < s.m_pending.size(); ++k ) {
        const auto& t = s.m_pending[k];
        std::size_t n = std::get<1>(t) - std::get<2>(t);
        bool in = ! found & (o < n);
        std::size_t at = in ? o : 0;
        vf_assert(! in | (std::get<0>(t)[std::get<2>(t) + at] == b), "bytes are kept unaltered and in order");
        found |= in;
        o -= n;
    }
    vf_assert(found, "no byte is lost or duplicated");
}
void after_send(const tcp_socket& s, bool r, unsigned n, bool closing) {
    if( r ) {
        vf_assert(! O.failed && ! s.m_shutdown, "no message is accepted by a closing connection");
        well_formed(s, n);
        nothing_lost(s);
        if( vf_case(sent() == O.total) ) { vf_cover("all sent"); return; }
        vf_cover("kept");
    } else {
        vf_assert(O.failed || closing || s.m_shutdown, "a message is refused only when the connection is closing");
        if( closing ) { vf_assert(sent() == 0, "a closing connection sends no more messages"); vf_cover("refused"); }
        else vf_cover("failed");
    }
}
}
static void send_one(bool none, bool some) {
    probe& p = any_state(none, some);
    unsigned n = p.m_free_buffers.size() + p.m_pending.size();
    bool closing = p.m_shutdown;
    std::size_t len = vf_size("length");
    vf_assume(len < ((std::size_t)1 << 40));
    char* m = (char*)vf_alloc(len, "message");
    source(m, len, true);
    O.total += len;
    O.want = len;
    vf_case(room(p, len));
    std::unique_lock<std::mutex> g(p.m_lock);
    bool r = p._send(FD, m, len, g);
    vf_assert(g.owns_lock(), "the lock is kept until the caller releases it");
    after_send(p, r, n, closing);
}
VF_PROOF(out_send) { send_one(true, false); }
VF_PROOF(out_send_buffers) { send_one(false, true); }
static void sendv(bool buffers, int cnt, unsigned calls) {
    probe& p = any_state(! buffers, buffers);
    unsigned n = p.m_free_buffers.size() + p.m_pending.size();
    bool closing = p.m_shutdown;
    tcp_socket::iovec v[MAXPART];
    std::size_t len = 0;
    for( int k = 0; k < cnt; ++k ) {
        v[k].len = vf_size("length");
        vf_assume(v[k].len < ((std::size_t)1 << 40));
        char* m = (char*)vf_alloc(v[k].len, "message");
        source(m, v[k].len, true);
        v[k].p = m;
        len += v[k].len;
    }
    O.total += len;
    O.want = len;
    vf_case(room(p, len));
    O.maxcalls = calls;
    vf_unroll(12);
    std::unique_lock<std::mutex> g(p.m_lock);
    bool r = p._sendv(FD, v, cnt, g);
    vf_assert(g.owns_lock(), "the lock is kept until the caller releases it");
    after_send(p, r, n, closing);
}
VF_PROOF(out_sendv) { sendv(false, 2, 2); }
VF_PROOF(out_sendv_buffers) { sendv(true, 2, 2); }
static void drain(bool none, bool some) {
    probe& p = any_state(none, some);
    unsigned n = p.m_free_buffers.size() + p.m_pending.size();
    vf_unroll(0);
    bool had = O.total != 0, used = ! p.m_pending.empty();
    bool r = p.write_pending_data(FD);
    vf_assert(vf_mutexes_held() == 0, "the lock is released");
    if( O.failed ) {
        vf_assert(! r, "an error closes the connection");
        vf_cover("failed");
        return;
    }
    well_formed(p, n);
    nothing_lost(p);
    if( sent() != O.total ) {
        vf_assert(r && O.again, "sends until the kernel accepts no more");
        if( used ) vf_assert(O.told, "those who wait for room are woken");
        vf_cover("some kept");
        return;
    }
    if( had ) vf_assert(O.flushed, "everything sent is flushed");
    if( p.m_shutdown ) {
        vf_cover("closed");
        vf_assert(! r, "a closing connection is closed when all is sent");
    } else {
        vf_assert(r, "the connection stays open");
        vf_assert(O.told || ! had, "those who wait for room are woken");
        vf_cover("all sent");
    }
}
VF_PROOF(out_drain) { drain(true, false); }
VF_PROOF(out_drain_buffers) { drain(false, true); }
