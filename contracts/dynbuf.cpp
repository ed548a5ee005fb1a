// Contract of cybozu::dynbuf (cybozu/dynbuf.hpp): the buffer holds exactly the
// bytes appended and not yet erased.  Each operation is proved from an arbitrary
// buffer to keep the representation invariant and to change the contents exactly
// as it should; any sequence of operations follows by induction.
#include "spec.hpp"
#include <cybozu/dynbuf.hpp>
#include <cstring>
#include <new>
using cybozu::dynbuf;

namespace {
struct any {
    std::size_t dc, cap, used;
    bool erase;
    alignas(dynbuf) char raw[sizeof(dynbuf)];
    dynbuf* b;
    char* old;          // a copy of the contents
    any(bool e): erase(e) {
        dc = vf_size("default capacity");
        cap = vf_size("capacity");
        used = vf_size("used");
        vf_assume(used <= cap);
        b = new (raw) dynbuf(dc, erase);
        {
            dynbuf t(0, erase);
            if( cap != 0 ) t.m_p = (char*)vf_alloc(cap, "contents");
            t.m_capacity = cap;
            t.m_used = used;
            b->swap(t);
        }
        old = (char*)vf_alloc(used, "copy");
        if( used != 0 ) std::memcpy(old, b->data(), used);
    }
    ~any() {
        const char* p = b->m_p;
        b->~dynbuf();
        if( p != nullptr ) vf_assert(! vf_live(p), "destruction frees the buffer");
    }
};
void check_inv(const dynbuf& b) {
    vf_assert(b.m_used <= b.m_capacity, "used bytes fit the capacity");
    vf_assert(b.size() == b.m_used, "size");
    vf_assert(b.empty() == (b.m_used == 0), "empty");
    if( b.m_capacity != 0 ) {
        vf_assert(b.m_p != nullptr && vf_live(b.m_p), "buffer is allocated");
        vf_assert(vf_obj_size(b.m_p) >= b.m_capacity, "capacity is really allocated");
        vf_assert(b.data() == b.m_p, "data is the head of the buffer");
    }
}
// contents[from, from+n) == want[0, n)
void check_bytes(const dynbuf& b, std::size_t from, const char* want, std::size_t n, const char* what) {
    std::size_t i = vf_size("index");
    if( i < n ) vf_assert(b.data()[from + i] == want[i], what);
}
}

VF_PROOF(dynbuf_new) {
    std::size_t dc = vf_size("default capacity");
    dynbuf b(dc, vf_choose("erase", 2));
    vf_cover("new");
    vf_assert(b.size() == 0 && b.empty(), "a new buffer is empty");
    check_inv(b);
    if( dc != 0 ) vf_assert(b.m_capacity >= dc, "the default capacity is allocated");
}
VF_PROOF(dynbuf_append) {
    any a(vf_choose("erase", 2));
    std::size_t n = vf_size("length");
    const char* p = (const char*)vf_alloc(n, "appended");
    a.b->append(p, n);
    vf_cover("appended");
    check_inv(*a.b);
    vf_assert(a.b->size() == a.used + n, "append: size");
    check_bytes(*a.b, 0, a.old, a.used, "append: earlier contents are kept");
    check_bytes(*a.b, a.used, p, n, "append: the bytes given are at the end");
}
VF_PROOF(dynbuf_prepare) {
    any a(vf_choose("erase", 2));
    std::size_t n = vf_size("length"), k = vf_size("consumed");
    vf_assume(k <= n);
    char* p = a.b->prepare(n);
    check_inv(*a.b);
    vf_assert(a.b->size() == a.used, "prepare: contents unchanged");
    check_bytes(*a.b, 0, a.old, a.used, "prepare: contents are kept");
    if( n == 0 ) { vf_cover("nothing"); return; }
    vf_assert(vf_same_object(p, a.b->data()) && (std::size_t)(p - a.b->data()) == a.used, "prepare: returns the end of the contents");
    vf_assert(vf_obj_size(a.b->data()) - a.used >= n, "prepare: at least the requested space is free");
    vf_assert(a.b->m_capacity - a.used >= n, "prepare: free space is within the capacity");
    char* src = (char*)vf_alloc(k, "filled");
    std::memcpy(p, src, k);
    a.b->consume(k);
    vf_cover("consumed");
    check_inv(*a.b);
    vf_assert(a.b->size() == a.used + k, "consume: size");
    check_bytes(*a.b, 0, a.old, a.used, "consume: earlier contents are kept");
    check_bytes(*a.b, a.used, src, k, "consume: the bytes filled in are at the end");
}
VF_PROOF(dynbuf_erase) {
    any a(vf_choose("erase", 2));
    std::size_t n = vf_size("length");
    bool thrown = false;
    try {
        a.b->erase(n);
    } catch( const std::invalid_argument& ) {
        thrown = true;
    }
    vf_assert(thrown == (n > a.used), "erase: more than the contents is refused");
    check_inv(*a.b);
    if( thrown ) {
        vf_cover("refused");
        vf_assert(a.b->size() == a.used, "erase: a refused erase changes nothing");
        check_bytes(*a.b, 0, a.old, a.used, "erase: a refused erase keeps the contents");
    } else {
        vf_cover("erased");
        vf_assert(a.b->size() == a.used - n, "erase: size");
        check_bytes(*a.b, 0, a.old + n, a.used - n, "erase: the rest is kept in order");
    }
}
VF_PROOF(dynbuf_reset) {
    any a(vf_choose("erase", 2));
    a.b->reset();
    vf_cover("reset");
    check_inv(*a.b);
    vf_assert(a.b->size() == 0 && a.b->empty(), "reset: empty");
}
VF_PROOF(dynbuf_swap) {
    bool e = vf_choose("erase", 2);
    any a(e), b(e);
    a.b->swap(*b.b);
    vf_cover("swapped");
    check_inv(*a.b);
    check_inv(*b.b);
    vf_assert(a.b->size() == b.used && b.b->size() == a.used, "swap: sizes");
    check_bytes(*a.b, 0, b.old, b.used, "swap: contents");
    check_bytes(*b.b, 0, a.old, a.used, "swap: contents");
}
VF_PROOF(dynbuf_move) {
    any a(vf_choose("erase", 2));
    dynbuf m(std::move(*a.b));
    vf_cover("moved");
    check_inv(m);
    vf_assert(m.size() == a.used, "move: size");
    check_bytes(m, 0, a.old, a.used, "move: contents");
    vf_assert(m.m_default_capacity == a.dc && m.m_erase == a.erase, "move: settings");
    std::size_t n = vf_size("length");
    const char* p = (const char*)vf_alloc(n, "appended");
    m.append(p, n);
    vf_assert(m.size() == a.used + n, "move: usable");
}
VF_PROOF(dynbuf_equal) {
    any a(false), b(false);
    bool eq = *a.b == *b.b;
    if( eq ) {
        vf_cover("equal");
        vf_assert(a.used == b.used, "equal buffers have equal sizes");
        std::size_t i = vf_size("index");
        if( i < a.used ) vf_assert(a.old[i] == b.old[i], "equal buffers have equal bytes");
    } else {
        vf_cover("different");
        if( a.used == b.used ) vf_assert(! vf_bytes_equal(a.b->data(), b.b->data(), a.used), "different buffers differ");
    }
}
