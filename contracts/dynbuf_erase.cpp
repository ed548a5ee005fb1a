// dynbuf with erase on: every operation, from any buffer
#include "erase.hpp"
#include <cybozu/dynbuf.hpp>
#include <new>
using cybozu::dynbuf;
namespace {
struct any {
    alignas(dynbuf) char raw[sizeof(dynbuf)];
    dynbuf* b;
    std::size_t used;
    any() {
        std::size_t dc = vf_size("default capacity"), cap = vf_size("capacity");
        used = vf_size("used");
        vf_assume(used <= cap);
        b = new (raw) dynbuf(dc, true);
        b->m_p = nullptr;
        if( cap != 0 ) {
            b->m_p = (char*)std::calloc(cap, 1);
            vf_fill(b->m_p, used, "contents");
        }
        b->m_capacity = cap;
        b->m_used = used;
    }
};
// what was dropped from the buffer is no longer in it
void check(const dynbuf& b) {
    std::size_t i = vf_size("index in buffer");
    if( b.m_p != nullptr && b.m_used <= i && i < vf_obj_size(b.m_p) )
        vf_assert(b.m_p[i] == 0, "bytes dropped from a buffer are overwritten");
}
}
VF_PROOF(erase_append) {
    any a;
    std::size_t n = vf_size("length");
    a.b->append((const char*)vf_alloc(n, "appended"), n);
    vf_cover("appended");
    check(*a.b);
}
VF_PROOF(erase_prepare) {
    any a;
    std::size_t n = vf_size("length");
    char* p = a.b->prepare(n);
    check(*a.b);
    vf_fill(p, n, "filled");
    a.b->consume(n);
    vf_cover("filled");
    check(*a.b);
}
VF_PROOF(erase_erase) {
    any a;
    std::size_t n = vf_size("length");
    vf_assume(n <= a.used);
    a.b->erase(n);
    vf_cover("erased");
    check(*a.b);
}
VF_PROOF(erase_reset) {
    any a;
    a.b->reset();
    vf_cover("reset");
    check(*a.b);
}
VF_PROOF(erase_swap) {
    any a, b;
    a.b->swap(*b.b);
    vf_cover("swapped");
    check(*a.b);
    check(*b.b);
}
VF_PROOF(erase_move) {
    any a;
    alignas(dynbuf) char raw[sizeof(dynbuf)];
    dynbuf& m = *new (raw) dynbuf(std::move(*a.b));
    vf_cover("moved");
    check(m);
    a.b->~dynbuf();
}
VF_PROOF(erase_destroy) {
    any a;
    char* p = a.b->m_p;
    a.b->~dynbuf();
    vf_cover("destroyed");
    if( p != nullptr ) vf_assert(g_frees > 0, "destruction returns the buffer");
}
