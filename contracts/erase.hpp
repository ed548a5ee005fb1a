// Secure erase.  Fresh memory is zero here (it holds no object data), so "all the
// bytes that held object data are overwritten" is: a block is all zero when it is
// returned to the allocator, and bytes beyond the contents of a buffer stay zero.
#ifndef ERASE_HPP
#define ERASE_HPP
#include "spec.hpp"
#include <cstdlib>
#include <cstring>
namespace {
unsigned g_frees = 0;
void* erase_malloc(std::size_t n) { return std::calloc(n, 1); }
void erase_free(void* p) {
    if( p == nullptr ) return;
    ++g_frees;
    std::size_t i = vf_size("index in freed block");
    if( i < vf_obj_size(p) ) vf_assert(((const char*)p)[i] == 0, "a block is returned to the allocator only after its data is overwritten");
}
void* erase_realloc(void* p, std::size_t n) {
    void* q = std::calloc(n, 1);
    if( p == nullptr ) return q;
    erase_free(p);          // realloc returns the old block to the allocator as it is
    std::size_t m = vf_obj_size(p);
    std::memcpy(q, p, m < n ? m : n);
    return q;
}
}
VF_REPLACE("?malloc", erase_malloc, "erase")
VF_REPLACE("?tc_malloc", erase_malloc, "erase")
VF_REPLACE("?free", erase_free, "erase")
VF_REPLACE("?tc_free", erase_free, "erase")
VF_REPLACE("?realloc", erase_realloc, "erase")
VF_REPLACE("?tc_realloc", erase_realloc, "erase")
#endif
