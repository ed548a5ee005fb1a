// Contract of yrmcds::memcache::text_request (src/memcache/memcache.cpp)
#include "vf.hpp"
#include <src/memcache/memcache.hpp>
using namespace yrmcds::memcache;

VF_PROOF(text_parse) {
    std::size_t n = vf_size("len");
    vf_assume(n > 0);
    const char* buf = (const char*)vf_alloc(n, "buf");
    text_request r(buf, n);
    vf_assert(r.length() <= n, "length within received bytes");
    vf_cover("parsed");
    if( r.valid() ) {
        vf_assert(r.length() > 0, "valid implies complete");
        vf_cover("valid");
    }
}
