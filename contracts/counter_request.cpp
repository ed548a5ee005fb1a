// Contract of yrmcds::counter::request (src/counter/counter.cpp), from docs/counter.md
#include "spec.hpp"
#include <src/counter/counter.hpp>
using namespace yrmcds::counter;

VF_PROOF(counter_parse) {
    std::size_t n = vf_size("len");
    vf_assume(n > 0);
    const char* buf = (const char*)vf_alloc(n, "buf");
    request r(buf, n);

    if( n < 12 ) {
        vf_cover("short header");
        vf_assert(r.length() == 0, "incomplete header is not consumed");
        return;
    }
    std::uint64_t total = be32(buf + 4);
    if( n < 12 + total ) {
        vf_cover("short body");
        vf_assert(r.length() == 0, "incomplete body is not consumed");
        return;
    }
    vf_assert(r.length() == 12 + total, "a whole request takes exactly header and body");
    vf_assert(r.opaque() == buf + 8, "opaque is the request's");
    bool ok = r.status() == status::OK;
    if( b8(buf) != 0x90 ) {
        vf_cover("bad magic");
        vf_assert(!ok, "wrong magic is an error");
        return;
    }
    const char* b = buf + 12;
    std::uint64_t nl;
    const char* name;
    switch( b8(buf + 1) ) {
    case 0x00: case 0x10: case 0x11:
        vf_cover("no body");
        vf_assert(ok, "noop, stats and dump are accepted");
        vf_assert((unsigned)r.command() == b8(buf + 1), "command is the opcode");
        return;
    case 0x01:
        if( total < 2 ) { vf_assert(r.status() == status::Invalid, "get: body too short"); return; }
        nl = be16(b); name = b + 2;
        if( nl == 0 ) { vf_assert(r.status() == status::Invalid, "get: empty name"); return; }
        if( 2 + nl > total ) { vf_assert(r.status() == status::Invalid, "get: name beyond the body"); return; }
        vf_cover("get");
        break;
    case 0x02: {
        if( total < 10 ) { vf_assert(r.status() == status::Invalid, "acquire: body too short"); return; }
        std::uint64_t res = be32(b), max = be32(b + 4);
        nl = be16(b + 8); name = b + 10;
        if( res == 0 ) { vf_assert(r.status() == status::Invalid, "acquire: zero resources"); return; }
        if( max < res ) { vf_assert(r.status() == status::Invalid, "acquire: more than the maximum"); return; }
        if( nl == 0 ) { vf_assert(r.status() == status::Invalid, "acquire: empty name"); return; }
        if( 10 + nl > total ) { vf_assert(r.status() == status::Invalid, "acquire: name beyond the body"); return; }
        vf_cover("acquire");
        vf_assert(r.resources() == res, "acquire: resources");
        vf_assert(r.maximum() == max, "acquire: maximum");
        break; }
    case 0x03: {
        if( total < 6 ) { vf_assert(r.status() == status::Invalid, "release: body too short"); return; }
        std::uint64_t res = be32(b);
        nl = be16(b + 4); name = b + 6;
        if( nl == 0 ) { vf_assert(r.status() == status::Invalid, "release: empty name"); return; }
        if( 6 + nl > total ) { vf_assert(r.status() == status::Invalid, "release: name beyond the body"); return; }
        vf_cover("release");
        vf_assert(r.resources() == res, "release: resources");
        break; }
    default:
        vf_cover("unknown");
        vf_assert(r.status() == status::UnknownCommand, "unknown opcode is reported as such");
        return;
    }
    vf_assert(ok, "a well-formed request is accepted");
    vf_assert((unsigned)r.command() == b8(buf + 1), "command is the opcode");
    vf_assert(r.name().len == nl, "name length");
    vf_assert(r.name().p == name, "name is the request's");
}
