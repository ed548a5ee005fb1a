// Contract of yrmcds::memcache::binary_request (src/memcache/memcache.cpp)
#include "spec.hpp"
#include <src/memcache/memcache.hpp>
#include <src/global.hpp>
using namespace yrmcds::memcache;

namespace {
enum shape { S_UNKNOWN, S_GET, S_STORE, S_APPEND, S_KEYONLY, S_INCDEC, S_TOUCH, S_FLUSH, S_STAT, S_KEYS, S_FREE };

// opcode -> request layout (protocol document, docs/locking.md, docs/keys.md)
shape shape_of(unsigned op) {
    switch( op ) {
    case 0x00: case 0x09: case 0x0c: case 0x0d:              // Get GetQ GetK GetKQ
    case 0x1d: case 0x1e: case 0x23: case 0x24:              // GaT*
    case 0x46: case 0x47: case 0x48: case 0x49: return S_GET; // LaG*
    case 0x01: case 0x11: case 0x02: case 0x12: case 0x03: case 0x13:
    case 0x4a: case 0x4b: return S_STORE;
    case 0x0e: case 0x0f: case 0x19: case 0x1a: return S_APPEND;
    case 0x04: case 0x14: case 0x40: case 0x41: case 0x42: case 0x43: return S_KEYONLY;
    case 0x05: case 0x15: case 0x06: case 0x16: return S_INCDEC;
    case 0x1c: return S_TOUCH;
    case 0x08: case 0x18: return S_FLUSH;
    case 0x10: return S_STAT;
    case 0x50: return S_KEYS;
    case 0x07: case 0x17: case 0x0b: case 0x0a: case 0x44: case 0x45: return S_FREE;
    default: return S_UNKNOWN;
    }
}
bool quiet_of(unsigned op) {
    switch( op ) {
    case 0x09: case 0x0d: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
    case 0x18: case 0x19: case 0x1a: case 0x1e: case 0x24:
    case 0x41: case 0x43: case 0x45: case 0x47: case 0x49: case 0x4b: return true;
    default: return false;
    }
}
bool eq(const char* p, const char* lit, std::size_t n) {
    return vf_case(vf_bytes_equal(p, lit, n));
}
}

VF_PROOF(binary_parse) {
    std::size_t n = vf_size("len");
    vf_assume(n > 0);
    const char* buf = (const char*)vf_alloc(n, "buf");
    std::int64_t now = (std::int64_t)vf_u64("now");
    vf_assume(0 <= now && now < ((std::int64_t)1 << 60));
    yrmcds::g_current_time.store(now);
    binary_request r(buf, n);

    if( n < 24 ) {
        vf_cover("short header");
        vf_assert(r.length() == 0, "incomplete header is not consumed");
        return;
    }
    std::uint64_t total = be32(buf + 8);
    if( n < 24 + total ) {
        vf_cover("short body");
        vf_assert(r.length() == 0, "incomplete body is not consumed");
        return;
    }
    vf_assert(r.length() == 24 + total, "a whole request takes exactly header and body");

    unsigned op = b8(buf + 1);
    std::uint64_t kl = be16(buf + 2), el = b8(buf + 4);
    shape s = shape_of(op);
    bool ok = r.status() == binary_status::OK;
    if( kl > 250 ) { vf_cover("long key"); vf_assert(!ok, "key over 250 bytes is an error"); return; }
    if( kl + el > total ) { vf_assert(!ok, "key and extras beyond the body are an error"); return; }
    std::uint64_t dl = total - kl - el;
    if( dl > (30u << 20) ) { vf_cover("too large"); vf_assert(!ok, "data over the size limit is an error"); return; }
    if( s == S_UNKNOWN ) { vf_cover("unknown"); vf_assert(r.status() == binary_status::UnknownCommand, "unknown opcode is reported as such"); return; }
    bool wf;
    switch( s ) {
    case S_GET:    wf = (el == 0 || el == 4) && kl > 0 && dl == 0; break;
    case S_STORE:  wf = el == 8 && kl > 0 && dl > 0; break;
    case S_APPEND: wf = el == 0 && kl > 0 && dl > 0; break;
    case S_KEYONLY:wf = el == 0 && kl > 0 && dl == 0; break;
    case S_INCDEC: wf = el == 20 && kl > 0 && dl == 0; break;
    case S_TOUCH:  wf = el == 4 && kl > 0 && dl == 0; break;
    case S_FLUSH:  wf = (el == 0 || el == 4) && kl == 0 && dl == 0; break;
    case S_STAT:   wf = el == 0 && dl == 0; break;
    case S_KEYS:   wf = el == 0 && dl == 0; break;
    default:       wf = el == 0 && kl == 0 && dl == 0; break;   // Quit Version Noop UnlockAll: no validation promised
    }
    if( ! wf ) {
        vf_cover("malformed");
        if( s != S_FREE ) vf_assert(!ok, "lengths inconsistent with the opcode are an error");
        return;
    }
    vf_assert(ok, "a well-formed request is accepted");
    if( ! ok ) return;
    vf_assert((unsigned)r.command() == op, "command is the opcode");
    vf_assert(r.quiet() == quiet_of(op), "quiet iff the opcode is a quiet one");
    vf_assert(r.opaque() == buf + 12, "opaque is the request's");
    vf_assert(r.cas_unique() == be64(buf + 16), "cas is the request's");
    const char* p; std::size_t len;
    std::tie(p, len) = r.key();
    vf_assert(len == kl, "key length");
    if( kl > 0 ) vf_assert(p == buf + 24 + el, "key starts after the extras");
    std::tie(p, len) = r.data();
    vf_assert(len == dl, "data length");
    if( dl > 0 ) vf_assert(p == buf + 24 + el + kl, "data starts after the key");
    const char* x = buf + 24;
    switch( s ) {
    case S_GET:
        vf_cover("get");
        vf_assert(r.exptime() == (el == 4 ? spec_exptime(be32(x), now) : EXP_NONE), "get: expiration time");
        break;
    case S_STORE:
        vf_cover("store");
        vf_assert(r.flags() == be32(x), "store: flags");
        vf_assert(r.exptime() == spec_exptime(be32(x + 4), now), "store: expiration time");
        break;
    case S_INCDEC:
        vf_cover("incdec");
        vf_assert(r.value() == be64(x), "incr/decr: amount");
        vf_assert(r.initial() == be64(x + 8), "incr/decr: initial value");
        vf_assert(r.exptime() == spec_exptime(be32(x + 16), now), "incr/decr: expiration time");
        break;
    case S_TOUCH:
        vf_assert(r.exptime() == spec_exptime(be32(x), now), "touch: expiration time");
        break;
    case S_FLUSH:
        vf_cover("flush");
        vf_assert(r.exptime() == (el == 4 && be32(x) != 0 ? spec_exptime(be32(x), now) : now), "flush: time (none or 0: now)");
        break;
    case S_STAT: {
        vf_cover("stat");
        stats_t want = stats_t::GENERAL;
        if( kl == 8 && eq(x, "settings", 8) ) want = stats_t::SETTINGS;
        else if( kl == 5 && eq(x, "items", 5) ) want = stats_t::ITEMS;
        else if( kl == 5 && eq(x, "sizes", 5) ) want = stats_t::SIZES;
        else if( kl == 3 && eq(x, "ops", 3) ) want = stats_t::OPS;
        vf_assert(r.stats() == want, "stat: category");
        break; }
    default:
        break;
    }
}
