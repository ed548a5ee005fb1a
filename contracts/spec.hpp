// Shared vocabulary of the contracts.  Nothing here includes the code under
// proof: oracles are written from the protocol documents.
#ifndef SPEC_HPP
#define SPEC_HPP
#include "vf.hpp"

static inline std::uint8_t  b8(const char* p)   { return (std::uint8_t)*p; }
static inline std::uint16_t be16(const char* p) { return (std::uint16_t)((unsigned)b8(p) << 8 | b8(p+1)); }
static inline std::uint32_t be32(const char* p) { return (std::uint32_t)be16(p) << 16 | be16(p+2); }
static inline std::uint64_t be64(const char* p) { return (std::uint64_t)be32(p) << 32 | be32(p+4); }

// binary protocol expiration time, doc: 0 never; up to 30 days relative; beyond absolute
static const std::int64_t EXP_NONE = -1;
static inline std::int64_t spec_exptime(std::uint32_t t, std::int64_t now) {
    if( t == 0 ) return 0;
    if( t == 0xffffffffu ) return EXP_NONE;
    if( t > 60*60*24*30 ) return t;
    return now + t;
}
#endif
