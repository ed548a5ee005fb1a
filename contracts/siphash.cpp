// Contract of src: cybozu/siphash.cpp and of hton/ntoh in cybozu/util.hpp.
// SipHash-2-4 is written here from its paper (Aumasson, Bernstein 2012).
#include "spec.hpp"
#include <cybozu/siphash.hpp>
#include <cybozu/util.hpp>
#include <cybozu/hash_map.hpp>

namespace {
typedef std::uint64_t u64;
u64 le64(const char* p) {
    u64 v = 0;
    for( int i = 7; i >= 0; --i ) v = v << 8 | (unsigned char)p[i];
    return v;
}
inline u64 rotl(u64 x, int b) { return x << b | x >> (64 - b); }
struct sip {
    u64 v0, v1, v2, v3;
    sip(u64 k0, u64 k1): v0(k0 ^ 0x736f6d6570736575ULL), v1(k1 ^ 0x646f72616e646f6dULL),
                         v2(k0 ^ 0x6c7967656e657261ULL), v3(k1 ^ 0x7465646279746573ULL) {}
    void round() {
        v0 += v1; v1 = rotl(v1, 13); v1 ^= v0; v0 = rotl(v0, 32);
        v2 += v3; v3 = rotl(v3, 16); v3 ^= v2;
        v0 += v3; v3 = rotl(v3, 21); v3 ^= v0;
        v2 += v1; v1 = rotl(v1, 17); v1 ^= v2; v2 = rotl(v2, 32);
    }
    void word(u64 m) { v3 ^= m; round(); round(); v0 ^= m; }
    u64 finish() {
        v2 ^= 0xff;
        round(); round(); round(); round();
        return v0 ^ v1 ^ v2 ^ v3;
    }
};
u64 siphash_2_4(u64 k0, u64 k1, const char* p, std::size_t n) {
    sip s(k0, k1);
    std::size_t i = 0;
    for( ; i + 8 <= n; i += 8 ) s.word(le64(p + i));
    u64 last = (u64)n << 56;
    for( std::size_t j = 0; i + j < n; ++j ) last |= (u64)(unsigned char)p[i + j] << (8 * j);
    s.word(last);
    return s.finish();
}
void seed(u64& k0, u64& k1) {
    char* key = (char*)vf_alloc(16, "seed");
    cybozu::siphash24_seed(key);
    k0 = le64(key);
    k1 = le64(key + 8);
}
void check(std::size_t lo, std::size_t hi) {
    vf_unroll(64);
    u64 k0, k1;
    seed(k0, k1);
    std::size_t n = lo + vf_choose("length", (unsigned)(hi - lo + 1));
    char* p = (char*)vf_alloc(n, "key");
    vf_assert(cybozu::siphash24(p, n) == siphash_2_4(k0, k1, p, n), "the hash is SipHash-2-4 of the key under the seed");
}
}

VF_PROOF(siphash_short) { check(0, 31); }
VF_PROOF(siphash_medium) { check(32, 63); }
VF_PROOF(siphash_long) { check(243, 250); }
VF_PROOF(siphash_all) { check(64, 242); }
// any length: never reads outside the key, and changes neither key nor seed
VF_PROOF(siphash_memory) {
    u64 k0, k1;
    seed(k0, k1);
    std::size_t n = vf_size("n");
    vf_assume(n <= ((std::size_t)1 << 40));
    char* p = (char*)vf_alloc(n, "key");
    cybozu::siphash24(p, n);
    vf_assert(cybozu::siphash24("abc", 3) == siphash_2_4(k0, k1, "abc", 3), "the seed stays");
}
// a key object hashes its own bytes, however it was made
VF_PROOF(key_hash) {
    u64 k0, k1;
    seed(k0, k1);
    std::size_t n = 5;
    char* p = (char*)vf_alloc(n, "key");
    cybozu::hash_key k(p, n);
    vf_assert(k.hash() == siphash_2_4(k0, k1, p, n), "the key's hash is that of its bytes");
    vf_assert(k.length() == n, "length");
    vf_same(k.data(), p, n, "bytes");
    cybozu::hash_key c(k);
    vf_assert(c.hash() == k.hash(), "a copy has the same hash");
    vf_assert(c.length() == n, "a copy has the same length");
    vf_same(c.data(), p, n, "a copy has the same bytes");
    cybozu::hash_key m(std::move(c));
    vf_assert(m.hash() == k.hash() && m.length() == n, "moving keeps hash and length");
    vf_same(m.data(), p, n, "moving keeps the bytes");
}
template<typename U> static void order() {
    const std::size_t w = sizeof(U);
    U v = (U)vf_u64("value");
    char* p = (char*)vf_alloc(w, "bytes");
    cybozu::hton(v, p);
    for( std::size_t i = 0; i < w; ++i )
        vf_assert((unsigned char)p[i] == (unsigned char)(v >> (8 * (w - 1 - i))), "hton writes the most significant byte first");
    U r = (U)vf_u64("before");
    cybozu::ntoh(p, r);
    vf_assert(r == v, "ntoh is the inverse of hton");
    char* q = (char*)vf_alloc(w, "input");
    U x;
    cybozu::ntoh(q, x);
    U s = 0;
    for( std::size_t i = 0; i < w; ++i ) s = (U)(((u64)s << 8) | (unsigned char)q[i]);
    vf_assert(x == s, "ntoh reads the most significant byte first");
    char* b = (char*)vf_alloc(w, "back");
    cybozu::hton(x, b);
    vf_same(b, q, w, "hton is the inverse of ntoh");
}
VF_PROOF(byte_order) {
    vf_unroll(16);
    unsigned k = vf_choose("width", 3);
    if( k == 0 ) order<std::uint16_t>();
    else if( k == 1 ) order<std::uint32_t>();
    else order<std::uint64_t>();
}
