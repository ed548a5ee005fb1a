// Replay side of vf.hpp: inputs come from the file named by VF_INPUTS (one
// "u name value" or "b name hex" per line, in the order the proof drew them).
#include "vf.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <pthread.h>
#include <malloc.h>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
namespace {
struct in { char k; std::string name; unsigned long long v; std::vector<unsigned char> b; };
std::vector<in> ins;
std::size_t pos = 0;
void load() {
    static bool done = false;
    if( done ) return;
    done = true;
    const char* f = getenv("VF_INPUTS");
    FILE* fp = f ? fopen(f, "r") : nullptr;
    if( !fp ) return;
    char* line = nullptr; size_t cap = 0;
    while( getline(&line, &cap, fp) > 0 ) {
        std::string s(line);
        while( !s.empty() && s.back() == '\n' ) s.pop_back();
        size_t a = s.find(' '), b = s.find(' ', a+1);
        in i; i.k = s[0]; i.name = s.substr(a+1, b-a-1);
        std::string val = b == std::string::npos ? "" : s.substr(b+1);
        if( i.k == 'u' ) i.v = strtoull(val.c_str(), nullptr, 10);
        else for( size_t k = 0; k + 1 < val.size(); k += 2 )
            i.b.push_back((unsigned char)strtoul(val.substr(k,2).c_str(), nullptr, 16));
        ins.push_back(i);
    }
    free(line); fclose(fp);
}
[[noreturn]] void done(int rc) { fflush(stdout); fflush(stderr); _exit(rc); }
in& next(char k, const char* name) {
    load();
    static in zero;
    if( pos >= ins.size() ) { zero.b.clear(); zero.v = 0; return zero; }   // beyond the recorded prefix
    in& i = ins[pos++];
    std::string want(name);
    for( char& c : want ) if( c == ' ' ) c = '_';
    if( i.k != k || i.name != want ) {
        fprintf(stderr, "REPLAY: diverged at input %zu: recorded %s, asked %s\n", pos-1, i.name.c_str(), name);
        done(78);
    }
    return i;
}
}
extern "C" {
std::uint8_t  vf_u8(const char* n) { return next('u', n).v; }
std::uint16_t vf_u16(const char* n) { return next('u', n).v; }
std::uint32_t vf_u32(const char* n) { return next('u', n).v; }
std::uint64_t vf_u64(const char* n) { return next('u', n).v; }
std::size_t   vf_size(const char* n) { return next('u', n).v; }
bool          vf_bool(const char* n) { return next('u', n).v != 0; }
unsigned      vf_choose(const char* n, unsigned) { return next('u', n).v; }
void* vf_alloc(std::size_t n, const char* name) {
    in& i = next('b', name);
    if( n > (1u<<30) ) done(77);
    char* p = (char*)malloc(n);
    memset(p, 0, n);
    memcpy(p, i.b.data(), i.b.size() < n ? i.b.size() : n);
    return p;
}
void* vf_new(std::size_t n) { if( n > (1u<<30) ) done(77); return malloc(n ? n : 1); }
void vf_fill(void* p, std::size_t n, const char* name) {
    in& i = next('b', name);
    memset(p, 0, n);
    memcpy(p, i.b.data(), i.b.size() < n ? i.b.size() : n);
}
void vf_assume(bool c) { if( !c ) { fprintf(stderr, "REPLAY: assumption not met\n"); done(77); } }
static bool concerns(const char* l) {
    const char* prop = getenv("VF_PROPERTY");
    bool tagged = false;
    for( ; prop && l[0] == 'C' && isdigit(l[1]) && isdigit(l[2]); l += 4 ) {
        tagged = true;
        if( strncmp(l, prop, 3) == 0 ) return true;
        if( l[3] != ',' ) break;
    }
    return ! tagged;
}
bool vf_checking(const char* p) { return concerns(p); }
void vf_assert(bool c, const char* l) { if( ! concerns(l) ) return; if( !c ) { fprintf(stderr, "REPLAY: assertion failed: %s\n", l); done(99); } }
void vf_same(const void* p, const void* q, std::size_t n, const char* l) { if( n != 0 ) vf_assert(memcmp(p, q, n) == 0, l); }
void vf_require(bool c, const char* l) { if( !c ) { fprintf(stderr, "REPLAY: precondition failed: %s\n", l); done(99); } }
void vf_cover(const char*) {}
void vf_stop() { done(0); }
void vf_unroll(unsigned) {}
std::size_t vf_obj_size(const void* p) {
    char name[64]; void* r = nullptr; size_t n = 0;
    __asan_locate_address((void*)p, name, sizeof name, &r, &n);
    return n;
}
bool vf_live(const void* p) { return ! __asan_address_is_poisoned((void*)p); }
bool vf_same_object(const void*, const void*) { return true; }      // only refuted symbolically
bool vf_case(bool c) { return c; }
std::uint64_t vf_concretize(std::uint64_t v) { return v; }
void vf_no_byte(const void* p, std::size_t n, int c) { vf_assume(n == 0 || memchr(p, c, n) == nullptr); }
void vf_all_byte(const void* p, std::size_t n, int c) { for( std::size_t i = 0; i < n; ++i ) vf_assume(((const unsigned char*)p)[i] == (unsigned char)c); }
void vf_word(const void* p, std::size_t n) { for( std::size_t i = 0; i < n; ++i ) vf_assume(!strchr(" \r\n", ((const char*)p)[i]) || !((const char*)p)[i]); }
void vf_all_digits(const void* p, std::size_t n) { for( std::size_t i = 0; i < n; ++i ) vf_assume('0' <= ((const char*)p)[i] && ((const char*)p)[i] <= '9'); }
void vf_all_space(const void* p, std::size_t n) { for( std::size_t i = 0; i < n; ++i ) { unsigned char c = ((const unsigned char*)p)[i]; vf_assume(c == 32 || (9 <= c && c <= 13)); } }
bool vf_bytes_equal(const void* a, const void* b, std::size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
std::uint64_t vf_dec(const char* p, std::size_t n) { std::uint64_t v = 0; while( n-- ) v = v*10 + (*p++ - '0'); return v; }
bool vf_dec_fits(const char* p, std::size_t n) {
    unsigned __int128 v = 0;
    while( n-- ) { v = v*10 + (*p++ - '0'); if( v > 0xffffffffffffffffULL ) return false; }
    return true;
}
std::size_t vf_udec_len(std::uint64_t v) { return std::to_string(v).size(); }
std::uint8_t vf_udec_byte(std::uint64_t v, std::size_t i) { std::string s = std::to_string(v); return i < s.size() ? s[i] : 0; }
bool vf_mutex_held(const void* m) { return ((const pthread_mutex_t*)m)->__data.__lock != 0; }
int  vf_mutexes_held() { return 0; }
bool vf_is_symbolic() { return false; }
}
extern "C" {
__attribute__((weak)) void* tc_malloc(std::size_t n) { return malloc(n); }
__attribute__((weak)) void* tc_calloc(std::size_t n, std::size_t m) { return calloc(n, m); }
__attribute__((weak)) void  tc_free(void* p) { free(p); }
__attribute__((weak)) void* tc_realloc(void* p, std::size_t n) { return realloc(p, n); }
}
VF_NATIVE_MAIN
