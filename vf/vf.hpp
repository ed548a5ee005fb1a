// Proof intrinsics.  Under the verifier each is interpreted symbolically; in a
// replay build they read the recorded counterexample (native.cpp).
#ifndef VF_HPP
#define VF_HPP
#include <cstddef>
#include <cstdint>
extern "C" {
std::uint8_t  vf_u8(const char* name);
std::uint16_t vf_u16(const char* name);
std::uint32_t vf_u32(const char* name);
std::uint64_t vf_u64(const char* name);
std::size_t   vf_size(const char* name);
bool          vf_bool(const char* name);
unsigned      vf_choose(const char* name, unsigned n);   // 0..n-1, one path each
void*         vf_new(std::size_t n);                    // ghost memory, contents unspecified, never freed
void*         vf_alloc(std::size_t n, const char* name); // n arbitrary bytes on the heap
void          vf_fill(void* p, std::size_t n, const char* name);
void          vf_assume(bool);
void          vf_assert(bool, const char* label);
void          vf_same(const void* p, const void* q, std::size_t n, const char* label); // assert that n bytes are equal
bool          vf_checking(const char* prop);   // is this run about that property?  (labels "C03,C05: ..." say whose obligation an assertion is)
void          vf_require(bool, const char* label);
void          vf_cover(const char* label);
[[noreturn]] void vf_stop();
void          vf_unroll(unsigned n);
std::size_t   vf_obj_size(const void* p);
bool          vf_live(const void* p);
bool          vf_same_object(const void* a, const void* b);
bool          vf_case(bool c);
std::uint64_t vf_concretize(std::uint64_t v);
void          vf_no_byte(const void* p, std::size_t n, int c);
void          vf_all_byte(const void* p, std::size_t n, int c);
void          vf_word(const void* p, std::size_t n);      // no space, CR, LF
void          vf_all_digits(const void* p, std::size_t n);
void          vf_all_space(const void* p, std::size_t n); // white space, as isspace() in the C locale
bool          vf_bytes_equal(const void* a, const void* b, std::size_t n);
std::uint64_t vf_dec(const char* p, std::size_t n);
std::size_t   vf_udec_len(std::uint64_t v);               // decimal representation of v: its length
std::uint8_t  vf_udec_byte(std::uint64_t v, std::size_t i); // and its i-th character
bool          vf_dec_fits(const char* p, std::size_t n);
bool          vf_mutex_held(const void* m);
int           vf_mutexes_held();
bool          vf_is_symbolic();
}
struct vf_repl_t { const char* target; void* stub; const char* group; };
#define VF_CAT2(a,b) a##b
#define VF_CAT(a,b) VF_CAT2(a,b)
// callees whose demangled name matches TARGET are replaced by STUB in proofs of GROUP
#define VF_REPLACE(TARGET, STUB, GROUP) \
    extern "C" { __attribute__((used)) const vf_repl_t VF_CAT(vf_repl_, __COUNTER__) = { TARGET, (void*)STUB, GROUP }; }
#define VF_PROOF(name) extern "C" void vf_proof_##name()
#endif
