// Contract of object::incr and object::decr: exact 64-bit decimal arithmetic.
// What counts as a number follows the documentation and the tests of the
// project: white space, then decimal digits; anything after them is ignored.
#include "object.hpp"
using namespace spec;

namespace {
// the old contents start with w spaces, maybe a plus, and k digits
struct number {
    std::size_t w, k, plus;
    bool fits;
    std::uint64_t v;
    number(const any& a, const char* p, bool sign) {
        w = vf_size("spaces");
        k = vf_size("digits");
        plus = sign ? 1 : 0;
        vf_assume(a.n >= 1 && k >= 1 && k <= a.n && w <= a.n && w + plus + k <= a.n);
        vf_all_space(p, w);
        if( sign ) vf_assume(p[w] == '+');
        vf_all_digits(p + w + plus, k);
        char d = p[w + plus];
        vf_assume('0' <= d && d <= '9');
        if( w + plus + k < a.n ) {
            char c = p[w + plus + k];
            vf_assume(c < '0' || '9' < c);
        }
        fits = vf_dec_fits(p + w + plus, k);
        v = vf_dec(p + w + plus, k);
    }
};
// contents that hold no number at all
void not_a_number(const any& a, const char* p) {
    std::size_t w = vf_size("spaces");
    vf_assume(w <= a.n);
    if( a.n == 0 ) return;
    vf_all_space(p, w);
    if( w == a.n ) return;                                  // nothing but white space
    char c = p[w];
    vf_assume(c != ' ' && ! (9 <= c && c <= 13));
    if( c == '+' ) {
        if( w + 1 == a.n ) return;
        c = p[w + 1];
    }
    vf_assume(c < '0' || '9' < c);
}
void unchanged(any& a) {
    check_is(a.o, nullptr, 0, a.old, a.n);
    check_meta(a.o, a.flags, a.exp);
    vf_assert(a.o.cas_unique() == a.cas, "a failed incr or decr does not change the CAS value");
    vf_assert(a.o.m_lock == a.lock, "a failed incr or decr does not change the lock");
}
const char* bytes(const any& a) { return a.o.m_file.get() ? F.data : a.o.m_data.data(); }

void check(any& a, std::uint64_t delta, bool up) {
    bool number_ = vf_choose("holds a number", 2), fits = false;
    std::uint64_t v = 0;
    if( number_ ) {
        number x(a, bytes(a), vf_choose("plus sign", 2));
        fits = x.fits;
        v = x.v;
    } else {
        not_a_number(a, bytes(a));
    }
    bool infile = a.o.m_file.get() != nullptr;
    bool thrown = false;
    std::uint64_t r = 0;
    try {
        r = up ? a.o.incr(delta) : a.o.decr(delta);
    } catch( const object::not_a_number& ) {
        thrown = true;
    }
    if( ! number_ ) {
        vf_cover("no number");
        vf_assert(thrown, "data that holds no decimal number is reported");
    } else if( infile ) {
        vf_cover("too large to be a number");
    } else if( ! fits ) {
        vf_cover("number over 64 bits");
        vf_assert(thrown, "a number over 64 bits is reported");
    } else {
        vf_cover("number");
        vf_assert(! thrown, "a decimal number can be incremented and decremented");
    }
    if( thrown ) {
        unchanged(a);
        return;
    }
    if( ! number_ || ! fits ) return;
    std::uint64_t want = up ? v + delta : (v < delta ? 0 : v - delta);
    vf_assert(r == want, "the new value is reported exactly");
    check_decimal(a.o, want);
    check_meta(a.o, a.flags, a.exp);
    a.check_modified();
}
}
VF_PROOF(object_incr) {
    any a(0);       // erasing is C08
    check(a, vf_u64("delta"), true);
}
VF_PROOF(object_decr) {
    any a(0);       // erasing is C08
    check(a, vf_u64("delta"), false);
}
