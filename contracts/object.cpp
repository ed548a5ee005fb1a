// Contract of yrmcds::memcache::object (src/memcache/object.*): it holds exactly the
// bytes last stored.  Temporary files are represented by the contract proved in
// tempfile.cpp: write appends, clear empties, read_contents appends the contents.
#include "object.hpp"
using namespace spec;

VF_PROOF(object_new) {
    setup();
    input d("data");
    std::uint32_t flags = vf_u32("flags");
    std::time_t exp = (std::time_t)vf_u64("exptime");
    object o(d.p, d.n, flags, exp);
    vf_cover("stored");
    check_is(o, nullptr, 0, d.p, d.n);
    check_meta(o, flags, exp);
    vf_assert(! o.locked(), "a new object is not locked");
}
VF_PROOF(object_new_number) {
    setup();
    std::uint64_t v = vf_u64("initial");
    std::time_t exp = (std::time_t)vf_u64("exptime");
    object o(v, exp);
    vf_cover("created");
    check_decimal(o, v);
    check_meta(o, 0, exp);
    vf_assert(! o.locked(), "a new object is not locked");
}
VF_PROOF(object_set) {
    any a;
    input d("data");
    std::uint32_t flags = vf_u32("flags");
    std::time_t exp = (std::time_t)vf_u64("exptime");
    a.o.set(d.p, d.n, flags, exp);
    vf_cover("stored");
    check_is(a.o, nullptr, 0, d.p, d.n);
    check_meta(a.o, flags, exp);
    a.check_modified();
}
VF_PROOF(object_append) {
    any a;
    input d("data");
    a.o.append(d.p, d.n);
    vf_cover("appended");
    check_is(a.o, a.old, a.n, d.p, d.n);
    check_meta(a.o, a.flags, a.exp);
    a.check_modified();
}
VF_PROOF(object_prepend) {
    any a;
    input d("data");
    a.o.prepend(d.p, d.n);
    vf_cover("prepended");
    check_is(a.o, d.p, d.n, a.old, a.n);
    check_meta(a.o, a.flags, a.exp);
    a.check_modified();
}
VF_PROOF(object_touch) {
    any a;
    std::time_t exp = (std::time_t)vf_u64("exptime");
    a.o.touch(exp);
    vf_cover("touched");
    check_is(a.o, nullptr, 0, a.old, a.n);
    check_meta(a.o, a.flags, exp);
    vf_assert(a.o.cas_unique() == a.cas, "touch does not change the data, nor the CAS value");
    vf_assert(a.o.m_lock == a.lock, "touch does not change the lock");
}
VF_PROOF(object_move) {
    any a;
    object o(std::move(a.o));
    if( F.owner != nullptr ) vf_assert(F.owner == o.m_file.get(), "the file moves");
    vf_cover("moved");
    check_is(o, nullptr, 0, a.old, a.n);
    check_meta(o, a.flags, a.exp);
    vf_assert(o.cas_unique() == a.cas, "move: CAS value");
}
// reading twice gives the same, into a buffer that held something else before
VF_PROOF(object_read) {
    any a;
    const object& o = a.o;
    dynbuf b(0, false);
    std::size_t used = vf_size("used");
    char* q = b.prepare(used);
    vf_fill(q, used, "garbage");
    b.consume(used);
    const dynbuf& r = o.data(b);
    vf_cover("read");
    vf_assert(r.size() == a.n, "read: size");
    std::size_t i = vf_size("index");
    if( i < a.n ) vf_assert(r.data()[i] == a.old[i], "read: exactly the contents");
    check_is(o, nullptr, 0, a.old, a.n);
    check_meta(o, a.flags, a.exp);
    vf_assert(o.cas_unique() == a.cas, "read: CAS value unchanged");
}
