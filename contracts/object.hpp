// Objects in arbitrary states, shared by the contracts about single objects.
#ifndef VF_OBJECT_HPP
#define VF_OBJECT_HPP
#include "spec.hpp"
#include <src/memcache/object.hpp>
#include <cstring>
#include <new>

namespace spec {
using yrmcds::memcache::object;
using yrmcds::tempfile;
using yrmcds::g_config;
using cybozu::dynbuf;

// ---- temporary files, by contract (proved in tempfile.cpp).  An object has at most one.
struct file { const tempfile* owner; char* data; std::size_t len; unsigned opened, closed; };
extern file F;
inline void own(const tempfile* t) {
    if( F.owner == nullptr ) { F.owner = t; F.data = nullptr; F.len = 0; }
    vf_assert(F.owner == t, "the object uses its own file");
}
}
namespace spec { file F; }
namespace {
using namespace spec;
void file_write(tempfile* t, const char* p, std::size_t n) {
    own(t);
    vf_assert(t->m_length == F.len, "the recorded length is the file's");
    char* q = (char*)vf_new(F.len + n);
    if( F.len != 0 ) std::memcpy(q, F.data, F.len);
    std::memcpy(q + F.len, p, n);
    F.data = q;
    F.len += n;
    t->m_length = F.len;
}
void file_clear(tempfile* t) {
    own(t);
    F.len = 0;
    t->m_length = 0;
}
void file_read(const tempfile* t, dynbuf* b) {
    own(t);
    if( F.len != 0 ) b->append(F.data, F.len);
}
int file_open(const std::string&) { ++F.opened; F.owner = nullptr; return 7; }
int file_mkostemp(char*, int) { ++F.opened; F.owner = nullptr; return 7; }
int file_unlink(const char*) { return 0; }
int file_close(int) { ++F.closed; return 0; }
}
VF_REPLACE("yrmcds::tempfile::write", file_write, "file")
VF_REPLACE("yrmcds::tempfile::clear", file_clear, "file")
VF_REPLACE("yrmcds::tempfile::read_contents", file_read, "file")
VF_REPLACE("?yrmcds::mkstemp_wrap", file_open, "file")
VF_REPLACE("?mkostemp", file_mkostemp, "file")
VF_REPLACE("?mkostemp64", file_mkostemp, "file")
VF_REPLACE("?unlink", file_unlink, "file")
VF_REPLACE("?close", file_close, "file")

namespace spec {
// erase: -1 both ways
inline void setup(int erase = -1) {
    std::size_t limit = vf_size("heap limit");
    vf_assume(limit >= 4096);           // config.cpp accepts nothing less (C24)
    g_config.m_heap_data_limit = limit;
    g_config.m_secure_erase = erase < 0 ? vf_choose("secure erase", 2) : erase;
}
struct input {
    std::size_t n;
    char* p;
    input(const char* what) { n = vf_size("length"); p = (char*)vf_alloc(n, what); }
};

// an object in any state it can reach: its data in memory, or over the limit and in a file
struct any {
    alignas(object) char raw[sizeof(object)];
    object& o;
    std::size_t n;
    char* old;                  // copy of the contents
    std::uint32_t flags;
    std::time_t exp;
    std::uint64_t cas;
    int lock;
    any(int erase = -1): o(*(object*)raw) {
        setup(erase);
        n = vf_size("size");
        bool infile = vf_choose("in a file", 2);
        init_object(infile);
    }
    void init_object(bool infile) {
        flags = vf_u32("old flags");
        exp = (std::time_t)vf_u64("old exptime");
        vf_assume(0 <= exp);
        cas = vf_u64("old cas");
        lock = (int)vf_u32("lock");
        new (&o.m_data) dynbuf(vf_choose("created by incr", 2) ? 24 : 0, g_config.secure_erase());
        new (&o.m_file) std::unique_ptr<tempfile>();
        o.m_length = n;
        o.m_flags = flags;
        o.m_exptime = exp;
        o.m_cas = cas;
        o.m_gc_old = vf_u32("age");
        o.m_lock = lock;
        if( infile ) {
            vf_assume(n > g_config.heap_data_limit());
            tempfile* t = (tempfile*)::operator new(sizeof(tempfile));
            *const_cast<int*>(&t->m_fd) = 5;
            t->m_length = n;
            F.owner = t;
            F.data = (char*)vf_alloc(n, "contents");
            F.len = n;
            o.m_file.reset(t);
            old = F.data;       // file_write never changes a block it made
        } else {
            vf_assume(n <= g_config.heap_data_limit());
            std::size_t room = vf_size("room");
            dynbuf t(0, g_config.secure_erase());
            if( n != 0 ) {
                t.append((const char*)vf_alloc(n, "contents"), n);
                if( room != 0 ) t.prepare(room);
            }
            o.m_data.swap(t);
            old = (char*)vf_new(n);
            if( n != 0 ) std::memcpy(old, o.m_data.data(), n);
        }
    }
    void check_modified() {
        vf_assert(o.cas_unique() == cas + 1, "a modification changes the CAS value by exactly one");
        vf_assert(o.m_lock == lock, "a modification does not change the lock");
        vf_assert(o.age() == 0, "a modification makes the object young");
    }
};

// representation invariant, and the contents are a[0,na) followed by b[0,nb)
inline void check_is(const object& o, const char* a, std::size_t na, const char* b, std::size_t nb) {
    vf_assert(o.m_length == na + nb, "invariant: the recorded length is the size");
    if( o.m_file.get() != nullptr ) {
        vf_cover("in a file");
        vf_assert(o.m_length > g_config.heap_data_limit(), "only data over the limit is in a file");
        vf_assert(F.owner == o.m_file.get() && o.m_file->length() == F.len, "invariant: the file is live");
    } else {
        vf_cover("in memory");
        vf_assert(o.m_length <= g_config.heap_data_limit(), "data over the limit is in a file");
    }
    vf_assert(o.size() == na + nb, "size: the reported size is the length stored");
    dynbuf buf(0, false);
    const dynbuf& d = o.data(buf);
    vf_assert(d.size() == na + nb, "reading yields that many bytes");
    std::size_t i = vf_size("index");
    if( i < na ) vf_assert(d.data()[i] == a[i], "reading yields exactly the bytes stored (first part)");
    i = vf_size("index");
    if( i < nb ) vf_assert(d.data()[na + i] == b[i], "reading yields exactly the bytes stored (second part)");
}
inline void check_decimal(const object& o, std::uint64_t v) {
    std::size_t n = vf_udec_len(v);
    vf_assert(o.m_file.get() == nullptr, "a number is in memory");
    vf_assert(o.m_length == n && o.size() == n, "a number is stored in plain decimal (length)");
    dynbuf buf(0, false);
    const dynbuf& d = o.data(buf);
    vf_assert(d.size() == n, "reading yields that many digits");
    std::size_t i = vf_size("index");
    if( i < n ) vf_assert((std::uint8_t)d.data()[i] == vf_udec_byte(v, i), "a number is stored in plain decimal");
}
inline void check_meta(const object& o, std::uint32_t flags, std::time_t exp) {
    vf_assert(o.flags() == flags, "flags");
    vf_assert(o.m_exptime == exp, "expiration time");
}
}
#endif
