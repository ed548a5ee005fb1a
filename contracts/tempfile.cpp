// Contract of yrmcds::tempfile (src/tempfile.*) over an arbitrary kernel: each
// write and read transfers any amount it likes, or fails.
#include "spec.hpp"
#include <src/tempfile.hpp>
#include <cerrno>
#include <cstring>
#include <new>
using yrmcds::tempfile;
using cybozu::dynbuf;

// the one file
static struct { char* data; std::size_t len, pos, cap; int fd; bool open, linked, failed; unsigned closes; char path[64]; } F;
static std::size_t slen(const char* s) { std::size_t n = 0; while( s[n] != 0 ) ++n; return n; }
extern "C" {
static ssize_t k_write(int fd, const void* p, std::size_t n) {
    vf_assert(fd == F.fd && F.open, "writes to its own file");
    if( vf_choose("write fails", 2) ) { F.failed = true; errno = ENOSPC; return -1; }
    std::size_t k = vf_size("bytes written");
    vf_assume(k <= n);
    std::memcpy(F.data + F.pos, p, k);
    F.pos += k;
    if( F.pos > F.len ) F.len = F.pos;
    return (ssize_t)k;
}
static ssize_t k_pread(int fd, void* p, std::size_t n, off_t off) {
    vf_assert(fd == F.fd && F.open, "reads its own file");
    if( vf_choose("read fails", 2) ) { F.failed = true; errno = EIO; return -1; }
    if( n == 0 ) return 0;
    if( (std::size_t)off >= F.len ) { F.failed = true; return 0; }
    std::size_t k = vf_size("bytes read");
    vf_assume(1 <= k && k <= n && k <= F.len - (std::size_t)off);
    std::memcpy(p, F.data + off, k);
    return (ssize_t)k;
}
static off_t k_lseek(int fd, off_t off, int whence) {
    vf_assert(fd == F.fd && F.open, "seeks in its own file");
    if( vf_choose("lseek fails", 2) ) { F.failed = true; errno = EIO; return -1; }
    F.pos = whence == SEEK_SET ? (std::size_t)off : whence == SEEK_CUR ? F.pos + (std::size_t)off : F.len + (std::size_t)off;
    return (off_t)F.pos;
}
static int k_ftruncate(int fd, off_t n) {
    vf_assert(fd == F.fd && F.open, "truncates its own file");
    if( vf_choose("ftruncate fails", 2) ) { F.failed = true; errno = EIO; return -1; }
    vf_assert((std::size_t)n <= F.len, "truncation never grows the file");
    F.len = (std::size_t)n;
    return 0;
}
static int k_close(int fd) {
    vf_assert(fd == F.fd && F.open, "closes its own file once");
    F.open = false;
    ++F.closes;
    return 0;
}
static int k_mkostemp(char* t, int) {
    if( vf_choose("mkostemp fails", 2) ) { F.failed = true; errno = EMFILE; return -1; }
    std::size_t n = slen(t);
    vf_assert(n >= 6, "template has a suffix");
    for( unsigned i = 1; i <= 6; ++i ) { vf_assert(t[n - i] == 'X', "template ends in XXXXXX"); t[n - i] = (char)('a' + i); }
    vf_assert(n < sizeof(F.path), "path fits");
    for( std::size_t i = 0; i <= n; ++i ) F.path[i] = t[i];
    F.fd = (int)(vf_u32("fd") & 0x7fffffff);
    F.open = F.linked = true;
    return F.fd;
}
static int k_unlink(const char* s) {
    bool same = true;
    for( unsigned i = 0; same && i < sizeof(F.path); ++i ) { same = s[i] == F.path[i]; if( s[i] == 0 ) break; }
    if( same ) F.linked = false;
    return 0;
}
}
VF_REPLACE("?write", k_write, "kernel")
VF_REPLACE("?pread", k_pread, "kernel")
VF_REPLACE("?pread64", k_pread, "kernel")
VF_REPLACE("?lseek", k_lseek, "kernel")
VF_REPLACE("?lseek64", k_lseek, "kernel")
VF_REPLACE("?ftruncate", k_ftruncate, "kernel")
VF_REPLACE("?ftruncate64", k_ftruncate, "kernel")
VF_REPLACE("?close", k_close, "kernel")
VF_REPLACE("?mkostemp", k_mkostemp, "kernel")
VF_REPLACE("?mkostemp64", k_mkostemp, "kernel")
VF_REPLACE("?unlink", k_unlink, "kernel")

namespace {
// a temporary file holding any contents
alignas(tempfile) char raw[sizeof(tempfile)];
char* g_old;        // copy of the contents
std::size_t g_n;
tempfile& any_file(std::size_t room) {
    F.len = F.pos = g_n = vf_size("file length");
    F.cap = F.len + room;
    F.data = (char*)vf_alloc(F.cap, "file");
    F.fd = (int)(vf_u32("fd") & 0x7fffffff);
    F.open = true;
    F.failed = false;
    g_old = (char*)vf_alloc(F.len, "old contents");
    std::memcpy(g_old, F.data, F.len);
    tempfile& t = *(tempfile*)raw;
    *const_cast<int*>(&t.m_fd) = F.fd;
    t.m_length = F.len;
    return t;
}
void check(const tempfile& t) {
    vf_assert(t.length() == F.len, "the recorded length is the number of bytes stored");
    vf_assert(t.fileno() == F.fd, "file descriptor");
}
void check_file(std::size_t from, const char* want, std::size_t n, const char* what) {
    std::size_t i = vf_size("index");
    if( i < n ) vf_assert(F.data[from + i] == want[i], what);
}
}

VF_PROOF(tempfile_write) {
    std::size_t n = vf_size("length");
    const char* p = (const char*)vf_alloc(n, "data");
    tempfile& t = any_file(n);
    bool thrown = false;
    try { t.write(p, n); } catch( const std::exception& ) { thrown = true; }
    vf_assert(thrown == F.failed, "write: an error is reported, and nothing else is");
    check(t);
    check_file(0, g_old, g_n, "write: earlier contents are kept");
    if( thrown ) {
        vf_cover("failed");
        return;
    }
    vf_cover("written");
    vf_assert(t.length() == g_n + n, "write: all bytes are stored");
    check_file(g_n, p, n, "write: the bytes are at the end");
    vf_assert(F.pos == F.len, "write: the next write appends");
}
VF_PROOF(tempfile_read) {
    tempfile& t = any_file(0);
    if( vf_choose("truncated behind our back", 2) ) {
        std::size_t l = vf_size("left");
        vf_assume(l < F.len);
        F.len = l;
    }
    std::size_t real = F.len;
    // dynbuf itself is proved in dynbuf.cpp for every capacity
    std::size_t used = vf_size("used");
    dynbuf b(0, false);
    char* q = b.prepare(used);
    vf_fill(q, used, "buffer contents");
    char* before = (char*)vf_alloc(used, "buffer copy");
    std::memcpy(before, q, used);
    b.consume(used);
    bool thrown = false;
    try { t.read_contents(b); } catch( const std::exception& ) { thrown = true; }
    vf_assert(thrown == F.failed, "read: an error is reported, and nothing else is");
    vf_assert(F.len == real && t.length() == g_n, "read: the file is not changed");
    std::size_t i = vf_size("index");
    if( i < used ) vf_assert(b.data()[i] == before[i], "read: earlier buffer contents are kept");
    if( thrown ) {
        vf_cover("failed");
        return;
    }
    vf_cover("read");
    vf_assert(real == g_n, "read: a short file is reported");
    vf_assert(b.size() == used + g_n, "read: everything is read");
    i = vf_size("index");
    if( i < g_n ) vf_assert(b.data()[used + i] == g_old[i], "read: exactly the contents, in order");
}
VF_PROOF(tempfile_clear) {
    tempfile& t = any_file(0);
    bool thrown = false;
    try { t.clear(); } catch( const std::exception& ) { thrown = true; }
    vf_assert(thrown == F.failed, "clear: an error is reported, and nothing else is");
    check(t);
    if( thrown ) {
        vf_cover("failed");
        return;
    }
    vf_cover("cleared");
    vf_assert(t.length() == 0 && F.len == 0, "clear: empty");
    vf_assert(F.pos == 0, "clear: the next write starts at the beginning");
}
VF_PROOF(tempfile_new) {
    new (&yrmcds::g_config.m_tempdir) std::string("/tmp");
    bool thrown = false;
    try {
        new (raw) tempfile;
    } catch( const std::exception& ) { thrown = true; }
    vf_assert(thrown == F.failed, "new: an error is reported, and nothing else is");
    if( thrown ) {
        vf_cover("failed");
        return;
    }
    vf_cover("created");
    tempfile& t = *(tempfile*)raw;
    check(t);
    vf_assert(t.length() == 0, "new: empty");
    vf_assert(! F.linked, "new: the name is removed");
    t.~tempfile();
    vf_assert(F.closes == 1, "the descriptor is closed once");
}
