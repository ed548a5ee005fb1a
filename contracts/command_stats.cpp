// Statistics requests: one series closed by its terminator.
#include "command.hpp"
#include <sstream>
#include <string>
#include <sys/resource.h>
using namespace spec;

namespace {
unsigned lines, after;
// one line of statistics; none may follow the terminator
void stat_line(binary_response* r, const std::string&, const std::string&) {
    vf_assert((void*)&r->m_socket == (void*)static_cast<tcp_socket*>(W.sock), "C18: answers go to the connection that asked");
    ++lines;
    if( W.messages != 0 ) ++after;
}
void text_lines(text_response*) {
    ++lines;
    if( W.messages != 0 ) ++after;
}
void text_lines_general(text_response*, std::size_t) { text_lines(nullptr); }
struct { char* p; std::size_t n; } VALUE;
std::string any_string(unsigned long) { return std::string(); }
std::string any_string32(unsigned) { return std::string(); }
std::string any_stringi(int) { return std::string(); }
std::string any_stringl(long) { return std::string(); }
std::string any_stringll(unsigned long long) { return std::string(); }
int usage(int, struct rusage* r) { std::memset(r, 0, sizeof *r); return 0; }
std::string any_text(const std::ostringstream*) { return std::string(); }
int pid() { return (int)vf_u32("pid"); }
std::string any_address(const cybozu::ip_address*) { return std::string(); }
}
VF_REPLACE("yrmcds::memcache::binary_response::send_stat", stat_line, "stats")
VF_REPLACE("?std::__cxx11::to_string(unsigned long)", any_string, "stats")
VF_REPLACE("?std::__cxx11::to_string(unsigned int)", any_string32, "stats")
VF_REPLACE("?std::__cxx11::to_string(int)", any_stringi, "stats")
VF_REPLACE("?std::__cxx11::to_string(long)", any_stringl, "stats")
VF_REPLACE("?std::__cxx11::to_string(unsigned long long)", any_stringll, "stats")
VF_REPLACE("?getrusage", usage, "stats")
VF_REPLACE("?getpid", pid, "stats")
VF_REPLACE("?std::__cxx11::basic_ostringstream<char, std::char_traits<char>, std::allocator<char> >::str", any_text, "stats")
VF_REPLACE("?cybozu::ip_address::str", any_address, "stats")
VF_REPLACE("yrmcds::memcache::text_response::stats_settings", text_lines, "stats")
VF_REPLACE("yrmcds::memcache::text_response::stats_items", text_lines, "stats")
VF_REPLACE("yrmcds::memcache::text_response::stats_sizes", text_lines, "stats")
VF_REPLACE("yrmcds::memcache::text_response::stats_ops", text_lines, "stats")
VF_REPLACE("yrmcds::memcache::text_response::stats_general", text_lines_general, "stats")

namespace {
struct bin_request: fixture {
    char* p;
    std::size_t kn, n;
    bin_request() {
        kn = vf_size("name length");
        vf_assume(kn <= 250);
        n = 24 + kn;
        p = (char*)vf_alloc(n, "request");
        vf_assume(b8(p) == 0x80 && b8(p+1) == 0x10 && be16(p+2) == kn && b8(p+4) == 0 && be32(p+8) == kn);
    }
};
}
VF_PROOF(bin_stat) {
    bin_request r;
    binary_request q(r.p, r.n);
    q.m_stats = (stats_t)vf_choose("category", 5);
    r.sock->cmd_bin(q);
    vf_cover("statistics");
    vf_assert(lines > 0 && after == 0, "C18: statistics, then the terminator");
    vf_assert(W.messages == 1 && W.log[0].to == r.sock && ! W.closed, "C12,C18: exactly one terminator");
    const message& m = W.log[0];
    vf_assert(m.n == 24 && b8(m.p) == 0x81 && b8(m.p+1) == 0x10 && be16(m.p+2) == 0 && b8(m.p+4) == 0 && be16(m.p+6) == 0
              && be32(m.p+8) == 0 && be32(m.p+12) == be32(r.p+12), "C16,C18: the terminator is an empty response");
    vf_assert(W.lookups == 0, "C03: statistics look at no object");
}
VF_PROOF(text_stat) {
    fixture f;
    alignas(text_request) static char raw[sizeof(text_request)];
    text_request* q = (text_request*)raw;
    q->m_command = text_command::STATS;
    q->m_valid = true;
    q->m_no_reply = false;
    q->m_stats = (stats_t)vf_choose("category", 5);
    f.sock->cmd_text(*q);
    vf_cover("statistics");
    vf_assert(lines == 1 && after == 0, "C18: statistics, then the terminator");
    vf_assert(W.messages == 1 && W.log[0].to == f.sock && ! W.closed, "C12,C18: exactly one terminator");
    const message& m = W.log[0];
    vf_assert(m.n == 5 && m.p[0] == 'E' && m.p[1] == 'N' && m.p[2] == 'D' && m.p[3] == '\r' && m.p[4] == '\n', "C17,C18: the terminator is END");
    vf_assert(W.lookups == 0, "C03: statistics look at no object");
}
// one line of binary statistics
VF_PROOF(bin_stat_line) {
    bin_request r;
    binary_request q(r.p, r.n);
    binary_response s(*r.sock, q);
    std::string key, value;
    std::size_t kn = vf_size("key length"), vn = vf_size("value length");
    vf_assume(1 <= kn && kn <= 65535 && vn <= (1u << 20));
    char* kp = (char*)vf_alloc(kn, "key");
    char* vp = (char*)vf_alloc(vn, "value");
    key._M_dataplus._M_p = kp; key._M_string_length = kn;
    value._M_dataplus._M_p = vp; value._M_string_length = vn;
    s.send_stat(key, value);
    key._M_dataplus._M_p = key._M_local_buf;
    value._M_dataplus._M_p = value._M_local_buf;
    vf_cover("line");
    vf_assert(W.messages == 1 && W.log[0].to == r.sock, "C18: one response per line");
    const message& m = W.log[0];
    vf_assert(m.n == 24 + kn + vn, "C16: the response has exactly the parts it announces");
    vf_assert(b8(m.p) == 0x81 && b8(m.p+1) == 0x10 && be16(m.p+2) == kn && b8(m.p+4) == 0 && be16(m.p+6) == 0
              && be32(m.p+8) == kn + vn && be32(m.p+12) == be32(r.p+12), "C16: header of a line");
    vf_same(m.p + 24, kp, kn, "C16: name");
    vf_same(m.p + 24 + kn, vp, vn, "C16: value");
}
