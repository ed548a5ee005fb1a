// Drives connections of the server without a network: commands go to the real
// handlers, answers come back through a socket pair.
#include "src/memcache/sockets.hpp"
#include "src/memcache/replication.hpp"
#include "src/global.hpp"
#include "src/config.hpp"
#include <sys/socket.h>
#include <sys/time.h>
#include <fcntl.h>
#include <cstdio>
#include <memory>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
// a socket pair has no TCP options
extern "C" int setsockopt(int, int, int, const void*, socklen_t) noexcept { return 0; }
using namespace yrmcds;
using namespace yrmcds::memcache;
typedef cybozu::hash_map<object> table;
inline std::function<cybozu::worker*()> no_worker() { return []() -> cybozu::worker* { return nullptr; }; }
struct client {
    int peer, fd;
    std::unique_ptr<memcache_socket> s;
    std::vector<repl_socket*> none;
    explicit client(table& t, const std::vector<repl_socket*>& slaves = {}) {
        int sv[2];
        if( socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv) ) abort();
        int big = 4 << 20;
        syscall(SYS_setsockopt, sv[0], SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
        fd = sv[0];
        peer = sv[1];
        s.reset(new memcache_socket(fd, no_worker(), t, none));
        s->m_slaves = slaves;
    }
    std::string answer() {
        std::string r;
        char b[65536];
        ssize_t n;
        while( (n = recv(peer, b, sizeof b, 0)) > 0 ) r.append(b, n);
        return r;
    }
    // execute the requests in r
    std::string operator()(const std::string& r) {
        g_context = fd;
        const char* p = r.data();
        std::size_t len = r.size();
        while( len > 0 ) {
            std::size_t c;
            if( is_binary_request(p) ) {
                binary_request q(p, len);
                if( (c = q.length()) == 0 ) break;
                s->cmd_bin(q);
            } else {
                text_request q(p, len);
                if( (c = q.length()) == 0 ) break;
                s->cmd_text(q);
            }
            p += c;
            len -= c;
        }
        return answer();
    }
};
inline std::string be(std::uint64_t v, int n) {
    std::string s;
    while( n-- ) s += (char)(v >> (8 * n));
    return s;
}
inline std::string bin(unsigned op, const std::string& key, const std::string& extras = "", const std::string& data = "", std::uint64_t cas = 0, unsigned opaque = 0) {
    return std::string("\x80", 1) + (char)op + be(key.size(), 2) + (char)extras.size() + std::string(3, 0)
        + be(extras.size() + key.size() + data.size(), 4) + be(opaque, 4) + be(cas, 8) + extras + key + data;
}
inline unsigned status(const std::string& r) { return r.size() < 24 ? 0xffff : ((unsigned char)r[6] << 8 | (unsigned char)r[7]); }
inline std::uint64_t cas_of(const std::string& r) {
    std::uint64_t v = 0;
    for( int i = 16; i < 24; ++i ) v = v << 8 | (unsigned char)r[i];
    return v;
}
inline std::string text_set(const std::string& k, const std::string& v, unsigned flags = 0, unsigned exp = 0) {
    return "set " + k + " " + std::to_string(flags) + " " + std::to_string(exp) + " " + std::to_string(v.size()) + "\r\n" + v + "\r\n";
}
#define CHECK(x) do { if( ! (x) ) { std::printf("line %d: %s\n", __LINE__, #x); return 1; } } while( 0 )
