// Contract of memcache_socket::cmd_bin: for every binary command and every prior
// state of its key, what happens to the object, to locks, what is answered and
// what is sent to the slaves (protocol document, docs/locking.md, docs/keys.md).
#include "command.hpp"
using namespace spec;

namespace {
enum { OK = 0, NOT_FOUND = 1, EXISTS = 2, TOO_LARGE = 3, INVALID = 4, NOT_STORED = 5, NON_NUMERIC = 6,
       LOCKED = 0x10, NOT_LOCKED = 0x11, UNKNOWN = 0x81 };

struct request: fixture {
    unsigned op;
    std::size_t n, kn, dn, en;
    char* p;
    std::uint64_t cas;
    const char *key_, *extras, *data;
    request(unsigned op_, std::size_t el, bool key, bool data_): op(op_) {
        kn = key ? vf_size("key length") : 0;
        if( key ) vf_assume(1 <= kn && kn <= 250);
        dn = data_ ? vf_size("data length") : 0;
        if( data_ ) vf_assume(1 <= dn && dn <= (30u << 20));
        en = el;
        n = 24 + el + kn + dn;
        p = (char*)vf_alloc(n, "request");
        vf_assume(b8(p) == 0x80 && b8(p+1) == op && be16(p+2) == kn && b8(p+4) == el && be32(p+8) == el + kn + dn);
        cas = be64(p + 16);
        extras = p + 24;
        key_ = extras + el;
        data = key_ + kn;
        if( key && op != 0x50 ) fixture::key(key_, kn);
    }
    void run() {
        binary_request r(p, n);
        sock->cmd_bin(r);
    }
    // the i-th response of the connection
    const message* response(unsigned i) {
        for( unsigned j = 0; j < W.messages; ++j )
            if( W.log[j].to == sock && i-- == 0 ) return &W.log[j];
        return nullptr;
    }
    unsigned responses() {
        unsigned c = 0;
        for( unsigned j = 0; j < W.messages; ++j ) c += W.log[j].to == sock;
        return c;
    }
    // header of a response: key and extras lengths as wanted
    void check_header(const message* m, std::size_t el, std::size_t kl, std::uint64_t dl, unsigned status) {
        vf_assert(m->n == 24 + el + kl + dl, "C16: the response has exactly the parts it announces");
        vf_assert(b8(m->p) == 0x81, "C16: response magic");
        vf_assert(b8(m->p+1) == op, "C16: a response echoes the opcode");
        vf_assert(be16(m->p+2) == kl && b8(m->p+4) == el, "C16: key and extras length");
        vf_assert(b8(m->p+5) == 0, "C16: data type");
        vf_assert(be16(m->p+6) == status, "C16: status");
        vf_assert(be32(m->p+8) == (std::uint32_t)(el + kl + dl), "C16: body length");
        vf_assert(be32(m->p+12) == be32(p+12), "C16: a response echoes the opaque");
    }
    // one response with an error status (one of two), or none if silent
    void fails(unsigned status, unsigned alt = OK) {
        vf_assert(responses() == 1, "C18: a failed request gets exactly one answer");
        const message* m = response(0);
        if( m == nullptr ) return;
        unsigned s = be16(m->p+6);
        vf_assert(s == status || (alt != OK && s == alt), "C03,C04,C05,C06,C18: the failure reported");
        vf_assert(m->n >= 24, "C16: a response has a header");
        check_header(m, 0, 0, m->n - 24, s);
        vf_assert(! W.closed, "C18: the connection stays open");
    }
    void succeeds(bool quiet, std::uint64_t rcas, std::uint64_t number_ = 0, bool with_number = false) {
        vf_assert(responses() == (quiet ? 0 : 1), quiet ? "C18: a quiet request that succeeds gets no answer"
                                                        : "C18: a request that succeeds gets exactly one answer");
        vf_assert(! W.closed, "C18: the connection stays open");
        const message* m = response(0);
        if( m == nullptr ) return;
        vf_assert(be16(m->p+6) == OK, "C03,C04,C05,C06,C18: success is reported");
        if( with_number ) {
            check_header(m, 0, 0, 8, OK);
            vf_assert(be64(m->p + 24) == number_, "C06,C16: the new value is reported");
        } else {
            check_header(m, 0, 0, 0, OK);
        }
        vf_assert(be64(m->p + 16) == rcas, "C16: CAS value");
    }
    void silent(const char* what) { vf_assert(responses() == 0, what); }
    // nothing happens to the object
    outcome nothing() {
        outcome x;
        x.lock = W.lock;
        return x;
    }
    void done(const outcome& x) {
        check_effect(x);
        check_replication(x);
    }
};
bool in(unsigned op, std::initializer_list<unsigned> l) {
    for( unsigned x: l ) if( x == op ) return true;
    return false;
}
const unsigned GETS[] = { 0x00, 0x09, 0x0c, 0x0d, 0x1d, 0x1e, 0x23, 0x24, 0x46, 0x47, 0x48, 0x49 };

void get(unsigned op, std::size_t el) {
    request r(op, el, true, false);
    bool quiet = in(op, { 0x09, 0x0d, 0x1e, 0x24, 0x47, 0x49 });
    bool with_key = in(op, { 0x0c, 0x0d, 0x23, 0x24, 0x48, 0x49 });
    bool lag = 0x46 <= op && op <= 0x49;
    r.run();
    outcome x = r.nothing();
    if( ! W.live ) {
        vf_cover("get: miss");
        if( quiet && ! lag ) r.silent("C18: a quiet retrieval that misses gets no answer");
        else r.fails(NOT_FOUND);
        r.done(x);
        return;
    }
    if( lag && W.lock != -1 ) {
        vf_cover("get: locked");
        r.fails(LOCKED);
        r.done(x);
        return;
    }
    vf_cover("get: hit");
    if( lag ) x.lock = FD;
    if( el == 4 && be32(r.extras) != 0xffffffff ) {
        x.e = TOUCHED;
        x.exp = spec_exptime(be32(r.extras), W.now);
    }
    vf_assert(r.responses() == 1, "C18: a retrieval that hits gets exactly one answer");
    const message* m = r.response(0);
    if( m != nullptr ) {
        vf_assert(be16(m->p+6) == OK, "C05,C18: a live object is returned");
        std::size_t kl = with_key ? W.kn : 0;
        r.check_header(m, 4, kl, W.oldn, OK);
        vf_assert(be64(m->p+16) == W.cas, "C16: CAS value");
        vf_assert(be32(m->p+24) == W.flags, "C16: flags of the object");
        same(m->p + 28, kl, W.kp, "C16: key");
        same(m->p + 28 + kl, W.oldn, W.old, "C16: data of the object");
    }
    r.done(x);
}
void store(unsigned op) {
    request r(op, 8, true, true);
    bool quiet = in(op, { 0x11, 0x12, 0x13 });
    bool add = in(op, { 0x02, 0x12 }), replace = in(op, { 0x03, 0x13 });
    r.run();
    outcome x = r.nothing();
    if( r.dn > g_config.max_data_size() ) {
        vf_cover("store: too large");
        vf_assert(W.changes == 0, "C28: data over the limit is not stored");
        r.fails(TOO_LARGE);
    } else if( W.lock != -1 && W.lock != FD ) {
        vf_cover("store: locked");
        r.fails(LOCKED);
    } else if( ! W.live && (replace || r.cas != 0) ) {
        vf_cover("store: not found");
        r.fails(NOT_FOUND, r.cas == 0 ? NOT_STORED : OK);
    } else if( W.live && (add || (r.cas != 0 && r.cas != W.cas)) ) {
        vf_cover("store: exists");
        r.fails(EXISTS, add && r.cas == 0 ? NOT_STORED : OK);
    } else {
        vf_cover("store: stored");
        x.e = STORED;
        x.data = { r.data, r.dn };
        x.flags = be32(r.extras);
        x.exp = spec_exptime(be32(r.extras + 4), W.now);
        r.succeeds(quiet, W.o ? W.o->cas_unique() : 0);
    }
    r.done(x);
}

void rau(unsigned op) {
    request r(op, 8, true, true);
    r.run();
    outcome x = r.nothing();
    if( r.dn > g_config.max_data_size() ) {
        vf_cover("rau: too large");
        vf_assert(W.changes == 0, "C28: data over the limit is not stored");
        r.fails(TOO_LARGE);
    } else if( ! W.was_present ) {
        vf_cover("rau: not found");
        r.fails(NOT_FOUND);
    } else if( W.lock != FD ) {
        vf_cover("rau: not locked");
        r.fails(NOT_LOCKED, W.live ? OK : NOT_FOUND);
    } else if( r.cas != 0 && r.cas != W.cas ) {
        vf_cover("rau: exists");
        r.fails(EXISTS);
    } else {
        vf_cover("rau: stored");
        x.e = STORED;
        x.data = { r.data, r.dn };
        x.flags = be32(r.extras);
        x.exp = spec_exptime(be32(r.extras + 4), W.now);
        x.lock = -1;
        r.succeeds(op == 0x4b, W.o->cas_unique());
    }
    r.done(x);
}
void concat(unsigned op) {
    request r(op, 0, true, true);
    r.run();
    outcome x = r.nothing();
    if( W.lock != -1 && W.lock != FD ) {
        vf_cover("concat: locked");
        r.fails(LOCKED);
    } else if( ! W.live ) {
        vf_cover("concat: not found");
        r.fails(NOT_FOUND, NOT_STORED);
    } else if( r.cas != 0 && r.cas != W.cas ) {
        vf_cover("concat: exists");
        r.fails(EXISTS);
    } else if( W.oldn + r.dn > g_config.max_data_size() ) {
        vf_cover("concat: too large");
        vf_assert(W.changes == 0, "C28: data over the limit is not stored");
        r.fails(TOO_LARGE);
    } else {
        vf_cover("concat: stored");
        x.e = op == 0x0e || op == 0x19 ? APPENDED : PREPENDED;
        x.data = { r.data, r.dn };
        r.succeeds(op == 0x19 || op == 0x1a, W.o->cas_unique());
    }
    r.done(x);
}
void del(unsigned op) {
    request r(op, 0, true, false);
    r.run();
    outcome x = r.nothing();
    if( W.lock != -1 && W.lock != FD ) {
        vf_cover("delete: locked");
        r.fails(LOCKED);
    } else if( ! W.live ) {
        vf_cover("delete: not found");
        // a quiet delete that misses is silent
        if( op == 0x14 ) r.silent("C18: a quiet delete that misses gets no answer");
        else r.fails(NOT_FOUND);
    } else if( r.cas != 0 && r.cas != W.cas ) {
        vf_cover("delete: exists");
        r.fails(EXISTS);
    } else {
        vf_cover("delete: deleted");
        x.e = DELETED;
        r.succeeds(op == 0x14, 0);
    }
    r.done(x);
}
void incdec(unsigned op) {
    request r(op, 20, true, false);
    r.run();
    outcome x = r.nothing();
    std::uint64_t amount = be64(r.extras), initial = be64(r.extras + 8);
    std::int64_t exp = spec_exptime(be32(r.extras + 16), W.now);
    bool quiet = op == 0x15 || op == 0x16, up = op == 0x05 || op == 0x15;
    if( W.lock != -1 && W.lock != FD ) {
        vf_cover("incr: locked");
        r.fails(LOCKED);
    } else if( ! W.live && exp == EXP_NONE ) {
        vf_cover("incr: not found");
        r.fails(NOT_FOUND);
    } else if( ! W.live ) {
        vf_cover("incr: created");
        x.e = INITIAL;
        x.value = initial;
        x.exp = exp;
        r.succeeds(quiet, W.o ? W.o->cas_unique() : 0, initial, true);
    } else if( r.cas != 0 && r.cas != W.cas ) {
        vf_cover("incr: exists");
        r.fails(EXISTS);
    } else {
        vf_assert(W.up == up && W.amount == amount, "C06: the amount of the request is added or subtracted");
        if( ! W.numeric ) {
            vf_cover("incr: not a number");
            r.fails(NON_NUMERIC);
        } else {
            vf_cover("incr: changed");
            vf_assert(W.arith == 1, "C06: added or subtracted once");
            x.e = ARITH;
            x.value = W.result;
            r.succeeds(quiet, W.o->cas_unique(), W.result, true);
        }
    }
    r.done(x);
}
void touch() {
    request r(0x1c, 4, true, false);
    r.run();
    outcome x = r.nothing();
    if( ! W.live ) {
        vf_cover("touch: not found");
        r.fails(NOT_FOUND);
    } else {
        vf_cover("touch: touched");
        x.e = TOUCHED;
        x.exp = spec_exptime(be32(r.extras), W.now);
        r.succeeds(false, W.cas);
    }
    r.done(x);
}
void lock(unsigned op) {
    request r(op, 0, true, false);
    r.run();
    outcome x = r.nothing();
    if( ! W.live ) {
        vf_cover("lock: not found");
        r.fails(NOT_FOUND);
    } else if( W.lock != -1 ) {
        vf_cover("lock: locked");
        r.fails(LOCKED);
    } else {
        vf_cover("lock: locked now");
        x.lock = FD;
        r.succeeds(op == 0x41, 0);
    }
    r.done(x);
}
void unlock(unsigned op) {
    request r(op, 0, true, false);
    r.run();
    outcome x = r.nothing();
    if( ! W.was_present ) {
        vf_cover("unlock: not found");
        r.fails(NOT_FOUND);
    } else if( W.lock != FD ) {
        vf_cover("unlock: not locked");
        r.fails(NOT_LOCKED, W.live ? OK : NOT_FOUND);
    } else {
        vf_cover("unlock: unlocked");
        x.lock = -1;
        r.succeeds(op == 0x43, 0);
    }
    r.done(x);
}
// commands about the connection as a whole; its locks: none, on the key, on other keys
void release(unsigned op) {
    static const char key_[] = "key";
    request r(op, 0, false, false);
    r.fixture::key(key_, 3);
    bool quit = op == 0x07 || op == 0x17, quiet = op == 0x17 || op == 0x45;
    r.run();
    vf_cover("unlock all");
    for( unsigned i = 0; i < W.others; ++i )
        vf_assert(W.other[i]->m_lock == -1, "C04: every lock of the connection is released");
    if( W.was_present ) {
        vf_assert(W.present, "C03,C05: the object stays");
        vf_assert(W.o->m_lock == (W.lock == FD ? -1 : W.lock), "C04: the locks of the connection are released, and no other");
    }
    vf_assert(W.changes == 0 && W.d->size() == W.oldn, "C03: objects do not change");
    vf_assert(r.sock->m_locks.empty(), "C04: the connection holds no lock any more");
    vf_assert(W.closed == quit, "C18: quit closes the connection, nothing else does");
    vf_assert(r.responses() == (quiet ? 0 : 1), "C18: exactly one answer, none if quiet");
    vf_assert(W.messages == r.responses(), "C12: a command that changes nothing sends no replication message");
    const message* m = r.response(0);
    if( m == nullptr ) return;
    r.check_header(m, 0, 0, 0, OK);
    vf_assert(be64(m->p + 16) == 0, "C16: CAS value");
    vf_assert(m->close == quit, "C18: the connection is closed after the answer");
}
void flush(unsigned op, std::size_t el) {
    request r(op, el, false, false);
    r.run();
    vf_cover("flush");
    std::time_t want = el == 4 && be32(r.extras) != 0 ? spec_exptime(be32(r.extras), W.now) : W.now;
    vf_assert(g_stats.flush_time.load() == want, "C05: flush takes effect at the time asked for");
    vf_assert(W.lookups == 0, "C03,C05: flush looks at no object");
    r.succeeds(op == 0x18, 0);
    vf_assert(W.messages == r.responses(), "C12: flush sends no replication message");
}
void noop() {
    request r(0x0a, 0, false, false);
    r.run();
    vf_cover("noop");
    vf_assert(W.lookups == 0 && W.messages == 1, "C12,C18: noop does nothing but answer");
    r.succeeds(false, 0);
}
void version() {
    request r(0x0b, 0, false, false);
    r.run();
    vf_cover("version");
    vf_assert(W.lookups == 0 && W.messages == 1 && r.responses() == 1, "C12,C18: version gets exactly one answer");
    const message* m = r.response(0);
    if( m == nullptr ) return;
    vf_assert(m->n > 24, "C16: the version");
    r.check_header(m, 0, 0, m->n - 24, OK);
    vf_assert(! W.closed, "C18: the connection stays open");
}
void keys(std::size_t kl) {
    request r(0x50, 0, kl != 0, false);
    // an object in the table; its key is not the prefix asked for
    std::size_t prefix = r.kn;
    const char* want = r.key_;
    std::size_t n = vf_size("stored key length");
    vf_assume(1 <= n && n <= 250);
    char* k = (char*)vf_alloc(n, "stored key");
    r.fixture::key(k, n);
    r.run();
    bool match = W.live && prefix <= n && (prefix == 0 || vf_bytes_equal(k, want, prefix));
    vf_assert(W.lookups == 1, "C26: one pass over the table");
    vf_assert(r.responses() == (match ? 2 : 1), "C18,C26: exactly the live matching keys are listed, each once");
    const message* m = r.response(0);
    if( match && m != nullptr ) {
        vf_cover("keys: match");
        vf_assert(m->n == 24 + n, "C26: the exact key (length)");
        r.check_header(m, 0, n, 0, OK);
        vf_same(m->p + 24, k, n, "C26: the exact key");
        m = r.response(1);
    } else if( ! match ) {
        vf_cover("keys: no match");
    }
    if( m != nullptr ) {
        vf_assert(m->n == 24, "C18,C26: the list ends with an empty response");
        r.check_header(m, 0, 0, 0, OK);
    }
    outcome x = r.nothing();
    r.done(x);
}
// anything the parser does not accept
void bad() {
    fixture f;
    f.key("key", 3);
    std::size_t n = vf_size("len");
    vf_assume(n >= 24);
    char* p = (char*)vf_alloc(n, "request");
    binary_request q(p, n);
    if( q.status() == binary_status::OK || q.length() == 0 ) return;
    f.sock->cmd_bin(q);
    vf_cover("rejected");
    vf_assert(W.lookups == 0 && W.changes == 0, "C03,C04,C05,C28: a rejected request does nothing");
    vf_assert(W.messages == 1 && W.log[0].to == f.sock, "C12,C18: a rejected request gets exactly one answer");
    const message& m = W.log[0];
    vf_assert(m.n >= 24 && b8(m.p) == 0x81 && b8(m.p+1) == b8(p+1) && be32(m.p+12) == be32(p+12), "C16: an error echoes opcode and opaque");
    vf_assert(be16(m.p+6) == (unsigned)q.status() && be16(m.p+6) != 0, "C16,C18: the error that occurred is reported");
    vf_assert(be16(m.p+2) == 0 && b8(m.p+4) == 0 && be32(m.p+8) == m.n - 24 && be64(m.p+16) == 0, "C16: error response lengths");
    vf_assert(! W.closed, "C18: the connection stays open");
}
}
VF_PROOF(bin_get) { get(GETS[vf_choose("command", 8)], 4 * vf_choose("extras", 2)); }
VF_PROOF(bin_lag) { other_locks = true; get(GETS[8 + vf_choose("command", 4)], 4 * vf_choose("extras", 2)); }
VF_PROOF(bin_store) {
    static const unsigned ops[] = { 0x01, 0x11, 0x02, 0x12, 0x03, 0x13 };
    store(ops[vf_choose("command", 6)]);
}
#define ONE_OF(...) ([]{ static const unsigned l[] = { __VA_ARGS__ }; return l[vf_choose("command", sizeof(l)/sizeof(*l))]; }())
VF_PROOF(bin_rau) { other_locks = true; rau(ONE_OF(0x4a, 0x4b)); }
VF_PROOF(bin_concat) { concat(ONE_OF(0x0e, 0x0f, 0x19, 0x1a)); }
VF_PROOF(bin_delete) { other_locks = true; del(ONE_OF(0x04, 0x14)); }
VF_PROOF(bin_incdec) { incdec(ONE_OF(0x05, 0x06, 0x15, 0x16)); }
VF_PROOF(bin_touch) { other_locks = true; touch(); }
VF_PROOF(bin_lock) { other_locks = true; lock(ONE_OF(0x40, 0x41)); }
VF_PROOF(bin_unlock) { other_locks = true; unlock(ONE_OF(0x42, 0x43)); }
VF_PROOF(bin_release) { other_locks = true; release(ONE_OF(0x44, 0x45, 0x07, 0x17)); }
VF_PROOF(bin_flush) { flush(ONE_OF(0x08, 0x18), 4 * vf_choose("extras", 2)); }
VF_PROOF(bin_misc) { if( vf_choose("which", 2) ) noop(); else version(); }
VF_PROOF(bin_keys) { keys(vf_choose("prefix", 2)); }
VF_PROOF(bin_bad) { bad(); }
