// Contract of memcache_socket::cmd_text: for every decoded text request (C01 says
// what it decodes to) and every prior state of its key, what happens to the
// object, to locks, what is answered and what is sent to the slaves.
#include "command.hpp"
using namespace spec;

namespace {
#define TXT(s) s "\r\n"
struct request: fixture {
    alignas(text_request) char raw[sizeof(text_request)];
    text_request* q;
    bool noreply;
    std::size_t kn, dn;
    const char *key_, *data;
    std::int64_t exp;
    request(text_command c, bool may_noreply, bool with_data = false, bool with_key = true) {
        q = (text_request*)raw;
        q->m_command = c;
        q->m_valid = true;
        q->m_request_len = 2;
        noreply = may_noreply ? vf_choose("noreply", 2) : 0;
        q->m_no_reply = noreply;
        key_ = nullptr;
        kn = dn = 0;
        if( with_key ) {
            kn = vf_size("key length");
            vf_assume(1 <= kn && kn <= (2u << 20));
            key_ = (const char*)vf_alloc(kn, "key");
            fixture::key(key_, kn);
        }
        q->m_key = item(key_, kn);
        if( with_data ) {
            dn = vf_size("data length");
            vf_assume(dn <= (30u << 20));
            data = (const char*)vf_alloc(dn, "data");
        } else data = nullptr;
        q->m_data = item(data, dn);
        q->m_flags = vf_u32("flags");
        exp = (std::int64_t)vf_u64("exptime");
        vf_assume(0 <= exp && exp < ((std::int64_t)1 << 33));
        q->m_exptime = exp;
        q->m_cas_unique = vf_u64("cas");
        q->m_value = vf_u64("value");
    }
    void run() { sock->cmd_text(*q); }
    void line(const message* m, const char* p, std::size_t n, const char* what) {
        vf_assert(m->n == n, what);
        bool eq = m->n == n;
        if( eq ) for( std::size_t i = 0; i < n; ++i ) eq &= m->p[i] == p[i];
        vf_assert(eq, what);
    }
    // one answer, this line
    template<std::size_t N> void answer(const char (&p)[N], bool failure) {
        vf_assert(responses() == 1, "C18: a request gets exactly one answer");
        vf_assert(! W.closed, "C18: the connection stays open");
        const message* m = response(0);
        if( m != nullptr )
            line(m, p, N - 1, failure ? "C03,C04,C05,C06,C17,C18: the failure reported" : "C03,C04,C05,C06,C17,C18: the success reported");
    }
    template<std::size_t N> void says(const char (&p)[N], bool failure = true) {
        if( noreply ) {
            vf_assert(responses() == 0, "C18: a noreply request gets no answer");
            vf_assert(! W.closed, "C18: the connection stays open");
        } else answer(p, failure);
    }
    // an error the client is told even if it asked for no reply, or not
    void error() {
        if( noreply && responses() == 0 ) return;
        answer(TXT("ERROR"), true);
    }
    outcome nothing() {
        outcome x;
        x.lock = W.lock;
        return x;
    }
    void done(const outcome& x) {
        check_effect(x);
        check_replication(x);
    }
};
// a line carrying n in decimal from offset at
void decimal(const message* m, std::size_t at, std::uint64_t v, const char* what) {
    std::size_t i = vf_size("digit");
    if( i < vf_udec_len(v) ) vf_assert((std::uint8_t)m->p[at + i] == vf_udec_byte(v, i), what);
}

void store(text_command c) {
    request r(c, true, true);
    bool add = c == text_command::ADD, replace = c == text_command::REPLACE, cas = c == text_command::CAS;
    r.run();
    outcome x = r.nothing();
    if( r.dn > g_config.max_data_size() || r.kn > 250 ) {
        vf_cover("store: too large");
        vf_assert(W.changes == 0 && ! W.created, "C28: a key or data over the limit is not stored");
        if( cas && r.dn <= g_config.max_data_size() ) r.says(TXT("NOT_FOUND"));    // no object has such a key
        else r.error();
    } else if( W.lock != -1 && W.lock != FD ) {
        vf_cover("store: locked");
        r.says(TXT("LOCKED"));
    } else if( cas && ! W.live ) {
        vf_cover("store: not found");
        r.says(TXT("NOT_FOUND"));
    } else if( cas && r.q->m_cas_unique != W.cas ) {
        vf_cover("store: exists");
        r.says(TXT("EXISTS"));
    } else if( (replace && ! W.live) || (add && W.live) ) {
        vf_cover("store: not stored");
        r.says(TXT("NOT_STORED"));
    } else {
        vf_cover("store: stored");
        x.e = STORED;
        x.data = { r.data, r.dn };
        x.flags = r.q->m_flags;
        x.exp = r.exp;
        r.says(TXT("STORED"), false);
    }
    r.done(x);
}
void concat(text_command c) {
    request r(c, true, true);
    r.run();
    outcome x = r.nothing();
    if( W.lock != -1 && W.lock != FD ) {
        vf_cover("concat: locked");
        r.says(TXT("LOCKED"));
    } else if( ! W.live ) {
        vf_cover("concat: not stored");
        r.says(TXT("NOT_STORED"));
    } else if( W.oldn + r.dn > g_config.max_data_size() ) {
        vf_cover("concat: too large");
        vf_assert(W.changes == 0, "C28: data over the limit is not stored");
        r.error();
    } else {
        vf_cover("concat: stored");
        x.e = c == text_command::APPEND ? APPENDED : PREPENDED;
        x.data = { r.data, r.dn };
        r.says(TXT("STORED"), false);
    }
    r.done(x);
}
void incdec(bool up) {
    request r(up ? text_command::INCR : text_command::DECR, true);
    r.run();
    outcome x = r.nothing();
    if( W.lock != -1 && W.lock != FD ) {
        vf_cover("incr: locked");
        r.says(TXT("LOCKED"));
    } else if( ! W.live ) {
        vf_cover("incr: not found");
        r.says(TXT("NOT_FOUND"));
    } else {
        vf_assert(W.up == up && W.amount == r.q->m_value, "C06: the amount of the request is added or subtracted");
        if( ! W.numeric ) {
            vf_cover("incr: not a number");
            r.says(TXT("CLIENT_ERROR cannot increment or decrement non-numeric value"));
        } else {
            vf_cover("incr: changed");
            vf_assert(W.arith == 1, "C06: added or subtracted once");
            x.e = ARITH;
            x.value = W.result;
            vf_assert(responses() == (r.noreply ? 0 : 1), "C18: exactly one answer, none if the client asked for no reply");
            const message* m = response(0);
            if( m != nullptr ) {
                std::size_t n = vf_udec_len(W.result);
                vf_assert(m->n == n + 2 && m->p[m->n - 2] == '\r' && m->p[m->n - 1] == '\n', "C17: the line with the new value");
                decimal(m, 0, W.result, "C06,C17: the new value is reported in decimal");
            }
        }
    }
    r.done(x);
}
void touch() {
    request r(text_command::TOUCH, true);
    r.run();
    outcome x = r.nothing();
    if( ! W.live ) {
        vf_cover("touch: not found");
        r.says(TXT("NOT_FOUND"));
    } else {
        vf_cover("touch: touched");
        x.e = TOUCHED;
        x.exp = r.exp;
        r.says(TXT("TOUCHED"), false);
    }
    r.done(x);
}
void del() {
    request r(text_command::DELETE, true);
    r.run();
    outcome x = r.nothing();
    if( W.lock != -1 && W.lock != FD ) {
        vf_cover("delete: locked");
        r.says(TXT("LOCKED"));
    } else if( ! W.live ) {
        vf_cover("delete: not found");
        r.says(TXT("NOT_FOUND"));
    } else {
        vf_cover("delete: deleted");
        x.e = DELETED;
        r.says(TXT("DELETED"), false);
    }
    r.done(x);
}
void lock() {
    request r(text_command::LOCK, false);
    r.run();
    outcome x = r.nothing();
    if( ! W.live ) {
        vf_cover("lock: not found");
        r.says(TXT("NOT_FOUND"));
    } else if( W.lock != -1 ) {
        vf_cover("lock: locked");
        r.says(TXT("LOCKED"));
    } else {
        vf_cover("lock: locked now");
        x.lock = FD;
        r.says(TXT("OK"), false);
    }
    r.done(x);
}
void unlock() {
    request r(text_command::UNLOCK, false);
    r.run();
    outcome x = r.nothing();
    if( W.lock != FD ) {
        vf_cover("unlock: not locked");
        r.says(TXT("CLIENT_ERROR object is not locked or not found"));
    } else {
        vf_cover("unlock: unlocked");
        x.lock = -1;
        r.says(TXT("OK"), false);
    }
    r.done(x);
}
void release(bool quit) {
    static const char key_[] = "key";
    request r(quit ? text_command::QUIT : text_command::UNLOCK_ALL, false, false, false);
    r.fixture::key(key_, 3);
    r.run();
    vf_cover("unlock all");
    for( unsigned i = 0; i < W.others; ++i )
        vf_assert(W.other[i]->m_lock == -1, "C04: every lock of the connection is released");
    if( W.was_present ) {
        vf_assert(W.present, "C03,C05: the object stays");
        vf_assert(W.o->m_lock == (W.lock == FD ? -1 : W.lock), "C04: the locks of the connection are released, and no other");
    }
    vf_assert(W.changes == 0 && W.d->size() == W.oldn, "C03: objects do not change");
    vf_assert(r.sock->m_locks.empty(), "C04: the connection holds no lock any more");
    vf_assert(W.messages == responses(), "C12: a command that changes nothing sends no replication message");
    if( quit ) {
        vf_assert(W.closed, "C18: quit closes the connection");
        vf_assert(responses() == 0, "C18: quit has no answer in the text protocol");
    } else r.answer(TXT("OK"), false);
}
// the connection ends
void disconnect() {
    static const char key_[] = "key";
    fixture f;
    f.key(key_, 3);
    f.sock->~memcache_socket();
    vf_cover("disconnected");
    for( unsigned i = 0; i < W.others; ++i )
        vf_assert(W.other[i]->m_lock == -1, "C04: every lock of the connection is released");
    if( W.was_present ) {
        vf_assert(W.present, "C03,C05: the object stays");
        vf_assert(W.o->m_lock == (W.lock == FD ? -1 : W.lock), "C04: the locks of the connection are released, and no other");
    }
    vf_assert(W.changes == 0 && W.messages == 0, "C03,C12: nothing else happens");
}
void retrieve(bool cas, bool two) {
    request r(cas ? text_command::GETS : text_command::GET, false, false, false);
    std::size_t n = vf_size("line length");
    vf_assume(4 <= n && n <= (2u << 20));
    char* b = (char*)vf_alloc(n, "line");
    std::size_t kn = vf_size("key length"), at = kn, kn2 = 0;
    vf_assume(1 <= kn && kn <= n);
    vf_word(b, kn);
    if( two ) {
        vf_assume(at < n && b[at] == ' ');
        ++at;
        kn2 = vf_size("key length 2");
        vf_assume(1 <= kn2 && kn2 <= n - at);
        vf_word(b + at, kn2);
        r.second(b + at, kn2);
        at += kn2;
    }
    vf_assume(at + 2 <= n && b[at] == '\r' && b[at+1] == '\n');
    r.q->m_key = item(b, kn);
    r.key(b, kn);
    r.run();
    outcome x = r.nothing();
    unsigned at_ = 0;
    struct { bool live; const char* kp; std::size_t kn; object* o; dynbuf* d; } k[2] = {
        { W.live, b, kn, W.o, W.d }, { false, b + kn + 1, kn2, W.second, W.d2 } };
    if( W.second != nullptr ) {
        object& o = *W.second;
        bool expired = (o.m_lock == -1) & (((W.flush != 0) & (W.flush <= W.now)) | ((o.m_exptime != 0) & (o.m_exptime <= W.now)));
        k[1].live = vf_case(! expired);
    }
    for( unsigned i = 0; i < (two ? 2 : 1); ++i ) {
        if( ! k[i].live ) { vf_cover("get: miss"); continue; }
        vf_cover("get: hit");
        const message* m = response(at_++);
        if( m == nullptr ) continue;
        std::size_t fl = vf_udec_len(k[i].o->m_flags), sl = vf_udec_len(k[i].d->size()), cl = cas ? vf_udec_len(k[i].o->m_cas) : 0;
        std::size_t head = 6 + k[i].kn + 1 + fl + 1 + sl + (cas ? 1 + cl : 0) + 2;
        vf_assert(m->n == head + k[i].d->size() + 2, "C05,C17: exactly one value, its data and CRLF");
        if( m->n != head + k[i].d->size() + 2 ) continue;
        const char* p = m->p;
        vf_assert(p[0] == 'V' && p[1] == 'A' && p[2] == 'L' && p[3] == 'U' && p[4] == 'E' && p[5] == ' ', "C17: a value line");
        vf_same(p + 6, k[i].kp, k[i].kn, "C17: the key");
        std::size_t o = 6 + k[i].kn;
        vf_assert(p[o] == ' ', "C17: a space after the key");
        decimal(m, o + 1, k[i].o->m_flags, "C17: the flags in decimal");
        o += 1 + fl;
        vf_assert(p[o] == ' ', "C17: a space after the flags");
        decimal(m, o + 1, k[i].d->size(), "C17: the byte count in decimal");
        o += 1 + sl;
        if( cas ) {
            vf_assert(p[o] == ' ', "C17: a space after the byte count");
            decimal(m, o + 1, k[i].o->m_cas, "C17: the CAS value in decimal");
            o += 1 + cl;
        }
        vf_assert(p[o] == '\r' && p[o+1] == '\n', "C17: the end of the value line");
        vf_same(p + o + 2, k[i].d->data(), k[i].d->size(), "C17: the data");
        o += 2 + k[i].d->size();
        vf_assert(p[o] == '\r' && p[o+1] == '\n', "C17: CRLF after the data");
    }
    vf_assert(responses() == at_ + 1, "C05,C18: exactly the live objects asked for, then END");
    const message* m = response(at_);
    if( m != nullptr ) r.line(m, TXT("END"), 5, "C17,C18: the list ends with END");
    vf_assert(! W.closed, "C18: the connection stays open");
    if( ! two ) r.done(x);
    else vf_assert(W.changes == 0 && W.messages == responses(), "C03,C12: a retrieval changes nothing");
}
void keys(bool with_prefix) {
    request r(text_command::KEYS, false, false, false);
    std::size_t prefix = with_prefix ? vf_size("prefix length") : 0;
    vf_assume(! with_prefix || (1 <= prefix && prefix <= (2u << 20)));
    const char* want = with_prefix ? (const char*)vf_alloc(prefix, "prefix") : nullptr;
    r.q->m_key = item(want, prefix);
    std::size_t n = vf_size("stored key length");
    vf_assume(1 <= n && n <= 250);
    char* k = (char*)vf_alloc(n, "stored key");
    r.fixture::key(k, n);
    r.run();
    bool match = W.live && prefix <= n && (prefix == 0 || vf_bytes_equal(k, want, prefix));
    vf_assert(W.lookups == 1, "C26: one pass over the table");
    vf_assert(responses() == (match ? 2 : 1), "C18,C26: exactly the live matching keys are listed, each once");
    const message* m = response(0);
    if( match && m != nullptr ) {
        vf_cover("keys: match");
        vf_assert(m->n == 6 + n + 2, "C17,C26: the exact key (length)");
        const char* p = m->p;
        vf_assert(p[0] == 'V' && p[1] == 'A' && p[2] == 'L' && p[3] == 'U' && p[4] == 'E' && p[5] == ' ', "C17: a value line");
        vf_same(p + 6, k, n, "C17,C26: the exact key");
        vf_assert(p[6 + n] == '\r' && p[7 + n] == '\n', "C17: the end of the line");
        m = response(1);
    } else if( ! match ) {
        vf_cover("keys: no match");
    }
    if( m != nullptr ) r.line(m, TXT("END"), 5, "C17,C18,C26: the list ends with END");
    vf_assert(! W.closed, "C18: the connection stays open");
    outcome x = r.nothing();
    r.done(x);
}
void flush() {
    request r(text_command::FLUSH_ALL, true, false, false);
    r.run();
    vf_cover("flush");
    vf_assert(g_stats.flush_time.load() == r.exp, "C05: flush takes effect at the time asked for");
    vf_assert(W.lookups == 0, "C03,C05: flush looks at no object");
    r.says(TXT("OK"), false);
    vf_assert(W.messages == responses(), "C12: flush sends no replication message");
}
void misc() {
    unsigned w = vf_choose("command", 3);
    request r(w == 0 ? text_command::SLABS : w == 1 ? text_command::VERSION : text_command::VERBOSITY, w == 2, false, false);
    r.q->m_verbosity = (cybozu::severity)vf_choose("severity", 5);
    r.run();
    vf_cover("misc");
    vf_assert(W.lookups == 0, "C03,C12: nothing happens to objects");
    vf_assert(W.messages == responses(), "C12: no replication message");
    if( w != 1 ) { r.says(TXT("OK"), false); return; }
    vf_assert(responses() == 1 && ! W.closed, "C18: version gets exactly one answer");
    const message* m = response(0);
    if( m == nullptr ) return;
    static const char v[] = "VERSION ";
    vf_assert(m->n > sizeof(v) + 1, "C17: the version");
    bool eq = true;
    for( std::size_t i = 0; i < sizeof(v) - 1; ++i ) eq &= m->p[i] == v[i];
    vf_assert(eq && m->p[m->n - 2] == '\r' && m->p[m->n - 1] == '\n', "C17: the version line");
}
void bad() {
    static const char key_[] = "key";
    request r((text_command)vf_choose("command", (unsigned)text_command::END_OF_COMMAND), true, false, false);
    r.fixture::key(key_, 3);
    r.q->m_key = item(key_, 3);
    r.q->m_valid = false;
    r.run();
    vf_cover("malformed");
    vf_assert(W.lookups == 0 && W.changes == 0, "C03,C04,C05,C28: a malformed request does nothing");
    vf_assert(W.messages == responses(), "C12: no replication message");
    r.answer(TXT("ERROR"), true);
}
}
VF_PROOF(text_store) { other_locks = true;
    static const text_command l[] = { text_command::SET, text_command::ADD, text_command::REPLACE, text_command::CAS };
    store(l[vf_choose("command", 4)]);
}
VF_PROOF(text_concat) { concat(vf_choose("command", 2) ? text_command::APPEND : text_command::PREPEND); }
VF_PROOF(text_incdec) { incdec(vf_choose("command", 2)); }
VF_PROOF(text_touch) { other_locks = true; touch(); }
VF_PROOF(text_delete) { other_locks = true; del(); }
VF_PROOF(text_lock) { other_locks = true; lock(); }
VF_PROOF(text_unlock) { other_locks = true; unlock(); }
VF_PROOF(text_release) { other_locks = true; release(vf_choose("quit", 2)); }
VF_PROOF(text_get) { other_locks = true; retrieve(vf_choose("cas", 2), false); }
VF_PROOF(text_get_two) { retrieve(vf_choose("cas", 2), true); }
VF_PROOF(text_keys) { keys(vf_choose("prefix", 2)); }
VF_PROOF(text_flush) { flush(); }
VF_PROOF(text_misc) { misc(); }
VF_PROOF(text_bad) { bad(); }
VF_PROOF(disconnect) { other_locks = true; disconnect(); }
