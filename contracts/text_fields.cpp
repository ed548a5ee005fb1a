// Functional contract of yrmcds::memcache::text_request (src/memcache/memcache.cpp):
// well-formed requests of the text protocol decode to exactly what is written in
// them, malformed ones are not valid.
#include "spec.hpp"
#include <src/memcache/memcache.hpp>
#include <src/global.hpp>
using namespace yrmcds::memcache;

namespace {
const std::int64_t MONTH = 60*60*24*30;
// A request is written token by token over an arbitrary received buffer.
struct line {
    const char* b;      // received bytes
    std::size_t n;      // how many
    std::size_t o;      // written so far
    void lit(const char* s) {
        for( std::size_t i = 0; s[i] != 0; ++i ) { vf_assume(o < n); vf_assume(b[o] == s[i]); ++o; }
    }
    std::size_t room(const char* name) {
        std::size_t k = vf_size(name);
        vf_assume(k <= n - o);
        return k;
    }
    // a separator: a space, or two if more is set
    void sp() {
        lit(" ");
        if( more ) lit(" ");
    }
    bool more = false;
    // a nonempty word of bytes other than space, CR, LF
    item word() {
        std::size_t k = room("word length");
        vf_assume(k >= 1);
        vf_word(b + o, k);
        item r(b + o, k);
        o += k;
        return r;
    }
    // a decimal number
    item num() {
        std::size_t k = room("digits");
        vf_assume(k >= 1);
        vf_all_digits(b + o, k);
        item r(b + o, k);
        o += k;
        return r;
    }
};
line any_buffer() {
    line l;
    l.n = vf_size("len");
    vf_assume(l.n > 0);
    l.b = (const char*)vf_alloc(l.n, "buf");
    l.o = 0;
    return l;
}
std::int64_t any_now() {
    std::int64_t now = (std::int64_t)vf_u64("now");
    vf_assume(0 <= now && now < ((std::int64_t)1 << 40));
    yrmcds::g_current_time.store(now);
    return now;
}
bool fits(item i)        { return vf_dec_fits(std::get<0>(i), std::get<1>(i)); }
std::uint64_t val(item i) { return vf_dec(std::get<0>(i), std::get<1>(i)); }
bool fits32(item i)      { return fits(i) && val(i) <= 0xffffffffu; }
bool fits_time(item i)   { return fits(i) && val(i) <= 0x7fffffffffffffffull; }
std::int64_t exptime_of(item i, std::int64_t now) {
    std::int64_t t = (std::int64_t)val(i);
    return t == 0 ? 0 : t > MONTH ? t : now + t;
}
bool same(item a, item b) { return std::get<0>(a) == std::get<0>(b) && std::get<1>(a) == std::get<1>(b); }
struct cmdname { const char* s; text_command c; };
// end of line: an optional noreply and CRLF
bool tail(line& l) {
    bool nr = vf_choose("noreply", 2);
    if( nr ) { l.sp(); l.lit("noreply"); }
    if( l.more ) l.lit(" ");
    l.lit("\r\n");
    return nr;
}

void storage(line& l) {
    static const cmdname c[] = { {"set", text_command::SET}, {"add", text_command::ADD}, {"replace", text_command::REPLACE},
        {"append", text_command::APPEND}, {"prepend", text_command::PREPEND}, {"cas", text_command::CAS} };
    std::int64_t now = any_now();
    unsigned w = vf_choose("command", 6);
    l.lit(c[w].s); l.sp();
    item key = l.word(); l.sp();
    item flags = l.num(); l.sp();
    item expt = l.num(); l.sp();
    item nbytes = l.num();
    bool cas = c[w].c == text_command::CAS;
    item unique(nullptr, 0);
    if( cas ) { l.sp(); unique = l.num(); }
    bool nr = tail(l);
    text_request r(l.b, l.n);
    vf_assert(r.command() == c[w].c, "storage: command");
    if( ! fits32(flags) || ! fits_time(expt) || ! fits32(nbytes) || (cas && ! fits(unique)) ) {
        vf_cover("out of range");
        vf_assert(! r.valid(), "storage: a number out of range is an error");
        return;
    }
    std::uint64_t dl = val(nbytes);
    if( l.n < l.o + dl + 2 ) {
        vf_cover("incomplete data");
        vf_assert(r.length() == 0, "storage: waits for the whole data block");
        return;
    }
    vf_assert(r.length() == l.o + dl + 2, "storage: takes the line, the data and its CRLF");
    if( l.b[l.o + dl] != '\r' || l.b[l.o + dl + 1] != '\n' ) {
        vf_cover("bad data block");
        vf_assert(! r.valid(), "storage: data must be followed by CRLF");
        return;
    }
    vf_cover("stored");
    vf_assert(r.valid(), "storage: a well-formed request is accepted");
    vf_assert(same(r.key(), key), "storage: key");
    vf_assert(r.flags() == val(flags), "storage: flags");
    vf_assert(r.exptime() == exptime_of(expt, now), "storage: expiration time");
    vf_assert(same(r.data(), item(l.b + l.o, dl)), "storage: data");
    if( cas ) vf_assert(r.cas_unique() == val(unique), "storage: cas unique");
    vf_assert(r.no_reply() == nr, "storage: noreply");
}

// commands whose line is a key, an optional number and noreply
void keyed(line& l) {
    std::int64_t now = any_now();
    static const cmdname c[] = { {"delete", text_command::DELETE}, {"touch", text_command::TOUCH},
        {"incr", text_command::INCR}, {"decr", text_command::DECR} };
    unsigned w = vf_choose("command", 4);
    l.lit(c[w].s); l.sp();
    item key = l.word();
    item num(nullptr, 0);
    bool has_num = c[w].c != text_command::DELETE;
    if( has_num ) { l.sp(); num = l.num(); }
    bool nr = tail(l);
    text_request r(l.b, l.n);
    vf_assert(r.command() == c[w].c, "keyed: command");
    vf_assert(r.length() == l.o, "keyed: takes exactly its line");
    if( has_num && ! (c[w].c == text_command::TOUCH ? fits_time(num) : fits(num)) ) {
        vf_cover("number out of range");
        vf_assert(! r.valid(), "keyed: a number out of range is an error");
        return;
    }
    vf_cover("accepted");
    vf_assert(r.valid(), "keyed: a well-formed request is accepted");
    vf_assert(same(r.key(), key), "keyed: key");
    vf_assert(r.no_reply() == nr, "keyed: noreply");
    if( c[w].c == text_command::TOUCH ) vf_assert(r.exptime() == exptime_of(num, now), "touch: expiration time");
    else if( has_num ) vf_assert(r.value() == val(num), "incr/decr: amount");
}
void locking(line& l) {
    static const cmdname c[] = { {"lock", text_command::LOCK}, {"unlock", text_command::UNLOCK} };
    unsigned w = vf_choose("command", 2);
    l.lit(c[w].s); l.sp();
    item key = l.word();
    if( l.more ) l.lit(" ");
    l.lit("\r\n");
    text_request r(l.b, l.n);
    vf_cover("accepted");
    vf_assert(r.command() == c[w].c, "lock: command");
    vf_assert(r.length() == l.o, "lock: takes exactly its line");
    vf_assert(r.valid(), "lock: a well-formed request is accepted");
    vf_assert(same(r.key(), key), "lock: key");
    vf_assert(! r.no_reply(), "lock: no noreply");
}
// get, gets: any number of keys.  next_key depends only on where the previous
// key ends, so one step from an arbitrary line covers every key of the list.
void get(line& l) {
    static const cmdname c[] = { {"get", text_command::GET}, {"gets", text_command::GETS} };
    unsigned w = vf_choose("command", 2);
    l.lit(c[w].s); l.sp();
    item k1 = l.word();
    item k2 = text_request::eos;
    bool two = vf_choose("another key", 2);
    if( two ) {
        l.sp();
        k2 = l.word();
        unsigned x = vf_choose("rest", 2);
        if( x ) {   // whatever follows the second key
            l.sp();
            std::size_t k = l.room("rest length");
            vf_no_byte(l.b + l.o, k, '\n');
            vf_no_byte(l.b + l.o, k, '\r');
            l.o += k;
        }
    } else if( l.more ) {
        l.lit(" ");
    }
    l.lit("\r\n");
    text_request r(l.b, l.n);
    vf_assert(r.command() == c[w].c, "get: command");
    vf_assert(r.length() == l.o, "get: takes exactly its line");
    vf_assert(r.valid(), "get: a well-formed request is accepted");
    vf_assert(same(r.first_key(), k1), "get: first key");
    item n = text_request::next_key(r.first_key());
    if( two ) { vf_cover("next key"); vf_assert(same(n, k2), "get: next key"); }
    else { vf_cover("end of keys"); vf_assert(n == text_request::eos, "get: no more keys"); }
}
void keys(line& l) {
    l.lit("keys");
    item prefix(nullptr, 0);
    bool p = vf_choose("prefix", 2);
    if( p ) { l.sp(); prefix = l.word(); }
    l.lit("\r\n");
    text_request r(l.b, l.n);
    vf_cover("accepted");
    vf_assert(r.command() == text_command::KEYS, "keys: command");
    vf_assert(r.length() == l.o, "keys: takes exactly its line");
    vf_assert(r.valid(), "keys: a well-formed request is accepted");
    vf_assert(std::get<1>(r.key()) == std::get<1>(prefix), "keys: prefix length");
    if( p ) vf_assert(same(r.key(), prefix), "keys: prefix");
}
void stats(line& l) {
    l.lit("stats");
    static const struct { const char* s; stats_t v; } c[] = { {"settings", stats_t::SETTINGS}, {"items", stats_t::ITEMS},
        {"sizes", stats_t::SIZES}, {"ops", stats_t::OPS} };
    unsigned w = vf_choose("category", 5);
    if( w < 4 ) { l.sp(); l.lit(c[w].s); }
    l.lit("\r\n");
    text_request r(l.b, l.n);
    vf_cover("accepted");
    vf_assert(r.command() == text_command::STATS, "stats: command");
    vf_assert(r.length() == l.o, "stats: takes exactly its line");
    vf_assert(r.valid(), "stats: a well-formed request is accepted");
    vf_assert(r.stats() == (w < 4 ? c[w].v : stats_t::GENERAL), "stats: category");
}
void flush_all(line& l) {
    std::int64_t now = any_now();
    l.lit("flush_all");
    item num(nullptr, 0);
    bool t = vf_choose("time", 2);
    if( t ) { l.sp(); num = l.num(); }
    bool nr = tail(l);
    text_request r(l.b, l.n);
    vf_assert(r.command() == text_command::FLUSH_ALL, "flush_all: command");
    vf_assert(r.length() == l.o, "flush_all: takes exactly its line");
    if( t && ! fits_time(num) ) { vf_assert(! r.valid(), "flush_all: a number out of range is an error"); return; }
    vf_cover("accepted");
    vf_assert(r.valid(), "flush_all: a well-formed request is accepted");
    vf_assert(r.no_reply() == nr, "flush_all: noreply");
    std::int64_t d = t ? (std::int64_t)val(num) : 0;
    vf_assert(r.exptime() == (d > MONTH ? d : now + d), "flush_all: time");
}
void bare(line& l) {
    static const cmdname c[] = { {"version", text_command::VERSION}, {"quit", text_command::QUIT},
        {"unlock_all", text_command::UNLOCK_ALL}, {"slabs", text_command::SLABS} };
    unsigned w = vf_choose("command", 4);
    l.lit(c[w].s);
    l.lit("\r\n");
    text_request r(l.b, l.n);
    vf_cover("accepted");
    vf_assert(r.command() == c[w].c, "bare: command");
    vf_assert(r.length() == l.o, "bare: takes exactly its line");
    vf_assert(r.valid(), "bare: a well-formed request is accepted");
    vf_assert(! r.no_reply(), "bare: no noreply");
}
void verbosity(line& l) {
    static const struct { const char* s; cybozu::severity v; } c[] = { {"error", cybozu::severity::error},
        {"warning", cybozu::severity::warning}, {"info", cybozu::severity::info}, {"debug", cybozu::severity::debug} };
    unsigned w = vf_choose("level", 4);
    l.lit("verbosity"); l.sp(); l.lit(c[w].s);
    bool nr = tail(l);
    text_request r(l.b, l.n);
    vf_cover("accepted");
    vf_assert(r.command() == text_command::VERBOSITY, "verbosity: command");
    vf_assert(r.length() == l.o, "verbosity: takes exactly its line");
    vf_assert(r.valid(), "verbosity: a well-formed request is accepted");
    vf_assert(r.verbosity() == c[w].v, "verbosity: level");
    vf_assert(r.no_reply() == nr, "verbosity: noreply");
}
void simple(line& l) {
    switch( vf_choose("family", 7) ) {
    case 0: locking(l); break;
    case 1: get(l); break;
    case 2: keys(l); break;
    case 3: stats(l); break;
    case 4: flush_all(l); break;
    case 5: bare(l); break;
    default: verbosity(l); break;
    }
}

// A number is a nonempty string of digits and nothing else.
item not_a_number(line& l) {
    std::size_t k = l.room("bad number length");
    vf_assume(k >= 1);
    vf_word(l.b + l.o, k);
    std::size_t d = vf_size("digits before the intruder");
    vf_assume(d < k);
    vf_all_digits(l.b + l.o, d);
    char c = l.b[l.o + d];
    vf_assume(c < '0' || '9' < c);
    item r(l.b + l.o, k);
    l.o += k;
    return r;
}
// every malformed field in turn: none may give a valid request
void reject(line& l) {
    any_now();
    static const char* st[] = { "set", "add", "replace", "append", "prepend", "cas" };
    switch( vf_choose("malformed", 8) ) {
    case 0: {   // storage: one of the numbers is not a number
        unsigned w = vf_choose("command", 6);
        unsigned bad = vf_choose("field", w == 5 ? 4 : 3);
        l.lit(st[w]); l.sp(); l.word();
        for( unsigned i = 0; i < (w == 5 ? 4u : 3u); ++i ) { l.sp(); if( i == bad ) not_a_number(l); else l.num(); }
        l.lit("\r\n");
        break; }
    case 1: {   // storage: fields missing
        unsigned w = vf_choose("command", 6);
        unsigned have = vf_choose("fields", w == 5 ? 5 : 4);
        l.lit(st[w]);
        if( have > 0 ) { l.sp(); l.word(); }
        for( unsigned i = 1; i < have; ++i ) { l.sp(); l.num(); }
        l.lit("\r\n");
        break; }
    case 2: {   // storage: something other than noreply at the end
        unsigned w = vf_choose("command", 6);
        l.lit(st[w]); l.sp(); l.word();
        for( unsigned i = 0; i < (w == 5 ? 4u : 3u); ++i ) { l.sp(); l.num(); }
        l.sp();
        item x = l.word();
        if( std::get<1>(x) == 7 ) vf_assume(! vf_case(vf_bytes_equal(std::get<0>(x), "noreply", 7)));
        l.lit("\r\n");
        break; }
    case 3: {   // keyed commands: missing or bad number, missing key, garbage
        static const char* c[] = { "touch", "incr", "decr", "delete" };
        unsigned w = vf_choose("command", 4);
        l.lit(c[w]);
        switch( vf_choose("defect", 4) ) {
        case 0: break;                                  // no key
        case 1: l.sp(); l.word(); if( w == 3 ) { l.sp(); l.lit("0x"); } break;    // no number; garbage
        case 2: l.sp(); l.word(); l.sp(); if( w == 3 ) l.lit("norepl"); else not_a_number(l); break;
        default: {
            l.sp(); l.word();
            if( w != 3 ) { l.sp(); l.num(); }
            l.sp();
            item x = l.word();
            if( std::get<1>(x) == 7 ) vf_assume(! vf_case(vf_bytes_equal(std::get<0>(x), "noreply", 7)));
            break; }
        }
        l.lit("\r\n");
        break; }
    case 4: {   // key missing or garbage after it
        static const char* c[] = { "lock", "unlock", "get", "gets" };
        unsigned w = vf_choose("command", 4);
        l.lit(c[w]);
        if( w < 2 && vf_choose("garbage", 2) ) { l.sp(); l.word(); l.sp(); l.word(); }
        l.lit("\r\n");
        break; }
    case 5: {   // a word that is no command
        item x = l.word();
        static const char* all[] = { "set", "add", "replace", "append", "prepend", "cas", "get", "gets", "delete", "incr", "decr",
            "touch", "lock", "unlock", "unlock_all", "slabs", "stats", "flush_all", "version", "verbosity", "quit", "keys" };
        for( const char* s : all ) {
            std::size_t k = strlen(s);
            if( std::get<1>(x) == k ) vf_assume(! vf_case(vf_bytes_equal(std::get<0>(x), s, k)));
        }
        if( vf_choose("arguments", 2) ) {
            l.sp();
            std::size_t k = l.room("rest length");
            vf_no_byte(l.b + l.o, k, '\n');
            l.o += k;
        }
        l.lit("\r\n");
        text_request r(l.b, l.n);
        vf_cover("unknown command");
        vf_assert(r.length() == l.o, "unknown: takes exactly its line");
        vf_assert(r.command() == text_command::UNKNOWN && ! r.valid(), "an unknown command is reported as such");
        return; }
    case 6: {   // a line ending in a bare LF
        std::size_t k = l.room("line length");
        vf_no_byte(l.b, k, '\n');
        l.o = k;
        if( k > 0 ) vf_assume(l.b[k - 1] != '\r');
        l.lit("\n");
        text_request r(l.b, l.n);
        vf_cover("bare LF");
        vf_assert(r.length() == l.o, "bare LF: takes exactly its line");
        vf_assert(! r.valid(), "a line must end in CRLF");
        return; }
    default: {  // flush_all / stats with a bad argument
        l.lit(vf_choose("flush", 2) ? "flush_all" : "stats");
        l.sp();
        item x = l.word();
        bool flush = l.b[0] == 'f';
        if( flush ) {
            // neither a number nor noreply
            if( std::get<1>(x) == 7 ) vf_assume(! vf_case(vf_bytes_equal(std::get<0>(x), "noreply", 7)));
            std::size_t d = vf_size("digits before the intruder");
            vf_assume(d < std::get<1>(x));
            vf_all_digits(std::get<0>(x), d);
            char c = std::get<0>(x)[d];
            vf_assume(c < '0' || '9' < c);
        } else {
            static const char* cat[] = { "settings", "items", "sizes", "ops" };
            for( const char* s : cat ) {
                std::size_t k = strlen(s);
                if( std::get<1>(x) == k ) vf_assume(! vf_case(vf_bytes_equal(std::get<0>(x), s, k)));
            }
        }
        l.lit("\r\n");
        break; }
    }
    text_request r(l.b, l.n);
    vf_cover("malformed");
    vf_assert(r.length() > 0, "malformed: the line is taken");
    vf_assert(! r.valid(), "a malformed request is not valid");
}
}

VF_PROOF(text_storage) { line l = any_buffer(); storage(l); }
VF_PROOF(text_keyed)   { line l = any_buffer(); keyed(l); }
VF_PROOF(text_simple)  { line l = any_buffer(); simple(l); }
VF_PROOF(text_reject)  { line l = any_buffer(); reject(l); }
VF_PROOF(text_incomplete) {
    line l = any_buffer();
    vf_no_byte(l.b, l.n, '\n');
    text_request r(l.b, l.n);
    vf_cover("incomplete");
    vf_assert(r.length() == 0, "a line without its end is not taken");
    vf_assert(! r.valid(), "an incomplete line is not valid");
}
// the same with two spaces wherever any number is allowed (bounded)
VF_PROOF(text_storage_spaces) { line l = any_buffer(); l.more = true; storage(l); }
VF_PROOF(text_keyed_spaces)   { line l = any_buffer(); l.more = true; keyed(l); }
VF_PROOF(text_simple_spaces)  { line l = any_buffer(); l.more = true; simple(l); }
