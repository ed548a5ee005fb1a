// Contract of yrmcds::counter::object (src/counter/object.hpp), from docs/counter.md
#include "spec.hpp"
#include <src/counter/object.hpp>
#include <new>
using namespace yrmcds::counter;

// An arbitrary counter in any state it can reach: last used at some time not
// after now; the highest consumption is never below the current one.
namespace {
std::int64_t any_now() {
    std::int64_t t = (std::int64_t)vf_u64("now");
    vf_assume(0 <= t && t < ((std::int64_t)1 << 40));
    unsigned interval = vf_u32("interval");
    vf_assume(interval >= 1);
    yrmcds::g_config.m_counter_config.m_stat_interval = interval;
    return t;
}
void set_now(std::int64_t t) { yrmcds::g_current_time.store(t); }
std::int64_t start_of(std::int64_t t) { return t - t % (std::int64_t)yrmcds::g_config.m_counter_config.m_stat_interval; }
object any_counter(std::int64_t now) {
    object o(0);
    o.m_consumption = vf_u32("consumption");
    o.m_max_consumption = vf_u32("max");
    vf_assume(o.m_consumption <= o.m_max_consumption);
    o.m_last_updated = (std::int64_t)vf_u64("last");
    vf_assume(0 <= o.m_last_updated && o.m_last_updated <= now);
    return o;
}
// what the counter reports at `now` and at any later time, given the highest
// consumption `high` of the interval of `now`
void check_reports(object& o, std::int64_t now, std::uint64_t cons, std::uint64_t high) {
    vf_assert(o.consumption() == cons, "current consumption is exact");
    vf_assert(o.max_consumption() == high, "highest consumption of this interval");
    std::int64_t later = (std::int64_t)vf_u64("later");
    vf_assume(now <= later && later < ((std::int64_t)1 << 40));
    set_now(later);
    vf_assert(o.consumption() == cons, "consumption does not change by itself");
    if( start_of(later) <= now ) {
        vf_cover("later, same interval");
        vf_assert(o.max_consumption() == high, "highest consumption is kept through the interval");
    } else {
        vf_cover("later, next interval");
        vf_assert(o.max_consumption() == cons, "a new interval starts from the current consumption");
    }
    bool d = o.deletable();
    if( d ) vf_assert(cons == 0, "a counter in use is never deleted");
}
}

VF_PROOF(counter_acquire) {
    std::int64_t now = any_now();
    set_now(now);
    object o = any_counter(now);
    std::uint64_t before = o.consumption(), high = o.max_consumption();
    vf_assert(high >= before, "highest is at least current");
    std::uint32_t res = vf_u32("resources"), max = vf_u32("maximum");
    vf_assume(res >= 1 && res <= max);          // ensured by request::parse (C13)
    bool ok = o.acquire(res, max);
    vf_assert(ok == (before + res <= max), "acquire succeeds iff it fits in the maximum");
    if( ok ) {
        vf_cover("acquired");
        std::uint64_t c = before + res;
        check_reports(o, now, c, c > high ? c : high);
    } else {
        vf_cover("refused");
        check_reports(o, now, before, high);
    }
}

VF_PROOF(counter_release) {
    std::int64_t now = any_now();
    set_now(now);
    object o = any_counter(now);
    std::uint64_t before = o.consumption(), high = o.max_consumption();
    std::uint32_t res = vf_u32("resources");
    bool ok = o.release(res);
    vf_assert(ok == (res <= before), "release succeeds iff that much is in use");
    if( ok ) {
        vf_cover("released");
        check_reports(o, now, before - res, high);
    } else {
        vf_cover("refused");
        check_reports(o, now, before, high);
    }
}

VF_PROOF(counter_create) {
    std::int64_t now = any_now();
    set_now(now);
    std::uint32_t res = vf_u32("resources");
    object o(res);
    vf_cover("created");
    check_reports(o, now, res, res);
}
