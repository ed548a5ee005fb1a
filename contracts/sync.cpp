// Contract of deferred actions (src/sync.hpp) and of the busy flag of workers
// they rely on (cybozu/worker.hpp).
#include "spec.hpp"
#include <src/sync.hpp>
#include <src/constants.hpp>
#include <new>
using namespace yrmcds;
typedef cybozu::worker worker;

namespace {
enum { MAX = 64, REQ = 3 };
alignas(64) char wraw[MAX][64];
struct {
    unsigned n;                 // workers
    bool idle[MAX];             // seen idle in this call: only the reactor thread posts jobs
    bool fixed;                 // do the workers stay busy or idle?
    unsigned generic; bool busy;
    // requests, by number: which workers have been seen idle since it was registered
    std::uint64_t passed[REQ + 1];
    unsigned run[REQ + 1];
    unsigned last;
} S;
bool w_running(const worker* w) {
    unsigned i = ((const char*)w - wraw[0]) / 64;
    vf_require(i < S.n, "a worker of the server");
    if( S.fixed ) {
        if( i != S.generic || ! S.busy ) S.idle[i] = true;
        return ! S.idle[i];
    }
    // a busy worker may become idle at any time
    if( ! S.idle[i] ) S.idle[i] = vf_bool("idle");
    return ! S.idle[i];
}
std::uint64_t idle_now() {
    std::uint64_t m = 0;
    for( unsigned i = 0; i < S.n; ++i ) m |= (std::uint64_t)S.idle[i] << i;
    return m;
}
std::uint64_t everyone() { return S.n == 64 ? ~(std::uint64_t)0 : ((std::uint64_t)1 << S.n) - 1; }
void action(unsigned i) {
    vf_assert(((S.passed[i] | idle_now()) & everyone()) == everyone(), "runs only after every worker has been idle since it was registered");
    vf_assert(S.run[i] == 0, "no action runs twice");
    vf_assert(i >= S.last, "in the order registered");
    S.last = i;
    ++S.run[i];
}
std::vector<std::unique_ptr<worker>>& any_workers(unsigned n, bool fixed) {
    static std::vector<std::unique_ptr<worker>> v;
    v.reserve(n);
    S.n = n;
    S.fixed = fixed;
    S.last = 0;
    for( unsigned i = 0; i < n; ++i ) {
        v.emplace_back((worker*)wraw[i]);
        S.idle[i] = false;
    }
    for( unsigned i = 0; i <= REQ; ++i ) { S.passed[i] = 0; S.run[i] = 0; }
    return v;
}
std::unique_ptr<sync_request> request(unsigned i) {
    return std::unique_ptr<sync_request>(new sync_request([i]{ action(i); }));
}
// requests registered earlier: some workers have been idle since, not all
void pending(syncer& s, unsigned k) {
    for( unsigned i = 0; i < k; ++i ) {
        std::uint64_t p = S.passed[i] = vf_u64("idle since") & everyone();
        vf_assume(p != everyone());
        auto r = request(i);
        for( unsigned j = 0; j < 64; ++j )
            if( j >= S.n ) r->m_flags.set(j); else if( vf_case((p >> j) & 1) ) r->m_flags.set(j);
        s.m_requests.push_back(std::move(r));
    }
}
// afterwards: which have run, and which still wait for what
void after(syncer& s, unsigned k) {
    unsigned at = 0;
    for( unsigned i = 0; i < k; ++i ) {
        bool all = ((S.passed[i] | idle_now()) & everyone()) == everyone();
        vf_assert(S.run[i] == (all ? 1u : 0u), "runs as soon as every worker has been idle since it was registered");
        if( S.run[i] ) continue;
        vf_assert(at < s.m_requests.size(), "waits until then");
        auto& f = s.m_requests[at++]->m_flags;
        std::uint64_t m = f.to_ullong();
        vf_assert((m & everyone()) == (S.passed[i] | idle_now()), "keeps which workers have been idle");
        vf_assert((m | everyone()) == ~(std::uint64_t)0, "does not wait for workers that do not exist");
    }
    vf_assert(s.m_requests.size() == at, "forgotten once it has run");
    vf_assert(s.empty() == (at == 0), "empty when nothing waits");
}
alignas(64) char yraw[sizeof(syncer)];
}
VF_REPLACE("cybozu::worker::is_running() const", w_running, "sync")

VF_PROOF(sync_add) {
    syncer& s = *new (yraw) syncer(any_workers(vf_choose("workers", 4), false));
    s.add_request(request(0));
    after(s, 1);
    if( S.run[0] ) vf_cover("at once"); else vf_cover("waits");
}
VF_PROOF(sync_check) {
    syncer& s = *new (yraw) syncer(any_workers(vf_choose("workers", 3), false));
    unsigned k = S.n == 0 ? 0 : vf_choose("requests", 4);
    pending(s, k);
    s.check();
    after(s, k);
    vf_cover("checked");
}
// one request among others
VF_PROOF(sync_history) {
    syncer& s = *new (yraw) syncer(any_workers(2, false));
    pending(s, 1);
    s.add_request(request(1));
    vf_assert(S.run[0] == 0, "registering does not run other actions");
    S.passed[1] = idle_now();
    for( unsigned i = 0; i < 2; ++i ) S.idle[i] = false;        // new jobs may have been posted
    unsigned run1 = S.run[1];
    S.last = 0;
    s.check();
    vf_assert(S.run[0] + s.m_requests.size() + S.run[1] == 2, "each runs once or waits");
    vf_assert(S.run[1] >= run1, "no action runs twice");
    vf_assert(S.run[0] == (((S.passed[0] | idle_now()) & 3) == 3), "runs as soon as every worker has been idle since it was registered");
    vf_assert(S.run[1] == (((S.passed[1] | idle_now()) & 3) == 3), "runs as soon as every worker has been idle since it was registered");
    vf_cover("checked");
}
// as many workers as supported, one of them busy or none
VF_PROOF(sync_many) {
    syncer& s = *new (yraw) syncer(any_workers(64, true));
    const unsigned which[4] = { 0, 31, 32, 63 };
    S.generic = which[vf_choose("busy worker", 4)];
    S.busy = vf_choose("busy", 2);
    s.add_request(request(0));
    after(s, 1);
    if( ! S.busy ) { vf_cover("at once"); return; }
    S.passed[0] = idle_now();
    S.busy = vf_choose("still busy", 2);
    s.check();
    after(s, 1);
    vf_assert(s.empty() == ! S.busy, "waits for the busy worker only");
    vf_cover("waits");
}

// ---- a worker is busy from when a job is posted until it has finished it
namespace {
alignas(worker) char oneraw[sizeof(worker)];
struct { unsigned posted, jobs; bool exit, in_job; } J;
worker& one() { return *(worker*)oneraw; }
bool busy() { return *(volatile unsigned char*)&one().m_running; }
void job(cybozu::dynbuf& b) {
    vf_assert(busy(), "busy while it works");
    vf_assert(&b == &one().m_buffer, "works with its own buffer");
    vf_assert(b.size() == 0, "the buffer is empty at first");
    b.m_used = b.m_capacity;            // the job leaves something behind
    ++J.jobs;
}
}
extern "C" {
static ssize_t j_read(int fd, void*, std::size_t n) {
    vf_assert(! busy(), "idle once the job is done");
    vf_assert(J.jobs == J.posted, "each job posted runs once");
    // the reactor thread posts a job, or stops the worker
    J.exit = vf_bool("exit");
    one().m_exit = J.exit;
    if( ! J.exit ) ++J.posted;
    *(unsigned char*)&one().m_running = 1;
    return n;
}
static ssize_t j_write(int fd, const void*, std::size_t n) {
    vf_assert(busy(), "busy before the worker is woken");
    ++J.posted;
    return n;
}
}
VF_REPLACE("?read", j_read, "worker")
VF_REPLACE("?write", j_write, "worker")
VF_PROOF(worker_run) {
    worker& w = one();
    new (&w.m_buffer) cybozu::dynbuf(64);
    new (&w.m_job) worker::job(job);
    new (&w.m_running) std::atomic<bool>(true);
    w.m_exit = false;
    J.posted = J.jobs = 0;
    w.run();
    vf_assert(J.exit, "stops only when asked to");
    vf_assert(J.jobs == J.posted, "each job posted runs once");
}
VF_PROOF(worker_post) {
    worker& w = one();
    new (&w.m_job) worker::job();
    new (&w.m_running) std::atomic<bool>(false);
    J.posted = J.jobs = 0;
    w.post_job(job);
    vf_assert(busy() && J.posted == 1 && w.m_job, "the worker is woken with the job");
}
