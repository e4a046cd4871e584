// C09: the thread pool and parallel_foreach under every interleaving (and, for C22, with thread
// start and allocation failures). This file is compiled instrumented, with z5's threadpool.hxx.
#include <z5/util/threadpool.hxx>
#include "rt/sim.h"
#include <list>
#include <iterator>
#include <new>
#include <thread>
using namespace sim;
using z5::util::ThreadPool;
namespace {
struct TaskErr : std::runtime_error { int id; explicit TaskErr(int i) : std::runtime_error("task " + std::to_string(i)), id(i) {} };
// everything the oracle knows; touched only inside NoPreempt sections
struct Task { int enq = 0, started = 0, finished = 0; bool throws = false, broken = false; };
struct Book {
    std::vector<Task> t;
    std::vector<int> busyId;          // calls in progress per worker id
    int running = 0, nWorkers = 0, accepted = 0;
    bool poolGone = false;
    std::map<uint64_t, int> idOfThread;
    std::string ctx;
    void reset(size_t n, int workers) { t.assign(n, Task()); busyId.assign(size_t(std::max(1, workers)), 0); nWorkers = workers; running = 0; poolGone = false; idOfThread.clear(); }
    void enter(int id, size_t k) {
        NoPreempt np; NoFaults nf;
        check(!poolGone, "runs-after-destruction", ctx + ": task " + std::to_string(k) + " runs after the pool is destroyed or the loop has returned");
        check(id >= 0 && id < std::max(1, nWorkers), "wrong-worker-id", ctx + ": task " + std::to_string(k) + " got worker id " + std::to_string(id) + " of " + std::to_string(nWorkers));
        check(++t[k].started == 1, "runs-twice", ctx + ": item " + std::to_string(k) + " runs more than once");
        ++busyId[size_t(id)];
        check(busyId[size_t(id)] == 1 || !nWorkers /* synchronous: each caller's own thread */, "worker-id-shared", ctx + ": two calls use worker id " + std::to_string(id) + " at the same time");
        ++running;
    }
    void leave(int id, size_t k) { NoPreempt np; NoFaults nf; ++t[k].finished; --busyId[size_t(id)]; --running; }
};
Book * B = nullptr;
struct InCall {
    int id; size_t k;
    InCall(int i, size_t n) : id(i), k(n) { B->enter(id, k); }
    ~InCall() { B->leave(id, k); }
};
void work(uint64_t h) {
    int n = int(h % 4);
    for(int i = 0; i < n; ++i) yieldPoint(0);
    if(h >> 8 & 1) std::this_thread::sleep_for(std::chrono::microseconds(h % 977));
}
void say(Ctx & ctx, const std::string & s) { NoPreempt np; NoFaults nf; ctx.say(s); }

// one pool, several producers that enqueue and wait; then destruction
void poolEpisode(Ctx & ctx, Rng r, bool faults) {
    int nw = r.range(0, 5), nTasks = r.range(0, 14), nProd = r.range(1, 3);
    int style = r.range(0, 3);     // 0: wait on futures, 1: waitFinished, 2: mixed, 3: destroy with work left
    uint64_t salt = r.next();
    bool throwing = r.chance(0.4), waitAll = r.chance(0.5);
    static Book book; B = &book;
    int reqd = nw;
    if(r.chance(0.1)) { nw = -1; reqd = nprocs; } else if(r.chance(0.05)) { nw = -2; reqd = nprocs / 2; }
    B->reset(size_t(nTasks) * size_t(nProd), reqd);
    B->ctx = "pool(" + std::to_string(nw) + ") producers " + std::to_string(nProd) + " tasks " + std::to_string(nTasks) + " style " + std::to_string(style);
    say(ctx, B->ctx);
    try {
        ThreadPool pool(nw);
        { NoPreempt np; check(int(pool.nThreads()) == std::max(0, reqd), "wrong-pool-size", B->ctx + ": has " + std::to_string(pool.nThreads()) + " workers"); }
        auto producer = [&](int p) {
            std::vector<std::pair<size_t, std::future<int>>> fu;
            std::vector<std::future<void>> fv;
            auto collect = [&] {
                for(auto & f : fu) {
                    int got = -1; bool threw = false, other = false;
                    try { got = f.second.get(); }
                    catch(const TaskErr & e) { threw = true; got = e.id; }
                    catch(const std::bad_alloc &) { other = true; }
                    catch(const std::future_error &) { other = true; }
                    NoPreempt np; NoFaults nf;
                    if(faults && other) continue;
                    check(!other && threw == B->t[f.first].throws && got == int(f.first) * 7, "wrong-future", B->ctx + ": future of task " + std::to_string(f.first) + (other ? " holds an exception the task did not throw" : " gave " + std::to_string(got)));
                    check(B->t[f.first].finished == 1, "future-before-task", B->ctx + ": future of task " + std::to_string(f.first) + " is ready but it has not run");
                }
                fu.clear();
            };
            auto waitF = [&] {
                std::vector<size_t> before;
                { NoPreempt np; NoFaults nf; for(size_t k = 0; k < B->t.size(); ++k) if(B->t[k].enq) before.push_back(k); }
                pool.waitFinished();
                NoPreempt np; NoFaults nf;
                for(size_t k : before) check(B->t[k].finished == 1, "wait-returns-early", B->ctx + ": waitFinished returned before task " + std::to_string(k) + " was done");
            };
            for(int i = 0; i < nTasks; ++i) {
                size_t k = size_t(p * nTasks + i);
                uint64_t h = mix(salt, k);
                bool th = throwing && h % 5 == 0;
                { NoPreempt np; B->t[k].throws = th; }
                auto fn = [k, h, th](int id) -> int {
                    InCall c(id, k);
                    work(h >> 4);
                    if(th) throw TaskErr(int(k) * 7);
                    return int(k) * 7;
                };
                if(h % 3 == 0 && !th) { auto f = pool.enqueue([fn](int id) { fn(id); }); NoPreempt np; NoFaults nf; B->t[k].enq = 1; fv.push_back(std::move(f)); }
                else { auto f = pool.enqueueReturning(fn); NoPreempt np; NoFaults nf; B->t[k].enq = 1; fu.emplace_back(k, std::move(f)); }
                if(style == 2 && h % 7 == 1) waitF();
                if(style == 2 && h % 7 == 2) collect();
            }
            if(style == 1 || style == 2) waitF();
            if(style != 3) { collect(); for(auto & f : fv) f.get(); }
            else if(waitAll && p == 0) { waitF(); collect(); }
        };
        // joins in every case
        struct Prods { std::vector<std::thread> v; ~Prods() { for(auto & t : v) if(t.joinable()) t.join(); } } prods;
        for(int p = 1; p < nProd; ++p) {
            NoFaults nf;
            prods.v.emplace_back([&, p] { try { producer(p); } catch(const std::exception & e) { NoPreempt np; NoFaults nf; if(!faults) fail("unexpected-exception", B->ctx + ": producer got " + e.what()); } });
        }
        std::exception_ptr ex;
        try { producer(0); } catch(...) { ex = std::current_exception(); }
        for(auto & t : prods.v) t.join();
        if(style != 3) {
            NoPreempt np; NoFaults nf;
            if(!ex && !faults) for(size_t k = 0; k < B->t.size(); ++k) check(B->t[k].finished == 1, "task-lost", B->ctx + ": task " + std::to_string(k) + " never ran");
        }
        if(ex) std::rethrow_exception(ex);
    }
    catch(const std::exception & e) {
        NoFaults nf;
        if(!faults || firedInScope() == 0) { NoPreempt np; fail("unexpected-exception", B->ctx + ": " + e.what()); }
        probe("pool-threw-after-fault");
    }
    NoPreempt np; NoFaults nf;
    B->poolGone = true;
    check(allThreadsDone(), "threads-left", B->ctx + ": workers are left after the pool was destroyed");
    check(B->running == 0, "runs-after-destruction", B->ctx + ": a task is still running after the pool was destroyed");
    size_t lost = 0; for(auto & k : B->t) if(k.enq && !k.started) ++lost;
    if(lost) probe("discarded-at-destruction");
}

struct InIt {     // a genuine input iterator
    using iterator_category = std::input_iterator_tag; using value_type = int64_t; using difference_type = std::ptrdiff_t; using pointer = const int64_t *; using reference = int64_t;
    int64_t i;
    int64_t operator*() const { return i; }
    InIt & operator++() { ++i; return *this; }
    InIt operator++(int) { InIt t = *this; ++i; return t; }
    bool operator==(const InIt & o) const { return i == o.i; }
    bool operator!=(const InIt & o) const { return i != o.i; }
};
void loopEpisode(Ctx & ctx, Rng r, bool faults) {
    int nw = r.range(0, 5), n = r.chance(0.15) ? 0 : r.range(1, 30), style = r.range(0, 4);
    uint64_t salt = r.next();
    int bad = r.chance(0.35) && n ? int(r.below(uint64_t(n))) : -1;
    int bad2 = bad >= 0 && r.chance(0.5) ? int(r.below(uint64_t(n))) : bad;
    bool hint = r.chance(0.5);
    static Book book; B = &book;
    B->reset(size_t(n), nw);
    static const char * nm[] = {"count", "count+pool", "vector", "list", "input"};
    B->ctx = std::string("parallel_foreach ") + nm[style] + " threads " + std::to_string(nw) + " items " + std::to_string(n) + (bad >= 0 ? " failing " + std::to_string(bad) + "," + std::to_string(bad2) : "");
    say(ctx, B->ctx);
    bool threw = false; int which = -1;
    auto f = [&](int id, int64_t k) {
        InCall c(id, size_t(k));
        work(mix(salt, uint64_t(k)) >> 3);
        if(int(k) == bad || int(k) == bad2) throw TaskErr(int(k));
    };
    std::string other;
    try {
        if(style == 0) z5::util::parallel_foreach(nw, std::ptrdiff_t(n), f);
        else {
            std::vector<int64_t> items(static_cast<size_t>(n)); std::list<int64_t> li;
            for(int i = 0; i < n; ++i) { items[size_t(i)] = i; li.push_back(i); }
            ThreadPool pool(nw);
            if(style == 1) z5::util::parallel_foreach(pool, std::ptrdiff_t(n), f);
            else if(style == 2) z5::util::parallel_foreach(pool, items.begin(), items.end(), f, hint ? n : 0);

            else if(style == 3) z5::util::parallel_foreach(pool, li.begin(), li.end(), f, hint ? n : 0);

            else z5::util::parallel_foreach(pool, InIt{0}, InIt{n}, f, hint ? n : 0);
            NoPreempt np; NoFaults nf;
            check(B->running == 0, "returns-early", B->ctx + ": calls are still running although the loop returned");
        }
    }
    catch(const TaskErr & e) { threw = true; which = e.id; }
    catch(const std::exception & e) { NoFaults nf; threw = true; other = e.what(); if(other.empty()) other = "?"; }
    NoPreempt np; NoFaults nf;
    check(B->running == 0, "returns-early", B->ctx + ": calls are still running although the loop returned");
    B->poolGone = true;
    check(allThreadsDone(), "threads-left", B->ctx + ": workers are left");
    if(!other.empty()) {
        if(!faults || firedInScope() == 0) fail("unexpected-exception", B->ctx + ": " + other);
        probe("loop-threw-after-fault");
        return;
    }
    if(threw) check(bad >= 0 && (which == bad || which == bad2), "wrong-exception", B->ctx + ": got the exception of " + std::to_string(which));
    else {
        check(bad < 0, "exception-lost", B->ctx + ": an item threw but the loop returned normally");
        for(size_t k = 0; k < B->t.size(); ++k) check(B->t[k].finished == 1, "item-skipped", B->ctx + ": item " + std::to_string(k) + " was not visited");
    }
}
void both(Ctx & ctx, bool faults) {
    int n = ctx.rng.range(1, 5);
    for(int i = 0; i < n; ++i) {
        uint64_t w = ctx.rng.next(), k = ctx.rng.next();
        if(!ctx.kept(i)) continue;
        scope(uint32_t(i + 1));
        std::unique_ptr<Arm> arm;
        { NoFaults nf; if(faults) arm.reset(new Arm); }
        try { if(k % 2) poolEpisode(ctx, Rng(w), faults); else loopEpisode(ctx, Rng(w), faults); }
        catch(const std::bad_alloc &) {          // hit the harness's own code
            NoFaults nf;
            if(!faults || !firedInScope()) throw;
            check(allThreadsDone() && B->running == 0, "threads-left", B->ctx + ": threads are left after std::bad_alloc");
        }
        { NoFaults nf; arm.reset(); }
        rec->stateHash = mix(rec->stateHash, w);
    }
}
}
SIM_SCENARIO(pool, "pool") { both(ctx, false); }
namespace w { void setFaultPolicy(sim::Ctx & ctx, uint64_t kinds, double pFault); }
SIM_SCENARIO(poolfaults, "pool-faults") {
    w::setFaultPolicy(ctx, bit(F_EAGAIN) | bit(F_ENOMEM), 1.0);
    allocFaults = faultPolicy.kinds & bit(F_ENOMEM) ? 1 : 0;
    both(ctx, true);
}
