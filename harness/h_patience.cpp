// Waits that last for seconds: what must wait does so for as long as it takes, however long a sink, a queue or an idle
// time keeps it waiting.  Every case runs a dozen scenarios at once; they sleep most of the time.
#include "pools.h"
#include "recsink.h"
#include "perturb.h"
#include "base/block_queue.h"
#include "base/concurrentqueue/blockingconcurrentqueue.h"
#include "base/file_base.h"
#include "base/periodic_function.h"

#include <mutex>

using namespace learnlog;
using lib::make_pool;
using lib::pool_name;

namespace {

double now() { return pbt::now_s(); }
void nap(double secs) {
    for (double end = now() + secs; now() < end;) perturb::raw_sleep_us(uint64_t(std::max(50.0, (end - now()) * 1e6)));
}

// Sleeps once, in the call of the given number, before it records it.
struct HoldSink : sinks::sink {
    double hold = 0;
    size_t at = 0;
    bool in_flush = false;
    std::atomic<bool> holding{false};
    std::mutex m;
    size_t calls = 0, flushes = 0;
    std::vector<std::string> got;
    void log(const base::log_msg& msg) override {
        std::unique_lock<std::mutex> l(m);
        bool now_ = !in_flush && calls++ == at;
        l.unlock();
        if (now_) { holding = true; nap(hold); holding = false; }
        l.lock();
        got.push_back(lib::str(msg.msg));
    }
    void flush() override {
        bool now_;
        {
            std::lock_guard<std::mutex> l(m);
            now_ = in_flush && flushes == 0;
        }
        if (now_) { holding = true; nap(hold); holding = false; }
        std::lock_guard<std::mutex> l(m);
        ++flushes;
    }
    void set_pattern(const std::string&) override {}
    void set_formatter(formatter_uni_ptr) override {}
    size_t count() { std::lock_guard<std::mutex> l(m); return got.size(); }
    size_t flush_count() { std::lock_guard<std::mutex> l(m); return flushes; }
};

// The scenarios of a case, each on a thread of its own.  The first failure ends the process, because the others still wait.
struct Crowd {
    std::vector<std::thread> th;
    std::atomic<size_t> running{0};
    template <typename F>
    void add(std::string name, F f) {
        ++running;
        th.emplace_back([this, name, f] {
            try { f(); }
            catch (const pbt::Failure& e) { die(name + ": " + e.msg); }
            catch (const std::exception& e) { die(name + ": unexpected exception: " + e.what()); }
            --running;
        });
    }
    [[noreturn]] static void die(const std::string& s) {
        static std::mutex m;
        m.lock();
        pbt::write_msg(s);
        fprintf(stderr, "%s\n", s.c_str());
        _exit(pbt::EXIT_FAILED);
    }
    void finish(double limit) {
        for (double end = now() + limit; running && now() < end;) {
            perturb::raw_sleep_us(20000);
            pbt::beat();
        }
        for (auto& t : th) t.join();    // a scenario that never ends is the watchdog's
    }
};
#undef REQUIRE
#define REQUIRE(cond, ...)                                                                    \
    do {                                                                                      \
        if (!(cond)) Crowd::die(std::string("[") + #cond + "] " + pbt::strf(__VA_ARGS__));    \
    } while (0)

double hold_time(pbt::Src& src) {
    return src.pick({0.35, 1.2, 1.2, 2.3, 2.3, 3.4, 5.6}) + double(src.below(100)) / 1000;
}
double longest(pbt::Src& src) {     // one scenario of each case is at least this long
    return src.pick({5.6, 11.0, 5.6, 5.6, 11.0, 5.6, 11.0, 5.6, 5.6, 11.0, 5.6, 31.0});
}

std::string text(size_t i) { return "message " + std::to_string(i); }

}   // namespace

// flush() returns after what the caller logged before it was written and flushed, however long that takes
PROPERTY(flushes, 60) {
    Crowd c;
    size_t n = src.size(6, 14);
    double top = longest(src);
    for (size_t k = 0; k < n; ++k) {
        size_t kind = 1 + src.below(3), workers = kind == 3 ? src.size(1, 3) : 1, ns = src.size(1, 3), before = src.below(6);
        double hold = k == 0 ? top : hold_time(src);
        bool in_flush = src.flip(), others = src.flip();
        size_t at = src.below(before + 1), which = src.below(ns);
        src.note(pbt::strf("%s pool, %zu workers, %zu messages, sink %zu of %zu waits %.2f s in %s", pool_name(kind), workers, before, which, ns, hold,
                           in_flush ? "flush" : "log"));
        c.add(pbt::strf("%s pool, held for %.2f s in %s", pool_name(kind), hold, in_flush ? "flush" : "log"), [=] {
            std::vector<std::shared_ptr<HoldSink>> S;
            std::vector<sink_shr_ptr> ptr;
            for (size_t s = 0; s < ns; ++s) {
                S.push_back(std::make_shared<HoldSink>());
                S[s]->at = s == which && !in_flush ? at : size_t(-1);
                S[s]->in_flush = s == which && in_flush;
                S[s]->hold = hold;
                ptr.push_back(S[s]);
            }
            auto pool = make_pool(kind, 64, workers);
            auto l = std::make_shared<async_logger>("L", ptr.begin(), ptr.end(), pool);
            for (size_t i = 0; i < before; ++i) l->log(level::info, text(i));
            std::thread o;
            if (others) o = std::thread([&] { l->flush(); });
            l->flush();
            for (auto& s : S) {
                REQUIRE(s->count() == before, "flush() returned with %zu of %zu messages written", s->count(), before);
                REQUIRE(s->flush_count() >= 1, "flush() returned before a sink was flushed");
            }
            if (o.joinable()) o.join();
            for (auto& s : S) REQUIRE(s->flush_count() == 1u + others, "%zu flushes, want %d", s->flush_count(), 1 + others);
            l.reset();
            pool.reset();
        });
    }
    c.finish(30);
    src.nontrivial();
}

// a caller that meets a full queue waits as long as it takes; nothing is lost, and an idle pool stays of use
static void full_case(pbt::Src& src, bool bound) {
    Crowd c;
    size_t n = src.size(5, 10);
    double top = longest(src);
    for (size_t k = 0; k < n; ++k) {
        size_t kind = k < 2 ? 1 + k : 1 + src.below(3), q = src.pick<size_t>({1, 2, 8, 32}), np = kind == 2 ? 1 : src.size(1, 3);
        size_t per = kind == 2 ? 40 * (q / 32 + 6) : src.size(2, 30);
        double hold = k < 2 ? top : hold_time(src);
        double idle = src.chance(1, 3) ? hold_time(src) : 0;
        src.note(pbt::strf("%s pool, queue %zu, %zu producers with %zu messages, the sink waits %.2f s, %.2f s idle", pool_name(kind), q, np, per, hold, idle));
        c.add(pbt::strf("%s pool, queue %zu, held for %.2f s, idle for %.2f s", pool_name(kind), q, hold, idle), [=] {
            auto s = std::make_shared<HoldSink>();
            s->hold = hold;
            auto pool = make_pool(kind, q, 1);
            auto l = std::make_shared<async_logger>("L", s, pool);
            std::atomic<size_t> accepted{0};
            std::vector<std::thread> th;
            for (size_t p = 0; p < np; ++p)
                th.emplace_back([&, p] {
                    for (size_t i = 0; i < per; ++i) {
                        l->log(level::info, std::to_string(p) + " " + std::to_string(i));
                        ++accepted;
                    }
                });
            while (!s->holding && s->count() == 0) nap(0.001);
            size_t limit = kind == 1 ? q + 1 : kind == 2 ? 1 + 32 * ((q + 31) / 32 + 2 * np + 2) : np * per;
            while (s->holding) {
                size_t a = accepted;
                if (!s->holding) break;
                REQUIRE(a <= limit || !bound, "%zu messages accepted while none was written, queue %zu", a, q);
                nap(0.02);
            }
            for (auto& t : th) t.join();
            if (idle > 0) {
                nap(idle);
                l->log(level::info, "late");
            }
            l.reset();
            pool.reset();
            std::vector<size_t> next(np, 0);
            size_t late = 0;
            for (auto& g : s->got) {
                if (g == "late") { ++late; continue; }
                size_t p = strtoul(g.c_str(), nullptr, 10), i = strtoul(g.c_str() + g.find(' '), nullptr, 10);
                REQUIRE(p < np && i == next[p], "message %s, want number %zu of that producer", g.c_str(), p < np ? next[p] : 0);
                ++next[p];
            }
            for (size_t p = 0; p < np; ++p) REQUIRE(next[p] == per, "%zu of %zu messages of producer %zu written", next[p], per, p);
            REQUIRE(late == (idle > 0 ? 1u : 0u), "the message after the idle time was written %zu times", late);
        });
    }
    c.finish(30);
    src.nontrivial();
}

PROPERTY(full_queue, 60) { full_case(src, true); }
PROPERTY(full_delivery, 60) { full_case(src, false); }

// releasing a pool drains it and runs the callbacks, however long a sink takes; also of a pool that was idle
PROPERTY(releases, 60) {
    Crowd c;
    size_t n = src.size(6, 12);
    double top = longest(src);
    for (size_t k = 0; k < n; ++k) {
        size_t kind = k < 3 ? 1 + k : 1 + src.below(3), workers = src.size(1, 3), msgs = src.size(1, 12);
        double hold = k < 3 ? top : hold_time(src);
        size_t what = k < 3 ? 0 : src.below(4);         // held in a message, at the start, at the stop, or idle
        src.note(pbt::strf("%s pool, %zu workers, %zu messages, %.2f s %s", pool_name(kind), workers, msgs, hold,
                           what == 0 ? "in a sink" : what == 1 ? "in the start callback" : what == 2 ? "in the stop callback" : "idle"));
        c.add(pbt::strf("%s pool, %zu workers, %.2f s %s", pool_name(kind), workers, hold, what == 0 ? "in a sink" : what == 1 ? "in the start callback" : what == 2 ? "in the stop callback" : "idle"), [=] {
            auto s = std::make_shared<HoldSink>();
            s->hold = hold;
            if (what) s->at = size_t(-1);
            std::atomic<size_t> starts{0}, stops{0}, first{0};
            auto a = [&] { if (what == 1 && first++ == 0) nap(hold); ++starts; };
            auto b = [&] { if (what == 2 && first++ == 0) nap(hold); ++stops; };
            thread_pool_shr_ptr pool;
            if (kind == 1) pool = std::make_shared<base::lock_thread_pool>(64, workers, a, b);
            else if (kind == 2) pool = std::make_shared<base::lockfree_thread_pool>(64, workers, a, b);
            else pool = std::make_shared<base::lockfree_concurrent_thread_pool>(64, workers, a, b);
            auto l = std::make_shared<async_logger>("L", s, pool);
            for (size_t i = 0; i < msgs; ++i) l->log(level::info, text(i));
            if (what == 3) nap(hold);
            l.reset();
            pool.reset();
            REQUIRE(s->count() == msgs, "%zu of %zu messages written when the release of the pool returned", s->count(), msgs);
            REQUIRE(starts == workers && stops == workers, "%zu start and %zu stop callbacks ended on %zu workers", size_t(starts), size_t(stops), workers);
        });
    }
    c.finish(30);
    src.nontrivial();
}

// a message waits behind a busy or idle worker for seconds and arrives as it was
PROPERTY(deliveries, 60) {
    Crowd c;
    size_t n = src.size(6, 12);
    double top = longest(src);
    for (size_t k = 0; k < n; ++k) {
        size_t kind = k < 3 ? 1 + k : 1 + src.below(3), workers = src.size(1, 2), rounds = src.size(1, 3);
        double hold = k < 3 ? top : hold_time(src);
        bool held = k >= 3 && src.flip();
        src.note(pbt::strf("%s pool, %zu workers, %s for %.2f s", pool_name(kind), workers, held ? "held" : "idle", hold));
        c.add(pbt::strf("%s pool, %zu workers, %s for %.2f s", pool_name(kind), workers, held ? "held" : "idle", hold), [=] {
            auto s = std::make_shared<rec::Sink>();
            auto h = std::make_shared<HoldSink>();
            h->hold = hold;
            if (!held) h->at = size_t(-1);
            auto pool = make_pool(kind, 64, workers);
            sink_shr_ptr both[] = {h, s};
            auto l = std::make_shared<async_logger>("the logger", both, both + 2, pool);
            long long lo = lib::now_ns(), mid = 0;
            for (size_t r = 0; r < rounds; ++r) l->log(source_loc{"a.cpp", int(r + 1), "f"}, level::warn, text(r));
            if (!held) nap(hold);
            mid = lib::now_ns();
            for (size_t r = 0; r < rounds; ++r) l->log(source_loc{"a.cpp", int(100 + r), "f"}, level::warn, text(r));
            long long hi = lib::now_ns();
            l.reset();
            pool.reset();
            auto got = s->take();
            REQUIRE(got.size() == 2 * rounds, "%zu of %zu messages written", got.size(), 2 * rounds);
            std::set<int> seen;
            for (auto& e : got) {
                REQUIRE(seen.insert(e.line).second, "the message of line %d was written twice", e.line);
                bool late = e.line >= 100;
                REQUIRE(e.text == text(size_t(late ? e.line - 100 : e.line - 1)) && e.logger == "the logger" && e.level == int(level::warn), "a message differs: %s", rec::show(e).c_str());
                REQUIRE(e.tid == rec::this_tid(), "the thread of a message differs");
                REQUIRE(late ? e.ns >= mid && e.ns <= hi : e.ns >= lo && e.ns <= mid, "the time of message %d is not that of the call", e.line);
            }
        });
    }
    c.finish(30);
    src.nontrivial();
}

// the calls of the blocking queue wait as long as it takes, and no longer than they were told to
PROPERTY(queue, 60) {
    Crowd c;
    size_t n = src.size(8, 16);
    double top = longest(src);
    for (size_t k = 0; k < n; ++k) {
        size_t cap = src.size(1, 4), waiting = src.size(1, 3), what = k < 3 ? k : src.below(4);
        double hold = k < 3 ? top : hold_time(src), shorter = src.pick({0.02, 0.3, 0.9});
        long limit = src.pick({long(hold * 1000) + 15000, 1000000000l, 1l << 50, std::chrono::milliseconds::max().count()});
        static const char* const W[] = {"calls of enqueue on a full queue", "calls of dequeue on an empty queue", "calls of dequeue_for on an empty queue", "calls of dequeue_for that run out"};
        src.note(pbt::strf("%zu %s wait %.2f s", waiting, W[what], hold));
        c.add(pbt::strf("%s wait %.2f s", W[what], hold), [=] {
            base::block_queue<int> q(cap);
            std::mutex m;
            std::vector<int> out;
            std::vector<std::thread> th;
            std::atomic<size_t> done{0};
            std::string err;
            if (what == 0) for (size_t i = 0; i < cap; ++i) q.enqueue(int(i));
            double t0 = now();
            for (size_t w = 0; w < waiting; ++w)
                th.emplace_back([&, w] {
                    int v = -1;
                    if (what == 0) q.enqueue(int(100 + w));
                    else if (what == 1) q.dequeue(v);
                    else {
                        double l = what == 2 ? double(limit) / 1000 : shorter;
                        double t1 = now();
                        bool ok = q.dequeue_for(v, std::chrono::milliseconds(what == 2 ? limit : long(shorter * 1000)));
                        double took = now() - t1;
                        std::lock_guard<std::mutex> g(m);
                        if (what == 2 && !ok) err = pbt::strf("dequeue_for gave up after %.2f s of %.2f s", took, l);
                        if (what == 3 && ok) err = "dequeue_for took something from an empty queue";
                        if (what == 3 && took < l - 0.002) err = pbt::strf("dequeue_for gave up after %.3f s of %.3f s", took, l);
                        if (what == 3 && v != -1) err = "dequeue_for changed the item although it ran out";
                    }
                    ++done;
                    std::lock_guard<std::mutex> g(m);
                    if (what == 1 || what == 2) out.push_back(v);
                });
            if (what == 3) {
                for (auto& t : th) t.join();
                REQUIRE(err.empty(), "%s", err.c_str());
                return;
            }
            while (now() - t0 < hold) {
                nap(std::min(0.05, hold));
                REQUIRE(!done, "a waiting call returned after %.2f s of %.2f s", now() - t0, hold);
                REQUIRE(q.size() == (what == 0 ? cap : 0), "the queue has %zu items", q.size());
            }
            if (what == 0) {
                for (size_t i = 0; i < cap + waiting; ++i) { int v = -1; q.dequeue(v); out.push_back(v); }
                for (auto& t : th) t.join();
                for (size_t i = 0; i < cap; ++i) REQUIRE(out[i] == int(i), "item %zu is %d", i, out[i]);
                std::sort(out.begin() + long(cap), out.end());
                for (size_t i = 0; i < waiting; ++i) REQUIRE(out[cap + i] == int(100 + i), "item %zu is %d", cap + i, out[cap + i]);
            }
            else {
                for (size_t i = 0; i < waiting; ++i) q.enqueue(int(100 + i));
                for (auto& t : th) t.join();
                REQUIRE(err.empty(), "%s", err.c_str());
                std::sort(out.begin(), out.end());
                for (size_t i = 0; i < waiting; ++i) REQUIRE(out[i] == int(100 + i), "item %zu is %d", i, out[i]);
            }
            REQUIRE(q.get_override_count() == 0 && q.get_discard_count() == 0, "something was counted as dropped");
        });
    }
    c.finish(40);
    src.nontrivial();
}

// so do those of the lock-free blocking queue and of the semaphore
PROPERTY(semaphores, 60) {
    Crowd c;
    size_t n = src.size(6, 14);
    double top = longest(src);
    for (size_t k = 0; k < n; ++k) {
        size_t what = k < 4 ? k : src.below(4), waiting = src.size(1, 3);
        double hold = k < 4 ? top : hold_time(src), limit = hold + 15, shorter = src.pick({0.02, 0.3, 1.1, 2.2});
        static const char* const W[] = {"calls of wait_dequeue", "calls of wait_dequeue_timed", "calls of wait_dequeue_timed that run out", "calls of wait on a semaphore"};
        src.note(pbt::strf("%zu %s wait %.2f s", waiting, W[what], what == 2 ? shorter : hold));
        c.add(pbt::strf("%s wait %.2f s", W[what], what == 2 ? shorter : hold), [=] {
            moodycamel::BlockingConcurrentQueue<int> q(64);
            moodycamel::LightweightSemaphore sema;
            std::atomic<size_t> done{0}, failed{0}, sum{0};
            std::vector<std::thread> th;
            double t0 = now();
            for (size_t w = 0; w < waiting; ++w)
                th.emplace_back([&] {
                    int v = 0;
                    bool ok = true;
                    if (what == 0) q.wait_dequeue(v);
                    else if (what == 3) { ok = sema.wait(); v = 1; }
                    else ok = q.wait_dequeue_timed(v, std::int64_t((what == 1 ? limit : shorter) * 1e6));
                    if (!ok) ++failed;
                    sum += size_t(v);
                    ++done;
                });
            if (what == 2) {
                for (auto& t : th) t.join();
                REQUIRE(failed == waiting && sum == 0, "a timed wait on an empty queue succeeded");
                REQUIRE(now() - t0 < shorter + 20, "a wait of %.2f s took %.2f s", shorter, now() - t0);
                return;
            }
            while (now() - t0 < hold) {
                nap(std::min(0.05, hold));
                REQUIRE(!done, "a waiting call returned after %.2f s of %.2f s", now() - t0, hold);
            }
            for (size_t w = 0; w < waiting; ++w) {
                if (what == 3) sema.signal();
                else q.enqueue(1);
            }
            for (auto& t : th) t.join();
            REQUIRE(failed == 0 && sum == waiting, "%zu of %zu waiting calls succeeded", size_t(sum), waiting);
        });
    }
    c.finish(30);
    src.nontrivial();
}

// the owner of a periodic function waits for the run in progress, and seconds between runs are seconds
PROPERTY(periodic, 60) {
    Crowd c;
    size_t n = src.size(6, 12);
    double top = longest(src);
    for (size_t k = 0; k < n; ++k) {
        bool busy = k == 0 || (k > 1 && src.flip());
        double t = k < 2 ? top : hold_time(src);
        src.note(pbt::strf(busy ? "a run of %.2f s" : "an interval of %.2f s", t));
        c.add(pbt::strf(busy ? "a run of %.2f s" : "an interval of %.2f s", t), [=] {
            std::atomic<size_t> runs{0}, ended{0};
            double t0 = now();
            if (busy) {
                {
                    base::periodic_function f([&] { ++runs; nap(t); ++ended; }, std::chrono::milliseconds(5));
                    while (!runs) nap(0.001);
                }
                REQUIRE(runs == ended, "destroyed with a run in progress");
                size_t r = runs;
                nap(0.2);
                REQUIRE(runs == r, "ran after its owner was destroyed");
            }
            else {
                std::atomic<double> last{t0}, least{1e9};
                {
                    base::periodic_function f([&] { double x = now(); if (x - last < least) least = x - last; last = x; ++runs; }, std::chrono::duration<double>(t));
                    while (runs < 1) {
                        nap(0.005);
                        REQUIRE(now() - t0 < t + 25, "no run in %.2f s", now() - t0);
                    }
                    nap(0.1);
                    t0 = now();
                }
                REQUIRE(now() - t0 < 20, "destroying it took %.2f s", now() - t0);
                REQUIRE(least > t - 0.001, "ran after %.3f s", double(least));
            }
        });
    }
    c.finish(45);
    src.nontrivial();
}

// attempts to open a file that fail for seconds
PROPERTY(opening, 60) {
    Crowd c;
    size_t n = src.size(6, 12);
    double top = longest(src);
    std::string dir = pbt::scratch() + "/case";
    pbt::empty_dir(dir);
    for (size_t k = 0; k < n; ++k) {
        int tries = int(src.size(1, 6)) + (k % 4 == 3 ? int(src.size(10, 60)) : 0);
        double hold = k == 0 ? top : hold_time(src);
        unsigned pause = unsigned(hold * 1000 / tries);
        bool trunc = src.flip(), comes = k < 3 ? k == 1 : src.flip();
        double when = hold * double(1 + src.below(80)) / 100;
        src.note(pbt::strf("%d attempts with pauses of %u ms, %s", tries, pause, comes ? "the obstacle goes" : "the obstacle stays"));
        c.add(pbt::strf("%d attempts with pauses of %u ms, %s", tries, pause, comes ? "the obstacle goes" : "the obstacle stays"), [=] {
            std::string file = dir + "/f" + std::to_string(k);      // a directory of that name is in the way
            ::mkdir(file.c_str(), 0755);
            FILE* fp = nullptr;
            bool threw = false;
            double t0 = now(), gone = 0, took = 0;
            std::atomic<bool> opened{false};
            std::thread th([&] {
                try { base::file_base::open(&fp, file, trunc, tries, pause); }
                catch (const learnlog_excpt&) { threw = true; }
                took = now() - t0;
                opened = true;
            });
            if (comes) {
                nap(when);
                ::rmdir(file.c_str());
                gone = now() - t0;
            }
            th.join();
            REQUIRE(threw == (fp == nullptr), "the handle does not tell whether the file is open");
            double p = pause / 1000.0;
            if (threw) REQUIRE(took > p * (tries - 1) - 0.001, "gave up after %.3f s", took);
            if (!comes) REQUIRE(threw, "opened a directory");
            // the last attempt begins after that many pauses
            if (comes && gone < p * (tries - 1) - 0.001) REQUIRE(!threw, "gave up, although the obstacle went after %.3f s", gone);
            if (!threw) REQUIRE(took >= gone - 0.05 && took < gone + p + 20, "opened after %.3f s, the obstacle went after %.3f s", took, gone);
            if (fp) base::file_base::close(&fp, file);
        });
    }
    c.finish(45);
    src.nontrivial();
}

PBT_MAIN()
