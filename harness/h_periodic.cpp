// C19: periodic work.
#define PERTURB_WRAP
#include "lib.h"
#include "perturb.h"
#include "pools.h"

#include "base/periodic_function.h"
#include "learnlog.h"
#include "logger.h"
#include "sinks/basic_sink.h"

#include <cmath>

using namespace learnlog;
using base::periodic_function;
using pbt::Src;

namespace {
long long steady_ns() {
    return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
void nap(long long us) { if (us > 0) perturb::raw_sleep_us(uint64_t(us)); }

// an interval in one of the duration types a user may pass
struct Interval {
    int type = 0;
    double ms = 0;          // what it is worth
    int edge = 0;           // 1 the largest, -1 the smallest of its type, k > 1: 2^k ticks
    std::string show() const {
        static const char* const T[] = {"nanoseconds", "microseconds", "milliseconds", "duration<double>", "seconds", "hours", "duration<float,milli>"};
        return pbt::strf("%s worth %g ms", T[type], ms);
    }
    long long ns() const { return (long long)std::min(ms * 1e6, 9e18); }
    bool positive() const { return ms > 0; }
    bool huge() const { return ms > 1e5; }
    template <typename F>
    void with(F f) const {
        using namespace std::chrono;
        if (edge) switch (type) {
            case 0: f(extreme<nanoseconds>()); return;
            case 1: f(extreme<microseconds>()); return;
            case 2: f(extreme<milliseconds>()); return;
            case 3: f(extreme<duration<double>>()); return;
            case 4: f(extreme<seconds>()); return;
            case 5: f(extreme<hours>()); return;
            default: f(extreme<duration<float, std::milli>>()); return;
        }
        switch (type) {
            case 0: f(nanoseconds((long long)(ms * 1e6))); break;
            case 1: f(microseconds((long long)(ms * 1e3))); break;
            case 2: f(milliseconds((long long)ms)); break;
            case 3: f(duration<double>(ms / 1e3)); break;
            case 4: f(seconds((long long)(ms / 1e3))); break;
            case 5: f(hours((long long)(ms / 3.6e6))); break;
            default: f(duration<float, std::milli>(float(ms))); break;
        }
    }
    template <typename D>
    D extreme() const {
        if (edge == 1) return D::max();
        if (edge == -1) return D::min();
        return D(typename D::rep(1ll << edge));
    }
};
enum Class { SMALL, HUGE_, ZERO, NEG };
Interval interval(Src& src, Class c) {
    Interval i;
    switch (c) {
        case SMALL:
            i.type = int(src.pick({2, 1, 0, 3, 6}));
            if (i.type == 2) i.ms = double(src.range(1, 12));
            else if (i.type == 1) i.ms = double(src.range(1, 6000)) / 1e3;
            else if (i.type == 0) i.ms = double(src.range(1, 4000000)) / 1e6;
            else i.ms = double(src.range(1, 40)) / 8;      // exact in binary
            break;
        case HUGE_:
            if (src.chance(1, 3)) {
                static const double TICK[] = {1e-6, 1e-3, 1, 1e3, 1e3, 3.6e6, 1};
                i.type = int(src.range(0, 6));
                i.edge = src.flip() ? 1 : int(src.range(48, 62));
                i.ms = i.edge == 1 ? (i.type == 0 ? 9.2e12 : 1e30) : std::ldexp(TICK[i.type], i.edge);
                break;
            }
            i.type = int(src.pick({4, 5, 2, 3}));
            if (i.type == 5) i.ms = 3.6e6 * double(src.range(1, 20000));
            else i.ms = 1e3 * double(src.range(1000, 20000000));
            break;
        case ZERO: i.type = int(src.range(0, 6)); break;
        default:
            i.type = int(src.range(0, 6));
            i.edge = src.chance(1, 3) ? -1 : 0;     // only its sign matters
            i.ms = -(i.type == 5 ? 3.6e6 : i.type == 4 ? 1e3 : 1) * double(src.range(1, 50));
    }
    return i;
}

// what one periodic function did
struct Runs {
    std::mutex m;
    std::vector<std::pair<long long, long long>> at;    // begin, end
    std::atomic<int> inside{0}, overlap{0};
    std::atomic<unsigned> begun{0}, ended{0}, wrong_thread{0};
    void run(long long us) {
        long long b = steady_ns();
        if (inside.fetch_add(1)) ++overlap;
        ++begun;
        nap(us);
        long long e = steady_ns();
        inside.fetch_sub(1);
        ++ended;
        std::lock_guard<std::mutex> l(m);
        at.emplace_back(b, e);
    }
};
}   // namespace

static void runs_case(Src& src, bool many) {
    struct One {
        Interval iv;
        long long work_us = 0;
        unsigned want_runs = 0;     // destroyed after that many
        long long wait_us = 0;      // and after that time
        bool inside = false;        // destroyed while a run is in progress, if possible
        std::shared_ptr<Runs> r = std::make_shared<Runs>();
        std::unique_ptr<periodic_function> p;
        long long made = 0, made_after = 0;
        unsigned at_end = 0;
    };
    size_t n = src.size(1, 4);
    std::vector<One> v(n);
    for (auto& o : v) {
        Class c = many ? SMALL : Class(src.weighted({6, 4, 1, 1}));
        o.iv = interval(src, c);
        o.work_us = src.chance(1, 2) ? src.range(0, 6000) : 0;
        if (c == SMALL) o.want_runs = unsigned(src.below(4));
        if (many) {         // more runs than a counter or a patience of whatever kind lasts
            o.iv = Interval{};
            o.iv.type = int(src.below(2));
            o.iv.ms = double(src.range(1, 300)) / 1e3;
            o.work_us = 0;
            o.want_runs = unsigned(src.pick({130, 260, 520, 1030, 2100, 4200}));
        }
        o.wait_us = src.chance(1, 2) ? src.range(0, 3000) : 0;
        o.inside = src.chance(1, 3);
        if (c == SMALL && o.want_runs >= 2) src.nontrivial();
        if (c == HUGE_) src.label("destroyed while waiting long");
        if (c >= ZERO) src.label("no interval");
        src.note(pbt::strf("%s, work %lld us, destroyed after %u runs and %lld us%s", o.iv.show().c_str(), o.work_us, o.want_runs, o.wait_us,
                           o.inside ? ", during a run" : ""));
    }
    perturb::Scope scope(src.bits(), many ? 0 : unsigned(src.pick({0, 100, 400, 800})), 2000);
    perturb::Storm storm(src.bits(), !many && src.chance(1, 4), src.flip());
    auto life = [many](One& o) {
        auto r = o.r;
        long long work = o.work_us;
        std::function<void()> f = [r, work] { r->run(work); };
        o.made = steady_ns();
        o.iv.with([&](auto d) { o.p.reset(new periodic_function(f, d)); });
        o.made_after = steady_ns();
        nap(o.wait_us);
        for (unsigned seen = 0; r->ended < o.want_runs; nap(100))
            if (many && r->ended >= seen + 20) { seen = r->ended; pbt::beat(); }
        if (o.inside && o.iv.positive() && !o.iv.huge()) {
            long long until = steady_ns() + 20000000;
            while (!r->inside && steady_ns() < until) { if (!o.work_us) break; nap(20); }
        }
        o.p.reset();        // must return: the watchdog decides
        o.at_end = r->begun;
        int in = r->inside;
        if (in) ++r->wrong_thread;
    };
    std::vector<std::thread> ts;
    for (size_t i = 1; i < n; ++i) ts.emplace_back([&, i] { life(v[i]); });
    life(v[0]);
    for (auto& t : ts) t.join();
    nap(src.chance(1, 4) ? 15000 : 300);
    for (auto& o : v) {
        auto& r = *o.r;
        std::lock_guard<std::mutex> l(r.m);
        REQUIRE(!r.wrong_thread, "a run was in progress when the destructor returned (%s)", o.iv.show().c_str());
        REQUIRE(r.begun == o.at_end, "%u runs after the destructor returned (%s)", r.begun - o.at_end, o.iv.show().c_str());
        REQUIRE(!r.overlap, "two runs at once (%s)", o.iv.show().c_str());
        if (!o.iv.positive()) REQUIRE(!r.begun, "%u runs with %s", unsigned(r.begun), o.iv.show().c_str());
        if (o.iv.huge()) REQUIRE(!r.begun, "%u runs at once with %s", unsigned(r.begun), o.iv.show().c_str());
        long long prev = o.made;
        for (auto& x : r.at) {
            REQUIRE(x.first - prev >= o.iv.ns() - 1, "a run %lld ns after %s (%s)", x.first - prev, prev == o.made ? "the start" : "the one before",
                    o.iv.show().c_str());
            prev = x.first;
        }
    }
}
PROPERTY(runs, 25) { runs_case(src, false); }
PROPERTY(many_runs, 25) { runs_case(src, true); }

// ------------------------------------------------------------------ flush_every

namespace {
class FlushSink : public sinks::basic_sink<std::mutex> {
public:
    std::atomic<unsigned> flushes{0}, dirty{0}, msgs{0};
    std::atomic<long long> last{0}, min_gap{1ll << 60};
    std::atomic<long long> slow_us{0};
    void reset_gap() {
        std::lock_guard<std::mutex> l(mutex_);
        last = 0;
        min_gap = 1ll << 60;
    }
protected:
    void output_(const base::log_msg&) override { ++msgs; ++dirty; }
    void flush_() override {
        long long t = steady_ns();
        if (last && t - last < min_gap) min_gap = t - last;
        last = t;
        dirty = 0;
        nap(slow_us);
        ++flushes;
    }
};
struct Clean {
    ~Clean() { learnlog::close(); }
};
}   // namespace

PROPERTY(flusher, 25) {
    Clean clean;
    learnlog::close();
    set_global_flush_level(level::off);
    struct L {
        logger_shr_ptr l;
        std::shared_ptr<FlushSink> s;
        bool reg = true, async = false;
        unsigned base = 0;
    };
    std::vector<L> ls;
    Interval cur;           // what is in force
    bool on = false;
    thread_pool_shr_ptr pool;
    if (src.chance(1, 3)) { initialize_thread_pool<base::lock_thread_pool>(16, 1); pool = get_thread_pool(); }
    size_t seq = 0;
    perturb::Scope scope(src.bits(), unsigned(src.pick({0, 50, 300})), 1000);
    auto add = [&] {
        L x;
        x.s = std::make_shared<FlushSink>();
        x.s->slow_us = src.chance(1, 4) ? src.range(0, 2000) : 0;
        std::string name = pbt::strf("l%zu", seq++);
        x.async = pool && src.chance(1, 3);
        if (x.async) x.l = std::make_shared<async_logger>(name, x.s, pool);
        else x.l = std::make_shared<logger>(name, x.s);
        src.note(pbt::strf("%s%s%s", x.async ? "async " : "", name.c_str(), x.s->slow_us ? " slow" : ""));
        return x;
    };
    auto own = [&](L& x) { if (x.l.use_count() == 0) x.l = get_logger(x.l->name()); };
    auto snapshot = [&] { for (auto& x : ls) x.base = x.s->flushes; };
    // nothing in force or a far interval: nobody is flushed.  An async flush may still be queued.
    auto quiet = [&](const char* why) {
        if (pool)
            for (auto& x : ls) if (x.async) { x.l->flush(); break; }
        snapshot();
        nap(src.pick({300, 3000, 12000}));
        for (auto& x : ls) REQUIRE(x.s->flushes == x.base, "%s was flushed %u times %s", x.l->name().c_str(), x.s->flushes - x.base, why);
    };
    size_t n = src.small_size(2, 14), switches = 0;
    for (size_t step = 0; step < n; ++step) {
        switch (src.weighted({3, 2, 5, 2, 2, 1})) {
            case 0: {
                if (ls.size() >= 6) break;
                L x = add();
                register_logger(x.l);
                if (src.chance(1, 3)) {     // only the registry holds it
                    src.note("let go of " + x.l->name());
                    x.l = logger_shr_ptr(logger_shr_ptr(), x.l.get());
                }
                ls.push_back(x);
                break;
            }
            case 1: {
                if (ls.empty()) break;
                auto& x = ls[src.below(ls.size())];
                if (!x.reg) break;
                src.note("remove " + x.l->name());
                own(x);
                remove_logger(x.l->name());
                x.reg = false;
                if (!x.async) {
                    unsigned b = x.s->flushes;
                    nap(on && !cur.huge() ? 5000 : 200);
                    REQUIRE(x.s->flushes <= b + 1, "%s was flushed after it was removed", x.l->name().c_str());    // a round may be under way
                }
                break;
            }
            case 2: {
                Class c = Class(src.weighted({6, 2, 2, 1}));
                Interval iv = interval(src, c);
                src.note("flush_every " + iv.show());
                ++switches;
                // the old one must not add flushes to the new one's
                long long t0 = steady_ns();
                iv.with([&](auto d) { flush_every(d); });
                cur = iv;
                on = iv.positive();
                if (on && !iv.huge()) {
                    for (auto& x : ls) x.s->reset_gap();
                    snapshot();
                    if (src.chance(2, 3)) {
                        for (auto& x : ls) x.l->log(level::critical, fmt_string_view("x"));
                        snapshot();     // the rounds until here may all have been before the messages
                        for (auto& x : ls)
                            while (x.reg && x.s->flushes < x.base + 3) nap(200);
                        for (auto& x : ls) {
                            if (!x.reg) continue;
                            REQUIRE(!x.s->dirty, "%s is not flushed", x.l->name().c_str());
                            // a queued flush may run late, and then the next is early
                            if (!x.async) REQUIRE(x.s->min_gap >= iv.ns() - 1, "%s was flushed after %lld ns with %s", x.l->name().c_str(),
                                                  (long long)x.s->min_gap, iv.show().c_str());
                        }
                        if (ls.size() > 1) src.nontrivial();
                    }
                    (void)t0;
                }
                else quiet("with no interval or a far one in force");
                break;
            }
            case 3:
                if (!on || cur.huge()) quiet("with no interval in force");
                else nap(3000);
                break;
            case 4: {
                // everyone is flushed equally often
                if (!on || cur.huge()) break;
                snapshot();
                std::vector<unsigned> later;
                for (auto& x : ls) later.push_back(x.s->flushes);
                nap(src.range(500, 8000));
                flush_every(std::chrono::seconds(0));
                on = false;
                unsigned lo = ~0u, hi = 0;
                for (size_t i = 0; i < ls.size(); ++i) {
                    auto& x = ls[i];
                    if (!x.reg) { if (!x.async) REQUIRE(x.s->flushes <= x.base + 1, "%s was flushed after it was removed", x.l->name().c_str()); continue; }
                    if (x.async) continue;
                    lo = std::min(lo, x.s->flushes - x.base);
                    hi = std::max(hi, x.s->flushes - later[i]);
                }
                // since the moment between the two snapshots, which may be in the middle of a round
                if (hi > lo) REQUIRE(hi - lo <= 1, "one logger was flushed %u times and another %u times", hi, lo);
                quiet("after flush_every(0)");
                break;
            }
            default: {
                src.note("close");
                for (auto& x : ls) own(x);
                learnlog::close();
                on = false;
                for (auto& x : ls) x.reg = false;
                if (pool) {
                    // logging through the pool's loggers is another property's business
                    std::vector<L> keep;
                    for (auto& x : ls) if (!x.async) keep.push_back(x);
                    ls.swap(keep);
                    pool.reset();
                    if (src.flip()) { initialize_thread_pool<base::lock_thread_pool>(16, 1); pool = get_thread_pool(); }
                }
                quiet("after close()");
            }
        }
    }
    if (switches > 1) src.label("replaced");
}

// Settings, registrations, logging and closing at once: nothing hangs or races, and what is last in force works.
PROPERTY(together, 25) {
    Clean clean;
    learnlog::close();
    std::vector<Interval> iv;
    size_t n = src.size(1, 3);
    for (size_t i = 0; i < n * 4; ++i) iv.push_back(interval(src, Class(src.weighted({6, 2, 1, 1}))));
    unsigned per = unsigned(src.pick({0, 50, 300}));
    bool closing = src.chance(1, 3);
    perturb::Scope scope(src.bits(), per, 500);
    auto s = std::make_shared<FlushSink>();
    auto keep = std::make_shared<logger>("keep", s);
    register_logger(keep);
    std::vector<std::thread> ts;
    std::atomic<bool> stop{false};
    for (size_t t = 0; t < n; ++t) {
        ts.emplace_back([&, t] {
            for (size_t k = 0; k < 4; ++k) {
                iv[t * 4 + k].with([&](auto d) { flush_every(d); });
                nap(300);
            }
        });
    }
    ts.emplace_back([&] {
        for (int k = 0; k < 30; ++k) {
            auto x = std::make_shared<logger>("other", std::make_shared<FlushSink>());
            register_logger(x);
            keep->log(level::critical, fmt_string_view("x"));
            remove_logger("other");
        }
    });
    if (closing) ts.emplace_back([&] { nap(500); learnlog::close(); });
    for (auto& t : ts) t.join();
    if (n > 1) src.nontrivial();
    if (closing) { learnlog::close(); register_logger(keep); }
    unsigned b = s->flushes;
    flush_every(std::chrono::milliseconds(1));
    while (s->flushes < b + 2) nap(200);
    flush_every(std::chrono::hours(10));
    b = s->flushes;
    nap(4000);
    REQUIRE(s->flushes == b, "flushed by a replaced setting");
}

PBT_MAIN()
