// Volume: long scripts, large texts, capacities, numbers of sinks, loggers, workers and pools.  What the other harnesses
// check on small histories, here where a limit of a width, a cache or a constant would show.
#include "pools.h"
#include "recsink.h"

#include "base/block_queue.h"
#include "base/circular_queue.h"
#include "base/log_msg_buf.h"
#include "learnlog.h"
#include "logger.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"

#include <thread>

using namespace learnlog;
using lib::make_pool;
using lib::pool_name;
using pbt::Src;

namespace {

// log-uniform
size_t scale(Src& src, size_t lo, size_t hi) {
    size_t steps = 0;
    while ((lo << (steps + 1)) <= hi) ++steps;
    size_t base = lo << src.below(steps + 1);
    return std::min(hi, base + src.below(base));
}

// a text that can be told from any other and from any part of itself
std::string body(uint64_t id, size_t len) {
    std::string s(len, ' ');
    uint64_t x = id * 0x9E3779B97F4A7C15ull + len;
    for (size_t i = 0; i < len; ++i) {
        if (i % 8 == 0) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; }
        s[i] = char('!' + ((x >> (i % 8 * 8)) & 63));
    }
    return s;
}
size_t big_length(Src& src) {
    size_t edge = src.pick<size_t>({250, 4096, 8192, 65535, 65536, 100000, 131072, 262144, 524288, 1 << 20, 2 << 20, 4 << 20});
    switch (src.below(4)) {
        case 0: return edge;
        case 1: return edge + 1 + src.below(3);
        case 2: return edge - 1 - src.below(3);
        default: return edge + src.below(edge);
    }
}

// counts, by producer, what it is given; the loggers' messages are "p i" and a tail
class TallySink : public sinks::basic_sink<std::mutex> {
public:
    explicit TallySink(size_t np, bool ordered) : next(np), ordered_(ordered), seen_(np) {}
    std::vector<size_t> next;       // messages by producer
    size_t flushes = 0;
    std::string bad;
    size_t count(size_t p) { std::lock_guard<std::mutex> l(mutex_); return next[p]; }
    size_t flush_count() { std::lock_guard<std::mutex> l(mutex_); return flushes; }
    std::string shown() {       // what the pattern in force makes of a message
        base::log_msg m(source_loc{}, level::info, fmt_string_view("m", 1), fmt_string_view("n", 1));
        fmt_memory_buf b;
        formatter_->format(m, b);
        return std::string(b.data(), b.size());
    }

protected:
    void output_(const base::log_msg& m) override {
        pbt::beat();
        std::string t = lib::str(m.msg);
        char* e = nullptr;
        size_t p = strtoul(t.c_str(), &e, 10), i = strtoul(e, nullptr, 10);
        if (p >= next.size()) { complain("invented: " + t); return; }
        if (ordered_) {
            if (i != next[p]) complain(pbt::strf("message %zu of producer %zu where number %zu is due", i, p, next[p]));
        }
        else {
            if (seen_[p].size() <= i) seen_[p].resize(i + 1);
            if (seen_[p][i]) complain(pbt::strf("message %zu of producer %zu twice", i, p));
            seen_[p][i] = true;
        }
        ++next[p];
    }
    void flush_() override { ++flushes; }

private:
    void complain(std::string s) { if (bad.empty()) bad = std::move(s); }
    bool ordered_;
    std::vector<std::vector<bool>> seen_;
};

enum Focus { DELIVERY, ORDER, FLUSH };

void long_run(Src& src, Focus focus) {
    size_t kind = 1 + src.below(3);
    bool single = focus != DELIVERY && kind != 3;
    size_t workers = single ? 1 : src.pick<size_t>({1, 2, 3, 4, 8, 17});
    size_t q = src.pick<size_t>({1, 2, 31, 32, 64, 1024, 4096, 8192, 65536, 100000});
    size_t np = src.pick<size_t>({1, 2, 3, 6, 17});
    size_t per = scale(src, 100, 20000);
    size_t limit = q < 16 ? 4000 : 40000;
    per = std::max<size_t>(50, std::min(per, limit / np));
    size_t ns = src.pick<size_t>({1, 1, 2, 9, 20}), nl = src.pick<size_t>({1, 2, 3, 12});
    if (ns > 2) per = std::min<size_t>(per, 2000);
    bool ordered = kind == 3 || workers == 1;
    size_t flush_every_n = focus == FLUSH ? src.pick<size_t>({3, 50, 401}) : 0;
    if (flush_every_n) per = std::min(per, flush_every_n * 60);
    src.note(pbt::strf("%s pool, queue %zu, %zu workers, %zu producers with %zu messages each, %zu loggers, %zu sinks", pool_name(kind), q, workers, np,
                       per, nl, ns));
    std::vector<std::shared_ptr<TallySink>> S;
    std::vector<sink_shr_ptr> ptr;
    for (size_t s = 0; s < ns; ++s) {
        S.push_back(std::make_shared<TallySink>(np, ordered));
        ptr.push_back(S[s]);
    }
    auto pool = make_pool(kind, q, workers);
    std::vector<logger_shr_ptr> L;
    for (size_t l = 0; l < nl; ++l) L.push_back(std::make_shared<async_logger>("logger" + std::to_string(l), ptr.begin(), ptr.end(), pool));
    uint64_t salt = src.bits();
    std::vector<std::thread> th;
    std::vector<std::string> bad(np);
    for (size_t p = 0; p < np; ++p)
        th.emplace_back([&, p] {
            uint64_t x = salt + p;
            for (size_t i = 0; i < per; ++i) {
                x = x * 6364136223846793005ull + 1442695040888963407ull;
                auto& l = *L[(x >> 33) % nl];
                switch ((x >> 40) % 3) {
                    case 0: l.info("{} {}", p, i); break;
                    case 1: l.log(level::warn, fmt_string_view(std::to_string(p) + " " + std::to_string(i))); break;
                    default: l.log(level::error, "{} {} {}", p, i, body(x, (x >> 50) % 700));
                }
                if (flush_every_n && i % flush_every_n == flush_every_n - 1) {
                    std::vector<size_t> f;
                    for (auto& s : S) f.push_back(s->flush_count());
                    l.flush();
                    for (size_t s = 0; s < ns && bad[p].empty(); ++s) {
                        size_t c = S[s]->count(p);
                        if (c != i + 1) bad[p] = pbt::strf("flush() after %zu messages of producer %zu returned with %zu written", i + 1, p, c);
                        if (S[s]->flush_count() == f[s]) bad[p] = "flush() returned and the sink was not flushed";
                    }
                }
            }
        });
    for (auto& t : th) t.join();
    L.clear();
    pool.reset();
    for (auto& b : bad) REQUIRE(b.empty(), "%s", b.c_str());
    for (size_t s = 0; s < ns; ++s) {
        REQUIRE(S[s]->bad.empty(), "sink %zu: %s", s, S[s]->bad.c_str());
        for (size_t p = 0; p < np; ++p) REQUIRE(S[s]->next[p] == per, "sink %zu: %zu of %zu messages of producer %zu", s, S[s]->next[p], per, p);
    }
    if (per >= 300) src.nontrivial();
}

}   // namespace

PROPERTY(long_delivery, 60) { long_run(src, DELIVERY); }
PROPERTY(long_order, 60) { long_run(src, ORDER); }
PROPERTY(long_flush, 60) { long_run(src, FLUSH); }

// Large texts and names, many sinks: every sink gets all of it, now or from the backtrace.
PROPERTY(texts, 60) {
    size_t kind = src.weighted({3, 1, 1, 1});
    size_t ns = src.pick<size_t>({1, 2, 8, 9, 16, 33, 70});
    size_t n = src.size(1, 5);
    bool bt = src.chance(1, 3);
    std::vector<std::shared_ptr<rec::Sink>> S;
    std::vector<sink_shr_ptr> ptr;
    for (size_t s = 0; s < ns; ++s) { S.push_back(std::make_shared<rec::Sink>()); ptr.push_back(S[s]); }
    size_t budget = (size_t(24) << 20) / ns;
    std::string name = body(src.below(100), src.chance(1, 4) ? std::min(big_length(src), budget / 8) : src.below(40));
    thread_pool_shr_ptr pool;
    logger_shr_ptr l;
    if (kind) {
        pool = make_pool(kind, 64, src.size(1, 2));
        l = std::make_shared<async_logger>(name, ptr.begin(), ptr.end(), pool);
    }
    else l = std::make_shared<logger>(name, ptr.begin(), ptr.end());
    src.note(pbt::strf("%s, %zu sinks, name of %zu%s", pool_name(kind), ns, name.size(), bt ? ", backtrace" : ""));
    if (bt) l->enable_backtrace_n(n);
    std::vector<std::string> want;
    for (size_t i = 0; i < n; ++i) {
        size_t len = std::min(big_length(src), budget / 2 / n);
        std::string t = body(i + 1, len);
        src.note(pbt::strf("text of %zu", len));
        if (len > 60000) src.nontrivial();
        switch (src.below(5)) {
            case 0: l->log(level::info, fmt_string_view(t)); break;
            case 1: l->info(t); break;
            case 2: l->log(level::info, "{}", t); break;
            case 3: {
                size_t cut = src.below(len + 1);
                l->log(source_loc{"f.cpp", 3, "f"}, level::info, "{}{}", t.substr(0, cut), t.substr(cut));
                break;
            }
            default: {
                size_t w = len + src.below(50);
                l->log(level::warn, "{:>{}}", t, w);
                t = std::string(w - len, ' ') + t;
            }
        }
        want.push_back(std::move(t));
    }
    if (bt) l->dump_backtrace();
    size_t total = n + (bt ? n + 2 : 0);
    l.reset();
    pool.reset();
    for (size_t s = 0; s < ns; ++s) {
        auto ev = S[s]->take();
        REQUIRE(ev.size() == total, "sink %zu: %zu messages, want %zu", s, ev.size(), total);
        std::multiset<std::string> a, b;
        for (auto& e : ev) {
            pbt::require_eq_str(e.logger, name, "logger name");
            if (bt && e.text.size() < 200 && e.text.find("backtrace") != std::string::npos) continue;
            a.insert(std::move(e.text));
        }
        for (auto& w : want) { b.insert(w); if (bt) b.insert(w); }
        if (bt && a.size() != b.size()) {       // the markers, whatever their text
            REQUIRE(a.size() == b.size() + 2, "sink %zu: %zu texts, want %zu", s, a.size(), b.size());
        }
        for (auto& w : b) {
            auto it = a.find(w);
            REQUIRE(it != a.end(), "sink %zu: a text of %zu bytes is missing or changed", s, w.size());
            a.erase(it);
        }
        pbt::beat();
    }
}

// Pools one after the other, hundreds of them, used by the same threads.
PROPERTY(many_pools, 60) {
    size_t n = scale(src, 60, 520), nt = src.size(1, 3), keep = src.pick<size_t>({0, 0, 1, 5, 40});
    int fixed = src.chance(1, 2) ? int(1 + src.below(3)) : 0;
    src.note(pbt::strf("%zu pools, %zu threads, %zu kept, %s", n, nt, keep, fixed ? pool_name(size_t(fixed)) : "any kind"));
    struct One {
        std::shared_ptr<TallySink> s;
        thread_pool_shr_ptr pool;
        std::shared_ptr<async_logger> l;
        std::vector<size_t> sent;
    };
    std::vector<One> P(n);
    uint64_t salt = src.bits();
    auto open = [&](size_t k) {
        salt = salt * 6364136223846793005ull + 1442695040888963407ull;
        One& o = P[k];
        o.s = std::make_shared<TallySink>(nt, false);
        o.pool = make_pool(fixed ? size_t(fixed) : 1 + (salt >> 35) % 3, 64, 1 + (salt >> 40) % 2);
        o.l = std::make_shared<async_logger>("L", o.s, o.pool);
        o.sent.resize(nt);
    };
    open(0);
    // they live together in windows: the threads log to the newest and to one that is kept
    std::atomic<size_t> step{0}, done{0};
    std::vector<std::thread> th;
    for (size_t t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            for (size_t k = 0; k < n; ++k) {
                while (step.load() < k) usleep(30);
                for (size_t j : {k, keep ? k % keep : k}) {
                    for (int i = 0; i < 2; ++i) {
                        P[j].l->info("{} {}", t, P[j].sent[t]);
                        ++P[j].sent[t];
                    }
                }
                ++done;
            }
        });
    auto check = [&](size_t k) {
        P[k].l.reset();
        P[k].pool.reset();
        REQUIRE(P[k].s->bad.empty(), "pool %zu of %zu: %s", k, n, P[k].s->bad.c_str());
        for (size_t t = 0; t < nt; ++t)
            REQUIRE(P[k].s->next[t] == P[k].sent[t], "pool %zu of %zu: %zu of %zu messages of thread %zu", k, n, P[k].s->next[t], P[k].sent[t], t);
    };
    std::string err;
    for (size_t k = 0; k < n; ++k) {
        while (done.load() < (k + 1) * nt) usleep(30);
        pbt::beat();
        if (k >= keep && err.empty()) {
            try { check(k); }
            catch (const pbt::Failure& e) { err = e.msg; }
        }
        if (k + 1 < n) open(k + 1);
        ++step;
    }
    for (auto& t : th) t.join();
    REQUIRE(err.empty(), "%s", err.c_str());
    for (size_t k = 0; k < std::min(keep, n); ++k) check(k);
    if (n > 100) src.nontrivial();
}

// Many workers: each runs its callbacks once, around what it handles.
PROPERTY(many_workers, 60) {
    size_t kind = 1 + src.below(3);
    size_t workers = src.pick<size_t>({5, 16, 63, 64, 65, 128, 255, 256, 257, 500, 1000, 1023, 1024});
    size_t msgs = src.pick<size_t>({0, 1, 100, 3000});
    int callbacks = int(src.below(3));
    src.note(pbt::strf("%s pool, %zu workers, %zu messages, %d callbacks", pool_name(kind), workers, msgs, callbacks));
    std::mutex m;
    std::map<std::thread::id, int> state;       // 1 started, 2 stopped
    std::string bad;
    auto a = [&] {
        std::lock_guard<std::mutex> l(m);
        if (state[std::this_thread::get_id()]++ != 0) bad = "start callback twice on one worker";
    };
    auto b = [&] {
        std::lock_guard<std::mutex> l(m);
        if (state[std::this_thread::get_id()]++ != 1) bad = "stop callback without start, or twice";
    };
    auto s = std::make_shared<TallySink>(1, false);
    thread_pool_shr_ptr pool;
    auto make = [&](auto tag) {
        using P = typename decltype(tag)::element_type;
        if (callbacks == 0) pool = std::make_shared<P>(size_t(64), workers);
        else if (callbacks == 1) pool = std::make_shared<P>(size_t(64), workers, a);
        else pool = std::make_shared<P>(size_t(64), workers, a, b);
    };
    if (kind == 1) make(std::shared_ptr<base::lock_thread_pool>());
    else if (kind == 2) make(std::shared_ptr<base::lockfree_thread_pool>());
    else make(std::shared_ptr<base::lockfree_concurrent_thread_pool>());
    auto l = std::make_shared<async_logger>("L", s, pool);
    for (size_t i = 0; i < msgs; ++i) l->info("{} {}", 0, i);
    if (kind == 3 || src.flip()) l->flush();
    l.reset();
    pool.reset();
    REQUIRE(s->bad.empty(), "%s", s->bad.c_str());
    REQUIRE(s->next[0] == msgs, "%zu of %zu messages", s->next[0], msgs);
    REQUIRE(bad.empty(), "%s", bad.c_str());
    if (callbacks) REQUIRE(state.size() == workers, "the callbacks ran on %zu of %zu workers", state.size(), workers);
    for (auto& x : state) REQUIRE(x.second == callbacks, "%d callbacks ran on a worker, want %d", x.second, callbacks);
    src.nontrivial();
}

// Large capacities.
PROPERTY(ring_size, 60) {
    size_t cap = scale(src, 100, 120000) , extra = src.below(cap * 2);
    bool copy = src.flip();
    src.note(pbt::strf("capacity %zu, %zu items", cap, cap + extra));
    base::circular_queue<size_t> q(cap);
    for (size_t i = 0; i < cap + extra; ++i) {
        REQUIRE(q.full() == (i >= cap), "full() after %zu items with capacity %zu", i, cap);
        q.push_back(size_t(i));
    }
    REQUIRE(q.size() == cap && q.override_count() == extra, "size %zu, %zu overridden, want %zu and %zu", q.size(), q.override_count(), cap, extra);
    base::circular_queue<size_t> r(1);
    if (copy) r = q;
    else r = std::move(q);
    for (size_t i = 0; i < cap; ++i) {
        REQUIRE(!r.empty() && r.front() == extra + i, "item %zu of %zu is %zu, want %zu", i, cap, r.front(), extra + i);
        r.pop_front();
    }
    REQUIRE(r.empty() && r.size() == 0, "not empty at the end");
    src.nontrivial();
}
PROPERTY(queue_size, 60) {
    size_t cap = scale(src, 100, 60000), extra = src.below(300);
    int how = int(src.below(3));
    src.note(pbt::strf("capacity %zu, %zu items by form %d", cap, cap + extra, how));
    base::block_queue<std::unique_ptr<size_t>> q(cap);
    size_t out = 0, in = 0;
    std::unique_ptr<size_t> x;
    for (; in < cap; ++in) {
        auto p = std::unique_ptr<size_t>(new size_t(in));
        if (how == 0) q.enqueue(std::move(p));
        else if (how == 1) q.enqueue_if_have_room(std::move(p));
        else q.enqueue_nowait(std::move(p));
        pbt::beat();
    }
    REQUIRE(q.size() == cap && q.get_override_count() == 0 && q.get_discard_count() == 0, "size %zu of %zu, %zu overridden, %zu discarded", q.size(), cap,
            q.get_override_count(), q.get_discard_count());
    size_t first = 0;
    if (how == 0) {     // an item more waits until one leaves
        std::thread t([&] { for (size_t i = 0; i < extra; ++i) q.enqueue(std::unique_ptr<size_t>(new size_t(cap + i))); });
        for (; out < extra; ++out) {
            q.dequeue(x);
            REQUIRE(x && *x == out, "item %zu is %zu", out, x ? *x : 0);
        }
        t.join();
        first = extra;
        REQUIRE(q.size() == cap, "size %zu, want %zu", q.size(), cap);
    }
    else {
        for (size_t i = 0; i < extra; ++i) {
            if (how == 1) q.enqueue_if_have_room(std::unique_ptr<size_t>(new size_t(cap + i)));
            else q.enqueue_nowait(std::unique_ptr<size_t>(new size_t(cap + i)));
        }
        REQUIRE(q.get_discard_count() == (how == 1 ? extra : 0) && q.get_override_count() == (how == 2 ? extra : 0), "%zu overridden, %zu discarded, want %zu",
                q.get_override_count(), q.get_discard_count(), extra);
        if (how == 2) first = extra;
    }
    for (size_t i = 0; i < cap; ++i) {
        REQUIRE(q.dequeue_for(x, std::chrono::milliseconds(src.below(2) ? 0 : 20000)), "only %zu of %zu items", i, cap);
        REQUIRE(x && *x == first + i, "item %zu is %zu, want %zu", i, x ? *x : 0, first + i);
        if (i > 50) break;
    }
    src.nontrivial();
}
PROPERTY(backtrace_size, 60) {
    size_t cap = scale(src, 50, 20000), n = src.flip() ? cap + src.below(cap) : src.below(cap + 2);
    size_t rounds = src.size(1, 2);
    src.note(pbt::strf("backtrace of %zu, %zu messages", cap, n));
    auto s = std::make_shared<rec::Sink>();
    logger l("L", s);
    l.set_log_level(level::critical);
    l.enable_backtrace_n(cap);
    for (size_t r = 0; r < rounds; ++r) {
        for (size_t i = 0; i < n; ++i) l.log(source_loc{"f.cpp", int(i + 1), "f"}, level::trace, "{}", i);
        l.set_log_level(level::trace);
        s->take();
        l.dump_backtrace();
        auto ev = s->take();
        l.set_log_level(level::critical);
        size_t want = std::min(cap, n);
        REQUIRE(ev.size() == want + 2 || (want == 0 && ev.size() == 2), "%zu messages in the dump, want %zu and two markers", ev.size(), want);
        for (size_t i = 0; i < want; ++i) {
            REQUIRE(ev[i + 1].text == std::to_string(n - want + i) && ev[i + 1].line == int(n - want + i + 1), "message %zu of the dump is %s, want %zu", i,
                    ev[i + 1].text.c_str(), n - want + i);
        }
        pbt::beat();
    }
    src.nontrivial();
}

// Many loggers in the registry, held by others or only by it.
PROPERTY(many_loggers, 60) {
    remove_all();
    size_t n = scale(src, 20, 3000);
    size_t name_len = src.pick<size_t>({0, 0, 0, 100, 3000});
    if (name_len == 3000) n = std::min<size_t>(n, 500);
    uint64_t salt = src.bits();
    struct X {
        std::string name;
        std::shared_ptr<TallySink> s;
        std::weak_ptr<logger> w;
        logger_shr_ptr held;
        bool reg = true;
    };
    std::vector<X> xs(n);
    src.note(pbt::strf("%zu loggers, names of %zu and more", n, name_len));
    auto rnd = [&] { salt = salt * 6364136223846793005ull + 1442695040888963407ull; return size_t(salt >> 33); };
    std::string common = body(7, name_len);
    int hold = int(src.below(3));       // all, some, none held here
    for (size_t i = 0; i < n; ++i) {
        X& x = xs[i];
        x.name = common + std::to_string(i);
        x.s = std::make_shared<TallySink>(1, true);
        auto l = std::make_shared<logger>(x.name, x.s);
        x.w = l;
        register_logger(l);
        if (hold == 0 || (hold == 1 && rnd() % 2)) x.held = l;
    }
    pbt::beat();
    size_t steps = src.size(1, 8), present = n;
    for (size_t k = 0; k < steps; ++k) {
        switch (src.below(6)) {
            case 0: {       // all that are registered, each once
                std::map<logger*, int> seen;
                exec_all([&](logger_shr_ptr l) { ++seen[l.get()]; });
                REQUIRE(seen.size() == present, "exec_all reached %zu of %zu loggers", seen.size(), present);
                for (auto& x : xs) {
                    auto l = x.w.lock();
                    int c = l && seen.count(l.get()) ? seen[l.get()] : 0;
                    REQUIRE(c == (x.reg ? 1 : 0), "exec_all ran %d times for %s", c, x.reg ? "a registered logger" : "one that is not registered");
                }
                src.note("exec_all");
                break;
            }
            case 1: {
                src.note("flush_all");
                std::vector<size_t> f;
                for (auto& x : xs) f.push_back(x.s->flushes);
                flush_all();
                for (size_t i = 0; i < n; ++i)
                    REQUIRE(xs[i].s->flushes == f[i] + (xs[i].reg ? 1 : 0), "flush_all flushed logger %zu of %zu %zu times", i, n, xs[i].s->flushes - f[i]);
                break;
            }
            case 2: {
                src.note("remove some");
                size_t part = 2 + rnd() % 5;
                for (auto& x : xs) if (x.reg && rnd() % part == 0) {
                    remove_logger(x.name);
                    x.reg = false;
                    --present;
                    REQUIRE(x.held || x.w.expired(), "a removed logger is still held");
                }
                break;
            }
            case 3: {
                src.note("register again");
                for (auto& x : xs) if (!x.reg && x.held) { register_logger(x.held); x.reg = true; ++present; }
                break;
            }
            case 4: {
                src.note("levels");
                auto lv = level::level_enum(src.below(6));
                set_global_log_level(lv);
                for (auto& x : xs) if (x.reg) REQUIRE(x.w.lock()->get_log_level() == lv, "a registered logger has level %d after set_global_log_level(%d)",
                                                      int(x.w.lock()->get_log_level()), int(lv));
                set_global_flush_level(lv);
                for (auto& x : xs) if (x.reg) REQUIRE(x.w.lock()->get_flush_level() == lv, "a registered logger has flush level %d after set_global_flush_level(%d)",
                                                      int(x.w.lock()->get_flush_level()), int(lv));
                if (src.flip()) {
                    std::string mark = "pattern " + std::to_string(k) + " ";
                    if (src.flip()) set_global_pattern(mark + "%v");
                    else set_global_formatter(learnlog::make_unique<sinks::pattern_formatter>(mark + "%v", "\n"));
                    for (auto& x : xs) {
                        std::string sh = x.s->shown();
                        REQUIRE((sh == mark + "m\n") == x.reg, "%s logger shows %s after %s became the global pattern", x.reg ? "a registered" : "an unregistered",
                                pbt::quote(sh).c_str(), pbt::quote(mark).c_str());
                    }
                }
                break;
            }
            default: {
                src.note("look up");
                for (auto& x : xs) {
                    auto l = get_logger(x.name);
                    REQUIRE(x.reg ? l != nullptr && l == x.w.lock() : l == nullptr, "look-up of a name finds %s", l ? "a logger" : "nothing");
                }
            }
        }
        pbt::beat();
    }
    remove_all();
    set_global_log_level(level::info);
    set_global_flush_level(level::off);
    set_global_pattern("%+");
    for (auto& x : xs) REQUIRE(x.held || x.w.expired(), "a logger is still held after remove_all");
    if (n > 100) src.nontrivial();
}

// ------------------------------------------------------------------ files

namespace {
void require_files(const std::string& dir, const std::map<std::string, std::string>& want) {
    std::map<std::string, std::string> got;
    pbt::list_tree(dir, "", got);
    for (auto& w : want) {
        REQUIRE(got.count(w.first), "%s of %zu bytes is missing (there are %zu files, %zu expected)", w.first.c_str(), w.second.size(), got.size(), want.size());
        if (got[w.first] != w.second) {
            auto& g = got[w.first];
            size_t i = 0;
            while (i < g.size() && i < w.second.size() && g[i] == w.second[i]) ++i;
            pbt::fail("%s holds %zu bytes, want %zu; the first difference is at %zu", w.first.c_str(), g.size(), w.second.size(), i);
        }
    }
    for (auto& g : got) REQUIRE(want.count(g.first), "unexpected %s (%zu bytes)", g.first.c_str(), g.second.size());
}

void long_file(Src& src, bool rolling) {
    std::string dir = pbt::scratch() + "/files";
    pbt::empty_dir(dir);
    std::map<std::string, std::string> want;
    size_t limit = 0, files = 0;
    if (rolling) {
        switch (src.below(4)) {
            case 0: limit = src.pick<size_t>({65535, 65536, 65537, 131072, 262144, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 2 << 20}); break;
            case 1: limit = scale(src, 100, 5000); break;
            default: limit = scale(src, 4000, 3 << 20); break;
        }
        files = src.pick<size_t>({2, 9, 10, 99, 255, 256, 300, 999, 1000, 10000});
    }
    size_t budget = src.pick<size_t>({1 << 20, 3 << 20, 6 << 20, 12 << 20});
    if (rolling && budget < limit * 3) budget = limit * 3 + 1000;
    size_t typical = scale(src, 8, 200000), most = 20000, most_files = 1200;
    src.note(rolling ? pbt::strf("rolling file, size limit %zu, %zu files; about %zu bytes in messages of about %zu", limit, files, budget, typical)
                     : pbt::strf("file; about %zu bytes in messages of about %zu", budget, typical));
    auto path = [&](size_t i) {
        if (!rolling) return std::string("x.log");
        std::string n = std::to_string(i), w = std::to_string(files);
        while (n.size() < w.size()) n = "0" + n;
        return "x_" + n + ".log";
    };
    uint64_t x = src.bits();
    auto rnd = [&] { x = x * 6364136223846793005ull + 1442695040888963407ull; return size_t(x >> 33); };
    size_t sessions = rolling ? 1 : src.size(1, 2), used = 0, made = 0, n = 0, rolls = 0;
    for (size_t k = 0; k < sessions; ++k) {
        bool mt = src.flip(), trunc = src.flip();
        sink_shr_ptr sink;
        if (rolling) {
            if (mt) sink = std::make_shared<sinks::rolling_file_sink_mt>(dir + "/x.log", limit, files);
            else sink = std::make_shared<sinks::rolling_file_sink_st>(dir + "/x.log", limit, files);
        }
        else if (mt) sink = std::make_shared<sinks::basic_file_sink_mt>(dir + "/x.log", trunc);
        else sink = std::make_shared<sinks::basic_file_sink_st>(dir + "/x.log", trunc);
        if (!rolling && trunc) want.clear();
        sink->set_pattern("%v");
        thread_pool_shr_ptr pool;
        logger_shr_ptr lg;
        if (mt && src.flip()) {
            pool = make_pool(1 + src.below(3), 512, 1);
            lg = std::make_shared<async_logger>("L", sink, pool);
        }
        else lg = std::make_shared<logger>("L", sink);
        size_t idx = 1;
        std::string* cur = &want[path(idx)];
        while (used < (k + 1) * budget / sessions && n < most && made < most_files) {
            size_t room = rolling && cur->size() < limit ? limit - cur->size() : 0, len;
            switch (rnd() % 12) {
                case 0: len = room ? room - 1 : typical; break;         // exactly full
                case 1: len = room ? room : typical; break;             // one too many
                case 2: len = rnd() % (2 * typical + 1) * 8; break;
                case 3: len = 0; break;
                default: len = rnd() % (2 * typical + 1); break;
            }
            if (len > (4u << 20)) len = 4u << 20;
            if (room > typical * 50 && rnd() % 8) len = std::min(len, 2 * typical);      // mostly many messages in a large file
            std::string t = body(x, len);
            lg->log(level::info, fmt_string_view(t));
            ++n;
            t += '\n';
            used += t.size();
            if (rolling && !cur->empty() && cur->size() + t.size() > limit) {
                if (idx < files) ++idx;
                cur = &want[path(idx)];
                cur->clear();
                ++made;
                ++rolls;
            }
            *cur += t;
            if (n % 64 == 0) pbt::beat();
            if (rnd() % 2000 == 0) {
                lg->flush();
                require_files(dir, want);
            }
        }
        lg.reset();
        pool.reset();
        sink.reset();
        pbt::beat();
        require_files(dir, want);
    }
    if (rolls >= 10) src.label("ten rolls and more");
    if (n > 100) src.nontrivial();
}
}   // namespace

PROPERTY(long_rolling, 60) { long_file(src, true); }
PROPERTY(long_basic, 60) { long_file(src, false); }

PBT_MAIN()
