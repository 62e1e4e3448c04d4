// C07: backtrace keeps exactly the last n messages and dumps them once, in order.
#include "recsink.h"

#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
#include "logger.h"

#include <deque>

using namespace learnlog;
using pbt::Src;
using rec::Want;

namespace {
const char* const LV[] = {"trace", "debug", "info", "warn", "error", "critical", "off"};

thread_pool_shr_ptr make_pool(size_t kind, size_t q) {
    switch (kind) {
        case 1: return std::make_shared<base::lock_thread_pool>(q, 1);
        case 2: return std::make_shared<base::lockfree_thread_pool>(q, 1);
        default: return std::make_shared<base::lockfree_concurrent_thread_pool>(q, 1);
    }
}
}

PROPERTY(history) {
    size_t kind = src.weighted({6, 1, 1, 1});
    size_t nsinks = src.size(1, 3);
    std::vector<std::shared_ptr<rec::Sink>> sinks;
    std::vector<sink_shr_ptr> ptrs;
    std::vector<int> slevel(nsinks, 0);
    for (size_t i = 0; i < nsinks; ++i) {
        sinks.push_back(std::make_shared<rec::Sink>());
        ptrs.push_back(sinks.back());
    }
    std::string name = src.ascii(src.below(12));
    std::shared_ptr<base::thread_pool> pool;
    logger_shr_ptr lg;
    if (kind) {
        pool = make_pool(kind, src.pick({1, 2, 4, 64}));
        lg = std::make_shared<async_logger>(name, ptrs.begin(), ptrs.end(), pool);
    }
    else lg = std::make_shared<logger>(name, ptrs.begin(), ptrs.end());
    src.note(pbt::strf("%s logger with %zu sinks", kind ? "async" : "sync", nsinks));

    int llevel = 2, flevel = 6;
    bool enabled = false;
    size_t cap = 0;
    std::deque<Want> ring;
    std::vector<std::vector<Want>> want(nsinks);
    auto emit = [&](const Want& w) {
        for (size_t i = 0; i < nsinks; ++i)
            if (w.level >= slevel[i]) want[i].push_back(w);
        if (w.level >= flevel && w.level != 6) {
            Want f;
            f.flush = true;
            for (size_t i = 0; i < nsinks; ++i) want[i].push_back(f);
        }
    };

    size_t n = src.small_size(1, 120);
    size_t logged = 0, dumps = 0, wrapped = 0;
    for (size_t i = 0; i < n; ++i) {
        switch (src.weighted({14, 3, 2, 2, 2, 1, 1})) {
            case 0: {
                Want w;
                w.logger = name;
                w.level = int(src.below(6));
                w.tid = rec::this_tid();
                std::string t = rec::text(src, rec::text_len(src));
                w.text = t;
                auto lv = level::level_enum(w.level);
                source_loc l;
                switch (src.below(4)) {
                    case 0:
                        w.ns_lo = lib::now_ns();
                        lg->log(lv, t);
                        break;
                    case 1:
                        l = rec::loc(src);
                        w.ns_lo = lib::now_ns();
                        lg->log(l, lv, fmt_string_view(t));
                        break;
                    case 2:
                        l = rec::loc(src);
                        w.ns = (long long)src.below(3000000000000000000ull);
                        lg->log(lib::tp(w.ns), l, lv, fmt_string_view(t));
                        break;
                    default:
                        l = rec::loc(src);
                        w.ns_lo = lib::now_ns();
                        lg->log(l, lv, "{}|{}", t, 42);
                        w.text = t + "|42";
                }
                w.ns_hi = lib::now_ns();
                rec::set_loc(w, l);
                std::fill(t.begin(), t.end(), '#');
                if (w.level >= llevel) emit(w);
                if (enabled) {
                    ring.push_back(w);
                    if (ring.size() > cap) { ring.pop_front(); ++wrapped; }
                }
                ++logged;
                break;
            }
            case 1: {
                src.note(pbt::strf("dump of %zu", ring.size()));
                lg->dump_backtrace();
                if (enabled) {
                    ++dumps;
                    Want m;
                    m.level = 2;
                    m.marker = 1;
                    emit(m);
                    for (auto& w : ring) emit(w);
                    ring.clear();
                    m.marker = 2;
                    emit(m);
                }
                break;
            }
            case 2:
                cap = src.weighted({1, 4, 1}) == 1 ? src.below(9) : src.below(60);
                src.note(pbt::strf("enable %zu", cap));
                lg->enable_backtrace_n(cap);
                enabled = true;
                ring.clear();
                break;
            case 3:
                src.note("disable");
                if (src.chance(1, 3)) {
                    lg->disable_backtrace();
                    enabled = false;
                    ring.clear();
                }
                break;
            case 4:
                llevel = int(src.below(7));
                src.note(pbt::strf("log level %s", LV[llevel]));
                lg->set_log_level(level::level_enum(llevel));
                break;
            case 5: {
                if (pool) lg->flush();      // the level of a sink is read when the message is written
                if (pool) for (auto& w : want) { Want f; f.flush = true; w.push_back(f); }
                size_t k = src.below(nsinks);
                slevel[k] = int(src.below(7));
                sinks[k]->set_level(level::level_enum(slevel[k]));
                break;
            }
            default:
                if (pool) lg->flush();
                if (pool) for (auto& w : want) { Want f; f.flush = true; w.push_back(f); }
                flevel = int(src.below(7));
                lg->set_flush_level(level::level_enum(flevel));
        }
        if (!pool || src.chance(1, 8)) {
            if (pool) {
                lg->flush();
                for (auto& w : want) { Want f; f.flush = true; w.push_back(f); }
            }
            for (size_t k = 0; k < nsinks; ++k) {
                rec::require_events(sinks[k]->take(), want[k], pbt::strf("sink %zu after step %zu", k, i).c_str());
                want[k].clear();
            }
        }
    }
    lg.reset();
    pool.reset();
    for (size_t k = 0; k < nsinks; ++k) rec::require_events(sinks[k]->take(), want[k], "at the end");
    if (dumps && logged > 3) src.nontrivial();
    if (wrapped) src.label("wrapped");
    if (kind) src.label("async");
}

// several threads log while others dump
PROPERTY(threads) {
    size_t nt = src.size(2, 4), per = src.size(1, 60), cap = src.chance(1, 3) ? 100000 : src.size(1, 50);
    size_t dumpers = src.below(3);
    std::vector<size_t> changes;    // what one more thread does meanwhile: 0 disables, n enables with n
    if (src.chance(1, 3))
        for (size_t k = src.size(1, 12); k--;) changes.push_back(src.chance(1, 3) ? 0 : src.size(1, 60));
    int llevel = src.flip() ? 6 : 2;
    auto sink = std::make_shared<rec::Sink>();
    size_t kind = src.weighted({4, 1, 1, 1});
#ifdef PBT_TSAN
    kind %= 2;      // the fences of the lock-free queue are beyond ThreadSanitizer
#endif
    std::shared_ptr<base::thread_pool> pool;
    logger_shr_ptr lg;
    if (kind) {
        pool = make_pool(kind, src.pick({1, 4, 256}));
        lg = std::make_shared<async_logger>("L", sink, pool);
    }
    else lg = std::make_shared<logger>("L", sink);
    lg->set_log_level(level::level_enum(llevel));
    lg->enable_backtrace_n(cap);
    sink->set_level(level::info);
    src.note(pbt::strf("%zu threads x %zu messages, size %zu, %zu dumpers, %zu changes, %s", nt, per, cap, dumpers, changes.size(), kind ? "async" : "sync"));
    std::atomic<int> go{0};
    std::vector<std::thread> th;
    for (size_t t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            while (!go) {}
            for (size_t i = 0; i < per; ++i) {
                std::string s = pbt::strf("%zu %zu ", t, i) + std::string(i % 7 == 3 ? 300 : 10, char('a' + t));
                lg->log(level::warn, s);
            }
        });
    for (size_t d = 0; d < dumpers; ++d)
        th.emplace_back([&] {
            while (!go) {}
            for (int k = 0; k < 4; ++k) lg->dump_backtrace();
        });
    if (!changes.empty())
        th.emplace_back([&] {
            while (!go) {}
            for (size_t n : changes) {
                if (n) lg->enable_backtrace_n(n);
                else lg->disable_backtrace();
            }
        });
    go = 1;
    for (auto& t : th) t.join();
    lg->dump_backtrace();
    size_t late = 0, late_cap = 0;
    if (!changes.empty()) {         // with nobody else about, it is exact again
        late = src.size(0, 20), late_cap = src.size(1, 20);
        lg->dump_backtrace();
        lg->enable_backtrace_n(late_cap);
        for (size_t i = 0; i < late; ++i) lg->log(level::warn, pbt::strf("late %zu", i));
        lg->dump_backtrace();
    }
    lg.reset();
    pool.reset();
    auto ev = sink->take();
    // written copies (when the level lets them through) and dumped copies
    std::vector<std::vector<int>> dumped(nt);
    std::map<std::pair<size_t, size_t>, int> times;
    size_t starts = 0, ends = 0;
    if (!changes.empty()) {
        std::vector<std::string> want, got;
        std::vector<rec::Event> rest;
        size_t direct_late = llevel == 6 ? 0 : late;
        for (size_t i = 0; i < direct_late; ++i) want.push_back(pbt::strf("late %zu", i));
        for (size_t i = late - std::min(late, late_cap); i < late; ++i) want.push_back(pbt::strf("late %zu", i));
        for (auto& e : ev) {
            if (e.text.compare(0, 5, "late ") == 0) got.push_back(e.text);
            else rest.push_back(e);
        }
        if (kind > 1) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
        REQUIRE(got == want, "enabled with %zu and %zu messages later: %zu events, %zu expected, first %s", late_cap, late, got.size(),
                want.size(), got.empty() ? "none" : pbt::quote(got[0]).c_str());
        ev.swap(rest);
    }
    for (auto& e : ev) {
        if (e.text.find("Backtrace Start") != std::string::npos) { ++starts; continue; }
        if (e.text.find("Backtrace End") != std::string::npos) { ++ends; continue; }
        size_t t = 99, i = 9999;
        REQUIRE(sscanf(e.text.c_str(), "%zu %zu", &t, &i) == 2 && t < nt && i < per, "unknown text %s", pbt::quote(e.text).c_str());
        std::string s = pbt::strf("%zu %zu ", t, i) + std::string(i % 7 == 3 ? 300 : 10, char('a' + t));
        REQUIRE(e.text == s, "damaged text %s", pbt::quote(e.text).c_str());
        ++times[{t, i}];
    }
    REQUIRE(starts == ends && (!changes.empty() || starts == 1 + 4 * dumpers), "%zu start and %zu end markers for %zu dumps", starts, ends, 1 + 4 * dumpers);
    int direct = llevel == 6 ? 0 : 1;
    size_t kept = 0;
    for (size_t t = 0; t < nt; ++t) {
        for (size_t i = 0; i < per; ++i) {
            int k = times[{t, i}] - direct;
            REQUIRE(k == 0 || k == 1, "message %zu of thread %zu dumped %d times", i, t, k);
            kept += size_t(k);
            if (cap >= nt * per && changes.empty()) REQUIRE(k == 1, "message %zu of thread %zu was not dumped", i, t);
        }
    }
    if (!dumpers && changes.empty()) {
        REQUIRE(kept == std::min(cap, nt * per), "%zu messages dumped, size %zu, %zu logged", kept, cap, nt * per);
        for (size_t t = 0; t < nt; ++t) {
            bool seen = false;
            for (size_t i = 0; i < per; ++i) {
                bool k = times[{t, i}] - direct == 1;
                REQUIRE(k || !seen, "thread %zu: an older message was kept and the newer %zu was not", t, i);
                seen = seen || k;
            }
        }
        // the dump is at the end (only one queue keeps the order between threads): each thread's part is in order
        if (kind > 1) ev.clear();
        std::vector<long> last(nt, -1);
        bool in = false;
        for (auto& e : ev) {
            if (e.text.find("Backtrace Start") != std::string::npos) { in = true; continue; }
            if (!in || e.text.find("Backtrace End") != std::string::npos) continue;
            size_t t, i;
            sscanf(e.text.c_str(), "%zu %zu", &t, &i);
            REQUIRE(long(i) > last[t], "thread %zu: message %zu dumped after %ld", t, i, last[t]);
            last[t] = long(i);
        }
    }
    if (nt * per > cap) src.nontrivial();
}

PBT_MAIN()
