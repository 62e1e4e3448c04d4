// C26: what is released is gone, and logging does not use up memory.
#include "capture.h"
#include "perturb.h"
#include "pools.h"
#include "recsink.h"

#include "learnlog.h"
#include "logger.h"
#include "sinks/basic_file_sink.h"
#include "sinks/null_sink.h"
#include "sinks/ostream_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/std_color_sinks.h"
#include "sinks/std_sinks.h"

#include <malloc.h>
#include <sstream>

#include <sys/resource.h>

using namespace learnlog;
using lib::pool_name;
using pbt::Src;
using pbt::StderrCapture;

// ------------------------------------------------------------------ counting

namespace {
std::atomic<long> live_blocks{0}, live_bytes{0};
}
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __wrap_malloc(size_t n) {
    void* p = __real_malloc(n);
    if (p) { ++live_blocks; live_bytes += long(malloc_usable_size(p)); }
    return p;
}
void* __wrap_calloc(size_t a, size_t b) {
    void* p = __real_calloc(a, b);
    if (p) { ++live_blocks; live_bytes += long(malloc_usable_size(p)); }
    return p;
}
void __wrap_free(void* p) {
    if (p) { --live_blocks; live_bytes -= long(malloc_usable_size(p)); }
    __real_free(p);
}
void* __wrap_realloc(void* p, size_t n) {
    if (p) { --live_blocks; live_bytes -= long(malloc_usable_size(p)); }
    void* q = __real_realloc(p, n);
    if (q) { ++live_blocks; live_bytes += long(malloc_usable_size(q)); }
    return q;
}
}
#ifndef __SANITIZE_ADDRESS__
void* operator new(size_t n) {
    void* p = __wrap_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) {
    void* p = aligned_alloc(size_t(a), (n + size_t(a) - 1) / size_t(a) * size_t(a));
    if (!p) throw std::bad_alloc();
    ++live_blocks;
    live_bytes += long(malloc_usable_size(p));
    return p;
}
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
#endif

namespace {
size_t entries(const char* dir) {
    size_t n = 0;
    if (DIR* d = opendir(dir)) {
        while (readdir(d)) ++n;
        closedir(d);
    }
    return n;
}
size_t fds() { return entries("/proc/self/fd"); }
size_t threads() { return entries("/proc/self/task"); }

std::atomic<long> n_sinks{0}, n_formatters{0}, n_flags{0}, n_tokens{0};
template <std::atomic<long>& N>
struct Counted {
    Counted() { ++N; }
    Counted(const Counted&) { ++N; }
    ~Counted() { --N; }
};
struct Token : Counted<n_tokens> {};

class Sink : public sinks::basic_sink<std::mutex>, Counted<n_sinks> {
public:
    int throws = 0;     // every so many calls
    size_t n = 0, bytes = 0;

protected:
    void output_(const base::log_msg& m) override {
        fmt_memory_buf b;
        formatter_->format(m, b);
        bytes += b.size();
        if (throws && ++n % size_t(throws) == 0) throw std::runtime_error("sink");
    }
    void flush_() override {
        if (throws && ++n % size_t(throws) == 0) throw std::runtime_error("sink flush");
    }
};
class Fmt : public sinks::formatter, Counted<n_formatters> {
public:
    std::string prefix = "a prefix that does not fit a short string ";
    void format(const base::log_msg& m, fmt_memory_buf& d) override {
        d.append(prefix.data(), prefix.data() + prefix.size());
        d.append(m.msg.data(), m.msg.data() + m.msg.size());
    }
    formatter_uni_ptr clone() const override { return learnlog::make_unique<Fmt>(*this); }
};
class Flag : public sinks::custom_flag_formatter, Counted<n_flags> {
public:
    std::string text = "a flag that does not fit a short string";
    void format(const base::log_msg&, const std::tm&, fmt_memory_buf& d) override { d.append(text.data(), text.data() + text.size()); }
    std::unique_ptr<sinks::custom_flag_formatter> clone() const override { return std::unique_ptr<sinks::custom_flag_formatter>(new Flag(*this)); }
};

struct World {
    std::string dir;
    std::vector<std::unique_ptr<std::ostringstream>> os;     // one for each sink: two sinks do not know of each other
    std::vector<thread_pool_shr_ptr> P;
    std::vector<sink_shr_ptr> S;
    std::vector<logger_shr_ptr> L;
};
using Step = std::function<void(World&)>;

formatter_uni_ptr make_fmt(size_t how) {
    if (how == 0) return learnlog::make_unique<Fmt>();
    auto f = learnlog::make_unique<sinks::pattern_formatter>("%+ %$%^ %10!v %=20n %a %T.%G %W %*", how == 1 ? "\n" : "a long end of line, longer than a short string");
    if (how > 1) {
        f->add_custom_flag<Flag>('*');
        f->set_pattern("%* %20* %v %*");
    }
    return f;
}

void log_some(const logger_shr_ptr& l, size_t n, size_t len) {
    std::string t(len, 'm');
    for (size_t i = 0; i < n; ++i) {
        if (i % 3 == 0) l->log(level::level_enum(i % 6), fmt_string_view(t.data(), t.size()));
        else if (i % 3 == 1) l->warn("{} {} {}", i, t, 1.5);
        else l->log(sys_clock::now(), source_loc{"file.cpp", 12, "function"}, level::error, fmt_string_view(t.data(), t.size()));
    }
}

// the loggers that the world or the library itself holds
std::vector<logger_shr_ptr> held_loggers(const World& w) {
    std::vector<logger_shr_ptr> r = w.L;
    exec_all([&](logger_shr_ptr l) { r.push_back(l); });
    if (auto d = get_default_logger()) r.push_back(d);
    return r;
}
// Messages under way and the flusher may hold it a little longer.
template <typename T>
void expect_gone(std::weak_ptr<T> p, const char* what) {
    for (int i = 0; !p.expired(); ++i) {
        REQUIRE(i < 12000, "a %s that nobody holds is not destroyed (%ld holders)", what, p.use_count());
        perturb::raw_sleep_us(i < 200 ? 20 : 1000);
        if (i % 256 == 255) pbt::beat();
    }
}

// while it lives only n more descriptors can be opened
class FewDescriptors {
public:
    explicit FewDescriptors(unsigned n) {
        if (n > 100) return;
        getrlimit(RLIMIT_NOFILE, &old_);
        rlimit r = old_;
        r.rlim_cur = 400;
        setrlimit(RLIMIT_NOFILE, &r);
        filler_.reserve(400);
        for (int fd; (fd = dup(2)) >= 0;) filler_.push_back(fd);
        for (; n && !filler_.empty(); --n) { ::close(filler_.back()); filler_.pop_back(); }
        set_ = true;
    }
    ~FewDescriptors() {
        for (int fd : filler_) ::close(fd);
        if (set_) setrlimit(RLIMIT_NOFILE, &old_);
    }
    FewDescriptors(const FewDescriptors&) = delete;

private:
    std::vector<int> filler_;
    rlimit old_{};
    bool set_ = false;
};

Step gen_step(Src& src, std::string& note) {
    size_t op = src.weighted({3, 5, 6, 10, 3, 3, 3, 3, 4, 2, 2, 3, 4, 3, 2, 2, 2});
    size_t a = src.below(8), b = src.below(8), c = src.below(1000);
#define NEED(V) if (w.V.empty()) return
    switch (op) {
        case 0:
            note = "pool";
            return [a, b, c](World& w) {
                if (w.P.size() >= 4) return;
                auto tok = std::make_shared<Token>();
                size_t q = c % 3 ? c % 70 + 1 : 1000, n = b % 3 + 1;
                auto f = [tok] {};
                if (a % 3 == 0) w.P.push_back(std::make_shared<base::lock_thread_pool>(q, n, f, f));
                else if (a % 3 == 1) w.P.push_back(std::make_shared<base::lockfree_thread_pool>(q, n, f, f));
                else w.P.push_back(std::make_shared<base::lockfree_concurrent_thread_pool>(q, n, f, f));
            };
        case 1:
            note = "sink";
            return [a, b, c](World& w) {
                if (w.S.size() >= 8) return;
                switch (a) {
                    case 0: w.S.push_back(std::make_shared<Sink>()); break;
                    case 1: {
                        auto s = std::make_shared<Sink>();
                        s->throws = int(b) + 1;
                        w.S.push_back(s);
                        break;
                    }
                    case 2: w.S.push_back(std::make_shared<sinks::basic_file_sink_mt>(w.dir + "/f" + std::to_string(b), c % 2 == 0)); break;
                    case 3: w.S.push_back(std::make_shared<sinks::rolling_file_sink_mt>(w.dir + "/r" + std::to_string(b) + ".txt", 1 + c, 3)); break;
                    case 4:
                        w.os.emplace_back(new std::ostringstream);
                        w.S.push_back(std::make_shared<sinks::ostream_sink_mt>(*w.os.back(), c % 2));
                        break;
                    case 5: w.S.push_back(std::make_shared<sinks::null_sink_mt>()); break;
                    case 6: {
                        auto s = std::make_shared<sinks::stdout_color_sink_mt>();
                        for (int l = 0; l < 7; ++l) s->set_level_color(level::level_enum(l), "\x1b[1m\x1b[31m\x1b[32m\x1b[33m");
                        s->set_level(level::off);
                        w.S.push_back(s);
                        break;
                    }
                    default: {
                        auto s = std::make_shared<sinks::stderr_sink_mt>();
                        s->set_level(level::off);
                        w.S.push_back(s);
                    }
                }
            };
        case 2:
            note = "logger";
            return [a, b, c](World& w) {
                if (w.L.size() >= 10) return;
                std::vector<sink_shr_ptr> s;
                for (size_t i = 0; i < w.S.size(); ++i)
                    if (c >> i & 1) s.push_back(w.S[i]);
                std::string name = "a logger with a long name that is not short " + std::to_string(c % 5);
                if (w.P.empty() || a % 3 == 0) w.L.push_back(std::make_shared<logger>(name, s.begin(), s.end()));
                else w.L.push_back(std::make_shared<async_logger>(name, s.begin(), s.end(), w.P[b % w.P.size()]));
            };
        case 3:
            note = "log";
            return [a, b, c](World& w) { NEED(L); log_some(w.L[a % w.L.size()], c % 30, b < 6 ? 20 * b : 700); };
        case 4:
            note = "flush";
            return [a](World& w) { NEED(L); w.L[a % w.L.size()]->flush(); };
        case 5:
            note = "backtrace";
            return [a, b, c](World& w) {
                NEED(L);
                auto& l = w.L[a % w.L.size()];
                if (b < 3) l->enable_backtrace_n(c % 40);
                else if (b < 6) l->dump_backtrace();
                else l->disable_backtrace();
            };
        case 6:
            note = "format";
            return [a, b, c](World& w) {
                NEED(L);
                auto& l = w.L[a % w.L.size()];
                if (b < 2) l->set_pattern("%v a pattern that does not fit a short string %n %10!v");
                else if (b < 5) l->set_formatter(make_fmt(c % 4));
                else if (!w.S.empty()) w.S[c % w.S.size()]->set_formatter(make_fmt(b % 4));
            };
        case 7:
            note = "clone or swap";
            return [a, b, c](World& w) {
                NEED(L);
                auto l = w.L[a % w.L.size()];
                if (c % 2) { if (w.L.size() < 10) w.L.push_back(l->clone("a clone with a name that is not short")); }
                else {
                    auto m = w.L[b % w.L.size()];
                    if (m == l || m->is_async() || l->is_async()) return;   // a worker may be using them
                    flush_every(milliseconds(0));                           // and so may the flusher
                    l->swap(*m);
                }
            };
        case 8:
            note = "registry";
            return [a, b, c](World& w) {
                switch (a) {
                    case 0: { NEED(L); register_logger(w.L[b % w.L.size()]); break; }
                    case 1: { NEED(L); initialize_logger(w.L[b % w.L.size()]); break; }
                    case 2: { NEED(L); remove_logger(w.L[b % w.L.size()]->name()); break; }
                    case 3: { NEED(L); set_default_logger(w.L[b % w.L.size()]); break; }
                    case 4: if (c % 2) set_global_formatter(make_fmt(b % 4)); else set_global_pattern("a global pattern that is not short %v %+"); break;
                    case 5: { NEED(P); register_thread_pool(w.P[b % w.P.size()]); break; }
                    case 6: if (c % 2) remove_all(); else flush_all(); break;
                    default: flush_every(milliseconds(b));
                }
            };
        case 9:
            note = "factory";
            return [a, b, c](World& w) {
                std::string name = "made by a factory " + std::to_string(b);
                if (w.L.size() >= 10) return;
                switch (a % 4) {
                    case 0: w.L.push_back(create<Sink>(name)); break;
                    case 1: w.L.push_back(create_async_lock<Sink>(name)); break;
                    case 2: w.L.push_back(create_async_lockfree<Sink>(name)); break;
                    default: w.L.push_back(create_async_lockfree_concurrent<sinks::basic_file_sink_mt>(name, w.dir + "/g" + std::to_string(c % 3)));
                }
            };
        case 10:
            note = "drop a pool";
            return [a](World& w) {
                NEED(P);
                std::weak_ptr<base::thread_pool> p = w.P[a % w.P.size()];
                w.P.erase(w.P.begin() + long(a % w.P.size()));
                for (auto& x : w.P)
                    if (x == p.lock()) return;
                if (get_thread_pool() == p.lock()) return;
                expect_gone(p, "pool");
            };
        case 11:
            note = "drop a sink";
            return [a](World& w) {
                NEED(S);
                std::weak_ptr<sinks::sink> p = w.S[a % w.S.size()];
                w.S.erase(w.S.begin() + long(a % w.S.size()));
                for (auto& l : held_loggers(w))
                    for (auto& x : l->sinks())
                        if (x == p.lock()) return;
                expect_gone(p, "sink");
            };
        case 12:
            note = "drop a logger";
            return [a](World& w) {
                NEED(L);
                std::weak_ptr<logger> p = w.L[a % w.L.size()];
                w.L.erase(w.L.begin() + long(a % w.L.size()));
                for (auto& l : held_loggers(w))
                    if (l == p.lock()) return;
                expect_gone(p, "logger");
            };
        case 13:
            note = "threads";
            return [a, b, c](World& w) {
                NEED(L);
                std::vector<std::thread> th;
                for (size_t i = 0; i <= b % 4; ++i) {
                    logger_shr_ptr l = w.L[(a + i) % w.L.size()];
                    th.emplace_back([l, c] { log_some(l, c % 20, 60); l->flush(); });
                }
                for (auto& t : th) t.join();
            };
        case 14:
            note = "what fails";
            return [a, b, c](World& w) {
                FewDescriptors few(c % 3 ? ~0u : b);
                try {
                    if (c % 3 == 0) {
                        switch (a % 4) {
                            case 0: { sinks::basic_file_sink_mt s(w.dir + "/few", c % 2 == 0); break; }
                            case 1: { sinks::rolling_file_sink_mt s(w.dir + "/deep/few.txt", 100, 3); break; }
                            case 2: { auto l = create_async_lock<sinks::basic_file_sink_mt>("few", w.dir + "/few", true); break; }
                            default: { NEED(L); log_some(w.L[b % w.L.size()], 20, 60); w.L[b % w.L.size()]->flush(); }
                        }
                        return;
                    }
                    switch (a) {
                        case 0: { sinks::basic_file_sink_mt s(""); break; }
                        case 1: { sinks::basic_file_sink_mt s(w.dir, b % 2); break; }
                        case 2: { sinks::rolling_file_sink_mt s(w.dir + "/x", 0, 3); break; }
                        case 3: { sinks::rolling_file_sink_mt s(w.dir + "/x", 10, 20000); break; }
                        case 4: { lib::make_pool(b % 3 + 1, 10, b % 2 ? 0 : 2000); break; }
                        case 5: { NEED(L); w.L[b % w.L.size()]->info("{} {}", 1); break; }
                        case 6: { NEED(L); w.L[b % w.L.size()]->info("{:>{}}", "x", -1); break; }
                        default: { sinks::basic_file_sink_mt s("/proc/self/nothing/x"); break; }
                    }
                }
                catch (const learnlog_excpt&) {}
            };
        case 15:
            note = "assign a logger's sinks";
            return [a, b](World& w) {
                NEED(L);
                auto& l = w.L[a % w.L.size()];
                if (l->is_async()) return;      // a worker may be using them
                flush_every(milliseconds(0));   // and so may the flusher
                if (b % 2) l->sinks().clear();
                else if (!w.S.empty()) l->sinks().push_back(w.S[b % w.S.size()]);
            };
        default:
            note = "close";
            return [](World&) { learnlog::close(); };
    }
}

struct Totals { long blocks, bytes; };

// runs the history, gives up everything, and measures
Totals run_history(const std::vector<Step>& steps, size_t order, size_t base_fds, size_t base_threads, StderrCapture& cap) {
    {
        World w;
        w.dir = pbt::scratch() + "/case";
        pbt::empty_dir(w.dir);
        for (auto& s : steps) s(w);
        pbt::beat();
        if (order & 1) learnlog::close();
        if (order & 2) { w.P.clear(); w.L.clear(); w.S.clear(); }
        if (order & 4) { w.S.clear(); w.L.clear(); w.P.clear(); }
        w.L.clear();
        w.S.clear();
        w.P.clear();
        if (!(order & 1)) learnlog::close();
    }
    pbt::beat();
    REQUIRE(n_sinks == 0, "%ld sinks are left", long(n_sinks));
    REQUIRE(fds() == base_fds, "%zu descriptors open, %zu before", fds(), base_fds);
    for (int i = 0; threads() != base_threads; ++i) {
        REQUIRE(i < 5000, "%zu threads, %zu before", threads(), base_threads);
        perturb::raw_sleep_us(i < 100 ? 20 : 1000);
    }
    REQUIRE(n_tokens == 0, "%ld callbacks are left", long(n_tokens));
    pbt::empty_dir(pbt::scratch() + "/case");
    // the registry keeps one global pattern or formatter
    set_global_pattern("%+");
    REQUIRE(n_formatters == 0 && n_flags == 0, "%ld formatters and %ld flags are left", long(n_formatters), long(n_flags));
    set_global_log_level(level::info);
    set_global_flush_level(level::off);
    cap.take();
    return {live_blocks, live_bytes};
}
}   // namespace

PROPERTY(release, 60) {
    static bool first = true;
    if (first) { learnlog::close(); set_global_pattern("%+"); first = false; }
    StderrCapture cap;
    size_t n = src.small_size(2, 40);
    std::vector<Step> steps;
    std::string all;
    std::set<std::string> kinds;
    for (size_t i = 0; i < n; ++i) {
        std::string note;
        steps.push_back(gen_step(src, note));
        all += (i ? ", " : "") + note;
        kinds.insert(note);
    }
    size_t order = src.below(8);
    src.note(all + pbt::strf("; order %zu", order));
    size_t f = fds(), t = threads();
    std::vector<Totals> m;
    for (int i = 0; i < 3; ++i) m.push_back(run_history(steps, order, f, t, cap));
#ifndef __SANITIZE_ADDRESS__
    // what is lazily made once is not a leak
    for (int i = 0; i < 3 && m[m.size() - 1].blocks > m[m.size() - 2].blocks; ++i) m.push_back(run_history(steps, order, f, t, cap));
    size_t k = m.size();
    if (m[k - 1].blocks > m[k - 2].blocks && m[k - 2].blocks > m[k - 3].blocks)
        pbt::fail("the same history leaves more memory behind each time: %ld, %ld, %ld blocks, %ld, %ld, %ld bytes", m[k - 3].blocks, m[k - 2].blocks,
                  m[k - 1].blocks, m[k - 3].bytes, m[k - 2].bytes, m[k - 1].bytes);
#endif
    if (kinds.count("log") && kinds.size() >= 5) src.nontrivial();
}

// many messages through loggers that stay
PROPERTY(steady, 60) {
    static bool first = true;
    if (first) { learnlog::close(); set_global_pattern("%+"); first = false; }
    StderrCapture cap;
    size_t kind = src.below(4), q = src.pick<size_t>({1, 8, 64, 1000}), workers = src.size(1, 3), nth = src.size(1, 3);
    World w;
    w.dir = pbt::scratch() + "/case";
    pbt::empty_dir(w.dir);
    std::vector<std::string> what;
    for (size_t i = 0, n = src.size(1, 3); i < n; ++i) {
        switch (src.below(6)) {
            case 0: w.S.push_back(std::make_shared<Sink>()); what.push_back("counting"); break;
            case 1: w.S.push_back(std::make_shared<sinks::null_sink_mt>()); what.push_back("null"); break;
            case 2: w.S.push_back(std::make_shared<sinks::basic_file_sink_mt>(w.dir + "/f")); what.push_back("file"); break;
            case 3: w.S.push_back(std::make_shared<sinks::rolling_file_sink_mt>(w.dir + "/r.txt", 3000, 5)); what.push_back("rolling"); break;
            case 4: {
                auto s = std::make_shared<Sink>();
                s->throws = int(src.size(2, 30));
                w.S.push_back(s);
                what.push_back("throwing");
                break;
            }
            default: {
                auto s = std::make_shared<Sink>();
                s->set_formatter(make_fmt(src.below(4)));
                w.S.push_back(s);
                what.push_back("custom format");
            }
        }
    }
    if (kind) w.P.push_back(lib::make_pool(kind, q, workers));
    for (size_t i = 0, n = src.size(1, 2); i < n; ++i) {
        if (kind) w.L.push_back(std::make_shared<async_logger>("L", w.S.begin(), w.S.end(), w.P[0]));
        else w.L.push_back(std::make_shared<logger>("L", w.S.begin(), w.S.end()));
        if (src.chance(1, 2)) w.L[i]->enable_backtrace_n(src.size(0, 30));
    }
    bool dumps = src.flip(), churn = src.chance(1, 3), reg = src.flip();
    size_t len = src.pick<size_t>({100, 180, 320, 700});
    size_t batch = src.size(1, 12), rounds = 1500 / batch / nth + 10;
    std::string s;
    for (auto& x : what) s += x + " ";
    src.note(pbt::strf("%s, queue %zu, %zu workers, %zu threads, sinks: %s; %zu rounds of %zu messages of %zu bytes%s%s", pool_name(kind), q, workers, nth, s.c_str(), rounds,
                       batch, len, dumps ? ", dumps" : "", churn ? ", clones and patterns" : ""));
    std::atomic<int> phase{0}, done{0};
    auto body = [&](size_t p, size_t from, size_t n) {
        std::string t(len, char('a' + p));
        for (size_t r = from; r < from + n; ++r) {
            auto& l = w.L[(p + r) % w.L.size()];
            for (size_t i = 0; i < batch; ++i) {
                if (i % 2) l->log(level::level_enum(i % 6), fmt_string_view(t.data(), t.size()));
                else l->warn("{} {}", t, i);
            }
            if (dumps && r % 7 == 3) l->dump_backtrace();
            l->flush();
            if (churn && p == 0) {
                auto c = l->clone("a clone with a name that is not short");
                c->info(t);
                c->flush();
                w.S[r % w.S.size()]->set_pattern("%+ and more that is not short %v");
                if (reg && r % 5 == 0) { register_logger(c); remove_logger(c->name()); }
            }
            if (r % 64 == 0) pbt::beat();
        }
    };
    std::vector<std::thread> th;
    for (size_t p = 1; p < nth; ++p)
        th.emplace_back([&, p] {
            for (int ph = 1; ph <= 2; ++ph) {
                while (phase < ph) perturb::raw_sleep_us(50);
                body(p, size_t(ph) * 100000, ph == 1 ? 20 : rounds);
                ++done;
            }
            while (phase < 3) perturb::raw_sleep_us(50);
        });
    auto run = [&](int ph) {
        phase = ph;
        body(0, size_t(ph) * 100000, ph == 1 ? 20 : rounds);
        while (done < ph * int(nth - 1)) perturb::raw_sleep_us(50);
        for (auto& l : w.L) l->flush();
        cap.take();
    };
    // with several workers one of them may still write when a flush returns: a file is closed and opened again, say
    size_t f1 = fds(), f2 = 0;
    auto settle = [&] {
        for (int i = 0; i < 3000 && (f2 = fds()) != f1; ++i) { perturb::raw_sleep_us(i < 100 ? 50 : 1000); pbt::beat(); }
    };
    run(1);
    settle();
    long b1 = live_blocks, y1 = live_bytes;
    size_t t1 = threads();
    run(2);
    settle();
    long b2 = live_blocks, y2 = live_bytes;
    size_t t2 = threads();
    phase = 3;
    for (auto& t : th) t.join();
    size_t msgs = rounds * batch * nth;
    REQUIRE(f2 == f1, "%zu descriptors open after %zu messages, %zu before", f2, msgs, f1);
    REQUIRE(t2 == t1, "%zu threads after %zu messages, %zu before", t2, msgs, t1);
#ifndef __SANITIZE_ADDRESS__
    REQUIRE(b2 - b1 < 120 + long(rounds) / 16, "%ld more blocks after %zu messages in %zu rounds", b2 - b1, msgs, rounds);
    REQUIRE(y2 - y1 < 150 * 1024, "%ld more bytes after %zu messages in %zu rounds", y2 - y1, msgs, rounds);
#endif
    w.L.clear();
    w.S.clear();
    w.P.clear();
    cap.take();
    REQUIRE(n_sinks == 0 && n_flags == 0 && n_formatters == 0, "%ld sinks, %ld flags, %ld formatters left", long(n_sinks), long(n_flags), long(n_formatters));
    pbt::empty_dir(pbt::scratch() + "/case");
    if (rounds > 20) src.nontrivial();
    src.label(pool_name(kind));
}

PBT_MAIN()
