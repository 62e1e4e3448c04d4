// C15: faults in one place are reported and contained.
#include "capture.h"
#include "pools.h"
#include "recsink.h"

#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "learnlog.h"
#include "logger.h"
#include "sinks/basic_file_sink.h"
#include "sinks/ostream_sink.h"
#include "sinks/rolling_file_sink.h"

#include <sys/resource.h>
#include <new>
#include <sstream>

using namespace learnlog;
using pbt::Src;
using lib::make_pool;
using pbt::Numbers;
using pbt::StderrCapture;
using rec::Want;

// ------------------------------------------------------------------ injected failures of the C library

namespace {
struct IoPlan {
    std::atomic<bool> on{false};
    std::vector<bool> write, flush, close, open;
    std::atomic<size_t> nw{0}, nf{0}, nc{0}, no{0};
    std::atomic<size_t> fired{0};
    void reset() {
        on = false;
        write.clear(); flush.clear(); close.clear(); open.clear();
        nw = nf = nc = no = fired = 0;
    }
    bool hit(std::vector<bool>& v, std::atomic<size_t>& n) {
        if (!on) return false;
        size_t i = n++;
        if (i < v.size() && v[i]) { ++fired; return true; }
        return false;
    }
} io;
bool ours(FILE* f) { return f && f != stdout && f != stderr; }
// the system clock: 0 real, 1 standing still, 2 set back now and then
std::atomic<int> clock_mode{0};
std::atomic<unsigned> clock_calls{0};
struct ClockScope {
    explicit ClockScope(int m) { clock_mode = m; }
    ~ClockScope() { clock_mode = 0; }
};
}

extern "C" {
std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
    auto t = __real__ZNSt6chrono3_V212system_clock3nowEv();
    switch (clock_mode.load(std::memory_order_relaxed)) {
        case 1: return std::chrono::system_clock::time_point(std::chrono::seconds(1700000000));
        case 2: return t - std::chrono::seconds(clock_calls.fetch_add(1, std::memory_order_relaxed) % 3);
        default: return t;
    }
}
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __real_fflush(FILE*);
int __real_fclose(FILE*);
int __real_open(const char*, int, ...);
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) {
    if (ours(f) && io.hit(io.write, io.nw)) { errno = ENOSPC; return 0; }
    return __real_fwrite(p, s, n, f);
}
int __wrap_fflush(FILE* f) {
    if (ours(f) && io.hit(io.flush, io.nf)) { errno = EIO; return EOF; }
    return __real_fflush(f);
}
int __wrap_fclose(FILE* f) {
    bool h = ours(f) && io.hit(io.close, io.nc);
    int r = __real_fclose(f);
    if (h) { errno = EIO; return EOF; }
    return r;
}
int __wrap_open(const char* p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
    va_end(ap);
    if (io.hit(io.open, io.no)) { errno = EMFILE; return -1; }
    return __real_open(p, fl, m);
}
}

namespace {

struct MyExcept : std::exception {
    std::string s;
    explicit MyExcept(std::string x) : s(std::move(x)) {}
    const char* what() const noexcept override { return s.c_str(); }
};
struct Tagged : std::bad_alloc {
    std::string s;
    explicit Tagged(std::string x) : s(std::move(x)) {}
    const char* what() const noexcept override { return s.c_str(); }
};

std::atomic<size_t> fault_seq{0};
[[noreturn]] void throw_kind(int kind, const std::string& tag) {
    switch (kind) {
        case 0: throw std::runtime_error(tag);
        case 1: throw learnlog_excpt(tag);
        case 2: throw learnlog_excpt(tag, ENOSPC);
        case 3: throw MyExcept(tag);
        case 4: throw Tagged(tag);
        case 5: throw std::system_error(EIO, std::generic_category(), tag);
        default: throw std::out_of_range(tag);
    }
}
std::atomic<size_t> tag_len{0};         // reports are whole, however long
std::string tag_of(size_t n) {
    std::string s = pbt::strf("<fault %zu", n);
    for (size_t i = 0; i < tag_len; ++i) s += "reason %s %d, code {}; "[i % 23];
    return s + ">";
}

// a formatter that throws when the text asks for it
class BadFormatter : public sinks::formatter {
public:
    BadFormatter(std::shared_ptr<std::vector<size_t>> log, int kind, bool half) : log_(std::move(log)), kind_(kind), half_(half) {}
    void format(const base::log_msg& msg, fmt_memory_buf& buf) override {
        std::string t = lib::str(msg.msg);
        if (half_) buf.append(t.data(), t.data() + t.size() / 2);
        if (t.find('!') != std::string::npos) {
            size_t n = ++fault_seq;
            log_->push_back(n);
            throw_kind(kind_, tag_of(n));
        }
        if (half_) buf.append(t.data() + t.size() / 2, t.data() + t.size());
        else buf.append(t.data(), t.data() + t.size());
        buf.push_back('\n');
    }
    formatter_uni_ptr clone() const override { return learnlog::make_unique<BadFormatter>(log_, kind_, half_); }

private:
    std::shared_ptr<std::vector<size_t>> log_;
    int kind_;
    bool half_;
};

// a recording sink that fails by plan, before or after recording
class FaultSink : public rec::Sink {
public:
    std::vector<bool> log_fail, flush_fail;
    size_t nl = 0, nf = 0;
    int kind = 0;
    std::shared_ptr<std::vector<size_t>> faults;
    std::mutex fm;

protected:
    void fire() {
        size_t n = ++fault_seq;
        { std::lock_guard<std::mutex> l(fm); faults->push_back(n); }
        throw_kind(kind, tag_of(n));
    }
    void output_(const base::log_msg& m) override {
        size_t i = nl++;
        if (i < log_fail.size() && log_fail[i]) fire();
        rec::Sink::output_(m);
    }
    void flush_() override {
        size_t i = nf++;
        if (i < flush_fail.size() && flush_fail[i]) fire();
        rec::Sink::flush_();
    }
};

struct BadArg { bool bad; };
}   // namespace
template <>
struct fmt::formatter<BadArg> {
    constexpr auto parse(format_parse_context& c) -> decltype(c.begin()) { return c.begin(); }
    template <typename C>
    auto format(const BadArg& v, C& c) const -> decltype(c.out()) {
        if (v.bad) throw std::runtime_error("<bad argument>");
        return fmt::format_to(c.out(), "ok");
    }
};
namespace {

}   // namespace

// ------------------------------------------------------------------ throwing sinks and formatters

PROPERTY(throwing) {
    StderrCapture cap;
    tag_len = src.weighted({5, 1}) ? src.pick<size_t>({20, 100, 500, 1100, 4200, 9000, 70000}) : 0;
    size_t kind = src.weighted({4, 1, 1, 1});
    size_t nsinks = src.size(1, 4);
    auto faults = std::make_shared<std::vector<size_t>>();
    std::vector<std::shared_ptr<FaultSink>> S;
    std::vector<sink_shr_ptr> ptrs;
    std::vector<size_t> nl(nsinks), nf(nsinks);
    for (size_t i = 0; i < nsinks; ++i) {
        auto s = std::make_shared<FaultSink>();
        s->faults = faults;
        s->kind = int(src.below(7));
        size_t mode = src.below(4);
        for (int k = 0; k < 40; ++k) {
            s->log_fail.push_back(mode == 1 ? true : mode ? src.chance(1, 3) : false);
            s->flush_fail.push_back(src.chance(1, mode ? 3 : 100));
        }
        S.push_back(s);
        ptrs.push_back(s);
    }
    // and one real sink behind a formatter that throws
    std::ostringstream oss;
    bool real = src.flip();
    bool half = src.flip();
    auto ffaults = std::make_shared<std::vector<size_t>>();
    std::string real_want;
    if (real) {
        auto s = std::make_shared<sinks::ostream_sink_mt>(oss, src.flip());
        s->set_formatter(learnlog::make_unique<BadFormatter>(ffaults, int(src.below(7)), half));
        ptrs.insert(ptrs.begin() + long(src.below(ptrs.size() + 1)), s);
    }
    thread_pool_shr_ptr pool;
    logger_shr_ptr lg;
    if (kind) {
        pool = make_pool(kind, src.pick({1, 2, 64}));
        lg = std::make_shared<async_logger>("L", ptrs.begin(), ptrs.end(), pool);
    }
    else lg = std::make_shared<logger>("L", ptrs.begin(), ptrs.end());
    int flevel = int(src.pick({6, 0, 3, 4}));
    lg->set_flush_level(level::level_enum(flevel));
    lg->set_log_level(level::trace);

    std::vector<std::vector<Want>> want(nsinks);
    size_t n = src.small_size(1, 40), plain_faults = 0, bad_fmt = 0;
    auto m_flush = [&] {
        for (size_t k = 0; k < nsinks; ++k) {
            size_t i = nf[k]++;
            if (i < S[k]->flush_fail.size() && S[k]->flush_fail[i]) { ++plain_faults; continue; }
            Want f;
            f.flush = true;
            want[k].push_back(f);
        }
    };
    size_t reported = 0;
    std::multiset<std::string> texts;
    auto settle = [&](const std::vector<StderrCapture::Report>& r) {
        Numbers::get().in_order(r);
        reported += r.size();
        for (auto& x : r) texts.insert(x.text);
    };
    for (size_t step = 0; step < n; ++step) {
        size_t op = src.weighted({8, 2, 1, 1});
        try {
            if (op == 0) {
                Want w;
                w.logger = "L";
                w.level = int(src.below(6));
                w.tid = rec::this_tid();
                std::string t = src.ascii(src.below(20), "!");
                if (real && src.chance(1, 3)) t += "!";
                w.text = t;
                w.ns_lo = lib::now_ns();
                if (src.flip()) lg->log(level::level_enum(w.level), t);
                else lg->log(level::level_enum(w.level), "{}", t);
                w.ns_hi = lib::now_ns();
                for (size_t k = 0; k < nsinks; ++k) {
                    size_t i = nl[k]++;
                    if (i < S[k]->log_fail.size() && S[k]->log_fail[i]) { ++plain_faults; continue; }
                    want[k].push_back(w);
                }
                if (t.find('!') == std::string::npos) real_want += t + "\n";
                if (w.level >= flevel) m_flush();
            }
            else if (op == 1) {
                lg->flush();
                m_flush();
            }
            else if (op == 2) {
                static const char* const BAD[] = {"{", "{:d}", "{} {}", "}", "{0} {", "{:q}"};
                lg->log(level::critical, fmt::runtime(BAD[src.below(6)]), "text");
                ++bad_fmt;
            }
            else {
                lg->log(level::warn, "{} {}", 1, BadArg{true});
                ++bad_fmt;
            }
        }
        catch (const std::exception& e) { pbt::fail("an exception reached the caller: %s", e.what()); }
        if (!pool) {
            settle(cap.take());
            REQUIRE(reported == plain_faults + ffaults->size() + bad_fmt, "%zu reports after step %zu, %zu faults so far", reported, step,
                    plain_faults + ffaults->size() + bad_fmt);
        }
    }
    lg.reset();
    pool.reset();
    // reports of the worker and of the caller can come in any order, but numbered without gaps
    auto rest = cap.take();
    Numbers::get().any_order(rest);
    reported += rest.size();
    for (auto& x : rest) texts.insert(x.text);
    REQUIRE(faults->size() == plain_faults, "%zu faults happened, the model says %zu", faults->size(), plain_faults);
    REQUIRE(reported == plain_faults + ffaults->size() + bad_fmt, "%zu reports for %zu faults", reported,
            plain_faults + ffaults->size() + bad_fmt);
    std::string joined;
    for (auto& t : texts) joined += t;
    auto once = [&](size_t f) {
        size_t a = joined.find(tag_of(f));
        REQUIRE(a != std::string::npos, "%s was not reported", tag_of(f).c_str());
        REQUIRE(joined.find(tag_of(f), a + 1) == std::string::npos, "%s was reported twice", tag_of(f).c_str());
    };
    for (size_t f : *faults) once(f);
    for (size_t f : *ffaults) once(f);
    for (size_t k = 0; k < nsinks; ++k) rec::require_events(S[k]->take(), want[k], pbt::strf("sink %zu", k).c_str());
    if (real) pbt::require_eq_str(oss.str(), real_want, "the sink behind the throwing formatter");
    src.note(pbt::strf("%s logger, %zu steps, %zu sink faults, %zu formatter faults, %zu bad formats", kind ? "async" : "sync", n,
                       plain_faults, ffaults->size(), bad_fmt));
    if (plain_faults + ffaults->size() >= 2) src.nontrivial();
    if (kind) src.label("async");
    if (bad_fmt) src.label("bad format string or argument");
}

// ------------------------------------------------------------------ exceptions that are no std::exception

namespace {
class OddSink : public rec::Sink {
public:
    std::vector<int> log_plan, flush_plan;      // 0 fine, 1 int, 2 const char*, 3 a class
    size_t nl = 0, nf = 0;
    struct Odd { int x; };
    void fire(int k) {
        if (k == 1) throw 42;
        if (k == 2) throw "text";
        if (k == 3) throw Odd{7};
    }
    void output_(const base::log_msg& m) override { fire(log_plan[nl++ % log_plan.size()]); rec::Sink::output_(m); }
    void flush_() override { fire(flush_plan[nf++ % flush_plan.size()]); rec::Sink::flush_(); }
};
}

PROPERTY(unknown) {
    StderrCapture cap;
    auto a = std::make_shared<rec::Sink>();
    auto s = std::make_shared<OddSink>();
    for (int i = 0; i < 7; ++i) {
        s->log_plan.push_back(int(src.chance(1, 2) ? src.below(4) : 0));
        s->flush_plan.push_back(int(src.chance(1, 2) ? src.below(4) : 0));
    }
    std::vector<sink_shr_ptr> ptrs{a, s};
    logger lg("L", ptrs.begin(), ptrs.end());
    int flevel = int(src.pick({6, 4}));
    lg.set_flush_level(level::level_enum(flevel));
    size_t nl = 0, nf = 0, thrown = 0, calls = 0;
    size_t n = src.size(1, 12);
    for (size_t i = 0; i < n; ++i) {
        int want = 0;
        bool flush = src.chance(1, 4);
        int lv = src.flip() ? 2 : 4;
        bool fmt_form = src.flip();
        if (flush) want = s->flush_plan[nf++ % 7];
        else {
            want = s->log_plan[nl++ % 7];
            if (!want && lv >= flevel) want = s->flush_plan[nf++ % 7];
            ++calls;
        }
        int got = 0;
        try {
            if (flush) lg.flush();
            else if (fmt_form) lg.log(level::level_enum(lv), "m {}", i);
            else lg.log(level::level_enum(lv), std::string("m ") + std::to_string(i));
        }
        catch (int x) { got = x == 42 ? 1 : -1; }
        catch (const char* t) { got = std::string(t) == "text" ? 2 : -1; }
        catch (const OddSink::Odd& o) { got = o.x == 7 ? 3 : -1; }
        catch (...) { got = -1; }
        REQUIRE(got == want, "the caller got %d, the sink threw %d", got, want);
        auto r = cap.take();
        Numbers::get().in_order(r);
        if (want) REQUIRE(!r.empty(), "an unknown exception was not reported");
        else REQUIRE(r.empty(), "%zu reports without a fault", r.size());
        if (want) ++thrown;
    }
    // the sink before it is unaffected
    size_t seen = 0;
    for (auto& e : a->take())
        if (!e.flush) ++seen;
    REQUIRE(seen == calls, "the other sink got %zu of %zu messages", seen, calls);
    if (thrown) src.nontrivial();
}

// ------------------------------------------------------------------ file sinks on a failing file system

PROPERTY(files) {
    std::string dir = pbt::scratch() + "/case";
    pbt::empty_dir(dir);
    StderrCapture cap;
    io.reset();
    bool rolling = src.flip();
    bool async = src.chance(1, 4);
    bool st = !async && src.flip();
    size_t limit = 20 + src.below(60);
    // a plan of failures; opening fails five times in a row to make an attempt to roll fail
    unsigned pw = src.pick({0u, 5u, 2u}), pf = src.pick({0u, 4u, 2u}), pc = src.pick({0u, 3u, 1u});
    for (int i = 0; i < 60; ++i) {
        io.write.push_back(pw && src.chance(1, pw));
        io.flush.push_back(pf && src.chance(1, pf));
        io.close.push_back(pc && src.chance(1, pc));
    }
    bool open_faults = rolling && src.chance(1, 12);
    if (open_faults) {
        size_t from = src.below(4), run = src.pick<size_t>({5, 1, 10, 6, 3});
        for (size_t i = 0; i < from + run; ++i) io.open.push_back(i >= from);
    }
    std::string f = dir + "/f.log";
    sink_shr_ptr sink;
    if (rolling) {
        if (st) sink = std::make_shared<sinks::rolling_file_sink_st>(f, limit, 5000);
        else sink = std::make_shared<sinks::rolling_file_sink_mt>(f, limit, 5000);
    }
    else if (st) sink = std::make_shared<sinks::basic_file_sink_st>(f);
    else sink = std::make_shared<sinks::basic_file_sink_mt>(f);
    auto other = std::make_shared<rec::Sink>();
    std::vector<sink_shr_ptr> ptrs{sink, other};
    if (src.flip()) std::swap(ptrs[0], ptrs[1]);
    sink.reset();
    thread_pool_shr_ptr pool;
    logger_shr_ptr lg;
    if (async) {
        pool = make_pool(1, src.pick({1, 64}));
        lg = std::make_shared<async_logger>("L", ptrs.begin(), ptrs.end(), pool);
    }
    else lg = std::make_shared<logger>("L", ptrs.begin(), ptrs.end());
    ptrs.clear();
    lg->set_pattern("%v");
    bool auto_flush = src.chance(1, 4);
    if (auto_flush) lg->set_flush_level(level::error);
    io.on = true;
    size_t n = src.small_size(1, 40), logged = 0;
    std::vector<int> lost_known;        // per message: 1 reported as lost, 0 not
    std::vector<size_t> bytes;          // per message: what it takes in the file
    size_t log_reports = 0;
    for (size_t i = 0; i < n; ++i) {
        try {
            if (src.chance(1, 5)) {
                size_t before = io.fired;
                lg->flush();
                if (!async) {
                    auto r = cap.take();
                    Numbers::get().in_order(r);
                    REQUIRE(r.size() == io.fired - before, "%zu reports for a flush with %zu failures", r.size(), io.fired - before);
                }
            }
            else {
                std::string t = pbt::strf("%zu:", logged) + std::string(src.below(30), char('a' + i % 26)) + ";";
                bool err = src.chance(1, 3);
                size_t bf = io.nf;
                bytes.push_back(t.size() + 1);
                lg->log(err ? level::error : level::info, t);
                ++logged;
                if (!async) {
                    auto r = cap.take();
                    Numbers::get().in_order(r);
                    size_t auto_fail = 0;
                    // a flush that the level asked for may fail on its own
                    if (err && auto_flush && io.nf > bf) {
                        size_t k = io.nf - 1;
                        if (k < io.flush.size() && io.flush[k]) auto_fail = 1;
                    }
                    REQUIRE(r.size() <= 1 + auto_fail, "%zu reports for one message", r.size());
                    REQUIRE(r.size() >= auto_fail, "no report for a failing flush");
                    lost_known.push_back(int(r.size() - auto_fail));
                    log_reports += r.size() - auto_fail;
                }
            }
        }
        catch (const std::exception& e) { pbt::fail("an exception reached the caller: %s", e.what()); }
    }
    // what fails from now on fails in the destructor
    size_t tail_fired = io.fired;
    lg.reset();
    pool.reset();
    io.on = false;
    (void)tail_fired;
    auto rest = cap.take();
    Numbers::get().any_order(rest);
    // all that arrived, in the order of the files
    std::map<std::string, std::string> tree;
    pbt::list_tree(dir, "", tree);
    std::vector<size_t> seen;
    std::string last_name;
    size_t last_size = 0;
    for (auto& e : tree) {
        std::string c = e.second;
        size_t at = 0, before = seen.size();
        while (at < c.size()) {
            size_t nl = c.find('\n', at);
            REQUIRE(nl != std::string::npos, "%s ends in the middle of a message", e.first.c_str());
            std::string line = c.substr(at, nl - at);
            at = nl + 1;
            size_t id = 0;
            REQUIRE(sscanf(line.c_str(), "%zu:", &id) == 1 && id < logged && line.back() == ';', "damaged line %s in %s",
                    pbt::quote(line).c_str(), e.first.c_str());
            REQUIRE(seen.empty() || id > seen.back(), "message %zu after %zu", id, seen.back());
            seen.push_back(id);
        }
        if (!rolling || c.empty()) continue;
        // failures do not change where the files end: each is as full as it can be, and no fuller
        REQUIRE(c.size() <= limit || seen.size() == before + 1, "%s has %zu bytes in %zu messages, the limit is %zu", e.first.c_str(), c.size(), seen.size() - before, limit);
        if (before) {
            bool had_to = false;        // some message after the last one of the file before did not fit into it
            for (size_t m = seen[before - 1] + 1; m <= seen[before]; ++m) had_to |= last_size + bytes[m] > limit;
            REQUIRE(had_to, "%s with %zu bytes was left for %s though message %zu of %zu bytes fits, the limit is %zu", last_name.c_str(), last_size, e.first.c_str(),
                    seen[before], bytes[seen[before]], limit);
        }
        last_name = e.first;
        last_size = c.size();
    }
    if (!async) {
        std::set<size_t> in(seen.begin(), seen.end());
        for (size_t i = 0; i < logged; ++i) {
            bool w = in.count(i) != 0;
            REQUIRE(w || lost_known[i], "message %zu is neither in a file nor reported as lost", i);
            REQUIRE(!w || !lost_known[i], "message %zu is in a file and was reported as lost", i);
        }
    }
    else REQUIRE(seen.size() + rest.size() >= logged, "%zu of %zu messages in the files, %zu reports", seen.size(), logged, rest.size());
    auto ev = other->take();
    size_t others = 0;
    for (auto& e : ev)
        if (!e.flush) ++others;
    REQUIRE(others == logged, "the other sink got %zu of %zu messages", others, logged);
    src.note(pbt::strf("%s%s sink, %zu messages, %zu failures, %zu messages lost and reported", async ? "async " : "",
                       rolling ? "rolling" : "basic", logged, size_t(io.fired), log_reports));
    if (io.fired) src.nontrivial();
    if (open_faults) src.label("opening fails while rolling");
    if (log_reports) src.label("messages lost and reported");
}

// a device that is always full
PROPERTY(devfull) {
    if (access("/dev/full", W_OK) != 0) throw pbt::Discard{};
    StderrCapture cap;
    auto other = std::make_shared<rec::Sink>();
    size_t n = src.size(1, 20), flushes = 0;
    size_t at_end = 0;
    {
        std::vector<sink_shr_ptr> ptrs{std::make_shared<sinks::basic_file_sink_mt>("/dev/full"), other};
        logger lg("L", ptrs.begin(), ptrs.end());
        ptrs.clear();
        for (size_t i = 0; i < n; ++i) {
            try {
                lg.info("message {}", i);
                if (src.chance(1, 3)) { lg.flush(); ++flushes; }
            }
            catch (...) { pbt::fail("an exception reached the caller"); }
        }
        auto r = cap.take();
        Numbers::get().in_order(r);
        at_end = r.size();
        if (flushes) REQUIRE(r.size() >= 1 && r.size() <= flushes + n, "%zu reports for %zu flushes to a full device", r.size(), flushes);
    }
    auto r = cap.take();
    Numbers::get().in_order(r);
    REQUIRE(at_end + r.size() >= 1, "losing everything was not reported");
    size_t others = 0;
    for (auto& e : other->take())
        if (!e.flush) ++others;
    REQUIRE(others == n, "the other sink got %zu of %zu messages", others, n);
    src.nontrivial();
}

// ------------------------------------------------------------------ many threads at once

namespace {
class ManySink : public sinks::basic_sink<std::mutex> {
public:
    unsigned mod = 3;
    std::atomic<size_t> ok{0}, bad{0}, flushes{0}, bad_flush{0};

protected:
    void output_(const base::log_msg& m) override {
        std::string t = lib::str(m.msg);
        if (pbt::hash_bytes(t.data(), t.size()) % mod == 0) { ++bad; throw std::runtime_error("<" + t + ">"); }
        ++ok;
    }
    void flush_() override {
        if (++flushes % mod == 0) { ++bad_flush; throw std::runtime_error("<flush>"); }
    }
};
}

// The disk is full for a while: real writes fail in the middle of a file and later go through again.
PROPERTY(disk_full) {
    std::string dir = pbt::scratch() + "/case";
    pbt::empty_dir(dir);
    signal(SIGXFSZ, SIG_IGN);
    StderrCapture cap;
    io.reset();
    std::string f = dir + "/f.log";
    const size_t start = 4u << 20;      // a hole; nothing else this process writes to becomes as long
    pbt::spit(f, "");
    REQUIRE(::truncate(f.c_str(), off_t(start)) == 0, "truncate");
    struct Limit {
        rlimit was;
        Limit() { getrlimit(RLIMIT_FSIZE, &was); }
        void set(rlim_t n) { rlimit r = was; r.rlim_cur = n; if (setrlimit(RLIMIT_FSIZE, &r) != 0) throw pbt::Infra{"setrlimit"}; }
        ~Limit() { setrlimit(RLIMIT_FSIZE, &was); }
    } limit;
    auto tail = [&] {
        int fd = ::open(f.c_str(), O_RDONLY);
        std::string s;
        char b[65536];
        ssize_t r;
        off_t at = off_t(start);
        while ((r = pread(fd, b, sizeof b, at)) > 0) { s.append(b, size_t(r)); at += r; }
        ::close(fd);
        return s;
    };
    bool mt = src.flip();
    sink_shr_ptr sink;
    if (mt) sink = std::make_shared<sinks::basic_file_sink_mt>(f);
    else sink = std::make_shared<sinks::basic_file_sink_st>(f);
    auto other = std::make_shared<rec::Sink>();
    std::vector<sink_shr_ptr> ptrs{sink, other};
    sink.reset();
    thread_pool_shr_ptr pool;
    logger_shr_ptr lg;
    if (mt && src.chance(1, 3)) {
        pool = make_pool(1, 64);
        lg = std::make_shared<async_logger>("L", ptrs.begin(), ptrs.end(), pool);
    }
    else lg = std::make_shared<logger>("L", ptrs.begin(), ptrs.end());
    ptrs.clear();
    lg->set_pattern("%v");
    std::string good;           // what the file is known to hold
    size_t phases = src.size(1, 6), messages = 0, failed = 0, no = 0;
    bool full = false, after_failure = false;
    for (size_t k = 0; k < phases + 1; ++k) {
        bool last = k == phases;
        full = !last && !full && src.chance(2, 3);
        size_t room = full ? src.pick<size_t>({0, 0, 1, 10, 100, 4096, 5000}) : 0;
        if (full) limit.set(rlim_t(start + good.size() + room));
        else limit.set(limit.was.rlim_cur);
        std::string text;
        size_t n = src.size(1, 12);
        for (size_t i = 0; i < n; ++i) {
            std::string m = pbt::strf("%zu:", no++) + std::string(src.chance(1, 4) ? src.below(6000) : src.below(60), char('a' + no % 26));
            text += m + "\n";
            try { lg->info(m); }
            catch (...) { pbt::fail("an exception reached the caller"); }
            ++messages;
        }
        try { lg->flush(); }
        catch (...) { pbt::fail("an exception reached the caller of flush()"); }
        auto r = cap.take();
        Numbers::get().in_order(r);
        src.note(pbt::strf("%s: %zu messages of %zu bytes, %zu reports", full ? pbt::strf("room for %zu bytes", room).c_str() : "room", n, text.size(), r.size()));
        std::string now = tail();
        if (full && text.size() > room) {
            REQUIRE(r.size() >= 1 && r.size() <= n + 1, "%zu reports where %zu bytes did not fit", r.size(), text.size() - room);
            REQUIRE(now.size() <= good.size() + room && now.compare(0, good.size(), good) == 0, "the file changed where it was good");
            ++failed;
        }
        else {
            REQUIRE(r.empty(), "%zu reports although there is room, the first: %s", r.size(), r[0].text.c_str());
            REQUIRE(now.size() >= good.size() + text.size() && now.compare(0, good.size(), good) == 0 &&
                        now.compare(now.size() - text.size(), text.size(), text) == 0,
                    "after %zu phases that failed the file does not end with what was logged: %zu bytes, %zu before, %zu logged", failed, now.size(), good.size(),
                    text.size());
            // what was buffered when the disk was full may still come
            if (!after_failure) REQUIRE(now.size() == good.size() + text.size(), "%zu bytes too many", now.size() - good.size() - text.size());
        }
        after_failure = full && text.size() > room;
        good = now;
    }
    lg.reset();
    pool.reset();
    auto r = cap.take();
    REQUIRE(r.empty(), "%zu reports at the end, the first: %s", r.size(), r[0].text.c_str());
    REQUIRE(tail() == good, "the file changed at the end");
    size_t others = 0;
    for (auto& e : other->take())
        if (!e.flush) ++others;
    REQUIRE(others == messages, "the other sink got %zu of %zu messages", others, messages);
    if (failed) src.nontrivial();
}

PROPERTY(threads) {
    StderrCapture cap;
    ClockScope clock(int(src.weighted({2, 1, 1})));
    size_t nt = src.size(2, 6), per = src.size(1, 40), nl = src.size(1, 3);
    size_t kind = src.weighted({3, 1, 1, 1});
#ifdef PBT_TSAN
    kind %= 2;
#endif
    std::vector<std::shared_ptr<ManySink>> S;
    for (size_t i = 0; i < nl; ++i) {
        S.push_back(std::make_shared<ManySink>());
        S[i]->mod = unsigned(src.size(1, 4));
    }
    thread_pool_shr_ptr pool;
    if (kind) pool = make_pool(kind, src.pick({1, 8, 256}), src.size(1, 3));
    std::vector<logger_shr_ptr> L;
    for (size_t i = 0; i < nl; ++i) {
        if (kind) L.push_back(std::make_shared<async_logger>("L", S[i], pool));
        else L.push_back(std::make_shared<logger>("L", S[i]));
        L[i]->set_flush_level(src.flip() ? level::error : level::off);
    }
    std::atomic<bool> go{false};
    std::atomic<int> escaped{0};
    std::vector<std::thread> th;
    for (size_t t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            while (!go) {}
            for (size_t i = 0; i < per; ++i) {
                try {
                    L[(t + i) % nl]->log(i % 5 ? level::info : level::error, pbt::strf("t%zu.%zu", t, i));
                    if (i % 16 == 7) L[t % nl]->flush();
                }
                catch (...) { ++escaped; }
            }
        });
    go = true;
    for (auto& t : th) t.join();
    L.clear();
    pool.reset();
    size_t bad = 0, ok = 0;
    for (auto& s : S) { bad += s->bad + s->bad_flush; ok += s->ok + s->bad; }
    auto r = cap.take();
    REQUIRE(escaped == 0, "%d exceptions reached a caller", int(escaped));
    REQUIRE(ok == nt * per, "%zu of %zu messages reached the sinks", ok, nt * per);
    Numbers::get().any_order(r);
    REQUIRE(r.size() == bad, "%zu reports for %zu faults", r.size(), bad);
    std::set<std::string> seen;
    for (auto& x : r) {
        size_t a = x.text.find('<'), b = x.text.find('>');
        REQUIRE(a != std::string::npos && b != std::string::npos && a < b, "damaged report %s", pbt::quote(x.text).c_str());
        std::string t = x.text.substr(a, b - a + 1);
        if (t != "<flush>") REQUIRE(seen.insert(t).second, "%s reported twice", t.c_str());
    }
    src.note(pbt::strf("%zu threads x %zu messages, %zu loggers (%s), %zu faults", nt, per, nl, kind ? "async" : "sync", bad));
    if (bad >= 2) src.nontrivial();
}

PBT_MAIN()
