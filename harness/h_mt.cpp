// C20: thread-safe sinks write whole messages from any number of threads.
#define PERTURB_WRAP
#include "lib.h"
#include "perturb.h"
#include "pools.h"

#include "learnlog.h"
#include "logger.h"
#include "sinks/basic_file_sink.h"
#include "sinks/ostream_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/std_color_sinks.h"
#include "sinks/std_sinks.h"

#include <poll.h>
#include <pty.h>
#include <sstream>
#include <streambuf>
#include <termios.h>

using namespace learnlog;
using pbt::Src;

extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));

namespace {

// the text of message `seq` of thread `t`
std::string text_of(size_t t, size_t seq, size_t len) {
    std::string s = pbt::strf("T%zu.%zu:%zu:", t, seq, len);
    uint64_t x = t * 1000003 + seq + 1;
    for (size_t i = 0; i < len; ++i) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        s += char('a' + (x >> 33) % 26);
    }
    return s;
}

// What a setting was over time: version k is in force from somewhere between begin and end of its setting.
struct Versions {
    std::atomic<uint64_t> started{0}, done{0};
};

// A formatter a user might write; also checks that nobody uses it at once.
class OwnFormatter : public sinks::formatter {
public:
    explicit OwnFormatter(uint64_t v) : v_(v) {}
    void format(const base::log_msg& msg, fmt_memory_buf& buf) override {
        if (busy_.exchange(true)) bad() = true;
        msg.color_index_start = buf.size();
        std::string s = pbt::strf("<o%llu|", (unsigned long long)v_);
        buf.append(s.data(), s.data() + s.size());
        buf.append(msg.logger_name.data(), msg.logger_name.data() + msg.logger_name.size());
        buf.push_back('|');
        msg.color_index_end = buf.size();
        buf.append(msg.msg.data(), msg.msg.data() + msg.msg.size());
        const char* e = "|o>\n";
        buf.append(e, e + 4);
        busy_ = false;
    }
    formatter_uni_ptr clone() const override { return learnlog::make_unique<OwnFormatter>(v_); }
    static std::atomic<bool>& bad() {
        static std::atomic<bool> b{false};
        return b;
    }
private:
    uint64_t v_;
    std::atomic<bool> busy_{false};
};

// version v of the format of a sink: 0 and odd ones a pattern, every fourth an own formatter
bool own(uint64_t v) { return v % 4 == 2; }
std::string pattern_of(uint64_t v) { return pbt::strf("<p%llu|%%^%%n|%%$%%v|p>", (unsigned long long)v); }
void render(uint64_t v, const std::string& logger, const std::string& text, std::string& a, std::string& b, std::string& c) {
    if (own(v)) { a = ""; b = pbt::strf("<o%llu|", (unsigned long long)v) + logger + "|"; c = text + "|o>\n"; }
    else { a = pbt::strf("<p%llu|", (unsigned long long)v); b = logger + "|"; c = text + "|p>\n"; }
}

// a stream buffer that is slow and not thread-safe
class SlowBuf : public std::streambuf {
public:
    std::string data;
    unsigned syncs = 0;
    std::atomic<int> inside{0};
    std::atomic<bool> overlap{false};
protected:
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        if (inside.fetch_add(1)) overlap = true;
        for (std::streamsize i = 0; i < n; i += 97) {
            data.append(s + i, size_t(std::min<std::streamsize>(97, n - i)));
            perturb::point();
        }
        inside.fetch_sub(1);
        return n;
    }
    int overflow(int c) override { if (c >= 0) data += char(c); return c; }
    int sync() override {
        if (inside.fetch_add(1)) overlap = true;
        ++syncs;
        inside.fetch_sub(1);
        return 0;
    }
};

enum Kind { OSTREAM, FILE_, ROLLING, STD_OUT, COLOR_OUT, STD_ERR, COLOR_ERR };
const char* const KIND[] = {"ostream_sink_mt", "basic_file_sink_mt", "rolling_file_sink_mt", "stdout_sink_mt", "stdout_color_sink_mt", "stderr_sink_mt",
                            "stderr_color_sink_mt"};

struct Dest {       // a sink
    Kind kind = OSTREAM;
    sink_shr_ptr s;
    std::unique_ptr<SlowBuf> buf;
    std::unique_ptr<std::ostream> os;
    std::string path;
    size_t limit = 0;
    bool changes = false, levels = false, colours = false;
    Versions fmt, lvl, col;
    std::vector<int> lvl_of;        // by version
    bool to_tty = false;
    bool coloured() const { return to_tty && (kind == COLOR_OUT || kind == COLOR_ERR); }
};
std::string colour_of(uint64_t v) { return pbt::strf("\x1b[38;5;%llum", (unsigned long long)(16 + v % 200)); }

struct Call {       // a logging call, as its thread saw it
    size_t logger = 0;
    int level = 0;
    size_t len = 0;
    std::vector<std::pair<uint64_t, uint64_t>> fmt, lvl, col;     // per sink: the versions that may be in force
};

// the process's stdout or stderr, sent elsewhere
struct Redirect {
    int fd, saved = -1, target = -1, master = -1;
    std::string path, data;
    bool tty;
    std::thread reader;
    Redirect(int f, bool t) : fd(f), tty(t) {
        path = pbt::scratch() + "/fd" + std::to_string(fd);
        FILE* fp = fd == 1 ? stdout : stderr;
        fflush(fp);
        saved = dup(fd);
        if (fd == 2 && __sanitizer_set_report_fd) __sanitizer_set_report_fd(reinterpret_cast<void*>(long(saved)));
        if (tty) {
            struct termios tio;
            if (openpty(&master, &target, nullptr, nullptr, nullptr) != 0) throw pbt::Infra{"openpty"};
            tcgetattr(target, &tio);
            cfmakeraw(&tio);
            tcsetattr(target, TCSANOW, &tio);
            reader = std::thread([this] {
                char b[65536];
                for (;;) {
                    ssize_t n = ::read(master, b, sizeof b);
                    if (n < 0 && errno == EINTR) continue;
                    if (n <= 0) break;      // EIO once the other side is closed
                    data.append(b, size_t(n));
                }
            });
        }
        else {
            target = ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0644);
            if (target < 0) throw pbt::Infra{"open"};
        }
        if (saved < 0 || dup2(target, fd) < 0) throw pbt::Infra{"dup2"};
    }
    void finish() {
        if (saved < 0) return;
        fflush(fd == 1 ? stdout : stderr);
        if (fd == 2 && __sanitizer_set_report_fd) __sanitizer_set_report_fd(reinterpret_cast<void*>(2l));
        dup2(saved, fd);
        ::close(saved);
        ::close(target);
        saved = -1;
        if (tty) { reader.join(); ::close(master); }
        else data = pbt::slurp(path);
    }
    ~Redirect() { finish(); }
};

void mt_case(Src& src, bool is_tsan) {
    std::string dir = pbt::scratch() + "/case";
    pbt::empty_dir(dir);
    OwnFormatter::bad() = false;
    setenv("TERM", "xterm-256color", 1);
    // ---------------- the plan
    bool tty[2] = {src.chance(1, 3), src.chance(1, 3)};
    size_t nd = src.size(1, 4), nl = src.size(1, 4), nt = src.size(2, 6);
    std::vector<std::unique_ptr<Dest>> D;
    for (size_t i = 0; i < nd; ++i) {
        auto d = std::make_unique<Dest>();
        d->kind = Kind(src.weighted({4, 3, 3, 3, 3, 1, 2}));
        d->changes = src.chance(1, 2);
        d->levels = src.chance(1, 3);
        d->colours = src.chance(1, 3);
        if (d->kind == ROLLING) d->limit = src.pick({200, 1000, 5000, 100000});
        if (d->kind >= STD_OUT) d->to_tty = tty[d->kind >= STD_ERR];
        D.push_back(std::move(d));
    }
    std::vector<std::vector<size_t>> sinks_of(nl);
    for (auto& v : sinks_of) {
        v.push_back(src.below(nd));
        for (size_t i = 0; i < nd; ++i) if (i != v[0] && src.chance(1, 2)) v.push_back(i);
    }
    std::vector<bool> async(nl, false);
    size_t workers = 1;
    bool any_async = false;
    for (size_t i = 0; i < nl; ++i) if (src.chance(1, 5)) { async[i] = true; any_async = true; }
    if (any_async) workers = src.pick({1, 2, 3});
    size_t per = src.pick({5, 20, 60});
    struct Step { size_t logger; int level; size_t len; bool flush; };
    std::vector<std::vector<Step>> script(nt);
    for (auto& s : script)
        for (size_t k = 0; k < per; ++k)
            s.push_back({src.below(nl), int(src.below(6)), src.pick({src.below(20), src.below(200), src.below(3000)}), src.chance(1, 12)});
    size_t flushers = src.weighted({3, 1});
    unsigned per_mille = unsigned(src.pick({0, 30, 200, 500}));
    unsigned cpus = unsigned(src.pick({0, 1, 2}));
    bool logger_wide = src.chance(1, 2);        // formats are set through a logger, for all its sinks
    uint64_t seed = src.bits();
    for (auto& d : D) src.note(pbt::strf("%s%s%s%s%s limit %zu", KIND[d->kind], d->changes ? " formats" : "", d->levels ? " levels" : "", d->colours ? " colours" : "",
                                         d->to_tty ? " tty" : "", d->limit));
    for (size_t i = 0; i < nl; ++i) {
        std::string s;
        for (size_t k : sinks_of[i]) s += " " + std::to_string(k);
        src.note(pbt::strf("logger %zu%s:%s", i, async[i] ? " async" : "", s.c_str()));
    }
    src.note(pbt::strf("%zu threads, %zu messages each, %zu workers, delays %u, cpus %u%s", nt, per, workers, per_mille, cpus, logger_wide ? ", formats by logger" : ""));
    bool shared = false, changed = false;
    for (size_t i = 0; i < nd; ++i) {
        size_t c = 0;
        for (auto& v : sinks_of) c += size_t(std::count(v.begin(), v.end(), i));
        if (c > 1) shared = true;
        if (D[i]->changes) changed = true;
    }
    if (nt > 1 && per > 5 && (shared || changed)) src.nontrivial();
    if (shared) src.label("a sink of several loggers");
    if (changed) src.label("formats change");

    // ---------------- the run
    perturb::confine(cpus);
    struct Unconfine { ~Unconfine() { perturb::confine(0); } } unconfine;
    Redirect out(1, tty[0]), err(2, tty[1]);
    std::vector<std::vector<Call>> calls(nt);
    std::vector<std::string> names;
    for (size_t i = 0; i < nl; ++i) names.push_back("log" + std::to_string(i));
    {
        for (size_t i = 0; i < nd; ++i) {
            Dest& d = *D[i];
            d.path = dir + "/s" + std::to_string(i) + ".log";
            switch (d.kind) {
                case OSTREAM:
                    d.buf.reset(new SlowBuf);
                    d.os.reset(new std::ostream(d.buf.get()));
                    d.s = std::make_shared<sinks::ostream_sink_mt>(*d.os, i % 2 == 1);
                    break;
                case FILE_: d.s = std::make_shared<sinks::basic_file_sink_mt>(d.path); break;
                case ROLLING: d.s = std::make_shared<sinks::rolling_file_sink_mt>(d.path, d.limit, 10000); break;
                case STD_OUT: d.s = std::make_shared<sinks::stdout_sink_mt>(); break;
                case COLOR_OUT: d.s = std::make_shared<sinks::stdout_color_sink_mt>(); break;
                case STD_ERR: d.s = std::make_shared<sinks::stderr_sink_mt>(); break;
                default: d.s = std::make_shared<sinks::stderr_color_sink_mt>(); break;
            }
            d.s->set_pattern(pattern_of(0));
            d.lvl_of.push_back(level::trace);
        }
        auto set_colour = [](Dest& d, uint64_t v) {
            for (int l = 0; l < 6; ++l) {
                auto lv = static_cast<level::level_enum>(l);
                if (d.kind == COLOR_OUT) std::static_pointer_cast<sinks::stdout_color_sink_mt>(d.s)->set_level_color(lv, colour_of(v));
                if (d.kind == COLOR_ERR) std::static_pointer_cast<sinks::stderr_color_sink_mt>(d.s)->set_level_color(lv, colour_of(v));
            }
        };
        for (auto& d : D) set_colour(*d, 0);
        auto pool = any_async ? lib::make_pool(1, 16, workers) : nullptr;
        std::vector<logger_shr_ptr> L;
        for (size_t i = 0; i < nl; ++i) {
            std::vector<sink_shr_ptr> v;
            for (size_t k : sinks_of[i]) v.push_back(D[k]->s);
            if (async[i]) L.push_back(std::make_shared<async_logger>(names[i], v.begin(), v.end(), pool));
            else L.push_back(std::make_shared<logger>(names[i], v.begin(), v.end()));
            L.back()->set_log_level(level::trace);
        }
        perturb::Scope scope(seed, per_mille, 300);
        perturb::Storm storm(seed, !is_tsan && seed % 5 == 0);
        std::vector<std::thread> ts;
        std::atomic<size_t> left{nt};
        std::atomic<bool> go{false};
        for (size_t t = 0; t < nt; ++t) {
            calls[t].resize(per);
            ts.emplace_back([&, t] {
                while (!go) sched_yield();
                for (size_t k = 0; k < per; ++k) {
                    const Step& s = script[t][k];
                    Call& c = calls[t][k];
                    c.logger = s.logger;
                    c.level = s.level;
                    c.len = s.len;
                    std::string text = text_of(t, k, s.len);
                    for (auto& d : D) {
                        c.fmt.emplace_back(d->fmt.done.load(), 0);
                        c.lvl.emplace_back(d->lvl.done.load(), 0);
                        c.col.emplace_back(d->col.done.load(), 0);
                    }
                    L[s.logger]->log(static_cast<level::level_enum>(s.level), fmt_string_view(text.data(), text.size()));
                    for (size_t i = 0; i < D.size(); ++i) {
                        // an asynchronous logger writes it at any time from now on
                        c.fmt[i].second = async[s.logger] ? ~0ull : D[i]->fmt.started.load();
                        c.lvl[i].second = async[s.logger] ? ~0ull : D[i]->lvl.started.load();
                        c.col[i].second = async[s.logger] ? ~0ull : D[i]->col.started.load();
                    }
                    if (s.flush) L[s.logger]->flush();
                }
                --left;
            });
        }
        ts.emplace_back([&] {       // the one who changes settings
            pbt::Rng rng(seed);
            while (!go) sched_yield();
            for (int n = 0; left && n < 400; ++n) {
                size_t i = rng.below(nd);
                Dest& d = *D[i];
                if (d.changes && rng.below(2)) {
                    size_t l = rng.below(nl);
                    bool wide = logger_wide && n % 3 == 0;
                    if (wide) for (size_t k : sinks_of[l]) if (!D[k]->changes) wide = false;
                    uint64_t v = d.fmt.started + 1;
                    if (wide) {
                        // the same version for all of them
                        for (size_t k : sinks_of[l]) v = std::max<uint64_t>(v, D[k]->fmt.started + 1);
                        for (size_t k : sinks_of[l]) D[k]->fmt.started = v;
                        if (own(v)) L[l]->set_formatter(learnlog::make_unique<OwnFormatter>(v));
                        else L[l]->set_pattern(pattern_of(v));
                        for (size_t k : sinks_of[l]) D[k]->fmt.done = v;
                    }
                    else {
                        d.fmt.started = v;
                        if (own(v)) d.s->set_formatter(learnlog::make_unique<OwnFormatter>(v));
                        else d.s->set_pattern(pattern_of(v));
                        d.fmt.done = v;
                    }
                }
                if (d.levels && rng.below(2)) {
                    int lv = int(rng.below(6));
                    d.lvl_of.push_back(lv);
                    d.lvl.started = d.lvl_of.size() - 1;
                    d.s->set_level(static_cast<level::level_enum>(lv));
                    d.lvl.done = d.lvl_of.size() - 1;
                }
                if (d.colours && rng.below(3) == 0) {
                    uint64_t v = d.col.started + 1;
                    d.col.started = v;
                    set_colour(d, v);
                    d.col.done = v;
                }
                perturb::raw_sleep_us(rng.below(200));
            }
        });
        for (size_t f = 0; f < flushers; ++f)
            ts.emplace_back([&] {
                while (!go) sched_yield();
                while (left) { for (auto& l : L) l->flush(); perturb::raw_sleep_us(100); }
            });
        go = true;
        for (auto& t : ts) t.join();
        L.clear();
        pool.reset();       // drains
        for (auto& d : D) d->s.reset();
    }
    out.finish();
    err.finish();
    REQUIRE(!OwnFormatter::bad(), "two threads formatted at once with one formatter");

    // ---------------- what arrived
    // Sinks on one stream cannot always be told apart, so what is there is checked by group of sinks: each
    // copy of a message is one that some sink of the group may have written, and the copies of a message can
    // be given to different sinks so that each sink that must have one has one.
    auto parse = [&](const std::string& s, const std::vector<size_t>& group, const char* what, std::vector<std::vector<std::vector<unsigned>>>& copies,
                     std::vector<std::map<bool, size_t>>& last) {
        size_t p = 0;
        while (p < s.size()) {
            // find who this is, then require the whole of it
            size_t at = s.find('T', p);
            size_t t = 0, k = 0, len = 0;
            std::string ctx = pbt::quote(s.substr(p, 200));
            REQUIRE(at != std::string::npos && at - p < 60 && sscanf(s.c_str() + at, "T%zu.%zu:%zu:", &t, &k, &len) == 3, "%s: garbage at byte %zu: %s", what, p,
                    ctx.c_str());
            REQUIRE(t < nt && k < per && calls[t][k].len == len, "%s: a message nobody logged at byte %zu: %s", what, p, ctx.c_str());
            const Call& c = calls[t][k];
            std::string text = text_of(t, k, len);
            size_t m = s.find('<', p);      // the format as written
            unsigned long long ver = 0;
            char form = 0;
            REQUIRE(m != std::string::npos && m < at && sscanf(s.c_str() + m, "<%c%llu|", &form, &ver) == 2, "%s: no format at byte %zu: %s", what, p, ctx.c_str());
            std::string a, b, e;
            render(ver, names[c.logger], text, a, b, e);
            unsigned mask = 0;
            size_t took = 0;
            const char* why = "is not one of its logger's";
            for (size_t i : group) {
                if (!std::count(sinks_of[c.logger].begin(), sinks_of[c.logger].end(), i)) continue;
                Dest& d = *D[i];
                if (ver < c.fmt[i].first || ver > c.fmt[i].second || ver > d.fmt.started) { why = "has a format that was not in force"; continue; }
                std::string want = a + b + e;
                if (d.coloured()) {
                    size_t q = p + a.size();
                    // an own formatter marks its beginning, a pattern what is between its marks
                    unsigned long long col = 0;
                    if (sscanf(s.c_str() + std::min(q, s.size()), "\x1b[38;5;%llum", &col) != 1) { why = "lacks its colour"; continue; }
                    bool found = false;
                    for (uint64_t v = c.col[i].first; v <= std::min<uint64_t>(c.col[i].second, d.col.started) && !found; ++v) found = 16 + v % 200 == col;
                    if (!found) { why = "has a colour that was not in force"; continue; }
                    want = a + pbt::strf("\x1b[38;5;%llum", col) + b + "\x1b[m" + e;
                }
                if (s.compare(p, want.size(), want) != 0) { why = "is not whole"; continue; }
                mask |= 1u << i;
                took = want.size();     // the same for all that match, as they match here
            }
            REQUIRE(mask, "%s: message %zu of thread %zu %s, at byte %zu: %s", what, k, t, why, p, ctx.c_str());
            copies[t][k].push_back(mask);
            p += took;
            // the order between a synchronous and an asynchronous logger, or of several workers, is nobody's
            bool as = async[c.logger];
            if (!(as && workers > 1)) {
                auto it = last[t].find(as);
                REQUIRE(it == last[t].end() || it->second <= k, "%s: message %zu of thread %zu is after message %zu", what, k, t, it->second);
                last[t][as] = k;
            }
        }
    };
    struct Group { std::vector<size_t> of; std::vector<std::string> data; std::string what; };
    std::vector<Group> groups(2);
    groups[0].data = {out.data};
    groups[0].what = "stdout";
    groups[1].data = {err.data};
    groups[1].what = "stderr";
    for (size_t i = 0; i < nd; ++i) {
        Dest& d = *D[i];
        std::string what = pbt::strf("sink %zu (%s)", i, KIND[d.kind]);
        switch (d.kind) {
            case OSTREAM:
                REQUIRE(!d.buf->overlap, "%s: two threads used the stream at once", what.c_str());
                groups.push_back({{i}, {d.buf->data}, what});
                break;
            case FILE_: groups.push_back({{i}, {pbt::slurp(d.path)}, what}); break;
            case ROLLING: {
                Group g{{i}, {}, what};
                for (size_t n = 1;; ++n) {
                    std::string f = dir + pbt::strf("/s%zu_%05zu.log", i, n);
                    struct stat st;
                    if (::stat(f.c_str(), &st) != 0) break;
                    std::string one = pbt::slurp(f);
                    REQUIRE(one.size() <= d.limit || std::count(one.begin(), one.end(), '\n') == 1, "%s: file %zu holds %zu bytes", what.c_str(), n, one.size());
                    g.data.push_back(one);
                }
                groups.push_back(g);
                break;
            }
            case STD_OUT: case COLOR_OUT: groups[0].of.push_back(i); break;
            default: groups[1].of.push_back(i); break;
        }
    }
    for (auto& g : groups) {
        std::vector<std::vector<std::vector<unsigned>>> copies(nt, std::vector<std::vector<unsigned>>(per));
        std::vector<std::map<bool, size_t>> last(nt);
        for (auto& one : g.data) parse(one, g.of, g.what.c_str(), copies, last);
        if (g.of.size() > 1) src.label("several sinks on one stream");
        for (size_t t = 0; t < nt; ++t)
            for (size_t k = 0; k < per; ++k) {
                const Call& c = calls[t][k];
                unsigned must = 0, may = 0;
                for (size_t i : g.of) {
                    if (!std::count(sinks_of[c.logger].begin(), sinks_of[c.logger].end(), i)) continue;
                    bool all = true, none = true;
                    for (uint64_t v = c.lvl[i].first; v <= std::min<uint64_t>(c.lvl[i].second, D[i]->lvl_of.size() - 1); ++v) {
                        if (c.level >= D[i]->lvl_of[v]) none = false;
                        else all = false;
                    }
                    if (all) must |= 1u << i;
                    if (!none) may |= 1u << i;
                }
                std::function<bool(size_t, unsigned)> assign = [&](size_t n, unsigned used) {
                    if (n == copies[t][k].size()) return (must & ~used) == 0;
                    for (size_t i : g.of)
                        if ((copies[t][k][n] & may & ~used) >> i & 1)
                            if (assign(n + 1, used | 1u << i)) return true;
                    return false;
                };
                REQUIRE(assign(0, 0), "%s: message %zu of thread %zu (level %d) is there %zu times; of its sinks %d must and %d may have written it", g.what.c_str(), k, t,
                        c.level, copies[t][k].size(), __builtin_popcount(must), __builtin_popcount(may));
            }
    }
}
}   // namespace

#ifdef PBT_TSAN
PROPERTY(threads) { mt_case(src, true); }
#else
PROPERTY(threads) { mt_case(src, false); }
#endif

PBT_MAIN()
