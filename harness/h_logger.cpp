// C08: levels gate messages exactly, every call form writes the text it was given.
// C22: cloning and swapping loggers.
#include "recsink.h"

#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "learnlog.h"
#include "logger.h"
#include "sinks/null_sink.h"

using namespace learnlog;
using pbt::Src;
using rec::Want;

struct Custom {
    int x;
    std::string s;
};
template <>
struct fmt::formatter<Custom> {
    constexpr auto parse(format_parse_context& c) -> decltype(c.begin()) { return c.begin(); }
    template <typename C>
    auto format(const Custom& v, C& c) const -> decltype(c.out()) { return fmt::format_to(c.out(), "<{}:{}>", v.x, v.s); }
};

// an argument whose formatting logs something else
struct Chatty {
    learnlog::logger* to;
    std::string inner, s;
};
template <>
struct fmt::formatter<Chatty> {
    constexpr auto parse(format_parse_context& c) -> decltype(c.begin()) { return c.begin(); }
    template <typename C>
    auto format(const Chatty& v, C& c) const -> decltype(c.out()) {
        auto o = fmt::format_to(c.out(), "<");
        v.to->log(learnlog::level::warn, "{}", v.inner);
        v.to->log(learnlog::level::warn, fmt::string_view(v.inner));
        if (v.inner.size() % 3 == 0) v.to->log(learnlog::level::warn, "{}{}", Chatty{v.to, "x" + std::string(v.inner.size() % 2, 'y'), "deep"}, v.s);
        return fmt::format_to(o, "{}>", v.s);
    }
};

namespace {
const char* const LV[] = {"trace", "debug", "info", "warn", "error", "critical", "off"};

std::string pad(const std::string& s, size_t w, char side, char fill) {
    if (s.size() >= w) return s;
    size_t n = w - s.size();
    if (side == '<') return s + std::string(n, fill);
    if (side == '>') return std::string(n, fill) + s;
    return std::string(n / 2, fill) + s + std::string(n - n / 2, fill);
}

// one call of a generated form
struct Call {
    int form = 0;
    int level = 0;
    source_loc loc;
    long long ns = -1;
    std::string s, s2;
    long long i = 0;
    size_t width = 0;
    char side = '<';
    logger* inner = nullptr;
};

constexpr int FORMS = 28;

Call gen_call(Src& src) {
    Call c;
    c.form = int(src.below(FORMS));
    c.level = int(src.below(6));
    c.loc = rec::loc(src);
    c.ns = (long long)src.below(4000000000000000000ull);
    c.s = rec::text(src, rec::text_len(src));
    if (src.chance(1, 3)) {     // text that looks like a format string
        static const char* const B[] = {"{}", "{", "}", "{{}}", "{0}", "{:>10}", "%v %n", "{:d}", "{}{}{}"};
        size_t at = src.below(c.s.size() + 1);
        c.s.insert(at, B[src.below(9)]);
    }
    c.s2 = rec::text(src, src.below(40));
    if (c.form == 13)       // fmt pads by display width
        for (char& x : c.s2) if (x < 32 || x > 126) x = 'w';
    c.i = src.range(-1000000, 1000000) * src.pick({1ll, 1ll, 1000003ll});
    c.width = 1 + src.below(30);
    c.side = src.pick({'<', '>', '^'});
    return c;
}

std::string want_text(const Call& c) {
    std::string n = std::to_string(c.i);
    switch (c.form) {
        case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 18: case 19: case 21: return c.s;
        case 7: case 8: case 20: return c.s + "|" + n + "|" + c.s2;
        case 9: return "{" + c.s + "}" + n;
        case 10: return n;
        case 11: return std::string("<") + std::to_string(int(c.i % 1000)) + ":" + c.s + ">";
        case 12: return c.i % 2 ? "true" : "false";
        case 13: return pad(c.s2, c.width, c.side, '*') + "/" + pad(n, c.width, '>', ' ');
        case 14: return c.s2 + n + c.s2;
        case 15: return std::string(1, char('a' + (c.i & 15)));
        case 16: return "literal {} and {{}} text";
        case 17: return "just text " + n;
        case 22: return n + " " + c.s;
        case 23: return "x=" + c.s;
        case 24: return n;
        case 26: return "<" + c.s + "> " + n + " <" + c.s2 + ">";
        case 27: return "<" + c.s + ">";
        default: return c.s;
    }
}

#define LEVEL_CALL(obj, lvl, ...)                 \
    switch (lvl) {                                \
        case 0: obj trace(__VA_ARGS__); break;    \
        case 1: obj debug(__VA_ARGS__); break;    \
        case 2: obj info(__VA_ARGS__); break;     \
        case 3: obj warn(__VA_ARGS__); break;     \
        case 4: obj error(__VA_ARGS__); break;    \
        default: obj critical(__VA_ARGS__); break; \
    }

bool has_loc(int form) { return form == 1 || form == 2 || form == 7 || form == 11 || form == 19 || form == 24; }
bool nested(int form) { return form == 26 || form == 27; }
// what the inner logger gets when one Chatty is formatted
void add_inner(std::vector<std::string>& out, const std::string& inner, const std::string& s) {
    out.push_back(inner);
    out.push_back(inner);
    if (inner.size() % 3 == 0) {
        add_inner(out, "x" + std::string(inner.size() % 2, 'y'), "deep");
        out.push_back("<deep>" + s);
    }
}
bool has_time(int form) { return form == 2; }

// the forms that both loggers and the free functions have; false if this one does not exist
#define COMMON_FORMS(obj)                                                                          \
    case 0: obj log(lv, c.s); break;                                                               \
    case 3: obj log(lv, c.s.c_str()); break;                                                       \
    case 4: LEVEL_CALL(obj, c.level, c.s) break;                                                   \
    case 5: obj log(lv, fmt_string_view(c.s)); break;                                              \
    case 6: LEVEL_CALL(obj, c.level, c.s.c_str()) break;                                           \
    case 7: obj log(c.loc, lv, "{}|{}|{}", c.s, c.i, c.s2); break;                                 \
    case 8: obj log(lv, "{}|{}|{}", c.s, c.i, c.s2); break;                                        \
    case 9: LEVEL_CALL(obj, c.level, "{{{}}}{}", c.s, c.i) break;                                  \
    case 10: LEVEL_CALL(obj, c.level, c.i) break;                                                  \
    case 11: { Custom x{int(c.i % 1000), c.s}; obj log(c.loc, lv, x); break; }                     \
    case 12: { bool b = c.i % 2; obj log(lv, b); break; }                                          \
    case 13: {                                                                                     \
        std::string f = std::string("{:*") + c.side + std::to_string(c.width) + "}/{:>" + std::to_string(c.width) + "}"; \
        obj log(lv, fmt::runtime(f), c.s2, c.i);                                                   \
        break;                                                                                     \
    }                                                                                              \
    case 14: LEVEL_CALL(obj, c.level, "{0}{1}{0}", c.s2, c.i) break;                               \
    case 15: { char ch = char('a' + (c.i & 15)); LEVEL_CALL(obj, c.level, ch) break; }             \
    case 16: LEVEL_CALL(obj, c.level, "literal {} and {{}} text") break;                           \
    case 17: LEVEL_CALL(obj, c.level, "just text {}", c.i) break;                                  \
    case 20: LEVEL_CALL(obj, c.level, "{}|{}|{}", c.s.c_str(), c.i, fmt_string_view(c.s2)) break;  \
    case 21: LEVEL_CALL(obj, c.level, fmt_string_view(c.s)) break;                                 \
    case 22: LEVEL_CALL(obj, c.level, "{} {}", c.i, c.s) break;                                    \
    case 23: obj log(lv, "x={}", c.s); break;                                                      \
    case 24: obj log(c.loc, lv, c.i); break;                                                       \
    case 25: { std::string t = c.s; LEVEL_CALL(obj, c.level, "{}", std::move(t)) break; }   \
    case 26: obj log(lv, "{} {} {}", Chatty{c.inner, c.s2, c.s}, c.i, Chatty{c.inner, c.s, c.s2}); break; \
    case 27: { Chatty x{c.inner, c.s2, c.s}; LEVEL_CALL(obj, c.level, x) break; }

void do_call(logger& lg, const Call& c) {
    auto lv = level::level_enum(c.level);
    switch (c.form) {
        COMMON_FORMS(lg.)
        case 1: lg.log(c.loc, lv, fmt_string_view(c.s)); break;
        case 2: lg.log(lib::tp(c.ns), c.loc, lv, fmt_string_view(c.s)); break;
        case 18: lg.log(lv, fmt_string_view(c.s)); break;
        case 19: lg.log(c.loc, lv, c.s); break;
    }
}
bool free_form(int form) { return form != 1 && form != 2 && form != 18 && form != 19; }
void do_free_call(const Call& c) {
    auto lv = level::level_enum(c.level);
    switch (c.form) { COMMON_FORMS(learnlog::) }
}

bool printable_cstr(const Call& c) { return c.s.find('\0') == std::string::npos; }
bool cstr_form(int f) { return f == 3 || f == 6 || f == 20; }
}   // namespace

PROPERTY(levels) {
    size_t nsinks = src.below(4);
    std::vector<std::shared_ptr<rec::Sink>> sinks;
    std::vector<sink_shr_ptr> ptrs;
    std::vector<int> slevel(nsinks, 0);
    for (size_t i = 0; i < nsinks; ++i) {
        sinks.push_back(std::make_shared<rec::Sink>());
        ptrs.push_back(sinks.back());
    }
    std::string name = src.ascii(src.pick({0, 1, 5, 20, 300}));
    logger_shr_ptr lg;
    bool async = src.chance(1, 6);
    std::shared_ptr<base::thread_pool> pool;
    if (async) {
        pool = std::make_shared<base::lock_thread_pool>(src.pick({1, 3, 64}), 1);
        lg = std::make_shared<async_logger>(name, ptrs.begin(), ptrs.end(), pool);
    }
    else if (nsinks == 0 && src.flip()) lg = std::make_shared<logger>(name);
    else if (nsinks == 1 && src.flip()) lg = std::make_shared<logger>(name, ptrs[0]);
    else if (nsinks == 2 && src.flip()) lg = std::make_shared<logger>(name, sinks_init_list{ptrs[0], ptrs[1]});
    else lg = std::make_shared<logger>(name, ptrs.begin(), ptrs.end());
    REQUIRE(lg->name() == name && lg->sinks().size() == nsinks && lg->is_async() == async, "a new logger");
    REQUIRE(lg->get_log_level() == level::info && lg->get_flush_level() == level::off, "levels of a new logger");
    bool use_default = !async && src.chance(1, 3);
    if (use_default) set_default_logger(lg);
    auto inner_sink = std::make_shared<rec::Sink>();
    logger inner_logger("inner", inner_sink);
    size_t nests = 0;

    std::vector<std::vector<Want>> want(nsinks);
    int llevel = 2;
    size_t n = src.small_size(1, 60), written = 0, gated = 0;
    for (size_t i = 0; i < n; ++i) {
        size_t op = src.weighted({12, 2, 2, 1});
        if (op == 0) {
            Call c = gen_call(src);
            c.inner = &inner_logger;
            if (cstr_form(c.form) && !printable_cstr(c)) c.form = 0;
            bool free_fn = use_default && free_form(c.form) && src.flip();
            bool other_thread = src.chance(1, 40);
            Want w;
            w.logger = name;
            w.text = want_text(c);
            w.level = c.level;
            if (has_loc(c.form)) rec::set_loc(w, c.loc);
            if (has_time(c.form)) w.ns = c.ns;
            w.ns_lo = lib::now_ns();
            w.tid = rec::this_tid();
            src.note(pbt::strf("form %d %s%s", c.form, LV[c.level], free_fn ? " (default logger)" : ""));
            auto run = [&] { if (free_fn) do_free_call(c); else do_call(*lg, c); };
            if (other_thread) std::thread([&] { w.tid = rec::this_tid(); run(); }).join();
            else run();
            w.ns_hi = lib::now_ns();
            if (nested(c.form)) {
                // formatted once when the message is let through, by the level or the backtrace
                std::vector<std::string> in;
                if (c.level >= llevel) {
                    add_inner(in, c.s2, c.s);
                    if (c.form == 26) add_inner(in, c.s, c.s2);
                    ++nests;
                }
                auto ev = inner_sink->take();
                REQUIRE(ev.size() == in.size(), "%zu messages logged while formatting another, want %zu", ev.size(), in.size());
                for (size_t k = 0; k < in.size(); ++k) pbt::require_eq_str(ev[k].text, in[k], "a message logged while formatting another");
            }
            std::fill(c.s.begin(), c.s.end(), '#');
            if (c.level >= llevel) {
                for (size_t k = 0; k < nsinks; ++k) {
                    if (c.level >= slevel[k]) { want[k].push_back(w); ++written; }
                    else ++gated;
                }
            }
            else ++gated;
        }
        else if (op == 1) {
            llevel = int(src.below(7));
            src.note(pbt::strf("log level %s", LV[llevel]));
            lg->set_log_level(level::level_enum(llevel));
        }
        else if (op == 2 && nsinks) {
            if (async) {
                lg->flush();
                for (auto& w : want) { Want f; f.flush = true; w.push_back(f); }
            }
            size_t k = src.below(nsinks);
            slevel[k] = int(src.below(7));
            src.note(pbt::strf("sink %zu level %s", k, LV[slevel[k]]));
            sinks[k]->set_level(level::level_enum(slevel[k]));
            REQUIRE(int(sinks[k]->get_level()) == slevel[k], "get_level of a sink");
            for (int l = 0; l < 7; ++l)
                REQUIRE(sinks[k]->should_log(level::level_enum(l)) == (l >= slevel[k]), "should_log(%s) at %s", LV[l], LV[slevel[k]]);
        }
        else if (op == 3) {
            lg->flush();
            for (auto& w : want) { Want f; f.flush = true; w.push_back(f); }
        }
        REQUIRE(int(lg->get_log_level()) == llevel, "get_log_level");
        if (!async)
            for (size_t k = 0; k < nsinks; ++k) {
                rec::require_events(sinks[k]->take(), want[k], pbt::strf("sink %zu after step %zu", k, i).c_str());
                want[k].clear();
            }
    }
    if (use_default) remove_all();
    lg.reset();
    pool.reset();
    for (size_t k = 0; k < nsinks; ++k) rec::require_events(sinks[k]->take(), want[k], "at the end");
    if (written >= 2 && gated) src.nontrivial();
    if (nests) src.label("logging while formatting");
}

// ------------------------------------------------------------------ C22

namespace {
struct ML {     // model of a logger
    std::string name;
    std::vector<size_t> sinks;
    int level = 2, flush = 6;
    std::string pattern = "%+";
    bool async = false;
    int tracer = -1;            // index into tracers, -1 never enabled
};
struct MT { bool on = false; size_t cap = 0; std::vector<std::string> kept; };
}

PROPERTY(cloneswap) {
    constexpr size_t NS = 4;
    std::vector<std::shared_ptr<rec::Sink>> sinks;
    std::vector<std::string> spat(NS);      // empty: the default
    for (size_t i = 0; i < NS; ++i) { sinks.push_back(std::make_shared<rec::Sink>()); sinks[i]->render = true; }
    bool async = src.chance(1, 4);
    std::shared_ptr<base::thread_pool> pool;
    if (async) pool = std::make_shared<base::lock_thread_pool>(src.pick({1, 64}), 1);
    std::vector<logger_shr_ptr> L;
    std::vector<ML> M;
    std::vector<MT> T;
    size_t n0 = src.size(1, 3);
    auto fresh = [&] {
        ML m;
        m.name = src.ascii(1 + src.below(20));
        std::vector<sink_shr_ptr> p;
        for (size_t k = 0; k < NS; ++k)
            if (src.flip()) { m.sinks.push_back(k); p.push_back(sinks[k]); }
        m.async = async;
        if (async) L.push_back(std::make_shared<async_logger>(m.name, p.begin(), p.end(), pool));
        else L.push_back(std::make_shared<logger>(m.name, p.begin(), p.end()));
        M.push_back(m);
    };
    for (size_t i = 0; i < n0; ++i) fresh();
    size_t clones = 0, swaps = 0, uses = 0, seq = 0;

    auto compare = [&](size_t i) {
        const ML& m = M[i];
        auto& l = *L[i];
        REQUIRE(l.name() == m.name, "logger %zu: name %s, want %s", i, l.name().c_str(), m.name.c_str());
        REQUIRE(int(l.get_log_level()) == m.level, "logger %zu (%s): log level %d, want %d", i, m.name.c_str(), l.get_log_level(), m.level);
        REQUIRE(int(l.get_flush_level()) == m.flush, "logger %zu (%s): flush level %d, want %d", i, m.name.c_str(), l.get_flush_level(), m.flush);
        REQUIRE(l.get_pattern() == m.pattern, "logger %zu (%s): pattern %s, want %s", i, m.name.c_str(), l.get_pattern().c_str(), m.pattern.c_str());
        REQUIRE(l.is_async() == m.async, "logger %zu: is_async", i);
        REQUIRE(l.sinks().size() == m.sinks.size(), "logger %zu: %zu sinks, want %zu", i, l.sinks().size(), m.sinks.size());
        for (size_t k = 0; k < m.sinks.size(); ++k)
            REQUIRE(l.sinks()[k] == sinks[m.sinks[k]], "logger %zu: sink %zu is another one", i, k);
    };
    auto expect = [&](std::vector<std::vector<std::pair<std::string, std::string>>>& want, const ML& m, int level, const std::string& text) {
        for (size_t k : m.sinks) want[k].push_back({m.name, text});
        if (level >= m.flush)
            for (size_t k : m.sinks) want[k].push_back({"", "\x01" "flush"});
    };
    auto verify = [&](std::vector<std::vector<std::pair<std::string, std::string>>>& want, const char* what) {
        for (size_t k = 0; k < NS; ++k) {
            auto ev = sinks[k]->take();
            REQUIRE(ev.size() == want[k].size(), "%s: sink %zu got %zu events, want %zu", what, k, ev.size(), want[k].size());
            for (size_t j = 0; j < ev.size(); ++j) {
                bool f = want[k][j].second == "\x01" "flush";
                REQUIRE(ev[j].flush == f, "%s: sink %zu event %zu is %s", what, k, j, rec::show(ev[j]).c_str());
                if (f) continue;
                if (want[k][j].second == "\x02") {
                    REQUIRE(ev[j].text.find("Backtrace") != std::string::npos, "%s: no marker", what);
                    continue;
                }
                REQUIRE(ev[j].logger == want[k][j].first, "%s: logger name %s, want %s", what, ev[j].logger.c_str(), want[k][j].first.c_str());
                REQUIRE(ev[j].text == want[k][j].second, "%s: text %s", what, pbt::quote(ev[j].text).c_str());
                if (!spat[k].empty())
                    pbt::require_eq_str(ev[j].rendered, spat[k] + ev[j].text + "\n", what);
            }
        }
    };

    auto settle = [&](std::vector<std::vector<std::pair<std::string, std::string>>>& want, size_t i) {
        if (!async) return;
        L[i]->flush();
        for (size_t k : M[i].sinks) want[k].push_back({"", "\x01" "flush"});
    };
    size_t n = src.small_size(1, 60);
    for (size_t i = 0; i < n; ++i) {
        size_t a = src.below(L.size()), b = src.below(L.size());
        std::vector<std::vector<std::pair<std::string, std::string>>> want(NS);
        switch (src.below(9)) {
            case 0: {
                if (L.size() >= 7 || M[a].tracer >= 0) break;
                ML m = M[a];
                m.name = src.ascii(src.below(25));
                src.note("clone " + M[a].name + " as " + m.name);
                auto c = L[a]->clone(m.name);
                REQUIRE(c != nullptr && c != L[a], "clone() gave no new logger");
                L.push_back(c);
                M.push_back(m);
                ++clones;
                break;
            }
            case 1: case 2:
                settle(want, a);    // nothing of either is under way
                settle(want, b);
                src.note("swap " + M[a].name + " and " + M[b].name);
                if (src.flip()) L[a]->swap(*L[b]);
                else learnlog::swap(*L[a], *L[b]);
                if (a != b) std::swap(M[a], M[b]);
                ++swaps;
                break;
            case 3:
                M[a].level = int(src.below(7));
                L[a]->set_log_level(level::level_enum(M[a].level));
                break;
            case 4:
                M[a].flush = int(src.below(7));
                if (async) L[a]->flush();
                if (async) for (size_t k : M[a].sinks) want[k].push_back({"", "\x01" "flush"});
                L[a]->set_flush_level(level::level_enum(M[a].flush));
                break;
            case 5: {
                std::string p = src.ascii(src.below(6), "%") + ":";
                M[a].pattern = p + "%v";
                L[a]->set_pattern(M[a].pattern);
                for (size_t k : M[a].sinks) spat[k] = p;
                break;
            }
            case 6: {
                settle(want, a);    // the worker reads the list
                size_t k = src.below(NS);
                if (src.flip() && !M[a].sinks.empty()) { L[a]->sinks().pop_back(); M[a].sinks.pop_back(); }
                else if (std::find(M[a].sinks.begin(), M[a].sinks.end(), k) == M[a].sinks.end()) {
                    L[a]->sinks().push_back(sinks[k]);
                    M[a].sinks.push_back(k);
                }
                break;
            }
            case 7: {
                if (clones) break;      // a clone shares the backtrace of its source: not claimed
                if (M[a].tracer < 0) { M[a].tracer = int(T.size()); T.push_back({}); }
                MT& t = T[size_t(M[a].tracer)];
                if (t.on && src.flip()) {
                    L[a]->dump_backtrace();
                    auto put = [&](const std::string& s, int lv) { expect(want, M[a], lv, s); };
                    put("\x02", 2);
                    for (auto& s : t.kept) { put(s.substr(1), s[0] - '0'); }
                    put("\x02", 2);
                    t.kept.clear();
                }
                else {
                    t.on = true;
                    t.cap = src.size(1, 5);
                    t.kept.clear();
                    L[a]->enable_backtrace_n(t.cap);
                }
                break;
            }
            default: break;
        }
        compare(a);
        compare(b);
        // use a logger and see where it goes
        size_t u = src.flip() ? a : L.size() - 1;
        int lv = int(src.below(6));
        std::string text = pbt::strf("%zu.", seq++) + src.ascii(src.below(8));
        L[u]->log(level::level_enum(lv), text);
        if (lv >= M[u].level) { expect(want, M[u], lv, text); ++uses; }
        if (M[u].tracer >= 0 && T[size_t(M[u].tracer)].on) {
            MT& t = T[size_t(M[u].tracer)];
            std::string named = std::string(1, char('0' + lv)) + text;
            t.kept.push_back(named);
            if (t.kept.size() > t.cap) t.kept.erase(t.kept.begin());
        }
        if (async) {
            L[u]->flush();
            for (size_t k : M[u].sinks) want[k].push_back({"", "\x01" "flush"});
        }
        verify(want, pbt::strf("step %zu", i).c_str());
    }
    for (size_t i = 0; i < L.size(); ++i) compare(i);
    if ((clones || swaps) && uses > 2) src.nontrivial();
    if (clones) src.label("cloned");
    if (swaps) src.label("swapped");
    if (async) src.label("async");
}

PBT_MAIN()
