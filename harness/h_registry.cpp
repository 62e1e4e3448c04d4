// C16: the registry as a map of names; C17: global settings; C18: replacing the registered pool.
#define PERTURB_WRAP
#include "capture.h"
#include "perturb.h"
#include "pools.h"
#include "recsink.h"

#include "learnlog.h"
#include "logger.h"
#include "sinks/null_sink.h"

#include <dirent.h>

using namespace learnlog;
using lib::pool_name;
using pbt::Src;
using pbt::StderrCapture;

namespace {
const char* const LV[] = {"trace", "debug", "info", "warn", "error", "critical", "off"};

// the registry as a new process finds it, without the default logger
void reset_registry() {
    static bool first = true;
    if (first) {
        first = false;
        auto d = get_default_logger();
        REQUIRE(d && d->sinks().size() == 1 && get_logger(d->name()) == d, "the first default logger");
        REQUIRE(d->get_log_level() == level::info && d->get_flush_level() == level::off && !d->is_async(), "the first default logger");
        size_t n = 0;
        exec_all([&](logger_shr_ptr l) { REQUIRE(l == d, "another logger at the start"); ++n; });
        REQUIRE(n == 1, "%zu loggers at the start", n);
        REQUIRE(!get_thread_pool(), "a thread pool at the start");
    }
    learnlog::close();
    set_global_pattern("%+");
    set_global_log_level(level::info);
    set_global_flush_level(level::off);
    set_auto_register_logger(true);
}
struct Clean {
    ~Clean() { learnlog::close(); set_auto_register_logger(true); }
};
std::shared_ptr<rec::Sink> rec_of(const logger_shr_ptr& l, size_t i = 0) { return std::static_pointer_cast<rec::Sink>(l->sinks().at(i)); }
}   // namespace

// ------------------------------------------------------------------ C16

PROPERTY(names) {
    StderrCapture cap;
    Clean clean;
    reset_registry();
    cap.take();
    static const char* const NAMES[] = {"a", "b", "", "default_logger", "long name with spaces {} %v \xc3\xa9 0123456789012345678901234567890123456789", "c"};
    constexpr size_t NN = 6;
    auto pool = std::make_shared<base::lock_thread_pool>(64, 1);
    std::map<std::string, logger_shr_ptr> M;
    logger_shr_ptr def;
    bool auto_reg = true;
    std::vector<logger_shr_ptr> known;      // every logger made, registered or not
    size_t n = src.small_size(1, 60), refused = 0, removed = 0, made = 0;
    for (size_t step = 0; step < n; ++step) {
        std::string name = NAMES[src.below(NN)];
        size_t op = src.weighted({5, 3, 3, 3, 4, 2, 2, 2, 1, 3, 2, 2});
        size_t reports = 0;
        std::string what;
        auto fresh = [&]() -> logger_shr_ptr {
            logger_shr_ptr l;
            auto s = std::make_shared<rec::Sink>();
            if (src.chance(1, 4)) l = std::make_shared<async_logger>(name, s, pool);
            else l = std::make_shared<logger>(name, s);
            known.push_back(l);
            ++made;
            return l;
        };
        auto add = [&](const logger_shr_ptr& l) {
            if (M.count(l->name())) { ++reports; ++refused; }
            else M[l->name()] = l;
        };
        switch (op) {
            case 0: {
                what = "create " + name;
                src.note(what);
                auto l = create<rec::Sink>(name);
                REQUIRE(l && l->name() == name && l->sinks().size() == 1, "create() gave another logger");
                known.push_back(l);
                ++made;
                if (auto_reg) add(l);
                break;
            }
            case 1: {
                auto l = fresh();
                what = "initialize " + name;
                src.note(what);
                initialize_logger(l);
                if (auto_reg) add(l);
                break;
            }
            case 2: {
                auto l = fresh();
                what = "register " + name;
                src.note(what);
                register_logger(l);
                add(l);
                break;
            }
            case 3: {
                if (known.empty()) break;
                auto l = known[src.below(known.size())];
                what = "register again " + l->name();
                src.note(what);
                register_logger(l);
                add(l);
                break;
            }
            case 4:
                what = "remove " + name;
                src.note(what);
                remove_logger(name);
                if (M.erase(name)) ++removed;
                if (def && def->name() == name) def.reset();
                break;
            case 5: {
                auto l = fresh();
                what = "default = new " + name;
                src.note(what);
                set_default_logger(l);
                def = l;
                M[name] = l;
                break;
            }
            case 6: {
                if (src.chance(1, 6)) {     // no default logger from here on; the names stay
                    what = "no default logger";
                    src.note(what);
                    set_default_logger(nullptr);
                    def.reset();
                    break;
                }
                if (known.empty()) break;
                auto l = known[src.below(known.size())];
                what = "default = known " + l->name();
                src.note(what);
                set_default_logger(l);
                def = l;
                M[l->name()] = l;
                break;
            }
            case 7:
                auto_reg = src.flip();
                what = auto_reg ? "auto registration on" : "auto registration off";
                src.note(what);
                set_auto_register_logger(auto_reg);
                break;
            case 8:
                what = "remove all";
                src.note(what);
                remove_all();
                M.clear();
                def.reset();
                break;
            case 9: {   // by name
                what = "set by name " + name;
                src.note(what);
                auto it = M.find(name);
                if (it == M.end()) ++reports;
                std::vector<std::pair<int, std::string>> before;
                for (auto& l : known) before.push_back({int(l->get_log_level()) * 10 + int(l->get_flush_level()), l->get_pattern()});
                int lv = int(src.below(7));
                size_t k = src.below(3);
                if (k == 0) set_log_level(name, level::level_enum(lv));
                else if (k == 1) set_flush_level(name, level::level_enum(lv));
                else set_pattern(name, pbt::strf("%d%%v", lv));
                for (size_t i = 0; i < known.size(); ++i) {
                    auto b = before[i];
                    if (it != M.end() && known[i] == it->second) {
                        if (k == 0) b.first = lv * 10 + b.first % 10;
                        else if (k == 1) b.first = b.first / 10 * 10 + lv;
                        else b.second = pbt::strf("%d%%v", lv);
                    }
                    REQUIRE(int(known[i]->get_log_level()) * 10 + int(known[i]->get_flush_level()) == b.first && known[i]->get_pattern() == b.second,
                            "%s changed logger %zu (%s) otherwise than asked", what.c_str(), i, known[i]->name().c_str());
                }
                break;
            }
            case 10: {
                what = "flush all";
                src.note(what);
                for (auto& l : known) rec_of(l)->take();
                flush_all();
                for (auto& l : known) {
                    size_t want = 0;
                    for (auto& m : M) want += m.second == l;
                    auto ev = rec_of(l)->take();
                    REQUIRE(ev.size() == want && (ev.empty() || ev[0].flush), "flush_all: %zu events at %s, want %zu", ev.size(), l->name().c_str(), want);
                }
                break;
            }
            default: {
                if (!def || def->is_async()) break;
                what = "log through the default logger";
                src.note(what);
                for (auto& l : known) rec_of(l)->take();
                learnlog::critical("text {}", step);
                for (auto& l : known) {
                    auto ev = rec_of(l)->take();
                    size_t texts = 0;
                    for (auto& e : ev) texts += !e.flush;
                    REQUIRE(texts == (l == def && def->get_log_level() <= level::critical ? 1u : 0u), "%zu messages at %s", texts, l->name().c_str());
                }
            }
        }
        auto r = cap.take();
        REQUIRE(r.size() == reports, "%s: %zu reports, want %zu", what.c_str(), r.size(), reports);
        if (reports) REQUIRE(r[0].text.find(what == "remove all" ? "?" : "learnlog") != std::string::npos, "report %s", pbt::quote(r[0].text).c_str());
        for (const char* nm : NAMES) {
            auto it = M.find(nm);
            auto got = get_logger(nm);
            REQUIRE(got == (it == M.end() ? nullptr : it->second), "after %s: get_logger(%s) finds %s", what.c_str(), nm,
                    !got ? "nothing" : it == M.end() ? "a logger" : "another logger");
        }
        REQUIRE(get_logger("no such name") == nullptr, "a logger under an unused name");
        REQUIRE(get_default_logger() == def, "after %s: another default logger", what.c_str());
        std::map<logger_shr_ptr, size_t> all;
        exec_all([&](logger_shr_ptr l) { ++all[l]; });
        REQUIRE(all.size() == M.size(), "after %s: exec_all reaches %zu loggers, want %zu", what.c_str(), all.size(), M.size());
        for (auto& m : M) REQUIRE(all[m.second] == 1, "after %s: exec_all reaches %s %zu times", what.c_str(), m.first.c_str(), all[m.second]);
    }
    if (refused && made > 2) src.nontrivial();
    if (removed) src.label("removed");
}

// several threads at once
PROPERTY(threads) {
    StderrCapture cap;
    Clean clean;
    reset_registry();
    cap.take();
    size_t nt = src.size(2, 5), per = src.size(2, 60);
    std::vector<uint64_t> seeds;
    for (size_t t = 0; t < nt; ++t) seeds.push_back(src.below(1u << 30));
    perturb::Scope scope(src.below(1u << 20), src.pick({0u, 20u, 150u}), 100);
    // own names, as if alone; and contended names, where each registration has one winner
    size_t contended = src.size(1, 8);
    std::vector<std::vector<logger_shr_ptr>> tried(nt);
    for (size_t t = 0; t < nt; ++t)
        for (size_t c = 0; c < contended; ++c)
            tried[t].push_back(std::make_shared<logger>(pbt::strf("shared%zu", c), std::make_shared<sinks::null_sink_mt>()));
    std::atomic<bool> go{false};
    std::atomic<size_t> own_refused{0};
    std::vector<std::string> errs(nt);
    std::vector<std::map<std::string, logger_shr_ptr>> model(nt);
    std::vector<std::thread> th;
    for (size_t t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            pbt::Rng rng(seeds[t]);
            while (!go) sched_yield();
            auto& M = model[t];
            auto name_of = [&](size_t k) { return pbt::strf("t%zu.%zu", t, k); };
            try {
                for (size_t i = 0; i < per; ++i) {
                    if (i < contended) {
                        size_t c = (i + t) % contended;
                        register_logger(tried[t][c]);
                        auto got = get_logger(tried[t][c]->name());
                        REQUIRE(got && got->name() == tried[t][c]->name(), "a shared name finds nothing after registration");
                    }
                    std::string nm = name_of(rng.below(4));
                    switch (rng.below(6)) {
                        case 0: {
                            auto l = create<sinks::null_sink_mt>(nm);
                            if (M.count(nm)) ++own_refused;
                            else M[nm] = l;
                            break;
                        }
                        case 1: remove_logger(nm); M.erase(nm); break;
                        case 2: {
                            auto l = std::make_shared<logger>(nm);
                            register_logger(l);
                            if (M.count(nm)) ++own_refused;
                            else M[nm] = l;
                            break;
                        }
                        case 3: {
                            std::set<std::string> seen;
                            size_t own = 0;
                            exec_all([&](logger_shr_ptr l) {
                                if (!seen.insert(l->name()).second) own = 1000;
                                if (l->name().compare(0, 2, name_of(0).substr(0, 2)) == 0) ++own;
                            });
                            REQUIRE(own == M.size(), "exec_all saw %zu own loggers, want %zu", own, M.size());
                            break;
                        }
                        case 4: if (rng.below(4) == 0) flush_all(); break;
                        default: if (rng.below(4) == 0) { auto d = get_default_logger(); (void)d; } break;
                    }
                    for (size_t k = 0; k < 4; ++k) {
                        auto it = M.find(name_of(k));
                        REQUIRE(get_logger(name_of(k)) == (it == M.end() ? nullptr : it->second), "get_logger of an own name");
                    }
                }
            }
            catch (const pbt::Failure& f) { errs[t] = f.msg; }
        });
    go = true;
    for (auto& t : th) t.join();
    for (auto& e : errs)
        if (!e.empty()) pbt::fail("%s", e.c_str());
    std::map<std::string, size_t> tries;
    for (size_t t = 0; t < nt; ++t)
        for (size_t i = 0; i < per && i < contended; ++i) ++tries[tried[t][(i + t) % contended]->name()];
    size_t want_reports = own_refused, want_all = 0;
    for (auto& x : tries) {
        want_reports += x.second - 1;
        ++want_all;
        auto got = get_logger(x.first);
        bool one = false;
        for (auto& v : tried)
            for (auto& l : v) one |= l == got;
        REQUIRE(got && one, "%s finds no logger that was registered", x.first.c_str());
    }
    for (auto& M : model) want_all += M.size();
    auto r = cap.take();
    REQUIRE(r.size() == want_reports, "%zu reports, want %zu", r.size(), want_reports);
    size_t all = 0;
    exec_all([&](logger_shr_ptr) { ++all; });
    REQUIRE(all == want_all, "%zu loggers at the end, want %zu", all, want_all);
    src.note(pbt::strf("%zu threads x %zu steps, %zu contended names, %zu refusals", nt, per, contended, want_reports));
    if (want_reports) src.nontrivial();
}

// ------------------------------------------------------------------ C17

namespace {
struct TagFormatter : sinks::formatter {
    std::string tag;
    explicit TagFormatter(std::string t) : tag(std::move(t)) {}
    void format(const base::log_msg& m, fmt_memory_buf& b) override {
        std::string s = tag + lib::str(m.msg) + "\n";
        b.append(s.data(), s.data() + s.size());
    }
    formatter_uni_ptr clone() const override { return learnlog::make_unique<TagFormatter>(tag); }
};
struct SL {
    logger_shr_ptr l;
    std::string name, pattern = "%+", tag = "?";     // tag "?": the full default format
    int level = 2, flush = 6;
    bool reg = false, async = false;
    size_t nsinks = 1;
};
}

PROPERTY(settings) {
    StderrCapture cap;
    Clean clean;
    reset_registry();
    cap.take();
    auto pool = std::make_shared<base::lock_thread_pool>(64, 1);
    std::vector<SL> L;
    std::string gpat = "%+", gtag = "?";
    int glevel = 2, gflush = 6;
    bool auto_reg = true;
    size_t n = src.small_size(1, 50), globals = 0, seq = 0;

    // what a logger writes shows the setting in force
    auto use = [&](SL& m) {
        int lv = int(src.below(6));
        std::string text = pbt::strf("text%zu", seq++);
        m.l->log(level::level_enum(lv), text);
        bool written = lv >= m.level;
        if (m.async) { m.l->flush(); }
        for (size_t k = 0; k < m.nsinks; ++k) {
            auto ev = rec_of(m.l, k)->take();
            size_t want = written ? 1 + (lv >= m.flush) : 0;
            if (m.async) ++want;
            REQUIRE(ev.size() == want, "logger %s at level %d, flush level %d: %zu events for a message of level %d, want %zu", m.name.c_str(),
                    m.level, m.flush, ev.size(), lv, want);
            if (!written) continue;
            if (m.tag == "?") REQUIRE(ev[0].rendered.find(text) != std::string::npos && ev[0].rendered.find(LV[lv]) != std::string::npos,
                                      "logger %s writes %s instead of the default format", m.name.c_str(), pbt::quote(ev[0].rendered).c_str());
            else pbt::require_eq_str(ev[0].rendered, m.tag + text + "\n", ("output of " + m.name).c_str());
            for (size_t j = 1; j < ev.size(); ++j) REQUIRE(ev[j].flush, "two messages for one");
        }
        REQUIRE(int(m.l->get_log_level()) == m.level, "%s reports log level %d, want %d", m.name.c_str(), m.l->get_log_level(), m.level);
        REQUIRE(int(m.l->get_flush_level()) == m.flush, "%s reports flush level %d, want %d", m.name.c_str(), m.l->get_flush_level(), m.flush);
        REQUIRE(m.l->get_pattern() == m.pattern, "%s reports pattern %s, want %s", m.name.c_str(), pbt::quote(m.l->get_pattern()).c_str(),
                pbt::quote(m.pattern).c_str());
    };
    auto taken = [&](const std::string& nm) {
        for (auto& m : L)
            if (m.reg && m.name == nm) return true;
        return false;
    };
    auto gen_pat = [&](std::string& tag) {
        tag = src.ascii(1 + src.below(6), "%") + pbt::strf(":%zu:", seq++);
        return tag + "%v";
    };
    for (size_t step = 0; step < n; ++step) {
        size_t op = src.weighted({5, 3, 3, 3, 3, 2, 2, 2, 1, 1, 2});
        switch (op) {
            case 0: {   // initialize a new one
                if (L.size() >= 9) break;
                SL m;
                m.name = pbt::strf("l%zu", src.below(6));
                m.nsinks = src.chance(1, 20) ? src.pick<size_t>({9, 17, 33}) : src.size(1, 3);
                std::vector<sink_shr_ptr> p;
                for (size_t k = 0; k < m.nsinks; ++k) {
                    auto s = std::make_shared<rec::Sink>();
                    s->render = true;
                    p.push_back(s);
                }
                m.async = src.chance(1, 5);
                size_t how = src.below(4);
                if (how == 3 && !m.async && m.nsinks == 1) {
                    m.l = create<rec::Sink>(m.name);
                    rec_of(m.l)->render = true;
                }
                else {
                    if (m.async) m.l = std::make_shared<async_logger>(m.name, p.begin(), p.end(), pool);
                    else m.l = std::make_shared<logger>(m.name, p.begin(), p.end());
                    if (src.chance(1, 4)) {     // settings of its own, replaced by initializing
                        m.pattern = gen_pat(m.tag);
                        m.l->set_pattern(m.pattern);
                        m.level = int(src.below(6));
                        m.l->set_log_level(level::level_enum(m.level));
                    }
                    if (how == 2) register_logger(m.l);     // keeps what it had
                    else initialize_logger(m.l);
                    if (how == 2) {
                        m.reg = !taken(m.name);
                        src.note("register " + m.name);
                        L.push_back(m);
                        break;
                    }
                }
                src.note("initialize " + m.name);
                m.pattern = gpat;
                m.tag = gtag;
                m.level = glevel;
                m.flush = gflush;
                m.reg = auto_reg && !taken(m.name);
                L.push_back(m);
                break;
            }
            case 1: {
                std::string tag, p = gen_pat(tag);
                src.note("global pattern " + p);
                set_global_pattern(p);
                gpat = p;
                gtag = tag;
                ++globals;
                for (auto& m : L) if (m.reg) { m.pattern = p; m.tag = tag; }
                break;
            }
            case 2: {
                std::string tag = pbt::strf("F%zu>", seq++);
                src.note("global formatter " + tag);
                set_global_formatter(learnlog::make_unique<TagFormatter>(tag));
                gtag = tag;
                ++globals;
                for (auto& m : L) if (m.reg) m.tag = tag;
                break;
            }
            case 3:
                glevel = int(src.below(7));
                src.note(std::string("global log level ") + LV[glevel]);
                set_global_log_level(level::level_enum(glevel));
                ++globals;
                for (auto& m : L) if (m.reg) m.level = glevel;
                break;
            case 4:
                gflush = int(src.below(7));
                src.note(std::string("global flush level ") + LV[gflush]);
                set_global_flush_level(level::level_enum(gflush));
                ++globals;
                for (auto& m : L) if (m.reg) m.flush = gflush;
                break;
            case 5: {
                if (L.empty()) break;
                SL& m = L[src.below(L.size())];
                if (!m.reg) break;
                m.pattern = gen_pat(m.tag);
                src.note("pattern of " + m.name + " " + m.pattern);
                set_pattern(m.name, m.pattern);
                break;
            }
            case 6: {
                if (L.empty()) break;
                SL& m = L[src.below(L.size())];
                if (!m.reg) break;
                int lv = int(src.below(7));
                src.note("level of " + m.name);
                if (src.flip()) { set_log_level(m.name, level::level_enum(lv)); m.level = lv; }
                else { set_flush_level(m.name, level::level_enum(lv)); m.flush = lv; }
                break;
            }
            case 7: {
                if (L.empty()) break;
                SL& m = L[src.below(L.size())];
                if (!m.reg) break;
                src.note("remove " + m.name);
                remove_logger(m.name);
                m.reg = false;
                break;
            }
            case 8: auto_reg = src.flip(); set_auto_register_logger(auto_reg); break;
            case 9: {       // the default logger counts as registered
                if (L.empty()) break;
                SL& m = L[src.below(L.size())];
                src.note("default " + m.name);
                set_default_logger(m.l);
                for (auto& x : L) if (x.name == m.name) x.reg = false;
                m.reg = true;
                break;
            }
            default: {
                if (L.empty()) break;
                SL& m = L[src.below(L.size())];
                m.pattern = gen_pat(m.tag);
                m.l->set_pattern(m.pattern);
            }
        }
        for (auto& m : L) use(m);
    }
    if (globals >= 2 && L.size() >= 2) src.nontrivial();
}

// settings made by several threads at once, while others make, use and remove loggers
PROPERTY(settings_threads) {
    StderrCapture cap;
    Clean clean;
    reset_registry();
    cap.take();
    size_t nt = src.size(2, 5), per = src.size(2, 60);
    bool globals = src.chance(2, 3);    // without them every thread sees exactly its own settings
    std::vector<uint64_t> seeds;
    for (size_t t = 0; t < nt; ++t) seeds.push_back(src.below(1u << 30));
    perturb::Scope scope(src.below(1u << 20), src.pick({0u, 20u, 150u}), 100);
    src.note(pbt::strf("%zu threads x %zu steps, %s global settings", nt, per, globals ? "with" : "without"));
    std::atomic<bool> go{false};
    std::atomic<size_t> unknown{0}, made{0}, sets{0};
    std::vector<std::string> errs(nt);
    std::vector<std::thread> th;
    for (size_t t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            pbt::Rng rng(seeds[t]);
            struct Own { logger_shr_ptr l; int level = 2, flush = 6; std::string pattern = "%+"; };
            std::map<std::string, Own> M;
            while (!go) sched_yield();
            try {
                for (size_t i = 0; i < per; ++i) {
                    std::string nm = pbt::strf("t%zu.%zu", t, size_t(rng.below(3)));
                    int lv = int(rng.below(7));
                    auto it = M.find(nm);
                    switch (rng.below(globals ? 9 : 5)) {
                        case 0:
                            if (it != M.end()) { remove_logger(nm); M.erase(it); break; }
                            /* fallthrough */
                        case 1: {
                            if (it != M.end()) break;
                            Own o;
                            if (rng.below(2)) o.l = create<rec::Sink>(nm);
                            else {
                                o.l = std::make_shared<logger>(nm, std::make_shared<rec::Sink>());
                                initialize_logger(o.l);
                            }
                            rec_of(o.l)->render = true;
                            M[nm] = o;
                            ++made;
                            break;
                        }
                        case 2:
                            set_log_level(nm, level::level_enum(lv));
                            if (it == M.end()) ++unknown; else it->second.level = lv;
                            break;
                        case 3:
                            set_flush_level(nm, level::level_enum(lv));
                            if (it == M.end()) ++unknown; else it->second.flush = lv;
                            break;
                        case 4: {
                            if (globals && it != M.end()) break;    // the pattern itself is not to be read while it changes
                            std::string p = pbt::strf("<%zu.%zu>%%v", t, i);
                            set_pattern(nm, p);
                            if (it == M.end()) ++unknown; else it->second.pattern = p;
                            break;
                        }
                        case 5: set_global_log_level(level::level_enum(lv)); ++sets; break;
                        case 6: set_global_flush_level(level::level_enum(lv)); ++sets; break;
                        case 7: set_global_pattern(pbt::strf("[%zu.%zu]%%v", t, i)); ++sets; break;
                        default: set_global_formatter(learnlog::make_unique<TagFormatter>(pbt::strf("F%zu.%zu>", t, i))); ++sets; break;
                    }
                    for (auto& m : M) {
                        Own& o = m.second;
                        if (globals) {
#ifndef PBT_TSAN    // levels may be read while they are set; the library does not call that synchronised
                            if (rng.below(4) == 0) { o.l->critical("x"); rec_of(o.l)->take(); }
#endif
                            continue;
                        }
                        REQUIRE(int(o.l->get_log_level()) == o.level, "%s reports log level %d, want %d", m.first.c_str(), int(o.l->get_log_level()), o.level);
                        REQUIRE(int(o.l->get_flush_level()) == o.flush, "%s reports flush level %d, want %d", m.first.c_str(), int(o.l->get_flush_level()), o.flush);
                        REQUIRE(o.l->get_pattern() == o.pattern, "%s reports pattern %s, want %s", m.first.c_str(), o.l->get_pattern().c_str(), o.pattern.c_str());
                        if (o.pattern != "%+" && o.level <= 5) {
                            o.l->critical("x");
                            auto ev = rec_of(o.l)->take();
                            REQUIRE(!ev.empty() && ev[0].rendered == o.pattern.substr(0, o.pattern.size() - 2) + "x\n", "%s writes %s", m.first.c_str(),
                                    ev.empty() ? "nothing" : pbt::quote(ev[0].rendered).c_str());
                        }
                    }
                }
            }
            catch (const pbt::Failure& f) { errs[t] = f.msg; }
        });
    go = true;
    for (auto& t : th) t.join();
    for (auto& e : errs)
        if (!e.empty()) pbt::fail("%s", e.c_str());
    auto r = cap.take();
    REQUIRE(r.size() == unknown, "%zu reports, want %zu", r.size(), size_t(unknown));
    if (globals) {
        // a setting made now covers all; a logger made now shows what is global
        auto show = [](const logger_shr_ptr& l) {
            l->set_log_level(level::trace);
            rec_of(l)->take();
            l->info("x");
            auto ev = rec_of(l)->take();
            return ev.empty() ? std::string("nothing") : ev[0].rendered;
        };
        auto probe = create<rec::Sink>("probe");
        rec_of(probe)->render = true;
        // which of the settings by name came after the global ones is not known, so only the pattern is compared, which nobody set by name
        std::string pat = probe->get_pattern(), out = show(probe);
        std::vector<logger_shr_ptr> all;
        exec_all([&](logger_shr_ptr l) { all.push_back(l); });
        for (auto& l : all) {
            REQUIRE(l->get_pattern() == pat, "%s has pattern %s, the global one is %s", l->name().c_str(), l->get_pattern().c_str(), pat.c_str());
            std::string got = show(l);
            if (out.size() < 20) REQUIRE(got == out, "%s writes %s, a new logger %s", l->name().c_str(), pbt::quote(got).c_str(), pbt::quote(out).c_str());
            else REQUIRE(got.size() >= 20, "%s writes %s, a new logger %s", l->name().c_str(), pbt::quote(got).c_str(), pbt::quote(out).c_str());
        }
        set_global_log_level(level::error);
        set_global_flush_level(level::critical);
        for (auto& l : all)
            REQUIRE(l->get_log_level() == level::error && l->get_flush_level() == level::critical, "%s is not covered by a global level", l->name().c_str());
        if (all.size() > 2 && sets > 2) src.nontrivial("global settings at once");
    }
    else if (made > 2) src.nontrivial("settings by name at once");
}

// ------------------------------------------------------------------ C18

namespace {
// a sink that is slower than the producers
struct SlowSink : rec::Sink {
    static std::atomic<unsigned>& us() { static std::atomic<unsigned> u{0}; return u; }
    void output_(const base::log_msg& m) override {
        if (us()) perturb::raw_sleep_us(us());
        rec::Sink::output_(m);
    }
};
struct MPool {
    thread_pool_shr_ptr held;       // a reference kept by the user
    std::weak_ptr<base::thread_pool> weak;
    size_t kind = 1, q = 0, n = 1;
    bool alive = true;
};
struct ML {
    logger_shr_ptr l;
    std::shared_ptr<rec::Sink> s;
    std::string name;
    size_t pool = 0;                // index + 1; 0 for a sync one
    std::vector<std::string> sent;
    bool reg = false;
};
size_t thread_count() {
    size_t n = 0;
    if (DIR* d = opendir("/proc/self/task")) {
        while (dirent* e = readdir(d)) n += e->d_name[0] != '.';
        closedir(d);
    }
    return n;
}
}

PROPERTY(pools) {
    StderrCapture cap;
    Clean clean;
    reset_registry();
    cap.take();
    SlowSink::us() = src.pick({0u, 0u, 50u, 300u});
    std::vector<MPool> P;
    std::vector<ML> L;
    size_t reg = 0;         // index + 1 of the registered pool
    size_t def = 0;         // index + 1 of the default logger
    size_t n = src.small_size(1, 40), switches = 0, pending = 0, seq = 0, dead = 0;
    auto check_drained = [&](size_t p, const char* what) {
        for (auto& m : L) {
            if (m.pool != p) continue;
            std::vector<std::string> got;
            for (auto& e : m.s->take()) if (!e.flush) got.push_back(e.text);
            if (got.size() < m.sent.size()) pbt::fail("%s: %zu of %zu messages of %s were delivered", what, got.size(), m.sent.size(), m.name.c_str());
            REQUIRE(got.size() == m.sent.size(), "%s: %zu messages instead of %zu at %s", what, got.size(), m.sent.size(), m.name.c_str());
            if (P[p - 1].n == 1 || P[p - 1].kind == 3) REQUIRE(got == m.sent, "%s: messages of %s in another order", what, m.name.c_str());
            else {
                std::sort(got.begin(), got.end());
                std::sort(m.sent.begin(), m.sent.end());
                REQUIRE(got == m.sent, "%s: other messages at %s", what, m.name.c_str());
            }
            m.sent.clear();
        }
    };
    // after a pool was replaced or let go
    auto released = [&](size_t p, const char* what) {
        if (!p || p == reg || P[p - 1].held || !P[p - 1].alive) return;
        P[p - 1].alive = false;
        REQUIRE(P[p - 1].weak.expired(), "%s: the pool is still alive", what);
        check_drained(p, what);
    };
    auto replaced = [&](size_t np, const char* what) {
        size_t old = reg;
        reg = np;
        ++switches;
        for (size_t i = 0; i < L.size(); ++i) {
            if (!L[i].pool) continue;
            if (L[i].reg && !L[i].sent.empty()) ++pending;
            L[i].reg = false;
            if (def == i + 1) def = 0;
        }
        released(old, what);
    };
    auto verify = [&](const char* what) {
        REQUIRE(get_thread_pool() == (reg ? P[reg - 1].weak.lock() : nullptr), "%s: get_thread_pool() returns another pool", what);
        for (size_t i = 0; i < L.size(); ++i) {
            auto got = get_logger(L[i].name);
            bool other = false;
            for (auto& m : L) other |= m.reg && m.name == L[i].name;
            if (L[i].reg) REQUIRE(got == L[i].l, "%s: %s is not registered any more", what, L[i].name.c_str());
            else if (!other) REQUIRE(!got, "%s: %s is still registered", what, L[i].name.c_str());
        }
        REQUIRE(get_default_logger() == (def ? L[def - 1].l : nullptr), "%s: the default logger is %s", what, get_default_logger() ? "another" : "gone");
    };
    auto learn_pool = [&](const thread_pool_shr_ptr& tp, size_t kind, size_t q, size_t nthreads, const char* what) {
        REQUIRE(tp, "%s: no pool is registered", what);
        REQUIRE(size_t(tp->message_queue_type()) + 1 == kind, "%s: a pool of kind %zu, want %zu", what, size_t(tp->message_queue_type()) + 1, kind);
        REQUIRE(tp->message_queue_size() == q && tp->threads_size() == nthreads, "%s: a pool of %zu/%zu, want %zu/%zu", what,
                tp->message_queue_size(), tp->threads_size(), q, nthreads);
        MPool p;
        p.weak = tp;
        p.kind = kind;
        p.q = q;
        p.n = nthreads;
        P.push_back(p);
        return P.size();
    };
    static const size_t base_threads = thread_count();      // of a process that has no pool yet
    for (size_t step = 0; step < n; ++step) {
        size_t op = src.weighted({2, 3, 6, 2, 8, 2, 1, 1, 1});
        std::string what;
        switch (op) {
            case 0: {
                size_t k = 1 + src.below(3), q = src.pick<size_t>({1, 2, 32, 64, 100}), t = src.size(1, 3);
                what = pbt::strf("initialize a %s pool of %zu/%zu", pool_name(k), q, t);
                src.note(what);
                if (k == 1) initialize_thread_pool<base::lock_thread_pool>(q, t);
                else if (k == 2) initialize_thread_pool<base::lockfree_thread_pool>(q, t);
                else initialize_thread_pool<base::lockfree_concurrent_thread_pool>(q, t);
                size_t np = learn_pool(get_thread_pool(), k, q, t, what.c_str());
                replaced(np, what.c_str());
                break;
            }
            case 1: {
                size_t k = 1 + src.below(3), q = src.pick<size_t>({1, 2, 32, 64, 100}), t = src.size(1, 3);
                bool keep = src.flip();
                what = pbt::strf("register a %s pool of %zu/%zu%s", pool_name(k), q, t, keep ? " and keep it" : "");
                src.note(what);
                auto tp = lib::make_pool(k, q, t);
                auto raw = tp.get();
                if (keep) register_thread_pool(tp);
                else register_thread_pool(std::move(tp));
                REQUIRE(get_thread_pool().get() == raw, "%s: another pool is registered", what.c_str());
                size_t np = learn_pool(get_thread_pool(), k, q, t, what.c_str());
                if (keep) P[np - 1].held = get_thread_pool();
                tp.reset();
                replaced(np, what.c_str());
                break;
            }
            case 2: {
                if (L.size() >= 10) break;
                size_t k = 1 + src.below(3);
                std::string name = pbt::strf("async%zu", src.chance(1, 6) ? src.below(L.size() + 1) : 100 + seq++);
                what = pbt::strf("create %s (%s)", name.c_str(), pool_name(k));
                src.note(what);
                ML m;
                m.name = name;
                bool slow = SlowSink::us() && src.flip();
                async_logger_shr_ptr l;
                if (slow) {
                    if (k == 1) l = create_async_lock<SlowSink>(name);
                    else if (k == 2) l = create_async_lockfree<SlowSink>(name);
                    else l = create_async_lockfree_concurrent<SlowSink>(name);
                }
                else {
                    if (k == 1) l = create_async_lock<rec::Sink>(name);
                    else if (k == 2) l = create_async_lockfree<rec::Sink>(name);
                    else l = create_async_lockfree_concurrent<rec::Sink>(name);
                }
                REQUIRE(l && l->is_async() && l->sinks().size() == 1, "%s: not such a logger", what.c_str());
                m.l = l;
                m.s = rec_of(m.l);
                if (!reg) {
                    size_t np = learn_pool(get_thread_pool(), k, 8192, 1, what.c_str());
                    replaced(np, what.c_str());
                }
                else if (P[reg - 1].kind != k) {
                    size_t np = learn_pool(get_thread_pool(), k, P[reg - 1].q, P[reg - 1].n, what.c_str());
                    replaced(np, what.c_str());
                }
                m.pool = reg;
                m.reg = true;
                for (auto& x : L) if (x.reg && x.name == name) m.reg = false;
                L.push_back(m);
                cap.take();
                break;
            }
            case 3: {
                if (L.size() >= 10) break;
                ML m;
                m.name = pbt::strf("sync%zu", seq++);
                what = "create " + m.name;
                src.note(what);
                m.l = create<rec::Sink>(m.name);
                m.s = rec_of(m.l);
                m.reg = true;
                L.push_back(m);
                break;
            }
            case 4: {
                if (L.empty()) break;
                ML& m = L[src.below(L.size())];
                size_t c = src.size(1, SlowSink::us() ? 8 : 40);
                what = pbt::strf("log %zu through %s", c, m.name.c_str());
                src.note(what);
                bool gone = m.pool && !P[m.pool - 1].alive;
                cap.take();
                for (size_t i = 0; i < c; ++i) {
                    std::string t = pbt::strf("%s/%zu", m.name.c_str(), seq++);
                    m.l->info(t);
                    if (!gone) m.sent.push_back(t);
                }
                auto r = cap.take();
                REQUIRE(r.size() == (gone ? c : 0), "%s: %zu reports", what.c_str(), r.size());
                if (gone) {
                    ++dead;
                    REQUIRE(m.s->count() == 0, "%s: a message of a logger without a pool was written", what.c_str());
                }
                if (!m.pool) {
                    std::vector<std::string> got;
                    for (auto& e : m.s->take()) if (!e.flush) got.push_back(e.text);
                    REQUIRE(got == m.sent, "%s: %zu messages written", what.c_str(), got.size());
                    m.sent.clear();
                }
                break;
            }
            case 5: {   // let go of a pool
                if (P.empty()) break;
                size_t p = 1 + src.below(P.size());
                if (!P[p - 1].held) break;
                what = pbt::strf("let go of pool %zu", p);
                src.note(what);
                P[p - 1].held.reset();
                released(p, what.c_str());
                break;
            }
            case 6: {
                if (L.empty()) break;
                size_t i = src.below(L.size());
                what = "default = " + L[i].name;
                src.note(what);
                set_default_logger(L[i].l);
                for (auto& x : L) if (x.name == L[i].name) x.reg = false;
                L[i].reg = true;
                def = i + 1;
                break;
            }
            case 7: {
                what = "close";
                src.note(what);
                if (src.flip()) flush_every(std::chrono::hours(1));
                cap.take();
                learnlog::close();
                for (auto& m : L) m.reg = false;
                def = 0;
                size_t old = reg;
                reg = 0;
                ++switches;
                released(old, "close");
                REQUIRE(cap.take().empty(), "close() reported something");
                bool held = false;
                for (auto& p : P) held |= p.held != nullptr;
                // a thread that was joined may stay in /proc for a moment
                if (!held) for (int i = 0; i < 10000 && thread_count() != base_threads; ++i) perturb::raw_sleep_us(1000);
                if (!held) REQUIRE(thread_count() == base_threads, "close() left %zu threads", thread_count() - base_threads);
                size_t left = 0;
                exec_all([&](logger_shr_ptr) { ++left; });
                REQUIRE(!left, "close() left %zu loggers", left);
                break;
            }
            default: {
                if (L.empty()) break;
                ML& m = L[src.below(L.size())];
                if (m.pool && !P[m.pool - 1].alive) break;
                what = "flush " + m.name;
                src.note(what);
                m.l->flush();
            }
        }
        verify(what.c_str());
    }
    for (auto& p : P) p.held.reset();
    learnlog::close();
    size_t old = reg;
    reg = 0;
    for (size_t p = 1; p <= P.size(); ++p) released(p, "at the end");
    (void)old;
    SlowSink::us() = 0;
    if (switches >= 2 && pending) src.nontrivial();
    if (dead) src.label("logging without a pool");
}

// factories of several sink types at once
namespace {
template <int N>
struct TSink : rec::Sink {};
}
PROPERTY(factories) {
    StderrCapture cap;
    Clean clean;
    reset_registry();
    cap.take();
    size_t k = 1 + src.below(3), nt = src.size(2, 6), per = src.size(1, 4);
    bool with_pool = src.chance(1, 3);
    if (with_pool) register_thread_pool(lib::make_pool(k, src.pick<size_t>({1, 64}), src.size(1, 2)));
    perturb::Scope scope(src.below(1u << 20), src.pick({50u, 200u, 0u}), 300);
    std::atomic<size_t> ready{0};
    std::vector<std::vector<logger_shr_ptr>> made(nt);
    std::vector<std::thread> th;
    for (size_t t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            ++ready;
            while (ready < nt) {}
            for (size_t i = 0; i < per; ++i) {
                std::string nm = pbt::strf("t%zu.%zu", t, i);
                logger_shr_ptr l;
#define MAKE(S) (k == 1 ? create_async_lock<S>(nm) : k == 2 ? create_async_lockfree<S>(nm) : create_async_lockfree_concurrent<S>(nm))
                switch (t % 3) {
                    case 0: l = MAKE(TSink<0>); break;
                    case 1: l = MAKE(TSink<1>); break;
                    default: l = MAKE(TSink<2>); break;
                }
                made[t].push_back(l);
                l->info("m");
            }
        });
    for (auto& t : th) t.join();
    auto pool = get_thread_pool();
    REQUIRE(pool && size_t(pool->message_queue_type()) + 1 == k, "no such pool is registered");
    pool.reset();
    std::vector<std::shared_ptr<rec::Sink>> S;
    for (size_t t = 0; t < nt; ++t)
        for (size_t i = 0; i < per; ++i) {
            auto& l = made[t][i];
            REQUIRE(get_logger(l->name()) == l, "%s is not registered", l->name().c_str());
            l->info("again");
            S.push_back(rec_of(l));
        }
    made.clear();
    learnlog::close();
    auto r = cap.take();
    REQUIRE(r.empty(), "%zu reports, the first: %s", r.size(), r[0].text.c_str());
    for (auto& s : S) {
        auto ev = s->take();
        if (ev.size() == 2 && ev[0].text == "again") std::swap(ev[0], ev[1]);     // logged by two threads
        REQUIRE(ev.size() == 2 && ev[0].text == "m" && ev[1].text == "again", "%zu of 2 messages of a new logger were written", ev.size());
    }
    src.note(pbt::strf("%zu threads x %zu loggers, %s, %s", nt, per, pool_name(k), with_pool ? "with a pool" : "without a pool"));
    if (!with_pool) src.nontrivial();
}

// one thread replaces the registered pool while others ask for it and use it
PROPERTY(pool_threads) {
    StderrCapture cap;
    Clean clean;
    reset_registry();
    cap.take();
    size_t nt = src.size(1, 4), npools = src.size(2, 6), per = src.small_size(1, 40);
    std::vector<size_t> kind, size;
    for (size_t p = 0; p < npools; ++p) {
        kind.push_back(1 + src.below(3));
        size.push_back(src.pick<size_t>({1, 3, 64}));
    }
    bool start = src.flip();
    perturb::Scope scope(src.below(1u << 20), src.pick({50u, 200u, 0u}), 200);
    src.note(pbt::strf("%zu pools replaced while %zu threads x %zu use the registered one, %s at the start", npools, nt, per, start ? "one" : "none"));
    // told apart by address: each pool that was registered is kept until the end
    std::vector<thread_pool_shr_ptr> all;
    for (size_t p = 0; p < npools; ++p) all.push_back(lib::make_pool(kind[p], size[p], 1));
    size_t next = 0;
    if (start) register_thread_pool(all[next++]);
    std::atomic<size_t> floor{next};       // how many were registered for certain
    std::atomic<size_t> begun{next};
    std::vector<std::string> errs(nt);
    std::vector<std::shared_ptr<rec::Sink>> sinks;
    std::vector<size_t> sent(nt, 0);
    for (size_t t = 0; t < nt; ++t) sinks.push_back(std::make_shared<rec::Sink>());
    std::vector<std::thread> th;
    std::atomic<bool> go{false};
    for (size_t t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            while (!go) sched_yield();
            size_t last = 0;
            for (size_t i = 0; i < per || floor < npools; ++i) {
                if (i >= per) sched_yield();
                size_t before = floor;
                auto p = get_thread_pool();
                size_t after = begun;
                size_t at = 0;
                if (p) {
                    while (at < npools && all[at] != p) ++at;
                    if (at == npools) { errs[t] = "a pool that nobody registered"; break; }
                    ++at;
                }
                // a replaced pool goes before the next one comes, so none may be seen while that happens
                if (p ? at < before || at > after : before && before == after) { errs[t] = pbt::strf("pool %zu after %zu and before %zu were registered", at, before, after); break; }
                if (p && at < last) { errs[t] = "an older pool"; break; }
                if (p) last = at;
                if (p && i < per) {
                    auto l = std::make_shared<async_logger>(pbt::strf("t%zu", t), sinks[t], p);
                    l->info("m {}", sent[t]++);
                    if (i % 3 == 0) l->flush();
                }
            }
        });
    go = true;
    for (; next < npools; ++next) {
        perturb::raw_sleep_us(unsigned(src.below(300)));
        begun = next + 1;
        register_thread_pool(all[next]);
        floor = next + 1;
    }
    for (auto& t : th) t.join();
    for (auto& e : errs) REQUIRE(e.empty(), "%s", e.c_str());
    REQUIRE(get_thread_pool() == all.back(), "another pool is registered");
    learnlog::close();
    all.clear();
    auto r = cap.take();
    REQUIRE(r.empty(), "%zu reports, the first: %s", r.size(), r[0].text.c_str());
    for (size_t t = 0; t < nt; ++t) {
        std::vector<bool> had(sent[t], false);
        size_t n = 0;
        for (auto& e : sinks[t]->take()) {
            if (e.flush) continue;
            size_t k = sent[t];
            REQUIRE(::sscanf(e.text.c_str(), "m %zu", &k) == 1 && k < sent[t] && !had[k], "\"%s\" was written", e.text.c_str());
            had[k] = true;
            ++n;
        }
        REQUIRE(n == sent[t], "%zu of %zu messages were written", n, sent[t]);
    }
    if (nt > 1 && npools > 2) src.nontrivial();
}

PBT_MAIN()
