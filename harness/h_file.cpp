// C12: rolling files. C13: basic file sinks.
#include "recsink.h"

#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "learnlog.h"
#include "logger.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"

using namespace learnlog;
using pbt::Src;

namespace {

using Tree = std::map<std::string, std::string>;

void require_tree(const std::string& dir, const Tree& want, const char* what) {
    Tree got;
    pbt::list_tree(dir, "", got);
    for (auto& w : want) {
        auto it = got.find(w.first);
        REQUIRE(it != got.end(), "%s: %s is missing (should hold %zu bytes)", what, w.first.c_str(), w.second.size());
        pbt::require_eq_str(it->second, w.second, (std::string(what) + ": " + w.first).c_str());
    }
    for (auto& g : got)
        REQUIRE(want.count(g.first), "%s: unexpected %s (%zu bytes)", what, g.first.c_str(), g.second.size());
}

size_t open_fds() {
    size_t n = 0;
    if (DIR* d = opendir("/proc/self/fd")) {
        while (readdir(d)) ++n;
        closedir(d);
    }
    return n;
}

struct CaseDir {    // a fresh working directory for one case
    std::string path = pbt::scratch() + "/case";
    CaseDir() {
        pbt::empty_dir(path);
        if (chdir(path.c_str()) != 0) throw pbt::Infra{"chdir"};
    }
    ~CaseDir() {
        if (chdir(pbt::scratch().c_str()) != 0) _exit(pbt::EXIT_INFRA);
    }
};

void add_dirs(Tree& t, const std::string& file) {
    for (size_t i = 0; i < file.size(); ++i)
        if (file[i] == '/') t[file.substr(0, i + 1)];
}

// another spelling of a path: repeated separators, "." components, and ".." back out of a directory that exists
std::string respell(Src& src, const Tree& t, const std::string& cwd, const std::string& path) {
    auto detour = [&](const std::string& dir) -> std::string {      // dir: "" or "a/b/"
        switch (src.weighted({8, 3, 1, 3})) {
            case 0: return "";
            case 1: return "./";
            case 2: return "././";
            default: {
                std::vector<std::string> subs;
                for (auto& e : t)
                    if (e.first.size() > dir.size() && e.first.compare(0, dir.size(), dir) == 0 && e.first.back() == '/' &&
                        e.first.find('/', dir.size()) == e.first.size() - 1)
                        subs.push_back(e.first.substr(dir.size()));
                if (subs.empty()) return "";
                src.label("path with ..");
                return subs[src.below(subs.size())] + "../";
            }
        }
    };
    bool dbl = src.chance(1, 4);
    std::string out, dir;
    if (src.chance(1, 3)) out = cwd + "/";
    out += detour(dir);
    for (char c : path) {
        dir += c;
        out += c;
        if (c == '/') {
            if (dbl) out += '/';
            out += detour(dir);
        }
    }
    return out;
}

std::unique_ptr<sinks::formatter> fmt_of(const std::string& pattern, const std::string& eol) {
    return learnlog::make_unique<sinks::pattern_formatter>(pattern, eol);
}
}   // namespace

// ------------------------------------------------------------------ C12

namespace {
std::string rolled(const std::string& base, size_t n, size_t max_num) {
    size_t slash = base.rfind('/');
    std::string dir = slash == std::string::npos ? "" : base.substr(0, slash + 1);
    std::string file = slash == std::string::npos ? base : base.substr(slash + 1);
    size_t dot = file.rfind('.');
    if (dot == std::string::npos || dot == 0) dot = file.size();
    std::string num = std::to_string(n);
    size_t width = std::to_string(max_num).size();
    while (num.size() < width) num = "0" + num;
    return dir + file.substr(0, dot) + "_" + num + file.substr(dot);
}
}

PROPERTY(rolling) {
    CaseDir cd;
    size_t fds = open_fds();
    Tree t;
    std::string base = src.pick({"log.txt", "log", "d/log.txt", "d/e/log", "a.b/log", "a.b/log.c.txt", ".log", "d/.log", "log.", "x..txt",
                                 "d/e/f/g/very long name with spaces.log", "l\xc3\xb6g.txt"});
    bool absolute = src.chance(1, 3);
    size_t max_num = src.chance(1, 12) ? src.pick({101, 255, 256, 257, 999, 1000, 9999, 10000}) : src.pick({1, 2, 3, 4, 9, 10, 11, 12, 99, 100});
    size_t max_size = 1 + src.below(src.pick({8, 40, 200, 5000}));
    if (src.chance(1, 20)) {        // never reached
        max_size = src.pick({size_t(1) << 31, (size_t(1) << 31) + 1, size_t(1) << 32, (size_t(1) << 32) + src.below(50), size_t(1) << 33, (size_t(1) << 48) + 1,
                             SIZE_MAX / 2, SIZE_MAX - 200000, SIZE_MAX});
        src.label("huge limit");
    }
    bool huge = max_size > 1000000;

    // files already there
    size_t pre = src.below(5);
    bool any_dir = false;
    for (size_t i = 0; i < pre; ++i) {
        std::string f = src.chance(1, 4) ? rolled(base, src.below(max_num + 3), src.pick<size_t>({9, 99, max_num}))
                                         : rolled(base, 1 + src.below(max_num), max_num);
        if (!any_dir) {
            size_t slash = base.rfind('/');
            if (slash != std::string::npos) {
                std::string cmd;
                for (size_t k = 0; k < base.size(); ++k)
                    if (base[k] == '/') mkdir(base.substr(0, k).c_str(), 0755);
                add_dirs(t, base);
            }
            any_dir = true;
        }
        t[f] = "old " + src.ascii(src.below(30));
        pbt::spit(f, t[f]);
    }
    if (src.chance(1, 8) && max_num <= 300) {     // every number taken
        if (!any_dir) {
            for (size_t k = 0; k < base.size(); ++k)
                if (base[k] == '/') mkdir(base.substr(0, k).c_str(), 0755);
            add_dirs(t, base);
        }
        for (size_t k = 1; k <= max_num; ++k) {
            std::string f = rolled(base, k, max_num);
            t[f] = "full";
            pbt::spit(f, t[f]);
        }
        src.label("every number taken");
    }
    src.note(pbt::strf("base %s%s, size limit %zu, file limit %zu, %zu files there", absolute ? "(absolute) " : "", base.c_str(),
                       max_size, max_num, t.size()));

    size_t rolls = 0, over = 0, wrapped = 0, exact = 0;
    size_t sessions = src.size(1, 3);
    for (size_t s = 0; s < sessions; ++s) {
        std::string arg = src.chance(1, 3) ? respell(src, t, cd.path, base) : absolute ? cd.path + "/" + base : base;
        if (s && src.chance(1, 4)) { max_size = 1 + src.below(200); huge = false; }
        if (s && src.chance(1, 4)) max_num = src.pick({1, 2, 5, 9, 10, 30});
        logger_shr_ptr lg;
        bool st = src.flip();
        bool factory = src.flip();
        std::string eol = src.pick({"\n", "", "\r\n"});
        sink_shr_ptr sink;
        if (factory) {
            lg = st ? rolling_file_logger_st("L", arg, max_size, max_num) : rolling_file_logger_mt("L", arg, max_size, max_num);
            sink = lg->sinks()[0];
        }
        else {
            if (st) sink = std::make_shared<sinks::rolling_file_sink_st>(arg, max_size, max_num);
            else sink = std::make_shared<sinks::rolling_file_sink_mt>(arg, max_size, max_num);
            lg = std::make_shared<logger>("L", sink);
        }
        lg->set_formatter(fmt_of("%v", eol));
        lg->set_log_level(level::trace);
        if (st) {
            auto* p = static_cast<sinks::rolling_file_sink_st*>(sink.get());
            REQUIRE(p->base_filename() == arg, "base_filename() is %s", p->base_filename().c_str());
            size_t k = 1 + src.below(max_num);
            REQUIRE(p->get_rolling_filename(k) == rolled(arg, k, max_num), "get_rolling_filename(%zu) is %s", k, p->get_rolling_filename(k).c_str());
        }
        // the model opens
        size_t idx = 1;
        while (idx < max_num && t.count(rolled(base, idx, max_num))) ++idx;
        add_dirs(t, base);
        std::string cur = rolled(base, idx, max_num);
        t[cur] = "";
        size_t n = src.small_size(0, 40);
        bool dirty = false;
        for (size_t i = 0; i < n; ++i) {
            switch (src.weighted({14, 2, 1})) {
                case 0: {
                    size_t len;
                    size_t room = t[cur].size() < max_size ? max_size - t[cur].size() : 0;
                    if (huge) len = src.chance(1, 8) ? src.below(70000) : src.below(300);
                    else switch (src.below(6)) {
                        case 0: len = room >= eol.size() ? room - eol.size() : 0; ++exact; break;    // exactly full
                        case 1: len = room >= eol.size() ? room - eol.size() + 1 : 0; break;         // one too many
                        case 2: len = max_size + src.below(20); break;                               // never fits
                        case 3: len = 0; break;
                        default: len = src.below(max_size + 1); break;
                    }
                    std::string text = rec::text(src, len);
                    lg->log(level::level_enum(src.below(6)), text);
                    std::string line = text + eol;
                    if (t[cur].size() + line.size() > max_size && !t[cur].empty()) {
                        size_t nx = idx;
                        while (nx < max_num && t.count(rolled(base, nx, max_num))) ++nx;
                        if (nx == idx) ++wrapped;
                        idx = nx;
                        cur = rolled(base, idx, max_num);
                        t[cur] = "";
                        ++rolls;
                    }
                    if (line.size() > max_size) ++over;
                    t[cur] += line;
                    dirty = true;
                    break;
                }
                case 1:
                    lg->flush();
                    dirty = false;
                    break;
                default: {      // someone else makes or removes another numbered file
                    std::string f = rolled(base, 1 + src.below(max_num), max_num);
                    if (f == cur) break;
                    if (t.count(f) && src.flip()) { unlink(f.c_str()); t.erase(f); }
                    else if (!t.count(f)) { t[f] = "other"; pbt::spit(f, "other"); }
                }
            }
            if (!dirty && src.chance(1, 3)) require_tree(cd.path, t, "after a flush");
        }
        if (factory) remove_all();
        lg.reset();
        sink.reset();
        require_tree(cd.path, t, pbt::strf("after session %zu", s).c_str());
    }
    REQUIRE(open_fds() == fds, "%zu descriptors open, %zu before", open_fds(), fds);
    if (rolls) src.nontrivial();
    if (over) src.label("message over the limit");
    if (wrapped) src.label("last file overwritten");
    if (exact) src.label("exact fit");
}

PROPERTY(rolling_limits) {
    CaseDir cd;
    size_t max_size = src.pick({0, 1, 10}), max_num = src.pick({1, 9999, 10000, 10001, 20000, 1000000});
    if (max_size && max_num <= 10000) max_size = 0;
    bool threw = false;
    try {
        if (src.flip()) sinks::rolling_file_sink_mt s("f.txt", max_size, max_num);
        else sinks::rolling_file_sink_st s("f.txt", max_size, max_num);
    }
    catch (const std::exception&) { threw = true; }
    REQUIRE(threw, "size limit %zu, file limit %zu accepted", max_size, max_num);
    require_tree(cd.path, {}, "after a refused sink");
    src.nontrivial();
}

// ------------------------------------------------------------------ C13

PROPERTY(basic) {
    CaseDir cd;
    size_t fds = open_fds();
    Tree t;
    struct S {
        sink_shr_ptr sink;
        logger_shr_ptr lg;
        std::shared_ptr<base::thread_pool> pool;
        std::string file, pending;
        std::string eol;
    };
    std::vector<S> open;
    std::vector<std::string> paths;
    static const char* const COMP[] = {"a", "b", "c.d", "e f", "\xc3\xa9", "x_1", "very_long_directory_name_very_long_directory_name",
                                       "a.", "..b", ".h", "...", "v1.", "-"};
    size_t np = src.size(1, 3);
    for (size_t i = 0; i < np; ++i) {
        std::string p;
        size_t depth = src.below(4);
        for (size_t k = 0; k < depth; ++k) p += std::string(COMP[src.below(sizeof COMP / sizeof *COMP)]) + "/";
        p += pbt::strf("f%zu", i) + src.pick({"", ".txt", ".log", ".a.b"});
        paths.push_back(p);
    }
    for (auto& p : paths)
        if (src.chance(1, 3)) {
            for (size_t k = 0; k < p.size(); ++k)
                if (p[k] == '/') mkdir(p.substr(0, k).c_str(), 0755);
            add_dirs(t, p);
            if (src.flip()) { t[p] = rec::text(src, src.below(100)); pbt::spit(p, t[p]); }
        }

    // bring what the other sinks on this file hold to disk, so that the order is defined
    auto settle = [&](const std::string& file, size_t except) {
        for (size_t k = 0; k < open.size(); ++k)
            if (k != except && open[k].file == file && !open[k].pending.empty()) {
                open[k].lg->flush();
                t[file] += open[k].pending;
                open[k].pending.clear();
            }
    };
    auto close = [&](size_t k) {
        settle(open[k].file, k);
        std::string f = open[k].file;
        t[f] += open[k].pending;
        bool reg = get_logger(open[k].lg->name()) == open[k].lg;
        if (reg) remove_logger(open[k].lg->name());
        open[k].pool.reset();
        open.erase(open.begin() + long(k));
    };
    size_t n = src.small_size(2, 50), written = 0, reopened = 0, shared = 0, seq = 0, big = 0;
    for (size_t i = 0; i < n; ++i) {
        size_t op = open.empty() ? 0 : src.weighted({2, 10, 3, 2, 1});
        if (op == 0 && open.size() < 4) {
            S s;
            s.file = src.pick(paths);
            bool trunc = src.chance(1, 3);
            settle(s.file, SIZE_MAX);
            std::string arg = src.flip() ? respell(src, t, cd.path, s.file) : s.file;
            src.note(pbt::strf("open %s%s", arg.c_str(), trunc ? " truncating" : ""));
            s.eol = "\n";
            std::string name = pbt::strf("l%zu", seq++);
            switch (src.below(4)) {
                case 0: s.lg = basic_file_logger_mt(name, arg, trunc); break;
                case 1: s.lg = basic_file_logger_st(name, arg, trunc); break;
                case 2:
                    s.sink = trunc ? std::make_shared<sinks::basic_file_sink_mt>(arg, true) : std::make_shared<sinks::basic_file_sink_mt>(arg);
                    REQUIRE(static_cast<sinks::basic_file_sink_mt*>(s.sink.get())->filename() == arg, "filename()");
                    if (src.flip()) {
                        s.pool = std::make_shared<base::lock_thread_pool>(src.pick({1, 4, 64}), 1);
                        s.lg = std::make_shared<async_logger>(name, s.sink, s.pool);
                    }
                    else s.lg = std::make_shared<logger>(name, s.sink);
                    break;
                default:
                    s.sink = std::make_shared<sinks::basic_file_sink_st>(arg, trunc);
                    s.lg = std::make_shared<logger>(name, s.sink);
            }
            s.sink.reset();
            if (src.flip()) s.lg->set_pattern("%v");
            else {
                s.eol = src.pick({"", "\n", "\r\n", "\n--\n"});
                s.lg->set_formatter(fmt_of("%v", s.eol));
            }
            if (t.count(s.file)) ++reopened;
            add_dirs(t, s.file);
            if (trunc) t[s.file] = "";
            else t[s.file];
            for (auto& o : open)
                if (o.file == s.file) ++shared;
            open.push_back(std::move(s));
        }
        else if (op == 1) {
            size_t k = src.below(open.size());
            size_t len = src.chance(1, 12) ? 4000 + src.below(70000) : src.chance(1, 400) ? 900000 + src.below(2000000) : rec::text_len(src);
            if (len >= 4000) ++big;
            std::string text = rec::text(src, len);
            settle(open[k].file, k);
            open[k].lg->log(level::level_enum(2 + src.below(4)), text);
            open[k].pending += text + open[k].eol;
            ++written;
        }
        else if (op == 2) {
            size_t k = src.below(open.size());
            settle(open[k].file, k);
            open[k].lg->flush();
            t[open[k].file] += open[k].pending;
            open[k].pending.clear();
            if (src.flip()) {
                std::string got = pbt::slurp(open[k].file);
                pbt::require_eq_str(got, t[open[k].file], ("after a flush: " + open[k].file).c_str());
            }
        }
        else if (op == 3) {
            src.note("close");
            size_t k = src.below(open.size());
            std::string f = open[k].file;
            close(k);
            pbt::require_eq_str(pbt::slurp(f), t[f], ("after closing: " + f).c_str());
        }
        else if (op == 4 && src.chance(1, 12)) {
            // what cannot be opened
            std::string bad;
            switch (src.below(4)) {
                case 0: bad = ""; break;
                case 1: bad = "."; break;
                case 2:
                    mkdir("adir", 0755);
                    t["adir/"];
                    bad = "adir";
                    break;
                default:
                    pbt::spit("afile", "x");
                    t["afile"] = "x";
                    bad = "afile/sub/f.txt";
            }
            src.note("open the impossible " + bad);
            bool threw = false;
            try { sinks::basic_file_sink_mt s(bad, src.flip()); }
            catch (const std::exception& e) {
                threw = true;
                REQUIRE(std::string(e.what()).find(bad) != std::string::npos, "the exception does not name the file: %s", e.what());
            }
            REQUIRE(threw, "opening %s did not throw", pbt::quote(bad).c_str());
            src.label("cannot be opened");
        }
    }
    while (!open.empty()) close(src.below(open.size()));
    require_tree(cd.path, t, "at the end");
    REQUIRE(open_fds() == fds, "%zu descriptors open, %zu before", open_fds(), fds);
    if (written >= 2) src.nontrivial();
    if (reopened) src.label("file existed");
    if (shared) src.label("several sinks on one file");
    if (big) src.label("message over 4000 bytes");
}

PBT_MAIN()
