// C30: programs made from the library's headers.  Each case is a generated program: several source
// files, each with its own selection and order of headers, C++ standard, compiler and options, whose
// functions use the library in turn.  It must build, and what it does must be what one copy of the
// library would do, whichever file a call stands in.
#include "learnlog.h"

#include "pbt.h"

#include <fcntl.h>
#include <pty.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <vector>

using pbt::Src;

namespace {

std::string env(const char* k) {
    const char* v = getenv(k);
    if (!v || !*v) throw pbt::Infra{std::string(k) + " is not set"};
    return v;
}
std::string slurp(const std::string& f) {
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
void spit(const std::string& f, const std::string& t) {
    std::ofstream o(f, std::ios::binary);
    o << t;
    o.close();
    if (!o) throw pbt::Infra{"cannot write " + f};
}
bool exists(const std::string& f) { return ::access(f.c_str(), F_OK) == 0; }

// the objects of the library lie beside this program
struct Library {
    std::string repo, inc, gen;
    std::vector<std::string> objs;
    std::vector<std::string> headers;
    bool tls = false;
};
const Library& library() {
    static const Library lib = [] {
        Library l;
        l.repo = env("VERIF_REPO");
        char self[4096];
        ssize_t n = ::readlink("/proc/self/exe", self, sizeof self - 1);
        if (n <= 0) throw pbt::Infra{"readlink"};
        std::string dir(self, size_t(n));
        dir.resize(dir.rfind('/'));
        l.gen = dir + "/../../gen";
        if (DIR* d = ::opendir(dir.c_str())) {
            while (dirent* e = ::readdir(d)) {
                std::string f = e->d_name;
                if (f.size() > 2 && f.compare(f.size() - 2, 2, ".o") == 0 && f.compare(0, 2, "h_") != 0) l.objs.push_back(dir + "/" + f);
            }
            ::closedir(d);
        }
        if (l.objs.empty()) throw pbt::Infra{"no objects of the library"};
        std::sort(l.objs.begin(), l.objs.end());
        // what users include; a header that is gone is left out
        for (const char* h : {"learnlog.h", "definitions.h", "logger.h", "async_logger.h", "sync_factory.h", "async_factory.h",
                              "sinks/sink.h", "sinks/basic_sink.h", "sinks/basic_file_sink.h", "sinks/rolling_file_sink.h",
                              "sinks/std_sinks.h", "sinks/std_color_sinks.h", "sinks/null_sink.h", "sinks/ostream_sink.h",
                              "sinks/formatters/formatter.h", "sinks/formatters/pattern_formatter.h", "sinks/formatters/flag_formatter.h",
                              "base/block_queue.h", "base/circular_queue.h", "base/periodic_function.h", "base/file_base.h",
                              "base/exception.h", "base/backtracer.h", "base/log_msg.h", "base/log_msg_buf.h", "base/async_msg.h",
                              "base/registry.h", "base/thread_pool.h", "base/lock_thread_pool.h", "base/lockfree_thread_pool.h",
                              "base/lockfree_concurrent_thread_pool.h", "base/null_mutex.h", "base/static_mutex.h", "base/os.h"})
            if (exists(l.repo + "/" + h) || exists(l.repo + "/include/" + h)) l.headers.push_back(h);
#ifdef LEARNLOG_USE_TLS
        l.tls = true;
#endif
        return l;
    }();
    return lib;
}

// runs a command; its output goes to `log`.  -1: it could not be run to its end
int run(const std::vector<std::string>& cmd, const std::string& log, const std::string& dir) {
    int fd = ::open(log.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0) throw pbt::Infra{"cannot write " + log};
    pid_t pid = ::fork();
    if (pid < 0) { ::close(fd); throw pbt::Infra{"fork"}; }
    if (pid == 0) {
        ::dup2(fd, 1);
        ::dup2(fd, 2);
        if (::chdir(dir.c_str()) != 0) _exit(125);
        std::vector<char*> a;
        for (auto& s : cmd) a.push_back(const_cast<char*>(s.c_str()));
        a.push_back(nullptr);
        ::execvp(a[0], a.data());
        _exit(125);
    }
    ::close(fd);
    int st = 0;
    while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return WIFEXITED(st) && WEXITSTATUS(st) != 125 ? WEXITSTATUS(st) : -1;
}

struct File {
    std::set<std::string> need;         // the headers that its functions use
    std::string body;
    std::string globals;
    bool cxx = false;                   // clang++ instead of g++
    int standard = 17, opt = 0;
    bool ndebug = false, own_fmt = true;
    bool keeps = false;         // uses kept()
};

std::string head(const std::string& s, size_t n) { return s.size() <= n ? s : s.substr(0, n) + "\n..."; }

// the text of one source file: its headers in a generated order, and only then anything else
std::string source(Src& src, File& f, const std::string& common) {
    std::vector<std::string> hs(f.need.begin(), f.need.end());
    for (size_t k = src.below(4); k > 0; --k) hs.push_back(src.pick(library().headers));
    for (size_t i = hs.size(); i > 1; --i) std::swap(hs[i - 1], hs[src.below(i)]);
    std::string t;
    for (auto& h : hs) {
        bool angle = src.chance(1, 4);
        t += "#include " + std::string(angle ? "<" : "\"") + h + (angle ? ">\n" : "\"\n");
    }
    return t + common + (f.keeps ? "namespace learnlog { class logger; }\nstd::shared_ptr<learnlog::logger>& kept(int i);\n" : "") + f.globals + f.body;
}

void options(Src& src, File& f) {
    f.standard = src.pick({17, 11, 14, 20});
    f.cxx = src.chance(1, 3);
    f.opt = src.chance(1, 4) ? 1 : 0;
    f.ndebug = src.flip();
    f.own_fmt = !src.chance(1, 5);
}
std::vector<std::string> compiler(const File& f, const std::string& dir) {
    const Library& l = library();
    std::vector<std::string> c{f.cxx ? "clang++" : "g++", "-std=c++" + std::to_string(f.standard), "-w", "-pthread", "-O" + std::to_string(f.opt)};
    if (l.tls) c.push_back("-DLEARNLOG_USE_TLS");
    if (f.ndebug) c.push_back("-DNDEBUG");
    if (f.own_fmt) c.push_back("-DLEARNLOG_USE_BUNDLED_FMT");
    else c.push_back("-I" + dir + "/ext");
    for (auto& i : {l.repo, l.repo + "/include", l.gen}) c.push_back("-I" + i);
    return c;
}
std::string stand_ins() {
    std::string f = __FILE__;
    return f.substr(0, f.rfind('/')) + "/win";
}
std::string describe(const std::vector<std::string>& c) {
    std::string s;
    for (auto& a : c) s += (s.empty() ? "" : " ") + a;
    return s;
}

const char* COMMON = R"(
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <functional>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
std::ostringstream& out(int i);         // in main.cpp
void together();
void remark(const std::string& what);
)";

const char* MAIN_HEAD = R"(
#include <cstdlib>
std::ostringstream& out(int i) { static std::vector<std::ostringstream>& v = *new std::vector<std::ostringstream>(64); return v[i]; }
std::shared_ptr<learnlog::logger>& kept(int i) { static std::vector<std::shared_ptr<learnlog::logger>>& v = *new std::vector<std::shared_ptr<learnlog::logger>>(64); return v[i]; }
static std::atomic<int> late{0};
void together() { --late; while (late > 0) std::this_thread::yield(); }
static std::ostringstream& remarks() { static std::ostringstream& s = *new std::ostringstream; return s; }
void remark(const std::string& what) { remarks() << what << "\n"; }
)";

struct Logger {
    std::string name;
    int out;
    bool registered, async;
    int level;
    std::string pattern;
    std::string text;       // what it has to have written
};

const char* LEVELS[] = {"trace", "debug", "info", "warn", "error", "critical"};

std::string shown(const std::string& pattern, const Logger& l, int level, const std::string& text) {
    std::string s;
    for (size_t i = 0; i < pattern.size(); ++i) {
        if (pattern[i] != '%') { s += pattern[i]; continue; }
        switch (pattern[++i]) {
            case 'n': s += l.name; break;
            case 'v': s += text; break;
            case 'l': {
                auto& n = learnlog::level::level_name[size_t(level)];
                s.append(n.data(), n.size());
                break;
            }
            default: s += '?';
        }
    }
    return s + "\n";
}

}  // namespace

// ------------------------------------------------------------------ every header, alone and in any order

PROPERTY(headers, 120) {
    std::string dir = pbt::state().scratch + "/h";
    pbt::empty_dir(pbt::state().scratch);
    ::mkdir(dir.c_str(), 0755);
    ::mkdir((dir + "/ext").c_str(), 0755);
    if (::symlink((library().repo + "/base/fmt").c_str(), (dir + "/ext/fmt").c_str()) != 0 && errno != EEXIST) throw pbt::Infra{"symlink"};
    File f;
    options(src, f);
    bool windows = src.chance(1, 5);        // as for Windows, with the stand-ins of C29
    auto all = library().headers;
    if (windows) {
        f.cxx = false, f.standard = 17, f.own_fmt = true;
        if (exists(library().repo + "/base/wchar_support.h")) all.push_back("base/wchar_support.h");
        src.label("as for Windows");
    }
    std::string first = src.pick(all), text = "#include \"" + first + "\"\n";
    size_t more = src.below(2) == 0 ? 0 : 1 + src.below(all.size() - 1);
    std::vector<std::string> rest(all);
    for (size_t i = 0; i < more && !rest.empty(); ++i) {
        size_t k = src.below(rest.size());
        text += "#include \"" + rest[k] + "\"\n";
        rest.erase(rest.begin() + long(k));
    }
    if (src.chance(1, 4)) text += text;         // and each of them twice
    text += "int here;\n";
    spit(dir + "/a.cpp", text);
    auto cmd = compiler(f, dir);
    if (windows) cmd.insert(cmd.end(), {"-I" + stand_ins(), "-include", stand_ins() + "/prelude.h"});
    cmd.insert(cmd.end(), {"-fsyntax-only", "a.cpp"});
    src.note(describe(cmd) + "\n" + text);
    if (more) src.label("several headers");
    else src.label("one header alone");
    src.nontrivial();
    int rc = run(cmd, dir + "/log", dir);
    if (rc < 0) throw pbt::Infra{"the compiler could not be run"};
    if (rc != 0) {
        std::string log = slurp(dir + "/log");
        if (log.find(" error: ") == std::string::npos) throw pbt::Infra{"the compiler failed: " + head(log, 400)};
        REQUIRE(false, "a file of headers does not compile:\n%s\n%s\n%s", text.c_str(), describe(cmd).c_str(), head(log, 2500).c_str());
    }
}

// ------------------------------------------------------------------ programs of several files

PROPERTY(programs, 240) {
    const Library& lib = library();
    std::string dir = pbt::state().scratch + "/p";
    pbt::empty_dir(pbt::state().scratch);
    ::mkdir(dir.c_str(), 0755);
    ::mkdir((dir + "/ext").c_str(), 0755);
    if (::symlink((lib.repo + "/base/fmt").c_str(), (dir + "/ext/fmt").c_str()) != 0 && errno != EEXIST) throw pbt::Infra{"symlink"};

    size_t nfiles = 2 + src.below(2);
    std::vector<File> files(nfiles);
    for (auto& f : files) options(src, f);
    std::vector<std::string> decls, calls;
    std::vector<Logger> ls;
    std::string global_pattern = "%n|%l|%v", remarks, deflt_name;
    int global_level = 2, deflt = -1, reports = 0;
    std::set<size_t> users;         // files with a step that uses the registry

    auto step = [&](size_t k, const std::set<std::string>& need, const std::string& code) {
        std::string fn = "step_" + std::to_string(calls.size());
        files[k].need.insert(need.begin(), need.end());
        files[k].body += "void " + fn + "() {\n" + code + "}\n";
        decls.push_back("void " + fn + "();\n");
        calls.push_back("    " + fn + "();\n");
        users.insert(k);
    };
    auto q = [](const std::string& s) { return "\"" + s + "\""; };
    auto add = [&](const std::string& name, bool reg, bool async) -> Logger& {
        ls.push_back({name, int(ls.size()), reg, async, global_level, global_pattern, ""});
        return ls.back();
    };
    auto write = [&](Logger& l, int level, const std::string& text) {
        if (level >= l.level) l.text += shown(l.pattern, l, level, text);
    };
    auto level_of = [](int l) { return "learnlog::level::" + std::string(l == 6 ? "off" : LEVELS[l]); };

    // loggers that exist before main(), made in several files
    for (size_t k = 0; k < nfiles; ++k) {
        if (!src.chance(1, 4)) continue;
        std::string n = "early" + std::to_string(k);
        Logger& l = add(n, true, false);
        l.pattern = "%l/%v";
        l.level = 2;
        files[k].need.insert({"learnlog.h", "sinks/ostream_sink.h"});
        std::string v = "g" + std::to_string(k);
        files[k].globals += "static std::shared_ptr<learnlog::logger> " + v + " = learnlog::create<learnlog::sinks::ostream_sink_mt>(" + q(n) +
            ", out(" + std::to_string(l.out) + "));\nstatic bool said" + std::to_string(k) + " = (" + v + "->set_pattern(\"%l/%v\"), " + v + "->warn(\"before main {}\", " +
            std::to_string(k) + "), true);\n";
        write(l, 3, "before main " + std::to_string(k));
        src.label("a logger from before main");
    }
    step(0, {"learnlog.h"}, "    learnlog::set_global_pattern(\"%n|%l|%v\");\n");
    for (auto& l : ls) l.pattern = "%n|%l|%v";

    size_t nsteps = 4 + src.below(14);
    for (size_t s = 0; s < nsteps; ++s) {
        size_t k = src.below(nfiles);
        std::string id = std::to_string(s);
        std::vector<size_t> known;
        for (size_t i = 0; i < ls.size(); ++i)
            if (ls[i].registered) known.push_back(i);
        size_t what = src.weighted({6, 12, 4, 3, 3, 3, 4, 3, 5, 4, 3, 6, 8, 3, 3});
        if (known.empty() && (what == 1 || what == 2 || what == 4 || what == 5)) what = 0;
        if (ls.size() > 40) break;
        switch (what) {
            case 0: {       // a logger of the registry
                Logger& l = add("log" + id, true, false);
                static const char* MAKE[] = {"learnlog::create<learnlog::sinks::ostream_sink_mt>", "learnlog::create<learnlog::sinks::ostream_sink_st>",
                                             "learnlog::sync_factory::create<learnlog::sinks::ostream_sink_mt>"};
                size_t m = src.below(3);
                step(k, {m < 2 ? "learnlog.h" : "sync_factory.h", "sinks/ostream_sink.h"},
                     "    " + std::string(MAKE[m]) + "(" + q(l.name) + ", out(" + std::to_string(l.out) + "));\n");
                break;
            }
            case 1: {       // log by name
                Logger& l = ls[src.pick(known)];
                int level = int(src.below(6)), form = int(src.below(4));
                std::string text, code = "    auto l = learnlog::get_logger(" + q(l.name) + ");\n";
                std::string lv = LEVELS[level];
                if (form == 0) { code += "    l->" + lv + "(\"s{}\", " + id + ");\n"; text = "s" + id; }
                else if (form == 1) { code += "    l->" + lv + "(std::string(\"str" + id + "\"));\n"; text = "str" + id; }
                else if (form == 2) { code += "    l->log(" + level_of(level) + ", \"{:>4}|{:.2f}\", " + id + ", 0.5);\n"; text = std::string(4 - id.size(), ' ') + id + "|0.50"; }
                else { code += "    l->log(learnlog::source_loc{\"f\", 3, \"g\"}, " + level_of(level) + ", \"{}-{}\", \"a\", " + id + ");\n"; text = "a-" + id; }
                step(k, {"learnlog.h"}, code);
                write(l, level, text);
                break;
            }
            case 2: {       // settings of one logger
                Logger& l = ls[src.pick(known)];
                if (src.flip()) {
                    l.level = int(src.below(7));
                    step(k, {"learnlog.h"}, "    learnlog::set_log_level(" + q(l.name) + ", " + level_of(l.level) + ");\n");
                }
                else {
                    l.pattern = src.pick({"[%l] %v", "%v", "%n: %v"});
                    step(k, {"learnlog.h"}, "    learnlog::set_pattern(" + q(l.name) + ", " + q(l.pattern) + ");\n");
                }
                break;
            }
            case 3: {       // settings of all
                if (src.flip()) {
                    global_level = int(src.below(6));
                    for (auto& l : ls) if (l.registered) l.level = global_level;
                    step(k, {"learnlog.h"}, "    learnlog::set_global_log_level(" + level_of(global_level) + ");\n");
                }
                else {
                    global_pattern = src.pick({"%n|%l|%v", "%v (%n)", "%l %v"});
                    for (auto& l : ls) if (l.registered) l.pattern = global_pattern;
                    step(k, {"base/registry.h"}, "    learnlog::base::registry::instance().set_global_pattern(" + q(global_pattern) + ");\n");
                }
                break;
            }
            case 4: {       // remove
                size_t i = src.pick(known);
                if (int(i) == deflt || ls[i].async) break;
                ls[i].registered = false;
                step(k, {"learnlog.h"}, "    learnlog::remove_logger(" + q(ls[i].name) + ");\n    if (learnlog::get_logger(" + q(ls[i].name) + ")) remark(\"still there\");\n");
                break;
            }
            case 5: {       // the default logger, set in one file and used in another
                size_t i = src.pick(known);
                if (ls[i].async) break;
                deflt = int(i);
                step(k, {"learnlog.h"}, "    learnlog::set_default_logger(learnlog::get_logger(" + q(ls[i].name) + "));\n");
                step(src.below(nfiles), {"learnlog.h"}, "    learnlog::critical(\"default {}\", " + id + ");\n    learnlog::info(\"d" + id + "\");\n");
                write(ls[i], 5, "default " + id);
                write(ls[i], 2, "d" + id);
                src.label("default logger");
                break;
            }
            case 6: {       // an asynchronous logger
                // (taken from the registry at once: what is set later holds for the messages that still wait)
                Logger& l = add("async" + id, false, true);
                l.pattern = "%n|%l|%v";
                static const char* MAKE[] = {"learnlog::create_async_lock", "learnlog::create_async_lockfree", "learnlog::create_async_lockfree_concurrent"};
                std::string kept = "kept(" + std::to_string(l.out) + ")";
                step(k, {"learnlog.h", "sinks/ostream_sink.h"}, "    " + kept + " = " + std::string(MAKE[src.below(3)]) + "<learnlog::sinks::ostream_sink_mt>(" + q(l.name) +
                     ", out(" + std::to_string(l.out) + "));\n    " + kept + "->set_pattern(\"%n|%l|%v\");\n    learnlog::remove_logger(" + q(l.name) + ");\n");
                files[k].keeps = true;
                for (size_t n = src.below(4); n > 0; --n) {
                    size_t u = src.below(nfiles);
                    files[u].keeps = true;
                    step(u, {"logger.h"}, "    " + kept + "->error(\"n{}\", " + std::to_string(n) + ");\n");
                    write(l, 4, "n" + std::to_string(n));
                }
                src.label("asynchronous logger");
                break;
            }
            case 7: {       // a logger of a file's own
                Logger& l = add("own" + id, false, false);
                l.level = 2, l.pattern = "%v %n";
                step(k, {"logger.h", "sinks/ostream_sink.h"},
                     "    learnlog::logger l(" + q(l.name) + ", std::make_shared<learnlog::sinks::ostream_sink_st>(out(" + std::to_string(l.out) +
                     ")));\n    l.set_pattern(\"%v %n\");\n    l.info(\"mine\");\n    l.debug(\"not shown\");\n");
                write(l, 2, "mine");
                break;
            }
            case 8: {       // a sink of a file's own that fails: a report
                size_t n = 1 + src.below(3), way = src.below(3);
                std::string times = "    for (int i = 0; i < " + std::to_string(n) + "; ++i) ";
                if (way == 0)
                    step(k, {"sinks/sink.h", "logger.h"},
                         "    struct Bad : learnlog::sinks::sink {\n        void log(const learnlog::base::log_msg&) override { throw std::runtime_error(\"no good\"); }\n"
                         "        void flush() override {}\n        void set_pattern(const std::string&) override {}\n"
                         "        void set_formatter(std::unique_ptr<learnlog::sinks::formatter>) override {}\n    };\n"
                         "    learnlog::logger l(\"bad\", std::make_shared<Bad>());\n" + times + "l.error(\"x\");\n");
                else if (way == 1 || known.empty())     // a width below zero
                    step(k, {"sinks/null_sink.h", "logger.h"},
                         "    learnlog::logger l(\"bad\", std::make_shared<learnlog::sinks::null_sink_st>());\n" + times + "l.error(\"{:{}}\", 1, -1);\n");
                else                                    // a name that is taken
                    step(k, {"sinks/null_sink.h", "learnlog.h"}, times + "learnlog::create<learnlog::sinks::null_sink_st>(" + q(ls[src.pick(known)].name) + ");\n");
                reports += int(n);
                src.label(way == 0 ? "a failing sink" : way == 1 || known.empty() ? "a failing format" : "a name that is taken");
                break;
            }
            case 9: {       // thrown in one file, caught in another
                size_t c = src.below(nfiles);
                std::string fn = "thrower_" + id;
                files[k].need.insert("sinks/basic_file_sink.h");
                files[k].body += "void " + fn + "() { learnlog::sinks::basic_file_sink_mt s(\"/dev/null/none/x\"); }\n";
                files[c].globals += "void " + fn + "();\n";
                step(c, {"base/exception.h"}, "    try { " + fn + "(); remark(\"not thrown\"); }\n    catch (const learnlog::learnlog_excpt& e) { remark(\"caught\"); }\n"
                     "    catch (const std::exception& e) { remark(\"a stranger\"); }\n");
                remarks += "caught\n";
                if (c != k) src.label("an exception across files");
                break;
            }
            case 10: {      // the parts by themselves
                switch (src.below(6)) {
                    case 0: step(k, {"base/block_queue.h"}, "    learnlog::base::block_queue<std::string> q(2);\n    q.enqueue(std::string(\"a\"));\n    std::string s;\n"
                                 "    if (!q.dequeue_for(s, std::chrono::milliseconds(1000)) || s != \"a\") remark(\"queue\");\n"); break;
                    case 1: step(k, {"base/circular_queue.h"}, "    learnlog::base::circular_queue<int> q(2);\n    q.push_back(1); q.push_back(2); q.push_back(3);\n"
                                 "    if (q.size() != 2 || q.at(0) != 2) remark(\"ring\");\n"); break;
                    case 2: step(k, {"base/periodic_function.h"}, "    std::atomic<int> n{0};\n    learnlog::base::periodic_function p([&n] { ++n; }, std::chrono::milliseconds(1));\n"
                                 "    while (!n) std::this_thread::yield();\n"); break;
                    case 3: step(k, {"sinks/formatters/pattern_formatter.h"}, "    learnlog::sinks::pattern_formatter f(\"%l-%v\");\n    learnlog::fmt_memory_buf b;\n"
                                 "    f.format(learnlog::base::log_msg(learnlog::level::warn, \"t\", \"n\"), b);\n    if (std::string(b.data(), b.size()) != " +
                                 q(shown("%l-%v", Logger(), 3, "t").substr(0, shown("%l-%v", Logger(), 3, "t").size() - 1) + "\\n") +
                                 ") remark(\"formatter\");\n"); break;
                    case 4: step(k, {"base/lock_thread_pool.h"}, "    { learnlog::base::lock_thread_pool p(4, 2); if (p.threads_size() != 2) remark(\"pool\"); }\n"); break;
                    default: step(k, {"base/lockfree_concurrent_thread_pool.h"}, "    { learnlog::base::lockfree_concurrent_thread_pool p(4, 2); if (p.threads_size() != 2) remark(\"pool\"); }\n");
                }
                break;
            }
            case 11: {      // the rest of the interface
                switch (src.below(8)) {
                    case 0: {
                        Logger a = add("left" + id, false, false), b = add("right" + id, false, false);
                        step(k, {"logger.h", "sinks/ostream_sink.h"},
                             "    learnlog::logger a(" + q(a.name) + ", std::make_shared<learnlog::sinks::ostream_sink_st>(out(" + std::to_string(a.out) + ")));\n"
                             "    learnlog::logger b(" + q(b.name) + ", std::make_shared<learnlog::sinks::ostream_sink_st>(out(" + std::to_string(b.out) + ")));\n"
                             "    using std::swap;\n    swap(a, b);\n    a.set_pattern(\"%n %v\");\n    b.set_pattern(\"%n %v\");\n    a.warn(\"1\");\n    b.warn(\"2\");\n");
                        ls[size_t(b.out)].text = b.name + " 1\n";
                        ls[size_t(a.out)].text = a.name + " 2\n";
                        src.label("swap");
                        break;
                    }
                    case 1: step(k, {"learnlog.h"}, "    int n = 0;\n    learnlog::exec_all([&n](learnlog::logger_shr_ptr l) { l->flush(); ++n; });\n"
                                 "    if (n < " + std::to_string(known.size()) + ") remark(\"exec_all\");\n    learnlog::flush_all();\n"); break;
                    case 2: step(k, {"learnlog.h"}, "    learnlog::flush_every(std::chrono::hours(1));\n"); break;
                    case 3: step(k, {"learnlog.h"}, "    learnlog::set_global_flush_level(learnlog::level::warn);\n" +
                                 (known.empty() ? std::string() : "    learnlog::set_flush_level(" + q(ls[src.pick(known)].name) + ", learnlog::level::error);\n")); break;
                    case 4: {
                        Logger& l = add("apart" + id, false, false);
                        step(k, {"learnlog.h", "sinks/ostream_sink.h"}, "    learnlog::set_auto_register_logger(false);\n    auto l = learnlog::create<learnlog::sinks::ostream_sink_mt>(" +
                             q(l.name) + ", out(" + std::to_string(l.out) + "));\n    learnlog::set_auto_register_logger(true);\n    if (learnlog::get_logger(" + q(l.name) +
                             ")) remark(\"registered\");\n    l->critical(\"apart\");\n    learnlog::register_logger(l);\n");
                        write(l, 5, "apart");
                        l.registered = true;
                        break;
                    }
                    case 5: step(k, {"learnlog.h"}, "    learnlog::initialize_thread_pool<learnlog::base::lock_thread_pool>(16, 1);\n    if (!learnlog::get_thread_pool()) remark(\"no pool\");\n"); break;
                    case 6: {
                        Logger& l = add("direct" + id, false, true);
                        step(k, {"async_logger.h", "base/lockfree_thread_pool.h", "sinks/ostream_sink.h"},
                             "    auto p = std::make_shared<learnlog::base::lockfree_thread_pool>(16, 1);\n    {\n    learnlog::async_logger l(" + q(l.name) +
                             ", std::make_shared<learnlog::sinks::ostream_sink_mt>(out(" + std::to_string(l.out) + ")), p);\n    }\n"
                             "    auto l = std::make_shared<learnlog::async_logger>(" + q(l.name) +
                             ", std::make_shared<learnlog::sinks::ostream_sink_mt>(out(" + std::to_string(l.out) + ")), p);\n    l->set_pattern(\"%v\");\n"
                             "    l->info(\"direct\");\n    l.reset();\n    p.reset();\n");
                        l.text = "direct\n";
                        break;
                    }
                    default: {
                        Logger& l = add("clone" + id, false, false);
                        l.pattern = "%n %v";
                        step(k, {"logger.h", "sinks/ostream_sink.h"},
                             "    learnlog::logger a(\"x\", std::make_shared<learnlog::sinks::ostream_sink_st>(out(" + std::to_string(l.out) + ")));\n    a.set_pattern(\"%n %v\");\n"
                             "    auto c = a.clone(" + q(l.name) + ");\n    c->error(\"c\");\n    if (c->get_log_level() != a.get_log_level()) remark(\"level\");\n");
                        l.text = l.name + " c\n";
                    }
                }
                break;
            }
            case 12: {      // an object made in one file and used in others
                struct Kind { const char *header, *type, *make, *use, *check; };
                static const Kind KINDS[] = {
                    {"base/circular_queue.h", "learnlog::base::circular_queue<std::string>", "(3)", "o.push_back(std::string(30, 'x'));",
                     "while (!o.empty()) { if (o.front() != std::string(30, 'x')) remark(\"ring\"); o.pop_front(); ++n; } if (n > 3) n = uses;"},
                    {"base/block_queue.h", "learnlog::base::block_queue<std::string>", "(64)", "o.enqueue(std::string(30, 'y'));",
                     "std::string t; while (o.dequeue_for(t, std::chrono::milliseconds(0))) { if (t != std::string(30, 'y')) remark(\"queue\"); ++n; }"},
                    {"base/backtracer.h", "learnlog::base::backtracer", "", "if (!o.is_enabled()) o.enable_with_size(64); o.push_back(learnlog::base::log_msg(learnlog::level::warn, \"text\", \"name\"));",
                     "o.foreach_do([&n](const learnlog::base::log_msg& m) { if (std::string(m.msg.data(), m.msg.size()) != \"text\") remark(\"trace\"); ++n; });"},
                    {"base/log_msg_buf.h", "std::vector<learnlog::base::log_msg_buf>", "", "o.emplace_back(learnlog::base::log_msg(learnlog::level::warn, \"text\", \"name\"));",
                     "for (auto& m : o) { if (std::string(m.msg.data(), m.msg.size()) != \"text\") remark(\"message\"); ++n; }"},
                    {"sinks/formatters/pattern_formatter.h", "learnlog::sinks::pattern_formatter", "(\"%n|%v\")",
                     "learnlog::fmt_memory_buf b; o.format(learnlog::base::log_msg(learnlog::level::warn, \"text\", \"name\"), b); if (std::string(b.data(), b.size()) != \"name|text\\n\") remark(\"formatter\");",
                     "n = uses;"},
                    {"sinks/ostream_sink.h", "learnlog::sinks::ostream_sink_mt", "(text)",
                     "o.set_pattern(\"%v\"); o.log(learnlog::base::log_msg(learnlog::level::warn, \"text\", \"name\"));",
                     "std::string t = out(63).str(); out(63).str(\"\"); while (t.compare(0, 5, \"text\\n\") == 0) { t.erase(0, 5); ++n; } if (!t.empty()) remark(\"sink\");"},
                    {"sinks/basic_file_sink.h", "learnlog::sinks::basic_file_sink_mt", "(\"shared.log\")",
                     "o.set_pattern(\"%v\"); o.log(learnlog::base::log_msg(learnlog::level::warn, \"text\", \"name\"));",
                     "o.flush(); FILE* f = fopen(\"shared.log\", \"r+\"); for (int c; f && (c = fgetc(f)) != EOF;) n += c == '\\n'; if (!f || ftruncate(fileno(f), 0)) remark(\"file\"); if (f) fclose(f);"},
                    {"sinks/rolling_file_sink.h", "learnlog::sinks::rolling_file_sink_st", "(\"rolled\" + std::string(1, 'a') + \".log\", 1000000, 9)",
                     "o.set_pattern(\"%v\"); o.log(learnlog::base::log_msg(learnlog::level::warn, \"text\", \"name\")); o.flush();",
                     "n = uses;"},
                    {"base/static_mutex.h", "learnlog::base::static_mutex::mutex_t*", "(&learnlog::base::static_mutex::mutex())",
                     "std::lock_guard<learnlog::base::static_mutex::mutex_t> held(*o); bool got = false; std::thread t([&got] { auto& m = learnlog::base::static_mutex::mutex(); got = m.try_lock(); if (got) m.unlock(); }); t.join(); if (got) remark(\"two locks of the terminal\");",
                     "n = uses;"},
                    {"base/lock_thread_pool.h", "learnlog::base::lock_thread_pool", "(5, 2)", "if (o.message_queue_size() != 5 || o.threads_size() != 2) remark(\"pool\");", "n = uses;"},
                    {"base/lockfree_thread_pool.h", "learnlog::base::lockfree_thread_pool", "(5, 2)", "if (o.message_queue_size() != 5 || o.threads_size() != 2) remark(\"pool\");", "n = uses;"},
                };
                const Kind& kd = KINDS[src.below(sizeof KINDS / sizeof *KINDS)];
                std::string obj = "shared" + id, type = kd.type, init = kd.make;
                if (init == "(text)") init = "(out(63))";
                files[k].need.insert(kd.header);
                files[k].body += type + "* " + obj + "() {\n    static std::unique_ptr<" + type + "> o(new " + type + init + ");\n    return o.get();\n}\n";
                size_t uses = 1 + src.below(3);
                std::string note_use = std::string("    ") + type + "& o = *" + obj + "();\n";
                for (size_t i = 0; i < uses; ++i) {
                    size_t u = src.below(nfiles);
                    if (u != k) files[u].globals += "#include \"" + std::string(kd.header) + "\"\n" + type + "* " + obj + "();\n";
                    else src.label("object of its own file");
                    if (u != k) src.label("object of another file");
                    step(u, {kd.header}, note_use + "    " + kd.use + "\n");
                }
                step(k, {kd.header, "base/log_msg.h"}, note_use + "    int n = 0, uses = " + std::to_string(uses) + ";\n    " + kd.check + "\n    if (n != uses) remark(\"" + obj + ": \" + std::to_string(n));\n");
                break;
            }
            case 13: {      // a backtrace switched on, filled and dumped in different files
                Logger& l = add("trace" + id, true, false);
                l.pattern = "%v";
                step(k, {"learnlog.h", "sinks/ostream_sink.h"}, "    learnlog::create<learnlog::sinks::ostream_sink_mt>(" + q(l.name) + ", out(" + std::to_string(l.out) +
                     "))->set_pattern(\"%v\");\n");
                step(src.below(nfiles), {"learnlog.h"}, "    learnlog::get_logger(" + q(l.name) + ")->enable_backtrace_n(2);\n");
                for (int i = 0; i < 3; ++i) {
                    step(src.below(nfiles), {"learnlog.h"}, "    learnlog::get_logger(" + q(l.name) + ")->critical(\"t" + std::to_string(i) + "\");\n");
                    write(l, 5, "t" + std::to_string(i));
                }
                step(src.below(nfiles), {"learnlog.h"}, "    learnlog::get_logger(" + q(l.name) + ")->dump_backtrace();\n");
                l.text += "*********************** Backtrace Start ***********************\nt1\nt2\n************************ Backtrace End ************************\n";
                src.label("backtrace across files");
                break;
            }
            default: {      // files
                bool rolling = src.flip();
                std::string name = "f" + id + ".log", made = rolling ? "f" + id + "_1.log" : name;
                step(k, {rolling ? "sinks/rolling_file_sink.h" : "sinks/basic_file_sink.h", "base/log_msg.h"},
                     std::string("    { learnlog::sinks::") + (rolling ? "rolling_file_sink_st s(\"" + name + "\", 1000, 2);" : "basic_file_sink_st s(\"" + name + "\");") +
                     " s.set_pattern(\"%v\"); s.log(learnlog::base::log_msg(learnlog::level::info, \"text\", \"n\")); }\n"
                     "    FILE* f = fopen(\"" + made + "\", \"r\");\n    char b[16] = {};\n    if (!f || fread(b, 1, 15, f) != 5 || std::string(b) != \"text\\n\") remark(\"file\");\n"
                     "    if (f) fclose(f);\n");
            }
        }
    }
    // at once: every file writes coloured lines to the terminal from a thread of its own
    bool burst = src.flip();
    size_t lines = 20 + src.below(2000);
    std::string threads;
    if (burst) {
        bool fast = src.flip();
        for (size_t k = 0; k < nfiles; ++k) {
            if (fast) files[k].opt = 2;
            std::string fn = "burst_" + std::to_string(k);
            files[k].need.insert({"sinks/std_color_sinks.h", "logger.h"});
            files[k].body += "void " + fn + "() {\n    learnlog::logger l(\"b\", std::make_shared<learnlog::sinks::stdout_color_sink_mt>());\n"
                "    l.set_pattern(\"" + std::to_string(k) + "[%^%v%$]" + std::to_string(k) + "\");\n    together();\n    for (int i = 0; i < " + std::to_string(lines) +
                "; ++i) l.info(\"" + std::string(30, char('a' + k)) + "\");\n}\n";
            decls.push_back("void " + fn + "();\n");
            threads += "    ts.emplace_back(" + fn + ");\n";
        }
        src.label("all files at once");
    }

    // ------------------------------------------------------------------ build it

    File mainf;
    options(src, mainf);
    mainf.need = {"learnlog.h"};
    mainf.globals = MAIN_HEAD;
    for (auto& d : decls) mainf.globals += d;
    mainf.body = "int main() {\n";
    for (auto& c : calls) mainf.body += c;
    if (burst) mainf.body += "    {\n    late = " + std::to_string(nfiles) + ";\n    std::vector<std::thread> ts;\n" + threads + "    for (auto& t : ts) t.join();\n    fflush(stdout);\n    }\n";
    mainf.body += "    for (int i = 0; i < 64; ++i) kept(i).reset();\n    learnlog::close();\n    FILE* f = fopen(\"result\", \"wb\");\n    for (int i = 0; i < 64; ++i) {\n        std::string s = out(i).str();\n"
                  "        fprintf(f, \"%zu %s\", s.size(), s.c_str());\n    }\n    fprintf(f, \"%s\", remarks().str().c_str());\n    fclose(f);\n    return 0;\n}\n";
    files.push_back(mainf);
    std::vector<std::string> link{"g++", "-pthread", "-o", "prog"};
    std::string note;
    for (size_t k = 0; k < files.size(); ++k) {
        std::string name = k < nfiles ? "file" + std::to_string(k) : "main", text = source(src, files[k], COMMON);
        spit(dir + "/" + name + ".cpp", text);
        auto cmd = compiler(files[k], dir);
        cmd.insert(cmd.end(), {"-c", name + ".cpp", "-o", name + ".o"});
        note += "// " + describe(cmd) + "\n" + text + "\n";
        pbt::beat();
        int rc = run(cmd, dir + "/log", dir);
        if (rc < 0) throw pbt::Infra{"the compiler could not be run"};
        if (rc != 0) {
            std::string log = slurp(dir + "/log");
            if (log.find(" error: ") == std::string::npos) throw pbt::Infra{"the compiler failed: " + head(log, 400)};
            src.note(note);
            REQUIRE(false, "a file of the program does not compile:\n%s\n%s", head(log, 2500).c_str(), head(text, 3000).c_str());
        }
        link.push_back(name + ".o");
    }
    src.note(note);
    link.insert(link.end(), lib.objs.begin(), lib.objs.end());
    int rc = run(link, dir + "/log", dir);
    std::string log = slurp(dir + "/log");
    if (rc < 0 || log.find("o space left") != std::string::npos) throw pbt::Infra{"the linker could not be run: " + head(log, 400)};
    if (rc != 0) REQUIRE(false, "the program does not link:\n%s", head(log, 3000).c_str());
    pbt::beat();

    // ------------------------------------------------------------------ and run it

    int master = -1, slave = -1;
    if (::openpty(&master, &slave, nullptr, nullptr, nullptr) != 0) throw pbt::Infra{"openpty"};
    ::unlink((dir + "/result").c_str());
    std::string err = dir + "/stderr";
    pid_t pid = ::fork();
    if (pid < 0) throw pbt::Infra{"fork"};
    if (pid == 0) {
        int e = ::open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        ::dup2(slave, 1);
        ::dup2(e, 2);
        ::close(master);
        ::setenv("TERM", "xterm", 1);
        if (::chdir(dir.c_str()) != 0) _exit(125);
        ::alarm(100);
        char* a[] = {const_cast<char*>("./prog"), nullptr};
        ::execv("./prog", a);
        _exit(125);
    }
    ::close(slave);
    std::string screen;
    char buf[4096];
    for (ssize_t n; (n = ::read(master, buf, sizeof buf)) > 0 || (n < 0 && errno == EINTR);)
        if (n > 0) { screen.append(buf, size_t(n)); pbt::beat(); }
    int st = 0;
    while (::waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    ::close(master);
    std::string errors = slurp(err);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 125) throw pbt::Infra{"the program could not be run"};
    REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the program ended with status %#x\n%s", unsigned(st), head(errors, 1500).c_str());

    std::string result = slurp(dir + "/result");
    std::string want;
    for (size_t i = 0; i < 64; ++i) {
        std::string t = i < ls.size() ? ls[i].text : "";
        want += std::to_string(t.size()) + " " + t;
    }
    want += remarks;
    REQUIRE(result == want, "the program wrote\n%s\ninstead of\n%s\n(stderr: %s)", head(result, 2500).c_str(), head(want, 2500).c_str(), head(errors, 500).c_str());

    // the reports are numbered in one row
    size_t seen = 0;
    std::istringstream es(errors);
    for (std::string line; std::getline(es, line);) {
        size_t n = 0;
        if (::sscanf(line.c_str(), "[*** EXCEPTION #%zu", &n) == 1) {
            ++seen;
            REQUIRE(n == seen, "report number %zu came as number %zu:\n%s", seen, n, head(errors, 1500).c_str());
        }
    }
    REQUIRE(int(seen) == reports, "%zu reports of %d failures:\n%s", seen, reports, head(errors, 1500).c_str());

    if (burst) {
        std::map<char, size_t> got;
        std::istringstream ss(screen);
        for (std::string line; std::getline(ss, line);) {
            std::string plain;
            bool colour = false;
            for (size_t i = 0; i < line.size(); ++i) {
                if (line[i] == '\033') {
                    while (i < line.size() && line[i] != 'm') ++i;
                    colour = true;
                }
                else if (line[i] != '\r') plain += line[i];
            }
            size_t k = plain.empty() ? 99 : size_t(plain[0] - '0');
            bool good = k < nfiles && plain == std::string(1, plain[0]) + "[" + std::string(30, char('a' + k)) + "]" + plain[0] && colour;
            REQUIRE(good, "a line on the terminal is \"%s\"", plain.c_str());
            ++got[plain[0]];
        }
        for (size_t k = 0; k < nfiles; ++k)
            REQUIRE(got[char('0' + k)] == lines, "%zu of %zu lines of file %zu", got[char('0' + k)], lines, k);
    }
    src.label(nfiles == 2 ? "two files" : "three files");
    if (users.size() > 1) src.nontrivial("several files use the library");
}

PBT_MAIN()
