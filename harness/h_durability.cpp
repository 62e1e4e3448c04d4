// C24: what was flushed survives a sudden end, and a normal end loses nothing.
//
// Each case runs in a child process, which ends in the way the case says; what the files then hold is
// compared with what the child noted in shared memory.
#include "lib.h"
#include "pbt.h"
#include "pools.h"

#include "async_factory.h"
#include "learnlog.h"
#include "logger.h"
#include "sinks/basic_file_sink.h"
#include "sinks/rolling_file_sink.h"
#include "sinks/std_color_sinks.h"
#include "sinks/std_sinks.h"

#include <sys/prctl.h>

using namespace learnlog;
using pbt::Src;

namespace {
constexpr size_t MAXS = 3, MAXT = 3, MAXL = 4;

struct Journal {        // written by the child
    std::atomic<uint64_t> started[MAXT];            // messages the thread began to log
    std::atomic<uint64_t> done[MAXT];               // and finished
    std::atomic<uint64_t> safe[MAXT][MAXS];         // of these, the first so many are flushed at the sink
    std::atomic<uint64_t> ended;                    // 1 the child came to its end
    std::atomic<uint64_t> calls;                    // wrapped calls so far
};
Journal* journal() {
    static Journal* j = nullptr;
    if (!j) {
        void* p = mmap(nullptr, sizeof(Journal), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) throw pbt::Infra{"mmap"};
        j = static_cast<Journal*>(p);
    }
    return j;
}

// the child dies at one of its calls of the C library
std::atomic<bool> armed{false};
uint64_t die_at = 0;
int die_how = 0;
[[noreturn]] void die(int how) {
    switch (how) {
        case 1: raise(SIGKILL); break;
        case 2: signal(SIGABRT, SIG_DFL); abort();
        case 3: signal(SIGSEGV, SIG_DFL); raise(SIGSEGV); break;
        case 4: signal(SIGTERM, SIG_DFL); raise(SIGTERM); break;
        default: break;
    }
    _exit(7);
}
void call_point() {
    if (!armed.load(std::memory_order_relaxed)) return;
    if (journal()->calls.fetch_add(1) + 1 == die_at) die(die_how);
}
}   // namespace

extern "C" {
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __real_fflush(FILE*);
int __real_fclose(FILE*);
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) {
    call_point();
    size_t r = __real_fwrite(p, s, n, f);
    call_point();
    return r;
}
int __wrap_fflush(FILE* f) {
    call_point();
    int r = __real_fflush(f);
    call_point();
    return r;
}
int __wrap_fclose(FILE* f) {
    call_point();
    int r = __real_fclose(f);
    call_point();
    return r;
}
}

namespace {

std::string text_of(size_t t, size_t k, size_t len) {
    std::string s = pbt::strf("T%zu.%zu:%zu:", t, k, len);
    uint64_t x = t * 1000003 + k + 1;
    for (size_t i = 0; i < len; ++i) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        s += char('a' + (x >> 33) % 26);
    }
    return s;
}

enum SinkKind { BASIC, ROLLING, PLAIN_STD };
struct SinkPlan {
    SinkKind kind = BASIC;
    bool mt = true, truncate = false;
    std::string before;     // what the file held
    size_t limit = 0;
};
struct LoggerPlan {
    std::vector<size_t> sinks;
    bool async = false;
    int flush_level = level::off;
    bool by_factory = false, keep = true;
};
struct Step {
    size_t logger = 0;
    int level = 0;
    size_t len = 0;
    bool flush = false;
    unsigned pause_us = 0;
};
struct Plan {
    std::string dir;
    std::vector<SinkPlan> S;
    std::vector<LoggerPlan> L;
    std::vector<std::vector<Step>> T;
    size_t pool_kind = 1, workers = 1, queue = 64;
    bool stdout_is_pipe = false;
};

Plan make_plan(Src& src, bool sudden) {
    Plan p;
    size_t ns = src.size(1, MAXS), nl = src.size(1, MAXL), nt = sudden ? src.pick({1, 1, 2, 3}) : src.pick({1, 2, 3});
    bool have_std = false;
    for (size_t i = 0; i < ns; ++i) {
        SinkPlan s;
        s.kind = SinkKind(src.weighted({4, 3, have_std ? 0u : 2u}));
        if (s.kind == PLAIN_STD) have_std = true;
        s.mt = nt > 1 || src.flip();
        s.truncate = src.chance(1, 3);
        if (s.kind == BASIC && src.chance(1, 2)) s.before = src.flip() ? "what was there before\n" : std::string(5000, 'x') + "\n";
        if (s.kind == ROLLING) s.limit = src.pick({100, 1000, 9000, 100000});
        p.S.push_back(s);
    }
    p.pool_kind = src.pick({1, 2, 3});
    p.queue = src.pick({64, 1, 8, 1000});
    p.workers = p.pool_kind == 3 || !sudden ? src.pick({1, 2, 3}) : 1;
    for (size_t i = 0; i < nl; ++i) {
        LoggerPlan l;
        l.async = src.chance(1, 2);
        if (l.async && i > 0 && src.chance(1, 4)) l.async = false;
        l.sinks.push_back(src.below(ns));
        for (size_t k = 0; k < ns; ++k) if (k != l.sinks[0] && src.chance(1, 3)) l.sinks.push_back(k);
        l.flush_level = int(src.pick({6, 4, 2, 0}));
        p.L.push_back(l);
    }
    for (size_t t = 0; t < nt; ++t) {
        std::vector<Step> v;
        size_t n = src.small_size(1, 80);
        unsigned fl = src.pick({20, 6, 3});
        for (size_t k = 0; k < n; ++k) {
            Step s;
            s.logger = src.below(nl);
            s.level = int(src.range(level::info, level::critical));
            s.len = src.pick({src.below(20), src.below(300), src.below(6000)});
            s.flush = src.chance(1, fl);
            if (src.chance(1, 20)) s.pause_us = unsigned(src.below(1000));
            v.push_back(s);
        }
        p.T.push_back(v);
    }
    p.stdout_is_pipe = src.chance(1, 2);
    // a sink that is not thread-safe must not be used by a worker and a thread, or by several workers
    for (size_t i = 0; i < ns; ++i) {
        bool sync = false, as = false;
        for (auto& l : p.L)
            if (std::count(l.sinks.begin(), l.sinks.end(), i)) (l.async ? as : sync) = true;
        if ((sync && as) || (as && p.workers > 1)) p.S[i].mt = true;
    }
    p.dir = pbt::scratch() + "/case";
    return p;
}
void note_plan(Src& src, const Plan& p) {
    for (auto& s : p.S) {
        static const char* const K[] = {"file", "rolling", "stdout"};
        src.note(pbt::strf("sink: %s %s%s limit %zu, %zu bytes before", K[s.kind], s.mt ? "mt" : "st", s.truncate ? " truncate" : "", s.limit, s.before.size()));
    }
    for (auto& l : p.L) {
        std::string s;
        for (size_t k : l.sinks) s += " " + std::to_string(k);
        src.note(pbt::strf("logger%s flush level %d, sinks%s", l.async ? " async" : "", l.flush_level, s.c_str()));
    }
    std::string s;
    for (auto& t : p.T) s += pbt::strf(" %zu", t.size());
    src.note(pbt::strf("%s pool, queue %zu, %zu workers; threads log%s messages", lib::pool_name(p.pool_kind), p.queue, p.workers, s.c_str()));
}

std::string sink_path(const Plan& p, size_t i) { return p.dir + "/s" + std::to_string(i) + ".log"; }

sink_shr_ptr make_sink(const Plan& p, size_t i) {
    const SinkPlan& s = p.S[i];
    sink_shr_ptr r;
    switch (s.kind) {
        case BASIC:
            if (s.mt) r = std::make_shared<sinks::basic_file_sink_mt>(sink_path(p, i), s.truncate);
            else r = std::make_shared<sinks::basic_file_sink_st>(sink_path(p, i), s.truncate);
            break;
        case ROLLING:
            if (s.mt) r = std::make_shared<sinks::rolling_file_sink_mt>(sink_path(p, i), s.limit, 9999);
            else r = std::make_shared<sinks::rolling_file_sink_st>(sink_path(p, i), s.limit, 9999);
            break;
        default:
            if (s.mt) r = std::make_shared<sinks::stdout_sink_mt>();
            else r = std::make_shared<sinks::stdout_sink_st>();
    }
    return r;
}

// one thread's script, in the child
void work(const Plan& p, size_t t, const std::vector<logger_shr_ptr>& L) {
    Journal& j = *journal();
    auto mark = [&](size_t logger, uint64_t n) {
        for (size_t i : p.L[logger].sinks) if (j.safe[t][i] < n) j.safe[t][i] = n;
    };
    for (size_t k = 0; k < p.T[t].size(); ++k) {
        const Step& s = p.T[t][k];
        const LoggerPlan& l = p.L[s.logger];
        j.started[t] = k + 1;
        std::string text = text_of(t, k, s.len);
        L[s.logger]->log(static_cast<level::level_enum>(s.level), fmt_string_view(text.data(), text.size()));
        j.done[t] = k + 1;
        // A flush covers what was logged before through loggers that write at once, or through the same pool;
        // a synchronous flush says nothing about what the pool still holds.  The parent sorts that out: here a
        // mark is the number of messages so far.
        if (!l.async && s.level >= l.flush_level) mark(s.logger, k + 1);
        // a plain standard-stream sink passes each message on at once
        if (!l.async) for (size_t i : l.sinks) if (p.S[i].kind == PLAIN_STD && j.safe[t][i] < k + 1) j.safe[t][i] = k + 1;
        if (s.flush) {
            L[s.logger]->flush();
            mark(s.logger, k + 1);
        }
        if (s.pause_us) usleep(s.pause_us);
    }
}

struct Ended { int status; std::string out, err; bool hung = false; std::string where; };

// what the threads of a child are waiting in
std::string waiting_in(pid_t pid) {
    std::string r, task = pbt::strf("/proc/%d/task", int(pid));
    if (DIR* d = opendir(task.c_str())) {
        while (dirent* e = readdir(d))
            if (e->d_name[0] != '.') r += pbt::strf("\n  thread %s: %s", e->d_name, pbt::slurp(task + "/" + e->d_name + "/syscall").c_str());
        closedir(d);
    }
    return r;
}
uint64_t progress_of(const Journal& j) {
    uint64_t n = j.ended;
    for (auto& x : j.started) n += x;
    for (auto& x : j.done) n += x;
    return n;
}

// runs fn in a child and waits for it; kill_after_us >= 0: kills it then
Ended in_child_once(const Plan& p, const std::function<void()>& fn, long kill_after_us) {
    Journal* j = journal();
    memset(static_cast<void*>(j), 0, sizeof *j);
    std::string out = p.dir + ".out", err = p.dir + ".err";
    ::unlink(out.c_str());
    ::unlink(err.c_str());
    fflush(nullptr);
    int pfd[2] = {-1, -1};
    if (p.stdout_is_pipe && ::pipe(pfd) != 0) throw pbt::Infra{"pipe"};
    pid_t parent = getpid();
    pid_t pid = fork();
    if (pid < 0) throw pbt::Infra{"fork"};
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != parent) _exit(0);
        int o = p.stdout_is_pipe ? pfd[1] : ::open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
        int e = ::open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
        dup2(o, 1);
        dup2(e, 2);
        ::close(o);
        ::close(e);
        if (pfd[0] >= 0) ::close(pfd[0]);
        signal(SIGABRT, SIG_DFL);
        fn();
        _exit(9);
    }
    Ended r;
    std::thread reader;
    if (p.stdout_is_pipe) {
        ::close(pfd[1]);
        reader = std::thread([&] {
            char b[65536];
            for (;;) {
                ssize_t n = ::read(pfd[0], b, sizeof b);
                if (n < 0 && errno == EINTR) continue;
                if (n <= 0) break;
                r.out.append(b, size_t(n));
            }
        });
    }
    if (kill_after_us >= 0) {
        struct timespec ts{0, kill_after_us * 1000};
        nanosleep(&ts, nullptr);
        kill(pid, SIGKILL);
    }
    // The time is counted in rounds of this loop, so a sandbox that is stopped does not look like a hang.
    int st = 0;
    uint64_t last = ~0ull;
    for (size_t round = 0, quiet_us = 0;; ++round) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (w < 0 && errno != EINTR) throw pbt::Infra{"waitpid"};
        size_t us = round < 100 ? 100 : round < 300 ? 1000 : 20000;
        struct timespec ts{0, long(us) * 1000};
        nanosleep(&ts, nullptr);
        quiet_us += us;
        uint64_t now = progress_of(*j);
        if (now != last) { last = now; quiet_us = 0; }
        pbt::beat();
        if (quiet_us > 40000000 && !r.hung) {
            r.hung = true;
            r.where = waiting_in(pid);
            kill(pid, SIGKILL);
        }
    }
    if (reader.joinable()) { reader.join(); ::close(pfd[0]); }
    r.status = st;
    if (!p.stdout_is_pipe) r.out = pbt::slurp(out);
    r.err = pbt::slurp(err);
    return r;
}

void prepare(const Plan& p) {
    pbt::empty_dir(p.dir);
    for (size_t i = 0; i < p.S.size(); ++i)
        if (p.S[i].kind == BASIC && !p.S[i].before.empty()) pbt::spit(sink_path(p, i), p.S[i].before);
}

// A child that hangs before it logged anything is tried again: the allocator's locks may have been held at the fork.
Ended in_child(const Plan& p, const std::function<void()>& fn, long kill_after_us) {
    for (int i = 0;; ++i) {
        Ended e = in_child_once(p, fn, kill_after_us);
        if (!e.hung || i == 2 || progress_of(*journal()) != 0) return e;
        prepare(p);
    }
}

// what a sink put where
std::string content(const Plan& p, size_t i, const Ended& e) {
    if (p.S[i].kind == PLAIN_STD) return e.out;
    if (p.S[i].kind == BASIC) {
        std::string s = pbt::slurp(sink_path(p, i));
        const std::string& b = p.S[i].before;
        if (!p.S[i].truncate) {
            REQUIRE(s.compare(0, b.size(), b) == 0, "sink %zu: what was in the file is gone", i);
            s.erase(0, b.size());
        }
        else if (!b.empty() && s == b) s.clear();   // ended before the file was opened
        return s;
    }
    std::string all;
    for (size_t n = 1;; ++n) {
        std::string f = p.dir + pbt::strf("/s%zu_%04zu.log", i, n);
        struct stat st;
        if (::stat(f.c_str(), &st) != 0) break;
        all += pbt::slurp(f);
    }
    return all;
}

// The messages in a file: each whole, once, in the order of its thread where one is promised; a sudden end may
// leave one cut at the end.
void check_file(const Plan& p, size_t i, const Ended& e, bool sudden) {
    Journal& j = *journal();
    std::string s = content(p, i, e);
    std::string what = pbt::strf("sink %zu", i);
    std::vector<std::set<size_t>> has(p.T.size());
    size_t pos = 0;
    while (pos < s.size()) {
        size_t nl = s.find('\n', pos);
        if (nl == std::string::npos) {
            REQUIRE(sudden, "%s: the last message is cut: %s", what.c_str(), pbt::quote(s.substr(pos, 100)).c_str());
            break;
        }
        std::string line = s.substr(pos, nl - pos);
        size_t t = 0, k = 0, len = 0;
        REQUIRE(sscanf(line.c_str(), "T%zu.%zu:%zu:", &t, &k, &len) == 3 && t < p.T.size() && k < p.T[t].size() && line == text_of(t, k, p.T[t][k].len),
                "%s: not a message at byte %zu: %s", what.c_str(), pos, pbt::quote(line.substr(0, 200)).c_str());
        const auto& sk = p.L[p.T[t][k].logger].sinks;
        REQUIRE(std::count(sk.begin(), sk.end(), i), "%s: message %zu of thread %zu is not for it", what.c_str(), k, t);
        REQUIRE(k < j.started[t], "%s: message %zu of thread %zu was not logged yet", what.c_str(), k, t);
        REQUIRE(has[t].insert(k).second, "%s: message %zu of thread %zu is there twice", what.c_str(), k, t);
        pos = nl + 1;
    }
    for (size_t t = 0; t < p.T.size(); ++t) {
        for (size_t k = 0; k < (sudden ? j.started[t].load() : p.T[t].size()); ++k) {
            const LoggerPlan& l = p.L[p.T[t][k].logger];
            if (!std::count(l.sinks.begin(), l.sinks.end(), i) || has[t].count(k)) continue;
            REQUIRE(sudden, "%s: message %zu of thread %zu is missing after a normal end (%s logger)", what.c_str(), k, t, l.async ? "async" : "sync");
            if (!l.async) REQUIRE(k >= j.safe[t][i], "%s: message %zu of thread %zu is missing, flushed up to %llu (sync logger)", what.c_str(), k, t,
                                  (unsigned long long)j.safe[t][i]);
        }
        // an asynchronous logger's messages are covered by the flushes of asynchronous loggers of that thread, all on one pool
        if (!sudden) continue;
    }
}
// how far the flushes of asynchronous loggers reach is known from the script alone
void check_async_flushed(const Plan& p, size_t i, const Ended& e) {
    Journal& j = *journal();
    std::string s = content(p, i, e);
    for (size_t t = 0; t < p.T.size(); ++t) {
        // the last flush of thread t that has returned: the thread began something later, or safe says so
        uint64_t upto = 0;
        for (size_t k = 0; k < p.T[t].size(); ++k) {
            const Step& st = p.T[t][k];
            const LoggerPlan& l = p.L[st.logger];
            if (!l.async || !st.flush || !std::count(l.sinks.begin(), l.sinks.end(), i)) continue;
            if (j.started[t] > k + 1) upto = k + 1;
            else if (j.done[t] == k + 1 && j.safe[t][i] >= k + 1 && p.S[i].kind != PLAIN_STD) upto = k + 1;
        }
        for (size_t k = 0; k < upto; ++k) {
            const Step& st = p.T[t][k];
            const LoggerPlan& l = p.L[st.logger];
            if (!l.async || !std::count(l.sinks.begin(), l.sinks.end(), i)) continue;
            std::string line = text_of(t, k, st.len) + "\n";
            REQUIRE(s.find(line) != std::string::npos, "sink %zu: message %zu of thread %zu is missing, flushed up to %llu (async logger)", i, k, t,
                    (unsigned long long)upto);
        }
    }
}
std::string status_text(int st) {
    if (WIFEXITED(st)) return pbt::strf("exit status %d", WEXITSTATUS(st));
    return pbt::strf("signal %d", WTERMSIG(st));
}
}   // namespace

PROPERTY(crash, 90) {
    Plan p = make_plan(src, true);
    // 0 at a library call, 1 killed from outside, 2 at the end of the scripts
    size_t mode = src.weighted({5, 3, 2});
    int how = int(src.below(5));
    size_t steps = 0;
    for (auto& t : p.T) steps += t.size();
    uint64_t at = mode == 0 ? 1 + src.below(std::max<size_t>(8, steps * 6)) : 0;
    long after = mode == 1 ? long(src.pick({src.below(3000), src.below(20000)})) : -1;
    note_plan(src, p);
    static const char* const HOW[] = {"_exit", "SIGKILL", "abort", "SIGSEGV", "SIGTERM"};
    src.note(mode == 0 ? pbt::strf("%s at library call %llu", HOW[how], (unsigned long long)at)
                       : mode == 1 ? pbt::strf("killed after %ld us", after) : pbt::strf("%s at the end", HOW[how]));
    prepare(p);
    Ended e = in_child(p, [&] {
        die_at = at;
        die_how = how;
        std::vector<sink_shr_ptr> S;
        for (size_t i = 0; i < p.S.size(); ++i) { S.push_back(make_sink(p, i)); S[i]->set_pattern("%v"); }
        thread_pool_shr_ptr pool;
        std::vector<logger_shr_ptr> L;
        for (size_t n = 0; n < p.L.size(); ++n) {
            auto& l = p.L[n];
            std::vector<sink_shr_ptr> v;
            for (size_t i : l.sinks) v.push_back(S[i]);
            if (l.async && !pool) pool = lib::make_pool(p.pool_kind, p.queue, p.workers);
            if (l.async) L.push_back(std::make_shared<async_logger>("log", v.begin(), v.end(), pool));
            else L.push_back(std::make_shared<logger>("log", v.begin(), v.end()));
            L.back()->set_flush_level(static_cast<level::level_enum>(l.flush_level));
        }
        armed = mode == 0;
        std::vector<std::thread> ts;
        for (size_t t = 1; t < p.T.size(); ++t) ts.emplace_back([&, t] { work(p, t, L); });
        work(p, 0, L);
        for (auto& t : ts) t.join();
        journal()->ended = 1;
        if (mode == 2) die(how);
        if (mode == 1) for (;;) pause();
        die(1);
    }, after);
    REQUIRE(!e.hung, "the process did not end; journal at %llu%s", (unsigned long long)progress_of(*journal()), e.where.c_str());
    bool ok = (WIFSIGNALED(e.status) && (WTERMSIG(e.status) == SIGKILL || WTERMSIG(e.status) == SIGABRT || WTERMSIG(e.status) == SIGSEGV ||
                                         WTERMSIG(e.status) == SIGTERM)) ||
              (WIFEXITED(e.status) && WEXITSTATUS(e.status) == 7);
    REQUIRE(ok, "the child ended with %s: %s", status_text(e.status).c_str(), pbt::quote(e.err, 1500).c_str());
    REQUIRE(e.err.find("EXCEPTION #") == std::string::npos, "reported: %s", pbt::quote(e.err, 500).c_str());
    bool flushed = false;
    for (size_t i = 0; i < p.S.size(); ++i) {
        check_file(p, i, e, true);
        check_async_flushed(p, i, e);
        for (size_t t = 0; t < p.T.size(); ++t) if (journal()->safe[t][i]) flushed = true;
    }
    if (flushed && !journal()->ended) src.nontrivial();
    if (mode == 1) src.label("killed from outside");
    if (mode == 0 && !journal()->ended) src.label("ended at a library call");
}

// ------------------------------------------------------------------ normal ends

namespace {
template <typename F>
logger_shr_ptr made(const Plan& p, const LoggerPlan& l, const std::string& name) {
    size_t i = l.sinks[0];
    const SinkPlan& s = p.S[i];
    switch (s.kind) {
        case BASIC: return F::template create<sinks::basic_file_sink_mt>(name, sink_path(p, i), s.truncate);
        case ROLLING: return F::template create<sinks::rolling_file_sink_mt>(name, sink_path(p, i), s.limit, size_t(9999));
        default: return F::template create<sinks::stdout_sink_mt>(name);
    }
}
}

PROPERTY(normal_end, 90) {
    Plan p = make_plan(src, false);
    for (auto& s : p.S) s.mt = true;
    // factories make a sink for each logger, so each has one of its own then
    std::vector<bool> used(p.S.size());
    for (auto& l : p.L) {
        l.by_factory = l.sinks.size() == 1 && !used[l.sinks[0]] && src.chance(1, 2);
        for (auto& m : p.L)
            if (&m != &l && std::count(m.sinks.begin(), m.sinks.end(), l.sinks[0])) l.by_factory = false;
        l.keep = src.flip();
        for (size_t i : l.sinks) used[i] = true;
    }
    size_t end = src.weighted({4, 2, 2});       // exit(), close() then exit(), close() then _exit()
    bool flusher = src.chance(1, 4), hold_sinks = src.chance(1, 4), join = true, dflt = src.chance(1, 3), warm = src.chance(1, 3);
    int code = int(src.below(3));
    note_plan(src, p);
    static const char* const END[] = {"exit()", "close(), exit()", "close(), _exit()"};
    src.note(std::string(END[end]) + (flusher ? ", flush_every" : "") + (hold_sinks ? ", sinks held" : "") + (dflt ? ", a default logger" : ""));
    for (auto& l : p.L) src.note(pbt::strf("logger: %s, %s", l.by_factory ? "by factory" : "by hand", l.keep ? "held" : "only registered"));
    prepare(p);
    std::set<size_t> sinks_used;
    for (auto& l : p.L) for (size_t i : l.sinks) sinks_used.insert(i);
    Ended e = in_child(p, [&] {
        auto* keep = new std::vector<logger_shr_ptr>;       // never destroyed, as an object of main() is not by exit()
        {
            if (warm) set_global_pattern("%+");
            set_global_pattern("%v");
            bool any_async = false;
            for (auto& l : p.L) any_async = any_async || l.async;
            if (any_async) {
                switch (p.pool_kind) {
                    case 1: initialize_thread_pool<base::lock_thread_pool>(p.queue, p.workers); break;
                    case 2: initialize_thread_pool<base::lockfree_thread_pool>(p.queue, p.workers); break;
                    default: initialize_thread_pool<base::lockfree_concurrent_thread_pool>(p.queue, p.workers); break;
                }
            }
            std::vector<sink_shr_ptr> S(p.S.size());
            std::vector<logger_shr_ptr> L;
            for (size_t n = 0; n < p.L.size(); ++n) {
                auto& l = p.L[n];
                std::string name = "log" + std::to_string(n);
                if (l.by_factory) {
                    if (!l.async) L.push_back(made<sync_factory>(p, l, name));
                    else if (p.pool_kind == 1) L.push_back(made<async_factory_lock>(p, l, name));
                    else if (p.pool_kind == 2) L.push_back(made<async_factory_lockfree>(p, l, name));
                    else L.push_back(made<async_factory_lockfree_concurrent>(p, l, name));
                }
                else {
                    std::vector<sink_shr_ptr> v;
                    for (size_t i : l.sinks) { if (!S[i]) S[i] = make_sink(p, i); v.push_back(S[i]); }
                    if (l.async) L.push_back(std::make_shared<async_logger>(name, v.begin(), v.end(), get_thread_pool()));
                    else L.push_back(std::make_shared<logger>(name, v.begin(), v.end()));
                    initialize_logger(L.back());
                }
                L.back()->set_flush_level(static_cast<level::level_enum>(l.flush_level));
                if (l.keep) keep->push_back(L.back());
            }
            if (hold_sinks) new std::vector<sink_shr_ptr>(S);
            if (flusher) flush_every(std::chrono::milliseconds(1));
            if (dflt) set_default_logger(L[0]);
            std::vector<std::thread> ts;
            for (size_t t = 1; t < p.T.size(); ++t) ts.emplace_back([&, t] { work(p, t, L); });
            work(p, 0, L);
            for (auto& t : ts) t.join();
            (void)join;
        }
        if (end >= 1) learnlog::close();
        if (end == 2) {
            keep->clear();
            journal()->ended = 1;
            _exit(code);
        }
        journal()->ended = 1;
        exit(code);
    }, -1);
    REQUIRE(!e.hung, "the process did not end; journal at %llu%s", (unsigned long long)progress_of(*journal()), e.where.c_str());
    REQUIRE(WIFEXITED(e.status) && WEXITSTATUS(e.status) == code, "the process ended with %s instead of status %d: %s", status_text(e.status).c_str(), code,
            pbt::quote(e.err, 1500).c_str());
    // the flusher may find the pool gone while the process ends
    if (!flusher) REQUIRE(e.err.find("EXCEPTION #") == std::string::npos, "reported: %s", pbt::quote(e.err, 500).c_str());
    bool async_used = false;
    for (size_t i : sinks_used) {
        if (end == 2 && hold_sinks && p.S[i].kind != PLAIN_STD) continue;   // held open, and _exit() does not flush
        check_file(p, i, e, false);
    }
    for (auto& l : p.L) async_used = async_used || l.async;
    size_t n = 0;
    for (auto& t : p.T) n += t.size();
    if (async_used && n > p.queue) src.nontrivial();
    if (end == 0) src.label("without close()");
}

PBT_MAIN()
