// C14: opening a file is retried as asked.  The calls to the system are wrapped at link time and
// fail as the case says.
#include "lib.h"
#include "pbt.h"

#include "base/file_base.h"

#include <dirent.h>

using namespace learnlog;
using pbt::Src;

namespace {
struct CallRec {
    int kind;           // 0 open, 1 fdopen, 2 mkdir
    bool failed;
    double t0, t1;
};
struct Plan {
    bool on = false;
    std::vector<bool> open_fail, fdopen_fail, mkdir_fail;
    std::vector<int> open_errno;
    size_t no = 0, nf = 0, nm = 0;
    std::vector<CallRec> calls;
    bool opening() { return on && no < open_fail.size() && open_fail[no]; }
} plan;

template <typename F, typename R>
auto wrapped(int kind, std::vector<bool>& v, size_t& n, R bad, F real) -> decltype(real()) {
    if (!plan.on) return real();
    CallRec c{kind, false, pbt::now_s(), 0};
    bool f = n < v.size() && v[n];
    int e = n < plan.open_errno.size() ? plan.open_errno[n] : EMFILE;
    ++n;
    decltype(real()) r;
    if (f) { r = bad; errno = e; }
    else r = real();
    c.failed = r == bad;
    int keep = errno;
    c.t1 = pbt::now_s();
    plan.calls.push_back(c);
    errno = keep;
    return r;
}
}   // namespace

extern "C" {
int __real_open(const char*, int, ...);
int __real_open64(const char*, int, ...);
FILE* __real_fdopen(int, const char*);
FILE* __real_fopen(const char*, const char*);
FILE* __real_fopen64(const char*, const char*);
int __real_mkdir(const char*, mode_t);

int __wrap_open(const char* p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
    va_end(ap);
    return wrapped(0, plan.open_fail, plan.no, -1, [&] { return __real_open(p, fl, m); });
}
int __wrap_open64(const char* p, int fl, ...) {
    va_list ap;
    va_start(ap, fl);
    int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
    va_end(ap);
    return wrapped(0, plan.open_fail, plan.no, -1, [&] { return __real_open64(p, fl, m); });
}
FILE* __wrap_fdopen(int fd, const char* m) {
    return wrapped(1, plan.fdopen_fail, plan.nf, static_cast<FILE*>(nullptr), [&] { return __real_fdopen(fd, m); });
}
FILE* __wrap_fopen(const char* p, const char* m) {
    return wrapped(0, plan.open_fail, plan.no, static_cast<FILE*>(nullptr), [&] { return __real_fopen(p, m); });
}
FILE* __wrap_fopen64(const char* p, const char* m) {
    return wrapped(0, plan.open_fail, plan.no, static_cast<FILE*>(nullptr), [&] { return __real_fopen64(p, m); });
}
int __wrap_mkdir(const char* p, mode_t m) {
    return wrapped(2, plan.mkdir_fail, plan.nm, -1, [&] { return __real_mkdir(p, m); });
}
}

static size_t open_fds() {
    size_t n = 0;
    if (DIR* d = opendir("/proc/self/fd")) {
        while (readdir(d)) ++n;
        closedir(d);
    }
    return n;
}

PROPERTY(retry) {
    std::string dir = pbt::scratch() + "/case";
    pbt::empty_dir(dir);
    bool trunc = src.flip();
    int tries = int(src.pick({5, 1, 2, 3, 4, 0, 6}));
    unsigned pause = unsigned(src.pick({0, 1, 2, 3, 5, 9}));
    bool many = src.chance(1, 8);
    if (many) { tries = int(src.pick({8, 10, 11, 17, 33, 60})); pause = unsigned(src.below(3)); }
    bool defaults = src.chance(1, 8);       // the default count and pause
    if (defaults) { tries = 5; pause = 10; }
    bool sub = src.chance(1, 4);
    std::string file = dir + (sub ? "/p/q/f.log" : "/f.log");
    std::string old;
    bool exists = !sub && src.flip();
    if (exists) { old = "old content"; pbt::spit(file, old); }

    plan = Plan{};
    unsigned den = src.pick({2u, 3u, 1u, 6u});
    size_t nplan = many ? 64 : 16, good = many ? src.below(70) : 0;      // mostly failures before that one
    for (size_t i = 0; i < nplan; ++i) {
        plan.open_fail.push_back(many ? i != good && src.chance(19, 20) : src.chance(1, den + 1));
        plan.open_errno.push_back(src.pick({EMFILE, EACCES, EINTR, ENOSPC, EBUSY}));
    }
    bool fd_faults = src.chance(1, 2), mk_faults = sub && src.flip();
    for (size_t i = 0; i < nplan; ++i) {
        plan.fdopen_fail.push_back(fd_faults && src.chance(1, 3));
        plan.mkdir_fail.push_back(mk_faults && src.chance(1, 2));
    }

    static const mode_t usual = [] { mode_t m = ::umask(022); ::umask(m); return m; }();
    struct Umask {
        explicit Umask(mode_t m) { ::umask(m); }
        ~Umask() { ::umask(usual); }
    };
    mode_t mask = src.chance(1, 3) ? src.pick<mode_t>({022, 077, 027, 0, 002}) : usual;
    Umask umask_scope(mask);
    size_t fds = open_fds();
    FILE* fp = nullptr;
    std::string before = dir + "/before.log";
    bool was_open = src.chance(1, 4);
    if (was_open) {
        base::file_base::open(&fp, before);
        fputs("kept", fp);
    }
    bool threw = false;
    std::string what;
    plan.on = true;
    try {
        if (defaults) base::file_base::open(&fp, file, trunc);
        else base::file_base::open(&fp, file, trunc, tries, pause);
    }
    catch (const std::exception& e) { threw = true; what = e.what(); }
    plan.on = false;

    int failures = 0;
    for (auto& c : plan.calls)
        if (c.failed && c.kind != 2) ++failures;
    src.note(pbt::strf("%s mode, %d attempts, pause %u ms, %zu calls, %d failed%s", trunc ? "truncate" : "append", tries, pause,
                       plan.calls.size(), failures, threw ? ", gave up" : ""));
    REQUIRE(failures <= tries, "%d attempts failed, %d asked for", failures, tries);
    if (threw) {
        REQUIRE(failures == tries, "gave up after %d failures, %d attempts asked for", failures, tries);
        REQUIRE(fp == nullptr, "the stream handle is not null after a failure");
        REQUIRE(what.find(file) != std::string::npos, "the exception does not name the file: %s", what.c_str());
        REQUIRE(open_fds() == fds, "%zu descriptors open, %zu before", open_fds(), fds);
        std::string now = pbt::slurp(file);
        if (!trunc || tries == 0) pbt::require_eq_str(now, old, "content after a failure");
        else REQUIRE(now.empty() || now == old, "content after a failure in truncate mode");
    }
    else {
        REQUIRE(fp != nullptr, "no stream after success");
        REQUIRE(tries > 0 && failures < tries, "success after %d failures, %d attempts asked for", failures, tries);
        size_t last = plan.calls.size();
        while (last && plan.calls[last - 1].kind == 2) --last;
        REQUIRE(last && !plan.calls[last - 1].failed, "success although the last call failed");
        REQUIRE(open_fds() == fds + 1, "%zu descriptors open, %zu before", open_fds(), fds);
        REQUIRE(fcntl(fileno(fp), F_GETFD) & FD_CLOEXEC, "child processes would inherit the stream");
        struct stat st;
        REQUIRE(::fstat(fileno(fp), &st) == 0 && S_ISREG(st.st_mode), "not a regular file");
        if (!exists) REQUIRE((st.st_mode & 07777) == (0644u & ~unsigned(mask)), "the file was made with permissions %o, umask %o", unsigned(st.st_mode & 07777), unsigned(mask));
        if (sub)
            for (auto d : {"/p", "/p/q"})
                REQUIRE(::stat((dir + d).c_str(), &st) == 0 && S_ISDIR(st.st_mode) && (st.st_mode & 0777) == (0755u & ~unsigned(mask)),
                        "directory %s was made with permissions %o, umask %o", d, unsigned(st.st_mode & 0777), unsigned(mask));
        std::string base = trunc ? "" : old;
        pbt::require_eq_str(pbt::slurp(file), base, "content after opening");
        fputs("new", fp);
        base::file_base::flush(fp, file);
        pbt::require_eq_str(pbt::slurp(file), base + "new", "content after writing");
        // truncation is not repeated: what others append stays
        {
            FILE* o = ::fopen(file.c_str(), "ab");
            fputs("other", o);
            ::fclose(o);
        }
        fputs("last", fp);
        base::file_base::close(&fp, file);
        REQUIRE(fp == nullptr, "the handle is not null after close");
        pbt::require_eq_str(pbt::slurp(file), base + "newotherlast", "content at the end");
        REQUIRE(open_fds() == fds, "%zu descriptors open, %zu before", open_fds(), fds);
    }
    if (was_open) pbt::require_eq_str(pbt::slurp(before), "kept", "the file open before");
    // the pause after each failure that was followed by another attempt
    double upper = 0;
    for (size_t i = 0; i + 1 < plan.calls.size(); ++i) {
        if (!plan.calls[i].failed || plan.calls[i].kind == 2) continue;
        double gap = plan.calls[i + 1].t0 - plan.calls[i].t1;
        REQUIRE(gap >= pause / 1000.0 - 0.0002, "%.3f ms between a failed attempt and the next, %u ms asked for", gap * 1000, pause);
        upper += gap;
    }
    // a pause that is far too long on average (a starved sandbox delays single ones)
    if (failures >= 3) REQUIRE(upper < failures * (pause + 400) / 1000.0, "pauses of %.0f ms on average, %u ms asked for", upper * 1000 / failures, pause);
    if (failures) src.nontrivial();
    if (threw) src.label("gave up");
    if (failures && !threw) src.label("succeeded after failures");
    if (sub) src.label("directories created");
}

PBT_MAIN()
