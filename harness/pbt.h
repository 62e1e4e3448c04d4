// A small property-based testing engine.
//
// A property is a function of a Src, the source of all its random choices.  Every choice is
// appended to a tape (an mmap'd file, so it survives a crash); replaying a tape reproduces the
// case, and editing the tape (run.py deletes and lowers entries) shrinks it.  Choice 0 is always
// the simplest alternative.
#pragma once

#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <initializer_list>
#include <map>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <system_error>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace pbt {

// Not a std::exception, so that the library under test never swallows it.
struct Failure {
    std::string msg;
};
struct Discard {};      // the case is outside the property's domain
struct Infra {          // the sandbox, not the library, got in the way
    std::string msg;
};

inline std::string vfmt(const char* f, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
__attribute__((format(printf, 1, 2))) inline std::string strf(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    std::string s = vfmt(f, ap);
    va_end(ap);
    return s;
}
__attribute__((noreturn, format(printf, 1, 2))) inline void fail(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    Failure x{vfmt(f, ap)};
    va_end(ap);
    throw x;
}
#define REQUIRE(cond, ...)                                                       \
    do {                                                                         \
        if (!(cond))                                                             \
            throw pbt::Failure{std::string("[") + #cond + "] " + pbt::strf(__VA_ARGS__)}; \
    } while (0)

inline std::string quote(const std::string& s, size_t max = 300) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        if (i == max) { r += strf("...(%zu bytes)", s.size()); break; }
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) r += strf("\\x%02x", c);
        else r += char(c);
    }
    return r + "\"";
}
inline void require_eq_str(const std::string& got, const std::string& want, const char* what) {
    if (got == want) return;
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    size_t from = i > 60 ? i - 60 : 0;
    throw Failure{strf("%s: differs at byte %zu (got %zu bytes, want %zu)\n  got : %s\n  want: %s", what, i,
                       got.size(), want.size(), quote(got.substr(from)).c_str(),
                       quote(want.substr(from)).c_str())};
}

struct Rng {    // splitmix64 / xorshift mix
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a ^ (b * 0xd6e8feb86659fd93ull + 0x632be59bd9b4e019ull));
    r.next();
    return r.next();
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

struct Tape {   // layout of the shared file
    static constexpr size_t CAP = 1 << 17;
    uint64_t count;
    uint64_t case_no;
    uint64_t in_case;
    uint64_t pad;
    uint64_t v[CAP];
};

class Src {
public:
    Src(uint64_t seed, Tape* t) : rng_(seed), tape_(t) { tape_->count = 0; }
    Src(const std::vector<uint64_t>* replay, Tape* t) : rng_(1), tape_(t), replay_(replay) { tape_->count = 0; }
    Src(const uint8_t* data, size_t n, Tape* t) : rng_(1), tape_(t), bytes_(data), nbytes_(n) { tape_->count = 0; }

    uint64_t below(uint64_t n) {
        if (n <= 1) return 0;
        uint64_t v;
        if (replay_) {
            v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
            ++pos_;
            if (v >= n) v %= n;
        }
        else if (bytes_) {
            int k = n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x100000000ull ? 4 : 8;
            v = 0;
            for (int i = 0; i < k; ++i) v = v << 8 | (pos_ < nbytes_ ? bytes_[pos_++] : 0);
            v %= n;
        }
        else v = rng_.below(n);
        if (tape_->count < Tape::CAP) tape_->v[tape_->count++] = v;
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) {     // inclusive; shrinks to lo
        return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
    }
    size_t size(size_t lo, size_t hi) { return static_cast<size_t>(range(int64_t(lo), int64_t(hi))); }
    // a size in [lo, hi], small ones likelier
    size_t small_size(size_t lo, size_t hi) {
        size_t span = hi - lo;
        switch (below(4)) {
            case 0: return lo + below(std::min<size_t>(span, 3) + 1);
            case 1: return lo + below(std::min<size_t>(span, 10) + 1);
            case 2: return lo + below(std::min<size_t>(span, 40) + 1);
            default: return lo + below(span + 1);
        }
    }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool flip() { return below(2) != 0; }
    template <typename T>
    T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template <typename T>
    const T& pick(const std::vector<T>& l) { return l[below(l.size())]; }
    size_t weighted(std::initializer_list<unsigned> w) {
        uint64_t sum = 0;
        for (unsigned x : w) sum += x;
        uint64_t v = below(sum);
        size_t i = 0;
        for (unsigned x : w) {
            if (v < x) return i;
            v -= x;
            ++i;
        }
        return 0;
    }
    uint64_t bits() { return below(~0ull); }
    // printable ascii without the characters in `not_`
    std::string ascii(size_t len, const char* not_ = "") {
        std::string s;
        for (size_t i = 0; i < len; ++i) {
            char c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,;:-_/!?()[]<>+*=#@~'\"|&$^\\`{}%"
                [below(94)];
            while (std::strchr(not_, c)) c = 'a';
            s += c;
        }
        return s;
    }
    // arbitrary bytes, including NUL, control characters and UTF-8 fragments
    std::string bytes(size_t len) {
        std::string s;
        for (size_t i = 0; i < len; ++i) s += static_cast<char>((below(256) + 'a') & 255);
        return s;
    }

    void label(const char* l) { ++labels_[l]; }
    void nontrivial(const char* why = nullptr) { nontrivial_ = true; if (why) label(why); }
    bool is_nontrivial() const { return nontrivial_; }
    bool want_note() const { return want_note_; }
    void set_want_note(bool b) { want_note_ = b; }
    void note(const std::string& s) {
        if (!want_note_ || note_.size() >= 6000) return;
        note_ += s;
        note_ += '\n';
        if (live_) { fputs((s + "\n").c_str(), live_); fflush(live_); }
    }
    void set_live(FILE* f) { live_ = f; }
    const std::string& get_note() const { return note_; }
    const std::map<std::string, uint64_t>& labels() const { return labels_; }
    uint64_t tape_hash() const { return hash_bytes(tape_->v, tape_->count * 8); }

private:
    Rng rng_;
    Tape* tape_;
    const std::vector<uint64_t>* replay_ = nullptr;
    const uint8_t* bytes_ = nullptr;
    size_t nbytes_ = 0;
    size_t pos_ = 0;
    std::map<std::string, uint64_t> labels_;
    bool nontrivial_ = false;
    bool want_note_ = false;
    FILE* live_ = nullptr;      // a crash must not lose the description of the case
    std::string note_;
};

struct Prop {
    const char* name;
    std::function<void(Src&)> fn;
    int hang_secs;
};
inline std::vector<Prop>& props() {
    static std::vector<Prop> p;
    return p;
}
struct Reg {
    Reg(const char* n, std::function<void(Src&)> f, int hang = 40) { props().push_back({n, std::move(f), hang}); }
};
#define PROPERTY(name, ...)                                           \
    static void prop_##name(pbt::Src& src);                           \
    static pbt::Reg reg_##name(#name, prop_##name, ##__VA_ARGS__);    \
    static void prop_##name(pbt::Src& src)

// ---------------------------------------------------------------- the running process

struct State {
    Tape* tape = nullptr;
    std::string msg_file;
    std::atomic<uint64_t> beat{0};      // changes whenever the property makes progress
    std::atomic<int> hang_secs{40};
    std::atomic<bool> in_case{false};
    std::string scratch;                // an empty directory of this process
};
inline State& state() {
    static State s;
    return s;
}
inline const std::string& scratch() { return state().scratch; }
// Tells the watchdog that a long case is making progress.
inline void beat() { state().beat.fetch_add(1, std::memory_order_relaxed); }

inline void write_msg(const std::string& s) {
    int fd = ::open(state().msg_file.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd < 0) return;
    ssize_t r = ::write(fd, s.data(), s.size());
    (void)r;
    ::close(fd);
}

enum { EXIT_FAILED = 10, EXIT_HANG = 11, EXIT_DISCARD = 12, EXIT_NOMEM = 13, EXIT_INFRA = 20, EXIT_SAN = 99 };

// Ends the process when one case makes no progress for hang_secs.  It counts its own ticks, so a
// sandbox that is stopped or starved does not look like a hang of the library.
inline void start_watchdog() {
    // waits until the thread runs: a fork while it starts would copy the allocator's locks as they are then
    static std::atomic<bool> up{false};
    std::thread([] {
        up = true;
        sigset_t all;
        sigfillset(&all);
        pthread_sigmask(SIG_BLOCK, &all, nullptr);
        uint64_t last = ~0ull;
        int ticks = 0;
        for (;;) {
            struct timespec ts{0, 100 * 1000 * 1000};
            while (::syscall(SYS_nanosleep, &ts, &ts) == -1 && errno == EINTR) {}
            State& s = state();
            uint64_t b = s.beat.load(std::memory_order_relaxed);
            if (!s.in_case.load() || b != last) {
                last = b;
                ticks = 0;
                continue;
            }
            if (++ticks >= 10 * s.hang_secs.load()) {
                write_msg(strf("hang: no progress for %d seconds", s.hang_secs.load()));
                _exit(EXIT_HANG);
            }
        }
    }).detach();
    while (!up) usleep(100);
}

inline void rm_rf(const std::string& dir);
inline void empty_dir(const std::string& dir);

// 0 passed, 1 discarded; exits on a failure
inline int run_one(const Prop& p, Src& src) {
    State& s = state();
    s.hang_secs = p.hang_secs;
    beat();
    s.in_case = true;
    int rc = 0;
    int code = 0;
    std::string msg;
    try {
        p.fn(src);
    }
    catch (const Failure& f) { code = EXIT_FAILED; msg = f.msg; }
    catch (const Discard&) { rc = 1; }
    catch (const Infra& i) { code = EXIT_INFRA; msg = i.msg; }
    catch (const std::bad_alloc&) { code = EXIT_NOMEM; msg = "out of memory"; }
    catch (const std::system_error& e) {
        bool again = e.code().value() == EAGAIN || e.code().value() == ENOMEM;
        code = again ? EXIT_INFRA : EXIT_FAILED;
        msg = std::string("unexpected exception: ") + e.what();
    }
    catch (const std::exception& e) { code = EXIT_FAILED; msg = std::string("unexpected exception: ") + e.what(); }
    s.in_case = false;
    beat();
    if (code) {
        write_msg(msg);
        fprintf(stderr, "%s\n", msg.c_str());
        fflush(nullptr);
        _exit(code);
    }
    return rc;
}

inline std::string json_str(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c >= 127) r += strf("\\u%04x", c);
        else r += char(c);
    }
    return r + "\"";
}

inline Tape* map_tape(const std::string& path) {
    int fd = ::open(path.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
    if (fd < 0 || ::ftruncate(fd, sizeof(Tape)) != 0) { perror("tape"); _exit(EXIT_INFRA); }
    void* p = ::mmap(nullptr, sizeof(Tape), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(EXIT_INFRA); }
    ::close(fd);
    return static_cast<Tape*>(p);
}

inline double now_s() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

// A run of many cases and what is reported about it.
struct Campaign {
    const Prop* prop = nullptr;
    std::string out;
    uint64_t seed = 0, worker = 0;
    double start = now_s();
    uint64_t done = 0, discarded = 0, nontrivial = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;

    void one(Src& src) {
        src.set_want_note(samples.size() < 3);
        if (run_one(*prop, src)) { ++discarded; return; }
        ++done;
        for (auto& l : src.labels()) labels[l.first] += 1;
        if (src.is_nontrivial()) {
            ++nontrivial;
            if (distinct.size() < 4000000) distinct.insert(src.tape_hash());
            if (samples.size() < 3 && !src.get_note().empty()) samples.push_back(src.get_note());
        }
    }
    void write() {
        FILE* f = fopen(out.c_str(), "w");
        if (!f) { perror("out"); _exit(EXIT_INFRA); }
        fprintf(f, "{\"evaluations\": %llu, \"discarded\": %llu, \"nontrivial\": %llu, \"secs\": %.3f, \"labels\": {",
                (unsigned long long)done, (unsigned long long)discarded, (unsigned long long)nontrivial, now_s() - start);
        bool first = true;
        for (auto& l : labels) {
            fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(l.first).c_str(), (unsigned long long)l.second);
            first = false;
        }
        fprintf(f, "}, \"samples\": [");
        for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", json_str(samples[i]).c_str());
        fprintf(f, "], \"hashes\": [");
        first = true;
        for (uint64_t h : distinct) {
            fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
            first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
    }
};

#ifdef PBT_FUZZ
}   // namespace pbt
extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t* data, size_t size));
namespace pbt {
inline Campaign*& fuzz_campaign() {
    static Campaign* c = nullptr;
    return c;
}
inline int fuzz_one(const uint8_t* data, size_t size) {
    Campaign& c = *fuzz_campaign();
    state().tape->case_no = c.done;
    Src src(data, size, state().tape);
    c.one(src);
    return 0;
}
// libFuzzer chooses the bytes that the choices are read from; oracle and report are the same.
inline void run_fuzzer(Campaign& c, char* argv0, double secs) {
    fuzz_campaign() = &c;
    atexit([] {     // the driver ends with exit()
        fuzz_campaign()->write();
        fflush(nullptr);
        _exit(0);
    });
    std::string corpus = state().scratch + "-corpus";
    ::mkdir(corpus.c_str(), 0755);
    Rng r(mix(c.seed, c.worker + 1));
    for (int i = 0; i < 150; ++i) {
        std::string b;
        size_t n = 20 + r.below(i < 100 ? 400 : 3000);
        for (size_t k = 0; k < n; ++k) b += char(r.next());
        FILE* f = fopen((corpus + "/" + std::to_string(i)).c_str(), "wb");
        if (!f) _exit(EXIT_INFRA);
        fwrite(b.data(), 1, b.size(), f);
        fclose(f);
    }
    std::vector<std::string> a = {argv0, strf("-max_total_time=%d", int(secs) + 1), strf("-seed=%llu", (unsigned long long)(r.next() % 1000000000 + 1)),
                                  "-max_len=4096", "-len_control=0", "-reload=0", "-verbosity=0", "-print_final_stats=0", "-detect_leaks=0",
                                  "-handle_segv=0", "-handle_abrt=0", "-handle_ill=0", "-handle_fpe=0", "-handle_bus=0", "-handle_int=0",
                                  "-handle_term=0", "-handle_xfsz=0", "-timeout=0", "-rss_limit_mb=0", corpus};
    std::vector<char*> v;
    for (auto& x : a) v.push_back(&x[0]);
    v.push_back(nullptr);
    int n = int(a.size());
    char** vp = v.data();
    LLVMFuzzerRunDriver(&n, &vp, fuzz_one);
}
#endif

inline int pbt_main(int argc, char** argv) {
    std::map<std::string, std::string> o;
    std::string mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    const Prop* prop = nullptr;
    for (auto& p : props())
        if (o["--prop"] == p.name) prop = &p;
    if (!prop || (mode != "run" && mode != "replay")) {
        fprintf(stderr, "usage: run|replay --prop P ...\n");
        for (auto& p : props()) fprintf(stderr, "  %s\n", p.name);
        return 2;
    }
    State& s = state();
    s.scratch = o["--scratch"];
    s.msg_file = o["--msg"];
    s.tape = map_tape(o["--tape"]);
    start_watchdog();

    if (mode == "replay") {
        std::vector<uint64_t> in;
        FILE* f = fopen(o["--in"].c_str(), "r");
        if (!f) { perror("in"); return 2; }
        unsigned long long v;
        while (fscanf(f, "%llu", &v) == 1) in.push_back(v);
        fclose(f);
        int repeat = atoi(o["--repeat"].c_str());
        if (repeat < 1) repeat = 1;
        int rc = 0;
        for (int i = 0; i < repeat; ++i) {
            Src src(&in, s.tape);
            src.set_want_note(true);
            FILE* n = i == 0 && o.count("--note") ? fopen(o["--note"].c_str(), "we") : nullptr;
            src.set_live(n);
            rc = run_one(*prop, src);
            if (n) fclose(n);
        }
        fflush(nullptr);
        _exit(rc ? EXIT_DISCARD : 0);
    }

    Campaign c;
    c.prop = prop;
    c.out = o["--out"];
    c.seed = strtoull(o["--seed"].c_str(), nullptr, 10);
    c.worker = strtoull(o["--worker"].c_str(), nullptr, 10);
    uint64_t cases = strtoull(o["--cases"].c_str(), nullptr, 10);
    double secs = atof(o["--secs"].c_str());
#ifdef PBT_FUZZ
    run_fuzzer(c, argv[0], secs);
#else
    for (uint64_t i = 0; i < cases; ++i) {
        if (now_s() - c.start > secs) break;
        s.tape->case_no = i;
        Src src(mix(mix(c.seed, c.worker + 1), i), s.tape);
        c.one(src);
    }
#endif
    (void)cases;
    (void)secs;
    c.write();
    fflush(nullptr);
    _exit(0);
}

// ---------------------------------------------------------------- helpers for files

inline std::string slurp(const std::string& path) {
    std::string r;
    int fd = ::open(path.c_str(), O_RDONLY);
    if (fd < 0) return r;
    char buf[65536];
    ssize_t n;
    while ((n = ::read(fd, buf, sizeof buf)) > 0) r.append(buf, size_t(n));
    ::close(fd);
    return r;
}
inline void spit(const std::string& path, const std::string& data) {
    int fd = ::open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd < 0) throw Infra{"cannot write " + path};
    size_t off = 0;
    while (off < data.size()) {
        ssize_t n = ::write(fd, data.data() + off, data.size() - off);
        if (n <= 0) { ::close(fd); throw Infra{"cannot write " + path}; }
        off += size_t(n);
    }
    ::close(fd);
}

}   // namespace pbt

#include <dirent.h>
namespace pbt {
// Only ever called on directories below scratch().
inline void rm_rf(const std::string& dir) {
    if (scratch().size() < 5 || dir.compare(0, scratch().size(), scratch()) != 0) _exit(EXIT_INFRA);
    DIR* d = ::opendir(dir.c_str());
    if (!d) { ::unlink(dir.c_str()); return; }
    while (dirent* e = ::readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = dir + "/" + n;
        struct stat st;
        if (::lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(p);
        else ::unlink(p.c_str());
    }
    ::closedir(d);
    ::rmdir(dir.c_str());
}
inline void empty_dir(const std::string& dir) {
    rm_rf(dir);
    ::mkdir(dir.c_str(), 0755);
}
// name -> content of every regular file below dir; directories get a trailing slash
inline void list_tree(const std::string& dir, const std::string& rel, std::map<std::string, std::string>& out) {
    DIR* d = ::opendir((dir + "/" + rel).c_str());
    if (!d) return;
    while (dirent* e = ::readdir(d)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string r = rel.empty() ? n : rel + "/" + n;
        struct stat st;
        if (::lstat((dir + "/" + r).c_str(), &st) != 0) continue;
        if (S_ISDIR(st.st_mode)) { out[r + "/"]; list_tree(dir, r, out); }
        else out[r] = slurp(dir + "/" + r);
    }
    ::closedir(d);
}
}   // namespace pbt

#define PBT_MAIN() int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
