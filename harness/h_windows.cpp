// C29: the Windows side of the library, compiled against stand-ins for the Windows calls (win/): the
// conversions between UTF-8 and wide text, the console sinks, and files with wide paths.
// The stand-ins follow the documentation of the calls; paths map below the scratch directory.
#include "sinks/rolling_file_sink.h"
#include "sinks/basic_file_sink.h"
#include "sinks/std_color_sinks.h"
#include "sinks/std_sinks.h"
#include "learnlog.h"
#include "base/file_base.h"
#include "base/wchar_support.h"

#include "capture.h"
#include "lib.h"
#include "pbt.h"

using namespace learnlog;
using pbt::Src;

// ------------------------------------------------------------------ text

namespace {
using Units = std::wstring;     // UTF-16 units, as on Windows, one to a wchar_t

void put8(std::string& s, uint32_t c) {
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
}
void put16(Units& s, uint32_t c) {
    if (c < 0x10000) s += wchar_t(c);
    else { c -= 0x10000; s += wchar_t(0xd800 + (c >> 10)); s += wchar_t(0xdc00 + (c & 0x3ff)); }
}
// the code points of valid UTF-8; false when it is not valid
bool points(const std::string& s, std::vector<uint32_t>& out) {
    for (size_t i = 0; i < s.size();) {
        unsigned char b = static_cast<unsigned char>(s[i]);
        size_t n = b < 0x80 ? 0 : b >= 0xc2 && b < 0xe0 ? 1 : b >= 0xe0 && b < 0xf0 ? 2 : b >= 0xf0 && b < 0xf5 ? 3 : 9;
        if (n == 9 || i + n >= s.size() + (n == 0)) return false;
        uint32_t c = n == 0 ? b : n == 1 ? b & 31 : n == 2 ? b & 15 : b & 7;
        for (size_t k = 1; k <= n; ++k) {
            unsigned char x = static_cast<unsigned char>(s[i + k]);
            if ((x & 0xc0) != 0x80) return false;
            c = c << 6 | (x & 63);
        }
        if ((n == 2 && (c < 0x800 || (c >= 0xd800 && c < 0xe000))) || (n == 3 && (c < 0x10000 || c > 0x10ffff))) return false;
        out.push_back(c);
        i += n + 1;
    }
    return true;
}
Units wide(const std::string& s) {
    std::vector<uint32_t> p;
    if (!points(s, p)) throw pbt::Infra{"the harness made text that is not UTF-8"};
    Units w;
    for (uint32_t c : p) put16(w, c);
    return w;
}
std::string narrow(const Units& w) {    // unpaired surrogates become U+FFFD
    std::string s;
    for (size_t i = 0; i < w.size(); ++i) {
        uint32_t c = uint32_t(w[i]) & 0xffff;
        if (c >= 0xd800 && c < 0xdc00 && i + 1 < w.size() && (w[i + 1] & 0xfc00) == 0xdc00) {
            c = 0x10000 + ((c - 0xd800) << 10) + (uint32_t(w[i + 1]) - 0xdc00);
            ++i;
        }
        else if (c >= 0xd800 && c < 0xe000) c = 0xfffd;
        put8(s, c);
    }
    return s;
}
std::string text(Src& src, size_t n, bool for_name = false) {
    std::string s;
    for (size_t i = 0; i < n; ++i) {
        switch (src.weighted({5, 2, 2, 1})) {
            case 0:
                if (for_name) s += src.pick<char>({'a', 'B', '7', '_', '-', ' ', 'z', '~'});
                else s += char(32 + src.below(95));
                break;
            case 1: put8(s, 0x80 + uint32_t(src.below(0x780))); break;
            case 2: put8(s, 0x4e00 + uint32_t(src.below(0x5000))); break;
            default: put8(s, src.pick<uint32_t>({0x1f600, 0x10000, 0x10ffff, 0x2f800, 0xffff, 0xe000, 0xd7ff, 0x800, 0x7ff, 0xfeff})); break;
        }
    }
    return s;
}

// ------------------------------------------------------------------ the stand-ins

struct Cell { wchar_t c; WORD attr; };
struct Console {
    WORD attr = 7;
    std::vector<Cell> cells;
};
Console consoles[2];
HANDLE std_handle[2];               // what GetStdHandle returns
std::vector<int> write_plan;        // per call of WriteConsoleW: 0 works, 1 fails, 2 writes a part
size_t writes = 0, bad_writes = 0;
thread_local DWORD last_error = 0;
std::atomic<bool> slow_console{false};
std::mutex console_mutex;           // only keeps the stand-ins whole

Console* console_of(HANDLE h) {
    for (auto& c : consoles)
        if (h == &c) return &c;
    return nullptr;
}

std::string root() { return pbt::scratch() + "/win"; }
std::set<int> inheritable;
std::vector<bool> handle_plan;      // per call of SetHandleInformation: whether it fails
size_t handle_calls = 0, slept = 0, opens = 0;
std::vector<int> synced;
bool sync_fails = false;

// the place of a path of Windows below the scratch directory; empty when there is none
std::string place(const wchar_t* p) {
    std::string s = narrow(p);
    for (char& c : s)
        if (c == '\\') c = '/';
    std::string base = root() + "/cwd/";
    if (s.size() >= 2 && s[1] == ':') {
        if (s.size() == 2) return "";       // "C:" alone is not a directory
        if (s[2] != '/' || !strchr("CDcd", s[0])) return "";
        base = root() + "/" + char(toupper(s[0])) + "/";
        s.erase(0, 3);
        if (s.empty()) return base;
    }
    else if (!s.empty() && s[0] == '/') {
        base = root() + "/C/";
        s.erase(0, 1);
        if (s.empty()) return base;
    }
    if (s.empty() || s.back() == '/') return "";
    std::string r = "/" + s + "/";
    if (r.find("/../") != std::string::npos || s.find('\0') != std::string::npos) return "";
    return base + s;
}
}   // namespace

extern "C" {
HANDLE GetStdHandle(DWORD n) { return n == STD_OUTPUT_HANDLE ? std_handle[0] : n == STD_ERROR_HANDLE ? std_handle[1] : nullptr; }
BOOL GetConsoleMode(HANDLE h, LPDWORD m) {
    if (!console_of(h)) { last_error = ERROR_INVALID_HANDLE; return 0; }
    *m = 3;
    return 1;
}
BOOL GetConsoleScreenBufferInfo(HANDLE h, CONSOLE_SCREEN_BUFFER_INFO* b) {
    Console* c = console_of(h);
    if (!c) { last_error = ERROR_INVALID_HANDLE; return 0; }
    std::lock_guard<std::mutex> lock(console_mutex);
    *b = {};
    b->wAttributes = c->attr;
    return 1;
}
BOOL SetConsoleTextAttribute(HANDLE h, WORD a) {
    Console* c = console_of(h);
    if (!c) { last_error = ERROR_INVALID_HANDLE; return 0; }
    std::lock_guard<std::mutex> lock(console_mutex);
    c->attr = a;
    return 1;
}
BOOL WriteConsoleW(HANDLE h, const void* p, DWORD n, LPDWORD done, LPVOID) {
    if (slow_console) sched_yield();
    std::lock_guard<std::mutex> lock(console_mutex);
    Console* c = console_of(h);
    int how = writes < write_plan.size() ? write_plan[writes] : 0;
    ++writes;
    if (!n) how = 0;        // nothing to lose
    if (how == 2 && n < 2) how = 1;
    if (how) ++bad_writes;
    if (done) *done = 0;
    if (!c || how == 1) { last_error = c ? 28 : ERROR_INVALID_HANDLE; return 0; }
    DWORD k = how == 2 ? n / 2 : n;
    const wchar_t* w = static_cast<const wchar_t*>(p);
    for (DWORD i = 0; i < k; ++i) c->cells.push_back({w[i], c->attr});
    if (done) *done = k;
    return 1;
}
DWORD GetFileType(HANDLE h) { return console_of(h) ? FILE_TYPE_CHAR : FILE_TYPE_DISK; }
DWORD GetLastError() { return last_error; }
void SetLastError(DWORD e) { last_error = e; }
BOOL SetHandleInformation(HANDLE h, DWORD mask, DWORD v) {
    bool f = handle_calls < handle_plan.size() && handle_plan[handle_calls];
    ++handle_calls;
    if (f) { last_error = ERROR_INVALID_HANDLE; return 0; }
    if ((mask & HANDLE_FLAG_INHERIT) && !(v & HANDLE_FLAG_INHERIT)) inheritable.erase(int(reinterpret_cast<intptr_t>(h) - 0x10000));
    return 1;
}
BOOL FlushFileBuffers(HANDLE h) {
    if (sync_fails) { last_error = 28; return 0; }
    synced.push_back(int(reinterpret_cast<intptr_t>(h) - 0x10000));
    return 1;
}
int MultiByteToWideChar(UINT cp, DWORD flags, const char* p, int n, wchar_t* out, int room) {
    if (n == 0 || !p || cp != CP_UTF8) { last_error = ERROR_INVALID_PARAMETER; return 0; }
    std::string s = n < 0 ? std::string(p, strlen(p) + 1) : std::string(p, size_t(n));
    std::vector<uint32_t> c;
    if (!points(s, c)) {
        if (flags & MB_ERR_INVALID_CHARS) { last_error = ERROR_NO_UNICODE_TRANSLATION; return 0; }
        c.clear();      // roughly what it does: every byte that does not fit becomes U+FFFD
        for (size_t i = 0; i < s.size();) {
            size_t k = 0;
            for (size_t len = 1; len <= 4 && i + len <= s.size() && !k; ++len) {
                std::vector<uint32_t> one;
                if (points(s.substr(i, len), one) && one.size() == 1) { c.push_back(one[0]); k = len; }
            }
            if (!k) { c.push_back(0xfffd); k = 1; }
            i += k;
        }
    }
    Units w;
    for (uint32_t x : c) put16(w, x);
    if (!room) return int(w.size());
    if (size_t(room) < w.size()) { last_error = ERROR_INSUFFICIENT_BUFFER; return 0; }
    std::copy(w.begin(), w.end(), out);
    return int(w.size());
}
int WideCharToMultiByte(UINT cp, DWORD, const wchar_t* p, int n, char* out, int room, const char*, BOOL*) {
    if (n == 0 || !p || cp != CP_UTF8) { last_error = ERROR_INVALID_PARAMETER; return 0; }
    Units w = n < 0 ? Units(p, wcslen(p) + 1) : Units(p, size_t(n));
    std::string s = narrow(w);
    if (!room) return int(s.size());
    if (size_t(room) < s.size()) { last_error = ERROR_INSUFFICIENT_BUFFER; return 0; }
    std::copy(s.begin(), s.end(), out);
    return int(s.size());
}
DWORD GetCurrentProcessId() { return DWORD(::getpid()); }
DWORD GetCurrentThreadId() { return DWORD(::syscall(SYS_gettid)); }
void Sleep(DWORD ms) { slept += ms; }

int _wstat(const wchar_t* p, struct _stat* b) {
    struct stat st;
    std::string f = place(p);
    if (f.empty() || ::stat(f.c_str(), &st) != 0) { errno = ENOENT; last_error = ERROR_FILE_NOT_FOUND; return -1; }
    b->st_mode = S_ISDIR(st.st_mode) ? _S_IFDIR : _S_IFREG;
    b->st_size = long(st.st_size);
    return 0;
}
int _wstat64(const wchar_t* p, struct _stat64* b) {
    struct _stat x;
    if (_wstat(p, &x)) return -1;
    b->st_mode = x.st_mode;
    b->st_size = x.st_size;
    return 0;
}
int _waccess(const wchar_t* p, int) {
    struct _stat x;
    return _wstat(p, &x);
}
int _wmkdir(const wchar_t* p) {
    std::string f = place(p);
    if (f.empty()) { errno = ENOENT; last_error = ERROR_PATH_NOT_FOUND; return -1; }
    return ::mkdir(f.c_str(), 0755);
}
int _wremove(const wchar_t* p) {
    std::string f = place(p);
    if (f.empty()) { errno = ENOENT; return -1; }
    return ::unlink(f.c_str());
}
int _wrename(const wchar_t* p, const wchar_t* q) {
    std::string f = place(p), g = place(q);
    struct stat st;
    if (f.empty() || g.empty()) { errno = ENOENT; return -1; }
    if (::stat(g.c_str(), &st) == 0) { errno = EEXIST; return -1; }
    return ::rename(f.c_str(), g.c_str());
}
FILE* _wfsopen(const wchar_t* p, const wchar_t* m, int) {
    std::string f = place(p), mode = narrow(m);
    ++opens;
    last_error = ERROR_PATH_NOT_FOUND;
    if (f.empty()) { errno = ENOENT; return nullptr; }
    FILE* fp = ::fopen(f.c_str(), mode.c_str());
    if (fp) inheritable.insert(fileno(fp));
    return fp;
}
FILE* _wfopen(const wchar_t* p, const wchar_t* m) { return _wfsopen(p, m, 0); }
int _fileno(FILE* f) { return fileno(f); }
int _isatty(int fd) { return fd == 1 ? console_of(std_handle[0]) != nullptr : fd == 2 ? console_of(std_handle[1]) != nullptr : 0; }
intptr_t _get_osfhandle(int fd) {
    if (fd == 1 || fd == 2) return reinterpret_cast<intptr_t>(std_handle[fd - 1]);
    return fd < 0 ? -1 : 0x10000 + fd;
}
long long _filelengthi64(int fd) {
    struct stat st;
    return ::fstat(fd, &st) == 0 ? (long long)st.st_size : -1;
}
long _filelength(int fd) { return long(_filelengthi64(fd)); }
int localtime_s(struct tm* t, const time_t* c) { return ::localtime_r(c, t) ? 0 : EINVAL; }
int gmtime_s(struct tm* t, const time_t* c) { return ::gmtime_r(c, t) ? 0 : EINVAL; }
}

namespace {
void reset_fakes() {
    for (int i = 0; i < 2; ++i) { consoles[i] = Console{}; std_handle[i] = &consoles[i]; }
    write_plan.clear();
    handle_plan.clear();
    synced.clear();
    writes = bad_writes = handle_calls = slept = opens = 0;
    sync_fails = false;
    inheritable.clear();
    pbt::rm_rf(root());
    for (const char* d : {"", "/C", "/D", "/cwd"}) ::mkdir((root() + d).c_str(), 0755);
}
size_t open_fds() {
    size_t n = 0;
    DIR* d = ::opendir("/proc/self/fd");
    while (d && ::readdir(d)) ++n;
    if (d) ::closedir(d);
    return n;
}
std::string show(const Units& w) {
    std::string r;
    for (size_t i = 0; i < w.size() && i < 60; ++i) r += pbt::strf(w[i] < 127 && w[i] >= 32 ? "%c" : "\\u%04x", unsigned(w[i]));
    return pbt::strf("%zu units \"%s\"", w.size(), r.c_str());
}
bool throws(const std::function<void()>& f, const std::string& naming = "") {
    try { f(); }
    catch (const learnlog_excpt& e) {
        REQUIRE(std::string(e.what()).find(naming) != std::string::npos, "%s is reported as %s", pbt::quote(naming).c_str(), pbt::quote(e.what()).c_str());
        return true;
    }
    return false;
}
}   // namespace

// ------------------------------------------------------------------ conversions

PROPERTY(convert) {
    reset_fakes();
    size_t n = src.pick<size_t>({0, 1, 2, 60, 249, 250, 251, 3000});
    if (n > 2) n = src.size(n / 2, n + 2);
    std::string a = text(src, n), b = text(src, src.small_size(0, 12)), c = text(src, src.small_size(0, 300));
    src.note(pbt::strf("%s + %s + %s", pbt::quote(a, 60).c_str(), pbt::quote(b).c_str(), pbt::quote(c, 60).c_str()));
    std::string all = a + b + c;
    Units want = wide(all);
    Units got = base::string_to_wstring(all);
    REQUIRE(got == want, "to a wide string: %s, expected %s", show(got).c_str(), show(want).c_str());
    pbt::require_eq_str(base::wstring_to_string(want), all, "from a wide string");
    fmt_memory_buf buf;
    buf.append(all.data(), all.data() + all.size());
    {
        fmt_wmemory_buf w;
        base::utf8buf_to_wcharbuf(buf, w);
        Units g(w.data(), w.size());
        REQUIRE(g == want, "to a wide buffer: %s, expected %s", show(g).c_str(), show(want).c_str());
        fmt_memory_buf back;
        base::wcharbuf_to_utf8buf(w, back);
        pbt::require_eq_str(std::string(back.data(), back.size()), all, "from a wide buffer");
    }
    {
        size_t s = a.size(), e = a.size() + b.size();
        bool none = src.chance(1, 4);
        if (none) e = s = src.flip() ? 0 : s;
        fmt_wmemory_buf w;
        base::utf8buf_to_wcharbuf(buf, s, e, w);
        Units g(w.data(), w.size());
        REQUIRE(g == want, "to a wide buffer with a range: %s, expected %s", show(g).c_str(), show(want).c_str());
        if (!none && !b.empty()) {
            size_t ws = wide(a).size(), we = ws + wide(b).size();
            REQUIRE(s == ws && e == we, "the range %zu to %zu became %zu to %zu, expected %zu to %zu", a.size(), a.size() + b.size(), s, e, ws, we);
        }
        else REQUIRE(s >= e, "an empty range became %zu to %zu", s, e);
    }
    // text that is not UTF-8 is refused, not lost
    if (src.flip()) {
        std::string bad = src.pick<std::string>({"\xff", "\xc3", "\xe4\xb8", "\x80", "\xed\xa0\x80", "\xc0\xaf", "\xf5\x80\x80\x80"});
        std::string x[3] = {a, b, c};
        size_t at = src.below(3);
        if (src.flip()) x[at] += bad;
        else x[at] = bad + x[at];
        std::string t = x[0] + x[1] + x[2];
        std::vector<uint32_t> p;
        // each part is converted by itself when there is a range
        bool part_bad = false;
        for (auto& y : x) { std::vector<uint32_t> q; part_bad = part_bad || !points(y, q); }
        fmt_memory_buf bb;
        bb.append(t.data(), t.data() + t.size());
        if (!points(t, p)) {
            REQUIRE(throws([&] { base::string_to_wstring(t); }), "to a wide string: %s is not refused", pbt::quote(bad).c_str());
            REQUIRE(throws([&] { fmt_wmemory_buf w; base::utf8buf_to_wcharbuf(bb, w); }), "to a wide buffer: %s is not refused", pbt::quote(bad).c_str());
            if (part_bad && !x[1].empty()) {
                size_t s = x[0].size(), e = s + x[1].size();
                REQUIRE(throws([&] { fmt_wmemory_buf w; base::utf8buf_to_wcharbuf(bb, s, e, w); }),
                        "to a wide buffer with a range: %s in part %zu is not refused", pbt::quote(bad).c_str(), at);
            }
            src.label("refused");
        }
    }
    // unpaired surrogates
    if (src.chance(1, 4)) {
        Units w = want;
        w.insert(w.begin() + long(src.below(w.size() + 1)), wchar_t(0xd800 + src.below(0x800)));
        pbt::require_eq_str(base::wstring_to_string(w), narrow(w), "from a wide string with a surrogate of its own");
    }
    if (want.size() != all.size() && all.size() > 3) src.nontrivial();
}

// ------------------------------------------------------------------ consoles

PROPERTY(console) {
    reset_fakes();
    struct S {
        int stream;
        bool colour;
        sink_shr_ptr sink;
        std::function<void(level::level_enum, WORD)> set_colour;
        std::vector<std::string> piece;     // before, in, after the range
        bool marked = false;
        int level = 0;
        WORD colours[7] = {7, 3, 2, 14, 12, 79, 0};
    };
    for (int i = 0; i < 2; ++i) {
        if (src.chance(1, 8)) std_handle[i] = INVALID_HANDLE_VALUE;
        consoles[i].attr = WORD(src.below(256));
    }
    std::vector<S> sinks;
    size_t ns = src.size(1, 4);
    for (size_t k = 0; k < ns; ++k) {
        S s;
        s.stream = int(src.below(2));
        s.colour = src.chance(3, 5);
        auto wc = [&](auto p) { s.set_colour = [p](level::level_enum l, WORD c) { p->set_level_color(l, c); }; s.sink = p; };
        bool mt = src.flip();
        if (s.colour && s.stream == 0) { if (mt) wc(std::make_shared<sinks::stdout_color_sink_mt>()); else wc(std::make_shared<sinks::stdout_color_sink_st>()); }
        else if (s.colour) { if (mt) wc(std::make_shared<sinks::stderr_color_sink_mt>()); else wc(std::make_shared<sinks::stderr_color_sink_st>()); }
        else if (s.stream == 0) { if (mt) s.sink = std::make_shared<sinks::stdout_sink_mt>(); else s.sink = std::make_shared<sinks::stdout_sink_st>(); }
        else { if (mt) s.sink = std::make_shared<sinks::stderr_sink_mt>(); else s.sink = std::make_shared<sinks::stderr_sink_st>(); }
        sinks.push_back(s);
    }
    auto literal = [&](size_t n) {
        std::string t = text(src, n), r;
        for (char c : t) if (c != '%') r += c;
        return r;
    };
    auto set_pattern = [&](S& s) {
        s.marked = src.chance(2, 3);
        s.piece.assign(3, "");
        for (auto& p : s.piece)
            switch (src.below(5)) {
                case 0: break;
                case 1: p = literal(src.small_size(0, 6)); break;
                case 2: p = literal(src.small_size(0, 3)) + "%v"; break;
                case 3: p = "%n" + literal(src.small_size(0, 3)); break;
                default: p = "[%l] %v"; break;
            }
        s.sink->set_pattern(s.marked ? s.piece[0] + "%^" + s.piece[1] + "%$" + s.piece[2] : s.piece[0] + s.piece[1] + s.piece[2]);
    };
    std::string name = text(src, src.small_size(0, 8));
    std::vector<sink_shr_ptr> list;
    for (auto& s : sinks) { set_pattern(s); list.push_back(s.sink); }
    logger lg(name, list.begin(), list.end());
    lg.set_log_level(level::trace);
    src.note(pbt::strf("%zu sinks, %s and %s", ns, console_of(std_handle[0]) ? "console" : "none", console_of(std_handle[1]) ? "console" : "none"));
    static const char* names[7] = {"trace", "debug", "info", "warn", "error", "critical", "off"};
    auto expand = [&](const std::string& p, const std::string& msg, int lv) {
        std::string r;
        for (size_t i = 0; i < p.size(); ++i) {
            if (p[i] != '%') { r += p[i]; continue; }
            char f = p[++i];
            r += f == 'v' ? msg : f == 'n' ? name : std::string(names[lv]);
        }
        return r;
    };
    pbt::StderrCapture cap;
    auto& numbers = pbt::Numbers::get();
    size_t steps = src.size(1, 12), coloured = 0;
    for (size_t step = 0; step < steps; ++step) {
        switch (src.weighted({8, 2, 2, 1, 1})) {
            case 1: set_pattern(src.pick(std::vector<S*>{&sinks[src.below(ns)]})[0]); continue;
            case 2: {
                S& s = sinks[src.below(ns)];
                if (!s.colour) continue;
                int l = int(src.below(7));
                s.colours[l] = WORD(src.below(256));
                s.set_colour(level::level_enum(l), s.colours[l]);
                continue;
            }
            case 3: consoles[src.below(2)].attr = WORD(src.below(256)); continue;
            case 4: { S& s = sinks[src.below(ns)]; s.level = int(src.below(7)); s.sink->set_level(level::level_enum(s.level)); continue; }
            default: break;
        }
        int lv = int(src.below(7));
        std::string msg = text(src, src.pick<size_t>({0, 1, 5, 40, 260}));
        bool faults = src.chance(1, 6);
        write_plan.clear();
        writes = bad_writes = 0;
        if (faults)
            for (size_t k = src.size(1, 6); k--;) write_plan.push_back(int(src.below(3)));
        // all sinks that one logger writes to get the same message, one after the other
        std::vector<Cell> want[2];
        WORD before[2] = {consoles[0].attr, consoles[1].attr};
        for (auto& c : consoles) c.cells.clear();
        size_t live = 0;
        for (auto& s : sinks) {
            if (lv < s.level || !console_of(std_handle[s.stream])) continue;
            ++live;
            WORD at = before[s.stream];
            for (int k = 0; k < 3; ++k) {
                Units w = wide(expand(s.piece[size_t(k)], msg, lv));
                bool in = k == 1 && s.marked && s.colour;
                if (in && !w.empty()) ++coloured;
                for (wchar_t c : w) want[s.stream].push_back({c, in ? WORD(s.colours[lv] | (at & 0xf0)) : at});
            }
            for (wchar_t c : {L'\r', L'\n'}) want[s.stream].push_back({c, at});
        }
        lg.log(source_loc{}, level::level_enum(lv), fmt_string_view(msg.data(), msg.size()));
        auto reports = cap.take();
        numbers.in_order(reports);
        for (int i = 0; i < 2; ++i)
            REQUIRE(consoles[i].attr == before[i], "console %d: colours %#x before and %#x after the message", i, before[i], consoles[i].attr);
        if (bad_writes) {
            REQUIRE(!reports.empty() && reports.size() <= std::min(live, bad_writes), "%zu reports of %zu failed writes of %zu sinks", reports.size(), bad_writes, live);
            src.label("failed writes");
            continue;
        }
        REQUIRE(reports.empty(), "reported: %s", reports[0].text.c_str());
        for (int i = 0; i < 2; ++i) {
            auto& got = consoles[i].cells;
            size_t d = 0;
            while (d < got.size() && d < want[i].size() && got[d].c == want[i][d].c && got[d].attr == want[i][d].attr) ++d;
            REQUIRE(d == got.size() && d == want[i].size(),
                    "console %d: %zu units, expected %zu, different at %zu: \\u%04x in %#x, expected \\u%04x in %#x", i, got.size(), want[i].size(), d,
                    d < got.size() ? unsigned(got[d].c) : 0, d < got.size() ? got[d].attr : 0, d < want[i].size() ? unsigned(want[i][d].c) : 0,
                    d < want[i].size() ? want[i][d].attr : 0);
        }
        if (src.chance(1, 4)) lg.flush();
    }
    if (coloured) src.nontrivial();
}

// threads share the consoles through the sinks that lock
PROPERTY(threads) {
    reset_fakes();
    size_t nt = src.size(2, 4), per = src.size(1, 40);
    std::vector<std::shared_ptr<logger>> lg;
    WORD attr = WORD(src.below(256));
    for (auto& c : consoles) c.attr = attr;
    std_handle[1] = std_handle[0];      // one window
    for (size_t t = 0; t < nt; ++t) {
        sink_shr_ptr s;
        switch (src.below(4)) {
            case 0: s = std::make_shared<sinks::stdout_color_sink_mt>(); break;
            case 1: s = std::make_shared<sinks::stderr_color_sink_mt>(); break;
            case 2: s = std::make_shared<sinks::stdout_sink_mt>(); break;
            default: s = std::make_shared<sinks::stderr_sink_mt>(); break;
        }
        lg.push_back(std::make_shared<logger>(pbt::strf("%zu", t), s));
        lg.back()->set_log_level(level::trace);
        lg.back()->set_pattern("<%n %^%v%$>");
    }
    src.note(pbt::strf("%zu threads x %zu", nt, per));
    std::string tail = text(src, src.small_size(0, 12));
    slow_console = src.flip();
    std::atomic<int> go{0};
    std::vector<std::thread> th;
    for (size_t t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            while (!go) {}
            for (size_t i = 0; i < per; ++i) lg[t]->error(fmt::runtime("{} {}"), i, tail);
        });
    go = 1;
    for (auto& t : th) t.join();
    slow_console = false;
    std::vector<size_t> next(nt);
    Units all;
    for (auto& c : consoles[0].cells) all += c.c;
    std::string got = narrow(all);
    size_t at = 0;
    while (at < got.size()) {
        size_t t = 99, i = 9999;
        REQUIRE(sscanf(got.c_str() + at, "<%zu %zu", &t, &i) == 2 && t < nt, "mixed at %zu: %s", at, pbt::quote(got.substr(at, 60)).c_str());
        REQUIRE(i == next[t], "thread %zu: message %zu after %zu", t, i, next[t]);
        ++next[t];
        std::string line = pbt::strf("<%zu %zu ", t, i) + tail + ">\r\n";
        REQUIRE(got.compare(at, line.size(), line) == 0, "mixed at %zu: %s", at, pbt::quote(got.substr(at, line.size())).c_str());
        at += line.size();
    }
    for (size_t t = 0; t < nt; ++t) REQUIRE(next[t] == per, "thread %zu: %zu of %zu messages", t, next[t], per);
    REQUIRE(consoles[0].attr == attr, "colours %#x before and %#x after", attr, consoles[0].attr);
    if (per > 3) src.nontrivial();
}

// ------------------------------------------------------------------ files

namespace {
using Tree = std::map<std::string, std::string>;
void require_tree(const Tree& want, const char* when) {
    Tree got;
    pbt::list_tree(root(), "", got);
    for (auto& w : want) {
        auto it = got.find(w.first);
        REQUIRE(it != got.end(), "%s: %s is missing", when, pbt::quote(w.first).c_str());
        pbt::require_eq_str(it->second, w.second, (std::string(when) + ": " + pbt::quote(w.first)).c_str());
    }
    for (auto& g : got) REQUIRE(want.count(g.first), "%s: %s is there", when, pbt::quote(g.first).c_str());
}
// a path, with its place in the tree, whose directories go into the tree
struct Path { std::string dir, file, at; };
Path make_path(Src& src, Tree& t, const std::vector<std::string>& dirs, const std::string& file) {
    Path p;
    p.file = file;
    auto sep = [&] { return src.flip() ? "\\" : "/"; };
    switch (src.weighted({3, 2, 1, 1})) {
        case 0: p.at = "cwd/"; break;
        case 1: p.dir = std::string("C:") + sep(); p.at = "C/"; break;
        case 2: p.dir = std::string("d:") + sep(); p.at = "D/"; break;
        default: p.dir = sep(); p.at = "C/"; break;
    }
    for (auto& d : dirs) {
        p.dir += d + sep();
        p.at += d + "/";
        t[p.at];
    }
    p.at += file;
    return p;
}
std::string file_name(Src& src) {
    std::string n = text(src, src.size(1, 5), true);
    while (!n.empty() && (n.back() == ' ' || n.back() == '.')) n.pop_back();
    return n.empty() ? "n" : n;
}
std::vector<std::string> dir_names(Src& src) {
    std::vector<std::string> d;
    for (size_t k = src.below(4); k--;) d.push_back(file_name(src) + src.pick<const char*>({"", "", ".d", ".x.y"}));
    return d;
}
}   // namespace

PROPERTY(files) {
    reset_fakes();
    Tree t{{"C/", ""}, {"D/", ""}, {"cwd/", ""}};
    size_t rounds = src.size(1, 3), wrote = 0;
    auto dirs = dir_names(src);
    std::string file = file_name(src) + src.pick<const char*>({"", ".log", ".a.txt"});
    size_t fds = open_fds();
    for (size_t r = 0; r < rounds; ++r) {
        if (src.chance(1, 3)) dirs = dir_names(src);
        if (src.chance(1, 3)) file = file_name(src) + src.pick<const char*>({"", ".log", ".a.txt"});
        Tree next = t;
        Path p = make_path(src, next, dirs, file);
        if (next.count(p.at + "/")) continue;       // a directory has that name
        bool clash = false;
        for (auto& e : next) if (e.first.back() == '/' && next.count(e.first.substr(0, e.first.size() - 1))) clash = true;
        if (clash) continue;
        bool trunc = src.chance(1, 3);
        size_t bad = src.chance(1, 4) ? src.size(1, 7) : 0;
        handle_plan.assign(bad, true);
        handle_calls = slept = 0;
        Units w = wide(p.dir + p.file);
        src.note(pbt::strf("%s%s%s", pbt::quote(p.dir + p.file).c_str(), trunc ? " truncated" : "", bad ? pbt::strf(", %zu faults", bad).c_str() : ""));
        std::shared_ptr<sinks::basic_file_sink_st> s;
        bool refused = throws([&] { s = std::make_shared<sinks::basic_file_sink_st>(w, trunc); }, p.dir + p.file);
        handle_plan.clear();
        REQUIRE(refused == (bad >= 5), "%zu attempts failed and opening %s", bad, refused ? "was refused" : "went on");
        REQUIRE(slept == 10 * std::min<size_t>(bad, 5), "%zu attempts failed and it slept for %zu ms", bad, slept);
        t = next;
        if (refused) {
            t[p.at];
            Tree got;
            pbt::list_tree(root(), "", got);
            if (trunc) t[p.at] = got[p.at];
            require_tree(t, "after a refused opening");
            REQUIRE(open_fds() == fds, "%zu descriptors before a refused opening and %zu after", fds, open_fds());
            src.label("refused");
            continue;
        }
        if (trunc) t[p.at].clear();
        else t[p.at];
        REQUIRE(open_fds() == fds + 1, "%zu descriptors more than before", open_fds() - fds);
        REQUIRE(s->filename() == w, "the name is %s", show(s->filename()).c_str());
        for (int fd : inheritable) {
            char b[64];
            snprintf(b, sizeof b, "/proc/self/fd/%d", fd);
            char dst[4096];
            ssize_t n = ::readlink(b, dst, sizeof dst - 1);
            std::string to(dst, n > 0 ? size_t(n) : 0);
            REQUIRE(to.compare(0, root().size(), root()) != 0, "the handle of the file is inherited");
        }
        inheritable.clear();
        auto lg = std::make_unique<logger>("L", s);
        lg->set_log_level(level::trace);
        lg->set_pattern("%v");
        for (size_t k = src.size(0, 6); k--;) {
            std::string m = text(src, src.pick<size_t>({0, 3, 30, 300}));
            lg->info(fmt::runtime("{}"), m);
            t[p.at] += m + "\r\n";
            wrote += m.size();
            if (src.chance(1, 4)) { lg->flush(); require_tree(t, "after a flush"); }
        }
        if (src.flip()) { lg->flush(); require_tree(t, "flushed"); }
        lg.reset();
        s.reset();
        require_tree(t, "closed");
        REQUIRE(open_fds() == fds, "%zu descriptors before and %zu after", fds, open_fds());
    }
    if (wrote) src.nontrivial();
}

PROPERTY(rolling) {
    reset_fakes();
    Tree t{{"C/", ""}, {"D/", ""}, {"cwd/", ""}};
    std::string base = file_name(src), suffix = src.pick<const char*>({"", ".log", ".txt", ".\xe6\x97\xa5"});
    if (src.chance(1, 5)) base = "." + base, suffix = "";
    Path p = make_path(src, t, dir_names(src), base + suffix);
    size_t limit = src.pick<size_t>({1, 20, 64, 300}), num = src.pick<size_t>({1, 2, 9, 10, 11, 100, 1000});
    size_t digits = std::to_string(num).size();
    auto name = [&](size_t i) {
        std::string n = std::to_string(i);
        return base + "_" + std::string(digits > n.size() ? digits - n.size() : 0, '0') + n + suffix;
    };
    std::string at = p.at.substr(0, p.at.size() - p.file.size());
    src.note(pbt::strf("%s, %zu bytes, %zu files", pbt::quote(p.dir + p.file).c_str(), limit, num));
    // some numbers are taken
    {
        std::string d = root() + "/";
        for (size_t i = 0; i < at.size(); ++i)
            if (at[i] == '/') ::mkdir((d + at.substr(0, i)).c_str(), 0755);
    }
    for (size_t k = src.below(4); k--;) {
        size_t i = src.size(1, std::min<size_t>(num, 6));
        pbt::spit(root() + "/" + at + name(i), "taken");
        t[at + name(i)] = "taken";
    }
    auto next_free = [&](size_t i) {
        while (i < num && t.count(at + name(i))) ++i;
        return i;
    };
    size_t idx = next_free(1), rolled = 0;
    Units w = wide(p.dir + p.file);
    auto s = std::make_shared<sinks::rolling_file_sink_st>(w, limit, num);
    t[at + name(idx)].clear();
    for (size_t i : {size_t(1), num}) {
        Units g = s->get_rolling_filename(i);
        REQUIRE(g == wide(p.dir + name(i)), "the name of file %zu is %s, expected %s", i, pbt::quote(narrow(g)).c_str(), pbt::quote(p.dir + name(i)).c_str());
    }
    REQUIRE(s->base_filename() == w, "the name is %s", show(s->base_filename()).c_str());
    s->set_pattern("%v");
    for (size_t k = src.size(1, 10); k--;) {
        std::string m = text(src, src.size(0, 40)), line = m + "\r\n";
        std::string& cur = t[at + name(idx)];
        if (!cur.empty() && cur.size() + line.size() > limit) {
            idx = next_free(idx);
            t[at + name(idx)].clear();
            ++rolled;
        }
        t[at + name(idx)] += line;
        base::log_msg x{level::info, fmt_string_view(m.data(), m.size()), fmt_string_view("n", 1)};
        s->log(x);
        if (src.chance(1, 4)) { s->flush(); require_tree(t, "after a flush"); }
    }
    s.reset();
    require_tree(t, "at the end");
    if (rolled) src.nontrivial();
}

// the functions below the sinks
PROPERTY(raw) {
    reset_fakes();
    Tree t{{"C/", ""}, {"D/", ""}, {"cwd/", ""}};
    Path p = make_path(src, t, dir_names(src), file_name(src) + ".f");
    Path q = p;
    q.file = file_name(src) + ".g";
    q.at = p.at.substr(0, p.at.size() - p.file.size()) + q.file;
    Units w = wide(p.dir + p.file), v = wide(q.dir + q.file);
    src.note(pbt::quote(p.dir + p.file));
    Units d = base::os::get_dir(w), wd = wide(p.dir);
    if (!wd.empty()) wd.pop_back();
    REQUIRE(d == wd, "the directory is %s, expected %s", pbt::quote(narrow(d)).c_str(), pbt::quote(narrow(wd)).c_str());
    REQUIRE(!base::os::dir_exist(w), "it is there already");
    if (src.flip() && !wd.empty()) {
        REQUIRE(base::os::create_dir(wd), "making %s failed", pbt::quote(narrow(wd)).c_str());
        require_tree(t, "with the directories");
    }
    FILE* f = nullptr;
    base::file_base::open(&f, w, src.flip());
    REQUIRE(f, "no stream");
    std::string all;
    for (size_t k = src.size(1, 5); k--;) {
        std::string m = src.bytes(src.pick<size_t>({0, 1, 100, 5000}));
        fmt_memory_buf b;
        b.append(m.data(), m.data() + m.size());
        base::file_base::write(f, w, b);
        all += m;
        if (src.flip()) {
            base::file_base::flush(f, w);
            REQUIRE(base::file_base::size(f, w) == all.size(), "the size is %zu, expected %zu", size_t(base::file_base::size(f, w)), all.size());
        }
    }
    base::file_base::flush(f, w);
    base::file_base::sync(f, w);
    REQUIRE(!synced.empty() && synced.back() == fileno(f), "sync did not sync the file");
    sync_fails = true;
    REQUIRE(throws([&] { base::file_base::sync(f, w); }, p.dir + p.file), "a failed sync is not reported");
    REQUIRE(throws([&] { base::file_base::size(nullptr, w); }, p.dir + p.file), "the size of no file is not reported");
    base::file_base::close(&f, w);
    REQUIRE(!f, "the stream is not null after closing");
    t[p.at] = all;
    require_tree(t, "closed");
    REQUIRE(base::os::dir_exist(w), "it is not there");
    size_t sp = base::file_base::suffix_pos(w);
    REQUIRE(sp == w.size() - 2, "the suffix of %s starts at %zu of %zu", pbt::quote(p.dir + p.file).c_str(), sp, w.size());
    if (src.flip()) {
        REQUIRE(base::os::rename_file(w, v) == 0, "renaming failed");
        t[q.at] = t[p.at];
        t.erase(p.at);
        require_tree(t, "renamed");
        std::swap(w, v);
        std::swap(p, q);
    }
    REQUIRE(base::os::remove_file_if_exist(w) == 0 && base::os::remove_file_if_exist(w) == 0, "removing failed");
    t.erase(p.at);
    require_tree(t, "removed");
    REQUIRE(base::os::pid() == size_t(::getpid()), "the process id is %zu", base::os::pid());
    REQUIRE(base::os::thread_id() == size_t(::syscall(SYS_gettid)), "the thread id is %zu", base::os::thread_id());
    if (all.size() > 1) src.nontrivial();
}

PBT_MAIN()
