// A sink that records what it is given.
#pragma once
#include "lib.h"
#include "pbt.h"

#include "sinks/basic_sink.h"

#include <mutex>
#include <sys/syscall.h>

namespace rec {

inline size_t this_tid() { return size_t(syscall(SYS_gettid)); }

struct Event {
    bool flush = false;
    std::string logger, text, rendered;
    int level = 0;
    long long ns = 0;
    size_t tid = 0;
    const char* file = nullptr;
    int line = 0;
    const char* func = nullptr;
    size_t worker = 0;      // the thread that called the sink
};

inline std::string show(const Event& e) {
    if (e.flush) return "flush";
    return pbt::strf("[%s %d %lld t%zu %s:%d %s] ", e.logger.c_str(), e.level, e.ns, e.tid, e.file ? e.file : "-", e.line,
                     e.func ? e.func : "-") + pbt::quote(e.text, 80);
}

class Sink : public learnlog::sinks::basic_sink<std::mutex> {
public:
    bool render = false;

    std::vector<Event> take() {
        std::lock_guard<std::mutex> l(mutex_);
        std::vector<Event> r;
        r.swap(events_);
        return r;
    }
    size_t count() {
        std::lock_guard<std::mutex> l(mutex_);
        return events_.size();
    }

protected:
    void output_(const learnlog::base::log_msg& msg) override {
        Event e;
        e.logger = lib::str(msg.logger_name);
        e.text = lib::str(msg.msg);
        e.level = int(msg.level);
        e.ns = lib::ns_of(msg.time);
        e.tid = msg.tid;
        e.file = msg.loc.filename;
        e.line = msg.loc.line;
        e.func = msg.loc.funcname;
        e.worker = this_tid();
        if (render) {
            learnlog::fmt_memory_buf buf;
            formatter_->format(msg, buf);
            e.rendered.assign(buf.data(), buf.size());
        }
        events_.push_back(std::move(e));
    }
    void flush_() override {
        Event e;
        e.flush = true;
        e.worker = this_tid();
        events_.push_back(e);
    }

private:
    std::vector<Event> events_;
};

// what is expected; ns < 0 means any time in [ns_lo, ns_hi]
struct Want {
    bool flush = false;
    std::string logger, text;
    int level = 0;
    long long ns = -1, ns_lo = 0, ns_hi = 0;
    size_t tid = 0;
    const char* file = nullptr;
    int line = 0;
    const char* func = nullptr;
    int marker = 0;         // 1 the start, 2 the end of a backtrace
};
inline std::string show(const Want& w) {
    if (w.flush) return "flush";
    if (w.marker) return w.marker == 1 ? "start marker" : "end marker";
    return pbt::strf("[%s %d %lld t%zu %s:%d %s] ", w.logger.c_str(), w.level, w.ns, w.tid, w.file ? w.file : "-", w.line,
                     w.func ? w.func : "-") + pbt::quote(w.text, 80);
}
inline bool same_cstr(const char* a, const char* b) {
    if (!a || !b) return !a && !b;
    return std::strcmp(a, b) == 0;
}
inline bool matches(const Event& e, const Want& w) {
    if (e.flush != w.flush) return false;
    if (e.flush) return true;
    if (w.marker) return e.level == 2 && e.text.find(w.marker == 1 ? "Backtrace Start" : "Backtrace End") != std::string::npos;
    if (e.logger != w.logger || e.text != w.text || e.level != w.level || e.tid != w.tid) return false;
    if (w.ns >= 0 ? e.ns != w.ns : (e.ns < w.ns_lo || e.ns > w.ns_hi)) return false;
    return same_cstr(e.file, w.file) && e.line == w.line && same_cstr(e.func, w.func);
}
inline void require_events(const std::vector<Event>& got, const std::vector<Want>& want, const char* what) {
    for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
        if (i < got.size() && i < want.size() && matches(got[i], want[i])) continue;
        pbt::fail("%s: event %zu of %zu (want %zu)\n  got : %s\n  want: %s", what, i, got.size(), want.size(),
                  i < got.size() ? show(got[i]).c_str() : "nothing", i < want.size() ? show(want[i]).c_str() : "nothing");
    }
}

// lengths around the sizes at which inline buffers spill
inline size_t text_len(pbt::Src& src) {
    switch (src.below(6)) {
        case 0: return src.below(4);
        case 1: return src.below(40);
        case 2: return 240 + src.below(20);
        case 3: return 490 + src.below(20);
        case 4: return src.below(300);
        default: return src.chance(1, 25) ? src.below(140000) : src.below(3000);
    }
}
// a text of that length, cheap in choices: a few free characters, then a pattern
inline std::string text(pbt::Src& src, size_t len) {
    std::string s;
    uint64_t x = 1;
    bool wild = src.chance(1, 4);
    for (size_t i = 0; i < len; ++i) {
        if (i < 12) {
            if (wild) s += src.bytes(1);
            else s += src.ascii(1);
            x = x * 31 + (unsigned char)s.back();
        }
        else {
            x = x * 6364136223846793005ull + 1442695040888963407ull;
            s += wild ? char(x >> 56) : char('!' + (x >> 33) % 90);
        }
    }
    return s;
}

inline const char* const FILES[] = {"main.cpp", "/a/b/c.cpp", "x", "src/some/rather/long/path/to/a/file_with_a_long_name.cpp"};
inline const char* const FUNCS[] = {"main", "f", "operator()", "some::name::space::function"};

inline learnlog::source_loc loc(pbt::Src& src) {
    switch (src.below(4)) {
        case 0: return learnlog::source_loc{};
        case 1: return learnlog::source_loc{FILES[src.below(4)], int(src.range(1, 99999))};
        default: return learnlog::source_loc{FILES[src.below(4)], int(src.range(1, 99999)), FUNCS[src.below(4)]};
    }
}
inline void set_loc(Want& w, const learnlog::source_loc& l) {
    w.file = l.filename;
    w.line = l.line;
    w.func = l.funcname;
}

}   // namespace rec
