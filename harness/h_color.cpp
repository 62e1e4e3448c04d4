// C11: coloured output is the plain output with the marked range wrapped in the level's colour.
#include "gen_format.h"
#include "lib.h"

#include "logger.h"
#include "sinks/std_color_sinks.h"
#include "sinks/std_sinks.h"

#include <poll.h>
#include <pty.h>

using namespace learnlog;
using pbt::Src;

namespace {

struct Plan {
    bool tty[2];
    int kind[2];        // 0 colour mt, 1 colour st, 2 plain mt, 3 plain st
    std::string pattern[2];
    std::map<int, std::string> custom[2];
    bool late_custom[2];
    bool via_logger_pattern;
    const char* term;
    const char* colorterm;
    bool supported;
    std::vector<model::Msg> msgs;
    std::vector<int> order;     // which sinks the logger has, in order
    size_t change_at;           // message index before which sink 0 gets another pattern
    std::string pattern2;
};

sink_shr_ptr make_sink(int which, int kind) {
    if (which == 0) {
        switch (kind) {
            case 0: return std::make_shared<sinks::stdout_color_sink_mt>();
            case 1: return std::make_shared<sinks::stdout_color_sink_st>();
            case 2: return std::make_shared<sinks::stdout_sink_mt>();
            default: return std::make_shared<sinks::stdout_sink_st>();
        }
    }
    switch (kind) {
        case 0: return std::make_shared<sinks::stderr_color_sink_mt>();
        case 1: return std::make_shared<sinks::stderr_color_sink_st>();
        case 2: return std::make_shared<sinks::stderr_sink_mt>();
        default: return std::make_shared<sinks::stderr_sink_st>();
    }
}

void set_color(const sink_shr_ptr& s, int which, int kind, int lvl, const std::string& c) {
    auto l = static_cast<level::level_enum>(lvl);
    if (which == 0 && kind == 0) std::static_pointer_cast<sinks::stdout_color_sink_mt>(s)->set_level_color(l, c);
    if (which == 0 && kind == 1) std::static_pointer_cast<sinks::stdout_color_sink_st>(s)->set_level_color(l, c);
    if (which == 1 && kind == 0) std::static_pointer_cast<sinks::stderr_color_sink_mt>(s)->set_level_color(l, c);
    if (which == 1 && kind == 1) std::static_pointer_cast<sinks::stderr_color_sink_st>(s)->set_level_color(l, c);
}

[[noreturn]] void child(const Plan& p, int fd0, int fd1) {
    if (p.term) setenv("TERM", p.term, 1); else unsetenv("TERM");
    if (p.colorterm) setenv("COLORTERM", p.colorterm, 1); else unsetenv("COLORTERM");
    dup2(fd0, 1);
    dup2(fd1, 2);
    ::close(fd0);
    ::close(fd1);
    int rc = 0;
    try {
        std::vector<sink_shr_ptr> v, by(2);
        for (int i : p.order) {
            by[size_t(i)] = make_sink(i, p.kind[i]);
            v.push_back(by[size_t(i)]);
        }
        logger lg("lg", v.begin(), v.end());
        lg.set_log_level(level::trace);
        for (int i : p.order) {
            by[size_t(i)]->set_pattern(p.pattern[i]);
            if (!p.late_custom[i])
                for (auto& c : p.custom[i]) set_color(by[size_t(i)], i, p.kind[i], c.first, c.second);
        }
        for (size_t k = 0; k < p.msgs.size(); ++k) {
            if (k == p.change_at && by[0]) by[0]->set_pattern(p.pattern2);
            if (k == p.msgs.size() / 2)
                for (int i : p.order)
                    if (p.late_custom[i])
                        for (auto& c : p.custom[i]) set_color(by[size_t(i)], i, p.kind[i], c.first, c.second);
            const model::Msg& m = p.msgs[k];
            source_loc loc = m.has_loc ? source_loc(m.file.c_str(), m.line, m.has_func ? m.func.c_str() : nullptr) : source_loc{};
            lg.log(lib::tp(m.ns), loc, static_cast<level::level_enum>(m.level), fmt_string_view(m.text.data(), m.text.size()));
        }
        lg.flush();
    }
    catch (...) { rc = 3; }
    fflush(nullptr);
    _exit(rc);
}

// an SGR sequence (or several) at p; returns its length
size_t sgr(const std::string& s, size_t p) {
    size_t q = p;
    for (;;) {
        if (q + 1 >= s.size() || s[q] != '\x1b' || s[q + 1] != '[') return q - p;
        size_t r = q + 2;
        while (r < s.size() && (isdigit((unsigned char)s[r]) || s[r] == ';')) ++r;
        if (r >= s.size() || s[r] != 'm') return q - p;
        q = r + 1;
    }
}

void check_stream(const Plan& p, int i, const std::string& got, unsigned long long pid, Src& src) {
    model::Formatter mf;
    mf.pid = pid;
    bool colour = p.tty[i] && p.kind[i] < 2 && p.supported;
    std::map<int, std::string> seen;    // level -> colour, while it is the default one
    size_t pos = 0;
    for (size_t k = 0; k < p.msgs.size(); ++k) {
        model::Msg m = p.msgs[k];
        m.logger = "lg";
        m.tid = pid;        // the only thread of the child
        mf.pattern = i == 0 && k >= p.change_at ? p.pattern2 : p.pattern[i];
        model::Rendered r = mf.render(m);
        std::string where = pbt::strf("stream %d message %zu pattern %s", i + 1, k, pbt::quote(mf.pattern).c_str());
        if (!colour || r.color_end <= r.color_start) {
            pbt::require_eq_str(got.substr(std::min(pos, got.size()), r.out.size()), r.out, (where + " (plain)").c_str());
            pos += r.out.size();
            continue;
        }
        src.label("coloured message");
        std::string a = r.out.substr(0, r.color_start), b = r.out.substr(r.color_start, r.color_end - r.color_start),
                    c = r.out.substr(r.color_end);
        pbt::require_eq_str(got.substr(std::min(pos, got.size()), a.size()), a, (where + " before the range").c_str());
        pos += a.size();
        bool custom_active = p.custom[i].count(m.level) && (!p.late_custom[i] || k >= p.msgs.size() / 2);
        size_t n;
        if (custom_active) {
            const std::string& want = p.custom[i].at(m.level);
            n = want.size();
            pbt::require_eq_str(got.substr(std::min(pos, got.size()), n), want, (where + " the level's own colour").c_str());
        }
        else {
            n = sgr(got, pos);
            REQUIRE(n > 0, "%s: the range does not start with a colour: %s", where.c_str(), pbt::quote(got.substr(std::min(pos, got.size()), 40)).c_str());
            std::string col = got.substr(pos, n);
            if (seen.count(m.level)) pbt::require_eq_str(col, seen[m.level], (where + " colour of the level").c_str());
            seen[m.level] = col;
        }
        pos += n;
        pbt::require_eq_str(got.substr(std::min(pos, got.size()), b.size()), b, (where + " the range").c_str());
        pos += b.size();
        n = sgr(got, pos);
        std::string reset = got.substr(std::min(pos, got.size()), n);
        REQUIRE(reset == "\x1b[m" || reset == "\x1b[0m", "%s: the range does not end with a reset: %s", where.c_str(),
                pbt::quote(got.substr(std::min(pos, got.size()), 40)).c_str());
        pos += n;
        pbt::require_eq_str(got.substr(std::min(pos, got.size()), c.size()), c, (where + " after the range").c_str());
        pos += c.size();
    }
    REQUIRE(pos == got.size(), "stream %d: %zu bytes too many: %s", i + 1, got.size() - pos, pbt::quote(got.substr(pos)).c_str());
    // levels that differ in weight must be told apart
    if (seen.count(4) && seen.count(0)) REQUIRE(seen[4] != seen[0], "error and trace have the same colour");
    if (seen.count(3) && seen.count(2)) REQUIRE(seen[3] != seen[2], "warn and info have the same colour");
}

}   // namespace

PROPERTY(colour) {
    gen::set_zone(src);
    setenv("TZ", "UTC", 1);
    tzset();
    Plan p;
    struct T { const char* term; bool ok; };
    static const T terms[] = {{"xterm", true}, {"xterm-256color", true}, {"dumb", false}, {"linux", true}, {"screen", true},
                              {"vt100", true}, {"ansi", true}, {"unknown", false}, {"", false}, {nullptr, false}, {"rxvt-unicode", true},
                              {"emacs", false}, {"alacritty", true}, {"xter", false}, {"XTERM", false}};
    T t = terms[src.below(sizeof terms / sizeof *terms)];
    // a name counts when it holds one of the known ones
    std::string made;
    if (src.chance(2, 5)) {
        static const char* const KNOWN[] = {"ansi", "color", "console", "cygwin", "gnome", "konsole", "kterm", "linux",
                                            "msys", "putty", "rxvt", "screen", "vt100", "xterm", "alacritty", "vt102"};
        auto rest = [&] {
            std::string r;
            for (size_t n = src.below(5); n; --n) r += "abdz0-.+X"[src.below(9)];
            return r;
        };
        size_t w = src.below(sizeof KNOWN / sizeof *KNOWN + 6);
        made = rest() + (w < sizeof KNOWN / sizeof *KNOWN ? KNOWN[w] : "") + rest();
        t.ok = w < sizeof KNOWN / sizeof *KNOWN;
        t.term = made.c_str();
        src.label(t.ok ? "a terminal that holds a known name" : "a made-up terminal");
    }
    p.term = t.term;
    p.colorterm = src.pick<const char*>({nullptr, nullptr, nullptr, "truecolor", ""});
    if (p.colorterm && !*p.colorterm && !t.ok) p.colorterm = "1";
    p.supported = t.ok || p.colorterm;
    gen::PatternOpts o;
    o.elapsed = false;
    auto pat = [&]() -> std::string {
        switch (src.below(4)) {
            case 0: return "%+";
            case 1: return src.ascii(src.small_size(0, 5), "%") + "%^" + gen::pattern(src, o) + "%$" + src.ascii(src.small_size(0, 5), "%");
            case 2: return "[%n] %^[%l]%$ %v";
            default: return gen::pattern(src, o);
        }
    };
    // a lone "%" before "%$" would swallow it; the model reads the pattern the same way
    for (int i = 0; i < 2; ++i) {
        p.tty[i] = src.chance(4, 5);
        p.kind[i] = int(src.weighted({5, 3, 1, 1}));
        p.pattern[i] = pat();
        p.late_custom[i] = src.flip();
        if (src.chance(1, 3)) {     // also several levels of one colour, level off, and the default of another level
            size_t nc = src.size(1, 4);
            for (size_t k = 0; k < nc; ++k)
                p.custom[i][int(src.below(7))] =
                    src.pick<const char*>({"\x1b[35m", "\x1b[1;34m", "<C>", "", "\x1b[m", "\x1b[0m", "\x1b[36m", "\x1b[32m", "\x1b[31m", "\x1b[37m"});
        }
    }
    p.pattern2 = pat();
    switch (src.below(3)) {
        case 0: p.order = {0}; break;
        case 1: p.order = {0, 1}; break;
        default: p.order = {1, 0}; break;
    }
    size_t n = src.small_size(1, 8);
    for (size_t i = 0; i < n; ++i) {
        model::Msg m = gen::msg(src, 60);
        m.level = int(src.below(6));
        for (auto* s : {&m.text, &m.file, &m.func})
            for (char& c : *s)
                if (c == '\x1b') c = 'e';
        p.msgs.push_back(m);
    }
    p.change_at = src.chance(1, 3) ? src.below(n + 1) : n + 1;
    src.note(pbt::strf("TERM=%s COLORTERM=%s tty=%d,%d kind=%d,%d patterns=%s,%s change_at=%zu to %s msgs=%zu levels:",
                       p.term ? p.term : "(unset)", p.colorterm ? p.colorterm : "(unset)", p.tty[0], p.tty[1], p.kind[0], p.kind[1],
                       pbt::quote(p.pattern[0]).c_str(), pbt::quote(p.pattern[1]).c_str(), p.change_at,
                       pbt::quote(p.pattern2).c_str(), n));
    for (auto& m : p.msgs) src.note(pbt::strf("  %s %s", model::level_name(m.level), pbt::quote(m.text, 60).c_str()));

    int master[2], slave[2];
    for (int i = 0; i < 2; ++i) {
        if (p.tty[i]) {
            if (openpty(&master[i], &slave[i], nullptr, nullptr, nullptr) != 0) throw pbt::Infra{"openpty failed"};
            struct termios tio;
            tcgetattr(slave[i], &tio);
            cfmakeraw(&tio);
            tcsetattr(slave[i], TCSANOW, &tio);
        }
        else {
            int fd[2];
            if (pipe(fd) != 0) throw pbt::Infra{"pipe failed"};
            master[i] = fd[0];
            slave[i] = fd[1];
        }
    }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) throw pbt::Infra{"fork failed"};
    if (pid == 0) {
        ::close(master[0]);
        ::close(master[1]);
        child(p, slave[0], slave[1]);
    }
    ::close(slave[0]);
    ::close(slave[1]);
    std::string got[2];
    bool open[2] = {true, true};
    int quiet = 0;      // in rounds, so that a sandbox that is stopped does not look like a hang
    while (open[0] || open[1]) {
        struct pollfd pf[2] = {{open[0] ? master[0] : -1, POLLIN, 0}, {open[1] ? master[1] : -1, POLLIN, 0}};
        if (poll(pf, 2, 100) == 0) {
            pbt::beat();
            if (++quiet < 400) continue;
            kill(pid, SIGKILL);
            waitpid(pid, nullptr, 0);
            pbt::fail("the logging process does not end");
        }
        quiet = 0;
        for (int i = 0; i < 2; ++i) {
            if (!open[i] || !pf[i].revents) continue;
            char buf[8192];
            ssize_t k = ::read(master[i], buf, sizeof buf);
            if (k > 0) got[i].append(buf, size_t(k));
            else open[i] = false;       // EIO: the last slave is closed
        }
    }
    ::close(master[0]);
    ::close(master[1]);
    int st = 0;
    waitpid(pid, &st, 0);
    REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the logging process ended with status %x; output: %s", st,
            pbt::quote(got[1]).c_str());
    bool has[2] = {false, false};
    for (int i : p.order) has[i] = true;
    for (int i = 0; i < 2; ++i) {
        if (has[i]) check_stream(p, i, got[i], static_cast<unsigned long long>(pid), src);
        else REQUIRE(got[i].empty(), "stream %d has no sink but got %s", i + 1, pbt::quote(got[i]).c_str());
    }
    bool any_tty = false;
    for (int i : p.order) any_tty |= p.tty[i] && p.kind[i] < 2;
    if (any_tty) src.nontrivial(p.supported ? "colour terminal" : "terminal without colours");
    else src.label("no terminal");
}

PBT_MAIN()
