// C09: a pattern renders every message as documented.  C10: a formatter has no memory.
#include "gen_format.h"
#include "lib.h"

#include "sinks/formatters/pattern_formatter.h"

using namespace learnlog;
using namespace learnlog::sinks;
using pbt::Src;

namespace {

class prefix_flag : public custom_flag_formatter {
public:
    explicit prefix_flag(std::string p) : p_(std::move(p)) {}
    void format(const base::log_msg& m, const std::tm&, fmt_memory_buf& dest) override {
        std::string s = p_ + std::string(m.msg.data(), m.msg.size());
        filler f(s.size(), spaces_info_, dest);
        f.fill_msg(fmt_string_view(s.data(), s.size()));
    }
    std::unique_ptr<custom_flag_formatter> clone() const override {
        return std::unique_ptr<custom_flag_formatter>(new prefix_flag(p_));
    }

private:
    std::string p_;
};

struct RealMsg {
    std::string text, name, file, func;
    base::log_msg m;
    explicit RealMsg(const model::Msg& x) : text(x.text), name(x.logger), file(x.file), func(x.func) {
        source_loc loc = x.has_loc ? source_loc(file.c_str(), x.line, x.has_func ? func.c_str() : nullptr) : source_loc{};
        m = base::log_msg(lib::tp(x.ns), loc, static_cast<level::level_enum>(x.level),
                          fmt_string_view(text.data(), text.size()), fmt_string_view(name.data(), name.size()));
        m.tid = static_cast<size_t>(x.tid);
    }
};

std::string show(const model::Msg& m) {
    return pbt::strf("{t=%lldns level=%s name=%s text=%s loc=%s:%d:%s tid=%llu}", m.ns, model::level_name(m.level),
                     pbt::quote(m.logger, 60).c_str(), pbt::quote(m.text, 80).c_str(), m.has_loc ? m.file.c_str() : "-",
                     m.line, m.has_func ? m.func.c_str() : "-", m.tid);
}

void check_one(pattern_formatter* pf, formatter* f, model::Formatter& mf, const model::Msg& m, const std::string& prefix) {
    (void)pf;
    RealMsg rm(m);
    fmt_memory_buf buf;
    buf.append(prefix.data(), prefix.data() + prefix.size());
    f->format(rm.m, buf);
    model::Rendered want = mf.render(m, prefix.size());
    pbt::require_eq_str(std::string(buf.data(), buf.size()), prefix + want.out,
                        pbt::strf("pattern %s", pbt::quote(mf.pattern).c_str()).c_str());
    REQUIRE(rm.m.color_index_start == want.color_start && rm.m.color_index_end == want.color_end,
            "pattern %s: colour range got [%zu,%zu) want [%zu,%zu)", pbt::quote(mf.pattern).c_str(),
            (size_t)rm.m.color_index_start, (size_t)rm.m.color_index_end, want.color_start, want.color_end);
    REQUIRE(std::string(rm.m.msg.data(), rm.m.msg.size()) == m.text &&
                std::string(rm.m.logger_name.data(), rm.m.logger_name.size()) == m.logger,
            "formatting changed the message");
}

bool interesting(const std::string& p) {
    size_t specs = 0;
    bool padded = false;
    for (size_t i = 0; i + 1 < p.size(); ++i)
        if (p[i] == '%') {
            ++specs;
            if (std::strchr("-=0123456789", p[i + 1])) padded = true;
            ++i;
        }
    return specs >= 2 || padded;
}

}   // namespace

PROPERTY(pattern) {
    gen::Zone z = gen::set_zone(src);
    model::Formatter mf;
    mf.utc_offset = z.offset;
    mf.eu_dst = z.eu_dst;
    mf.pid = static_cast<unsigned long long>(::getpid());
    std::string custom;
    if (src.chance(1, 5)) {
        size_t n = src.size(1, 3);
        for (size_t i = 0; i < n; ++i) {
            char c = src.pick<char>({'v', 'l', 'Q', '#', '$', 'n', 'E'});
            mf.custom[c] = src.ascii(src.small_size(0, 8));
        }
        for (auto& p : mf.custom) custom += p.first;
        src.label("custom flag");
    }
    gen::PatternOpts o;
    o.full = true;
    mf.pattern = gen::pattern(src, o, custom);
    mf.eol = gen::eol(src);
    model::Msg m = gen::msg(src);
    src.note(pbt::strf("pattern=%s eol=%s tz=%s msg=%s", pbt::quote(mf.pattern).c_str(), pbt::quote(mf.eol).c_str(), z.tz,
                       show(m).c_str()));
    if (interesting(mf.pattern)) src.nontrivial();
    if (mf.pattern.find('!') != std::string::npos) src.label("truncating");

    std::unique_ptr<pattern_formatter> f;
    if (custom.empty()) {
        if (mf.pattern == "%+" && mf.eol == "\n" && src.flip()) f.reset(new pattern_formatter());
        else if (src.flip()) f.reset(new pattern_formatter(mf.pattern, mf.eol));
        else {
            f.reset(new pattern_formatter(src.ascii(3), mf.eol));
            f->set_pattern(mf.pattern);
        }
    }
    else if (src.flip()) {
        f.reset(new pattern_formatter("", mf.eol));
        for (auto& p : mf.custom) f->add_custom_flag<prefix_flag>(p.first, p.second);
        f->set_pattern(mf.pattern);
    }
    else {
        pattern_formatter::cust_flag_table t;
        for (auto& p : mf.custom) t[p.first] = std::unique_ptr<custom_flag_formatter>(new prefix_flag(p.second));
        f.reset(new pattern_formatter(mf.pattern, mf.eol, std::move(t)));
    }
    check_one(f.get(), f.get(), mf, m, "");
}

// A history of format / clone / set_pattern / destroy on a family of formatters: every output is
// the one a fresh formatter with the same pattern gives; only the elapsed flags look back.
PROPERTY(history) {
    gen::Zone z = gen::set_zone(src);
    struct F {
        formatter_uni_ptr f;
        pattern_formatter* pf;
        model::Formatter m;
    };
    std::vector<F> fs;
    unsigned long long pid = static_cast<unsigned long long>(::getpid());
    gen::PatternOpts o;
    o.elapsed = true;
    auto make = [&] {
        F x;
        x.m.utc_offset = z.offset;
        x.m.eu_dst = z.eu_dst;
        x.m.pid = pid;
        std::string custom;
        if (src.chance(1, 3)) {
            x.m.custom['Q'] = src.ascii(src.small_size(0, 4));
            custom = "Q";
        }
        x.m.pattern = src.chance(1, 3) ? "%+" : gen::pattern(src, o, custom);
        x.m.eol = gen::eol(src);
        x.m.created_ns = lib::now_ns();
        pattern_formatter* p;
        if (custom.empty()) p = new pattern_formatter(x.m.pattern, x.m.eol);
        else {
            p = new pattern_formatter("", x.m.eol);
            p->add_custom_flag<prefix_flag>('Q', x.m.custom['Q']);
            p->set_pattern(x.m.pattern);
        }
        x.pf = p;
        x.f.reset(p);
        src.note(pbt::strf("f%zu = new %s eol %s", fs.size(), pbt::quote(x.m.pattern).c_str(), pbt::quote(x.m.eol).c_str()));
        fs.push_back(std::move(x));
    };
    make();
    size_t n = src.small_size(2, 40);
    long long t0 = gen::time_ns(src);
    if (t0 > 1700000000ll * 1000000000) t0 = 1700000000ll * 1000000000;     // before the formatter was made
    size_t formats = 0, others = 0;
    for (size_t i = 0; i < n; ++i) {
        size_t k = src.below(fs.size());
        switch (src.weighted({12, 2, 2, 1, 1})) {
            case 0: {
                model::Msg m = gen::msg(src, 60);
                switch (src.below(5)) {     // often the same second, the same millisecond, or going back
                    case 0: m.ns = t0; break;
                    case 1: m.ns = t0 + src.range(0, 999999999); break;
                    case 2: m.ns = t0 + src.range(0, 3) * 1000000000 + src.range(0, 2000000); break;
                    case 3: m.ns = std::max(0ll, t0 - (long long)src.range(0, 5000000000)); break;
                    default: m.ns = m.ns % (1700000000ll * 1000000000); break;
                }
                src.note(pbt::strf("f%zu.format(%s)", k, show(m).c_str()));
                std::string prefix = src.chance(1, 4) ? gen::text(src, 300) : std::string();
                check_one(fs[k].pf, fs[k].f.get(), fs[k].m, m, prefix);
                ++formats;
                break;
            }
            case 1: {
                if (fs.size() >= 6) break;
                F x;
                x.m = fs[k].m;
                x.m.last.clear();       // a clone measures from its own creation
                x.m.created_ns = lib::now_ns();
                x.f = fs[k].f->clone();
                x.pf = dynamic_cast<pattern_formatter*>(x.f.get());
                src.note(pbt::strf("f%zu = f%zu.clone()", fs.size(), k));
                fs.push_back(std::move(x));
                ++others;
                break;
            }
            case 2: {
                if (!fs[k].pf) break;
                fs[k].m.pattern = src.chance(1, 3) ? "%+" : gen::pattern(src, o, fs[k].m.custom.empty() ? "" : "Q");
                fs[k].m.last.clear();
                fs[k].m.created_ns = lib::now_ns();
                fs[k].pf->set_pattern(fs[k].m.pattern);
                src.note(pbt::strf("f%zu.set_pattern(%s)", k, pbt::quote(fs[k].m.pattern).c_str()));
                ++others;
                break;
            }
            case 3:
                if (fs.size() > 1) {
                    src.note(pbt::strf("destroy f%zu", k));
                    fs.erase(fs.begin() + long(k));
                    ++others;
                }
                break;
            case 4: if (fs.size() < 6) { make(); ++others; } break;
        }
    }
    if (src.chance(1, 40)) {        // a child made by fork() is a process of its own
        src.label("fork");
        size_t k = src.below(fs.size());
        model::Msg m = gen::msg(src, 60);
        m.ns = m.ns % (1700000000ll * 1000000000);
        if (fs[k].pf && src.flip() && fs[k].m.custom.empty()) {
            fs[k].m.pattern = "%p %v";
            fs[k].m.last.clear();
            fs[k].m.created_ns = lib::now_ns();
            fs[k].pf->set_pattern(fs[k].m.pattern);
            check_one(fs[k].pf, fs[k].f.get(), fs[k].m, m, "");
        }
        src.note(pbt::strf("f%zu.format(%s) in a child", k, show(m).c_str()));
        int fd[2];
        REQUIRE(::pipe(fd) == 0, "pipe");
        pid_t child = ::fork();
        REQUIRE(child >= 0, "fork");
        if (child == 0) {
            std::string what;
            fs[k].m.pid = static_cast<unsigned long long>(::getpid());
            try { check_one(fs[k].pf, fs[k].f.get(), fs[k].m, m, ""); }
            catch (const pbt::Failure& e) { what = e.msg; }
            catch (...) { what = "an exception"; }
            ssize_t w = ::write(fd[1], what.data(), what.size());
            (void)w;
            ::_exit(what.empty() ? 0 : 1);
        }
        ::close(fd[1]);
        std::string what;
        char b[4096];
        ssize_t r;
        while ((r = ::read(fd[0], b, sizeof b)) > 0) what.append(b, size_t(r));
        ::close(fd[0]);
        int st = 0;
        while (::waitpid(child, &st, 0) < 0 && errno == EINTR) {}
        REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "in a child: status %d: %s", st, what.c_str());
        ++others;
    }
    if (formats >= 3 && others >= 1) src.nontrivial();
}

PBT_MAIN()
