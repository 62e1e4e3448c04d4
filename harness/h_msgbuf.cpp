// C21: a stored message owns its text through every copy and move.
#include "recsink.h"

#include "base/async_msg.h"
#include "base/log_msg_buf.h"

using namespace learnlog;
using base::log_msg;
using base::log_msg_buf;
using base::async_msg;
using pbt::Src;

namespace {

struct Model {
    bool valid = false;     // false: moved from
    std::string name, text;
    int level = 6;
    long long ns = 0;
    size_t tid = 0;
    source_loc loc;
    size_t ci = 0, ce = 0;
};

template <typename M>
void check(const M& b, const Model& m, const char* what) {
    if (!m.valid) return;
    pbt::require_eq_str(lib::str(b.logger_name), m.name, (std::string(what) + ": logger name").c_str());
    pbt::require_eq_str(lib::str(b.msg), m.text, (std::string(what) + ": text").c_str());
    REQUIRE(int(b.level) == m.level && lib::ns_of(b.time) == m.ns && b.tid == m.tid, "%s: level, time or thread", what);
    REQUIRE(rec::same_cstr(b.loc.filename, m.loc.filename) && b.loc.line == m.loc.line &&
            rec::same_cstr(b.loc.funcname, m.loc.funcname), "%s: location", what);
    REQUIRE(b.color_index_start == m.ci && b.color_index_end == m.ce, "%s: colour range", what);
}

Model gen(Src& src) {
    Model m;
    m.valid = true;
    size_t total = src.chance(1, 500) ? 900000 + src.below(1500000) : rec::text_len(src);
    size_t n;
    switch (src.below(4)) {
        case 0: n = 0; break;
        case 1: n = std::min<size_t>(total, src.below(20)); break;
        case 2: n = total; break;
        default: n = src.below(total + 1);
    }
    m.name = rec::text(src, n);
    m.text = rec::text(src, total - n);
    m.level = int(src.below(7));
    m.ns = (long long)src.below(4000000000000000000ull);
    m.loc = rec::loc(src);
    m.ci = src.below(50);
    m.ce = src.below(50);
    return m;
}

// builds a stored message from a view that dies right away
template <typename F>
void with_msg(Model& m, F f) {
    std::unique_ptr<char[]> a(new char[m.name.size() + 1]), b(new char[m.text.size() + 1]);
    memcpy(a.get(), m.name.data(), m.name.size());
    memcpy(b.get(), m.text.data(), m.text.size());
    {
        log_msg v(lib::tp(m.ns), m.loc, level::level_enum(m.level), fmt_string_view(b.get(), m.text.size()),
                  fmt_string_view(a.get(), m.name.size()));
        v.color_index_start = m.ci;
        v.color_index_end = m.ce;
        m.tid = v.tid;
        f(v);
    }
    memset(a.get(), '#', m.name.size());
    memset(b.get(), '#', m.text.size());
}

}   // namespace

PROPERTY(stored) {
    struct Slot {
        std::unique_ptr<log_msg_buf> b;
        Model m;
    };
    std::vector<Slot> s;
    size_t n = src.small_size(1, 60);
    size_t moved = 0, made = 0;
    for (size_t i = 0; i < n; ++i) {
        size_t op = src.below(10);
        if (s.empty() || (op == 0 && s.size() < 6)) {
            Slot x;
            x.m = gen(src);
            with_msg(x.m, [&](const log_msg& v) { x.b.reset(new log_msg_buf(v)); });
            src.note(pbt::strf("new #%zu: name %zu, text %zu bytes", s.size(), x.m.name.size(), x.m.text.size()));
            s.push_back(std::move(x));
            ++made;
        }
        else {
            size_t a = src.below(s.size()), b = src.below(s.size());
            src.note(pbt::strf("op %zu on %zu, %zu", op, a, b));
            switch (op) {
                case 1: {    // copy construct
                    if (!s[a].m.valid) break;
                    Slot x;
                    x.m = s[a].m;
                    x.b.reset(new log_msg_buf(static_cast<const log_msg_buf&>(*s[a].b)));
                    if (s.size() < 6) s.push_back(std::move(x));
                    else { check(*x.b, x.m, "copy"); s[b] = std::move(x); }
                    ++moved;
                    break;
                }
                case 2: {    // move construct
                    if (!s[a].m.valid) break;
                    Slot x;
                    x.m = s[a].m;
                    x.b.reset(new log_msg_buf(std::move(*s[a].b)));
                    s[a].m.valid = false;
                    if (src.flip()) { s[a] = std::move(x); }
                    else if (s.size() < 6) s.push_back(std::move(x));
                    ++moved;
                    break;
                }
                case 3: case 4:     // copy assign, also to itself
                    if (!s[a].m.valid) break;
                    *s[b].b = static_cast<const log_msg_buf&>(*s[a].b);
                    s[b].m = s[a].m;
                    ++moved;
                    break;
                case 5: case 6:     // move assign
                    if (!s[a].m.valid || a == b) break;
                    *s[b].b = std::move(*s[a].b);
                    s[b].m = s[a].m;
                    s[a].m.valid = false;
                    ++moved;
                    break;
                case 7:      // store a stored message again, through its view
                    if (!s[a].m.valid) break;
                    s[b].b.reset(new log_msg_buf(static_cast<const log_msg&>(*s[a].b)));
                    s[b].m = s[a].m;
                    ++moved;
                    break;
                case 8: {    // through a growing vector
                    std::vector<log_msg_buf> v;
                    std::vector<Model> vm;
                    size_t k = src.small_size(1, 9);
                    for (size_t j = 0; j < k; ++j) {
                        size_t from = src.below(s.size());
                        if (!s[from].m.valid) continue;
                        v.push_back(*s[from].b);
                        vm.push_back(s[from].m);
                    }
                    for (size_t j = 0; j < v.size(); ++j) check(v[j], vm[j], "in a vector");
                    if (!v.empty() && src.flip()) {
                        std::rotate(v.begin(), v.begin() + long(src.below(v.size())), v.end());
                        size_t shift = 0;
                        for (; shift < vm.size(); ++shift) {
                            if (lib::str(v[0].msg) == vm[shift].text && lib::str(v[0].logger_name) == vm[shift].name) {
                                bool all = true;
                                for (size_t j = 0; j < v.size(); ++j)
                                    all = all && lib::str(v[j].msg) == vm[(j + shift) % vm.size()].text;
                                if (all) break;
                            }
                        }
                        REQUIRE(shift < vm.size(), "rotating stored messages changed their texts");
                    }
                    ++moved;
                    break;
                }
                default:
                    s.erase(s.begin() + long(a));
                    break;
            }
        }
        for (size_t j = 0; j < s.size(); ++j) check(*s[j].b, s[j].m, "stored message");
    }
    if (made >= 2 && moved >= 2) src.nontrivial();
}

// the queued form: moved only
PROPERTY(queued) {
    std::vector<async_msg> v(src.size(1, 5));
    std::vector<Model> m(v.size());
    size_t n = src.small_size(1, 40), moved = 0;
    for (size_t i = 0; i < n; ++i) {
        size_t a = src.below(v.size()), b = src.below(v.size());
        switch (src.below(4)) {
            case 0: {
                m[a] = gen(src);
                with_msg(m[a], [&](const log_msg& x) { v[a] = async_msg(nullptr, base::log, x); });
                break;
            }
            case 1:
                if (a == b || !m[a].valid) break;
                v[b] = std::move(v[a]);
                m[b] = m[a];
                m[a].valid = false;
                ++moved;
                break;
            case 2: {
                if (!m[a].valid) break;
                async_msg t(std::move(v[a]));
                check(t, m[a], "moved to a temporary");
                v[b] = std::move(t);
                Model keep = m[a];
                m[a].valid = false;
                m[b] = keep;
                ++moved;
                break;
            }
            default: {
                if (!m[a].valid) break;
                std::vector<async_msg> w;
                size_t k = src.size(1, 6);
                for (size_t j = 0; j < k; ++j) w.emplace_back();
                w[0] = std::move(v[a]);
                w.reserve(w.capacity() * 2 + 1);
                check(w[0], m[a], "in a growing vector");
                v[a] = std::move(w[0]);
                ++moved;
            }
        }
        for (size_t j = 0; j < v.size(); ++j) {
            check(v[j], m[j], "queued message");
            if (m[j].valid) REQUIRE(v[j].msg_type == base::log, "message kind");
        }
    }
    if (moved >= 2) src.nontrivial();
}

PBT_MAIN()
