// C28: the text of a message is what its format string and arguments say. The reference is
// std::format, and printf for numbers with a point.
#include "pbt.h"
#include "recsink.h"

#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "learnlog.h"

#include <charconv>
#include <cmath>
#include <format>
#include <limits>

using pbt::Src;

namespace {
// an argument of the user's, with a formatter for each library
struct Point { int x = 0, y = 0; };
std::string text_of(const Point& p) { return "(" + std::to_string(p.x) + ";" + std::to_string(p.y) + ")"; }
// one that cannot be copied, and is formatted by reference
struct Fixed {
    int v = 0;
    Fixed() = default;
    Fixed(const Fixed&) = delete;
};
std::atomic<int> n_formatted{0};
}   // namespace

template <> struct fmt::formatter<Point> : fmt::formatter<fmt::string_view> {
    auto format(const Point& p, fmt::format_context& c) const {
        ++n_formatted;
        return fmt::formatter<fmt::string_view>::format(text_of(p), c);
    }
};
template <> struct std::formatter<Point> : std::formatter<std::string_view> {
    auto format(const Point& p, std::format_context& c) const { return std::formatter<std::string_view>::format(text_of(p), c); }
};
template <> struct fmt::formatter<Fixed> : fmt::formatter<int> {
    auto format(const Fixed& p, fmt::format_context& c) const { ++n_formatted; return fmt::formatter<int>::format(p.v, c); }
};
template <> struct std::formatter<Fixed> : std::formatter<int> {
    auto format(const Fixed& p, std::format_context& c) const { return std::formatter<int>::format(p.v, c); }
};

namespace {
enum Kind { BOOL, CHAR, INTEGER, FLOATING, STRING, POINTER };

struct Spec {
    std::string fill;           // one code point
    char align = 0, sign = 0, type = 0;
    bool alt = false, zero = false;
    int width = -1, prec = -1;
    bool dyn_width = false, dyn_prec = false;
    std::string text(int wi, int pi, bool manual) const {
        std::string r;
        if (align) { r += fill; r += align; }
        if (sign) r += sign;
        if (alt) r += '#';
        if (zero) r += '0';
        if (width >= 0) r += dyn_width ? (manual ? "{" + std::to_string(wi) + "}" : "{}") : std::to_string(width);
        if (prec >= 0) r += "." + (dyn_prec ? (manual ? "{" + std::to_string(pi) + "}" : "{}") : std::to_string(prec));
        if (type) r += type;
        return r;
    }
};

const std::vector<std::string> LETTERS = {"a", "b", "z", "{", "}", " ", "0", "\xc3\xa9", "\xe6\xbc\xa2", "\xf0\x9f\x98\x80", "%", "\n", "-", "x", std::string(1, 0)};

size_t points(const std::string& s, size_t max, size_t* width) {    // bytes of the first max code points
    size_t i = 0, w = 0;
    for (size_t n = 0; i < s.size() && n < max; ++n) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        size_t l = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
        w += l > 2 ? 2 : 1;
        i += l;
    }
    if (width) *width = w;
    return i;
}
std::string gen_text(Src& src, size_t max) {
    std::string s;
    for (size_t n = src.small_size(0, max); n; --n) s += src.chance(1, 3) ? src.pick(LETTERS) : std::string(1, char('a' + src.below(26)));
    return s;
}

Spec gen_spec(Src& src, Kind k, bool plain_ok = true) {
    Spec s;
    if (plain_ok && src.chance(1, 3)) return s;
    bool wild = src.chance(1, 40);
    if (src.flip()) {
        s.align = src.pick({'<', '>', '^'});
        s.fill = src.flip() ? src.pick(std::vector<std::string>{"*", " ", "0", "-", "x", "<", ":", "\xc3\xa9", "\xe6\xbc\xa2"}) : "";
    }
    bool num = k == INTEGER || k == FLOATING;
    if (num || wild) {
        s.sign = src.pick<char>({0, 0, '+', '-', ' '});
        s.alt = src.chance(1, 4);
        s.zero = src.chance(1, 4);
    }
    if (src.flip()) {
        s.width = int(src.small_size(1, 90));
        s.dyn_width = src.chance(1, 5);
    }
    if ((k == FLOATING || k == STRING || wild) && src.flip()) {
        s.prec = int(src.small_size(0, k == FLOATING && src.chance(1, 8) ? 400 : 30));
        s.dyn_prec = src.chance(1, 5);
    }
    const char* types = wild ? "bcdoxXeEfFgGsp" : k == BOOL ? "sdbx" : k == CHAR ? "cdx" : k == INTEGER ? "dbBoxXc" : k == FLOATING ? "eEfFgG" : k == STRING ? "s" : "p";
    if (src.flip()) s.type = types[src.below(std::strlen(types))];
    return s;
}

template <typename T> constexpr Kind kind_of() {
    using U = std::remove_cvref_t<T>;
    if constexpr (std::is_same_v<U, bool>) return BOOL;
    else if constexpr (std::is_same_v<U, char>) return CHAR;
    else if constexpr (std::is_integral_v<U> || std::is_same_v<U, Fixed>) return INTEGER;
    else if constexpr (std::is_floating_point_v<U>) return FLOATING;
    else if constexpr (std::is_same_v<U, const void*> || std::is_same_v<U, std::nullptr_t>) return POINTER;
    else return STRING;
}

// numbers with a point: glibc
template <typename T> std::string ref_float(const Spec& s, T v) {
    std::string f = "%";
    if (s.sign && s.sign != '-') f += s.sign;
    if (s.alt) f += '#';
    if (s.zero && !s.align) f += '0';
    if (s.width >= 0 && !s.align) f += std::to_string(s.width);
    if (s.prec >= 0) f += "." + std::to_string(s.prec);
    if (std::is_same_v<T, long double>) f += 'L';
    f += s.type ? s.type : 'g';
    std::string r(12000, 0);
    r.resize(size_t(snprintf(r.data(), r.size(), f.c_str(), v)));
    return r;
}
template <typename T> std::string ref(const std::string& spec, const T& v) { return std::vformat("{:" + spec + "}", std::make_format_args(v)); }
std::string as_string(const std::string& s) { return s; }
std::string as_string(const char* s) { return s; }
std::string as_string(std::string_view s) { return std::string(s); }
std::string as_string(const Point& p) { return text_of(p); }

// what one field may look like; throws std::format_error if the spec is not for such a value
template <typename T>
std::vector<std::string> want_field(const Spec& s, const T& v) {
    constexpr Kind k = kind_of<T>();
    Spec bare = s;
    bare.dyn_width = bare.dyn_prec = false;
    bool odd_fill = s.fill.size() > 1;
    Spec nopad = bare;
    nopad.align = 0;
    nopad.fill.clear();
    nopad.width = -1;
    std::vector<std::string> r;
    if constexpr (k == INTEGER && std::is_integral_v<T>)
        if (s.type == 'c' && v < 0) throw std::format_error("a character below 0 is not specified");
    if (s.zero && s.type == 'c') throw std::format_error("not a number");
    if ((s.zero || s.alt) && k != INTEGER && k != FLOATING) throw std::format_error("not a number");
    if (s.sign && ((k == INTEGER && std::is_unsigned_v<T>) || k == BOOL || k == CHAR)) throw std::format_error("fmt allows signs on signed numbers only");
    if constexpr (std::is_same_v<T, Fixed>)
        if (s.type == 'c' && v.v < 0) throw std::format_error("a character below 0 is not specified");
    if constexpr (k == FLOATING) {
        if (!std::isfinite(v) && s.width >= 0 && (!s.align || s.fill == "0")) throw std::format_error("fmt aligns these as it likes");
        if (s.alt && (!s.type || s.type == 'g' || s.type == 'G')) throw std::format_error("fmt adds zeros of its own, or leaves some out");
        if (std::is_same_v<T, long double> && std::isfinite(v) && !s.type && s.prec < 0) throw std::format_error("fmt does not promise the shortest digits of these: see reads_back");
    }
    if constexpr (k == STRING) {
        (void)ref(bare.text(0, 0, false).empty() || odd_fill ? nopad.text(0, 0, false) : bare.text(0, 0, false), std::string("x"));     // throws if it is wrong
        std::string t = as_string(v);
        t.resize(points(t, s.prec >= 0 ? size_t(s.prec) : t.size(), nullptr));
        r.push_back(t);
    }
    else {
        std::vector<Spec> specs{bare};
        std::string extra;
        if constexpr (k == FLOATING)
            if (std::isfinite(v) && s.type == 0 && s.prec < 0) {       // the shortest digits that give the value back, in either notation
                char buf[6000];
                auto e = std::to_chars(buf, buf + sizeof buf, v, std::chars_format::scientific);
                std::string sci(buf, e.ptr);
                size_t exp = sci.find('e'), dot = sci.find('.');
                Spec a = bare;
                a.type = 'e';
                a.prec = dot == std::string::npos ? 0 : int(exp - dot - 1);
                int x = std::atoi(sci.c_str() + exp + 1);
                Spec b = bare;
                b.type = 'f';
                b.prec = std::max(0, a.prec - x);
                specs = {a};
                if (x > -10 && x <= 20) {
                    if (x <= a.prec) specs.push_back(b);
                    else {          // zeros after the shortest digits
                        std::string d(1, sci[sci[0] == '-' ? 1 : 0]);
                        if (dot != std::string::npos) d += sci.substr(dot + 1, exp - dot - 1);
                        d += std::string(size_t(x - a.prec), '0');
                        std::string sg = sci[0] == '-' ? "-" : s.sign == '+' ? "+" : s.sign == ' ' ? " " : "";
                        size_t len = sg.size() + d.size(), pad = s.width > int(len) && !s.align ? size_t(s.width) - len : 0;
                        extra = s.zero && !s.align ? sg + std::string(pad, '0') + d : std::string(pad, ' ') + sg + d;
                    }
                }
            }
        for (auto& sp : specs) {
            Spec n = sp;
            if (odd_fill || sp.align) { n.align = 0; n.fill.clear(); n.width = -1; n.zero = false; }
            std::string t = ref(n.text(0, 0, false), v);
            if constexpr (k == FLOATING)
                if (std::isfinite(v)) t = ref_float(n, v);
            r.push_back(t);
        }
        if (!extra.empty()) r.push_back(extra);
        if (!odd_fill && !s.align) return r;
    }
    // pads as asked
    char al = s.align ? s.align : (k == STRING || k == BOOL || k == CHAR) && (s.type == 0 || s.type == 's' || s.type == 'c') ? '<' : s.type == 'c' ? '<' : '>';
    std::string fill = s.fill.empty() ? " " : s.fill;
    for (auto& t : r) {
        size_t w = 0;
        points(t, t.size(), &w);
        size_t pad = s.width > int(w) ? size_t(s.width) - w : 0, left = al == '<' ? 0 : al == '>' ? pad : pad / 2;
        std::string u;
        for (size_t i = 0; i < left; ++i) u += fill;
        u += t;
        for (size_t i = left; i < pad; ++i) u += fill;
        t = u;
    }
    return r;
}

struct Field { size_t arg; Spec spec; };

struct Env {
    std::shared_ptr<rec::Sink> sink = std::make_shared<rec::Sink>();
    std::shared_ptr<learnlog::base::lock_thread_pool> pool;
    std::shared_ptr<learnlog::logger> lg;
    std::string taken() {
        std::vector<rec::Event> e;
        if (pool) for (int i = 0; i < 20000 && !sink->count(); ++i) std::this_thread::sleep_for(std::chrono::microseconds(50));
        e = sink->take();
        REQUIRE(e.size() == 1, "%zu messages arrived of one", e.size());
        return e[0].text;
    }
};

std::string quoted_braces(const std::string& s) {
    std::string r;
    for (char c : s) { r += c; if (c == '{' || c == '}') r += c; }
    return r;
}

template <typename A, typename B, typename C>
void with(Src& src, Env& env, const A& a, const B& b, const C& c) {
    // w: widths and precisions taken from the arguments
    int w1 = int(src.small_size(0, 60)), w2 = int(src.small_size(0, 20));
    size_t n = src.size(1, 4);
    bool manual = src.flip();
    std::string f;
    std::vector<std::vector<std::string>> want{{""}};
    auto lit = [&] {
        std::string t = gen_text(src, 6);
        f += quoted_braces(t);
        for (auto& x : want.back()) x += t;
    };
    auto field = [&](size_t arg, const auto& v, bool may_dyn) {
        Spec s = gen_spec(src, kind_of<decltype(v)>());
        if (!may_dyn) s.dyn_width = s.dyn_prec = false;
        if (s.dyn_width) s.width = w1;
        if (s.dyn_prec) s.prec = w2;
        std::string t = s.text(3, 4, manual);
        f += "{" + (manual ? std::to_string(arg) : "") + (t.empty() && src.flip() ? "" : ":" + t) + "}";
        std::vector<std::string> r;
        for (auto& x : want_field(s, v))
            for (auto& y : want.back()) r.push_back(y + x);
        want.back() = r;
    };
    bool valid = true;
    lit();
    try {
        for (size_t i = 0; i < (manual ? n : std::min<size_t>(n, 3)); ++i) {
            size_t arg = manual ? src.below(3) : i;
            if (arg == 0) field(0, a, manual);
            else if (arg == 1) field(1, b, manual);
            else field(2, c, manual);
            lit();
        }
    }
    catch (const std::format_error&) { valid = false; }
    src.note(pbt::strf("%s%s", pbt::quote(f, 500).c_str(), valid ? "" : " (wrong)"));
    if (!valid) src.label("wrong spec");
    env.lg->log(learnlog::level::info, fmt::runtime(f), a, b, c, w1, w2);
    if (!valid) {       // whatever comes of it, the next message is whole
        if (env.pool) { auto p = learnlog::make_unique<int>(1); (void)p; }
        env.lg->log(learnlog::level::info, "{}|{}|{}", std::string("after"), 1, 2.5);
        std::vector<rec::Event> e;
        if (env.pool) {
            for (int i = 0; i < 20000; ++i) {
                for (auto& x : env.sink->take()) e.push_back(x);
                if (!e.empty() && e.back().text == "after|1|2.5") break;
                std::this_thread::sleep_for(std::chrono::microseconds(50));
            }
        }
        else e = env.sink->take();
        REQUIRE(!e.empty() && e.size() <= 2 && e.back().text == "after|1|2.5", "after a format string that does not fit its arguments, the next message is %s",
                e.empty() ? "missing" : pbt::quote(e.back().text).c_str());
        return;
    }
    std::string got = env.taken();
    for (auto& x : want.back())
        if (x == got) return;
    pbt::fail("format %s\n  got : %s\n  want: %s", pbt::quote(f, 900).c_str(), pbt::quote(got, 900).c_str(), pbt::quote(want.back()[0], 900).c_str());
}

// a long double written without a precision: not always the shortest digits, but always digits that give it back
void reads_back(Env& env, long double v) {
    env.lg->log(learnlog::level::info, "{}", v);
    std::string t = env.taken();
    char* end = nullptr;
    long double r = std::strtold(t.c_str(), &end);
    REQUIRE(end == t.c_str() + t.size() && (r == v || (std::isnan(r) && std::isnan(v))) && std::signbit(r) == std::signbit(v), "%.*La was written as %s, which is %.*La", 20, v, pbt::quote(t).c_str(), 20, r);
}

long long gen_int(Src& src) {
    unsigned sh = unsigned(src.below(64));
    switch (src.below(4)) {
        case 0: return src.range(-20, 200);
        case 1: { unsigned long long p = 1; for (size_t i = src.below(20); i; --i) p *= 10; return (long long)((p - (src.flip() ? 1 : 0)) * (src.chance(1, 3) ? -1 : 1)); }
        case 2: return (long long)((1ull << sh) - src.below(3));
        default: return (long long)src.bits();
    }
}
template <typename F> F gen_float(Src& src) {
    switch (src.below(7)) {
        case 0: return F(src.range(-1000, 1000)) / F(src.pick({1, 2, 8, 10, 100, 3}));
        case 1: { F p = F(src.range(1, 9999)); int e = int(src.range(-30, 30)); for (; e > 0; --e) p *= 10; for (; e < 0; ++e) p /= 10; return p; }
        case 2: return src.pick({F(0), -F(0), std::numeric_limits<F>::infinity(), -std::numeric_limits<F>::infinity(), std::numeric_limits<F>::quiet_NaN(),
                                 std::numeric_limits<F>::max(), std::numeric_limits<F>::min(), std::numeric_limits<F>::denorm_min(), std::numeric_limits<F>::epsilon()});
        case 3: return std::nextafter(F(gen_int(src)), F(src.flip() ? 1e30 : -1e30));
        case 4: return F(0.5) + F(src.range(-100, 100));       // halves round to even
        default: {
            if constexpr (sizeof(F) == 4) { uint32_t b = uint32_t(src.bits()); float r; memcpy(&r, &b, 4); return r; }
            else if constexpr (sizeof(F) == 8) { uint64_t b = src.bits(); double r; memcpy(&r, &b, 8); return r; }
            else return std::ldexp(F(src.bits()), int(src.range(-16445, 16320)));
        }
    }
}

template <typename A, typename B> void third(Src& src, Env& env, const A& a, const B& b) {
    if (src.flip()) { std::string s = gen_text(src, 300); with(src, env, a, b, s); }
    else with(src, env, a, b, (unsigned long long)(gen_int(src)));
}
template <typename A> void second(Src& src, Env& env, const A& a) {
    switch (src.below(3)) {
        case 0: { std::string s = gen_text(src, 30); return third(src, env, a, std::string_view(s)); }
        case 1: return third(src, env, a, Point{int(src.range(-5, 5)), int(gen_int(src))});
        default: return third(src, env, a, gen_float<double>(src));
    }
}
}   // namespace

namespace {
// up to 40 arguments of mixed types, referred to in any order
template <size_t I> struct Nth {
    using type = std::conditional_t<I % 5 == 0, int, std::conditional_t<I % 5 == 1, std::string, std::conditional_t<I % 5 == 2, char,
                 std::conditional_t<I % 5 == 3, unsigned long long, std::string_view>>>>;
};
template <size_t... I>
void many_args(Src& src, Env& env, std::index_sequence<I...>) {
    constexpr size_t N = sizeof...(I);
    std::vector<std::string> keep(N), shown(N);
    for (size_t i = 0; i < N; ++i) keep[i] = gen_text(src, src.chance(1, 10) ? 300 : 6);
    auto make = [&](auto tag, size_t i) {
        using T = decltype(tag);
        T v{};
        if constexpr (std::is_same_v<T, int>) v = int(gen_int(src));
        else if constexpr (std::is_same_v<T, char>) v = char(src.range(33, 126));
        else if constexpr (std::is_same_v<T, unsigned long long>) v = (unsigned long long)(gen_int(src));
        else v = keep[i];
        shown[i] = std::format("{}", v);
        return v;
    };
    std::tuple<typename Nth<I>::type...> t{make(typename Nth<I>::type{}, I)...};
    bool manual = src.flip();
    size_t n = manual ? src.size(0, 60) : N ? src.below(N + 1) : 0;
    std::string f, want;
    for (size_t k = 0; k < n && N; ++k) {
        size_t i = manual ? src.below(N) : k;
        f += manual ? "{" + std::to_string(i) + "}" : "{}";
        want += shown[i];
        if (src.flip()) { f += "-{{"; want += "-{"; }
    }
    src.note(pbt::strf("%zu arguments: %s", N, f.c_str()));
    std::apply([&](auto&... v) {
        if (src.flip()) env.lg->log(learnlog::level::info, fmt::runtime(f), v...);
        else env.lg->warn(fmt::runtime(f), v...);
    }, t);
    pbt::require_eq_str(env.taken(), want, "text");
}
}   // namespace

PROPERTY(many) {
    Env env;
    if (src.chance(1, 8)) {
        env.pool = std::make_shared<learnlog::base::lock_thread_pool>(4, 1);
        env.lg = std::make_shared<learnlog::async_logger>("l", env.sink, env.pool);
    }
    else env.lg = std::make_shared<learnlog::logger>("l", env.sink);
    switch (src.below(12)) {
        case 0: many_args(src, env, std::make_index_sequence<1>()); break;
        case 1: many_args(src, env, std::make_index_sequence<4>()); break;
        case 2: many_args(src, env, std::make_index_sequence<7>()); break;
        case 3: many_args(src, env, std::make_index_sequence<10>()); break;
        case 4: many_args(src, env, std::make_index_sequence<14>()); break;
        case 5: many_args(src, env, std::make_index_sequence<15>()); break;
        case 6: many_args(src, env, std::make_index_sequence<16>()); break;
        case 7: many_args(src, env, std::make_index_sequence<17>()); break;
        case 8: many_args(src, env, std::make_index_sequence<20>()); break;
        case 9: many_args(src, env, std::make_index_sequence<31>()); break;
        case 10: many_args(src, env, std::make_index_sequence<33>()); break;
        default: many_args(src, env, std::make_index_sequence<40>());
    }
    src.nontrivial();
}

PROPERTY(args) {
    Env env;
    if (src.chance(1, 6)) {
        env.pool = std::make_shared<learnlog::base::lock_thread_pool>(4, 1);
        env.lg = std::make_shared<learnlog::async_logger>("l", env.sink, env.pool);
    }
    else env.lg = std::make_shared<learnlog::logger>("l", env.sink);
    size_t n = src.size(1, 4);
    for (size_t i = 0; i < n; ++i) {
        switch (src.below(17)) {
            case 0: second(src, env, src.flip()); break;
            case 1: second(src, env, char(src.range(32, 126))); break;
            case 2: second(src, env, (signed char)(gen_int(src))); break;
            case 3: second(src, env, (unsigned char)(gen_int(src))); break;
            case 4: second(src, env, short(gen_int(src))); break;
            case 5: second(src, env, int(gen_int(src))); break;
            case 6: second(src, env, unsigned(gen_int(src))); break;
            case 7: second(src, env, gen_int(src)); break;
            case 8: second(src, env, (unsigned long)(gen_int(src))); break;
            case 9: second(src, env, gen_float<float>(src)); break;
            case 10: second(src, env, gen_float<double>(src)); break;
            case 11: {
                long double v = gen_float<long double>(src);
                reads_back(env, v);
                second(src, env, v);
                break;
            }
            case 12: { std::string s = gen_text(src, 40).c_str(); second(src, env, s.c_str()); break; }
            case 13: second(src, env, (const void*)(uintptr_t(gen_int(src)))); break;
            case 14: second(src, env, nullptr); break;
            case 15: { Fixed x; x.v = int(gen_int(src)); second(src, env, x); break; }
            default: { std::string s = gen_text(src, 300); second(src, env, s); }
        }
        src.nontrivial();
    }
}

PBT_MAIN()
