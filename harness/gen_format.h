// Generators of patterns and messages, shared by the harnesses that check rendered text.
#pragma once
#include "model_format.h"
#include "pbt.h"

namespace gen {

inline std::string text(pbt::Src& s, size_t max = 400) {
    switch (s.below(5)) {
        case 0: return s.ascii(s.small_size(0, 12));
        case 1: return s.ascii(s.small_size(0, max));
        case 2: return s.bytes(s.small_size(0, max));
        case 3: {   // around the sizes where an inline buffer spills
            size_t n = s.pick<size_t>({63, 64, 65, 249, 250, 251, 499, 500, 501, 1000});
            return std::string(n, char('a' + s.below(26)));
        }
        default: {
            std::string r;
            size_t n = s.small_size(0, 12);
            for (size_t i = 0; i < n; ++i)
                r += s.pick<const char*>({"\xe6\x97\xa5", "%v", "{}", "\n", "\t", "%", " ", "\xf0\x9f\x98\x80", "x", "\x1b[31m"});
            return r;
        }
    }
}

// Seconds with edge days (end of month, leap days, year ends, every month) well represented.
inline long long time_ns(pbt::Src& s) {
    long long secs;
    switch (s.below(5)) {
        case 4: {   // near a change of summer time
            long long day = s.range(0, 60) * 365 + s.range(70, 320);
            for (int k = 0; k < 250 && (model::eu_summer(day * 86400) == model::eu_summer((day + 1) * 86400)); ++k) ++day;
            secs = day * 86400 + 3600 + s.pick<long long>({-7201, -7200, -3601, -3600, -1, 0, 1, 3599, 3600, 7200});
            break;
        }
        case 0: secs = s.range(0, 200000000); break;
        case 1: {   // near a month boundary
            long long day = s.range(0, 28000);
            secs = day * 86400 + s.pick<long long>({-1, 0, 1, 3599, 43199, 43200, 86399});
            if (secs < 0) secs = 0;
            break;
        }
        case 2: secs = 1700000000 + s.range(-50000000, 50000000); break;
        default: secs = s.range(0, 9000000000ll); break;
    }
    long long ns;
    switch (s.below(4)) {
        case 0: ns = s.pick<long long>({0, 1, 9, 99, 999, 1000, 999999, 1000000, 9999999, 99999999, 999999999, 100000000}); break;
        case 1: ns = s.range(0, 999) * 1000000; break;
        default: ns = s.range(0, 999999999); break;
    }
    return secs * 1000000000 + ns;
}

inline model::Msg msg(pbt::Src& s, size_t max_text = 400) {
    model::Msg m;
    m.ns = time_ns(s);
    m.level = int(s.below(7));
    m.text = text(s, max_text);
    m.logger = s.chance(1, 4) ? std::string() : text(s, 60);
    m.has_loc = s.flip();
    if (m.has_loc) {
        m.file = s.ascii(s.small_size(0, 70));
        m.line = int(s.chance(1, 5) ? s.range(1, 2147483647) : s.range(1, 200000));
        m.has_func = s.flip();
        if (m.has_func) m.func = s.ascii(s.small_size(0, 70));
    }
    m.tid = s.flip() ? s.below(70000) : s.bits();
    return m;
}

// The flags whose text the padding applies to
static const char PADDED[] = "nlabcymdHMSEFGTptv@ABC";

struct PatternOpts {
    bool elapsed = false;
    bool colour = true;
    bool unknown = true;
    bool full = true;
};

inline std::string pattern(pbt::Src& s, const PatternOpts& o, const std::string& custom = "") {
    if (o.full && s.chance(1, 12)) return "%+";
    std::string p;
    size_t n = s.small_size(0, 14);
    for (size_t i = 0; i < n; ++i) {
        switch (s.weighted({8, 4, 2, 1, 1, custom.empty() ? 0u : 3u, o.elapsed ? 3u : 0u})) {
            case 0: {
            flag:
                p += '%';
                char f = PADDED[s.below(sizeof PADDED - 1)];
                if (s.flip()) {
                    size_t side = s.below(3);
                    if (side) p += side == 1 ? '-' : '=';
                    if (s.chance(11, 12)) {
                        switch (s.below(8)) {
                            case 0: p += std::to_string(s.range(0, 4)); break;
                            case 1: p += std::to_string(s.range(60, 70)); break;
                            case 2: p += "0" + std::to_string(s.range(0, 20)); break;
                            case 3: p += s.pick<const char*>({"200", "4294967299", "18446744073709551626", "18446744073709551617",
                                                              "99999999999999999999999999"}); break;
                            default: p += std::to_string(s.range(1, 40)); break;
                        }
                        if (s.flip()) p += '!';
                    }
                }
                p += f;
                break;
            }
            case 1: {
                std::string t = s.ascii(s.small_size(1, 10), "%");
                p += t;
                break;
            }
            case 2:
                if (!o.colour) { p += "%%"; break; }
                p += s.pick<const char*>({"%^", "%$"});
                break;
            case 3: p += s.pick<const char*>({"%%", "%%%%"}); break;
            case 4:
                if (o.full && s.chance(1, 3)) { p += "%+"; break; }
                if (!o.unknown) { p += "x"; break; }
                p += '%';
                p += s.pick<char>({'x', 'z', 'q', '!', '?', '#', '&', 'D', '_', ']', ' ', 'u'});
                break;
            case 5: {
                p += '%';
                if (s.flip()) {
                    size_t side = s.below(3);
                    if (side) p += side == 1 ? '-' : '=';
                    p += std::to_string(s.range(0, 70));
                    if (s.flip()) p += '!';
                }
                p += custom[s.below(custom.size())];
                break;
            }
            case 6: {
                p += '%';
                if (s.flip()) {
                    size_t side = s.below(3);
                    if (side) p += side == 1 ? '-' : '=';
                    p += std::to_string(s.range(0, 30));
                    if (s.flip()) p += '!';
                }
                p += s.pick<char>({'W', 'X', 'Y', 'Z'});
                break;
            }
        }
    }
    if (s.chance(1, 10)) p += s.pick<const char*>({"%", "%-", "%=", "%12", "%-5", "%=7!", "%3!"});
    return p;
}

inline std::string eol(pbt::Src& s) { return s.pick<const char*>({"\n", "", "\r\n", "<end>", "%v", "\n\n"}); }

struct Zone {
    const char* tz;
    int offset;
    bool eu_dst;        // one hour more in the European summer
};
inline Zone set_zone(pbt::Src& s) {
    static const Zone zones[] = {{"UTC", 0, false}, {"AAA-5:30", 19800, false}, {"BBB+8", -28800, false},
                                 {"CCC-13", 46800, false}, {"DDD+11:45", -42300, false},
                                 {"CET-1CEST,M3.5.0,M10.5.0/3", 3600, true}, {"WET0WEST,M3.5.0/1,M10.5.0", 0, true}};
    Zone z = zones[s.below(7)];
    static const char* current = nullptr;
    if (current != z.tz) {
        setenv("TZ", z.tz, 1);
        tzset();
        current = z.tz;
    }
    return z;
}

}   // namespace gen
