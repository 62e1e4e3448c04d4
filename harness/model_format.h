// An independent model of what a pattern renders: no code of the library is used.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace model {

struct Civil {
    long long year;
    unsigned mon, day, hour, min, sec, wday;    // mon 1..12, wday 0 = Sunday
};

// days since 1970-01-01 -> date, by counting (no libc)
inline Civil civil(long long secs, int utc_offset) {
    long long t = secs + utc_offset;
    long long days = t / 86400, rem = t % 86400;
    if (rem < 0) { rem += 86400; --days; }
    Civil c{};
    c.hour = unsigned(rem / 3600);
    c.min = unsigned(rem % 3600 / 60);
    c.sec = unsigned(rem % 60);
    c.wday = unsigned(((days % 7) + 7 + 4) % 7);        // 1970-01-01 was a Thursday
    auto leap = [](long long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
    long long y = 1970;
    while (days >= 146097) { days -= 146097; y += 400; }        // Gregorian cycle
    while (days < 0) { --y; days += leap(y) ? 366 : 365; }
    while (days >= (leap(y) ? 366 : 365)) { days -= leap(y) ? 366 : 365; ++y; }
    static const int len[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    unsigned m = 0;
    for (;; ++m) {
        int l = len[m] + (m == 1 && leap(y) ? 1 : 0);
        if (days < l) break;
        days -= l;
    }
    c.year = y;
    c.mon = m + 1;
    c.day = unsigned(days) + 1;
    return c;
}

// Whether Central European summer time is in force: from 01:00 UTC of the last Sunday of March
// to 01:00 UTC of the last Sunday of October.
inline bool eu_summer(long long secs) {
    Civil c = civil(secs, 0);
    if (c.mon < 3 || c.mon > 10) return false;
    if (c.mon > 3 && c.mon < 10) return true;
    unsigned last_sunday = c.day;       // both months have 31 days
    unsigned wd = c.wday;
    for (unsigned d = c.day + 1; d <= 31; ++d)
        if ((wd = (wd + 1) % 7) == 0) last_sunday = d;
    bool after;
    if (last_sunday != c.day) after = false;        // a Sunday is still to come in this month
    else if (c.wday == 0) after = c.hour >= 1;
    else after = true;
    return c.mon == 3 ? after : !after;
}

inline std::string zpad(unsigned long long n, size_t w) {
    std::string s = std::to_string(n);
    return s.size() >= w ? s : std::string(w - s.size(), '0') + s;
}

struct Msg {
    long long ns = 0;           // since the epoch, >= 0
    int level = 0;
    std::string text, logger;
    bool has_loc = false;
    bool has_func = false;
    std::string file, func;
    int line = 0;
    unsigned long long tid = 0;
};

struct Rendered {
    std::string out;
    size_t color_start = 0, color_end = 0;
};

inline const char* level_name(int l) {
    static const char* n[] = {"trace", "debug", "info", "warn", "error", "critical", "off"};
    return n[l];
}

// A custom flag renders body(msg), padded as the pattern says.
using CustomFlags = std::map<char, std::string>;    // flag -> prefix put before the message text

struct Formatter {
    std::string pattern = "%+";
    std::string eol = "\n";
    CustomFlags custom;
    int utc_offset = 0;
    bool eu_dst = false;
    unsigned long long pid = 0;
    // elapsed flags, in pattern order: time of the message they saw last
    std::vector<long long> last;        // ns; empty means "created at created_ns"
    long long created_ns = 0;

    static std::string pad(std::string s, bool on, char side, size_t w, bool trunc) {
        if (!on) return s;
        if (w > 64) w = 64;
        if (s.size() < w) {
            size_t n = w - s.size();
            if (side == '-') s += std::string(n, ' ');
            else if (side == '=') s = std::string(n / 2, ' ') + s + std::string(n - n / 2, ' ');
            else s = std::string(n, ' ') + s;
        }
        else if (trunc) s.resize(w);
        return s;
    }

    Rendered render(const Msg& m, size_t base = 0) {
        Rendered r;
        Civil c = civil(m.ns / 1000000000, utc_offset + (eu_dst && eu_summer(m.ns / 1000000000) ? 3600 : 0));
        unsigned long long sub = static_cast<unsigned long long>(m.ns % 1000000000);
        static const char* wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
        static const char* mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec"};
        std::string T = zpad(c.hour, 2) + ":" + zpad(c.min, 2) + ":" + zpad(c.sec, 2);
        const std::string& p = pattern;
        size_t n_elapsed = 0;
        for (size_t i = 0; i < p.size(); ++i) {
            if (p[i] != '%') { r.out += p[i]; continue; }
            ++i;
            char side = 0;
            if (i < p.size() && (p[i] == '-' || p[i] == '=')) side = p[i++];
            bool on = false, trunc = false;
            size_t w = 0;
            while (i < p.size() && p[i] >= '0' && p[i] <= '9') {
                on = true;
                w = w * 10 + size_t(p[i] - '0');
                if (w > 1000) w = 1000;
                ++i;
            }
            if (on && i < p.size() && p[i] == '!') { trunc = true; ++i; }
            if (i >= p.size()) break;       // an incomplete specification renders nothing
            char f = p[i];
            std::string s;
            bool padded = true;
            auto cu = custom.find(f);
            if (cu != custom.end()) s = cu->second + m.text;
            else switch (f) {
                case 'n': s = m.logger; break;
                case 'l': s = level_name(m.level); break;
                case 'a': s = wd[c.wday]; break;
                case 'b': s = mo[c.mon - 1]; break;
                case 'c':
                    s = std::string(wd[c.wday]) + " " + mo[c.mon - 1] + " " + zpad(c.day, 2) + " " + T + " " +
                        zpad(static_cast<unsigned long long>(c.year), 4);
                    break;
                case 'y': s = zpad(static_cast<unsigned long long>(c.year), 4); break;
                case 'm': s = zpad(c.mon, 2); break;
                case 'd': s = zpad(c.day, 2); break;
                case 'H': s = zpad(c.hour, 2); break;
                case 'M': s = zpad(c.min, 2); break;
                case 'S': s = zpad(c.sec, 2); break;
                case 'E': s = zpad(sub / 1000000, 3); break;
                case 'F': s = zpad(sub / 1000, 6); break;
                case 'G': s = zpad(sub, 9); break;
                case 'T': s = T; break;
                case 'p': s = std::to_string(pid); break;
                case 't': s = std::to_string(m.tid); break;
                case 'v': s = m.text; break;
                case '@': if (m.has_loc) s = m.file + ":" + std::to_string(m.line); break;
                case 'A': if (m.has_loc) s = m.file; break;
                case 'B': if (m.has_loc) s = std::to_string(m.line); break;
                case 'C': if (m.has_loc && m.has_func) s = m.func; break;
                case 'W': case 'X': case 'Y': case 'Z': {
                    long long prev = n_elapsed < last.size() ? last[n_elapsed] : created_ns;
                    long long d = m.ns - prev;
                    if (d < 0) d = 0;
                    long long unit = f == 'W' ? 1 : f == 'X' ? 1000 : f == 'Y' ? 1000000 : 1000000000;
                    s = std::to_string(d / unit);
                    if (n_elapsed < last.size()) last[n_elapsed] = m.ns;
                    else last.push_back(m.ns);
                    ++n_elapsed;
                    break;
                }
                case '%': s = "%"; padded = false; break;
                case '^': r.color_start = base + r.out.size(); padded = false; break;
                case '$': r.color_end = base + r.out.size(); padded = false; break;
                case '+': {
                    padded = false;
                    s = "[" + zpad(static_cast<unsigned long long>(c.year), 4) + "-" + zpad(c.mon, 2) + "-" +
                        zpad(c.day, 2) + " " + T + "." + zpad(sub / 1000000, 3) + "] ";
                    if (!m.logger.empty()) s += "[" + m.logger + "] ";
                    s += "[";
                    r.color_start = base + r.out.size() + s.size();
                    s += level_name(m.level);
                    r.color_end = base + r.out.size() + s.size();
                    s += "] ";
                    if (m.has_loc) s += "[" + m.file + ":" + zpad(static_cast<unsigned long long>(m.line), 5) + "] ";
                    s += m.text;
                    break;
                }
                default: s = std::string("%") + f; padded = false; break;
            }
            r.out += padded ? pad(s, on, side, w, trunc) : s;
        }
        r.out += eol;
        return r;
    }
};

}   // namespace model
