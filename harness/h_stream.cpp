// C25: stream sinks and null sinks.
#include "capture.h"
#include "gen_format.h"
#include "recsink.h"

#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "learnlog.h"
#include "logger.h"
#include "sinks/null_sink.h"
#include "sinks/ostream_sink.h"

#include <iomanip>
#include <ostream>
#include <streambuf>

using namespace learnlog;
using pbt::Src;
using pbt::StderrCapture;

namespace {
// a stream buffer of a chosen size that tells what has reached the device
class Buf : public std::streambuf {
public:
    std::string device;
    size_t syncs = 0;
    bool broken = false;
    explicit Buf(size_t n) : area_(n) { reset(); }
    std::string all() const { return device + std::string(pbase(), pptr()); }

protected:
    int_type overflow(int_type c) override {
        if (broken) return traits_type::eof();
        drain();
        if (!traits_type::eq_int_type(c, traits_type::eof())) {
            if (area_.empty()) device += traits_type::to_char_type(c);
            else sputc(traits_type::to_char_type(c));
        }
        return traits_type::not_eof(c);
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        if (broken) return 0;
        if (n <= epptr() - pptr()) {
            memcpy(pptr(), s, size_t(n));
            pbump(int(n));
        }
        else {
            drain();
            device.append(s, size_t(n));
        }
        return n;
    }
    int sync() override {
        if (broken) return -1;
        drain();
        ++syncs;
        return 0;
    }

private:
    void drain() {
        device.append(pbase(), pptr());
        reset();
    }
    void reset() { setp(area_.data(), area_.data() + area_.size()); }
    std::vector<char> area_;
};

struct Stream {
    std::unique_ptr<Buf> b;
    std::unique_ptr<std::ostream> os;
    std::string want;           // everything written to it
    size_t settled = 0;         // of which this much has been flushed
    size_t syncs = 0;           // seen at the last look
    bool broken = false, throws = false;
    std::ios_base::fmtflags flags{};
};
struct SinkRec {
    sink_shr_ptr s;
    int stream = -1;            // -1: null sink
    bool force = false;
    int level = 0;
    model::Formatter f;
};
struct LogRec {
    logger_shr_ptr l;
    thread_pool_shr_ptr pool;
    std::string name;
    std::vector<size_t> sinks;
    int level = 0, flush = 6;
};
}   // namespace

PROPERTY(streams) {
    StderrCapture cap;
    auto z = gen::set_zone(src);
    size_t n_streams = src.size(1, 3), n_sinks = src.size(1, 5), n_loggers = src.size(1, 3);
    std::vector<Stream> T(n_streams);
    for (auto& t : T) {
        t.b = learnlog::make_unique<Buf>(src.pick<size_t>({0, 1, 16, 64, 300, 4096}));
        t.os = learnlog::make_unique<std::ostream>(t.b.get());
        if (src.chance(1, 4)) {     // written as text by its owner before
            *t.os << "before " << 7;
            t.want = "before 7";
        }
        t.flags = t.os->flags();
    }
    std::vector<SinkRec> S(n_sinks);
    for (auto& s : S) {
        s.stream = src.chance(1, 6) ? -1 : int(src.below(n_streams));
        s.force = src.flip();
        bool mt = src.flip();
        if (s.stream < 0) s.s = mt ? sink_shr_ptr(std::make_shared<sinks::null_sink_mt>()) : std::make_shared<sinks::null_sink_st>();
        else {
            std::ostream& os = *T[size_t(s.stream)].os;
            bool def = !s.force && src.flip();      // the default is not to flush
            if (mt) s.s = def ? std::make_shared<sinks::ostream_sink_mt>(os) : std::make_shared<sinks::ostream_sink_mt>(os, s.force);
            else s.s = def ? sink_shr_ptr(std::make_shared<sinks::ostream_sink_st>(os)) : std::make_shared<sinks::ostream_sink_st>(os, s.force);
        }
        s.f.utc_offset = z.offset;
        s.f.eu_dst = z.eu_dst;
        s.f.pid = (unsigned long long)getpid();
        s.level = src.chance(1, 4) ? int(src.below(7)) : 0;
        s.s->set_level(level::level_enum(s.level));
    }
    auto gen_pattern = [&](SinkRec& s) {
        gen::PatternOpts o;
        if (src.flip()) {
            s.f.pattern = gen::pattern(src, o);
            s.f.eol = "\n";
            s.s->set_pattern(s.f.pattern);
        }
        else {
            s.f.pattern = gen::pattern(src, o);
            s.f.eol = gen::eol(src);
            s.s->set_formatter(learnlog::make_unique<sinks::pattern_formatter>(s.f.pattern, s.f.eol));
        }
        src.note("pattern " + pbt::quote(s.f.pattern));
    };
    std::vector<LogRec> L(n_loggers);
    for (auto& l : L) {
        std::vector<sink_shr_ptr> p;
        for (size_t i = 0; i < n_sinks; ++i)
            if (src.chance(2, 3)) { l.sinks.push_back(i); p.push_back(S[i].s); }
        l.name = gen::text(src, 40);
        if (src.chance(1, 4)) {
            l.pool = std::make_shared<base::lock_thread_pool>(src.size(1, 20), 1);
            l.l = std::make_shared<async_logger>(l.name, p.begin(), p.end(), l.pool);
        }
        else l.l = std::make_shared<logger>(l.name, p.begin(), p.end());
        l.level = src.chance(1, 4) ? int(src.below(6)) : 0;
        l.flush = src.chance(1, 3) ? int(src.below(7)) : 6;
        l.l->set_log_level(level::level_enum(l.level));
        l.l->set_flush_level(level::level_enum(l.flush));
    }
    bool any_async = false;
    for (auto& l : L) any_async |= l.pool != nullptr;
    size_t n = src.small_size(1, 50), written = 0, forced = 0, breaks = 0;
    std::vector<size_t> must_sync(n_streams);       // flushes due at least since the last look
    std::vector<bool> may_sync(n_streams);
    auto look = [&](const char* when) {
        for (size_t i = 0; i < n_streams; ++i) {
            Stream& t = T[i];
            pbt::require_eq_str(t.b->all(), t.want, pbt::strf("stream %zu %s", i, when).c_str());
            REQUIRE(t.b->device.size() >= t.settled, "stream %zu %s: %zu of %zu bytes have reached the device, %zu were flushed", i, when, t.b->device.size(),
                    t.want.size(), t.settled);
            if (!may_sync[i]) REQUIRE(t.b->syncs == t.syncs, "stream %zu %s: flushed without a reason", i, when);
            REQUIRE(t.b->syncs >= t.syncs + must_sync[i], "stream %zu %s: flushed %zu times, %zu are due", i, when, t.b->syncs - t.syncs, must_sync[i]);
            REQUIRE(t.os->flags() == t.flags, "the format flags of stream %zu changed", i);
            t.syncs = t.b->syncs;
            must_sync[i] = 0;
            may_sync[i] = false;
        }
        auto r = cap.take();
        REQUIRE(r.empty(), "%s: reported without a reason: %s", when, r[0].text.c_str());
    };
    auto sync_stream = [&](size_t i) {
        if (T[i].broken) { may_sync[i] = true; return; }
        T[i].settled = T[i].want.size();
        ++must_sync[i];
        may_sync[i] = true;
    };
    for (size_t step = 0; step < n; ++step) {
        size_t op = src.weighted({12, 4, 2, 2, 1, 1, 2});
        if (op == 0) {
            LogRec& l = L[src.below(n_loggers)];
            size_t k = l.pool ? src.size(1, 6) : 1, reports = 0;
            for (size_t j = 0; j < k; ++j) {
                model::Msg m = gen::msg(src, 600);
                m.logger = l.name;
                m.tid = rec::this_tid();
                if (m.has_loc && !m.has_func) m.func.clear();
                source_loc loc = m.has_loc ? source_loc{m.file.c_str(), m.line, m.has_func ? m.func.c_str() : nullptr} : source_loc{};
                // the texts of a location are not copied, so they must outlive an asynchronous message
                static std::set<std::string> pool;
                if (m.has_loc) {
                    if (pool.size() > 20000) pool.clear();
                    const char* a = pool.insert(m.file).first->c_str();
                    loc = source_loc{a, m.line, m.has_func ? pool.insert(m.func).first->c_str() : nullptr};
                    m.file = a;
                }
                l.l->log(lib::tp(m.ns), loc, level::level_enum(m.level), fmt_string_view(m.text.data(), m.text.size()));
                if (m.level < l.level) continue;
                for (size_t s : l.sinks) {
                    if (S[s].stream < 0 || m.level < S[s].level) continue;
                    Stream& t = T[size_t(S[s].stream)];
                    auto r = S[s].f.render(m);
                    if (t.broken) {
                        reports += t.throws;
                        if (S[s].force) sync_stream(size_t(S[s].stream));
                        continue;
                    }
                    t.want += r.out;
                    ++written;
                    if (S[s].force) { sync_stream(size_t(S[s].stream)); ++forced; }
                }
                if (m.level >= l.flush && m.level < 6)
                    for (size_t s : l.sinks)
                        if (S[s].stream >= 0) sync_stream(size_t(S[s].stream));
            }
            if (l.pool) {
                for (size_t s : l.sinks)
                    if (S[s].stream >= 0) sync_stream(size_t(S[s].stream));
                l.l->flush();
            }
            bool failing = false;
            for (size_t s : l.sinks) failing |= S[s].stream >= 0 && T[size_t(S[s].stream)].broken;
            if (failing) {
                auto r = cap.take();        // a flush of a stream that throws is reported besides
                REQUIRE(r.size() >= reports, "%zu reports, %zu writes failed with an exception", r.size(), reports);
            }
            look("after logging");
        }
        else if (op == 1) {
            LogRec& l = L[src.below(n_loggers)];
            bool failing = false;
            for (size_t s : l.sinks)
                if (S[s].stream >= 0) { sync_stream(size_t(S[s].stream)); failing |= T[size_t(S[s].stream)].broken; }
            l.l->flush();
            if (failing) cap.take();
            look("after a flush");
        }
        else if (op == 2) gen_pattern(S[src.below(n_sinks)]);
        else if (op == 3) {
            SinkRec& s = S[src.below(n_sinks)];
            s.level = int(src.below(7));
            s.s->set_level(level::level_enum(s.level));
        }
        else if (op == 4) {     // its owner writes too and changes the format of numbers and text
            size_t i = src.below(n_streams);
            Stream& t = T[i];
            if (t.broken) continue;
            if (src.flip()) {
                t.os->width(0);
                *t.os << std::noshowbase << std::hex << 255 << "|";
                t.want += "ff|";
            }
            t.os->width(src.pick({0, 3, 500}));
            t.os->fill('*');
            *t.os << std::left << std::showbase;
            t.flags = t.os->flags();
        }
        else if (op == 5) {     // the stream fails for a while
            size_t i = src.below(n_streams);
            Stream& t = T[i];
            if (t.broken) continue;
            t.os->flush();
            t.syncs = t.b->syncs;
            t.settled = t.want.size();
            t.broken = t.b->broken = true;
            t.throws = src.flip();
            t.os->setstate(std::ios_base::badbit);
            if (t.throws) {
                try { t.os->exceptions(std::ios_base::badbit); }
                catch (const std::ios_base::failure&) {}
            }
            ++breaks;
            src.note(pbt::strf("stream %zu fails%s", i, t.throws ? " with exceptions" : ""));
        }
        else {
            size_t i = src.below(n_streams);
            Stream& t = T[i];
            if (!t.broken) continue;
            t.os->exceptions(std::ios_base::goodbit);
            t.os->clear();
            t.broken = t.b->broken = false;
            src.note(pbt::strf("stream %zu works again", i));
        }
    }
    for (auto& l : L) { l.l.reset(); l.pool.reset(); }
    for (auto& s : S) s.s.reset();
    for (size_t i = 0; i < n_streams; ++i) may_sync[i] = true;      // destroying a sink may flush
    look("at the end");
    if (written >= 2) src.nontrivial();
    if (forced) src.label("flushed after each message");
    if (breaks) src.label("a stream failed");
    if (any_async) src.label("async");
}

PBT_MAIN()
