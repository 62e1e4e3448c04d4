// C01: delivery; C02: order; C03: flushing; C04: life of thread pools.
#define PERTURB_WRAP
#include "capture.h"
#include "perturb.h"
#include "pools.h"
#include "recsink.h"

#include "learnlog.h"
#include "logger.h"

using namespace learnlog;
using lib::pool_name;
using pbt::Src;
using pbt::StderrCapture;

namespace {
constexpr int STRIDE = 100000;      // message i of producer p has source line p * STRIDE + i + 1

struct Ev {
    int id = 0;     // 0: a flush
    rec::Event e;
};
// records, counts per producer what it has written and what of that was flushed
class CountSink : public sinks::basic_sink<std::mutex> {
public:
    std::vector<Ev> ev;
    std::vector<size_t> seen, flushed;
    unsigned slow_us = 0, slow_every = 1;
    size_t n = 0, flushes = 0;
    explicit CountSink(size_t producers) : seen(producers), flushed(producers) {}
    size_t flushed_of(size_t p) {
        std::lock_guard<std::mutex> l(mutex_);
        return flushed[p];
    }

protected:
    void output_(const base::log_msg& m) override {
        if (slow_us && ++n % slow_every == 0) perturb::raw_sleep_us(slow_us);
        Ev x;
        x.id = m.loc.line;
        x.e.logger = lib::str(m.logger_name);
        x.e.text = lib::str(m.msg);
        x.e.level = int(m.level);
        x.e.ns = lib::ns_of(m.time);
        x.e.tid = m.tid;
        x.e.file = m.loc.filename;
        x.e.func = m.loc.funcname;
        size_t p = size_t(x.id) / STRIDE;
        if (x.id > 0 && p < seen.size()) ++seen[p];
        ev.push_back(std::move(x));
    }
    void flush_() override {
        ++flushes;
        flushed = seen;
        ev.push_back(Ev{});
    }
};

struct Msg {
    size_t logger = 0;
    int level = 0;
    std::string text;
    long long ns = -1, lo = 0, hi = 0;
    size_t tid = 0;
    bool custom_time = false;
    int form = 0;
};
struct Op {
    int what = 0;       // 0 log, 1 flush, 2 pause
    size_t logger = 0;
    unsigned us = 0;
    Msg m;
};
const char* const FILES[] = {"dir/file.cpp", "x", "a_rather_long_file_name_0123456789012345678901234567890123456789.cpp"};
const char* const FUNCS[] = {"f", "operator()", "some::deep::function_name"};

enum Focus { DELIVERY, ORDER, FLUSH };

size_t gen_len(Src& src) {
    switch (src.weighted({6, 6, 4, 3, 1})) {
        case 0: return src.below(12);
        case 1: return src.below(100);
        case 2: return 200 + src.below(120);    // around the inline size
        case 3: return src.below(1200);
        default: return src.below(70000);
    }
}

struct World {
    size_t kind = 1, q = 1, workers = 1, np = 1, nl = 1, ns = 1;
    thread_pool_shr_ptr pool;
    std::vector<std::shared_ptr<CountSink>> S;
    std::vector<int> slevel;
    std::vector<logger_shr_ptr> L;
    std::vector<std::vector<size_t>> lsinks;
    std::vector<int> llevel, lflush;
    std::vector<std::vector<Op>> script;
    bool ordered() const { return kind == 0 || kind == 3 || workers == 1; }

    bool admitted(const Msg& m, size_t s) const {
        if (m.level < llevel[m.logger] || m.level < slevel[s]) return false;
        return std::find(lsinks[m.logger].begin(), lsinks[m.logger].end(), s) != lsinks[m.logger].end();
    }
};

void run_world(Src& src, Focus focus) {
    World w;
    w.kind = focus == FLUSH ? src.weighted({1, 3, 3, 3}) : 1 + src.below(3);
#ifdef PBT_TSAN
    w.kind = focus == FLUSH ? w.kind % 2 : 1;
#endif
    w.q = src.pick<size_t>({1, 2, 3, 7, 31, 32, 33, 64, 128, 1000});
    w.workers = focus == ORDER && (w.kind == 1 || w.kind == 2) ? 1 : src.size(1, 4);
    w.np = src.size(1, 6);
    w.nl = src.size(1, 3);
    w.ns = focus == FLUSH && src.chance(1, 25) ? src.pick<size_t>({9, 17, 33, 65}) : src.size(1, 3);
    unsigned slow = src.pick({0u, 0u, 20u, 100u, 1000u});
    for (size_t s = 0; s < w.ns; ++s) {
        w.S.push_back(std::make_shared<CountSink>(w.np));
        w.S[s]->slow_us = slow;
        w.S[s]->slow_every = src.pick({1u, 3u, 20u});
        w.slevel.push_back(src.chance(1, 4) ? int(src.below(7)) : 0);
        w.S[s]->set_level(level::level_enum(w.slevel[s]));
    }
    if (w.kind) w.pool = lib::make_pool(w.kind, w.q, w.workers);
    for (size_t l = 0; l < w.nl; ++l) {
        std::vector<size_t> k;
        std::vector<sink_shr_ptr> ptr;
        for (size_t s = 0; s < w.ns; ++s)
            if (l == 0 || src.flip()) { k.push_back(s); ptr.push_back(w.S[s]); }
        w.lsinks.push_back(k);
        std::string name = l == 0 ? "L" : src.ascii(src.pick<size_t>({1, 20, 260}));
        if (w.kind) w.L.push_back(std::make_shared<async_logger>(name, ptr.begin(), ptr.end(), w.pool));
        else w.L.push_back(std::make_shared<logger>(name, ptr.begin(), ptr.end()));
        w.llevel.push_back(src.chance(1, 4) ? int(src.below(6)) : 0);
        w.lflush.push_back(focus == FLUSH ? int(src.below(7)) : src.chance(1, 8) ? int(src.below(7)) : 6);
        w.L[l]->set_log_level(level::level_enum(w.llevel[l]));
        w.L[l]->set_flush_level(level::level_enum(w.lflush[l]));
    }
    size_t total = 0, flushes = 0, long_texts = 0;
    size_t cap = slow >= 1000 ? 10 : slow ? 60 : 160;
    for (size_t p = 0; p < w.np; ++p) {
        std::vector<Op> ops;
        size_t n = src.small_size(0, cap);
        if (!slow && focus == DELIVERY && src.chance(1, 60)) n = 2000;
        bool simple = n > 160;
        unsigned fl = focus == FLUSH ? src.pick({3u, 10u, 40u}) : src.pick({60u, 12u});
        for (size_t i = 0; i < n; ++i) {
            Op o;
            o.logger = src.below(w.nl);
            if (simple) {
                o.m.level = 2;
                o.m.text = std::string(1 + i % 300, char('a' + i % 26));
            }
            else {
                if (src.chance(1, fl)) { o.what = 1; ++flushes; ops.push_back(o); continue; }
                if (src.chance(1, 25)) { o.what = 2; o.us = unsigned(src.below(400)); ops.push_back(o); continue; }
                o.m.level = int(src.below(6));
                size_t len = gen_len(src);
                // a marked text, or one that repeats a byte
                o.m.text = len < 200 && src.flip() ? src.bytes(len) : std::string(len, char('a' + src.below(26)));
                if (len > 8) { o.m.text[len / 2] = '!'; o.m.text[len - 1] = '$'; }
                if (len > 200) ++long_texts;
                o.m.form = int(src.below(3));
                o.m.custom_time = o.m.form == 2;
                if (o.m.custom_time) o.m.ns = (long long)src.below(4000000000000000000ull);
            }
            o.m.logger = o.logger;
            ++total;
            ops.push_back(std::move(o));
        }
        w.script.push_back(std::move(ops));
    }
    uint64_t seed = src.below(1u << 20);
    unsigned pm = src.pick({0u, 10u, 60u, 250u}), us = src.pick({100u, 500u});
    size_t storm = src.below(4), conf = src.pick<size_t>({0, 0, 1, 2});
    size_t release = src.below(4);
    src.note(pbt::strf("%s pool, queue %zu, %zu workers; %zu producers, %zu loggers, %zu sinks; %zu messages, %zu flushes; slow sinks %u us; "
                       "perturbation %u/1000, storm %d, %zu cpus; release %zu", pool_name(w.kind), w.q, w.workers, w.np, w.nl, w.ns, total, flushes,
                       slow, pm, storm == 3, conf, release));

    StderrCapture cap_err;
    std::vector<std::string> errs(w.np);
    {
        perturb::confine(unsigned(conf));
        perturb::Scope scope(seed, pm, us);
        perturb::Storm st(seed, storm == 3, seed & 1);
        std::atomic<size_t> ready{0};
        std::vector<std::thread> th;
        std::vector<std::vector<logger_shr_ptr>> own(w.np, w.L);
        bool drop_loggers = release & 1;
        if (drop_loggers) w.L.clear();      // the producers, then the queue, hold the last references
        for (size_t p = 0; p < w.np; ++p)
            th.emplace_back([&, p] {
                auto loggers = std::move(own[p]);
                size_t tid = rec::this_tid();
                std::vector<size_t> sent(w.ns);     // admitted by each sink so far
                ++ready;
                while (ready < w.np) sched_yield();
                int i = 0;
                for (auto& o : w.script[p]) {
                    if (o.what == 2) { perturb::raw_sleep_us(o.us); continue; }
                    logger& lg = *loggers[o.logger];
                    if (o.what == 1) {
                        lg.flush();
                        pbt::beat();
                        if (w.ordered())
                            for (size_t s : w.lsinks[o.logger]) {
                                size_t f = w.S[s]->flushed_of(p);
                                if (f < sent[s] && errs[p].empty())
                                    errs[p] = pbt::strf("flush() returned: %zu of the %zu messages logged before it were written and flushed", f, sent[s]);
                            }
                        continue;
                    }
                    Msg& m = o.m;
                    int id = int(p) * STRIDE + ++i;
                    m.tid = tid;
                    source_loc loc{FILES[id % 3], id, FUNCS[id % 3]};
                    auto lv = level::level_enum(m.level);
                    std::string copy = m.text;
                    m.lo = lib::now_ns();
                    if (m.form == 0) lg.log(loc, lv, fmt_string_view(copy.data(), copy.size()));
                    else if (m.form == 1) lg.log(loc, lv, "{}", copy);
                    else lg.log(lib::tp(m.ns), loc, lv, fmt_string_view(copy.data(), copy.size()));
                    m.hi = lib::now_ns();
                    std::fill(copy.begin(), copy.end(), '\xee');    // the caller's text is its own again
                    for (size_t s = 0; s < w.ns; ++s) sent[s] += w.admitted(m, s);
                    if (i % 32 == 0) pbt::beat();
                }
            });
        for (auto& t : th) t.join();
        pbt::beat();
        // what was accepted is delivered although the logger would not accept it any more
        if (w.kind && focus != FLUSH && (seed & 3) == 0)
            for (auto& l : w.L) l->set_log_level(level::off);
        if (release == 2) std::thread([&] { w.pool.reset(); }).join();
        else w.pool.reset();
    }
    perturb::confine(0);
    for (auto& e : errs)
        if (!e.empty()) pbt::fail("%s", e.c_str());
    auto reports = cap_err.take();
    if (!reports.empty()) pbt::fail("%zu reports on stderr, the first: %s", reports.size(), reports[0].text.c_str());

    std::vector<std::string> names;
    names.resize(w.nl);
    for (size_t s = 0; s < w.ns; ++s) {
        auto& ev = w.S[s]->ev;
        std::vector<std::vector<size_t>> got(w.np);
        for (size_t p = 0; p < w.np; ++p) got[p].resize(w.script[p].size() + 1);
        std::vector<std::vector<const Msg*>> by(w.np);
        for (size_t p = 0; p < w.np; ++p)
            for (auto& o : w.script[p])
                if (o.what == 0) by[p].push_back(&o.m);
        for (auto& x : ev) {
            if (!x.id) continue;
            size_t p = size_t(x.id) / STRIDE, i = size_t(x.id) % STRIDE;
            REQUIRE(x.id > 0 && p < w.np && i >= 1 && i <= by[p].size(), "sink %zu: an invented message %s", s, rec::show(x.e).c_str());
            const Msg& m = *by[p][i - 1];
            REQUIRE(w.admitted(m, s), "sink %zu: message %zu of producer %zu (level %d) should not be here", s, i, p, m.level);
            ++got[p][i];
            if (focus == DELIVERY) {
                REQUIRE(got[p][i] == 1, "sink %zu: message %zu of producer %zu written twice", s, i, p);
                pbt::require_eq_str(x.e.text, m.text, pbt::strf("sink %zu: text of message %zu of producer %zu", s, i, p).c_str());
                if (m.logger == 0) REQUIRE(x.e.logger == "L", "sink %zu: logger name %s", s, pbt::quote(x.e.logger).c_str());
                else {
                    if (names[m.logger].empty()) names[m.logger] = x.e.logger;
                    REQUIRE(names[m.logger] == x.e.logger && x.e.logger.size() != 0, "sink %zu: logger name %s", s, pbt::quote(x.e.logger).c_str());
                    if (!w.L.empty()) REQUIRE(x.e.logger == w.L[m.logger]->name(), "sink %zu: logger name %s", s, pbt::quote(x.e.logger).c_str());
                }
                REQUIRE(x.e.level == m.level, "sink %zu: level %d, want %d", s, x.e.level, m.level);
                REQUIRE(x.e.tid == m.tid, "sink %zu: thread id %zu, want %zu", s, x.e.tid, m.tid);
                if (m.custom_time) REQUIRE(x.e.ns == m.ns, "sink %zu: time %lld, want %lld", s, x.e.ns, m.ns);
                else REQUIRE(x.e.ns >= m.lo && x.e.ns <= m.hi, "sink %zu: time %lld, logged between %lld and %lld", s, x.e.ns, m.lo, m.hi);
                REQUIRE(rec::same_cstr(x.e.file, FILES[x.id % 3]) && rec::same_cstr(x.e.func, FUNCS[x.id % 3]), "sink %zu: another source location", s);
            }
        }
        size_t want_flush = 0;
        for (size_t p = 0; p < w.np; ++p) {
            size_t i = 0;
            for (auto& o : w.script[p]) {
                bool has = std::find(w.lsinks[o.logger].begin(), w.lsinks[o.logger].end(), s) != w.lsinks[o.logger].end();
                if (o.what == 1) want_flush += has;
                if (o.what != 0) continue;
                ++i;
                if (has && o.m.level >= w.llevel[o.logger] && o.m.level >= w.lflush[o.logger]) ++want_flush;
                if (focus == DELIVERY && w.admitted(o.m, s))
                    REQUIRE(got[p][i] == 1, "sink %zu: message %zu of %zu of producer %zu was lost", s, i, by[p].size(), p);
            }
        }
        if (focus == ORDER) {
            std::vector<size_t> last(w.np);
            for (auto& x : ev) {
                if (!x.id) continue;
                size_t p = size_t(x.id) / STRIDE, i = size_t(x.id) % STRIDE;
                REQUIRE(i > last[p], "sink %zu: message %zu of producer %zu after its message %zu", s, i, p, last[p]);
                last[p] = i;
            }
        }
        if (focus == FLUSH) {
            REQUIRE(w.S[s]->flushes == want_flush, "sink %zu: %zu flushes, want %zu", s, w.S[s]->flushes, want_flush);
            if (w.ordered()) {
                std::vector<int> owed(w.np);    // the id of a message of p that is not followed by a flush yet
                for (auto& x : ev) {
                    if (!x.id) { owed.assign(w.np, 0); continue; }
                    size_t p = size_t(x.id) / STRIDE, i = size_t(x.id) % STRIDE;
                    REQUIRE(!owed[p], "sink %zu: no flush between message %d of producer %zu and its next one", s, owed[p] % STRIDE, p);
                    const Msg& m = *by[p][i - 1];
                    if (m.level >= w.lflush[m.logger]) owed[p] = x.id;
                }
                for (size_t p = 0; p < w.np; ++p) REQUIRE(!owed[p], "sink %zu: no flush after message %d of producer %zu", s, owed[p] % STRIDE, p);
            }
        }
    }
    bool full = w.kind && total > w.q;
    if (focus == FLUSH ? flushes >= 2 : w.np > 1 && full) src.nontrivial();
    src.label(pool_name(w.kind));
    if (full) src.label("more messages than the queue holds");
    if (long_texts) src.label("long texts");
    if (storm == 3) src.label("signal storm");
    if (w.workers > 1) src.label("several workers");
}
}   // namespace

PROPERTY(deliver, 60) { run_world(src, DELIVERY); }
PROPERTY(order, 60) { run_world(src, ORDER); }
PROPERTY(flush, 60) { run_world(src, FLUSH); }

// What is accepted keeps what it was logged with, whatever happens to its logger before a worker gets to it.
PROPERTY(held, 60) {
    size_t kind = 1 + src.below(3), workers = src.size(1, 3), nl = src.size(2, 4), n = src.small_size(2, 60);
    std::atomic<bool> open{false};
    auto gate = [&] { while (!open) perturb::raw_sleep_us(50); };
    thread_pool_shr_ptr pool;
    size_t q = n + 1 + src.below(200);
    if (kind == 1) pool = std::make_shared<base::lock_thread_pool>(q, workers, gate);
    else if (kind == 2) pool = std::make_shared<base::lockfree_thread_pool>(q, workers, gate);
    else pool = std::make_shared<base::lockfree_concurrent_thread_pool>(q, workers, gate);
    std::vector<std::shared_ptr<CountSink>> S;
    std::vector<sink_shr_ptr> sp;
    size_t ns = src.size(1, 2);
    for (size_t s = 0; s < ns; ++s) { S.push_back(std::make_shared<CountSink>(1)); sp.push_back(S[s]); }
    std::vector<std::shared_ptr<async_logger>> L;
    auto fresh_name = [&] { return src.ascii(src.pick<size_t>({0, 1, 7, 100, 249, 250, 251, 400})); };
    for (size_t l = 0; l < nl; ++l) L.push_back(std::make_shared<async_logger>(fresh_name(), sp.begin(), sp.end(), pool));
    std::map<int, rec::Event> want;
    size_t changes = 0, sent = 0;
    for (size_t i = 0; i < n; ++i) {
        size_t a = src.below(L.size());
        switch (src.weighted({6, 2, 1, 1})) {
            case 0: {
                rec::Event e;
                e.logger = L[a]->name();
                e.text = src.ascii(gen_len(src) % 1500);
                e.level = 2 + int(src.below(4));
                e.tid = rec::this_tid();
                int id = int(++sent);
                e.ns = (long long)src.below(4000000000000000000ull);
                std::string copy = e.text, file = "file.cpp";
                L[a]->log(lib::tp(e.ns), source_loc{"file.cpp", id, "f"}, level::level_enum(e.level), fmt_string_view(copy));
                std::fill(copy.begin(), copy.end(), '#');
                want[id] = e;
                break;
            }
            case 1: {
                size_t b = src.below(L.size());
                src.note(pbt::strf("swap %zu and %zu", a, b));
                if (src.flip()) L[a]->swap(*L[b]);
                else learnlog::swap(*L[a], *L[b]);
                ++changes;
                break;
            }
            case 2:
                src.note(pbt::strf("drop logger %zu", a));
                L[a] = std::make_shared<async_logger>(fresh_name(), sp.begin(), sp.end(), pool);
                ++changes;
                break;
            default:
                src.note(pbt::strf("clone logger %zu", a));
                L[a] = std::static_pointer_cast<async_logger>(L[a]->clone(fresh_name()));
                ++changes;
        }
    }
    if (src.chance(1, 3)) {     // what was accepted is delivered although the loggers would not accept it any more
        src.note("log level off");
        for (auto& l : L) l->set_log_level(level::off);
        ++changes;
    }
    if (src.flip()) L.clear();
    open = true;
    pool.reset();
    for (size_t s = 0; s < ns; ++s) {
        REQUIRE(S[s]->ev.size() == want.size(), "sink %zu: %zu messages, want %zu", s, S[s]->ev.size(), want.size());
        std::set<int> seen;
        for (auto& x : S[s]->ev) {
            REQUIRE(want.count(x.id) && seen.insert(x.id).second, "sink %zu: message %d is invented or written twice", s, x.id);
            const rec::Event& e = want[x.id];
            pbt::require_eq_str(x.e.logger, e.logger, "logger name");
            pbt::require_eq_str(x.e.text, e.text, "text");
            REQUIRE(x.e.level == e.level && x.e.tid == e.tid && x.e.ns == e.ns && rec::same_cstr(x.e.file, "file.cpp") && rec::same_cstr(x.e.func, "f"),
                    "message %d: another level, thread, time or location", x.id);
        }
    }
    if (changes && sent > 1) src.nontrivial();
}

// ------------------------------------------------------------------ C04

namespace {
// what a worker knows about itself: its pool and whether its callbacks ran
thread_local size_t tl_pool = 0;
thread_local int tl_state = 0;

struct PoolRec {
    thread_pool_shr_ptr pool;
    size_t kind = 1, q = 1, workers = 1, id = 0;
    bool start_cb = false, stop_cb = false;
    std::atomic<size_t> starts{0}, stops{0}, wrong{0};
    bool alive = true;
};

class PoolSink : public sinks::basic_sink<std::mutex> {
public:
    size_t pool = 0;
    bool start_cb = false;
    std::atomic<size_t> wrong_worker{0};
    std::vector<std::string> texts;
    size_t flushes = 0;
    size_t count() { std::lock_guard<std::mutex> l(mutex_); return texts.size(); }

protected:
    void check() {
        if (start_cb && (tl_pool != pool || tl_state != 1)) ++wrong_worker;
    }
    void output_(const base::log_msg& m) override { check(); texts.push_back(lib::str(m.msg)); }
    void flush_() override { check(); ++flushes; }
};

// a thread that does what it is told
class Hand {
public:
    Hand() : t_([this] { loop(); }) {}
    ~Hand() {
        post({});
        t_.join();
    }
    void post(std::function<void()> f) {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [&] { return !busy_; });
        f_ = std::move(f);
        busy_ = true;
        cv_.notify_all();
    }
    void wait() {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [&] { return !busy_; });
    }

private:
    void loop() {
        for (;;) {
            std::function<void()> f;
            {
                std::unique_lock<std::mutex> l(m_);
                cv_.wait(l, [&] { return busy_; });
                f = std::move(f_);
            }
            if (f) f();
            {
                std::unique_lock<std::mutex> l(m_);
                busy_ = false;
                cv_.notify_all();
            }
            if (!f) return;
        }
    }
    std::mutex m_;
    std::condition_variable cv_;
    bool busy_ = false;
    std::function<void()> f_;
    std::thread t_;
};

struct LRec {
    logger_shr_ptr l;
    std::shared_ptr<PoolSink> s;
    size_t pool = 0;
    std::vector<std::string> sent;
    size_t flushes = 0;
};
}   // namespace

PROPERTY(pools, 60) {
    StderrCapture cap;
    std::vector<std::unique_ptr<PoolRec>> P;
    std::vector<LRec> L;
    size_t nh = src.size(1, 4);
    std::vector<std::unique_ptr<Hand>> H;
    uint64_t seed = src.below(1u << 20);
    unsigned pm = src.pick({0u, 10u, 100u});
    bool storm = src.chance(1, 6);
    size_t conf = src.pick<size_t>({0, 0, 1, 2});
    perturb::confine(unsigned(conf));
    for (size_t i = 0; i < nh; ++i) H.push_back(learnlog::make_unique<Hand>());
    perturb::Scope scope(seed, pm, 200);
    perturb::Storm st(seed, storm, seed & 1);
    size_t n = src.small_size(1, 40), seq = 0, dead_calls = 0, multi = 0;

    auto settle = [&] { for (auto& h : H) h->wait(); };
    auto release = [&](PoolRec& p, size_t who) {
        settle();
        if (who < nh) { H[who]->post([&] { p.pool.reset(); }); H[who]->wait(); }
        else p.pool.reset();
        p.alive = false;
        pbt::beat();
        if (p.start_cb) REQUIRE(p.starts == p.workers, "the start callback ran %zu times on %zu workers", size_t(p.starts), p.workers);
        if (p.stop_cb) REQUIRE(p.stops == p.workers, "the stop callback ran %zu times on %zu workers", size_t(p.stops), p.workers);
        REQUIRE(p.wrong == 0, "the stop callback ran on a worker that had not started, or twice");
        for (auto& m : L) {
            if (m.pool != p.id) continue;
            REQUIRE(m.s->wrong_worker == 0, "%zu calls of a sink outside its pool's callbacks", size_t(m.s->wrong_worker));
            auto got = m.s->texts, want = m.sent;
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
            REQUIRE(got.size() == want.size(), "releasing the pool returned: %zu of %zu messages of a logger were written", got.size(), want.size());
            REQUIRE(got == want, "other messages were written");
            REQUIRE(m.s->flushes == m.flushes, "%zu flushes, want %zu", m.s->flushes, m.flushes);
        }
    };
    for (size_t step = 0; step < n; ++step) {
        size_t op = src.weighted({4, 5, 10, 3, 1});
        if (op == 0 || P.empty()) {
            if (P.size() >= 8) continue;
            auto p = learnlog::make_unique<PoolRec>();
            p->kind = 1 + src.below(3);
#ifdef PBT_TSAN
            p->kind = 1;
#endif
            p->q = src.pick<size_t>({1, 2, 16, 32, 64, 200});
            p->workers = src.size(1, 4);
            p->id = P.size() + 1;
            size_t ctor = src.below(3);
            p->start_cb = ctor > 0;
            p->stop_cb = ctor > 1;
            PoolRec* r = p.get();
            auto on_start = [r] { ++r->starts; if (tl_state != 0) ++r->wrong; tl_state = 1; tl_pool = r->id; };
            auto on_stop = [r] { ++r->stops; if (tl_state != 1 || tl_pool != r->id) ++r->wrong; tl_state = 2; };
#define MAKE(T)                                                                                  \
    p->pool = ctor == 0 ? std::make_shared<base::T>(p->q, p->workers)                             \
              : ctor == 1 ? std::make_shared<base::T>(p->q, p->workers, on_start)                 \
                          : std::make_shared<base::T>(p->q, p->workers, on_start, on_stop)
            if (p->kind == 1) MAKE(lock_thread_pool);
            else if (p->kind == 2) MAKE(lockfree_thread_pool);
            else MAKE(lockfree_concurrent_thread_pool);
#undef MAKE
            src.note(pbt::strf("pool %zu: %s, %zu/%zu, callbacks %zu", p->id, pool_name(p->kind), p->q, p->workers, ctor));
            REQUIRE(p->pool->threads_size() == p->workers && p->pool->message_queue_size() == p->q, "the pool tells other sizes");
            P.push_back(std::move(p));
        }
        else if (op == 1) {
            if (L.size() >= 12) continue;
            size_t i = src.below(P.size());
            if (!P[i]->alive) continue;
            settle();
            LRec m;
            m.s = std::make_shared<PoolSink>();
            m.s->pool = P[i]->id;
            m.s->start_cb = P[i]->start_cb;
            m.pool = P[i]->id;
            m.l = std::make_shared<async_logger>("L", m.s, P[i]->pool);
            src.note(pbt::strf("logger %zu on pool %zu", L.size(), m.pool));
            L.push_back(m);
        }
        else if (op == 2) {
            if (L.empty()) continue;
            size_t i = src.below(L.size()), who = src.below(nh + 1), c = src.small_size(1, 40);
            bool gone = !P[L[i].pool - 1]->alive;
            bool fl = src.chance(1, 4);
            if (gone) {
                settle();
                auto before = cap.take();
                REQUIRE(before.empty(), "%zu reports without a reason: %s", before.size(), before[0].text.c_str());
                c = std::min<size_t>(c, 4);
            }
            src.note(pbt::strf("%zu messages%s through logger %zu by %zu%s", c, fl ? " and a flush" : "", i, who, gone ? " (its pool is gone)" : ""));
            std::vector<std::string> texts;
            for (size_t k = 0; k < c; ++k) texts.push_back(pbt::strf("m%zu", seq++) + std::string(src.chance(1, 8) ? 400 : 0, 'x'));
            if (!gone) L[i].sent.insert(L[i].sent.end(), texts.begin(), texts.end());
            if (!gone && fl) ++L[i].flushes;
            logger* lp = L[i].l.get();
            auto job = [lp, texts, fl] {
                for (auto& t : texts) lp->info(t);
                if (fl) lp->flush();
            };
            size_t had = L[i].s->count();
            if (who < nh) { H[who]->post(job); if (gone) H[who]->wait(); else ++multi; }
            else job();
            if (gone) {
                auto r = cap.take();
                REQUIRE(r.size() == c + fl, "%zu reports for %zu calls through a logger whose pool is gone", r.size(), c + fl);
                REQUIRE(L[i].s->count() == had, "a message of a logger whose pool is gone was written");
                dead_calls += c;
            }
        }
        else if (op == 3) {
            size_t i = src.below(P.size());
            if (!P[i]->alive) continue;
            size_t who = src.below(nh + 1);
            src.note(pbt::strf("release pool %zu on %zu", P[i]->id, who));
            release(*P[i], who);
        }
        else {
            size_t k = 1 + src.below(3), t = src.pick<size_t>({0, 1025, 5000, size_t(-1)});
            src.note(pbt::strf("a %s pool of %zu workers", pool_name(k), t));
            bool refused = false;
            try { lib::make_pool(k, 16, t); }
            catch (const learnlog_excpt&) { refused = true; }
            REQUIRE(refused, "a pool of %zu workers was not refused", t);
        }
    }
    for (auto& p : P)
        if (p->alive) release(*p, src.below(nh + 1));
    settle();
    auto r = cap.take();
    if (!r.empty()) pbt::fail("%zu reports without a reason: %s", r.size(), r[0].text.c_str());
    H.clear();
    perturb::confine(0);
    if (P.size() >= 2 && multi >= 2) src.nontrivial();
    if (dead_calls) src.label("calls without a pool");
}

// a pool that is released while others still log: each message is delivered or reported
PROPERTY(release_race, 60) {
    StderrCapture cap;
    size_t kind = 1 + src.below(3);
#ifdef PBT_TSAN
    kind = 1;
#endif
    size_t q = src.pick<size_t>({1, 2, 32, 64}), workers = src.size(1, 3), np = src.size(1, 5), per = src.size(1, 60);
    uint64_t seed = src.below(1u << 20);
    unsigned after = unsigned(src.below(600));
    size_t conf = src.pick<size_t>({0, 0, 1, 2});
    unsigned pm = src.pick({0u, 20u, 150u});
    bool storm = src.chance(1, 4);
    size_t fl = src.pick<size_t>({0, 7});
    auto s = std::make_shared<PoolSink>();
    std::atomic<size_t> starts{0}, stops{0};
    {
        perturb::confine(unsigned(conf));
        perturb::Scope scope(seed, pm, 200);
        perturb::Storm st(seed, storm, seed & 1);
        thread_pool_shr_ptr pool;
        auto a = [&] { ++starts; };
        auto b = [&] { ++stops; };
        if (kind == 1) pool = std::make_shared<base::lock_thread_pool>(q, workers, a, b);
        else if (kind == 2) pool = std::make_shared<base::lockfree_thread_pool>(q, workers, a, b);
        else pool = std::make_shared<base::lockfree_concurrent_thread_pool>(q, workers, a, b);
        auto l = std::make_shared<async_logger>("L", s, pool);
        std::vector<std::thread> th;
        std::atomic<size_t> ready{0};
        for (size_t p = 0; p < np; ++p)
            th.emplace_back([&, p] {
                ++ready;
                while (ready < np) sched_yield();
                for (size_t i = 0; i < per; ++i) {
                    l->info(pbt::strf("%zu.%zu", p, i));
                    if (fl && i % fl == 3) l->flush();
                }
            });
        while (ready < np) sched_yield();
        perturb::raw_sleep_us(after);
        pool.reset();
        for (auto& t : th) t.join();
    }
    perturb::confine(0);
    auto r = cap.take();
    size_t flush_calls = 0;
    for (size_t i = 0; i < per; ++i) flush_calls += fl && i % fl == 3;
    flush_calls *= np;
    REQUIRE(starts == workers && stops == workers, "callbacks ran %zu and %zu times on %zu workers", size_t(starts), size_t(stops), workers);
    std::set<std::string> got(s->texts.begin(), s->texts.end());
    REQUIRE(got.size() == s->texts.size(), "a message was written twice");
    REQUIRE(s->texts.size() + s->flushes + r.size() == np * per + flush_calls, "%zu messages written, %zu flushes, %zu reports for %zu messages and %zu flushes",
            s->texts.size(), s->flushes, r.size(), np * per, flush_calls);
    // what a thread has lost is the end of what it logged
    for (size_t p = 0; p < np; ++p) {
        size_t k = 0;
        while (k < per && got.count(pbt::strf("%zu.%zu", p, k))) ++k;
        for (size_t i = k; i < per; ++i) REQUIRE(!got.count(pbt::strf("%zu.%zu", p, i)), "message %zu was lost, message %zu of the same thread was written", k, i);
    }
    src.note(pbt::strf("%s pool %zu/%zu, %zu producers x %zu, released after %u us: %zu written, %zu reports", pool_name(kind), q, workers, np, per, after,
                       s->texts.size(), r.size()));
    if (!r.empty() && !s->texts.empty()) src.nontrivial();
}

// ---------------------------------------------------------------- C23

namespace {
// lets through as many messages as it has been given permits for
class GateSink : public sinks::basic_sink<std::mutex> {
public:
    std::atomic<size_t>* completed = nullptr;
    std::vector<int> ids;
    struct Gate {
        std::mutex m;
        std::condition_variable cv;
        size_t permits = 0;
        void give(size_t n) {
            { std::lock_guard<std::mutex> l(m); permits += n; }
            cv.notify_all();
        }
        void take() {
            std::unique_lock<std::mutex> l(m);
            cv.wait(l, [&] { return permits > 0; });
            --permits;
        }
    };
    Gate* gate = nullptr;

protected:
    void output_(const base::log_msg& m) override {
        gate->take();
        ids.push_back(m.loc.line);
        ++*completed;
    }
    void flush_() override {}
};
}   // namespace

// a full queue makes the caller wait, and nothing else does
PROPERTY(backpressure, 90) {
    size_t kind = 1 + src.below(3);
#ifdef PBT_TSAN
    kind = 1;
#endif
    size_t q = src.pick<size_t>({1, 2, 3, 5, 16, 31, 32, 33, 64, 100, 257}), workers = src.size(1, 4), np = src.size(1, 5), ns = src.size(1, 2);
    bool start_gate = src.chance(1, 3) && kind != 3;    // a worker of the concurrent pool waits for a producer besides
    std::vector<size_t> per;
    size_t total = 0;
    for (size_t p = 0; p < np; ++p) {
        per.push_back(src.small_size(0, 40 + 2 * q / np));
        if (kind == 2 && p == 0 && src.chance(1, 3)) per[p] += 40 * (q / 32 + 2 * np + 4);     // more than may be accepted
        total += per[p];
    }
    size_t steps = src.size(0, 6);
    std::vector<size_t> give;
    for (size_t i = 0; i < steps; ++i) give.push_back(src.small_size(1, 20 + q / 2));
    bool big = src.chance(1, 4);
    uint64_t seed = src.below(1u << 20);
    unsigned pm = src.pick({0u, 20u, 150u});
    bool storm = src.chance(1, 5);
    size_t conf = src.pick<size_t>({0, 0, 1, 2});
    src.note(pbt::strf("%s pool, queue %zu, %zu workers%s; %zu producers with %zu messages to %zu sinks; the gate opens %zu times", pool_name(kind), q, workers,
                       start_gate ? " that start late" : "", np, total, ns, steps));
    std::atomic<size_t> accepted{0}, completed{0};
    GateSink::Gate gate, start;
    std::vector<std::shared_ptr<GateSink>> S;
    std::vector<sink_shr_ptr> ptr;
    for (size_t i = 0; i < ns; ++i) {
        S.push_back(std::make_shared<GateSink>());
        S[i]->gate = &gate;
        S[i]->completed = &completed;
        ptr.push_back(S[i]);
    }
    bool waited = false;
    {
        perturb::confine(unsigned(conf));
        perturb::Scope scope(seed, pm, 200);
        perturb::Storm st(seed, storm, seed & 1);
        thread_pool_shr_ptr pool;
        auto a = [&] { if (start_gate) start.take(); };
        if (kind == 1) pool = std::make_shared<base::lock_thread_pool>(q, workers, a);
        else if (kind == 2) pool = std::make_shared<base::lockfree_thread_pool>(q, workers, a);
        else pool = std::make_shared<base::lockfree_concurrent_thread_pool>(q, workers, a);
        std::vector<logger_shr_ptr> L;     // one sink each
        for (size_t i = 0; i < ns; ++i) L.push_back(std::make_shared<async_logger>("L", ptr[i], pool));
        std::string text(big ? 700 : 3, 'x');
        std::vector<std::thread> th;
        for (size_t p = 0; p < np; ++p)
            th.emplace_back([&, p] {
                for (size_t i = 0; i < per[p]; ++i) {
                    L[(p + i) % ns]->log(source_loc{"f", int(p * 10000 + i + 1)}, level::info, text);
                    accepted.fetch_add(1);
                }
            });
        size_t blocks = (q + 31) / 32;
        // in the queue at most, besides those that the workers hold
        size_t limit = kind == 1 ? q : kind == 2 ? 32 * (blocks + 2 * np + 2) : total;
        auto settle = [&](size_t want_completed, size_t at_least, const char* when) {
            for (size_t tick = 0;; ++tick) {
                size_t ac = accepted, co = completed;
                if (kind != 3) REQUIRE(ac <= co + workers + limit, "%s: %zu messages accepted, %zu written, with a queue of %zu and %zu workers", when, ac, co, q, workers);
                if (co >= want_completed && ac >= at_least) break;
                if (tick > 50000)
                    pbt::fail("%s: no progress; %zu messages accepted (want %zu), %zu written (want %zu); queue %zu, %zu workers, %zu producers", when, ac, at_least, co,
                              want_completed, q, workers, np);
                perturb::raw_sleep_us(tick < 2000 ? 50 : 400);
            }
            // nothing more comes while the gate is closed
            if (kind == 1 && at_least < total) {
                perturb::raw_sleep_us(300);
                REQUIRE(accepted == at_least, "%s: %zu messages accepted, want %zu (queue %zu)", when, size_t(accepted), at_least, q);
                waited = true;
            }
            if (kind != 3 && accepted < total) waited = true;
        };
        auto room = [&](size_t permits, size_t held) -> size_t {
            if (kind == 1) return std::min(total, permits + held + q);
            if (kind == 3) return total;
            return std::min(total, np == 1 ? permits + std::min<size_t>(1, held) : permits);
        };
        if (start_gate) {
            settle(0, kind == 1 ? std::min(total, q) : np == 1 ? std::min(total, q) : 0, "before the workers start");
            start.give(workers);
        }
        settle(0, kind == 2 ? (np == 1 ? std::min(total, q) : 0) : room(0, workers), "with the gate closed");
        size_t permits = 0;
        for (size_t g : give) {
            permits += g;
            gate.give(g);
            settle(std::min(total, permits), room(permits, workers), "after some were let through");
            pbt::beat();
        }
        gate.give(total + 1);
        settle(total, total, "with the gate open");
        for (auto& t : th) t.join();
        L.clear();
        pool.reset();
    }
    perturb::confine(0);
    REQUIRE(completed == total, "%zu of %zu messages written", size_t(completed), total);
    std::set<int> ids;
    for (auto& s : S)
        for (int i : s->ids) REQUIRE(ids.insert(i).second, "message %d was written twice", i);
    if (waited && steps) src.nontrivial();
    if (waited) src.label("waited");
}

PBT_MAIN()
