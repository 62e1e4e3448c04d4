// C27: the lock-free queues and the semaphore that the pools are built on.
#include "pbt.h"
#define PERTURB_WRAP
#include "perturb.h"

#include "base/concurrentqueue/blockingconcurrentqueue.h"

#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>

using pbt::Src;
namespace mc = moodycamel;

namespace {
// ------------------------------------------------------------------ items and traits

std::atomic<long> n_items{0}, n_allocs{0};
thread_local int throw_copy = 0, throw_assign = 0;      // the so-manieth from now
thread_local long lost = 0;                             // what a throwing assignment was about to take
struct Boom {};

struct Item {
    std::unique_ptr<long> v;
    Item() { ++n_items; }
    explicit Item(long x) : v(new long(x)) { ++n_items; }
    Item(const Item& o) {
        if (throw_copy && --throw_copy == 0) throw Boom();
        perturb::point();
        if (o.v) v.reset(new long(*o.v));
        ++n_items;
    }
    Item(Item&& o) noexcept : v(std::move(o.v)) { perturb::point(); ++n_items; }
    Item& operator=(const Item& o) { v.reset(o.v ? new long(*o.v) : nullptr); return *this; }
    Item& operator=(Item&& o) {
        if (throw_assign && --throw_assign == 0) { lost = o.v ? *o.v : -1; throw Boom(); }
        perturb::point();
        v = std::move(o.v);
        return *this;
    }
    ~Item() { perturb::point(); --n_items; }
    long value() const { return v ? *v : -1; }
};

struct Counting : mc::ConcurrentQueueDefaultTraits {
    static void* malloc(size_t n) { ++n_allocs; return std::malloc(n); }
    static void free(void* p) { if (p) --n_allocs; std::free(p); }
};
struct Small : Counting {
    static const size_t BLOCK_SIZE = 2;
    static const size_t EXPLICIT_INITIAL_INDEX_SIZE = 2;
    static const size_t IMPLICIT_INITIAL_INDEX_SIZE = 2;
    static const size_t INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = 1;
    static const std::uint32_t EXPLICIT_CONSUMER_CONSUMPTION_QUOTA_BEFORE_ROTATE = 3;
    static const int MAX_SEMA_SPINS = 2;
};
struct Recycling : Counting {
    static const size_t BLOCK_SIZE = 4;
    static const size_t EXPLICIT_BLOCK_EMPTY_COUNTER_THRESHOLD = 2;     // blocks are counted empty
    static const size_t EXPLICIT_INITIAL_INDEX_SIZE = 4;
    static const size_t IMPLICIT_INITIAL_INDEX_SIZE = 4;
    static const size_t INITIAL_IMPLICIT_PRODUCER_HASH_SIZE = 2;
    static const std::uint32_t EXPLICIT_CONSUMER_CONSUMPTION_QUOTA_BEFORE_ROTATE = 7;
    static const bool RECYCLE_ALLOCATED_BLOCKS = true;
    static const int MAX_SEMA_SPINS = 50;
};

// A thread that runs what it is given, one thing at a time.
class Hand {
public:
    Hand() : t_([this] { loop(); }) {}
    ~Hand() {
        { std::lock_guard<std::mutex> l(m_); stop_ = true; }
        cv_.notify_all();
        t_.join();
    }
    void run(const std::function<void()>& f) {
        std::exception_ptr e;
        bool done = false;
        std::unique_lock<std::mutex> l(m_);
        job_ = [&] { try { f(); } catch (...) { e = std::current_exception(); } };
        done_ = &done;
        cv_.notify_all();
        back_.wait(l, [&] { return done; });
        if (e) std::rethrow_exception(e);
    }

private:
    void loop() {
        std::unique_lock<std::mutex> l(m_);
        for (;;) {
            cv_.wait(l, [&] { return stop_ || job_; });
            if (stop_) return;
            job_();
            job_ = nullptr;
            *done_ = true;
            back_.notify_all();
        }
    }
    std::mutex m_;
    std::condition_variable cv_, back_;
    std::function<void()> job_;
    bool* done_ = nullptr;
    bool stop_ = false;
    std::thread t_;
};

// ------------------------------------------------------------------ histories against a model

struct Content {        // what a queue holds; moves from queue object to queue object
    std::map<int, std::deque<long>> subs;
    std::map<int, int> implicit;        // hand generation -> sub
    std::set<int> orphans;              // explicit subs whose token is gone
    size_t total = 0;
    size_t pool = 0;                    // elements that fit in the blocks made at the start
    bool allocated = false;             // an allocating call was made
    bool one = true;                    // only one producer so far, and nothing taken
    int only = -1;
    size_t max_one = 0;                 // what one producer alone surely gets in
};

template <typename Q, typename Traits, bool BLOCKING>
struct Machine {
    using PT = mc::ProducerToken;
    using CT = mc::ConsumerToken;
    struct Tok { std::unique_ptr<PT> t; Content* c; int sub; std::set<int> maybe; };
    struct Con { std::unique_ptr<CT> t; Content* c; };
    struct Slot { std::unique_ptr<Q> q; std::unique_ptr<Content> c; };

    Src& src;
    std::vector<Slot> Qs;
    std::vector<Tok> P;
    std::vector<Con> C;
    std::vector<std::unique_ptr<Hand>> hands;       // nullptr: the main thread
    std::vector<int> generation;
    int next_gen = 0, next_sub = 0;
    long next = 1;
    size_t moved = 0, taken = 0;

    explicit Machine(Src& s) : src(s) {}

    void on(size_t h, const std::function<void()>& f) { if (hands[h]) hands[h]->run(f); else f(); }

    void make_queue() {
        Slot s;
        s.c.reset(new Content);
        size_t B = Traits::BLOCK_SIZE;
        size_t blocks, cap;
        if (src.chance(1, 4)) {
            size_t e = src.below(3), i = src.size(e ? 0 : 1, 2);
            cap = src.size(1, 6 * B);
            blocks = ((cap + B - 1) / B - 1) * (e + 1) + 2 * (e + i);
            s.q.reset(new Q(cap, e, i));
            src.note(pbt::strf("queue(%zu, %zu, %zu)", cap, e, i));
        }
        else {
            cap = src.pick<size_t>({1, 2, 3, 4, B, B + 1, 2 * B, 5 * B - 1, 8 * B});
            blocks = (cap + B - 1) / B;
            s.q.reset(new Q(cap));
            src.note(pbt::strf("queue(%zu)", cap));
        }
        s.c->pool = blocks * B;
        s.c->max_one = std::min(cap, B * std::min(Traits::EXPLICIT_INITIAL_INDEX_SIZE + 0, Traits::IMPLICIT_INITIAL_INDEX_SIZE + 0));
        Qs.push_back(std::move(s));
    }
    Slot& slot_of(Content* c) {
        for (auto& s : Qs)
            if (s.c.get() == c) return s;
        throw pbt::Infra{"no slot"};
    }
    // the sub-queue that a thread's own items go to
    int implicit_sub(Content& c, size_t h) {
        auto it = c.implicit.find(generation[h]);
        if (it != c.implicit.end()) return it->second;
        return c.implicit[generation[h]] = next_sub++;
    }
    void check_size(Slot& s) {
        REQUIRE(s.q->size_approx() == s.c->total, "size_approx() = %zu with %zu items", s.q->size_approx(), s.c->total);
        if (!s.c->allocated) REQUIRE(s.c->total <= s.c->pool, "%zu items in blocks for %zu, without an allocating call", s.c->total, s.c->pool);
    }

    void put(Slot& s) {
        Content& c = *s.c;
        Tok* tok = nullptr;
        if (src.flip())
            for (auto& t : P)
                if (t.c == &c && (!tok || src.flip())) tok = &t;
        size_t h = src.below(hands.size());
        int sub = tok ? tok->sub : implicit_sub(c, h);
        if (c.one && c.only >= 0 && c.only != sub) c.one = false;
        c.only = sub;
        bool tries = src.flip(), ok = false, threw = false;
        size_t how = src.below(3);      // copy, move, several
        size_t n = how == 2 ? src.small_size(0, 5 * Traits::BLOCK_SIZE) : 1;
        if (tok && tries) n = std::min<size_t>(n, 1);       // see DESIGN.md, C27
        int boom = how != 1 && !tok && src.chance(1, 8) ? int(src.size(1, n + 1)) : 0;
        std::vector<Item> items;
        for (size_t i = 0; i < n; ++i) items.emplace_back(next + long(i));
        bool move_bulk = how == 2 && src.flip();
        if (move_bulk) boom = 0;
        src.note(pbt::strf("%s%s %zu %s by %s%d%s", tries ? "try_" : "", how == 2 ? "enqueue_bulk" : "enqueue", n, how == 1 || move_bulk ? "moved" : "copied",
                           tok ? "token " : "thread ", sub, boom ? ", a copy throws" : ""));
        size_t before = c.total;
        on(h, [&] {
            throw_copy = boom;
            try {
                Q& q = *s.q;
                if (how == 0) {
                    const Item& it = items[0];
                    ok = tries ? tok ? q.try_enqueue(*tok->t, it) : q.try_enqueue(it) : tok ? q.enqueue(*tok->t, it) : q.enqueue(it);
                }
                else if (how == 1) {
                    Item& it = items[0];
                    ok = tries ? tok ? q.try_enqueue(*tok->t, std::move(it)) : q.try_enqueue(std::move(it))
                               : tok ? q.enqueue(*tok->t, std::move(it)) : q.enqueue(std::move(it));
                }
                else if (move_bulk) {
                    auto b = std::make_move_iterator(items.begin());
                    ok = tries ? tok ? q.try_enqueue_bulk(*tok->t, b, n) : q.try_enqueue_bulk(b, n)
                               : tok ? q.enqueue_bulk(*tok->t, b, n) : q.enqueue_bulk(b, n);
                }
                else {
                    const Item* b = items.data();
                    ok = tries ? tok ? q.try_enqueue_bulk(*tok->t, b, n) : q.try_enqueue_bulk(b, n)
                               : tok ? q.enqueue_bulk(*tok->t, b, n) : q.enqueue_bulk(b, n);
                }
            }
            catch (const Boom&) { threw = true; }
            throw_copy = 0;
        });
        if (!tries) c.allocated = true;
        if (threw) REQUIRE(boom && size_t(boom) <= n, "an exception although no copy threw");
        else {
            if (!tries) REQUIRE(ok, "enqueue of %zu items refused", n);
            if (boom && size_t(boom) <= n) REQUIRE(!ok, "the exception of a copy did not come through");
            if (tries && c.one && before + n <= c.max_one) REQUIRE(ok, "try_enqueue of %zu items refused with %zu items of %zu", n, before, c.max_one);
            if (ok) {
                for (size_t i = 0; i < n; ++i) c.subs[sub].push_back(next + long(i));
                c.total += n;
                moved += n;
            }
        }
        for (size_t i = 0; i < n; ++i) {
            bool gone = ok && (how == 1 || move_bulk);
            REQUIRE(items[i].value() == (gone ? -1 : next + long(i)), "an item that was %s has the value %ld, had %ld", gone ? "put in" : ok ? "copied" : "refused",
                    items[i].value(), next + long(i));
        }
        next += long(n);
        if (n && !c.one) {}
        check_size(s);
    }
    // takes v out of the model
    void took(Content& c, long v) {
        c.one = false;
        for (auto& s : c.subs)
            if (!s.second.empty() && s.second.front() == v) {
                s.second.pop_front();
                --c.total;
                ++taken;
                return;
            }
        pbt::fail("took %ld, which is not the first of any producer", v);
    }
    void take(Slot& s) {
        Content& c = *s.c;
        Con* con = nullptr;
        if (src.flip())
            for (auto& t : C)
                if (t.c == &c && (!con || src.flip())) con = &t;
        size_t h = src.below(hands.size());
        bool bulk = src.flip();
        size_t max = bulk ? src.small_size(0, 40) : 1;
        bool boom = !bulk && src.chance(1, 10), threw = false;
        int wait = BLOCKING ? int(src.below(3)) : 0;        // try, wait, timed
        if (wait == 1 && (c.total == 0 || max == 0)) wait = 2;
        if (wait == 2 && max == 0) wait = 0;
        long us = src.pick<long>({0, 1, 100});
        std::vector<Item> got(max + 1);
        size_t n = 0;
        src.note(pbt::strf("%s %zu%s%s", bulk ? "dequeue_bulk" : "dequeue", max, con ? " with a token" : "", wait == 1 ? ", waiting" : wait == 2 ? ", timed" : ""));
        on(h, [&] {
            throw_assign = boom ? 1 : 0;
            try { n = take_call(*s.q, con ? con->t.get() : nullptr, got, bulk, max, wait, us, std::integral_constant<bool, BLOCKING>()); }
            catch (const Boom&) { threw = true; }
            throw_assign = 0;
            if (threw) { got[0].v.reset(new long(lost)); }
        });
        if (threw) {
            REQUIRE(c.total > 0, "took something from an empty queue");
            took(c, got[0].value());
        }
        else {
            REQUIRE(n == std::min(max, c.total), "took %zu of %zu items, asked for %zu", n, c.total, max);
            for (size_t i = 0; i < n; ++i) took(c, got[i].value());
            for (size_t i = n; i < got.size(); ++i) REQUIRE(!got[i].v, "an item beyond those taken was written");
        }
        check_size(s);
    }
    static size_t take_call(Q& q, CT* t, std::vector<Item>& got, bool bulk, size_t max, int, long, std::false_type) {
        if (bulk) return t ? q.try_dequeue_bulk(*t, got.data(), max) : q.try_dequeue_bulk(got.data(), max);
        return (t ? q.try_dequeue(*t, got[0]) : q.try_dequeue(got[0])) ? 1 : 0;
    }
    static size_t take_call(Q& q, CT* t, std::vector<Item>& got, bool bulk, size_t max, int wait, long us, std::true_type) {
        if (wait == 0) return take_call(q, t, got, bulk, max, 0, 0, std::false_type());
        if (bulk) {
            if (wait == 1) return t ? q.wait_dequeue_bulk(*t, got.data(), max) : q.wait_dequeue_bulk(got.data(), max);
            return t ? q.wait_dequeue_bulk_timed(*t, got.data(), max, us) : q.wait_dequeue_bulk_timed(got.data(), max, us);
        }
        if (wait == 1) { if (t) q.wait_dequeue(*t, got[0]); else q.wait_dequeue(got[0]); return 1; }
        if (us == 100) return (t ? q.wait_dequeue_timed(*t, got[0], std::chrono::microseconds(us)) : q.wait_dequeue_timed(got[0], std::chrono::microseconds(us))) ? 1 : 0;
        return (t ? q.wait_dequeue_timed(*t, got[0], us) : q.wait_dequeue_timed(got[0], us)) ? 1 : 0;
    }
    void take_from_producer(std::false_type) {
        if (P.empty()) return;
        Tok& t = P[src.below(P.size())];
        Slot& s = slot_of(t.c);
        Content& c = *t.c;
        bool bulk = src.flip();
        size_t max = bulk ? src.small_size(0, 40) : 1, h = src.below(hands.size()), n = 0;
        std::vector<Item> got(max + 1);
        src.note(pbt::strf("dequeue %zu from producer %d", max, t.sub));
        on(h, [&] { n = bulk ? s.q->try_dequeue_bulk_from_producer(*t.t, got.data(), max) : s.q->try_dequeue_from_producer(*t.t, got[0]) ? 1 : 0; });
        // its own items, and perhaps, before them, those of tokens that were gone when it was made
        auto& own = c.subs[t.sub];
        size_t left = own.size();
        if (t.maybe.empty()) REQUIRE(n == std::min(max, left), "took %zu of %zu items of the producer, asked for %zu", n, left, max);
        REQUIRE(n <= max, "took %zu items, asked for %zu", n, max);
        for (size_t i = 0; i < n; ++i) {
            long v = got[i].value();
            auto* from = &own;
            if (own.empty() || own.front() != v)
                for (int o : t.maybe)
                    if (!c.subs[o].empty() && c.subs[o].front() == v) from = &c.subs[o];
            REQUIRE(!from->empty() && v == from->front(), "took %ld from the producer, want %ld", v, own.empty() ? 0 : own.front());
            REQUIRE(from == &own || own.size() == left, "took %ld, older than what was taken before", v);
            from->pop_front();
            --c.total;
            ++taken;
            c.one = false;
        }
        REQUIRE(n == max || own.empty(), "took %zu items, asked for %zu, and %zu are left", n, max, own.size());
        for (size_t i = n; i < got.size(); ++i) REQUIRE(!got[i].v, "an item beyond those taken was written");
        check_size(s);
    }
    void take_from_producer(std::true_type) {}

    void drop_token(size_t i) {
        Tok& t = P[i];
        t.c->orphans.insert(t.sub);
        P.erase(P.begin() + long(i));
    }
    void drop_content(Content* c) {
        // a token may outlive its queue, but is good for nothing then
        for (size_t i = P.size(); i-- > 0;)
            if (P[i].c == c) P.erase(P.begin() + long(i));
        for (size_t i = C.size(); i-- > 0;)
            if (C[i].c == c) C.erase(C.begin() + long(i));
    }

    void run() {
        size_t nq = src.size(1, 2), nh = src.size(0, 3), steps = src.small_size(1, 120);
        hands.emplace_back();
        generation.push_back(next_gen++);
        for (size_t i = 0; i < nh; ++i) {
            hands.emplace_back(new Hand);
            generation.push_back(next_gen++);
        }
        for (size_t i = 0; i < nq; ++i) make_queue();
        for (size_t i = 0; i < steps; ++i) {
            Slot& s = Qs[src.below(Qs.size())];
            switch (src.weighted({14, 12, 4, 3, 2, 2, 1, 2, 1, 1})) {
                case 0: put(s); break;
                case 1: take(s); break;
                case 2: take_from_producer(std::integral_constant<bool, BLOCKING>()); break;
                case 3: {
                    if (P.size() >= 6) break;
                    Tok t;
                    t.c = s.c.get();
                    on(src.below(hands.size()), [&] { t.t.reset(new PT(*s.q)); });
                    REQUIRE(t.t->valid(), "a token is not valid");
                    t.sub = next_sub++;
                    t.maybe = t.c->orphans;
                    if (src.chance(1, 3)) {
                        PT other(std::move(*t.t));
                        REQUIRE(other.valid() && !t.t->valid(), "a moved token");
                        *t.t = std::move(other);
                    }
                    P.push_back(std::move(t));
                    src.note(pbt::strf("token %d", P.back().sub));
                    break;
                }
                case 4: if (!P.empty()) { src.note("drop a token"); drop_token(src.below(P.size())); } break;
                case 5: {
                    if (C.size() < 3) {
                        Con t;
                        t.c = s.c.get();
                        t.t.reset(new CT(*s.q));
                        C.push_back(std::move(t));
                        src.note("consumer token");
                    }
                    else C.erase(C.begin() + long(src.below(C.size())));
                    break;
                }
                case 6: {       // moves between queues
                    if (Qs.size() < 2) break;
                    Slot& o = Qs[&s == &Qs[0] ? 1 : 0];
                    if (src.flip() && !BLOCKING) {
                        src.note("a queue made by moving");
                        Q* q = new Q(std::move(*s.q));
                        Content* fresh = new Content;
                        fresh->one = false;
                        fresh->allocated = false;
                        REQUIRE(s.q->size_approx() == 0, "a queue that was moved from is not empty");
                        // the slot's object is empty and stays; the new object replaces the other's
                        drop_content(o.c.get());
                        o.q.reset(q);
                        o.c = std::move(s.c);
                        s.c.reset(fresh);
                    }
                    else {
                        src.note("swap");
                        switch (src.below(3)) {
                            case 0: s.q->swap(*o.q); break;
                            case 1: { using std::swap; swap(*s.q, *o.q); break; }
                            default: *s.q = std::move(*o.q);       // documented to swap
                        }
                        std::swap(s.c, o.c);
                    }
                    check_size(o);
                    check_size(s);
                    break;
                }
                case 7: {
                    if (hands.size() < 2) break;
                    size_t h = 1 + src.below(hands.size() - 1);
                    src.note("a thread ends and another begins");
                    hands[h].reset();
                    hands[h].reset(new Hand);
                    generation[h] = next_gen++;
                    // the new thread may go on with the sub-queue of the one that ended
                    for (auto& q : Qs) q.c->one = false;
                    break;
                }
                case 8: {
                    src.note("a queue is destroyed with what it holds");
                    Content* c = s.c.get();
                    bool tokens_first = src.flip();
                    if (tokens_first) drop_content(c);
                    s.q.reset();
                    drop_content(c);
                    size_t at = size_t(&s - &Qs[0]);
                    Qs.erase(Qs.begin() + long(at));
                    make_queue();
                    break;
                }
                default: {
                    if (s.q->is_lock_free() == false) pbt::fail("not lock-free");
                    while (s.c->total) take(s);
                    REQUIRE(s.q->size_approx() == 0, "not empty");
                }
            }
            if (i % 32 == 31) pbt::beat();
        }
        bool tokens_first = src.flip(), threads_first = src.flip();
        if (threads_first) hands.clear();
        if (tokens_first) { P.clear(); C.clear(); }
        Qs.clear();
        P.clear();
        C.clear();
        hands.clear();
        REQUIRE(n_items == 0, "%ld items are left", long(n_items));
        REQUIRE(n_allocs == 0, "%ld blocks of memory are left", long(n_allocs));
        if (moved >= 3 && taken >= 3) src.nontrivial();
    }
};
}   // namespace

namespace {
template <typename T, template <typename, typename> class Q, bool B>
void run_seq(Src& src) {
    Machine<Q<Item, T>, T, B> m(src);
    m.run();
}
}   // namespace

PROPERTY(cq_seq) {
    n_items = 0;
    n_allocs = 0;
    size_t traits = src.below(3);
    bool blocking = src.flip();
    src.note(pbt::strf("%s, %s", blocking ? "blocking" : "plain", traits == 0 ? "blocks of 2" : traits == 1 ? "blocks of 4" : "blocks of 32"));
    if (blocking) {
        if (traits == 0) run_seq<Small, mc::BlockingConcurrentQueue, true>(src);
        else if (traits == 1) run_seq<Recycling, mc::BlockingConcurrentQueue, true>(src);
        else run_seq<Counting, mc::BlockingConcurrentQueue, true>(src);
    }
    else {
        if (traits == 0) run_seq<Small, mc::ConcurrentQueue, false>(src);
        else if (traits == 1) run_seq<Recycling, mc::ConcurrentQueue, false>(src);
        else run_seq<Counting, mc::ConcurrentQueue, false>(src);
    }
}

// ------------------------------------------------------------------ threads

namespace {
struct Script {
    bool token = false, churn = false, tries = false;
    size_t n = 0, bulk = 1, pause = 0;
};
struct Taker {
    bool token = false, churn = false;
    int how = 0;            // one, several, from a producer (plain) / one, several (blocking)
    size_t bulk = 1, quota = 0;
    long timeout = -1;      // us; -1: waits
};

template <typename Q, bool B>
void run_mt(Src& src) {
    n_items = 0;
    n_allocs = 0;
    size_t np = src.size(1, 6), nc = src.size(1, 5), cap = src.pick<size_t>({1, 4, 32, 64, 500}), rounds = src.size(1, 2);
    std::vector<Script> S(np);
    std::vector<Taker> T(nc);
    size_t total = 0;
    for (auto& s : S) {
        s.token = src.flip();
        s.churn = src.chance(1, 3);
        s.tries = src.chance(1, 3);
        s.n = src.small_size(1, 400);
        s.bulk = src.pick<size_t>({1, 1, 2, 5, 33});
        s.pause = src.pick<size_t>({0, 0, 20});
        total += s.n;
    }
    size_t rest = total;
    for (size_t i = 0; i < nc; ++i) {
        auto& t = T[i];
        t.token = src.flip();
        t.churn = src.chance(1, 4);
        t.how = int(src.below(B ? 2 : 3));
        t.bulk = src.pick<size_t>({1, 2, 7, 40});
        t.quota = i + 1 == nc ? rest : src.below(rest + 1);
        rest -= t.quota;
        t.timeout = src.pick<long>({-1, -1, 0, 50, 100000});
    }
    uint64_t seed = src.below(1u << 20);
    unsigned pm = src.pick({0u, 5u, 30u, 100u});
    bool storm = src.chance(1, 4), exits = src.flip();
    size_t conf = src.pick<size_t>({0, 0, 0, 1, 2});
    src.note(pbt::strf("%zu producers, %zu consumers, %zu items, capacity %zu, %zu rounds", np, nc, total, cap, rounds));
    {
        perturb::confine(unsigned(conf));
        perturb::Scope scope(seed, pm, 100);
        perturb::Storm st(seed, storm, seed & 1);
        Q q(cap);
        for (size_t round = 0; round < rounds; ++round) {
            std::atomic<size_t> out{0};
            std::atomic<bool> bad{false}, done{false};
            std::vector<std::vector<long>> got(nc);
            std::vector<std::thread> prod, cons;
            std::vector<std::unique_ptr<mc::ProducerToken>> tokens(np);
            for (size_t p = 0; p < np; ++p)
                if (S[p].token) tokens[p].reset(new mc::ProducerToken(q));
            for (size_t c = 0; c < nc; ++c)
                cons.emplace_back([&, c] {
                    const Taker& t = T[c];
                    std::unique_ptr<mc::ConsumerToken> tok;
                    if (t.token) tok.reset(new mc::ConsumerToken(q));
                    std::vector<Item> buf(t.bulk);
                    size_t i = 0;
                    auto more = [&] { return B ? got[c].size() < t.quota : out < total && !done; };
                    while (more()) {
                        size_t n = 0;
                        if (t.churn && ++i % 5 == 0 && tok) tok.reset(new mc::ConsumerToken(q));
                        n = take_some(q, t, tok.get(), buf, B ? std::min(t.bulk, t.quota - got[c].size()) : t.bulk, tokens, i, std::integral_constant<bool, B>());
                        for (size_t k = 0; k < n; ++k) got[c].push_back(buf[k].value());
                        out += n;
                        if (n) pbt::beat();
                        else if (!B) sched_yield();
                    }
                });
            for (size_t p = 0; p < np; ++p)
                prod.emplace_back([&, p] {
                    const Script& s = S[p];
                    std::unique_ptr<mc::ProducerToken> own;
                    if (s.token && s.churn) own.reset(new mc::ProducerToken(q));
                    std::vector<Item> buf;
                    long v = long(p + 1) * 1000000;
                    for (size_t i = 0; i < s.n;) {
                        size_t n = std::min(s.bulk, s.n - i);
                        mc::ProducerToken* tok = own ? own.get() : tokens[p].get();
                        bool ok = false;
                        if (n == 1) {
                            Item it(v + long(i));
                            if (s.tries) ok = tok ? q.try_enqueue(*tok, std::move(it)) : q.try_enqueue(std::move(it));
                            if (!ok) {
                                if (it.value() != v + long(i)) bad = true;      // a refused item must be as before
                                ok = tok ? q.enqueue(*tok, std::move(it)) : q.enqueue(std::move(it));
                            }
                        }
                        else {
                            buf.clear();
                            for (size_t k = 0; k < n; ++k) buf.emplace_back(v + long(i + k));
                            if (s.tries && !tok) ok = q.try_enqueue_bulk(buf.data(), n);      // see DESIGN.md, C27
                            if (!ok) ok = tok ? q.enqueue_bulk(*tok, buf.data(), n) : q.enqueue_bulk(buf.data(), n);
                        }
                        if (!ok) bad = true;
                        i += n;
                        if (s.pause && i % s.pause == 0) perturb::raw_sleep_us(50);
                        pbt::beat();
                    }
                    // keeps its thread until the others are done, or not
                    if (!exits) while (out < total && !done) perturb::raw_sleep_us(100);
                });
            for (auto& t : prod) t.join();
            size_t last = 0;
            for (int quiet = 0; out < total;) {
                perturb::raw_sleep_us(1000);
                if (out != last) { last = out; quiet = 0; }
                else if (++quiet > 20000) pbt::fail("%zu of %zu items taken, and no more come; size_approx() = %zu", size_t(out), total, q.size_approx());
            }
            done = true;
            for (auto& t : cons) t.join();
            REQUIRE(!bad, "an enqueue failed or spoilt a refused item");
            std::set<long> seen;
            for (size_t c = 0; c < nc; ++c) {
                std::map<long, long> last_of;
                for (long v : got[c]) {
                    REQUIRE(v >= 1000000 && v / 1000000 <= long(np) && v % 1000000 < long(S[size_t(v / 1000000 - 1)].n), "an item %ld that nobody put in", v);
                    REQUIRE(seen.insert(v).second, "item %ld was taken twice", v);
                    auto it = last_of.find(v / 1000000);
                    if (it != last_of.end()) REQUIRE(it->second < v, "consumer %zu got %ld after %ld", c, v, it->second);
                    last_of[v / 1000000] = v;
                }
            }
            REQUIRE(seen.size() == total, "%zu of %zu items taken", seen.size(), total);
            REQUIRE(q.size_approx() == 0, "size_approx() = %zu at the end", q.size_approx());
            Item x;
            REQUIRE(!q.try_dequeue(x), "an item too many: %ld", x.value());
        }
    }
    perturb::confine(0);
    REQUIRE(n_items == 0, "%ld items are left", long(n_items));
    REQUIRE(n_allocs == 0, "%ld blocks of memory are left", long(n_allocs));
    if (np > 1 && nc > 1 && total > 60) src.nontrivial();
}
template <typename Q>
size_t take_some(Q& q, const Taker& t, mc::ConsumerToken* tok, std::vector<Item>& buf, size_t max, std::vector<std::unique_ptr<mc::ProducerToken>>& tokens, size_t i,
                 std::false_type) {
    if (t.how == 2 && tokens[i % tokens.size()]) {
        auto& p = *tokens[i % tokens.size()];
        size_t n = t.bulk > 1 ? q.try_dequeue_bulk_from_producer(p, buf.data(), max) : q.try_dequeue_from_producer(p, buf[0]);
        if (n) return n;
    }
    if (t.how == 1) return tok ? q.try_dequeue_bulk(*tok, buf.data(), max) : q.try_dequeue_bulk(buf.data(), max);
    return tok ? q.try_dequeue(*tok, buf[0]) : q.try_dequeue(buf[0]);
}
template <typename Q>
size_t take_some(Q& q, const Taker& t, mc::ConsumerToken* tok, std::vector<Item>& buf, size_t max, std::vector<std::unique_ptr<mc::ProducerToken>>&, size_t,
                 std::true_type) {
    if (t.how == 1) {
        if (t.timeout < 0) return tok ? q.wait_dequeue_bulk(*tok, buf.data(), max) : q.wait_dequeue_bulk(buf.data(), max);
        return tok ? q.wait_dequeue_bulk_timed(*tok, buf.data(), max, t.timeout) : q.wait_dequeue_bulk_timed(buf.data(), max, t.timeout);
    }
    if (t.timeout < 0) { if (tok) q.wait_dequeue(*tok, buf[0]); else q.wait_dequeue(buf[0]); return 1; }
    return tok ? q.wait_dequeue_timed(*tok, buf[0], t.timeout) : q.wait_dequeue_timed(buf[0], t.timeout);
}
}   // namespace

PROPERTY(cq_mt, 60) {
    size_t traits = src.below(3);
    bool blocking = src.flip();
    if (blocking) {
        if (traits == 0) run_mt<mc::BlockingConcurrentQueue<Item, Small>, true>(src);
        else if (traits == 1) run_mt<mc::BlockingConcurrentQueue<Item, Recycling>, true>(src);
        else run_mt<mc::BlockingConcurrentQueue<Item, Counting>, true>(src);
    }
    else {
        if (traits == 0) run_mt<mc::ConcurrentQueue<Item, Small>, false>(src);
        else if (traits == 1) run_mt<mc::ConcurrentQueue<Item, Recycling>, false>(src);
        else run_mt<mc::ConcurrentQueue<Item, Counting>, false>(src);
    }
}

// the counting semaphore: as many get through as were let through
PROPERTY(sema, 60) {
    int spins = src.pick({0, 1, 100, 10000});
    size_t initial = src.below(5), nw = src.size(1, 5), ns = src.size(1, 3);
    std::vector<size_t> give(ns);
    size_t total = initial;
    for (auto& g : give) total += g = src.small_size(0, 200);
    std::vector<size_t> quota(nw), many(nw);
    std::vector<long> tmo(nw);
    size_t rest = total;
    for (size_t i = 0; i < nw; ++i) {
        quota[i] = i + 1 == nw ? rest : src.below(rest + 1);
        rest -= quota[i];
        many[i] = src.pick<size_t>({1, 1, 2, 30});
        tmo[i] = src.pick<long>({-1, -1, 0, 1, 60, 100000});
    }
    size_t chunk = src.pick<size_t>({1, 2, 9});
    uint64_t seed = src.below(1u << 20);
    unsigned pm = src.pick({0u, 30u, 200u});
    bool storm = src.chance(1, 4);
    src.note(pbt::strf("spins %d, at first %zu, %zu waiters, %zu givers, %zu in all", spins, initial, nw, ns, total));
    {
        perturb::Scope scope(seed, pm, 100);
        perturb::Storm st(seed, storm, seed & 1);
        mc::LightweightSemaphore s(long(initial), spins);
        REQUIRE(s.availableApprox() == initial, "%zu at first", s.availableApprox());
        mc::LightweightSemaphore fresh;
        REQUIRE(fresh.availableApprox() == 0 && !fresh.tryWait(), "a new semaphore lets %zu through", fresh.availableApprox());
        std::atomic<size_t> through{0}, given{initial};
        std::atomic<bool> over{false}, early{false};
        std::vector<std::thread> th;
        for (size_t i = 0; i < nw; ++i)
            th.emplace_back([&, i] {
                size_t have = 0;
                while (have < quota[i]) {
                    size_t max = std::min(many[i], quota[i] - have), n;
                    if (many[i] > 1) n = size_t(tmo[i] < 0 ? s.waitMany(long(max)) : s.waitMany(long(max), tmo[i]));
                    else n = tmo[i] < 0 ? s.wait() : tmo[i] == 1 ? s.tryWait() : s.wait(tmo[i]);
                    if (n > max) over = true;
                    if (tmo[i] < 0 && n == 0) early = true;
                    have += n;
                    size_t t = through += n;
                    if (t > given) over = true;
                    if (n) pbt::beat();
                }
            });
        for (size_t g = 0; g < ns; ++g)
            th.emplace_back([&, g] {
                for (size_t k = 0; k < give[g];) {
                    size_t n = std::min(chunk, give[g] - k);
                    given += n;
                    s.signal(long(n));
                    k += n;
                    perturb::point();
                }
            });
        size_t last = 0;
        for (int quiet = 0; through < total;) {
            perturb::raw_sleep_us(500);
            if (through != last) { last = through; quiet = 0; }
            else if (++quiet > 40000) pbt::fail("%zu of %zu got through, and no more do", size_t(through), total);
        }
        for (auto& t : th) t.join();
        REQUIRE(!over, "more got through than were let through");
        REQUIRE(!early, "an untimed wait returned without getting through");
        REQUIRE(s.availableApprox() == 0 && !s.tryWait() && s.tryWaitMany(5) == 0, "something is left");
        long us = src.pick<long>({0, 1, 300});
        auto t0 = std::chrono::steady_clock::now();
        bool ok = src.flip() ? s.wait(us) : s.waitMany(3, us) != 0;
        REQUIRE(!ok, "a timed wait got through an empty semaphore");
        (void)t0;
        s.signal(2);
        REQUIRE(s.availableApprox() == 2 && s.waitMany(5) == 2 && !s.tryWait(), "after the timed wait");
    }
    if (nw > 1 && total > 20) src.nontrivial();
}

PBT_MAIN()
