// C05: the bounded blocking queue.  C06: the ring buffer under it.
#define PERTURB_WRAP
#include "perturb.h"

#include "base/block_queue.h"
#include "base/circular_queue.h"

#include <deque>
#include <memory>

using pbt::Src;
using learnlog::base::block_queue;
using learnlog::base::circular_queue;

namespace {

struct Item {       // move-only, and knows whether it was moved from
    std::unique_ptr<long> v;
    Item() = default;
    explicit Item(long x) : v(new long(x)) {}
    Item(Item&&) = default;
    Item& operator=(Item&&) = default;
};

}   // namespace

// ---------------------------------------------------------------- ring buffer

PROPERTY(ring) {
    struct M {
        bool valid = false;
        size_t cap = 0;
        std::deque<std::string> q;
        size_t over = 0;
    };
    size_t n = src.size(1, 4);
    std::vector<circular_queue<std::string>> q(n);      // default-constructed
    std::vector<M> m(n);
    long serial = 0;
    size_t ops = src.small_size(1, 120);
    size_t pushes = 0, wraps = 0;
    auto check = [&](size_t i, const char* op) {
        const auto& a = q[i];
        const M& b = m[i];
        REQUIRE(a.size() == b.q.size(), "%s: q%zu size %zu want %zu", op, i, a.size(), b.q.size());
        REQUIRE(a.empty() == b.q.empty(), "%s: q%zu empty", op, i);
        REQUIRE(a.full() == (b.valid && b.q.size() == b.cap), "%s: q%zu full() = %d with %zu of %zu", op, i, a.full(), b.q.size(), b.cap);
        REQUIRE(a.override_count() == b.over, "%s: q%zu override_count %zu want %zu", op, i, a.override_count(), b.over);
        for (size_t k = 0; k < b.q.size(); ++k)
            REQUIRE(a.at(k) == b.q[k], "%s: q%zu at(%zu) = %s want %s", op, i, k, a.at(k).c_str(), b.q[k].c_str());
        if (!b.q.empty()) REQUIRE(a.front() == b.q.front(), "%s: q%zu front = %s want %s", op, i, a.front().c_str(), b.q.front().c_str());
    };
    for (size_t k = 0; k < ops; ++k) {
        size_t i = src.below(n);
        const char* op = "";
        switch (src.weighted({20, 10, 3, 3, 3, 1, 1, 1})) {
            case 0: {
                op = "push_back";
                std::string v = std::to_string(serial++) + (src.chance(1, 4) ? std::string(40, 'x') : "");
                src.note(pbt::strf("q%zu.push_back(%s)", i, v.c_str()));
                if (m[i].valid) {
                    ++pushes;
                    m[i].q.push_back(v);
                    if (m[i].q.size() > m[i].cap) { m[i].q.pop_front(); ++m[i].over; ++wraps; }
                }
                q[i].push_back(std::move(v));
                break;
            }
            case 1:
                op = "pop_front";
                if (m[i].q.empty()) break;
                src.note(pbt::strf("q%zu.pop_front()", i));
                if (src.flip()) {
                    std::string v = std::move(q[i].front());
                    REQUIRE(v == m[i].q.front(), "front() = %s want %s", v.c_str(), m[i].q.front().c_str());
                }
                q[i].pop_front();
                m[i].q.pop_front();
                break;
            case 2: {
                op = "new";
                size_t cap = src.small_size(0, 20);
                src.note(pbt::strf("q%zu = queue(%zu)", i, cap));
                q[i] = circular_queue<std::string>(cap);
                m[i] = M();
                m[i].valid = true;
                m[i].cap = cap;
                break;
            }
            case 3: {
                op = "copy";
                size_t j = src.below(n);
                src.note(pbt::strf("q%zu = q%zu (copy)", i, j));
                if (src.flip()) q[i] = q[j];
                else {
                    circular_queue<std::string> c(q[j]);
                    q[i] = std::move(c);
                }
                m[i] = m[j];
                check(j, "copied from");
                break;
            }
            case 4: {
                op = "move";
                size_t j = src.below(n);
                if (i == j) break;
                src.note(pbt::strf("q%zu = move(q%zu)", i, j));
                if (src.flip()) q[i] = std::move(q[j]);
                else {
                    circular_queue<std::string> c(std::move(q[j]));
                    q[i] = std::move(c);
                }
                m[i] = m[j];
                m[j] = M();
                check(j, "moved from");
                break;
            }
            case 5:
                op = "clear";
                src.note(pbt::strf("q%zu.clear()", i));
                q[i].clear();
                m[i] = M();
                break;
            case 6:
                op = "reset_override_count";
                q[i].reset_override_count();
                m[i].over = 0;
                break;
            case 7: {
                op = "fill";
                if (!m[i].valid) break;
                src.note(pbt::strf("q%zu: fill", i));
                while (m[i].q.size() < m[i].cap) {
                    std::string v = std::to_string(serial++);
                    m[i].q.push_back(v);
                    q[i].push_back(std::move(v));
                    ++pushes;
                }
                break;
            }
        }
        check(i, op);
    }
    if (pushes >= 3 && wraps >= 1) src.nontrivial("overwrote");
    else if (pushes >= 3) src.nontrivial();
}

// ---------------------------------------------------------------- blocking queue, one thread

PROPERTY(block_seq) {
    size_t cap = src.small_size(1, 20);
    block_queue<Item> q(cap);
    std::deque<long> m;
    size_t over = 0, disc = 0;
    long serial = 0;
    size_t ops = src.small_size(1, 80);
    src.note(pbt::strf("capacity %zu", cap));
    size_t effects = 0;
    for (size_t k = 0; k < ops; ++k) {
        switch (src.weighted({6, 6, 6, 6, 3, 1, 1})) {
            case 0: {
                Item x(serial);
                src.note(pbt::strf("enqueue_if_have_room(%ld)", serial));
                q.enqueue_if_have_room(std::move(x));
                if (m.size() < cap) m.push_back(serial);
                else {
                    ++disc;
                    ++effects;
                    REQUIRE(x.v && *x.v == serial, "a discarded item was consumed");
                }
                ++serial;
                break;
            }
            case 1:
                src.note(pbt::strf("enqueue_nowait(%ld)", serial));
                q.enqueue_nowait(Item(serial));
                m.push_back(serial++);
                if (m.size() > cap) { m.pop_front(); ++over; ++effects; }
                break;
            case 2:
                if (m.size() == cap) break;
                src.note(pbt::strf("enqueue(%ld)", serial));
                q.enqueue(Item(serial));
                m.push_back(serial++);
                break;
            case 3: {
                if (m.empty()) break;
                src.note("dequeue");
                Item x;
                q.dequeue(x);
                REQUIRE(x.v && *x.v == m.front(), "dequeue gave %ld want %ld", x.v ? *x.v : -1, m.front());
                m.pop_front();
                ++effects;
                break;
            }
            case 4: {
                Item x;
                long ms = src.range(0, 2);
                src.note(pbt::strf("dequeue_for(%ld ms)", ms));
                auto t0 = std::chrono::steady_clock::now();
                bool ok = q.dequeue_for(x, std::chrono::milliseconds(m.empty() ? ms : src.chance(1, 5) ? std::chrono::milliseconds::max().count() : src.range(0, 10000)));
                auto el = std::chrono::steady_clock::now() - t0;
                REQUIRE(ok == !m.empty(), "dequeue_for = %d with %zu items", ok, m.size());
                if (ok) {
                    REQUIRE(x.v && *x.v == m.front(), "dequeue_for gave %ld want %ld", x.v ? *x.v : -1, m.front());
                    m.pop_front();
                    ++effects;
                }
                else {
                    REQUIRE(!x.v, "a timed-out dequeue_for wrote its argument");
                    REQUIRE(el >= std::chrono::milliseconds(ms), "dequeue_for(%ld ms) gave up early", ms);
                }
                break;
            }
            case 5: q.reset_override_count(); over = 0; break;
            case 6: q.reset_discard_count(); disc = 0; break;
        }
        REQUIRE(q.size() == m.size(), "size %zu want %zu", q.size(), m.size());
        REQUIRE(q.get_override_count() == over, "override count %zu want %zu", q.get_override_count(), over);
        REQUIRE(q.get_discard_count() == disc, "discard count %zu want %zu", q.get_discard_count(), disc);
    }
    if (effects >= 2) src.nontrivial();
}

// ---------------------------------------------------------------- blocking queue, many threads

PROPERTY(block_mt, 45) {
    size_t cap = src.pick<size_t>({1, 1, 2, 3, 4, 8, 64});
    size_t np = src.size(1, 5), nc = src.size(1, 5);
    size_t per = src.small_size(1, 60);
    bool may_override = src.chance(1, 4), may_discard = src.chance(1, 3);
    bool timed = src.flip();
    uint64_t seed = src.bits();
    unsigned per_mille = src.pick<unsigned>({0, 30, 150, 400});
    unsigned max_us = src.pick<unsigned>({20, 100, 300});
    bool storm = src.chance(1, 4);
    perturb::confine(src.pick<unsigned>({0, 0, 1, 2}));
    src.note(pbt::strf("capacity %zu, %zu producers x %zu, %zu consumers, override %d discard %d timed %d delays %u/1000",
                       cap, np, per, nc, may_override, may_discard, timed, per_mille));

    block_queue<Item> q(cap);
    struct Rec {
        std::atomic<uint64_t> e0{0}, e1{0}, d0{0}, d1{0};
        std::atomic<int> seen{0};
        int how = 0;
    };
    size_t total = np * per;
    std::vector<Rec> rec(total);
    std::atomic<uint64_t> clock{1};
    std::atomic<size_t> producing{np};
    std::atomic<long> stray{0};
    std::vector<std::vector<long>> got(nc);
    std::atomic<size_t> early{0};
    bool deadlocked = false;
    {
        perturb::Scope sc(seed, per_mille, max_us);
        perturb::Storm st(seed, storm, seed & 1);
        std::vector<std::thread> th;
        for (size_t p = 0; p < np; ++p)
            th.emplace_back([&, p] {
                pbt::Rng r(pbt::mix(seed, 100 + p));
                for (size_t i = 0; i < per; ++i) {
                    size_t id = p * per + i;
                    int how = may_override && r.below(3) == 0 ? 2 : may_discard && r.below(3) == 0 ? 1 : 0;
                    rec[id].how = how;
                    rec[id].e0 = clock.fetch_add(1);
                    Item x(static_cast<long>(id));
                    if (how == 0) q.enqueue(std::move(x));
                    else if (how == 1) {
                        q.enqueue_if_have_room(std::move(x));
                        if (x.v) rec[id].how = 3;       // discarded
                    }
                    else q.enqueue_nowait(std::move(x));
                    rec[id].e1 = clock.fetch_add(1);
                    if (r.below(8) == 0) sched_yield();
                }
                producing.fetch_sub(1);
            });
        std::atomic<size_t> live{nc};
        for (size_t c = 0; c < nc; ++c)
            th.emplace_back([&, c] {
                pbt::Rng r(pbt::mix(seed, 200 + c));
                for (;;) {
                    Item x;
                    uint64_t d0 = clock.fetch_add(1);
                    if (timed && r.below(2)) {
                        long ms = r.below(6) ? long(r.below(3)) : r.below(2) ? std::chrono::milliseconds::max().count() : 1l << (30 + r.below(33));
                        auto t0 = std::chrono::steady_clock::now();
                        if (!q.dequeue_for(x, std::chrono::milliseconds(ms))) {
                            if (std::chrono::steady_clock::now() - t0 < std::chrono::milliseconds(ms)) early.fetch_add(1);
                            continue;
                        }
                    }
                    else q.dequeue(x);
                    uint64_t d1 = clock.fetch_add(1);
                    if (!x.v) { stray.fetch_add(1); continue; }
                    long id = *x.v;
                    if (id < 0) break;      // the end marker
                    got[c].push_back(id);
                    rec[size_t(id)].d0 = d0;
                    rec[size_t(id)].d1 = d1;
                    rec[size_t(id)].seen.fetch_add(1);
                    if (r.below(8) == 0) sched_yield();
                }
                live.fetch_sub(1);
            });
        for (size_t p = 0; p < np; ++p) th[p].join();
        pbt::beat();
        for (size_t c = 0; c < nc; ++c) q.enqueue(Item(-1));        // blocks while the queue is full
        for (size_t c = 0; c < nc; ++c) th[np + c].join();
    }
    perturb::confine(0);
    (void)deadlocked;
    REQUIRE(stray == 0, "%ld dequeues gave an empty item", stray.load());
    REQUIRE(early == 0, "%zu timed dequeues gave up early", early.load());
    REQUIRE(q.size() == 0, "%zu items left", q.size());
    size_t seen = 0, discarded = 0, lost = 0;
    for (size_t i = 0; i < total; ++i) {
        int s = rec[i].seen;
        REQUIRE(s <= 1, "item %zu was dequeued %d times", i, s);
        if (rec[i].how == 3) {
            ++discarded;
            REQUIRE(s == 0, "item %zu was discarded and dequeued", i);
        }
        else if (s == 0) ++lost;
        seen += size_t(s);
    }
    REQUIRE(q.get_discard_count() == discarded, "discard count %zu, %zu items discarded", q.get_discard_count(), discarded);
    REQUIRE(q.get_override_count() == lost, "override count %zu, %zu items lost", q.get_override_count(), lost);
    if (!may_override) REQUIRE(lost == 0, "%zu items lost", lost);
    // FIFO: an item whose enqueue ended before another's began is not dequeued after it
    for (size_t c = 0; c < nc; ++c) {
        std::vector<long> lastp(np, -1);
        for (long id : got[c]) {
            size_t p = size_t(id) / per;
            REQUIRE(long(size_t(id) % per) > lastp[p], "consumer %zu saw item %zu of producer %zu after %ld", c,
                    size_t(id) % per, p, lastp[p]);
            lastp[p] = long(size_t(id) % per);
        }
    }
    for (size_t i = 0; i < total; ++i) {
        if (rec[i].seen != 1) continue;
        for (size_t j = 0; j < total; ++j) {
            if (i == j || rec[j].seen != 1) continue;
            if (rec[i].e1 < rec[j].e0 && rec[j].d1 < rec[i].d0)
                pbt::fail("not FIFO: item %zu was enqueued before %zu and dequeued after it", i, j);
        }
    }
    if (total > cap && (np > 1 || nc > 1)) src.nontrivial();
    if (storm) src.label("signal storm");
    if (cap == 1) src.label("capacity 1");
    if (discarded) src.label("discarded");
    if (lost) src.label("overrode");
}

PBT_MAIN()
