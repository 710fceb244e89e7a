// History monitor: random sequences of operations on live generators, lazy ranges and one-shot calls,
// every returned result compared with a sequential model (position in the expected sequence).
#pragma once
#include "harness.hpp"
#include <atomic>
#include <functional>
#include <mutex>
#include <thread>
#include <unordered_set>

namespace vf
{
    struct HistInput
    {
        std::string text;
        std::list<char> list;
        std::forward_list<char> fwd;
        explicit HistInput(std::string s) : text(std::move(s)), list(text.begin(), text.end()), fwd(text.begin(), text.end()) {}
    };

    struct Stepper
    {
        virtual ~Stepper() = default;
        virtual std::unique_ptr<Stepper> clone() const = 0;
        virtual std::unique_ptr<Stepper> take() = 0;                     // moves the object out
        virtual void assign(Stepper const &other) = 0;                   // copy assignment from the same type
        virtual bool next(std::mt19937 &rng, Obs &o, std::string &err) = 0;  // false: a range is at its end
        bool range = false;
    };

    template<typename Gen, typename Iter>
    struct GenStepper final : Stepper
    {
        Gen gen;
        Iter b;
        GenStepper(Gen g, Iter begin) : gen(std::move(g)), b(begin) {}
        std::unique_ptr<Stepper> clone() const override { return std::make_unique<GenStepper>(*this); }
        std::unique_ptr<Stepper> take() override { return std::make_unique<GenStepper>(std::move(gen), b); }
        void assign(Stepper const &o) override { gen = static_cast<GenStepper const &>(o).gen; b = static_cast<GenStepper const &>(o).b; }
        bool next(std::mt19937 &rng, Obs &o, std::string &err) override
        {
            bool const before = gen.active();
            if (rng() & 1) { auto r = gen(); o = observe(r, b); }
            else { auto r = gen.next(); o = observe(r, b); }
            if (o.matched && !before) err = "a generator that reported to be inactive returned a match";
            if (!o.matched && gen.active()) err = "a generator is still active after a failed result";
            return true;
        }
    };

    template<typename Range, typename Iter>
    struct RangeStepper final : Stepper
    {
        Range r;
        Iter b;
        bool started = false;
        RangeStepper(Range g, Iter begin) : r(std::move(g)), b(begin) { range = true; }
        RangeStepper(Range g, Iter begin, bool s) : r(std::move(g)), b(begin), started(s) { range = true; }
        std::unique_ptr<Stepper> clone() const override { return std::make_unique<RangeStepper>(*this); }
        std::unique_ptr<Stepper> take() override { return std::make_unique<RangeStepper>(std::move(r), b, started); }
        void assign(Stepper const &o) override { auto const &x = static_cast<RangeStepper const &>(o); r = x.r; b = x.b; started = x.started; }
        bool next(std::mt19937 &rng, Obs &o, std::string &err) override
        {
            auto it = r.begin();
            if (started)
            {
                if (it == r.end()) return false;
                if (rng() & 1) ++it; else it++;
            }
            started = true;
            bool const more = it != r.end();
            if (static_cast<bool>(it) != more || r.active() != more) err = "range iterator, sentinel and active() disagree";
            if (!more) return false;
            switch (rng() % 4)
            {
                case 0: o = observe(*it, b); break;
                case 1: { auto &res = *it; o.matched = it->matched(); o = observe(res, b); break; }
                case 2: o = observe(r.current_result(), b); break;
                case 3: o = observe(*r.begin(), b); break;
            }
            return true;
        }
    };

    // One regex over one iterator kind
    struct HistPattern
    {
        std::string pattern;
        unsigned flags;
        std::unique_ptr<ref::Regex> re;
        char const *kind;
        std::function<Obs(unsigned, HistInput const &)> oneshot;
        std::function<std::unique_ptr<Stepper>(unsigned, HistInput const &)> make;
    };

    template<typename R, Kind K>
    auto hist_ends(HistInput const &in)
    {
        if constexpr (K == PTR) return std::pair<char const *, char const *>(in.text.data(), in.text.data() + in.text.size());
        else if constexpr (K == LIST) return std::pair(in.list.cbegin(), in.list.cend());
        else return std::pair(in.fwd.cbegin(), in.fwd.cend());
    }

    template<typename R, Kind K>
    HistPattern hist_pattern(char const *p, std::size_t n, unsigned flags)
    {
        HistPattern h;
        h.pattern.assign(p, n);
        h.flags = flags;
        h.re = std::make_unique<ref::Regex>(h.pattern, flags);
        h.kind = K == PTR ? "char const*" : K == LIST ? "list" : "forward_list";
        h.oneshot = [](unsigned m, HistInput const &in) {
            auto [b, e] = hist_ends<R, K>(in);
            if (m == MATCH) return observe(R::match(b, e), b);
            if (m == PREFIX) return observe(R::match_prefix(b, e), b);
            return observe(R::search(b, e), b);
        };
        h.make = [](unsigned m, HistInput const &in) -> std::unique_ptr<Stepper> {
            auto [b, e] = hist_ends<R, K>(in);
            using It = decltype(b);
            switch (m)
            {
                case 0: { auto g = R::searcher(b, e); return std::make_unique<GenStepper<decltype(g), It>>(g, b); }
                case 1: { auto g = R::tokenizer(b, e); return std::make_unique<GenStepper<decltype(g), It>>(g, b); }
                case 2: { auto g = R::find_all(b, e); return std::make_unique<RangeStepper<decltype(g), It>>(std::move(g), b); }
                default: { auto g = R::tokenize(b, e); return std::make_unique<RangeStepper<decltype(g), It>>(std::move(g), b); }
            }
        };
        return h;
    }

    struct HistFailure { std::size_t pattern; std::string what, input, expected, observed; };

    struct HistLog
    {
        std::vector<HistFailure> failures;
        std::uint64_t ops = 0, results = 0, copies = 0, past_end = 0, oneshots = 0, max_live = 0;
        std::unordered_set<std::uint64_t> seen;   // distinct (pattern, input, operation, position in its sequence)
    };

    // All patterns x inputs with their expected outcomes, shared read-only by all clients
    struct HistWorld
    {
        std::vector<HistPattern> patterns;
        struct Job { std::size_t pattern; HistInput const *in; Expected e; std::vector<std::unique_ptr<Stepper>> protos; };
        std::deque<HistInput> inputs;
        std::vector<Job> jobs;

        void prepare(std::size_t per_pattern)
        {
            std::mt19937 rng{static_cast<std::uint32_t>(ctx().seed * 77 + 5)};
            std::vector<std::string> common{"", "a", "ab", "aab\nba", "abcabc a,b", "aaaa", "b,,a"};
            std::vector<HistInput const *> shared;
            for (auto &s : common) shared.push_back(&inputs.emplace_back(s));
            for (std::size_t k = 0; k < patterns.size(); ++k)
            {
                auto &p = patterns[k];
                std::vector<HistInput const *> ins = shared;
                auto more = make_inputs(*p.re, p.pattern, rng, per_pattern * 8);
                std::shuffle(more.begin(), more.end(), rng);
                std::stable_sort(more.begin(), more.end(), [](auto const &a, auto const &b) { return a.size() / 8 > b.size() / 8; });
                // At most two of the long ones
                auto const mid = std::find_if(more.begin(), more.end(), [](auto const &a) { return a.size() <= 60; });
                if (mid - more.begin() > 2) more.erase(more.begin() + 2, mid);
                for (std::size_t j = 0; j < more.size() && j < per_pattern; ++j) ins.push_back(&inputs.emplace_back(more[j]));
                for (auto *in : ins)
                {
                    Job j{k, in, expect(*p.re, in->text, ALL_METHODS), {}};
                    if (!j.e.ok) continue;
                    for (unsigned m = 0; m < 4; ++m) j.protos.push_back(p.make(m, *in));
                    jobs.push_back(std::move(j));
                    ++ctx().patterns;
                }
            }
        }
    };

    struct HistClient
    {
        HistWorld const &w;
        std::mt19937 rng;
        HistLog log;

        struct Live { std::size_t job; unsigned method; std::size_t k; std::unique_ptr<Stepper> s; int ended = 0; };
        std::vector<Live> live;

        HistClient(HistWorld const &world, std::uint32_t seed) : w(world), rng(seed) {}

        std::vector<ref::Result> const &expected(Live const &l) const { return l.method % 2 == 0 ? w.jobs[l.job].e.all : w.jobs[l.job].e.tokens; }

        void fail(std::size_t job, std::string what, std::string expected, std::string observed)
        {
            if (log.failures.size() < 20)
            {
                auto const &j = w.jobs[job];
                log.failures.push_back({j.pattern, std::move(what) + " over " + w.patterns[j.pattern].kind, j.in->text, std::move(expected), std::move(observed)});
            }
        }

        static char const *name(unsigned m) { static char const *n[] = {"searcher", "tokenizer", "find_all", "tokenize"}; return n[m]; }

        void advance(std::size_t i)
        {
            Live &l = live[i];
            auto const &e = expected(l);
            Obs o;
            std::string err;
            bool const got = l.s->next(rng, o, err);
            ++log.results;
            log.seen.insert((l.job * 8 + l.method) * 4096 + std::min<std::size_t>(l.k, 4095));
            std::string const what = std::string("result ") + std::to_string(l.k + 1) + " of an interleaved " + name(l.method);
            if (!err.empty()) fail(l.job, what, "consistent state", err);
            if (l.s->range)
            {
                bool const want = l.k < e.size();
                if (got != want) fail(l.job, what, want ? show(e[l.k]) : "end of the range", got ? show(o) : "end of the range");
                else if (got && !same(e[l.k], o)) fail(l.job, what, show(e[l.k]), show(o));
                if (!got) ++l.ended; else ++l.k;
            }
            else if (l.k < e.size())
            {
                if (!same(e[l.k], o)) fail(l.job, what, show(e[l.k]), show(o));
                ++l.k;
            }
            else
            {
                ++log.past_end;
                ++l.ended;
                if (!is_blank(o)) fail(l.job, what + " (past the end)", "failed result with empty groups", show(o));
            }
        }

        void step()
        {
            ++log.ops;
            auto pick = [&](std::size_t n) { return static_cast<std::size_t>(rng() % n); };
            switch (live.empty() ? 0 : rng() % 16)
            {
                case 0: case 1:
                {
                    auto j = pick(w.jobs.size());
                    auto m = static_cast<unsigned>(pick(4));
                    auto const &job = w.jobs[j];
                    // From scratch, or from a prototype other clients copy too
                    auto s = rng() & 1 ? w.patterns[job.pattern].make(m, *job.in) : job.protos[m]->clone();
                    live.push_back({j, m, 0, std::move(s)});
                    break;
                }
                case 2:
                {
                    Live &l = live[pick(live.size())];
                    Live c{l.job, l.method, l.k, l.s->clone(), l.ended};
                    live.push_back(std::move(c));
                    ++log.copies;
                    break;
                }
                case 3: { Live &l = live[pick(live.size())]; l.s = l.s->take(); ++log.copies; break; }
                case 4:
                {
                    // Copy assignment between two objects of the same type
                    auto a = pick(live.size());
                    for (std::size_t b = 0; b < live.size(); ++b)
                        if (b != a && w.jobs[live[b].job].pattern == w.jobs[live[a].job].pattern && live[b].method == live[a].method)
                        {
                            live[a].s->assign(*live[b].s);
                            live[a].job = live[b].job; live[a].k = live[b].k; live[a].ended = live[b].ended;
                            ++log.copies;
                            break;
                        }
                    break;
                }
                case 5: case 6:
                {
                    auto j = pick(w.jobs.size());
                    auto const &job = w.jobs[j];
                    unsigned const m = 1u << pick(3);
                    Obs o = w.patterns[job.pattern].oneshot(m, *job.in);
                    auto const &e = m == MATCH ? job.e.match : m == PREFIX ? job.e.prefix : job.e.search;
                    ++log.oneshots;
                    log.seen.insert((j * 8 + 4 + (m >> 1)) * 4096);
                    ++log.results;
                    if (!same(e, o)) fail(j, m == MATCH ? "match between other calls" : m == PREFIX ? "match_prefix between other calls" : "search between other calls", show(e), show(o));
                    break;
                }
                default:
                {
                    auto i = pick(live.size());
                    advance(i);
                    if (live[i].ended > 3 || (live[i].ended && rng() % 3 == 0)) { std::swap(live[i], live.back()); live.pop_back(); }
                }
            }
            if (live.size() > 24) live.erase(live.begin() + static_cast<std::ptrdiff_t>(pick(live.size())));
            log.max_live = std::max<std::uint64_t>(log.max_live, live.size());
        }
    };

    // Adds what a client saw to the process statistics
    inline void absorb(HistWorld const &w, HistLog const &log)
    {
        auto &c = ctx();
        c.evals += log.ops;
        c.results += log.results;
        static std::unordered_set<std::uint64_t> all;
        for (auto x : log.seen) if (all.insert(x).second) ++c.nontrivial;
        for (auto const &f : log.failures)
            violation(-1, "history", f.what.c_str(), w.patterns[f.pattern].pattern, w.patterns[f.pattern].flags, f.input, f.expected, f.observed);
    }
}
