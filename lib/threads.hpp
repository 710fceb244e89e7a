// Concurrent clients over a shared world, and call sequences that reuse buffers whose content changes.
#pragma once
#include "history.hpp"
#include <barrier>
#include <chrono>

namespace vf
{
    // Threads share regexes, inputs and prototypes; each keeps its own log, judged after they joined
    inline void run_threads(HistWorld const &w, unsigned threads, int ops, std::uint32_t seed)
    {
        std::vector<std::unique_ptr<HistClient>> clients;
        for (unsigned t = 0; t < threads; ++t) clients.push_back(std::make_unique<HistClient>(w, seed + t * 7919u));
        set_case(-1, "threads", "", 0, "");
        std::barrier gate(static_cast<std::ptrdiff_t>(threads));
        std::atomic<std::uint64_t> turn{0}, switches{0};
        std::vector<std::thread> pool;
        for (unsigned t = 0; t < threads; ++t)
            pool.emplace_back([&, t] {
                std::mt19937 jitter{seed * 31u + t};
                std::uint64_t last = t, mine = 0;
                gate.arrive_and_wait();
                for (int k = 0; k < ops && clients[t]->log.failures.size() < 5; ++k)
                {
                    if (k % 64 == 0) still_alive();
                    clients[t]->step();
                    // Relaxed counter: orders nothing, only counts how often threads alternate
                    auto const before = turn.exchange(t, std::memory_order_relaxed);
                    if (before != last && before != t) ++mine;
                    last = t;
                    if (jitter() % 97 == 0) std::this_thread::yield();
                    if (jitter() % 4001 == 0) std::this_thread::sleep_for(std::chrono::microseconds(jitter() % 200));
                }
                switches += mine;
            });
        for (auto &p : pool) p.join();
        for (auto &c : clients) absorb(w, c->log);
        ctx().guard_events += switches.load();
        guard().events += switches.load();
    }

    // One buffer, its content replaced between calls: nothing may be remembered by address, size or call site
    template<typename R>
    struct Reuse
    {
        static void run(int id, char const *pattern, std::size_t len, unsigned flags, int rounds)
        {
            std::string_view const p{pattern, len};
            ref::Regex re{p, flags};
            std::mt19937 rng{static_cast<std::uint32_t>(ctx().seed * 313 + static_cast<unsigned>(id))};
            auto ins = make_inputs(re, p, rng, 160);
            std::vector<char> buf(64);
            struct Memo { std::string in; Expected e; };
            std::vector<Memo> memo;
            for (auto &s : ins)
            {
                if (s.size() > 60) continue;
                auto e = expect(re, s, ALL_METHODS);
                if (e.ok) memo.push_back({s, e});
            }
            if (memo.empty()) return;
            ++ctx().patterns;
            for (int k = 0; k < rounds; ++k)
            {
                auto const &m = memo[rng() % memo.size()];
                std::size_t const off = rng() % 3;
                // Leave the rest of the previous content in place
                std::copy(m.in.begin(), m.in.end(), buf.begin() + static_cast<std::ptrdiff_t>(off));
                char const *b = buf.data() + off, *e = b + m.in.size();
                Judge j{id, p, flags, m.in, "char const* (reused buffer)"};
                switch (rng() % 6)
                {
                    case 0: j.begin_case("match"); j.one("match", m.e.match, observe(R::match(b, e), b)); break;
                    case 1: j.begin_case("match_prefix"); j.one("match_prefix", m.e.prefix, observe(R::match_prefix(b, e), b)); break;
                    case 2: j.begin_case("search"); j.one("search", m.e.search, observe(R::search(b, e), b)); break;
                    case 3: j.begin_case("searcher"); observe_generator<NoExtra>(j, "searcher", m.e.all, R::searcher(b, e), b); break;
                    case 4: j.begin_case("tokenize"); observe_range<NoExtra>(j, "tokenize", m.e.tokens, R::tokenize(b, e), b); break;
                    default:
                    {
                        // Twice in a row, same answer
                        j.begin_case("search");
                        auto const x = observe(R::search(b, e), b), y = observe(R::search(b, e), b);
                        j.one("search", m.e.search, x);
                        j.one("search again", m.e.search, y);
                    }
                }
            }
        }
    };
}
