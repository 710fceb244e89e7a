// Work monitor: counts every operation on the input iterators of one call, at several input lengths.
#pragma once
#include "harness.hpp"

namespace vf
{
    template<typename R, typename Tag, bool Prefix>
    std::uint64_t count_work(std::string const &in, bool &matched)
    {
        GuardIter<Tag> b, e;
        b.data = e.data = in.data();
        b.n = e.n = static_cast<std::ptrdiff_t>(in.size());
        e.i = b.n;
        auto const before = guard().events;
        if constexpr (Prefix) matched = R::match_prefix(b, e).matched();
        else matched = R::match(b, e).matched();
        return guard().events - before;
    }

    // Inputs head + unit*k + tail for k and 4k: linear work at most quadruples (plus a constant)
    template<typename R, typename Tag, bool Prefix>
    void linear(int id, char const *pattern, std::size_t len, unsigned flags, char const *what, std::string const &head, std::string const &unit, std::string const &tail, std::size_t k)
    {
        ref::Regex re{std::string_view(pattern, len), flags};
        re.max_steps = 40000000;
        std::uint64_t work[2] = {0, 0};
        for (int j = 0; j < 2; ++j)
        {
            std::string const in = head + rep(unit, j ? 4 * k : k) + tail;
            set_case(id, what, {pattern, len}, flags, in);
            guard().limit = guard().events + 2000ull * in.size() + 1000000;
            bool m = false;
            work[j] = count_work<R, Tag, Prefix>(in, m);
            guard().limit = ~std::uint64_t{0};
            ++ctx().evals;
            ++ctx().results;
            ++(m ? ctx().matched : ctx().nonmatched);
            auto want = Prefix ? re.prefix(in) : re.match(in);
            if (want.matched != m) violation(id, "reference", what, {pattern, len}, flags, in, show(want), m ? "match" : "no match");
        }
        note_outcome(id, what, tail, std::to_string(work[0] / 16));
        if (work[1] > 5 * work[0] + 400)
            violation(id, "linear-work", what, {pattern, len}, flags, head + unit + "..." + tail, "at most 5 times the iterator operations for 4 times the input", std::to_string(work[0]) + " then " + std::to_string(work[1]));
        else
            ctx().note_sample(std::string(what) + " " + quote({pattern, len}) + ": " + std::to_string(work[0]) + " operations on " + std::to_string(k) + " repetitions, " + std::to_string(work[1]) + " on " + std::to_string(4 * k));
    }
}
