// Monitor for C11: lazy ranges consumed through the standard library's algorithms and views.
#pragma once
#include "harness.hpp"
#include <algorithm>
#include <ranges>

namespace vf
{
    template<typename R, unsigned M, typename Container, std::size_t Last>
    void run_views(Judge j, Expected const &e, std::string const &in)
    {
        Container const x(in.begin(), in.end());
        auto const b = x.begin(), en = x.end();
        auto text = [&](ref::Result const &r, std::size_t k) {
            auto const s = r.g[k];
            return r.matched && !s.empty() ? in.substr(static_cast<std::size_t>(s.b), static_cast<std::size_t>(s.e - s.b)) : std::string();
        };
        auto go = [&](char const *method, std::vector<ref::Result> const &want, auto make) {
            using Range = decltype(make());
            static_assert(std::ranges::input_range<Range> && std::input_iterator<std::ranges::iterator_t<Range>>);
            static_assert(std::sentinel_for<std::ranges::sentinel_t<Range>, std::ranges::iterator_t<Range>>);
            static_assert(std::indirectly_readable<std::ranges::iterator_t<Range>> && std::weakly_incrementable<std::ranges::iterator_t<Range>>);
            auto told = [&](char const *how, std::vector<std::string> const &got, std::size_t count, std::size_t group, std::size_t skip = 0) {
                std::string w, g;
                for (std::size_t k = skip; k < want.size() && k < count; ++k) w += quote(text(want[k], group)) + " ";
                for (auto const &s : got) g += quote(s) + " ";
                ++ctx().evals;
                ctx().results += got.size();
                if (w != g)
                {
                    std::string what = std::string(method) + " over " + j.kind + ": " + how;
                    violation(j.id, "views", what.c_str(), j.pattern, j.flags, j.input, w, g);
                }
            };
            std::size_t const all = want.size() + 3;
            j.begin_case(method);
            auto keep = [&](std::vector<std::string> &v) { return [&v, all](auto const &c) { if (v.size() < all) v.push_back(text_of(c)); }; };
            { std::vector<std::string> v; auto r = make(); std::ranges::for_each(r, keep(v), meta::get_group<0>); told("for_each with get_group<0>", v, all, 0); }
            { std::vector<std::string> v; auto r = make(); std::ranges::for_each(r.begin(), r.end(), keep(v), meta::get_group<Last>); told("for_each with get_group of the last group", v, all, Last); }
            { std::vector<std::string> v; auto r = make(); for (auto &&c : r | std::views::transform(meta::get_group<Last>)) keep(v)(c); told("views::transform", v, all, Last); }
            { std::vector<std::string> v; auto r = make(); for (auto &&m : r | std::views::take(2)) keep(v)(m.template group<0>()); told("views::take(2)", v, 2, 0); }
            { std::vector<std::string> v; auto r = make(); for (auto &&m : r | std::views::drop(1)) keep(v)(m.template group<0>()); told("views::drop(1)", v, all, 0, 1); }
            { std::vector<std::string> v; auto r = make(); for (auto &&m : r | std::views::filter([](auto const &m) { return m.matched(); })) keep(v)(m.template group<0>()); told("views::filter", v, all, 0); }
            { std::vector<std::string> v; auto r = make(); for (auto &&c : std::ranges::subrange(r.begin(), r.end())) keep(v)(c.template group<0>()); told("subrange", v, all, 0); }
            { std::vector<std::string> v; auto r = make(); for (auto it = r.begin(); it; ++it) keep(v)(it->template group<0>()); told("iterator as a condition", v, all, 0); }
            { std::vector<std::string> v; auto r = make(); for (auto it = r.begin(); it != r.end(); it++) keep(v)((*it).template group<0>()); told("post-increment", v, all, 0); }
            { std::vector<std::string> v; auto r = make(); while (r.active()) { keep(v)(r.current_result().template group<0>()); r.compute_next(); } told("active/current_result/compute_next", v, all, 0); }
            { auto r = make(); auto const n = std::ranges::distance(r); ++ctx().evals; if (n != static_cast<std::ptrdiff_t>(want.size())) { std::string what = std::string(method) + " over " + j.kind + ": ranges::distance"; violation(j.id, "views", what.c_str(), j.pattern, j.flags, j.input, std::to_string(want.size()), std::to_string(n)); } }
            {
                // Leaving and entering the loop again continues with the current element
                std::vector<std::string> v;
                auto r = make();
                for (auto &&m : r) { keep(v)(m.template group<0>()); break; }
                for (auto &&m : r) keep(v)(m.template group<0>());
                if (!want.empty() && !v.empty()) v.erase(v.begin());
                told("two loops over one range", v, all, 0);
            }
            {
                // The collected results stay what they were
                std::vector<std::string> v;
                auto r = make();
                std::vector<std::ranges::range_value_t<Range>> kept;
                std::ranges::copy(r, std::back_inserter(kept));
                for (auto const &m : kept) keep(v)(m.template group<Last>());
                told("ranges::copy", v, all, Last);
            }
            if (!want.empty()) { std::string o; for (auto const &w : want) o += quote(text(w, 0)); note_outcome(j.id, method, j.input, o); }
        };
        if constexpr (M & FIND_ALL) go("find_all", e.all, [&] { return R::find_all(b, en); });
        if constexpr (M & TOKENIZE) go("tokenize", e.tokens, [&] { return R::tokenize(b, en); });
    }
}
