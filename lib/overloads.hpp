// Monitor for the overload set: the same characters, handed over in every supported way.
#pragma once
#include "harness.hpp"
#include <array>
#include <memory_resource>
#include <ranges>
#include <span>
#include <sstream>

namespace vf
{
    // Owned results have lost their positions: verdict and texts are compared
    template<typename Result>
    void judge_owned(Judge const &j, char const *method, ref::Result const &e, Result const &res)
    {
        ++ctx().evals;
        ++ctx().results;
        std::string want = e.matched ? "match" : "no match", got = res.matched() ? "match" : "no match";
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            auto add = [&](std::size_t k, auto const &g) {
                auto const s = e.g[k];
                want += " " + quote(e.matched && !s.empty() ? std::string(j.input.substr(static_cast<std::size_t>(s.b), static_cast<std::size_t>(s.e - s.b))) : std::string());
                got += " " + quote(std::string(g.begin(), g.end()));
            };
            (add(I, res.template group<I>()), ...);
        }(std::make_index_sequence<Result::group_count>{});
        if (want != got)
        {
            std::string w = std::string(method) + " over " + j.kind;
            violation(j.id, "reference", w.c_str(), j.pattern, j.flags, j.input, want, got);
        }
    }

    template<typename Result, typename Begin>
    void judge_any(Judge const &j, char const *method, ref::Result const &e, Result const &res, Begin b, bool want_owner)
    {
        if (Result::is_view == want_owner)
        {
            std::string w = std::string(method) + " over " + j.kind;
            violation(j.id, "ownership", w.c_str(), j.pattern, j.flags, j.input, want_owner ? "a result that owns its text" : "a result that views the input", Result::is_view ? "view" : "owner");
            return;
        }
        if constexpr (Result::is_view) j.one(method, e, observe(res, b));
        else judge_owned(j, method, e, res);
    }

    // The three one-shot methods on an lvalue range
    template<typename R, unsigned M, typename Range>
    void overloads_lvalue(Judge &j, Expected const &e, Range &&x, char const *kind)
    {
        j.kind = kind;
        if constexpr (M & MATCH) { j.begin_case("match"); judge_any(j, "match", e.match, R::match(x), std::cbegin(x), false); }
        if constexpr (M & PREFIX) { j.begin_case("match_prefix"); judge_any(j, "match_prefix", e.prefix, R::match_prefix(x), std::cbegin(x), false); }
        if constexpr (M & SEARCH) { j.begin_case("search"); judge_any(j, "search", e.search, R::search(x), std::cbegin(x), false); }
        if constexpr (M & FIND_ALL)
        {
            j.begin_case("find_all");
            observe_range<NoExtra>(j, "find_all", e.all, R::find_all(x), std::cbegin(x));
            j.begin_case("searcher");
            observe_generator<NoExtra>(j, "searcher", e.all, R::searcher(x), std::cbegin(x));
        }
        if constexpr (M & TOKENIZE)
        {
            j.begin_case("tokenize");
            observe_range<NoExtra>(j, "tokenize", e.tokens, R::tokenize(x), std::cbegin(x));
            j.begin_case("tokenizer");
            observe_generator<NoExtra>(j, "tokenizer", e.tokens, R::tokenizer(x), std::cbegin(x));
        }
    }

    // Expiring owners: the input is gone (overwritten and freed) when the result is read
    template<typename R, unsigned M, typename Make>
    void overloads_rvalue(Judge &j, Expected const &e, Make make, char const *kind)
    {
        j.kind = kind;
        auto scrub = [](auto &x) { for (auto &c : const_cast<std::remove_const_t<std::remove_reference_t<decltype(x)>> &>(x)) c = '\x01'; };
        auto call = [&](char const *method, ref::Result const &want, auto f) {
            j.begin_case(method);
            auto x = std::make_unique<decltype(make())>(make());
            auto res = f(std::move(*x));
            scrub(*x);
            x.reset();
            judge_any(j, method, want, res, static_cast<char const *>(nullptr), true);
            j.begin_case(method);
            auto tmp = f(make());
            judge_any(j, method, want, tmp, static_cast<char const *>(nullptr), true);
        };
        if constexpr (M & MATCH) call("match", e.match, [](auto &&x) { return R::match(std::move(x)); });
        if constexpr (M & PREFIX) call("match_prefix", e.prefix, [](auto &&x) { return R::match_prefix(std::move(x)); });
        if constexpr (M & SEARCH) call("search", e.search, [](auto &&x) { return R::search(std::move(x)); });
    }

    template<typename R, unsigned M, bool Forward, unsigned Group>
    void run_overloads(Judge j, Expected const &e, std::string const &in)
    {
        if constexpr (Group == 0)
        {
            std::string s = in;
            std::string const cs = in;
            overloads_lvalue<R, M>(j, e, s, "string&");
            overloads_lvalue<R, M>(j, e, cs, "string const&");
            std::string_view sv = s;
            overloads_lvalue<R, M>(j, e, sv, "string_view");
            overloads_lvalue<R, (M & BASIC)>(j, e, std::as_const(sv), "string_view const&");
            overloads_rvalue<R, (M & BASIC)>(j, e, [&] { return std::string(in); }, "string&&");
            if (in.find('\0') == std::string::npos)
            {
                j.kind = "char const* (nul-terminated)";
                char const *p = cs.c_str();
                if constexpr (M & MATCH) { j.begin_case("match"); judge_any(j, "match", e.match, R::match(p), p, false); }
                if constexpr (M & PREFIX) { j.begin_case("match_prefix"); judge_any(j, "match_prefix", e.prefix, R::match_prefix(p), p, false); }
                if constexpr (M & SEARCH) { j.begin_case("search"); judge_any(j, "search", e.search, R::search(p), p, false); }
            }
            if (s != in || cs != in) violation(j.id, "input-unchanged", "overloads", j.pattern, j.flags, j.input, in, s);
        }
        if constexpr (Group == 1)
        {
            std::vector<char> v(in.begin(), in.end());
            std::deque<char> const d(in.begin(), in.end());
            overloads_lvalue<R, M>(j, e, v, "vector&");
            overloads_lvalue<R, (M & BASIC)>(j, e, d, "deque const&");
            std::span<char const> sp(v);
            overloads_lvalue<R, (M & BASIC)>(j, e, sp, "span");
            overloads_rvalue<R, (M & BASIC)>(j, e, [&] { return std::vector<char>(in.begin(), in.end()); }, "vector&&");
            if (in.size() == 3) { std::array<char, 3> a{in[0], in[1], in[2]}; overloads_lvalue<R, (M & BASIC)>(j, e, a, "array<3>"); }
            if (in.size() == 1) { std::array<char, 1> const a{in[0]}; overloads_lvalue<R, (M & BASIC)>(j, e, a, "array<1>"); }
            if (std::string(v.begin(), v.end()) != in) violation(j.id, "input-unchanged", "overloads", j.pattern, j.flags, j.input, in, std::string(v.begin(), v.end()));
        }
        if constexpr (Group == 2)
        {
            std::list<char> l(in.begin(), in.end());
            overloads_lvalue<R, M>(j, e, l, "list&");
            overloads_rvalue<R, (M & BASIC)>(j, e, [&] { return std::list<char>(in.begin(), in.end()); }, "list&&");
            if constexpr (Forward)
            {
                std::forward_list<char> const f(in.begin(), in.end());
                overloads_lvalue<R, M>(j, e, f, "forward_list const&");
                overloads_rvalue<R, (M & BASIC)>(j, e, [&] { return std::forward_list<char>(in.begin(), in.end()); }, "forward_list&&");
            }
        }
        if constexpr (Group == 4)
        {
            // Further ways to hand over the same characters
            std::deque<char> d(in.begin(), in.end());
            overloads_lvalue<R, M>(j, e, d, "deque&");
            overloads_rvalue<R, (M & BASIC)>(j, e, [&] { return std::deque<char>(in.begin(), in.end()); }, "deque&&");
            std::pmr::string ps(in.begin(), in.end());
            overloads_lvalue<R, (M & BASIC)>(j, e, ps, "pmr::string&");
            overloads_rvalue<R, (M & BASIC)>(j, e, [&] { return std::pmr::string(in.begin(), in.end()); }, "pmr::string&&");
            struct Text : std::vector<char> { using std::vector<char>::vector; };
            Text const own(in.begin(), in.end());
            overloads_lvalue<R, (M & BASIC)>(j, e, own, "user-defined range");
            overloads_rvalue<R, (M & BASIC)>(j, e, [&] { return Text(in.begin(), in.end()); }, "expiring user-defined range");
            // Views are not owners: an expiring view still refers to the text
            Exact x{in};
            char const *b = x.p.get();
            j.kind = "string_view&&";
            if constexpr (M & MATCH) { j.begin_case("match"); judge_any(j, "match", e.match, R::match(std::string_view(b, x.n)), b, false); }
            if constexpr (M & PREFIX) { j.begin_case("match_prefix"); judge_any(j, "match_prefix", e.prefix, R::match_prefix(std::string_view(b, x.n)), b, false); }
            if constexpr (M & SEARCH) { j.begin_case("search"); judge_any(j, "search", e.search, R::search(std::string_view(b, x.n)), b, false); }
            if constexpr (M & FIND_ALL) { j.begin_case("find_all"); observe_range<NoExtra>(j, "find_all", e.all, R::find_all(std::string_view(b, x.n)), b); observe_generator<NoExtra>(j, "searcher", e.all, R::searcher(std::string_view(b, x.n)), b); }
            if constexpr (M & TOKENIZE) { j.begin_case("tokenize"); observe_range<NoExtra>(j, "tokenize", e.tokens, R::tokenize(std::string_view(b, x.n)), b); observe_generator<NoExtra>(j, "tokenizer", e.tokens, R::tokenizer(std::string_view(b, x.n)), b); }
            // A regex object, its methods called through an instance
            R const re{};
            j.kind = "methods called on an instance";
            if constexpr (M & MATCH) { j.begin_case("match"); judge_any(j, "match", e.match, re.match(in), std::cbegin(in), false); }
            if constexpr (M & SEARCH) { j.begin_case("search"); judge_any(j, "search", e.search, re.search(b, b + x.n), b, false); }
            auto sized = [&]<std::size_t N>(std::integral_constant<std::size_t, N>) {
                if (in.size() != N) return;
                std::array<char, N> a;
                std::copy(in.begin(), in.end(), a.begin());
                overloads_lvalue<R, (M & BASIC)>(j, e, a, "array&");
                overloads_lvalue<R, (M & BASIC)>(j, e, std::as_const(a), "array const&");
                std::span<char const, N> sp(a);
                overloads_lvalue<R, (M & MATCH)>(j, e, sp, "fixed-size span");
            };
            sized(std::integral_constant<std::size_t, 2>{});
            sized(std::integral_constant<std::size_t, 5>{});
        }
        if constexpr (Group == 3)
        {
            // Mutable iterators
            std::string s = in;
            std::list<char> l(in.begin(), in.end());
            j.kind = "string::iterator";
            run_methods<R, M, NoExtra>(j, e, s.begin(), s.end());
            j.kind = "list::iterator";
            run_methods<R, (M & BASIC), NoExtra>(j, e, l.begin(), l.end());
            j.kind = "char*";
            run_methods<R, (M & BASIC), NoExtra>(j, e, s.data(), s.data() + s.size());
            // Iterators of views: by-value references (legacy input iterators), filtered and joined pieces
            auto tv = s | std::views::transform([](char c) { return c; });
            j.kind = "transform_view iterator";
            run_methods<R, M, NoExtra>(j, e, tv.begin(), tv.end());
            overloads_lvalue<R, (M & BASIC)>(j, e, tv, "transform_view");
            std::string padded;
            for (char c : in) { padded += '\xfe'; padded += c; }
            if (in.find('\xfe') == std::string::npos)
            {
                auto fv = padded | std::views::filter([](char c) { return c != '\xfe'; });
                j.kind = "filter_view iterator";
                run_methods<R, (M & BASIC), NoExtra>(j, e, fv.begin(), fv.end());
            }
            std::vector<std::string> pieces{"", in.substr(0, in.size() / 3), "", in.substr(in.size() / 3), ""};
            auto jv = pieces | std::views::join;
            j.kind = "join_view iterator";
            run_methods<R, (M & BASIC), NoExtra>(j, e, jv.begin(), jv.end());
            if (s != in || !std::equal(l.begin(), l.end(), in.begin(), in.end())) violation(j.id, "input-unchanged", "mutable iterators", j.pattern, j.flags, j.input, in, s);
        }
    }
}
