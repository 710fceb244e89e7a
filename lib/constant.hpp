// Monitor for constant evaluation: the same snapshot of all methods is taken in a constant expression and
// at run time; both are compared with the reference model.
#pragma once
#include "harness.hpp"
#include <array>
#include <optional>
#include <tuple>
#include <utility>

namespace vf
{
    // Forward and bidirectional iterators usable in constant expressions
    template<typename Tag>
    struct ConstIter
    {
        using iterator_category = Tag;
        using iterator_concept = Tag;
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = char const *;
        using reference = char const &;
        char const *p = nullptr;
        constexpr reference operator*() const { return *p; }
        constexpr ConstIter &operator++() { ++p; return *this; }
        constexpr ConstIter operator++(int) { auto t = *this; ++p; return t; }
        constexpr ConstIter &operator--() requires std::is_base_of_v<std::bidirectional_iterator_tag, Tag> { --p; return *this; }
        constexpr ConstIter operator--(int) requires std::is_base_of_v<std::bidirectional_iterator_tag, Tag> { auto t = *this; --p; return t; }
        constexpr bool operator==(ConstIter const &) const = default;
    };

    template<std::size_t G>
    struct Snap
    {
        bool matched = false;
        short b[G]{}, e[G]{};
    };

    template<std::size_t G>
    struct Snapshot
    {
        static constexpr std::size_t cap = 14;
        Snap<G> match{}, prefix{}, search{};
        std::size_t n_all = 0, n_range = 0, n_tokens = 0, n_tok_range = 0;
        Snap<G> all[cap]{}, range[cap]{}, tokens[cap]{}, tok_range[cap]{};
        bool overload_ok = true;
        char const *bad = nullptr;
    };

    template<std::size_t G, typename Result, typename Iter>
    constexpr Snap<G> snap(Result const &res, Iter begin, Iter end)
    {
        Snap<G> s;
        s.matched = static_cast<bool>(res) && res.matched() && res == true;
        auto pos = [&](Iter it) { short k = 0; for (Iter x = begin; x != it; ++x) { if (x == end) return static_cast<short>(-2); ++k; } return k; };
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            auto one = [&](std::size_t k, auto const &g) {
                bool const known = !g.is_empty() || (k == 0 && res.matched());
                s.b[k] = known ? pos(g.begin()) : static_cast<short>(-1);
                s.e[k] = known ? pos(g.end()) : static_cast<short>(-1);
                if (known && g.length() != static_cast<std::size_t>(s.e[k] - s.b[k])) s.e[k] = -3;
            };
            (one(I, res.template group<I>()), ...);
        }(std::make_index_sequence<G>{});
        return s;
    }

    template<std::size_t G>
    constexpr bool same(Snap<G> const &x, Snap<G> const &y)
    {
        if (x.matched != y.matched) return false;
        for (std::size_t k = 0; k < G; ++k)
            if (x.b[k] != y.b[k] || x.e[k] != y.e[k]) return false;
        return true;
    }

    template<typename Iter>
    struct ConstRange
    {
        Iter b, e;
        constexpr Iter begin() const { return b; }
        constexpr Iter end() const { return e; }
    };

    // All other ways to read one result; returns what does not agree, or nullptr
    template<std::size_t G, typename Result, typename Iter>
    constexpr char const *readers(Result res, Snap<G> const &want, Iter b, Iter e)
    {
        using T = Result;
        bool const m = want.matched;
        auto len = [&](std::size_t k) { return static_cast<std::size_t>(want.e[k] - want.b[k]); };
        if (res.matched() != m || static_cast<bool>(res) != m || !(res == m) || res == !m) return "truth value";
        if (res.length() != len(0)) return "length";
        {
            std::size_t k = 0;
            for (auto it = res.begin(); it != res.end(); ++it) ++k;
            if (k != len(0)) return "begin/end";
        }
        if (res.as_optional().has_value() != m || std::as_const(res).as_optional().has_value() != m || T(res).as_optional().has_value() != m || static_cast<T const &&>(res).as_optional().has_value() != m) return "as_optional";
        if (m && !same<G>(snap<G>(*res.as_optional(), b, e), want)) return "content of the optional";
        {
            std::size_t k = 0;
            bool ok = true;
            res.for_each_group([&](auto const &g) { ok = ok && g.length() == len(k) && g.is_empty() == (len(k) == 0) && static_cast<bool>(g) == (len(k) != 0); ++k; });
            std::as_const(res).for_each_group([&](auto const &g) { ok = ok && g.length() == len(k - G); ++k; });
            T(res).for_each_group([&](auto &&g) { ok = ok && g.length() == len(k - 2 * G); ++k; });
            if (!ok || k != 3 * G) return "for_each_group";
            auto tup = res.transform_groups([](auto const &g) { return g.length(); });
            k = 0;
            std::apply([&](auto... x) { ((ok = ok && x == len(k++)), ...); }, tup);
            if (!ok || k != G) return "transform_groups";
        }
        bool ok = true;
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            auto one = [&]<std::size_t K>(std::integral_constant<std::size_t, K>) {
                ok = ok && res.template get<K>().length() == len(K) && std::as_const(res).template get<K>().length() == len(K) && meta::get_group<K>(res).length() == len(K) && meta::get_group<K>(T(res)).length() == len(K);
                ok = ok && std::as_const(res).template group<K>().length() == len(K) && T(res).template group<K>().length() == len(K);
                ok = ok && std::tuple_element_t<K, T>::has_name() == !res.template group<K>().name().empty();
                if constexpr (std::random_access_iterator<Iter>)
                    for (std::size_t i = 0; i < len(K) && i < 4; ++i)
                        ok = ok && res.template group<K>()[i] == b[want.b[K] + static_cast<std::ptrdiff_t>(i)] && std::as_const(res).template group<K>()[i] == b[want.b[K] + static_cast<std::ptrdiff_t>(i)];
                if constexpr (std::contiguous_iterator<Iter>)
                {
                    if (len(K)) ok = ok && res.template group<K>().content() == std::string_view(b + want.b[K], len(K)) && std::string_view(res.template group<K>()) == res.template group<K>().content();
                    else ok = ok && res.template group<K>().content().empty();
                }
            };
            (one(std::integral_constant<std::size_t, I>{}), ...);
        }(std::make_index_sequence<G>{});
        if (!ok) return "groups";
        T copy = res, moved = std::move(copy), other{};
        if (other.matched() || other.length() != 0) return "default-constructed result";
        other = std::move(moved);
        if (!same<G>(snap<G>(other, b, e), want)) return "copied and moved result";
        return nullptr;
    }

    // The iterating operations in every spelling; returns what does not agree, or nullptr
    template<std::size_t G, typename Make, typename Iter>
    constexpr char const *iterating(Make make, Snap<G> const *want, std::size_t n, std::size_t cap, Iter b, Iter e)
    {
        bool const whole = n < cap;
        {
            auto gen = make(std::false_type{});
            auto copy = gen;
            if (!gen.active()) return "active of a new generator";
            for (std::size_t k = 0; k < n; ++k)
            {
                auto r = k % 2 ? gen() : gen.next();
                if (!same<G>(snap<G>(r, b, e), want[k])) return "next";
                if (k == 0) if (auto bad = readers<G>(r, want[k], b, e)) return bad;
            }
            if (whole)
                for (int k = 0; k < 3; ++k)
                {
                    auto r = gen.next();
                    if (auto bad = readers<G>(r, snap<G>(decltype(r){}, b, e), b, e); bad || r) return "a result after the last one";
                    if (gen.active()) return "active after the last result";
                }
            auto first = copy.next();
            if (first.matched() != (n != 0)) return "copied generator";
        }
        {
            auto range = make(std::true_type{});
            auto it = range.begin();
            std::size_t k = 0;
            for (; k < n; ++k)
            {
                if (!range.active() || !it || it == std::default_sentinel || it == range.end()) return "range ends early";
                if (!same<G>(snap<G>(*it, b, e), want[k]) || !same<G>(snap<G>(range.current_result(), b, e), want[k]) || it->length() != (*it).length() || !it->matched()) return "range iterator";
                if (!same<G>(snap<G>(std::as_const(range).current_result(), b, e), want[k])) return "current_result";
                if (k % 3 == 0) it++; else if (k % 3 == 1) ++it; else range.compute_next();
            }
            if (whole && (range.active() || it || it != range.end())) return "range goes on";
        }
        return nullptr;
    }

    template<typename R, typename Iter>
    constexpr auto snapshot(Iter b, Iter e)
    {
        constexpr std::size_t G = decltype(R::match(b, e))::group_count;
        Snapshot<G> s;
        s.match = snap<G>(R::match(b, e), b, e);
        s.prefix = snap<G>(R::match_prefix(b, e), b, e);
        s.search = snap<G>(R::search(b, e), b, e);
        auto searcher = R::searcher(b, e);
        while (s.n_all < s.cap) { auto r = searcher(); if (!r) break; s.all[s.n_all++] = snap<G>(r, b, e); }
        auto tokenizer = R::tokenizer(b, e);
        while (s.n_tokens < s.cap) { auto r = tokenizer(); if (!r) break; s.tokens[s.n_tokens++] = snap<G>(r, b, e); }
        for (auto &&r : R::find_all(b, e)) { if (s.n_range == s.cap) break; s.range[s.n_range++] = snap<G>(r, b, e); }
        for (auto &&r : R::tokenize(b, e)) { if (s.n_tok_range == s.cap) break; s.tok_range[s.n_tok_range++] = snap<G>(r, b, e); }
        auto check = [&](char const *x) { if (!s.bad) s.bad = x; };
        check(readers<G>(R::match(b, e), s.match, b, e));
        check(readers<G>(R::match_prefix(b, e), s.prefix, b, e));
        check(readers<G>(R::search(b, e), s.search, b, e));
        ConstRange<Iter> const in{b, e};
        if (!same<G>(snap<G>(R::match(in), b, e), s.match) || !same<G>(snap<G>(R::match_prefix(in), b, e), s.prefix) || !same<G>(snap<G>(R::search(in), b, e), s.search)) check("range overloads");
        check(iterating<G>([&]<typename L>(L) { if constexpr (L::value) return R::find_all(b, e); else return R::searcher(b, e); }, s.all, s.n_all, s.cap, b, e));
        check(iterating<G>([&]<typename L>(L) { if constexpr (L::value) return R::tokenize(in); else return R::tokenizer(in); }, s.tokens, s.n_tokens, s.cap, b, e));
        if constexpr (std::is_same_v<Iter, char const *>)
        {
            std::string_view const v{b, e};
            check(iterating<G>([&]<typename L>(L) { if constexpr (L::value) return R::tokenize(v); else return R::tokenizer(v); }, s.tokens, s.n_tokens, s.cap, b, e));
            check(iterating<G>([&]<typename L>(L) { if constexpr (L::value) return R::find_all(v); else return R::searcher(v); }, s.all, s.n_all, s.cap, b, e));
        }
        else
            check(iterating<G>([&]<typename L>(L) { if constexpr (L::value) return R::find_all(in); else return R::searcher(in); }, s.all, s.n_all, s.cap, b, e));
        if constexpr (std::is_same_v<Iter, char const *>)
        {
            // The string overloads and text accessors
            std::string_view const v{b, e};
            auto agree = [&](auto const &x, Snap<G> const &y) {
                if (x.matched() != y.matched) return false;
                if (!x.matched()) return x.length() == 0;
                auto const text = std::string_view(x);
                return text == v.substr(static_cast<std::size_t>(y.b[0]), static_cast<std::size_t>(y.e[0] - y.b[0])) && x.template group<0>().content() == text && x.length() == text.size();
            };
            s.overload_ok = agree(R::match(v), s.match) && agree(R::match_prefix(v), s.prefix) && agree(R::search(v), s.search);
            s.overload_ok = s.overload_ok && R::search(v).as_optional().has_value() == s.search.matched;
        }
        return s;
    }

    template<typename R, typename Iter, std::size_t N>
    constexpr auto snapshots(std::array<std::string_view, N> const &in)
    {
        auto at = [](char const *p) { if constexpr (std::is_pointer_v<Iter>) return p; else return Iter{p}; };
        using S = decltype(snapshot<R, Iter>(at(nullptr), at(nullptr)));
        std::array<S, N> out{};
        for (std::size_t k = 0; k < N; ++k) out[k] = snapshot<R, Iter>(at(in[k].data()), at(in[k].data() + in[k].size()));
        return out;
    }

    template<std::size_t G>
    Obs obs(Snap<G> const &s)
    {
        Obs o;
        o.matched = s.matched;
        for (std::size_t k = 0; k < G; ++k)
        {
            bool const known = s.b[k] != -1;
            add_group(o, known, known ? s.b[k] : 0, known ? static_cast<std::size_t>(s.e[k] - s.b[k]) : 0);
        }
        return o;
    }

    template<std::size_t G>
    void judge_snapshot(Judge const &j, Expected const &e, Snapshot<G> const &s)
    {
        j.one("match", e.match, obs(s.match));
        j.one("match_prefix", e.prefix, obs(s.prefix));
        j.one("search", e.search, obs(s.search));
        auto many = [&](char const *m, std::vector<ref::Result> want, Snap<G> const *p, std::size_t n) {
            std::vector<Obs> v;
            for (std::size_t k = 0; k < n; ++k) v.push_back(obs(p[k]));
            if (want.size() > s.cap) want.resize(s.cap);
            j.many(m, want, v, true);
        };
        many("searcher", e.all, s.all, s.n_all);
        many("find_all", e.all, s.range, s.n_range);
        many("tokenizer", e.tokens, s.tokens, s.n_tokens);
        many("tokenize", e.tokens, s.tok_range, s.n_tok_range);
        if (s.bad) violation(j.id, "readers", j.kind, j.pattern, j.flags, j.input, "all ways of calling and reading agree", s.bad);
        if (!s.overload_ok) violation(j.id, "overloads", j.kind, j.pattern, j.flags, j.input, "string overloads agree with iterator pairs", "they differ");
    }

    // Table: constexpr results; In: the inputs they were computed for
    template<typename R, typename Iter, auto const &In, auto const &Table>
    void run_constant(Judge j, Expected const &e, std::string const &in)
    {
        auto at = [](char const *p) { if constexpr (std::is_pointer_v<Iter>) return p; else return Iter{p}; };
        j.kind = std::is_pointer_v<Iter> ? "char const* at run time" : "constexpr-capable iterators at run time";
        j.begin_case("all methods");
        judge_snapshot(j, e, snapshot<R, Iter>(at(in.data()), at(in.data() + in.size())));
        j.kind = std::is_pointer_v<Iter> ? "char const* in a constant expression" : "iterators in a constant expression";
        for (std::size_t k = 0; k < In.size(); ++k)
            if (In[k] == in) judge_snapshot(j, e, Table[k]);
    }
}
