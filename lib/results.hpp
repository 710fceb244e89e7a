// Monitor for C17: every way of reading a result has to tell the same story as the reference model.
#pragma once
#include "api.hpp"
#include <array>
#include <functional>
#include <iterator>
#include <memory>
#include <optional>
#include <ranges>
#include <sstream>
#include <tuple>

// Code of a user whose namespace has stream operators of its own: results have to be found by their type
namespace elsewhere
{
    struct Own {};
    inline std::ostream &operator<<(std::ostream &os, Own) { return os; }
    template<typename T>
    std::string printed(T const &t)
    {
        std::ostringstream os;
        os << Own{} << t;
        return os.str();
    }
    template<typename T>
    std::string copied(T const &t)
    {
        std::ostringstream os;
        std::ostream_iterator<T> it(os, ",");
        *it++ = t;
        return os.str();
    }
}

namespace vf
{
    struct Teller
    {
        Judge const &j;
        std::string method;
        mutable std::uint64_t reads = 0;

        void same(char const *what, std::string const &expected, std::string const &observed) const
        {
            ++reads;
            if (expected != observed)
            {
                std::string w = method + " over " + j.kind + ": " + what;
                violation(j.id, "result-api", w.c_str(), j.pattern, j.flags, j.input, expected, observed);
            }
        }
        void yes(char const *what, bool ok) const { same(what, "yes", ok ? "yes" : "no"); }
    };

    struct Story
    {
        bool matched;
        std::vector<std::string> text;    // per group
        std::vector<std::string> name;
        std::vector<bool> filled;
    };

    template<typename... Groups>
    Story story(ref::Result const &e, std::string_view in)
    {
        Story s;
        s.matched = e.matched;
        s.name.push_back("");
        (s.name.push_back(Groups::text()), ...);
        for (std::size_t k = 0; k < s.name.size(); ++k)
        {
            auto const g = k < e.g.size() ? e.g[k] : ref::Span{};
            bool const f = e.matched && !g.empty();
            s.filled.push_back(f);
            s.text.push_back(f ? std::string(in.substr(static_cast<std::size_t>(g.b), static_cast<std::size_t>(g.e - g.b))) : std::string());
        }
        return s;
    }

    template<meta::static_string Name, std::size_t ID>
    struct Named
    {
        static constexpr std::size_t id = ID;
        static constexpr bool named = Name.length() != 0;
        static constexpr auto name = Name;
        static std::string text() { return std::string(std::string_view(Name)); }
    };

    template<typename C>
    void tell_capture(Teller const &t, C &c, std::string const &text, std::string const &name)
    {
        using T = std::remove_const_t<C>;
        t.same("text", text, text_of(c));
        t.same("length", std::to_string(text.size()), std::to_string(c.length()));
        t.same("is_empty", yn(text.empty()), yn(c.is_empty()));
        t.same("bool", yn(!text.empty()), yn(static_cast<bool>(c)));
        t.same("content", text, std::string(std::string_view(c.content())));
        t.same("content of an expiring copy", text, std::string(std::string_view(T(c).content())));
        t.same("content of a const expiring copy", text, std::string(std::string_view(static_cast<T const &&>(T(c)).content())));
        t.same("content through const", text, std::string(std::string_view(std::as_const(c).content())));
        t.same("name", name, std::string(c.name()));
        t.same("has_name", yn(!name.empty()), yn(c.has_name()));
        std::ostringstream os;
        os << c;
        t.same("stream", text, os.str());
        t.same("stream from another namespace", text, elsewhere::printed(c));
        t.same("stream iterator", text + ",", elsewhere::copied(c));
        if constexpr (std::is_convertible_v<C, std::string_view>)
        {
            std::string_view v = c;
            t.same("string_view", text, std::string(v));
        }
        if constexpr (std::random_access_iterator<decltype(c.begin())>)
        {
            std::string s;
            for (std::size_t k = 0; k < text.size(); ++k) s += c[k];
            t.same("operator[]", text, s);
            s.clear();
            for (std::size_t k = 0; k < text.size(); ++k) s += std::as_const(c)[k];
            t.same("const operator[]", text, s);
        }
        std::string ranged;
        for (char ch : c) ranged += ch;
        t.same("range-for", text, ranged);
        static_assert(std::ranges::forward_range<C>);
    }

    // Everything but the positions
    template<typename... Groups, typename Result>
    void tell(Teller const &t, Result &res, Story const &s)
    {
        using T = std::remove_const_t<Result>;
        t.same("matched", yn(s.matched), yn(res.matched()));
        t.same("bool", yn(s.matched), yn(res ? true : false));
        t.yes("== bool", (res == s.matched) && !(res == !s.matched) && (s.matched == res) && (res != !s.matched));
        t.same("length", std::to_string(s.text[0].size()), std::to_string(res.length()));
        {
            std::string x;
            for (auto it = res.begin(); it != res.end(); ++it) x += *it;
            t.same("begin/end", s.text[0], x);
        }
        if constexpr (std::is_convertible_v<Result, std::string_view>) t.same("string_view", s.text[0], std::string(std::string_view(res)));
        std::ostringstream os;
        os << res;
        t.same("stream", s.text[0], os.str());
        t.same("stream from another namespace", s.text[0], elsewhere::printed(res));
        t.same("stream iterator", s.text[0] + ",", elsewhere::copied(res));

        t.same("number of groups", std::to_string(s.text.size()), std::to_string(T::group_count));
        t.same("tuple_size", std::to_string(s.text.size()), std::to_string(std::tuple_size_v<T>));
        if constexpr (T::group_count != sizeof...(Groups) + 1) return;
        else
        {
            // Visiting: each group once, in order
            auto visits = [&](auto &&r, char const *what) {
                std::string seen, want;
                std::forward<decltype(r)>(r).for_each_group([&](auto &&g) { seen += quote(text_of(g)) + ":" + std::string(g.name()) + " "; });
                for (std::size_t k = 0; k < s.text.size(); ++k) want += quote(s.text[k]) + ":" + s.name[k] + " ";
                t.same(what, want, seen);
            };
            visits(res, "for_each_group");
            visits(std::as_const(res), "for_each_group (const)");
            visits(T(res), "for_each_group (expiring)");
            visits(static_cast<T const &&>(T(res)), "for_each_group (const expiring)");
            {
                auto tup = res.transform_groups([](auto const &g) { return text_of(g) + ":" + std::string(g.name()); });
                std::apply([&](auto const &...x) {
                    std::size_t k = 0;
                    ((t.same("transform_groups", s.text[k] + ":" + s.name[k], x), ++k), ...);
                }, tup);
                static_assert(std::tuple_size_v<decltype(tup)> == T::group_count);
                std::size_t order = 0;
                auto nums = res.transform_groups([&](auto const &) { return order++; });
                std::apply([&](auto... x) { std::size_t k = 0; (t.yes("transform_groups order", x == k++), ...); }, nums);
                // Whatever the function returns is kept as it is, one element per group
                auto kept = [&](char const *what, auto func) {
                    auto tup = res.transform_groups([&](auto const &g) { return func(text_of(g)); });
                    using Tuple = decltype(tup);
                    using Element = decltype(func(std::string()));
                    t.same(what, std::to_string(T::group_count), std::to_string(std::tuple_size_v<Tuple>));
                    if constexpr (std::tuple_size_v<Tuple> == T::group_count)
                        std::apply([&](auto const &...x) {
                            std::size_t k = 0;
                            auto each = [&](auto const &y) {
                                if constexpr (std::is_same_v<std::remove_cvref_t<decltype(y)>, Element>) t.yes(what, y == func(s.text[k]));
                                else t.yes(what, false);
                                ++k;
                            };
                            (each(x), ...);
                        }, tup);
                };
                kept("transform_groups to pairs", [](std::string const &x) { return std::pair<std::string, std::size_t>(x, x.size()); });
                kept("transform_groups to tuples", [](std::string const &x) { return std::tuple<std::size_t, std::string, int>(x.size(), x, 7); });
                kept("transform_groups to tuples of one", [](std::string const &x) { return std::tuple<std::string>(x); });
                kept("transform_groups to optionals", [](std::string const &x) { return x.empty() ? std::optional<std::string>() : std::optional<std::string>(x); });
                kept("transform_groups to arrays", [](std::string const &x) { return std::array<std::size_t, 2>{x.size(), 1}; });
                kept("transform_groups to bool", [](std::string const &x) { return !x.empty(); });
                auto boxes = res.transform_groups([](auto const &g) { return std::make_unique<std::string>(text_of(g)); });
                std::apply([&](auto const &...x) { std::size_t k = 0; ((t.same("transform_groups to move-only values", s.text[k], *x), ++k), ...); }, boxes);
                auto groups = res.transform_groups([](auto const &g) -> auto const & { return g; });
                std::apply([&](auto const &...x) { std::size_t k = 0; ((t.same("transform_groups to the groups themselves", s.text[k], text_of(x)), ++k), ...); }, groups);
                // An exception of the visitor reaches the caller, at the group where it was thrown
                for (std::size_t stop = 0; stop < T::group_count; ++stop)
                {
                    std::size_t seen = 0, caught = 0;
                    try { res.for_each_group([&](auto const &) { if (seen++ == stop) throw stop; }); } catch (std::size_t k) { caught = k + 1; }
                    t.yes("for_each_group with a throwing visitor", seen == stop + 1 && caught == stop + 1);
                    seen = caught = 0;
                    try { (void)res.transform_groups([&](auto const &) { if (seen++ == stop) throw stop; return 0; }); } catch (std::size_t k) { caught = k + 1; }
                    t.yes("transform_groups with a throwing function", seen == stop + 1 && caught == stop + 1);
                }
            }
            auto by_number = [&]<std::size_t I>(std::integral_constant<std::size_t, I>) {
                tell_capture(t, res.template group<I>(), s.text[I], s.name[I]);
                t.same("group of a const result", s.text[I], text_of(std::as_const(res).template group<I>()));
                { T copy(res); auto g = std::move(copy).template group<I>(); t.same("group of an expiring result", s.text[I], text_of(g)); }
                { T const copy(res); auto g = std::move(copy).template group<I>(); t.same("group of a const expiring result", s.text[I], text_of(g)); }
                { auto g = meta::get_group<I>(T(res)); t.same("get_group of an expiring result", s.text[I], text_of(g)); }
                t.same("get_group", s.text[I], text_of(meta::get_group<I>(res)));
                t.same("get_group (const)", s.text[I], text_of(meta::get_group<I>(std::as_const(res))));
                t.same("get", s.text[I], text_of(res.template get<I>()));
                t.same("get (const)", s.text[I], text_of(std::as_const(res).template get<I>()));
                { T copy(res); auto g = std::move(copy).template get<I>(); t.same("get of an expiring result", s.text[I], text_of(g)); }
                { T const copy(res); auto g = std::move(copy).template get<I>(); t.same("get of a const expiring result", s.text[I], text_of(g)); }
                { T const copy(res); auto g = meta::get_group<I>(std::move(copy)); t.same("get_group of a const expiring result", s.text[I], text_of(g)); }
                { T copy(res); std::string g(std::string_view(std::move(copy).template group<I>().content())); t.same("content of a group of an expiring result", s.text[I], g); }
                { T const copy(res); std::string g(std::string_view(std::move(copy).template group<I>().content())); t.same("content of a group of a const expiring result", s.text[I], g); }
                t.same("name of the binding type", s.name[I], std::string(std::tuple_element_t<I, T>::name()));
            };
            [&]<std::size_t... I>(std::index_sequence<I...>) { (by_number(std::integral_constant<std::size_t, I>{}), ...); }(std::make_index_sequence<T::group_count>{});
            auto by_name = [&]<typename G>(std::type_identity<G>) {
                if constexpr (G::named)
                {
                    constexpr auto N = G::name;
                    t.same("group by name", s.text[G::id], text_of(res.template group<N>()));
                    t.same("name of a group found by name", s.name[G::id], std::string(res.template group<N>().name()));
                    t.same("group by name (const)", s.text[G::id], text_of(std::as_const(res).template group<N>()));
                    t.same("get_group_named", s.text[G::id], text_of(meta::get_group_named<N>(res)));
                    { T copy(res); auto g = std::move(copy).template group<N>(); t.same("group by name of an expiring result", s.text[G::id], text_of(g)); }
                    { auto g = meta::get_group_named<N>(T(res)); t.same("get_group_named of an expiring result", s.text[G::id], text_of(g)); }
                    t.same("get_group_named (const)", s.text[G::id], text_of(meta::get_group_named<N>(std::as_const(res))));
                    { T const copy(res); auto g = std::move(copy).template group<N>(); t.same("group by name of a const expiring result", s.text[G::id], text_of(g)); }
                }
            };
            (by_name(std::type_identity<Groups>{}), ...);
            // Structured bindings
            auto bind = [&](char const *what, auto const &...g) { std::size_t k = 0; ((t.same(what, s.text[k], text_of(g)), ++k), ...); };
            if constexpr (T::group_count == 1) { auto &[a] = res; bind("structured binding", a); auto [x] = res; bind("copied structured binding", x); }
            if constexpr (T::group_count == 2) { auto &[a, b] = res; bind("structured binding", a, b); auto [x, y] = res; bind("copied structured binding", x, y); }
            if constexpr (T::group_count == 3) { auto &[a, b, c] = res; bind("structured binding", a, b, c); auto [x, y, z] = T(res); bind("moved structured binding", x, y, z); }
            if constexpr (T::group_count == 4) { auto const &[a, b, c, d] = res; bind("structured binding", a, b, c, d); auto [x, y, z, w] = res; bind("copied structured binding", x, y, z, w); }
            if constexpr (T::group_count == 5) { auto const &[a, b, c, d, e] = res; bind("structured binding", a, b, c, d, e); }
        }
    }

    template<typename... Groups, typename Result>
    void tell_optional(Teller const &t, Result &res, Story const &s)
    {
        using T = std::remove_const_t<Result>;
        auto one = [&](auto opt, char const *what) {
            t.same(what, yn(s.matched), yn(opt.has_value()));
            if (opt)
            {
                t.same(what, s.text[0], text_of(opt->template group<0>()));
                if constexpr (T::group_count > 1) t.same(what, s.text[T::group_count - 1], text_of(opt->template group<T::group_count - 1>()));
                t.same(what, "yes", yn(opt->matched()));
            }
        };
        one(res.as_optional(), "as_optional");
        one(std::as_const(res).as_optional(), "as_optional (const)");
        one(T(res).as_optional(), "as_optional (expiring)");
        one(static_cast<T const &&>(T(res)).as_optional(), "as_optional (const expiring)");
        t.same("the result after as_optional", s.text[0], text_of(res.template group<0>()));
    }

    // Value semantics: copies, moves, assignments keep the content
    template<typename... Groups, typename Result>
    void tell_copies(Teller const &t, Result &res, Story const &s)
    {
        using T = std::remove_const_t<Result>;
        T copy = res;
        T moved = std::move(copy);
        T assigned;
        assigned = moved;
        T target = res;
        target = std::move(moved);
        tell<Groups...>(t, assigned, s);
        t.same("moved result", s.text[0], text_of(target.template group<0>()));
        t.same("moved result", yn(s.matched), yn(target.matched()));
    }

    template<typename... Groups, typename Result, typename Iter>
    void tell_view(Teller const &t, Result &res, Story const &s, ref::Result const &e, Iter b)
    {
        static_assert(Result::is_view);
        tell<Groups...>(t, res, s);
        tell_optional<Groups...>(t, res, s);
        // Views denote the exact part of the input
        if (s.matched)
        {
            t.same("begin", std::to_string(e.g[0].b), std::to_string(std::distance(b, res.begin())));
            t.same("end", std::to_string(e.g[0].e), std::to_string(std::distance(b, res.end())));
        }
        if constexpr (std::contiguous_iterator<Iter>)
        {
            if (s.filled[0])
            {
                t.yes("address of the matched text", std::string_view(res).data() == std::to_address(b) + e.g[0].b);
                t.yes("address of the first character", &res.template group<0>()[0] == std::to_address(b) + e.g[0].b);
            }
        }
    }

    template<typename R, unsigned M, unsigned Mode, typename... Groups>
    void run_results(Judge j, Expected const &e, std::string const &in)
    {
        auto all = [&](char const *kind, auto make_input) {
            j.kind = kind;
            using Input = decltype(make_input());
            // The input lives on the heap, is scrubbed and destroyed while owned copies are still read
            auto one = [&](char const *method, ref::Result const &want, auto call) {
                j.begin_case(method);
                Teller t{j, method};
                Story const s = story<Groups...>(want, j.input);
                auto x = std::make_unique<Input>(make_input());
                auto res = call(std::cbegin(*x), std::cend(*x));
                tell_view<Groups...>(t, res, s, want, std::cbegin(*x));
                tell_copies<Groups...>(t, res, s);
                auto own = res.as_memory_owner();
                auto from_const = std::as_const(res).as_memory_owner();
                static_assert(!decltype(own)::is_view && decltype(own)::group_count == decltype(res)::group_count);
                t.method = std::string("owned copy of ") + method;
                tell<Groups...>(t, own, s);
                for (auto &c : *x) c = static_cast<char>(c ^ 0x15);
                tell<Groups...>(t, own, s);
                x.reset();
                auto const &cown = own;
                tell<Groups...>(t, cown, s);
                tell_optional<Groups...>(t, own, s);
                tell_copies<Groups...>(t, own, s);
                t.same("copy of a const view", s.text[0], text_of(from_const.template group<0>()));
                // Owners do not share their text with each other
                auto second = own;
                if (s.filled[0])
                {
                    second.template group<0>()[0] = '\x7f';
                    second.template group<0>().content() += "tail";
                    t.same("an owner after its copy was changed", s.text[0], text_of(own.template group<0>()));
                    auto taken = std::move(second).template group<0>();
                    t.same("text taken from an expiring owner", "\x7f" + s.text[0].substr(1) + "tail", text_of(taken));
                }
                ++ctx().evals;
                ctx().results += t.reads;
                ++(want.matched ? ctx().matched : ctx().nonmatched);
                if (want.matched && s.filled[0]) { std::string o; for (auto &y : s.text) o += quote(y); note_outcome(j.id, method, j.input, o); }
            };
            if constexpr (M & MATCH) one("match", e.match, [](auto b, auto en) { return R::match(b, en); });
            if constexpr (M & PREFIX) one("match_prefix", e.prefix, [](auto b, auto en) { return R::match_prefix(b, en); });
            if constexpr (M & SEARCH) one("search", e.search, [](auto b, auto en) { return R::search(b, en); });
            if constexpr (M & FIND_ALL)
            {
                for (std::size_t k = 0; k <= e.all.size() && k < 4; ++k)
                {
                    ref::Result none;
                    none.g.resize(sizeof...(Groups) + 1);
                    one("searcher", k < e.all.size() ? e.all[k] : none, [&](auto b, auto en) { auto g = R::searcher(b, en); for (std::size_t i = 0; i < k; ++i) (void)g(); return g(); });
                    if (k < e.all.size()) one("find_all", e.all[k], [&](auto b, auto en) { auto r = R::find_all(b, en); auto it = r.begin(); for (std::size_t i = 0; i < k; ++i) ++it; return *it; });
                }
            }
            if constexpr (M & TOKENIZE)
            {
                for (std::size_t k = 0; k < e.tokens.size() && k < 3; ++k)
                    one("tokenize", e.tokens[k], [&](auto b, auto en) { auto r = R::tokenize(b, en); auto it = r.begin(); for (std::size_t i = 0; i < k; ++i) ++it; return *it; });
            }
        };
        if constexpr (Mode == 0) all("string", [&] { return in; });
        if constexpr (Mode == 1) all("list", [&] { return std::list<char>(in.begin(), in.end()); });
        if constexpr (Mode == 2) all("deque", [&] { return std::deque<char>(in.begin(), in.end()); });
        if constexpr (Mode == 3) all("forward_list", [&] { return std::forward_list<char>(in.begin(), in.end()); });
        if constexpr (Mode == 4) all("vector", [&] { return std::vector<char>(in.begin(), in.end()); });
        if constexpr (Mode == 6)
        {
            // Iterators that yield values instead of references
            j.kind = "transform_view";
            auto one = [&](char const *method, ref::Result const &want, auto call) {
                j.begin_case(method);
                Teller t{j, method};
                Story const s = story<Groups...>(want, j.input);
                auto x = std::make_unique<std::string>(in);
                for (auto &c : *x) c = static_cast<char>(c ^ 0x5a);
                auto v = std::views::transform(*x, [](char c) { return static_cast<char>(c ^ 0x5a); });
                auto res = call(v.begin(), v.end());
                tell_view<Groups...>(t, res, s, want, v.begin());
                tell_copies<Groups...>(t, res, s);
                auto own = res.as_memory_owner();
                x.reset();
                tell<Groups...>(t, own, s);
                ++ctx().evals;
                ctx().results += t.reads;
                ++(want.matched ? ctx().matched : ctx().nonmatched);
                if (want.matched && s.filled[0]) { std::string o; for (auto &y : s.text) o += quote(y); note_outcome(j.id, method, j.input, o); }
            };
            one("match", e.match, [](auto b, auto en) { return R::match(b, en); });
            one("match_prefix", e.prefix, [](auto b, auto en) { return R::match_prefix(b, en); });
            one("search", e.search, [](auto b, auto en) { return R::search(b, en); });
        }
        if constexpr (Mode == 5)
        {
            // Results of expiring inputs
            j.kind = "expiring string";
            auto one = [&](char const *method, ref::Result const &want, auto call) {
                j.begin_case(method);
                Teller t{j, method};
                Story const s = story<Groups...>(want, j.input);
                auto x = std::make_unique<std::string>(in);
                auto res = call(std::move(*x));
                static_assert(!decltype(res)::is_view);
                for (auto &c : *x) c = '\x01';
                x.reset();
                tell<Groups...>(t, res, s);
                tell_optional<Groups...>(t, res, s);
                tell_copies<Groups...>(t, res, s);
                tell<Groups...>(t, std::as_const(res), s);
                ++ctx().evals;
                ctx().results += t.reads;
                ++(want.matched ? ctx().matched : ctx().nonmatched);
                if (want.matched && s.filled[0]) { std::string o; for (auto &y : s.text) o += quote(y); note_outcome(j.id, method, j.input, o); }
            };
            one("match", e.match, [](std::string &&x) { return R::match(std::move(x)); });
            one("match_prefix", e.prefix, [](std::string &&x) { return R::match_prefix(std::move(x)); });
            one("search", e.search, [](std::string &&x) { return R::search(std::move(x)); });
        }
    }
}
