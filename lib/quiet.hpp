// Allocation monitor: the allocator of the process is interposed and counts what happens while the library is at work.
// Every program has one translation unit of its own, so these definitions are not inline.
#pragma once
#include "harness.hpp"
#include <cerrno>
#include <optional>

namespace vf::quiet
{
    inline thread_local bool watching = false;
    inline thread_local std::uint64_t allocations = 0;
    inline void *seen(void *p) { if (watching) ++allocations; return p; }
}

extern "C"
{
    void *__libc_malloc(std::size_t);
    void *__libc_calloc(std::size_t, std::size_t);
    void *__libc_realloc(void *, std::size_t);
    void *__libc_memalign(std::size_t, std::size_t);
    void *malloc(std::size_t n) { return vf::quiet::seen(__libc_malloc(n)); }
    void *calloc(std::size_t n, std::size_t m) { return vf::quiet::seen(__libc_calloc(n, m)); }
    void *realloc(void *p, std::size_t n) { return vf::quiet::seen(__libc_realloc(p, n)); }
    void *memalign(std::size_t a, std::size_t n) { return vf::quiet::seen(__libc_memalign(a, n)); }
    void *aligned_alloc(std::size_t a, std::size_t n) { return vf::quiet::seen(__libc_memalign(a, n)); }
    int posix_memalign(void **p, std::size_t a, std::size_t n) { *p = vf::quiet::seen(__libc_memalign(a, n)); return *p ? 0 : ENOMEM; }
}

namespace vf::quiet
{
    struct Seen { bool matched = false; std::size_t length = 0, count = 0, groups = 0; };

    // Reads a result of views in every way that is not documented to make a copy
    template<typename Result>
    [[gnu::noinline]] void read(Result const &res, Seen &s)
    {
        s.matched = res.matched() && static_cast<bool>(res) && res == true;
        s.length = res.length();
        Result copy{res};
        Result moved{std::move(copy)};
        copy = moved;
        auto const opt = moved.as_optional();
        if (opt.has_value() != s.matched) s.length = ~std::size_t{0};
        copy.for_each_group([&](auto const &g) {
            s.groups += g.length() + g.is_empty() + g.has_name() + g.name().size();
            for (auto it = g.begin(); it != g.end(); ++it) s.groups += static_cast<unsigned char>(*it);
            if constexpr (std::is_convertible_v<decltype(g), std::string_view>) { s.groups += g.content().size(); s.groups += std::string_view(g).size(); }
        });
        auto const lengths = copy.transform_groups([](auto const &g) { return g.length(); });
        s.groups += std::get<0>(lengths);
        s.groups += meta::get_group<0>(copy).length();
    }

    inline void check(Judge const &j, char const *method, std::uint64_t n, int error, Seen const &s, bool matched, std::size_t length)
    {
        std::string w = std::string(method) + " over " + j.kind;
        ++ctx().evals;
        ++ctx().results;
        ++(s.matched ? ctx().matched : ctx().nonmatched);
        if (n) violation(j.id, "allocation", w.c_str(), j.pattern, j.flags, j.input, "no memory allocated", std::to_string(n) + " allocations");
        if (error != 4242) violation(j.id, "errno", w.c_str(), j.pattern, j.flags, j.input, "errno untouched", std::to_string(error));
        if (s.matched != matched || (matched && s.length != length))
            violation(j.id, "reference", w.c_str(), j.pattern, j.flags, j.input, matched ? "match of length " + std::to_string(length) : "no match", s.matched ? "match of length " + std::to_string(s.length) : "no match");
        if (s.matched && s.length) note_outcome(j.id, w, j.input, std::to_string(s.length) + "/" + std::to_string(s.groups));
    }

    template<typename Func>
    Seen watch(Judge const &j, char const *method, std::uint64_t &n, int &error, Func &&func)
    {
        j.begin_case(method);
        Seen s;
        allocations = 0;
        errno = 4242;
        watching = true;
        func(s);
        watching = false;
        error = errno;
        n = allocations;
        return s;
    }

    template<typename R, typename Iter>
    void declared(Judge const &j)
    {
        using result = decltype(R::match(std::declval<Iter>(), std::declval<Iter>()));
        static constexpr bool ok[] = {
            noexcept(R::match(std::declval<Iter const &>(), std::declval<Iter const &>())), noexcept(R::match_prefix(std::declval<Iter const &>(), std::declval<Iter const &>())),
            noexcept(R::search(std::declval<Iter const &>(), std::declval<Iter const &>())), noexcept(std::declval<decltype(R::searcher(std::declval<Iter>(), std::declval<Iter>())) &>()()),
            noexcept(std::declval<decltype(R::tokenizer(std::declval<Iter>(), std::declval<Iter>())) &>()()), noexcept(++std::declval<decltype(R::find_all(std::declval<Iter>(), std::declval<Iter>())) &>().begin()),
            noexcept(std::declval<result const &>().matched()), noexcept(std::declval<result const &>().as_optional())};
        static constexpr char const *names[] = {"match", "match_prefix", "search", "searcher", "tokenizer", "find_all", "matched", "as_optional"};
        for (std::size_t i = 0; i < std::size(ok); ++i)
            if (!ok[i]) violation(j.id, "noexcept", (std::string(names[i]) + " over " + j.kind).c_str(), j.pattern, j.flags, j.input, "an operation on views that cannot throw", "it may throw");
    }

    template<typename R, unsigned Methods, typename Iter>
    void methods(Judge const &j, Expected const &e, Iter b, Iter en)
    {
        declared<R, Iter>(j);
        std::uint64_t n;
        int error;
        auto single = [&](char const *name, ref::Result const &want, auto call) {
            auto s = watch(j, name, n, error, [&](Seen &seen) { auto r = call(); read(r, seen); });
            check(j, name, n, error, s, want.matched, want.matched ? static_cast<std::size_t>(want.g[0].e - want.g[0].b) : 0);
        };
        if constexpr (Methods & MATCH) single("match", e.match, [&] { return R::match(b, en); });
        if constexpr (Methods & PREFIX) single("match_prefix", e.prefix, [&] { return R::match_prefix(b, en); });
        if constexpr (Methods & SEARCH) single("search", e.search, [&] { return R::search(b, en); });
        auto many = [&](char const *name, std::vector<ref::Result> const &want, auto call) {
            std::size_t const limit = want.size() + 3;
            auto s = watch(j, name, n, error, [&](Seen &seen) { call(seen, limit); seen.matched = seen.count != 0; seen.length = seen.count; });
            check(j, name, n, error, s, !want.empty(), want.size());
        };
        auto range = [](auto r, Seen &s, std::size_t limit) {
            for (auto &&res : r) { read(res, s); if (++s.count > limit) break; }
        };
        auto gen = [](auto g, Seen &s, std::size_t limit) {
            auto copy = g;
            copy = g;
            while (auto res = copy()) { read(res, s); if (++s.count > limit) break; }
            (void)copy();
        };
        if constexpr (Methods & FIND_ALL)
        {
            many("find_all", e.all, [&](Seen &s, std::size_t l) { range(R::find_all(b, en), s, l); });
            many("searcher", e.all, [&](Seen &s, std::size_t l) { gen(R::searcher(b, en), s, l); });
        }
        if constexpr (Methods & TOKENIZE)
        {
            many("tokenize", e.tokens, [&](Seen &s, std::size_t l) { range(R::tokenize(b, en), s, l); });
            many("tokenizer", e.tokens, [&](Seen &s, std::size_t l) { gen(R::tokenizer(b, en), s, l); });
        }
    }

    template<typename R, unsigned Methods, unsigned Kinds>
    void run(Judge j, Expected const &e, std::string const &in)
    {
        if constexpr (Kinds & PTR) { j.kind = "char const*"; Embedded x{in}; methods<R, Methods, char const *>(j, e, x.begin(), x.end()); }
        if constexpr (Kinds & VECTOR) { j.kind = "vector"; std::vector<char> x(in.begin(), in.end()); methods<R, Methods>(j, e, x.begin(), x.end()); }
        if constexpr (Kinds & DEQUE) { j.kind = "deque"; std::deque<char> x(in.begin(), in.end()); methods<R, Methods>(j, e, x.cbegin(), x.cend()); }
        if constexpr (Kinds & LIST) { j.kind = "list"; std::list<char> x(in.begin(), in.end()); methods<R, Methods>(j, e, x.cbegin(), x.cend()); }
        if constexpr (Kinds & FWD) { j.kind = "forward_list"; std::forward_list<char> x(in.begin(), in.end()); methods<R, Methods>(j, e, x.cbegin(), x.cend()); }
    }
}
