// Monitor harness: runs the real library (public API only) on generated inputs and compares every
// observed event (verdict, extent, captures, sequence of results) with the reference model.
#pragma once
#include <mregex.hpp>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <random>
#include <string>
#include <string_view>
#include <vector>

#include "refre.hpp"

namespace vf
{
    // What to run for one pattern
    enum Method : unsigned { MATCH = 1, PREFIX = 2, SEARCH = 4, FIND_ALL = 8, TOKENIZE = 16, ALL_METHODS = 31, BASIC = 7 };
    enum Kind : unsigned
    {
        PTR = 1, LIST = 2, FWD = 4, DEQUE = 8, GUARD_RA = 16, GUARD_BIDI = 32, GUARD_FWD = 64, VECTOR = 128, REVERSED = 256,
        ANY_FWD_OK = PTR | FWD | GUARD_FWD
    };

    struct Obs
    {
        bool matched = false;
        std::vector<ref::Span> g;
    };

    // Shared state of one harness process (monitors)
    struct Ctx
    {
        std::uint64_t seed = 1;
        std::size_t budget = 400;       // inputs per pattern
        std::size_t max_steps = 20000;  // reference steps allowed per (pattern, input, method)
        std::FILE *out = nullptr;
        bool replay = false;
        std::string replay_input;

        // Counters
        std::uint64_t patterns = 0, evals = 0, matched = 0, nonmatched = 0, skipped = 0, groups_set = 0, results = 0, guard_events = 0;
        std::uint64_t nontrivial = 0;   // distinct (pattern, input, method, observed outcome), see note_outcome
        std::uint64_t violations = 0;
        std::vector<std::string> samples;

        void note_sample(std::string s) { if (samples.size() < 3) samples.push_back(std::move(s)); }
    };

    Ctx &ctx();

    // The case being executed, for the crash and hang monitors
    void set_case(int id, char const *what, std::string_view pattern, unsigned flags, std::string_view input);
    void still_alive();   // progress, for the hang monitor; callable from any thread
    void violation(int id, char const *monitor, char const *what, std::string_view pattern, unsigned flags,
                   std::string_view input, std::string const &expected, std::string const &observed);
    bool too_many(int id);
    void note_outcome(int id, std::string_view what, std::string_view input, std::string const &obs);
    std::string show(ref::Result const &r);
    std::string show(Obs const &o);
    std::string show(std::vector<ref::Result> const &v);
    std::string show(std::vector<Obs> const &v);
    std::string quote(std::string_view s);
    bool same(ref::Result const &e, Obs const &o);
    bool is_blank(Obs const &o);
    std::vector<std::string> make_inputs(ref::Regex const &re, std::string_view pattern, std::mt19937 &rng, std::size_t budget);

    // Monitored iterators: every operation is checked against the bounds of the range
    struct GuardState
    {
        std::uint64_t events = 0;
        std::uint64_t limit = ~std::uint64_t{0};
        char error[128] = {0};
        void fail(char const *what, std::ptrdiff_t at, std::ptrdiff_t n)
        {
            if (!error[0]) std::snprintf(error, sizeof error, "%s at %td of %td", what, at, n);
        }
    };
    GuardState &guard();
    [[noreturn]] void guard_runaway();

    template<typename Tag>
    struct GuardIter
    {
        using iterator_category = Tag;
        using iterator_concept = Tag;
        using value_type = char;
        using difference_type = std::ptrdiff_t;
        using pointer = char const *;
        using reference = char const &;

        static constexpr bool bidi = std::is_base_of_v<std::bidirectional_iterator_tag, Tag>;
        static constexpr bool ra = std::is_base_of_v<std::random_access_iterator_tag, Tag>;

        char const *data = nullptr;
        std::ptrdiff_t n = 0, i = 0;

        static void tick() { if (++guard().events > guard().limit) guard_runaway(); }

        reference operator*() const
        {
            tick();
            static char const zero = 0;
            if (!data || i < 0 || i >= n) { guard().fail("dereference", i, n); return zero; }
            return data[i];
        }
        pointer operator->() const { return &**this; }
        GuardIter &operator++() { tick(); if (!data || i >= n) guard().fail("increment", i, n); ++i; return *this; }
        GuardIter operator++(int) { auto t = *this; ++*this; return t; }
        GuardIter &operator--() requires bidi { tick(); if (!data || i <= 0) guard().fail("decrement", i, n); --i; return *this; }
        GuardIter operator--(int) requires bidi { auto t = *this; --*this; return t; }
        GuardIter &operator+=(difference_type d) requires ra
        {
            tick();
            if (d != 0 && (!data || i + d < 0 || i + d > n)) guard().fail("advance", i + d, n);
            i += d;
            return *this;
        }
        GuardIter &operator-=(difference_type d) requires ra { return *this += -d; }
        friend GuardIter operator+(GuardIter a, difference_type d) requires ra { return a += d; }
        friend GuardIter operator+(difference_type d, GuardIter a) requires ra { return a += d; }
        friend GuardIter operator-(GuardIter a, difference_type d) requires ra { return a -= d; }
        friend difference_type operator-(GuardIter a, GuardIter b) requires ra { pair(a, b); return a.i - b.i; }
        reference operator[](difference_type d) const requires ra { return *(*this + d); }
        friend bool operator==(GuardIter a, GuardIter b) { tick(); pair(a, b); return a.i == b.i; }
        friend auto operator<=>(GuardIter a, GuardIter b) requires ra { pair(a, b); return a.i <=> b.i; }
        static void pair(GuardIter a, GuardIter b) { if (a.data != b.data) guard().fail("mixed ranges", a.i, b.i); }
    };
    static_assert(std::forward_iterator<GuardIter<std::forward_iterator_tag>> && !std::bidirectional_iterator<GuardIter<std::forward_iterator_tag>>);
    static_assert(std::bidirectional_iterator<GuardIter<std::bidirectional_iterator_tag>> && !std::random_access_iterator<GuardIter<std::bidirectional_iterator_tag>>);
    static_assert(std::random_access_iterator<GuardIter<std::random_access_iterator_tag>>);

    // Overrides for the next pattern
    struct CaseOpts { std::size_t budget = 0, max_steps = 0; };
    CaseOpts &next_opts();
    std::string rep(std::string_view s, std::size_t n);
    std::vector<std::string> all_bytes();

    // Text of a capture, read one character at a time (value-initialised list iterators cannot be measured)
    template<typename Capture>
    std::string text_of(Capture const &c) { std::string s; for (auto it = c.begin(); it != c.end(); ++it) s += *it; return s; }

    void add_group(Obs &o, bool known, std::ptrdiff_t begin, std::size_t length);

    template<typename Result, typename Iter>
    Obs observe(Result const &res, Iter begin)
    {
        Obs o;
        o.matched = res.matched();
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (observe_group(o, res.template group<I>(), begin, I == 0 && o.matched), ...);
        }(std::make_index_sequence<Result::group_count>{});
        return o;
    }

    template<typename Capture, typename Iter>
    void observe_group(Obs &o, Capture const &c, Iter begin, bool always)
    {
        bool const known = !c.is_empty() || always;
        add_group(o, known, known ? std::distance(begin, c.begin()) : 0, c.length());
    }

    // Exact-size heap buffer, so that a sanitizer sees any access outside the input
    struct Exact
    {
        std::unique_ptr<char[]> p;
        std::size_t n;
        explicit Exact(std::string_view s) : p{new char[s.size() ? s.size() : 1]}, n{s.size()} { if (n) std::memcpy(p.get(), s.data(), n); }
    };

    // Input embedded in a larger buffer of plausible characters: reading outside of it changes results
    struct Embedded
    {
        std::string buf;
        std::size_t n;
        explicit Embedded(std::string_view s) : n{s.size()}
        {
            std::string_view pad = n ? s : std::string_view("ab\n0_A");
            buf = std::string(pad) + std::string(s) + std::string(pad);
            off = pad.size();
        }
        std::size_t off;
        char const *begin() const { return buf.data() + off; }
        char const *end() const { return begin() + n; }
    };

    struct NoExtra
    {
        template<typename Result>
        static void check(struct Judge const &, char const *, Result &, std::string_view) {}
    };

    struct Expected
    {
        bool ok = false;  // false: beyond the step limit
        ref::Result match, prefix, search;
        std::vector<ref::Result> all, tokens;
    };

    Expected expect(ref::Regex const &re, std::string_view in, unsigned methods);

    struct Judge
    {
        int id;
        std::string_view pattern;
        unsigned flags;
        std::string_view input;
        char const *kind;

        void one(char const *method, ref::Result const &e, Obs const &o) const;
        void many(char const *method, std::vector<ref::Result> const &e, std::vector<Obs> const &o, bool exhausted_ok) const;
        void guard_check(char const *method) const;
        void begin_case(char const *method) const;
    };

    // Observes one result and runs the additional per-result monitor of the check
    template<typename Extra, typename Result, typename Iter>
    Obs observe_one(Judge const &j, char const *method, Result &&res, Iter b)
    {
        Obs o = observe(res, b);
        if constexpr (!std::is_same_v<Extra, NoExtra>) Extra::check(j, method, res, j.input);
        return o;
    }

    template<typename Extra, typename Range, typename Iter>
    void observe_range(Judge const &j, char const *method, std::vector<ref::Result> const &e, Range range, Iter b)
    {
        std::vector<Obs> v;
        for (auto &&r : range)
        {
            v.push_back(observe_one<Extra>(j, method, r, b));
            if (v.size() > e.size() + 3) break;
        }
        j.guard_check(method);
        j.many(method, e, v, true);
    }

    template<typename Extra, typename Generator, typename Iter>
    void observe_generator(Judge const &j, char const *method, std::vector<ref::Result> const &e, Generator gen, Iter b)
    {
        std::vector<Obs> v;
        int after_end = 0;
        while (v.size() <= e.size() + 3)
        {
            auto r = gen();
            auto o = observe_one<Extra>(j, method, r, b);
            if (!r)
            {
                // Once exhausted, the generator has to stay exhausted and report nothing
                if (!is_blank(o)) { v.push_back(o); break; }
                if (++after_end == 3) break;
            }
            else
            {
                v.push_back(o);
                if (after_end) break;
            }
        }
        j.guard_check(method);
        j.many(method, e, v, after_end == 3);
    }

    template<typename R, unsigned Methods, typename Extra, typename Iter>
    void run_methods(Judge const &j, Expected const &e, Iter b, Iter en)
    {
        if constexpr (Methods & MATCH) { j.begin_case("match"); j.one("match", e.match, observe_one<Extra>(j, "match", R::match(b, en), b)); }
        if constexpr (Methods & PREFIX) { j.begin_case("match_prefix"); j.one("match_prefix", e.prefix, observe_one<Extra>(j, "match_prefix", R::match_prefix(b, en), b)); }
        if constexpr (Methods & SEARCH) { j.begin_case("search"); j.one("search", e.search, observe_one<Extra>(j, "search", R::search(b, en), b)); }
        if constexpr (Methods & FIND_ALL)
        {
            j.begin_case("find_all");
            observe_range<Extra>(j, "find_all", e.all, R::find_all(b, en), b);
            j.begin_case("searcher");
            observe_generator<Extra>(j, "searcher", e.all, R::searcher(b, en), b);
        }
        if constexpr (Methods & TOKENIZE)
        {
            j.begin_case("tokenize");
            observe_range<Extra>(j, "tokenize", e.tokens, R::tokenize(b, en), b);
            j.begin_case("tokenizer");
            observe_generator<Extra>(j, "tokenizer", e.tokens, R::tokenizer(b, en), b);
        }
    }

    template<typename R, unsigned Methods, unsigned Kinds, typename Extra = NoExtra>
    void run_kinds(Judge j, Expected const &e, std::string const &in)
    {
        if constexpr (Kinds & PTR)
        {
            j.kind = "char const*";
#ifdef VF_EXACT
            Exact x{in};
            run_methods<R, Methods, Extra, char const *>(j, e, x.p.get(), x.p.get() + x.n);
#else
            Embedded x{in};
            run_methods<R, Methods, Extra, char const *>(j, e, x.begin(), x.end());
#endif
        }
        if constexpr (Kinds & VECTOR) { j.kind = "vector"; std::vector<char> x(in.begin(), in.end()); run_methods<R, Methods, Extra>(j, e, x.begin(), x.end()); }
        if constexpr (Kinds & DEQUE) { j.kind = "deque"; std::deque<char> x(in.begin(), in.end()); run_methods<R, Methods, Extra>(j, e, x.cbegin(), x.cend()); }
        if constexpr (Kinds & LIST) { j.kind = "list"; std::list<char> x(in.begin(), in.end()); run_methods<R, Methods, Extra>(j, e, x.cbegin(), x.cend()); }
        if constexpr (Kinds & FWD) { j.kind = "forward_list"; std::forward_list<char> x(in.begin(), in.end()); run_methods<R, Methods, Extra>(j, e, x.cbegin(), x.cend()); }
        if constexpr (Kinds & REVERSED)
        {
            j.kind = "reverse_iterator";
            std::string x(in.rbegin(), in.rend());
            run_methods<R, Methods, Extra>(j, e, x.crbegin(), x.crend());
        }
        auto guarded = [&]<typename Tag>(Tag, char const *kind) {
            j.kind = kind;
            GuardIter<Tag> b, en;
            static char const none[1] = {0};
            b.data = en.data = in.empty() ? none : in.data();
            b.n = en.n = static_cast<std::ptrdiff_t>(in.size());
            en.i = b.n;
            run_methods<R, Methods, Extra>(j, e, b, en);
        };
        if constexpr (Kinds & GUARD_RA) guarded(std::random_access_iterator_tag{}, "guarded random access");
        if constexpr (Kinds & GUARD_BIDI) guarded(std::bidirectional_iterator_tag{}, "guarded bidirectional");
        if constexpr (Kinds & GUARD_FWD) guarded(std::forward_iterator_tag{}, "guarded forward");
    }

    // Extra inputs a check registers for a pattern id
    std::vector<std::string> &extra_inputs();

    using Runner = void (*)(Judge, Expected const &, std::string const &);

    // Runs one pattern on all its inputs
    void drive(int id, char const *pattern, std::size_t len, unsigned flags, unsigned methods, Runner run);

    // Every translation unit of a check provides this
    void run_all();
}
