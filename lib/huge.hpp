// Inputs larger than any memory: random access over a computed text of up to 2^62 characters (a head, one repeated
// character, a tail). Sizes, offsets and counts that do not fit into 32 bits (or 16, or 8) are observed here.
#pragma once
#include "harness.hpp"

namespace vf::huge
{
    struct Text
    {
        std::string_view head, tail;
        char fill;
        std::int64_t n;
        char const &at(std::int64_t i) const
        {
            if (i < static_cast<std::int64_t>(head.size())) return head[static_cast<std::size_t>(i)];
            if (i >= n - static_cast<std::int64_t>(tail.size())) return tail[static_cast<std::size_t>(i - (n - static_cast<std::int64_t>(tail.size())))];
            return fill;
        }
        std::string show() const { return std::string(head) + "... (" + std::to_string(n) + " characters, " + fill + " repeated) ..." + std::string(tail); }
    };

    struct It
    {
        using iterator_category = std::random_access_iterator_tag;
        using value_type = char;
        using difference_type = std::int64_t;
        using pointer = char const *;
        using reference = char const &;
        Text const *t = nullptr;
        std::int64_t i = 0;
        reference operator*() const { if ((i & 0x3ffffff) == 0) still_alive(); return t->at(i); }
        pointer operator->() const { return &t->at(i); }
        reference operator[](std::int64_t k) const { return t->at(i + k); }
        It &operator++() { ++i; return *this; }
        It operator++(int) { It o = *this; ++i; return o; }
        It &operator--() { --i; return *this; }
        It operator--(int) { It o = *this; --i; return o; }
        It &operator+=(std::int64_t k) { i += k; return *this; }
        It &operator-=(std::int64_t k) { i -= k; return *this; }
        friend It operator+(It a, std::int64_t k) { a.i += k; return a; }
        friend It operator+(std::int64_t k, It a) { a.i += k; return a; }
        friend It operator-(It a, std::int64_t k) { a.i -= k; return a; }
        friend std::int64_t operator-(It a, It b) { return a.i - b.i; }
        friend bool operator==(It a, It b) { return a.i == b.i; }
        friend auto operator<=>(It a, It b) { return a.i <=> b.i; }
    };
    static_assert(std::random_access_iterator<It>);

    template<typename Result>
    std::string describe(Result const &r)
    {
        if (!r) return "no match";
        std::string s = "match of " + std::to_string(r.length());
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            ((s += " " + std::to_string(I) + "=" + (r.template group<I>().is_empty() && I != 0 ? "-" : "[" + std::to_string(r.template group<I>().begin().i) + "," + std::to_string(r.template group<I>().end().i) + ")/" + std::to_string(r.template group<I>().length()))), ...);
        }(std::make_index_sequence<Result::group_count>{});
        return s;
    }

    inline std::string describe(ref::Result const &r)
    {
        if (!r.matched) return "no match";
        std::string s = "match of " + std::to_string(r.g[0].e - r.g[0].b);
        for (std::size_t k = 0; k < r.g.size(); ++k)
            s += " " + std::to_string(k) + "=" + (k != 0 && r.g[k].b == r.g[k].e ? "-" : "[" + std::to_string(r.g[k].b) + "," + std::to_string(r.g[k].e) + ")/" + std::to_string(r.g[k].e - r.g[k].b));
        return s;
    }

    inline void compare(char const *what, std::string_view pattern, unsigned flags, Text const &t, std::string const &expected, std::string const &observed)
    {
        ++ctx().evals;
        ++ctx().results;
        ++(observed == "no match" ? ctx().nonmatched : ctx().matched);
        note_outcome(0, what, std::string(pattern) + t.show(), observed);
        if (expected != observed) violation(0, "huge", what, pattern, flags, t.show(), expected, observed);
    }

    // Matches that lie near the start do not depend on what follows: the reference sees a short text with the same start
    template<typename R>
    void near_start(std::string_view pattern, unsigned flags, std::string_view head, char fill)
    {
        ref::Regex const re(pattern, flags);
        std::string const small = std::string(head) + std::string(96, fill);
        auto const p = re.prefix(small), q = re.search(small);
        auto const prefix = describe(p), search = describe(q);
        // Only what is decided near the start: anything else would walk through the whole text
        auto const near = [&](ref::Result const &r) { return !r.matched || r.g[0].e < static_cast<std::ptrdiff_t>(head.size()) + 32; };
        bool const find = q.matched && near(q);
        if (!near(p)) return;
        for (int bits : {7, 8, 15, 16, 31, 32, 33, 40, 62})
            for (int off = -3; off <= 9; ++off)
            {
                Text const t{head, {}, fill, (std::int64_t{1} << bits) + off};
                if (t.n < static_cast<std::int64_t>(small.size())) continue;
                set_case(0, "huge input", pattern, flags, t.show());
                It const b{&t, 0}, e{&t, t.n};
                compare("match_prefix of a huge input", pattern, flags, t, prefix, describe(R::match_prefix(b, e)));
                if (find) compare("search of a huge input", pattern, flags, t, search, describe(R::search(b, e)));
                auto tok = R::tokenizer(b, e);
                compare("tokenizer on a huge input", pattern, flags, t, prefix, describe(tok.next()));
                if (!find) continue;
                auto all = R::find_all(b, e);
                compare("find_all on a huge input", pattern, flags, t, search, describe(*all.begin()));
            }
    }

    // Walks through the whole text
    template<typename R>
    void walk(char const *method, std::string_view pattern, unsigned flags, Text const &t, std::string const &expected)
    {
        set_case(0, "huge input", pattern, flags, t.show());
        It const b{&t, 0}, e{&t, t.n};
        std::string_view const m = method;
        if (m == "match") compare("match of a huge input", pattern, flags, t, expected, describe(R::match(b, e)));
        if (m == "prefix") compare("match_prefix of a huge input", pattern, flags, t, expected, describe(R::match_prefix(b, e)));
        if (m == "search") compare("search of a huge input", pattern, flags, t, expected, describe(R::search(b, e)));
    }
}
