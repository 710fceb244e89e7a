// Monitor for string literals and character arrays: the characters up to the terminator are the input.
#pragma once
#include "harness.hpp"

namespace vf
{
    template<typename R, typename Array>
    void literal_calls(int id, char const *pattern, std::size_t len, unsigned flags, Array &lit, char const *kind)
    {
        std::string_view const p{pattern, len};
        ref::Regex const re{p, flags};
        std::string const in{static_cast<char const *>(lit)};
        auto const e = expect(re, in, ALL_METHODS);
        if (!e.ok) return;
        Judge j{id, p, flags, in, kind};
        char const *b = lit;
        auto one = [&](char const *m, ref::Result const &want, auto const &res) { j.one(m, want, observe(res, b)); };
        j.begin_case("match"); one("match", e.match, R::match(lit));
        j.begin_case("match_prefix"); one("match_prefix", e.prefix, R::match_prefix(lit));
        j.begin_case("search"); one("search", e.search, R::search(lit));
        j.begin_case("find_all"); observe_range<NoExtra>(j, "find_all", e.all, R::find_all(lit), b);
        j.begin_case("searcher"); observe_generator<NoExtra>(j, "searcher", e.all, R::searcher(lit), b);
        j.begin_case("tokenize"); observe_range<NoExtra>(j, "tokenize", e.tokens, R::tokenize(lit), b);
        j.begin_case("tokenizer"); observe_generator<NoExtra>(j, "tokenizer", e.tokens, R::tokenizer(lit), b);
    }

    template<typename R>
    void literals(int id, char const *pattern, std::size_t len, unsigned flags)
    {
        ++ctx().patterns;
        auto both = [&](auto &lit) {
            literal_calls<R>(id, pattern, len, flags, lit, "string literal");
            std::remove_const_t<std::remove_reference_t<decltype(lit)>> copy;
            std::copy(std::begin(lit), std::end(lit), std::begin(copy));
            literal_calls<R, char[std::extent_v<decltype(copy)>]>(id, pattern, len, flags, copy, "character array");
        };
        auto buffer = [&](std::string_view s) {
            // A buffer larger than its text
            char buf[40];
            std::fill(std::begin(buf), std::end(buf), 'a');
            std::copy(s.begin(), s.end(), buf);
            buf[s.size()] = 0;
            literal_calls<R, char[40]>(id, pattern, len, flags, buf, "character array larger than its text");
        };
        both(""); both("a"); both("b"); both("ab"); both("ba"); both("aab"); both("abc"); both("a\nb"); both("abab"); both("aaaa"); both("ab abc,a"); both("xaab\naabb"); both("\xe9\xff" "a");
        both("abcabcabcabcabcabcabcabcabcabcabcabc aab");
        for (auto s : {"", "a", "ab", "abc", "aab ba", "\n", "aaaaaaaaaaaaaaaaaaaab"}) buffer(s);
    }
}
