// Default-constructed and failed results: reading every accessor is safe and shows nothing.
#include "harness.hpp"
#include <sstream>
#include <optional>

namespace
{
    void expect_blank(char const *what, bool ok, std::string const &seen)
    {
        ++vf::ctx().evals;
        vf::note_outcome(-2, what, "", seen);
        if (!ok) vf::violation(-1, "blank-result", what, "", 0, "", "reads as empty", seen);
    }

    template<typename Result>
    void read(char const *what, Result &&res)
    {
        vf::set_case(-1, what, "", 0, "");
        using T = std::remove_cvref_t<Result>;
        expect_blank(what, !res.matched(), "matched");
        expect_blank(what, !static_cast<bool>(res), "bool");
        expect_blank(what, res == false && !(res == true), "== bool");
        expect_blank(what, res.length() == 0, "length " + std::to_string(res.length()));
        expect_blank(what, res.begin() == res.end(), "begin != end");
        expect_blank(what, !res.as_optional().has_value(), "optional");
        std::ostringstream os;
        os << res;
        expect_blank(what, os.str().empty(), "printed " + os.str());
        if constexpr (std::is_convertible_v<T, std::string_view>)
            expect_blank(what, static_cast<std::string_view>(res).empty(), "text");
        std::size_t groups = 0;
        std::as_const(res).for_each_group([&](auto const &g) {
            ++groups;
            std::ostringstream o;
            o << g;
            expect_blank(what, g.is_empty() && !g && g.length() == 0 && g.begin() == g.end() && vf::text_of(g).empty() && std::string(std::string_view(g.content())).empty() && o.str().empty(), "group not empty");
        });
        expect_blank(what, groups == T::group_count, "groups " + std::to_string(groups));
        auto copy = res;
        auto moved = std::move(copy);
        copy = moved;
        expect_blank(what, copy.length() == 0 && !copy.matched(), "copy");
        if constexpr (T::is_view)
        {
            auto own = res.as_memory_owner();
            expect_blank(what, !own.matched() && own.length() == 0, "owner");
            auto copied = own;
            expect_blank(what, !copied && copied.template group<0>().is_empty(), "owner copy");
        }
    }

    template<typename R>
    void regexes()
    {
        read("default-constructed view", meta::match_result_view<R, char const *>{});
        read("default-constructed view over string iterators", meta::match_result_view<R, std::string::const_iterator>{});
        read("default-constructed view over vector iterators", meta::match_result_view<R, std::vector<char>::iterator>{});
        read("default-constructed view over list iterators", meta::match_result_view<R, std::list<char>::const_iterator>{});
        read("default-constructed view over deque iterators", meta::match_result_view<R, std::deque<char>::const_iterator>{});
        read("default-constructed owner", meta::match_result<R>{});
        for (std::string_view in : {std::string_view{}, std::string_view{"zz", 2}, std::string_view{"zzzzzzzz", 3}})
        {
            vf::Exact x{in};
            char const *b = x.p.get(), *e = b + x.n;
            read("failed match", R::match(b, e));
            read("failed prefix", R::match_prefix(b, e));
            read("failed search", R::search(b, e));
            auto s = R::searcher(b, e);
            read("exhausted searcher", s());
            read("exhausted searcher again", s());
            auto t = R::tokenizer(b, e);
            read("exhausted tokenizer", t());
            read("exhausted tokenizer again", t.next());
            std::string str(in);
            read("failed match of a temporary", R::match(std::string(in)));
            read("failed search of a temporary", R::search(std::move(str)));
            std::vector<char> v(in.begin(), in.end());
            read("failed match of a vector", R::match(v));
            std::list<char> l(in.begin(), in.end());
            read("failed search of a list", R::search(l));
            int count = 0;
            for (auto &&r : R::find_all(b, e)) { (void)r; ++count; }
            for (auto &&r : R::tokenize(l)) { (void)r; ++count; }
            expect_blank("iteration", count == 0, "results");
        }
    }
}

void vf::run_all()
{
    regexes<meta::regex<"a">>();
    regexes<meta::regex<"(a)(b)">>();
    regexes<meta::regex<"(?<n>a)|(b(?<m>c)?)">>();
    regexes<meta::regex<"(a)\\1", meta::regex_flag::icase>>();
    regexes<meta::regex<"(?:(z)(z)(z)(z)a|(z)b|(?=(z)).(?<=(z))c)+d">>();
    regexes<meta::regex<"(?<=(z))a$">>();
}
