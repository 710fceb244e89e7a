// Per-result monitors: names of groups, and agreement of all ways of reading a result.
#pragma once
#include "harness.hpp"

namespace vf
{
    inline void api_fail(Judge const &j, char const *method, char const *what, std::string const &expected, std::string const &observed)
    {
        std::string w = std::string(method) + " over " + j.kind + ": " + what;
        violation(j.id, "result-api", w.c_str(), j.pattern, j.flags, j.input, expected, observed);
    }

    inline std::string yn(bool b) { return b ? "yes" : "no"; }

    // Name "" = unnamed group
    template<meta::static_string Name, std::size_t ID>
    struct Group
    {
        static constexpr std::size_t id = ID;
        static constexpr bool named = Name.length() != 0;

        template<typename Result>
        static void check(Judge const &j, char const *method, Result &res)
        {
            ++ctx().results;
            auto const &by_id = res.template group<ID>();
            std::string_view const want{std::string_view(Name)};
            if (by_id.name() != want) api_fail(j, method, "name of a group", std::to_string(ID) + " " + std::string(want), std::string(by_id.name()));
            if (by_id.has_name() != named) api_fail(j, method, "has_name of a group", std::to_string(ID) + " " + yn(named), yn(by_id.has_name()));
            if constexpr (named)
            {
                auto const &by_name = res.template group<Name>();
                if (static_cast<void const *>(&by_name) != static_cast<void const *>(&by_id))
                    if (text_of(by_name) != text_of(by_id) || by_name.is_empty() != by_id.is_empty())
                        api_fail(j, method, "group by name and by number", text_of(by_id), text_of(by_name));
            }
        }
    };

    template<typename... Groups>
    struct NamesCheck
    {
        template<typename Result>
        static void check(Judge const &j, char const *method, Result &res, std::string_view)
        {
            if (std::remove_cvref_t<Result>::group_count != sizeof...(Groups) + 1)
                api_fail(j, method, "number of groups", std::to_string(sizeof...(Groups) + 1), std::to_string(std::remove_cvref_t<Result>::group_count));
            else
                (Groups::check(j, method, res), ...);
        }
    };
}
