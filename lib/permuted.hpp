// Captures numbered by the user: Ids[k] is the number given to the k-th opening group of the equivalent pattern.
#pragma once
#include "harness.hpp"

namespace vf
{
    template<typename R, std::size_t... Ids>
    void run_permuted(Judge j, Expected const &e, std::string const &in)
    {
        j.kind = "char const* with permuted group numbers";
        auto see = [&](auto const &res) {
            Obs const o = observe(res, in.data());
            Obs p;
            p.matched = o.matched;
            (p.g.push_back(o.g.at(Ids)), ...);
            return p;
        };
        char const *b = in.data(), *en = b + in.size();
        j.begin_case("match"); j.one("match", e.match, see(R::match(b, en)));
        j.begin_case("match_prefix"); j.one("match_prefix", e.prefix, see(R::match_prefix(b, en)));
        j.begin_case("search"); j.one("search", e.search, see(R::search(b, en)));
    }
}
