// Inputs for a pattern: short strings over its alphabet, strings of its language, mutations of them.
#pragma once
#include "refre.hpp"
#include <algorithm>
#include <cctype>
#include <set>

namespace vf
{
    namespace
    {
        void collect(ref::P const &n, std::vector<ref::CharSet> &sets, bool &lines, bool &word)
        {
            switch (n->kind)
            {
                case ref::K::Char: sets.push_back(n->neg ? ~n->set : n->set); break;
                case ref::K::Any: case ref::K::Bol: case ref::K::Eol: lines = true; break;
                case ref::K::Wb: case ref::K::NWb: word = true; break;
                default: break;
            }
            for (auto const &k : n->kids) collect(k, sets, lines, word);
        }
    }

    // Included by exactly one translation unit of a program
    std::vector<std::string> make_inputs(ref::Regex const &re, std::string_view, std::mt19937 &rng, std::size_t budget)
    {
        std::vector<ref::CharSet> sets;
        bool lines = false, word = false;
        collect(re.parsed().ast, sets, lines, word);
        auto rnd = [&](std::size_t n) { return n ? static_cast<std::size_t>(rng() % n) : std::size_t{0}; };

        // Alphabet: bytes on both sides of every character test of the pattern
        std::string alpha;
        auto add = [&](unsigned char c) { if (alpha.find(static_cast<char>(c)) == std::string::npos) alpha += static_cast<char>(c); };
        auto member = [&](ref::CharSet const &s) -> int {
            if (s.none()) return -1;
            for (char c : std::string_view("abc01_-xyzABC. ")) if (s.test(static_cast<unsigned char>(c)) && rnd(3)) return static_cast<unsigned char>(c);
            auto k = rnd(s.count());
            for (int c = 0; c < 256; ++c) if (s.test(static_cast<std::size_t>(c)) && k-- == 0) return c;
            return -1;
        };
        for (auto const &s : sets) { int c = member(s); if (c >= 0) add(static_cast<unsigned char>(c)); }
        if (lines) { add('\n'); if (re.flags() & (ref::multiline | ref::dotall)) add('\r'); }
        if (re.flags() & ref::icase) for (std::size_t k = 0, n = alpha.size(); k < n; ++k) { unsigned char c = static_cast<unsigned char>(alpha[k]); if (std::isalpha(c) && c < 128) add(static_cast<unsigned char>(c ^ 0x20)); }
        if (word) add(' ');
        for (auto const &s : sets) if (alpha.size() < 6) { int c = member(~s); if (c >= 0 && rnd(2)) add(static_cast<unsigned char>(c)); }
        if (alpha.size() < 2) { add('a'); add('b'); }
        std::shuffle(alpha.begin(), alpha.end(), rng);

        std::vector<std::string> v;
        std::set<std::string> seen;
        auto push = [&](std::string s) { if (s.size() <= 60 && seen.insert(s).second) v.push_back(std::move(s)); };

        // Exhaustive short strings over a small part of the alphabet
        push("");
        std::size_t const kmax = std::min<std::size_t>(alpha.size(), 2 + rnd(3));
        std::size_t const half = budget / 2;
        std::vector<std::string> level{""};
        while (v.size() < half)
        {
            std::vector<std::string> next;
            for (auto const &p : level)
                for (std::size_t k = 0; k < kmax; ++k) next.push_back(p + alpha[k]);
            if (v.size() + next.size() > half + half / 2) break;
            for (auto const &s : next) push(s);
            level = std::move(next);
        }

        // Strings of the language, mutated and embedded
        static char const odd[] = "\r\n\0 \t_-\v\f\x7f\x80\x85\xa0\xc3\xff\x1a.09AZaz@[`{";
        static std::string_view const pairs[] = {"\r\n", "\n", "\r", {"\0", 1}, " ", "\n\n", "\r\n\r\n", "\xff", "\x80", "\x85", "_", "-", "\t", "0", "\n\r"};
        auto random_string = [&](std::size_t n) { std::string s; for (std::size_t k = 0; k < n; ++k) s += rnd(12) ? alpha[rnd(alpha.size())] : rnd(2) ? static_cast<char>(rnd(256)) : odd[rnd(sizeof odd - 1)]; return s; };
        std::size_t guard_count = 0;
        while (v.size() < budget && ++guard_count < budget * 6)
        {
            std::string s = re.sample(rng, 24);
            switch (rnd(10))
            {
                case 0: break;
                case 1: s = random_string(rnd(5)) + s + random_string(rnd(4)); break;
                case 2: { auto t = re.sample(rng, 16); s += (rnd(2) ? "" : random_string(rnd(3))) + t; if (rnd(2)) s += re.sample(rng, 8); break; }
                case 3: if (!s.empty()) s.erase(rnd(s.size()), 1); break;
                case 4: s.insert(rnd(s.size() + 1), 1, alpha[rnd(alpha.size())]); break;
                case 5: if (!s.empty()) s[rnd(s.size())] = alpha[rnd(alpha.size())]; break;
                case 6: if (!s.empty()) { auto k = rnd(s.size()); s.insert(k, s.substr(k, 1 + rnd(3))); } break;
                case 7: s = random_string(rnd(12)); break;
                case 9: s.insert(rnd(4) ? rnd(2) * s.size() : rnd(s.size() + 1), pairs[rnd(std::size(pairs))]); if (rnd(2)) s.insert(rnd(2) * s.size(), pairs[rnd(std::size(pairs))]); break;
                case 8: if (!s.empty()) { s += s.substr(rnd(s.size())); } break;
            }
            push(std::move(s));
        }

        // A few long ones: a part of a string of the language repeated, or a match far into the input
        std::size_t const lengths[] = {61, 63, 64, 65, 66, 90, 127, 128, 129, 200, 255, 256, 257, 260, 300};
        for (std::size_t k = 0, n = std::min<std::size_t>(8, budget / 12); k < n; ++k)
        {
            std::string s = re.sample(rng, 24);
            std::size_t const want = lengths[rnd(std::size(lengths))] + rnd(3);
            if (k % 4 == 3 || s.empty())
            {
                std::string head;
                char const c = alpha[rnd(alpha.size())], d = alpha[rnd(alpha.size())];
                while (head.size() + s.size() < want) head += rnd(40) ? c : d;
                s = head + s + (rnd(2) ? std::string() : random_string(rnd(4)));
            }
            else
            {
                std::size_t const at = rnd(s.size()), len = std::min<std::size_t>(s.size() - at, 1 + (k % 4) * rnd(3));
                std::string const unit = s.substr(at, len);
                std::string mid;
                while (mid.size() + s.size() < want) mid += unit;
                s.insert(at, mid);
            }
            if (s.size() <= 400 && seen.insert(s).second) v.push_back(std::move(s));
        }
        return v;
    }
}
