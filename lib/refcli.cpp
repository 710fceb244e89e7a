// Asks the reference model, one question per line:
//   V <hex pattern>                              -> "<ok> <hard> <error index>"
//   I <hex pattern> <flags> <count> <seed> <len> -> up to count inputs of at most len characters, in hex, each after a dot
#include "refre.hpp"
#include "inputs.hpp"
#include <cstdio>
#include <iostream>
#include <sstream>

int main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::istringstream is(line);
        std::string kind, hex, p;
        is >> kind;
        if (line.size() > 2 && line[2] != ' ') is >> hex;
        for (std::size_t k = 0; k + 1 < hex.size(); k += 2) p += static_cast<char>(std::stoi(hex.substr(k, 2), nullptr, 16));
        if (kind == "V")
        {
            auto const r = ref::parse(p);
            std::printf("%d %d %zu\n", r.ok, r.hard, static_cast<std::size_t>(r.error));
            continue;
        }
        unsigned flags = 0, count = 0, seed = 0, len = 0;
        is >> flags >> count >> seed >> len;
        ref::Regex re{p, flags};
        re.max_steps = 1500;
        std::mt19937 rng{seed};
        std::vector<std::string> good;
        if (re.parsed().ok && !re.parsed().hard)
        {
            auto v = vf::make_inputs(re, p, rng, 120);
            std::shuffle(v.begin(), v.end(), rng);
            std::vector<std::string> dull;
            for (auto &s : v)
            {
                if (s.size() > len || good.size() >= count) continue;
                try
                {
                    re.match(s); re.prefix(s); re.tokenize(s); re.find_all(s);
                    (re.search(s).matched && s.size() > 1 ? good : dull).push_back(s);
                }
                catch (ref::StepLimit const &) {}
            }
            // Mostly inputs with a match
            std::size_t const most = count - count / 4;
            if (good.size() > most && !dull.empty()) good.resize(most);
            for (auto &s : dull) if (good.size() < count) good.push_back(s);
        }
        std::string out;
        char b[4];
        for (auto &s : good) { out += '.'; for (unsigned char c : s) { std::snprintf(b, sizeof b, "%02x", c); out += b; } out += ' '; }
        std::printf("%s\n", out.c_str());
    }
}
