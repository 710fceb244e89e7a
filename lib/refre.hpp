// Reference model of the mregex dialect: a run-time parser and an explicit-stack backtracking
// machine.  It shares no code and no technique with /repo (which builds types and calls
// continuations); it is the oracle the monitors compare every observed result against.
#pragma once
#include <bitset>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <random>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace ref
{
    enum Flag : unsigned { icase = 1, dotall = 2, multiline = 4, ungreedy = 8, unroll = 16 };

    using CharSet = std::bitset<256>;

    enum class K { Empty, Char, Any, Seq, Alt, Group, Rep, Look, Backref, NamedBackref, Bol, Eol, Boi, Eoi, Wb, NWb };
    enum class Mode { greedy, lazy, possessive };
    constexpr std::size_t INF = ~std::size_t{0};

    struct Node;
    using P = std::shared_ptr<Node>;

    struct Node
    {
        K kind;
        CharSet set;          // Char: members before case folding and negation
        bool neg = false;     // Char: complemented; Look: negative
        bool behind = false;  // Look
        std::vector<P> kids;
        std::size_t min = 0, max = 0;
        Mode mode = Mode::greedy;
        std::size_t id = 0;   // Group / Backref
        std::string name;
    };

    struct Parsed
    {
        bool ok = false;
        std::size_t error = 0;  // index of the rejected token, pattern length if the end was unexpected
        bool hard = false;      // accepted syntax that cannot be instantiated (bad range, undefined group, ...)
        P ast;
        std::size_t groups = 0;
        std::vector<std::string> names;  // names[i] of group i+1, "" if unnamed
    };

    Parsed parse(std::string_view pattern);

    struct Span { std::ptrdiff_t b = -1, e = -1; bool empty() const { return b == e; } };

    struct Result
    {
        bool matched = false;
        std::vector<Span> g;  // g[0] is the whole match; on a non-match all are empty
    };

    struct StepLimit {};

    struct Program;

    class Regex
    {
    public:
        Regex(std::string_view pattern, unsigned flags);
        Regex(P ast, std::size_t groups, unsigned flags);
        Parsed const &parsed() const { return _parsed; }
        std::size_t groups() const { return _groups; }
        unsigned flags() const { return _flags; }

        // All throw StepLimit when the search takes more than max_steps machine steps
        Result match(std::string_view in) const;
        Result prefix(std::string_view in, std::size_t from = 0) const;
        Result search(std::string_view in, std::size_t from = 0) const;
        std::vector<Result> find_all(std::string_view in) const;   // non-empty + at most one empty, as generated
        std::vector<Result> tokenize(std::string_view in) const;

        // A string the pattern is likely to match
        std::string sample(std::mt19937 &rng, std::size_t max_len = 40) const;

        mutable std::size_t max_steps = 100000;
        mutable std::size_t steps = 0;       // of the last call
        mutable std::size_t total_steps = 0;
        mutable std::size_t max_depth = 0;   // choice points of the last call

    private:
        Result run(std::string_view in, std::size_t from, bool full) const;
        Parsed _parsed;
        P _ast;
        std::size_t _groups;
        unsigned _flags;
        std::shared_ptr<Program> _prog;
    };
}
