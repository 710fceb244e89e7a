#include "refre.hpp"
#include <algorithm>

namespace ref
{
    namespace
    {
        P mk(K k) { auto n = std::make_shared<Node>(); n->kind = k; return n; }

        struct Reject { std::size_t at; };

        CharSet range_set(int a, int b) { CharSet s; for (int c = a; c <= b; ++c) s.set(static_cast<std::size_t>(c)); return s; }
        CharSet digits() { return range_set('0', '9'); }
        CharSet words() { auto s = range_set('a', 'z') | range_set('A', 'Z') | digits(); s.set('_'); return s; }
        CharSet breaks() { CharSet s; s.set('\n'); s.set('\r'); return s; }
        CharSet spaces() { auto s = breaks(); s.set(' '); s.set('\t'); s.set('\v'); s.set('\f'); return s; }

        bool class_escape(char c, CharSet &out)
        {
            switch (c)
            {
                case 'd': out = digits(); return true;
                case 'D': out = ~digits(); return true;
                case 'w': out = words(); return true;
                case 'W': out = ~words(); return true;
                case 's': out = spaces(); return true;
                case 'S': out = ~spaces(); return true;
                case 'R': out = breaks(); return true;
                case 'N': out = ~breaks(); return true;
                default: return false;
            }
        }

        bool word_char(unsigned char c) { return words().test(c); }
        bool dig(char c) { return c >= '0' && c <= '9'; }
        int hexval(char c)
        {
            if (c >= '0' && c <= '9') return c - '0';
            if (c >= 'a' && c <= 'f') return c - 'a' + 10;
            if (c >= 'A' && c <= 'F') return c - 'A' + 10;
            return -1;
        }

        struct Parser
        {
            std::string_view s;
            std::size_t i = 0;
            std::vector<std::string> names;
            bool hard = false;
            std::vector<std::size_t> id_refs;
            std::vector<std::string> name_refs;

            bool end() const { return i >= s.size(); }
            char cur() const { return s[i]; }
            [[noreturn]] void reject() { throw Reject{std::min(i, s.size())}; }

            P lit(unsigned char c) { auto n = mk(K::Char); n->set.set(c); return n; }

            P top()
            {
                if (s.empty()) return mk(K::Empty);
                auto n = alternatives();
                if (!end()) reject();
                return n;
            }

            P alternatives()
            {
                std::vector<P> alts{sequence()};
                while (!end() && cur() == '|') { ++i; alts.push_back(sequence()); }
                if (alts.size() == 1) return alts[0];
                auto n = mk(K::Alt); n->kids = std::move(alts); return n;
            }

            P sequence()
            {
                std::vector<P> items;
                item(items);
                while (!end() && cur() != '|' && cur() != ')') item(items);
                if (items.size() == 1) return items[0];
                auto n = mk(K::Seq); n->kids = std::move(items); return n;
            }

            void item(std::vector<P> &out)
            {
                if (end()) reject();
                char c = cur();
                switch (c)
                {
                    case ')': case '*': case '+': case '?': case '{': case '|': reject();
                    case '^': ++i; out.push_back(mk(K::Bol)); unquantifiable(); return;
                    case '$': ++i; out.push_back(mk(K::Eol)); unquantifiable(); return;
                    case '.': ++i; out.push_back(mk(K::Any)); break;
                    case '[': ++i; out.push_back(set()); break;
                    case '(': ++i; out.push_back(group()); break;
                    case '\\':
                    {
                        ++i;
                        bool quantifiable = true;
                        out.push_back(escape(quantifiable));
                        if (!quantifiable) { unquantifiable(); return; }
                        break;
                    }
                    default: ++i; out.push_back(lit(static_cast<unsigned char>(c)));
                }
                mod(out);
            }

            void unquantifiable()
            {
                if (!end() && (cur() == '*' || cur() == '+' || cur() == '?' || cur() == '{')) reject();
            }

            static constexpr std::size_t huge = 1000000;

            std::size_t number()
            {
                std::size_t v = 0;
                while (!end() && dig(cur())) { v = v > (INF >> 1) / 10 - 1 ? INF >> 1 : v * 10 + static_cast<std::size_t>(cur() - '0'); ++i; }
                return v;
            }

            void mod(std::vector<P> &out)
            {
                if (end()) return;
                std::size_t lo, hi;
                switch (cur())
                {
                    case '*': lo = 0; hi = INF; ++i; break;
                    case '+': lo = 1; hi = INF; ++i; break;
                    case '?': lo = 0; hi = 1; ++i; break;
                    case '{':
                        ++i;
                        if (end() || !dig(cur())) { out.push_back(lit('{')); mod(out); return; }
                        lo = hi = number();
                        if (end()) reject();
                        if (cur() == ',')
                        {
                            ++i;
                            hi = INF;
                            if (!end() && dig(cur())) hi = number();
                            if (end()) reject();
                        }
                        if (cur() != '}') reject();
                        ++i;
                        if (lo > hi) hard = true;
                        break;
                    default: return;
                }
                auto n = mk(K::Rep);
                n->min = lo; n->max = hi;
                if (!end() && cur() == '?') { ++i; n->mode = Mode::lazy; }
                else if (!end() && cur() == '+') { ++i; n->mode = Mode::possessive; }
                n->kids.push_back(out.back());
                // Counts far beyond the length of any input (only used with bodies that consume input)
                if (lo > huge) { n->kids[0] = mk(K::Char); n->min = n->max = 1; }
                else if (hi > huge) n->max = INF;
                out.back() = n;
                unquantifiable();
            }

            std::string name()
            {
                std::string r;
                if (end() || !word_char(static_cast<unsigned char>(cur())) || dig(cur())) reject();
                while (!end() && word_char(static_cast<unsigned char>(cur()))) r += s[i++];
                if (end() || cur() != '>') reject();
                ++i;
                return r;
            }

            unsigned char hex()
            {
                int v = 0;
                for (int k = 0; k < 2; ++k)
                {
                    if (end() || hexval(cur()) < 0) reject();
                    v = v * 16 + hexval(cur());
                    ++i;
                }
                return static_cast<unsigned char>(v);
            }

            bool control_escape(char c, unsigned char &out)
            {
                switch (c)
                {
                    case '0': out = 0; return true;
                    case 'n': out = '\n'; return true;
                    case 'r': out = '\r'; return true;
                    case 't': out = '\t'; return true;
                    case 'f': out = '\f'; return true;
                    case 'v': out = '\v'; return true;
                    case 'a': out = 7; return true;
                    case 'e': out = 0x1b; return true;
                    default: return false;
                }
            }

            P escape(bool &quantifiable)
            {
                if (end()) reject();
                char c = cur();
                CharSet cls;
                unsigned char ctl;
                if (c >= '1' && c <= '9')
                {
                    auto n = mk(K::Backref);
                    n->id = number();
                    id_refs.push_back(n->id);
                    return n;
                }
                ++i;
                if (c == 'k')
                {
                    if (end() || cur() != '<') reject();
                    ++i;
                    auto n = mk(K::NamedBackref);
                    n->name = name();
                    name_refs.push_back(n->name);
                    return n;
                }
                if (c == 'x') return lit(hex());
                if (class_escape(c, cls)) { auto n = mk(K::Char); n->set = cls; return n; }
                if (control_escape(c, ctl)) return lit(ctl);
                switch (c)
                {
                    case 'b': quantifiable = false; return mk(K::Wb);
                    case 'B': quantifiable = false; return mk(K::NWb);
                    case 'A': quantifiable = false; return mk(K::Boi);
                    case 'Z': quantifiable = false; return mk(K::Eoi);
                    default: return lit(static_cast<unsigned char>(c));
                }
            }

            P body()
            {
                if (!end() && cur() == ')') { ++i; return mk(K::Empty); }
                auto n = alternatives();
                if (end() || cur() != ')') reject();
                ++i;
                return n;
            }

            P capture(std::string nm)
            {
                names.push_back(nm);
                auto g = mk(K::Group);
                g->id = names.size();
                g->name = std::move(nm);
                g->kids.push_back(body());
                return g;
            }

            P group()
            {
                if (end()) reject();
                if (cur() != '?') return capture("");
                ++i;
                if (end()) reject();
                auto look = [&](bool behind, bool neg) {
                    ++i;
                    auto n = mk(K::Look);
                    n->behind = behind; n->neg = neg;
                    n->kids.push_back(body());
                    return n;
                };
                switch (cur())
                {
                    case ':': ++i; return body();
                    case '>':
                    {
                        ++i;
                        auto n = mk(K::Rep);
                        n->min = n->max = 1; n->mode = Mode::possessive;
                        n->kids.push_back(body());
                        return n;
                    }
                    case '=': return look(false, false);
                    case '!': return look(false, true);
                    case '<':
                        ++i;
                        if (end()) reject();
                        if (cur() == '=') return look(true, false);
                        if (cur() == '!') return look(true, true);
                        return capture(name());
                    default: reject();
                }
            }

            P set()
            {
                auto n = mk(K::Char);
                if (!end() && cur() == '^') { n->neg = true; ++i; }
                int last = -1;           // last literal, usable as a lower bound
                bool range_ok = false;   // '-' may start a range here (not the first element, not just after a range)
                for (;;)
                {
                    if (end()) reject();
                    char c = cur();
                    if (c == ']') { ++i; return n; }
                    if (c == '-' && range_ok)
                    {
                        ++i;
                        if (end()) reject();
                        if (cur() == ']') { n->set.set('-'); continue; }
                        int hi;
                        if (cur() == '\\')
                        {
                            ++i;
                            CharSet cls;
                            if (end() || class_escape(cur(), cls)) reject();
                            hi = set_escape(*n);
                        }
                        else
                            hi = static_cast<unsigned char>(s[i++]);
                        if (last >= 0)
                        {
                            if (last > hi) hard = true; else n->set |= range_set(last, hi);
                        }
                        else
                        {
                            n->set.set('-');
                            n->set.set(static_cast<std::size_t>(hi));
                        }
                        last = -1;
                        range_ok = false;
                        continue;
                    }
                    if (c == '\\')
                    {
                        ++i;
                        if (end()) reject();
                        last = set_escape(*n);
                        if (last >= 0) n->set.set(static_cast<std::size_t>(last));
                    }
                    else
                    {
                        last = static_cast<unsigned char>(c);
                        n->set.set(static_cast<std::size_t>(last));
                        ++i;
                    }
                    range_ok = true;
                }
            }

            // Returns the literal, or -1 after adding a class to the set
            int set_escape(Node &n)
            {
                char c = s[i++];
                CharSet cls;
                unsigned char ctl;
                if (c == 'x') return hex();
                if (class_escape(c, cls)) { n.set |= cls; return -1; }
                if (c == 'b') return 8;
                if (control_escape(c, ctl)) return ctl;
                return static_cast<unsigned char>(c);
            }
        };
    }

    Parsed parse(std::string_view pattern)
    {
        Parser p;
        p.s = pattern;
        Parsed r;
        try
        {
            r.ast = p.top();
            r.ok = true;
            r.groups = p.names.size();
            r.names = p.names;
            r.hard = p.hard;
            for (auto id : p.id_refs) if (id > r.groups) r.hard = true;
            for (auto const &n : p.name_refs) if (std::count(r.names.begin(), r.names.end(), n) != 1) r.hard = true;
        }
        catch (Reject const &e)
        {
            r.ok = false;
            r.error = e.at;
            r.hard = p.hard;   // a reversed bound comes before the syntax error
        }
        return r;
    }

    // ---------------------------------------------------------------- machine

    enum class Op { Chr, Split, Jmp, Mark, NoEmpty, CapBegin, CapEnd, Back, Assert, Atomic, PossLoop, Look, Done };

    struct Ins
    {
        Op op;
        CharSet set;
        std::size_t x = 0, y = 0;   // jump targets / registers / ids / sub-program bounds
        std::size_t max = 0;
        bool rev = false, neg = false;
        K a = K::Empty;
    };

    struct Program
    {
        std::vector<Ins> code;
        std::size_t regs = 0;
    };

    namespace
    {
        unsigned char swap_case(unsigned char c)
        {
            if (c >= 'a' && c <= 'z') return static_cast<unsigned char>(c - 32);
            if (c >= 'A' && c <= 'Z') return static_cast<unsigned char>(c + 32);
            return c;
        }

        struct Compiler
        {
            Program &p;
            unsigned flags;
            std::vector<std::string> names;

            std::size_t emit(Op op) { Ins in; in.op = op; p.code.push_back(in); return p.code.size() - 1; }

            CharSet final_set(Node const &n) const
            {
                CharSet s = n.set;
                if (n.kind == K::Any)
                {
                    s.set();
                    if (!(flags & dotall)) { s.reset('\n'); s.reset('\r'); }
                    return s;
                }
                if (flags & icase)
                    for (int c = 0; c < 256; ++c)
                        if (n.set.test(static_cast<std::size_t>(c))) s.set(swap_case(static_cast<unsigned char>(c)));
                return n.neg ? ~s : s;
            }

            void gen(P const &n, bool rev)
            {
                switch (n->kind)
                {
                    case K::Empty: return;
                    case K::Char: case K::Any:
                    {
                        auto k = emit(Op::Chr);
                        p.code[k].set = final_set(*n); p.code[k].rev = rev;
                        return;
                    }
                    case K::Seq:
                        if (!rev) for (auto const &c : n->kids) gen(c, rev);
                        else for (auto it = n->kids.rbegin(); it != n->kids.rend(); ++it) gen(*it, rev);
                        return;
                    case K::Alt:
                    {
                        std::vector<std::size_t> outs;
                        for (std::size_t k = 0; k + 1 < n->kids.size(); ++k)
                        {
                            auto sp = emit(Op::Split);
                            p.code[sp].x = sp + 1;
                            gen(n->kids[k], rev);
                            outs.push_back(emit(Op::Jmp));
                            p.code[sp].y = p.code.size();
                        }
                        gen(n->kids.back(), rev);
                        for (auto o : outs) p.code[o].x = p.code.size();
                        return;
                    }
                    case K::Group:
                    {
                        auto b = emit(Op::CapBegin);
                        auto reg = p.regs++;
                        p.code[b].x = reg;
                        gen(n->kids[0], rev);
                        auto e = emit(Op::CapEnd);
                        p.code[e].x = reg; p.code[e].y = n->id; p.code[e].rev = rev;
                        return;
                    }
                    case K::Backref: case K::NamedBackref:
                    {
                        auto k = emit(Op::Back);
                        std::size_t id = n->id;
                        if (n->kind == K::NamedBackref)
                            id = static_cast<std::size_t>(std::find(names.begin(), names.end(), n->name) - names.begin()) + 1;
                        p.code[k].x = id; p.code[k].rev = rev;
                        return;
                    }
                    case K::Look:
                    {
                        auto k = emit(Op::Look);
                        p.code[k].neg = n->neg;
                        gen(n->kids[0], n->behind);
                        emit(Op::Done);
                        p.code[k].y = p.code.size();
                        return;
                    }
                    case K::Rep: rep(n, rev); return;
                    default:
                    {
                        auto k = emit(Op::Assert);
                        p.code[k].a = n->kind;
                        return;
                    }
                }
            }

            void rep(P const &n, bool rev)
            {
                auto const &body = n->kids[0];
                if (n->max == 0) return;
                if (n->mode == Mode::possessive)
                {
                    if (n->min > 0)
                    {
                        auto k = emit(Op::Atomic);
                        for (std::size_t c = 0; c < n->min; ++c) gen(body, rev);
                        emit(Op::Done);
                        p.code[k].y = p.code.size();
                    }
                    if (n->max != n->min)
                    {
                        auto k = emit(Op::PossLoop);
                        p.code[k].max = n->max == INF ? INF : n->max - n->min;
                        gen(body, rev);
                        emit(Op::Done);
                        p.code[k].y = p.code.size();
                    }
                    return;
                }
                bool greedy = (n->mode == Mode::greedy) != bool(flags & ungreedy);
                for (std::size_t c = 0; c < n->min; ++c) gen(body, rev);
                if (n->max == INF)
                {
                    auto reg = p.regs++;
                    auto sp = emit(Op::Split);
                    auto m = emit(Op::Mark);
                    p.code[m].x = reg;
                    gen(body, rev);
                    auto ne = emit(Op::NoEmpty);
                    p.code[ne].x = reg;
                    auto j = emit(Op::Jmp);
                    p.code[j].x = sp;
                    auto out = p.code.size();
                    p.code[sp].x = greedy ? sp + 1 : out;
                    p.code[sp].y = greedy ? out : sp + 1;
                    return;
                }
                std::vector<std::size_t> splits;
                for (std::size_t c = n->min; c < n->max; ++c)
                {
                    splits.push_back(emit(Op::Split));
                    gen(body, rev);
                }
                auto out = p.code.size();
                for (auto sp : splits)
                {
                    p.code[sp].x = greedy ? sp + 1 : out;
                    p.code[sp].y = greedy ? out : sp + 1;
                }
            }
        };

        struct Machine
        {
            Program const &p;
            std::string_view in;
            unsigned flags;
            std::size_t &steps;
            std::size_t max_steps;
            std::size_t &max_depth;

            // slots: captures 2*id, 2*id+1, then registers
            std::vector<std::ptrdiff_t> slot;
            std::vector<std::pair<std::size_t, std::ptrdiff_t>> trail;
            struct Choice { std::size_t pc, pos, trail; };
            std::vector<Choice> choices;
            std::size_t reg_base = 0;

            void put(std::size_t s, std::ptrdiff_t v) { trail.emplace_back(s, slot[s]); slot[s] = v; }
            void undo(std::size_t to) { while (trail.size() > to) { slot[trail.back().first] = trail.back().second; trail.pop_back(); } }

            bool lb(char c) const { return c == '\n' || c == '\r'; }

            bool holds(K a, std::size_t pos) const
            {
                auto word_at = [&](std::size_t k) { return words().test(static_cast<unsigned char>(in[k])); };
                switch (a)
                {
                    case K::Boi: return pos == 0;
                    case K::Eoi: return pos == in.size();
                    case K::Bol: return pos == 0 || ((flags & multiline) && lb(in[pos - 1]));
                    case K::Eol: return pos == in.size() || ((flags & multiline) && lb(in[pos]));
                    case K::Wb: case K::NWb:
                    {
                        bool b = pos > 0 && word_at(pos - 1), f = pos < in.size() && word_at(pos);
                        return (b != f) == (a == K::Wb);
                    }
                    default: return false;
                }
            }

            // Runs from pc until Done; with full, Done only counts at the end of the input
            bool run(std::size_t pc, std::size_t &pos, bool full)
            {
                std::size_t const base = choices.size(), entry = trail.size();
                for (;;)
                {
                    if (++steps > max_steps) throw StepLimit{};
                    if (choices.size() > max_depth) max_depth = choices.size();
                    Ins const &i = p.code[pc];
                    bool ok = true;
                    switch (i.op)
                    {
                        case Op::Chr:
                            if (!i.rev)
                            {
                                if ((ok = pos < in.size() && i.set.test(static_cast<unsigned char>(in[pos])))) { ++pos; ++pc; }
                            }
                            else if ((ok = pos > 0 && i.set.test(static_cast<unsigned char>(in[pos - 1])))) { --pos; ++pc; }
                            break;
                        case Op::Split: choices.push_back({i.y, pos, trail.size()}); pc = i.x; break;
                        case Op::Jmp: pc = i.x; break;
                        case Op::Mark: case Op::CapBegin: put(reg_base + i.x, static_cast<std::ptrdiff_t>(pos)); ++pc; break;
                        case Op::NoEmpty: ok = slot[reg_base + i.x] != static_cast<std::ptrdiff_t>(pos); ++pc; break;
                        case Op::CapEnd:
                        {
                            auto a = slot[reg_base + i.x], b = static_cast<std::ptrdiff_t>(pos);
                            put(2 * i.y, i.rev ? b : a);
                            put(2 * i.y + 1, i.rev ? a : b);
                            ++pc;
                            break;
                        }
                        case Op::Back:
                        {
                            auto b = slot[2 * i.x], e = slot[2 * i.x + 1];
                            std::size_t len = static_cast<std::size_t>(e - b);
                            std::size_t at;
                            if (!i.rev) { ok = in.size() - pos >= len; at = pos; }
                            else { ok = pos >= len; at = pos - len; }
                            for (std::size_t k = 0; ok && k < len; ++k)
                            {
                                auto u = static_cast<unsigned char>(in[static_cast<std::size_t>(b) + k]);
                                auto v = static_cast<unsigned char>(in[at + k]);
                                ok = u == v || ((flags & icase) && swap_case(u) == v);
                            }
                            steps += len;
                            if (ok) { pos = i.rev ? pos - len : pos + len; ++pc; }
                            break;
                        }
                        case Op::Assert: ok = holds(i.a, pos); ++pc; break;
                        case Op::Atomic:
                        {
                            auto to = i.y;
                            if ((ok = run(pc + 1, pos, false))) pc = to;
                            break;
                        }
                        case Op::PossLoop:
                        {
                            auto to = i.y;
                            for (std::size_t c = 0; c != i.max; ++c)
                            {
                                auto next = pos;
                                if (!run(pc + 1, next, false)) break;
                                if (next == pos && i.max == INF) break;
                                pos = next;
                            }
                            pc = to;
                            break;
                        }
                        case Op::Look:
                        {
                            auto to = i.y;
                            auto next = pos;
                            auto t = trail.size();
                            ok = run(pc + 1, next, false);
                            if (i.neg) { undo(t); ok = !ok; }
                            pc = to;
                            break;
                        }
                        case Op::Done:
                            if (!full || pos == in.size())
                            {
                                choices.resize(base);
                                return true;
                            }
                            ok = false;
                    }
                    if (!ok)
                    {
                        if (choices.size() == base) { undo(entry); return false; }
                        auto c = choices.back();
                        choices.pop_back();
                        undo(c.trail);
                        pc = c.pc;
                        pos = c.pos;
                    }
                }
            }
        };
    }

    Regex::Regex(std::string_view pattern, unsigned flags) : _parsed{parse(pattern)}, _ast{_parsed.ast}, _groups{_parsed.groups}, _flags{flags}
    {
        _prog = std::make_shared<Program>();
        if (_parsed.ok)
        {
            Compiler c{*_prog, flags, _parsed.names};
            c.gen(_ast, false);
            c.emit(Op::Done);
        }
    }

    Result Regex::run(std::string_view in, std::size_t from, bool full) const
    {
        Machine m{*_prog, in, _flags, steps, max_steps, max_depth, {}, {}, {}, 0};
        m.reg_base = 2 * (_groups + 1);
        m.slot.assign(m.reg_base + _prog->regs, 0);
        std::size_t pos = from;
        auto t0 = m.trail.size();
        Result r;
        r.g.resize(_groups + 1);
        bool ok = m.run(0, pos, full);
        if (!ok) { m.undo(t0); return r; }
        r.matched = true;
        r.g[0] = {static_cast<std::ptrdiff_t>(from), static_cast<std::ptrdiff_t>(pos)};
        for (std::size_t k = 1; k <= _groups; ++k) r.g[k] = {m.slot[2 * k], m.slot[2 * k + 1]};
        return r;
    }

    Result Regex::match(std::string_view in) const { steps = 0; max_depth = 0; auto r = run(in, 0, true); total_steps += steps; return r; }
    Result Regex::prefix(std::string_view in, std::size_t from) const { steps = 0; max_depth = 0; auto r = run(in, from, false); total_steps += steps; return r; }

    Result Regex::search(std::string_view in, std::size_t from) const
    {
        steps = 0;
        max_depth = 0;
        Result r;
        for (std::size_t k = from; k <= in.size(); ++k)
        {
            r = run(in, k, false);
            if (r.matched) break;
        }
        total_steps += steps;
        return r;
    }

    std::vector<Result> Regex::find_all(std::string_view in) const
    {
        std::vector<Result> out;
        std::size_t pos = 0;
        for (;;)
        {
            auto r = search(in, pos);
            if (!r.matched) break;
            out.push_back(r);
            if (r.g[0].empty()) break;
            pos = static_cast<std::size_t>(r.g[0].e);
        }
        return out;
    }

    std::vector<Result> Regex::tokenize(std::string_view in) const
    {
        std::vector<Result> out;
        std::size_t pos = 0;
        for (;;)
        {
            auto r = prefix(in, pos);
            if (!r.matched) break;
            out.push_back(r);
            if (r.g[0].empty()) break;
            pos = static_cast<std::size_t>(r.g[0].e);
        }
        return out;
    }

    namespace
    {
        struct Sampler
        {
            std::mt19937 &rng;
            unsigned flags;
            std::size_t limit;
            std::vector<std::string> caps;
            std::vector<std::string> const &names;
            Compiler comp;
            std::size_t rnd(std::size_t n) { return n ? rng() % n : 0; }

            void gen(P const &n, std::string &out)
            {
                if (out.size() > limit) return;
                switch (n->kind)
                {
                    case K::Char: case K::Any:
                    {
                        auto s = comp.final_set(*n);
                        static char const pref[] = "abcABCxyz019_ .-\n\r\t";
                        if (rnd(8))
                            for (int t = 0; t < 12; ++t)
                            {
                                auto c = static_cast<unsigned char>(pref[rnd(sizeof pref - 1)]);
                                if (s.test(c) && s.count() > 8) { out += static_cast<char>(c); return; }
                            }
                        if (s.none()) return;
                        auto k = rnd(s.count());
                        for (std::size_t c = 0; c < 256; ++c)
                            if (s.test(c) && k-- == 0) { out += static_cast<char>(c); return; }
                        return;
                    }
                    case K::Seq: for (auto const &c : n->kids) gen(c, out); return;
                    case K::Alt: gen(n->kids[rnd(n->kids.size())], out); return;
                    case K::Group:
                    {
                        auto at = out.size();
                        gen(n->kids[0], out);
                        caps[n->id] = out.substr(at);
                        return;
                    }
                    case K::Rep:
                    {
                        std::size_t extra = n->max == INF ? rnd(4) : std::min<std::size_t>(rnd(n->max - n->min + 1), rnd(2) ? 3 : n->max);
                        if (n->max != INF && rnd(3) == 0) extra = n->max - n->min;
                        for (std::size_t c = 0; c < n->min + extra && out.size() <= limit; ++c) gen(n->kids[0], out);
                        return;
                    }
                    case K::Look: if (!n->neg && !n->behind && rnd(3) == 0) { std::string t; gen(n->kids[0], t); } return;
                    case K::Backref: case K::NamedBackref:
                    {
                        auto id = n->id;
                        if (n->kind == K::NamedBackref)
                            id = static_cast<std::size_t>(std::find(names.begin(), names.end(), n->name) - names.begin()) + 1;
                        if (id < caps.size())
                        {
                            auto t = caps[id];
                            if (flags & icase) for (auto &c : t) if (rnd(2)) c = static_cast<char>(swap_case(static_cast<unsigned char>(c)));
                            out += t;
                        }
                        return;
                    }
                    default: return;
                }
            }
        };
    }

    std::string Regex::sample(std::mt19937 &rng, std::size_t max_len) const
    {
        std::string out;
        if (!_parsed.ok) return out;
        Sampler s{rng, _flags, max_len, std::vector<std::string>(_groups + 1), _parsed.names, Compiler{*_prog, _flags, _parsed.names}};
        s.gen(_ast, out);
        return out;
    }
}
