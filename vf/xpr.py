"""Random expressions of the expression API, each with the pattern string of the same structure."""
from .gen import cxx_literal

SPECIAL = set("\\^$.|?*+()[]{}")
TERMINALS = [("empty", "(?:)"), ("nothing", "[]"), ("begin_line", "^"), ("end_line", "$"), ("begin_input", "\\A"), ("end_input", "\\Z"), ("word_boundary", "\\b"),
             ("whitespace", "\\s"), ("wildcard", "."), ("lower", "[a-z]"), ("upper", "[A-Z]"), ("digit", "\\d"), ("word", "\\w"), ("linebreak", "\\R")]
SINGLE = {"nothing", "whitespace", "wildcard", "lower", "upper", "digit", "word", "linebreak"}
ASSERT = {"begin_line", "end_line", "begin_input", "end_input", "word_boundary"}
MODE = ["greedy", "lazy", "possessive"]
SUFFIX = {"greedy": "", "lazy": "?", "possessive": "+"}
EMBEDDED = ["a|b", "ab", "a*", "a+?", "[ab]", "[^a]", "a|bc|c", "(?:ab)+", "(?=a)", "(?<!a)", "a{2}", "(?>a|ab)", "a??b", "(?:a|(?:))b", ".", "\\w+", "^|b", "a*+", "(?:)", "a?b?"]
CAPTURING = ["(a)", "(a)|b", "(a|b)\\1", "(?<e>a+)", "((a)b)?", "(a)(b)*", "(?<e>a)|(b)", "(?:(a)|b)+", "(?=(a))a"]


def char(c):
    return "'\\%03o'" % ord(c) if c in "'\\" or not 32 <= ord(c) < 127 else "'%s'" % c


def esc(c):
    if c in SPECIAL:
        return "\\" + c
    if not 32 <= ord(c) < 127:
        return "\\x%02x" % ord(c)
    return c


class Node:
    """kind: atom (one quantifiable unit), seq, alt; single: matches by looking at one character; assertion."""

    def __init__(self, cxx, pat, kind, single=False, assertion=False, op=False):
        self.cxx, self.pat, self.kind, self.single, self.assertion, self.op = cxx, pat, kind, single, assertion, op

    def c(self):
        return "(%s)" % self.cxx if self.op else self.cxx

    def unit(self):
        return self.pat if self.kind == "atom" else "(?:%s)" % self.pat

    def part(self):
        return "(?:%s)" % self.pat if self.kind == "alt" else self.pat


class XGen:
    def __init__(self, rng, alphabet="ab", nodes=9, depth=4, forward=False, ops=.5):
        self.r, self.alphabet, self.max_nodes, self.depth, self.forward, self.ops = rng, alphabet, nodes, depth, forward, ops

    def make(self):
        self.groups, self.names, self.nodes, self.embedded = 0, [], 0, False
        self.numbers = []
        return self.node(0)

    def pick(self, table):
        x = self.r.random() * sum(w for _, w in table)
        for k, w in table:
            x -= w
            if x <= 0:
                return k
        return table[-1][0]

    def several(self, d):
        return [self.node(d) for _ in range(self.pick([(1, 6), (2, 3), (3, 1)]))]

    def packed(self, args):
        """Arguments of a wrapper are concatenated."""
        cxx = ", ".join(a.cxx for a in args)
        pat = args[0].pat if len(args) == 1 else "".join(a.part() for a in args)
        return cxx, pat

    def single(self):
        r = self.r
        k = self.pick([("chr", 5), ("range", 2), ("term", 3), ("set", 2)])
        if k == "chr":
            c = r.choice(self.alphabet)
            return Node("x::chr<%s>" % char(c), esc(c), "atom", True)
        if k == "range":
            lo, hi = sorted([r.choice(self.alphabet), r.choice(self.alphabet + "cz")])
            hx = lambda c: "\\" + c if c in "]-^\\[" else (c if 32 <= ord(c) < 127 else "\\x%02x" % ord(c))
            return Node("x::range<%s, %s>" % (char(lo), char(hi)), "[%s-%s]" % (hx(lo), hx(hi)), "atom", True)
        if k == "term":
            n, p = r.choice([t for t in TERMINALS if t[0] in SINGLE])
            return Node("x::" + n, p, "atom", True)
        p = r.choice(["[ab]", "[^a]", "[a-c_]", "[^\\w]", "[\\d\\s]", "[]", "[^]"])
        return Node("x::regex<%s>" % cxx_literal(p), p, "atom", True)

    def assertion(self, d):
        r = self.r
        k = self.pick([("term", 3), ("ahead", 2), ("behind", 0 if self.forward else 2)])
        if k == "term":
            n, p = r.choice([t for t in TERMINALS if t[0] in ASSERT and not (self.forward and t[0] == "word_boundary")])
            return Node("x::" + n, p, "atom", False, True)
        cxx, pat = self.packed(self.several(d + 1))
        return Node("x::%s(%s)" % (k, cxx), "(?%s=%s)" % ("<" if k == "behind" else "", pat), "atom", False, True)

    def negate(self, n):
        cxx = "!%s" % n.c() if self.r.random() < self.ops else "x::negate(%s)" % n.cxx
        op = cxx.startswith("!")
        if n.single:
            return Node(cxx, "(?:(?!%s)[^])" % n.pat, "atom", True, False, op)
        direct = {"(?=": "(?!", "(?<=": "(?<!"}
        for a, b in direct.items():
            if n.pat.startswith(a):
                return Node(cxx, b + n.pat[len(a):], "atom", False, True, op)
        if n.pat == "\\b":
            return Node(cxx, "\\B", "atom", False, True, op)
        return Node(cxx, "(?!%s)" % n.pat, "atom", False, True, op)

    def node(self, d):
        r = self.r
        self.nodes += 1
        leaf = d >= self.depth or self.nodes >= self.max_nodes
        table = [("single", 7), ("str", 3), ("assertion", 1), ("empty", .4), ("neg_single", 2), ("neg_assertion", 1), ("regex", 2)]
        if self.groups:
            table += [("group", 2)]
        if self.names:
            table += [("group_named", 2)]
        if not leaf:
            table += [("concat", 9), ("either", 6), ("rep", 9), ("atomic", 2), ("capture", 6)]
        if not self.groups and not self.embedded and r.random() < .3:
            table += [("regex_cap", 3)]
        k = self.pick(table)
        if k == "single":
            return self.single()
        if k == "str":
            s = "".join(r.choice(self.alphabet) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4])))
            if not s:
                return Node('x::str<"">', "(?:)", "atom")
            return Node("x::str<%s>" % cxx_literal(s), "".join(esc(c) for c in s), "atom" if len(s) == 1 else "seq")
        if k == "assertion":
            return self.assertion(d)
        if k == "empty":
            return Node("x::empty", "(?:)", "atom")
        if k == "neg_single":
            s = self.single()
            if r.random() < .25:
                t = self.single()
                s = Node("%s | %s" % (s.c(), t.c()), "(?:%s|%s)" % (s.pat, t.pat), "atom", True, False, True)
            s = self.negate(s)
            return self.negate(s) if r.random() < .15 else s
        if k == "neg_assertion":
            a = self.negate(self.assertion(d))
            return self.negate(a) if r.random() < .15 else a
        if k == "regex":
            p = r.choice([p for p in EMBEDDED if not (self.forward and "?<" in p)])
            return Node("x::regex<%s>" % cxx_literal(p), p, "alt" if "|" in p and not p.startswith("(") else "atom" if p.startswith("[") or len(p) == 1 or p in ("(?=a)", "(?<!a)", "(?:)") else "seq")
        if k == "regex_cap":
            p = r.choice(CAPTURING)
            from .work import groups_of
            g = groups_of(p)
            self.groups += len(g)
            self.names += [x for x in g if x]
            self.embedded = True
            return Node("x::regex<%s>" % cxx_literal(p), p, "alt" if p in ("(a)|b", "(?<e>a)|(b)") else "seq")
        if k == "group":
            i = r.randint(1, self.groups)
            return Node("x::group<%d>" % i, "(?:\\%d)" % i, "atom")
        if k == "group_named":
            n = r.choice(self.names)
            return Node('x::group_named<"%s">' % n, "\\k<%s>" % n, "atom")
        if k in ("concat", "either"):
            args = [self.node(d + 1) for _ in range(self.pick([(2, 6), (3, 4), (4, 1), (1, .5)]))]
            joined = args[0].pat if len(args) == 1 else "".join(a.part() for a in args) if k == "concat" else "|".join(a.pat for a in args)
            kind = args[0].kind if len(args) == 1 else "seq" if k == "concat" else "alt"
            single = len(args) == 1 and args[0].single
            if len(args) > 1 and r.random() < self.ops:
                return Node(self.tree(args, ">>" if k == "concat" else "|"), joined, kind, op=True)
            return Node("x::%s(%s)" % (k, ", ".join(a.cxx for a in args)), joined, kind, single)
        if k == "atomic":
            cxx, pat = self.packed(self.several(d + 1))
            return Node("x::atomic(%s)" % cxx, "(?>%s)" % pat, "atom")
        if k == "capture":
            # preorder: the number is given before the content is made
            self.groups += 1
            i = self.groups
            self.numbers.append(i)
            name = "n%d" % i if r.random() < .4 else ""
            hold = list(self.names)
            cxx, pat = self.packed(self.several(d + 1))
            if name:
                self.names.append(name)
            return Node('x::capture<%d%s>(%s)' % (i, ', "%s"' % name if name else "", cxx), "(%s%s)" % ("?<%s>" % name if name else "", pat), "atom")
        # Repetitions
        args = self.several(d + 1)
        cxx, pat = self.packed(args)
        unit = args[0].unit() if len(args) == 1 else "(?:%s)" % pat
        if len(args) == 1 and args[0].kind == "atom" and (unit[-1:] in "*+?}" or unit in ("^", "$", "\\A", "\\Z", "\\b", "\\B")):
            unit = "(?:%s)" % unit
        f = self.pick([("zero_or_more", 4), ("one_or_more", 4), ("maybe", 3), ("at_least", 2), ("between", 2), ("exactly", 2)])
        m = r.choice(["", ""] + MODE)
        if len(args) == 1 and not m and f in ("zero_or_more", "one_or_more") and r.random() < self.ops:
            return Node(("*" if f == "zero_or_more" else "+") + args[0].c(), unit + ("*" if f == "zero_or_more" else "+"), "seq", op=True)
        mm = "meta::match_mode::%s" % m if m else ""
        if f == "zero_or_more":
            t, q = ([mm] if mm else []), "*"
        elif f == "one_or_more":
            t, q = ([mm] if mm else []), "+"
        elif f == "maybe":
            t, q = ([mm] if mm else []), "?"
        elif f == "at_least":
            a = r.randint(0, 3)
            t, q = [str(a)] + ([mm] if mm else []), "{%d,}" % a
        elif f == "exactly":
            a = r.choice([0, 1, 2, 3])
            t, q = [str(a)] + ([mm] if mm else []), "{%d}" % a
        else:
            a, b = sorted([r.randint(0, 3), r.randint(0, 3)])
            t, q = [str(a), str(b)] + ([mm] if mm else []), "{%d,%d}" % (a, b)
        targs = "<%s>" % ", ".join(t) if t else ""
        return Node("x::%s%s(%s)" % (f, targs, cxx), unit + q + SUFFIX.get(m, ""), "seq")

    def tree(self, args, op):
        """Any bracketing of an associative operator."""
        if len(args) == 1:
            return args[0].c()
        k = self.r.randint(1, len(args) - 1)
        l, r = args[:k], args[k:]
        lt, rt = self.tree(l, op), self.tree(r, op)
        return "%s %s %s" % ("(%s)" % lt if len(l) > 1 and self.r.random() < .5 else lt, op, "(%s)" % rt if len(r) > 1 else rt)
