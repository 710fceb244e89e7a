"""Seeded generator of mregex patterns: a weighted random walk over the dialect's grammar.

Every produced pattern is valid (accepted and instantiable); the harness treats a pattern the
reference model rejects as a harness error, never as a verdict.
"""

import re

FLAGS = {"icase": 1, "dotall": 2, "multiline": 4, "ungreedy": 8, "unroll": 16}

DEFAULT = dict(
    alphabet="ab",
    lit=10, dot=2, set=3, cls=1, esc=0.5,
    cap=4, ncap=3, named=1, atomic=1, empty_group=0.3,
    look_ahead=0.7, look_behind=0.7, neg=0.5,
    anchor=0.5, wordb=0.3, backref=0.8,
    quant=0.45,            # probability that a quantifiable item gets a quantifier
    lazy=0.25, possessive=0.15,
    alt=0.3,               # probability that a group / the top level has alternatives
    max_seq=3, max_depth=3, max_alt=3,
    max_groups=4, max_nodes=7,
    special=.15,           # probability of an unusual alphabet
    forward=False,         # forward-only iterators: no lookbehind, no word boundaries
)

QUANTS = ["*", "+", "?", "*", "+", "?", "{2}", "{0,2}", "{1,3}", "{2,}", "{0,1}", "{3}", "{1,2}", "{0,}", "{1}", "{2,4}", "{0}"]

GROUP_QUANTS = ["*", "+", "?", "*", "+", "?", "{2}", "{0,2}", "{1,2}", "{2,}", "{1,3}", "{1}", "{0}"]


class Gen:
    def __init__(self, rng, **kw):
        self.r = rng
        self.o = dict(DEFAULT)
        self.o.update(kw)

    SPECIAL = "abAZ09_- \n\r\t\x00\x0b\x0c\x1f\x7f\x80\x85\xa0\xe9\xff.@[`{,:/!"

    def pattern(self):
        base = self.o["alphabet"]
        if self.r.random() < self.o["special"]:
            # now and then a few unusual characters
            self.o["alphabet"] = "".join(self.r.sample(self.SPECIAL, self.r.choice([2, 2, 3])))
        try:
            return self.pattern_()
        finally:
            self.o["alphabet"] = base

    def pattern_(self):
        while True:
            self.groups = 0
            self.names = []
            self.nodes = 0
            self.nlook = 0
            p = self.alt(0, False)
            p = self.resolve(p)
            if p:
                return p

    def wide(self):
        """Long sequences and many alternatives, nested: structure whose size matters rather than its variety."""
        while True:
            self.groups, self.names, self.nodes, self.nlook = 0, [], 0, 0
            p = self.resolve(self.wide_alt(0))
            if p:
                return p

    def wide_alt(self, depth):
        r = self.r
        x = r.random()
        if x < (.2 if depth == 0 else .4):
            return "|".join(self.wide_seq(depth, r.choice([1, 1, 2, 3, 4])) for _ in range(r.choice([2, 3, 4, 5, 6, 8])))
        return self.wide_seq(depth, r.choice([3, 4, 4, 5, 5, 6, 7, 8, 10]))

    def wide_seq(self, depth, n):
        r, o = self.r, self.o
        nested = set(r.sample(range(n), min(n, r.choice([0, 1, 1, 2])))) if depth < 2 and self.nodes < 26 else ()
        out = []
        for i in range(n):
            self.nodes += 1
            if i in nested:
                k = r.random()
                if k < .3 and self.groups < 6:
                    self.groups += 1
                    s = "(" + self.wide_alt(depth + 1) + ")"
                elif k < .38 and self.groups < 6:
                    self.groups += 1
                    self.names.append("n%d" % self.groups)
                    s = "(?<%s>" % self.names[-1] + self.wide_alt(depth + 1) + ")"
                elif k < .75:
                    s = "(?:" + self.wide_alt(depth + 1) + ")"
                elif k < .83:
                    s = "(?>" + self.wide_alt(depth + 1) + ")"
                elif k < .93 or o["forward"]:
                    s = r.choice(["(?=", "(?!"]) + self.wide_alt(depth + 1) + ")"
                else:
                    s = r.choice(["(?<=", "(?<!"]) + self.wide_alt(depth + 1) + ")"
                if r.random() < .25:
                    s += r.choice(["?", "*", "+", "{2}", "??", "*?", "+?", "?+", "*+", "++"])
            else:
                k = r.random()
                a = r.choice(o["alphabet"])
                s = ("\\" + a if a in "\\^$.|?*+()[]{}" else a) if k < .7 else r.choice([".", "[ab]", "[^b]", "\\w", "\\W", "[]", "(?:)"][:5]) if k < .85 else "\x01" if k < .89 else r.choice(["^", "$", "()"] if self.groups < 6 and False else ["^", "$", "(?:)"]) if k < .92 else a
                if k < .88 and r.random() < .22:
                    s += r.choice(["?", "*", "+", "??", "*?", "+?", "{2}", "?+", "*+", "{1,2}", "{0,2}?"])
            out.append(s)
        return "".join(out)

    # Backreference placeholders: \x01 numeric, \x02 named (resolved when the number of groups is known)
    def resolve(self, p):
        out = []
        i = 0
        while i < len(p):
            c = p[i]
            if c == "\x01":
                if self.groups == 0:
                    out.append("a")
                else:
                    k = self.r.randint(1, self.groups)
                    nxt = p[i + 1] if i + 1 < len(p) else ""
                    out.append("(?:\\%d)" % k if nxt.isdigit() or self.r.random() < .05 else "\\%d" % k)
            elif c == "\x02":
                out.append("\\k<%s>" % self.r.choice(self.names) if self.names else "b")
            else:
                out.append(c)
            i += 1
        return "".join(out)

    def alt(self, depth, must):
        r, o = self.r, self.o
        n = 1
        if r.random() < o["alt"] * (1.5 if depth else 1):
            n = r.randint(2, o["max_alt"])
        return "|".join(self.seq(depth) for _ in range(n))

    def seq(self, depth):
        n = self.r.randint(1, self.o["max_seq"] if depth == 0 else max(1, self.o["max_seq"] - 1))
        if self.nodes >= self.o["max_nodes"]:
            n = 1
        return "".join(self.item(depth) for _ in range(n))

    def choose(self, table):
        t = sum(w for _, w in table)
        x = self.r.random() * t
        for k, w in table:
            x -= w
            if x <= 0:
                return k
        return table[-1][0]

    def item(self, depth):
        r, o = self.r, self.o
        self.nodes += 1
        deep = depth < o["max_depth"] and self.nodes < o["max_nodes"]
        table = [("lit", o["lit"]), ("dot", o["dot"]), ("set", o["set"]), ("cls", o["cls"]), ("esc", o["esc"]), ("anchor", o["anchor"])]
        if not o["forward"]:
            table.append(("wordb", o["wordb"]))
        table.append(("backref", o["backref"]))
        if deep:
            if self.groups < o["max_groups"]:
                table += [("cap", o["cap"]), ("named", o["named"]), ("empty_group", o["empty_group"])]
            table += [("ncap", o["ncap"]), ("atomic", o["atomic"]), ("look_ahead", o["look_ahead"])]
            if not o["forward"]:
                table.append(("look_behind", o["look_behind"]))
        k = self.choose(table)
        q = True
        if k == "lit":
            a = r.choice(o["alphabet"])
            s = "\\" + a if a in "\\^$.|?*+()[]{}" else a
        elif k == "dot":
            s = "."
        elif k == "set":
            s = self.set()
        elif k == "cls":
            s = r.choice(["\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\R", "\\N"])
        elif k == "esc":
            s = r.choice(["\\n", "\\t", "\\r", "\\x61", "\\x62", "\\xC3", "\\0", "\\-", "\\.", "\\e", "\\v"])
        elif k == "anchor":
            s = r.choice(["^", "$", "^", "$", "\\A", "\\Z"])
            q = False
        elif k == "wordb":
            s = r.choice(["\\b", "\\B"])
            q = False
        elif k == "backref":
            s = r.choice("\x01\x01\x02")
        elif k == "cap":
            self.groups += 1
            s = "(" + self.alt(depth + 1, True) + ")"
        elif k == "named":
            self.groups += 1
            n = "n%d" % self.groups if r.random() < .8 else r.choice(["_", "A", "name_", "x9"]) + "_%d" % self.groups
            self.names.append(n)
            s = "(?<%s>" % n + self.alt(depth + 1, True) + ")"
        elif k == "empty_group":
            if r.random() < .5:
                self.groups += 1
                s = "()"
            else:
                s = "(?:)"
        elif k == "ncap":
            s = "(?:" + self.alt(depth + 1, True) + ")"
        elif k == "atomic":
            s = "(?>" + self.alt(depth + 1, True) + ")"
        elif k == "look_ahead":
            s = ("(?!" if r.random() < o["neg"] else "(?=") + self.alt(depth + 1, True) + ")"
        else:
            s = ("(?<!" if r.random() < o["neg"] else "(?<=") + self.alt(depth + 1, True) + ")"
        if q and r.random() < o["quant"] * (0.35 if k in ("look_ahead", "look_behind", "empty_group") else 1):
            s += self.quant(k in ("cap", "named", "ncap", "atomic"))
        return s

    def quant(self, group=False):
        r, o = self.r, self.o
        s = r.choice(o.get("quants", GROUP_QUANTS if group else QUANTS))
        x = r.random()
        if x < o["lazy"]:
            s += "?"
        elif x < o["lazy"] + o["possessive"]:
            s += "+"
        return s

    def set(self):
        r, o = self.r, self.o
        a = o["alphabet"]
        n = r.randint(0, 3) if r.random() < .1 else r.randint(1, 3)
        parts = []
        for _ in range(n):
            k = r.random()
            if k < .5:
                c = r.choice(a)
                parts.append("\\" + c if c in "\\^]-[" else c)
            elif k < .8:
                lo, hi = sorted([ord(r.choice(a)), ord(r.choice(a + "cz"))])
                parts.append("%s-%s" % (self.setchar(lo), self.setchar(hi)))
            elif k < .95:
                parts.append(r.choice(["\\d", "\\w", "\\s", "\\D", "\\W", "\\S", "\\R", "\\N"]))
            else:
                parts.append(r.choice(["\\n", "\\x41", "\\b", "."]))
        return "[" + ("^" if r.random() < .3 else "") + "".join(parts) + "]"

    @staticmethod
    def setchar(c):
        ch = chr(c)
        return "\\" + ch if ch in "\\^]-[" else ch


def cxx_literal(p):
    """C++ string literal for a byte string given as a latin-1 str."""
    out = []
    for ch in p:
        c = ord(ch)
        if ch in '"\\':
            out.append("\\" + ch)
        elif ch == "?":
            out.append("\\?")
        elif 32 <= c < 127:
            out.append(ch)
        else:
            out.append("\\%03o" % c)
    return '"' + "".join(out) + '"'


def flag_mask(flags):
    return sum(FLAGS[f] for f in set(flags))


def fill_empty(p):
    """The dialect has no empty alternatives; write them as (?:)."""
    E = "(?:)"
    out = []
    i = 0
    start = True        # at the start of an alternative
    while i < len(p):
        c = p[i]
        if c == "\\":
            out.append(p[i:i + 2]); i += 2; start = False
            continue
        if c == "[":
            j = i + 1
            while p[j] != "]":
                j += 2 if p[j] == "\\" else 1
            out.append(p[i:j + 1]); i = j + 1; start = False
            continue
        if c == "|":
            if start:
                out.append(E)
            out.append(c); i += 1; start = True
            continue
        if c == "(":
            m = re.match(r"\((\?(?:[:=!>]|<[=!]|<\w+>))?", p[i:])
            # an entirely empty group is fine as it is
            out.append(m.group(0)); i += m.end()
            if p[i:i + 1] == ")":
                out.append(")"); i += 1; start = False
            else:
                start = True
            continue
        if c == ")" and start:
            out.append(E)
        out.append(c); i += 1; start = False
    if start and p:
        out.append(E)
    return "".join(out)
