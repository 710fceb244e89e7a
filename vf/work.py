"""Workload building blocks shared by the checks."""
import re

from .engine import *
from .gen import FLAGS, Gen, cxx_literal, fill_empty

ALL_FLAGS = list(FLAGS)


def fwd_ok(p):
    return not re.search(r"\(\?<[=!]|\\[bB]", p.replace("\\\\", ""))


def lb_ok(p):
    return True


def pick_kind(rng, p, i=None, ptr=0.45):
    """One iterator kind, usable with the pattern."""
    if rng.random() < ptr:
        return PTR
    ks = [LIST, LIST, DEQUE, REV, VEC]
    if fwd_ok(p):
        ks += [FWD, FWD, FWD, GFW]
    return rng.choice(ks)


def three_kinds(p):
    """Random access, bidirectional and (when the pattern allows it) forward-only."""
    return PTR | LIST | (FWD if fwd_ok(p) else 0)


def random_flags(rng, p=0.35, among=ALL_FLAGS):
    if rng.random() >= p:
        return ()
    k = 1 if rng.random() < .6 else rng.randint(1, len(among))
    return tuple(rng.sample(list(among), min(k, len(among))))


def interesting(p):
    return len(p) >= 3 and re.search(r"[*+?{|()\[\\.^$]", p)


def random_cases(ck, n, methods=BASIC, flag_p=0.35, flags=ALL_FLAGS, ptr=0.45, need=None, kinds=None, extra=None, max_len=60, **opts):
    """n distinct random patterns from the generator, each with random flags and one iterator kind."""
    rng = ck.rng
    g = Gen(rng, **opts)
    seen = set()
    out = []
    tries = 0
    while len(out) < n and tries < n * 60:
        tries += 1
        p = g.pattern()
        if p in seen or len(p) > max_len or not interesting(p) or (need and not re.search(need, p)):
            continue
        seen.add(p)
        m = methods(rng) if callable(methods) else methods
        k = kinds(rng, p) if callable(kinds) else (kinds or pick_kind(rng, p, ptr=ptr))
        out.append(Case(p, random_flags(rng, flag_p, flags), m, k, extra=extra(g, p) if extra else None))
    return out


def wide_cases(ck, n, methods=BASIC, flag_p=.3, ptr=.6, extra=None, max_len=110, need=None, **opts):
    rng = ck.rng
    g = Gen(rng, **opts)
    seen, out = set(), []
    for _ in range(n * 60):
        p = g.wide()
        if len(out) >= n:
            break
        if p in seen or len(p) > max_len or (need and not re.search(need, p)):
            continue
        seen.add(p)
        out.append(Case(p, random_flags(rng, flag_p), methods, pick_kind(rng, p, ptr=ptr), extra=extra(g, p) if extra else None, budget=220))
    return out


def mixed_methods(rng):
    """Mostly the basic three, sometimes all of them."""
    x = rng.random()
    return BASIC if x < .7 else BASIC | FIND_ALL if x < .85 else ALL_METHODS


def curated(ps, methods=BASIC, flags=(), kinds=three_kinds, **kw):
    out = []
    for p in ps:
        fl = flags
        inputs = ()
        if isinstance(p, tuple):
            p, rest = p[0], p[1:]
            for x in rest:
                if isinstance(x, str):
                    fl = tuple(f for f in x.split(",") if f)
                else:
                    inputs = x
        out.append(Case(fill_empty(p), fl, methods, kinds(p) if callable(kinds) else kinds, inputs, **kw))
    return out


def long_case(p, inputs, flags=(), methods=BASIC, kinds=PTR, steps=4000000):
    """inputs: C++ expressions; few generated inputs besides."""
    return Case(p, flags, methods, kinds, inputs, budget=40, steps=steps, tag="long")


def R(s, n):
    """C++ expression for s repeated n times."""
    return "vf::rep(std::string_view(%s, %d), %d)" % (cxx_literal(s), len(s), n)


def S(s):
    return "std::string(%s, %d)" % (cxx_literal(s), len(s))


# Patterns of real programs: log lines, numbers, addresses, markup, source code
REALISTIC = [
    r"(\d{1,2})/(\d{1,2})/(\d{2,4})", r"(\d{4})-(0[1-9]|1[0-2])-(0[1-9]|[12]\d|3[01])", r"[-+]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][-+]?\d+)?",
    r"(?:ftp|ssh|https?)://(?<domain>[-.a-z]+\.com)(?:/\S*)?", r"[\w.+-]+@[\w-]+\.[\w.-]+", r"(?:(?:25[0-5]|2[0-4]\d|1?\d?\d)\.){3}(?:25[0-5]|2[0-4]\d|1?\d?\d)",
    r"#(?:[0-9a-fA-F]{3}){1,2}\b", r"<(\w+)(?:\s+\w+=(?:\"[^\"]*\"|'[^']*'))*\s*>.*?</\1>", r"\"(?:[^\"\\]|\\.)*\"", r"'(?:[^'\\]++|\\.)*+'",
    r"/\*(?:[^*]|\*+[^*/])*\*+/", r"//.*$", r"^\s*(?<key>\w+)\s*=\s*(?<value>.*?)\s*$", r"\b(\w+)\s+\1\b", r"(?<!\d)\d{3}(?!\d)", r"\w+(?=\()",
    r"(?<=\$)\d+(?:\.\d\d)?", r"^(?=.*\d)(?=.*[a-z])(?=.*[A-Z]).{4,8}$", r"(?:[^,\n]*,)*?[^,\n]*", r"^(?:(?!foo).)*$", r"(?>\w+)\s*:", r"(\()?\d+(?:\))?",
    r"([01]?\d|2[0-3]):[0-5]\d(?::[0-5]\d)?", r"\[(?<lvl>INFO|WARN|ERROR)\]\s(?<msg>.+)", r"\s+|[^\s\w]+", r"(?:a|ab)(?:c|bcd)(?:d*)", r"x*", r"(a+|b+)*c",
    r"(?:(a)|(b)|(c))+", r"\A\s*\Z", r"[A-Za-z_]\w*", r"0[xX][\da-fA-F]+|0[0-7]*|[1-9]\d*", r"(?:\r\n|\n|\r)", r"[^\r\n]+", r"(.)(.)(.)\3\2\1", r".*(?<=ab)c", r"(?i)?a",
]
REALISTIC = [p for p in REALISTIC if "(?i)" not in p]

REALISTIC_INPUTS = [
    b"07/08/2021", b"1999-12-31 and 2000-01-01", b"-12.5e+10 .5 3.", b"https://www.foo-bar.com/path?x=1 ftp://a.com", b"john.doe+tag@mail.example.org, x@y.z",
    b"192.168.0.255 256.1.1.1", b"#fff #12aBc4 #12345", b"<b class=\"x\">bold</b><i>it</b></i>", b"say \"he\\\"y\" 'it\\'s'", b"/* a * b **/ x /* y */ // c\n",
    b"  key = some value  ", b"the the cat sat sat", b"123 4567 89 (42)", b"cost $15.99 and $7", b"aB3x", b"a,b,,c\nd", b"foofoo barfoo", b"label : x", b"23:59:59 7:05 24:00",
    b"[ERROR] disk full", b"0x1F 077 42 0", b"line1\r\nline2\nline3\rline4", b"abccba xyzzyx", b"aaabbbccc", b"", b"\x00\xff\x80", b"abcd",
]


def realistic(methods=BASIC, flags=(), kinds=three_kinds):
    return [Case(p, flags, methods, kinds(p) if callable(kinds) else kinds, REALISTIC_INPUTS, budget=150) for p in REALISTIC]


def groups_of(p):
    """Names ('' = unnamed) of the capturing groups in order of their opening parenthesis."""
    out = []
    i = 0
    while i < len(p):
        c = p[i]
        if c == "\\":
            i += 2
            continue
        if c == "[":
            i += 1
            if i < len(p) and p[i] == "^":
                i += 1
            while i < len(p) and p[i] != "]":
                i += 2 if p[i] == "\\" else 1
        elif c == "(":
            if p[i + 1:i + 2] != "?":
                out.append("")
            else:
                m = re.match(r"\(\?<([A-Za-z_]\w*)>", p[i:])
                if m:
                    out.append(m.group(1))
        i += 1
    return out


def names_extra(p, template="NamesCheck"):
    return "vf::%s<%s>" % (template, ", ".join('vf::Group<"%s", %d>' % (n, k + 1) for k, n in enumerate(groups_of(p))))


# Decisions that have to be taken back far away from where they were made:
# (pattern, inputs as a function of the distance, largest distance)
FAR = [
    (".*b", lambda d: [S("b") + " + " + R("a", d), S("xb") + " + " + R("ab", d // 2) + " + " + R("x", d)], 70000),
    ("[ab]*b", lambda d: [S("b") + " + " + R("a", d), S("ab") + " + " + R("a", d) + " + " + S("c"), R("a", d)], 70000),
    ("x.*y.z", lambda d: [S("xyaz") + " + " + R("a", d), S("xyaz") + " + " + R("y", d)], 60000),
    ("\\w+ ", lambda d: [S("a ") + " + " + R("b", d), R("b", d) + " + " + S(" ")], 60000),
    ("(.*)b(.*)", lambda d: [S("ab") + " + " + R("c", d), R("c", d) + " + " + S("b")], 60000),
    (".*?b.*c", lambda d: [R("a", d) + " + " + S("bc") + " + " + R("a", d)], 60000),
    ("a{3,}b?a{4}$", lambda d: [R("a", d)], 60000),
    ("a*a{200}", lambda d: [R("a", d), R("a", 199), R("a", 200)], 3000),
    ("(?:ab)*(?<=^ab)", lambda d: [R("ab", d)], 300),
    ("(a|b)*(?<=^b)", lambda d: [S("b") + " + " + R("a", d), R("ab", d)], 300),
    ("(?:a|ab|b)*(?<=^ab)c?", lambda d: [R("ab", d)], 9),
    ("(ab)+(?<!b.)$|a", lambda d: [R("ab", d) + " + " + S("c")], 300),
    ("(?:(a)|b)+?(?<=^a*)c", lambda d: [R("a", d) + " + " + S("c"), R("a", d) + " + " + S("bc")], 300),
    ("(?:a?b?){2,}c", lambda d: [R("b", d) + " + " + S("c")], 12),
    (".*(?<=b)a", lambda d: [S("ba") + " + " + R("a", d), R("a", d)], 3000),
    ("(?=.*b)a|(?!.*c)b", lambda d: [S("a") + " + " + R("a", d) + " + " + S("b"), S("b") + " + " + R("a", d), S("bc") + " + " + R("a", d)], 20000),
    ("(.+)\\1$", lambda d: [R("a", 2 * d), R("ab", d) + " + " + S("b"), R("a", d) + " + " + S("b") + " + " + R("a", d) + " + " + S("b")], 300),
    (".*(?=b)", lambda d: [S("b") + " + " + R("a", d)], 20000),
    ("[^]*^b", lambda d: [S("\nb") + " + " + R("a", d), S("b") + " + " + R("\n", d)], 20000),
    (".*\\bb", lambda d: [S("a b") + " + " + R("c", d)], 20000),
    ("(?:.*b){2}", lambda d: [S("bb") + " + " + R("a", d), S("ab") + " + " + R("a", d)], 300),
    ("(?>.*?b)c|.*d", lambda d: [R("a", d) + " + " + S("bd") + " + " + R("a", d)], 20000),
]
FAR_BEHIND = [
    ("(?<=b.*)c", lambda d: [R("a", d) + " + " + S("bc"), S("b") + " + " + R("a", d) + " + " + S("c")], 3000),
    ("c(?<=^b[^]*)", lambda d: [S("b") + " + " + R("a", d) + " + " + S("c"), R("a", d) + " + " + S("c")], 3000),
    ("c(?<=(a*)b(.*))", lambda d: [R("a", d) + " + " + S("bc"), R("a", 5) + " + " + S("b") + " + " + R("d", d) + " + " + S("c")], 2000),
    ("$(?<=(?:ab)*b?)", lambda d: [R("ab", d), S("b") + " + " + R("ab", d)], 200),
    ("c(?<!b.*)", lambda d: [R("a", d) + " + " + S("bc"), R("a", d) + " + " + S("c")], 3000),
]


def far_cases(rng, table, count, kinds=(PTR, PTR, LIST), flag_p=.3, methods=MATCH | PREFIX):
    out = []
    for p, f, most in rng.sample(table, min(count, len(table))):
        # one distance of every order of magnitude
        ds = sorted({rng.choice(x) for x in ([9, 12], [17, 33, 40], [65, 100, 101, 128, 129, 130], [255, 256, 257, 300], [1000, 1025, 3000], [4097, 20000], [40000, 65536, 70000]) if min(x) <= most} & set(range(most + 1)))
        k = rng.choice(kinds)
        m = methods if "(?<=" not in p and "(?<!" not in p or not p[0] in "(c$" else SEARCH
        if k != PTR:
            ds = [d for d in ds if d <= 3000]
        out.append(long_case(p, [x for d in ds for x in f(d)], random_flags(rng, flag_p, ["icase", "unroll", "dotall"]), m, k))
        out[-1].budget = 15
    return out


# Every construct that passes the position and the context of the match on to its parts
_Q = ["", "?", "+"]
CONSTRUCTS = (["(?:{0})", "({0})", "(?>{0})", "(?:{0}|[])", "(?:[]|{0})", "(?:b|{0}|a)", "(?<n>{0})?", "(?:({0})|b)+", "(?>(?:{0})*)", "(?={0}).", "(?!{0}).", "(?<={0})", "(?<!{0})", ".(?<={0})", ".(?<!{0})", "(?:(?={0}).)*"] +
              ["(?:{0}){{2}}" + q for q in _Q] + ["(?:{0}){{3}}" + q for q in _Q] + ["(?:{0})" + c + q for c in ("*", "+", "?") for q in _Q] + ["(?:{0}){{%s}}" % c + q for c in ("1,2", "2,3", "2,", "0,2") for q in _Q] + ["({0}){{2}}" + q for q in _Q] + ["(?>{0}){{1}}", "(?:{0}){{1}}+"])


def in_every_construct(ck, assertions, per, flags, texts=(), lit=("a", "b"), fwd=True):
    """Assertions inside and behind every construct, after at least one consumed character."""
    rng = ck.rng
    x, y = lit
    bodies = ["{0}%s" % x, "%s{0}" % x, "%s{0}%s?" % (x, y), "(?:%s|%s){0}" % (x, y), "(%s){0}." % x, "(?:%s|%s{0}%s)" % (y, x, x), "{0}.{0}", "%s%s{0}|%s" % (x, y, x), "(?:%s{0})*%s" % (x, y), "[%s%s]+{0}" % (x, y)]
    cases = []
    for c in CONSTRUCTS:
        for a in assertions:
            for _ in range(per):
                if rng.random() < .65:
                    p = c.format(rng.choice(bodies).format(a))
                else:
                    p = c.format(rng.choice([x, x + y, "(%s)" % x, "%s|%s%s" % (x, x, y), "."])) + a
                p = rng.choice(["", ".", ".", x, "[^]*?", "^.", "(?:%s|%s)" % (y, x)]) + p + rng.choice(["", "", "", y, ".*", "$"])
                cases.append(Case(fill_empty(p), random_flags(rng, .6, flags), rng.choice([BASIC, BASIC, BASIC | FIND_ALL]), pick_kind(rng, p, ptr=.5), texts, budget=110, extra=None))
    return cases
