"""Checks whose oracle is the reference model, driven by pattern workloads."""
import itertools
import json
import os
import re

from .engine import *
from .gen import flag_mask
from .work import *

RULE = ("each evaluation is one call (match, match_prefix, search, or one whole iteration) on the real library for one (pattern, flags, iterator kind, input), compared in full with the reference model; "
        "non-trivial: distinct (pattern, method, input, outcome) in which something non-empty was matched")

QUANT = ["*", "+", "?", "{0}", "{1}", "{2}", "{3}", "{0,1}", "{1,2}", "{2,4}", "{0,3}", "{2,}", "{0,}", "{1,}", "{0,0}", "{2,2}", "{1,1}"]
MODES = ["", "?", "+"]


def start(prop, rule=RULE):
    return Check(prop, rule)


def n(ck, quick, thorough):
    return thorough if ck.thorough else quick


def huge_source(near, walks=()):
    """Monitor program over computed texts of up to 2^62 characters: near = (pattern, flags, head), walks = (pattern, flags, method, size, tail, expected extents)."""
    out = ['#include "harness.hpp"', '#include "huge.hpp"', "void vf::run_all() {"]
    for p, fl, head in near:
        out.append("    vf::huge::near_start<%s>({%s, %d}, %d, %s, 'a');" % (Case(p, fl).regex_type(), cxx_literal(p), len(p), flag_mask(fl), cxx_literal(head)))
    for p, fl, m, size, tail, want in walks:
        exp = "no match" if want is None else "match of %d" % (want[0][1] - want[0][0]) + "".join(" %d=[%d,%d)/%d" % (k, b, e, e - b) for k, (b, e) in enumerate(want))
        out.append('    vf::huge::walk<%s>("%s", {%s, %d}, %d, vf::huge::Text{"", "%s", \'a\', %d}, "%s");' % (Case(p, fl).regex_type(), m, cxx_literal(p), len(p), flag_mask(fl), tail, size, exp))
    return "\n".join(out) + "\n}\n"


def huge(ck, near, walks, variant="o2"):
    """One program per walk (each takes some seconds), one for every few of the others."""
    for k in range(0, len(near), 8):
        ck.source(huge_source(near[k:k + 8]), variant, what="huge inputs")
    for w in walks:
        ck.source(huge_source([], [w]), variant, what="huge inputs")


G32 = 2 ** 32


def c01():
    ck = start("C01")
    ck.cases(realistic(ALL_METHODS))
    ck.cases(realistic(BASIC, ("icase", "unroll"), lambda p: LIST))
    ck.cases(random_cases(ck, n(ck, 420, 6000), flag_p=.4))
    ck.cases(random_cases(ck, n(ck, 130, 2500), flag_p=.4, alphabet="abc", max_nodes=12, max_seq=5, max_depth=4, max_len=90))
    ck.cases(random_cases(ck, n(ck, 60, 1000), flag_p=.4, alphabet="aZ0_ -\n\xe9\xff", max_nodes=8))
    ck.cases(wide_cases(ck, n(ck, 60, 1200), flag_p=.4))
    # Pure literal sequences: lengths 1..24 and single-character runs take their own matching path
    rng = ck.rng
    seqs = []
    for k in list(range(1, 25)) + [31, 32, 33, 63, 64, 65, 100, 130]:
        p = "".join(rng.choice("ab") for _ in range(k))
        seqs.append(Case(p, (), BASIC, PTR | LIST | FWD, [p.encode(), p.encode() + b"a", p.encode()[:-1], b"a" + p.encode(), b"ab" * 3 + p.encode() + b"b"], budget=60))
        q = "".join(rng.choice(["a", "b", ".", "[ab]", "\\w", "[^b]"]) for _ in range(min(k, 40)))
        seqs.append(Case(q, random_flags(rng), BASIC, rng.choice([PTR, LIST, FWD]), [("a" * k).encode(), ("ab" * k).encode()], budget=80))
    ck.cases(seqs)
    ck.cases(curated([
        "", "a", "(?:)", "()", "|", "a|", "|a", "[]", "[^]", "[]|a", "a[]", "(?![])", "(?=)", "(?!)", "a(?!)", "(?:a|b|)", "^", "$", "^$", "\\A\\Z", "a^b", "a$b", "(a)|b\\1", "(?=a)*b", "(?:^a|b)+", "(?:a|$)+",
        "a??", "a*?b", "(?:a?)*?b", "(a?)*?b", "((a|b)*?c)+", "(?>a|ab)c", "(?>a*)a", "a*+a", "(?:a|b)++b", "(?<=a)b", "(?<!a)b", "(?<=^|a)b", "b(?=$|a)", "[a-c]+?c", "(a|ab)(c|bcd)(d*)",
    ], ALL_METHODS, kinds=three_kinds))
    nul = [b"\0", b"a\0", b"\0a", b"a\0\0", b"a\0b", b"ab\0", b"\0\0", b"a\n\0", b"a\xff", b"\xff\0", b"ab\x7f", b"a\x80b", b"aa\0aa\0", b"a \0", b"a\x1a", b"\x04a"]
    ck.cases([Case(p, random_flags(rng, .25), ALL_METHODS if k == PTR else BASIC, k, nul, budget=60) for p in ["a", "a*", "[^]*", ".", "ab?", "a$", "^a", "a\\Z", "\\w+", "[^a]", "a|ab", "(a)(.?)", "a+?", "a*+", "\\s*", "a\\b"] for k in (PTR, rng.choice([LIST, DEQUE, VEC]))])
    # Positions and lengths beyond one and two bytes
    for kinds in (PTR, LIST):
        ck.cases([
            long_case("a+b", [R("a", 300) + " + " + S("b"), R("a", 70000) + " + " + S("b")], kinds=kinds, methods=BASIC),
            long_case(".*c", [R("ab", 200) + " + " + S("c"), R("ab", 35000) + " + " + S("cab")], kinds=kinds),
            long_case("b", [R("a", 255) + " + " + S("b"), R("a", 256) + " + " + S("b"), R("a", 65535) + " + " + S("b"), R("a", 65536) + " + " + S("ba"), R("a", 70000)], kinds=kinds),
            long_case("(?:ab)*+c", [R("ab", 140) + " + " + S("c"), R("ab", 33000) + " + " + S("c")], kinds=kinds),
            long_case("[^x]*x", [R("ab", 129) + " + " + S("x"), R("ab", 33000) + " + " + S("xab")], kinds=kinds, methods=MATCH | PREFIX),
            long_case("b*?c", [R("b", 257) + " + " + S("c"), R("b", 66000) + " + " + S("c")], kinds=kinds, methods=MATCH | PREFIX),
        ])
    # Choices taken back far away from where they were made
    ck.cases(far_cases(rng, FAR + FAR_BEHIND, n(ck, 14, 99)))
    near = [("a", ()), ("ab", ()), ("abc", ()), ("abcab", ("icase",)), ("abca", ("unroll",)), ("(?:ab|abc)c?", ()), ("b", ()), ("[^a]+", ()), ("(?:a|b)+c", ()), ("(a)(b)(c)", ()), ("c(?:ab)", ()), ("", ()), ("^abc", ("multiline",)), ("abc$|abca", ()), ("x|abca?", ()), ("(?:abc)+", ())]
    w = G32 + 1
    walks = [("(a*+)b", (), "match", w, "b", [(0, w), (0, w - 1)]), ("b", (), "search", w, "b", [(w - 1, w)])]
    if ck.thorough:
        walks += [(p, fl, "search", z, "b", [(z - 1, z)]) for p, fl in (("b", ()), ("[b-z]", ("icase",)), ("b$", ())) for z in (2 ** 31, 2 ** 31 + 1, G32, G32 + 3)] + [("(a*)b", (), "match", z, "b", [(0, z), (0, z - 1)]) for z in (2 ** 31, 2 ** 31 + 1, G32, G32 + 2)] + [("a*", (), "match", z, "", [(0, z)]) for z in (G32, G32 + 1)] + [("a*", (), "match", G32 + 1, "b", None), ("\\w+\\b", (), "prefix", G32 + 1, "", [(0, G32 + 1)]), ("b\\Z", (), "search", G32 + 2, "b", [(G32 + 1, G32 + 2)])]
    huge(ck, [(p, fl, "abcabc") for p, fl in near], walks)
    return ck.finish()


def c02():
    ck = start("C02")
    rng = ck.rng
    trivial = ["a", ".", "[ab]", "\\w", "[^b]"]
    bodies = ["(a)", "(?:ab)", "(?:a|ab)", "(a|b)", "(?:ab|a|b)", "(?:a?b?)", "(a*)", "(?:a+b?)", "(?:(?:a|b)c)", "(?>a|ab)", "(?=a)", "(?:a(?=b)|b)", "(a??b?)", "(?:a{2}|b)", "(?:\\b.)", "(?:^a|b)"]
    conts = ["", "a", "b", "ab", "(a*)", "$", "(b?)a", "c?", "(?:a|b)", "(.*)"]
    pre = ["", "", "", "b", "(a?)", "a*", "^"]
    cases = []
    reps = n(ck, 1, 6)
    for _ in range(reps):
        for body in trivial + bodies:
            for q in QUANT:
                for m in MODES:
                    # every (body kind, quantifier, mode) for single characters; a rotating subset of group bodies in the quick tier
                    if body in bodies and not ck.thorough and rng.random() < .45:
                        continue
                    p = rng.choice(pre) + body + q + m + rng.choice(conts)
                    cases.append(Case(p, random_flags(rng, .45, ["unroll", "ungreedy", "unroll", "ungreedy", "icase", "dotall"]), BASIC, pick_kind(rng, p, ptr=.4)))
    ck.cases(cases)
    # Backreference and capture bodies, nested quantifiers
    ck.cases(random_cases(ck, n(ck, 260, 5000), flag_p=.45, flags=["unroll", "ungreedy", "icase"], quant=.9, lazy=.3, possessive=.25, atomic=3, lit=7, need=r"[*+?}]", alt=.35))
    # Counts on both sides of the bound, on every path: fixed/ranged/open x mode x unroll x iterator category
    grid = []
    for cnt in ["{4}", "{5}", "{7}", "{8}", "{9}", "{16}", "{17}", "{3,5}", "{0,8}", "{7,9}", "{5,}", "{1,6}", "{10}", "{10,12}", "{12,}", "{0,10}"]:
        k = int(re.match(r"\{(\d+)", cnt).group(1))
        hi = re.match(r"\{\d+,(\d+)\}", cnt)
        hi = int(hi.group(1)) if hi else k
        for m in MODES:
            for body, unit in (("a", b"a"), ("[ab]", b"a"), ("(ab)", b"ab"), ("(?:a|b)", b"a"), ("(?:a|aa)", b"a")):
                ins = [unit * j for j in sorted({0, 1, max(0, k - 1), k, k + 1, max(0, hi - 1), hi, hi + 1, 2 * hi})]
                ins += [i + b"a" for i in ins] + [b"b" + i for i in ins] + [unit * max(0, k - 1) + b"x" + unit * k]
                tail = rng.choice(["", "a", "b", "(a?)", "x"])
                if not ck.thorough and rng.random() < .4:
                    continue
                p = body + cnt + m + tail
                grid.append(Case(p, random_flags(rng, .6, ["unroll", "ungreedy"]), BASIC, pick_kind(rng, p, ptr=.4), ins, budget=60, steps=60000))
    ck.cases(grid)
    # Multi-digit counts and large repetition numbers
    big = []
    for cnt, k, hi in [("{255}", 255, 255), ("{256}", 256, 256), ("{257}", 257, 257), ("{300,}", 300, 300), ("{250,260}", 250, 260), ("{0,300}", 0, 300), ("{1000}", 1000, 1000), ("{100,1000}", 100, 1000), ("{65536}", 65536, 65536), ("{65530,65540}", 65530, 65540)]:
        for m in MODES:
            ins = [R("a", j) for j in sorted({max(0, k - 1), k, k + 1, max(0, hi - 1), hi, hi + 1, hi + 44})] + [R("a", k) + " + " + S("b"), R("a", hi + 1) + " + " + S("b"), R("a", hi) + " + " + S("ab")]
            for body in ("a", "[ab]"):
                if body == "[ab]" and (m != "" or k > 1000):
                    continue
                p = body + cnt + m + rng.choice(["", "b", "a?"])
                big.append(long_case(p, ins, random_flags(rng, .5, ["unroll"] if k <= 300 else ["icase"]), BASIC, rng.choice([PTR, LIST, FWD]) if m and k < 2000 else rng.choice([PTR, LIST])))
    for cnt in ("{40}", "{100}", "{300}"):
        for m in MODES:
            k = int(cnt[1:-1])
            for body, unit in (("(ab)", "ab"), ("(?:a|b)", "a")):
                big.append(long_case(body + cnt + m, [R(unit, j) for j in (k - 1, k, k + 1)] + [R(unit, k) + " + " + S("a")], (), BASIC, rng.choice([PTR, LIST])))
    big += [long_case("(?:ab)*+c", [R("ab", 300) + " + " + S("c"), R("ab", 66000) + " + " + S("c"), R("ab", 66000) + " + " + S("a")], kinds=PTR, methods=MATCH | PREFIX),
            long_case("(a|b)+", [R("ab", 300)], methods=BASIC), long_case("(?:ab){2,20}", [R("ab", k) for k in (1, 2, 19, 20, 21)]), long_case("(?:ab){2,20}?b", [R("ab", k) + " + " + S("b") for k in (1, 2, 19, 20, 21)]),
            long_case("(?:ab){2,20}+", [R("ab", k) for k in (1, 2, 19, 20, 21)], ("unroll",)), long_case("(a){3,33}", [R("a", k) for k in (2, 3, 32, 33, 34)])]
    # Counts no input reaches and no counter may wrap
    for big_n in ["2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "4294967298", "9223372036854775807", "9223372036854775808", "9223372036854775810", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551619", "36893488147419103233", "1" + "0" * 30, "340282366920938463463374607431768211457", "0" * 40 + "3", "0" * 19 + "1"]:
        for _ in range(n(ck, 2, 12)):
            shape = rng.choice(["a{%s}", "a{%s}?", "a{%s}+", "[ab]{%s,}", "a{%s,}?", "a{%s,}+", "a{0,%s}", "a{0,%s}?", "[^b]{0,%s}+", "a{2,%s}", "a{1,%s}?", ".{3,%s}+", "(?:ab){%s}", "(a|b){%s}+", "(?:ab|c){0,%s}+", "(ab){1,%s}+", "(?<=a{1,%s})b", "x(a{0,%s})(a*)"])
            if big_n[0] == "0" and re.search(r"2,%|1,%|3,%", shape):
                continue
            p = shape % big_n + rng.choice(["", "", "b", "a?", "(a?)"])
            big.append(Case(p, random_flags(rng, .3, ["icase", "ungreedy"]), BASIC, PTR if "0," in p or "," in p else rng.choice([PTR, LIST, FWD]), [b"a" * k for k in (0, 1, 2, 3, 4, 5, 20)] + [b"ab" * k for k in (1, 2, 3, 4)], budget=40))
    ck.cases(big + far_cases(rng, FAR, n(ck, 14, 99)))
    # Inside lookbehinds every quantifier runs over reversed iterators
    ck.cases([Case("(?<=" + p + ")" + rng.choice(["c", "a", ""]), random_flags(rng, .3, ["unroll", "ungreedy"]), BASIC, pick_kind(rng, "(?<=", ptr=.6))
              for p in ["ba*", "ba+?", "b(?:ab){2}", "(a{2})", "(a|ab)*", "ba{2,3}", "ba{2,3}?", "b(?>a|ba)", "ba*+", "(ab){1,2}?", "b(a?){2}", "(?:ab|b)+", "ba{0,2}", "(?:a|b){3}", "b(?:aa)+", "ba{3,}+"]])
    near = [("a{3}", ()), ("a{3}b", ("unroll",)), ("a{2,4}", ()), ("a{2,4}?", ()), ("a{2,4}+b?", ()), ("[ab]{5}", ()), ("(?:aab){2}", ()), ("(?:aab){2}", ("unroll",)), ("(?:a|b){4}", ()), ("(?>a|b){3}", ()), ("a{3}+", ()), ("(a){2}?", ("ungreedy",)), ("a+?b", ()), ("a*?b", ()), ("a{2,}?b", ()), ("a??a??b", ())]
    w = G32 + 1
    walks = [("a{%d}" % w, (), "match", w, "", [(0, w)]), ("a{%d}" % (w + 1), (), "prefix", w, "", None), ("a{2,%d}+b" % w, (), "match", w + 1, "b", [(0, w + 1)])]
    if ck.thorough:
        walks += [("a{%d}" % z, (), "match", z + d, "", [(0, z)] if d == 0 else None) for z in (2 ** 31, 2 ** 31 + 1, G32, w) for d in (-1, 0, 1)]
        walks += [("(a{0,%d}%s)b" % (z, m), (), "match", z + 1 + d, "b", [(0, z + 1), (0, z)] if d == 0 else None) for z in (2 ** 31, G32, w) for m in ("", "?", "+") for d in (0, 1)]
        walks += [("a{%d,}%sb" % (z, m), (), "match", z + 1 + d, "b", [(0, z + 1 + d)] if d >= 0 else None) for z in (G32, w) for m in ("", "?", "+") for d in (-1, 0, 1)]
    huge(ck, [(p, fl, "aabaab") for p, fl in near], walks)
    return ck.finish()


def c03():
    ck = start("C03", "each evaluation is one call on one (single-character element, context, flags, input) compared with the reference model; every element is tried on all 256 byte values; "
                      "non-trivial: distinct (element, method, input) that matched a non-empty text")
    rng = ck.rng
    ALLB = "@vf::all_bytes()"
    special = "\\^$.|?*+()[]{}"
    el = []
    b2 = lambda x: "\\x%02x" % x if rng.random() < .5 else "\\x%02X" % x
    for b in range(256):
        ch = chr(b)
        if ch not in "\\^$.|?*+()[{":
            el.append(ch)
        if not ch.isdigit() and ch not in "xkbBAZ" or ch == "0":
            el.append("\\" + ch)
        el.append(b2(b))
        if rng.random() < n(ck, .35, 1):
            el.append("[" + rng.choice(["", "^"]) + (("\\" + ch) if ch in "\\^]-" else ch) + "]")
        if ch not in "x" and (32 < b < 127 or rng.random() < n(ck, .35, 1)):
            el.append("[" + rng.choice(["", "^"]) + "\\" + ch + "]")
        if rng.random() < n(ck, .2, 1):
            el.append("[" + rng.choice(["", "^"]) + b2(b) + "]")
    el += ["\\x%s%s" % (a, b) for a, b in [("a", "F"), ("F", "a"), ("A", "f"), ("f", "A"), ("0", "a"), ("9", "F")]]
    def case(p, flags=(), kinds=PTR, methods=MATCH, budget=12):
        return Case(p, flags, methods, kinds, [ALLB], budget=budget)
    cases = [case(p, ("icase",) if rng.random() < .5 else ()) for p in el]
    # All letters in both modes
    for ch in "azAZmMkKsS@[`{_0~\x7f\xc0\xe0\xdf\xff\x00\x20\x1f":
        for fl in ((), ("icase",)):
            e = "\\" + ch if ch in "[{" else ch
            cases.append(case(e, fl))
            cases.append(case("[%s]" % ("\\[" if ch == "[" else ch), fl))
            cases.append(case("[^%s]" % ("\\[" if ch == "[" else ch), fl))
    classes = ["\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\R", "\\N", ".", "[]", "[^]"]
    for c in classes:
        for fl in ((), ("icase",), ("dotall",), ("dotall", "multiline", "icase", "ungreedy", "unroll"), ("multiline",)):
            cases.append(case(c, fl, three_kinds(c), BASIC))
    for c in classes[:8] + ["\\n", "\\r", "\\t", "\\f", "\\v", "\\a", "\\e", "\\0", "\\b", "\\B", "\\A", "\\Z", "\\k", "\\1", "\\12", "\\9", ".", "$", "|", "*", "(", ")", "{2}", "?"]:
        for neg in ("", "^"):
            for fl in ((), ("icase",)):
                cases.append(case("[%s%s]" % (neg, c), fl))
    # Ranges: bounds of every kind, over the letter boundaries and the high half
    edges = [0, 1, 9, 10, 13, 31, 32, 47, 48, 57, 58, 64, 65, 66, 77, 90, 91, 96, 97, 98, 109, 122, 123, 126, 127, 128, 129, 160, 192, 223, 224, 250, 254, 255]
    def bound(x):
        ch = chr(x)
        k = rng.random()
        if k < .4 or ch in "\\]^-[":
            return b2(x)
        if k < .5 and not ch.isalnum():
            return "\\" + ch
        return ch
    for _ in range(n(ck, 190, 1500)):
        lo, hi = sorted(rng.sample(edges, 2)) if rng.random() < .9 else [rng.choice(edges)] * 2
        cases.append(case("[" + rng.choice(["", "", "^"]) + bound(lo) + "-" + bound(hi) + "]", ("icase",) if rng.random() < .6 else ()))
    # Sets of several members
    def member():
        k = rng.random()
        if k < .35:
            ch = chr(rng.choice(edges + list(range(33, 127))))
            return "\\" + ch if ch in "\\]^-[" else ch
        if k < .65:
            lo, hi = sorted(rng.sample(edges, 2))
            return bound(lo) + "-" + bound(hi)
        if k < .85:
            return rng.choice(classes[:8])
        return rng.choice(["\\n", "\\t", "\\b", "\\x41", "\\0", "-", ".", "^", "\\-", "\\]"])
    for _ in range(n(ck, 170, 1500)):
        ms = [member() for _ in range(rng.randint(2, 6))]
        if ms[0] in ("^", "-"):
            ms[0] = "\\" + ms[0]
        # a '-' between two members would form a range
        ms = [m if m != "-" else "\\-" for m in ms[:-1]] + ms[-1:]
        cases.append(case("[" + rng.choice(["", "", "^"]) + "".join(ms) + "]", ("icase",) if rng.random() < .5 else ()))
    cases += [case(p, fl) for p in ["[a-]", "[-a]", "[^-a]", "[a-b-c]", "[a-c-e]", "[\\d-]", "[\\w-z]", "[\\s-a]", "[a\\-z]", "[--a]", "[!--]", "[+--]", "[a^]", "[^^]", "[.]", "[[]", "[\\]]", "[^\\]]", "[]]"[:2], "[^\\w\\s]", "[\\W\\w]", "[^\\D]", "[\\d\\D]", "[^\\d\\D]",
                                  "[A-z]", "[^A-z]", "[Z-a]", "[@-\\[]", "[`-{]", "[\\x00-\\xff]", "[\\x80-\\xff]", "[^\\x80-\\xff]", "[\\x00-\\x7f]", "[k-s]", "[K-S]", "[a-zA-Z]", "[0-9a-fA-F]", "[\\t-\\r]", "[ -~]", "[^ -~]", "[\\R-z]", "[\\N-a]", "[\\x41-\\x5A]", "[\\x61-\\x7a]", "[\\R\\s]", "[^\\R]", "[^\\N]", "[^\\S]", "[^\\W]"] for fl in ((), ("icase",))]
    # Elements in context: sequences, repetitions, lookarounds, alternations
    ctx = ["{0}a", "a{0}", "{0}+", "{0}*?b", "(?={0}).", "(?<={0})b", "(?!{0}).", "(?<!{0})b", "{0}|b", "(?:{0}|bb)", "({0})\\1", "{0}{{2}}", "(?:{0}a){{1,2}}", "{0}{0}", "x{0}y"]
    pool = [e for e in el if len(e) > 1] + classes + ["[^\\w]", "[a-f]", "[\\x80-\\xff]", "[^a]", "\\x00", "\xe9", "\\xFF"]
    for _ in range(n(ck, 150, 1500)):
        p = rng.choice(ctx).format(rng.choice(pool))
        cases.append(Case(p, random_flags(rng, .4, ["icase", "dotall"]), BASIC, pick_kind(rng, p), budget=120))
    ck.cases(cases)
    return ck.finish()


TOKENS = ["a", "\\d", "[ab]", "[^a]", "(b)", "(?:a)", "(?=a)", "(?!b)", "(?<=a)", "(?<!b)", "^", "$", "\\b", "\\B", "\\A", "\\Z", "\\1", "\\x61", ".", "a*", "b+?", "a{2}", "a{1,2}+", "(?>a)", "()", "[]", "[^]", "\\.", "(?:a|b)", "(a|b)*", "\\k<n>", "(?<m>a)", "-", "]", "}", ",", "a{", "a{,", "\\n"]


def c04():
    ck = start("C04")
    rng = ck.rng
    def fix(p):
        if "\\1" in p or "\\k<n>" in p:
            p = "(?<n>a?)(?:" + p + ")"
        return p
    # Every ordered pair of neighbouring tokens, around a '|'
    cases = []
    seen = set()
    for x, y in itertools.product(TOKENS, TOKENS):
        if not ck.thorough and rng.random() < .62:
            continue
        if x == y == "(?<m>a)":
            continue
        shape = rng.choice(["%s%s|b%s", "b|%s%s|%s", "%s%s|", "(?:%s|%s)%s", "(%s%s|ab)%s", "(?:%s%s)?|%s", "%s|%s%s", "a%s|(%s)b%s"])
        z = rng.choice([t for t in TOKENS if "m>" not in t])
        k = shape.count("%s")
        p = fix(shape % ((x, y, z)[:k]))
        if "{%" in p:
            continue
        cases.append(Case(p, random_flags(rng, .2), BASIC, pick_kind(rng, p, ptr=.7), budget=260))
    ck.cases(cases)
    # Alternatives that overlap, in contexts that force later ones
    alts = ["", "a", "ab", "b", "a*", "(a)", "(?:ab|a)", ".", "[ab]", "^a", "a$", "aa", "\\w\\w", "b?a", "a+?", "(?>a|ab)", "(?=b)", "ba", "abc", "(b)|c", "c"]
    ctxs = ["{0}", "{0}c", "c(?:{0})", "({0})(b?)c", "(?:{0})*", "(?:{0}){{2}}c", "(?={0}).", "(?<={0})c", "(?:x|(?:{0})y)", "({0})+?c", "(?:{0})++c", "(?>{0})c", "((?:{0})b|a)c", "(?:(?:{0})|c)+$", "(?!{0})..", "(?:{0}){{1,2}}?b", "{0}|c{0}", "(?:{0}(?:c|))b"]
    cases = []
    for _ in range(n(ck, 260, 4500)):
        k = rng.choice([2, 2, 2, 3, 3, 4])
        body = "|".join(rng.choice(alts) for _ in range(k))
        p = fill_empty(rng.choice(ctxs).format(body))
        cases.append(Case(p, random_flags(rng, .25), rng.choice([BASIC, BASIC, BASIC | FIND_ALL]), pick_kind(rng, p, ptr=.5)))
    ck.cases(cases)
    ck.cases(random_cases(ck, n(ck, 150, 2500), flag_p=.25, alt=.75, max_alt=4, ncap=6, cap=3, need=r"\|", alphabet="abc"))
    ck.cases(wide_cases(ck, n(ck, 110, 2500), flag_p=.25, alphabet="abc"))
    # Every kind of part before, between and after grouped sequences of every length
    cases = []
    parts = ["a", "b?", "a*", "b+?", "[ab]", "(b)", "(?:b|c)", "(?=b)", "(?<=a)", "^", "(?:)", "(a)?", "a{0,2}", "a*+", "\\b", "(?>a?)", "b{2}", ""]
    wraps = ["(?:%s)", "(%s)", "(?>%s)", "(?:%s)?", "(?:%s)*", "(?=%s).*", "(?<=%s)", "(?:%s|c)", "(?:c|%s)", "(?<w>%s)", "(?:%s)+?", "(?!%s)"]
    for w in wraps:
        for size in (1, 2, 3, 4, 5, 6, 8):
            for _ in range(n(ck, 1, 4)):
                body = "".join(rng.choice("abc") for _ in range(size)) if rng.random() < .5 else "".join(rng.choice(["a", "b", "c", "a?", "b*", "[bc]", "(?:ab)", "."]) for _ in range(size))
                p = rng.choice(parts) + w % body + rng.choice(parts) + (rng.choice(wraps[:5]) % "".join(rng.choice("ab") for _ in range(rng.randint(1, 5))) if rng.random() < .4 else "")
                cases.append(Case(p, random_flags(rng, .2), BASIC, pick_kind(rng, p, ptr=.6), budget=200))
    ck.cases(cases)
    # Many alternatives, deep nesting, long sequences
    words = ["alpha", "alp", "beta", "be", "gamma", "g", "delta", "deltas", "x", "xy", "xyz", "", "zeta", "eta", "theta", "iota"]
    cases = []
    for k in (5, 9, 17, 33, 40):
        ws = [rng.choice(words[:11] + words[12:]) + rng.choice(["", "s", "1", "a", "b"]) for _ in range(k)]
        ins = [w.encode() for w in ws] + [(rng.choice(ws) + rng.choice(ws)).encode() for _ in range(10)]
        cases.append(Case("|".join(ws), random_flags(rng, .4), BASIC, PTR | LIST | FWD, ins, budget=200))
        cases.append(Case("(?:" + "|".join(ws) + ")+!", (), BASIC, PTR, [i + b"!" for i in ins], budget=100))
        chars = [rng.choice("abcdefghij") for _ in range(k)]
        cases.append(Case("|".join(chars), random_flags(rng, .4), BASIC, PTR | LIST, budget=200))
        cases.append(Case("(" + "|".join(chars[:10]) + "|kk)*m", (), BASIC, PTR, budget=200))
    for d in (6, 10, 16, 24):
        cases.append(Case("(?:" * d + "a|b" + ")c?" * d, (), BASIC, PTR | LIST, budget=200))
        cases.append(Case("(" * d + "a|b" + ")" * d, (), BASIC, PTR | FWD, budget=100))
        cases.append(Case("(?:a|" * d + "b" + ")" * d + "c", (), BASIC, PTR, budget=150))
        cases.append(Case("(?:" * d + "b" + "|a)" * d + "c", (), BASIC, PTR, budget=150))
        cases.append(Case("".join("(?:a|b%s)" % ("c" * (i % 3)) for i in range(d)), (), BASIC, PTR, budget=150))
    cases += curated(["a|b|c|ab", "(?:a|b)|ab", "a|(?:b|ab)", "(?:a||b)c", "(?:|a)+b", "(?:a|)+?b", "(a||b)c", "||a", "a||", "(|a|b)", "(?:a|b|(?:c|d)e)f", "ab|cd*|e+f", "a|b*", "a*|b", "a|b+|c?", "(?:ab|cd)*", "ab*|c", "a{|b", "a{|b{2}", "x|a{,2}|y", "[a|b]", "\\||a", "a\\|b", "(?:a|b)(?:c|d)", "a(?:b|c|)d", "(?=a|b)..", "(?!a|b)..", "(?<=a|bc)d", "(?<!a|bc)d", "(?>a|ab)(?:c|bc)", "(a|ab)(c|bcd)(d*)", "^a|b$", "^(?:a|b)$", "\\Aa|b\\Z", "(?:^|a)b", "a(?:$|b)", "(a)|(b)|(ab)", "(?:(a)|b)*", "(?:a|(b))*", "(?<x>a)|(?<y>b)", "(a)\\1|b", "b|(a)\\1"], ALL_METHODS)
    ck.cases(cases)
    return ck.finish()


CAPTURES = [
    "(a)(b)(c)", "((a)b)", "(a(b(c)))", "(((a)))", "(a)|(b)", "(a)|(b)|(c)", "((a)|(b))*", "(?:(a)|(b)|c)*", "(a*)(a)", "(a*?)(a*)", "(a|ab)(c|bcd)(d*)", "(a)*", "(a)+", "(a){2}", "(a){2,3}", "(a)??", "(a)*?b", "(a|b)*c|(a|ab)*",
    "(?:(a)b|ac)", "(?:(a)b|a)(c)", "(?:(ab)c|(a)bd)", "(a)?b", "(a)?(b)?(c)?", "(?:(a)|b)*", "(?:(a)?b)*", "((a)?b)*", "(?:(a)(b)?)+", "(z)((a+)?(b+)?(c))*", "(a*)*", "(a*)+", "(a*?)*", "((?:)|a)+", "(a|(?:))+", "(?:a(b)?)*", "(?:(a)|(ab))c", "(a(?:b)?)(b?)",
    "(?=(a))", "(?=(a)b)a", "(?=(a+))a*b\\1", "(?!(a))b", "(?!(a)b)(.)", "(?<=(a))b", "(?<=(a)(b))c", "(?<=(a+))b", "(?<!(a))b", "(?=(?=(a))(.))..", "(?:(?=(a))a|b)*", "(?:(?!(a))b|a)*", "(?>(a)b|(a))c", "(?>(a+))b|(a)", "(?:(?>(a)|b))*c", "(a)++b|(a)", "(?:(a)b)++c|(ab)", "(?:(a)|b){2}+",
    "(?:(?=(ab))a|(a))c", "(?=(a)|(b))", "((?=(a))a)*b", "(?:(a)(?!b))*", "(?:(a)\\1)*", "(?<n>a)(?<m>b)", "(?<n>a)|(?<m>b)", "(?<outer>a(?<inner>b)c)", "(x)(?<n>a)(y)", "(?<n>a)*(b)", "(?:(?<n>a)|b)*", "(?<_>a)(?<A1>b)(?<a_b_c>c)", "(?<a>a)(?<aa>b)(?<aaa>c)", "(?<b>a)(?<a>b)", "(?=(?<n>a))a(?<m>b)?", "(?<=(?<n>a))b",
    "(a)(?:b)(c)", "(?:a)(b)", "(?:(?:(a)))(b)", "(?>(a))(b)", "(?:(a){2}){2}", "((a){2}){2}", "((?:(a)|b)+)(c)", "(a)(?:(b)|(c))(d)", "(?:(a)|(?:(b)|(c)))(d)", "(a(b)|c(d))(e)", "((a)(b))((c)(d))", "(?:((a)|(b))(c))+", "()", "(())", "()a", "(a)()(b)", "(^)a", "(a)($)", "(\\b)a", "(?:()|a)*", "(a)|()",
    "([ab])([^a])", "(.)(.*)(.)", "(.*)(.+)", "(.*?)(.+?)", "(\\w+)\\s(\\w+)", "(a{2})(a{0,2})", "(a{2,}?)(a*)", "(a)(a)?(a)??(a)*", "((a+)b)+", "((a+?)b?)+", "(?:((a)|b)c?)*", "(a(b)?)+c", "(a(b)?)+?c", "(a(b)?){2}", "(?:a(b)|(c)d)*", "((a)|(b))+?c",
]


def c05():
    ck = start("C05")
    rng = ck.rng
    nx = lambda g, p: names_extra(p)
    def cur(methods, kinds, flags=()):
        return [Case(p, flags, methods, kinds(p), extra=names_extra(p)) for p in CAPTURES]
    ck.cases(cur(BASIC, lambda p: PTR), headers=["api.hpp"])
    ck.cases([Case(p, random_flags(rng, .5), rng.choice([BASIC, FIND_ALL | TOKENIZE]), rng.choice([LIST, FWD, REV]) if fwd_ok(p) else rng.choice([LIST, REV])) for p in CAPTURES])
    ck.cases(random_cases(ck, n(ck, 300, 4500), flag_p=.3, cap=10, named=4, max_groups=6, max_nodes=9, alt=.45, quant=.5, atomic=2, look_ahead=1.2, look_behind=1, backref=.5, possessive=.2, need=r"\((?!\?)|\?<[A-Za-z_]", extra=nx), headers=["api.hpp"])
    ck.cases(random_cases(ck, n(ck, 170, 3000), flag_p=.3, cap=10, named=2, max_groups=8, max_nodes=10, max_depth=4, max_seq=4, alt=.5, quant=.5, backref=.3, need=r"\((?!\?)", methods=mixed_methods, max_len=80))
    ck.cases(wide_cases(ck, n(ck, 70, 1500), flag_p=.3, need=r"\((?!\?)|\?<n", extra=nx), headers=["api.hpp"])
    # Many groups: numbering in sequence, nested, in alternatives, under quantifiers
    cases = []
    for k in (9, 10, 11, 12, 16, 20):
        letters = [rng.choice("abc") for _ in range(k)]
        cases.append(Case("".join("(%s)" % c for c in letters), (), BASIC, PTR, ["".join(letters).encode()], extra=None))
        cases.append(Case("".join("(?<g%d>%s)" % (i, c) if i % 3 == 0 else "(%s?)" % c for i, c in enumerate(letters)), (), BASIC, PTR | LIST, ["".join(letters).encode()]))
        cases[-1].extra = names_extra(cases[-1].pattern)
        cases.append(Case("|".join("(%s)" % c * 2 for c in letters[:9]), (), BASIC, PTR))
    for k in n(ck, (33, 65), (26, 27, 32, 33, 50, 64, 65, 100, 130)):
        letters = [rng.choice("abc") for _ in range(k)]
        cases.append(Case("".join("(%s)" % c if i % 5 else "(%s)?" % c for i, c in enumerate(letters)), (), MATCH | SEARCH, PTR, ["".join(letters).encode(), "".join(c for i, c in enumerate(letters) if i % 10).encode()], budget=11))
        cases[-1].cost = 5
    # Names: long ones, ones that share a prefix or differ in one character only, all allowed characters
    for names in (["group_with_a_very_long_name_indeed_%d" % i for i in (1, 2, 12, 21)], ["x", "xx", "xxx", "xxxx", "X", "x_", "_x"], ["abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "_0123456789", "a0", "A0", "a00"], ["n1", "n11", "n10", "n0", "n01"], ["name", "nbme", "namf", "eman"]):
        letters = [rng.choice("abc") for _ in names]
        order = names[:]
        rng.shuffle(order)
        p = "".join(rng.choice(["(?<%s>%s)", "(?<%s>%s)", "(?:(?<%s>%s)|z)"]) % (nm, c) for nm, c in zip(order, letters))
        cases.append(Case(p, random_flags(rng, .2), BASIC, PTR, ["".join(letters).encode()], budget=60, extra=names_extra(p)))
        p += "".join("\\k<%s>" % nm for nm in names)
        cases.append(Case(p, (), BASIC, LIST, [("".join(letters) + "".join(letters[order.index(nm)] for nm in names)).encode()], budget=60, extra=names_extra(p)))
    for d in (5, 8, 12):
        cases.append(Case("(" * d + "a" + "b?)" * d, (), BASIC, PTR | LIST, [b"a" + b"b" * i for i in range(d + 2)], budget=100))
        cases.append(Case("(?:" + "|".join("(%s)(x)?" % chr(97 + i) for i in range(d)) + ")*", (), BASIC, PTR, budget=200))
    ck.cases(cases, headers=["api.hpp"])
    ck.cases(far_cases(rng, [x for x in FAR + FAR_BEHIND if re.search(r"\((?!\?)", x[0])], 99))
    # Long captured texts, and captures far into the input
    ck.cases([long_case("x(a+)(b)", [S("x") + " + " + R("a", 300) + " + " + S("b"), R("y", 300) + " + " + S("xaab"), S("x") + " + " + R("a", 70000) + " + " + S("b"), R("y", 70000) + " + " + S("xab")], kinds=k) for k in (PTR, LIST)] +
             [long_case("(?:(a)|(b))*+c", [R("ab", 200) + " + " + S("c"), R("ab", 33000) + " + " + S("bc")], kinds=PTR, methods=MATCH | PREFIX), long_case("(a)*b", [R("a", 400) + " + " + S("b")], kinds=PTR)])
    return ck.finish()


BACKREFS = [
    "(a)\\1", "(a*)\\1", "(a*)b\\1", "(a+)\\1", "(a|b)\\1", "(a|b)*\\1", "(ab)\\1+", "(.)\\1", "(.)(.)\\2\\1", "(.+)\\1", "(.*)\\1", "(.+?)\\1+", "(a?)\\1b", "(a)?\\1b", "(?:(a)|b)\\1", "(?:(a)|b)*\\1", "\\1(a)", "\\1*(a)", "(?:\\1b|(a))*", "(?:\\2b|(a)(c)?)*", "(a\\1)", "(a\\1?)*", "(\\1a|b)*", "(?:(a)\\1)*b", "(a)(b)\\2\\1",
    "(a)(?=\\1)", "(a)(?!\\1).", "(a).*(?<=\\1)", "(ab).*(?<=\\1)", "(ab)(?<=\\1)", "(ab).(?<!\\1.)b?", "(?=(a+))\\1b", "(?<=(a+))\\1", "(?<=(ab)c)\\1", "(?<=\\1(a))b", "(?<=(a)\\1)b", "(?<=(ab)\\1)c", "(?<=\\1(ab))c", "(?<=(.)(.))\\2\\1", "(?!(a)\\1).", "(?!(a))\\1b", "(?:(?!(a))b\\1)*", "(?>(a+))\\1", "(a+)++\\1?b", "(a{2})\\1{2}", "(a|ab)\\1c", "(a|ab)(?:c|\\1)",
    "(?<n>a)\\k<n>", "(?<n>a+)b\\k<n>", "(?<n>a)|b\\k<n>", "(?<x>a)(?<y>b)\\k<y>\\k<x>", "(?<x>.)(?<y>.)\\k<y>\\k<x>", "(?<n>a)\\1", "(q)?(?<n>a)\\2\\k<n>", "\\k<n>(?<n>a)", "(?:\\k<n>b|(?<n>a))*", "(?<=\\k<n>(?<n>ab))c", "(?<n>(a)\\k<n>?)*", "(?<a>a)(?<ab>b)\\k<ab>\\k<a>", "(?<A>a)(?<a>b)\\k<a>\\k<A>",
    "()\\1", "()\\1a", "(^)\\1a", "(a)\\1?", "(a)\\1*", "(a)\\1*?b", "(a)\\1*+b", "(a)\\1{2}", "(a)\\1{0,2}b", "(ab?)\\1{2,}", "(a?)\\1*b", "(a*)\\1*b", "(a)(?:\\1|b)*", "(a)[\\1]", "(a)(?:\\1)0", "(a)\\1[0]", "(.*)x\\1", "(\\w+)-\\1", "(\\w)(\\w)\\2\\1", "([ab])([ab])\\1\\2", "(a|(b))\\2\\1", "((a)\\2)\\1", "((a|b)\\2?)*\\1",
]


def c06():
    ck = start("C06")
    rng = ck.rng
    ck.cases(curated(BACKREFS, kinds=three_kinds))
    ck.cases([Case(p, ("icase",) + random_flags(rng, .4), BASIC, pick_kind(rng, p, ptr=.5)) for p in BACKREFS])
    ck.cases([Case(p, random_flags(rng, .5), FIND_ALL | TOKENIZE, pick_kind(rng, p, ptr=.5)) for p in BACKREFS if rng.random() < n(ck, .5, 1)])
    ck.cases(random_cases(ck, n(ck, 330, 5000), flag_p=.4, cap=6, named=3, backref=6, max_groups=5, max_nodes=9, need=r"\\[1-9]|\\k", alt=.35))
    ck.cases(random_cases(ck, n(ck, 80, 1500), flag_p=.4, cap=6, named=3, backref=6, look_ahead=3, look_behind=4, neg=.3, max_nodes=9, need=r"\(\?<?[=!].*\\([1-9]|k)|\\([1-9]|k).*\(\?<?[=!]"))
    # Multi-digit group numbers
    cases = []
    for k in (10, 11, 12, 13, 19, 20, 21):
        chars = [chr(97 + i % 26) for i in range(k)]
        head = "".join("(%s)" % c for c in chars)
        text = "".join(chars)
        ref1, ref2 = k, rng.randint(1, k)
        p = head + "\\%d" % ref1 + "(?:\\%d)" % ref2
        good = text + chars[ref1 - 1] + chars[ref2 - 1]
        ins = [good, text + "a0", text + chars[0] + "0" + chars[ref2 - 1], text + chars[0] + str(k)[1:] + chars[ref2 - 1], good[:-1], good + "x", text]
        cases.append(Case(p, random_flags(rng, .3), BASIC, rng.choice([PTR, LIST, FWD]), [i.encode() for i in ins], budget=40))
        cases.append(Case(head + "\\1[0]\\%d*" % k, (), BASIC, PTR, [(text + "a0").encode(), (text + "a0" + chars[-1] * 3).encode()], budget=40))
    for k in n(ck, (99, 100, 128), (64, 98, 99, 100, 101, 110, 127, 128, 129, 256, 257)):
        chars = [chr(97 + (i * 7 + i // 26) % 26) for i in range(k)]
        text = "".join(chars)
        refs = [k, rng.randint(1, k), rng.randint(10, k), max(1, k - 99)]
        p = "".join("(%s)" % c for c in chars) + "".join("\\%d" % r for r in refs)
        good = text + "".join(chars[r - 1] for r in refs)
        cases.append(Case(p, (), MATCH | PREFIX, PTR, [good.encode(), (text + chars[int(str(k)[0]) - 1] + str(k)[1:] + good[len(text) + 1:]).encode(), good[:-1].encode(), (good[:len(text)] + good[:len(text):-1] + good[len(text)]).encode()], budget=11))
        cases[-1].cost = 6
    # Case folding of referenced text: exactly ASCII letters
    for b in ["a", "Z", "@", "[", "`", "{", "0", "_", "\xe9", "\xc9", "\xdf", "\x00", "\xff", "k", "K"]:
        cases.append(Case("(.)\\1", ("icase", "dotall"), BASIC, PTR, [bytes([ord(b), x]) for x in range(256)], budget=20))
    cases.append(Case("(..)\\1", ("icase",), BASIC, PTR | LIST | FWD, [b"aBAb", b"aBaB", b"aBab", b"aB\xc1b", b"[b{b", b"@b`b"], budget=60))
    ck.cases(cases)
    # Long referenced texts; references cut off by the end of the input
    long = []
    for k in (PTR, LIST, FWD):
        long += [long_case("(a+)b\\1c", [R("a", j) + " + " + S("b") + " + " + R("a", i) + " + " + S("c") for j, i in ((255, 255), (256, 256), (257, 257), (257, 1), (256, 255), (300, 299), (300, 301))], kinds=k, methods=MATCH | PREFIX),
                 long_case("([^b]*)b\\1", [R("xy", 150) + " + " + S("b") + " + " + R("xy", j) for j in (150, 149, 151, 22)], kinds=k, methods=MATCH | PREFIX)]
    long += [long_case("([^b]*+)b\\1", [R("xy", 33000) + " + " + S("b") + " + " + R("xy", j) for j in (33000, 32999, 232)], methods=MATCH | PREFIX), long_case("([^b]*+)b.*(?<=\\1)$", [R("xy", 150) + " + " + S("b") + " + " + R("xy", j) for j in (150, 151, 149)], methods=MATCH)]
    ck.cases(long)
    # References to groups that do not exist must not compile
    for p in ["\\1", "(a)\\2", "(?:a)\\1", "(a)(b)\\3", "\\k<n>", "(?<n>a)\\k<m>", "(?<n>a)\\k<N>", "(a)\\k<a>", "(?<n>a)\\2", "(a)\\10", "(a)\\11", "(?=a)\\1", "(?<ab>a)\\k<a>", "(?<a>b)\\k<ab>", "(a)" * 12 + "\\13", "(a)" * 12 + "\\120", "(a)" * 10 + "\\100", "(a)" * 11 + "\\11" + "0", "(a)\\257", "(a)(b)\\258",
              "(a)\\65537", "(a)\\4294967297", "(a)\\18446744073709551617", "(a)(b)\\36893488147419103234", "(a)\\9223372036854775809", "(a)(b)\\1" + "0" * 25 + "2", "(a)\\340282366920938463463374607431768211457", "(?<name>a)\\k<nam>", "(?<nam>a)\\k<name>", "(?<n_1>a)\\k<n_2>", "(?<longer_name_of_group>a)\\k<longer_name_of_grouq>", "(?<n>a)(?<m>b)\\3", "(?:(?<n>a)|b)\\k<nn>"] + (["(a)" * 100 + "\\101"] if ck.thorough else []):
        ck.submit(compile_fails, ck, p, "a reference to an undefined group")
    huge(ck, [(p, fl, "abab") for p, fl in [("(ab)\\1", ()), ("(a)b\\1", ()), ("(a)(b)\\1\\2", ("icase",)), ("(?<n>ab)\\k<n>", ()), ("(ab)(?=\\1)", ()), ("(.)(.)\\1\\2", ()), ("(ab)\\1?\\1?", ())]], [])
    return ck.finish()


def use_program(p, flags=(), inp="ab"):
    return '#include <mregex.hpp>\n#include <string_view>\nint main() { using R = meta::regex<%s%s>; std::string_view s = "%s"; return R::match(s).matched() + R::search(s).matched(); }\n' % (cxx_literal(p), "".join(", meta::regex_flag::" + f for f in flags), inp)


def compile_fails(ck, p, what, compiler="g++"):
    """Monitor: the program that uses the pattern must be rejected by the compiler (and the compiler must survive)."""
    rc, out = ck.syntax_only(use_program(p), compiler=compiler)
    ck.absorb_stats(dict(evals=1, compile_runs=1))
    if rc is None:
        ck.note_inconclusive("compiler timeout on %r" % p)
    elif rc == 0:
        ck.report("compiler", "accepts pattern=%s" % json.dumps(p), dict(monitor="compiler", what="%s compiles" % what, pattern=p, flags=0, input="", expected="compile-time error", observed="compiles"),
                  dict(property=ck.prop, program=use_program(p), expect=None))
    elif "error" not in out or "internal compiler error" in out:
        ck.note_inconclusive("compiler failure on %r: %s" % (p, out[-200:]))
    else:
        ck.absorb_stats(dict(nontrivial=1))


LOOK_INNER = ["a", "ab", "a|b", "a|ab", "(a)", "(ab)", "(a)(b)", "(a|b)c", "a*", "a+", "a+?", "a*+", "ba*", "a{2}", "a{2,}", "(?:ab)+", "(?:ab|a)+", "(?>a|ab)", "(?>ab|b)", "[ab]b", "\\w\\W", "^a", "a$", "^", "$", "\\Aa", "a\\Z", "\\ba", "a\\b", "\\B.", "b(?=a)", "(?=a)", "(?<=a)b", "a(?<=a)", "(?!b).", "(?<!a)b", "b(?!a)", ".", "..", "", "(?:)", "()", "a?b", "(a?)b", "(a)?b", "(?:(a)|b)", "(.)\\1", "[]", "[^]", "(?:a|)b", "b(?:|a)", "a??b", "(a*)b", "(?:a|b){2}", "ab*c?", "(?=a)\\w", "(?:^|b)a", "a(?:$|b)", "(?<n>a)b", "(?!a)(?!b).", "(?<=(?<=a)b)c", "(?=b(?=c))", "(?<=a(?=b))b", "(?<!(?<!a)b)", "(?=(?<=b)a)", "(?:ab){2}", "(?:(?:a)b)*c", "((a)b)*"]


def c07():
    ck = start("C07")
    rng = ck.rng
    shapes = ["{0}.", "{0}", ".{0}", "a{0}b", "(.*){0}(.*)", "(?:{0}.)*", "(.){0}(.?)", "b{0}|c", "(?:a|b{0})+", "{0}(?:a|b)*c?", "({0}.)+?", "x?{0}(.)", "^.*{0}", "[^b]{0}", "(?:{0}a|b)*", "(?>{0}.)+", "(?:.{0}){{2}}"]
    cases = []
    kinds4 = ["(?={0})", "(?!{0})", "(?<={0})", "(?<!{0})"]
    for inner in LOOK_INNER:
        for la in kinds4:
            for _ in range(n(ck, 1, 5)):
                p = rng.choice(shapes).format(la.format(inner))
                cases.append(Case(p, random_flags(rng, .3), BASIC if rng.random() < .6 else BASIC | FIND_ALL, pick_kind(rng, p, ptr=.55)))
    ck.cases(cases)
    # Nesting: every pair of lookaround kinds, with and without captures
    cases = []
    inner2 = ["a", "ab", "(a)b?", "a+", "^", "b$", "(?:a|ab)", "\\b"]
    for l1, l2 in itertools.product(kinds4, kinds4):
        for x in inner2:
            if not ck.thorough and rng.random() < .35:
                continue
            p = rng.choice(["{0}", ".{0}", "{0}.", "(.){0}(.)", "b{0}"]).format(l1.format(rng.choice(["{0}{1}", "{1}{0}", "{0}", "b{0}", "{0}b", "(?:{0}|{1})", "{0}*b"]).format(l2.format(x), rng.choice([".", "b", "(.)", "a?"]))))
            cases.append(Case(p, random_flags(rng, .25), rng.choice([BASIC, BASIC, ALL_METHODS]), pick_kind(rng, p, ptr=.6)))
    ck.cases(cases)
    # Neighbouring characters of every kind, in particular line breaks, on either side of the position
    cases = []
    texts = [b"\r\na", b"a\r\n", b"\r\n", b"a\r\nb", b"\n\r", b"\n\n", b"\r\r", b"a\0b", b"\0", b"\0\0", b"a b", b"a\tb", b"_a", b"1a", b"\xff\xfe", b"a\x80", b"\x80a", b"\x85a", b"A\xe9", b"Aa", b"aA", b"\v\f", b"a-", b"-a", b"\na\n", b"\ra\r"]
    for inner in ["\\r", "\\n", "\\R", "\\N", "\\s", "\\S", "\\w", "\\W", "\\d", "\\D", ".", "[^a]", "[^\\n]", "[\\r\\n]", "\\0", "\\xff", "[\\x80-\\xff]", "a", "A", "_", "[]", "[^]", "[^\\w]", "-", "\\r\\n", "\\R\\R", "(\\n)", "(?:\\r\\n|\\n)", "\\r?\\n", "\\s+", "[^\\r]{2}", "\\W*", "a\\R", "\\Ra"]:
        for la in kinds4:
            if not ck.thorough and len(inner) > 7 and rng.random() < .4:
                continue
            p = rng.choice(["{0}", "{0}[^]", "[^]{0}", "[^]{0}[^]", "({0}[^])*", "{0}\\s*", "\\s*{0}", "\\s{0}.?"]).format(la.format(inner))
            cases.append(Case(p, random_flags(rng, .35), BASIC | FIND_ALL if rng.random() < .3 else BASIC, pick_kind(rng, p, ptr=.6), texts, budget=110))
    ck.cases(cases)
    # Inside and behind every construct
    looks = ["(?<=a)", "(?<!a)", "(?<=ba)", "(?<=^.)", "(?<!b.)", "(?<=(a)b?)", "(?=a)", "(?!b)", "(?=(b))", "(?!ab)", "(?<=.*b)", "(?=.*$)", "(?<!^)", "(?<=\\b.)", "(?<=(?=a).)", "(?=.(?<=b))"]
    ck.cases(in_every_construct(ck, looks if ck.thorough else rng.sample(looks[:5], 2) + rng.sample(looks[5:], 2), n(ck, 2, 3), ["unroll", "unroll", "icase", "ungreedy"]))
    # Lookarounds under quantifiers, atomic groups, alternations
    ck.cases(random_cases(ck, n(ck, 210, 4500), flag_p=.3, look_ahead=5, look_behind=6, cap=4, alt=.4, anchor=1, wordb=.6, backref=.8, max_nodes=8, need=r"\(\?<?[=!]", methods=mixed_methods))
    # Context before the start of a result: iteration and late search positions
    ck.cases(curated(["(?<=a)b", "(?<=ab)a", "(?<!a)b", "(?<=(a))b", "(?<=b.)a", "(?<=^a)b", "(?<=^)a", "(?<!^)a", "(?<=a*b)c?a", "(?<=(ab)+)a?", "(?<=\\b)a", "(?<=a)(?=b)", "(?<!b)(?!b)a?", "(?<=[^a])a", "(?<=aa)a", "(?<=.)a", "(?<=..)b", "a(?<=a)", "(?<=\\1(a))b", "a(?=b)", "a(?=a)", "(?=a)a", "(?=ab)a|b", "(?!ab)a|b"], ALL_METHODS, kinds=lambda p: PTR | LIST))
    ck.cases(far_cases(rng, FAR_BEHIND + [x for x in FAR if "(?<" in x[0] or "(?=" in x[0]], 99))
    # Long-range context
    ck.cases([long_case("(?<=^a*)b", [R("a", 300) + " + " + S("b")], methods=SEARCH), long_case("(?<=x.{300})b", [S("x") + " + " + R("a", 300) + " + " + S("b"), S("x") + " + " + R("a", 299) + " + " + S("b")], methods=SEARCH),
              long_case("a(?=.*b)", [S("a") + " + " + R("c", 300) + " + " + S("b"), R("a", 70000) + " + " + S("b")], methods=PREFIX), long_case("c(?<=^[ab]*+c)", [R("ab", 200) + " + " + S("c")], methods=SEARCH), long_case(".*(?<=b)c", [R("a", 70000) + " + " + S("bc")], methods=PREFIX | MATCH),
              long_case("(?=(a*))b|a*(?<=(a*))c", [R("a", 300) + " + " + S("c")], methods=PREFIX)])
    return ck.finish()


def c08():
    ck = start("C08")
    rng = ck.rng
    anchors = ["^", "$", "\\A", "\\Z", "\\b", "\\B"]
    texts = [b"", b"a", b"\n", b"\r", b"\r\n", b"a\nb", b"\na", b"a\n", b"a\n\nb", b"a\r\nb\r\n", b"ab cd", b" a", b"a ", b"_a-b_", b"a\xe9b", b"\xe9", b"0a", b"a.b", b"\x00a", b"a\x0bb", b"a\x0cb", b"a\x85b", b"\n\r", b"ab\ncd\ref\r\ngh", b"__", b"--", b"A1_z", b"@a[", b"`Z{", b"/0:", b"/9:"]
    cases = []
    for a in anchors:
        for fl in ((), ("multiline",), ("multiline", "dotall", "icase"), ("dotall",)):
            for shape in ["{0}", "{0}.", ".{0}", "{0}{0}", "a{0}b", "(?:{0}a|b)", ".*{0}", "{0}.*", "(?<={0})", "(?={0})", "(?<!{0})", "(?!{0}).", "(.{0}|{0}.)+", "\\s*{0}\\s*", "(?:.|\\R){0}(?:.|\\R)"]:
                if not ck.thorough and rng.random() < .55:
                    continue
                p = shape.format(a)
                cases.append(Case(p, fl, rng.choice([ALL_METHODS, BASIC | FIND_ALL, BASIC]), pick_kind(rng, p, ptr=.4), texts, budget=150))
    ck.cases(cases)
    # Every pair of anchors around every kind of neighbour
    cases = []
    for a, b in itertools.product(anchors, anchors):
        for mid in ["", ".", "\\w", "[^\\w]", "\\R", "a*", "\\w+", "(?:a|\\n)*", ".?"]:
            if not ck.thorough and rng.random() < .5:
                continue
            p = a + mid + b
            cases.append(Case(p, ("multiline",) if rng.random() < .5 else (), rng.choice([BASIC, FIND_ALL | SEARCH]), pick_kind(rng, p, ptr=.5), texts, budget=120))
    ck.cases(cases)
    ck.cases(random_cases(ck, n(ck, 190, 4000), flag_p=.7, flags=["multiline", "multiline", "dotall", "icase", "unroll"], anchor=6, wordb=4, alphabet="a_ \n\r-", lit=8, cls=2, look_behind=1.5, need=r"[\^$]|\\[AZbB]", methods=mixed_methods))
    # Inside and behind every construct
    ck.cases(in_every_construct(ck, anchors, n(ck, 1, 4), ["unroll", "multiline", "multiline", "ungreedy"], [b"aa", b"aab", b"\na\na", b"a\na\nb", b"aaa", b"abab", b"a a", b" a a", b"ab\n", b"\n\n", b"aabb", b"\na", b"ba\nb", b"a"]))
    ck.cases(in_every_construct(ck, rng.sample(anchors, n(ck, 2, 6)), 1, ["unroll", "multiline", "multiline"], [b"\n\n", b"\na\na", b"a\n\na", b"\n\n\n", b"a\na\n", b"\naa\n"], lit=("\\n", "a")))
    # Word boundaries against every byte on either side
    pairs = [bytes([x, y]) for x in (0x61, 0x2d) for y in range(256)] + [bytes([y, x]) for x in (0x5f, 0x20) for y in range(256)]
    ck.cases([Case(p, fl, m, k, pairs, budget=20) for p, fl, m, k in [("[^]\\b[^]", (), MATCH, PTR), ("[^]\\B[^]", ("icase",), MATCH, PTR), ("\\b[^]", (), PREFIX, LIST), ("[^]\\b", ("icase",), SEARCH, PTR), ("[^]\\B", (), MATCH, DEQUE), ("(?<=\\b)[^]", (), SEARCH, PTR), ("[^]^[^]", ("multiline",), MATCH, PTR), ("[^]$[^]", ("multiline",), MATCH, LIST), ("[^](?<=$)[^]", ("multiline",), MATCH, PTR), ("[^](?<=^)[^]", ("multiline",), MATCH, PTR), ("[^]^[^]", ("multiline",), MATCH, FWD), ("[^]^[^]", (), MATCH, FWD), ("[^]$[^]", (), MATCH, PTR), ("[^]\\A[^]", ("multiline",), MATCH, PTR), ("[^]\\Z[^]", ("multiline",), MATCH, PTR)]])
    ck.cases([long_case("^b$", [R("a\n", 200) + " + " + S("b\nc"), R("a\n", 33000) + " + " + S("b\nc")], ("multiline",), SEARCH | FIND_ALL, k) for k in (PTR, LIST)] + [long_case("\\bb\\b", [R("a ", 200) + " + " + S("b c"), R("a ", 33000) + " + " + S("b c")], (), SEARCH, PTR), long_case("a*$", [R("a", 300), R("a", 70000)], (), PREFIX | MATCH), long_case("^a", [R("\n", 300) + " + " + S("a")], ("multiline",), SEARCH, FWD), long_case("a\\Z", [R("b", 300) + " + " + S("a"), R("b", 70000) + " + " + S("a")], (), SEARCH)])
    # Anchors seen from later results of an iteration, through lookarounds that reach into earlier and later ones
    far = ["(?<=^.)b|a", "(?<=\\A.)b|.", "(?<=\\b.)b|.", "(?<=\\B.)b|.", "(?<=^|,)a|[^]", "(?<=$.)a|[^]", "(?<=$[^])a|[^]", "(?<!^.)a|b", "(?<!\\b..)a|.", "(?<=\\n^.)a|[^]", "(?<=^..)(a)|.", "a(?=.$)|.", "a(?=.\\b)|.", "a(?=..\\Z)|[^]", "(?<=\\B..)a|b", "(?<!^[^]*\\n)a|[^]", "^a|a$|[^]", "\\Aa|a\\Z|[^]", "\\ba|a\\b|[^]"]
    ck.cases([Case(p, fl, FIND_ALL | TOKENIZE, three_kinds(p) if not fl else pick_kind(rng, p)) for p in far for fl in ((), ("multiline",))])
    return ck.finish()


def c09():
    ck = start("C09")
    rng = ck.rng
    FL = ["icase", "dotall", "multiline", "ungreedy", "unroll"]
    sets32 = [tuple(f for i, f in enumerate(FL) if m >> i & 1) for m in range(32)]
    base = ["(?:^.*?(a+)$|B{2}[k-m]\\R?)", "(a|Bc)*?\\1.(?:\\n|[^\\d])+$", "(?<=^a{2}).+?(Z++|z)*", "^(\\w{2,3}?)(?:\\1|.)*", "(a{3}|.b{2,}?)$", "[^a]{2}(?:^b)?.??(C*)", "(?>a*?|B)+.$"]
    cases = []
    texts = [b"aA\nbB", b"AA\nZz", b"aab\n", b"bbkl\r", b"a\nAB", b"aa\nbcC", b"ZZz\nzZ", b"BBM\r\n", b"aBCaBCx\n", b"abAB\n"]
    for p in base if ck.thorough else base[:4]:
        for fl in sets32:
            cases.append(Case(p, fl, BASIC, pick_kind(rng, p, ptr=.5), texts, budget=200))
    # Same flag set in other spellings: order, repetition, add_flags, clear_flags
    F = lambda f: "meta::regex_flag::" + f
    small = ["a.b*?", "^a+?$", "[b-d]{2}(a*)", "(a)\\1|.$", "(?:ab){2,3}?c", "a{2}.{2}", "(?<=^a).", "\\bA*+.", "(x|Y)+?z?"]
    for p in small:
        for _ in range(n(ck, 5, 20)):
            fl = list(random_flags(rng, 1))
            lit = cxx_literal(p)
            kind = rng.randrange(6)
            sh = fl[:]
            rng.shuffle(sh)
            if kind == 0:
                t = "meta::regex<%s>::add_flags<%s>" % (lit, ", ".join(F(f) for f in sh))
            elif kind == 1:
                h = len(sh) // 2
                t = "meta::regex<%s%s>::add_flags<%s>" % (lit, "".join(", " + F(f) for f in sh[:h]), ", ".join(F(f) for f in sh[h:]))
            elif kind == 2:
                t = "meta::regex<%s>" % ", ".join([lit] + [F(f) for f in sh + fl[:1]])
            elif kind == 3:
                t = "meta::regex<%s>::clear_flags::add_flags<%s>" % (", ".join([lit] + [F(f) for f in random_flags(rng, 1)]), ", ".join(F(f) for f in sh))
            elif kind == 4:
                t, fl = "meta::regex<%s>::clear_flags" % ", ".join([lit] + [F(f) for f in sh]), []
            else:
                t = "decltype(meta::xpr::add_flags<%s>(%smeta::regex<%s>{}%s))" % (", ".join(F(f) for f in sh), "meta::xpr::clear_flags(" if rng.random() < .4 else "", ", ".join([lit] + ([F("icase")] if "icase" in fl and rng.random() < .5 else [])), "")
                if "clear_flags" in t:
                    t = t[:-1] + "))"
            cases.append(Case(p, fl, BASIC, PTR, texts, budget=120, type=t))
    ck.cases(cases)
    # Every construct under each single flag (a flag must change nothing it does not document)
    cons = ["a", "A", "[a-c]", "[^A-C]", "\\w", "\\W", "\\x41", ".", "\\N", "\\R", "[.]", "^a", "a$", "\\Aa", "a\\Z", "\\ba", "a*", "a*?", "a*+", "a{2}", "a{2}?", "a{2}+", "a{1,2}b", "(a)\\1", "(?=A).", "(?<=A).", "(?!a).", "(?<!a).", "(?>a|ab)c", "(a|B)+?b", "(?:ab){2}", "(?:ab){2,}?", "(?:ab){3}+", "(a?){3}", "(?:.b){2}", "[^]{3}", "(?:a|b){4}", "(a+?b){2}c?", "(?<n>a)\\k<n>", "a??b", "(?:a??b){2}", "\\D\\d", "(?<=a.b)c", "(?<=(?:ab){2})c", "(?<=a{3})b", "a+a", "(.+)(b*)", "(.+?)(b*?)", "(?<=(b*)(.+))c", "\xe9", "[\\xe0-\\xef]", "[@-\\[]", "[`-{]"]
    cases = []
    for p in cons:
        for f in FL:
            if not ck.thorough and rng.random() < .25:
                continue
            cases.append(Case(p, (f,), BASIC, pick_kind(rng, p, ptr=.4), texts, budget=160))
    ck.cases(cases)
    # unroll: fixed repetitions of everything, on all iterator categories; counts exact, short and long
    cases = []
    for body, unit in [("a", b"a"), ("[ab]", b"a"), ("(ab)", b"ab"), ("(?:a|b)", b"b"), ("(a?)", b"a"), (".", b"x"), ("(?:a|aa)", b"a"), ("(a|b)", b"a")]:
        for q in ["{2}", "{3}", "{4}", "{5}", "{8}", "{2,}", "{3,5}", "{2}?", "{3}+", "{2,4}?", "{2,3}+", "{12}"]:
            if not ck.thorough and rng.random() < .4:
                continue
            p = rng.choice(["", "b", "(c?)"]) + body + q + rng.choice(["", "b", "a", "(a?)"])
            k = int(re.search(r"\{(\d+)", q).group(1))
            cases.append(Case(p, ("unroll",) + random_flags(rng, .3, ["icase", "ungreedy"]), BASIC, rng.choice([PTR, LIST, FWD, FWD, DEQUE]), [unit * j + t for j in range(max(0, k - 1), k + 3) for t in (b"", b"a", b"b")], budget=60))
    ck.cases(cases)
    ck.cases(random_cases(ck, n(ck, 200, 4500), flag_p=1, flags=FL, alphabet="aB\nZ", anchor=1.2, dot=4, quant=.6))
    return ck.finish()


def c11():
    ck = start("C11")
    rng = ck.rng
    IT = FIND_ALL | TOKENIZE
    cur = ["a", "a+", "a*", "a??", "a?", "", "(?:)", "ab|a", "a|ab", "(a)|(b)", "(a)|b", "(?:(a)|b)", "\\w+", "\\s*\\w+", "[^,]*,?", "(\\w)(\\w)?", "^a", "a$", "^", "$", "\\A.", ".\\Z", "\\b", "\\b\\w", "\\B.", "(?<=a)b", "(?<!a).", "(?<=b)", "(?=b)", "a(?=b)", "(?!a)", ".(?!a)", "(.)\\1", "(.)\\1?", "(a)\\1", ".", "..", "[]", "[^]", "x*y?", "(?>a|ab)", "a*+", "(a*)b?", "(?<n>a)|(?<m>b)", "^.*$", "^", "(?<=^a)b", "\\R", "[ab]{2}", "[ab]{2,3}?", "(?:a|b)*?c", "a{0}", "(a|b|(?:))", "(?:)|a", "a|(?:)", "(?:a|(?:))b", "(?<=(a))b|a", "(?<=,|^)[^,]*", "\\d+|[a-z]+|\\s+", "(?:^|,)(\\w)", "a|^b", "(?<=\\b)a"]
    ck.cases(curated(cur, IT, kinds=three_kinds))
    ck.cases([Case(p, random_flags(rng, 1, ["multiline", "dotall", "icase", "ungreedy", "unroll"]), IT, pick_kind(rng, p, ptr=.4)) for p in cur])
    ck.cases(realistic(IT, kinds=lambda p: PTR))
    ck.cases(random_cases(ck, n(ck, 260, 4500), methods=IT, flag_p=.3, max_nodes=5, max_seq=2, cap=5, alt=.4, anchor=.8, look_behind=1, look_ahead=1))
    # Context: lookarounds and anchors that reach far into earlier results and beyond the next ones
    ctx = ["(?<=ab)c|b", "(?<=ab)c|[ab]", "(?<!ab)c|[ab]", "(?<=a.*)b|.", "(?<=^a+)b|a", "(?<=^.{3}).|(a)", "(?<!^.{2}).|(.)", "(?<=(a)b*)b|.", "(?<=\\b\\w{2})[^]|.", "(?<=(.)..)\\1|.", "(?<=\\Aab).|.", "(?<=^ab).|.", "(?<=ab|^)c|[ab]", "(?<=(?<!a)b.)c|.", "(?:(?<=aa)(b)|a)", "(?<=(.).)\\1|[^]", "a(?=.*b)|.", "(?=.*c)a|(.)", ".(?!.*b)", "a(?=..$)|.", "(?<=^.)b|a", "(?<=^|b..)a|[^]", "(?<!a..)b|.", "(?<=(?=abc).*)c|.", "(?<=\\A[^]*)b", "(?<!^)(?<=.{2})a|b", "(?<=(.+))b|a", "(?<=\\B.)a|."]
    ck.cases(curated(ctx, IT, kinds=three_kinds))
    look = Gen(rng, max_nodes=3, max_seq=2, alt=.3)
    more = []
    while len(more) < n(ck, 30, 500):
        x = rng.choice(["(?<=%s)", "(?<!%s)", "(?<=^%s)", "(?<=%s.*)", "(?<!%s.)", "(?=.*%s)", "(?!..%s)"]) % look.pattern()
        more.append(x + rng.choice(["a", "b", "(.)", "[ab]"]) + rng.choice(["|.", "|[^]", "|a", "|(b)", "|ab?", "|\\w+"]))
    more = [p for p, (ok, h, e) in zip(more, ck.verdicts(more)) if ok and not h]
    ck.cases([Case(p, random_flags(rng, .3), IT, pick_kind(rng, p, ptr=.5)) for p in more])
    cur = cur + ctx
    lens = ["a", "b|(?:)", "(a)|(b)", "ab?", "a*", "[^,]*,", "(?<=a)b|a", "^|a"]
    ck.cases([long_case(p, [R("a", 300), R("ab", 200), R("ab,", 400), R("a", m) + " + " + S("c"), R("ab", m), R("a,", m)], methods=IT, kinds=k) for p in lens for k, m in ((PTR, 20000), (FWD if fwd_ok(p) else LIST, 1500))])
    cases = []
    for p in rng.sample(cur, n(ck, 16, len(cur))):
        c = Case(p, random_flags(rng, .3), IT, PTR, budget=80, runner="vf::run_views<{T}, %d, %s, %d>" % (IT, "std::forward_list<char>" if fwd_ok(p) and rng.random() < .3 else rng.choice(["std::string", "std::list<char>"]), len(groups_of(p))))
        c.cost = 2.2
        cases.append(c)
    ck.cases(cases, headers=["views.hpp"])
    pats = [(p, random_flags(rng, .3), k) for p in rng.sample(cur, n(ck, 26, len(cur))) for k in ([PTR, FWD] if fwd_ok(p) else [PTR, LIST])]
    chunks = n(ck, 6, 12)
    for k in range(chunks):
        src = history_source(ck, pats[k::chunks], n(ck, 240000, 1500000), 10)
        ck.source(src, "o1", what="iteration histories")
        if k % 2 == 0 or ck.thorough:
            ck.source(src, "debug", what="iteration histories (checked containers)")
    return ck.finish()


def history_source(ck, pats, ops, per_pattern):
    """One client, a random history of operations on many live generators and ranges."""
    out = ['#include "harness.hpp"', '#include "history.hpp"', "void vf::run_all() {", "    vf::HistWorld w;"]
    for p, fl, k in pats:
        out.append("    w.patterns.push_back(vf::hist_pattern<%s, vf::Kind(%d)>(%s, %d, %d));" % (Case(p, fl).regex_type(), k, cxx_literal(p), len(p), flag_mask(fl)))
    out.append("    w.prepare(%d);" % per_pattern)
    out.append("    for (int round = 0; round < 8; ++round) {")
    out.append('        vf::HistClient c(w, static_cast<std::uint32_t>(vf::ctx().seed * 1000 + round));')
    out.append("        vf::set_case(-1, \"history\", \"\", 0, \"\");")
    out.append("        for (int k = 0; k < %d && c.log.failures.size() < 8; ++k) { if (k %% 1000 == 0) vf::set_case(-1, \"history\", \"\", 0, \"\"); c.step(); }" % (ops // 8))
    out.append("        vf::absorb(w, c.log);")
    out.append("    }\n}")
    return "\n".join(out) + "\n"
