"""Checks with monitors of their own: representations, memory, termination, constant evaluation, expressions, results, threads."""
import itertools

from .checks_core import *

KIND_SETS = [PTR | LIST, PTR | FWD, PTR | DEQUE, PTR | REV, PTR | GRA, PTR | GBI, PTR | GFW, LIST | FWD, VEC | GFW, DEQUE | GBI, PTR | VEC]
SHAPES = ["a", "ab", "abc", "a+", "a*b", "a{3}", "a{2,}b", "[ab]{4}", ".{2}.", "(a)(b)?", "(ab){2}", "(?:ab){3}c", "(a|b){2,3}", "(a+)\\1", "(..)\\1", "(.*)b\\1", "^a", "a$", "^a*$", "\\Aab", "ab\\Z", "a*+b", "(?>a|ab)c", "a+?b", "(?=ab)a", "(?!ab).", "(a*)(b*)", "\\w+", "[^a]b", "a??b", "(a?)*b", "(?:a|b)*?c", "(?<n>a)\\k<n>", "^", "$", "a|b", "ab|cd", "(a)|b"]
BIDI_SHAPES = ["\\ba", "a\\b", "\\B.", "(?<=a)b", "(?<!a)b", "(?<=(a)b)c", "(?<=^a)b", "(?<=a{2})b", "(?<=(.)\\1)b", "\\b\\w+\\b"]


def c12():
    ck = start("C12", "each evaluation is one call on one representation of one input, compared in full with the reference model; non-trivial: distinct (pattern, method, input, outcome) that matched a non-empty text")
    ck.budget = 250
    rng = ck.rng
    def kinds(r, p):
        ok = [k for k in KIND_SETS if fwd_ok(p) or not k & FWD_KINDS]
        return r.choice(ok)
    # Every shape on every iterator kind, in both repetition strategies
    cases = []
    for p in SHAPES + BIDI_SHAPES:
        ks = [LIST, FWD, DEQUE, REV, GRA, GBI, GFW, VEC] if fwd_ok(p) else [LIST, DEQUE, REV, GRA, GBI, VEC]
        for k in ks:
            if not ck.thorough and rng.random() < .35:
                continue
            cases.append(Case(p, random_flags(rng, .4, ["unroll", "multiline", "icase", "unroll"]), BASIC, k))
    ck.cases(cases)
    ck.cases(random_cases(ck, n(ck, 230, 4000), flag_p=.45, flags=["unroll", "unroll", "multiline", "icase", "dotall"], kinds=kinds, methods=mixed_methods))
    ck.cases(random_cases(ck, n(ck, 100, 2000), flag_p=.45, flags=["unroll", "multiline", "icase"], kinds=lambda r, p: r.choice([FWD, GFW, FWD | GFW]), forward=True, quant=.6, backref=2, anchor=1))
    # The overload set
    cases = []
    some = rng.sample(SHAPES, n(ck, 14, len(SHAPES))) + rng.sample(BIDI_SHAPES, n(ck, 4, len(BIDI_SHAPES)))
    for i, p in enumerate(some):
        for g in range(5):
            m = [BASIC, ALL_METHODS, BASIC, BASIC | FIND_ALL][(i + g) % 4]
            c = Case(p, random_flags(rng, .3), m, PTR, [b"ab\0", b"a\0", b"\0a", b"a\0ab", b"aab\0aab\xff"], budget=120, runner="vf::run_overloads<{T}, %d, %s, %d>" % (m, "true" if fwd_ok(p) else "false", g))
            c.cost *= 5
            cases.append(c)
    ck.cases(cases, headers=["overloads.hpp"])
    ps = [(p, random_flags(rng, .3)) for p in rng.sample(SHAPES, n(ck, 10, len(SHAPES))) + rng.sample(BIDI_SHAPES, n(ck, 3, len(BIDI_SHAPES))) + ["", ".*", "[^]*", "a*$", "(?:ab|a)*"]]
    per = n(ck, 3, 4)
    for k in range(0, len(ps), per):
        rows = ["    vf::literals<%s>(%d, %s, %d, %d);" % (Case(p, fl).regex_type(), -10 - k - i, cxx_literal(p), len(p), flag_mask(fl)) for i, (p, fl) in enumerate(ps[k:k + per])]
        ck.source("\n".join(['#include "harness.hpp"', '#include "literals.hpp"', "void vf::run_all() {"] + rows + ["}"]) + "\n", "asan" if k == 0 else "o1", what="string literals and character arrays")
    # Lengths, distances and counts beyond one byte in every representation
    far = [("(a++)-\\1", [R("a", x) + " + " + S("-") + " + " + R("a", y) for x, y in ((255, 255), (256, 256), (257, 256), (256, 257), (300, 300), (300, 299), (300, 44), (513, 513))]),
           ("(?:(ab)*+)c", [R("ab", x) + " + " + S("c") for x in (127, 128, 129, 300)] + [R("ab", 300)]), ("a{256}b", [R("a", x) + " + " + S("b") for x in (255, 256, 257)] + [R("a", 256)]), ("[^b]{300}", [R("a", x) for x in (44, 299, 300, 301)]),
           ("a*b", [R("a", x) + " + " + S("b") for x in (255, 256, 257, 300)] + [R("a", 300)]), (".*?c", [R("ab", x) + " + " + S("c") for x in (127, 128, 300)] + [R("ab", 260)]), ("b", [R("a", x) + " + " + S("ba") for x in (254, 255, 256, 257, 400)]), ("^b", [R("a\n", x) + " + " + S("b") for x in (127, 128, 200)]),
           ("(a|b)c", [R("a", x) + " + " + S("bc") for x in (254, 255, 256, 300)]), ("a{250,300}", [R("a", x) for x in (249, 250, 299, 300, 301)])]
    cases = []
    for p, ins in far:
        for k in (LIST, FWD, DEQUE, REV, GRA, GBI, GFW, VEC):
            if p.startswith("a{250") and k & FWD_KINDS or not ck.thorough and rng.random() < .45:
                continue
            cases.append(long_case(p, ins, random_flags(rng, .4, ["unroll", "multiline", "icase"] if "{" not in p else ["multiline", "icase"]), BASIC if p != "^b" else SEARCH, k))
            cases[-1].budget = 20
    ck.cases(cases)
    lens = [R("a", 255) + " + " + S("b"), R("a", 256) + " + " + S("b"), R("ab", 33000), R("a", 66000) + " + " + S("b")]
    ck.cases([long_case(p, lens, fl, BASIC, k) for p in ("a*b", "[ab]{200,}", "a{256}b", ".*?b$") for fl in ((), ("multiline",)) for k in ((LIST,) if p.startswith("a*") else (PTR, DEQUE))])
    return ck.finish()


def c13():
    ck = start("C13", "each evaluation is one call (or whole iteration) under AddressSanitizer and UBSan on an exact-size heap buffer, with _GLIBCXX_DEBUG containers, or over bounds-checking iterators; "
                      "guard_events counts checked iterator operations; non-trivial: distinct (pattern, method, input, outcome) that matched a non-empty text")
    ck.budget = 200
    rng = ck.rng
    core_p = SHAPES + BIDI_SHAPES + ["(a)\\1", "(a*)\\1{2}", "(?<=a{2,3})", "(?<=(ab)\\1)", "(?=a{3})", "(?<!^.)a", ".{5}", "a{5}b", "(?:ab){2}", "[^]{3}$", "(?:^|a)b", "\\Z", "\\B", "\\b", "(?<=\\b)", "(?=\\b)", "(?<=$)", "(?<=\\A)a", "a(?=$)", "a(?!.)", "(?<!.)a"]
    asan = [Case(p, random_flags(rng, .5), rng.choice([BASIC, BASIC, ALL_METHODS]), PTR, budget=120) for p in core_p if ck.thorough or rng.random() < .75]
    asan += random_cases(ck, n(ck, 70, 1500), flag_p=.5, kinds=PTR, methods=mixed_methods, max_nodes=6)
    asan += random_cases(ck, n(ck, 15, 600), flag_p=.5, kinds=PTR, backref=5, cap=6, need=r"\\[1-9]|\\k", max_nodes=6)
    asan += realistic(BASIC, kinds=lambda p: PTR)[::n(ck, 3, 1)]
    ck.cases(asan, "asan")
    ck.cases([Case(p, random_flags(rng, .4), BASIC, k, budget=100) for p in core_p for k in ([LIST, FWD] if fwd_ok(p) else [LIST]) if rng.random() < n(ck, .12, .6)], "asan")
    # Bounds-checking iterators of all categories
    cases = []
    for p in core_p:
        for k in [GRA, GBI] + ([GFW] if fwd_ok(p) else []):
            if ck.thorough or rng.random() < .6:
                cases.append(Case(p, random_flags(rng, .5), rng.choice([BASIC, BASIC, ALL_METHODS]), k))
    cases += random_cases(ck, n(ck, 120, 3000), flag_p=.5, kinds=lambda r, p: r.choice([GRA, GBI, GFW] if fwd_ok(p) else [GRA, GBI]), methods=mixed_methods)
    ck.cases(cases)
    # Standard containers with checked iterators
    ck.cases(random_cases(ck, n(ck, 120, 3000), flag_p=.5, kinds=lambda r, p: r.choice([VEC, LIST, DEQUE, FWD] if fwd_ok(p) else [VEC, LIST, DEQUE]), methods=mixed_methods), "debug")
    ck.cases([Case(p, random_flags(rng, .5), ALL_METHODS, rng.choice([VEC, LIST, DEQUE, FWD] if fwd_ok(p) else [VEC, LIST, DEQUE])) for p in core_p if ck.thorough or rng.random() < .6], "debug")
    # Owned results and the safety of reading any result, under the sanitizers
    over = rng.sample(SHAPES, n(ck, 5, 20)) + rng.sample(BIDI_SHAPES, n(ck, 1, 6))
    cases = []
    for i, p in enumerate(over):
        for g in (0, 1, 2, 4):
            if not ck.thorough and (i + g) % 3:
                continue
            c = Case(p, random_flags(rng, .3), BASIC, PTR, budget=60, runner="vf::run_overloads<{T}, 7, %s, %d>" % ("true" if fwd_ok(p) else "false", g))
            c.cost *= 5
            cases.append(c)
    ck.cases(cases, "asan", headers=["overloads.hpp"])
    src = open(os.path.join(LIB, "blank.cpp")).read()
    ck.source(src, "asan", what="reading default-constructed and failed results")
    ck.source(src, "debug", what="reading default-constructed and failed results (checked)")
    return ck.finish()


PARSE_ALPHABET = "a\\()[]{}?*+|^$.-,:=!<>01kx"
PARSE_STATES = ["", "a", "a|", "a*", "a*?", "a+", "a{", "a{1", "a{1,", "a{1,2", "a{12", "a{2}", "a{2,}", "a{,", "a{2}?", "(", "(a", "(?", "(?<", "(?<n", "(?<n1", "(?<n>", "(?:", "(?:a", "(?=", "(?!", "(?>", "(?<=", "(?<!", "(a)", "(a)*", "(?=a)", "\\", "\\x", "\\x4", "\\x41", "(?<n>a)\\k",
                "(?<n>a)\\k<", "(?<n>a)\\k<n", "(?<n>a)\\k<n>", "(a)\\1", "(a)\\1*", "[", "[^", "[a", "[^a", "[a-", "[a-c", "[a-c-", "[\\", "[a-\\", "[\\d", "[\\d-", "[\\x", "[\\x4", "[\\x41-", "[a-\\x", "[a-\\x7", "[ab]", "[]", "[^]", "[-", "^", "$", "\\b", "\\d", "\\A", ".", "()", "(|", "(a|", "(a|b", "((", "(?:(", "^*"[:1], "a?", "a??", "a{1}{", "a{1,2}", "[a]{", "(a){", "\\d{", ".{", "$a{3"]


def parser_program(ps):
    return ("#include <mregex.hpp>\n#include <cstdio>\ntemplate<std::size_t I> constexpr long code(meta::parsing::syntax_error<I>) { return static_cast<long>(I); }\n"
            "constexpr long code(meta::parsing::success) { return -1; }\nlong v[] = {\n%s\n};\nint main() { for (long x : v) std::printf(\"%%ld\\n\", x); }\n" %
            ",\n".join("code(meta::parser_verdict<%s>{}) + (meta::parser<%s>::accepted ? 0 : 0)" % (cxx_literal(p), cxx_literal(p)) for p in ps))


def parser_chunk(ck, ps, expected, variant):
    """Monitor: the verdict of the real parser for each pattern against the reference parser."""
    def say(e):
        return "accepted" if e == -1 else "syntax error at %d" % e
    rc, out, rrc, text = ck.program(parser_program(ps), variant)
    if rc is None:
        ck.note_inconclusive("parsing %d patterns timed out (%r...)" % (len(ps), ps[0]))
        return
    if rc != 0:
        if len(ps) > 1:
            if not ck.baseline_ok():
                raise HarnessError("the library does not build: " + out[:1500])
            if len(ck.violations) < 40:
                h = len(ps) // 2
                parser_chunk(ck, ps[:h], expected[:h], variant)
                parser_chunk(ck, ps[h:], expected[h:], variant)
            return
        err = [l for l in out.splitlines() if "error" in l][:3]
        if "internal compiler error" in out or not err:
            ck.note_inconclusive("compiler failure on %r" % ps[0])
            return
        ck.report("parser", "parse pattern=%s" % json.dumps(ps[0]), dict(monitor="parser", what="no verdict", pattern=ps[0], flags=0, input="", expected=say(expected[0]), observed="hard error: " + " | ".join(err)[:800]),
                  dict(property=ck.prop, program=parser_program(ps), variant=variant, expect=str(expected[0])))
        return
    got = [int(x) for x in text.split()]
    if rrc != 0 or len(got) != len(ps):
        ck.note_inconclusive("parser table did not run: " + text[-200:])
        return
    ck.absorb_stats(dict(evals=len(ps), nontrivial=sum(1 for e in expected if e != 0), accepted=sum(1 for e in expected if e == -1), rejected=sum(1 for e in expected if e != -1)))
    for p, e, g in zip(ps, expected, got):
        if e != g:
            ck.report("parser", "parse pattern=%s" % json.dumps(p), dict(monitor="parser", what="verdict", pattern=p, flags=0, input="", expected=say(e), observed=say(g)),
                      dict(property=ck.prop, program=parser_program([p]), variant=variant, expect=str(e)))
    k = len(ps) // 2
    ck.add_sample("%s: %s" % (json.dumps(ps[k]), say(expected[k])))


def c10():
    ck = start("C10", "each evaluation is one pattern string run through the real compile-time parser, its verdict and error position compared with the reference parser (or one program whose compilation has to fail); "
                      "non-trivial: distinct patterns that are accepted or rejected after at least one character")
    rng = ck.rng
    A = PARSE_ALPHABET
    pats = [""] + ["".join(t) for k in (1, 2) for t in itertools.product(A, repeat=k)]
    three = ["".join(t) for t in itertools.product(A, repeat=3)]
    pats += three
    # Every byte after every kind of parser state
    for st in dict.fromkeys(PARSE_STATES):
        pats += [st + chr(b) for b in range(256)]
    if ck.thorough:
        pats += ["".join(t) for t in itertools.product(A, repeat=4)]
        pats += [st + a + b for st in dict.fromkeys(PARSE_STATES) for a in A for b in A]
    else:
        pats += [rng.choice(PARSE_STATES) + "".join(rng.choice(A) for _ in range(rng.randint(2, 4))) for _ in range(6000)]
    # Valid patterns and one or two edits away from valid
    gens = [Gen(rng), Gen(rng, max_nodes=10, max_seq=4), Gen(rng, set=10, esc=4, cls=4, alphabet="a-]^\\z0"), Gen(rng, cap=8, named=8, backref=6, look_ahead=4, look_behind=4)]
    for _ in range(n(ck, 7000, 60000)):
        p = rng.choice(gens).pattern()
        r = rng.random()
        if r < .2:
            pats.append(p)
            continue
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(len(p) + 1)
            op = rng.randrange(5)
            if op == 0:
                p = p[:k] + rng.choice(A) + p[k:]
            elif op == 1:
                p = p[:k] + p[k + 1:]
            elif op == 2:
                p = p[:k] + rng.choice(A) + p[k + 1:]
            elif op == 3:
                p = p[:k]
            else:
                p = p[:k] + p[k:k + 2] + p[k:]
        pats.append(p)
    pats += ["a" * 300, "(" * 40 + "a" + ")" * 40, "(?:" * 40 + "a" + ")*" * 40, "[" + "a-z" * 40 + "]", "|".join(["ab"] * 80), "a{%d}" % 10 ** 9, "a{0,%d}" % (2 ** 32), "(" * 60, "[" + "a" * 200, "a" * 200 + ")", "\\x41" * 60, "(?<%s>a)" % ("n" * 120), "(?:a*b+?c{2})" * 25]
    # Every byte after every kind of parser state again, completed to a valid pattern where one byte left it open
    openers = [st + chr(b) for st in dict.fromkeys(PARSE_STATES) for b in (range(256) if "\\" in st or "[" in st or ck.thorough else range(33, 127))]
    openers = [p for p, (ok, h, e) in zip(openers, ck.verdicts(openers)) if not ok and e == len(p)]
    tails = [")", "]", "])", "}", "})", ">a)", "a)", "1}", "1})", "a", "a]", "1]", "41]", "n>a)", "n>", ">", ")>", "=a)", "a))"]
    v = ck.verdicts([p + t for p in openers for t in tails])
    for k, p in enumerate(openers):
        pats += [p + t for t, (ok, h, e) in zip(tails, v[k * len(tails):(k + 1) * len(tails)]) if ok][:2]
    pats = list(dict.fromkeys(pats))
    # Long patterns: the same constructs and the same mistakes far from the start
    longer = []
    for _ in range(n(ck, 260, 3000)):
        p = ""
        want = rng.choice([20, 33, 65, 66, 100, 130, 257, 300])
        while len(p) < want:
            p += rng.choice(["a", "ab", "[a-c]", "(?:a|b)", "(ab)*", "\\d+", "x{2,3}", "(?<n%d>a)" % len(p), "\\x41", ".", "^", "(?=a)", "a??", "|b"])
        p += rng.choice(PARSE_STATES) + "".join(rng.choice(A) for _ in range(rng.randint(0, 2)))
        longer.append(p)
    longer += ["(?<%s>a)%s" % (nm, t) for nm in ("a" * 16, "b" * 33, "_" * 64, "Az09_" * 20) for t in ("", "\\k<%s>" % nm, "\\k<%s" % nm, ")", "\\k<%s->" % nm)]
    longer += ["a{%s}" % d for d in ("0001", "12345", "65535,65536", "007,010", "4294967295", "1,4294967296", "99999999999", "0" * 30)] + ["[" + "".join(chr(c) for c in range(33, 127) if chr(c) not in "\\]^-") + t for t in ("]", "", "-]", "\\]", "\\x4", "]]")]
    longer = [p for p in dict.fromkeys(longer) if p not in set(pats)]
    v = ck.verdicts(longer)
    longer = [(p, -1 if ok else e) for p, (ok, h, e) in zip(longer, v) if not h]
    for k in range(0, len(longer), 60):
        ck.submit(parser_chunk, ck, [p for p, _ in longer[k:k + 60]], [e for _, e in longer[k:k + 60]], "o0" if k % 180 else "clang")
    v = ck.verdicts(pats)
    hard = [p for p, (ok, h, e) in zip(pats, v) if ok and h]
    # a reversed bound may come before the first syntax error: a rejection either way, but with no position to compare
    risky = [p for p, (ok, h, e) in zip(pats, v) if not ok and h]
    soft = [(p, -1 if ok else e) for p, (ok, h, e) in zip(pats, v) if not h]
    ck.count("patterns", len(soft))
    ck.count("patterns_rejected_later_than_parsing", len(hard))
    rng.shuffle(soft)
    size = n(ck, 1500, 2500)
    for k in range(0, len(soft), size):
        part = soft[k:k + size]
        ck.submit(parser_chunk, ck, [p for p, _ in part], [e for _, e in part], "o0")
    part = rng.sample(soft, n(ck, 1200, 20000))
    for k in range(0, len(part), 1200):
        ck.submit(parser_chunk, ck, [p for p, _ in part[k:k + 1200]], [e for _, e in part[k:k + 1200]], "clang")
    # What the parser accepts can be used: short accepted patterns run against the reference
    acc = [p for p, e in soft if e == -1 and 0 < len(p) <= 6]
    ck.cases([Case(p, random_flags(rng, .2), BASIC, PTR, budget=60) for p in rng.sample(acc, min(len(acc), n(ck, 260, 4000)))])
    # Programs that must not compile
    bad = HARD + rng.sample(hard, min(len(hard), n(ck, 14, 200))) + [p for p, e in rng.sample(soft, n(ck, 400, 4000)) if e != -1][:n(ck, 10, 100)] + rng.sample(risky, min(len(risky), n(ck, 8, 100)))
    for k, p in enumerate(bad):
        ck.submit(compile_fails, ck, p, "an invalid pattern", "clang++" if k % 6 == 5 else "g++")
    return ck.finish()


HARD = ["[b-a]", "[z-\\x41]", "[\\x42-A]", "[^9-0]", "[a-zb-a]", "a{2,1}", "a{10,9}", "a{1,0}?", "(?:ab){3,2}+", "[ab]{5,3}", "\\1", "(a)\\2", "(?:a)\\1", "\\k<n>", "(?<n>a)\\k<m>", "(?<n>a)(?<n>b)\\k<n>", "(?<n>a)|(?<n>b)\\k<n>", "(?<n>(?<n>a))\\k<n>", "(?:(?<ab>a))*(?<ab>c)\\k<ab>",
        "(", ")", "a)", "(a", "[", "[a", "*", "+a", "?", "(*a)", "a**", "a{2}{3}", "|a", "a|", "(a|)", "(?", "(?a)", "(?<", "(?<>a)", "(?<1>a)", "(?<n", "\\", "\\x", "\\x4", "\\xg0", "\\k", "\\kn", "\\k<>", "a{1", "a{1,", "a{1,2", "[a-", "a|*", "(?P<n>a)", "(?#a)", "^*", "\\b+"]



NULLABLE = ["(a*)*", "(a*)+", "(a?)*", "(a??)*", "(a*?)*?", "(?:a*)*b", "(?:a?){3}", "(?:a*){2,}", "(?:)*", "()*", "(?:){3}", "(?:)+", "()+?", "()*+", "(?:^)*a", "(?:$)*", "(?:\\b)*a", "(?:\\b)+", "(?=a)*a", "(?=a)+", "(?!b)*a", "(?<=a)*b", "(?:(?=a))*a", "(?:a|(?:))*b", "(?:(?:)|a)*b", "(?:(?:)|a)+?b", "(?:a*|b)*c", "(?:a*b*)*c", "((a*)*)*", "((a*)+b?)*c", "(a*|b*)*+c", "(?:a?)*+b", "(?>a*)*b", "(?>a?)+b", "(\\1)*", "(a|\\1)*", "(a?)(?:\\1)*b", "(?:\\1|(a?))*b", "(?:a{0,2}){2,}c", "(?:a{0}){5}", "(?:a{0})*", "(?:(a)|b?)*c", "(?:a??)*?c", "(?:a?b??)*$", "^*"[:1], "(?:^a?)*", "(?:a?$)*", "(?:(?:a?)*)*", "(?:(?:a?)+)+b", "(?:(?:a*)*?)*+c", "(?:.*)*", "(?:.*?)*x", "(?:[]|a?)*", "(?:(?!))*a", "(?:a*(?=b))*", "(?:(?<=a)b?)*", "(?<=(?:a?)*)b", "(?<=(a*)*)b", "(?<=(?:)*)a", "(?=(?:a?)*b)a", "(?!(?:a?)*b)a?", "((?:a?)*)*", "(?:(a?)\\1)*b", "(?:a*){0,3}", "(?:a?){2,}?b", "(?:a?){2,}+b", "(?:(?:a|b?)*c?)*d"]


def c14():
    ck = start("C14", "each evaluation is one call with a processor-time watchdog; on long inputs the whole process runs with a 512 KiB stack; guard_events counts iterator operations; "
                      "non-trivial: distinct (pattern, method, input, outcome) that matched a non-empty text, and distinct measured work counts")
    ck.hang = 12
    rng = ck.rng
    ck.cases(curated(NULLABLE, BASIC, kinds=lambda p: pick_kind(rng, p)))
    ck.cases([Case(p, random_flags(rng, .6, ["unroll", "ungreedy", "multiline"]), FIND_ALL | TOKENIZE | SEARCH, pick_kind(rng, p, ptr=.5)) for p in NULLABLE])
    ck.cases(random_cases(ck, n(ck, 230, 5000), flag_p=.4, flags=["unroll", "ungreedy", "multiline"], lit=6, empty_group=4, quant=.85, anchor=1.5, wordb=.8, backref=1.5, cap=4, ncap=6, atomic=2, look_ahead=1.5, look_behind=1, lazy=.25, possessive=.2, max_depth=4, max_nodes=8,
                          methods=lambda r: r.choice([BASIC, BASIC, SEARCH | FIND_ALL, ALL_METHODS]), need=r"\)[*+?{]"))
    # Long inputs on a small stack
    N = n(ck, 600000, 3000000)
    A = lambda t="", u="a", k=N, h="": [(S(h) + " + " if h else "") + R(u, k) + (" + " + S(t) if t else "")]
    def long(p, inputs, methods=MATCH | PREFIX, kinds=PTR, flags=()):
        c = long_case(p, inputs, flags, methods, kinds, steps=80 * N)
        c.budget = 8
        return c
    cs = []
    for kinds in (PTR, LIST):
        cs += [long("a*", A(), kinds=kinds), long("a+b", A("b") + A("c"), kinds=kinds), long("a*?b", A("b") + A("c"), kinds=kinds), long("a*+b", A("b") + A("c"), kinds=kinds), long("[ab]*c", A("c", "ab") + A("d", "ab"), kinds=kinds), long("[^x]+?x", A("x"), kinds=kinds),
               long("a{3,}b", A("b") + A("c"), kinds=kinds), long("a{3,}?b", A("b"), kinds=kinds), long("a{3,}+b", A("b"), kinds=kinds), long("(a*)(b*)c", A("bbc"), kinds=kinds), long("\\w+ ", A(" "), kinds=kinds), long("a*a", A(), kinds=kinds), long("a??a*+", A(), kinds=kinds)]
    cs += [long(".*x", A("x")), long(".*\\n", A("\n"), flags=("dotall",)), long(".+?x", A("x")), long("(?:ab)*+c", A("c", "ab", N // 2)), long("(?:ab)*+c", A("a", "ab", N // 2)), long("(?:a|b)*+c", A("c", "ab", N // 2)), long("(a|b)++", A("", "ab", N // 2)), long("(?:a|bc)*+", A("", "abc", N // 3), kinds=LIST), long("(?:a+b)*+c", A("c", "aab", N // 3)),
           long("(?:a(b)?){2,}+c", A("c", "ab", N // 2)), long("(?>a*)b", A("b")), long("(?=a*b)a*+b", A("b")), long("(?!a*c)a*b", A("b")), long("(a*)\\1", A()), long("(a*+)b\\1", [R("a", N // 2) + " + " + S("b") + " + " + R("a", N // 2)]), long("a{%d}" % (N - 1), A("", "a", N - 1)), long("[ab]{%d,}c" % (N // 2), A("c")), long("a{0,%d}b" % N, A("b")), long("a{0,%d}?b" % N, A("b")), long("a{0,%d}+b" % N, A("b")),
           long("a{%d,%d}" % (N - 2, N + 2), A()), long("(?:ab){%d}+" % 20, A("", "ab", 20)), long("a*b", A("b"), flags=("ungreedy",)), long("a{5,}b", A("b"), flags=("unroll",)), long("a*b", A("B"), flags=("icase",)), long("^a*$", A("\nb"), PREFIX, flags=("multiline",)), long("b", A("b"), SEARCH), long("b", A("b"), SEARCH, LIST), long("[bc]$", A("c"), SEARCH), long("(?:a)*+b", A("b")), long("\\bb", A("b", "a "), SEARCH), long("(?<=a)b", A("b"), SEARCH), long("x(?<=^a*x)", A("x", k=200000), SEARCH),
           long("a*?b", A("b"), kinds=FWD), long("a*+b", A("b"), kinds=FWD), long("[ab]{3,}+c", A("c"), kinds=FWD), long("(?:ab)*+c", A("c", "ab", N // 2), kinds=FWD), long("b", A("b"), SEARCH, FWD), long("a{%d}b" % (N // 2), A("b", k=N // 2), kinds=FWD), long("a*b", A("b"), kinds=DEQUE), long("a*b", A("b"), kinds=REV), long("(?:a*+b)*+c", A("c", "aab", N // 3), kinds=VEC)]
    it = [long("a", A(), FIND_ALL | TOKENIZE), long("[^,]*+,", A("", "ab,", N // 3), FIND_ALL | TOKENIZE), long("a+", A("", "ab", N // 2), FIND_ALL), long("a|b", A("", "ab", 6000), TOKENIZE, LIST), long("(a)(b)?", A("", "ab", 6000), FIND_ALL, FWD), long("x*", A(), FIND_ALL | TOKENIZE), long("(?<=a)b|a", A("", "ab", N // 2), TOKENIZE)]
    for c in cs + it:
        c.cost += 1.5
    ck.cases(cs + it, "o1", stack_kb=512, target=4)
    ck.cases([Case(c.pattern, c.flags, c.methods, c.kinds, c.inputs, c.budget, c.steps) for c in (cs + it)[::n(ck, 3, 1)]], "o0", stack_kb=512, target=4)
    # Work counted on the iterators
    lin = ['#include "harness.hpp"', '#include "linear.hpp"']
    rows = []
    idx = 0
    singles = [("a", "a", "b"), ("[ab]", "ab", "c"), (".", "a", "\n"), ("[^c]", "ab", "c"), ("\\w", "a", " "), ("a", "a", "a")]
    quants = ["*", "+", "*?", "+?", "*+", "++", "{3,}", "{3,}?", "{3,}+", "{0,9000}", "{0,9000}?", "{2,9000}+", "{100,}", "?", "??", "?+", "{0,3}", "{7}"]
    for (x, unit, stop), q in itertools.product(singles, quants):
        for p, heads in ((x + q + ("\\n" if stop == "\n" else stop), [""]), ("b?" + x + q + ("\\n" if stop == "\n" else stop), ["", "b"])):
            if not ck.thorough and rng.random() < .6:
                continue
            for tag, k in (("random_access", 500), ("bidirectional", 500), ("forward", 500)):
                if rng.random() < n(ck, .5, 0) or tag == "forward" and q in ("{0,9000}",):
                    continue
                for tail in ("", stop, stop + unit, "z"):
                    idx += 1
                    pre = rng.random() < .7
                    rows.append("    vf::linear<%s, std::%s_iterator_tag, %s>(%d, %s, %d, 0, \"%s over guarded %s\", %s, %s, %s, %d);" % (Case(p).regex_type(), tag, "true" if pre else "false", -idx, cxx_literal(p), len(p), "match_prefix" if pre else "match", tag, S(rng.choice(heads)), S(unit), S(tail), k))
    for p, unit, tail in [("(?:ab)*+c", "ab", "c"), ("(?:ab)*+c", "ab", "a"), ("(?:a|b)*+c", "ab", "c"), ("(?:a|bc)++d", "abc", "x"), ("(?:a+b){2,}+c", "aab", "d"), ("(a|b)*+", "ab", ""), ("(?:a(?=b)b)*+c", "ab", "c"), ("^(?:[ab])*+$", "ab", "")]:
        for tag in ("random_access", "bidirectional", "forward"):
            idx += 1
            rows.append("    vf::linear<%s, std::%s_iterator_tag, true>(%d, %s, %d, 0, \"match_prefix over guarded %s\", %s, %s, %s, 500);" % (Case(p).regex_type(), tag, -idx, cxx_literal(p), len(p), tag, S(""), S(unit), S(tail)))
    per = 40
    for k in range(0, len(rows), per):
        ck.source("\n".join(lin + ["void vf::run_all() {"] + rows[k:k + per] + ["}"]) + "\n", "o1", what="work measurements")
    return ck.finish()


CONST_FLAGS = ["-fconstexpr-depth=20000", "-fconstexpr-ops-limit=400000000", "-fconstexpr-loop-limit=1000000"]
CONST_CLANG = ["-fconstexpr-depth=20000", "-fconstexpr-steps=100000000"]


def constant_cases(ck, cases, count, length, variant, serial):
    constant_inputs(ck, cases, ck.inputs_for(cases, count, length), variant, serial)


def constant_inputs(ck, cases, inputs, variant, serial):
    """Turns cases into compile-time tables of results plus run-time comparisons."""
    out = []
    for c, ins in zip(cases, inputs):
        if not ins:
            continue
        k = next(serial)
        if c.kinds & FWD_KINDS:
            it = "vf::ConstIter<std::forward_iterator_tag>"
        elif c.kinds & PTR:
            it = "char const *"
        else:
            it = "vf::ConstIter<std::bidirectional_iterator_tag>"
        t = c.regex_type()
        pre = ("static constexpr std::array<std::string_view, %d> in_%d{{%s}};\n" % (len(ins), k, ", ".join("std::string_view(%s, %d)" % (cxx_literal(x.decode("latin-1")), len(x)) for x in ins)) +
               "static constexpr auto tab_%d = vf::snapshots<%s, %s>(in_%d);\n" % (k, t, it, k))
        d = Case(c.pattern, c.flags, ALL_METHODS, PTR, ins, budget=30, type=c.type, pre=pre, runner="vf::run_constant<{T}, %s, in_%d, tab_%d>" % (it, k, k))
        d.cost = c.cost * 4 + .15 * len(ins) / 8
        out.append(d)
    ck.cases(out, variant, headers=["constant.hpp"], extra=CONST_CLANG if variant.startswith("clang") else CONST_FLAGS)


def c15():
    ck = start("C15", "each evaluation is one method on one input, evaluated once by the compiler in a constant expression and once at run time, both compared in full with the reference model; "
                      "non-trivial: distinct (pattern, method, input, outcome) that matched a non-empty text")
    rng = ck.rng
    serial = itertools.count(1)
    kinds = lambda r, p: r.choice([PTR, PTR, LIST] + ([FWD] if fwd_ok(p) else []))
    variants = ["o0", "o1", "o2", "o3", "clang0", "clang", "clang2"]
    base = [Case(p, random_flags(rng, .4), ALL_METHODS, kinds(rng, p)) for p in SHAPES + BIDI_SHAPES + NULLABLE[::n(ck, 4, 1)]]
    base += [Case(p, (), ALL_METHODS, PTR) for p in REALISTIC[::n(ck, 3, 1)]]
    base += random_cases(ck, n(ck, 80, 1500), flag_p=.45, methods=ALL_METHODS, kinds=kinds, max_nodes=6)
    base += random_cases(ck, n(ck, 30, 400), flag_p=.45, methods=ALL_METHODS, kinds=kinds, alphabet="aZ0_\xe9\xff\n", set=6, cls=3, esc=3)
    rng.shuffle(base)
    for c in base:
        c.pattern = fill_empty(c.pattern)
    for k, v in enumerate(variants):
        part = base[k::len(variants)] if not ck.thorough else base[k % 3::3]
        constant_cases(ck, part, n(ck, 6, 10), 14, v, serial)
    # Longer inputs, again at compile time and at run time
    simple = ["a*b", "a+", "[ab]*c", ".*x", ".*?x", "a*?b", "a*+b", "(a*)(b*)", "(?:ab)*", "(a|b)*c", "(?:ab)*+c", "a{20,}b", "a{64}", "a{10,100}b", "a{10,100}?b", "[^x]*x", "(a+)b\\1", "(?=a*b)a*", "\\w+$", "^(?:a|b)+?$", "(?<=a{5})b", "b", "(?>a*)b", "(a)*b", "(?:a?b)*"]
    longs = []
    for p in simple if ck.thorough else rng.sample(simple, 15):
        fl = random_flags(rng, .4)
        body = rng.choice([b"a", b"a", b"ab"])
        ins = [body * k + t for k, t in ((rng.choice([17, 31, 33]), b"b"), (rng.choice([64, 65]), b"c"), (rng.choice([100, 129]), rng.choice([b"", b"x", b"b"])), (rng.choice([257, 300]), rng.choice([b"b", b"x", b""])))]
        longs.append((Case(p, fl, ALL_METHODS, kinds(rng, p)), ins))
    # The decisive character comes first: everything has to be given back
    for p in [".*b", "[ab]*b", "x*.*y", "\\w+ ", "a*a{9}", ".*(?=b)", "[^]*b", ".*b.*", ".*?b.*c", "a+(?<=^a)"] if ck.thorough else rng.sample([".*b", "[ab]*b", "\\w+ ", "a*a{9}", ".*(?=b)", "[^]*b", ".*b.*"], 4):
        head = {"\\w+ ": b"a ", "x*.*y": b"xy"}.get(p, b"abc")
        longs.append((Case(p, (), ALL_METHODS, rng.choice([PTR, PTR, LIST])), [head + b"a" * k for k in (rng.choice([40, 65]), rng.choice([101, 128, 130]), rng.choice([256, 280]))]))
    for k, v in enumerate(["o0", "o2", "clang"]):
        # the compilers' own evaluators are recursive: groups on short texts only
        for c, ins in longs[k::3]:
            constant_inputs(ck, [c], [[x for x in ins if len(x) < (70 if v == "clang" else 140) or "(" not in c.pattern]], v, serial)
    for k in (16, 1000, 5000, 66000):
        ck.cases([long_case(p, [R("a", k) + " + " + S("b"), R("ab", k // 2) + " + " + S("c"), R("a", k)], random_flags(rng, .3), MATCH | PREFIX, rng.choice([PTR, PTR, LIST])) for p in simple if k < 6000 or not re.search(r"\(\?:a|\(a\)\*|\(a\|b", p)], "o2")
    for v in ("o0", "o3", "clang2"):
        ck.cases(far_cases(rng, FAR + FAR_BEHIND, n(ck, 7, 99)), v)
    # The same patterns at run time under all optimisation levels
    run = random_cases(ck, n(ck, 60, 1500), flag_p=.4)
    for k, v in enumerate(["o2", "o3", "clang", "clang2"]):
        ck.cases(run[k::4], v)
    return ck.finish()


XPR_PRE = "#ifndef VF_X\n#define VF_X\nnamespace x = meta::xpr;\nusing namespace meta::xpr::operators;\n#endif\n"


def xpr_case(ck, g, node, serial, flags=(), methods=BASIC, kinds=None, names=True, how=0):
    k = next(serial)
    pre = XPR_PRE + "inline constexpr auto xpr_%d = %s;\n" % (k, node.cxx)
    t = "std::remove_const_t<decltype(xpr_%d)>" % k
    if flags:
        fl = ", ".join("meta::regex_flag::" + f for f in flags)
        if how == 0:
            pre += "inline constexpr auto fx_%d = x::add_flags<%s>(xpr_%d);\n" % (k, fl, k)
            t = "std::remove_const_t<decltype(fx_%d)>" % k
        elif how == 1:
            t = "%s::template add_flags<%s>" % (t, fl)
        else:
            pre += "inline constexpr auto fx_%d = x::add_flags<%s>(x::clear_flags(x::add_flags<meta::regex_flag::icase, meta::regex_flag::ungreedy, meta::regex_flag::dotall>(xpr_%d)));\n" % (k, fl, k)
            t = "std::remove_const_t<decltype(fx_%d)>" % k
    elif how == 2:
        pre += "inline constexpr auto fx_%d = x::clear_flags(x::add_flags<meta::regex_flag::icase, meta::regex_flag::multiline>(xpr_%d));\n" % (k, k)
        t = "std::remove_const_t<decltype(fx_%d)>" % k
    p = node.pat
    return Case(p, flags, methods, kinds if kinds is not None else pick_kind(ck.rng, p), type=t, pre=pre, extra=names_extra(p) if names and groups_of(p) and ck.rng.random() < .5 else None)


XPR_CURATED = [
    # (expression, equivalent pattern)
    ("x::chr<'a'> >> (x::chr<'b'> | x::chr<'c'>) >> x::chr<'d'>", "a(?:b|c)d"), ("(x::str<\"ab\"> | x::str<\"cd\">) >> x::str<\"ef\">", "(?:ab|cd)ef"), ("x::str<\"ab\"> >> x::str<\"cd\"> | x::str<\"ef\">", "abcd|ef"),
    ("x::chr<'a'> | (x::chr<'b'> | (x::chr<'c'> | x::str<\"de\">))", "a|b|c|de"), ("((x::str<\"ab\"> | x::chr<'a'>) | x::str<\"abc\">) | x::chr<'b'>", "ab|a|abc|b"), ("(x::chr<'a'> >> (x::chr<'b'> >> x::chr<'c'>)) >> (x::chr<'d'> >> x::chr<'e'>)", "abcde"),
    ("x::either(x::chr<'a'>, x::either(x::str<\"bc\">, x::chr<'b'>), x::concat(x::chr<'b'>, x::chr<'d'>))", "a|bc|b|bd"), ("x::concat(x::either(x::chr<'a'>, x::str<\"ab\">), x::either(x::str<\"bc\">, x::chr<'c'>))", "(?:a|ab)(?:bc|c)"),
    ("*x::either(x::str<\"ab\">, x::chr<'a'>) >> x::chr<'b'>", "(?:ab|a)*b"), ("x::zero_or_more(x::chr<'a'>, x::chr<'b'>)", "(?:ab)*"), ("x::one_or_more(x::chr<'a'> | x::chr<'b'>, x::chr<'c'>)", "(?:(?:a|b)c)+"), ("x::exactly<3>(x::str<\"ab\">)", "(?:ab){3}"),
    ("x::between<1, 3, meta::match_mode::lazy>(x::chr<'a'>) >> x::maybe(x::chr<'a'>)", "a{1,3}?a?"), ("x::at_least<2, meta::match_mode::possessive>(x::chr<'a'>) >> x::chr<'a'>", "a{2,}+a"), ("x::atomic(x::chr<'a'> | x::str<\"ab\">) >> x::chr<'c'>", "(?>a|ab)c"), ("x::atomic(x::chr<'a'>, x::maybe(x::chr<'b'>)) >> x::chr<'b'>", "(?>ab?)b"),
    ("x::exactly<1, meta::match_mode::possessive>(x::chr<'a'> | x::str<\"ab\">) >> x::chr<'c'>", "(?>a|ab)c"), ("x::capture<1>(x::chr<'a'>, x::chr<'b'>) >> x::group<1>", "(ab)\\1"), ("x::capture<1, \"n\">(+x::word) >> x::chr<' '> >> x::group_named<\"n\">", "(?<n>\\w+) \\k<n>"),
    ("x::capture<1>(x::capture<2>(x::chr<'a'>) >> x::chr<'b'>) >> x::capture<3, \"z\">(x::chr<'c'>)", "((a)b)(?<z>c)"), ("+x::word >> !x::ahead(x::word)", "\\w+(?!\\w)"), ("x::behind(x::chr<'a'>, x::chr<'b'>) >> x::chr<'c'>", "(?<=ab)c"), ("!x::behind(x::chr<'a'> | x::str<\"bb\">) >> x::chr<'c'>", "(?<!a|bb)c"),
    ("x::ahead(x::capture<1>(x::chr<'a'>)) >> x::group<1>", "(?=(a))\\1"), ("x::begin_input >> *x::wildcard >> x::end_input", "\\A.*\\Z"), ("x::begin_line >> *!x::linebreak >> x::end_line", "^\\N*$"), ("!x::word_boundary >> x::chr<'a'>", "\\Ba"), ("x::word_boundary >> +x::lower >> *x::upper >> x::maybe(x::digit)", "\\b[a-z]+[A-Z]*\\d?"),
    ("x::empty", "(?:)"), ("x::str<\"\">", "(?:)"), ("x::str<\"\"> >> x::chr<'a'>", "(?:)a"), ("x::chr<'b'> | x::str<\"\">", "b|(?:)"), ("x::behind(x::str<\"\">) >> x::one_or_more(x::str<\"\">, x::chr<'a'>)", "(?<=(?:))(?:(?:)a)+"), ("x::capture<1>(x::str<\"\">) >> x::group<1>", "((?:))\\1"), ("x::nothing | x::chr<'a'>", "[]|a"), ("!x::nothing >> x::chr<'a'>", "[^]a"), ("*x::empty >> x::chr<'a'>", "(?:)*a"), ("x::str<\"a.b*c\">", "a\\.b\\*c"), ("x::str<\"(\\\\d)\">", "\\(\\\\d\\)"), ("x::regex<\"a|b\"> >> x::chr<'c'>", "(?:a|b)c"), ("x::chr<'c'> >> x::regex<\"a|b\">", "c(?:a|b)"), ("*x::regex<\"ab\">", "(?:ab)*"), ("x::regex<\"a*\"> >> x::regex<\"a\">", "a*a"),
    ("x::regex<\"(a)|(b)\"> >> x::capture<3>(x::chr<'c'>) >> x::maybe(x::group<2>)", "(?:(a)|(b))(c)(?:\\2)?"), ("+(x::str<\"ftp\"> | x::str<\"ssh\"> | x::regex<\"https?\">) >> x::str<\"://\"> >> x::capture<1, \"domain\">(+x::regex<\"[-.a-z]\"> >> x::str<\".com\">) >> x::maybe(x::chr<'/'> >> *!x::whitespace)", "(?:ftp|ssh|https?)+://(?<domain>[-.a-z]+\\.com)(?:/\\S*)?"),
    ("x::concat(x::chr<'a'>)", "a"), ("x::either(x::str<\"ab\">)", "ab"), ("x::either(x::chr<'a'>, x::chr<'b'>) | x::range<'0', '5'>", "a|b|[0-5]"), ("!(x::chr<'a'> | x::chr<'b'> | x::digit)", "[^ab\\d]"), ("!!x::digit", "\\d"), ("!!x::ahead(x::chr<'a'>) >> x::wildcard", "(?!(?!a))."), ("x::capture<1>(x::chr<'a'> | x::str<\"bc\">) >> x::chr<'d'>", "(a|bc)d"), ("*x::capture<1>(x::chr<'a'> | x::chr<'b'>) >> x::chr<'c'>", "(a|b)*c"),
    ("x::maybe(x::chr<'a'> | x::str<\"bc\">) >> x::chr<'d'>", "(?:a|bc)?d"), ("x::chr<'\\377'> >> x::range<'\\200', '\\377'>", "\\xff[\\x80-\\xff]"), ("x::range<'a', 'a'>", "a"), ("x::zero_or_more<meta::match_mode::lazy>(x::wildcard) >> x::chr<'b'>", ".*?b"), ("x::one_or_more<meta::match_mode::possessive>(x::chr<'a'>) >> x::chr<'b'>", "a++b"), ("x::maybe<meta::match_mode::lazy>(x::chr<'a'>) >> x::chr<'a'>", "a??a"), ("x::maybe<meta::match_mode::possessive>(x::chr<'a'>) >> x::chr<'a'>", "a?+a"),
    ("x::exactly<0>(x::chr<'a'>) >> x::chr<'b'>", "a{0}b"), ("x::between<0, 0>(x::str<\"ab\">)", "(?:ab){0,0}"), ("x::exactly<2, meta::match_mode::lazy>(x::chr<'a'>)", "a{2}?"), ("x::at_least<0>(x::chr<'a'>) >> x::chr<'a'>", "a{0,}a"), ("x::ahead(x::chr<'a'>, x::chr<'b'>) >> x::chr<'a'>", "(?=ab)a"), ("x::concat(x::concat(x::chr<'a'>, x::chr<'b'>), x::either(x::concat(x::chr<'c'>, x::chr<'d'>), x::chr<'e'>))", "ab(?:cd|e)"),
]


def c16():
    ck = start("C16", "each evaluation is one call on a regex built from the expression API, compared in full with the reference model of the pattern string of the same structure; "
                      "non-trivial: distinct (expression, method, input, outcome) that matched a non-empty text")
    ck.budget = 250
    rng = ck.rng
    serial = itertools.count(1)
    from .xpr import Node, XGen
    cases = []
    for cxx, pat in XPR_CURATED:
        node = Node(cxx, pat, "seq")
        cases.append(xpr_case(ck, None, node, serial, (), ALL_METHODS, PTR if "behind" in cxx or "boundary" in cxx else PTR | FWD, how=rng.choice([0, 0, 2])))
        cases.append(xpr_case(ck, None, node, serial, random_flags(rng, 1), BASIC, LIST, how=rng.randrange(3)))
    # Text and characters of the expression API made of unusual bytes, at the start, inside and at the end
    hx = lambda t: "".join(ch if ch.isalnum() else "\\x%02x" % ord(ch) for ch in t)
    odd = ["\0", "\n", "\r", "\\", '"', "'", ".", "*", "(", "]", "^", "$", "|", "-", "{", "?", "\x7f", "\x80", "\xff", " ", "\x1b"]
    for ch in odd if ck.thorough else ["\0"] + rng.sample(odd[1:], 9):
        for t in (["a" + ch, ch + "a", "a%sb" % ch, ch, ch + ch, "a" + ch + ch] if ch == "\0" or ck.thorough else rng.sample(["a" + ch, ch + "a", "a%sb" % ch, ch + ch], 2)):
            c = xpr_case(ck, None, Node("x::str<%s>" % cxx_literal(t), hx(t), "seq"), serial, (), BASIC, PTR, how=rng.choice([0, 2]))
            c.inputs = [S(x) for x in dict.fromkeys([t, t[:-1], t[1:], t + ch, t + "a", t.replace(ch, ""), "b" + t, t.split(ch)[0]])]
            c.budget = 60
            cases.append(c)
        cases.append(xpr_case(ck, None, Node("x::chr<static_cast<char>(%d)> >> x::maybe(x::chr<static_cast<char>(%d)>)" % (ord(ch), ord(ch)), hx(ch) + hx(ch) + "?", "seq"), serial, random_flags(rng, .4), BASIC, LIST, how=0))
    seen = set()
    for count, kw in ((n(ck, 260, 4000), dict()), (n(ck, 60, 1000), dict(alphabet="a.*(\\^-] \n\xff", nodes=6)), (n(ck, 40, 800), dict(forward=True)), (n(ck, 60, 1000), dict(nodes=14, depth=5, ops=.9))):
        g = XGen(rng, **kw)
        made = 0
        for _ in range(count * 30):
            if made >= count:
                break
            node = g.make()
            if node.cxx in seen or len(node.cxx) > 700 or len(node.pat) > 110 or len(node.pat) < 2:
                continue
            seen.add(node.cxx)
            made += 1
            kinds = rng.choice([FWD, GFW]) if kw.get("forward") else None
            cases.append(xpr_case(ck, g, node, serial, random_flags(rng, .4), mixed_methods(rng), kinds, how=rng.randrange(3)))
    ck.cases(cases, headers=["api.hpp"])
    # Any numbering of unnamed captures
    perm = []
    for _ in range(n(ck, 12, 150)):
        g = XGen(rng)
        while True:
            node = g.make()
            if g.groups >= 2 and not g.embedded and not g.names and "group" not in node.cxx and len(node.pat) < 60:
                break
        ids = list(range(1, g.groups + 1))
        rng.shuffle(ids)
        cxx = re.sub(r"x::capture<(\d+)>", lambda m: "x::capture<%d>" % ids[int(m.group(1)) - 1], node.cxx)
        c = xpr_case(ck, g, Node(cxx, node.pat, "seq"), serial, (), BASIC, PTR, names=False)
        c.runner = "vf::run_permuted<{T}, 0, %s>" % ", ".join(map(str, ids))
        perm.append(c)
    ck.cases(perm, headers=["permuted.hpp"])
    return ck.finish()


RESULT_SHAPES = ["a+", "(a)", "(a)(b)", "(a)(b)?", "(a)|(b)", "(?<x>a)", "(?<x>a)(b)", "(a)(?<y>b)?", "(?<first>\\w+) (?<second>\\w+)", "(a)(b)(c)", "(a*)(b*)(c*)", "((a)(b)?)+", "(?<n>a)|(?<m>b)|(c)", "(?:(a)|b)+", "(a)(b)(c)(d)?", "(a(?<i>b(c)?)?)*", "(?=(a))\\1", "(?<=(a))b", "(?!(a))b", "()", "(?<e>)a", "(a?)(b?)", "a|", "", "[^]", "(\\d+)-(\\d+)", "(?<key>\\w+)=(?<value>\\w*)", "(.)(.)", "(a)\\1", "(?<q>['\"]).*?\\k<q>",
                 "(?<year>\\d{4})/(?<month>\\d{1,2})/(?<day>\\d{1,2})", "(?<A>a)(?<a>A)?", "(?<ab>a)(?<abc>b)(?<a>c)?", "(?<x1>a)|(?<x2>b)|(?<x3>c)|(?<x4>d)", "(?<_>a)(?<__>b)?", "(a)(?<b>b)(c)(?<d>d)", "x*", "(?:a(b)?|c)*"]


def results_extra(p):
    return "".join(', vf::Named<"%s", %d>' % (nm, k + 1) for k, nm in enumerate(groups_of(p)))


def c17():
    ck = start("C17", "each evaluation is one result of one call, read through every accessor and value category and again from owned copies after the input was scrambled and freed; results counts single reads; "
                      "non-trivial: distinct (pattern, method, input, group texts) that matched a non-empty text")
    ck.budget = 60
    rng = ck.rng
    def case(p, fl, m, mode):
        p = fill_empty(p)
        c = Case(p, fl, m, PTR, runner="vf::run_results<{T}, %d, %d%s>" % (m, mode, results_extra(p)))
        c.cost = .25 + .2 * bin(m & 7).count("1") + .5 * bin(m & 24).count("1") + .12 * len(groups_of(p)) * bin(m).count("1")
        return c
    cases = []
    for i, p in enumerate(RESULT_SHAPES):
        modes = [k for k in range(7) if fwd_ok(p) or k != 3]
        for mode in modes if ck.thorough else rng.sample(modes, 1):
            cases.append(case(p, random_flags(rng, .3), rng.choice([BASIC, SEARCH | FIND_ALL, PREFIX | TOKENIZE, ALL_METHODS]) if mode < 5 else BASIC, mode))
    def rnd(count):
        out = []
        for c in random_cases(ck, count, flag_p=.3, cap=8, named=6, need=r"\((?!\?[:=!>]|\?<[=!])", max_nodes=7, alphabet=rng.choice(["ab", "abc"])):
            if len(groups_of(c.pattern)) <= 4:
                out.append(case(c.pattern, c.flags, rng.choice([BASIC, MATCH | FIND_ALL, SEARCH | TOKENIZE]), rng.choice([k for k in range(5) if fwd_ok(c.pattern) or k != 3])))
                if out[-1].methods & 24 == 0 and rng.random() < .4:
                    out[-1] = case(c.pattern, c.flags, BASIC, rng.choice([5, 5, 6]))
        return out
    cases += rnd(n(ck, 30, 1200))
    ck.cases(cases, "o1", headers=["results.hpp"])
    ck.cases([case(p, random_flags(rng, .3), rng.choice([BASIC, SEARCH | FIND_ALL]) if m < 5 else BASIC, m) for i, p in enumerate(rng.sample(RESULT_SHAPES, n(ck, 8, len(RESULT_SHAPES)))) for m in [(0, 1, 6, 5, 2, 4)[i % 6]]] + rnd(n(ck, 5, 200)), "asan", headers=["results.hpp"])
    src = open(os.path.join(LIB, "blank.cpp")).read()
    ck.source(src, "o1", what="reading default-constructed and failed results")
    ck.source(open(os.path.join(LIB, "faults.cpp")).read(), "o1", what="owned results when memory runs out")
    # Lists of groups by name over every kind of result
    ck.cases([Case(c.pattern, c.flags, ALL_METHODS, pick_kind(rng, c.pattern), extra=names_extra(fill_empty(c.pattern))) for c in random_cases(ck, n(ck, 60, 1000), named=10, cap=4, need=r"\?<\w+>")], headers=["api.hpp"])
    return ck.finish()


def threads_source(pats, threads, ops, per_pattern, rounds):
    out = ['#include "harness.hpp"', '#include "threads.hpp"', "void vf::run_all() {", "    vf::HistWorld w;"]
    for p, fl, k in pats:
        out.append("    w.patterns.push_back(vf::hist_pattern<%s, vf::Kind(%d)>(%s, %d, %d));" % (Case(p, fl).regex_type(), k, cxx_literal(p), len(p), flag_mask(fl)))
    out.append("    w.prepare(%d);" % per_pattern)
    for r in range(rounds):
        out.append("    vf::run_threads(w, %d, %d, static_cast<std::uint32_t>(vf::ctx().seed * 100 + %d));" % (threads[r % len(threads)], ops, r))
    out.append("}")
    return "\n".join(out) + "\n"


UNIT = r"""
#include <mregex.hpp>
#include <list>
#include <sstream>
#include <string>
#include <vector>
template<typename R>
static void report(std::ostream &os, std::string const &in)
{
    std::list<char> const l(in.begin(), in.end());
    auto show = [&](auto const &res) { os << res.matched() << ' ' << res << ' '; res.for_each_group([&](auto const &g) { os << '[' << g << ':' << g.name() << ']'; }); os << '\n'; };
    show(R::match(in)); show(R::match_prefix(l)); show(R::search(in)); show(R::search(std::string(in)));
    for (auto &&r : R::find_all(in)) show(r);
    for (auto &&r : R::tokenize(l)) { show(r.as_memory_owner()); os << meta::get_group<0>(r) << std::get<0>(r.transform_groups([](auto const &g) { return g.length(); })) << '\n'; }
}
"""


def unit_source(name, pats, other=""):
    body = UNIT
    body += "std::string %s() { std::ostringstream os;\n" % name
    body += "    for (std::string in : {std::string(), std::string(\"a\"), std::string(\"ab\"), std::string(\"aab ab\\nb\"), std::string(\"abcabc\"), std::string(\"12 ab_c aa bb\")}) {\n"
    body += "".join("        report<%s>(os, in);\n" % Case(p, fl).regex_type() for p, fl, _ in pats)
    body += "    }\n    return os.str(); }\n"
    return body + other


def several_units(ck, pats, variant):
    """Two translation units with the same regexes have to link into one program and agree."""
    v = VARIANTS[variant]
    base = os.path.join(ck.work, "u%d" % ck.serial())
    flags = [v[0]] + COMMON + v[1:] + ["-I", os.path.join(REPO, "include")]
    main = '\n#include <iostream>\nstd::string there();\nint main() { auto a = here(), b = there(); std::cout << (a == b ? "same" : "different") << "\\n" << a.size() << "\\n"; }\n'
    objs = []
    for k, src in enumerate([unit_source("here", pats, main), unit_source("there", pats)]):
        cpp = "%s-%d.cpp" % (base, k)
        with open(cpp, "w") as f:
            f.write(src)
        rc, out = run(flags + ["-c", cpp, "-o", cpp + ".o"], 300, mem_gb=10)
        ck.count("translation_units")
        if rc != 0:
            return ck.note_inconclusive("unit does not compile: " + out[-400:])    # single-unit programs judge that
        objs.append(cpp + ".o")
    rc, out = run([v[0]] + objs + ["-o", base], 300, mem_gb=0)
    info = dict(monitor="linker", what="the same regexes in two translation units (%s)" % variant, pattern=pats[0][0], flags=0, input="", expected="one program", observed="")
    data = dict(property=ck.prop, program=unit_source("here", pats, main.replace("std::string there();", "")), expect=None)
    if rc is None:
        return ck.note_inconclusive("linker timeout")
    if rc != 0:
        if "multiple definition" in out or "undefined reference" in out:
            info["observed"] = out[-1200:]
            return ck.report("linker", "link %s" % variant, info, data)
        return ck.note_inconclusive("linker failure: " + out[-300:])
    rrc, text = run([base], 120, env=RUN_ENV, mem_gb=0)
    ck.absorb_stats(dict(evals=2 * 6 * len(pats), nontrivial=1))
    for o in objs + [base]:
        os.remove(o)
    if rrc is None:
        return ck.note_inconclusive("time-out of a linked program")
    if rrc != 0 or not text.startswith("same"):
        info["observed"] = "exit %s: %s" % (rrc, text[:300])
        ck.report("linker", "run %s" % variant, info, data)


def c18():
    ck = start("C18", "each evaluation is one operation of a history (one-shot call, step, copy, move or assignment of a live generator or range) in one thread or in several threads under ThreadSanitizer, its result compared with a sequential model; "
                      "guard_events counts thread alternations seen; non-trivial: distinct (pattern, input, operation, position in its sequence) and distinct matching outcomes")
    rng = ck.rng
    ck.steps = 8000
    def pats(count):
        out = []
        base = rng.sample(SHAPES + BIDI_SHAPES + REALISTIC, min(count // 2, 60))
        base += [c.pattern for c in random_cases(ck, count - len(base), cap=6, backref=2, max_nodes=5, max_depth=2)]
        for p in base:
            p = fill_empty(p)
            out.append((p, random_flags(rng, .4), rng.choice([PTR, PTR, LIST] + ([FWD] if fwd_ok(p) else []))))
        ok = ck.verdicts([p for p, _, _ in out])
        return [x for x, (a, h, _) in zip(out, ok) if a and not h]
    for k in range(n(ck, 8, 16)):
        ck.source(threads_source(pats(n(ck, 9, 20)), [2, 4, 8, 3, 16], n(ck, 12000, 40000), 6, n(ck, 5, 20)), "tsan", what="concurrent histories")
    for k in range(n(ck, 4, 8)):
        ck.source(threads_source(pats(n(ck, 9, 20)), [4, 8, 12], n(ck, 40000, 400000), 10, n(ck, 4, 10)), "o2", extra=["-pthread"], what="concurrent histories (uninstrumented)")
    for k in range(n(ck, 6, 12)):
        ck.source(history_source(ck, pats(n(ck, 12, 24)), n(ck, 60000, 1500000), 10), "o1", what="interleaved histories")
    # The same regexes used from several translation units of one program
    for k, v in enumerate(n(ck, ["o0", "o2", "clang0"], ["o0", "o1", "o2", "o3", "clang0", "clang2"])):
        ck.submit(several_units, ck, pats(8), v)
    # Reused buffers
    for k in range(n(ck, 6, 16)):
        ps = pats(n(ck, 10, 40))
        rows = ["    vf::Reuse<%s>::run(%d, %s, %d, %d, %d);" % (Case(p, fl).regex_type(), -10 - i, cxx_literal(p), len(p), flag_mask(fl), n(ck, 3000, 30000)) for i, (p, fl, _) in enumerate(ps)]
        ck.source("\n".join(['#include "harness.hpp"', '#include "threads.hpp"', "void vf::run_all() {"] + rows + ["}"]) + "\n", "o1", what="calls on a reused buffer")
    return ck.finish()


QUIET_SHAPES = ["(a+)b\\1", "(.{20})\\1", "(\\w+) \\1", "(?<w>[ab]{17,})-\\k<w>", "(a*)(?<=\\1)b", "((a|b){16})\\1?", "(?:(a{16})|(b{16}))+\\1?", "(?i)"[:0] + "(ab){20}", "((((a)b)c)d)*e", "(?=(.{16,}))\\1", "(?<=(.{16}))\\1", "(?>(a|b)+)c", "(a|b)*+c", "(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)", "(?:(a)|(b)|(c)|(d))*", "[^,]*,", "(\\w+)=(\\w+);?"]


def c19():
    ck = start("C19", "each evaluation is one call (or one whole iteration) including every read of its view results, with the process's allocator interposed and errno watched; "
                      "non-trivial: distinct (pattern, method, input, outcome) that matched a non-empty text")
    ck.budget = 120
    rng = ck.rng
    def case(c, m=None, k=None):
        p = fill_empty(c.pattern)
        m = m or c.methods
        k = k or rng.choice([PTR, LIST, DEQUE, VEC, PTR | LIST] + ([FWD] if fwd_ok(p) else []))
        d = Case(p, c.flags, m, k, c.inputs, c.budget, c.steps, runner="vf::quiet::run<{T}, %d, %d>" % (m, k))
        d.cost = c.cost * 2 + .15
        return d
    units = ["ab", "a", "abcdefghij", "a b", "key=value;", "aab-"]
    longs = [(S(u * k), S(u * k + "-" + u * k), S(u * k + " " + u * k)) for u in units for k in (1, 9, 40)]
    longs = [x for t in longs for x in t]
    groups = [[] for _ in range(3)]
    some = [Case(p, random_flags(rng, .4), ALL_METHODS if i % 2 else BASIC, PTR, rng.sample(longs, 12)) for i, p in enumerate(QUIET_SHAPES + rng.sample(SHAPES, n(ck, 18, len(SHAPES))) + rng.sample(BIDI_SHAPES, n(ck, 6, len(BIDI_SHAPES))) + rng.sample(REALISTIC, n(ck, 8, len(REALISTIC))))]
    for c in some:
        for k in ([PTR, LIST, FWD] if ck.thorough else rng.sample([PTR, LIST] + ([FWD] if fwd_ok(c.pattern) else []), 2)):
            if k == FWD and not fwd_ok(c.pattern):
                continue
            groups[rng.randrange(3)].append(case(c, k=k))
    for c in random_cases(ck, n(ck, 120, 3000), flag_p=.4, cap=5, backref=2, max_nodes=7, methods=mixed_methods):
        c.inputs = rng.sample(longs, 4)
        groups[rng.randrange(3)].append(case(c))
    for g, v in zip(groups, ("o0", "o2", "clang0")):
        ck.cases(g, v, headers=["quiet.hpp"])
    return ck.finish()
