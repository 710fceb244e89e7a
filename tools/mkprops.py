"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
I = "include/mregex/"
def P(id, title, statement, over, text, why, files, mech, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[I + f for f in files], mechanism=[dict(name=n, where=I + w) for n, w in mech], observe_at=observe, hook_needed=None))
R = "the public regex API (results returned by match, match_prefix, search, tokenizer, searcher, tokenize, find_all)"
ps = [
P("C01", "Match, match_prefix and search give the verdict and extent of the pattern",
  "For every valid pattern, flag set and input, match succeeds exactly when the whole input is in the pattern's language, match_prefix exactly when some match starts at the beginning of the input, and search exactly when some match starts anywhere. On success the reported whole match is the one that leftmost-first backtracking order selects (search: at the smallest start position), so its begin, end and length are uniquely determined. On failure the result tests false and every group is empty.",
  ["programs", "inputs", "configurations"], "all valid patterns x flag sets x inputs (including empty, long and binary inputs)",
  "The tests are static assertions on about a thousand (pattern, input) pairs; a language has unboundedly many patterns whose features interact, each with unboundedly many inputs.",
  ["regex.hpp", "regex_methods.hpp", "ast/nodes/sequence.hpp", "ast/nodes/trivially_matchable.hpp", "utility/continuations.hpp", "utility/distance.hpp"],
  [("match, prefix and search drivers", "regex_methods.hpp"), ("continuation-passing node matchers", "ast/nodes/sequence.hpp")], [R]),
P("C02", "Quantifiers and atomic groups repeat the right number of times in order",
  "For every quantified expression with bounds n and m, a match uses between n and m repetitions and no other number; greedy quantifiers try more repetitions before fewer, lazy ones fewer before more, and both give back or take more repetitions whenever the rest of the pattern needs it. Possessive quantifiers and atomic groups commit to their first way of matching and are never re-entered once left. This holds for every count, nesting, quantified body, and position in the pattern.",
  ["programs", "inputs", "configurations"], "all quantifier kinds and bounds x quantified bodies x continuations x inputs",
  "Tests use a few small counts on short inputs; the counting and backtracking code has separate paths per bound, mode, body kind, iterator category and the unroll flag.",
  ["ast/nodes/quantifiers/repetition.hpp", "ast/nodes/quantifiers/fixed_repetition.hpp", "symbols/quantifiers.hpp", "grammar/quantifiers.hpp", "utility/capture_rollback.hpp"],
  [("bounded greedy/lazy/possessive loops", "ast/nodes/quantifiers/repetition.hpp"), ("fixed repetition, unrolled and not", "ast/nodes/quantifiers/fixed_repetition.hpp")], [R]),
P("C03", "Every single-character element matches exactly the byte values it denotes",
  "For each of the 256 byte values, every literal, escape, hexadecimal escape, wildcard, character class (and its negation) and set (with ranges, escapes, classes and negation) accepts exactly the bytes its syntax denotes, with bytes from 0x80 to 0xff treated as ordinary non-letter characters. With case-insensitive matching exactly the ASCII letters additionally match their other case, and nothing else changes. The empty set matches nothing and its negation matches everything.",
  ["programs", "inputs", "configurations"], "all single-character elements x 256 byte values x {icase, dotall}",
  "Tests try a handful of characters per class and almost no bytes outside ASCII, so a class that is wrong for one byte goes unseen.",
  ["ast/nodes/terminals/literal.hpp", "ast/nodes/terminals/range.hpp", "ast/nodes/terminals/wildcard.hpp", "ast/nodes/set.hpp", "ast/nodes/negated.hpp", "ast/astfwd.hpp", "ast/build.hpp", "grammar/escapes.hpp", "grammar/hexadecimal.hpp", "utility/char_traits.hpp"],
  [("per-character predicates", "ast/nodes/set.hpp"), ("ASCII helpers", "utility/char_traits.hpp"), ("escape tables", "grammar/escapes.hpp")], [R]),
P("C04", "Alternation tries alternatives left to right with the right scope",
  "Alternatives are tried in the order written, the first one that lets the entire pattern succeed is chosen, and later ones are tried whenever the rest of the pattern fails. Concatenation binds tighter than alternation and quantifiers tighter than concatenation, and groups (capturing or not) delimit both. This holds for any number of alternatives, any nesting and any position inside the pattern.",
  ["programs", "inputs"], "all patterns with alternations and groups x inputs",
  "Tests check the syntax tree of a few patterns and some matches; precedence and ordering errors only show on specific combinations of neighbours, nesting and input.",
  ["ast/nodes/alternation.hpp", "ast/nodes/sequence.hpp", "ast/build.hpp", "grammar/grammar.hpp"],
  [("ordered trial of alternatives", "ast/nodes/alternation.hpp"), ("sequence/alternation flattening", "ast/build.hpp"), ("grammar rules", "grammar/grammar.hpp")], [R]),
P("C05", "Capturing groups report the right number, name and last-matched text",
  "Capturing groups are numbered 1..n by the position of their opening parenthesis, whatever they are nested in, and a named group is reachable by its name and its number alike. After a successful match each group holds the exact part of the input it matched the last time it took part in the path that succeeded, and nothing set on an abandoned path remains visible; groups that took no part are empty. After a failed match every group is empty.",
  ["programs", "inputs", "histories"], "all patterns with groups (nesting, alternation, repetition, lookaround, atomic) x inputs x backtracking histories",
  "Whether stale text survives depends on the exact sequence of abandoned paths, which tests sample only for a few two-group patterns.",
  ["ast/nodes/capture.hpp", "ast/indexing.hpp", "ast/traits.hpp", "regex_capture.hpp", "regex_capture_storage.hpp", "regex_match_context.hpp", "utility/capture_rollback.hpp", "symbols/names.hpp"],
  [("capture set and restored around the continuation", "ast/nodes/capture.hpp"), ("group numbering", "ast/indexing.hpp"), ("rollback around committed sub-matches", "utility/capture_rollback.hpp")], [R]),
P("C06", "A backreference matches exactly the text its group currently holds",
  "A numeric or named backreference matches exactly a copy of the text its group holds at that moment of the match (ASCII case-insensitively under icase), never part of it and never beyond the end of the input; a group that holds nothing makes it match the empty string. All decimal digits after the backslash belong to the group number, forward references and references from inside repetitions, lookarounds and the group itself see the current content, and a reference to a group that does not exist does not compile.",
  ["programs", "inputs", "configurations"], "all patterns with backreferences x inputs x iterator kinds",
  "Tests contain few backreferences, nearly all to a group set once just before; length, direction, case and staleness errors need specific histories.",
  ["ast/nodes/terminals/backref.hpp", "grammar/backrefs.hpp", "utility/distance.hpp", "utility/reversed_range_view.hpp", "utility/char_traits.hpp"],
  [("backreference comparison", "ast/nodes/terminals/backref.hpp"), ("group number parsing", "grammar/backrefs.hpp")], [R]),
P("C07", "Lookaheads and lookbehinds test the context and consume nothing",
  "A positive lookahead (lookbehind) succeeds exactly when its expression matches some text starting (ending) at the current position of the input, a negative one exactly when it does not, and neither moves the position. A lookbehind accepts any expression, sees all input before the current position (also before the start of the current search result), and is equivalent to matching the expression so that it ends there. Captures set inside a positive lookaround stay visible after it, captures set inside a negative one never do.",
  ["programs", "inputs"], "all lookaround expressions (nested, quantified, with captures, anchors, alternations) x positions x inputs",
  "Lookbehinds run a mirrored expression over reversed iterators; tests cover few expressions, so errors in mirroring a particular node or nesting stay hidden.",
  ["ast/inversion.hpp", "ast/predicates/lookaround_predicate.hpp", "ast/predicates/negate.hpp", "ast/nodes/lookaround.hpp", "ast/nodes/assertion.hpp", "ast/nodes/negated.hpp"],
  [("expression inversion", "ast/inversion.hpp"), ("lookaround predicates", "ast/predicates/lookaround_predicate.hpp")], [R]),
P("C08", "Anchors and word boundaries hold exactly at their positions",
  "At every position of every input: \\A and non-multiline ^ hold only at the start of the input, \\Z and non-multiline $ only at its very end; with multiline ^ also holds right after, and $ right before, every \\n and \\r. \\b holds exactly between a word character (ASCII letter, digit, underscore) and a non-word character or the edge of the input, and \\B exactly where \\b does not. Positions are relative to the whole input, not to the current search or token, and anchors consume nothing.",
  ["programs", "inputs", "configurations"], "all anchor placements x all positions x inputs over word, non-word, line-break and high bytes x multiline",
  "Tests check anchors at a few positions on short inputs; the start, end, adjacent line breaks, iteration and lookbehind contexts are separate cases.",
  ["ast/predicates/anchor_predicates.hpp", "ast/nodes/terminals/anchors.hpp", "ast/nodes/assertion.hpp", "ast/inversion.hpp", "grammar/escapes.hpp"],
  [("anchor predicates", "ast/predicates/anchor_predicates.hpp"), ("mirroring inside lookbehinds", "ast/inversion.hpp")], [R]),
P("C09", "Each flag changes exactly what it documents and nothing else",
  "icase makes ASCII letters match regardless of case, dotall lets the wildcard match line breaks, multiline lets ^ and $ hold at line boundaries, ungreedy swaps greedy and lazy quantifiers (leaving possessive ones alone), and unroll never changes any result. Flags combine independently of order and repetition, adding and clearing flags on an existing regex type gives the same results as writing the flag set directly, and a pattern with no construct affected by a flag gives identical results with and without it.",
  ["programs", "inputs", "configurations"], "all 32 flag sets x patterns x inputs",
  "Tests exercise flags one at a time on a few patterns; unroll in particular selects different code whose equivalence no test compares.",
  ["regex_flags.hpp", "regex.hpp", "xpr/flags.hpp", "ast/nodes/quantifiers/repetition.hpp", "ast/nodes/quantifiers/fixed_repetition.hpp", "ast/nodes/terminals/literal.hpp", "ast/nodes/terminals/range.hpp", "ast/nodes/terminals/wildcard.hpp", "ast/predicates/anchor_predicates.hpp"],
  [("flag tests", "regex_flags.hpp"), ("flag-dependent node code", "ast/nodes/quantifiers/fixed_repetition.hpp")], [R]),
P("C10", "Exactly the valid patterns compile, errors name the offending position",
  "Every pattern of the documented syntax compiles into a usable regex and every other pattern fails at compile time, and no string crashes or hangs the parser. For a rejected pattern the reported position is the index of the first character that cannot continue any valid pattern (the pattern length when it ends too early). References to undefined groups (or to a name given to several groups), reversed ranges and reversed quantifier bounds also fail to compile.",
  ["programs"], "all byte strings as patterns (short ones exhaustively, longer ones by generation and mutation)",
  "Tests list about two hundred patterns; the grammar is a table of transitions where one wrong entry only affects specific continuations.",
  ["grammar/grammar.hpp", "grammar/escapes.hpp", "grammar/quantifiers.hpp", "grammar/names.hpp", "grammar/backrefs.hpp", "grammar/hexadecimal.hpp", "parser/parser.hpp", "parser/state.hpp", "parser/lexer.hpp", "ast/build.hpp"],
  [("LL(1) rule table", "grammar/grammar.hpp"), ("parser driver and verdict", "parser/parser.hpp")], ["meta::parser<Pattern>::accepted, meta::parser_verdict<Pattern>, and the exit status of compiling meta::regex<Pattern>"]),
P("C11", "Iterating yields exactly the successive matches, then stays exhausted",
  "searcher and find_all yield, from left to right and without overlap, each match that searching from the end of the previous one finds; tokenizer and tokenize yield the matches that start exactly where the previous one ended and stop at the first position without one. At most one empty match is yielded, always as the last result, and once exhausted a generator keeps returning failed results with empty groups. Lazy ranges and generators over the same input yield identical sequences, each result with its own captures, and anchors and lookbehinds see the whole input.",
  ["programs", "inputs", "histories"], "all patterns x inputs x call sequences on generators and ranges",
  "Tests iterate a few fixed strings and never call a generator past its end or interleave two iterations.",
  ["match_result_generator.hpp", "utility/input_range_adapter.hpp", "regex.hpp", "regex_methods.hpp"],
  [("generator state", "match_result_generator.hpp"), ("range adapter", "utility/input_range_adapter.hpp")], [R]),
P("C12", "Results do not depend on how the input sequence is provided",
  "The same character sequence gives the same verdict, extent and captures whether it is passed as an iterator pair or a range, as a literal, string view, string, vector, array, deque, list, forward list, reversed sequence or user-defined forward, bidirectional or random-access iterators, const or mutable, embedded in a larger buffer or not. Passing an expiring string-like owner gives the same result with owned text that stays valid after the input is gone.",
  ["programs", "inputs", "configurations"], "all patterns (usable with the iterator category) x inputs x input representations x methods",
  "Tests use string views almost everywhere; matching code has separate paths per iterator category and overloads per method.",
  ["regex.hpp", "utility/concepts.hpp", "utility/type_traits.hpp", "utility/distance.hpp", "ast/nodes/sequence.hpp", "ast/nodes/quantifiers/repetition.hpp", "ast/nodes/quantifiers/fixed_repetition.hpp", "ast/nodes/terminals/backref.hpp", "ast/predicates/anchor_predicates.hpp"],
  [("overload set", "regex.hpp"), ("iterator-category specialisations", "ast/nodes/quantifiers/fixed_repetition.hpp")], [R]),
P("C13", "Matching never touches memory outside the input and has no undefined behaviour",
  "For every pattern, input and method, matching and iterating dereference only positions inside the input range, never move an iterator before its beginning or past its end, and execute no undefined behaviour. The input is only read, never modified, and every reported group lies inside it; reading any result or capture (including of failed matches and default-constructed results) is always safe. Owning results never refer to the original input.",
  ["programs", "inputs", "configurations"], "all patterns x inputs (empty, truncated, at buffer edges) x iterator kinds x methods",
  "A read one past the end usually returns a harmless byte, and constant evaluation only checks the few inputs the static assertions mention.",
  ["ast/nodes/sequence.hpp", "ast/nodes/trivially_matchable.hpp", "ast/nodes/quantifiers/fixed_repetition.hpp", "ast/nodes/quantifiers/repetition.hpp", "ast/nodes/terminals/backref.hpp", "ast/predicates/anchor_predicates.hpp", "ast/predicates/lookaround_predicate.hpp", "utility/distance.hpp", "match_result_generator.hpp", "regex_capture.hpp", "match_result.hpp"],
  [("end and distance checks before every dereference", "utility/distance.hpp"), ("begin checks in backward looking predicates", "ast/predicates/anchor_predicates.hpp")], ["AddressSanitizer, UndefinedBehaviorSanitizer, guarded iterators"]),
P("C14", "Matching always terminates; simple loops need constant stack and linear work",
  "Matching any pattern on any finite input terminates, also when a repeated expression can match the empty string; iterating over the results terminates as well. Repetitions of a single-character element (any quantifier; greedy ones given at least bidirectional input) use stack space independent of the input length, and possessive repetitions of any expression use stack space independent of the number of repetitions, so inputs of millions of characters match without overflow. The number of input positions such a repetition examines, when followed by a single-character element, grows linearly with the input length.",
  ["programs", "inputs"], "all patterns with nullable, nested and repeated bodies x inputs, and input lengths up to millions of characters",
  "Tests run on inputs of tens of characters inside the constant evaluator; loops and recursion depth only matter on nullable bodies and long inputs.",
  ["ast/nodes/quantifiers/repetition.hpp", "ast/nodes/quantifiers/fixed_repetition.hpp", "ast/traits.hpp", "regex_methods.hpp", "match_result_generator.hpp"],
  [("empty-iteration guard", "ast/nodes/quantifiers/repetition.hpp"), ("nullability trait", "ast/traits.hpp"), ("loop specialisations for single characters", "ast/nodes/quantifiers/repetition.hpp")], ["stack and step counters, watchdog on CPU time"]),
P("C15", "Compile-time and run-time evaluation agree",
  "Every matching, searching and iterating operation that returns views of its input can be evaluated in a constant expression, and for the same pattern, flags and input it then yields the same verdict, extent, captures and sequence of results as at run time with any supported compiler and optimisation level. No such evaluation hits a construct that is not allowed in constant expressions.",
  ["programs", "inputs", "configurations"], "all patterns x inputs x {constant evaluation, run time} x {gcc, clang} x optimisation levels",
  "Tests only run inside one compiler's constant evaluator, so behaviour of the compiled code at run time is never observed.",
  ["regex.hpp", "regex_methods.hpp", "match_result.hpp", "match_result_generator.hpp", "utility/input_range_adapter.hpp", "regex_capture.hpp", "regex_match_context.hpp"],
  [("constexpr API", "regex.hpp")], ["results computed into constexpr tables and at run time"]),
P("C16", "The expression API is equivalent to the corresponding pattern strings",
  "Every expression built from the expression API's functions, operators, terminals and embedded pattern strings gives, for every input and method, the same verdict, extent and captures as the pattern string with the same structure. Concatenation and alternation are associative, composed sub-expressions keep their own scope (an alternation used as a part stays one unit), captures keep the number and name they were given, and adding or clearing flags acts as on pattern strings.",
  ["programs", "inputs"], "all expression trees of the expression API x inputs",
  "Tests compare the types of a few hand-written expressions; flattening and scoping errors show for particular nestings only.",
  ["xpr/components.hpp", "xpr/operators.hpp", "xpr/adapters.hpp", "xpr/providers.hpp", "xpr/flags.hpp"],
  [("wrapping and flattening", "xpr/adapters.hpp"), ("components", "xpr/components.hpp")], [R]),
P("C17", "All ways of reading a match result agree, for views and owned results",
  "For every result of every match, all accessors agree: truth value, comparison with bool, matched, optional conversion, length, begin/end, string conversion, stream output, groups by number, by name, by structured binding and by projection function, per-group visiting and transforming (each group once, in order). Views denote the exact part of the original input; owned copies have the same verdict, group texts and names and stay valid and unchanged when the input is changed or destroyed. Empty and non-participating groups read as empty everywhere.",
  ["programs", "inputs", "histories"], "all patterns with named and unnamed groups x inputs x accessors x value categories",
  "Tests read one or two groups of a few results; the accessors have separate overloads per value category and ownership.",
  ["match_result.hpp", "regex_capture.hpp", "regex_capture_storage.hpp", "utility/tuple.hpp", "utility/static_string.hpp"],
  [("accessors per value category", "match_result.hpp"), ("capture views and owned captures", "regex_capture.hpp")], ["accessors of results and captures"]),
P("C18", "Matching is pure: no hidden state between calls or threads",
  "A result depends only on the pattern, the flags and the input: repeating, reordering or interleaving calls (including partly consumed generators and ranges, copies and moves of them, and calls with other patterns) never changes any result. Any number of threads can use the same and different regexes on the same and different inputs at the same time without data races and with the same results as alone.",
  ["histories", "schedules"], "all sequences and interleavings of operations on shared and distinct regexes, generators and inputs",
  "Tests are single independent constant evaluations, in which hidden state and races cannot even be expressed.",
  ["regex.hpp", "regex_match_context.hpp", "match_result_generator.hpp", "utility/input_range_adapter.hpp", "regex_methods.hpp"],
  [("match state local to each call", "regex_match_context.hpp"), ("generators own their position", "match_result_generator.hpp")], ["ThreadSanitizer, operation logs of concurrent clients compared with the sequential model"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in ps:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
