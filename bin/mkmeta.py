#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and bin/checks.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FZF = "src/metrics/fzf/"

# Where the guarantees live.
F = {
    "parser": FZF + "parser.rs", "query": FZF + "query.rs", "v1": FZF + "fzf_v1.rs",
    "v2": FZF + "fzf_v2.rs", "fzf": FZF + "fzf.rs", "cand": "src/candidate.rs",
    "candv2": FZF + "candidate.rs", "bonus": FZF + "scoring.rs", "scheme": FZF + "scheme.rs",
    "slab": FZF + "slab.rs", "dist": FZF + "distance.rs", "ranges": "src/matched_ranges.rs",
    "norm": "src/normalize.rs", "utils": "src/utils.rs", "metric": "src/metric.rs",
    "sens": "src/case_sensitivity.rs", "lib": "src/lib.rs", "toml": "Cargo.toml",
}

MODEL = ("The reference model (harness/src/model.rs), an independent transcription of fzf's documented "
         "rules, is what `right` means; it is itself cross-checked against brute force by `cargo test` in setup.")
GEN = ("Cases come from hostile but realistic generators (small alphabets, runs, word/separator paths, long gaps, "
       "repeated motifs, surrounding spaces, normalizable and odd-case letters, random scalars, lengths around the "
       "library's buffer sizes and around every literal its sources mention), seeded by VERIF_SEED. ")

SWEEP_FUZZY = ("The first cases are exhaustive: all queries of up to 3 chars over 2 against all candidates of up to 5 (thorough: 7) "
               "over 5, in an ASCII and a non-ASCII alphabet, under four option sets. ")
SWEEP_EXACT = ("The first cases are exhaustive: 9 texts, some with spaces, as each of the 8 kinds of exact term against all "
               "candidates of up to 4 (thorough: 6) chars over 5, in two alphabets, under four option sets. ")
SWEEP_MULTI = ("The first cases are exhaustive: all queries of up to 3 of 12 terms joined by spaces and pipes against all candidates of "
               "up to 3 (thorough: 5) chars over 3. ")

GUIDED = (" Then 8 processes breed cases: draws of earlier cases are altered and replayed, and kept if the library, instrumented for "
          "blocks and comparisons, did something new; these executions count as evaluations (guided.*), not as distinct ones.")
UNGUIDED = {"C02", "C03", "C23", "C24", "C25"}

P = []


def prop(id, title, statement, over, quant, tests, files, mechanism, rule, technique, note, assumptions=(), state=(),
         observe=("FzfV1/FzfV2 distance and distance_and_ranges",)):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests,
                  files=[F[f] for f in files], mechanism=mechanism, rule=rule, technique=technique,
                  note=note, assumptions=list(assumptions), state=list(state), observe=list(observe)))


def m(name, where):
    return {"name": name, "where": where}


prop("C01", "Every call returns: no panic, no overflow, no hang",
     "Parsing any string, in either syntax, and matching the resulting query against any string under any options, "
     "with or without ranges, returns normally: it never panics, overflows, aborts or loops forever. "
     "The ranges it returns can be used to slice the candidate, and every public value can be printed with Debug.",
     ["inputs", "configurations", "histories"],
     "All strings as query and as candidate (any length and any Unicode content), all options, both metrics, fresh or used instances.",
     "The tests use about 150 short inputs; the fuzz target isn't part of the suite and never asserts on long inputs.",
     ["parser", "query", "fzf", "v1", "v2", "slab", "cand", "ranges"],
     [m("grow-on-demand buffers", F["slab"]), m("index arithmetic of the scoring matrix", F["v2"]), m("backward pass", F["v1"])],
     GEN + "Each judged execution parses, prints and matches one query on instances shared by a session of up to 4 "
     "inputs, built with debug assertions and overflow checks; a few per thousand are beyond 2^16 chars. "
     "Non-trivial: neither query nor candidate is empty; distinct: by query, candidate, options, metric and syntax.",
     "panic/abort/hang monitor (assertions, overflow checks, CPU-time watchdog) over hostile sessions",
     "Observed executions only. A hang is 60 s of CPU time inside one case; aborts are attributed by re-running the case that was in flight.",
     ["An input needs at most a few MB of memory."], observe=["process status, panics, Debug output, returned ranges"])

prop("C02", "Safe programs can't cause undefined behaviour",
     "No program that only uses the safe public API reads or writes memory out of bounds, after it was freed, "
     "uninitialized or in violation of Rust's aliasing rules, in whatever order instances are created, used, cloned, moved and dropped. "
     "A query can't be used once its parser has been used again, moved or dropped: such programs are rejected when they're compiled.",
     ["inputs", "histories", "programs"],
     "All inputs and all sequences of operations on any number of parsers, queries and metrics.",
     "The tests never run under a sanitizer or interpreter, so undefined behaviour would go unnoticed; the crate has unsafe blocks that extend lifetimes.",
     ["parser", "v1", "v2", "slab", "cand", "norm"],
     [m("lifetime-extending transmutes", F["parser"]), m("slab references with erased lifetimes", F["v1"]), m("char table lookups", F["norm"])],
     GEN + "A session creates, clones, moves, swaps and drops parsers and metrics at random while parsing and matching; it runs under "
     "AddressSanitizer (full sizes) and MemorySanitizer and, in smaller form, under Miri with the Stacked Borrows and the Tree Borrows models. "
     "Then 4 processes under AddressSanitizer breed cases: draws of earlier sessions are altered and replayed, and kept if "
     "the library, instrumented for blocks and comparisons, did something new (guided.*). Eight programs that misuse a query's lifetime must not compile or, if they do, must be free of UB under Miri. "
     "Non-trivial: neither query nor candidate is empty.",
     "AddressSanitizer, Miri (Stacked and Tree Borrows), MemorySanitizer; compile-and-interpret probes",
     "Detects the undefined behaviour that executed. Panics are ignored here (C01 judges them).",
     ["The sanitizers' and Miri's definitions of undefined behaviour."], observe=["sanitizer and interpreter reports, compiler verdicts"])

prop("C03", "Concurrent use is race-free and gives the sequential results",
     "Parsers, queries, metrics and distances can be sent to and shared with other threads. "
     "Threads that match shared queries with metrics of their own, or parse with parsers of their own, never race on memory, "
     "and each of them gets exactly the results that a single thread gets.",
     ["schedules", "inputs"],
     "All interleavings of any number of threads that share queries and own their metrics and parsers, for all inputs.",
     "No test uses threads.",
     ["query", "parser", "v1", "v2", "norm"],
     [m("no shared mutable state; auto traits", F["query"]), m("per-instance slabs", F["slab"])],
     GEN + "A group of 2 to 5 threads, released by a barrier, shares queries and a prototype metric to clone, parses and matches in random "
     "order with injected yields, and compares every answer with the one computed sequentially. The same workload runs natively, under "
     "ThreadSanitizer with an instrumented standard library, and under Miri's race detector with forced preemptions; a program that needs "
     "Send and Sync must compile. Non-trivial: the query isn't empty.",
     "ThreadSanitizer, Miri's race detector, differential monitor against sequential runs",
     "Covers the interleavings that happened; races are found by happens-before analysis even if they did no harm in the run.",
     ["TSan's and Miri's models of the memory order."], observe=["race reports, results per thread"])

prop("C04", "A metric's answers don't depend on what it was used for before",
     "What a metric returns for a query and a candidate depends only on these two and on its current options: a used, reconfigured or cloned instance "
     "returns exactly what a new one with the same options does, whatever it was asked before and however large or small that was.",
     ["histories", "inputs", "configurations"],
     "All sequences of calls, option changes and clones before the call, for all inputs.",
     "The tests create a new instance for each case; buffers carried from call to call are never compared.",
     ["v1", "v2", "slab", "candv2"],
     [m("slabs cleared or overwritten per call", F["slab"]), m("lazily computed bonuses are reset", F["candv2"])],
     GEN + "Sessions of up to 7 calls on one instance, in growing, shrinking or random sizes, with clones (clone, clone_from) and option changes in between; each "
     "answer (distance or distance and ranges) is compared with a new instance's. Marathons: some calls, then about 2^8, 2^16 or some thousands of others, "
     "then calls that would notice what's left of the first ones. Non-trivial: not the first call, and the query matches.",
     "online differential monitor: reused instance vs. fresh instance",
     "Compares the library with itself, so it needs no model.", state=[{"name": "slabs", "meaning": "buffers kept between calls", "where": F["slab"]}])

prop("C05", "A parser can be reused and cloned, queries can be used repeatedly",
     "A query means the same whether its parser is new, has parsed any other strings before, or is a clone; using a clone doesn't affect the original's live queries. "
     "A query can be copied and used any number of times, with the same result each time.",
     ["histories", "inputs"],
     "All sequences of strings parsed before, in both syntaxes, and all interleavings with clones.",
     "The tests parse one string per parser, or leak it.",
     ["parser", "query"],
     [m("parser buffers are reset and grown per parse", F["parser"])],
     GEN + "Sessions of up to 6 parses on one parser, in growing, shrinking or random lengths and both syntaxes, interleaved with clones that "
     "parse something else; the query's results are compared with those of a new parser's query. Marathons of up to 2^16 parses. "
     "Non-trivial: not the first parse, and the query isn't empty.",
     "online differential monitor: reused/cloned parser vs. fresh parser",
     "Compares the library with itself, so it needs no model.", state=[{"name": "parser buffers", "meaning": "characters, patterns and conditions of the last query", "where": F["parser"]}])

prop("C06", "Asking for the ranges never changes the distance",
     "For any query, candidate and options, the operation that also reports the matched ranges returns exactly the distance (or non-match) that the plain one does. "
     "Both are repeatable, in any order and on any instance.",
     ["inputs", "histories", "configurations"],
     "All inputs and options, both metrics, any order of the operations.",
     "The tests call one of the two per case.",
     ["fzf", "v1", "v2", "metric"],
     [m("one generic implementation for both", F["fzf"])],
     GEN + SWEEP_MULTI + "For each input, 2 to 4 operations in random order on a used instance and one of each on new instances must agree on the distance, "
     "and on the ranges. Non-trivial: the query isn't empty and matches.",
     "online differential monitor between the two operations",
     "Compares the library with itself, so it needs no model.")

prop("C07", "The caller's ranges buffer is only appended to",
     "Matching with ranges leaves whatever the caller's buffer already held exactly as it was, and appends the same ranges it would append to an empty buffer. "
     "If the candidate doesn't match, the buffer isn't changed at all.",
     ["inputs", "histories"],
     "All buffer contents (also unrelated, overlapping or adjacent ranges), all inputs and options.",
     "The tests pass empty buffers, and don't look at them after a non-match.",
     ["ranges", "fzf", "v1", "v2", "metric"],
     [m("offset at which the call's own ranges start", F["ranges"]), m("roll-back on a failed condition", F["fzf"])],
     GEN + SWEEP_MULTI + "The buffer holds the previous results of the session, or random ranges, or ranges adjacent to those the call will append, with or "
     "without spare capacity. Non-trivial: the buffer wasn't empty.",
     "assertion monitor on the caller's buffer before/after each call",
     "Compares the library with itself, so it needs no model.")

prop("C08", "Matched ranges are sorted, disjoint, non-empty char-aligned byte ranges",
     "The ranges reported for a match are non-empty byte ranges within the candidate that start and end on char boundaries, in ascending order, "
     "neither overlapping nor touching one another. Together they cover exactly what the matching terms of the query matched, also where those overlap.",
     ["inputs", "configurations"],
     "All queries (with any number of overlapping terms), candidates and options.",
     "The tests have few multi-term queries, and none whose matches overlap in several ways.",
     ["ranges", "fzf", "v1", "v2", "cand"],
     [m("merging of inserted ranges", F["ranges"]), m("char to byte offset conversion", F["cand"])],
     GEN + SWEEP_MULTI + "Every range of every match is checked; a third of the cases are queries of up to 6 terms cut from a candidate of distinct chars, so that "
     "their matches overlap, nest and touch and the exact union is known. Non-trivial: there's at least one range.",
     "structural invariant monitor on every returned range list, plus known unions",
     "The expected unions are known by construction, not from a model.")

prop("C09", "A fuzzy term matches iff its characters appear in order",
     "A fuzzy query matches a candidate if and only if its characters occur in the candidate in the same order, possibly with others in between, "
     "under the case and normalization options. Both metrics therefore accept the same candidates, and a negated fuzzy term accepts exactly the others.",
     ["inputs", "configurations"],
     "All queries, candidates and options.",
     "The tests sample a few dozen pairs, none of them long or with many repeats.",
     ["v1", "v2", "cand", "candv2", "query"],
     [m("forward scan", F["v1"]), m("first-occurrence scan", F["v2"]), m("char search", F["cand"])],
     GEN + SWEEP_FUZZY + "Both metrics, with and without ranges, are compared with a subsequence test on the same chars. "
     "Non-trivial: neither query nor candidate is empty.",
     "online oracle: subsequence test, both metrics", MODEL)

prop("C10", "The ranges of a fuzzy match spell the query",
     "The characters covered by the ranges of a fuzzy match, read in order, are as many as the query's and match them one by one under the case and normalization options.",
     ["inputs", "configurations"],
     "All matching pairs, both metrics.",
     "The tests compare ranges for a few dozen short inputs.",
     ["v1", "v2", "fzf", "cand", "ranges"],
     [m("traceback", F["v2"]), m("forward, backward pass", F["v1"])],
     GEN + SWEEP_FUZZY + "Each reported range list is spelled out and compared with the query char by char. Non-trivial: it's a match.",
     "online trace checker: spelled ranges vs. query", MODEL)

prop("C11", "Exact, prefix, suffix and equality terms match what they say, where they say",
     "An exact term matches iff its text occurs in the candidate, a prefix (suffix) term iff the candidate starts (ends) with it once the spaces around "
     "the candidate are ignored, and an equality term iff that's all there is; negated, they match exactly otherwise and report nothing. "
     "The range reported is that occurrence, which for exact terms is the first one at a word boundary or else the first of those with the highest bonus.",
     ["inputs", "configurations"],
     "All terms, candidates and options, both metrics.",
     "The tests have a handful of such terms, with no repeats, partial overlaps or long candidates.",
     ["fzf", "query", "cand"],
     [m("occurrence search that restarts after partial matches", F["fzf"]), m("space handling", F["query"])],
     GEN + SWEEP_EXACT + "Acceptance and range of single terms are compared with a direct search. Non-trivial: a match of a term that isn't negated.",
     "online oracle: naive search", MODEL,
     ["Spaces are U+0020; a term's own leading (trailing) spaces have to be there."])

prop("C12", "Terms combine as AND of ORs, with negation",
     "A query of several terms matches iff for each of its conditions at least one alternative does, where a negated term matches iff the same term "
     "without the negation doesn't. The distance is the sum, and the ranges the union, of what the first matching alternative of each condition "
     "gives on its own; negated terms add nothing to either.",
     ["inputs", "configurations"],
     "All queries with any number of conditions and alternatives of all kinds, all candidates and options.",
     "The tests check a few two-term queries.",
     ["fzf", "query", "parser"],
     [m("loop over conditions and alternatives", F["fzf"]), m("negation", F["query"])],
     GEN + SWEEP_MULTI + "Each query of up to 40 terms is compared with its own terms, evaluated one by one by the library and combined by the monitor. "
     "Non-trivial: more than one term, or a negated one.",
     "metamorphic monitor: whole query vs. its terms evaluated one by one",
     "How a query splits into terms comes from the reference model; what each term does comes from the library itself.")

prop("C13", "The extended query syntax means what fzf says it means",
     "Any string is a valid query: unescaped spaces separate terms and an escaped one is literal, a lone | joins the terms around it as alternatives, ! negates, "
     "' makes a term exact (fuzzy, if negated), ^ anchors it at the start, $ at the end, and both require equality; operators elsewhere, or with nothing to apply to, are literal or ignored as in fzf. "
     "Which candidates the query accepts follows from that.",
     ["inputs"],
     "All strings as queries, judged by which candidates they accept.",
     "The tests parse about 30 strings; combinations of operators, escapes and empty terms are sampled thinly.",
     ["parser", "query"],
     [m("word splitting and escapes", F["parser"]), m("operator prefixes and suffixes", F["query"])],
     GEN + "The first cases are all the queries of up to 5 (thorough: 7) chars out of a, space and the operators. Queries are syntactic soup or rendered terms; each is judged on a dozen probe candidates built from its own text, so that "
     "different readings accept different probes. Non-trivial: the query has at least one term.",
     "online oracle: model parser, judged by acceptance of probe candidates", MODEL,
     ["Where fzf's own syntax has leading or doubled pipes, they're ignored."])

prop("C14", "The non-extended syntax takes the string literally",
     "Parsed without the extended syntax, a string is one fuzzy term made of all of its characters, spaces and operators included; the empty string matches everything at distance zero. "
     "It gives the same results as the extended syntax does for the same text once that is escaped so as to have no operators.",
     ["inputs"],
     "All strings, candidates and options.",
     "The tests parse a few short strings this way.",
     ["parser", "query"],
     [m("parse_not_extended", F["parser"])],
     GEN + "Strings are soup, operators or candidate text; acceptance, the spelled ranges, and the result of the escaped extended query are compared. "
     "Non-trivial: it's a match.",
     "online oracle (subsequence, spelled ranges) and metamorphic comparison of the two syntaxes", MODEL)

prop("C15", "Case sensitivity does what it says, for every letter",
     "Sensitive: only equal characters match. Insensitive: characters with the same lowercase form match too, ASCII letters only with ASCII letters, so the "
     "case of the query never matters. Smart: each term is matched sensitively if it contains an uppercase character, insensitively otherwise.",
     ["inputs", "configurations"],
     "All pairs of characters and all queries and candidates, ASCII and non-ASCII representations, both metrics, all kinds of terms.",
     "The tests use ASCII letters and a handful of others.",
     ["utils", "cand", "candv2", "query", "sens", "v1", "v2"],
     [m("char comparison functions", F["utils"]), m("uppercase detection per term", F["query"]), m("byte search for both cases", F["cand"])],
     "Sweeps every pair of ASCII chars and every Unicode char with case against its relatives, in both candidate representations; then whole queries: "
     "swapping the query's case, smart vs. the uniform mode, and acceptance by the per-char definition. "
     "Non-trivial: the chars differ, or the query matches.",
     "exhaustive char-pair sweep and metamorphic monitors", MODEL)

prop("C16", "Normalization maps accented Latin letters of the candidate, and only those",
     "With normalization on, an ASCII character of the query also matches the Latin letters of the candidate that fzf normalizes to it; the query is never normalized, and all other characters behave as with it off. "
     "Candidates without such letters aren't affected by the option at all.",
     ["inputs", "configurations"],
     "All characters (the whole table and all other code points), all queries, candidates and options.",
     "The tests use about five letters of the table's hundreds.",
     ["norm", "utils", "cand"],
     [m("code point tables", F["norm"]), m("normalizing comparisons", F["utils"])],
     "Sweeps every table entry against related and unrelated queries in all kinds of terms, and every code point in and around the table's blocks "
     "against all ASCII queries; then whole queries. Non-trivial: the chars differ, or it matches with normalization on.",
     "exhaustive table sweep against fzf's table; on/off metamorphic monitor", MODEL,
     ["harness/src/normtab.rs is a verified copy of fzf's table as shipped in the crate."])

prop("C17", "FzfV1 returns fzf v1's score and alignment",
     "For every fuzzy query and candidate the v1 metric selects the alignment that fzf's v1 algorithm does (the earliest end, then the latest start for it, then greedily) and scores it by fzf's rules: points per match, "
     "positional bonuses inherited along runs, double bonus for the first character, and penalties for opening and extending gaps.",
     ["inputs", "configurations"],
     "All queries, candidates, options and schemes.",
     "The tests compare about 30 scores of short inputs.",
     ["v1", "fzf", "bonus", "scheme"],
     [m("forward and backward scan", F["v1"]), m("compute_score", F["fzf"])],
     GEN + SWEEP_FUZZY + "Distance (as the internal score) and ranges are compared with the model's. Non-trivial: it's a match.",
     "online oracle: independent model of the v1 algorithm", MODEL,
     ["The private feature __into-score exposes the score."])

prop("C18", "FzfV2 returns fzf v2's score and alignment",
     "For every fuzzy query and candidate the v2 metric returns the score that fzf's v2 dynamic program computes over the whole candidate, and the alignment that fzf's backtrace reports for it; "
     "for a single character, its first occurrence with the highest bonus.",
     ["inputs", "configurations"],
     "All queries, candidates, options and schemes.",
     "The tests compare about 30 scores of short inputs, with few competing alignments.",
     ["v2", "fzf", "bonus", "scheme", "slab"],
     [m("scoring matrix", F["v2"]), m("traceback", F["v2"]), m("lazy bonuses", F["candv2"])],
     GEN + SWEEP_FUZZY + "Distance (as the internal score) and ranges are compared with the model's. Non-trivial: it's a match.",
     "online oracle: independent model of the v2 dynamic program and backtrace", MODEL,
     ["The private feature __into-score exposes the score."])

prop("C19", "No match is scored above what some alignment of the query earns",
     "The score of a fuzzy match never exceeds that of the best alignment of the query in the candidate under fzf's scoring rules (in v2, with gaps that never cost more than what was earned so far). "
     "The v1 score, and that of a single character, is exactly the score of the alignment that the ranges report.",
     ["inputs", "configurations"],
     "All matching pairs, both metrics, all schemes.",
     "The tests' expected scores are written by hand.",
     ["v1", "v2", "fzf", "bonus"],
     [m("scoring matrix", F["v2"]), m("compute_score", F["fzf"])],
     GEN + SWEEP_FUZZY + "An exact optimizer over all alignments bounds each score; reported alignments are re-scored. Non-trivial: it's a match.",
     "online bound: exact optimum over all alignments, re-scoring of reported ranges",
     "Independent of how the library, or the model of C17 and C18, finds alignments.",
     ["The scoring rule per alignment, as in harness/src/model.rs."])

prop("C20", "Exact, prefix, suffix and equality matches get fzf's score",
     "The distance of an exact, prefix, suffix or equality match is that of its characters matched consecutively at the reported place, with fzf's bonuses for where it starts; "
     "a negated term contributes nothing.",
     ["inputs", "configurations"],
     "All such terms, candidates, options and schemes, both metrics.",
     "The tests compare a handful of such scores.",
     ["fzf", "bonus", "scheme"],
     [m("compute_score", F["fzf"])],
     GEN + SWEEP_EXACT + "Single terms, with and without ranges, compared with the model's score. Non-trivial: a match of a term that isn't negated.",
     "online oracle: independent scoring of the occurrence", MODEL,
     ["The private feature __into-score exposes the score."])

prop("C21", "Schemes and character classes give fzf's positional bonuses",
     "The bonus of a matched character depends only on its class, the class of the character before it (or the scheme's initial one) and the scheme, with fzf's values for each: "
     "word starts after spaces, delimiters and other symbols, camel case, digits. (The path scheme's delimiters are the slash and, on Windows, the backslash.) It's the same in ASCII and in non-ASCII candidates, and for both metrics.",
     ["inputs", "configurations"],
     "All pairs of adjacent characters under all three schemes.",
     "The tests exercise a few dozen adjacent pairs.",
     ["bonus", "scheme", "candv2", "fzf"],
     [m("char classes and compute_bonus", F["bonus"]), m("scheme parameters", F["scheme"])],
     "Sweeps every pair of ASCII chars under every scheme (in ASCII, non-ASCII and shifted candidates, both metrics), then random Unicode pairs and "
     "short multi-char matches. The rows of some chars, and random cases, also run in a Windows build under Miri, where the backslash is a delimiter of the path scheme. "
     "Non-trivial: the term matches.",
     "exhaustive adjacent-pair sweep against the bonus table", MODEL,
     ["The private feature __into-score exposes the score."])

prop("C22", "Text that takes no part in a match doesn't change it",
     "Appending characters that match nothing in the query leaves distance and ranges unchanged, unless a term is anchored at the end; in particular it doesn't matter whether the candidate "
     "thereby stops being ASCII. Prepending them only moves the ranges, provided that the candidate's first character takes no part either and no term is anchored at the start.",
     ["inputs", "configurations"],
     "All queries, candidates and inert texts of any length and representation.",
     "No test compares related candidates.",
     ["cand", "candv2", "v2", "v1", "fzf"],
     [m("two candidate representations", F["cand"]), m("slicing to the first and last occurrence", F["v2"])],
     GEN + "Inert text (1 to 300 chars that match no char of the query) is added at either end of the candidate. "
     "Non-trivial: the property applied and it's a match.",
     "metamorphic monitor: candidate vs. extended candidate",
     "Compares the library with itself; the model only says which chars are inert.")

prop("C23", "Memory use is bounded by the largest input, and everything is freed",
     "What a parser and a metric hold on to depends on the largest inputs they've seen, not on how many: repeating the same calls never makes them grow, and dropping everything frees everything. "
     "Memory stays linear in the input sizes, except for the v2 metric, where it may grow with the product of query and candidate size.",
     ["histories", "inputs"],
     "All sequences of calls of any length, both metrics.",
     "No test looks at allocations.",
     ["slab", "parser", "v1", "v2"],
     [m("slabs resized to the largest request", F["slab"]), m("parser buffers", F["parser"])],
     GEN + "A counting allocator watches sessions that repeat the same calls four times and then make others of the same shapes (letters and digits renamed): live bytes after each round, peak per call, bytes left after "
     "dropping. Crowds: the largest calls, then thousands of others of all smaller lengths, after which hardly more may be held. Non-trivial: neither query nor candidate is empty.",
     "counting-allocator monitor (live bytes, peak, leaks)",
     "Allowances are generous (64 KiB + 400 B per input byte + 64 B per matrix cell), so that only a change of order is reported.",
     observe=["live and peak heap bytes of the calling thread"])

prop("C24", "Matching takes linear time, v2 alignments at most the product",
     "Parsing, v1 matching, all non-fuzzy terms, and finding out that a candidate doesn't match take time linear in the size of the inputs (for a term of fixed length). "
     "Aligning a matching candidate with the v2 metric takes at most time proportional to query size times candidate size. "
     "What a call costs depends neither on earlier calls nor on what the caller's buffer holds (but for the caller's buffer growing).",
     ["inputs"],
     "All input sizes and numbers of calls, for the worst-case shapes listed in the check.",
     "No test measures work, and benchmarks don't assert.",
     ["v1", "v2", "fzf", "parser", "cand"],
     [m("single scans", F["v1"]), m("early exit for non-matches", F["v2"])],
     "Cachegrind counts the instructions of 204 adversarial workloads (runs, combs, near misses, growing queries, many different terms and chars, all kinds of terms, the parser, many calls with clones and a buffer that isn't cleared; ASCII and not; "
     "three option sets) at one size and at 16 (thorough: 32) times that size. Non-trivial: all; distinct: by workload.",
     "instruction counting (cachegrind) with a scaling oracle",
     "Deterministic; a workload fails if its work grows more than 2.5 times as much as the documented bound allows.",
     ["Instructions stand for time."], observe=["instructions executed per call"])

prop("C25", "Build configuration and platform don't change the results",
     "Debug and release builds, each metric enabled on its own or along with all features, other optimization levels, and 32-bit, big-endian or other targets (but for the path scheme's backslash on Windows) all give the same matches, "
     "rankings and ranges for the same calls.",
     ["configurations", "inputs"],
     "All supported build configurations, for all inputs.",
     "The suite runs one configuration: a debug build with all features.",
     ["toml", "lib", "v1", "v2", "fzf", "slab"],
     [m("cargo features", F["toml"]), m("debug assertions", F["slab"])],
     GEN + "One workload (matches, ranges and the ranking of groups of candidates) runs in ten builds of the library (one of them 32-bit, without a libc), and in small under Miri for a "
     "32-bit, a big-endian, an ARM macOS and a Windows target (but for the path scheme's backslash there); all outputs must be identical, and a configuration must compile if others do. Evaluations counts calls over all builds; distinct_nontrivial counts the distinct groups.",
     "differential monitor across build configurations and interpreted targets",
     "Compares the library with itself. The foreign targets are skipped (and counted as such) if Miri can't build their standard library.",
     observe=["matches, rankings and ranges printed by a program built per configuration"])

prop("C26", "Distances are totally ordered, and lower is better",
     "Distances form a total order consistent with equality, in which the better match (by fzf's score) always has the lower distance, so sorting by distance ranks like fzf. "
     "The default distance is that of the empty query, and the comparison operators, minimum and maximum agree with the order.",
     ["inputs", "configurations"],
     "All pairs of distances that matching can produce.",
     "The tests compare a few pairs.",
     ["dist"],
     [m("reversed ordering", F["dist"])],
     GEN + "All operators are compared on all pairs of distances of groups of similar candidates, sorted, and confronted with the model's scores. "
     "Non-trivial: the two differ.",
     "assertion monitor on all comparison operators", MODEL,
     ["The private feature __into-score exposes the score."], observe=["comparisons of FzfDistance values"])

prop("C27", "Options: documented defaults, last setting wins, instances are independent",
     "A new or default metric uses smart case, no normalization and the default scheme. Each option holds from when it's set until it's set again, in whatever order the options are set, "
     "affects only that instance, is carried over by cloning, and is shown when the instance is printed with Debug.",
     ["histories", "configurations", "inputs"],
     "All sequences of option changes and clones on several instances.",
     "The tests set options once, right after creation.",
     ["v1", "v2", "scheme", "sens"],
     [m("setters", F["v2"]), m("Default implementations", F["scheme"])],
     GEN + "Two instances are configured step by step and cloned into each other; each answer is compared with the model's for the options in force. "
     "Non-trivial: it's a match.",
     "online oracle over histories of option changes", MODEL)


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mechanism"],
                            "observe_at": p["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 bin/check.py --setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 bin/check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 bin/check.py {p['id']} --tier thorough",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in P],
        "not_applicable": [],
        "notes": "No hooks: the checks use the public API and the crate's own private feature __into-score. "
                 "See DESIGN.md; known_findings.txt lists the defects that were repaired.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    with open(os.path.join(VERIF, "bin", "checks.json"), "w") as f:
        json.dump({p["id"]: {"title": p["title"], "rule": p["rule"] + ("" if p["id"] in UNGUIDED else GUIDED), "assumptions": p["assumptions"]} for p in P}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
