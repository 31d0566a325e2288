"""Build configurations and, per property, what runs where."""

EXEMPT = ["--cfg", "procmacro2_semver_exempt"]

CONFIGS = {
    "nd": {"what": "stable, no features: fallback only, no span locations", "features": []},
    "sn": {"what": "stable, span-locations without proc-macro", "features": ["p2-sl", "spans"]},
    "df": {"what": "stable, default features (proc-macro): dispatch layer over the fallback", "features": ["p2-proc-macro", "wrap"]},
    "sl": {"what": "stable, proc-macro and span-locations", "features": ["p2-proc-macro", "p2-sl", "wrap", "spans"]},
    "ex": {"what": "stable, procmacro2_semver_exempt: fallback with all methods", "rustflags": EXEMPT, "features": ["spans", "exempt"]},
    "nx": {"what": "nightly, procmacro2_semver_exempt, proc-macro: dispatch layer with all methods", "toolchain": "nightly", "rustflags": EXEMPT, "features": ["p2-proc-macro", "wrap", "spans", "exempt"]},
    "old": {"what": "stable, default features, with the code paths for older compilers switched on", "rustflags": ["--cfg", "no_literal_byte_character", "--cfg", "no_literal_c_string", "--cfg", "no_source_text"], "features": ["p2-proc-macro", "wrap"]},
}
CONFIGS["as"] = {"what": "nightly, span-locations, under AddressSanitizer", "toolchain": "nightly", "target": "x86_64-unknown-linux-gnu", "rustflags": ["-Zsanitizer=address"], "features": ["p2-sl", "spans", "asan"], "asan": True}
_COV = {"what": "stable, proc-macro and span-locations, library compiled with coverage counters", "wrapper": "harness/cov-rustc.sh"}
CONFIGS["cv"] = dict(_COV, features=["p2-proc-macro", "p2-sl", "wrap", "spans", "cov"])
CONFIGS["cx"] = dict(_COV, what="stable, procmacro2_semver_exempt, library compiled with coverage counters", rustflags=EXEMPT, features=["spans", "exempt", "cov"])
CONFIGS["ct"] = {"what": "nightly, proc-macro and span-locations, every edge taken in the library and the core libraries counted", "toolchain": "nightly", "target": "x86_64-unknown-linux-gnu", "build_std": True, "wrapper": "harness/count-rustc.sh", "features": ["p2-proc-macro", "p2-sl", "wrap", "spans", "count"]}
CONFIGS["ctx"] = {"what": "stable, procmacro2_semver_exempt, every edge taken in the library counted", "wrapper": "harness/count-rustc.sh", "rustflags": EXEMPT, "features": ["spans", "exempt", "count"]}
for _n, _x in [
    ("pm", {"what": "inside a procedural macro, stable, default features", "features": []}),
    ("pm-sl", {"what": "inside a procedural macro, stable, span-locations", "features": ["p2-sl", "spans"]}),
    ("pm-nsl", {"what": "inside a procedural macro, nightly, span-locations", "toolchain": "nightly", "features": ["p2-sl", "spans", "nightly"]}),
    ("pm-nx", {"what": "inside a procedural macro, nightly, procmacro2_semver_exempt", "toolchain": "nightly", "rustflags": EXEMPT, "features": ["spans", "exempt", "nightly"]}),
    ("pm-old", {"what": "inside a procedural macro, stable, with the code paths for older compilers switched on", "rustflags": CONFIGS["old"]["rustflags"], "features": ["old"]}),
]:
    CONFIGS[_n] = dict(_x, crate="pm", artifact="libvpm.so", features=_x["features"] + ["wrapped"])
CONFIGS["pm-ex"] = {"what": "inside a procedural macro, stable, procmacro2_semver_exempt: the fallback alone", "rustflags": EXEMPT, "features": ["spans", "exempt", "bare"], "crate": "pm", "artifact": "libvpm.so"}
for _c in CONFIGS.values():
    _c.setdefault("artifact", "libvh.so")


def on(*configs, **kw):
    # scale: percentage of the sampled cases' base numbers
    return [dict({"config": c, "scale": 300}, **kw) for c in configs]


LEX = "Texts are produced by grammar-directed generators (valid and sloppy token sequences), mutation of such texts and of real Rust source, random strings over characters the lexer branches on, exhaustive enumeration of short strings over small alphabets, a sweep of Unicode characters through 91 lexical contexts, every three ASCII characters alone and every two in 47 contexts, every constant string that occurs in the source code under test put into many contexts, and sizes around powers of two. "

PLAN = {
    "C01": {"parts": on("nd", "sl") + on("ex"), "rule": LEX + "Non-trivial: contains something other than white space."},
    "C02": {"parts": on("nd", "sl"), "rule": LEX + "Non-trivial: accepted by the reference grammar with at least one token that is not a literal, or rejected after offset 0."},
    "C03": {"parts": on("nd", "sl"), "rule": LEX + "Non-trivial: accepted with a literal token, or rejected and containing a quote or digit."},
    "C04": {"parts": on("nd", "sl"), "rule": LEX + "Non-trivial: contains a comment opener, white space other than a plain space, or a byte order mark."},
    "C15": {"parts": on("sn", "sl"), "rule": LEX + "Non-trivial: rejected at an offset other than 0."},
    "C20": {"parts": on("nd", "sl"), "rule": LEX + "Non-trivial: one literal, or not one literal although it contains a literal token."},
    "C05": {"parts": on("nd", "sl"), "rule": LEX + "Also streams and literals built through the API. Non-trivial: at least two tokens (literal constructors: at least one)."},
    "C06": {"parts": on("nd", "sl"), "rule": LEX + "Also streams built through the API by randomly mixed routes. Non-trivial: at least two tokens."},
    "C07": {"parts": on("nd", "sl"), "rule": "Values: every 8 and 16 bit integer, every character, every byte pair, and random integers, floats, strings, byte strings and C strings. Non-trivial: every value counts; distinct values are counted."},
    "C08": {"parts": on("ex", "nx"), "rule": "Literal texts from the grammar generators, enumerated and swept, and literals built from values. Non-trivial: a string, byte-string or C-string literal."},
    "C09": {"parts": on("nd", "sl"), "rule": "Names: every character alone, at the start and inside a name, all short strings over an alphabet of identifier pieces, mutated and random names; pairs of identifiers made by different routes against each other and against related strings. Non-trivial: a non-empty name (pairs: every pair)."},
    "C10": {"parts": on("nd", "sn", "sl"), "rule": "Every character as punctuation; random programs of 2 to 24 constructor, accessor, conversion, clone and set-span calls over a pool of tokens, each followed by comparing every token of the pool with its model. Non-trivial: a program that sets a span or takes a token apart; a non-empty group."},
    "C11": {"parts": on("nd", "sl"), "rule": "Random histories of operations over pools of streams, iterators, groups and tokens, each mirrored on plain vectors and compared after every step. Non-trivial: at least 8 operations among which a stream sharing its contents with a clone was extended."},
    "C12": {"parts": on("nd", "sl", scale=200) + on("as", scale=40), "rule": "Random histories with clones in flight, dropped in random order under a counting allocator; texts parsed, queried and dropped under the same; nesting up to a million levels on a 1 MiB stack. Non-trivial: at least 8 operations; a non-empty text; more than 1000 levels."},
    "C13": {"parts": on("sn", "sl", "ex"), "rule": LEX + "Texts are parsed in random sequences, interleaved with rejected texts, single literals and span invalidation, and every token's span is queried at random later times. Non-trivial: several texts and at least 8 queries; a text whose last token is not at offset 0."},
    "C14": {"parts": on("sn", "sl", "ex", "nx"), "rule": "Random span operations (join, subspan, resolved_at, located_at, delimiter spans, unwrap, eq) on spans of random sequences of parsed texts, against their modelled ranges; every byte range of generated literals; threads parsing concurrently. Non-trivial: at least one operation with a non-empty answer was checked."},
    "C16": {"parts": on("nd", also=["sn", "df", "sl", "ex", "nx", "old"]), "rule": LEX + "Also random histories of API calls. Each case is run by six builds loaded into one process and the written-down observations compared with those of a seventh. Non-trivial: a text of at least two characters; a history with at least 200 bytes of observations.", "assumptions": ["characters which the standard libraries of the compared toolchains escape differently are left out of the comparison with that build"]},
    "C17": {"parts": on("pm", "pm-sl", "pm-nsl", "pm-nx", "pm-old"), "rule": "Runs inside a procedural macro of the installed compilers. Token models with every kind of token, spacing, delimiter and span, built through randomly mixed routes, sent to the compiler's API and back; random histories of stream operations, constructors, accessors, span operations, comparisons, literal constructors and parses, each compared with the compiler's own answer or with the same steps on the fallback. Non-trivial: at least two tokens; an accepted text, literal or name; a history with at least 60 bytes of observations.", "assumptions": ["texts that the compiler's lexer reads differently by design are left out: characters its lexer handles apart, carriage returns, number forms it rejects, underscore suffixes, reserved prefixes, shebangs and frontmatter, a quote straight after punctuation", "spans of punctuation that the compiler itself glued when streams were joined are not compared"]},
    "C18": {"parts": on("df", "sl", "nx", scale=600) + on("pm", "pm-sl", "pm-nsl", "pm-nx", "pm-old", "pm-ex", scale=600), "rule": "Inside a procedural macro: random histories of forcing and unforcing the fallback, creating tokens, streams and spans, converting them and combining values of either origin, compared with a model of which backend each value belongs to; ten different first calls of a process. Outside: the same histories with and without forcing, threads working while another forces and unforces, and new processes with twelve different first calls. Non-trivial: values of both backends met in an operation; a history with at least 200 bytes of observations; every first call."},
    "C21": {"parts": on("ct", processes=True) + on("ctx", processes=True, scale=150), "rule": "Texts made of a repeated piece (tokens, literals, comments, single characters, fragments, with different surroundings), streams built from repeated tokens in eleven ways, long values and names, many strings on one thread; each run at four sizes doubling from up to 2^12 characters or 2^11 tokens. The cost of each operation is the number of control-flow edges taken in the instrumented library and the bytes requested from the allocator, both independent of machine and load. Non-trivial: at the largest size some operation takes more than 50000 steps."},
    "C19": {"parts": on("nd", "sl"), "rule": LEX + "Also streams built through the API by randomly mixed routes. Non-trivial: at least two tokens."},
}

# what also holds inside a procedural macro
_INSIDE = {"C01": ["pm"], "C07": ["pm", "pm-old"], "C08": ["pm-nx"], "C09": ["pm"], "C10": ["pm-nsl"], "C11": ["pm"], "C12": ["pm"], "C19": ["pm"], "C20": ["pm"]}
for _p, _c in _INSIDE.items():
    PLAN[_p]["parts"] += on(*_c, scale=200)
    PLAN[_p]["rule"] += " A further part runs inside a procedural macro, on the compiler's tokens."

for _p in PLAN:
    if _p not in ("C16", "C17", "C18", "C21"):
        PLAN[_p]["parts"] += on("cx" if _p == "C08" else "cv", processes=True, guide={"quick": 12, "thorough": 240})
        PLAN[_p]["rule"] += " A further part is coverage-guided: the same checks on mutations of inputs that reached new code or new comparison outcomes in the instrumented library."

REF = "Trusts the independent reference lexer (harness/src/reflex.rs, written from the Rust reference) and unicode-ident's tables. "
TECHNIQUE = {
    "C01": ("fuzzing with crash, hang and stack oracles", "No text among the generated, enumerated and swept ones panics, aborts, overflows a 1 MiB stack or hangs; says nothing about texts not generated."),
    "C02": ("property-based testing against a reference lexer", REF + "Acceptance and the whole token tree are compared."),
    "C03": ("property-based testing against a reference lexer, literal-focused", REF + "Acceptance and every literal's text are compared; escapes and digits are enumerated over small alphabets."),
    "C04": ("property-based testing against a reference lexer and metamorphic insertion of white space and comments", REF),
    "C05": ("round-trip property-based testing", "Compares tokens before and after; needs no reference for the text."),
    "C06": ("property-based testing against a reference printer", "The reference printer is a few lines stating the documented format."),
    "C07": ("property-based testing with exhaustive small domains against an independent literal decoder", "8 and 16 bit integers and all characters are covered completely, wider types by sampling with boundary values."),
    "C08": ("property-based testing against an independent literal decoder", "Trusts the reference decoder (harness/src/refval.rs)."),
    "C09": ("exhaustive character sweep and property-based testing against string semantics", "Trusts unicode-ident's XID tables (the crate the language's definition is taken from)."),
    "C10": ("stateful model-based testing of constructors and accessors", "Every character is tried as punctuation; histories are sampled."),
    "C11": ("stateful model-based testing against plain vectors", "Histories are sampled, not enumerated."),
    "C12": ("stateful model-based testing under a counting allocator, AddressSanitizer and bounded stacks", "Leaks and double frees are seen on the histories generated."),
    "C13": ("stateful model-based testing of the source map", REF),
    "C14": ("model-based testing of span algebra", REF),
    "C15": ("property-based testing against a reference lexer's error position", REF),
    "C16": ("differential testing between build configurations", "Compares builds of the same source with each other; a fault common to all builds is left to the other properties."),
    "C17": ("differential testing inside a real procedural macro", "Runs inside rustc's own macro host; trusts the installed compiler. Inputs on which rustc's own lexer documentedly differs are excluded by a stated rule."),
    "C18": ("stateful model-based testing of backend selection inside and outside a procedural macro", "Trusts the installed compiler's proc_macro server."),
    "C19": ("property-based testing against a reference renderer", "The reference renderer reads tokens only through accessors."),
    "C20": ("property-based testing against a reference lexer", REF),
    "C21": ("metamorphic property-based testing of counted work at doubling sizes", "Work is counted in control-flow edges, copied and requested bytes; a system call or a scan inside the C library would not be seen. Sizes reach about 2^15 characters or 2^14 tokens."),
}
PENDING = {}
