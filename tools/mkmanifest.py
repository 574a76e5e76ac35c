"""Writes MANIFEST.json."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "conformance: TLC replays recorded executions of the crate, built in 8 configurations, against the TLA+ specification (Trace)"
# property -> technique, what it assures
T = {
    "C01": ("TLA+ model of the reading machine (MC_Machine: it terminates, stays inside) checked with TLC; " + TRACE + " with tests that TLC generated, damaged, deep and odd texts",
            "Every panic, crash or hang in the driven executions is reported. Nesting beyond 500 levels is a recorded finding."),
    "C02": ("TLA+ grammar (MC_Grammar: machine = declarative grammar for all token sequences up to a bound) checked with TLC; all those sequences and random ones: " + TRACE,
            "Exhaustive for token sequences of at most 5 (7) tokens of the kits in the model; the crate is driven with those sequences and with random longer ones."),
    "C03": ("TLA+ lexer (MC_Lex) checked with TLC for all short texts; those texts, hard decimals and random literals: " + TRACE,
            "The value of a literal is compared bit for bit with the JDK's correctly rounded decimal conversion."),
    "C04": ("TLA+ lexer and name resolution (MC_Lex) checked with TLC; generated and random names and contexts: " + TRACE,
            "Exhaustive for short texts of the kit; sampled for names and contexts."),
    "C05": ("TLA+ grammar of calls (MC_Grammar, kit call) checked with TLC; all those sequences, all arities, all ways of making functions: " + TRACE + ", with the calls that the user's functions received",
            "Calls are recorded by the functions themselves, in order, with their arguments."),
    "C06": ("TLA+ grammar and lexer (Spacing, Munch) checked with TLC; respaced variants of generated and random inputs: " + TRACE,
            "Each variant is judged against the specification; what fails in the tight variant as well isn't counted here."),
    "C07": ("TLA+ grammar's errors (MC_Grammar Labelled, MC_Machine Inside) checked with TLC; all erroneous short token sequences and damaged texts: " + TRACE + ", with message and label",
            "The message, the label and the source of every error are compared with the specification's."),
    "C08": ("TLA+ evaluation (MC_Eval) checked with TLC; operators on all pairs of special values and random expressions: " + TRACE + ", bit for bit",
            "IEEE arithmetic comes from the JDK, powf and the library functions from the same Rust toolchain's standard library."),
    "C09": ("TLA+ evaluation and simplification (MC_Eval, MC_Simplify Needs) checked with TLC; expressions evaluated with all, fewer and more variables: " + TRACE, "Bounded and sampled."),
    "C10": ("TLA+ simplification rules (MC_Simplify: sound for all trees and assignments of a small domain; unsound rules are caught) checked with TLC; those trees and random ones in optimized and plain builds: " + TRACE,
            "The values of optimized builds are compared with those of the specification's meaning wherever the evaluation is regular."),
    "C11": ("TLA+ simplification (MC_Simplify) checked with TLC; partial simplification in all orders and by all methods: " + TRACE, "Bounded and sampled."),
    "C12": ("TLA+ model of binding (MC_Bind: substitution by position; sequential substitution is caught) checked with TLC; all binding methods: " + TRACE, "Bounded and sampled."),
    "C13": ("TLA+ system model (MC_System: lookups after all histories of 4 (5) operations; aliasing variants are caught) checked with TLC; histories simulated by TLC and random ones: " + TRACE, "Exhaustive for short histories in the model; simulated histories of 14 operations in the crate."),
    "C14": ("TLA+ system model (MC_System, declarations) checked with TLC; declared sets and random expressions: " + TRACE, "Bounded and sampled."),
    "C15": ("TLA+ model of threads sharing an expression (MC_Threads: all interleavings; shared-state variants are caught) checked with TLC; concurrent and repeated runs: " + TRACE, "Interleavings are exhaustive in the model, as the scheduler gives them in the crate."),
    "C16": ("TLA+ display and grammar (MC_Grammar RoundTrip) checked with TLC; displayed expressions read again: " + TRACE, "Bounded and sampled."),
    "C17": ("TLA+ model of equality (MC_Eq: all pairs of small trees; wrong swapping is caught) checked with TLC; pairs of swapped and mutated trees: " + TRACE, "Bounded and sampled."),
    "C18": ("TLA+ evaluation with the library as a parameter (MC_Eval) checked with TLC; every built-in on special and random values: " + TRACE + ", bit for bit, with the standard library of the same toolchain", "Transcendental functions are as right as the standard library; which one is called, and how, is decided."),
    "C19": ("TLA+ model of bound expressions as functions (MC_Bind; dynamic scoping is caught) checked with TLC; nested definitions: " + TRACE, "Bounded and sampled."),
    "C20": ("TLA+ model of the REPL's dialogue (MC_Repl: answers and termination; 4 flawed ones are caught) checked with TLC; dialogues with the REPL itself: conformance of the recorded answers with the specification (Trace)", "The REPL is driven in 4 configurations, interactively and with whole inputs."),
    "C21": ("TLA+ model of simplification's ownership under panics (MC_Ownership; 3 flawed ones are caught) checked with TLC; functions that panic while parsing, simplifying, binding and evaluating: " + TRACE, "Whether allocations are intact is told by a counting allocator in the harness."),
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh",
               "checks": [{"property": p, "quick_cmd": f"python3 tools/check.py {p}", "thorough_cmd": f"python3 tools/check.py {p} thorough",
                           "evidence_file": f"evidence/{p}.json", "technique": t, "level": "model_checking", "level_note": n}
                          for p, (t, n) in sorted(T.items())],
               "not_applicable": [],
               "notes": "No hooks: the harness uses the crate's public interface, and the REPL is driven as a process. See DESIGN.md."}, f, indent=1)
    f.write("\n")
