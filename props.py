"""What each check runs. Used by check.py and tools/gen_manifest.py.

A step is (kind, binary, options):
  native  debug build of the harness and of /repo's crates (debug assertions, overflow checks);
          check.py runs a quarter of it again on a build without either ("release")
  asan    the same workload under AddressSanitizer
  tsan    the same workload under ThreadSanitizer (std instrumented too)
  miri    a small workload (--mini) under Miri
options: scale (quick, thorough) multiplies the number of cases; runs (quick, thorough) is the
number of Miri runs, each with its own workload seed; many: scheduler seeds per Miri run.
"""

COMBI_RULE = (
    "random combinator trees (depth-bounded, all combinator kinds, leaves that consume before "
    "failing, recoverable and terminating errors) with inputs biased to sentences of the tree; "
)


def native(bin, **o):
    return ("native", bin, o)


def asan(bin, **o):
    return ("asan", bin, o)


def tsan(bin, **o):
    return ("tsan", bin, o)


def miri(bin, **o):
    return ("miri", bin, o)


PROPS = {
    "C01": dict(
        steps=[native("combi", scale=(8, 150))],
        technique="runtime monitor: outcome of generated grammars compared with an independent reference interpreter",
        rule=COMBI_RULE + "non-trivial: a distinct (tree, input) whose run was compared with the reference and involves more than a single primitive",
        note="Every compared run had exactly the reference's value, error, error class and remaining input. Trusts the reference interpreter in harness/src/grammar.rs.",
    ),
    "C02": dict(
        steps=[native("combi", scale=(8, 150))],
        technique="runtime monitor: terminating errors injected at leaves and callbacks, outcome and invocation log compared with a reference",
        rule=COMBI_RULE + "non-trivial: a distinct (tree, input) in which a terminating error was produced or nearly so; for terminating outcomes the (parser, position) log must end at the failing call",
        note="As C01; the invocation log shows that nothing runs after a terminating error.",
    ),
    "C03": dict(
        steps=[native("combi", scale=(8, 150))],
        technique="runtime monitor: (parser, position) event log compared with a reference interpreter's log",
        rule=COMBI_RULE + "non-trivial: a distinct (tree, input) with at least one recovery from a failed attempt",
        note="The complete invocation log of every run equals the one fixed by the standard meaning.",
    ),
    "C04": dict(
        steps=[native("combi", scale=(8, 150))],
        technique="runtime monitor: by-reference, by-value, mixed and repeated uses of generated parsers compared with fresh copies",
        rule=COMBI_RULE + "histories of several uses with drops and panics in between; non-trivial: distinct (tree, inputs)",
        note="parse, parse_once and mixtures chosen per node agree, also after abandoned uses.",
    ),
    "C05": dict(
        steps=[native("combi", scale=(8, 150))],
        technique="runtime monitor: same parse over segmented, suspending inputs compared with the contiguous run; executor detects stalls",
        rule=COMBI_RULE + "random cuts (with empty pieces) and suspensions of every sequence operation; non-trivial: distinct (tree, input, cut)",
        note="A suspended parse that is not woken although its input is ready is reported as a stall.",
    ),
    "C06": dict(
        steps=[native("combi", scale=(4, 80))],
        technique="runtime monitor: matchers against a prefix oracle, exhaustive short patterns x inputs x cuts plus random ones",
        rule="all patterns up to 2 and inputs up to 3 characters over 7 characters of 1-4 bytes, every cut, plus random longer ones and other element types; non-trivial: distinct (pattern, input, cut)",
        note="Exhaustive only for the small alphabet and lengths named in the rule.",
    ),
    "C07": dict(
        steps=[native("combi", scale=(8, 150))],
        technique="runtime monitor: expression trees compared with textbook precedence climbing over the token list",
        rule="random operator tables (mixed associativity, equal and extreme precedences) and chains; non-trivial: distinct chain with two or more operators",
        note="Trusts the precedence-climbing oracle in harness/src/grammar.rs.",
    ),
    "C08": dict(
        steps=[native("combi", scale=(8, 150))],
        technique="runtime monitor: rest, reason and error of binary expressions compared with a scan of the token list",
        rule="random operator chains with dangling operators, missing operands and terminating errors at any position; non-trivial: distinct chain",
        note="As C07.",
    ),
    "C11": dict(
        steps=[native("combi", scale=(4, 80)), asan("combi", scale=(0.5, 8)), miri("combi", runs=(2, 16))],
        technique="runtime monitor: value ledger over parses dropped at every suspension and panicking in every callback; AddressSanitizer and Miri subsets",
        rule=COMBI_RULE + "each parse is dropped at each suspension and re-run with a panic in each callback invocation (bounded per case); non-trivial: distinct (tree, input)",
        note="Releases are counted by the harness's own ledger; memory errors by ASan/Miri.",
    ),
    "C09": dict(
        steps=[native("small", scale=(4, 60))],
        technique="runtime monitor: small-vector histories compared step by step with a list model, with a counting allocator",
        rule="random operation histories over element types of size 0 to 64, over-aligned ones and tracked ones, inline capacities 0 to 9; non-trivial: distinct history that spills or drops elements",
        note="Heap use is seen through the harness's counting global allocator.",
    ),
    "C10": dict(
        steps=[native("small", scale=(4, 60)), asan("small", scale=(0.3, 5)), miri("small", runs=(4, 24))],
        technique="runtime monitor: small-vector histories under an element ledger and layout-checking allocator, AddressSanitizer and Miri",
        rule="random operation histories as for C09, dropped at any point; non-trivial: distinct history that spills or drops elements",
        note="Undefined behaviour only as far as ASan and Miri see it in the executed histories.",
    ),
    "C12": dict(
        steps=[native("combi", scale=(8, 150))],
        technique="runtime monitor: iterative pipelines compared with list-pipeline semantics, including callback logs",
        rule="random stage stacks over random item parsers and sources, collect and fold; non-trivial: distinct (pipeline, input)",
        note="Trusts the list-pipeline reference in harness/src/iter.rs.",
    ),
    "C14": dict(
        steps=[native("notify", secs=(120, 600)), tsan("notify", scale=(0.1, 1), secs=(120, 900)), miri("notify", runs=(1, 4), many=(16, 64), flags="-Zmiri-preemption-rate=0.1")],
        technique="runtime monitor: wait/notify histories checked step by step, races on real threads checked from recorded logs, ThreadSanitizer and Miri (scheduler seeds) watching data published only by a notification",
        rule="histories of create, poll (changing wakers, re-entrant wakers), drop and notify on one thread, and races of 2-8 threads with injected delays; non-trivial: distinct history or race outcome",
        note="Thread interleavings are sampled: by the OS with injected delays, and by Miri's scheduler.",
    ),
    "C15": dict(
        steps=[native("stream", scale=(8, 150)), asan("stream", scale=(0.3, 3)), miri("stream", runs=(1, 16))],
        technique="runtime monitor: stream histories compared with a model of the handed-over items, ASan and Miri subsets",
        rule="random histories of load, commit, advance and enumeration over random pieces, policies and writer use; non-trivial: distinct history with at least two loads",
        note="Sources use the public writer interface only.",
    ),
    "C16": dict(
        steps=[native("stream", scale=(8, 150))],
        technique="runtime monitor: load reports compared with the visible and accepted item counts observed around each load",
        rule="random histories as for C15 ending in or past the end; non-trivial: distinct history",
        note="Visibility is observed through a full enumeration after every load.",
    ),
    "C17": dict(
        steps=[native("stream", scale=(8, 150)), asan("stream", scale=(0.3, 3)), miri("stream", runs=(2, 16))],
        technique="runtime monitor: source errors, cancellations and panics injected at every step of a load, model and value ledger, ASan and Miri subsets",
        rule="random histories with faults injected before, during and after writes; non-trivial: distinct faulty history",
        note="Items are tracked by the harness's ledger.",
    ),
    "C18": dict(
        steps=[native("stream", scale=(8, 150))],
        technique="runtime monitor: consumer histories compared with a list model",
        rule="random interleavings of advances, partial enumerations and commits; non-trivial: distinct history",
        note="Single consumer thread; concurrent consumers are C19.",
    ),
    "C19": dict(
        steps=[
            native("stream", secs=(120, 900)),
            tsan("stream", scale=(0.3, 3), secs=(120, 900)),
            miri("stream", runs=(1, 4), many=(16, 64), flags="-Zmiri-preemption-rate=0.1"),
        ],
        technique="ThreadSanitizer and Miri scheduler seeds over producer/consumer races, with order, monotonicity, visibility and release monitors",
        rule="one loading thread and one or more reading threads with random delays and either side dropped first; non-trivial: distinct observed interleaving summary",
        note="Interleavings are sampled, not enumerated.",
    ),
    "C20": dict(
        steps=[native("utf8", scale=(4, 60)), asan("utf8", scale=(0.2, 2)), miri("utf8", runs=(1, 12))],
        technique="runtime monitor: every delivered piece checked for validity and the delivered bytes compared with the input, with errors, cancellations and suspensions injected",
        rule="short words over character-class representatives in every cut, plus random texts and cuts, with writer capacities from 1 up; non-trivial: distinct (text, cut, faults)",
        note="Trusts std's UTF-8 validation as the oracle.",
    ),
    "C21": dict(
        steps=[native("utf8", scale=(4, 60))],
        technique="runtime monitor: outcome over invalid byte sequences compared with std's validation",
        rule="short byte words over class representatives in every cut, mutated and truncated texts; non-trivial: distinct (bytes, cut) that is not valid UTF-8",
        note="Trusts std's UTF-8 validation as the oracle.",
    ),
    "C22": dict(
        steps=[
            native("ondemand", secs=(120, 900)),
            asan("ondemand", scale=(0.2, 2)),
            miri("ondemand", runs=(1, 8), many=(16, 64), flags="-Zmiri-preemption-rate=0.1", args=["--part", "threads"]),
            miri("ondemand", runs=(4, 40), flags="-Zmiri-preemption-rate=0.1", args=["--part", "declare"]),
        ],
        technique="runtime monitor: producer steps injected at every point of each read and advance, stall detection by a recording executor; thread races and Miri scheduler seeds",
        rule="every placement of append/signal/declare steps around every poll and every callback into the stream for small plans, random longer plans, and producer/consumer threads with delays; non-trivial: distinct plan and placement in which data or completion arrives during an operation",
        note="Placements are exhaustive only for the small plans; thread interleavings are sampled.",
    ),
    "C23": dict(
        steps=[native("text", scale=(3, 40))],
        technique="runtime monitor: metering compared with a direct count over the whole text, over texts and cuts",
        rule="short texts over terminator characters, multi-byte and other characters in every cut, plus random longer ones; non-trivial: distinct (style, text, cut)",
        note="Only meters that start at the beginning of the text.",
    ),
    "C24": dict(
        steps=[native("text", scale=(8, 100))],
        technique="runtime monitor: recogniser outputs compared with a direct reading of the text so far",
        rule="all short texts over LF, CR and other characters plus random longer ones for each style; non-trivial: distinct (style, text)",
        note="The oracle looks at the text's last two characters only.",
    ),
    "C25": dict(
        steps=[native("text", scale=(3, 40)), miri("text", runs=(1, 8))],
        technique="runtime monitor: measured histories compared with the bare input and with metering the consumed part afresh",
        rule="random histories of advance, peek, anchor and rewind over text and slices, with starting meters, and parses of generated grammars; non-trivial: distinct history",
        note="The meters used record the exact text they were given.",
    ),
    "C26": dict(
        steps=[native("text", scale=(3, 40)), miri("text", runs=(2, 16))],
        technique="runtime monitor: input histories compared with an index model; unrelated and adjacent anchors must be refused; Miri subset",
        rule="random histories of advance, peek, anchor and rewind over text and slices of several element sizes, and anchors from copies, neighbours and other inputs; non-trivial: distinct history",
        note="Anchors of other zero-sized-element slices or empty inputs at the same address are indistinguishable and not judged. Advancing text inside a character is only checked for soundness.",
    ),
    "C27": dict(
        steps=[native("depth", scale=(1, 20), secs=(300, 800))],
        technique="runtime monitor: long inputs and streams on a 256 KiB stack, with the stack addresses of callbacks and destructors compared between short and long runs",
        rule="flat grammars over contiguous and cut inputs, and stream lives, of 100,000 to 300,000 elements (2,000,000 when thorough); non-trivial: distinct (kind, grammar)",
        note="A stack overflow ends the process by signal and is reported as a violation.",
    ),
    "C28": dict(
        steps=[native("reactive", scale=(4, 60)), asan("reactive", scale=(0.1, 2)), miri("reactive", runs=(1, 8))],
        technique="runtime monitor: predicate tests and receptions of every delivery compared with a model; subscription and value ledger; AddressSanitizer and Miri subsets",
        rule="random histories of subscribe, emit, release and drop over filter stacks of depth 0 to 3 with stateful predicates, panics and callbacks that subscribe or release; non-trivial: distinct history with passed and rejected items",
        note="Single thread; the subject is the harness's own.",
    ),
    "C29": dict(
        steps=[native("combi", scale=(4, 80))],
        technique="runtime monitor: classification and unwrapping of generated nestings compared with a direct case model",
        rule="random nestings of the wrappers over error payloads, selections and unwraps of both sides; non-trivial: distinct (nesting, payload)",
        note="Either/EitherBoth over Never-like payloads are only exercised where the type is inhabited.",
    ),
    "C30": dict(
        steps=[native("combi", scale=(6, 120)), native("ondemand", secs=(120, 900))],
        technique="runtime monitor: parses whose further input never arrives must complete when the reference interpreter says that what arrived decides them",
        rule=COMBI_RULE + "for each input every arrived prefix, with and without its end, in random cuts; long inputs; literals and any-matchers over every prefix; parses of chains and refusals over the on-demand sequence; non-trivial: distinct (tree, input, arrived prefix) that is decided before the end",
        note="What decides a parse is the furthest element the reference interpreter looked at. Trusts the reference interpreter in harness/src/grammar.rs.",
    ),
    "C31": dict(
        steps=[native("cost", scale=(1, 5))],
        technique="runtime monitor: sequence operations, allocator calls and bytes, and CPU time of the same flat workload at two sizes, compared",
        rule="every flat grammar, stream life, vector, notification, validation and metering workload at 2,000 and 64,000 elements (256,000 when thorough); non-trivial: distinct workload",
        note="A factor 4 over linear is allowed for CPU time (best of four runs), 1.25 for sequence operations, 1.5 for allocations and 2.5 for bytes; only work far from linear is reported.",
    ),
    "C32": dict(
        steps=[native("stream", scale=(6, 100)), native("cost", scale=(1, 5))],
        technique="runtime monitor: live-item ledger compared after every stream operation with the pieces the consumer has left behind; peak memory of long runs compared with short ones",
        rule="random stream histories of tracked items as for C15 to C18, with the consumer dropped half-way; the workloads of C31 that consume as they go; non-trivial: distinct history in which pieces were left behind, distinct workload",
        note="One piece of delay is tolerated, as stated.",
    ),
    "C33": dict(
        steps=[native("idle", scale=(6, 100)), native("ondemand", secs=(120, 900)), miri("idle", runs=(1, 6))],
        technique="runtime monitor: suspended operations polled only when woken, with polls and wakes counted while every producer stands still, and the latest waker checked when one goes on",
        rule="random notification histories; loads over sources, also validated ones, that suspend at random points; random parses over suspending and incomplete inputs; random histories of the on-demand sequence; a new waker for each poll or one for all; non-trivial: distinct history or (tree, input) with suspensions",
        note="Up to 32 polls in a row are tolerated where the code needs one (at most three for the on-demand sequence).",
    ),
}
