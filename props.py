"""What each check builds, and what its cases are.

groups: the groups of hooks of /repo it needs (see /repo's src/verif.rs).
builds: `checked` has overflow checks, debug assertions and the standard
library's checks of unsafe preconditions; `release` is what users ship; `debug`
is unoptimized; `asan` and `tsan` are release builds under that sanitizer;
`steps` is a release build which counts the blocks it runs.
"""

EXPR = ("Expressions: all strings over 'a ( ) | (?' up to a length, all pairs of ASCII characters in small "
        "contexts, control-verb variants, and seeded random, mutated, long (up to past 16,000 bytes) and deeply "
        "nested ones")

PROPS = {
    "C01": {
        "groups": [],
        "builds": ["checked", "release", "debug"],
        "rule": EXPR + "; flags over all 2^11 sets, all modes, sets of expressions with matching and mismatched "
                "parameter lengths. Distinct: by text shape and flags; every non-empty input counts as non-trivial.",
        "assumptions": ["a thread with the default 8 MiB main-thread stack", "one compilation ends within 60 s of CPU time"],
    },
    "C02": {
        "groups": [],
        "rule": EXPR + "; each verdict is compared with an independent recognizer. Distinct: by text shape and flags.",
    },
    "C03": {
        "groups": [],
        "rule": EXPR + "; only refused ones count, each message and index is compared with the reference. Distinct: by text shape.",
    },
    "C04": {
        "groups": ["trace", "trace_graph", "trace_reports", "trace_smwr"],
        "optional": ["trace", "trace_graph", "trace_reports", "trace_smwr"],
        "rule": "Sets of up to thousands of expressions, flags and ids, with faulty members at random places; "
                "lengths of the three lists over a grid; the limit on the number of expressions from both sides; "
                "what each member becomes is compared, in traces, with what it becomes on its own. "
                "Distinct: by members, flags and ids.",
    },
    "C05": {
        "groups": [],
        "rule": "All pairs over 13 expression kinds, flags and ids; ids differing in one bit; random and large sets "
                "with far-apart conflicts. Distinct: by (id, SINGLEMATCH) sequence.",
    },
    "C06": {
        "groups": ["parse"],
        "rule": EXPR + "; the observed tree is compared with that of a reference parser, node by node. Distinct: by text.",
    },
    "C07": {
        "groups": ["parse", "charset"],
        "optional": ["parse", "charset"],
        "rule": "All characters under all flags, all pairs of characters, all single bytes and byte pairs as sets, "
                "random expressions and sets. Distinct: by characters and flags, or by set.",
    },
    "C08": {
        "groups": ["trace"],
        "rule": "Expressions and sets compiled with tracing on; the trace of literals is compared with the reference. "
                "Distinct: by text and flags.",
    },
    "C09": {
        "groups": ["trace", "trace_graph"],
        "rule": "Expressions and sets compiled with tracing on; the vertices of each graph are compared with the reference. "
                "Distinct: by text and flags.",
    },
    "C10": {
        "groups": ["charset"],
        "rule": "All byte ranges, all pairs of bytes, and random histories of operations; after each operation the set is "
                "compared with a boolean array. Distinct: by set.",
    },
    "C11": {
        "groups": ["charset"],
        "rule": "Empty, full, all pairs, all ranges and their complements, random sets of many densities; predicates are "
                "recomputed by definition over 256 bytes. Distinct: by set.",
    },
    "C12": {
        "groups": ["literal"],
        "rule": "All elements, all two-element sequences, random and long ones, compared pairwise against vectors of "
                "(byte, case) pairs. Distinct: by sequence.",
    },
    "C13": {
        "groups": ["report", "trace", "trace_keys", "trace_reports"],
        "optional": ["report", "trace", "trace_keys", "trace_reports"],
        "rule": "Random histories of a report manager against a reference, its limits, and the reports and keys seen in the trace "
                "of compilations. Distinct: by history.",
    },
    "C14": {
        "groups": ["grey", "holder", "smwr", "trace", "trace_reports", "trace_smwr"],
        "optional": ["grey", "holder", "smwr", "trace", "trace_reports", "trace_smwr"],
        "rule": "Random histories of a small-write builder against a reference trie, exact limits of its size, and "
                "compilations traced. Distinct: by the literals added.",
    },
    "C15": {
        "groups": ["charset", "component", "dump", "holder", "literal", "report", "scan", "smwr", "trace", "trace_graph", "trace_link", "trace_reports", "trace_smwr", "util", "wiring"],
        "optional": ["charset", "component", "dump", "holder", "literal", "report", "scan", "smwr", "trace", "trace_graph", "trace_link", "trace_reports", "trace_smwr", "util", "wiring"],
        "bare": True,
        "builds": ["checked", "asan"],
        "miri": True,
        "rule": "Calls of every kind the library has (compilations alone, in sets and in threads, scans, and all "
                "internal types), under Miri with tree borrows, AddressSanitizer, and the standard library's checks of "
                "unsafe preconditions. Distinct: by the arguments.",
        "assumptions": ["aliasing is judged by tree borrows: stacked borrows rejects the dependency petgraph itself",
                        "behaviour inside dependencies counts where this library's calls reach it"],
    },
    "C16": {
        "groups": ["rose", "trace", "trace_graph", "trace_reports", "trace_smwr"],
        "optional": ["rose", "trace", "trace_graph", "trace_reports", "trace_smwr"],
        "bare": True,
        "builds": ["checked", "release", "tsan"],
        "rule": "Compilations after histories of others, in up to dozens of threads released together, and of shared "
                "inputs and databases; each result is compared with that of a fresh, sequential run. Under "
                "ThreadSanitizer too. Distinct: by inputs.",
        "assumptions": ["interleavings are those the scheduler made, with seeded yields and delays"],
    },
    "C17": {
        "groups": ["rose"],
        "rule": "The whole table of resources of the choice of the runtime, all modes, and databases compiled from random "
                "expressions and sets. Distinct: by resources and mode.",
    },
    "C18": {
        "groups": ["rose", "scan"],
        "rule": "Databases of random expressions scan random data with and without state, alone and shared by threads; "
                "database, data and state are compared before and after. Distinct: by database and data.",
    },
    "C19": {
        "groups": [],
        "rule": EXPR + "; a counting allocator meters each compilation. Distinct: by text shape.",
        "assumptions": ["memory is what goes through the global allocator"],
    },
    "C20": {
        "groups": ["util"],
        "rule": "All 8 and 16 bit values, random wide ones of every magnitude, all pairs near the ends of depths. "
                "Distinct: by value.",
    },
    "C21": {
        "groups": ["component", "dump"],
        "optional": ["component"],
        "rule": "All ranges of bytes, all pairs, random sets; dumped text is read back by an independent parser. Trees of "
                "expressions as for C06. Distinct: by set or text.",
    },
    "C22": {
        "groups": ["expr", "parse"],
        "optional": ["expr", "parse"],
        "rule": "All 2^11 sets of flags on fixed texts, random flags and texts with and without control verbs. "
                "Distinct: by flags and verb.",
    },
    "C23": {
        "groups": ["wiring"],
        "rule": "All single connections between kinds of position under all assertion flags, random histories and large "
                "graphs, compared with a reference. Distinct: by connections.",
    },
    "C24": {
        "groups": ["grey", "trace"],
        "optional": ["trace"],
        "rule": "Compilations under random limits near the sizes of their inputs, from both sides. Distinct: by limits and "
                "sizes.",
    },
    "C25": {
        "groups": ["grey", "trace", "trace_graph", "trace_reports", "trace_smwr"],
        "optional": ["trace_graph", "trace_reports", "trace_smwr"],
        "rule": "Compilations under random settings of the tuning knobs; verdict, message and content are compared with "
                "those under the defaults. Distinct: by input and setting.",
    },
    "C26": {
        "groups": ["component", "trace", "trace_graph", "trace_reports"],
        "rule": "Trees of components of all sizes and depths with classes of all kinds, alone and in sets: all classes of one "
                "or two bytes and all ranges, literals of one case and of mixed case, alternations; walks, literals and "
                "graphs are compared with a reference. Distinct: by tree.",
    },
    "C27": {
        "groups": ["holder"],
        "rule": "All sets of edges among the special vertices, random histories of edges, vertices and reports; what the graph "
                "tells is recomputed from them. Distinct: by history.",
    },
    "C28": {
        "groups": [],
        "builds": ["steps", "release"],
        "rule": "Families of expressions and sets, each of a small member and one sixteen times as large: pieces again "
                "and again, nested, one run after another, in control verbs, with a fault at the end; sets which take "
                "turns among a few expressions, with match IDs of several kinds. Blocks of code executed, bytes "
                "asked for and CPU time are compared. Distinct: by pieces and flags.",
        "assumptions": ["blocks of the precompiled standard library are not counted: only CPU time tells of them",
                        "CPU time is judged with a wide margin, and only when it stays beyond it"],
    },
}
