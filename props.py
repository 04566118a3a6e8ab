"""What each property's check builds and runs."""
GCC = ["-std=c++17", "-O1", "-g", "-DNDEBUG"]
RT = ("sim.cpp", "g++", ["-std=c++17", "-O2", "-g", "-fno-builtin-malloc"])
LINK = ["g++", "-no-pie", "-Wl,-z,now"]
LIBS = ["-ldl", "-lpthread"]


TICK = ["-fsanitize-coverage=trace-pc"]  # a call of the simulator at every basic block


def simple(*mods):
    return {"units": [RT] + [(m, "g++", GCC + TICK) for m in mods], "link": LINK, "libs": LIBS}


def cat(cc, flags, **kw):
    """The operation catalogue, compiled with the given flags."""
    f = ["-std=c++17", "-g", "-DNDEBUG"] + flags
    u = [("cat_world.cpp", cc, f), ("cat_scalar.cpp", cc, f), ("cat_io.cpp", cc, f)]
    for m in ("cat_vec.cpp", "cat_mat.cpp", "cat_geo.cpp"):
        u += [(m, cc, f), (m, cc, f + ["-DCAT_FLOAT"])]
    return u


def autoinit(how, ns):
    return ["-O0", "-ftrivial-auto-var-init=" + how, "-Dvm=vm" + ns, "-Dcatns=cat" + ns]


MODCAT = ["-std=c++17", "-O1", "-g"]
BINARIES = {
    "race": {"units": [RT, ("race.cpp", "g++", ["-std=c++17", "-O2", "-g", "-fno-builtin-malloc", "-fno-builtin-calloc", "-fno-builtin-realloc"]), ("mod_cat.cpp", "g++", MODCAT)]
             + cat("clang++", ["-O1", "-fsanitize=thread"]), "link": LINK, "libs": LIBS},
    "history": {"units": [RT, ("mod_cat.cpp", "g++", MODCAT)] + cat("g++", ["-O2"] + TICK), "link": LINK, "libs": LIBS},
    "dirty": {"units": [RT, ("mod_cat.cpp", "g++", MODCAT + ["-DCAT_TWO"])]
              + cat("g++", autoinit("zero", "A")) + cat("g++", autoinit("pattern", "B")),
              "link": LINK, "libs": LIBS},
    "live": {"units": [RT, ("mod_live.cpp", "g++", GCC + TICK)] + cat("g++", ["-O1"] + TICK), "link": LINK, "libs": LIBS},
    "stream": simple("mod_stream.cpp"),
    "parse": simple("mod_parse.cpp"),
    "range": simple("mod_range.cpp"),
    "alloc": simple("mod_alloc.cpp"),
    "memory": {"units": [RT, ("mod_alloc.cpp", "g++", GCC + ["-DWITH_CAT"] + TICK)] + cat("g++", ["-O1"] + TICK), "link": LINK, "libs": LIBS},
}

COMMON = [
    "A clean batch is evidence, not proof: runs are sampled from the seed.",
    "The library is compiled as its baseline build compiles it with respect to assertions (NDEBUG); workloads respect "
    "its documented preconditions.",
    "The standard library, the compiler and the C library are trusted.",
]


def P(binary, quick, rule, stubs, must_fire, extra=(), real=None, cap=100, tcap=700, thorough=None):
    return {
        "binary": binary,
        "quick": {"runs": quick, "cap": cap},
        "thorough": {"runs": thorough or quick * 25, "cap": tcap},
        "rule": rule, "stubs": stubs, "must_fire": must_fire,
        "assumptions": COMMON + list(extra),
        "real": real or ["all of /repo/include/vecmath that the operations reach, unmodified, compiled from the working tree"],
    }


PROPS = {
    "C01": P("stream", 400000,
             "Cases: 1-3 tasks inserting vectors, matrices, boxes, lines, planes, rays and approximate values into "
             "streams with random formatting state; the device behind the stream fails or throws at a chosen byte, "
             "once or for good, accepts bytes in chunks, re-enters the library, or the stream has already failed.",
             ["stream device (std::streambuf) under simulator control", "standard output and error: recorded"],
             ["sink-error-permanent", "sink-error-transient", "sink-exception-permanent",
              "sink-exception-transient", "sink-reenters-library", "stream-already-failed",
              "insertion-cut-short", "retry-after-failure"],
             ["Field width is left at zero: which part of the text it pads is not part of the property."]),
    "C02": P("parse", 400000,
             "Cases: 1-4 tasks own adjacent slots of one storage page and parse texts that end flush with their "
             "slot, so that live or stale bytes of a neighbour, or an inaccessible page, follow directly, or begin "
             "flush with a read-only page behind an inaccessible one; the oracle is the same bytes alone.",
             ["storage page shared by the tasks, with guard pages"],
             ["live-bytes-behind-text", "stale-tail-of-longer-record", "inaccessible-byte-behind-text",
              "inaccessible-byte-before-text",
              "parsed-something"]),
    "C03": P("parse", 400000,
             "Cases: 1-3 tasks write values or lists of values with enough digits through a simulated disk with short "
             "writes and a crash after a chosen byte, then parse what survived; the oracle is the list of values "
             "written and where each of their numbers lies in the text.",
             ["disk behind the stream: short writes, torn tail after a crash"],
             ["crash-torn-write", "short-write", "torn-record-dropped", "last-component-torn", "intact-round-trip"]),
    "C04": P("range", 400000,
             "Cases: 1-3 tasks deliver parsed records or vertices to outputs that fail at a chosen delivery or "
             "re-enter the library, from sources that may fail; oracle: the complete in-order list.",
             ["output iterators and single-pass sources under simulator control"],
             ["output-failure", "source-read-failure", "output-reenters-library"]),
    "C05": P("range", 400000,
             "Cases: 1-3 tasks run the range algorithms on single-pass sources (or multi-pass ones where two passes "
             "are documented) with getters; reads, advances and getter calls fail at chosen positions.",
             ["iterators and getters under simulator control"],
             ["source-read-failure", "source-advance-failure", "getter-failure", "getter-reenters-library",
              "plane-from-range"]),
    "C06": P("range", 400000,
             "Cases: 1-3 tasks visit the faces, edges and vertices of boxes with callbacks that fail at a chosen call, "
             "re-enter the library, return values nobody asked for, keep state in themselves, or are used up when called "
             "as a temporary.",
             ["callbacks under simulator control"],
             ["callback-failure", "callback-reenters-library"],
             ["Boxes have extents whose corner arithmetic is exact, so that corners can be compared exactly."]),
    "C07": P("memory", 200000,
             "Cases: 1-3 tasks run the operations that allocate, and any operation of the catalogue, with the k-th "
             "allocation (or a burst) failing, three times each, then once with memory available.",
             ["global allocator: fails chosen allocations, fills and poisons blocks, counts live blocks per task"],
             ["alloc-failure", "operation-failed-cleanly", "allocating-catalogue-operation"]),
    "C08": P("alloc", 400000,
             "Cases: histories of up to 15 operations per task over pools of polygons and segments (construct, copy, "
             "move, self-assign, invert, translate, transform, convert) with failing allocations; a cyclic-sequence "
             "model is compared after every operation.",
             ["global allocator: fails chosen allocations, fills and poisons blocks"],
             ["alloc-failure", "history-continues-after-failure", "exact-transform"]),
    "C09": P("range", 400000,
             "Cases: histories of up to 10 operations per task over pools of bounds builders with sources and getters "
             "that fail midway; a min/max model is compared after every operation.",
             ["sources and getters under simulator control"],
             ["source-read-failure", "getter-failure", "range-failed-at-first", "range-failed-midway"]),
    "C10": P("race", 150000,
             "Cases: 2-4 tasks call operations of the catalogue (every public function, several sizes and component "
             "types) on shared const operands; every access to memory outside a task's stack is a scheduling point "
             "and is checked for races by happens-before; allocations and getters fail at chosen calls; results are "
             "compared with a serial run in a fresh process.",
             ["memory accesses, atomics, locks, static-initialisation guards and allocations of the code under test "
              "are scheduling points (compiler instrumentation with the simulator's own runtime)"],
             ["alloc-failure", "getter-failure"],
             ["Code of the standard library that is not inlined (stream formatting) is not instrumented."]),
    "C11": P("history", 120000,
             "Cases: histories of catalogue calls, each compared with the same call in a process where nothing ran "
             "before; operands are overwritten in place, copied, aliased, or differ in one component from those of "
             "earlier calls; earlier calls fail by injected allocation and getter failures; calls are repeated up to "
             "280, rarely 5000 or 65580, times; process-wide state and output are compared after each call. Clocks, "
             "random numbers, process ids and environment variables of a run differ from those of its reference "
             "processes (faults clock-stall, clock-jump, random-number, environment-variable, file-appears fire only if the library "
             "asks for them; on the unchanged tree it does not). The caller's locales are not the default objects and its "
             "rounding mode is a directed one in a fifth of the runs; both must survive every call, as must signal handlers, "
             "the set-up of the standard streams, environment variables and the rand() and random() sequences.",
             ["global allocator and getters under simulator control",
              "clocks, sleeps, random numbers, process id, environment variables, files: drawn from the run's seed",
              "standard output and error: recorded"],
             ["alloc-failure", "getter-failure", "operands-overwritten-in-place", "operands-not-aliased",
              "long-repetition", "very-long-repetition", "caller-c++-locale", "caller-c-locale",
              "caller-rounding-mode"]),
    "C12": P("dirty", 160000,
             "Cases: each catalogue call is executed four times with different contents of the unused stack, of fresh "
             "heap blocks and of uninitialised automatic variables (two builds that preset them differently); all "
             "results must be identical.",
             ["contents of stack, heap blocks and uninitialised variables before use"],
             ["stack-contents", "getter-failure", "alloc-failure"]),
    "C29": P("live", 200000,
             "Cases: 1-3 tasks run operations of the catalogue on operands of ordinary and extreme magnitude, parse "
             "arbitrary bytes, compute hulls and polygons of up to 300 points and ranges of up to 600, call scalar "
             "functions with any finite bit pattern, and nest library calls in callbacks, getters and outputs up to "
             "five deep; callbacks and allocations fail; tasks are pre-empted between basic blocks. An operation "
             "that exceeds a step budget depending on the operand size only, or waits for a lock nobody can "
             "release, is a violation.",
             ["global allocator, callbacks, getters, outputs; a step counter at every basic block of the library "
              "(compiler instrumentation), which is also the pre-emption point"],
             ["callback-failure", "alloc-failure", "getter-failure", "extreme-magnitudes", "callback-used-the-library",
              "ended-by-a-failure"],
             ["Operands are finite and respect documented preconditions (coplanar points for hulls).",
              "Non-inlined code of the standard library counts no steps; a loop inside it is bounded by CPU time."]),
}
