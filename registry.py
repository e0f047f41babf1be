"""What each property's check is built from.  MANIFEST.json is generated from this table (python3 registry.py)."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
DESC = dict(
    traps="explicit-state exploration of operation sequences on the real trap managers; oracle: height-resolved reference model",
)

# id -> dict(kind, src, defs, variants, technique, note)
CHECKS = {}


def cpp(pid, src, technique, note, defs=None, **kw):
    CHECKS[pid] = dict(kind="cpp", src=src, defs=defs or ["PROP=%d" % int(pid[1:])], technique=technique, note=note, **kw)


TR = "explicit-state DFS over all packet/state-operation sequences on the real trap managers"
cpp("P01", "traps", TR + "; charge balance monitored on every transition",
    "exhaustive to depth 4-5 over 34 trap sets x 6 wells x 2 dwells, 5-6 packet sizes and save/restore/empty/prune; floating-point balance to 1e-9 relative")
cpp("P02", "traps", TR + "; validity invariant checked in every state",
    "exhaustive to depth 4-5 (thorough: more packets); bookkeeping sized exactly for the depth explored, library assertions on")
cpp("P03", "traps", TR + "; every transition replayed against a height-resolved reference model",
    "depth 6 (thorough 8); trusts the 100-line reference in lib/ref.hpp")
cpp("P04", "traps", TR + "; every transition replayed against a height-resolved population model",
    "depth 5 (thorough 7); the population law is the library's own table (tables are decided by P23) and, for 120 configurations, an independent numerical integration")
cpp("P05", "traps", TR + "; bisimulation with fresh managers given the effective history",
    "depth 5 (thorough 7) on single managers, 3-4 on the combined two-phase manager with copies")
cpp("P06", "traps", TR + "; pruned and unpruned twins compared on all continuations",
    "depth 5 (thorough 6); the drift bound is 3x the charge moved, for traps sparse against the packets")

RD = "exhaustive enumeration of small images and clocking configurations, executed on the real library"
cpp("P07", "readout", RD + "; every column replayed on a literal array of physical pixels",
    "14 trap sets x 5 wells x every column over 2-6 charge levels up to 8 rows (300 columns per size; thorough 4000), pairs of bright pixels in 24 (45) rows, x offset/prescan/overscan")
cpp("P08", "readout", RD + "; every run replayed on an independent evaluation of the documented procedure",
    "all schedule options in combination, 1-4 phases, every column over 2-5 charge levels up to 6 rows (thorough 8); 2-3 rows up to 999 transfers away and columns of 26 rows for every express of a list")
cpp("P09", "readout", RD + "; charge balance against the literal simulation's trap content",
    "as P07 plus every mode for finiteness and sign; recovery with 70 (thorough 110) rows")
cpp("P10", "readout", RD + "; all pairs of columns sharing a prefix, all rearrangements",
    "relational: every column over 3 levels x 3-4 rows (thorough 4-5), 1-3 phases; reversed, permuted and single columns")
cpp("P11", "readout", RD + "; replayed on a sequential reference through shared traps",
    "every image up to 4 pixels over 3 levels (thorough 6 pixels over 4), 1-4 OpenMP threads")
cpp("P13", "readout", RD + "; every window of every small image",
    "all windows of 2-4 (thorough 5) rows and of 3x4 images in both directions")
cpp("P14", "readout", RD + "; every offset/prescan/overscan position, against prepended rows and the literal array",
    "offset 0-3, prescan 0-2 (thorough 0-4, 0-3), overscan at every row, 1-4 (5) rows")
cpp("P15", "readout", RD + "; every pair of direction settings, relational",
    "13 x 13 settings of the two directions (quick: the pairs with one default plus a quarter), 4 image shapes")
cpp("P19", "readout", RD + "; replayed on literal pump cycles and on the documented schedule",
    "2-4 phases, 1-5 (thorough 7) pumps, every express, 1-3 rows, every column over 3-4 levels")
cpp("P20", "readout", RD + "; every iterate compared with iterating add_cti",
    "0-5 iterations x 8 settings x 3 direction choices; contraction on 14 images per trap set")
cpp("P24", "readout", RD + "; all call histories of length 3 (thorough 4) on shared objects",
    "6 kinds of call; settings of every object compared after every call; every pair (thorough triple) of 18 changes of argument or setting on shared objects; verbosity -1..3")
cpp("P25", "readout", RD + "; every permutation, split and padding of the species list",
    "10 trap sets x 5 wells x 7-10 modes x 81 columns")

RO = "exhaustive enumeration of readout settings"
cpp("P16", "roe", RO + "; multiplier ledgers summed for every row of every configuration",
    "rows up to 18 (thorough 32), every express, offset, prescan, overscan, first-transfer and integer option; standard, injection and pumping")
cpp("P18", "roe", "enumeration of every clock sequence as a transition system of one cloud over phases and pixels",
    "1-12 phases (thorough 24), standard and pumping sequences, both release options; potential-diagram oracle written independently")
cpp("P26", "roe", "exhaustive exploration of copy/assign/mutate histories over live objects",
    "all histories of depth 4-5 (thorough 5-6) over ROE, CCD, phase and trap objects; every object's whole behaviour compared after each operation")
cpp("P29", "util", "exhaustive enumeration of small images, file corruptions, ranges and clock readings",
    "every image shape and value from a grid, every single-line corruption of the file, all start/stop/step grids")

TB = "exhaustive grid enumeration"
cpp("P22", "tables", TB + " of the well-filling law, and every small readout of detectors whose phases all differ, replayed on an independent reference",
    "1000 wells x 1200 packet sizes (thorough 12000); 1-4 phases from every ordered choice of wells and trap shares, every column of 3 rows over 3 (4) levels")
cpp("P23", "tables", TB + " of every table interval, compared with an independent quadrature",
    "297 populations x 3 ranges x up to 3 table sizes x 3 capture times; every node region, range edges and beyond; the managers' own tables through a drain history")

cpp("P21", "memory", "exhaustive enumeration of small valid calls under address and undefined-behaviour sanitizers",
    "6 families of calls: every setting with 1-4 phases, 11 trap sets, images of 1-4 rows (thorough 6), windows, both directions, add and remove, verbosities, long columns, threads",
    variants={"quick": ["asan"], "thorough": ["asan"]})

WRAP = "-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc free memcpy memmove memset __cxa_guard_acquire __cxa_guard_release".split())
cpp("P12", "threads", "exhaustive enumeration of team sizes and thread orders under a controlled scheduler, with conflict detection on every memory access (no conflict: every interleaving is equivalent to an explored one)",
    "2-4 threads, all orders of the threads of each region; 6 trap sets, all modes, 1-5 columns; read-noise images up to 5 x 6 (thorough 6 x 7)",
    variants={"quick": ["tsan"], "thorough": ["tsan"]}, extra=["sched.cpp"], link=[WRAP])



def py(pid, src, technique, note, **kw):
    CHECKS[pid] = dict(kind="py", src=src, technique=technique, note=note, **kw)


PY = "exhaustive enumeration of small Python calls on the wrapper built from the working tree"
py("P27", "pyif", PY + "; every result replayed on the C++ library called directly",
    "every trap list up to 3 of 5-7 species, all clocking flags and types, all windows of 3x4 images, pruning, sign policy, array types and layouts, extras")
py("P28", "pybounce", PY + "; every row replayed on a superposition of closed-form oscillations",
    "108 oscillators x every row of 1-5 (thorough 6) pixels over 3 levels, all windows of 3x5 images, 0-5 removal iterations, array types")
CHECKS["P30"] = dict(kind="cpp", src="noise", technique=RD.replace("clocking configurations", "noise settings") + " under address and undefined-behaviour sanitizers, and " + PY + "; neighbourhood step replayed on its definition",
    note="every image up to 2x3 / 3x3 over 3 levels x noise amplitudes; every option of the separation on small images",
    parts=[dict(kind="cpp", src="noise", defs=["PROP=30"], variants={"quick": ["asan"], "thorough": ["asan"]}), dict(kind="py", src="pynoise")])
py("P31", "pyacs", "exhaustive enumeration of dates on a grid with every boundary bracketed; replayed on the published laws",
    "every half day for 60 years from launch, every boundary bracketed to one ulp, every order of two calls; the correction replayed on the C++ library with the published numbers")
py("P32", "cli", "exhaustive enumeration of option sequences executed on the compiled program in scratch directories, with every outcome of its surroundings; replayed on independent option rules",
    "every sequence of up to 3 (thorough 4) words from 21-42 spellings, every exit status of fetching, unwritable and full files, damaged inputs", cli=True)

py("P33", "pycov", PY + "; every element replayed on the definition of a covariance",
    "every pair of bright pixels in images of the smallest three sizes in each direction, all 4x4 (thorough 4x5) images over two levels, all borders up to 2, array types and layouts")
py("P34", "pyvv", PY + "; replayed on overscans synthesised in closed form or by the compiled model",
    "3 detectors x 3 trap lists x 4 densities x 3 biases x noise x prescans x transverse regions x starting biases x 4 forms of call, both directions")
py("P35", "pytraps", "exhaustive enumeration of trap species, detector sizes and seeds on a grid; every population replayed on the species it is drawn from",
    "120 species x 4 sizes x 60 (thorough 400) seeds")

cpp("P36", "refuse", RD.replace("clocking configurations", "consistent and contradictory settings") + ", each in a child process, and " + PY + "; every outcome replayed on the rules of consistency",
    "every combination of type, steps, phases, fractions, prescan, overscan and active rows, in each direction, adding and removing; Python objects likewise")
CHECKS["P36"]["parts"] = [dict(kind="cpp", src="refuse", defs=["PROP=36"]), dict(kind="py", src="pyrefuse")]

NOT_APPLICABLE = {}


def manifest():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    for p in props:
        c = CHECKS.get(p["id"])
        if c:
            checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"],
                               evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level="model_checking", level_note=c["note"]))
    na = [dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "check not built yet")) for p in props if p["id"] not in CHECKS]
    return dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
                notes="Every check compiles /repo/src (and, for the Python properties, /repo/python) from the working tree into /verif/build and runs 8 shards of an exhaustive exploration.")


if __name__ == "__main__":
    json.dump(manifest(), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
