#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that check.py and the table below list."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, ROOT)
import check  # noqa: E402

CXX = " Trusts g++ and the reference machine (harness/model)."
ROS = " ROS itself is replaced by scripted stand-ins (stubs/), which this check trusts, as it does g++ and the reference machine."
CHECKS = {
    "P01": ("stateful property-based testing of compiled tests against a reference machine", "Every generated animate test is compiled and played its forbidden history, its deviations and random histories; no absence guarantee beyond them. Values beyond C++ int/unsigned int are excluded (known finding)." + CXX),
    "P02": ("model-based property testing: combined test against each member's own reference machine", "Random factorised trees over at most eight members, played every member's history and random ones." + CXX),
    "P03": ("model-based property testing of publications per callback, with non-identity conversions", "Inputs sent are compared step by step, on ROS and animate." + ROS),
    "P04": ("generated callback schedules run against a scripted ROS and a reference machine", "The harness owns the schedule, so runs are deterministic; schedules of up to about 35 callbacks." + ROS),
    "P05": ("property-based testing: generated projects built with their own build files", "Builds use g++ with C++ flags of the generated files and stand-ins for ROS and catkin; building against real ROS isn't possible here."),
    "P06": ("property-based testing against a reference CSV model", "Tool run as a black box; output is decoded independently and compared in full."),
    "P07": ("property-based testing against a reference naming model, with prefix metamorphic relation", "Tool run as a black box on sequences made to clash."),
    "P08": ("metamorphic property testing over messy notations, with round trips", "Suites of messy and canonical notation must be identical, and canonical events survive every later stage."),
    "P09": ("property-based testing: near-well-formed trees against a reference predicate", "Both directions of the equivalence are checked; ill-formed nodes are planted at any depth."),
    "P10": ("property-based testing: structural isomorphism oracle over generated trees", "The machine is compared with the tree node for node."),
    "P11": ("property-based testing against a reference type model, with permutation relation", "Types and rejections are compared with the reference; permuted suites must agree."),
    "P12": ("metamorphic property testing: reruns, removed and reordered tests, moved variants", "Runs of the real tools are compared file by file apart from dates. Go's random map order is sampled by repeated runs, not controlled."),
    "P13": ("grammar-based and mutation fuzzing with an independent malformedness oracle", "Mutations of valid inputs and noise for all four input formats; malformed inputs are known by construction or by independent parsers."),
    "P14": ("stateful property testing: file tree model over sequences of runs", "File trees before and after each run are compared with a model; the tool runs as an unprivileged user in a scratch directory."),
    "P15": ("property-based testing with differential baseline and compiled type assertions", "Included lines are found by comparison with generation without includes; types are checked by compiling assertions." + ROS),
    "P16": ("property-based testing: metadata parsed and compared with a model", "package.xml is parsed as XML and CMakeLists.txt as CMake commands."),
    "P17": ("differential property testing of input channels and of rtcg.sh", "File, '-' and omitted input are compared byte for byte, dates apart."),
    "P18": ("round-trip property testing in process", "Suites are built through the library's types, written and read back."),
    "P19": ("round-trip and rejection property testing in process", "Expansion then collapse; mutated chains must be rejected exactly when a reference predicate says so."),
    "P20": ("property-based testing in process against a reference grouping", "All traces over small alphabets with shared prefixes."),
    "P21": ("property-based testing of advertised and subscribed topics against a naming model", "Topics are observed from running tests." + ROS),
    "P22": ("algebraic law testing in process over nearly equal events and traces", "Laws are checked on pairs and triples, and against canonical text."),
    "P23": ("fault injection over generated suites and configurations", "Each fault is injected in a separate run as an unprivileged user; faults at close time (deferred write errors) aren't reachable."),
    "P25": ("model-based property testing of typed input: prompts, refusals and outcome against the reference machine", "Every generated animate test is compiled and given generated typing, cut off anywhere. Empty enumeration values aren't typed." + CXX),
    "P26": ("model-based property testing of logs: each fact stated, in order, against the reference machine", "Facts are read from the log of compiled tests by their wording; values have no line breaks." + ROS),
    "P27": ("model-based property testing: random state machines compiled and played against an interpreter", "Each event is tried in each state that can be reached, besides random walks of up to 60 steps and a few of up to 1000; machines have up to 24 states." + ROS),
    "P28": ("property-based testing with generated faults in state machine suites of any shape", "Suites have at most two faults, of the kinds that the property lists."),
    "P24": ("algebraic law testing in process against a reference order of types", "Results of unification in random orders and groupings are compared with the least upper bound."),
}

claimed = [p for p in sorted(CHECKS) if p in check.PROPS]
doc = dict(
    version=1,
    setup_cmd="bash tools/setup.sh",
    checks=[dict(property=p, quick_cmd="./check.sh " + p, thorough_cmd="VERIF_TIER=thorough ./check.sh " + p, technique=CHECKS[p][0],
                 level="exploration", level_note=CHECKS[p][1]) for p in claimed],
    not_applicable=[dict(property=p, reason="Its check is not built yet.") for p in sorted(CHECKS) if p not in check.PROPS],
    notes="check.sh PROPERTY [--replay FILE] decides one property of /repo's working tree; DESIGN.md explains. No hooks are needed in /repo.",
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
