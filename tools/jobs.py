"""What each check runs: harness entry, its arguments (the bounds), the points of the harness that
must be reached, and the bounds in words."""
import os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATES = {"harness": "xharness", "conc/harness": "xconc"}
ENTRIES = {}
for c in CRATES:
    for f, names in re.findall(r'"(c\d+)" c\d+: ([^;]*);', open(os.path.join(HERE, c, "src", "main.rs")).read()):
        ENTRIES[f] = names.split()


def J(entry, args, what, covers=(1,), opts=()):
    return {"entry": entry, "args": [int(x) for x in str(args).split(",")], "what": what, "covers": list(covers), "opts": list(opts)}


def S(feature, quick, thorough=(), crate="harness", **kw):
    return dict(feature=feature, crate=crate, bin=CRATES[crate], quick=quick, thorough=list(thorough), **kw)


ASSUME = [
    "rustc's LLVM IR at -O1 (the optimiser's first half) stands for the code: the same crate, opt-level 1, fat LTO, overflow checks and debug assertions on",
    "the hash keys of HashMap are fixed (VERIF_SEED chooses them); native replays use random ones",
    "allocation never fails; every allocation is its own object, so an access past its end is always seen",
    "unwinding runs landing pads as the IR says; the panic hook does nothing",
    "Z3 and the engine's expression simplifier are right (natively replayed samples check the engine end to end)",
]
OUTSIDE = [
    "more entities, operations or component types than the bounds of the jobs say",
    "component types whose own Drop or Clone panics or calls back into the world",
]
CONC = [
    "parking_lot is replaced by a stand-in on the same lock_api: a lock is granted as parking_lot 0.12 grants it, a queued writer keeps new readers out, downgrading is atomic",
    "threads switch only where a lock is requested: what xecs shares is behind these locks (it has no atomics of its own)",
]

G = {0: "full-owning", 1: "partial-owning", 2: "non-owning"}


def c01(order):
    q = [
        J("h_c01", "5,2,%d" % order, "every history of up to 5 operations: create, batch create of 0-1, remove, remove through a handle; any id asked"),
        J("h_c01", "6,1,%d" % order, "every history of up to 6 operations with empty batches"),
        J("h_c01_reuse", "4,2,%d,1" % order, "4 entities (some in one batch), 2 removals in any order, up to 3 creations, a batch in between, a refused removal of any id", covers=(1, 7)),
        J("h_c01_wide", "16,%d" % order, "21 entities, 2 removals, 3 creations"),
        J("h_c01_far", "130,%d,0" % order, "130 entities at once, any of them and the first removed, a batch of up to 2 and 3 more created"),
        J("h_c01_far", "130,%d,1" % order, "130 entities at once, two of 14 ids around powers of two removed"),
    ]
    t = [
        J("h_c01", "7,2,%d" % order, "every history of up to 7 operations"),
        J("h_c01", "6,3,%d" % order, "every history of up to 6 operations with batches of 0-2"),
        J("h_c01_reuse", "5,3,%d,1" % order, "5 entities, 3 removals in any order, up to 4 creations", covers=(1, 7)),
        J("h_c01_far", "290,%d,0" % order, "290 entities at once, any of them removed"),
        J("h_c01_wide", "40,%d" % order, "45 entities, 2 removals, 3 creations"),
    ]
    return q, t


SETS = {
    0: "no group", 1: "full(A,B)", 2: "partial(A,B)", 3: "non(A,B)",
    4: "full(A,B) non(A,B) non(B,C)", 5: "partial(A,B) partial(B,C) partial(C,A)",
    6: "non(A,B) non(B,A) partial(C,A)", 7: "non(B,C) full(A,B) partial(C,A)",
    8: "partial(B,A) non(C,A) partial(A,B)", 9: "full(B,A) non(B,C)",
}

JOBS = {}
_q, _t = c01(0)
JOBS["C01"] = S("c01", _q, _t)
_q, _t = c01(1)
JOBS["C02"] = S("c01", _q, _t)

JOBS["C03"] = S("c03", [
    J("h_c03_ops", "2,4,2", "2 entities, 4 arbitrary operations on 2 types, from nothing"),
    J("h_c03_ops", "3,2,3", "3 entities, 2 arbitrary operations on 3 types"),
    J("h_c03_routes", "3,2,0,0", "every arrangement of A on 3 entities, 2 operations by every route (world, handle, guards, query)"),
    J("h_c03_routes", "3,2,0,1", "the same, a type owning heap memory"),
    J("h_c03_routes", "3,1,0,2", "the same, a zero-sized type"),
    J("h_c03_routes", "3,1,0,3", "the same, an over-aligned type"),
    J("h_c03_routes", "3,1,0,5", "the same, a type of one byte"),
    J("h_c03_routes", "3,1,0,6", "the same, a type of 200 bytes"),
    J("h_c03_routes", "3,2,0,7", "every arrangement on 3 entities, 2 operations by every route, a type of 200 bytes owning heap memory"),
    J("h_c03_routes", "4,1,0,4", "every arrangement on 4 entities, 1 operation"),
    J("h_c03_wide", "16", "16 entities attached in 4 orders, arbitrary entity operated on"),
    J("h_c03_far", "130,0,1", "3 owners far apart among 130 entities, one of them any entity; 1 operation"),
    J("h_c03_far", "130,1,0", "3 owners among 130 entities, in any order, their ids among 14 around powers of two; no further operation"),
    J("h_c03_wide", "130", "130 entities attached in 4 orders, arbitrary entity operated on"),
], [
    J("h_c03_far", "130,1,1", "3 owners among 130 entities, in any order, their ids among 14 around powers of two; 1 operation"),
    J("h_c03_far", "270,0,1", "3 owners far apart among 270 entities, one of them any entity; 1 operation"),
    J("h_c03_ops", "2,5,2", "2 entities, 5 arbitrary operations on 2 types"),
    J("h_c03_ops", "3,4,2", "3 entities, 4 arbitrary operations on 2 types"),
    J("h_c03_routes", "4,2,0,0", "every arrangement on 4 entities, 2 operations by every route"),
    J("h_c03_routes", "3,3,0,1", "every arrangement on 3 entities, 3 operations by every route"),
    J("h_c03_wide", "40", "40 entities"),
])

JOBS["C04"] = S("c04", [
    J("h_c04", "3,1,0,0", "every arrangement of 3 entities, 1 operation, every view, any id looked up", covers=(1, 2, 3)),
    J("h_c04", "2,2,0,1", "a type owning heap memory", covers=(1, 2, 3)),
    J("h_c04", "2,1,0,2", "a zero-sized type", covers=(1, 2, 3)),
    J("h_c04", "2,1,0,3", "an over-aligned type", covers=(1, 2, 3)),
    J("h_c04", "2,1,0,4", "a type of one byte", covers=(1, 2, 3)),
    J("h_c04", "2,1,0,5", "a type of 200 bytes", covers=(1, 2, 3)),
    J("h_c04_group", "2,1,0", "A in a full-owning group", covers=(1, 2, 3)),
    J("h_c04_group", "2,1,1", "A in a partial-owning group", covers=(1, 2, 3)),
    J("h_c04_group", "2,1,2", "A in a non-owning group", covers=(1, 2, 3)),
    J("h_c04_wide", "12", "12 entities, half of them owners, attached in 4 orders"),
    J("h_c04_far", "130,0,0,0", "3 owners far apart among 130 entities, one of them any entity; each loses its component in turn"),
    J("h_c04_far", "130,1,0,0", "3 owners among 130 entities, in any order, their ids among 14 around powers of two; each loses its component in turn"),
    J("h_c04_wide", "130", "130 entities, half of them owners"),
], [
    J("h_c04_far", "130,1,0,2", "3 owners among 130 entities, in any order, their ids among 14 around powers of two; partial(A,B)"),
    J("h_c04_far", "130,0,1,1", "3 owners far apart among 130 entities, one of them any entity; 1 operation, full(A,B)"),
    J("h_c04", "3,2,0,0", "every arrangement of 3 entities, 2 operations"),
    J("h_c04", "4,1,0,0", "every arrangement of 4 entities, 1 operation"),
    J("h_c04_group", "3,1,0", "3 entities, full-owning group, 1 operation"),
    J("h_c04_group", "3,1,1", "3 entities, partial-owning group, 1 operation"),
    J("h_c04_wide", "24", "24 entities"),
])

JOBS["C05"] = S("c05", [J("h_c05", "3,%d,0,%d" % (s, 0), "3 entities, any arrangement of A and B, groups made early or late: %s; any removed, id reissued" % SETS[s], covers=(1, 20)) for s in (1, 2, 3, 4, 5, 6, 7, 8)] + [
    J("h_c05", "3,5,0,1", "the same with any subset holding C, %s" % SETS[5], covers=(1, 20)),
    J("h_c05", "2,4,1,1", "2 entities, 1 operation before, %s" % SETS[4], covers=(1, 20)),
    J("h_c05_two", "3,5", "two removals (also through handles), 5 types, %s" % SETS[5]),
    J("h_c05_two", "3,7", "two removals (also through handles), 5 types, %s" % SETS[7]),
    J("h_c05_wide", "16,5", "16 entities, %s" % SETS[5]),
    J("h_c05_far", "130,0,1", "3 owners far apart among 130 entities, one of them any entity; one removed, then all, %s" % SETS[1]),
    J("h_c05_far", "130,0,2", "the same, %s" % SETS[2]),
    J("h_c05_far", "130,0,3", "the same, %s" % SETS[3]),
    J("h_c05_far", "66,1,5", "3 owners among 66 entities, ids around powers of two, %s" % SETS[5]),
    J("h_c05_wide", "130,5", "130 entities, %s" % SETS[5]),
    J("h_c05_wide", "16,1", "16 entities, %s" % SETS[1]),
], [J("h_c05", "3,%d,1,1" % s, "3 entities, 1 operation before, any subset holding C, %s" % SETS[s], covers=(1, 20)) for s in (1, 2, 3, 4, 5, 7)] +
    [J("h_c05", "4,%d,0,0" % s, "4 entities, %s" % SETS[s], covers=(1, 20)) for s in (1, 2, 3)] +
    [J("h_c05_far", "130,1,%d" % s, "3 owners among 130 entities, ids around powers of two, %s" % SETS[s]) for s in (1, 2, 3, 4, 6, 7, 8)] +
    [J("h_c05_two", "4,%d" % s, "4 entities, two removals, %s" % SETS[s]) for s in (1, 4, 6, 8)] +
    [J("h_c05_wide", "32,%d" % s, "32 entities, %s" % SETS[s]) for s in (2, 4, 7)])

JOBS["C06"] = S("c06", [
    J("h_c06", "3,2,0,0", "every arrangement of 3 entities, 2 operations; all four ways to iterate, any id looked up", covers=(1, 2, 3, 4)),
    J("h_c06", "4,1,0,0", "every arrangement of 4 entities, 1 operation", covers=(1, 2, 3, 4)),
    J("h_c06", "3,1,1,0", "the type in a full-owning group", covers=(1, 2, 3, 4)),
    J("h_c06", "3,1,2,0", "the type in a partial-owning group", covers=(1, 2, 3, 4)),
    J("h_c06", "3,1,0,1", "a type owning heap memory", covers=(1, 2, 3, 4)),
    J("h_c06", "3,1,0,2", "a zero-sized type", covers=(1, 2, 3, 4)),
    J("h_c06", "3,1,0,3", "an over-aligned type", covers=(1, 2, 3, 4)),
    J("h_c06", "3,1,0,4", "a type of one byte", covers=(1, 2, 3, 4)),
    J("h_c06", "3,1,0,5", "a type of 200 bytes", covers=(1, 2, 3, 4)),
    J("h_c06_wide", "16", "16 entities"),
    J("h_c06_far", "130,0,0,0", "3 owners far apart among 130 entities, one of them any entity; ids looked up"),
    J("h_c06_far", "130,1,0,1", "3 owners among 130 entities, in any order, their ids among 14 around powers of two; full(A,B)"),
    J("h_c06_wide", "130", "130 entities"),
], [
    J("h_c06_far", "130,0,1,0", "3 owners far apart among 130 entities, one of them any entity; 1 operation"),
    J("h_c06_far", "130,1,1,0", "3 owners among 130 entities, in any order, their ids among 14 around powers of two; 1 operation"),
    J("h_c06_far", "130,1,0,2", "3 owners among 130 entities, in any order, their ids among 14 around powers of two; partial(A,B)"),
    J("h_c06", "3,3,0,0", "3 entities, 3 operations", covers=(1, 2, 3, 4)),
    J("h_c06", "4,2,0,0", "4 entities, 2 operations", covers=(1, 2, 3, 4)),
    J("h_c06", "5,1,0,0", "5 entities, 1 operation", covers=(1, 2, 3, 4)),
    J("h_c06", "3,2,1,0", "full-owning group, 2 operations", covers=(1, 2, 3, 4)),
    J("h_c06", "3,2,2,0", "partial-owning group, 2 operations", covers=(1, 2, 3, 4)),
    J("h_c06_wide", "40", "40 entities"),
])

JOBS["C07"] = S("c07", [
    J("h_c07", "3,2,1,2", "tuples of two: every arrangement of both on 3 entities, 1 operation"),
    J("h_c07", "3,3,0,2", "tuples of three, also nested; 3 entities"),
    J("h_c07", "2,4,0,4", "tuples of four, also nested; every arrangement on 2 entities"),
    J("h_c07", "3,4,0,0", "tuples of four; every subset of 3 entities for every type"),
    J("h_c07", "2,5,0,5", "tuples of five, also nested; every arrangement on 2 entities"),
    J("h_c07_group", "3,0,0", "full-owning group as a term, 3 entities"),
    J("h_c07_group", "3,0,1", "partial-owning group as a term"),
    J("h_c07_group", "3,0,2", "non-owning group as a term"),
    J("h_c07_group", "2,1,0", "full-owning group as a term, 1 operation"),
    J("h_c07_look", "2", "any id looked up in tuples of two to five, also nested", covers=(1, 2, 3)),
    J("h_c07_wide", "16", "16 entities"),
    J("h_c07_far", "130,0,0,0", "3 owners far apart among 130 entities, one of them any entity; no group"),
    J("h_c07_far", "130,1,0,0", "3 owners among 130 entities, in any order, their ids among 14 around powers of two; no group"),
    J("h_c07_far", "130,0,0,1", "3 owners far apart among 130 entities, one of them any entity; full(A,B)"),
    J("h_c07_wide", "130", "130 entities"),
], [
    J("h_c07_far", "130,1,1,0", "3 owners among 130 entities, in any order, their ids among 14 around powers of two; 1 operation"),
    J("h_c07_far", "130,1,0,2", "3 owners among 130 entities, in any order, their ids among 14 around powers of two; partial(A,B)"),
    J("h_c07", "3,5,0,0", "tuples of five; every subset of 3 entities for every type"),
    J("h_c07", "4,2,1,2", "4 entities, 1 operation"),
    J("h_c07", "3,3,0,3", "tuples of three; every arrangement of all"),
    J("h_c07", "3,3,1,2", "tuples of three, 1 operation"),
    J("h_c07_group", "3,1,0", "3 entities, 1 operation, full-owning"),
    J("h_c07_group", "3,1,1", "3 entities, 1 operation, partial-owning"),
    J("h_c07_group", "3,1,2", "3 entities, 1 operation, non-owning"),
    J("h_c07_look", "3", "3 entities, any id looked up", covers=(1, 2, 3)),
    J("h_c07_wide", "40", "40 entities"),
])

JOBS["C08"] = S("c08", [
    J("h_c08", "3,2,1,2", "3 entities, every arrangement of both types, 1 operation"),
    J("h_c08", "3,3,0,2", "three types, tuples and nested exclusions"),
    J("h_c08", "2,5,0,2", "five types, exclusion of triples"),
    J("h_c08_group", "3,0,0", "full-owning group excluded or beside an exclusion"),
    J("h_c08_group", "3,0,1", "partial-owning group"),
    J("h_c08_group", "3,0,2", "non-owning group"),
    J("h_c08_look", "3", "any id looked up", covers=(1, 2, 3)),
    J("h_c08_far", "130,0,0,0", "3 owners far apart among 130 entities, one of them any entity; no group"),
    J("h_c08_far", "130,1,0,0", "3 owners among 130 entities, in any order, their ids among 14 around powers of two; no group"),
    J("h_c08_far", "130,0,0,1", "3 owners far apart among 130 entities, one of them any entity; full(A,B)"),
    J("h_c08_wide", "130", "130 entities"),
], [
    J("h_c08_far", "130,1,1,0", "3 owners among 130 entities, in any order, their ids among 14 around powers of two; 1 operation"),
    J("h_c08_far", "130,1,0,2", "3 owners among 130 entities, in any order, their ids among 14 around powers of two; partial(A,B)"),
    J("h_c08", "3,5,0,0", "five types, every subset of 3 entities"),
    J("h_c08", "3,3,1,2", "three types, 1 operation"),
    J("h_c08", "4,2,1,2", "4 entities, 1 operation"),
    J("h_c08_group", "3,1,0", "full-owning group, 1 operation"),
    J("h_c08_group", "3,1,1", "partial-owning group, 1 operation"),
    J("h_c08_group", "3,1,2", "non-owning group, 1 operation"),
    J("h_c08_look", "4", "4 entities, any id looked up", covers=(1, 2, 3)),
])

for g, p in ((0, "C09"), (1, "C10"), (2, "C11")):
    sets = {0: (1, 4, 7, 9), 1: (2, 5, 7, 8), 2: (3, 4, 6, 8)}[g]
    JOBS[p] = S("c09", [
        J("h_grp", "%d,3,1,0" % g, "%s group made before, between or after every arrangement of A and B on 3 entities, 1 operation; all eight ways to iterate" % G[g]),
        J("h_grp", "%d,3,0,1" % g, "any id looked up, before and during iteration", covers=(1, 2, 3)),
        J("h_grp_ops", "%d,3,3" % g, "3 arbitrary operations on 3 entities, the group made at any point"),
        J("h_grp_types", "%d,3,1,0" % g, "over-aligned and 2-byte components"),
        J("h_grp_types", "%d,3,1,1" % g, "zero-sized component second"),
        J("h_grp_types", "%d,3,1,2" % g, "zero-sized component first"),
        J("h_grp_types", "%d,3,1,3" % g, "the group of (B,A)"),
        J("h_grp_types", "%d,3,1,4" % g, "components of one and of 200 bytes"),
        J("h_grp_types", "%d,3,1,5" % g, "components of 200 bytes and of one"),
        J("h_grp_wide", "%d,10" % g, "10 entities, attached in several patterns"),
        J("h_grp_deep", "%d,130" % g, "groups of 87 of 130 entities, any of them losing a component, then every fifth"),
        J("h_grp_far", "130,0,0,%d" % (g + 1), "3 owners far apart among 130 entities, one of them any entity"),
        J("h_grp_far", "130,1,0,%d" % (g + 1), "3 owners among 130 entities, ids around powers of two"),
    ] + [J("h_grp_sets", "%d,2,1" % s, "2 entities, 1 operation, beside other groups: %s" % SETS[s]) for s in sets if s != 9], [
        J("h_grp", "%d,4,0,0" % g, "4 entities"),
        J("h_grp", "%d,3,2,0" % g, "3 entities, 2 operations"),
        J("h_grp", "%d,3,1,1" % g, "3 entities, 1 operation, any id looked up"),
        J("h_grp_ops", "%d,3,4" % g, "4 arbitrary operations on 3 entities"),
        J("h_grp_ops", "%d,2,5" % g, "5 arbitrary operations on 2 entities"),
        J("h_grp_types", "%d,3,2,0" % g, "over-aligned, 2 operations"),
        J("h_grp_wide", "%d,24" % g, "24 entities"),
        J("h_grp_far", "130,1,1,%d" % (g + 1), "3 owners among 130 entities, ids around powers of two, 1 operation"),
        J("h_grp_far", "66,0,0,%d" % (7, 5, 6)[g], "3 owners far apart among 66 entities, beside other groups"),
    ] + [J("h_grp_sets", "%d,3,1" % s, "3 entities, 1 operation: %s" % SETS[s]) for s in sets if s != 9])

JOBS["C12"] = S("c12", [J("h_c12", "2,%d,1,%d" % (s, t), "2 entities, any arrangement, 1 operation, groups made at any point: %s" % SETS[s]) for s, t in ((1, 2), (2, 2), (3, 2), (4, 3), (5, 3), (7, 3))] + [
    J("h_c12", "3,1,0,2", "3 entities, %s" % SETS[1]),
    J("h_c12", "3,5,0,3", "3 entities, %s" % SETS[5]),
    J("h_c12", "3,6,0,3", "3 entities, %s" % SETS[6]),
    J("h_c12", "3,8,0,3", "3 entities, %s" % SETS[8]),
    J("h_c12", "2,1,2,2", "2 entities, 2 operations, %s" % SETS[1]),
    J("h_c12_make", "3", "9 groups made of any arrangement of A and B on 3 entities"),
    J("h_c12_far", "130,0,1,0", "3 owners far apart among 130 entities, one of them any entity, %s" % SETS[1]),
    J("h_c12_far", "130,0,2,0", "the same, %s" % SETS[2]),
    J("h_c12_far", "130,0,3,1", "the same with 1 operation, %s" % SETS[3]),
    J("h_c12_far", "66,1,5,0", "3 owners among 66 entities, ids around powers of two, %s" % SETS[5]),
], [J("h_c12", "3,%d,1,%d" % (s, t), "3 entities, 1 operation, %s" % SETS[s]) for s, t in ((1, 2), (2, 2), (3, 2), (5, 3), (7, 3))] + [
    J("h_c12", "2,2,2,2", "2 entities, 2 operations, %s" % SETS[2]),
    J("h_c12", "2,4,2,3", "2 entities, 2 operations, %s" % SETS[4]),
    J("h_c12", "2,5,2,3", "2 entities, 2 operations, %s" % SETS[5]),
    J("h_c12_make", "4", "4 entities"),
    J("h_c12_far", "130,0,5,1", "3 owners far apart among 130 entities, one of them any entity, 1 operation, %s" % SETS[5]),
    J("h_c12_far", "130,1,1,1", "3 owners among 130 entities, ids around powers of two, 1 operation, %s" % SETS[1]),
])

JOBS["C13"] = S("c13", [
    J("h_c13", "2,0,0,3", "2 attempts out of 48 groups over 4 types, one of them unregistered; 3 entities", covers=(1, 22, 23)),
    J("h_c13", "2,1,0,3", "the same, all registered", covers=(1, 22, 23)),
    J("h_c13", "2,1,1,1", "an operation on the one entity after each attempt", covers=(1, 22, 23)),
], [
    J("h_c13", "2,1,1,2", "an operation after each attempt, 2 entities", covers=(1, 22, 23)),
    J("h_c13", "3,0,0,2", "3 attempts, one type unregistered", covers=(1, 22, 23)),
    J("h_c13", "3,1,0,2", "3 attempts, all registered", covers=(1, 22, 23)),
], par=2)

JOBS["C14"] = S("c14", [
    J("h_c14", "2,2,0,0", "up to 2 entities before, batches of up to 2, some with a component already, attached twice; no groups", covers=(1, 24)),
    J("h_c14", "1,3,1,0", "batches of up to 3, %s" % SETS[1], covers=(1, 24)),
    J("h_c14", "2,2,1,0", "%s" % SETS[1], covers=(1, 24)),
    J("h_c14", "2,2,2,1", "%s" % SETS[2], covers=(1, 24)),
    J("h_c14", "2,2,3,0", "%s" % SETS[3], covers=(1, 24)),
    J("h_c14", "1,2,5,0", "%s" % SETS[5], covers=(1, 24)),
    J("h_c14", "1,2,7,1", "%s" % SETS[7], covers=(1, 24)),
    J("h_c14", "1,2,0,2", "heap-owning and zero-sized types", covers=(1, 24)),
    J("h_c14", "1,2,0,3", "over-aligned and 2-byte types", covers=(1, 24)),
    J("h_c14", "1,2,0,4", "types of one and of 200 bytes", covers=(1, 24)),
    J("h_c14_len", "1,3,1", "vectors of any other length up to 5 for batches of up to 3", covers=(1, 7)),
    J("h_c14_wide", "10,1", "batch of 10 beside up to 9 entities, %s" % SETS[1]),
    J("h_c14_wide", "10,5", "batch of 10, %s" % SETS[5]),
    J("h_c14_wide", "130,5", "batch of 130, %s" % SETS[5]),
    J("h_c14_far", "64,64,1,4", "batches of 0 to 64 in steps of 4 behind 0 to 64 entities, %s" % SETS[1]),
    J("h_c14_far", "140,140,5,20", "batches of 0 to 140 in steps of 20 behind 0 to 140 entities, %s" % SETS[5]),
], [
    J("h_c14_far", "40,40,3,1", "batches of 0 to 40 behind 0 to 40 entities, %s" % SETS[3]),
    J("h_c14_far", "140,140,2,7", "batches of 0 to 140 in steps of 7, %s" % SETS[2]),
    J("h_c14", "2,3,1,0", "batches of up to 3, %s" % SETS[1], covers=(1, 24)),
    J("h_c14", "2,3,2,0", "batches of up to 3, %s" % SETS[2], covers=(1, 24)),
    J("h_c14", "2,3,3,0", "batches of up to 3, %s" % SETS[3], covers=(1, 24)),
    J("h_c14", "3,2,4,0", "%s" % SETS[4], covers=(1, 24)),
    J("h_c14", "2,3,0,2", "heap-owning and zero-sized types", covers=(1, 24)),
    J("h_c14_len", "2,4,5", "lengths up to 6", covers=(1, 7)),
    J("h_c14_wide", "20,3", "batch of 20, %s" % SETS[3]),
])

JOBS["C15"] = S("c15", [
    J("h_c15", "4,1", "every history of 4 registrations, replacements, writes and uses of components of the same types", covers=(1, 25)),
    J("h_c15", "4,0", "every history of 4 without components", covers=(1, 25)),
    J("h_c15_plain", "4", "two of 17 plain types of 0 to 240 bytes, some owning heap memory; 4 registrations and writes", covers=(1, 25)),
    J("h_c15_show", "4", "every history of 4 registrations and writes of two types; their guards shown by Display and Debug", covers=(1, 29)),
    J("h_c15_many", "0", "nine resource types at once, guards alive together", covers=(1, 25)),
], [
    J("h_c15", "5,0", "histories of 5", covers=(1, 25)),
    J("h_c15", "5,1", "histories of 5 with components", covers=(1, 25)),
], par=2)

JOBS["C19"] = S("c19", [
    J("h_c19", "2,3,1,0", "2 entities, any arrangement, 3 arbitrary operations, then the world dropped; every drop counted, heap empty at the end; values that own heap memory", covers=(1, 21)),
    J("h_c19", "3,2,1,1", "3 entities, 2 operations, values of more than 200 bytes", covers=(1, 21)),
    J("h_c19", "3,2,1,2", "the same, values of one byte", covers=(1, 21)),
    J("h_c19", "2,2,1,3", "2 entities, 2 operations, over-aligned values", covers=(1, 21)),
    J("h_c19", "4,1,1,0", "4 entities, 1 operation", covers=(1, 21)),
    J("h_c19_refused", "0", "values handed to operations that panic, any id"),
    J("h_c19_refused", "1", "the same, large values"),
    J("h_c19_refused", "2", "the same, values of one byte"),
    J("h_c19_wide", "12,0", "12 entities"),
    J("h_c19_wide", "12,1", "12 entities, large values"),
    J("h_c19_far", "130,2,0,0", "owners far apart among 130 entities, one of them any entity, 2 operations", covers=(21,)),
    J("h_c19_far", "130,2,1,0", "the same, large values", covers=(21,)),
    J("h_c19_wide", "70,0", "70 entities"),
    J("h_c19_wide", "70,2", "70 entities, values of one byte"),
], [
    J("h_c19_far", "130,3,0,0", "owners far apart among 130 entities, 3 operations", covers=(21,)),
    J("h_c19", "2,4,1,0", "2 entities, 4 operations", covers=(1, 21)),
    J("h_c19", "3,3,1,1", "3 entities, 3 operations, large values", covers=(1, 21)),
    J("h_c19", "3,3,1,2", "3 entities, 3 operations, values of one byte", covers=(1, 21)),
    J("h_c19_wide", "30,3", "30 entities, over-aligned values"),
])

JOBS["C20"] = S("c20", [
    J("h_c20", "2,2", "every history of 2 uses of registered and unregistered types", covers=(1, 27, 28)),
    J("h_c20", "2,3", "every history of 3 uses", covers=(1, 7, 26, 27, 28)),
    J("h_c20_late", "2", "registration at any point of a history", covers=(1,)),
], [
    J("h_c20", "2,4", "every history of 4 uses", covers=(1, 7, 26, 27, 28)),
    J("h_c20_late", "3", "registration at any point of a longer history"),
], par=2)

JOBS["C21"] = S("c21", [J("h_c21", "2,%d,0,0" % s, "2 entities in any arrangement, any refused operation, then everything used; %s" % SETS[s]) for s in (0, 1, 2, 3, 4, 5, 6)] + [
    J("h_c21", "2,1,1,0", "and an operation after, %s" % SETS[1]),
    J("h_c21", "1,5,0,1", "two refusals, 1 entity, %s" % SETS[5]),
], [J("h_c21", "2,5,0,1", "two refusals, %s" % SETS[5])] + [J("h_c21", "2,%d,1,1" % s, "two refusals and 1 operation, %s" % SETS[s]) for s in (1, 2, 3, 4)] + [
    J("h_c21", "3,%d,0,0" % s, "3 entities, %s" % SETS[s]) for s in (1, 2, 3, 5)])

JOBS["C22"] = S("c22", [
    J("h_c22", "2,0", "every mix of next and next_with_id, 14 query kinds, any subsets of 2 entities, hints all along, twice past the end", covers=(4,)),
    J("h_c22", "2,1", "any id looked up before, during and after iteration", covers=(2, 3, 4)),
    J("h_c22", "3,0,0,1", "3 entities", covers=(4,)),
    J("h_c22_group", "3,0,0,0", "9 queries with a full-owning group", covers=(4,)),
    J("h_c22_group", "3,0,1,0", "9 queries with a partial-owning group", covers=(4,)),
    J("h_c22_group", "3,0,2,0", "9 queries with a non-owning group", covers=(4,)),
    J("h_c22_group", "2,1,0,0", "lookups, full-owning", covers=(2, 3, 4)),
    J("h_c22_group", "2,1,1,0", "lookups, partial-owning", covers=(2, 3, 4)),
    J("h_c22_group", "2,1,2,0", "lookups, non-owning", covers=(2, 3, 4)),
    J("h_c22_adapters", "3", "with_id adapter, nth, count"),
    J("h_c22_far", "34,0,0,1", "3 owners far apart among 34 entities, one of them any entity, lookups, full-owning", covers=(2, 3, 4)),
    J("h_c22_far", "34,0,0,2", "the same, partial-owning", covers=(2, 3, 4)),
    J("h_c22_far", "34,0,0,3", "the same, non-owning", covers=(2, 3, 4)),
    J("h_c22_wide", "130,0", "130 items, full-owning", covers=(4,)),
    J("h_c22_wide", "130,1", "130 items, partial-owning", covers=(4,)),
    J("h_c22_wide", "130,2", "130 items, non-owning", covers=(4,)),
], [
    J("h_c22_far", "130,0,0,1", "3 owners far apart among 130 entities, lookups, full-owning", covers=(2, 3, 4)),
    J("h_c22_far", "130,0,0,2", "partial-owning", covers=(2, 3, 4)),
    J("h_c22_far", "130,0,0,3", "non-owning", covers=(2, 3, 4)),
    J("h_c22", "3,1,0,1", "3 entities, lookups", covers=(2, 3, 4)),
    J("h_c22", "3,0,0,0", "3 entities, any subset of C", covers=(4,)),
    J("h_c22_group", "3,1,0,0", "3 entities, lookups, full-owning", covers=(2, 3, 4)),
    J("h_c22_group", "3,1,1,0", "3 entities, lookups, partial-owning", covers=(2, 3, 4)),
    J("h_c22_group", "3,1,2,0", "3 entities, lookups, non-owning", covers=(2, 3, 4)),
    J("h_c22_group", "2,0,0,1", "an operation before, full-owning", covers=(4,)),
    J("h_c22_group", "2,0,1,1", "an operation before, partial-owning", covers=(4,)),
    J("h_c22_group", "2,0,2,1", "an operation before, non-owning", covers=(4,)),
    J("h_c22_adapters", "4", "4 entities"),
])

JOBS["C23"] = S("c23", [J("h_c23", "2,1,%d" % s, "2 entities, types of every kind, 1 operation, lookups of any id, %s; nothing leaked" % SETS[s]) for s in (0, 1, 2, 3, 5)] + [
    J("h_c23", "2,1,0,1", "2 entities, a type of 200 bytes owning heap memory, 1 operation"),
    J("h_c23", "2,1,1,1", "the same, %s" % SETS[1]),
    J("h_c23_refs", "3,5", "references kept while 5 entities and other storages grow", covers=(30, 31, 32, 33)),
    J("h_c23_ids", "3,1", "any id in every operation that takes one, %s" % SETS[1]),
    J("h_c23_ids", "3,3", "any id, %s" % SETS[3]),
    J("h_c23_ids", "2,5", "any id, %s" % SETS[5]),
    J("h_c23_show", "2,1,1", "the world shown by Debug with guards held, %s" % SETS[1]),
    J("h_c23_wide", "12,1", "12 entities, %s" % SETS[1], covers=(4,)),
    J("h_c23_wide", "12,5", "12 entities, %s" % SETS[5], covers=(4,)),
    J("h_c23_wide", "70,5", "70 entities, %s" % SETS[5], covers=(4,)),
    J("h_c23_far", "130,0,0,1", "3 owners far apart among 130 entities, one of them any entity, %s" % SETS[1], covers=(1, 4)),
    J("h_c23_far", "66,0,0,2", "the same among 66, %s" % SETS[2], covers=(1, 4)),
], [J("h_c23", "2,2,%d" % s, "2 operations, %s" % SETS[s]) for s in (1, 2, 3)] + [J("h_c23", "2,2,0,1", "2 operations, a large type owning heap memory")] +
    [J("h_c23", "3,1,%d" % s, "3 entities, 1 operation, %s" % SETS[s]) for s in (1, 2, 3, 4, 7)] +
    [J("h_c23_wide", "32,%d" % s, "32 entities, %s" % SETS[s], covers=(4,)) for s in (2, 7)] +
    [J("h_c23_far", "130,1,0,%d" % s, "3 owners among 130 entities, ids around powers of two, %s" % SETS[s], covers=(1, 4)) for s in (1, 3)] +
    [J("h_c23_ids", "4,%d" % s, "4 entities, any id, %s" % SETS[s]) for s in (2, 7)])

JOBS["C16"] = S("c16", [J("h_c16", "%d,%d,0,99" % (s, 3 if s in (1, 2, 3) else 0), "every access held (iterators unused to used up), every access requested, %s" % SETS[s], covers=(1, 40, 41)) for s in (0, 1, 2, 3, 5)] + [
    J("h_c16_struct", "%d,0" % s, "every access or handle held, every structural operation or access requested, %s" % SETS[s], covers=(1, 40, 41)) for s in (0, 1, 2, 3, 4)],
    [J("h_c16", "%d,3,0,99" % s, "every access held and requested, %s" % SETS[s], covers=(1, 40, 41)) for s in (4, 5, 6, 7, 8, 9)] +
    [J("h_c16_struct", "%d,3" % s, "structural, %s" % SETS[s], covers=(1, 40, 41)) for s in (1, 2, 3, 5, 6, 7, 8)],
    crate="conc/harness", assume=CONC)

# worlds larger than a byte or two can number; small histories behind many entities
BIG = ("--steps", "600000000")


def more(prop, quick, thorough=()):
    JOBS[prop]["quick"] += quick
    JOBS[prop]["thorough"] += thorough


def huge(n, s, what, k, words, **kw):
    return J("h_huge", "%d,%d,%d,%d" % (n, s, what, k), "%d entities, all owners of two types, %s%s" % (n + 3, words, "" if s == 0 else ", " + HSETS[s]), opts=BIG, **kw)


HSETS = {1: "full(P,Q)", 2: "partial(P,Q)", 3: "non(P,Q)", 4: "partial(Q,P) non(P,Q)"}


def gap(g, entry, args, words, covers=(1,)):
    return J(entry, args, "the same behind %d other entities: %s" % (g, words), covers=covers, opts=("--gap", str(g)) + BIG)


for c, o in (("C01", 0), ("C02", 1)):
    more(c, [
        gap(253, "h_c01", "4,2,%d" % o, "every history of up to 4 operations"),
        gap(253, "h_c01_reuse", "3,2,%d,1" % o, "3 entities, 2 removals in any order, up to 3 creations", covers=(1, 7)),
        gap(65533, "h_c01", "2,2,%d" % o, "every history of up to 2 operations"),
        huge(65540, 0, 64, 0, "one detached, one created; existence of each"),
    ], [
        gap(253, "h_c01", "5,2,%d" % o, "every history of up to 5 operations"),
        gap(65533, "h_c01", "3,2,%d" % o, "every history of up to 3 operations"),
    ])
more("C03", [
    gap(254, "h_c03_ops", "2,4,2", "2 entities, 4 operations on 2 types"),
    gap(65534, "h_c03_ops", "2,2,1", "2 entities, 2 operations on 1 type"),
    huge(300, 0, 1, 2, "2 operations next to the thresholds, reads"),
    huge(65540, 0, 1, 1, "1 operation next to the thresholds, reads"),
], [
    gap(65534, "h_c03_ops", "2,3,2", "2 entities, 3 operations on 2 types"),
    gap(254, "h_c03_routes", "3,2,0,0", "every arrangement on 3 entities, 2 operations by every route"),
    huge(65540, 4, 1, 1, "1 operation, reads"),
])
more("C04", [
    gap(254, "h_c04", "3,0,0,0", "every arrangement of 3 entities", covers=(1, 2, 3)),
    huge(300, 0, 2, 2, "2 operations next to the thresholds"),
    huge(65540, 0, 2, 0, "one detached, one created"),
], [
    huge(65540, 0, 2, 1, "1 operation next to the thresholds"),
    huge(300, 1, 2, 2, "2 operations next to the thresholds"),
])
more("C05", [
    huge(300, 4, 127, 1, "1 removal or detach next to the thresholds, everything looked at"),
    huge(65540, 4, 4, 0, "one detached, one created"),
], [
    huge(300, s, 127, 2, "2 operations") for s in (1, 2, 3)] + [huge(65540, 4, 127, 1, "1 operation, everything looked at")])
more("C06", [
    gap(254, "h_c06", "3,0,0,0", "every arrangement of 3 entities", covers=(1, 2, 3, 4)),
    huge(300, 0, 4, 2, "2 operations next to the thresholds"),
    huge(65540, 0, 4, 0, "one detached, one created"),
], [huge(65540, 0, 4, 1, "1 operation"), gap(254, "h_c06", "3,1,0,0", "every arrangement of 3 entities, 1 operation", covers=(1, 2, 3, 4))])
more("C07", [
    huge(300, 0, 8, 2, "2 operations next to the thresholds"),
    huge(65540, 0, 8, 0, "one detached, one created"),
], [huge(65540, 0, 8, 1, "1 operation"), huge(300, 4, 8, 2, "2 operations")])
more("C08", [
    huge(300, 0, 16, 2, "2 operations next to the thresholds"),
    huge(65540, 0, 16, 0, "one detached, one created"),
], [huge(65540, 0, 16, 1, "1 operation"), huge(300, 4, 16, 2, "2 operations")])
for c, s in (("C09", 1), ("C10", 2), ("C11", 3)):
    more(c, [
        huge(300, s, 32, 1, "1 operation next to the thresholds, made before or after"),
        huge(65540, s, 32, 0, "one detached, one created, made before or after"),
        gap(254, "h_grp", "%d,2,1,0" % (s - 1), "2 entities, 1 operation"),
    ], [huge(300, s, 32, 2, "2 operations"), huge(65540, s, 32, 1, "1 operation")])
more("C12", [huge(300, s, 109, 1, "1 operation, everything looked at") for s in (1, 2, 3)], [huge(65540, s, 109, 0, "everything looked at") for s in (1, 2, 3)])
more("C14", [
    gap(254, "h_c14", "1,2,1,0", "batches of up to 2, %s" % SETS[1], covers=(1, 24)),
    huge(65540, 4, 2, 0, "attached in batches"),
    huge(300, 4, 127, 0, "attached in batches"),
], [huge(65540, s, 127, 0, "attached in batches") for s in (1, 2, 3)])
more("C22", [huge(300, s, 32, 0, "hints and lookups all along") for s in (1, 2, 3)] + [huge(300, 0, 28, 0, "hints and lookups all along")],
     [huge(65540, s, 32, 0, "hints and lookups") for s in (1, 2, 3)])


def soak(n, s, k, seeds):
    return J("h_soak", "%d,%d,%d,%d" % (n, s, k, seeds), "%d histories of %d operations on about %d entities and 5 types (payloads symbolic), %s, everything looked at every 64" % (seeds, k, n, "no group" if s == 0 else SETS[s]), opts=BIG)


def many(k, t):
    return J("h_many", "%d,%d,0,0" % (k, t), "24 component types and 24 groups made in 4 orders, %d operations on %s of the types, everything looked at" % (k, "any" if t == 24 else t), opts=BIG)


for c, o in (("C01", 0), ("C02", 1)):
    more(c, [J("h_drain", "%d,%d,0,0" % (n, o), "%d entities removed in 6 orders and made again" % n, opts=BIG) for n in (40, 300)],
         [J("h_drain", "%d,%d,0,0" % (n, o), "%d entities removed in 6 orders and made again" % n, opts=BIG) for n in (5, 600, 70000)])
more("C03", [soak(6, 0, 400, 24), many(1, 24)], [soak(8, s, 800, 32) for s in (0, 7)] + [many(2, 3)])
more("C05", [soak(6, 4, 300, 16), many(1, 24)], [soak(8, s, 600, 32) for s in (5, 6)] + [many(2, 3)])
for c, s in (("C09", 1), ("C10", 2), ("C11", 3)):
    more(c, [soak(6, s, 400, 24), soak(24, s, 600, 6), many(1, 3)],
         [soak(10, x, 1000, 32) for x in (s, s + 3)] + [many(1, 24)])
more("C12", [soak(6, s, 300, 12) for s in (5, 7)] + [many(1, 24)], [soak(8, s, 600, 32) for s in (1, 4, 8)] + [many(2, 3)])
more("C22", [soak(6, s, 300, 8) for s in (0, 6)], [soak(8, s, 600, 16) for s in (4, 5, 7)])
more("C23", [soak(6, s, 300, 16) for s in (4, 5)], [soak(10, s, 800, 32) for s in (0, 1, 6, 8)])
more("C15", [J("h_many_res", "1,0,0,0", "2 to 24 resource types registered in 3 orders, 1 written or registered again", opts=BIG)],
     [J("h_many_res", "2,0,0,0", "2 to 24 resource types registered in 3 orders, 2 written or registered again", opts=BIG)])

P1, P2, P3 = ("--preempt", "1"), ("--preempt", "2"), ("--preempt", "3")
JOBS["C17"] = S("c17", [J("h_c17_one", "%d" % s, "one thread, every operation, %s" % SETS[s]) for s in (0, 1, 5)] + [
    J("h_c17", "0,0,0,99", "two threads, every pair of operations, up to 2 preemptions, no group", opts=P2)] + [
    J("h_c17", "%d,0,0,99" % s, "two threads, every pair of operations, 1 preemption, %s" % SETS[s], opts=P1) for s in (1, 2, 3)] + [
    J("h_c17", "%d,0,2,9" % s, "two threads, attach, detach or remove against everything, 1 preemption, %s" % SETS[s], opts=P1) for s in (5, 6)] + [
    J("h_c17_three", "0,0,99,0", "three threads, every three operations, 1 preemption, no group", opts=P1)] + [
    J("h_c17_three", "%d,0,99,1" % s, "three threads, every three of %d operations that lock in different ways, 1 preemption, %s" % (11, SETS[s]), opts=P1) for s in (1, 2, 3)],
    [J("h_c17", "%d,0,0,99" % s, "two threads, up to 2 preemptions, %s" % SETS[s], opts=P2) for s in (1, 2, 3, 5)] +
    [J("h_c17", "%d,0,0,99" % s, "two threads, 1 preemption, %s" % SETS[s], opts=P1) for s in (4, 6, 7, 8, 9)] +
    [J("h_c17_three", "%d,0,99,1" % s, "three threads, every three of the typical operations, 1 preemption, %s" % SETS[s], opts=P1) for s in (4, 5, 6, 7, 8, 9)] +
    [J("h_c17_three", "%d,0,99,1" % s, "three threads, every three of the typical operations, up to 2 preemptions, %s" % SETS[s], opts=P2) for s in (1, 2, 3)] +
    [J("h_c17_three", "%d,0,99,0" % s, "three threads, every three operations, 1 preemption, %s" % SETS[s], opts=P1) for s in (1, 2, 3)],
    crate="conc/harness", assume=CONC)

JOBS["C18"] = S("c18", [
    J("h_c18", "0,0,0,99", "two threads, every pair of operations, 1 preemption, no group", opts=P1)] + [
    J("h_c18", "%d,0,2,9" % s, "two threads, attach, detach or remove against the rest, 1 preemption, %s" % SETS[s], opts=P1) for s in (1, 2, 3)] + [
    J("h_c18_three", "%d,0,99,1" % s, "three threads, every three of create, attach, detach, remove and write, 1 preemption, %s" % SETS[s], opts=P1) for s in (0, 1, 3)],
    [J("h_c18", "0,1,0,99", "up to 2 preemptions, no group", opts=P2)] +
    [J("h_c18", "%d,0,0,99" % s, "up to 2 preemptions, %s" % SETS[s], opts=P2) for s in (1, 2, 3)] +
    [J("h_c18", "%d,0,0,99" % s, "1 preemption, %s" % SETS[s], opts=P1) for s in (4, 5, 6, 7, 8)] +
    [J("h_c18_three", "%d,0,99,1" % s, "three threads, typical operations, 1 preemption, %s" % SETS[s], opts=P1) for s in (2, 4, 5, 6, 7, 8)] +
    [J("h_c18_three", "%d,0,99,0" % s, "three threads, every three operations, 1 preemption, %s" % SETS[s], opts=P1) for s in (0, 1, 3)],
    crate="conc/harness", assume=CONC)
