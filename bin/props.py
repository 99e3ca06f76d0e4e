"""What each check runs: recorder sources, model checks, trace checks."""

RND = ["floating point answers are compared after rounding to nine decimals"]

PROPS = {
    "C03": dict(bin="ref", srcs=["ref.cc"], lib=["refimpl"], args=["C03"],
                mc=[("Construct", "Construct.cfg", "ConstructDeep.cfg")],
                tr=[("TrRef", "TrRef6.cfg", "trace.ndjson")]),
    "C04": dict(bin="ref", srcs=["ref.cc"], lib=["refimpl"], args=["C04"],
                mc=[("Construct", "Construct.cfg", "ConstructDeep.cfg")],
                tr=[("TrRef", "TrRef.cfg", "trace.ndjson")], assumptions=RND),
    "C05": dict(bin="ref", srcs=["ref.cc"], lib=["refimpl"], args=["C05"],
                mc=[("Construct", "Construct.cfg", "ConstructDeep.cfg")],
                tr=[("TrRef", "TrRef.cfg", "trace.ndjson")]),
    "C01": dict(bin="types", srcs=["types.cc"], lib=["refimpl"], args=["C01"],
                mc=[("TypeAlgebra", "TypeAlgebra.cfg")],
                tr=[("TrTypes", "TrTypes.cfg", "trace.ndjson"), ("TrTypes", "TrTypes.cfg", "pairs.ndjson")]),
    "C02": dict(bin="types", srcs=["types.cc"], lib=["refimpl"], args=["C02"],
                mc=[("TypeAlgebra", "TypeAlgebra.cfg")],
                tr=[("TrTypes", "TrTypes.cfg", "trace.ndjson"), ("TrTypes", "TrTypes.cfg", "all.ndjson")]),
    "C24": dict(bin="types", srcs=["types.cc"], lib=["refimpl"], args=["C24"],
                mc=[("TypeAlgebra", "TypeAlgebra.cfg")],
                tr=[("TrTypes", "TrTypes.cfg", "trace.ndjson")]),
    "C25": dict(bin="pystr", srcs=["pystr.cc"], flags=["-O0", "-isystem", "/usr/include/python3.12"], libs=["-lpython3.12"],
                gen=[("GenStrings", "GenStrings.cfg", "strings.txt", "GenStringsDeep.cfg")],
                tr=[("TrStrings", "TrStrings.cfg", "trace.ndjson")]),
    "C26": dict(bin="py", py="pyrec.py", pymods=["pygeo.cc"], args=["C26"],
                mc=[("Construct", "Construct.cfg", "ConstructDeep.cfg")],
                tr=[("TrPyRef", "TrPyRef.cfg", "trace.ndjson")], assumptions=RND),
    "C27": dict(bin="py", py="pyrec.py", pymods=["pygeo.cc"], args=["C27"],
                mc=[("PyLife", "PyLife.cfg", "PyLifeDeep.cfg")],
                gen=[("GenPyLife", "GenPyLife.cfg", "lives.txt", "GenPyLifeDeep.cfg")],
                tr=[("TrPyRules", "TrPyRules.cfg", "trace.ndjson"), ("TrPyRules", "TrPyRules.cfg", "life.ndjson")], assumptions=RND),
    "C28": dict(bin="py", py="pyrec.py", pymods=["pygeo.cc"], args=["C28"],
                mc=[("InterpCheck", "InterpCheck.cfg", "InterpCheckDeep.cfg")],
                tr=[("TrPyRules", "TrPyRules.cfg", "trace.ndjson"), ("TrPyGeo", "TrPyGeo.cfg", "geo.ndjson")], assumptions=RND),
    "C06": dict(bin="lookup", srcs=["lookup.cc"], lib=["refimpl"],
                mc=[("RefLookup", "RefLookup.cfg")],
                gen=[("GenHandles", "GenHandles.cfg", "histories.txt", "GenHandlesDeep.cfg")],
                tr=[("TrLookup", "TrLookup.cfg", "race.ndjson"), ("TrLookup", "TrLookup.cfg", "handles.ndjson")],
                assumptions=["thread interleavings of the real code are sampled; the lookup protocol is enumerated in the model"]),
    "C07": dict(bin="geoml", srcs=["geo_ml1.cc", "geo_ml2.cc", "geo_ml3.cc", "geo_ml4.cc"], lib=["refimpl"],
                mc=[("InterpCheck", "InterpCheck.cfg", "InterpCheckDeep.cfg")],
                tr=[("TrGeom", "TrGeom.cfg", "trace.ndjson")], assumptions=RND),
    "C09": dict(bin="geoaff", srcs=["geo_aff.cc"], lib=["refimpl"], args=["C09"],
                mc=[("InterpCheck", "InterpCheck.cfg", "InterpCheckDeep.cfg")],
                tr=[("TrGeom", "TrGeom.cfg", "trace.ndjson")], assumptions=RND),
    "C10": dict(bin="geoaff", srcs=["geo_aff.cc"], lib=["refimpl"], args=["C10"],
                mc=[("InterpCheck", "InterpCheck.cfg", "InterpCheckDeep.cfg")],
                tr=[("TrGeom", "TrGeom.cfg", "trace.ndjson")], assumptions=RND),
    "C08": dict(bin="geocached", srcs=["geo_cached.cc"], lib=["refimpl"],
                mc=[("Cached", "Cached.cfg")],
                gen=[("GenCached", "GenCached.cfg", "histories.txt", "GenCachedDeep.cfg")],
                tr=[("TrCached", "TrCached.cfg", "trace.ndjson")], assumptions=RND),
    "C11": dict(bin="geomap", srcs=["geo_map.cc"], lib=["refimpl", "quad"],
                mc=[("InterpCheck", "InterpCheck.cfg", "InterpCheckDeep.cfg")],
                tr=[("TrGeom", "TrGeom.cfg", "trace.ndjson")], assumptions=RND),
    "C12": dict(bin="geoinv", srcs=["geo_inv.cc"], lib=["refimpl", "quad"],
                mc=[("Newton", "Newton.cfg")],
                tr=[("TrInverse", "TrInverse.cfg", "trace.ndjson")], assumptions=RND),
    "C16": dict(bin="rulecache", srcs=["rulecache.cc"], lib=["refimpl", "quad"], args=["schedules", "schedules.txt", "wide.txt"],
                mc=[("RuleCache", "RuleCacheThree.cfg", "RuleCacheDeep.cfg"), ("RuleCache", "RuleCachePair.cfg", "RuleCache.cfg")],
                gen=[("GenSchedules", "GenSchedules.cfg", "schedules.txt", "GenSchedulesDeep.cfg"),
                     ("GenSchedules", "GenSchedulesWide.cfg", "wide.txt", "GenSchedulesWideDeep.cfg")],
                also=[dict(bin="rulecache-race", srcs=["rulecache.cc"], lib=["refimpl", "quad"], args=["free"],
                           flags=["-O1", "-g", "-fsanitize=thread"])],
                tr=[("TrRuleCache", "TrRuleCache.cfg", "schedules.ndjson"), ("TrRuleCache", "TrRuleCache.cfg", "together.ndjson"),
                    ("TrRuleCache", "TrRuleCache.cfg", "race.ndjson")]),
    "C30": dict(bin="iso", srcs=["iso.cc"], lib=["refimpl", "quad"], args=["schedules", "iso.txt", "isotake.txt"],
                mc=[("Isolate", "Isolate.cfg", "IsolateDeep.cfg")],
                gen=[("GenIso", "GenIso.cfg", "iso.txt", "GenIsoDeep.cfg"), ("GenIso", "GenIsoTake.cfg", "isotake.txt", "GenIsoTakeDeep.cfg")],
                also=[dict(bin="iso-race", srcs=["iso.cc"], lib=["refimpl", "quad"], args=["free"],
                           flags=["-O1", "-g", "-fsanitize=thread"])],
                tr=[("TrIso", "TrIso.cfg", "runs.ndjson"), ("TrIso", "TrIso.cfg", "walks.ndjson"), ("TrIso", "TrIso.cfg", "common.ndjson"),
                    ("TrGeom", "TrGeom.cfg", "free.ndjson")],
                assumptions=RND + ["threads are stopped in code the user supplies; other interleavings of the real code are sampled under a race detector"]),
    "C17": dict(bin="refine", srcs=["refine.cc"], lib=["refimpl", "quad"], args=["C17"],
                mc=[("KuhnWalk", "KuhnWalk.cfg", "KuhnWalkDeep.cfg"), ("MomentsCheck", "MomentsCheck.cfg", "MomentsCheckDeep.cfg")],
                tr=[("TrRefine", "TrRefine.cfg", "trace.ndjson")], assumptions=RND),
    "C18": dict(bin="refine", srcs=["refine.cc"], lib=["refimpl", "quad"], args=["C18"],
                mc=[("KuhnWalk", "KuhnWalk.cfg", "KuhnWalkDeep.cfg")],
                tr=[("TrRefine", "TrRefine.cfg", "trace.ndjson")], assumptions=RND),
    "C19": dict(bin="refine", srcs=["refine.cc"], lib=["refimpl", "quad"], args=["C19"],
                mc=[("KuhnWalk", "KuhnWalk.cfg", "KuhnWalkDeep.cfg")],
                tr=[("TrRefine", "TrRefine.cfg", "trace.ndjson")], assumptions=RND),
    "C34": dict(bin="refine", srcs=["refine.cc"], lib=["refimpl", "quad"], args=["C34"],
                mc=[("KuhnWalk", "KuhnFit.cfg", "KuhnFitDeep.cfg")],
                tr=[("TrRefine", "TrRefine.cfg", "trace.ndjson")], assumptions=RND),
    "C20": dict(bin="refine", srcs=["refine.cc"], lib=["refimpl", "quad"], args=["C20", "iters.txt", "long.txt"],
                flags=["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
                mc=[("IterRegs", "IterRegs.cfg")],
                gen=[("GenIters", "GenIters.cfg", "iters.txt", "GenItersDeep.cfg"), ("GenIters", "GenItersLong.cfg", "long.txt", "GenItersLongDeep.cfg")],
                tr=[("TrRefine", "TrRefine.cfg", "trace.ndjson")], assumptions=RND),
    "C21": dict(bin="vorder", srcs=["vorder.cc"], lib=["refimpl"],
                mc=[("RanksCheck", "RanksCheck.cfg", "RanksCheckDeep.cfg")],
                tr=[("TrOrder", "TrOrder.cfg", "trace.ndjson")]),
    "C22": dict(bin="topofac", srcs=["topofac.cc"], lib=[], args=["keep1.txt", "keep2.txt", "keep3.txt"],
                mc=[("TopoKeep", "TopoKeep.cfg", "TopoKeepDeep.cfg")],
                gen=[("TopoKeep", "GenKeep1.cfg", "keep1.txt", "GenKeep1Deep.cfg"), ("TopoKeep", "GenKeep2.cfg", "keep2.txt", "GenKeep2Deep.cfg"),
                     ("TopoKeep", "GenKeep3.cfg", "keep3.txt", "GenKeep3Deep.cfg")],
                tr=[("TrKeep", "TrKeep.cfg", "trace.ndjson")]),
    "C23": dict(bin="matrix", srcs=["matrix.cc"], lib=[],
                mc=[("MatCheck", "MatCheck.cfg", "MatCheckDeep.cfg")],
                tr=[("TrMatrix", "TrMatrix.cfg", "trace.ndjson")], assumptions=RND),
    "C13": dict(bin="quad", srcs=["quad.cc"], lib=["refimpl", "quad"], args=["C13"], flags=["-O1"], timeout=600,
                mc=[("MomentsCheck", "MomentsCheck.cfg", "MomentsCheckDeep.cfg")],
                tr=[("TrQuad", "TrQuad.cfg", "trace.ndjson")]),
    "C14": dict(bin="quad", srcs=["quad.cc"], lib=["refimpl", "quad"], args=["C14"],
                mc=[("MomentsCheck", "MomentsCheck.cfg", "MomentsCheckDeep.cfg")],
                tr=[("TrQuad", "TrQuad.cfg", "trace.ndjson")]),
    "C15": dict(bin="quad", srcs=["quad.cc"], lib=["refimpl", "quad"], args=["C15"],
                mc=[("MomentsCheck", "MomentsCheck.cfg", "MomentsCheckDeep.cfg")],
                tr=[("TrQuad", "TrQuad.cfg", "trace.ndjson")]),
    "C29": dict(bin="bigquad", srcs=["bigquad.cc"], lib=["refimpl", "quad"], libs=["-lgmpxx", "-lgmp"],
                mc=[("BigWalk", "BigWalk.cfg", "BigWalkDeep.cfg")],
                tr=[("TrBig", "TrBig.cfg", "trace.ndjson")]),
    "C32": dict(bin="values", srcs=["values.cc"], lib=["refimpl", "quad"], flags=["-O0", "-fsanitize=address"],
                mc=[("ValParts", "ValParts.cfg", "ValPartsDeep.cfg")],
                gen=[("GenVal", "GenVal.cfg", "histories.txt", "GenValDeep.cfg")],
                tr=[("TrVal", "TrVal.cfg", "trace.ndjson")]),
    "C33": dict(bin="flux", srcs=["flux.cc"], lib=["refimpl", "quad"],
                mc=[("FluxCheck", "FluxCheck.cfg", "FluxCheckDeep.cfg")],
                tr=[("TrFlux", "TrFlux.cfg", "trace.ndjson")]),
    "C31": dict(bin="fine", srcs=["fine1.cc", "fine2.cc", "fine3.cc"], lib=["refimpl", "quad"], libs=["-lgmpxx", "-lgmp"],
                mc=[("FineCheck", "FineCheck.cfg", "FineCheckDeep.cfg")],
                tr=[("TrFine", "TrFine.cfg", "trace.ndjson")]),
}

T = "TLA+ specification checked with TLC; every answer recorded from the code is decided by TLC against it"
TG = "TLA+ specification checked with TLC; behaviours enumerated by TLC are replayed in the code and its answers decided by TLC"
BASE = "Trusts the recorder (public interface only) and TLC. "

# technique, level note
NOTES = {
    "C01": (T, BASE + "Exhaustive over all types up to dimension 5 (6), all ways of making them, and all pairs; samples up to dimension 30."),
    "C02": (T, BASE + "Exhaustive over all types and indices up to dimension 6; samples up to dimension 24."),
    "C03": (T, BASE + "The cell complex is model checked to dimension 4 (5); all topologies, sub-entities and codimension pairs of the code up to dimension 5 and two (eight) of dimension 6 are compared."),
    "C04": (T, BASE + "All topologies up to dimension 5, exact rational expectation, compared to nine decimals."),
    "C05": (T, BASE + "All topologies up to dimension 5, dyadic point grids around the element; points closer to the boundary than the tolerance are left open."),
    "C06": (TG, BASE + "All handle histories of the stated length; lookups by every path for every topology up to dimension 4 from 8 threads (interleavings of the real code sampled, of the lookup protocol exhaustive)."),
    "C07": (T, BASE + "All topologies up to dimension 4 in world dimensions up to 5, random integer corners (bent, affine, nearly affine, arbitrary), dyadic points in and around the element, three corner storages, float and double."),
    "C08": (TG, BASE + "All histories of three calls on two objects over query, copy, assignment and construction, and longer ones joined from these."),
    "C09": (T, BASE + "All topologies up to dimension 4 and world dimensions up to 5, random integer frames."),
    "C10": (T, BASE + "All element dimensions up to 4 and world dimensions up to 5 with every axis subset, random integer boxes."),
    "C11": (T, BASE + "Random integer polynomial maps of degree up to 3 over random elements, and polynomial finite elements of order 1 and 2."),
    "C12": (T, BASE + "The damped iteration is model checked for arbitrary residual histories; images of grid points of every topology up to dimension 3, flat elements, and arbitrary quadratic maps with arbitrary targets."),
    "C13": (T, BASE + "Moments of every rule recorded along walks to the highest degree; all one-dimensional rules of every family and number type, dimension 2 to 5 up to 30000 (60000) points per rule; relative 2e-13 per step (float 1e-5)."),
    "C14": (T, BASE + "All types up to dimension 5, all one-dimensional orders, in dimension 2 to 5 orders up to 30000 (300000) points per rule, refused orders on both sides, both request interfaces, random request histories."),
    "C15": (T, BASE + "Every one-dimensional rule of every family and order in float, double and long double."),
    "C16": (TG, BASE + "All interleavings of 3 threads in the model, interrupted constructions included; a share of all schedules of 6 steps (thorough: all) forced on the code; simultaneous requests of 8 threads sampled under ThreadSanitizer."),
    "C17": (T, BASE + "Simplices of dimension 1 to 3 (4), 1 to 6 intervals and one larger number, base orders 0 to 9; other shapes are not offered by the code."),
    "C18": (T, BASE + "All refinable pairs of dimension 1 to 4 with up to 12, 9, 5, 3 (16, 14, 8, 4) intervals, and some sub-elements and their vertices with up to 2000, 260, 41, 6."),
    "C19": (T, BASE + "All refinable pairs of dimension 1 to 4 with up to 12, 9, 5, 3 (16, 14, 8, 4) intervals; tiling decided in integers on the lattice. With up to 2000, 260, 41, 6 intervals some sub-elements, and some points that must be in exactly one."),
    "C20": (TG, BASE + "All histories of three (four) steps on two iterators and a share of longer ones on three; recorder built with address and undefined-behaviour sanitizers."),
    "C21": (T, BASE + "All sequences up to length 5 (6); all vertex permutations of small elements, random ones of larger, up to dimension 4."),
    "C22": (TG, BASE + "Histories of length 3 to 6 enumerated by the model, a fixed share replayed, each in a process of its own so that releases at exit are seen."),
    "C23": (T, BASE + "All matrix shapes up to 5 with random small integer entries in units from 2^-40 to 2^40; a matrix that is singular without a vanishing row or column is left open (rounding decides)."),
    "C24": (T, BASE + "All dimensions up to 6 and all vertex counts up to 140 (1100)."),
    "C25": (TG, BASE + "All types up to dimension 7 and samples up to dimension 30; all token sequences up to the stated length over the alphabet of the string grammar."),
    "C26": (T, BASE + "The Python module is built from the working tree as the build files do, with the precompiled reference elements. All types up to dimension 4, every call form, valid and invalid arguments (dimension 3 and 4: a share of the sub-entity calls; thorough: all)."),
    "C27": (TG, BASE + "All types up to dimension 5 (6) and all pairs; rules of all types up to dimension 4; all histories of six steps of creating, holding and dropping on two (three) kinds of rules, with freed memory overwritten."),
    "C28": (T, BASE + "All types of dimension 1 to 3 and world dimension up to 3, random integer corners; integrals over random affine images, orders 1 to 8."),
    "C30": (TG, BASE + "All interleavings of 3 threads in the model; all pairs of interrupted evaluations and a share of the schedules of 6 steps with copies forced on the code by stopping it in code the user supplies; free runs of 8 threads sampled under ThreadSanitizer."),
    "C31": (T, BASE + "All topologies of dimension 0 to 3 (4) and their sub-entities, geometries of dimension 1 to 3 (4) at rational corners and points that are no dyadic numbers; compared to 70 decimals in a number type of 448 bits. Volumes that are computed with rules (mapped and finite-element geometries) are left to C11."),
    "C32": (TG, BASE + "All histories of 3 (4) operations on two objects and three values; every class replays a third (a ninth) of them, offset by the seed, under an address sanitizer. Answers are compared with those of fresh objects to nine decimals."),
    "C33": (T, BASE + "The divergence theorem and the values at the ends of edges are model checked on the exact polynomial maps (dimension 3, degree 2; thorough 4 and 3); the recorded integrals over elements, facets and edges are each compared with the exact rational value. Bent pyramids have no polynomial map and are left to C07."),
    "C34": (T, BASE + "All refinable pairs of dimension 2 to 4 with up to 6, 3, 1 (7, 4, 2) intervals; decided on integer corners. A four-dimensional cube cut into simplices is only held to nestedness when it has more than one interval."),
    "C29": (T, BASE + "Every one-dimensional rule of every family and order; squares up to order 30 (61), cubes and pyramids up to order 12 (24); nodes, weights and integrals compared to 75 decimals. Rules on simplices and prisms come from tables in double and are left to C13."),
}

NOT_APPLICABLE = {}
