"""The checks, one function per property."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from vlib import B, CheckError, HERE, Violation, tlc, CORES

CHECKS = {}


def check(*props):
    def deco(f):
        for p in props:
            CHECKS[p] = f
        return f
    return deco


# ------------------------------------------------------------------ edits
def mcops_cfg(shape, maxv, extra="INVARIANTS Manifold SameTopology\nPROPERTY StepEffect\n"):
    return ("SPECIFICATION Spec\nCONSTANTS MaxV = %d\n Shape = \"%s\"\n%sCHECK_DEADLOCK FALSE\n" % (maxv, shape, extra))


def replay_cases(c, exe, ops, shapes):
    """Enumerate surfaces and outcomes with GenOps, replay them."""
    rnd = random.Random(c.seed)
    total = 0

    def one(job):
        k, (shape, maxv) = job
        r = random.Random(c.seed * 1000 + k)
        pos = set()
        while len(pos) < maxv:
            pos.add(tuple(r.randint(-15, 15) * 2 for _ in range(3)))
        pos = sorted(pos)
        r.shuffle(pos)
        if k % 3 == 2:   # flat, to meet exact zeros
            pos = [(x, y, 0) for x, y, _ in pos]
            if len(set(pos)) < maxv:
                pos = [(8 * (i % 3) + 2 * (i // 3), 8 * (i // 3), 0) for i in range(maxv)]
        pj = os.path.join(c.work, "pos%d.json" % k)
        json.dump([list(p) for p in pos], open(pj, "w"))
        res = tlc(c.work, "GenOps", mcops_cfg(shape, maxv, "INVARIANTS Manifold Emit\n"), {"POS": pj}, 2, "2g")
        if not res.ok:
            raise CheckError("GenOps: %s" % res.out[-3000:])
        path = os.path.join(c.work, "cases%d.txt" % k)
        n = 0
        with open(path, "w") as f:
            f.write("P %d %s\n" % (maxv, " ".join("%d %d %d" % tuple(p) for p in pos)))
            for line in res.cases:
                d = json.loads(json.loads(line)[5:])
                f.write("S %d %s\n" % (len(d["tri"]), " ".join("%d %d %d" % tuple(t) for t in d["tri"])))
                for op, a, b, ret, rem, add in d["cases"]:
                    if op in ops:
                        n += 1
                        f.write("K %s %d %d %d %d %s %d %s\n" % (
                            op, a, b, ret, len(rem), " ".join("%d %d %d" % tuple(t) for t in rem),
                            len(add), " ".join("%d %d %d" % tuple(t) for t in add)))
        out = os.path.join(c.work, "replay%d.txt" % k)
        c.sh([exe, path, out])
        return res, n, path, out
    with ThreadPoolExecutor(4) as ex:
        results = list(ex.map(one, enumerate(shapes)))
    for res, n, path, out in results:
        text = open(out).read()
        bad = [l for l in text.splitlines() if l.startswith("MISMATCH")]
        if bad:
            raise Violation("replay of a specified case: " + bad[0][:600], c.keep(out))
        if text.startswith("BROKEN"):
            c.assumptions.append("replay stopped: the library failed outside the edit under test")
            continue
        k = int(text.split()[1])
        if k != n:
            raise CheckError("replayed %d of %d cases" % (k, n))
        total += n
        c.states += res.distinct
        c.transitions += res.generated
        if res.cases and len(c.samples) < 2:
            c.samples.append(res.cases[-1][:300])
    c.extra["cases_replayed_from_spec"] = total
    c.log("replayed", total, "specified cases")


def ops_jobs(c, exe, mode, histories, length):
    k = CORES
    return [("ops%d" % j, [exe, "OUT", c.seed * 100 + j, max(1, histories // k), length, mode]) for j in range(k)]


@check("C05", "C06", "C07")
def edits(c):
    exe = c.build({"ops": "ops.cpp", "replayops": "replayops.cpp"})
    ops = {"C05": ["split"], "C06": ["flip"], "C07": ["collapse"]}[c.prop]
    shapes = [("tetra", 6), ("annulus", 7), ("fan5", 8), ("octa", 6), ("strip", 7), ("two", 9), ("pocket", 8)]
    if not c.quick:
        shapes += [("tetra", 7), ("tetra", 7), ("octa", 7), ("annulus", 8), ("fan5", 9), ("strip", 8)]
    replay_cases(c, exe["replayops"], ops, shapes)
    c.conform("TraceOps", ops_jobs(c, exe["ops"], "fills", c.pick(320, 4000), 40))


@check("C08")
def refusals(c):
    exe = c.build({"ops": "ops.cpp"})
    c.model("MCOps", mcops_cfg("tetra", 6))
    c.conform("TraceOps", ops_jobs(c, exe["ops"], "fills", c.pick(480, 6000), 40))


@check("C09")
def topology(c):
    exe = c.build({"ops": "ops.cpp"})
    for s, v in [("tetra", 7), ("fan5", 8), ("annulus", 7), ("strip", 7), ("two", 9)]:
        c.model("MCOps", mcops_cfg(s, v))
    if not c.quick:
        c.model("MCOps", mcops_cfg("torus", 8))
    c.conform("TraceOps", ops_jobs(c, exe["ops"], "edits", c.pick(240, 3000), 60))


@check("C04")
def navigation(c):
    exe = c.build({"ops": "ops.cpp"})
    c.model("MCOps", mcops_cfg("tetra", 6))
    c.conform("TraceOps", ops_jobs(c, exe["ops"], "level2", c.pick(160, 2400), 40))


# ------------------------------------------------------------------ builds
def build_cases(c, exe, maxt, maxv, rot, kinds):
    r = c.model("MCBuild", "SPECIFICATION Spec\nCONSTANTS MaxT = %d\n MaxV = %d\n Rot = %s\n"
                "INVARIANTS Sound Faithful Counts Emit\nCHECK_DEADLOCK FALSE\n" % (maxt, maxv, rot))
    lines = []
    for l in r.cases:
        d = json.loads(json.loads(l)[5:])
        p = [str(len(d["c"]))] + [str(x) for x in d["c"]] + [str(d["n"]), "1" if d["fail"] else "0", str(len(d["res"]))]
        for w in d["res"]:
            p.append(str(len(w["tri"])))
            for t in w["tri"]:
                p += [str(x) for x in t]
            p.append(str(len(w["holes"])))
            for h in w["holes"]:
                p.append(str(len(h)))
                p += [str(x) for x in h]
        lines.append(" ".join(p))

    def one(k):
        path = os.path.join(c.work, "bc%d_%d_%d.txt" % (maxt, maxv, k))
        mine = lines[k::CORES]
        open(path, "w").write("\n".join(mine) + ("\n" if mine else ""))
        c.sh([exe, path + ".out", path, "cases"])
        return len(mine), path + ".out"
    with ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(one, range(CORES)))
    n = 0
    for want, path in res:
        text = open(path).read().splitlines()
        bad = [l for l in text if l.startswith("MISMATCH") and l.split()[1] in kinds]
        if bad:
            raise Violation("specified outcome of a triangle list: " + bad[0][:600], c.keep(path))
        got = int(text[-1].split()[1])
        if got != want and "STOPPED" not in text:
            raise CheckError("replayed %s of %d lists" % (text[-1], want))
        n += got
    c.extra["lists_replayed_from_spec"] = c.extra.get("lists_replayed_from_spec", 0) + n
    if lines:
        c.samples.append("list: " + lines[-1][:200])
    c.log("replayed", n, "specified triangle lists")


@check("C01", "C02")
def builds(c):
    exe = c.build({"build": "build.cpp"})["build"]
    kinds = {"C01": ("refused", "content", "vertices"),
             "C02": ("refused", "accepted", "crash", "hang", "exception", "error")}[c.prop]
    build_cases(c, exe, 3, 9, "TRUE", kinds)
    build_cases(c, exe, 4, 6, "FALSE", kinds)
    build_cases(c, exe, 5, 5, "FALSE", kinds)
    n = c.pick(400, 4000)
    c.conform("TraceBuild", [("build%d" % j, [exe, "OUT", c.seed * 100 + j, n, "build"]) for j in range(CORES)],
              count="build")


@check("C03")
def reuse(c):
    exe = c.build({"build": "build.cpp"})["build"]
    d = os.path.join(c.work, "files")
    os.makedirs(d)
    c.model("Reuse", "SPECIFICATION Spec\nCONSTANTS Clears = TRUE\n Len3 = %d\nINVARIANT AsFresh\n"
            "CONSTRAINT Bounded\nCHECK_DEADLOCK FALSE\n" % c.pick(1, 2))
    build_cases(c, exe, 2, 6, "TRUE", ("refused", "content"))
    c.conform("TraceBuild", [("reuse%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(60, 800), "reuse", d])
                             for j in range(CORES)], count="reuse")


# ----------------------------------------------------------------- filling
@check("C10")
def fillings(c):
    exe = c.build({"ops": "ops.cpp"})["ops"]
    for shape, v in [("fan5", 7), ("annulus", 7), ("fan4", 6)] + ([] if c.quick else [("fan5", 8), ("annulus", 8)]):
        c.model("MCFill", "SPECIFICATION FSpec\nCONSTANTS MaxV = %d\n Shape = \"%s\"\nINVARIANTS Manifold\n"
                "PROPERTY FillEffect\nCHECK_DEADLOCK FALSE\n" % (v, shape))
    c.conform("TraceOps", ops_jobs(c, exe, "holes", c.pick(480, 6000), 24))


@check("C11")
def choice(c):
    exe = c.build({"fill": "fill.cpp"})["fill"]
    for n, top in [(4, 2), (5, 1)] + ([] if c.quick else [(4, 3), (5, 2)]):
        c.model("MCChoice", "SPECIFICATION Spec\nCONSTANTS N = %d\n Top = %d\n Bounds = {0, 1, 3}\n"
                "INVARIANTS Covers FourChoice\nCHECK_DEADLOCK FALSE\n" % (n, top))
    c.conform("TraceFill", [("dp%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(250, 2500), "dp"])
                            for j in range(CORES)], count="dp")


@check("C12")
def front(c):
    exe = c.build({"fill": "fill.cpp"})["fill"]
    c.model("MCFill", "SPECIFICATION FSpec\nCONSTANTS MaxV = 7\n Shape = \"annulus\"\nINVARIANTS Manifold\n"
            "PROPERTY FillEffect\nCHECK_DEADLOCK FALSE\n")
    c.conform("TraceOps", [("front%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(60, 700), "front"])
                           for j in range(CORES)], count="front")


# ----------------------------------------------------------------- filters
@check("C13")
def smoothing(c):
    exe = c.build({"smooth": "smooth.cpp"})["smooth"]
    for s, t in [("tetra", 2), ("bipyr", 1)] + ([] if c.quick else [("fan5", 2), ("tetra", 3), ("bipyr", 2)]):
        c.model("MCSmooth", "SPECIFICATION Spec\nCONSTANTS Shape = \"%s\"\n Top = %d\n U = 1000\n"
                "INVARIANTS Identity InRange Shift Average\nPROPERTY Stay\nCHECK_DEADLOCK FALSE\n" % (s, t))
    c.conform("TraceSmooth", [("smooth%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(300, 4000)])
                              for j in range(CORES)])


@check("C15")
def schedules(c):
    exe = c.build({"par": "par.cpp"}, emu=True)["par"]
    cfg = "SPECIFICATION Spec\nCONSTANTS N = %d\n MaxThreads = %d\n Kind = \"%s\"\n Ring = %s\n" \
          "INVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
    for n, t, ring in [(3, 3, "TRUE"), (4, 2, "TRUE")] + ([] if c.quick else [(4, 3, "FALSE"), (4, 4, "TRUE"), (5, 2, "TRUE")]):
        c.model("ParFor", cfg % (n, t, "twophase", ring, "Deterministic Safe"))
    # the model tells the loops apart that are not deterministic
    for k in ("inplace", "scratch"):
        c.refuted("ParFor", cfg % (3, 2, k, "TRUE", "Deterministic"))
        c.model("ParFor", cfg % (3, 2, k, "TRUE", "Safe"))
    c.conform("TraceFilters", [("par%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(60, 900)]) for j in range(CORES)],
              serial=True)


def objects(c):
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxMesh = %d\n MaxVal = %d\n MaxCells = %d\n Share = \"%s\"\n" \
          "INVARIANT Independent\n%sCHECK_DEADLOCK FALSE\n"
    c.model("Objects", cfg % (c.pick(2, 3), c.pick(2, 2), c.pick(5, 6), "none", "PROPERTY Frame\n"))
    for s in ("tri", "pos"):
        c.refuted("Objects", cfg % (2, 1, 5, s, ""))


@check("C16")
def untouched(c):
    objects(c)
    exe = c.build({"keep": "keep.cpp"})["keep"]
    c.conform("TraceFilters", [("keep%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(150, 2500)]) for j in range(CORES)])


@check("C24")
def clones(c):
    exe = c.build({"clone": "clone.cpp"})["clone"]
    objects(c)
    c.conform("TraceObjects", [("clone%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(150, 2500)]) for j in range(CORES)],
              serial=True)


@check("C23")
def saving(c):
    exe = c.build({"files": "files.cpp"})["files"]
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxT = %d\n MaxV = %d\n Writer = \"%s\"\nINVARIANT RoundTrip\nCHECK_DEADLOCK FALSE\n"
    c.model("MCFiles", cfg % (c.pick(2, 3), c.pick(4, 5), "right"))
    if not c.quick:
        c.model("MCFiles", cfg % (4, 4, "right"))
    for w in ("mirror", "holes"):
        c.refuted("MCFiles", cfg % (2, 4, w))
    c.conform("TraceFiles", [("files%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(100, 2000)]) for j in range(CORES)],
              serial=True)


EDIT_WRAPS = ("_ZN8tinymesh4Mesh7splitHEEPNS_8HalfedgeE", "_ZN8tinymesh4Mesh6flipHEEPNS_8HalfedgeE",
              "_ZN8tinymesh4Mesh10collapseHEEPNS_8HalfedgeE", "_ZNSt13random_device9_M_getvalEv")


def remeshing(c, mode):
    exe = c.build({"remesh": "remesh.cpp"}, wraps=EDIT_WRAPS)["remesh"]
    cfg = "SPECIFICATION Spec\nCONSTANTS Shape = \"%s\"\n MaxV = %d\n Rounds = %d\n Mode = \"%s\"\n" \
          "INVARIANTS Surfaces LocksKept Boundary\nPROPERTY FlipsEnd\nCHECK_DEADLOCK FALSE\n"
    for s, v, r in [("bipyr5", 8, 1), ("cap4", 10, 1)] + ([] if c.quick else [("bipyr5", 9, 2), ("cap5", 12, 1), ("bipyr6", 9, 2)]):
        c.model("MCRemesh", cfg % (s, v, r, mode))
    if mode == "remesh":
        c.refuted("MCRemesh", cfg % ("bipyr5", 9, 1, "nolock"))
    c.conform("TraceRemesh", [("%s%d" % (mode, j), [exe, "OUT", c.seed * 100 + j, c.pick(70, 1200), mode])
                              for j in range(CORES)], serial=True)


@check("C14")
def locked(c):
    remeshing(c, "remesh")


@check("C17")
def remeshed(c):
    remeshing(c, "remesh")


@check("C18")
def rules(c):
    remeshing(c, "remesh")


@check("C19")
def simplified(c):
    remeshing(c, "simplify")


def distances(c, mode):
    exe = c.build({"dist": "dist.cpp"})["dist"]
    inv = "INVARIANT Defined\nCHECK_DEADLOCK FALSE\n"
    c.model("MCDist", "SPECIFICATION Spec\nCONSTANTS R = 2\n K = 4\n Flat = %d\n" % c.pick(0, 1) + inv)
    bvh = "SPECIFICATION Spec\nCONSTANTS R = 2\n N = %d\n Rule = \"%s\"\nINVARIANTS Right NeverBelow\nCHECK_DEADLOCK FALSE\n"
    c.model("MCBvh", bvh % (3, "box"))
    c.refuted("MCBvh", bvh % (3, "centre"))
    c.refuted("MCBvh", bvh % (3, "inner"))
    c.conform("TraceDist", [("%s%d" % (mode, j), [exe, "OUT", c.seed * 100 + j, c.pick(120, 3000) if mode == "near" else c.pick(60, 1500), mode])
                            for j in range(CORES)], serial=True)


@check("C20")
def nearest(c):
    distances(c, "near")


@check("C21")
def hausdorff(c):
    distances(c, "mesh")


def measures(c, mode):
    exe = c.build({"measure": "measure.cpp"})["measure"]
    c.model("MCMeasure", "SPECIFICATION Spec\nCONSTANT R = %d\nINVARIANTS SharesAdd Symmetric Roots Degrees\nCHECK_DEADLOCK FALSE\n" % c.pick(2, 3))
    c.conform("TraceMeasure", [("%s%d" % (mode, j), [exe, "OUT", c.seed * 100 + j, c.pick(80, 2500), mode])
                               for j in range(CORES)], serial=True)


@check("C22")
def laplacians(c):
    measures(c, "lap")


@check("C26")
def geometry(c):
    measures(c, "geo")


@check("C27")
def curvature(c):
    exe = c.build({"curv": "curv.cpp"})["curv"]
    cfg = "SPECIFICATION Spec\nCONSTANTS R = %d\n Rule = \"%s\"\nINVARIANTS SameCurvatures OwnDirection Exponential\nCHECK_DEADLOCK FALSE\n"
    c.model("MCCurvature", cfg % (c.pick(4, 6), "own"))
    c.refuted("MCCurvature", cfg % (2, "other"))
    c.refuted("MCCurvature", cfg % (2, "slanted"))
    c.conform("TraceCurvature", [("curv%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(80, 4000)]) for j in range(CORES)], serial=True)


@check("C25")
def vectors(c):
    exe = c.build({"vec": "vec.cpp"})["vec"]
    cfg = "SPECIFICATION Spec\nCONSTANTS Q = 1\n N = %d\n R = %d\n Steps = %d\n Rule = \"%s\"\n" \
          "INVARIANTS Contains Tight Associative Outside Algebra\nCHECK_DEADLOCK FALSE\n"
    c.model("MCVec", cfg % (2, 1, c.pick(3, 4), "both"))
    c.model("MCVec", cfg % (3, 1, c.pick(2, 3), "both"))
    c.refuted("MCVec", cfg % (2, 1, 2, "near"))
    c.conform("TraceVec", [("vec%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(60, 6000)]) for j in range(CORES)], serial=True)


@check("C28")
def reported(c):
    exe = c.build({"misuse": "misuse.cpp"})["misuse"]
    exm = c.build({"misusem": "misuse.cpp"}, module=True)["misusem"]
    cfg = "SPECIFICATION Spec\nCONSTANTS Items = %d\n Threads = %d\n Where = \"%s\"\nINVARIANTS Alive Whole Right\nPROPERTY Answered\nCHECK_DEADLOCK FALSE\n"
    c.model("MCCalls", cfg % (c.pick(4, 6), c.pick(2, 3), "before"))
    c.refuted("MCCalls", cfg % (2, 2, "inside"))
    c.refuted("MCCalls", cfg % (2, 2, "late"))
    n = c.pick(360, 9000)
    c.conform("TraceCalls", [("plain%d" % j, [exe, "OUT", c.seed * 100 + j, n, c.work]) for j in range(CORES // 2)] +
              [("module%d" % j, [exm, "OUT", c.seed * 100 + 50 + j, n, c.work]) for j in range(CORES // 2)], count="call")


@check("C29")
def fairing(c):
    exe = c.build({"denoise": "denoise.cpp"})["denoise"]
    cfg = "SPECIFICATION Spec\nCONSTANTS N = %d\n Top = %d\n Rule = \"%s\"\n Strengths = {0, 1, 3, 10}\nINVARIANTS InRange Unique Equal\nCHECK_DEADLOCK FALSE\n"
    c.model("MCFairing", cfg % (3, c.pick(3, 5), "implicit"))
    c.model("MCFairing", cfg % (4, c.pick(1, 2), "implicit"))
    c.refuted("MCFairing", cfg % (3, 3, "explicit"))
    c.conform("TraceDenoise", [("fair%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(200, 6000), "fair"]) for j in range(CORES)], serial=True)


@check("C30")
def filtering(c):
    exe = c.build({"denoise": "denoise.cpp"})["denoise"]
    cfg = "SPECIFICATION Spec\nCONSTANTS Step = %d\n Rule = \"%s\"\nINVARIANTS Falls NoJump One Flat\nCHECK_DEADLOCK FALSE\n"
    c.model("MCDenoise", cfg % (c.pick(50, 10), "wide"))
    c.refuted("MCDenoise", cfg % (100, "narrow"))
    c.conform("TraceDenoise", [("filter%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(150, 4000), "filter"]) for j in range(CORES)], serial=True)


@check("C34")
def flattening(c):
    exe = c.build({"denoise": "denoise.cpp"})["denoise"]
    cfg = "SPECIFICATION Spec\nCONSTANTS Top = %d\n Rule = \"%s\"\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
    c.model("MCFlatten", cfg % (c.pick(1, 2), "rounds", "Centre Least Best Constant"))
    c.refuted("MCFlatten", cfg % (1, "plain", "Best"))
    c.refuted("MCFlatten", cfg % (1, "open", "Centre"))
    c.conform("TraceDenoise", [("flat%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(200, 5000), "flat"]) for j in range(CORES)], serial=True)


@check("C31")
def coherent(c):
    exe = c.build({"coherent": "coherent.cpp"})["coherent"]
    cfg = "SPECIFICATION Spec\nCONSTANTS Shape = \"%s\"\n MaxV = %d\n Rule = \"%s\"\nINVARIANTS Kept Filled\nCHECK_DEADLOCK FALSE\n"
    for s, v in [("wheel5", 3), ("cup3", 2), ("cup5", 3), ("band3", 3)] + ([] if c.quick else [("wheel5", 4), ("cup4", 4), ("wheel4", 4)]):
        c.model("MCCoherent", cfg % (s, v, "free"))
    c.refuted("MCCoherent", cfg % ("wheel5", 2, "any"))
    c.conform("TraceCoherent", [("coh%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(12, 150)]) for j in range(CORES)], serial=True)


@check("C32")
def field(c):
    exe = c.build({"field": "field.cpp"})["field"]
    cfg = "SPECIFICATION Spec\nCONSTANTS What = \"%s\"\n Rule = \"%s\"\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
    c.model("MCField", cfg % ("edge", "aligned", "Symmetric TurnFree Kinds"))
    c.model("MCField", cfg % ("faces", "aligned", "AtBorder NoStrip Once Opposite"))
    c.refuted("MCField", cfg % ("edge", "plain", "TurnFree"))
    c.conform("TraceField", [("fld%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(100, 2500)]) for j in range(CORES)])


@check("C33")
def python_module(c):
    d = c.python()
    cfg = "SPECIFICATION Spec\nCONSTANTS F = \"%s\"\n Keep = \"%s\"\nINVARIANTS %s\nCONSTRAINT Constraint\nCHECK_DEADLOCK FALSE\n"
    for f in ["get_hausdorff_distance", "denoise_normal_gaussian", "hole_fill_min_dihedral", "smooth_taubin"] \
            + ([] if c.quick else ["simplify_qem", "smooth_laplacian"]):
        c.model("MCModule", cfg % (f, "handle", "Complete Unordered Alike Usable"))
    c.refuted("MCModule", cfg % ("get_hausdorff_distance", "name", "Usable"))
    c.conform("TraceModule", [("py%d" % j, ["env", "MALLOC_PERTURB_=165", B.PYTHON, os.path.join(HERE, "harness", "pymod.py"), "OUT",
                                           c.seed * 100 + j, c.pick(1500, 12000), d]) for j in range(CORES)], serial=True)


MERGE_WRAPS = EDIT_WRAPS[1:3] + ("_ZN8tinymesh15smoothLaplacianERNS_4MeshEdbi", "_ZN8tinymesh12smoothTaubinERNS_4MeshEddi")


@check("C35")
def merging(c):
    exe = c.build({"quadric": "quadric.cpp"}, wraps=MERGE_WRAPS)["quadric"]
    c.model("MCPlanes", "SPECIFICATION Spec\nCONSTANTS R = 2\n K = 2\nINVARIANTS Right Sharp\nCHECK_DEADLOCK FALSE\n".replace("R = 2", "R = %d" % c.pick(1, 2)))
    cfg = "SPECIFICATION Spec\nCONSTANTS Shape = \"%s\"\n Costs = {%s}\n Rule = \"%s\"\n Few = %s\n" \
          "INVARIANTS Surface Ordered Once Placed\nCHECK_DEADLOCK FALSE\n"
    for shape, costs, few in [("cap5", "1, 2", "FALSE"), ("drum4", "1", "TRUE")] + \
            ([] if c.quick else [("drum4", "1", "FALSE"), ("drum5", "1", "TRUE")]):
        c.model("MCQuadric", cfg % (shape, costs, "right", few))
    for shape, costs, rule in (("drum5", "1", "places"), ("drum4", "1", "source"), ("drum4", "1", "moved"), ("drum4", "1, 2", "dear")):
        c.refuted("MCQuadric", cfg % (shape, costs, rule, "FALSE"))
    c.conform("TraceQuadric", [("merge%d" % j, [exe, "OUT", c.seed * 100 + j, c.pick(150, 2500)]) for j in range(CORES)],
              serial=True)
