"""One function per property.  See DESIGN.md for what each decides and how."""
import concurrent.futures, glob, json, os, random, re

import cli
import vbuild

CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


def bump(v):
    """A different value of the same shape, for the corrupted-trace demonstrations."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1
    if isinstance(v, str):
        return "0x1.8p+3" if v != "0x1.8p+3" else "0x1.cp+3"
    if isinstance(v, list):
        return [bump(v[0])] + v[1:] if v else [1]
    if isinstance(v, dict):
        return {k: bump(x) if i == 0 else x for i, (k, x) in enumerate(v.items())}
    return v


@check("C01")
def c01(ctx):
    strings = os.path.join(ctx.dir, "strings.json")
    ctx.enumerate("TextMC", ctx.pick("TextMC.cfg", "TextMC_deep.cfg"), strings)
    exe = ctx.build([("drv_text", ["drv_text.cpp"], ["scisim"], [])])
    tr = os.path.join(ctx.dir, "text.ndjson")
    ctx.drive(exe, [strings, ctx.seed, ctx.pick(700, 8000)], tr)
    ctx.validate("TextTrace", tr)
    ctx.corrupt_must_reject("TextTrace", tr, lambda o: dict(o, out=o["out"] + 1) if o["e"] == "numright" else None)


@check("C02")
def c02(ctx):
    ctx.model_check("RatMC", "RatMC.cfg")
    hist = os.path.join(ctx.dir, "hist.json")
    ctx.notes["generated_behaviours"] = ctx.generate("RatMC", "RatGen.cfg", hist, ctx.pick(500, 6000), 7)
    exe = ctx.build([("drv_rat", ["drv_rat.cpp"], ["scisim"], [])])
    tr = os.path.join(ctx.dir, "rat.ndjson")
    ctx.drive(exe, [hist, ctx.seed, ctx.pick(600, 20000)], tr)
    ctx.validate("RatTrace", tr, group="new")
    ctx.corrupt_must_reject("RatTrace", tr, lambda o: dict(o, pos=not o["pos"]) if o["e"] == "op" else None)


def corrupt_contact(ctx, module, tr, cfg, field="n"):
    """One contact dropped, and one contact with an altered field: both have to be rejected."""
    def drop(o):
        return dict(o, cs=o["cs"][1:]) if o["e"] == "active" and o["cs"] else None

    def alter(o):
        return dict(o, cs=[dict(o["cs"][0], **{field: bump(o["cs"][0][field])})] + o["cs"][1:]) if o["e"] == "active" and o["cs"] else None
    if field == "n":
        ctx.corrupt_must_reject(module, tr, drop, cfg=cfg, maxlines=400, name="dropped")
    ctx.corrupt_must_reject(module, tr, alter, cfg=cfg, maxlines=400, name="altered")


REPO = os.environ.get("SCISIM_REPO", "/repo")
B2D = ["ball2dutils", "ball2d", "scisim"]


def b2d_contacts(ctx):
    enum = os.path.join(ctx.dir, "enum.json")
    ctx.enumerate("Ball2DEnum", ctx.pick("Ball2DEnum.cfg", "Ball2DEnum_deep.cfg"), enum)
    exe = ctx.build([("drv_b2d", ["drv_b2d.cpp"], B2D, [])])
    tr = os.path.join(ctx.dir, "b2d.ndjson")
    ctx.drive(exe, ["contacts", enum, ctx.seed, ctx.pick(500, 6000)], tr)
    return tr


@check("C03")
def c03(ctx):
    tr = b2d_contacts(ctx)
    ctx.validate("Ball2DContactTrace", tr, cfg="Ball2DContactTrace_detect.cfg")
    corrupt_contact(ctx, "Ball2DContactTrace", tr, "Ball2DContactTrace_detect.cfg")


R2D = ["rigidbody2dutils", "rigidbody2d", "scisim"]


def r2d_contacts(ctx):
    enum = os.path.join(ctx.dir, "enum.json")
    ctx.enumerate("Rigid2DEnum", ctx.pick("Rigid2DEnum.cfg", "Rigid2DEnum_deep.cfg"), enum)
    exe = ctx.build([("drv_r2d", ["drv_r2d.cpp"], R2D, [])])
    tr = os.path.join(ctx.dir, "r2d.ndjson")
    ctx.drive(exe, ["contacts", enum, ctx.seed, ctx.pick(700, 8000)], tr)
    return tr


@check("C04")
def c04(ctx):
    tr = r2d_contacts(ctx)
    ctx.validate("Rigid2DContactTrace", tr, cfg="Rigid2DContactTrace_detect.cfg")
    corrupt_contact(ctx, "Rigid2DContactTrace", tr, "Rigid2DContactTrace_detect.cfg")


R3D = ["rigidbody3dutils", "rigidbody3d", "scisim"]


def r3d_contacts(ctx):
    enum = os.path.join(ctx.dir, "enum.json")
    ctx.enumerate("Rigid3DEnum", ctx.pick("Rigid3DEnum.cfg", "Rigid3DEnum_deep.cfg"), enum)
    exe = ctx.build([("drv_r3d", ["drv_r3d.cpp"], R3D, [])])
    tr = os.path.join(ctx.dir, "r3d.ndjson")
    ctx.drive(exe, ["contacts", enum, ctx.seed, ctx.pick(100, 1500)], tr)
    return tr


@check("C05")
def c05(ctx):
    tr = r3d_contacts(ctx)
    ctx.validate("Rigid3DContactTrace", tr, cfg="Rigid3DContactTrace_detect.cfg")
    corrupt_contact(ctx, "Rigid3DContactTrace", tr, "Rigid3DContactTrace_detect.cfg")


@check("C06")
def c06(ctx):
    for name, tr in (("Ball2D", b2d_contacts(ctx)), ("Rigid2D", r2d_contacts(ctx)), ("Rigid3D", r3d_contacts(ctx))):
        ctx.validate(name + "ContactTrace", tr, cfg=name + "ContactTrace_kinematics.cfg")
        for field in ("rel", "G", "w"):
            corrupt_contact(ctx, name + "ContactTrace", tr, name + "ContactTrace_kinematics.cfg", field)


@check("C07")
def c07(ctx):
    enum = os.path.join(ctx.dir, "enum.json")
    ctx.enumerate("BroadEnum", ctx.pick("BroadEnum.cfg", "BroadEnum_deep.cfg"), enum)
    exes = ctx.build([("drv_grid%d" % k, ["drv_grid.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in ((1, B2D), (2, R2D), (3, R3D))])
    for k, exe in enumerate(exes):
        tr = os.path.join(ctx.dir, "grid%d.ndjson" % (k + 1))
        ctx.drive(exe, [enum, ctx.seed, ctx.pick(500, 6000)], tr)
        ctx.validate("BroadTrace", tr)
        ctx.corrupt_must_reject("BroadTrace", tr, lambda o: dict(o, pairs=o["pairs"][1:]) if o["pairs"] else None)


def steps(ctx, mode):
    exes = ctx.build([("drv_step%d" % k, ["drv_step.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in ((1, B2D), (2, R2D), (3, R3D))])
    out = []
    if mode == "portals":
        enum = os.path.join(ctx.dir, "enum.json")
        ctx.enumerate("PortalEnum", ctx.pick("PortalEnum.cfg", "PortalEnum_deep.cfg"), enum)
    for k, exe in enumerate(exes):
        tr = os.path.join(ctx.dir, "%s%d.ndjson" % (mode, k + 1))
        if mode == "portals":
            ctx.drive(exe, ["portals", enum, ctx.seed, ctx.pick(150, 2500)], tr)
        else:
            ctx.drive(exe, ["steps", ctx.seed, ctx.pick(250, 5000)], tr)
        ctx.validate("StepTrace", tr, cfg="StepTrace_%s.cfg" % mode, group="scene")
        out.append(tr)
    return out


@check("C08")
def c08(ctx):
    ctx.model_check("PortalMC", "PortalMC.cfg")
    for tr in steps(ctx, "portals"):
        ctx.corrupt_must_reject("StepTrace", tr, lambda o: dict(o, q=bump(o["q"])) if o["e"] == "step" else None, cfg="StepTrace_portals.cfg")


@check("C14")
def c14(ctx):
    for tr in steps(ctx, "pipeline"):
        ctx.corrupt_must_reject("StepTrace", tr, lambda o: dict(o, umap=[dict(o["umap"][0], v=bump(o["umap"][0]["v"]))] + o["umap"][1:]) if o["e"] == "step" and o["umap"] else None, cfg="StepTrace_pipeline.cfg")


SIMS = ((1, B2D), (2, R2D), (3, R3D))


@check("C09")
def c09(ctx):
    ctx.model_check("ChainMC", ctx.pick("ChainMC.cfg", "ChainMC_deep.cfg"))
    enum = os.path.join(ctx.dir, "enum.json")
    ctx.enumerate("ChainMC", ctx.pick("ChainEnum.cfg", "ChainEnum_deep.cfg"), enum)
    exes = ctx.build([("drv_ops%d" % k, ["drv_ops.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in SIMS])
    for k, exe in enumerate(exes):
        tr = os.path.join(ctx.dir, "ops%d.ndjson" % (k + 1))
        ctx.drive(exe, [enum, ctx.seed, ctx.pick(400, 6000), ctx.pick(300, 4000)], tr)
        ctx.validate("ImpactTrace", tr)
        for ev in ("lcp", "gr", "grr") + (("gs",) if k != 1 else ()):
            ctx.corrupt_must_reject("ImpactTrace", tr, lambda o: dict(o, a=bump(o["a"])) if o["e"] == ev and (ev != "lcp" or o["max"] > 100000) and o["a"] != o["a0"] else None, maxlines=50)


@check("C10")
def c10(ctx):
    exes = ctx.build([("drv_fric%d" % k, ["drv_fric.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in SIMS])
    for k, exe in enumerate(exes):
        tr = os.path.join(ctx.dir, "fric%d.ndjson" % (k + 1))
        ctx.drive(exe, [ctx.seed, ctx.pick(150 if k == 2 else 300, 2000 if k == 2 else 4000)], tr)
        ctx.validate("FrictionTrace", tr)
        for ev, f in (("sb", "a"), ("sb", "err"), ("sp", "v"), ("sp", "b")):
            ctx.corrupt_must_reject("FrictionTrace", tr, lambda o: dict(o, **{f: bump(o[f])}) if o["e"] == ev and o["a"] != o["a0"] and (ev == "sb" or (len(o["calls"]) == 3 and o["max"] == 1)) else None, maxlines=20)


def maps(ctx):
    return ctx.build([("drv_maps%d" % k, ["drv_maps.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in SIMS])


@check("C17")
def c17(ctx):
    for k, exe in enumerate(maps(ctx)):
        tr = os.path.join(ctx.dir, "maps%d.ndjson" % (k + 1))
        ctx.drive(exe, ["flows", ctx.seed, ctx.pick(500, 8000)], tr)
        ctx.validate("MapsTrace", tr, group="map")
        for f in ("v1", "q1", "empty"):
            ctx.corrupt_must_reject("MapsTrace", tr, lambda o: dict(o, **{f: bump(o[f])}) if o["e"] == "flow" and o["active"][0]["keys"] else None, maxlines=60)


@check("C18")
def c18(ctx):
    hist = os.path.join(ctx.dir, "hist.json")
    ctx.enumerate("CacheMC", ctx.pick("CacheMC.cfg", "CacheMC_deep.cfg"), hist)
    for k, exe in enumerate(maps(ctx)):
        tr = os.path.join(ctx.dir, "cache%d.ndjson" % (k + 1))
        ctx.drive(exe, ["cache", hist, ctx.seed, ctx.pick(900, 12000)], tr)
        ctx.validate("CacheTrace", tr, group="new")
        ctx.corrupt_must_reject("CacheTrace", tr, lambda o: dict(o, got=[bump(o["got"][0])] + o["got"][1:]) if o["e"] == "op" else None, maxlines=60)


def motion(ctx, sims, n):
    exes = ctx.build([("drv_motion%d" % k, ["drv_motion.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in sims])
    for (k, _), exe in zip(sims, exes if isinstance(exes, list) else [exes]):
        tr = os.path.join(ctx.dir, "motion%d.ndjson" % k)
        ctx.drive(exe, [ctx.seed, n], tr)
        ctx.validate("MotionTrace", tr)
        for f in ("q1", "v1", "ahead"):
            ctx.corrupt_must_reject("MotionTrace", tr, lambda o: dict(o, **{f: bump(o[f])}), maxlines=20)


@check("C11")
def c11(ctx):
    motion(ctx, SIMS[:2], ctx.pick(800, 12000))


@check("C12")
def c12(ctx):
    motion(ctx, SIMS[2:], ctx.pick(500, 8000))

def worlds(ctx, mode, n, hist=None):
    for k, exe in enumerate(ctx.build([("drv_state%d" % k, ["drv_state.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in SIMS])):
        tr = os.path.join(ctx.dir, "%s%d.ndjson" % (mode, k + 1))
        ctx.drive(exe, ([mode, hist] if hist else [mode]) + [ctx.seed, n], tr)
        ctx.validate("WorldTrace", tr, group="new")
        for f in ("q", "planes", "fixed"):
            ctx.corrupt_must_reject("WorldTrace", tr, lambda o: dict(o, w=dict(o["w"], **{f: bump(o["w"][f])})) if o["e"] == "op" and o["w"][f] else None, maxlines=60)


@check("C13")
def c13(ctx):
    hist = os.path.join(ctx.dir, "hist.json")
    ctx.enumerate("BodiesMC", ctx.pick("BodiesMC.cfg", "BodiesMC_deep.cfg"), hist)
    worlds(ctx, "edit", ctx.pick(150, 2500), hist)


@check("C19")
def c19(ctx):
    worlds(ctx, "save", ctx.pick(200, 3000))
    for k, exe in enumerate(ctx.build([("drv_parts%d" % k, ["drv_parts.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in SIMS])):
        tr = os.path.join(ctx.dir, "parts%d.ndjson" % (k + 1))
        ctx.drive(exe, [ctx.seed, ctx.pick(300, 5000)], tr)
        ctx.validate("PartsTrace", tr)
        ctx.corrupt_must_reject("PartsTrace", tr, lambda o: dict(o, r=dict(o["r"], again=False)), maxlines=20)


@check("C22")
def c22(ctx):
    mesh = [f for f in (os.path.join(REPO, "rigidbody3d", "Geometry", "RigidBodyTriangleMesh.cpp"),) if os.path.exists(f)]
    a, b = ctx.build([("drv_shape", ["drv_shape.cpp"], R2D, []), ("drv_shape3", ["drv_shape3.cpp"] + mesh, R3D, ["-fsanitize=address"])])
    for exe, n, tr in ((a, ctx.pick(700, 15000), "shape2.ndjson"), (b, ctx.pick(700, 15000), "shape3.ndjson")):
        tr = os.path.join(ctx.dir, tr)
        ctx.drive(exe, [ctx.seed, n], tr, env={"ASAN_OPTIONS": "detect_leaks=0"})
        ctx.validate("ShapeTrace", tr)
        for f in ("m", "I", "lo", "hi") + (("q",) if exe == b else ()):
            ctx.corrupt_must_reject("ShapeTrace", tr, lambda o: dict(o, **{f: bump(o[f])}) if f in o and f != "q" else dict(o, q=[dict(o["q"][0], **{"in": not o["q"][0]["in"]})] + o["q"][1:]) if f in o else None, maxlines=20)


@check("C16")
def c16(ctx):
    for k, exe in enumerate(ctx.build([("drv_report%d" % k, ["drv_report.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in SIMS])):
        tr = os.path.join(ctx.dir, "report%d.ndjson" % (k + 1))
        ctx.drive(exe, [ctx.seed, ctx.pick(400, 8000)], tr)
        ctx.validate("ReportTrace", tr)
        for f in ("K", "U", "E", "p", "L", "L2", "F", "lo", "hi") + (("mid", "rad", "Z") if k == 2 else ()):
            ctx.corrupt_must_reject("ReportTrace", tr, lambda o: dict(o, **{f: bump(o[f])}) if o["n"] else None, maxlines=6)


@check("C15")
def c15(ctx):
    plans = os.path.join(ctx.dir, "plans.json")
    ctx.enumerate("SceneEnum", "SceneEnum.cfg", plans)
    for k, exe in enumerate(ctx.build([("drv_scene%d" % k, ["drv_scene.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in SIMS])):
        tr = os.path.join(ctx.dir, "scene%d.ndjson" % (k + 1))
        ctx.drive(exe, [plans, ctx.seed, ctx.pick(3, 40), ctx.pick(250, 6000)], tr)
        ctx.validate("SceneTrace", tr)
        for f in ("dtq", "same", "w"):
            ctx.corrupt_must_reject("SceneTrace", tr, lambda o: dict(o, r=dict(o["r"], **{f: bump(o["r"][f]) if f != "w" else dict(o["r"]["w"], planes=bump(o["r"]["w"]["planes"]))})) if o["took"] and (f != "w" or o["r"]["w"]["planes"]) else None, maxlines=20)
        ctx.corrupt_must_reject("SceneTrace", tr, lambda o: dict(o, took=True, r={}) if not o["took"] else None, maxlines=400)


def scene_doc(text):
    """A scene file as the document Scene.tla speaks of: per attribute its text, its numbers, and these as integers."""
    import xml.etree.ElementTree as ET

    def attr(w):
        try:
            v = [float(x) for x in w.split()]
        except ValueError:
            v = []
        return {"w": w, "v": [x.hex() for x in v], "i": [int(x) for x in v] if all(x == int(x) and abs(x) < 2 ** 31 for x in v) else []}

    def el(e):
        return {"t": e.tag, "a": {k: attr(w) for k, w in e.attrib.items()}, "c": [el(x) for x in e]}

    try:
        root = ET.fromstring(text)
    except ET.ParseError:
        return "", []
    return root.tag, [el(x) for x in root]


@check("C23")
def c23(ctx):
    raw, tr = os.path.join(ctx.dir, "raw.ndjson"), os.path.join(ctx.dir, "export.ndjson")
    exe = ctx.build([("drv_export", ["drv_export.cpp"], R3D, ["-DWHICH=3"])])
    ctx.drive(exe, [ctx.seed, ctx.pick(500, 12000)], raw)
    with open(tr, "w") as f:
        for l in open(raw):
            o = json.loads(l)
            o["root"], o["doc"] = scene_doc(o["text"])
            f.write(json.dumps(o, separators=(",", ":")) + "\n")
    ctx.validate("ExportTrace", tr)
    for a in ("x", "R", "v", "omega", "rho", "fixed", "geo_idx"):
        def spoil(o):
            for e in o["doc"]:
                if a in e["a"]:
                    if e["a"][a]["i"] and a in ("fixed", "geo_idx"):
                        e["a"][a]["i"] = [1 - e["a"][a]["i"][0]]
                    else:
                        e["a"][a]["v"] = bump(e["a"][a]["v"])
                    return o
        ctx.corrupt_must_reject("ExportTrace", tr, spoil, maxlines=20)
    ctx.corrupt_must_reject("ExportTrace", tr, lambda o: dict(o, ok=not o["ok"]), maxlines=20)
    ctx.corrupt_must_reject("ExportTrace", tr, lambda o: dict(o, doc=o["doc"][:-1]) if o["doc"] else None, maxlines=20)


MAINS = {1: "ball2dcli", 2: "rigidbody2dcli", 3: "rigidbody3dcli"}


def cli_sources(k):
    return sorted(glob.glob(os.path.join(REPO, MAINS[k], "*.cpp")))


def usable(scene):
    t = re.sub(r"<!--.*?-->", "", open(scene, errors="replace").read(), flags=re.S)
    return "<integrator" in t and not re.search(r"ipopt|<scripting|\"mesh\"|\"ql", t)


@check("C20")
def c20(ctx):
    ctx.model_check("RunMC", "RunMC.cfg")
    f = os.path.join(ctx.dir, "plans.json")
    ctx.enumerate("RunMC", ctx.pick("RunEnum.cfg", "RunEnum_deep.cfg"), f)
    plans = [json.loads(l) for l in open(f)]
    fails = [{"K": p["K"], "every": p["every"], "mode": p["mode"], "sessions": p["sessions"][:1]} for p in plans if p["sessions"][0]["point"] == "open"]
    fails = [dict(p, sessions=[dict(p["sessions"][0], point=x)]) for p in fails for x in ("fail-open", "fail-write", "fail-rename")]
    refs = ctx.build([("drv_cliref%d" % k, ["drv_cliref.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in SIMS])
    for k, exe in enumerate(ctx.build([("cli%d" % k, cli_sources(k) + ["cli_io.cpp"], lib, []) for k, lib in SIMS]), 1):
        rng = random.Random(ctx.seed * 31 + k)
        ps = rng.sample(plans, min(len(plans), ctx.pick(70, 2500))) + rng.sample(fails, min(len(fails), ctx.pick(18, 150)))
        # bodies that lean on each other throughout, resumed from every frame of an uninterrupted run
        ps += [{"K": 5, "every": 1, "mode": "each", "lean": True, "sessions": [{"from": -1, "at": -1, "point": "none"}]}] * ctx.pick(60, 1500)
        assets = [a for a in sorted(glob.glob(os.path.join(REPO, "assets", MAINS[k][:-3], "**", "*.xml"), recursive=True)) if usable(a)]
        rng.shuffle(assets)
        tr = os.path.join(ctx.dir, "resume%d.ndjson" % k)
        cli.record_resume(exe, refs[k - 1], k, os.path.join(ctx.dir, "w"), ps, ctx.seed, tr, assets[:ctx.pick(12, 200)])
        ctx.validate("ResumeTrace", tr, group="full")
        ctx.corrupt_must_reject("ResumeTrace", tr, lambda o: dict(o, disk=o["disk"][:-1] + [[o["disk"][-1][0], "0"]]) if o["e"] == "session" and o["disk"] else None, maxlines=20)
        ctx.corrupt_must_reject("ResumeTrace", tr, lambda o: dict(o, disk=o["disk"][:-1]) if o["e"] == "session" and o["disk"] else None, maxlines=20)


@check("C21")
def c21(ctx):
    refs = ctx.build([("drv_cliref%d" % k, ["drv_cliref.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in SIMS])
    exes = ctx.build([("clis%d" % k, cli_sources(k) + ["cli_io.cpp", "cli_script.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in SIMS])
    for k in (1, 2, 3):
        tr = os.path.join(ctx.dir, "run%d.ndjson" % k)
        cli.record_runs(exes, refs, k, os.path.join(ctx.dir, "w"), ctx.seed, ctx.pick(130, 3000), tr)
        ctx.validate("RunTrace", tr, group="run")
        ctx.corrupt_must_reject("RunTrace", tr, lambda o: dict(o, it=o["it"] + 1) if o["e"] == "stepStart" else None, maxlines=60)
        ctx.corrupt_must_reject("RunTrace", tr, lambda o: dict(o, code=1 - o["code"]) if o["e"] == "exit" and o["code"] < 2 else None, maxlines=60)
        ctx.corrupt_must_reject("RunTrace", tr, lambda o: dict(o, num=o["num"] + 1) if o["e"] == "save" and o["num"] >= 0 else None, maxlines=400)


@check("C24")
def c24(ctx):
    ctx.model_check("WholeMC", ctx.pick("WholeMC.cfg", "WholeMC_deep.cfg"))
    exes = ctx.build([("drv_whole%d" % k, ["drv_whole.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in SIMS])
    for k, exe in enumerate(exes):
        tr = os.path.join(ctx.dir, "whole%d.ndjson" % (k + 1))
        ctx.drive(exe, [ctx.seed, ctx.pick(900, 15000)], tr)
        ctx.validate("WholeTrace", tr, group="world")
        last = {}

        def spoil(o, f):
            if o["e"] == "world":
                last["w"] = o
            w = last.get("w")
            plain = w and not w["pushy"] and not w["shear"] and not w["portals"] and not any(w["fixed"])
            return dict(o, **{f: [bump(x) for x in o[f]]}) if o["e"] == "step" and not o["cs"] and plain else None
        for f in ("q", "v"):
            ctx.corrupt_must_reject("WholeTrace", tr, lambda o: spoil(o, f), maxlines=1000)


@check("C25")
def c25(ctx):
    ctx.model_check("LoneMC", ctx.pick("LoneMC.cfg", "LoneMC_deep.cfg"))
    exes = ctx.build([("drv_lone%d" % k, ["drv_lone.cpp"], lib, ["-DWHICH=%d" % k]) for k, lib in SIMS])
    for k, exe in enumerate(exes):
        tr = os.path.join(ctx.dir, "lone%d.ndjson" % (k + 1))
        ctx.drive(exe, [ctx.seed, ctx.pick(700, 12000)], tr)
        ctx.validate("LoneTrace", tr, group="world")

        def spoil(o, f):
            lone = o["e"] == "step" and o["ok"] and len(o["cs"]) == 1
            return dict(o, **{f: [bump(x) for x in o[f]]}) if lone else None
        for f in ("q", "v"):
            ctx.corrupt_must_reject("LoneTrace", tr, lambda o: spoil(o, f), maxlines=1000)
        last = {}

        def forget(o):
            hard = "v" in last and o["e"] == "step" and o["ok"] and len(o["cs"]) == 1 and max(abs(float.fromhex(x) - float.fromhex(y)) for x, y in zip(o["v"], last["v"])) > 1.0
            last["v"] = o["v"]
            return dict(o, cs=[]) if hard else None
        ctx.corrupt_must_reject("LoneTrace", tr, forget, maxlines=1000)


PYSITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


@check("C26")
def c26(ctx):
    ctx.model_check("ScriptMC", ctx.pick("ScriptMC.cfg", "ScriptMC_deep.cfg"))
    flags = "-DUSE_PYTHON -DNPY_TARGET_VERSION=NPY_2_0_API_VERSION -I%s/drivers/pyshim -I/usr/include/python3.12 -I%s/numpy/_core/include -lpython3.12" % (vbuild.VERIF, PYSITE)
    exes = ctx.build([("drv_script%d" % k, ["drv_script.cpp", os.path.join(vbuild.REPO, "scisim/PythonObject.cpp")], lib, ["-DWHICH=%d" % k]) for k, lib in SIMS], extra_flags=flags, tag="py")
    trs = [os.path.join(ctx.dir, "script%d.ndjson" % (k + 1)) for k in range(3)]
    env = {"PYTHONPATH": PYSITE, "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1"}
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for r in [ex.submit(ctx.drive, exe, [os.path.join(vbuild.VERIF, "drivers"), ctx.seed, ctx.pick(250, 4000)], tr, timeout=700, env=env) for exe, tr in zip(exes, trs)]:
            r.result()
    for k, tr in enumerate(trs):
        ctx.validate("ScriptTrace", tr, group="world")
        few = dict(maxlines=1500)
        ctx.corrupt_must_reject("ScriptTrace", tr, lambda o: dict(o, rx=[bump(x) for x in o["rx"]]) if o["e"] == "call" and o["rx"] and o["f"] != "timestep" else None, **few) if k != 1 else None
        ctx.corrupt_must_reject("ScriptTrace", tr, lambda o: dict(o, rk=[o["rk"][0] + 1]) if o["e"] == "call" and o["f"] == "numStaticPlanes" else None, **few)
        ctx.corrupt_must_reject("ScriptTrace", tr, lambda o: dict(o, w=dict(o["w"], v=[bump(x) for x in o["w"]["v"]])) if o["e"] == "end" and o["w"]["v"] else None, **few)
        ctx.corrupt_must_reject("ScriptTrace", tr, lambda o: dict(o, cb="endOfSim" if o["cb"] != "endOfSim" else "startOfSim") if o["e"] == "enter" else None, **few)
        ctx.corrupt_must_reject("ScriptTrace", tr, lambda o: dict(o, code=1 - o["code"], on=not o["on"]) if o["e"] == "edge" else None, **few)
        swap = lambda p: dict(p, x=p["v"], v=p["x"])
        ctx.corrupt_must_reject("ScriptTrace", tr, lambda o: dict(o, w=dict(o["w"], planes=[swap(p) for p in o["w"]["planes"]])) if o["e"] == "end" and o["w"]["planes"] else None, **few)
