"""Runs the command-line simulators and records what they did."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, tempfile

CUT = 77
TAGS = {1: "ball2d_scene", 2: "rigidbody2d_scene", 3: "rigidbody3d_scene"}
DTS = ["0.01", "0.010", "1/100", "0.125", "1/64", "0.0005", "0.02", "1/60", "0.2", "3/40", "0.0625", "1/24"]


def frac(s):
    from fractions import Fraction
    f = Fraction(s)
    return [f.numerator, f.denominator]


def scene(k, rng, dt, end, script=False, lean=False):
    """A small lively scene: bodies that meet each other and the walls, a portal, gravity, one of the solvers."""
    n = rng.randint(1, 4)
    p = lambda *a: " ".join("%.17g" % x for x in a)
    u = rng.uniform
    # what each simulator can do without the optional solvers
    mode = rng.choice({1: ["free", "gs", "lcp", "gr", "geo", "geo", "stab", "se"], 2: ["free", "geo", "geo", "stab"], 3: ["free", "gs", "geo", "geo", "stab", "se"]}[k])
    if lean:
        mode = rng.choice({1: ["geo", "stab", "se", "lcp", "gr"], 2: ["geo", "stab"], 3: ["geo", "se", "se"]}[k])
    portal = rng.random() < (0.1 if lean else 0.4)
    heap = lean or mode not in ("free", "gs") and rng.random() < 0.6   # bodies that lean on each other, on the ground and on fixed ones, throughout
    if heap:
        n = rng.randint(2, 4)
    plain = mode == "gs"                          # resolves contacts between balls only
    keep = 0 if portal else rng.randint(0, 1)     # contacts across portals are not kept between steps
    cache = "none" if portal or mode == "stab" else rng.choice(["none", "normal", "normal_and_friction"] + ["normal", "normal_and_friction"] * heap)
    if k == 3 and mode == "geo" and cache == "normal_and_friction":
        cache = "normal"                          # the other is not implemented there
    stuck = [rng.random() < (0.2 if heap else 0.15) for _ in range(n)]
    if heap and rng.random() < 0.7:
        stuck[-1] = True                          # downhill of the others
        stuck[0] = False
    ground = lambda x, r: -1.2 - 0.1 * x + 1.005 * r - (0.004 if heap else 0)   # where a ball of radius r at x lies on the ground
    slow = 0.3 if heap else 1.0
    lcp = '<solver name="apgd" tol="1.0e-8" max_iters="200"/>'
    solver = {
        "free": "",
        "gs": '<impact_operator type="gauss_seidel" CoR="%.3g" v_tol="1.0e-6"%s/>' % (u(0, 1), ' cache_impulses="%d"' % keep if k != 3 else ""),
        "lcp": '<impact_operator type="lcp" CoR="%.3g"%s>%s</impact_operator>' % (u(0, 1), ' cache_impulses="%d"' % keep if k != 3 else "", lcp),
        "gr": '<impact_operator type="gr" CoR="%.3g" v_tol="1.0e-3"%s>%s</impact_operator>' % (u(0, 1), ' cache_impulses="%d"' % keep if k != 3 else "", lcp),
    }.get(mode)
    if solver is None:
        cor = 0.0 if mode == "se" or (heap and rng.random() < 0.7) else u(0, 1)
        solver = '<sobogus_friction_solver mu="%.3g" CoR="%.3g" max_iters="%d" eval_every="%d" tol="%s" staggering="%s" cache_impulses="%s"%s/>' % (
            u(0, 1), cor, rng.choice([60, 60, 5, 8]), rng.choice([1, 5]), rng.choice(["1.0e-9", "1.0e-5", "1.0e-3"]), {"geo": "geometric", "stab": "stabilized", "se": "symplectic_euler"}[mode], cache,
            rng.choice([' stabilization="0" penetration_threshold="0"', ' stabilization="1" penetration_threshold="0.001"']) if mode == "se" else "")
    o = ["<%s>" % TAGS[k]]
    if script:
        o.append('<scripting callback="watched"/>')
    if end is not None:
        o.append('<end_time t="%s"/>' % end)
    integ = rng.choice(["symplectic_euler", "verlet"] if k != 3 else ["split_ham", "dmv", "exponential_euler"])
    if mode in ("se", "stab") and k != 3:
        integ = "symplectic_euler"
    o.append('<integrator type="%s" dt="%s"/>' % (integ, dt))
    o.append(solver)
    if k == 1:
        if not plain:
            o.append('<gravity fx="%.3g" fy="-10"/>' % u(-1, 1))
            o.append('<static_plane x="0 -1.2" n="0.1 1"/><static_plane x="-3 0" n="1 0"/><static_plane x="3 0" n="-1 0"/>')
        o.append(rng.choice(['<planar_portal planeA="1" planeB="2"/>', '<lees_edwards_portal planeA="1" planeB="2" v="0.7" bounds="2.5"/>']) if portal and not plain else "")
        if rng.random() < 0.3 and not plain:
            o.append('<static_drum x="0" y="0" r="4"/>')
        for i in range(n):
            r = u(0.3, 0.5)
            x = (-2 if i == 0 else x + (rl + r) * 0.985) if heap else -2 + 1.1 * i
            rl = r
            o.append('<ball x="%.9g" y="%.9g" vx="%.9g" vy="%.9g" m="%.9g" r="%.9g" fixed="%d"/>' % (
                x, ground(x, r) if heap else u(-0.6, 0.4), slow * u(-4, 4), slow * u(-4, 4), u(0.5, 2), r, stuck[i]))
    elif k == 2:
        o.append('<near_earth_gravity f="%.3g -10"/>' % u(-1, 1))
        o.append('<static_plane x="0 -1.2" n="0.1 1"/><static_plane x="-3 0" n="1 0"/><static_plane x="3 0" n="-1 0"/>')
        o.append(rng.choice(['<planar_portal planeA="1" planeB="2"/>', '<lees_edwards_portal planeA="1" planeB="2" v="0.7" bounds="2.5"/>']) if portal and not plain else "")
        r = u(0.3, 0.45)
        o.append('<geometry type="circle" r="%.9g"/><geometry type="box" r="%s"/>' % (r, p(u(0.2, 0.4), u(0.2, 0.4))))
        boxes = cache == "none" and rng.random() < 0.5
        for i in range(n):
            o.append('<rigid_body x="%s" theta="%.9g" v="%s" omega="%.9g" rho="%.9g" geo_idx="%d" fixed="%d"/>' % (
                p(*((-2 + 1.97 * r * i, ground(-2 + 1.97 * r * i, r)) if heap else (-2 + 1.1 * i, u(-0.5, 0.4)))), u(-3, 3), p(slow * u(-4, 4), slow * u(-4, 4)), u(-3, 3), u(0.5, 2),
                i % 2 and boxes, not boxes and stuck[i]))
    else:
        o.append('<near_earth_gravity f="%.3g -10 0"/>' % u(-1, 1))
        o.append('<static_plane x="0 -1.2 0" n="0.1 1 0"/><static_plane x="-3 0 0" n="1 0 0"/><static_plane x="3 0 0" n="-1 0 0"/>')
        o.append(rng.choice(['<planar_portal planeA="1" planeB="2" multiplier="1 1 1"/>']) if portal else "")
        boxes = cache == "none" and not plain and rng.random() < 0.4
        if rng.random() < 0.3 and not plain and not boxes:
            o.append('<static_cylinder x="0 0 0" axis="0 0 1" R="4"/>')
        r = u(0.3, 0.45)
        o.append('<geometry type="sphere" r="%.9g"/><geometry type="box" r="%s"/>' % (r, p(u(0.2, 0.4), u(0.2, 0.4), u(0.2, 0.4))))
        for i in range(n):
            o.append('<rigid_body_with_density x="%s" v="%s" omega="%s" rho="%.9g" fixed="%d" geo_idx="%d"/>' % (
                p(*((-2 + 1.97 * r * i, ground(-2 + 1.97 * r * i, r)) if heap else (-2 + 1.1 * i, u(-0.5, 0.4))), u(-0.005, 0.005) if heap else u(-0.2, 0.2)), p(slow * u(-4, 4), slow * u(-4, 4), u(-1, 1)),
                p(u(-3, 3), u(-3, 3), u(-3, 3)), u(0.5, 2), stuck[i], boxes))
    o.append("</%s>" % TAGS[k])
    return "\n".join(o) + "\n", n


def runnable(ref, k, rng, d0, dt, end, steps, script=False, lean=False):
    """A scene the simulator itself can carry through: some pairs of shapes, static objects and solvers
    are not implemented, and a run then stops with a message."""
    for _ in range(12):
        text, n = scene(k, rng, dt, end, script, lean)
        open(os.path.join(d0, "scene.xml"), "w").write(text)
        r = fresh(d0, "try")
        if call(ref, ["scene.xml", str(steps), r], d0)[0] == 0:
            return text, n
    return None, 0


def digest(path):
    return hashlib.sha1(open(path, "rb").read()).hexdigest()


def snapshots(d):
    return sorted(f for f in os.listdir(d) if re.fullmatch(r"serial(_\d+)?\.bin", f))


HUNG = []                                         # runs that had to be ended


def call(exe, args, cwd, env=None, timeout=60):
    """Runs a program within bounds: one that never ends, or writes without end, is ended."""
    e = dict(os.environ)
    e.update(env or {})
    err = ""
    for attempt in (1, 2):
        with tempfile.TemporaryFile("w+b") as so, tempfile.TemporaryFile("w+b") as se:
            try:
                p = subprocess.run(["bash", "-c", 'ulimit -f 65536 -v 8388608; exec "$0" "$@"', exe, *args], cwd=cwd, env=e, stdout=so, stderr=se, timeout=timeout,
                                   stdin=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                err = "timed out"
                continue
            if p.returncode == -signal.SIGXFSZ:
                err = "wrote without end"
                continue
            so.seek(0), se.seek(0)
            return p.returncode, so.read().decode(errors="replace"), se.read().decode(errors="replace")
    HUNG.append(exe)
    return -1000, "", err


def fresh(*parts):
    d = os.path.join(*parts)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


# ---- cut short and resumed -----------------------------------------------------------------------------
def resume_case(exe, ref, k, base, plan, rng_seed, asset=None):
    if len(HUNG) > 3:
        return []                                 # those recorded already tell
    rng = random.Random(rng_seed)
    if asset:
        text = open(asset, errors="replace").read()
        t = re.sub(r"<!--.*?-->", "", text, flags=re.S)
        dt = re.search(r'<integrator[^>]*dt\s*=\s*"([^"]*)"', t).group(1)
    else:
        dt = rng.choice([d for d in DTS if (not plan.get("lean") or eval(d) < 0.03) and frac(d)[1] % (frac(d)[0] * plan["every"]) == 0 and frac(d)[1] // (frac(d)[0] * plan["every"]) > 0])
    n, d = frac(dt)
    end = "%.17g" % ((plan["K"] - 0.5) * n / d)
    d0 = fresh(base)
    scn = os.path.join(d0, "scene.xml")
    if asset:
        open(scn, "w").write(text)
        if call(ref, ["scene.xml", str(plan["K"]), fresh(d0, "try")], d0)[0] != 0:
            return []
    else:
        text, _ = runnable(ref, k, rng, d0, dt, rng.choice([end, "1e9"]), plan["K"], lean=plan.get("lean", False))
        if text is None:
            return []
    hz = d // (n * plan["every"]) if d % (n * plan["every"]) == 0 else None
    if hz is None:
        return []
    opts = ["-s", "0" if plan["mode"] == "one" else "1", "-e", end, "-f", str(hz)]
    shots, full = fresh(d0, "shots"), fresh(d0, "full")
    code, out, err = call(exe, [scn] + opts, full, {"CLI_SHOTS": shots})
    got = {}
    for f in os.listdir(shots):
        i, name = f.split("-", 1)
        got.setdefault(int(i), {})[name] = digest(os.path.join(shots, f))
    names, c = [], []
    for i in range(max(got, default=-1) + 1):
        # the file this save made or changed
        prev = got.get(i - 1, {})
        new = [x for x in sorted(got.get(i, {})) if x not in prev or prev[x] != got[i][x]]
        name = new[0] if new else "serial.bin"
        names.append(name)
        c.append(got.get(i, {}).get(name, "none"))
    ev = [{"e": "full", "sim": k, "exit": code, "n": names, "c": c, "scene": asset or text, "args": opts, "err": err[-300:], "plan": plan}]
    if code != 0:
        return ev
    w = fresh(d0, "w")
    disk = lambda: [[f, digest(os.path.join(w, f))] for f in snapshots(w)]
    for s in plan["sessions"]:
        env = {"CLI_AT": "%d %s" % (s["at"] - max(s["from"], 0), s["point"])} if s["at"] >= 0 else {}
        if s["from"] < 0:
            code, out, err = call(exe, [scn] + opts, w, env)
        else:
            f = names[s["from"]] if s["from"] < len(names) else "serial.bin"
            if not os.path.exists(os.path.join(w, f)):
                break
            code, out, err = call(exe, ["-r", f], w, env)
        ev.append({"e": "session", "sim": k, "from": s["from"], "at": s["at"], "point": s["point"], "exit": code if code >= 0 else 1000 - code, "disk": disk()})
        if code == 0 and s["at"] >= 0:
            break                                 # the point was never reached: the run is over
    if plan["mode"] == "each" and code == 0:
        for f in range(len(names)) if plan.get("lean") else rng.sample(range(len(names)), min(2, len(names))):
            a = fresh(d0, "away")
            code, out, err = call(exe, ["-r", os.path.join(w, names[f])], a)
            ev.append({"e": "away", "sim": k, "from": f, "exit": code if code >= 0 else 1000 - code, "disk": [[x, digest(os.path.join(a, x))] for x in snapshots(a)]})
    shutil.rmtree(d0, ignore_errors=True)
    return ev


def record_resume(exe, ref, k, base, plans, seed, out, assets=()):
    jobs = [(p, None) for p in plans] + [(plans[i % len(plans)], a) for i, a in enumerate(assets)]
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: resume_case(exe, ref, k, os.path.join(base, "j%d" % j[0]), j[1][0], seed * 1000003 + j[0], j[1][1]), enumerate(jobs)))
    with open(out, "w") as f:
        for r in rs:
            for e in r:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
    return sum(len(r) for r in rs)


# ---- the schedule of a run -----------------------------------------------------------------------------
def split_name(n):
    m = re.fullmatch(r"(serial)_(\d+)\.bin", n)
    return {"name": n, "base": m.group(1), "num": int(m.group(2)), "w": len(m.group(2))} if m else {"name": n, "base": "", "num": -1, "w": 0}


def run_case(exe, ref, k, base, rng_seed, fault):
    if len(HUNG) > 3:
        return []                                 # those recorded already tell
    rng = random.Random(rng_seed)
    d0 = fresh(base)
    dt = rng.choice(DTS)
    n, d = frac(dt)
    K = rng.choice([1, 2, 3, 5, 9, 10, 11, 12])
    style = rng.choice(["mid", "on", "just", "short"])
    exact = K * n / d
    end = {"mid": (K - 0.4) * n / d, "on": exact, "just": exact * (1 + 1e-7), "short": exact * (1 - 1e-7)}[style]
    end = "%.17g" % end
    src = rng.choice(["scene", "opt", "both"])
    other = "%.17g" % (rng.choice([0.5, 3]) * n / d)
    send = end if src == "scene" else other if src == "both" else None
    text, bodies = runnable(ref, k, rng, d0, dt, send, K + 1, True)
    if text is None:
        return []
    opts = []
    num = lambda key, v: opts.append(({"k": key, "w": "num", "v": v}, v))
    if src != "scene":
        num("e", end)
    if rng.random() < 0.75:
        num("s", rng.choice("01"))
    if rng.random() < 0.6:
        num("f", str(rng.choice([0] + [x for x in (1, 2, 3, 4, 5, 10, 12, 16, 20, 25, 30, 50, 60, 100, 1000) if d % (n * x) == 0 or rng.random() < 0.06])))
    scenes, kind = [os.path.join(d0, "scene.xml")], "good"
    if fault == "word":
        key = rng.choice("sef")
        opts.append(({"k": key, "w": "word", "v": "0"}, "abc"))
    elif fault == "value":
        key = rng.choice("se")
        v = rng.choice(["0", "-1", "-0.25"]) if key == "e" else "2"
        num(key, v)
    elif fault == "unknown":
        opts.append(({"k": "?", "w": "none", "v": "0"}, None))
    elif fault == "none":
        scenes = []
    elif fault == "two":
        scenes = scenes * 2
    elif fault == "missing":
        scenes, kind = [os.path.join(d0, "nothing.xml")], "missing"
    elif fault == "bad":
        text, kind = text.replace("dt=", "tick=", 1), "bad"
    elif fault == "root":
        text, kind = text.replace(TAGS[k], "some_scene"), "bad"
    elif fault == "timeless":
        text, kind = re.sub(r"<(integrator|impact_op|sobogus)[^>]*>", "", text), "timeless" if k == 2 else "bad"
        text = text.replace("</impact_operator>", "")
    elif fault == "help":
        opts.append(({"k": "h", "w": "none", "v": "0"}, None))
    elif fault == "again":
        num("s", rng.choice("01"))
        num("e", end)
    elif fault == "rate":
        num("f", str(rng.choice([7, 9, 11, 13, 100000])))
    open(os.path.join(d0, "scene.xml"), "w").write(text)
    rng.shuffle(opts) if fault not in ("again",) else None
    long = {"s": "--serialize_snapshots", "e": "--end", "f": "--frequency", "h": "--help"}
    args = []
    for o, v in opts:
        if o["k"] == "?":
            args.append(rng.choice(["-z", "--nonsense"]))
            continue
        args.append(rng.choice(["-" + o["k"], long[o["k"]]]))
        if v is not None:
            args.append(v)
    args = scenes + args if rng.random() < 0.5 else args + scenes
    w = fresh(d0, "w")
    log = os.path.join(d0, "log")
    code, out, err = call(exe, args, w, {"CLI_LOG": log})
    ev = [{"e": "run", "sim": k, "dt": [n, d], "text": len(dt.split(".")[1]) if "." in dt else -1, "end": send if send is not None else "never",
           "opts": [o for o, _ in opts], "scenes": len(scenes), "scene": kind, "bodies": bodies, "n": bodies * {1: 2, 2: 3, 3: 12}[k],
           "args": args, "xml": text}]
    lines = open(log).read().splitlines() if os.path.exists(log) else []
    pend = None
    seq = []
    for x in lines:
        t = x.split()
        if t[0] == "r" and seq and seq[-1]["e"] == "save" and seq[-1]["name"] == t[1]:
            seq[-1] = dict({"e": "save", "sim": k}, **split_name(t[2]))
        elif t[0] == "w":
            seq.append(dict({"e": "save", "sim": k}, **split_name(t[1])))
        elif t[0] in "SE":
            seq.append({"e": "startSim" if t[0] == "S" else "endSim", "sim": k, "n": int(t[1])})
        elif t[0] in "se":
            seq.append({"e": "stepStart" if t[0] == "s" else "stepEnd", "sim": k, "it": int(t[1]), "dt": [int(t[2]), int(t[3])]})
    ev += seq
    said = []
    for m in re.finditer(r"Serializing: (\S+) to (\S+)", out):
        s = split_name(m.group(2))
        s.update(t=m.group(1), dig=len(m.group(1).split(".")[1]) if "." in m.group(1) else 0)
        said.append(s)
    m = re.search(r"Simulation complete at time (\S+)\. Exiting", out)
    b = re.search(r"Body count: (\d+)", out)
    files = []
    names = sorted(os.listdir(w))
    if names and code == 0 and kind == "good":
        r = fresh(d0, "ref")
        steps = sum(1 for x in seq if x["e"] == "stepStart")
        rc, _, _ = call(ref, [scenes[0], str(steps), r], d0)
        refs = {int(f): open(os.path.join(r, f), "rb").read() for f in os.listdir(r)}
        for f in names:
            c = open(os.path.join(w, f), "rb").read()
            files.append(dict(split_name(f), holds=[i for i in sorted(refs) if refs[i] and refs[i] in c]))
    else:
        files = [dict(split_name(f), holds=[]) for f in names]
    ev.append({"e": "exit", "sim": k, "code": code if code >= 0 else 1000 - code, "lines": said, "done": m.group(1) if m else "-1", "bodies": int(b.group(1)) if b else -1,
               "files": files, "usage": "Usage:" in out, "said": bool(err.strip()), "err": err[-300:]})
    shutil.rmtree(d0, ignore_errors=True)
    return ev


FAULTS = ["timeless", "word", "value", "unknown", "none", "two", "missing", "bad", "root", "help", "again", "rate"]


def record_runs(exes, refs, k, base, seed, n, out):
    exe, ref = exes[k - 1], refs[k - 1]
    jobs = list(range(n))
    pick = lambda i: FAULTS[(i // 3) % len(FAULTS)] if i % 3 == 0 else ""
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda i: run_case(exe, ref, k, os.path.join(base, "r%d_%d" % (k, i)), seed * 7919 + i, pick(i)), jobs))
    # resume options that name no snapshot of this simulator
    d0 = fresh(base, "bad%d" % k)
    rng = random.Random(seed)
    text, _ = scene(3 - k if k < 3 else 1, rng, "0.01", "0.015")
    o = 3 - k if k < 3 else 1
    open(os.path.join(d0, "o.xml"), "w").write(text)
    call(exes[o - 1], [os.path.join(d0, "o.xml"), "-s", "0"], d0)
    open(os.path.join(d0, "junk"), "wb").write(b"junk that is no snapshot at all" * 4)
    open(os.path.join(d0, "empty"), "wb").write(b"")
    for what in ("serial.bin", "junk", "nothing", "empty"):
        w = fresh(d0, "w")
        code, _, err = call(exe, ["-r", os.path.join(d0, what)], w)
        rs.append([{"e": "badresume", "sim": k, "what": what, "code": code if code >= 0 else 1000 - code, "said": bool(err.strip()), "files": os.listdir(w)}])
    shutil.rmtree(d0, ignore_errors=True)
    with open(out, "w") as f:
        for r in rs:
            for e in r:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
    return sum(len(r) for r in rs)
