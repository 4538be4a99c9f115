# Makes random calls of a simulator's scripting interface, and logs each with its answer.
import json, random
import numpy as np
import rec
M = __import__(rec.get("sim"))
SIM = rec.get("sim")
rnd = random.Random(rec.get("pick"))
D = 3 if SIM == "rigidbody3d" else 2


def real(lo=-3.0, hi=3.0):
    return rnd.choice([lo + (hi - lo) * rnd.random(), lo + (hi - lo) * rnd.random(), float(rnd.randint(int(lo) + 1, int(hi)))])


def unit(k):
    while True:
        x = np.array([real(-1, 1) for _ in range(k)])
        x = x + (np.array([0.0, 1.5, 0.0]) if k == 3 else 0.0)
        s = float(np.linalg.norm(x))
        if s > 0.2:
            return [float(a) for a in x / s]


def log(e, f, k=(), x=(), rk=(), rx=(), rs="", **more):
    o = {"e": e, "f": f, "k": [int(a) for a in k], "x": [rec.fmt(float(a)) for a in x], "rk": [int(a) for a in rk], "rx": [rec.fmt(float(a)) for a in rx], "rs": rs}
    o.update(more)
    rec.log(json.dumps(o, separators=(",", ":")))


def nplanes():
    return M.numStaticPlanes()


# ---- questions ----
def timestep(): log("call", "timestep", rx=[M.timestep()])
def nextIteration(): log("call", "nextIteration", rk=[M.nextIteration()])
def numStaticPlanes(): log("call", "numStaticPlanes", rk=[M.numStaticPlanes()])
def configuration(): log("call", "configuration", rx=M.configuration())
def velocity(): log("call", "velocity", rx=M.velocity())


def writable(which):
    a = getattr(M, which)()
    n = len(a) // 4 if SIM == "rigidbody3d" and which == "configuration" else len(a)
    return a, n


def write(which):
    a, n = writable(which)
    if n:
        i = rnd.randrange(n)
        x = real()
        a[i] = x
        log("call", which + "[]", k=[i], x=[x])


def write_q(): write("configuration")
def write_v(): write("velocity")


# ---- planes ----
def plane():
    n = nplanes()
    return rnd.randrange(n) if n else None


def on_plane(f, xs):
    i = plane()
    if i is not None:
        getattr(M, f)(i, *xs)
        log("call", f, k=[i], x=xs)


def setStaticPlanePosition(): on_plane("setStaticPlanePosition", [real() for _ in range(D)])
def setStaticPlaneVelocity(): on_plane("setStaticPlaneVelocity", [real() for _ in range(D)])
def setStaticPlaneNormal(): on_plane("setStaticPlaneNormal", [rnd.choice([1.0, 0.5, 3.0]) * a for a in unit(2)])
def setStaticPlaneAngularVelocity(): on_plane("setStaticPlaneAngularVelocity", [real()])


def deleteStaticPlane():
    if rnd.random() < 0.5:
        on_plane("deleteStaticPlane", [])


# ---- bodies ----
def insertBall():
    x = [real() for _ in range(4)] + [real(0.1, 2.0) + 0.01, real(0.1, 2.0) + 0.01]
    f = rnd.randint(0, 1)
    M.insertBall(*x, f)
    log("call", "insertBall", k=[f], x=x)


def numGeometryInstances(): log("call", "numGeometryInstances", rk=[M.numGeometryInstances()])
def num_bodies(): log("call", "num_bodies", rk=[M.num_bodies()])
def num_geometry(): log("call", "num_geometry", rk=[M.num_geometry()])


def addCircleGeometry():
    r = real(0.1, 2.0) + 0.01
    M.addCircleGeometry(r)
    log("call", "addCircleGeometry", x=[r])


def addBody():
    n = M.num_geometry()
    if n:
        x = [real() for _ in range(6)] + [real(0.1, 2.0) + 0.01]
        k = [rnd.randrange(n), rnd.randint(0, 1)]
        M.addBody(*x, *k)
        log("call", "addBody", k=k, x=x)


def listed(ks):
    """The indices as an array: plain, every other element of a longer one, or backwards in memory."""
    how = rnd.randint(0, 3)
    a = np.array(ks, dtype=np.uint32)
    if how == 1:
        b = np.zeros(2 * len(ks), dtype=np.uint32)
        b[::2] = a
        return b[::2]
    if how == 2:
        return np.array(ks[::-1], dtype=np.uint32)[::-1]
    if how == 3:
        b = np.zeros((len(ks), 3), dtype=np.uint32)
        b[:, 1] = a
        return b[:, 1]
    return a


def some(n):
    ks = [i for i in range(n) if rnd.random() < rnd.choice([0.2, 0.5])]
    if ks and rnd.random() < 0.4:
        ks.append(rnd.choice(ks))
    rnd.shuffle(ks)
    return ks


def delete_bodies():
    if rnd.random() < 0.6:
        ks = some(M.num_bodies())
        M.delete_bodies(listed(ks))
        log("call", "delete_bodies", k=ks)


def delete_geometry():
    # shapes made here, some of which get a body; any of the others go
    n = M.num_geometry()
    k = rnd.randint(1, 4)
    for _ in range(k):
        addCircleGeometry()
    used = set()
    for _ in range(rnd.randint(0, 2)):
        i = rnd.randrange(k)
        used.add(n + i)
        x = [real() for _ in range(6)] + [real(0.1, 2.0) + 0.01]
        M.addBody(*x, n + i, 0)
        log("call", "addBody", k=[n + i, 0], x=x)
    ks = [n + i for i in some(k) if n + i not in used]
    M.delete_geometry(listed(ks))
    log("call", "delete_geometry", k=ks)


# ---- three dimensions ----
def numStaticCylinders(): log("call", "numStaticCylinders", rk=[M.numStaticCylinders()])


def on_cyl(f, xs):
    n = M.numStaticCylinders()
    if n:
        i = rnd.randrange(n)
        getattr(M, f)(i, *xs)
        log("call", f, k=[i], x=xs)


def setStaticCylinderOrientation(): on_cyl("setStaticCylinderOrientation", unit(3) + [real()])
def setStaticCylinderAngularVelocity(): on_cyl("setStaticCylinderAngularVelocity", [real() for _ in range(3)])
def numForces(): log("call", "numForces", rk=[M.numForces()])


def forceType():
    n = M.numForces()
    if n:
        i = rnd.randrange(n)
        log("call", "forceType", k=[i], rs=M.forceType(i))


def setGravityForce():
    n = M.numForces()
    if n:
        i = rnd.randrange(n)
        x = [real(-9, 9) for _ in range(3)]
        M.setGravityForce(i, *x)
        log("call", "setGravityForce", k=[i], x=x)


def setInitialIterate():
    k = rnd.randint(0, 100000)
    M.setInitialIterate(k)
    log("call", "setInitialIterate", k=[k])


# ---- contacts ----
def numCollisions(): log("call", "numCollisions", rk=[M.numCollisions()])


def collisionType():
    i = rnd.randrange(M.numCollisions())
    log("call", "collisionType", k=[i], rs=M.collisionType(i))


def collisionIndices():
    i = rnd.randrange(M.numCollisions())
    log("call", "collisionIndices", k=[i], rk=M.collisionIndices(i))


def coefs(which):
    def ask(): log("call", which, rx=getattr(M, which)())

    def put():
        a = getattr(M, which)()
        i = rnd.randrange(len(a))
        x = rnd.random()
        a[i] = x
        log("call", which + "[]", k=[i], x=[x])
    return [ask, put]


EDIT = {
    "balls2d": [configuration, velocity, write_q, write_v, insertBall, numStaticPlanes, setStaticPlanePosition, setStaticPlaneVelocity, deleteStaticPlane],
    "rigidbody2d": [numStaticPlanes, setStaticPlanePosition, setStaticPlaneVelocity, setStaticPlaneNormal, setStaticPlaneAngularVelocity, deleteStaticPlane,
                    numGeometryInstances, addCircleGeometry, addBody, delete_bodies, delete_geometry, num_bodies, num_geometry],
    "rigidbody3d": [configuration, velocity, write_q, write_v, numStaticPlanes, setStaticPlanePosition, setStaticPlaneVelocity, numStaticCylinders,
                    setStaticCylinderOrientation, setStaticCylinderAngularVelocity, numForces, forceType, setGravityForce],
}[SIM]
CONTACT = [] if SIM == "rigidbody2d" else [numCollisions, collisionType, collisionIndices]


def act(cb, moves):
    rec.log(json.dumps({"e": "enter", "cb": cb}, separators=(",", ":")))
    for _ in range(rnd.randint(0, 9)):
        if moves:
            rnd.choice(moves)()


# ---- calls at the edge of what is accepted ----
def edits(opts, put, idx):
    put("setStaticPlanePosition", nplanes(), [real() for _ in range(D)])
    put("setStaticPlaneVelocity", nplanes(), [real() for _ in range(D)])
    if SIM != "rigidbody3d":
        put("deleteStaticPlane", nplanes(), [])
    if SIM == "balls2d":
        for _ in range(3):
            opts.append(("insertBall", [rnd.choice([0, 1, 0, 1, 2, -1])], [real() for _ in range(4)] + [rnd.choice([0.5, 1.0, 0.0, -1.0]), rnd.choice([0.5, 1.0, 0.0, -2.0])]))
    elif SIM == "rigidbody2d":
        put("setStaticPlaneNormal", nplanes(), unit(2))
        put("setStaticPlaneAngularVelocity", nplanes(), [real()])
        opts.append(("addCircleGeometry", [], [rnd.choice([1.0, 1e-3, 0.0, -1.0])]))
        for _ in range(2):
            opts.append(("addBody", [idx(M.num_geometry()), rnd.choice([0, 1, 0, 1, 2, -1])], [real() for _ in range(6)] + [rnd.choice([0.5, 1.0, 2.0, 0.0, -1.0])]))
        for _ in range(2):
            n = M.num_bodies()
            opts.append(("delete_bodies", some(n) + rnd.choice([[], [], [n], [n + 1]]), []))
            n = M.num_geometry()
            opts.append(("delete_geometry", some(n) + rnd.choice([[], [], [n], [n + 1]]), []))
    else:
        put("setStaticCylinderAngularVelocity", M.numStaticCylinders(), [real() for _ in range(3)])
        put("setStaticCylinderOrientation", M.numStaticCylinders(), [rnd.choice([1.0, 1.0, 1.0, 0.5, 1.01]) * a for a in unit(3)] + [real()])
        put("setGravityForce", M.numForces(), [real() for _ in range(3)])
        put("forceType", M.numForces(), [])


def edge():
    opts = []

    def idx(n):
        return rnd.choice([-1, 0, n - 1, n, n, n + 1, n + 7])

    def put(f, n, xs):
        opts.append((f, [idx(n)], xs))
    if WHERE.endswith("Coefficient"):
        if SIM != "rigidbody2d":
            n = M.numCollisions()
            put("collisionType", n, [])
            put("collisionIndices", n, [])
        opts.append(("raise", [], []))
    else:
        edits(opts, put, idx)
        if rnd.random() < 0.1:
            opts[:] = [("raise", [], [])]
    f, k, x = rnd.choice(opts)
    how = "plain"
    if f.startswith("delete_"):
        how = rnd.choice(["plain", "plain", "plain", "wide", "signed", "list", "table"])
        a = np.array(k, dtype=np.uint32) if how in ("plain", "list", "table") else np.array(k, dtype=np.uint64 if how == "wide" else np.int32)
        args = [k if how == "list" else a.reshape((1, len(k))) if how == "table" else a]
    elif f in ("insertBall", "addBody"):
        args = list(x) + list(k)
    else:
        args = list(k) + list(x)
    if f != "raise" and not f.startswith("delete_") and rnd.random() < 0.1 and args:
        how = "short"
        args.pop()
    log("edge", f, k=k, x=x, how=how)
    if f == "raise":
        raise rnd.choice([ValueError("no"), KeyError(3), SystemError(), ZeroDivisionError()])
    getattr(M, f)(*[a & 0xFFFFFFFF if isinstance(a, int) and a < 0 and f not in ("insertBall", "addBody") else a for a in args])


if rec.get("mode") == "broken":
    raise ImportError("this script is broken")
elif rec.get("mode") == "not callable":
    globals()[rec.get("where")] = rnd.choice([3, "startOfSim", [act]])
elif rec.get("mode") == "edge":
    WHERE = rec.get("where")
    globals()[WHERE] = edge
else:
    HAS = rec.get("has").split()
    if "startOfSim" in HAS:
        def startOfSim(): act("startOfSim", EDIT + ([setInitialIterate] if SIM == "rigidbody3d" else []))
    if "endOfSim" in HAS:
        def endOfSim(): act("endOfSim", EDIT)
    if "startOfStep" in HAS:
        def startOfStep(): act("startOfStep", EDIT + [timestep, nextIteration])
    if "endOfStep" in HAS:
        def endOfStep(): act("endOfStep", EDIT + [timestep, nextIteration])
    if "frictionCoefficient" in HAS:
        def frictionCoefficient(): act("frictionCoefficient", CONTACT + (coefs("mu") if CONTACT else []))
    if "restitutionCoefficient" in HAS:
        def restitutionCoefficient(): act("restitutionCoefficient", CONTACT + (coefs("cor") if CONTACT else []))
