"""What every check shares: building, running TLC, driving the real code, validating traces, evidence."""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

import vbuild
from vbuild import VERIF, BUILD, BuildError

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")


class CheckError(Exception):
    """The check itself could not be carried out (neither held nor violated)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.replay = replay


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")
        self.states = self.transitions = self.traces = self.events = 0
        self.counts = {}
        self.samples = []
        self.models = []
        self.assumptions = []
        self.notes = {}
        self.coverage = {}
        self.known = load_known(prop)
        self.known_hit = []
        self.cls = vbuild.build_java()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- building -------------------------------------------------------------------------------
    def build(self, targets, **kw):
        t = time.time()
        outs = vbuild.build(targets, **kw)
        self.notes["build_s"] = round(self.notes.get("build_s", 0) + time.time() - t, 1)
        return outs if len(outs) > 1 else outs[0]

    # ---- TLC ------------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, args=(), workers="1", timeout=600, heap="3g", tag=""):
        meta = os.path.join(self.dir, f"tlc-{module}-{tag or cfg}-{time.time_ns()}")
        os.makedirs(meta)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{heap}", "-Xss16m", "-DTLA-Library=" + SPEC,
               "-cp", self.cls + ":" + JARS, "tlc2.TLC", "-workers", workers, "-metadir", meta,
               "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg), *args, os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            shutil.rmtree(meta, ignore_errors=True)
            raise CheckError(f"TLC timed out on {module}/{cfg}")
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    @staticmethod
    def tlc_counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def model_check(self, module, cfg, workers="4", timeout=700, args=()):
        """Exhaustive check of the specification itself.  Not about the code: a failure is an error."""
        t = time.time()
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, args=("-deadlock", "-coverage", "9999", *args))
        gen, dist = self.tlc_counts(out)
        if rc != 0 or dist == 0:
            raise CheckError(f"model {module}/{cfg}: rc={rc}\n{out[-3000:]}")
        acts = {}
        for name, d, n in re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
            acts[name] = acts.get(name, 0) + int(n)
        dead = [a for a, n in acts.items() if n == 0 and a not in ("Init",)]
        if dead:
            raise CheckError(f"model {module}/{cfg}: actions never taken: {dead}")
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": cfg, "distinct_states": dist, "states_generated": gen,
                            "actions": acts, "wall_s": round(time.time() - t, 1)})

    def generate(self, module, cfg, out_path, num, depth, timeout=300, seed=None):
        """Behaviours of the specification (TLC -simulate), one JSON value per line, taken from the
        lines the module prints as @@B <json>."""
        rc, out = self.tlc(module, cfg, timeout=timeout,
                           args=("-deadlock", "-simulate", f"num={num}", "-depth", str(depth),
                                 "-seed", str(self.seed if seed is None else seed)))
        lines = []
        for l in out.splitlines():
            l = l.strip()
            if l.startswith('"@@B '):
                lines.append(json.loads(l)[4:])     # TLC prints a quoted TLA+ string
            elif l.startswith("@@B "):
                lines.append(l[4:])
        if not lines:
            raise CheckError(f"generator {module}/{cfg}: no behaviours (rc={rc})\n{out[-2000:]}")
        with open(out_path, "w") as f:
            f.write("\n".join(lines) + "\n")
        return len(lines)

    def enumerate(self, module, cfg, out_path, timeout=600):
        """Exhaustive enumeration by TLC: every @@B line printed while exploring the state space."""
        rc, out = self.tlc(module, cfg, timeout=timeout, args=("-deadlock",))
        gen, dist = self.tlc_counts(out)
        lines = [json.loads(l.strip())[4:] for l in out.splitlines() if l.strip().startswith('"@@B ')]
        if rc != 0 or not lines:
            raise CheckError(f"enumeration {module}/{cfg}: rc={rc} lines={len(lines)}\n{out[-2000:]}")
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": cfg, "distinct_states": dist, "states_generated": gen,
                            "behaviours": len(lines)})
        with open(out_path, "w") as f:
            f.write("\n".join(lines) + "\n")
        return len(lines)

    # ---- the real code --------------------------------------------------------------------------
    def drive(self, exe, args, out, timeout=200, stdin=None, expect=0, cwd=None, env=None):
        """Runs a driver that records a trace in `out`.  A crash or unexpected exit is confirmed by a
        second run and is a violation: every scenario the drivers set up is one the code must finish."""
        cmd = [exe, *map(str, args), out]
        last = None
        for attempt in (1, 2):
            if os.path.exists(out):
                os.unlink(out)
            with tempfile.TemporaryFile("w+b") as said:      # within bounds, so that code that never ends is ended
                tail = lambda n: (said.seek(max(0, said.seek(0, 2) - n)), said.read().decode(errors="replace"))[1]
                try:
                    p = subprocess.run(["bash", "-c", 'ulimit -f 4194304; exec "$0" "$@"', *cmd], stdout=said, stderr=subprocess.STDOUT,
                                       timeout=timeout, cwd=cwd or self.dir, stdin=subprocess.DEVNULL if stdin is None else open(stdin),
                                       env=dict(os.environ, **(env or {})))
                    if p.returncode == expect:
                        return tail(1 << 26)
                    last = (p.returncode, tail(1500))
                except subprocess.TimeoutExpired:
                    last = ("timeout", tail(1500))
        rp = self.save_replay(os.path.basename(exe) + "-crash", {"cmd": cmd, "result": str(last[0]), "output": str(last[1])},
                              out if os.path.exists(out) else None)
        raise Violation(f"driver {os.path.basename(exe)} {args}: ended with {last[0]}\n{last[1]}", rp)

    def save_replay(self, name, obj, trace=None):
        os.makedirs(self.replay_dir, exist_ok=True)
        rp = os.path.join(self.replay_dir, f"{self.prop}-{name}.json")
        with open(rp, "w") as f:
            json.dump(obj, f, indent=1)
        if trace:
            try:
                shutil.copyfile(trace, rp[:-5] + ".ndjson")
            except OSError:
                pass
        return rp

    # ---- trace validation -----------------------------------------------------------------------
    def _validate_one(self, module, cfg, trace, timeout):
        rc, out = self.tlc(module, cfg, env={"TRACE": trace}, timeout=timeout, tag=os.path.basename(trace))
        gen, dist = self.tlc_counts(out)
        n = sum(1 for _ in open(trace))
        if rc == 0 and dist == n + 1:
            return True, n, None, gen, dist
        if ("Parsing or semantic analysis failed" in out or "OutOfMemory" in out or "Could not reserve" in out
                or dist == 0 or "NoClassDefFound" in out or "java.io" in out or "Error: Could not find" in out or "ConfigFileException" in out):
            raise CheckError(f"{module}: TLC could not run\n{out[-3000:]}")
        m = re.search(r"REJECTED[^\d]*(\d+)", out)
        line = int(m.group(1)) if m else (dist if dist else None)
        return False, n, (line, out[-3500:]), gen, dist

    def validate(self, module, trace, cfg=None, timeout=600, chunks=None, group=None):
        """Checks that the recorded trace is a behaviour of the trace specification.  Traces of
        independent cases are cut into pieces validated in parallel; `group` names the field whose
        change marks a boundary at which a piece may start."""
        cfg = cfg or module + ".cfg"
        lines = open(trace).read().splitlines()
        if not lines:
            raise CheckError(f"{trace}: empty trace")
        for l in lines:
            m = re.match(r'\{"e":"([^"]+)"', l)
            if m:
                self.counts[m.group(1)] = self.counts.get(m.group(1), 0) + 1
        if chunks is None:
            chunks = max(1, min(6, len(lines) // 150))
        starts = [0]
        if chunks > 1:
            per = -(-len(lines) // chunks)
            pos = 0
            while pos + per < len(lines):
                pos += per
                if group is not None:
                    while pos < len(lines) and not re.match(r'\{"e":"' + group + '"', lines[pos]):
                        pos += 1
                if pos < len(lines) and pos > starts[-1]:
                    starts.append(pos)
        pieces = []
        for i, s in enumerate(starts):
            e = starts[i + 1] if i + 1 < len(starts) else len(lines)
            if len(starts) == 1:
                pieces.append((trace, 0))
            else:
                p = f"{trace}.{i}"
                with open(p, "w") as f:
                    f.write("\n".join(lines[s:e]) + "\n")
                pieces.append((p, s))
        with cf.ThreadPoolExecutor(max_workers=6) as ex:
            res = list(ex.map(lambda pc: self._validate_one(module, cfg, pc[0], timeout), pieces))
        for (p, s), (ok, n, bad, gen, dist) in zip(pieces, res):
            self.states += dist
            self.transitions += gen
            self.events += n
            if not ok:
                ok2, _, bad2, _, _ = self._validate_one(module, cfg, p, timeout)
                if ok2:
                    raise CheckError(f"{module}: a rejection did not repeat")
                ln = bad2[0]
                txt = None
                if ln is not None:
                    ll = open(p).read().splitlines()
                    txt = ll[ln - 1] if 0 < ln <= len(ll) else None
                rp = self.save_replay(module + "-" + os.path.basename(trace).split(".")[0],
                                      {"spec": module, "cfg": cfg, "trace": p, "line": ln, "global_line": (ln or 0) + s,
                                       "event": txt, "tlc": bad2[1]}, p)
                raise Violation(f"{module}: trace {os.path.basename(trace)} rejected at line {(ln or 0) + s}: {(txt or '')[:600]}", rp)
        self.traces += len(pieces)
        if len(self.samples) < 6:
            self.samples.append(json.loads(lines[min(len(lines) - 1, 3)]))
        for (p, s) in pieces:
            if p != trace:
                os.unlink(p)
        return len(lines)

    def corrupt_must_reject(self, module, trace, mutate, cfg=None, maxlines=200, name="corrupted"):
        """Binding demonstration: the same trace with one recorded field altered has to be rejected."""
        cfg = cfg or module + ".cfg"
        lines = open(trace).read().splitlines()
        for i, l in enumerate(lines):
            o2 = mutate(json.loads(l))
            if o2 is not None:
                break
        else:
            raise CheckError(f"{module}: nothing to corrupt")
        lines[i] = json.dumps(o2, separators=(",", ":"))
        # early in the trace the history is kept; further on the events are independent cases
        out = lines[:maxlines] if i < maxlines else lines[i - 5:i + 5]
        p = trace + "." + name
        with open(p, "w") as f:
            f.write("\n".join(out) + "\n")
        ok, *_ = self._validate_one(module, cfg, p, 300)
        if ok:
            raise CheckError(f"{module}: a corrupted trace was accepted")
        self.notes["corrupted_trace_rejected"] = self.notes.get("corrupted_trace_rejected", 0) + 1

    # ---- evidence -------------------------------------------------------------------------------
    def evidence(self, violations):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or [{"note": "no trace was validated"}],
            "trace_events_validated": self.events,
            "events_by_kind": self.counts,
            "models": self.models,
            **self.notes,
            **self.coverage,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                try:
                    o = json.loads(l)
                except ValueError:
                    continue
                if o.get("property") == prop and o.get("status") == "known":
                    out.append(o)
    return out


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    fn = checks[a.prop]
    try:
        ctx = Ctx(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", seed)
    except BuildError as e:
        print("BUILD-ERROR", e)
        return 2
    try:
        fn(ctx)
    except Violation as v:
        print(v)
        ctx.evidence(1)
        print(f"VIOLATION property={a.prop} replay={v.replay}")
        return 1
    except BuildError as e:
        print("BUILD-ERROR", e)
        ctx.evidence(0)
        return 2
    except CheckError as e:
        print("CHECK-ERROR", e)
        ctx.evidence(0)
        return 2
    for k in ctx.known_hit:
        print(f"KNOWN-FINDING: property={a.prop} {k}")
    ctx.evidence(0)
    print(f"OK property={a.prop} tier={ctx.tier} events={ctx.events} states={ctx.states} wall={time.time()-ctx.t0:.1f}s")
    shutil.rmtree(ctx.dir, ignore_errors=True)
    return 0
