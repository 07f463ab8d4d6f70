#!/usr/bin/env python3
"""Decide one property: python3 check.py <ID>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

Every job is one of
  replay : TLC enumerates the behaviours of a specification (and checks its invariants);
           every emitted behaviour is replayed into the real code and compared.
  trace  : the harness records what the real code does; TLC checks that the recording is
           a behaviour of a trace specification.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from jobs import PROPS  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
SPEC = os.path.join(ROOT, "spec")
BIN = os.path.join(ROOT, "target", "debug", "vharness")


def fail(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=os.path.join(ROOT, "target"))
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"],
                       cwd=os.path.join(ROOT, "harness"), env=env, capture_output=True, text=True)
    if r.returncode != 0:
        fail("harness build failed:\n" + r.stderr[-6000:])


def known_findings():
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def tlc(work, name, spec, cfg, workers, env_extra=None, timeout=3000):
    meta = os.path.join(work, "tlc-" + name)
    shutil.rmtree(meta, ignore_errors=True)
    env = dict(os.environ)
    env["JAVA_TOOL_OPTIONS"] = "-Xss32m -XX:+UseParallelGC"
    env.update(env_extra or {})
    out = os.path.join(work, name + ".tlc")
    with open(out, "w") as o:
        try:
            r = subprocess.run(["tlc", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
                                "-config", cfg, spec + ".tla"], cwd=SPEC, env=env, stdout=o,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            fail(f"TLC timed out on {spec} {cfg}")
    shutil.rmtree(meta, ignore_errors=True)
    gen = dist = None
    errs = []
    for line in open(out, errors="replace"):
        if line.startswith('"SCN '):
            continue
        m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct", line)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m.groups())
        if line.startswith("Error") or "violated" in line:
            errs.append(line.strip())
    return r.returncode, out, gen, dist, errs


class Run:
    def __init__(self, pid):
        self.pid, self.work = pid, os.path.join(ROOT, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.validated = 0
        self.samples, self.jobs, self.viol, self.known_hit = [], [], [], {}
        self.known = [k for k in known_findings() if k[0] == pid]

    def violation(self, job, key, msg, payload):
        for _, kk, desc in self.known:
            if kk == key:
                self.known_hit[kk] = desc
                return
        p = os.path.join(self.work, f"violation-{len(self.viol) + 1}.json")
        json.dump({"property": self.pid, "job": job, "key": key, "message": msg, **payload}, open(p, "w"), indent=1)
        self.viol.append((key, msg, p))

    # -- specification -> code ------------------------------------------------
    def replay(self, j):
        for cfg in j["cfg"][TIER]:
            name = f'{j["job"]}-{cfg}'
            rc, out, gen, dist, errs = tlc(self.work, name, j["spec"], f'{j["spec"]}.{cfg}.cfg', 8)
            if rc != 0 or gen is None:
                fail(f"TLC failed on {name} (rc {rc}): {errs[:3]}")
            scn = os.path.join(self.work, name + ".scn")
            n = 0
            with open(scn, "w") as o:
                for line in open(out):
                    if line.startswith('"SCN '):
                        o.write(json.loads(line)[4:] + "\n")
                        n += 1
            os.remove(out)
            if n == 0:
                fail(f"{name}: the specification emitted no behaviour")
            self.states += dist
            self.transitions += gen
            rep = self.drive(j["job"], scn, name)
            if rep is None:
                continue
            if rep["replayed"] != n:
                fail(f"{name}: replayed {rep['replayed']} of {n}")
            self.validated += n
            for m in rep["mismatches"]:
                self.violation(j["job"], m["key"], m["msg"], {"scenario": m["scenario"],
                               "how": f"vharness replay {j['job']} FILE_WITH_SCENARIO REPORT"})
            self.jobs.append({"job": name, "kind": "replay", "spec": j["spec"] + ".tla", "states": dist, "transitions": gen,
                              "behaviours_replayed": n, "mismatches": rep["keys"], "observed": rep["coverage"]})
            self.samples += [{"job": name, "behaviour": s} for s in rep["samples"][:2]]
            os.remove(scn)

    def drive(self, job, scn, name):
        rep = os.path.join(self.work, name + ".rep")
        limit = 2400 if TIER == "thorough" else 400
        try:
            r = subprocess.run([BIN, "replay", job, scn, rep], capture_output=True, text=True, errors="replace", timeout=limit)
            rc, err = r.returncode, r.stderr[-2000:]
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        if rc == 0:
            return json.load(open(rep))
        if rc == 2:
            fail(f"{name}: harness error {err}")
        # the code under test ended the process or hung: find the behaviour that does it
        lines = [l for l in open(scn) if l.strip()]
        cand = []
        for f in os.listdir(self.work):
            if f.startswith(name + ".rep.prog"):
                t = open(os.path.join(self.work, f)).read().strip()
                if t:
                    cand.append(int(t))
        for i in sorted(set(cand)):
            try:
                r = subprocess.run([BIN, "replay", job, scn, rep, str(i)], capture_output=True, text=True, errors="replace", timeout=60)
                how = f"ended with {r.returncode}: {r.stderr[-300:]}" if r.returncode not in (0, 2) else None
            except subprocess.TimeoutExpired:
                how = "did not return within 60 s"
            if how:
                s = json.loads(lines[i])
                self.violation(job, "crash", f"the code under test {how}", {"scenario": s})
                self.jobs.append({"job": name, "kind": "replay", "crashed_on": i})
                return None
        fail(f"{name}: harness ended with {rc} and no single behaviour reproduces it\n{err}")

    # -- code -> specification ------------------------------------------------
    def trace(self, j):
        for k in range(j.get("seeds", {}).get(TIER, 1)):
            name = f'{j["job"]}-{k}'
            nd = os.path.join(self.work, name + ".ndjson")
            limit = 2400 if TIER == "thorough" else 400
            try:
                r = subprocess.run([BIN, "record", j["job"], nd, TIER, str(SEED + 1000 * k)], capture_output=True, text=True,
                                   errors="replace", timeout=limit)
                rc, err, so = r.returncode, r.stderr[-2000:], r.stdout
            except subprocess.TimeoutExpired:
                rc, err, so = "timeout", "", ""
            if rc == 2:
                fail(f"{name}: {err}")
            if rc != 0:
                tail = open(nd, errors="replace").read()[-3000:] if os.path.exists(nd) else ""
                self.violation(j["job"], "crash", f"recording ended with {rc}: the code under test crashed or hung. {err}", {"trace_tail": tail})
                continue
            info = json.loads(so.strip().splitlines()[-1])
            if info["lines"] == 0:
                fail(f"{name}: empty trace")
            rc, out, gen, dist, errs = tlc(self.work, name, j["spec"], j["cfg"] + ".cfg", 1, {"TRACE": nd})
            text = open(out, errors="replace").read()
            rej = re.findall(r'^"REJECT (.*)"$', text, re.M)
            if rej:
                at = json.loads(json.loads('"' + rej[0] + '"'))
                lines = open(nd).read().splitlines()
                ln = at["line"]
                self.violation(j["job"], j.get("key", "trace"), "the recorded behaviour is not a behaviour of the specification at line %d: %s" % (ln, json.dumps(at)[:1500]),
                               {"line": ln, "event": json.loads(lines[ln - 1]) if ln <= len(lines) else None, "trace": nd})
            elif "TRACE OK" in text and rc == 0:
                self.validated += info["lines"]
                os.remove(nd)
            else:
                fail(f"TLC failed on trace {name} (rc {rc}): {errs[:3]} {text[-1500:]}")
            self.states += dist or 0
            self.transitions += gen or 0
            self.jobs.append({"job": name, "kind": "trace", "spec": j["spec"] + ".tla", "events": info["lines"], "states": dist,
                              "accepted": not rej, "observed": info["coverage"]})
            self.samples.append({"job": name, "events_validated": info["lines"]})


def main():
    pid = sys.argv[1]
    t0 = time.time()
    prop = PROPS[pid]
    build()
    run = Run(pid)
    for j in prop["jobs"]:
        getattr(run, j["kind"])(j)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "model_checking",
          "coverage": {"states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.validated,
                       "exhaustive": all(j["kind"] == "replay" for j in prop["jobs"]), "samples": run.samples[:6], "jobs": run.jobs},
          "assumptions": prop.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(run.viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for k, d in run.known_hit.items():
        print(f"KNOWN-FINDING: property={pid} {k}: {d}")
    for key, msg, p in run.viol:
        print(f"[{key}] {msg[:600]}")
        print(f"VIOLATION property={pid} replay={p}")
    if run.viol:
        sys.exit(1)
    print(f"OK property={pid} tier={TIER} states={run.states} validated={run.validated} wall={ev['wall_s']}s")


if __name__ == "__main__":
    main()
