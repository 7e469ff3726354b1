"""Runs the layers of one property, merges their answers into one verdict, writes evidence and replay files.

Layers (see DESIGN.md):
  verus   unbounded: contracts on functions extracted mechanically from /repo on this run
  kani    complete (full input domain, loop-free or fully unwound) contracts on the compiled /repo crate
  bounded executes the property's contracts on the real crate over systematic and seeded inputs
"""
import json, os, subprocess, sys, threading, time, shutil, signal, tempfile, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FEM2D_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

# number of systematic+seeded cases of the bounded layer: (quick, quick time cap, thorough, thorough time cap)
CASES = {
    "P01": (60000, 40, 2000000, 300), "P02": (40000, 40, 1000000, 300), "P03": (120000, 40, 3000000, 300),
    "P04": (150000, 40, 3000000, 300), "P05": (80000, 40, 2000000, 300), "P06": (100000, 40, 2000000, 300),
    "P07": (40000, 40, 1000000, 300), "P08": (100000, 40, 3000000, 300), "P09": (100000, 40, 2000000, 300),
    "P10": (150000, 40, 3000000, 300), "P11": (600000, 40, 9000000, 300), "P12": (100000, 40, 2000000, 300),
    "P13": (100000, 40, 2000000, 300), "P14": (300000, 40, 9000000, 300), "P15": (80000, 40, 2000000, 300),
    "P16": (60000, 40, 2000000, 300), "P17": (15000, 40, 400000, 300), "P20": (250000, 40, 6000000, 300),
}


def cargo_env(sub):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, sub), CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    return e


def run(cmd, cwd=None, env=None, timeout=None):
    """Run in its own process group; (rc, stdout, stderr); rc is None on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


# ---------------------------------------------------------------- bounded layer
class Bounded:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.built = None

    def build(self):
        rc, o, e = run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "oracle"),
                       env=cargo_env("oracle"), timeout=600)
        self.built = rc == 0
        self.build_err = e[-4000:]
        return self.built

    def exe(self):
        return os.path.join(BUILD, "oracle", "debug", "oracle")

    def go(self, seed, n, secs, case=None, trace=None):
        scratch = tempfile.mkdtemp(prefix="fem2d-oracle.")
        out = os.path.join(scratch, "report.json")
        env = dict(os.environ, ORACLE_SCRATCH=os.path.join(scratch, "w"), RUST_BACKTRACE="0")
        cmd = [self.exe(), self.prop, "--seed", str(seed), "--n", str(n), "--secs", str(secs), "--out", out]
        if case is not None:
            cmd += ["--case", str(case)]
        if trace:
            env["ORACLE_TRACE"] = os.path.join(scratch, "trace")
        rc, o, e = run(cmd, cwd=scratch, env=env, timeout=secs + 240)
        rep = None
        try:
            rep = json.load(open(out))
        except Exception:
            pass
        at = None
        try:
            at = int(open(os.path.join(scratch, "trace")).read())
        except Exception:
            pass
        shutil.rmtree(scratch, ignore_errors=True)
        return rc, rep, at, e[-2000:]

    def decide(self, n, secs):
        """-> dict(status ok|failed|undecided, report, fail)"""
        if self.built is None:
            self.build()
        if not self.built:
            return dict(status="undecided", reason="the bounded harness does not build against /repo", detail=self.build_err)
        rc, rep, _, err = self.go(self.seed, n, secs)
        if rep is None:
            # the process died: the code under test aborted (stack overflow, out of memory, abort)
            rc2, rep2, at, err2 = self.go(self.seed, n, max(secs, 120), trace=True)
            if rep2 is None and at is not None:
                rc3, rep3, _, err3 = self.go(self.seed, 1, 120, case=at)
                if rep3 is None:
                    f = dict(case=at, msg=f"the process died (exit {rc3}) in this case: {err3.strip()[-300:]}", ops=[])
                    return dict(status="failed", report=dict(cases=at, distinct_nontrivial=0, postconditions_evaluated=0, samples=[], fails=[f]), fail=f)
                rep2 = rep3
            if rep2 is None:
                return dict(status="undecided", reason=f"the bounded harness died (exit {rc})", detail=err)
            rep = rep2
        if rep["fails"]:
            return dict(status="failed", report=rep, fail=rep["fails"][0])
        return dict(status="ok", report=rep)


# ---------------------------------------------------------------- verdict
def write_replay(prop, kind, body):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{kind}.json")
    with open(p, "w") as f:
        json.dump(body, f, indent=1)
    return p


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            if l.startswith("known: ") and f"property={prop} " in l:
                out.append(l[len("known: "):])
    except FileNotFoundError:
        pass
    return out


def main(argv):
    prop = argv[0]
    tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    elif os.environ.get("VERIF_TIER") in ("quick", "thorough"):
        tier = os.environ["VERIF_TIER"]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    try:
        return decide(prop, tier, seed, t0)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop}: the check itself failed")
        return 2


def decide(prop, tier, seed, t0):
    spec = json.load(open(os.path.join(VERIF, "lib", "layers.json"))).get(prop, {})
    n_q, s_q, n_t, s_t = CASES[prop]
    n, secs = (n_q, s_q) if tier == "quick" else (n_t, s_t)

    results, deductive = {}, {}

    def bounded_thread():
        b = Bounded(prop, tier, seed)
        try:
            results["bounded"] = (b, b.decide(n, secs))
        except Exception as e:
            results["bounded"] = (b, dict(status="undecided", reason=f"internal error {e!r}"))

    def kani_thread():
        import kani_layer
        try:
            deductive["kani"] = kani_layer.decide(prop, spec["kani"], tier)
        except Exception as e:
            deductive["kani"] = dict(status="undecided", reason=f"internal error {e!r}", functions=[], failures=[])

    def verus_thread():
        import verus_layer
        try:
            deductive["verus"] = verus_layer.decide(prop, spec["verus"], tier)
        except Exception as e:
            deductive["verus"] = dict(status="undecided", reason=f"internal error {e!r}", functions=[], failures=[])

    ts = [threading.Thread(target=bounded_thread)]
    if spec.get("kani"):
        ts.append(threading.Thread(target=kani_thread))
    if spec.get("verus"):
        ts.append(threading.Thread(target=verus_thread))
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    b, br = results["bounded"]
    failed = [k for k, r in deductive.items() if r["status"] == "failed"]
    # an obligation that is discharged on the unchanged tree fails, or can no longer be generated: look harder for an input that shows it
    deeper = None
    if br["status"] == "ok" and any(r["status"] != "ok" for r in deductive.values()):
        deeper = b.decide(n * 6, 150)
        if deeper["status"] == "failed":
            br = deeper
    kf = known_findings(prop)
    for l in kf:
        print(f"KNOWN-FINDING: {l}")

    verdict, line, violations = 0, None, 0
    if br["status"] == "failed":
        f = br["fail"]
        p = write_replay(prop, "input", dict(
            property=prop, found_by="bounded execution of the contract on the real crate", seed=seed, case=f["case"],
            what_failed=f["msg"], input=f["ops"], failed_obligations=[x for k in failed for x in deductive[k]["failures"]],
            replay_cmd=f"cd {VERIF}/oracle && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR={BUILD}/oracle cargo run --offline -q -- {prop} --seed {seed} --case {f['case']}"))
        print(f"{prop}: {f['msg']}")
        for o in f["ops"][:12]:
            print("   ", o)
        line, verdict, violations = f"VIOLATION property={prop} replay={p}", 1, len(br["report"]["fails"])
    elif failed:
        fl = [x for k in failed for x in deductive[k]["failures"]]
        p = write_replay(prop, "obligation", dict(
            property=prop, found_by="deductive verifier: obligation no longer discharged", failed_obligations=fl,
            verifier_output={k: deductive[k].get("output", "")[-6000:] for k in failed},
            replay_cmd=f"{VERIF}/bin/check {prop} --tier {tier}"))
        for x in fl[:6]:
            print(f"{prop}: {x.get('function')}: {x.get('message')}")
        line, verdict, violations = f"VIOLATION property={prop} replay={p} no-failing-input-found", 1, len(fl)
    elif br["status"] == "undecided" and not (deductive and all(r["status"] == "ok" for r in deductive.values())):
        print(f"ERROR property={prop}: undecided: {br.get('reason')}\n{br.get('detail','')}")
        verdict = 2

    import evidence
    evidence.write(prop, tier, seed, spec, br, deductive, time.time() - t0, violations, CASES[prop])
    for k, r in deductive.items():
        print(f"{prop}: {k}: {r['status']} ({r.get('discharged', 0)}/{r.get('obligations', 0)} obligations, {len(r.get('functions', []))} functions"
              + (f"; {r['reason']}" if r.get("reason") else "") + ")")
    rep = br.get("report") or {}
    print(f"{prop}: bounded: {br['status']} ({rep.get('cases', 0)} cases, {rep.get('postconditions_evaluated', 0)} postconditions), {time.time()-t0:.1f} s")
    if line:
        print(line)
    return verdict
