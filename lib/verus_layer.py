"""Runs the Verus units of a property: extraction from /repo, verification, vacuity run, attribution of failures."""
import json, os, re, shutil, subprocess, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FEM2D_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
RS2V = os.path.join(BUILD, "rs2verus", "release", "rs2verus")

# messages that mean "an obligation generated from the code was refuted or could not be discharged"
FAIL = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
        "possible arithmetic", "possible division", "possible bit shift", "decreases not satisfied", "could not prove termination",
        "recommendation not met", "assert_by", "loop invariant", "possible overflow", "unreachable", "does not satisfy", "constructed value may fail")
GIVEUP = ("rlimit", "Resource limit", "resource limit", "timeout", "timed out", "while verifying", "memory")


def build():
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "rs2verus"))
    p = subprocess.run(["cargo", "build", "--offline", "--release", "--quiet"], cwd=os.path.join(VERIF, "rs2verus"),
                       env=e, capture_output=True, text=True, timeout=600)
    return p.returncode == 0, p.stderr[-2000:]


def trusted_scan(text):
    """Every assumption in the verified text, mechanically."""
    out = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?(?:open\s+|closed\s+)?(?:(?:proof|spec|exec)\s+)?(fn|struct)\s+(\w+)", text):
        out.append(f"external_body {m.group(1)} {m.group(2)}")
    for m in re.finditer(r"assume_specification[^\[]*\[\s*([^\]]+?)\s*\]", text):
        out.append(f"assume_specification {m.group(1)}")
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        out.append(f"{m.group(1)} at {text.count(chr(10), 0, m.start()) + 1}")
    for m in re.finditer(r"\bbroadcast axiom fn (\w+)|\baxiom fn (\w+)", text):
        out.append(f"axiom {m.group(1) or m.group(2)}")
    return sorted(set(out))


class Marks:
    """line -> extracted function (or lemma) it belongs to"""
    def __init__(self, text):
        self.spans, cur = [], None
        for n, l in enumerate(text.splitlines(), 1):
            s = l.strip()
            if s.startswith("//@fn "):
                cur = (n, s[6:].strip().split(" ")[0].replace("~", " "))
            elif s.startswith("//@endfn") and cur:
                self.spans.append((cur[0], n, cur[1]))
                cur = None
        self.lemmas = [(text.count("\n", 0, m.start()) + 1, m.group(1)) for m in re.finditer(r"\b(?:proof|axiom) fn (\w+)", text)]

    def of(self, line):
        for a, b, f in self.spans:
            if a <= line <= b:
                return f
        best = None
        for n, f in self.lemmas:
            if n <= line:
                best = f
        return f"lemma {best}" if best else "contract text"


def call(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, "", ""


def run_unit(unit, work, tier, vac):
    """one unit; what fails is asked again under another seed of the solver: a proof found under any seed is a proof"""
    r = run_seeded(unit, work, tier, vac, 0)
    if vac or r["status"] != "failed" or r["wall"] > 200:
        return r
    q = run_seeded(unit, work, tier, vac, 1)
    if q["status"] != "failed" and q["status"] != "ok":
        return r
    q["solver_s"] += r["solver_s"]
    q["wall"] += r["wall"]
    a, b = failing(r), failing(q)
    if not (b - a):
        # (what fails the second time failed the first time as well)
        return q
    if not (a - b):
        return r
    keep = a & b
    q["diags"] = [j for j in q["diags"] if owner(q, j) in keep]
    n = len(b - keep)
    q["errors"], q["verified"] = max(len(keep), q["errors"] - n), q["verified"] + n
    q["status"] = "failed" if q["diags"] else "ok"
    return q


def owner(r, j):
    sp = j.get("spans") or []
    m = Marks(r["text"])
    f = [m.of(x["line_start"]) for x in [x for x in sp if x["is_primary"]] + [x for x in sp if not x["is_primary"]]]
    return f[0] if f else r["unit"]


def failing(r):
    return {owner(r, j) for j in r["diags"]}


def run_seeded(unit, work, tier, vac, seed):
    """a function whose extracted text the verifier does not accept is left out (undecided) and the rest decided"""
    skip = []
    for _ in range(4):
        r = run_once(unit, work, tier, vac, skip, seed)
        f = r.pop("rejected", None)
        if not f or f in skip:
            break
        skip.append(f)
    return r


def blame(text, errs, meta):
    """the extracted function the first located error lies in"""
    names = {m["function"] for m in meta if "function" in m}
    marks = Marks(text)
    for j in errs:
        for x in j.get("spans") or []:
            f = marks.of(x["line_start"])
            if x.get("is_primary") and f in names:
                return f
    return None


def run_once(unit, work, tier, vac, skip, seed=0):
    """-> dict(status, ...) for one unit"""
    t0 = time.time()
    tag = unit + ("_vac" if vac else "") + (f"_s{seed}" if seed else "")
    rs, meta = os.path.join(work, tag + ".rs"), os.path.join(work, tag + ".json")
    cmd = [RS2V, os.path.join(VERIF, "verus", unit + ".rs.in"), os.path.join(REPO, "src"), rs, meta] + (["--vacuity"] if vac else []) + (["--skip=" + ";".join(skip)] if skip else [])
    rc, o, e = call(cmd, work, 60)
    if rc != 0:
        return dict(status="undecided", reason=f"{unit}: extraction: {e.strip()[-400:]}", wall=time.time() - t0)
    text = open(rs).read()
    d = os.path.join(work, "d_" + tag)
    os.makedirs(d, exist_ok=True)
    rl = "30" if tier == "quick" else "120"
    vcmd = ["verus", rs, "--triggers-mode", "silent", "--multiple-errors", "3", "--error-format=json", "--output-json", "--time-expanded",
            "--no-report-long-running", "--rlimit", rl if not vac else "5"] + ([] if vac else ["-V", "spinoff-all"]) + (["--smt-option", f"smt.random_seed={seed}"] if seed else [])
    rc, o, e = call(vcmd, d, 420 if tier == "quick" else 800)
    r = dict(unit=unit, text=text, meta=json.load(open(meta)), wall=time.time() - t0, cmd=" ".join(["rs2verus", unit + ".rs.in", "/repo/src", "&&"] + vcmd[:1] + [unit + ".rs"] + vcmd[2:]))
    if rc is None:
        return dict(r, status="undecided", reason=f"{unit}: the verifier ran out of time")
    errs = []
    for l in e.splitlines():
        try:
            j = json.loads(l)
        except Exception:
            continue
        if j.get("level") == "error" and not j["message"].startswith("aborting"):
            errs.append(j)
    try:
        res = json.loads(o[o.index("{"):])
        vr = res["verification-results"]
        r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        r["solver_s"] = res["times-ms"]["smt"]["smt-run"] / 1000.0
    except Exception:
        msg = "; ".join(j["message"] for j in errs[:3]) or e[-300:]
        return dict(r, rejected=blame(text, errs, r["meta"]), status="undecided", reason=f"{unit}: the verifier rejected the extracted text: {msg}", output=e[-3000:])
    r["diags"] = errs
    if vr.get("encountered-vir-error") or (errs and not r["errors"]):
        return dict(r, rejected=blame(text, errs, r["meta"]), status="undecided", reason=f"{unit}: the verifier rejected the extracted text: " + "; ".join(j["message"] for j in errs[:3]),
                    output="\n".join(j.get("rendered", "") for j in errs)[:3000])
    r["status"] = "failed" if r["errors"] or errs else "ok"
    return r


def decide(prop, spec, tier):
    t0 = time.time()
    ok, err = build()
    if not ok:
        return dict(status="undecided", reason="rs2verus does not build: " + err, functions=[], failures=[])
    work = tempfile.mkdtemp(prefix="fem2d-verus.")
    out = {}

    def go(u, vac):
        try:
            out[(u, vac)] = run_unit(u, work, tier, vac)
        except Exception as ex:
            out[(u, vac)] = dict(status="undecided", reason=f"{u}: internal error {ex!r}", wall=0)

    try:
        ts = [threading.Thread(target=go, args=(s["unit"], v)) for s in spec for v in (False, True)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    R = dict(status="ok", functions=[], failures=[], trusted=[], obligations=0, discharged=0, solver_s=0.0, dropped=[], vacuity={}, output="", cmd=[])
    reasons = []
    for s in spec:
        u = s["unit"]
        r = out[(u, False)]
        if "text" not in r or r["status"] == "undecided":
            reasons.append(r["reason"])
            R["output"] += r.get("output", "")
            continue
        skip, only = set(s.get("except", [])), s.get("only")
        marks = Marks(r["text"])
        R["cmd"].append(r["cmd"])
        R["trusted"] += trusted_scan(r["text"])
        R["solver_s"] += r["solver_s"]
        R["obligations"] += r["verified"] + r["errors"]
        R["discharged"] += r["verified"]
        R["dropped"] += [dict(item=f.get("struct"), fields=f["dropped_fields"], unit=u) for f in r["meta"] if f.get("dropped_fields")]
        nd = [m for m in r["meta"] if m.get("not_decided")]
        for m in nd:
            if m["given"] in skip or (only and m["given"] not in only):
                continue
            reasons.append(f"{u}: {m['given']}: {m['not_decided']}")
        R["given"] = R.get("given", []) + [dict(function=m["given"], proved_in=m["proved_in"], unit=u) for m in r["meta"] if m.get("proved_in")]
        R["functions"] += [dict(f, unit=u) for f in r["meta"] if "function" in f]
        gave_up = False
        for j in r["diags"]:
            sp = j.get("spans") or []
            inner = [x for x in sp if x["is_primary"]] + [x for x in sp if not x["is_primary"]]
            fns = [marks.of(x["line_start"]) for x in inner]
            # the function under proof: for a failed precondition the call site, for a failed postcondition its owner
            fn = fns[0] if fns else u
            if any(g in j["message"] for g in GIVEUP) and not any(f in j["message"] for f in FAIL):
                gave_up = True
                reasons.append(f"{u}: {fn}: {j['message']}")
                continue
            if fn in skip or (only and fn not in only):
                continue
            R["failures"].append(dict(unit=u, function=fn, message=j["message"] + ": " + " | ".join(
                (x["text"][0]["text"].strip() if x.get("text") else "") + (f" ({x['label']})" if x.get("label") else "") for x in inner)[:400]))
            R["output"] += j.get("rendered", "")
        v = out[(u, True)]
        fn_names = [f["function"] for f in r["meta"] if "function" in f]
        if "diags" in v:
            vm = Marks(v["text"])
            hit = set()
            for j in v["diags"]:
                for x in j.get("spans") or []:
                    hit.add(vm.of(x["line_start"]))
            missing = [f for f in fn_names if f not in hit]
            R["vacuity"][u] = dict(functions=len(fn_names), reachable=len(fn_names) - len(missing), not_shown_reachable=missing)
            if missing and r["status"] == "ok":
                reasons.append(f"{u}: preconditions not shown satisfiable: {missing}")
        else:
            R["vacuity"][u] = dict(note=v.get("reason", ""))
            reasons.append(f"{u}: vacuity run: {v.get('reason','')}")
    R["cmd"] = " ; ".join(R["cmd"])
    R["trusted"] = sorted(set(R["trusted"]))
    R["wall_s"] = round(time.time() - t0, 2)
    R["solver_s"] = round(R["solver_s"], 3)
    if R["failures"]:
        R["status"] = "failed"
    elif reasons:
        R["status"] = "undecided"
    if reasons:
        R["reason"] = "; ".join(reasons)[:1500]
    return R
