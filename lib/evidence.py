"""Writes /verif/evidence/<id>.json from what this run measured."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def write(prop, tier, seed, spec, br, ded, wall, violations, bound):
    rep = br.get("report") or {}
    cov = {
        "evaluations": int(rep.get("cases", 0)),
        "distinct_nontrivial": int(rep.get("distinct_nontrivial", 0)),
        "rule": spec.get("rule", "systematic corner cases followed by seeded random inputs; a case is non-trivial when its generated operation list differs from every other and reaches the property's postconditions"),
        "samples": rep.get("samples", [])[:3],
        "bounded_postconditions_evaluated": int(rep.get("postconditions_evaluated", 0)),
        "bounded_status": br["status"],
    }
    if br.get("reason"):
        cov["bounded_reason"] = br["reason"]
    level = "exploration"
    assumptions = list(spec.get("assumptions", []))
    if ded:
        functions, trusted, cmds = [], [], []
        obl = dis = 0
        per = {}
        for k, r in ded.items():
            obl += r.get("obligations", 0)
            dis += r.get("discharged", 0)
            functions += [dict(f, back_end=k) for f in r.get("functions", [])]
            trusted += r.get("trusted", [])
            if r.get("cmd"):
                cmds.append(r["cmd"])
            per[k] = {x: r[x] for x in ("status", "reason", "obligations", "discharged", "solver_s", "wall_s", "dropped", "vacuity", "failures") if x in r}
        cov.update(obligations=obl, discharged=dis, checker_cmd=" ; ".join(cmds), trusted_base=sorted(set(trusted)),
                   functions_under_contract=functions, back_ends=per)
        if spec.get("level") == "proof":
            level = "proof"
        if any(r["status"] == "undecided" for r in ded.values()):
            level = "exploration"
            assumptions.append("a deductive layer was undecided on this tree, so this run decided the property by its bounded layer only")
    assumptions.append("the bounded layer samples inputs; it never counts as proof")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
                       wall_s=round(wall, 2), violations=violations), f, indent=1)
