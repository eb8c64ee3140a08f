import os, sys, json, time, argparse, multiprocessing as mp
from . import core, registry

NPROC = 8


def known_findings():
    p = os.path.join(core.VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--target")
    ap.add_argument("-n", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    prop = a.prop
    targets = registry.load(prop)

    if a.replay:
        r = json.load(open(a.replay))
        st, msg, note = core.run_case(targets[r["target"]], r["case"])
        print(st, msg)
        if st == "violation":
            print(f"VIOLATION property={prop} replay={a.replay}")
        sys.exit({"ok": 0, "skip": 0, "violation": 1, "error": 2}[st])

    t0 = time.time()
    quick = a.tier != "thorough"
    deadline = t0 + (480 if quick else 3 * 3600)
    tasks = []
    for it, (name, t) in enumerate(targets.items()):
        if a.target and name != a.target:
            continue
        if t.enumerate_ is not None:
            cases = t.enumerate_("quick" if quick else "thorough")
            nsh = min(NPROC * 2, max(1, len(cases)))
            for s in range(nsh):
                tasks.append((prop, name, s, 0, 0, deadline, cases[s::nsh]))
        if t.strategy is not None:
            n = a.n or (t.quick if quick else t.thorough)
            nsh = NPROC if n >= NPROC else n
            for s in range(nsh):
                # seeds of different seeds/targets/shards do not overlap
                seed = ((a.seed * 1000 + it) * 1000 + s) * 7 + 1
                tasks.append((prop, name, s, n // nsh + (s < n % nsh), seed, deadline, None))
    # the code under test and the tables are imported once, before forking
    with mp.get_context("fork").Pool(NPROC, maxtasksperchild=None) as pool:
        results = pool.map(core.run_shard, tasks, chunksize=1)

    ev = sum(r["evaluations"] for r in results)
    skipped = sum(r["skipped"] for r in results)
    cut = sum(r["cut"] for r in results)
    nt = set()
    labels, samples, per = {}, [], {}
    for r in results:
        nt |= {r["target"] + c for c in r["nontrivial"]}
        p = per.setdefault(r["target"], dict(evaluations=0, nontrivial=0, skipped=0))
        p["evaluations"] += r["evaluations"]
        p["nontrivial"] += len(r["nontrivial"])
        p["skipped"] += r["skipped"]
        for k, c in r["labels"].items():
            kk = r["target"] + ": " + k
            labels[kk] = labels.get(kk, 0) + c
        if p.get("_s", 0) < 2 and r["samples"]:
            samples.append({"target": r["target"], "case": r["samples"][0]})
            p["_s"] = p.get("_s", 0) + 1
    for p in per.values():
        p.pop("_s", None)

    errors = [e for r in results for e in r["errors"]]
    viol = {}
    for r in results:
        for case, msg in r["violations"]:
            key = r["target"]
            size = len(json.dumps(case))
            if key not in viol or size < viol[key][2]:
                viol[key] = (case, msg, size)

    findings = [f for f in known_findings() if f["property"] == prop and f["status"] == "finding"]
    lines, known = [], []
    os.makedirs(os.path.join(core.VERIF, "evidence", "replays"), exist_ok=True)
    for f in findings:       # probes: the exact recorded input of each finding
        st, msg, note = core.run_case(targets[f["target"]], f["case"])
        if st == "violation":
            known.append(f"KNOWN-FINDING: property={prop} {f['what']}")
    vrec = []
    for key, (case, msg, _) in sorted(viol.items()):
        rep = os.path.join(core.VERIF, "evidence", "replays",
                           f"{prop}-{key}-{core.case_id(case)}.json")
        json.dump(dict(property=prop, target=key, case=case, message=msg), open(rep, "w"), indent=1)
        lines.append(f"VIOLATION property={prop} replay={rep}")
        print(f"[{prop}/{key}] {msg[:1500]}")
        print("  failing case:", json.dumps(case)[:2000])
        vrec.append(dict(target=key, message=msg[:1000], case=case, replay=rep))

    evid = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration",
                coverage=dict(evaluations=ev, distinct_nontrivial=len(nt),
                              rule=registry.rule(prop), samples=samples[:12],
                              per_target=per, skipped_outside_domain=skipped,
                              not_run_budget=cut, classes=dict(sorted(labels.items()))),
                wall_s=round(time.time() - t0, 2), violations=len(vrec),
                violation_details=vrec,
                assumptions=registry.assumptions(prop))
    json.dump(evid, open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for l in known + lines:
        print(l)
    print(f"{prop}: {ev} cases, {len(nt)} non-trivial, {skipped} outside domain, {cut} cut, "
          f"{len(viol)} violations, {len(errors)} errors, {time.time()-t0:.1f}s")
    if lines:
        sys.exit(1)
    if errors:
        print("HARNESS ERROR\n" + errors[0])
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
