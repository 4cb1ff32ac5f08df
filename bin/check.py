#!/usr/bin/env python3
"""python3 bin/check.py <property> quick|thorough   |   python3 bin/check.py setup

Builds the tools from /repo's working tree, generates abstract cases for the property, runs the rendered cases
through the real tools, and lets TLC replay every case in the specification, which decides the verdict."""
import collections, json, os, random, shutil, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
from build import build
from run import run_jobs
from tlc import run_tlc
import registry

BATCH = 4000


def known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.json")
    for f in json.load(open(p))["findings"] if os.path.exists(p) else []:
        if f["property"] == prop:
            out.append(f)
    return out


def is_known(kf, part, case, classes, detail):
    for f in kf:
        if f.get("part") and f["part"] != part.name:
            continue
        if f.get("key") and case.get("key") == f["key"]:
            return f
    return None


def make(part, n, seed, tier):
    cases = []
    fixed = part.fixed(tier) if part.fixed else []
    for i, c in enumerate(fixed):
        c["_rs"] = "fixed/%s/%d" % (part.name, i)
        cases.append(c)
    for i in range(n):
        c = part.gen(random.Random("%d/%s/%d" % (seed, part.name, i)), i)
        c["_rs"] = "%d/%s/%d/r" % (seed, part.name, i)
        cases.append(c)
    return cases


def evaluate(part, cases, bins, seed):
    """-> list of (ok, classes, detail), states, distinct"""
    dom = part.dom
    jobs = [dom.to_job(c, c["_rs"]) for c in cases]
    res = run_jobs(jobs, bins)
    rec = [dom.to_tla(str(k), c, dom.observe(c, x)) for k, (c, x) in enumerate(zip(cases, res))]
    out, st, di = [None] * len(cases), 0, 0
    for b in range(0, len(rec), BATCH):
        chunk = rec[b:b + BATCH]
        v, s, d, ok, txt = run_tlc(dom.MODULE, chunk, cfg=getattr(dom, "CFG", None))
        if not ok or len(v) != len(chunk):
            print(txt[-4000:], file=sys.stderr)
            raise RuntimeError("TLC did not give a verdict for every case of %s (%d of %d)" % (part.name, len(v), len(chunk)))
        st += s
        di += d
        for k, x in v.items():
            out[int(k)] = x
    return out, jobs, res, rec, st, di


def save_replay(prop, n, part, case, job, res, rec, verdict):
    d = os.path.join(HERE, "evidence", "replay", "%s-%s-%d" % (prop, part.name, n))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for fn, c in job["files"].items():
        p = os.path.join(d, fn)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(c if isinstance(c, bytes) else c.encode("latin-1"))
    with open(os.path.join(d, "REPLAY.txt"), "w") as f:
        f.write("property %s, cases of %s, specification %s\n" % (prop, part.name, part.dom.MODULE))
        f.write("commands, run in this directory:\n")
        for k, st in enumerate(job.get("history", [])):
            f.write("  %d: %s\n" % (k + 1, json.dumps(st, default=lambda b: b.decode("latin-1"))))
        for st, rc in zip(job["steps"], list(res["rcs"]) + ["not run"] * 99):
            f.write("  %s   -> exit %s\n" % (" ".join(st), rc))
        f.write("the specification disagrees in %s:\n%s\n" % (sorted(verdict[1]), verdict[2]))
        for o in res["outs"]:
            f.write(o.decode("latin-1")[:2000] + "\n")
    json.dump(rec, open(os.path.join(d, "case.json"), "w"))
    return d


def setup():
    tools = set(["wlalink"])
    for c in registry.CHECKS.values():
        for p in c["parts"]:
            tools |= set(p.tools)
    build(sorted(tools))
    return 0


def main():
    if sys.argv[1] == "setup":
        return setup()
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    chk = registry.CHECKS[prop]
    kf = known(prop)
    bins = build(sorted(set(["wlalink"]).union(*[p.tools for p in chk["parts"]])))
    states = trans = traces = 0
    samples, per, viol, seen_known, accept = [], {}, [], {}, collections.Counter()
    budget = 600 if tier == "thorough" else 10 ** 9
    for mod, cfg, tiers in chk.get("mc", []):
        if tier not in tiers:
            continue
        t = time.time()
        v, s, d, ok, txt = run_tlc(mod, None, cfg=os.path.join(HERE, "spec", cfg))
        if not ok:
            print(txt[-4000:], file=sys.stderr)
            raise RuntimeError("model checking of %s failed" % cfg)
        states += d
        trans += s
        per["model " + cfg] = {"distinct_states": d, "transitions": s, "wall_s": round(time.time() - t, 1)}
    for part in chk["parts"]:
        n = part.quick if tier == "quick" else part.thorough
        rounds = 0
        while True:
            t = time.time()
            cases = make(part, n, seed + 1000003 * rounds, tier)
            verd, jobs, res, rec, s, d = evaluate(part, cases, bins, seed)
            states += d
            trans += s
            rel = part.classes
            bad = [k for k, x in enumerate(verd) if not x[0] and (rel is None or x[1] & rel)]
            other = sum(1 for x in verd if not x[0]) - len(bad)
            if bad:   # confirm by running these again
                again, j2, r2, c2, s2, d2 = evaluate(part, [cases[k] for k in bad[:60]], bins, seed)
                conf = []
                for q, k in enumerate(bad[:60]):
                    if not again[q][0] and (rel is None or again[q][1] & rel):
                        f = is_known(kf, part, cases[k], again[q][1], again[q][2])
                        if f:
                            seen_known[f["id"]] = f
                        else:
                            conf.append((k, q))
                for k, q in conf[:5]:
                    viol.append((part, save_replay(prop, k, part, cases[k], j2[q], r2[q], c2[q], again[q]), again[q]))
            traces += len(cases)
            p = per.setdefault(part.name, {"cases": 0, "model_outcomes": {}, "disagreements_of_other_classes": 0,
                                           "distinct_states": 0, "transitions": 0, "wall_s": 0})
            p["cases"] += len(cases)
            p["distinct_states"] += d
            p["transitions"] += s
            p["disagreements_of_other_classes"] += other
            p["wall_s"] = round(p["wall_s"] + time.time() - t, 1)
            for x in verd:
                if x[0]:
                    k = x[2].split("|")[0][:40]
                    p["model_outcomes"][k] = p["model_outcomes"].get(k, 0) + 1
            if rounds == 0 and cases:
                k = min(len(cases) - 1, 7)
                samples.append({"part": part.name, "files": {a: (b if isinstance(b, str) else b.hex())[:1500]
                                                             for a, b in list(jobs[k]["files"].items())[:4]},
                                "commands": [" ".join(x) for x in jobs[k]["steps"]], "model": verd[k][2][:200]})
            rounds += 1
            if tier == "quick" or viol or part.thorough == 0 or time.time() - t0 > budget * (chk["parts"].index(part) + 1) / len(chk["parts"]):
                break
    for f in kf:
        # listed findings are looked at on every run by their own cases; say so even if this run's sample missed it
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": traces,
                       "parts": per, "samples": samples[:4],
                       "known_findings_seen": sorted(seen_known)},
          "violations": [v[1] for v in viol], "wall_s": round(time.time() - t0, 1)}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d states, %d transitions, %.1f s" % (prop, tier, traces, states, trans, time.time() - t0))
    for part, path, v in viol:
        print("  %s: %s" % (part.name, v[2][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.exit(rc)
