#!/usr/bin/env python3
"""Runs the native harness: the canister's own source, built for this machine against recorded stand-ins for the IC
system interface, driven through random histories and checked step by step.  Bounded: it never counts as proof.

  run.py --repo R --build B --prebuild
  run.py --repo R --build B --property C05 --seconds 10 --seed 1 --mode confirm --out f.json
  run.py --repo R --build B --replay replay.json
"""
import argparse, json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import build as hb

LIB = {"C20": 0.3, "C21": 0.85, "C22": 0.5, "C23": 0.1, "C30": 0.95}   # share of the time given to the library-level checks
WORLD = 1


def run(exe, args, secs):
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=secs + 90)
    except subprocess.TimeoutExpired:
        return "timeout"
    return None if r.returncode == 0 else "exit %d: %s" % (r.returncode, r.stderr[-300:])


def main():
    ap = argparse.ArgumentParser()
    for k in ("repo", "build", "property", "out", "replay", "mode"):
        ap.add_argument("--" + k)
    ap.add_argument("--seconds", type=float, default=10)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--prebuild", action="store_true")
    a = ap.parse_args()
    repo, hx = os.path.abspath(a.repo), os.path.join(os.path.abspath(a.build), "hx")
    if a.prebuild:
        bins, log = hb.build(repo, hx)
        print({k: bool(v) for k, v in bins.items()}, log[-3000:])
        return 0 if all(bins.values()) else 1
    if a.replay:
        v = json.load(open(a.replay))
        if "scenario" not in v:
            print("this replay file carries no history (no failing input was found)")
            return 0
        w = "libck" if "case" in v["scenario"] else "world"
        bins, log = hb.build(repo, hx, (w,))
        if not bins[w]:
            print(log)
            return 2
        return subprocess.run([bins[w], "--replay", a.replay], stderr=subprocess.DEVNULL).returncode
    p = a.property
    which = (["libck"] if p in LIB else []) + ["world"]
    bins, log = hb.build(repo, hx, which)
    res = {"status": "error", "reason": "", "histories": 0, "calls": 0, "samples": {}, "cases": 0}
    with tempfile.TemporaryDirectory() as d:
        done = 0
        for w in which:
            if not bins[w]:
                res["reason"] += "%s does not build: %s; " % (w, [x for x in log.splitlines() if x.startswith("error")][:3])
                continue
            s = a.seconds * (LIB.get(p, 0) if w == "libck" else 1 - LIB.get(p, 0))
            s = max(1, int(s + 0.5))
            f = os.path.join(d, w + ".json")
            e = run(bins[w], ["--property", p, "--seconds", str(s), "--seed", str(a.seed), "--out", f], s)
            if e or not os.path.isfile(f):
                res["reason"] += "%s: %s; " % (w, e)
                continue
            r = json.load(open(f))
            for k in ("histories", "calls", "cases"):
                res[k] += r.get(k, 0)
            res["samples"].update(r.get("samples", {}))
            if r.get("errors"):
                res["engine_errors"] = [x[:600] for x in r["errors"]]
            if r["status"] == "violation":
                res.update(status="violation", reason=r["reason"], explanation=r["explanation"], scenario=r["scenario"])
                break
            if r["status"] == "ok":
                done += 1
            else:
                res["reason"] += "%s: %s; " % (w, r.get("reason", ""))
        if res["status"] == "error" and done:
            # the part that ran found nothing; a part that could not be built is reported as such
            res["status"] = "ok" if done == len(which) else "partial"
    if res["status"] == "partial":
        res["status"] = "ok"
        res["note"] = res["reason"]
    json.dump(res, open(a.out, "w"), indent=1)
    return 0


if __name__ == "__main__":
    sys.exit(main())
