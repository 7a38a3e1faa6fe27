#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property of /repo's current source:
  1. translate the source into a Verus file (extract/) together with the contracts tagged with the property;
  2. Verus discharges every obligation;
  3. the native harness (harness/) confirms the trusted contracts on a sample of histories, searches for a failing
     input when an obligation fails, and stands in (bounded, labelled so) when the source cannot be brought under
     the contracts.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check itself could not run.
"""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
T0 = time.time()
BUDGET = 840  # seconds for one run of a check, the thorough tier included


def left(reserve=0):
    return max(5, BUDGET - (time.time() - T0) - reserve)
ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + ENV.get("PATH", "")
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["RUSTC_WRAPPER"] = ""
ENV.setdefault("HOME", "/root")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def newest(*paths):
    m = 0.0
    for p in paths:
        if os.path.isdir(p):
            for d, _, fs in os.walk(p):
                for f in fs:
                    m = max(m, os.stat(os.path.join(d, f)).st_mtime)
        elif os.path.exists(p):
            m = max(m, os.stat(p).st_mtime)
    return m


def build_extract():
    b = os.path.join(BUILD, "extract", "debug", "extract")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        e = os.path.join(V, "extract")
        if os.path.exists(b) and os.stat(b).st_mtime > newest(e + "/src", e + "/Cargo.toml", e + "/Cargo.lock"):
            return b
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "extract"))
        r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=e, env=env, capture_output=True, text=True)
        if r.returncode:
            log(r.stderr[-4000:])
            log("cannot build the translator")
            sys.exit(2)
        os.utime(b)
    return b


HEAD = re.compile(r"^(error|note|warning)", re.M)


def blocks(txt):
    out, cur = [], None
    for l in txt.splitlines():
        if re.match(r"^(error|warning|note)(\[|:)", l):
            if cur:
                out.append(cur)
            cur = [l]
        elif cur is not None:
            cur.append(l)
    if cur:
        out.append(cur)
    return ["\n".join(x) for x in out]


class Proof:
    """one translation + verification"""

    def __init__(self, prop, work, vacuity=False, rlimit=40, timeout=300):
        self.prop, self.status, self.reason = prop, None, ""
        self.verified = self.errors = 0
        self.failures, self.smt_ms, self.map, self.stderr = [], 0, {}, ""
        rs, mp = os.path.join(work, prop + ".rs"), os.path.join(work, prop + ".json")
        cmd = [build_extract(), "--repo", REPO, "--spec", os.path.join(V, "spec"), "--slice", prop, "--out", rs, "--map", mp]
        if vacuity:
            cmd.append("--vacuity")
        self.cmds = [" ".join(cmd)]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=ENV, timeout=120)
        except subprocess.TimeoutExpired:
            self.status, self.reason = "unattached", "the translation did not end"
            return
        if r.returncode:
            self.status = "unattached"
            self.reason = (r.stderr.strip().splitlines() or ["translator failed"])[-1][:600]
            return
        self.map = json.load(open(mp))
        self.rs = rs
        bad = [k for k in self.map["missing_roots"] if k.startswith("canister::")]
        if bad:
            self.status, self.reason = "unattached", "no endpoint " + ", ".join(bad)
            return
        cf = [c for c in self.map["conversions"] if not c["verified"] and c["key"] in CONV.get(prop, [])]
        if cf:
            self.status, self.reason = "unattached", "conversion outside the translated subset: " + "; ".join(c["key"] + ": " + str(c["error"]) for c in cf)
            return
        if self.map.get("unknown_entry_points"):
            self.status, self.reason = "unattached", "entry point without a contract: " + ", ".join(self.map["unknown_entry_points"])
            return
        self.soft = list(self.map["missing_roots"]) + list(self.map["unattached"])
        # obligations are discharged function by function: a function that one run of the solver proves is proved,
        # so the later runs (another seed, more resources) only have to settle what is left
        runs = [(rlimit, None)] if vacuity else [(rlimit, None), (rlimit, 1), (2 * rlimit, 3), (4 * rlimit, 7)]
        todo, firsterr = None, []
        for n, (rl, sd) in enumerate(runs):
            if n and left(260) < 60:
                break
            cmd = ["verus", "--crate-type=lib", "--rlimit", str(rl), "--num-threads", "8", "--output-json", "--time-expanded",
                   "--multiple-errors", "4", prop + ".rs"]
            if sd is not None:
                cmd += ["-V", "spinoff-all", "--smt-option", "smt.random_seed=%d" % sd]
            self.cmds.append(" ".join(cmd))
            try:
                r = subprocess.run(cmd, cwd=work, capture_output=True, text=True, env=ENV, timeout=min(timeout, left(0 if vacuity else 260)))
            except subprocess.TimeoutExpired:
                if n and firsterr:
                    break
                self.status, self.reason = "unattached", "the verifier did not end in time"
                return
            try:
                j = json.loads(r.stdout[r.stdout.index("{"):])
                v = j["verification-results"]
            except Exception:
                self.status, self.reason = "unattached", "verifier error: " + first_error(r.stderr)
                self.stderr = r.stderr
                return
            t = j.get("times-ms", {})
            self.smt_ms += t.get("total-verify", t.get("smt", {}).get("total", 0))
            if v.get("encountered-vir-error") or (v.get("encountered-error") and not v.get("errors")) or re.search(r"^error\[E\d+\]", r.stderr, re.M):
                self.status, self.reason = "unattached", "the translated source is outside the verifier's subset: " + first_error(r.stderr)
                self.stderr = r.stderr
                return
            if n == 0:
                self.verified, self.errors = v.get("verified", 0), v.get("errors", 0)
            if v.get("success") and not v.get("errors") and r.returncode == 0:
                self.verified, self.errors = v.get("verified", 0), 0
                self.status, self.failures, self.reason = "proved", [], ""
                return
            names, bad = set(), set()
            for m in t.get("smt", {}).get("smt-run-module-times", []):
                for f in m.get("function-breakdown", []):
                    k = m.get("module", "") + "|" + f["function"]
                    names.add(k)
                    if not f.get("success"):
                        bad.add(k)
            fails = self.parse(r.stderr)
            if n == 0:
                self.stderr, firsterr = r.stderr, fails
                todo, first = bad, names
                if not bad:
                    self.status, self.failures = "failed", fails
                    return
            elif names >= first:
                todo = todo & bad
            if not todo:
                self.verified, self.errors = self.verified + self.errors, 0
                self.status, self.failures, self.reason = "proved", [], ""
                return
            last = {x.split("::")[-1] for x in todo}
            mine = [f for f in firsterr + ([] if n == 0 else fails) if f["fn"].split("::")[-1] in last or f["fn"] in ("?", "spec", "prelude")]
            hard = [f for f in mine if f["kind"] != "rlimit"]
            if hard or (not mine and any(f["kind"] != "rlimit" for f in firsterr)):
                self.failures = hard or [f for f in firsterr if f["kind"] != "rlimit"]
                self.status, self.reason = "failed", ""
                if n:
                    return
            else:
                self.status, self.reason = "unattached", "resource limit in " + ", ".join(sorted(last))

    def parse(self, err):
        out = []
        for b in blocks(err):
            if not b.startswith("error"):
                continue
            head = b.splitlines()[0]
            if "aborting due to" in head:
                continue
            lines = [int(x) for x in re.findall(r"--> \S+?:(\d+):", b)] + [int(x) for x in re.findall(r"^\s*(\d+)\s*[|/]", b, re.M)]
            fn, clause = "?", ""
            for n in lines:
                for m in self.map["lines"]:
                    if m["start"] <= n < max(m["end"], m["start"] + 1):
                        if m["what"] in ("fn", "vacfn", "conversion", "body", "spec", "prelude") and (fn == "?" or m["what"] in ("fn", "vacfn")):
                            if fn == "?":
                                fn = m["fn"]
                        if m["what"] in ("req", "ens") and not clause:
                            clause = "%s (%s): %s" % (m["fn"], m["src"], m["text"])
            if re.search(r"[Rr]esource limit|rlimit", head):
                kind = "rlimit"
            else:
                kind = head.replace("error: ", "")
            out.append({"kind": kind, "fn": fn, "clause": clause, "message": b})
        return out


def first_error(s):
    for b in blocks(s):
        if b.startswith("error"):
            return " ".join(b.split())[:500]
    return " ".join(s.split())[:300]


# conversions a property is about
_PT, _CA, _UA = "ProcessTransactionError", "CreatedAtTimeValidationError", "UseAllowanceError"
CONV = {
    "C22": ["from:RejectCode=>RejectionCode", "from:%s=>%s" % (_CA, _PT), "from:Error=>" + _PT]
    + ["from:%s=>%s" % (_PT, x) for x in ("TransferFromError", "WithdrawFromError", "ApproveError", "WithdrawError", "CreateCanisterError", "CreateCanisterFromError")]
    + ["from:%s=>%s" % (_UA, x) for x in ("TransferFromError", "WithdrawFromError", "CreateCanisterFromError")]
    + ["from:%s=>%s" % (_CA, x) for x in ("TransferFromError", "WithdrawError", "CreateCanisterError", "CreateCanisterFromError", "ApproveError")],
    "C21": ["from:Account=>CompactAccount", "try:CompactAccount=>Account", "try:FlattenedTransaction=>Transaction", "from:Transaction=>FlattenedTransaction"],
    "C29": ["from:ChangeIndexId=>Option<Principal>"],
}


# what a property's slice takes as given and that is proved of the bodies in another slice (hashes, what an upgrade
# rebuilds): that slice is verified too, and a failure in these functions counts (where a pattern is given, failed
# postconditions only if they match it)
INIT, LAST = "storage::__init_state", "storage::State::compute_last_block_hash_and_hash_tree"
SUPPORT = {
    "C01": [("C23", {INIT, "storage::State::compute_total_supply"}, r"supply|msum|r\.balances@ ==")],
    "C03": [("C20", {"storage::Block::hash"}), ("C23", {INIT, LAST}, r"last_hash|r\.blocks@ ==")],
    "C04": [("C20", {"storage::Block::hash"}), ("C23", {INIT, LAST, "storage::populate_last_block_hash_and_hash_tree"}, r"tip_tree|r\.blocks@ ==|insert")],
    "C11": [("C30", {"storage::Transaction::hash"})],
    "C31": [("C30", {"storage::Transaction::hash"})],
    "C15": [("C30", {"storage::Transaction::hash"}), ("C20", {"storage::Block::hash"})],
}
PROVED_IN = {"storage::Block::hash": " - proved to be the hash of the published value in the slice of C20",
             "storage::Transaction::hash": " - its value is proved in the slice of C30"}


def trusted_base(p):
    out = ["Verus 0.2026.09.13 and Z3 (SMT back end)", "the translator extract/ (rules in DESIGN.md section 3)",
           "spec/prelude.rs: contracts assumed for external crates and the IC system API",
           "spec/specs.rs: the property's specification functions (lemmas in it are proved)"]
    for k in p.map.get("trusted", []):
        out.append("trusted contract (body not verified in this slice): " + k + PROVED_IN.get(k, ""))
    for k in p.map.get("dropped", []):
        out.append("not translated: " + k)
    return out


ASSUME = [
    "stable memory and the append-only log never fail to grow; block index < 2^64",
    "SHA-256 / representation-independent hashing is deterministic; collision freedom only where a property says so",
    "ledger time is monotone and below 2^64-1 ns; callers are never the management canister; principals have at most 29 bytes",
    "a message that traps is rolled back to its last commit point by the IC; state changes between an outgoing call and its reply are those of other complete messages (rely condition, guaranteed by every endpoint's contract)",
    "the cycles-minting and management canisters obey their interface (a refund never exceeds what was sent; total cycles fit 128 bits)",
    "serde_derive generates what extract/src/serde.rs spells out from the attributes; ciborium reads back what it wrote; candid and minicbor derives, and the serde impls of external types, encode and decode faithfully",
]


def count_assumed():
    n = {}
    for f in ("prelude.rs", "specs.rs"):
        s = open(os.path.join(V, "spec", f)).read()
        n[f] = {"external_body": len(re.findall(r"external_body", s)), "assume/admit": len(re.findall(r"\b(?:assume|admit)\s*\(", s)), "axioms": len(re.findall(r"axiom fn", s))}
    return n


def harness(prop, secs, mode, work):
    """returns None when there is no harness, else a dict"""
    h = os.path.join(V, "harness", "run.py")
    if not os.path.exists(h):
        return None
    out = os.path.join(work, "harness.json")
    cmd = [sys.executable, h, "--repo", REPO, "--build", BUILD, "--property", prop, "--seconds", str(secs), "--seed", os.environ.get("VERIF_SEED", "1"), "--mode", mode, "--out", out]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=ENV, timeout=left(10))
    except subprocess.TimeoutExpired:
        return {"status": "error", "reason": "the harness did not end"}
    if r.returncode or not os.path.exists(out):
        log(r.stderr[-3000:])
        return {"status": "error", "reason": (r.stderr.strip().splitlines() or ["harness failed"])[-1][:400]}
    return json.load(open(out))


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=BUILD)
    try:
        rc = run(prop, tier, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def vacuity(prop, work):
    """every function whose contract would still be accepted with 'ensures false'"""
    p = Proof(prop, work, vacuity=True, rlimit=20, timeout=400)
    if p.status != "failed":
        return {"status": p.status, "reason": p.reason}
    names = {m["fn"] for m in p.map["lines"] if m["what"] == "vacfn"}
    hit = set()
    for f in p.failures:
        hit.add(f["fn"])
        for m in p.map["lines"]:
            if m["what"] == "vacuity" and any(m["start"] <= int(x) < max(m["end"], m["start"] + 1) for x in re.findall(r"^\s*(\d+)\s*\|", f["message"], re.M)):
                hit.add(m["fn"])
    return {"status": "done", "functions": len(names), "still_provable": sorted(names - hit)}


def support(p, prop, work):
    """the trusted contracts of this slice, proved where their bodies are under contract"""
    done = []
    for slice_, fns, *about in SUPPORT.get(prop, []):
        if p.status != "proved":
            break
        q = Proof(slice_, work)
        p.cmds += q.cmds
        p.smt_ms += q.smt_ms
        bad = [f for f in q.failures if f["fn"] in fns and not (about and f["kind"] == "postcondition not satisfied" and f["clause"] and not re.search(about[0], f["clause"]))]
        gone = fns - set(q.map.get("modular", []))
        if q.status == "unattached" or (q.status == "proved" and gone):
            p.status, p.reason = "unattached", "%s: %s" % (slice_, q.reason or "no contract for " + ", ".join(sorted(gone)))
        elif bad:
            p.status, p.failures, p.stderr = "failed", bad, q.stderr
            p.soft = p.soft + q.soft
            p.errors += len(bad)
        else:
            done.append({"slice": slice_, "functions": sorted(fns)})
            p.verified += len(fns)
    return done


def run(prop, tier, work):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = json.load(open(os.path.join(V, "known_findings.json")))
    p = Proof(prop, work)
    sup = support(p, prop, work)
    log("%s: %s %s (%d verified, %d errors)" % (prop, p.status, p.reason, p.verified, p.errors))
    cov = {
        "obligations": p.verified + p.errors, "discharged": p.verified,
        "checker_cmd": " && ".join(p.cmds), "trusted_base": trusted_base(p),
        "status": p.status, "reason": p.reason,
        "functions_under_contract": p.map.get("modular", []),
        "property_roots": p.map.get("roots", []),
        "trusted_contracts_proved_in": sup,
        "callees_left_unconstrained": p.map.get("stubs", []),
        "helpers_inlined": p.map.get("inlined", {}),
        "conversions_verified": [c["key"] for c in p.map.get("conversions", []) if c["verified"] and (c["key"] in CONV.get(prop, []) or prop not in CONV)],
        "contract_clauses": sum(1 for m in p.map.get("lines", []) if m["what"] in ("req", "ens")),
        "back_end": "Verus/Z3", "solver_ms": p.smt_ms,
        "contracts_not_attached": getattr(p, "soft", []),
        "assumed_in_prelude": count_assumed(),
    }
    if p.failures:
        cov["failed_obligations"] = [{k: f[k] for k in ("kind", "fn", "clause")} for f in p.failures]
    quick_secs = {"proved": 12, "failed": 100, "unattached": 100}
    thorough_secs = {"proved": 180, "failed": 240, "unattached": 300}
    secs = (thorough_secs if tier == "thorough" else quick_secs)[p.status]
    secs = int(min(secs, left(240 if p.status == "proved" and tier == "thorough" else 140)))
    mode = {"proved": "confirm", "failed": "search", "unattached": "standin"}[p.status]
    h = harness(prop, secs, mode, work)
    if h is not None:
        cov["native_harness"] = {"role": mode + (" (bounded: counted as no proof)" if mode != "search" else ""), "seconds": secs, **{k: h.get(k) for k in ("status", "reason", "histories", "calls", "cases", "samples", "note") if k in h}}
    if tier == "thorough" and p.status == "proved":
        cov["vacuity"] = vacuity(prop, work)
    violation = None
    if h and h.get("status") == "violation":
        violation = "input"
    elif p.status == "failed":
        if cov["contracts_not_attached"]:
            cov["bounded"] = True
            cov["note"] = "contracts could not be attached to the changed source; decided by the bounded native harness only"
        else:
            violation = "obligation"
    elif p.status == "unattached":
        if not h or h.get("status") != "ok":
            log("%s: neither the contracts nor the bounded stand-in could be applied: %s / %s" % (prop, p.reason, h and h.get("reason")))
            write_ev(prop, tier, seed, cov, 0)
            return 2
        cov["bounded"] = True
        cov["note"] = "contracts could not be attached to the changed source; decided by the bounded native harness only"
    for k in known.get("known", []):
        if k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    write_ev(prop, tier, seed, cov, 1 if violation else 0)
    if violation:
        rp = os.path.join(BUILD, "replay", prop + ".json")
        rec = {"property": prop, "failed_obligations": p.failures, "verifier_output": p.stderr[-20000:], "commands": p.cmds}
        if violation == "input":
            rec["scenario"] = h.get("scenario")
            rec["explanation"] = h.get("explanation")
            rec["replay_cmd"] = "python3 %s/harness/run.py --repo %s --build %s --replay %s" % (V, REPO, BUILD, rp)
        json.dump(rec, open(rp, "w"), indent=1)
        for f in p.failures[:6]:
            log("  failed obligation: %s in %s %s" % (f["kind"], f["fn"], f["clause"]))
        if violation == "input":
            log("  " + str(h.get("explanation")))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        return 1
    print("%s held: %s" % (prop, p.status))
    return 0


def write_ev(prop, tier, seed, cov, viol):
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": ASSUME,
          "wall_s": round(time.time() - T0, 2), "violations": viol}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
