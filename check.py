#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property: extracts /repo's current source, has Verus discharge every obligation of the
contracts in contracts/, and reports the obligations that belong to the property.  See DESIGN.md.
"""
import json, os, re, subprocess, sys, time, fcntl, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
T = os.path.join(V, "target")
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, SAFETY  # noqa

SAFE_MSG = re.compile(r"overflow|underflow|division by zero|precondition not satisfied|decreases|termination|index|unreachable|unwrap", re.I)
LIMIT_MSG = re.compile(r"Resource limit|rlimit|canceled|timed out|could not finish", re.I)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def cargo_env(target):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = target
    return e


def build_extract():
    r = sh(["cargo", "build", "--release", "--quiet"], cwd=f"{V}/extract", env=cargo_env(f"{T}/extract"))
    if r.returncode:
        die("extractor does not build:\n" + r.stderr[-3000:])
    return f"{T}/extract/release/extract"


def build_harness(cfg):
    a = ["cargo", "build", "--release", "--quiet"]
    if cfg:
        a += ["--features", cfg]
    d = f"{T}/h-{cfg.replace(',', '-') or 'none'}"
    r = sh(a, cwd=f"{V}/harness", env=cargo_env(d))
    if r.returncode:
        return None, r.stderr[-4000:]
    return f"{d}/release/harness", ""


def die(msg):
    print(msg)
    sys.exit(2)


def module_of(key):
    """rdata::dnssec::Nsec::new -> rdata::dnssec (modules are the leading lower-case segments)"""
    segs = re.split(r"::(?![^<]*>)", key)[:-1]
    out = []
    for x in segs:
        if re.match(r"[a-z_][a-z0-9_]*$", x) and x not in ("u8", "u16", "u32", "u64", "u128", "usize", "bool", "str", "char"):
            out.append(x)
        else:
            break
    return "::".join(out)


class Proof:
    """One run of the verifier over one feature configuration."""

    def __init__(self, cfg, extract, work, vacuity=False, rlimit=30, select=None, base=None):
        """select: which functions matter (None: all); base: extraction of another configuration -
        then only the modules whose text differs from it are verified."""
        self.cfg, self.work, self.select, self.base = cfg, work, select, base
        self.errors = []      # {fn, msg, safety, limit, text}
        self.global_errors = []
        self.fns = {}
        self.quarantine, self.qwhy, self.variant = [], {}, {}
        self.mods, self.queries = [], []
        self.wall = 0.0
        self.smt_ms = 0
        self.cmd = ""
        name = "v_" + (cfg.replace(",", "_") or "none") + ("_vac" if vacuity else "")
        self.rs, self.map = f"{work}/{name}.rs", f"{work}/{name}.map"
        t0 = time.time()
        for _ in range(12):
            if not self.once(extract, vacuity, rlimit):
                break
        self.wall = time.time() - t0

    def load(self):
        self.fns, self.specs, self.lost = {}, [], []
        for l in open(self.map):
            p = l.rstrip("\n").split("\t")
            if p[0] == "fn":
                self.fns[p[1]] = dict(a=int(p[2]), b=int(p[3]), status=p[4], loops=int(p[5]) if len(p) > 5 and p[5].isdigit() else 0,
                                      variants=next((int(x[9:]) for x in p if x.startswith("variants=")), 1))
            elif p[0] == "spec":
                self.specs.append((p[1], int(p[2]), int(p[3])))
            elif p[0] == "lost":
                self.lost.append(p[1])
        self.lines = open(self.rs).read().split("\n")

    def modules(self):
        """The modules to verify in this run; None: all of them."""
        if not self.select:
            return None
        mods = set()
        for k in self.fns:
            if self.select(k):
                mods.add(module_of(k))
        for m, a, b in self.specs:
            if m.startswith("impl "):
                continue
            for l in self.lines[a - 1:b]:
                x = re.search(r"\bproof fn (\w+)", l)
                if x and self.select("lemma " + x.group(1)):
                    mods.add("vprelude" if m == "prelude" else m)
                    break
        if self.base:
            mine, other = self.texts(), self.base.texts()
            mods = {m for m in mods if mine.get(m) != other.get(m)}
        return mods

    def texts(self):
        d = {}
        for k, f in self.fns.items():
            d.setdefault(module_of(k), {})[k] = "\n".join(self.lines[f["a"] - 1:f["b"]])
        for m, a, b in self.specs:
            d.setdefault("vprelude" if m == "prelude" else module_of(m[5:] if m.startswith("impl ") else m + "::X"), {})["spec " + m] = "\n".join(self.lines[a - 1:b])
        return d

    def once(self, extract, vacuity, rlimit):
        cmd = [extract, f"{REPO}/src", f"{V}/contracts", self.rs, self.map]
        if self.cfg:
            cmd += ["--features", self.cfg]
        if vacuity:
            cmd += ["--vacuity"]
        for q in self.quarantine:
            cmd += ["--quarantine", q]
        for k, n in self.variant.items():
            cmd += ["--variant", f"{k}={n}"]
        r = sh(cmd)
        if r.returncode:
            self.global_errors.append("extraction: " + (r.stderr or r.stdout)[-2000:])
            return False
        self.load()
        cmd = ["verus", self.rs, "--crate-type=lib", "--num-threads", "4", "--rlimit", str(rlimit), "--output-json",
               "--time-expanded", "--multiple-errors", "8", "--error-format=json", "--triggers-mode", "silent", "--no-report-long-running"]
        mods = self.modules()
        self.mods = sorted(mods) if mods is not None else ["all"]
        if mods is not None and not mods:
            self.verified = self.nerr = self.smt_ms = 0
            self.queries, self.errors = [], []
            return False
        for m in mods or []:
            cmd += ["--verify-only-module", m] if m else ["--verify-root"]
        self.cmd = " ".join(cmd)
        r = sh(cmd, cwd=self.work)
        try:
            out = json.loads(r.stdout)
        except Exception:
            out = {}
        vr = out.get("verification-results", {})
        self.verified, self.nerr = vr.get("verified", 0), vr.get("errors", 0)
        self.smt_ms = out.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
        self.queries = []
        for m in out.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                self.queries.append(f)
        self.errors, compile_bad, outside = [], set(), []
        for l in r.stderr.split("\n"):
            if not l.startswith("{"):
                continue
            try:
                e = json.loads(l)
            except Exception:
                continue
            if e.get("level") != "error" or e.get("message", "").startswith("aborting"):
                continue
            spans = e.get("spans", [])
            order = [s for s in spans if not re.search(r"failed (this|precondition)", s.get("label") or "")] + spans
            fn = None
            for s in order:
                fn = self.at(s["line_start"])
                if fn:
                    break
            msg = e["message"]
            # obligations carry these messages; everything else is "not accepted by the front end"
            ob = re.search(r"not satisfied|overflow|assertion fail|assert_|division by zero|decreases|Resource limit|rlimit|termination|invariant|could not prove|unreachable|panic", msg, re.I) and not e.get("code")
            if ob and (vr.get("encountered-vir-error") is not True):
                self.errors.append(dict(fn=fn or self.lemma(order), msg=msg, safety=bool(SAFE_MSG.search(msg)), limit=bool(LIMIT_MSG.search(msg)), text=e.get("rendered", msg)))
            else:
                if fn and self.fns[fn]["status"] == "verified":
                    compile_bad.add(fn)
                    self.qwhy.setdefault(fn, e.get("rendered", msg)[:600])
                else:
                    outside.append(e.get("rendered", msg))
        # other proof annotations for the same contract
        retry = [k for k in compile_bad | {e["fn"] for e in self.errors} if k in self.fns and self.variant.get(k, 0) + 1 < self.fns[k]["variants"]]
        if retry:
            for k in retry:
                self.variant[k] = self.variant.get(k, 0) + 1
            return True
        if compile_bad:
            self.quarantine += sorted(compile_bad)
            return True
        if outside or not out:
            self.global_errors.append("verifier front end: " + ("\n".join(outside)[:3000] or r.stderr[-2000:]))
        return False

    def at(self, line):
        for k, f in self.fns.items():
            if f["a"] <= line <= f["b"]:
                return k
        return None

    def lemma(self, spans):
        for s in spans:
            i = min(s["line_start"], len(self.lines)) - 1
            while i >= 0:
                m = re.search(r"\bfn\s+(\w+)", self.lines[i])
                if m:
                    return "lemma " + m.group(1)
                i -= 1
        return "?"

    def text(self, fn):
        f = self.fns.get(fn)
        return "\n".join(self.lines[f["a"] - 1:f["b"]]) if f else ""


def belongs(spec, err):
    """Does this failed obligation belong to the property?"""
    fn = err["fn"] or "?"
    for pat, kind in spec["own"]:
        if re.search(pat, fn):
            if kind == "safety" and not err["safety"]:
                continue
            if kind == "value" and err["safety"] and not re.search(r"precondition", err["msg"]):
                continue
            return True
    return False


def main():
    t0 = time.time()
    if sys.argv[1] == "setup":
        os.makedirs(T, exist_ok=True)
        build_extract()
        with ThreadPoolExecutor(2) as ex:
            for b, err in ex.map(build_harness, ["mdns,dnssec", ""]):
                if b is None:
                    die(err)
        return
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    os.makedirs(f"{V}/evidence", exist_ok=True)
    os.makedirs(T, exist_ok=True)
    work = f"{T}/work-{prop}"
    os.makedirs(work, exist_ok=True)
    cfgs = ["mdns,dnssec", ""] if tier == "quick" else ["mdns,dnssec", "", "mdns", "dnssec"]
    if spec.get("cfgs"):
        cfgs = [c for c in cfgs if c in spec["cfgs"]]
    hcfgs = cfgs if tier == "thorough" else cfgs[:2]
    ms = spec.get("ms", 15000) if tier == "quick" else spec.get("ms_thorough", 240000)

    extract = build_extract()
    select = base = None
    if tier == "quick":
        def select(k):
            return any(re.search(pat, k) for pat, _ in spec["own"])
        if len(cfgs) > 1:
            base = Proof.__new__(Proof)
            base.rs, base.map = f"{work}/base.rs", f"{work}/base.map"
            r = sh([extract, f"{REPO}/src", f"{V}/contracts", base.rs, base.map] + (["--features", cfgs[0]] if cfgs[0] else []))
            if r.returncode:
                base = None
            else:
                base.load()
    with ThreadPoolExecutor(8) as ex:
        fp = {c: ex.submit(Proof, c, extract, work, False, 30 if tier == "quick" else 60, select, base if c != cfgs[0] else None) for c in cfgs}
        fv = ex.submit(Proof, cfgs[0], extract, work, True, 10) if tier == "thorough" else None
        fh = {c: ex.submit(build_harness, c) for c in hcfgs}
        proofs = {c: f.result() for c, f in fp.items()}
        vac = fv.result() if fv else None
        bins = {c: f.result() for c, f in fh.items()}
    for c, (b, err) in bins.items():
        if b is None:
            print(f"note: the harness does not build against this tree ({c or 'no features'}): {err[:800]}")

    # --- obligations ---------------------------------------------------------------------------
    own, failed, soft, fell = {}, [], [], []
    known_fns = set(open(f"{V}/contracts/known_fns.txt").read().split("\n")) if os.path.exists(f"{V}/contracts/known_fns.txt") else set()
    for c, p in proofs.items():
        label = c or "none"
        for k, f in p.fns.items():
            if any(re.search(pat, k) for pat, _ in spec["own"]) and (p.mods == ["all"] or module_of(k) in p.mods or f["status"] != "verified"):
                own.setdefault(f["status"], []).append(f"{k} [{label}]")
        newfns = [k for k, f in p.fns.items() if f["status"] == "nocontract" and k not in known_fns]
        newnames = {k.rsplit("::", 1)[-1] for k in newfns}
        if p.global_errors:
            fell.append(f"[{label}] " + p.global_errors[0][:600])
            continue
        for e in p.errors:
            if not belongs(spec, e):
                continue
            e = dict(e, cfg=label)
            body = p.text(e["fn"]) if e["fn"] else ""
            uses_new = [n for n in newnames if re.search(r"\b" + re.escape(n) + r"\b", body)]
            if e["limit"]:
                e["why"] = "the solver's resource limit was reached"
                soft.append(e)
            elif uses_new:
                e["why"] = "it calls functions that have no contract: " + ", ".join(uses_new)
                soft.append(e)
            else:
                failed.append(e)
        for q in p.quarantine:
            if any(re.search(pat, q) for pat, _ in spec["own"]):
                fell.append(f"[{label}] {q}: outside the subset the verifier accepts ({p.qwhy.get(q, '').strip().splitlines()[:1]})")
        for k, f in p.fns.items():
            if f["status"] == "loopmismatch" and any(re.search(pat, k) for pat, _ in spec["own"]):
                fell.append(f"[{label}] {k}: other loops than its contract annotates")
        for k in p.lost:
            if any(re.search(pat, k) for pat, _ in spec["own"]) and not any(k in q.fns for q in proofs.values()):
                fell.append(f"[{label}] {k}: function no longer present")

    # --- concrete runs of the real code --------------------------------------------------------
    runs, known, concrete = [], [], None
    if failed or soft or fell:
        ms *= 3
    live = [c for c in hcfgs if bins[c][0]]

    def run(c, prop_, seed_, ms_):
        r = sh([bins[c][0], "run", prop_, str(seed_), str(ms_)])
        try:
            return c, json.loads(r.stdout.strip().split("\n")[-1]), r
        except Exception:
            return c, {"fail": {"suite": "?", "seed": seed_, "message": "the harness ended abnormally: " + (r.stdout + r.stderr)[-1500:]}}, r

    with ThreadPoolExecutor(8) as ex:
        jobs = []
        per = 2 if tier == "quick" else 2
        for c in live:
            for j in range(per):
                jobs.append(ex.submit(run, c, prop, seed + 1000003 * j, ms))
        for j in jobs:
            c, d, r = j.result()
            if "fail" in d and concrete is None:
                concrete = dict(d["fail"], cfg=c)
            runs += [dict(s, cfg=c or "none") for s in d.get("suites", [])]
            known += d.get("known", [])
    known = sorted(set(known))

    listed = [l.strip() for l in open(f"{V}/known-findings.txt")] if os.path.exists(f"{V}/known-findings.txt") else []
    listed = [l for l in listed if l.startswith("finding:")]

    violation = None
    rp = f"{V}/evidence/replay-{prop}.json"
    for k in known:
        what = k[len(prop) + 1:]
        if f"finding: property={prop} {what}" in listed:
            print(f"KNOWN-FINDING: property={prop} {what}")
        else:
            concrete = concrete or dict(suite="known", seed=seed, message="unlisted finding: " + k, cfg=live[0])
    proof_txt = [dict(function=e["fn"], configuration=e["cfg"], obligation=e["msg"], verifier_output=e["text"]) for e in failed]
    if concrete:
        violation = f"VIOLATION property={prop} replay={rp}"
        json.dump(dict(property=prop, kind="failing input", features=concrete["cfg"], suite=concrete["suite"], seed=concrete["seed"],
                       message=concrete["message"], failed_obligations=proof_txt,
                       replay_cmd=f"{bins[concrete['cfg']][0]} replay {concrete['suite']} {concrete['seed']}"), open(rp, "w"), indent=1)
        print("failing input:", concrete["message"][:1500])
        for e in failed[:5]:
            print(f"failed obligation [{e['cfg']}] {e['fn']}: {e['msg']}")
    elif failed:
        violation = f"VIOLATION property={prop} replay={rp} no-failing-input-found"
        json.dump(dict(property=prop, kind="failed obligation", failed_obligations=proof_txt), open(rp, "w"), indent=1)
        for e in failed[:8]:
            print(f"failed obligation [{e['cfg']}] {e['fn']}: {e['msg']}\n{e['text'][:1500]}")
    for e in soft:
        print(f"note: not decided by proof [{e['cfg']}] {e['fn']}: {e['msg']} ({e['why']}); bounded runs stand in")
    for s in fell:
        print(f"note: not decided by proof: {s}; bounded runs stand in")
    if vac and not vac.global_errors:
        bad = {e["fn"] for e in vac.errors}
        vacuous = [k for k, f in vac.fns.items() if f["status"] == "verified" and k not in bad]
        if vacuous:
            print("note: contracts whose preconditions are contradictory:", vacuous[:20])
    else:
        vacuous = None

    # --- evidence ------------------------------------------------------------------------------
    nver = sum(1 for p in proofs.values() if not p.global_errors for k, f in p.fns.items() if f["status"] == "verified" and (p.mods == ["all"] or module_of(k) in p.mods) and any(re.search(a, k) for a, _ in spec["own"]))
    badfns = {(e["cfg"], e["fn"]) for e in failed + soft}
    lem = {}
    for c, p in proofs.items():
        for q in p.queries:
            n = q["function"].split("::")[-1]
            if q.get("mode:") == "proof" and any(re.search(a, "lemma " + n) for a, _ in spec["own"]):
                lem[(c, n)] = q.get("success")
    total_q = sum(len(p.queries) for p in proofs.values())
    total_ok = sum(1 for p in proofs.values() for q in p.queries if q.get("success"))
    trusted = sorted({k for p in proofs.values() for k, f in p.fns.items() if f["status"] == "trusted"})
    noc = sorted({k.split(" [")[0] for k in own.get("nocontract", [])})
    evals = sum(r["evaluations"] for r in runs)
    dist = sum(r["distinct"] for r in runs)
    cov = dict(
        obligations=nver + len(lem), discharged=nver + len(lem) - len({x for x in badfns if x[1] and not x[1].startswith('lemma ')}) - sum(1 for v in lem.values() if not v),
        obligation_unit="one per function under contract or lemma of this property and feature configuration: all verification conditions of it accepted by Verus (Z3)",
        checker_cmd=next(iter(proofs.values())).cmd,
        trusted_base=spec.get("trusted", []) + ["Verus 0.2026.09.13 and its Z3, vstd", "the extraction described in DESIGN.md (\"What the extraction changes\")",
                                                  "contracts/prelude.rs: assumed contracts of std functions (external_body and axiom items)"] + [f"assumed contract: {k}" for k in trusted],
        functions_under_contract=sorted({k for k in own.get("verified", [])}),
        lemmas=sorted({n for _, n in lem}),
        functions_without_contract=noc,
        not_decided_by_proof=fell + [f"{e['fn']}: {e['msg']}" for e in soft],
        whole_crate_queries=total_q, whole_crate_queries_accepted=total_ok,
        back_end="Verus / Z3", solver_ms=sum(p.smt_ms for p in proofs.values()),
        configurations=[c or "none" for c in cfgs],
        modules_verified={c or "none": p.mods for c, p in proofs.items() if not p.global_errors},
        vacuity=("not run in quick" if not vac else ("no contract is vacuous" if not vacuous else vacuous)),
        evaluations=evals, distinct_nontrivial=dist,
        rule="runs of the real crate against an independent reference codec (harness/); they check the assumed contracts and look for a failing input, and stand in (bounded) for functions listed under functions_without_contract / not_decided_by_proof",
        samples=[dict(suite=r["suite"], cfg=r["cfg"], sample=(r["samples"] or [""])[0][:400]) for r in runs[:8]],
        bounded_suites=[dict(suite=r["suite"], cfg=r["cfg"], evaluations=r["evaluations"], distinct=r["distinct"], exhaustive=r["exhaustive"]) for r in runs],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov,
              assumptions=spec.get("assumptions", []) + ["machine arithmetic is checked (no overflow assumed); serialized forms are assumed to be at most 2^31-1 bytes"],
              wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
    tmp = f"{V}/evidence/.{prop}.tmp"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, f"{V}/evidence/{prop}.json")
    print(f"{prop} [{tier}]: {cov['discharged']}/{cov['obligations']} obligations discharged, {evals} runs of the real code, {ev['wall_s']} s")
    if violation:
        print(violation)
        sys.exit(1)
    if not live and (failed or fell or not nver):
        die("no proof and no runnable harness")
    sys.exit(0)


if __name__ == "__main__":
    main()
