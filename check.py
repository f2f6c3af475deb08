#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]

Decides one property on /repo's current working tree:
 1. extracts the functions under contract from /repo's source (tools/extract) and hands them, with
    their contracts, to Verus; every obligation must be discharged;
 2. runs a canary version of the same file in which every function's contract must fail
    (`assert(false)` behind each precondition), as a guard against vacuous contracts;
 3. evaluates the same contracts on the real code (a copy of the crate in which nothing but
    visibility is changed) to find a concrete failing input; the bounded stand-in where a proof is
    unavailable.
Exit 0: held. Exit 1 with a VIOLATION line: broken.  See DESIGN.md.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("C2W_REPO", "/repo")
B = os.environ.get("C2W_BUILD", os.path.join(V, "build"))
ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.setdefault("HOME", "/root")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
VENV = dict(ENV)
VENV.pop("RUSTUP_TOOLCHAIN")

# messages with which Verus reports an obligation it could not discharge (everything else it
# reports means the text is outside what it accepts, or that it gave up: undecided, not violated)
OBLIGATION = [
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion not satisfied",
    "invariant not satisfied", "possible arithmetic underflow/overflow", "possible division by zero",
    "possible bit shift underflow/overflow", "decreases not satisfied", "could not prove termination",
    "unable to prove", "constructed value may fail to meet its declared type invariant",
    "loop ensures not satisfied", "possible integer overflow", "this call may not", "cannot show",
    "failed this postcondition", "index out of bounds", "possible cast overflow", "could not show",
    "requires not satisfied", "unreachable", "possible truncation",
]
NOTOBL = ["not all errors may have been reported", "aborting due to"]


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return 124, (o.decode(errors="replace") if isinstance(o, bytes) else o)
    except OSError as e:
        return 127, str(e)


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_extractor():
    rc, out = sh(["cargo", "build", "--offline", "--locked", "--target-dir", f"{B}/extract-target"], 600, cwd=f"{V}/tools/extract", env=ENV)
    return (None, out) if rc else (f"{B}/extract-target/debug/c2w-extract", out)


def map_fn(lines, n):
    """the extracted function (or lemma) a line of the generated file lies in"""
    for i in range(min(n, len(lines)) - 1, -1, -1):
        if lines[i].startswith("//#END"):
            break
        m = re.match(r"//#FN (.*)", lines[i])
        if m:
            return m.group(1)
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", lines[i])
        if m:
            return "lemma " + m.group(1)
    return "?"


def parse_verus(out, gen):
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out)
    lines = open(gen).read().split("\n")
    failed, rejected = [], []
    cur = None
    blocks = re.split(r"\n(?=(?:error|warning|note)(?:\[|:| ))", "\n" + out)
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error"):
            continue
        head = b.split("\n", 1)[0]
        if any(x in head for x in NOTOBL):
            continue
        loc = re.search(r"--> [^\n]*?:(\d+):\d+", b)
        ln = int(loc.group(1)) if loc else 0
        item = {"message": head, "function": map_fn(lines, ln) if ln else "?", "text": b[:1500]}
        if any(x in head for x in OBLIGATION):
            failed.append(item)
        else:
            rejected.append(item)
    return (int(m.group(1)), int(m.group(2))) if m else None, failed, rejected


def verus(gen, extra, timeout):
    t = time.time()
    rc, out = sh(["verus", gen, "--num-threads", "8"] + extra, timeout, env=VENV, cwd=os.path.dirname(gen))
    return rc, out, time.time() - t


def scan_trusted(gen):
    """mechanical scan for everything the verifier takes on trust in the generated file"""
    res = []
    txt = open(gen).read().split("\n")
    for i, l in enumerate(txt):
        s = l.strip()
        if s.startswith("//"):
            continue
        if re.search(r"\bassume\s*\(", s) or re.search(r"\badmit\s*\(", s):
            res.append("assume/admit: " + s[:160])
        elif "assume_specification" in s:
            res.append("assumed contract of a library function: " + s[:200])
        elif re.search(r"\baxiom fn\b", s):
            res.append("axiom: " + s[:200])
        elif "external_body" in s:
            nxt = s if "fn " in s.split("external_body", 1)[1] else (txt[i + 1].strip() if i + 1 < len(txt) else "")
            mm = re.search(r"(?:impl (.*?) \{ )?.*?((?:fn|struct|enum) \w+)", s if nxt is s else nxt)
            res.append("external_body: " + (s if nxt is s else nxt)[:160])
        elif re.search(r"\buninterp spec fn\b", s):
            res.append("uninterpreted: " + s[:160])
    # collapse the derived Clone/PartialEq/Hash trust into one line per kind
    out, n = [], {}
    for r in res:
        m = re.search(r"external_body: impl (Clone|PartialEq|std::hash::Hash) for (\w+)", r)
        if m:
            n.setdefault(m.group(1), []).append(m.group(2))
        else:
            out.append(r)
    for k, v in n.items():
        out.append(f"derived {k} of {', '.join(v)} is structural identity")
    return out


def prove(pid, overlay, exe, thorough, ev):
    """returns status in {'proved','failed','unavailable'} and details"""
    d = f"{B}/verus/{pid}"
    os.makedirs(d, exist_ok=True)
    name = os.path.splitext(os.path.basename(overlay))[0]
    gen, rep = f"{d}/{name}.rs", f"{d}/{name}.json"
    rc, out = sh([exe, "verus", REPO, overlay, gen, rep], 120)
    if rc:
        return {"status": "unavailable", "reason": out.strip()[-600:], "verified": 0, "errors": 0, "failed": [], "secs": 0, "report": [], "trusted": []}
    report = json.load(open(rep))
    text = open(gen).read()
    extra = ["--multiple-errors", "4"]
    m = re.search(r"^//verus-args: (.*)$", text, re.M)
    if m:
        extra += m.group(1).split()
    if thorough and "--rlimit" not in extra:
        extra += ["--rlimit", "60"]
    rc, out, secs = verus(gen, extra, 600)
    open(f"{d}/{name}.out", "w").write(out)
    counts, failed, rejected = parse_verus(out, gen)
    r = {"verified": counts[0] if counts else 0, "errors": counts[1] if counts else 0, "failed": failed, "secs": secs,
         "report": report, "trusted": scan_trusted(gen), "out": out, "gen": gen, "extra": extra}
    if counts and counts[1] == 0 and rc == 0 and counts[0] > 0:
        r["status"] = "proved"
    elif failed and not rejected:
        r["status"] = "failed"
    elif failed and all("rlimit" in x["message"].lower() or "resource limit" in x["message"].lower() for x in rejected):
        r["status"] = "failed"
    else:
        r["status"] = "unavailable"
        r["reason"] = "verifier gave no answer: " + "; ".join(x["message"] + " in " + x["function"] for x in rejected[:4]) if rejected else "verifier gave no answer: " + out.strip()[-400:]
    if r["status"] == "proved":
        # canary: assert(false) behind the precondition of every function under contract
        cg = f"{d}/{name}_canary.rs"
        fns = 0
        outl, infn = [], False
        lines = text.split("\n")
        i = 0
        want = [x["name"] for x in report if x["kind"] == "function"]
        res = canary_text(text)
        if res is not None:
            ctext, fns = res
            open(cg, "w").write(ctext)
            rc2, out2, secs2 = verus(cg, extra + ["--multiple-errors", "1"] if "--multiple-errors" not in extra else extra, 600)
            n = len(re.findall(r"^error: assertion failed", out2, re.M))
            names = set()
            for mm in re.finditer(r"error: assertion failed\n\s*--> [^\n]*?:(\d+):", out2):
                names.add(int(mm.group(1)))
            clines = ctext.split("\n")
            bad = [map_fn(clines, i + 1) for i, l in enumerate(clines) if "/*CANARY*/" in l and (i + 1) not in names]
            r["canary"] = {"functions": fns, "refuted": fns - len(bad), "not_refuted": bad, "secs": secs2}
            r["secs"] += secs2
    return r


def canary_text(text):
    """insert assert(false) at the start of the body of every function under contract"""
    out, n = [], 0
    infn = ext = pending = False
    for l in text.split("\n"):
        if l.startswith("//#FN "):
            infn, ext = True, False
        elif l.startswith("//#END"):
            infn = False
        if infn and "external_body" in l:
            ext = True
        if infn and not ext and "/*BODY*/" in l:
            pending = True
            out.append(l)
            continue
        # behind the header statements of the body
        if pending and l.strip() and not l.strip().startswith("hide("):
            out.append("proof { assert(false); } /*CANARY*/")
            n += 1
            pending = False
        out.append(l)
    return ("\n".join(out), n) if n else None


def rac(pid, exe, deep=False):
    if not os.path.exists(f"{V}/rac/src/bin/{pid.lower()}.rs"):
        return {"status": "none"}
    rc, out = sh([exe, "widen", REPO, f"{B}/crate"], 120)
    if rc:
        return {"status": "unavailable", "reason": out[-400:]}
    rc, out = sh(["cargo", "build", "--offline", "--locked", "--target-dir", f"{B}/target", "--bin", pid.lower()], 800, cwd=f"{B}/rac", env=ENV)
    if rc:
        errs = "\n".join(l for l in out.split("\n") if l.startswith("error"))
        return {"status": "unavailable", "reason": "harness does not compile against the current source: " + errs[:600]}
    e = dict(ENV)
    if deep:
        e["VERIF_DEEP"] = "1"
    rc, out = sh([f"{B}/target/debug/{pid.lower()}"], 600, env=e)
    m = re.search(r"^RAC-RESULT (.*)$", out, re.M)
    if not m:
        return {"status": "crashed", "reason": f"harness ended with {rc}: " + out[-600:]}
    j = json.loads(m.group(1))
    j["status"] = "ok"
    return j


def setup_rac():
    """the harness crate is built from a copy under build/, so that its path dependency is local"""
    os.makedirs(f"{B}/rac/src/bin", exist_ok=True)
    want = {}
    for root, _, fs in os.walk(f"{V}/rac"):
        if "target" in root:
            continue
        for f in fs:
            p = os.path.join(root, f)
            want[os.path.relpath(p, f"{V}/rac")] = open(p, "rb").read()
    for rel, data in want.items():
        if rel == "Cargo.toml":
            data = data.replace(b"../build/crate", b"../crate")
        q = f"{B}/rac/{rel}"
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if not os.path.exists(q) or open(q, "rb").read() != data:
            open(q, "wb").write(data)
    for f in os.listdir(f"{B}/rac/src/bin"):
        if os.path.join("src/bin", f) not in want:
            os.remove(f"{B}/rac/src/bin/{f}")


def known(pid):
    res = {}
    p = f"{V}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ENV["VERIF_TIER"] = tier
    ENV.setdefault("VERIF_SEED", "1")
    t0 = time.time()
    cfg = json.load(open(f"{V}/checks.json"))[pid]
    ev = {}
    with Lock():
        exe, out = build_extractor()
        if exe is None:
            print("cannot build the extractor:\n" + out[-1500:])
            return 2
        setup_rac()
        rr = rac(pid, exe)
    proofs = []
    for ov in cfg["overlays"]:
        proofs.append((ov, prove(pid, f"{V}/contracts/{ov}", exe, tier == "thorough", ev)))
    failed = [(ov, f) for ov, p in proofs if p["status"] == "failed" for f in p["failed"]]
    unavailable = [(ov, p["reason"]) for ov, p in proofs if p["status"] == "unavailable"]
    if (failed or unavailable) and rr.get("status") == "ok" and not rr["violations"]:
        with Lock():
            rr2 = rac(pid, exe, deep=True)   # look harder for a concrete failing input
        if rr2.get("status") == "ok":
            rr = rr2
    kf = known(pid)
    known_hit, new = [], []
    for v in rr.get("violations", []):
        (known_hit if v["key"] in kf else new).append(v)
    obligations = sum(p["verified"] + p["errors"] for _, p in proofs)
    discharged = sum(p["verified"] for _, p in proofs)
    canary_bad = [x for _, p in proofs for x in (p.get("canary") or {}).get("not_refuted", [])]
    print(f"{pid} [{tier}] {cfg['title']}")
    for ov, p in proofs:
        print(f"  proof {ov}: {p['status']}: {p['verified']} obligations discharged, {p['errors']} not, {p['secs']:.1f}s verifier time" + (f"; canary {p['canary']['refuted']}/{p['canary']['functions']} refuted as required" if p.get("canary") else "") + (f"  [{p['reason']}]" if p["status"] == "unavailable" else ""))
        for f in p["failed"]:
            print(f"    failed obligation: {f['message']} in {f['function']}")
    if rr["status"] == "ok":
        print(f"  contract evaluation on the real code (bounded): {rr['evaluations']} cases, {len(rr['violations'])} violations")
    else:
        print(f"  contract evaluation on the real code: {rr['status']} {rr.get('reason', '')}")
    for v in known_hit:
        print(f"KNOWN-FINDING: property={pid} {kf[v['key']]}")
    for k in kf:
        if k not in [v["key"] for v in known_hit]:
            print(f"  note: known finding {k} did not occur in this run")
    viol = None
    if new:
        viol = {"kind": "concrete", "violations": new, "failed_obligations": [f["message"] + " in " + f["function"] for _, f in failed]}
    elif rr["status"] == "crashed":
        viol = {"kind": "concrete", "violations": [{"key": "abort", "contract": "the code under contract returns", "input": "see output", "expected": "a result", "actual": rr["reason"]}], "failed_obligations": []}
    elif failed:
        viol = {"kind": "obligation", "violations": [], "failed_obligations": [f["message"] + " in " + f["function"] for _, f in failed], "verifier_output": [f["text"] for _, f in failed][:8]}
    trusted = sorted({t for _, p in proofs for t in p["trusted"]})
    fns = [f"{x['name']} ({x['file']}:{x['lines'][0]}-{x['lines'][1]})" + (" [" + "; ".join(x["edits"] + x["substitutions"]) + "]" if x["edits"] or x["substitutions"] else "") for _, p in proofs for x in p["report"] if x["kind"] == "function"]
    assumed = [f"{x['name']} ({x['file']}:{x['lines'][0]})" for _, p in proofs for x in p["report"] if x["kind"] == "assumed-contract"]
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "verus --num-threads 8 " + " ".join(proofs[0][1].get("extra", [])) + f" <file extracted from {REPO} on this run>" if proofs else "none",
        "trusted_base": trusted + [f"assumed contract of in-repo function: {a}" for a in assumed] + cfg.get("trusted", []),
        "functions_under_contract": fns,
        "proof_status": {ov: p["status"] + (": " + p["reason"] if p["status"] == "unavailable" else "") for ov, p in proofs},
        "backend": "Verus 0.2026.09.13 / Z3", "solver_wall_s": round(sum(p["secs"] for _, p in proofs), 2),
        "canary": {ov: p.get("canary") for ov, p in proofs},
        "extraction_drops": "attributes, derives, Display/Debug impls and log macros are dropped; visibility becomes pub; panic macros become the obligation `false`; clone() becomes to_owned() with an identity contract" ,
        "bounded_contract_evaluation": {k: rr.get(k) for k in ("status", "evaluations", "distinct", "rule", "samples", "notes", "reason") if k in rr},
        "evaluations": rr.get("evaluations", 0), "distinct_nontrivial": rr.get("distinct", 0), "rule": rr.get("rule", ""), "samples": rr.get("samples", []),
        "explanation": cfg.get("explanation", ""),
    }
    evd = {"property": pid, "tier": tier, "seed": int(ENV["VERIF_SEED"]), "level": cfg["level"], "coverage": cov,
           "assumptions": cfg.get("assumptions", []) + (["vacuity canary not refuted for: " + ", ".join(canary_bad)] if canary_bad else []),
           "wall_s": round(time.time() - t0, 2), "violations": len(new) if new else (1 if viol else 0)}
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(evd, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    if viol:
        os.makedirs(f"{V}/evidence/replay", exist_ok=True)
        rp = f"{V}/evidence/replay/{pid}.json"
        viol["property"] = pid
        viol["seed"] = ENV["VERIF_SEED"]
        viol["how_to_replay"] = f"VERIF_SEED={ENV['VERIF_SEED']} VERIF_TIER={tier} python3 {V}/check.py {pid} {tier}; the inputs above are arguments of the named functions of the code in {REPO}"
        json.dump(viol, open(rp, "w"), indent=1)
        for v in viol["violations"][:5]:
            print(f"  violated: {v['contract']}\n    input:    {v['input'][:600]}\n    expected: {v['expected'][:400]}\n    actual:   {v['actual'][:400]}")
        tail = "" if viol["violations"] else " no-failing-input-found"
        print(f"VIOLATION property={pid} replay={rp}{tail}")
        return 1
    if unavailable:
        print("  proof not available on this source text; the bounded evaluation above stands in (labelled bounded)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
