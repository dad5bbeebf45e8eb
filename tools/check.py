#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree (see DESIGN.md, "Outcome of a check")."""
import concurrent.futures, glob, hashlib, json, os, re, signal, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import BUNDLES, DERIVES, PROPS, SEARCHES
REPO = os.environ.get("VX_REPO", "/repo")
T0 = time.time()
SIDE_BY_SIDE = 4
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)


def sh(cmd, cwd=None, timeout=600):
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)  # with all it started (the solver)
        out, err = p.communicate()
        return -9, out.decode(errors="replace"), err.decode(errors="replace") + f"\ntimed out after {timeout} s"


# ---------------------------------------------------------------- proof
def build_vx():
    rc, _, err = sh(["cargo", "build", "--offline", "-q"], cwd=f"{V}/vx")
    if rc != 0:
        raise SystemExit(f"cannot build vx:\n{err[-3000:]}")


def trusted(text):
    """The assumptions written in the preludes: bodies and lemmas Verus takes on trust."""
    out, lines = [], text.splitlines()
    for i, l in enumerate(lines):
        m = re.search(r"assume_specification\s*(?:<.*?>)?\s*\[\s*(.+?)\s*\]\s*\(", l)
        if m:
            out.append("contract assumed for " + m.group(1))
        elif "external_body" in l:
            for k in range(i, min(i + 4, len(lines))):
                m = re.search(r"\b(?:fn|struct|enum)\s+(\w+)", lines[k])
                if m:
                    out.append(("axiom " if "proof fn" in lines[k] else "external ") + m.group(1))
                    break
        elif re.search(r"\b(admit|assume)\s*\(", l):
            out.append("assume: " + l.strip())
    return out


def run_bundle(name, canary=False):
    t0 = time.time()
    r = verify_bundle(name, canary)
    # where the solver merely ran out of its budget, it gets a bigger one once
    if not canary and not r["ok"] and not r["failures"] and r["why"] and all(w.startswith("solver gave up") for w in r["why"]) and time.time() - t0 < 200:
        r2 = verify_bundle(name, canary, rlimit=300, timeout=250)
        if r2["ok"] or r2["failures"]:
            return r2
    return r


def verify_bundle(name, canary=False, rlimit=100, timeout=500):
    b = BUNDLES[name]
    work = f"{V}/.work/{name}{'-canary' if canary else ''}"
    os.makedirs(work, exist_ok=True)
    rs, mp = f"{work}/x.rs", f"{work}/x.json"
    for f in (rs, mp):
        if os.path.exists(f):
            os.remove(f)
    cmd = [f"{V}/vx/target/debug/vx", "--repo", REPO, "--out", rs, "--map", mp]
    for c in b["cfg"]:
        cmd += ["--cfg", c]
    if canary:
        cmd += ["--canary"]
    preludes = b.get("preludes") or sorted(os.path.basename(p) for p in glob.glob(f"{V}/prelude/[0-6]*.rs"))
    preludes = preludes + b.get("extra_preludes", [])
    for p in preludes:
        cmd += ["--prelude", f"{V}/prelude/{p}"]
    cmd += [f"{c}.vxc" for c in b["contracts"]]
    r = dict(name=name, ok=False, decided=False, verified=0, errors=0, failures=[], why=[], fns=[], solver_s=0.0, map=None, breakdown=[])
    rc, _, err = sh(cmd, cwd=f"{V}/contracts")
    if rc != 0 or not os.path.exists(mp):
        r["why"].append("extraction failed: " + err[-500:])
        return r
    m = r["map"] = json.load(open(mp))
    r["trusted"] = trusted(open(rs).read())
    r["fns"] = [f for f in m["fns"]]
    for l in m["lost"]:
        r["why"].append(f"contract cannot be attached: {l['module']}::{l['fn']}: {l['what']}")
    for ty, need in DERIVES.items():
        for d in m["derives"]:
            if d["type"] == ty and not set(need) <= set(d["derives"]):
                r["why"].append(f"{ty} no longer derives {need}: its equality is not the field-wise one the contracts speak about")
    vcmd = ["verus", "--edition", "2021", "x.rs", "--multiple-errors", "5", "--rlimit", str(rlimit), "--output-json", "--time-expanded", "--error-format=json"]
    r["cmd"] = " ".join(vcmd)
    rc, out, err = sh(vcmd, cwd=work, timeout=timeout)
    try:
        j = json.loads(out)
    except ValueError:
        j = None
    diags = []
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                diags.append(d)
    r["raw"] = "\n".join((d.get("rendered") or d.get("message", "")) for d in diags)[:20000]
    vr = (j or {}).get("verification-results") or {}
    ran = j is not None and not vr.get("encountered-vir-error", True) and vr.get("verified", 0) + vr.get("errors", 0) > 0
    if ran:
        r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        smt = j.get("times-ms", {}).get("smt", {})
        for mod in smt.get("smt-run-module-times", []):
            for f in mod.get("function-breakdown", []):
                r["solver_s"] += f.get("time-micros", 0) / 1e6
                r["breakdown"].append((f.get("function"), f.get("mode"), f.get("success"), f.get("time-micros", 0) / 1e3))
    else:
        r["why"].append("verifier gave no answer: " + (diags[0].get("message", "") if diags else err[-400:])[:400])
    blocks, fns, gave_up = m["blocks"], m["fns"], []
    for d in diags:
        msg = d.get("message", "")
        if msg.startswith("aborting due to"):
            continue
        spans = d.get("spans", [])
        fn = clause = None
        for sp in sorted(spans, key=lambda s: not s.get("is_primary")):
            while not sp.get("file_name", "").endswith("x.rs") and sp.get("expansion"):  # inside a macro: where it was called
                sp = sp["expansion"]["span"]
            ln = sp["line_start"]
            if not sp.get("file_name", "").endswith("x.rs"):
                continue
            if fn is None:
                fn = next((f for f in fns if f["start"] and f["start"] <= ln <= f["end"]), None)
            cb = next((b2 for b2 in blocks if b2["start"] and b2["start"] <= ln <= b2["end"]), None)
            if cb and (clause is None or cb["kind"] == "ensures"):
                clause = cb
        if "rlimit" in msg.lower() or "resource limit" in msg.lower():
            gave_up.append((f"{fn['module']}::{fn['key']}" if fn else None, "solver gave up: " + msg[:200] + (f" in {fn['module']}::{fn['key']}" if fn else "")))
            continue
        tags = (clause or {}).get("tags") if clause and clause["kind"] == "ensures" and "postcondition" in msg else None
        if not tags and clause and clause["kind"] == "prelude":  # a lemma over the contracts
            tags = clause["tags"]
        if not tags and clause and clause["kind"] == "hint" and "assert" in msg:  # a step of an argument that serves given properties
            tags = clause["tags"]
        if not tags and fn and "precondition" in msg and not (clause and clause["kind"] == "requires"):  # of a library function: a panic
            tags = [t for t in sorted(fn["props"]) if t in ("F05", "P03")]
        if not tags and fn:
            tags = sorted(fn["props"])
            if "arithmetic" in msg:  # a wrap-around is a panic, not a wrong result
                tags = [t for t in tags if t.startswith("F")]
        r["failures"].append(dict(message=msg, fn=f"{fn['module']}::{fn['key']}" if fn else None, src=fn and f"{fn['src']}:{fn['line']}", tags=tags or [],
                                  clause=clause and dict(kind=clause["kind"], file=clause["file"], line=clause["line"]), text=(d.get("rendered") or "")[:1500]))
    # once it has failed on a clause of a function, it is no matter that it does not get through the rest of that function
    r["why"] += [w for f, w in gave_up if f is None or all(x["fn"] != f for x in r["failures"])]
    r["ok"] = bool(ran and vr.get("success") and r["errors"] == 0 and not m["lost"] and r["verified"] > 0)
    if not r["ok"]:  # without a proof, a step of the argument that could not be placed may be why
        r["why"] += [f"step of the argument cannot be placed: {l['module']}::{l['fn']}: {l['what']}" for l in m["weak"]]
    r["decided"] = bool(ran and not r["why"])
    return r


def shapes(r):
    return {k[6:]: v for k, v in r["map"]["facts"] if k.startswith("shape ")}


def structure_changes(r):
    """Functions, loops or closures that came, went or changed number since the contracts were written."""
    try:
        base = json.load(open(f"{V}/contracts/shape.json")).get(r["name"], {})
    except OSError:
        return ["no recorded shape"]
    now = shapes(r)
    out = [f"new function {k}" for k in now if k not in base] + [f"function gone {k}" for k in base if k not in now]
    for k in now:
        if k in base and now[k].rsplit(" tokens", 1)[0] != base[k].rsplit(" tokens", 1)[0]:
            out.append(f"{k}: {base[k].rsplit(' tokens', 1)[0]} became {now[k].rsplit(' tokens', 1)[0]}")
    return out


def changed_functions(r):
    base = json.load(open(f"{V}/contracts/shape.json")).get(r["name"], {})
    now = shapes(r)
    return [k for k in now if now[k] != base.get(k)]


# ---------------------------------------------------------------- search on the real code
def build_search(packages):
    rc, _, err = sh(["cargo", "build", "--offline", "-q"] + [a for p in packages for a in ("-p", p)], cwd=f"{V}/harness", timeout=800)
    return rc == 0, err


def run_search(name, label, seed, secs):
    """Several processes with different seeds side by side, taken as one search."""
    s = SEARCHES[name]

    def one(i):
        rc, out, err = sh([f"{V}/harness/target/debug/{s['package']}", "run", label, str(seed + 1000 * i), str(secs)] + s["extra"], cwd=V, timeout=secs + 400)
        try:
            return json.loads(out.strip().splitlines()[-1])
        except (ValueError, IndexError):
            return dict(broken=f"exit {rc}: {err[-1500:]}", cases=0, distinct=0, violations=[])
    with concurrent.futures.ThreadPoolExecutor(SIDE_BY_SIDE) as ex:
        rs = list(ex.map(one, range(1 if name.startswith("deep-") else SIDE_BY_SIDE)))
    good = [r for r in rs if not r.get("broken")]
    if not good:
        return dict(rs[0], name=name)
    j = dict(name=name, violations=[v for r in good for v in r["violations"]], labels={}, processes=len(good))
    for k in ("cases", "distinct", "steps", "events"):
        j[k] = sum(r.get(k, 0) for r in good)
    for r in good:
        for l, n in r.get("labels", {}).items():
            j["labels"][l] = j["labels"].get(l, 0) + n
    return j


# ---------------------------------------------------------------- main
def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    os.makedirs(f"{V}/evidence", exist_ok=True)
    os.makedirs(f"{V}/.work/replay", exist_ok=True)
    known = known_findings(prop)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        packages = sorted({(SEARCHES[s]["package"], *SEARCHES[s].get("also", [])) for s in cfg["search"] + cfg.get("deep", [])})
        fb = {p: ex.submit(build_search, p) for p in packages}
        build_vx()
        results = list(ex.map(run_bundle, cfg["bundles"]))
        built = {p: f.result() for p, f in fb.items()}
        proved = bool(results) and all(r["ok"] for r in results)
        failed = [f for r in results for f in r["failures"]]
        canary = []
        if tier == "thorough" and proved:
            canary = list(ex.map(lambda b: canary_run(b, results), cfg["bundles"]))
    if not results:
        proved = False
    base_secs = 5 if proved else 60
    if tier == "thorough":
        base_secs = 240
    searches = []
    for s in cfg["search"] + (cfg.get("deep", []) if not proved or tier == "thorough" else []):
        if s in cfg.get("deep", []) and any(prop in v["labels"] for x in searches for v in x.get("violations", [])):
            continue
        ok, err = built[(SEARCHES[s]["package"], *SEARCHES[s].get("also", []))]
        if not ok:
            searches.append(dict(name=s, broken="does not build: " + err[-1500:], cases=0, distinct=0, violations=[]))
            continue
        secs = 1 if s in cfg.get("deep", []) else base_secs / len(cfg["search"])
        searches.append(run_search(s, prop, seed, secs))
    hits, others = [], []
    for s in searches:
        for v in s.get("violations", []):
            (hits if prop in v["labels"] else others).append(dict(v, search=s["name"]))
    new_hits = [h for h in hits if not any(k["match"] in json.dumps(h) for k in known)]
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    usable_search = [s for s in searches if not s.get("broken")]
    changes = [c for r in results if r["map"] for c in structure_changes(r)]
    own = [f for f in failed if prop in f["tags"]]
    undecided = [w for r in results for w in r["why"]]

    violation, note = None, ""
    if new_hits:
        h = new_hits[0]
        violation = dict(kind="failing input", property=prop, found=h, failed_obligations=failed[:20], replay=h.get("replay") or f"{V}/harness/target/debug/{SEARCHES[h['search']]['package']} replay {h.get('side', '')} {h.get('seed', '')}")
    elif not proved and own and not undecided and not changes and not others:
        violation = dict(kind="failed obligation", property=prop, failed_obligations=own[:20], verifier_output=[r.get("raw", "") for r in results])
        note = " no-failing-input-found"
    level = "proof" if proved and not violation else "exploration"
    write_evidence(prop, tier, seed, level, results, searches, canary, proved, failed, undecided, changes, violation, known)
    bad_canary = [c for c in canary if c["vacuous"]]
    if violation:
        path = f"{V}/.work/replay/{prop}-{hashlib.sha1(json.dumps(violation, sort_keys=True).encode()).hexdigest()[:10]}.json"
        json.dump(violation, open(path, "w"), indent=1)
        what = violation["found"]["what"] if not note else f"{own[0]['fn'] or own[0]['clause']}: {own[0]['message']}"
        print(f"{prop}: {what[:600]}")
        for f in failed[:8]:
            print(f"  failed obligation: {f['fn'] or 'generated impl'} ({f['src'] or '-'}): {f['message']} {f['clause'] or ''}")
        print(f"VIOLATION property={prop} replay={path}{note}")
        sys.exit(1)
    if bad_canary:
        print(f"{prop}: vacuous contracts: {bad_canary}")
        sys.exit(2)
    if proved:
        print(f"{prop}: proved; {sum(r['verified'] for r in results)} obligations discharged in {', '.join(r['name'] for r in results)}; search: {sum(s['cases'] for s in usable_search)} histories clean; {time.time() - T0:.0f} s")
        sys.exit(0)
    print(f"{prop}: NOT proved on this tree; " + "; ".join((undecided + changes + [f"{f['fn']}: {f['message']}" for f in failed])[:6]))
    for o in others[:3]:
        print(f"  a failing history concerns {o['labels']}, not {prop}: {o['what'][:200]}")
    if usable_search and sum(s["cases"] for s in usable_search) > 0:
        print(f"{prop}: bounded stand-in: {sum(s['cases'] for s in usable_search)} histories of the real code, none breaks {prop}")
        sys.exit(0)
    for s in searches:
        print(f"  search {s['name']}: {s.get('broken', '')[-600:]}")
    print(f"{prop}: no answer")
    sys.exit(2)


def canary_run(name, results):
    """Every contracted function with `assert(false)` at its start must fail: otherwise its precondition or an axiom is contradictory."""
    r = run_bundle(name, canary=True)
    failing = {f["fn"] for f in r["failures"]}
    want = [f"{f['module']}::{f['key']}" for f in (r["map"] or {"fns": []})["fns"] if f["status"] == "contracted" and f.get("body")]
    return dict(bundle=name, planted=len(want), vacuous=[w for w in want if w not in failing and not r["why"]], note=r["why"][:3])


def known_findings(prop):
    out = []
    p = f"{V}/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k.get("property") == prop and k.get("status") == "open":
                    out.append(k)
    return out


def write_evidence(prop, tier, seed, level, results, searches, canary, proved, failed, undecided, changes, violation, known):
    obligations = sum(r["verified"] + r["errors"] for r in results)
    discharged = sum(r["verified"] for r in results)
    fns = []
    for r in results:
        for f in r["fns"]:
            if f["status"] != "uncontracted" and not f["status"].startswith("dropped"):
                fns.append(f"{f['module']}::{f['key']} ({f['src']}:{f['line']}) {f['status']}" + (f" [{prop}]" if prop in f["props"] else ""))
    fns = sorted(set(fns))
    edits = {}
    for r in results:
        for e in (r["map"] or {"edits": []})["edits"]:
            edits.setdefault(e["rule"], set()).add(f"{e['src']}:{e['line']} {e['what']}"[:160])
    tb = sorted({t for r in results for t in r.get("trusted", [])})
    cases, distinct = sum(s.get("cases", 0) for s in searches), sum(s.get("distinct", 0) for s in searches)
    samples = [s.get("sample") for s in searches if s.get("sample")] or [f["fn"] + ": " + f["message"] for f in failed[:3] if f["fn"]] or [r["name"] + ": " + ", ".join(str(b[0]) for b in r["breakdown"][:5]) for r in results] or ["-"]
    cov = dict(
        proved=proved, obligations=obligations, discharged=discharged, checker_cmd="; ".join(sorted({r.get("cmd", "") for r in results})),
        trusted_base=["Verus 0.2026.09.13 with Z3 (its soundness)", "vx: the source text is emitted unchanged except for the logged edits (see edits)"] + tb,
        backend="Verus / Z3", solver_seconds=round(sum(r["solver_s"] for r in results), 2),
        functions_under_contract=len([f for f in fns if " contracted" in f]), functions_of_this_property=len([f for f in fns if f.endswith(f"[{prop}]")]), functions=fns,
        bundles=[dict(name=r["name"], verified=r["verified"], errors=r["errors"], clauses_tagged=sum(1 for b in (r["map"] or {"blocks": []})["blocks"] if prop in b["tags"]),
                      slowest=sorted(((round(b[3], 1), b[0]) for b in r["breakdown"]), reverse=True)[:3]) for r in results],
        edits={k: dict(count=len(v), examples=sorted(v)[:4]) for k, v in sorted(edits.items())},
        failed_obligations=[dict(fn=f["fn"], message=f["message"], tags=f["tags"]) for f in failed[:20]], undecided=undecided[:10], structure_changes=changes[:10],
        vacuity=[dict(c) for c in canary],
        evaluations=cases, distinct_nontrivial=distinct,
        rule="bounded search beside the proof: seeded random histories of calls and peer bytes on the real code (harness/), compared with an independent reference; distinct = different sequences of outcomes per process (four run side by side with different seeds). Never counted as proved.",
        searches=[{k: s.get(k) for k in ("name", "cases", "distinct", "steps", "events", "labels", "broken")} for s in searches],
        samples=samples[:3],
    )
    if not proved:
        cov["bounded_only"] = True
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ASSUMPTIONS + [f"known finding: {k['what']}" for k in known], wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)


ASSUMPTIONS = [
    "the contracts assumed for crates that are not available here (imap-codec, imap-types, bounded-static) and for std items without a vstd specification: listed in trusted_base",
    "memory is unlimited: allocation never fails and a buffer never exceeds isize::MAX bytes",
    "atomics: fetch_add on one counter hands every value out once until it wraps (2^64 operations)",
    "logging macros have no effect on behaviour (dropped by vx, rule R7); Debug and Display implementations are not verified (rule R5)",
]
if __name__ == "__main__":
    main()
