#!/usr/bin/env python3
"""Runs the proof harnesses of one property against /repo's working tree.

usage: check.py <ID> [quick|thorough]     exit 0: every obligation discharged
                                          exit 1: a violation (VIOLATION line printed)
                                          exit 2: no answer (tool limit, lost anchor, vacuous harness)
"""
import json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI = os.path.join(ROOT, "kani")
WORK = os.path.join(ROOT, ".work")
BASE = ["-Z", "stubbing", "-Z", "unstable-options", "-Z", "function-contracts", "-Z", "restrict-vtable",
        "--no-memory-safety-checks", "--no-assertion-reach-checks"]
FIELD = ["--cbmc-args", "--max-field-sensitivity-array-size"]

# failures that mean "the tool could not answer", never "the property is broken"
INCONCLUSIVE = re.compile(r"unwinding assertion|recursion unwinding|not currently supported by Kani|"
                          r"unsupported|Kani does not support|is not supported|timed out|out of memory|"
                          r"call to foreign|missing_definition|Function with missing definition", re.I)

TRUSTED = [
    "Kani 0.68.0 (rustc MIR to GOTO), CBMC 6.11.0 symbolic execution, CaDiCaL SAT solver",
    "shim/: binrw 0.15.1 with error values reduced to their discriminant (no backtraces, no nested "
    "enum errors, first-error enum mode); success paths are the upstream text, see shim/README.md",
    "stub: io::Error payload drop is a no-op; stub: alloc::fmt::format returns an empty string",
    "pointer-validity checks are off (safe Rust; std's and dependencies' unsafe code is not re-verified); "
    "-Z restrict-vtable resolves dyn calls by type",
    "allocation never fails; debug assertions and arithmetic-overflow panics on, as in the dev profile",
]


def env():
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def load(pid):
    p = os.path.join(KANI, "src", pid.lower() + ".rs")
    hs, ass = [], []
    for ln in open(p):
        ln = ln.strip()
        if ln.startswith("//@ "):
            d = json.loads(ln[4:])
            if "h" in d:
                hs.append(d)
            if "assume" in d:
                ass.append(d["assume"])
    return hs, ass


def run(cmd, cwd, timeout):
    """Run in its own process group; kill the whole group on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out


def parse(out, hs):
    """Result blocks of the terse parallel output, by harness name."""
    res, cur, block = {}, {}, None
    names = {h["h"] for h in hs}
    for ln in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.$", ln)
        if m:
            cur[m[1]] = m[2]
            if m[1] is None:
                block = res.setdefault(m[2], {"txt": []})
            continue
        m = re.match(r"Thread (\d+): ?(.*)$", ln)
        if m:
            block = res.setdefault(cur.get(m[1], "?"), {"txt": []})
            if m[2]:
                block["txt"].append(m[2])
            continue
        if ln.startswith("Manual Harness Summary"):
            block = None
        if block is not None:
            block["txt"].append(ln)
    for n, r in res.items():
        t = "\n".join(r["txt"])
        m = re.search(r"\*\* (\d+) of (\d+) failed", t)
        r["failed"], r["checks"] = (int(m[1]), int(m[2])) if m else (0, 0)
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", t)
        r["cov"], r["covn"] = (int(m[1]), int(m[2])) if m else (0, 0)
        r["ok"] = "VERIFICATION:- SUCCESSFUL" in t
        r["bad"] = "VERIFICATION:- FAILED" in t
        r["fails"] = re.findall(r"Failed Checks: (.*(?:\n File: .*)?)", t)
        m = re.search(r"Verification Time: ([\d.]+)s", t)
        r["time"] = float(m[1]) if m else None
        r["text"] = t
    return {n: r for n, r in res.items() if n in names}


def flags(h):
    f = list(BASE)
    if h.get("solver"):
        f += ["--solver", h["solver"]]
    return f


def cargs(h):
    return FIELD + [str(h["fields"])] if h.get("fields") else []


def replay(pid, h, deadline):
    """Ask for the counterexample of a failing harness and run it natively on the real code."""
    name, feat = h["h"], pid.lower()
    info = {"harness": name, "counterexample": None, "replay": None}
    left = deadline - time.time()
    if left < 60:
        info["note"] = "no time left to extract a counterexample"
        return info, False
    cmd = ["cargo", "kani", "--target-dir", os.path.join(WORK, pid, "target"), "--no-default-features",
           "--features", feat] + flags(h) + ["-Z", "concrete-playback", "--concrete-playback=print",
           "--harness", name, "--exact"] + cargs(h)
    rc, out = run(cmd, KANI, left - 30)
    tests = re.findall(r"```\s*\n(.*?)```", out, re.S)
    tests = [t for t in tests if "concrete_playback_run" in t]
    if not tests:
        info["note"] = "the verifier gave no concrete counterexample"
        return info, False
    # the last failing assertion first; cover witnesses are not counterexamples
    fails = [t for t in tests if not re.search(r"Check for (?:failed )?`?cover|cover", t.split("#[test]")[0])]
    info["counterexample"] = fails or tests
    left = deadline - time.time()
    if left < 40 or not fails:
        info["note"] = "no time left to replay" if fails else "only cover witnesses were printed"
        return info, False
    scratch = os.path.join(WORK, pid, "playback")
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree(KANI, os.path.join(scratch, "kani"), ignore=shutil.ignore_patterns("target"))
    os.symlink(os.path.join(ROOT, "shim"), os.path.join(scratch, "shim"))
    src = os.path.join(scratch, "kani", "src", feat + ".rs")
    seen, body = set(), ""
    for t in fails[:4]:
        m = re.search(r"fn (kani_concrete_playback_\w+)", t)
        if m and m[1] not in seen:
            seen.add(m[1])
            body += "\n" + t
    open(src, "a").write("\n#[cfg(test)]\nmod verif_playback {\n use super::*;\n" + body + "\n}\n")
    cmd = ["cargo", "kani", "playback", "-Z", "concrete-playback", "--no-default-features", "--features", feat,
           "--", "kani_concrete_playback", "--test-threads", "1"]
    rc, out = run(cmd, os.path.join(scratch, "kani"), left - 10)
    info["replay"] = {"cmd": " ".join(cmd), "exit": rc, "output": out[-6000:]}
    hits = re.findall(r"panicked at (.*?)\n(.*)", out)
    real = [x for x in hits if not re.search(r"kani::assume|concrete_vals|det_vals|det vals|any_raw", x[0] + x[1])]
    shutil.rmtree(scratch, ignore_errors=True)
    ok = bool(real) and "FAILED" in out
    info["note"] = ("the counterexample fails on the real code" if ok
                    else "the counterexample did not reproduce outside the verifier")
    return info, ok


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    budget = 870 if tier == "quick" else 7200
    if only is None and tier == "thorough":
        budget = int(os.environ.get("VERIF_BUDGET", "7200"))
    deadline = t0 + budget
    hs, assumptions = load(pid)
    hs = [h for h in hs if tier == "thorough" or h.get("tier", "quick") == "quick"]
    if only:
        hs = [h for h in hs if re.search(only, h["h"])]
    if not hs:
        print("no harness selected")
        return 2
    os.makedirs(os.path.join(WORK, pid), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    groups = {}
    for h in hs:
        groups.setdefault((h.get("fields"), h.get("solver")), []).append(h)
    results, cmds, problems, viol = {}, [], [], []
    for key, g in sorted(groups.items(), key=lambda kv: str(kv[0])):
        htime = 780 if tier == "quick" else 3600
        cmd = ["cargo", "kani", "--target-dir", os.path.join(WORK, pid, "target"), "--no-default-features",
               "--features", pid.lower()] + flags(g[0]) + ["-j", str(jobs), "--output-format=terse",
               "--harness-timeout", f"{htime}s", "--exact"]
        for h in g:
            cmd += ["--harness", h["h"]]
        cmd += cargs(g[0])
        cmds.append(" ".join(cmd))
        rc, out = run(cmd, KANI, max(30, deadline - time.time() - 90))
        open(os.path.join(WORK, pid, "log.%d" % len(cmds)), "w").write(out)
        r = parse(out, g)
        results.update(r)
        if rc is None:
            problems.append("the verifier run did not finish in time")
        for h in g:
            n = h["h"]
            if n not in r or not (r[n]["ok"] or r[n]["bad"]):
                problems.append(f"{n}: no verdict")
                if n not in r:
                    err = [l for l in out.splitlines() if l.startswith("error")][:5]
                    problems += err
                continue
            x = r[n]
            if x["ok"]:
                if x["checks"] == 0:
                    problems.append(f"{n}: no obligations were generated")
                if x["cov"] != x["covn"]:
                    problems.append(f"{n}: vacuous ({x['cov']} of {x['covn']} cover points reached)")
                continue
            hard = [f for f in x["fails"] if not INCONCLUSIVE.search(f)]
            if INCONCLUSIVE.search(x["text"]) and not hard:
                problems.append(f"{n}: inconclusive: " + "; ".join(x["fails"])[:300])
            elif not hard:
                problems.append(f"{n}: failed without a failed obligation: " + x["text"][-300:])
            elif any(re.search(r"unwinding assertion", f) for f in x["fails"]):
                # a failed unwinding assertion does not invalidate counterexamples found within the bound
                viol.append((h, hard))
            else:
                viol.append((h, hard))
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))
    for k in known["findings"]:
        if k["property"] == pid:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    obl = sum(r["checks"] for r in results.values())
    bad = sum(r["failed"] for r in results.values())
    bounded = [h for h in hs if h.get("bound")]
    level = "other" if bounded else "proof"
    fns = sorted({f for h in hs for f in h.get("fns", [])})
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
        "coverage": {
            "obligations": obl, "discharged": obl - bad, "checker_cmd": cmds[0] if cmds else "",
            "trusted_base": TRUSTED,
            "explanation": "Each harness calls the real functions with solver-chosen arguments; every assertion, "
                           "panic, overflow and unwinding obligation generated from /repo's current source is "
                           "discharged by CBMC/CaDiCaL. Harnesses with a stated bound are bounded checks and are "
                           "not counted as proved; the others cover their whole input domain.",
            "functions_under_contract": fns,
            "harnesses_complete": len(hs) - len(bounded), "harnesses_bounded": len(bounded),
            "harnesses": [{"name": h["h"], "claim": h.get("claim", ""), "bound": h.get("bound") or "none (whole domain)",
                           "obligations": results.get(h["h"], {}).get("checks", 0),
                           "failed": results.get(h["h"], {}).get("failed", 0),
                           "covers": "%d/%d" % (results.get(h["h"], {}).get("cov", 0), results.get(h["h"], {}).get("covn", 0)),
                           "solver_s": results.get(h["h"], {}).get("time"),
                           "back_end": "CBMC 6.11.0 + " + h.get("solver", "cadical")} for h in hs],
        },
        "assumptions": assumptions + TRUSTED,
        "violations": len(viol),
    }

    def finish(rc):
        ev["wall_s"] = round(time.time() - t0, 1)
        json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
        return rc

    for p in problems:
        print("PROBLEM", p)
    for h, hard in viol:
        print("FAILED", h["h"], "|", " ; ".join(x.replace("\n", " ") for x in hard)[:600])
    for h in hs:
        r = results.get(h["h"])
        if r:
            print(f"{'ok  ' if r['ok'] else 'FAIL'} {h['h']}: {r['checks'] - r['failed']}/{r['checks']} obligations, "
                  f"{r['cov']}/{r['covn']} covers, {r['time']} s")
    if viol:
        viol.sort(key=lambda v: results[v[0]["h"]]["time"] or 0)
        info, ok, tried = None, False, []
        for h, hard in viol[:3]:
            info, ok = replay(pid, h, deadline)
            tried.append(info)
            if ok or time.time() > deadline - 120:
                break
        path = os.path.join(ROOT, "evidence", pid + ".violation.json")
        json.dump({"property": pid, "failed": [{"harness": h["h"], "claim": h.get("claim", ""), "obligations": hard,
                                                "verifier_output": results[h["h"]]["text"][-4000:]} for h, hard in viol],
                   "counterexamples": tried, "reproduced_on_real_code": ok}, open(path, "w"), indent=1)
        ev["coverage"]["violation"] = path
        print(f"VIOLATION property={pid} replay={path}" + ("" if ok else " no-failing-input-found"))
        return finish(1)
    if problems:
        return finish(2)
    return finish(0)


if __name__ == "__main__":
    sys.exit(main())
