#!/usr/bin/env python3
"""Runs the check of one property: build from /repo's working tree, explore, replay every violation,
match it against the known findings, write the evidence file, and report."""
import json, os, re, subprocess, sys, time, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bmlbuild as B

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")

# property -> engine settings.  engine: how the binary is built.
SEQ_RULE = ("every case is one execution of the real library from a concrete start state built by a real call history; cases enumerate "
            "the stated product of patterns, layouts, arguments, formats and precisions without sampling; non-trivial: the expected result is not all zero / the operation had to change or compute something")


def unesc(s):
    return re.sub(r"\\(.)", lambda m: "\n" if m.group(1) == "n" else m.group(1), s)


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ what=(.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import engines
    eng = engines.get(prop, tier)
    try:
        exe = eng["build"]()
    except B.BuildError as e:
        print("BUILD ERROR", e)
        sys.exit(2)
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="bmlcheck-")
    try:
        rc = explore(prop, tier, seed, eng, exe, work, t0, tb)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run_case(exe, prop, tier, group, idx, env, prefix=None, timeout=120):
    cmd = exe + ["--prop", prop, "--tier", tier, "--replay", group, str(idx)] + (["--prefix", str(prefix)] if prefix is not None else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 97, (e.stdout or b"").decode("utf8", "replace")


def explore(prop, tier, seed, eng, exe, work, t0, tb):
    env = dict(os.environ)
    env.update(eng.get("env", {}))
    out = os.path.join(work, "out")
    if isinstance(exe, str):
        exe = [exe]
    budget = eng["budget"]
    env["BMLCHECK_TMP"] = work
    p = subprocess.run(exe + ["--prop", prop, "--tier", tier, "--out", out, "--budget", str(budget)], env=env, cwd=work,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget + 250)
    if p.returncode != 0:
        print("ENGINE ERROR", p.returncode, p.stdout.decode("utf8", "replace")[-3000:])
        return 2
    V, X, S, T, C, D, abandoned = [], [], [], {}, {}, {}, []
    for l in open(out, errors="replace"):
        f = l.rstrip("\n").split("\t")
        if f[0] == "V":
            V.append(dict(group=unesc(f[1]), idx=int(f[2]), sig=unesc(f[3]), desc=unesc(f[4]), msg=unesc(f[5]), start=int(f[6])))
        elif f[0] == "X":
            X.append(dict(group=unesc(f[1]), idx=int(f[2]), sig="crash|" + f[3], desc="", msg=f[3] + " (exit %s)" % f[4], start=int(f[5])))
        elif f[0] == "S":
            S.append(unesc(f[1]))
        elif f[0] == "C":
            C[unesc(f[1])] = C.get(unesc(f[1]), 0) + int(f[2])
        elif f[0] == "D":
            D[f[1]] = f[2]
        elif f[0] == "A":
            D[f[1]] = D.get(f[1], 0) + int(f[2])
        elif f[0] == "N":
            D.setdefault("_notes", set()).add(unesc(f[1]))
        elif f[0] == "G":
            abandoned.append(unesc(f[1]))
        elif f[0] == "T":
            T = {k: float(v) for k, v in (x.split("=") for x in f[1:])}
    if not T:
        print("ENGINE ERROR: no totals")
        return 2
    known = known_findings(prop)
    hits = {}
    reported = []
    tried = 0
    bysig = {}
    t1 = time.time()
    unchecked = 0
    for v in V + X:
        if v["sig"].startswith("crash|"):
            # the description of a crashing case comes from its replay
            if sum(1 for r in reported) >= 3 or tried > 60:
                continue
        key = v["sig"] if not v["sig"].startswith("crash|") else None
        k = None
        if key is not None:
            full = v["group"] + " :: " + v["sig"] + " :: " + v["desc"] + " :: " + v["msg"]
            for i, (rx, what) in enumerate(known):
                if rx.search(full):
                    k = i
                    break
            if k is not None and k in hits:
                continue
            if k is None and (bysig.get(key, 0) >= 1 or len(reported) >= 8):
                continue
        spent = time.time() - t1
        if spent > (30 if reported else 300):
            unchecked += k is None
            continue
        tried += 1
        rc, txt = run_case(exe, prop, tier, v["group"], v["idx"], env, timeout=60)
        mode = "case"
        if rc == 0:
            rc, txt = run_case(exe, prop, tier, v["group"], v["idx"], env, prefix=v["start"], timeout=150)
            mode = "prefix"
        if rc == 0:
            print("note: not reproduced, not reported:", v["group"], v["idx"], v["sig"])
            continue
        if v["sig"].startswith("crash|"):
            m = re.findall(r"CASE group=.* idx=\d+ : (.*)", txt)
            v["desc"] = m[-1] if m else ""
            m = re.search(r"SUMMARY: (.*)", txt)
            full = v["group"] + " :: " + v["sig"] + " :: " + v["desc"] + " :: " + v["msg"]
            for i, (rx, what) in enumerate(known):
                if rx.search(full):
                    k = i
                    break
        if k is not None:
            hits[k] = v
            continue
        bysig[v["sig"]] = bysig.get(v["sig"], 0) + 1
        if len(reported) < 8:
            v["mode"] = mode
            v["log"] = txt[-6000:]
            reported.append(v)
    for k, v in hits.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k][1]))
    rdir = os.path.join(VERIF, "replay")
    if reported:
        os.makedirs(rdir, exist_ok=True)
    for n, v in enumerate(reported):
        f = os.path.join(rdir, "%s-%d.json" % (prop, n))
        json.dump(dict(property=prop, tier=tier, group=v["group"], idx=v["idx"], start=v["start"], mode=v["mode"], signature=v["sig"],
                       case=v["desc"], observed=v["msg"], log=v["log"],
                       replay_cmd="python3 /verif/lib/replay.py " + f), open(f, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, f))
        print("   ", v["sig"], "|", v["desc"][:400])
        print("   ", v["msg"][:600].replace("\n", " "))
    cov = eng["coverage"](T, C, D)
    cov["samples"] = S[:6]
    cov["capped"] = bool(T.get("capped"))
    cov["exhaustive"] = not T.get("capped") and not abandoned
    ev = dict(property=prop, tier=tier, seed=seed, level=eng["level"], coverage=cov, assumptions=eng.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(reported))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", "%s.json.%d" % (prop, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop))
    print("%s %s: %s  build %.1fs total %.1fs%s" % (prop, tier, " ".join("%s=%d" % (k, v) for k, v in T.items() if k != "wall"), tb, time.time() - t0,
                                                   "  CAPPED" if T.get("capped") else ""))
    if reported:
        return 1
    if unchecked:
        print("ENGINE ERROR: %d violations could not be replayed in the time available" % unchecked)
        return 2
    if abandoned:
        print("ENGINE ERROR: groups abandoned without a reproducible violation:", abandoned[:5])
        return 2
    if T.get("cases", 0) == 0:
        print("ENGINE ERROR: nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    main()
