#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   run the check of one property against /repo's working tree
   check.py --replay FILE               run the single case of a replay file again

Exit 0: held on everything explored. Exit 1: a line "VIOLATION property=<id> replay=<path>".
"""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import vbuild
from parts import PARTS, LEVEL

KNOWN = os.path.join(VERIF, "known_findings.txt")
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4000:handle_abort=0",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66", UBSAN_OPTIONS="halt_on_error=1", LC_ALL="C")


def build(part):
    cli = None
    if part.get("cli"):
        cli = vbuild.build(part["cli"], "handlebarsc")
    b = vbuild.build(part["variant"], part["harness"], part.get("extra", []), part.get("cxxflags", []),
                     part.get("ldflags", []), part.get("libcflags", []), part.get("tag", ""))
    return b, cli


def main():
    if sys.argv[1] == "--replay":
        path = sys.argv[2]
        head = dict(l.split("=", 1) for l in open(path, errors="replace").read().splitlines()[:5] if "=" in l)
        prop, idx = head["part"].split(":")
        tier = head["tier"]
        part = [p for p in PARTS[prop] if tier in p.get("tiers", ("quick", "thorough"))][int(idx)]
        b, cli = build(part)
        env = dict(ENV)
        env["ASAN_OPTIONS"] += part.get("asan", "")
        if cli:
            env["HB_CLI"] = cli
        sys.exit(subprocess.run([b, "--tier", tier, "--replay", path] + part.get("args", []), env=env).returncode)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    out = os.path.join(vbuild.BUILD, "out", prop)
    rep = os.path.join(vbuild.BUILD, "replay", prop)
    for d in (out, rep, os.path.join(VERIF, "evidence")):
        os.makedirs(d, exist_ok=True)
    for f in os.listdir(rep):
        os.unlink(os.path.join(rep, f))
    parts = [p for p in PARTS[prop] if tier in p.get("tiers", ("quick", "thorough"))]
    res, rc = [], 0
    for i, part in enumerate(parts):
        b, cli = build(part)
        j = os.path.join(out, "%d.json" % i)
        if os.path.exists(j):
            os.unlink(j)
        env = dict(ENV)
        env["ASAN_OPTIONS"] += part.get("asan", "")
        if cli:
            env["HB_CLI"] = cli
        budget = part.get("budget", {"quick": 300, "thorough": 3000})[tier]
        cmd = [b, "--tier", tier, "--out", j, "--replay-dir", rep, "--known", KNOWN, "--budget", str(budget),
               "--part", "%s:%d" % (prop, i)] + part.get("args", [])
        t = time.time()
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, cwd=out)
        sys.stdout.write(p.stdout.decode(errors="replace"))
        sys.stdout.flush()
        if p.returncode not in (0, 1) or not os.path.exists(j):
            sys.stderr.write("check: %s ended with %d\n" % (b, p.returncode))
            sys.exit(3)
        r = json.load(open(j))
        r["harness"], r["variant"], r["seconds"] = part["harness"], part["variant"], round(time.time() - t, 1)
        res.append(r)
        rc = max(rc, p.returncode)
    level = LEVEL.get(prop, "exploration")
    tot = lambda k: sum(r.get(k, 0) for r in res)
    samples = []
    for r in res:
        samples += r["samples"][:12]
    cov = {"samples": samples[:24], "exhaustive": all(r["exhaustive"] for r in res), "parts": [
        {k: r[k] for k in r if k not in ("samples", "rule", "assumptions")} for r in res],
        "rule": " | ".join(dict.fromkeys(r["rule"] for r in res))}
    cov["evaluations"] = tot("evaluations")
    cov["distinct_nontrivial"] = max(r["distinct"] for r in res)
    if level == "model_checking":
        cov["states"] = tot("states")
        cov["transitions"] = tot("transitions")
        cov["traces_validated_against_impl"] = tot("traces")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 1),
          "assumptions": list(dict.fromkeys(a for r in res for a in r["assumptions"])), "violations": tot("violations")}
    tmp = os.path.join(out, "ev.json")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    sys.exit(rc)


if __name__ == "__main__":
    main()
