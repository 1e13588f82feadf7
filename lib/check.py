#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property. Exit 0: held on everything explored; 1: violated."""
import fnmatch, json, os, re, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from checks import CHECKS

VERIF = build.VERIF


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\w+) match=`([^`]*)` (.*)", line)
            if m and m[1] == prop:
                out.append((m[2], m[3].strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    cfg = CHECKS[prop]
    start = time.time()
    known = known_findings(prop)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:"
               "hard_rss_limit_mb=3500:detect_stack_use_after_return=0:handle_abort=1", LC_ALL="C", TZ="UTC", MALLOC_PERTURB_="0")
    scopes, violations, known_hit = [], [], set()
    log = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    for f in os.listdir(replays):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(replays, f))
    budget = 750 if tier == "thorough" else cfg.get("budget", 240)
    deaths = 0
    try:
        for h in cfg["harness"]:
            if callable(h):
                res = h(tier, log, budget)
                binary = None
            else:
                h = dict(h) if isinstance(h, dict) else {"name": h}
                binary = build.harness(h["name"], h.get("variant", "asan"), h.get("sources"), h.get("defines", ()))
                cmd = [binary, "--log", log, "--budget", str(int(budget * h.get("share", 1.0)))] + h.get("args", [])
                if tier == "thorough":
                    cmd.append("--thorough")
                for pat, _ in known:
                    cmd += ["--known", pat]
                r = subprocess.run(cmd, stdout=subprocess.PIPE, env=env)
                if r.returncode:
                    print(r.stdout.decode(errors="replace")[-2000:])
                    print("harness %s ended with %d" % (h["name"], r.returncode))
                    return 2
                res = json.loads(r.stdout)
            deaths += res.get("worker_deaths", 0)
            for s in res["scopes"]:
                s["harness"] = h["name"] if isinstance(h, dict) else h.__name__
                scopes.append(s)
                for i in range(len(known)):
                    if s.get("known", 0) >> i & 1:
                        known_hit.add(i)
                for v in s["violations"]:
                    n = len(violations) + 1
                    path = os.path.join(replays, "%s-%d.txt" % (prop, n))
                    text = ""
                    if v.get("log") and os.path.exists(v["log"]):
                        text = open(v["log"], errors="replace").read()[-20000:]
                    with open(path, "w") as f:
                        f.write("property: %s\nscope: %s/%s\nwhat: %s\ncase: %s\n" % (prop, s["harness"], s["name"], v["desc"], v["note"]))
                        if binary:
                            args = " ".join(h.get("args", []) + (["--thorough"] if tier == "thorough" else []))
                            f.write("replay: cd /verif && python3 lib/replay.py %s %s %s %s %s\n\n" % (prop, h["name"], s["name"], v["choices"], args))
                        f.write(text)
                    v["replay"] = path
                    violations.append(v)
    finally:
        shutil.rmtree(log, ignore_errors=True)

    tot = lambda k: sum(s.get(k, 0) for s in scopes)
    samples = []
    for s in scopes:
        for x in s.get("samples", [])[:2]:
            samples.append("%s: %s" % (s["name"], x))
    capped = [s["name"] for s in scopes if s.get("capped")]
    runs = tot("executions") + tot("evaluations")
    cov = {"exhaustive": not capped, "samples": samples[:12],
           "bounds": cfg["bounds"].get(tier, cfg["bounds"]["quick"]) if isinstance(cfg.get("bounds"), dict) else cfg.get("bounds", ""),
           "scopes": [{k: s[k] for k in s if k in ("name", "harness", "executions", "evaluations", "outcomes", "states", "transitions", "traces", "max_choices",
                                                    "wall_s", "unconfirmed", "extra")} for s in scopes]}
    if capped:
        cov["not_completed_within_budget"] = capped
    if deaths:
        cov["worker_restarts"] = deaths
    if cfg["level"] == "model_checking":
        cov.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("traces"),
                   executions=runs, distinct_outcomes=tot("outcomes"))
    else:
        cov.update(evaluations=runs, distinct_nontrivial=tot("outcomes"), rule=cfg["rule"])
        if tot("states"):
            cov.update(states=tot("states"), transitions=tot("transitions"))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - start, 1), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s in scopes:
        print("%s/%s: %d executions, %d states, %d transitions, %d distinct outcomes, %.1f s%s" % (
            s["harness"], s["name"], s.get("executions", 0) + s.get("evaluations", 0), s.get("states", 0), s.get("transitions", 0), s.get("outcomes", 0),
            s.get("wall_s", 0), " (capped)" if s.get("capped") else ""))
    for i in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[i][1]))
    for v in violations:
        print("  %s | %s" % (v["desc"], v["note"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    return 1 if violations else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        print("build failed:\n%s" % e)
        sys.exit(2)
