#!/usr/bin/env python3
"""run_check.py <property> : builds the property's explorers from /repo's working tree, runs them, writes
evidence/<property>.json. Exit 0 held, 1 violated (VIOLATION line), 2 error of the check itself."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FN_REPO", "/repo")
CHECKS = json.load(open(os.path.join(V, "checks.json")))

def main():
    pid = sys.argv[1]; extra = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in extra: tier = "thorough"; extra.remove("--thorough")
    if tier not in ("quick", "thorough"): tier = "quick"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))      # nothing is random: recorded only
    t0 = time.time()
    rdir = os.path.join(V, "replays", pid)
    shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    known = {}
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
        if m and m.group(1) == pid: known[m.group(2)] = m.group(3).strip()
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir="/tmp")
    try:
        return run(pid, tier, seed, t0, rdir, known, tmp, extra)
    finally:
        subprocess.call(["chmod", "-R", "u+rwx", tmp], stderr=subprocess.DEVNULL)
        shutil.rmtree(tmp, ignore_errors=True)

def run(pid, tier, seed, t0, rdir, known, tmp, extra):
    spec = CHECKS[pid]; parts = []; violations = []; hit = {}
    bdir = os.path.join(tmp, "b"); os.makedirs(bdir)
    builds = []
    engines = sorted(set(e for e, _ in spec["parts"]))
    env = dict(os.environ, FN_REPO=REPO)
    for e in engines:   # engine libraries first, then all programs in parallel
        if e == "fnmc":
            r = subprocess.run([V + "/fnmc/build.sh", "-", bdir], env=env, capture_output=True, text=True)
            if r.returncode: print("ERROR: cannot build fnmc\n" + r.stdout + r.stderr); return 2
    for e, n in spec["parts"]:
        builds.append((e, n, subprocess.Popen([V + "/%s/build.sh" % e, n, bdir], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for e, n, p in builds:
        o, _ = p.communicate()
        if p.returncode: print("ERROR: %s/%s does not build against %s:\n%s" % (e, n, REPO, o[-4000:])); return 2
    for e, n in spec["parts"]:
        js = os.path.join(tmp, n + ".json"); left = 880 - (time.time() - t0) if tier == "quick" else 6 * 3600
        work = os.path.join(tmp, "w-" + n); os.makedirs(work)
        try:
            r = subprocess.run([os.path.join(bdir, n), "--out", js, "--rdir", rdir] + extra, env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=max(left, 10))
        except subprocess.TimeoutExpired:
            print("ERROR: %s did not finish in time" % n); return 2
        out = r.stdout.decode("utf-8", "replace"); lines = out.splitlines()
        for l in lines:
            if l.startswith("KNOWN "):
                k, rest = l[6:].split(" ", 1)
                if k in known: hit.setdefault(k, rest)
                else:
                    f = os.path.join(rdir, "unlisted-%s.txt" % k); open(f, "w").write(l + "\n"); print(rest); print("VIOLATION property=%s replay=%s" % (pid, f)); violations.append(rest)
            elif l.startswith("VIOLATION "): violations.append(l); print(l)
            else: print(l if len(l) < 2000 else l[:2000])
        if r.returncode not in (0, 1) or (r.returncode == 1 and not violations):
            print("ERROR: %s ended with status %s" % (n, r.returncode)); return 2
        if os.path.exists(js): parts.append((n, json.load(open(js))))
        elif not violations: print("ERROR: %s wrote no coverage" % n); return 2
        if violations: break
    for k, msg in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s: %s [seen: %s]" % (pid, k, known[k], msg[:300]))
    st = sum(j.get("states", 0) for _, j in parts); tr = sum(j.get("transitions", 0) for _, j in parts)
    val = sum(j.get("complete_executions", 0) + j.get("race_pass_executions", 0) for _, j in parts)
    samples = []
    for n, j in parts: samples += [str(s) for s in j.get("samples", [])][:6]
    cov = dict(states=st, transitions=tr, traces_validated_against_impl=val, samples=samples[:12] or ["none"],
               explanation=spec.get("explain", ""), programs_run={n: j for n, j in parts},
               exhaustive=False, known_findings_seen=sorted(hit))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=spec.get("assumptions", []),
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: states=%d transitions=%d executions of the real code=%d, %d violation(s), %.1fs" % (pid, tier, st, tr, val, len(violations), time.time() - t0))
    return 1 if violations else 0

if __name__ == "__main__": sys.exit(main())
