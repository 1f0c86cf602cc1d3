#!/usr/bin/env python3
"""Driver: build one property's runner from /repo's working tree, run it, replay failures, write evidence.

usage: check.py <property> [quick|thorough]    exit 0 held / 1 violated (VIOLATION line) / 2 could not decide
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
LEVELS = {}

def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def fuzz_targets():
    p = os.path.join(HERE, "fuzz_targets.json")
    return json.load(open(p)) if os.path.exists(p) else {}

def run(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return -1, out

def build(target, args=[]):
    rc, out = run(["make", "-j8", "--no-print-directory", target] + args, 700)
    if rc != 0:
        errs = [l for l in out.splitlines() if "error" in l]
        print("BUILD FAILED:", *(errs[:20] or out.splitlines()[-20:]), sep="\n")
        sys.exit(2)

def fuzz(prop, subs, seed, seconds, work):
    """coverage-guided search (libFuzzer) over the same property functions"""
    build("build/fz/%s_fuzz" % prop, ["B=build/fz", "SAN=-fsanitize=address,undefined,fuzzer-no-link -fno-sanitize-recover=all"])
    total = 0
    covs = {}
    for i, sub in enumerate(subs):
        env = dict(os.environ, PBT_FUZZ_SUB=sub, PBT_TMP=work)
        procs = []
        per = 8
        for j in range(per):
            d = os.path.join(work, "c_%s_%d" % (sub, j)); os.makedirs(d)
            a = os.path.join(work, "crash_%s_%d_" % (sub, j))
            log = open(os.path.join(work, "log_%s_%d" % (sub, j)), "w")
            procs.append((subprocess.Popen([os.path.join(HERE, "build/fz/%s_fuzz" % prop), d, "-seed=%d" % (seed * 1000 + i * 50 + j + 1),
                "-max_total_time=%d" % seconds, "-max_len=%d" % (400 if j % 2 == 0 else 4000), "-rss_limit_mb=3500", "-timeout=40",
                "-artifact_prefix=" + a, "-print_final_stats=1"], stdout=log, stderr=log, env=env), log, a))
        for p, log, a in procs:
            p.wait(); log.close()
            t = open(log.name, errors="replace").read()
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t)
            if m: total += int(m.group(1))
            m = re.findall(r"cov: (\d+)", t)
            if m: covs[sub] = max(covs.get(sub, 0), int(m[-1]))
        import glob
        for c in sorted(glob.glob(os.path.join(work, "crash_%s_*" % sub))):
            if os.path.basename(c).split("_")[-1].startswith(("crash-", "timeout-")):
                yield ("crash", sub, c)
    yield ("stats", total, covs)

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    # a harness skips exactly the listed failing history (see pbt::known), nothing else
    os.environ["PBT_KNOWN"] = ",".join(i for i, _ in known_findings(prop))
    build("build/" + prop)
    tb = time.time() - t0
    os.makedirs("evidence/replays", exist_ok=True)
    replay = "evidence/replays/%s.json" % prop
    if os.path.exists(replay):
        os.remove(replay)
    runner = "./build/" + prop
    work = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    res_file = os.path.join(work, "res.json")
    violations = []
    unreproduced = []
    fuzzinfo = None
    try:
        cap = 100 if tier == "quick" else 420
        def campaign():
            return run([runner, "--tier", tier, "--seed", str(seed), "--out", res_file, "--replay-out", replay, "--cap", str(cap)], cap + 200)
        rc, out = campaign()
        if rc == 4:
            unreproduced.append(out.strip()[:500])
            rc, out = campaign()
            if rc == 4:
                unreproduced.append(out.strip()[:500])
                rc = 0
        if rc not in (0, 1):
            print(out[-3000:])
            print("runner ended with", rc)
            sys.exit(2)
        res = json.load(open(res_file))
        def confirm(path):
            return all(run([runner, "--replay", path], 100)[0] == 1 for _ in range(3))
        if rc == 1:
            print(out.strip())
            if confirm(replay):
                violations.append(replay)
            else:
                unreproduced.append(out.strip()[:500])
        subs = fuzz_targets().get(prop, [])
        if tier == "thorough" and subs and not violations:
            secs = max(10, int(240 / len(subs)))
            for item in fuzz(prop, subs, seed, secs, work):
                if item[0] == "stats":
                    fuzzinfo = {"libfuzzer_executions": item[1], "edges_covered": item[2]}
                else:
                    r, o = run([runner, "--only", item[1], "--bytes", item[2], "--replay-out", replay], 200)
                    if r == 1 and confirm(replay):
                        print(o.strip())
                        violations.append(replay)
                        break
                    unreproduced.append("libFuzzer artifact for %s did not reproduce" % item[1])
    finally:
        shutil.rmtree(work, ignore_errors=True)

    samples = []
    for s in res["subs"]:
        for x in s["samples"]:
            if x:
                samples.append("%s: %s" % (s["name"], x[:700]))
    rule = "; ".join("%s: %s" % (s["name"], s["rule"]) for s in res["subs"])
    cov = {
        "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"],
        "rule": "random choice sequences (edge-biased) drive each sub-check; distinct by hash of the choice sequence. " + rule,
        "samples": samples[:40],
        "discarded_cases": res["discards"],
        "sub_checks": {s["name"]: {"evaluations": s["evaluations"], "nontrivial": s["nontrivial"], "planned": s["planned"]} for s in res["subs"]},
    }
    if fuzzinfo:
        cov["coverage_guided"] = fuzzinfo
    if unreproduced:
        cov["unreproduced"] = unreproduced
    manifest = json.load(open("MANIFEST.json"))
    level = next((c["level"] for c in manifest["checks"] if c["property"] == prop), "exploration")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ["compiled by clang++ -O1 with ASan+UBSan from /repo's working tree (C++17, x86-64, libstdc++)"],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open("evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    for _, what in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s %s: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s" % (prop, tier, res["evaluations"], res["distinct_nontrivial"], tb, time.time() - t0))
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, violations[0]))
        sys.exit(1)
    sys.exit(0)

main()
