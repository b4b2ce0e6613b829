#!/usr/bin/env python3
"""Runs the check of one property:  python3 run.py C01 [--tier quick|thorough] [--replay FILE]

Builds the harness from /repo's current working tree, runs its campaigns, writes
evidence/<id>.json and prints one line per outcome.  Exit status: 0 held on
everything explored, 1 violated (with a VIOLATION line), 2 the check itself failed.
"""
import argparse, array, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VERIF = build.VERIF
WALL_CAP = {"quick": 420, "thorough": 780}
BMP = ["opt", "asan"]

# property -> (variant, cases in the quick tier); the thorough tier multiplies them.
# Streams differ between entries, so that no two campaigns repeat each other's cases.
SPECS = {
    "C01": [("asan", 12000), ("opt", 120000), ("optfu", 40000)],
    "C02": [("asan", 20000), ("opt", 200000), ("optfu", 50000)],
    "C03": [("asan", 6000), ("opt", 60000), ("optnh", 20000)],
    "C04": [("asan", 8000), ("opt", 80000), ("optnh", 20000)],
    "C05": [("asan", 5000), ("opt", 40000), ("optnh", 15000)],
    "C06": [("asan", 8000), ("opt", 80000), ("optfu", 20000)],
    "C07": [("asan", 60000), ("asanfu", 40000), ("opt", 200000)],
    "C08": [("asan", 80000), ("asanfu", 30000), ("opt", 300000)],
    "C09": [("asan", 60000), ("opt", 200000), ("asanfu", 30000)],
    "C10": [("asan", 5000), ("opt", 30000), ("asanfu", 2000)],
    "C11": [("asan", 8000), ("opt", 50000), ("optfu", 20000)],
    "C12": [("asan", 20000), ("opt", 100000)],
    "C13": [("asan", 40000), ("opt", 200000)],
    "C14": [("asan", 8000), ("opt", 60000)],
    "C16": [("asan", 5000), ("asanfu", 2500)],
    "C17": [("asan", 12000), ("opt", 60000), ("asanfu", 6000)],
    "C18": [("asan", 8000), ("opt", 40000), ("asanfu", 3000), ("big", 2)],
    "C19": [("opt", 24000)],
    "C20": [("asan", 10000), ("opt", 80000), ("optnh", 20000)],
    "C21": [("tsan", 1200), ("asan", 800), ("opt", 6000)],
    "C23": [("asan", 8000), ("opt", 50000), ("asanfu", 4000)],
    "C24": [("asan", 25000), ("opt", 200000), ("asanfu", 10000), ("optnh", 60000)],
    "C25": [("asan", 6000), ("opt", 24000)],
    "C22": [("asan", 10000), ("opt", 60000), ("asanfu", 5000)],
}
WRAP = ["tmpfile", "tmpfile64", "ftruncate", "ftruncate64", "posix_fallocate", "fallocate", "mmap", "mmap64", "mremap", "madvise", "mkstemp", "memfd_create"]
OPTIONS = {
    "C24": dict(extra_link=["-Wl,--wrap=strdup", "-Wl,--wrap=__strdup", "-Wl,--wrap=iconv_open", "-Wl,--wrap=iconv_close"]),
    "C18": dict(extra_link=["-Wl,--wrap=" + f for f in WRAP]),
}
THOROUGH = 12


class Result:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.nontrivial = 0
        self.labels = {}
        self.samples = []
        self.campaigns = []
        self.rule = ""
        self.notes = []
        self.violation = None
        self.extra = {}


sys.stdout.reconfigure(encoding="utf-8", errors="replace")


def log(*a):
    print(*a)
    sys.stdout.flush()


def binary(prop, variant):
    if prop == "C19":
        e = build.engines()
        return build.binary(prop, variant, extra_link=e + ["-Wl,-rpath," + os.path.join(build.BUILD, "bin")])
    return build.binary(prop, variant, **OPTIONS.get(prop, {}))


def environment(prop, variant):
    if prop != "C25":
        return os.environ
    env = dict(os.environ)
    for name, path in build.tools(variant).items():
        env["TOOL_" + name] = path
    return env


def campaign(res, prop, variant, cases, stream, seed, tier, deadline, scratch):
    b = binary(prop, variant)
    out, hout = os.path.join(scratch, "out.json"), os.path.join(scratch, "hashes")
    for f in (out, hout):
        if os.path.exists(f):
            os.unlink(f)
    left = max(5, int(deadline - time.time()))
    # A fixed partition of the cases keeps a run a pure function of the seed.
    chunk = max(10, min(400, cases // 64))
    cmd = [b, "--seed", str(seed), "--stream", str(stream), "--cases", str(cases), "--chunk", str(chunk), "--variant", variant, "--tier", tier,
           "--out", out, "--hash-out", hout, "--max-seconds", str(left)]
    if variant == "big":
        cmd += ["--cpu-limit", "150"]  # words of many million letters
    env = dict(environment(prop, variant), PBT_SCRATCH=scratch)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise RuntimeError("harness failed (exit %d): %s" % (r.returncode, r.stdout[-3000:]))
    d = readable(json.load(open(out)))
    merge(res, d, hout, cases)
    log("  " + r.stdout.strip().splitlines()[-1][:300])
    if d["violation"]:
        res.violation = d
        return True
    return False


def readable(x):
    """The driver writes bytes; most of them are UTF-8."""
    if isinstance(x, dict):
        return {k: readable(v) for k, v in x.items()}
    if isinstance(x, list):
        return [readable(v) for v in x]
    if isinstance(x, str):
        try:
            return x.encode("latin-1").decode("utf-8", "backslashreplace")
        except UnicodeEncodeError:
            return x
    return x


def merge(res, d, hout, cases):
    res.evaluations += d["evaluations"]
    res.nontrivial += d["nontrivial"]
    if hout and os.path.exists(hout):
        a = array.array("Q")
        a.frombytes(open(hout, "rb").read())
        res.hashes.update(a)
    for k, v in d["labels"].items():
        res.labels[k] = res.labels.get(k, 0) + v
    res.samples += d["samples"][:1] if res.samples else d["samples"][:2]
    res.rule = d["rule"]
    res.campaigns.append(dict(variant=d["variant"], cases_requested=cases, cases_run=d["evaluations"], nontrivial=d["nontrivial"],
                              distinct_nontrivial=d["distinct_nontrivial"], stopped_by_time=d["time_limit_hit"], wall_s=round(d["wall_s"], 2)))
    if d["note"]:
        res.notes.append("%s: %s" % (d["variant"], d["note"]))
    if d["time_limit_hit"]:
        res.notes.append("%s: stopped by its time budget after %d of %d cases" % (d["variant"], d["evaluations"], cases))


def fuzz(res, prop, seed, seconds, scratch):
    """Coverage-guided search over the same generator, bytes instead of a random tape."""
    b = binary(prop, "fuzz")
    procs = []
    for k in range(8):
        d = os.path.join(scratch, "fuzz%d" % k)
        os.makedirs(d + "/corpus")
        cmd = [b, "-seed=%d" % (seed * 8 + k + 1), "-max_total_time=%d" % seconds, "-max_len=4096", "-len_control=20", "-timeout=60", "-rss_limit_mb=3000",
               "-detect_leaks=0", "-print_final_stats=1", "-artifact_prefix=" + d + "/art-", d + "/corpus"]
        procs.append((d, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(d + "/log", "w"), env=dict(os.environ, PBT_SCRATCH=d))))
    execs, arts = 0, []
    for d, p in procs:
        p.wait()
        m = re.search(r"number_of_executed_units:\s*(\d+)", open(d + "/log", errors="replace").read())
        if m:
            execs += int(m.group(1))
        arts += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.startswith("art-crash")]
    res.extra["libfuzzer_executions"] = execs
    log("  fuzz: %d executions, %d artifacts" % (execs, len(arts)))
    asan = binary(prop, "asan")
    for a in arts:
        out = os.path.join(scratch, "fz.json")
        if os.path.exists(out):
            os.unlink(out)
        r = subprocess.run([asan, "--bytes", a, "--out", out, "--variant", "asan", "--tier", "fuzz"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                           env=dict(os.environ, PBT_SCRATCH=scratch))
        if r.returncode == 1 and os.path.exists(out):
            res.violation = readable(json.load(open(out)))
            return True
        res.notes.append("libFuzzer artifact %s did not reproduce outside the fuzzer: inconclusive" % os.path.basename(a))
    return False


def write_replay(prop, v, seed):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s-%s.txt" % (prop, v["variant"], seed))
    with open(path, "w") as f:
        f.write("# Replay with: python3 run.py %s --replay %s\n" % (prop, path))
        f.write("property %s\nvariant %s\nseed %s\nstream %s\ntier %s\n" % (prop, v["variant"], v.get("seed", 0), v.get("stream", 0), v.get("tier", "quick")))
        f.write(v["replay"] + "\n")
        for title, key in (("kind", "kind"), ("message", "message"), ("case", "case"), ("stderr", "stderr")):
            for line in (v.get(key) or "").splitlines():
                f.write("# %s: %s\n" % (title, line))
    return path


def known_findings(prop):
    """Entries 'finding: property=<id> match=<regex> <what fails>' of known_findings.txt."""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line)
        if m and m.group(1) == prop:
            r.append((re.compile(m.group(2)), m.group(3).strip()))
    return r


def evidence(prop, tier, seed, res, t0):
    cov = dict(evaluations=res.evaluations, distinct_nontrivial=len(res.hashes), nontrivial=res.nontrivial, rule=res.rule,
               samples=res.samples[:5], classes=dict(sorted(res.labels.items())), campaigns=res.campaigns)
    cov.update(res.extra)
    if res.notes:
        cov["notes"] = res.notes
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=["the reference model and the generators in /verif/harness are right", "ICU's character properties", "the compilers and sanitizers used"],
              wall_s=round(time.time() - t0, 2), violations=1 if res.violation else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))


def replay(prop, path):
    if prop == "C15":
        import pyprop
        return pyprop.replay(path)
    variant = "asan"
    for line in open(path):
        if line.startswith("variant "):
            variant = line.split()[1]
    return subprocess.run([binary(prop, variant), "--replay", path], env=environment(prop, variant)).returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    prop, tier, seed = a.property, a.tier, a.seed
    if a.replay:
        return replay(prop, a.replay)
    t0 = time.time()
    deadline = t0 + WALL_CAP[tier]
    res = Result()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.chmod(scratch, 0o755)
    try:
        build.prune()
        if prop == "C15":
            import pyprop
            pyprop.check(res, seed, tier, deadline, scratch, log, a.scale)
        else:
            for i, (variant, cases) in enumerate(SPECS[prop]):
                n = max(1, int(cases * ((3 if variant == "big" else THOROUGH) if tier == "thorough" else 1) * a.scale))
                share = t0 + (deadline - t0) * (i + 1) / len(SPECS[prop]) * (0.75 if tier == "thorough" else 1)
                if campaign(res, prop, variant, n, i, seed, tier, share, scratch):
                    break
            if tier == "thorough" and not res.violation and prop not in NO_FUZZ:
                fuzz(res, prop, seed, int(max(20, min(150, deadline - time.time()))), scratch)
        found = [what for rx, what in known_findings(prop) if res.violation and rx.search(res.violation["message"])]
        for what in found:
            log("KNOWN-FINDING: property=%s %s" % (prop, what))
        if found:
            res.violation = None
        evidence(prop, tier, seed, res, t0)
        if res.violation:
            v = dict(res.violation, tier=tier)
            p = write_replay(prop, v, seed)
            log("%s: %s" % (v["kind"], v["message"]))
            log("\n".join("    " + x for x in v.get("case", "").splitlines()[:30]))
            log("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
        for n in res.notes:
            log("  note: " + n)
        log("%s held on %d cases (%d distinct non-trivial), %.0f s" % (prop, res.evaluations, len(res.hashes), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


NO_FUZZ = {"C18", "C21", "C25"}  # own fault schedule / processes of their own

if __name__ == "__main__":
    try:
        sys.exit(main())
    except (build.BuildError, RuntimeError, OSError) as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
