"""C15: generated programs against the Python module."""
import json, os, re, shutil, subprocess, tempfile, time
import build

PY = "/usr/bin/python3.12"
PYINC = "/usr/include/python3.12"
BOOST = "/usr/lib/x86_64-linux-gnu/libboost_python312.so"
WORKER = os.path.join(build.HARNESS, "py", "worker.py")
SPEC = [("pyasan", 6000), ("pyopt", 14000)]
FLAGS = {
    "pyasan": dict(cxx="clang++", flags=["-O1", "-g1", "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-shared-libasan"] + build.SAN),
    "pyopt": dict(cxx="g++", flags=["-O2", "-fPIC"]),
}
RULE = ("a program of up to 60 calls of the Python module with a reference model alongside; non-trivial when a search found a document, or an object obtained from another one was read and "
        "compared after its source had been changed or garbage-collected")
JOBS = 8


def module(variant):
    """Directory holding columbus.so built from the current tree."""
    v = FLAGS[variant]
    inc = build.config("utf16")
    hh = build.headers_hash(inc)
    cmd = [v["cxx"], "-std=c++11", "-w"] + v["flags"] + ["-I" + build.REPO + "/include", "-I" + build.REPO + "/src", "-I" + inc, "-I" + PYINC]
    objs = build.compile_many([(cmd, s, hh) for s in build.lib_sources() + [build.REPO + "/python/columbus.cc"]])
    out = os.path.join(build.BUILD, "bin", "py-%s-%s" % (variant, build.sha(*objs)))
    if not os.path.exists(out + "/columbus.so"):
        tmp = out + ".%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        san = [f for f in v["flags"] if f.startswith(("-fsanitize", "-fno-sanitize", "-shared-libasan"))]
        build.run([v["cxx"], "-shared"] + san + objs + [BOOST] + build.LIBS + ["-o", tmp + "/columbus.so"], "linking the Python module")
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def environment(variant):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON") and not k.endswith("SAN_OPTIONS") and k != "LD_PRELOAD"}
    e.update(COLUMBUS_DATADIR=build.REPO + "/share", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C.UTF-8")
    if variant == "pyasan":
        d = subprocess.run(["clang++", "-print-runtime-dir"], stdout=subprocess.PIPE, text=True).stdout.strip()
        lib = os.path.join(d, "libclang_rt.asan-x86_64.so")
        if not os.path.exists(lib):
            lib = os.path.join(d, "libclang_rt.asan.so")
        e.update(LD_PRELOAD=lib, PYTHONMALLOC="malloc", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:handle_segv=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=86")
    return e


def launch(variant, mod, args, err):
    return subprocess.Popen([PY, "-S", WORKER, "--module", mod] + args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, env=environment(variant))


def run_one(variant, mod, ops, scratch, timeout=60):
    """None when the program is fine, else (message, stderr)."""
    f, o = os.path.join(scratch, "prog.json"), os.path.join(scratch, "prog.out")
    json.dump(ops, open(f, "w"))
    if os.path.exists(o):
        os.unlink(o)
    with open(os.path.join(scratch, "prog.err"), "w+") as err:
        p = launch(variant, mod, ["--program", f, "--out", o], err)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return None  # time says nothing: not a verdict
        err.seek(0)
        text = err.read()
    if rc == 0:
        return None
    if rc == 1 and os.path.exists(o):
        return json.load(open(o))["violation"]["message"], ""
    if rc == 86 or rc in (-11, -6, -7, -8, -4):
        first = re.search(r"(ERROR: AddressSanitizer: .*|runtime error: .*|terminate called.*|.*Assertion .*)", text)
        return "the interpreter crashed (%s)%s" % ("sanitizer report" if rc == 86 else "signal %d" % -rc, ": " + re.sub(r"0x[0-9a-f]+", "0x..", first.group(1))[:200] if first else ""), text[-3000:]
    raise RuntimeError("Python worker failed (exit %d): %s" % (rc, text[-2000:]))


def shrink(variant, mod, ops, scratch, seconds=60):
    t0 = time.time()
    best = run_one(variant, mod, ops, scratch)
    if not best:
        return ops, None
    n = max(1, len(ops) // 2)
    while n >= 1 and time.time() - t0 < seconds:
        i, moved = 0, False
        while i < len(ops) and time.time() - t0 < seconds:
            cand = ops[:i] + ops[i + n:]
            r = run_one(variant, mod, cand, scratch) if cand else None
            if r:
                ops, best, moved = cand, r, True
            else:
                i += n
        if not moved or n > 1:
            if n == 1 and not moved:
                break
            n = max(1, n // 2) if n > 1 else 1
    return ops, best


def campaign(res, variant, cases, stream, seed, deadline, scratch, log):
    mod = module(variant)
    t0 = time.time()
    per = (cases + JOBS - 1) // JOBS
    left = max(5, deadline - time.time())
    jobs = []
    for k in range(JOBS):
        st, o, e = (os.path.join(scratch, "%s%d" % (x, k)) for x in ("st", "out", "err"))
        for f in (st, o):
            if os.path.exists(f):
                os.unlink(f)
        err = open(e, "w")
        jobs.append((launch(variant, mod, ["--seed", str(seed * 16 + stream), "--start", str(k * per), "--count", str(per), "--status", st, "--out", o, "--max-seconds", str(left)], err), st, o, e))
    failed = None
    total, nontrivial, stopped, distinct = 0, 0, False, set()
    for p, st, o, e in jobs:
        try:
            rc = p.wait(max(1, deadline + 60 - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            res.notes.append("%s: a worker did not finish in time and was stopped" % variant)
            continue
        d = json.load(open(o)) if os.path.exists(o) else None
        if rc in (0, 1) and d:
            total += d["evaluations"]
            nontrivial += d["nontrivial"]
            distinct.update(d["hashes"])
            for k, v in d["labels"].items():
                res.labels[k] = res.labels.get(k, 0) + v
            if len(res.samples) < 4:
                res.samples += [json.dumps(s, ensure_ascii=True) for s in d["samples"]]
            stopped = stopped or d["time_limit_hit"]
            if d["violation"] and not failed:
                failed = d["violation"]["program"]
        else:
            text = open(e, errors="replace").read()
            if not os.path.exists(st):
                raise RuntimeError("Python worker did not start (exit %d): %s" % (rc, text[-2000:]))
            if not failed:
                failed = generate(seed * 16 + stream, int(open(st).read().split()[0]))
            res.notes.append("%s: a worker ended with status %d" % (variant, rc))
    res.evaluations += total
    res.nontrivial += nontrivial
    res.hashes |= distinct
    res.rule = RULE
    res.campaigns.append(dict(variant=variant, cases_requested=cases, cases_run=total, nontrivial=nontrivial, distinct_nontrivial=len(distinct), stopped_by_time=stopped, wall_s=round(time.time() - t0, 2)))
    log("  C15[%s]: %d cases, %d non-trivial, %.1fs" % (variant, total, nontrivial, time.time() - t0))
    if failed:
        ops, why = shrink(variant, mod, failed, scratch)
        if not why:
            res.notes.append("%s: a failure did not reproduce in a process of its own: inconclusive" % variant)
            return False
        res.violation = dict(variant=variant, seed=seed, stream=stream, replay="program " + json.dumps(ops), kind="python", message=why[0],
                             case="\n".join(json.dumps(x) for x in ops), stderr=why[1])
        return True
    return False


def generate(seed, index):
    code = "import sys,json,runpy\nsys.argv=['x']\nsrc=open(%r).read().rsplit('main()',1)[0]\nns={}\nexec(src,ns)\nprint(json.dumps(ns['gen_program'](%d,%d)))" % (WORKER, seed, index)
    return json.loads(subprocess.run([PY, "-S", "-c", code], stdout=subprocess.PIPE, text=True, check=True, env=environment("pyopt")).stdout)


def check(res, seed, tier, deadline, scratch, log, scale=1.0):
    for i, (variant, cases) in enumerate(SPEC):
        n = max(8, int(cases * (12 if tier == "thorough" else 1) * scale))
        t = time.time() + (deadline - time.time()) * (0.6 if i + 1 < len(SPEC) else 0.95)
        if campaign(res, variant, n, i, seed, t, scratch, log):
            return


def replay(path):
    variant, prog = "pyopt", None
    for line in open(path):
        if line.startswith("variant "):
            variant = line.split()[1]
        if line.startswith("program "):
            prog = json.loads(line[8:])
    scratch = tempfile.mkdtemp(prefix="verif-C15-")
    try:
        r = run_one(variant, module(variant), prog, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("fails: %s\n%s" % r if r else "does not fail")
    return 1 if r else 0
