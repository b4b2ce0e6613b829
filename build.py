"""Builds harness binaries from /repo's current working tree.

Every object is cached in /verif/build under a key made of the compiler command
and the contents of the source file and of every header it could include, so a
change to /repo is always picked up and nothing else is rebuilt.
"""
import glob, hashlib, os, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,nonnull-attribute", "-fno-sanitize-recover=undefined",
       "-fno-omit-frame-pointer"]
# name: compiler, flags, configuration (full_unicode, sparse hash)
VARIANTS = {
    "asan": dict(cxx="clang++", flags=["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"] + SAN, cfg="utf16", lib=["-ftrivial-auto-var-init=pattern"]),
    "asanfu": dict(cxx="clang++", flags=["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"] + SAN, cfg="utf32", lib=["-ftrivial-auto-var-init=pattern"]),
    "opt": dict(cxx="g++", flags=["-O2"], cfg="utf16"),
    "optfu": dict(cxx="g++", flags=["-O2"], cfg="utf32"),
    "optnh": dict(cxx="g++", flags=["-O2"], cfg="utf16nohash"),
    "big": dict(cxx="g++", flags=["-O2", "-DPBT_BIG"], cfg="utf16"),
    "ndebug": dict(cxx="g++", flags=["-O3", "-DNDEBUG"], cfg="utf16"),
    # The library itself is not optimised: a static variable that is always written before it is read would be optimised away.
    "tsan": dict(cxx="clang++", flags=["-O1", "-g1", "-fsanitize=thread"], cfg="utf16", lib=["-O0"]),
    "fuzz": dict(cxx="clang++", flags=["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=fuzzer-no-link", "-DPBT_FUZZ"] + SAN, cfg="utf16"),
}
LIBS = ["-licuuc", "-licudata", "-lpthread"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError("%s failed: %s\n%s" % (what, " ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def config(name):
    """Directory holding ColumbusCore.hh generated by the project's own CMake files."""
    src = b"2" + b"".join(read(p) for p in sorted(glob.glob(REPO + "/CMakeLists.txt") + glob.glob(REPO + "/*/CMakeLists.txt")
                                            + glob.glob(REPO + "/cmake/*") + glob.glob(REPO + "/include/*.in")) if os.path.isfile(p))
    out = os.path.join(BUILD, "cfg-%s-%s" % (name, sha(src)))
    if os.path.exists(out + "/include/ColumbusCore.hh"):
        return out + "/include"
    tmp = out + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
    cmd = ["cmake", "-S", REPO, "-B", tmp, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
           "-Denable_tests=OFF", "-DCMAKE_INSTALL_PREFIX=/verif-installed", "-DBOOST_PYTHON_HACK=/usr/lib/x86_64-linux-gnu/libboost_python312.so"]
    if name in ("utf32", "utf32hash"):
        cmd.append("-Dfull_unicode=ON")
    if name in ("utf32", "utf16nohash"):
        cmd.append("-DHAS_SPARSE_HASH=HAS_SPARSE_HASH-NOTFOUND")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    hdr = tmp + "/include/ColumbusCore.hh"
    if not os.path.exists(hdr):
        raise BuildError("cmake configuration failed:\n" + r.stdout[-4000:])
    if name in ("utf32", "utf16nohash"):
        # find_file re-searches a NOTFOUND entry, so switch the option off in the generated header.
        t = open(hdr).read().replace("#define HAS_SPARSE_HASH", "/* HAS_SPARSE_HASH off */")
        open(hdr, "w").write(t)
    # The built-in data directory becomes one that a check can create below its working directory.
    t = open(hdr).read()
    open(hdr, "w").write(t.replace('"/verif-installed', '"verif-installed'))
    keep = out + ".keep%d" % os.getpid()
    os.makedirs(keep + "/include", exist_ok=True)
    for f in os.listdir(tmp + "/include"):
        if f.endswith((".hh", ".h")):
            shutil.copy(os.path.join(tmp, "include", f), keep + "/include/")
    shutil.rmtree(tmp, ignore_errors=True)
    try:
        os.rename(keep, out)
    except OSError:
        shutil.rmtree(keep, ignore_errors=True)
    return out + "/include"


def headers_hash(inc):
    fs = sorted(glob.glob(REPO + "/include/*") + glob.glob(REPO + "/src/*.h*") + glob.glob(HARNESS + "/*.hh") + glob.glob(inc + "/*")
                + glob.glob(HARNESS + "/props/*.hh"))
    return sha(*[x for f in fs if os.path.isfile(f) for x in (os.path.basename(f), read(f))])


def compile_many(jobs):
    """jobs: list of (cmd, src, hdrhash) -> object paths, compiled in parallel."""
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)

    def one(job):
        cmd, src, hh = job
        obj = os.path.join(objdir, "%s-%s.o" % (os.path.basename(src).replace(".", "_"), sha(" ".join(cmd), src, hh, read(src))))
        if not os.path.exists(obj):
            tmp = obj + ".%d.%d" % (os.getpid(), id(job))
            run(cmd + ["-c", src, "-o", tmp], "compiling " + src)
            os.rename(tmp, obj)
        return obj
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        return list(ex.map(one, jobs))


def lib_sources(exclude=()):
    return [f for f in sorted(glob.glob(REPO + "/src/*.cc")) if os.path.basename(f) not in exclude]


def base_cmd(v, inc, std):
    return [v["cxx"], "-std=" + std, "-w"] + v["flags"] + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + inc, "-I" + HARNESS]


def binary(prop, variant, extra_flags=(), extra_link=(), sources=None, lib_extra=(), lib_exclude=()):
    """Returns the path of the harness binary of a property in a variant."""
    v = VARIANTS[variant]
    inc = config(v["cfg"])
    hh = headers_hash(inc)
    props = sources or ["props/%s.cc" % prop.lower()]
    jobs = []
    for s in lib_sources(lib_exclude):
        jobs.append((base_cmd(v, inc, "c++11") + v.get("lib", []) + list(lib_extra), s, hh))
    for s in props + ["pbt.cc"]:
        jobs.append((base_cmd(v, inc, "c++17") + list(extra_flags), os.path.join(HARNESS, s), hh))
    objs = compile_many(jobs)
    return link(v, prop + "-" + variant, objs, list(extra_link))


# The configurations compared by C19, each a shared object that hides everything but its entry point.
ENGINES = {
    "u16": dict(cxx="g++", flags=["-O0"], cfg="utf16"),
    "u16n": dict(cxx="g++", flags=["-O3", "-DNDEBUG"], cfg="utf16"),
    "u16m": dict(cxx="g++", flags=["-O2"], cfg="utf16nohash"),
    "u32": dict(cxx="g++", flags=["-O1"], cfg="utf32"),
    "u32n": dict(cxx="clang++", flags=["-O2", "-DNDEBUG"], cfg="utf32hash"),
}


def engines():
    """Builds the shared objects of all configurations; returns their paths."""
    jobs, count = [], {}
    for name, v in ENGINES.items():
        inc = config(v["cfg"])
        hh = headers_hash(inc)
        cmd = base_cmd(v, inc, "c++11") + ["-fPIC", "-ffp-contract=off"]
        srcs = lib_sources(("ColumbusCAPI.cc",))
        jobs += [(cmd, s, hh) for s in srcs] + [(cmd + ["-DENGINE=engine_run_" + name], os.path.join(HARNESS, "props/c19_engine.cc"), hh)]
        count[name] = len(srcs) + 1
    objs = compile_many(jobs)
    ver = os.path.join(BUILD, "engine.map")
    with open(ver + ".%d" % os.getpid(), "w") as f:
        f.write("{ global: engine_run_*; local: *; };\n")
    os.rename(ver + ".%d" % os.getpid(), ver)
    r, at = [], 0
    for name, v in ENGINES.items():
        mine, at = objs[at:at + count[name]], at + count[name]
        out = os.path.join(BUILD, "bin", "engine-%s-%s.so" % (name, sha(*mine)))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if not os.path.exists(out):
            tmp = out + ".%d" % os.getpid()
            run([v["cxx"], "-shared", "-Wl,--version-script=" + ver, "-Wl,-soname=" + os.path.basename(out)] + mine + LIBS + ["-o", tmp], "linking engine " + name)
            os.rename(tmp, out)
        r.append(out)
    return r


def tools(variant):
    """Builds the programs of tools/ with a stand-in for the widgets; returns name -> path."""
    v = VARIANTS[variant]
    inc = config(v["cfg"])
    hh = headers_hash(inc)
    def pkg(what):
        return run(["pkg-config", what, "gtk+-3.0"], "asking for GTK+").split()
    gtk, double = pkg("--cflags"), os.path.join(HARNESS, "tools/gtkdouble.cc")
    lib = lib_sources()
    jobs = [(base_cmd(v, inc, "c++11"), s, hh) for s in lib]
    jobs.append((base_cmd(v, inc, "c++17") + gtk, double, hh))
    progs = sorted(glob.glob(REPO + "/tools/*.cc"))
    jobs += [(base_cmd(v, inc, "c++11") + gtk + ["-DG_DISABLE_CAST_CHECKS"], s, hh) for s in progs]
    objs = compile_many(jobs)
    r = {}
    for s, o in zip(progs, objs[len(lib) + 1:]):
        name = os.path.basename(s)[:-3]
        gui = b"gtk/gtk.h" in read(s)
        r[name] = link(v, "tool-%s-%s" % (name, variant), objs[:len(lib)] + ([objs[len(lib)]] if gui else []) + [o], pkg("--libs") + ["-ldl"] if gui else [])
    return r


def link(v, name, objs, extra):
    flags = [f for f in v["flags"] if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
    if "-DPBT_FUZZ" in v["flags"]:
        flags = [f.replace("fuzzer-no-link", "fuzzer") for f in flags]
    out = os.path.join(BUILD, "bin", "%s-%s" % (name, sha(*objs, *extra)))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        run([v["cxx"]] + flags + objs + extra + LIBS + ["-o", tmp], "linking " + name)
        os.rename(tmp, out)
    return out


def prune(max_bytes=1500 << 20):
    """Keeps the cache bounded: drops the oldest objects and binaries."""
    fs = []
    for d in ("obj", "bin"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            st = os.stat(f)
            fs.append((st.st_mtime, st.st_size, f))
    total = sum(x[1] for x in fs)
    for m, s, f in sorted(fs):
        if total < max_bytes:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        total -= s
