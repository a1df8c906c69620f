"""Content-addressed incremental build of /repo's sources for the simulator."""
import glob, hashlib, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
OUT = os.environ.get("DST_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("DST_JOBS", "0")) or max(2, os.cpu_count() or 2)

INC = ["-I" + REPO + "/src/include", "-I" + REPO + "/src/kenlm", "-I" + REPO + "/src", "-I" + REPO + "/src/marisa", "-I" + REPO + "/src/liblbfgs", "-I" + REPO + "/src/tercpp",
       "-I" + REPO + "/src/include/travatar", "-I" + VERIF + "/dsim/fallback", "-I" + VERIF + "/dsim/fallback/travatar"]
BASE = ["-g1", "-fno-pie", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-DHAVE_CONFIG_H", "-DKENLM_MAX_ORDER=6", "-DTRAVATAR_SIMULATION", "-w"]
TSAN = ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
REPO_CXX = ["g++", "-std=c++11", "-O1", "-include", "map"] + BASE + TSAN + INC
REPO_C = ["gcc", "-O1"] + BASE + ["-fsanitize=thread"] + INC
RT_CXX = ["g++", "-std=gnu++17", "-O2", "-g1", "-fno-pie", "-w", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-builtin-malloc", "-U_FORTIFY_SOURCE", "-I" + VERIF + "/dsim"]
# harness code: plain (uninstrumented) but able to include /repo headers -> such parts must be compiled instrumented
HARN_CXX = ["g++", "-std=gnu++17", "-O1", "-include", "map", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + BASE + ["-I" + VERIF + "/dsim", "-I" + VERIF + "/harness/common"] + INC
HARN_TSAN = ["g++", "-std=gnu++14", "-O1", "-include", "map"] + BASE + TSAN + ["-I" + VERIF + "/dsim", "-I" + VERIF + "/harness/common"] + INC
LIBS = ["-lboost_program_options", "-lboost_thread", "-lboost_regex", "-lboost_iostreams", "-lboost_system", "-lboost_locale", "-lz",
        "-licui18n", "-licuuc", "-licudata", "-lrt", "-lpthread", "-ldl"]

def _skip(p):
    b = os.path.basename(p)
    return b.endswith("_test.cc") or b.endswith("_main.cc") or b.startswith("test-")

def repo_sources():
    s = REPO + "/src"
    g = []
    for pat in ["lib/*.cc", "kenlm/util/*.cc", "kenlm/util/stream/*.cc", "kenlm/util/double-conversion/*.cc", "kenlm/lm/*.cc",
                "kenlm/lm/builder/*.cc", "kenlm/lm/filter/*.cc", "kenlm/search/*.cc", "tercpp/*.cpp", "liblbfgs/*.c"]:
        g += sorted(glob.glob(os.path.join(s, pat)))
    for root, _, files in os.walk(s + "/marisa"):
        g += [os.path.join(root, f) for f in sorted(files) if f.endswith(".cc")]
    return [p for p in g if not _skip(p)]

def sha(path, cache={}):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in cache:
        with open(path, "rb") as f:
            cache[k] = hashlib.sha256(f.read()).hexdigest()[:24]
    return cache[k]

def ours(p):
    return p.startswith(REPO + "/") or p.startswith(VERIF + "/")

class BuildError(Exception):
    pass

def compile_one(src, cmd, tag, objcopy, cache_by_content=True):
    name = tag + "__" + os.path.relpath(src, "/").replace("/", "_")
    metaf = os.path.join(OUT, "obj", name + ".json")
    flagh = hashlib.sha256(" ".join(cmd + (objcopy if isinstance(objcopy, list) else [])).encode()).hexdigest()[:16]
    metas = []
    try:
        metas = json.load(open(metaf))
    except Exception:
        pass
    for m in metas:
        if m["flags"] == flagh and all(sha(p) == h for p, h in m["deps"].items()) and os.path.exists(os.path.join(OUT, "obj", m["obj"])):
            return os.path.join(OUT, "obj", m["obj"])
    tmp = os.path.join(OUT, "obj", "%s.tmp%d" % (name, os.getpid()))
    r = subprocess.run(cmd + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
    if objcopy:
        subprocess.run(["objcopy", "--redefine-sym", "memcpy=dsim_memcpy", "--redefine-sym", "memmove=dsim_memmove", "--redefine-sym", "memset=dsim_memset"] + (objcopy if isinstance(objcopy, list) else []) + [tmp + ".o"], check=True)
    deps = {}
    text = open(tmp + ".d").read().replace("\\\n", " ")
    for p in text.split(":", 1)[1].split():
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        if ours(p):
            deps[p] = sha(p)
    h = hashlib.sha256((flagh + json.dumps(sorted(deps.items()))).encode()).hexdigest()[:20]
    obj = "%s-%s.o" % (name, h)
    os.replace(tmp + ".o", os.path.join(OUT, "obj", obj))
    os.unlink(tmp + ".d")
    metas = [{"flags": flagh, "deps": deps, "obj": obj}] + [m for m in metas if m["obj"] != obj]
    for m in metas[5:]:
        try:
            os.unlink(os.path.join(OUT, "obj", m["obj"]))
        except OSError:
            pass
    with open(metaf + ".tmp", "w") as f:
        json.dump(metas[:5], f)
    os.replace(metaf + ".tmp", metaf)
    return os.path.join(OUT, "obj", obj)

# harness name -> (instrumented harness sources, extra flags per source)
def mains():
    m = {}
    b = REPO + "/src/bin/"
    for f in sorted(glob.glob(b + "*.cc")):
        if os.path.basename(f) == "tune-travatar.cc":      # not part of the repository's own build (a header is missing)
            continue
        n = os.path.basename(f)[:-3].replace("-", "_")
        m[n + "_main"] = f
    m["lmplz_main"] = REPO + "/src/kenlm/lm/builder/lmplz_main.cc"
    m["build_binary_main"] = REPO + "/src/kenlm/lm/build_binary_main.cc"
    m["query_main"] = REPO + "/src/kenlm/lm/query_main.cc"
    m["filter_main"] = REPO + "/src/kenlm/lm/filter/filter_main.cc"
    return m

def jobs_for(harness):
    """list of (src, cmd, tag, objcopy)"""
    js = []
    for f in sorted(glob.glob(VERIF + "/dsim/*.cc")):
        js.append((f, RT_CXX, "rt", False))
    for f in sorted(glob.glob(VERIF + "/harness/common/*.cc")):
        js.append((f, HARN_CXX, "hc", False))
    for f in sorted(glob.glob("%s/harness/%s/*.cc" % (VERIF, harness))):
        if os.path.basename(f).startswith("t_"):     # drives /repo templates: instrumented
            js.append((f, HARN_TSAN, "ht", True))
        else:
            js.append((f, HARN_CXX, "hc", False))
    for f in repo_sources():
        if f.endswith(".c"):
            js.append((f, REPO_C, "repo", True))
        else:
            js.append((f, REPO_CXX, "repo", True))
    for n, f in mains().items():
        if os.path.exists(f):
            # compiled as main (which gets its implicit "return 0"), renamed in the object file
            js.append((f, REPO_CXX, "main", ["--redefine-sym", "main=_Z%d%siPPc" % (len(n), n)]))
    return js

def build(harness, verbose=False):
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    js = jobs_for(harness)
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), js))
    key = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:20]
    exe = os.path.join(OUT, "%s-%s" % (harness, key))
    if not os.path.exists(exe):
        for old in sorted(glob.glob(os.path.join(OUT, harness + "-*")), key=os.path.getmtime)[:-3]:
            os.unlink(old)
        rt = [o for o, j in zip(objs, js) if j[2] in ("rt", "hc")]
        ht = [o for o, j in zip(objs, js) if j[2] == "ht"]
        # The runtime and the oracles are not instrumented: give them private copies of every template
        # instantiation, so that the linker never substitutes theirs for the instrumented ones.
        comb = exe + ".tmp%d.o" % os.getpid()
        subprocess.run(["ld", "-r", "-o", comb] + rt, check=True)
        weak = [l.split()[-1] for l in subprocess.run(["nm", "--defined-only", comb], capture_output=True, text=True, check=True).stdout.splitlines() if l.split()[-2] in ("W", "V", "u", "w", "v")]
        with open(comb + ".sym", "w") as f:
            f.write("\n".join(weak))
        subprocess.run(["objcopy", "--remove-section=.group", "--localize-symbols=" + comb + ".sym", comb], check=True)
        os.unlink(comb + ".sym")
        rt = [comb] + ht
        lib = [o for o, j in zip(objs, js) if j[2] in ("repo", "main")]
        arch = exe + ".tmp.%d.a" % os.getpid()
        if os.path.exists(arch):
            os.unlink(arch)
        subprocess.run(["ar", "rcs", arch] + lib, check=True)
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++", "-no-pie", "-g1", "-o", tmp] + rt + ["-Wl,--start-group", arch, "-Wl,--end-group"] + LIBS, capture_output=True, text=True)
        os.unlink(arch)
        os.unlink(comb)
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (harness, r.stderr[-4000:]))
        os.replace(tmp, exe)
    return exe

def harnesses():
    return sorted(d for d in os.listdir(VERIF + "/harness") if d != "common" and os.path.isdir(VERIF + "/harness/" + d))

if __name__ == "__main__":
    for h in sys.argv[1:] or harnesses():
        print(build(h))
