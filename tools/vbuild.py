"""Content-hash incremental build of /repo's sources against the stand-ins in
/verif/shim.  No timestamps: an object is reused only if the command and the
bytes of every file it was compiled from are the same."""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SRC = REPO + "/src"
JOBS = os.cpu_count() or 8
CXX = "clang++"
BASE = ["-std=gnu++17", "-O0", "-fPIC", "-msse4.1", "-w", "-Wno-enum-constexpr-conversion", "-pthread", "-DSPU_BUILD", "-DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1", "-DFMT_DEPRECATED_OSTREAM", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL",
        "-I" + VERIF + "/shim", "-I" + SRC, "-I" + OUT + "/gen", "-I/usr/include/eigen3",
        "-I/usr/lib/llvm-18/include"]
LIBS = ["-lprotobuf", "-lspdlog", "-lfmt", "-lcrypto"] + \
       subprocess.run("pkg-config --libs absl_strings absl_str_format absl_numeric absl_time absl_synchronization absl_hash absl_raw_hash_set",
                      shell=True, capture_output=True, text=True).stdout.split() + ["-pthread", "-ldl", "-lgomp"]

_h = {}


def fhash(p):
    """Hash of a file, not counting blank lines and lines that are only a // comment."""
    if p not in _h:
        try:
            with open(p, "rb") as f:
                t = f.read()
            if p.startswith(SRC):
                t = re.sub(rb"(?m)^[ \t]*(//(?!.*\\$).*)?\n", b"", t)
            _h[p] = hashlib.sha1(t).hexdigest()
        except OSError:
            _h[p] = "-"
    return _h[p]


class BuildError(Exception):
    pass


SKIP = ("_test.cc", "_bench.cc", "_benchmark.cc")
SKIP_DIR = ("/compiler/", "/dialect/", "/cuda_support/", "/cheetah/", "/device/pphlo/", "/device/utils/pphlo",
            "/mpc/tools/", "/tests/")
SKIP_FILE = ("kernel/test_util.cc", "arithmetic_gpu_ext.cc", "beaver_server_main.cc", "device/api.cc", "device/executor.cc", "mpc/api_test.cc")


def repo_sources():
    r = []
    for f in sorted(glob.glob(SRC + "/libspu/**/*.cc", recursive=True)):
        rel = f[len(SRC):]
        if rel.endswith(SKIP) or any(d in rel for d in SKIP_DIR) or rel.endswith(SKIP_FILE):
            continue
        r.append(f)
    ch = SRC + "/libspu/mpc/cheetah/"
    for pat in ("nonlinear/*.cc", "ot/*.cc", "type.cc"):
        r += [f for f in sorted(glob.glob(ch + pat)) if not f.endswith(SKIP)]
    return r


def gen_protos(out=None):
    g = OUT + "/gen"
    os.makedirs(g, exist_ok=True)
    ps = ["libspu/spu.proto"] + [p[len(SRC) + 1:] for p in glob.glob(SRC + "/libspu/mpc/semi2k/**/*.proto", recursive=True)]
    stamp = g + "/stamp"
    key = "".join(fhash(SRC + "/" + p) for p in ps) + "3"
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        r = subprocess.run(["protoc", "-I" + SRC, "--cpp_out=" + g] + ps, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("protoc: " + r.stderr)
        for q in ps:  # protobuf 3.21 parses std::string only; the code passes std::string_view
            h = g + "/" + q[:-6] + ".pb.h"
            t = re.sub(r"(\nclass \w+ final :\n    public ::PROTOBUF_NAMESPACE_ID::Message [^\n]*\{\n public:\n)",
                       r"\1  using ::PROTOBUF_NAMESPACE_ID::Message::ParseFromString;\n"
                       r"  bool ParseFromString(std::string_view s) { return ParseFromArray(s.data(), static_cast<int>(s.size())); }\n",
                       open(h).read())
            open(h, "w").write("#include <string_view>\n" + t)
        open(stamp, "w").write(key)
    return [g + "/" + p[:-6] + ".pb.cc" for p in ps]


def objpath(src, flags):
    t = hashlib.sha1((src + " " + " ".join(flags)).encode()).hexdigest()[:10]
    return "%s/obj/%s-%s.o" % (OUT, os.path.basename(src), t)


def key_of(cmd, deps):
    h = hashlib.sha1(json.dumps(cmd).encode())
    for d in sorted(deps):
        h.update(d.encode() + fhash(d).encode())
    return h.hexdigest()


def pch():
    """External headers only (no file of /repo), so it changes with this tool alone."""
    h, out = VERIF + "/tools/pch.h", OUT + "/pch.h.pch"
    cmd = [CXX] + BASE + ["-x", "c++-header", h, "-fpch-instantiate-templates", "-o", out]
    key = fhash(h) + json.dumps(cmd)
    if not (os.path.exists(out) and os.path.exists(out + ".key") and open(out + ".key").read() == key):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        open(out + ".key", "w").write(key)
    return out


def compile_one(src, flags=()):
    fl = BASE + (["-include-pch", OUT + "/pch.h.pch"] if not flags and not src.endswith(".pb.cc") else []) + list(flags)
    o = objpath(src, fl)
    cmd = [CXX] + fl + ["-c", src, "-o", o]
    meta = o + ".json"
    try:
        m = json.load(open(meta))
        if os.path.exists(o) and m["key"] == key_of(cmd, m["deps"]):
            return o, False
    except (OSError, ValueError, KeyError):
        pass
    r = subprocess.run(cmd + ["-MMD", "-MF", o + ".d"], capture_output=True, text=True)
    if r.returncode:
        if os.path.exists(meta):
            os.remove(meta)
        raise BuildError("%s\n%s" % (src, r.stderr[:4000]))
    txt = open(o + ".d").read().replace("\\\n", " ").split(":", 1)[1]
    deps = [os.path.normpath(d) for d in txt.split()]
    deps = [d for d in deps if not d.startswith("/usr/")]
    for d in deps:
        fhash(d)
    json.dump({"key": key_of(cmd, deps), "deps": deps}, open(meta, "w"))
    os.remove(o + ".d")
    return o, True


def compile_many(jobs, keep_going=False):
    """jobs: list of (src, flags). Returns objects (None where failed if keep_going)."""
    os.makedirs(OUT + "/obj", exist_ok=True)
    pch()
    errs, objs, n = [], [], 0

    def f(j):
        try:
            return compile_one(*j)
        except BuildError as e:
            return e
    with ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(f, sorted(jobs, key=lambda j: -os.path.getsize(j[0]))):
            if isinstance(r, BuildError):
                errs.append(str(r))
            else:
                objs.append(r[0])
                n += r[1]
    if errs and not keep_going:
        raise BuildError("\n".join(errs))
    return objs, n, errs


class Lock:
    def __enter__(self):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(OUT + "/lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def shim_sources():
    return sorted(glob.glob(VERIF + "/shim/**/*.cc", recursive=True))


def group_of(src):
    rel = src[len(SRC):] if src.startswith(SRC) else ""
    if "/libspu/core/" in rel or rel.endswith("/libspu/spu.cc"):
        return "core"
    if "/libspu/mpc/" in rel:
        return "mpc"
    if "/libspu/" in rel:
        return "top"
    return "base"


GROUPS = {"none": (), "core": ("core", "base"), "mpc": ("mpc", "core", "base"), "all": ("top", "mpc", "core", "base")}


def build_lib(group="all"):
    """Objects of a group of sources; a source that does not compile is left out, so only
    the executables that need it fail (at link time)."""
    if group == "none":
        return [], "", []
    srcs = [s for s in repo_sources() + gen_protos() + shim_sources() if group_of(s) in GROUPS[group]]
    objs, _, errs = compile_many([(s, ()) for s in srcs], keep_going=True)
    objs = sorted(objs)
    key = hashlib.sha1("".join(o + json.load(open(o + ".json"))["key"] for o in objs).encode()).hexdigest()
    lib = OUT + "/libspu_%s.a" % group
    kf = lib + ".key"
    if not (os.path.exists(lib) and os.path.exists(kf) and open(kf).read() == key):
        if os.path.exists(lib):
            os.remove(lib)
        r = subprocess.run(["ar", "rcsT", lib] + objs, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        open(kf, "w").write(key)
    return [lib], key, errs


def build_exe(name, srcs, flags=(), libs=(), group="all"):
    """Compile srcs, link with the library; returns the path of the executable."""
    lib, lkey, errs = build_lib(group)
    objs, _, _ = compile_many([(s, tuple(flags)) for s in srcs])
    exe = OUT + "/bin/" + name
    os.makedirs(OUT + "/bin", exist_ok=True)
    cmd = [CXX] + sorted(objs) + lib + list(libs) + LIBS + ["-o", exe]
    key = hashlib.sha1((lkey + json.dumps(cmd) + "".join(json.load(open(o + ".json"))["key"] for o in sorted(objs))).encode()).hexdigest()
    kf = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link %s: %s\n%s" % (name, r.stderr[-6000:], "\n".join(errs)[:8000]))
        open(kf, "w").write(key)
    return exe


if __name__ == "__main__":
    t = time.time()
    srcs = repo_sources() + gen_protos() + shim_sources()
    with Lock():
        _, n, errs = compile_many([(s, ()) for s in srcs], keep_going=True)
    for e in errs:
        ls = [l for l in e.split("\n") if "error" in l]
        print(e.split("\n")[0], *ls[:4], sep="\n   ")
    print(len(srcs), "sources", n, "compiled", len(errs), "failed", round(time.time() - t), "s")
