"""Builds the host part of Umpire straight from /repo's working tree, plus a harness.

Object files are cached under /verif/_build keyed by the *contents* of the
translation unit, of every header below /repo/src and /verif's own headers, and
of the command line, so a stale object can never be used.
"""
import hashlib, os, re, subprocess, sys, concurrent.futures, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # the variable is for experiments with changed copies
SRC = REPO + "/src"
BUILD = os.path.join(VERIF, "_build")
HDR = (".hpp", ".h", ".inl", ".hh", ".in", ".inc")

EXCL = re.compile(r"(Cuda|Hip|Sycl|OpenMP|Numa|numa|quest_|sqlite_|DeviceAllocator|device_allocator)")

VARIANTS = {
    # the configuration of the stable build: RelWithDebInfo => NDEBUG
    "rel": dict(cxx="g++", cc="gcc", cflags=["-O1", "-DNDEBUG"], ldflags=[]),
    "asan": dict(cxx="g++", cc="gcc", cflags=["-O1", "-DNDEBUG", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
                 ldflags=["-fsanitize=address"]),
    # instrumented by clang's thread sanitizer pass, linked against the
    # controlled scheduler's own runtime instead of libtsan
    "sched": dict(cxx="clang++", cc="clang", cflags=["-O1", "-DNDEBUG", "-g1", "-fsanitize=thread"],
                  ldflags=[], nosan_link=True),
}

CONFIG_ON = ["UMPIRE_ENABLE_LOGGING", "UMPIRE_ENABLE_FILE_RESOURCE", "UMPIRE_ENABLE_IPC_SHARED_MEMORY",
             "UMPIRE_DISABLE_ALLOCATIONMAP_DEBUG"]


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def make_config(incdir):
    text = open(SRC + "/umpire/config.hpp.in").read()
    m = re.search(r"project\(Umpire[^)]*VERSION ([0-9.]+)", open(REPO + "/CMakeLists.txt").read())
    v = (m.group(1) if m else "2024.02.0").split(".")
    v = [str(int(x)) for x in v] + ["0"] * 3

    def cdef(mm):
        n = mm.group(1)
        return "#define " + n if n in CONFIG_ON else "/* #undef %s */" % n
    text = re.sub(r"#cmakedefine (\w+)", cdef, text)
    for k, x in (("MAJOR", v[0]), ("MINOR", v[1]), ("PATCH", v[2])):
        text = text.replace("@Umpire_VERSION_%s@" % k, x)
    text = text.replace("@UMPIRE_VERSION_RC@", "")
    out = os.path.join(incdir, "umpire", "config.hpp")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out) or open(out).read() != text:
        tmp = out + ".%d" % os.getpid()
        open(tmp, "w").write(text)
        os.replace(tmp, out)
    return text


def lib_sources(which="all"):
    """Source files of the host library (relative to /repo/src)."""
    out = ["tpl/umpire/judy/judy.c"]
    dirs = ["umpire/util"] if which == "util" else \
        ["umpire", "umpire/util", "umpire/strategy", "umpire/strategy/mixins", "umpire/resource", "umpire/op",
         "umpire/event", "umpire/interface/c_fortran"]
    for d in dirs:
        full = os.path.join(SRC, d)
        for f in sorted(os.listdir(full)):
            if f.endswith(".cpp") and not EXCL.search(f):
                out.append(d + "/" + f)
    return out


def header_digest():
    h = hashlib.sha256()
    roots = [SRC, REPO + "/tools", os.path.join(VERIF, "stub"), os.path.join(VERIF, "harness")]
    for r in roots:
        for dp, dn, fn in os.walk(r):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(HDR):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    h.update(_read(p))
    return h.hexdigest()


def build(name, harness, variant="rel", lib="all", extra_cflags=(), ldflags=(), libs=(), jobs=8, nosan=(),
          tools=()):
    """Compile library + harness sources; returns the path of the executable.
    nosan: harness files compiled without the variant's sanitizer flag.
    tools: further files of the repository, as (path below it, name its main function gets)."""
    v = VARIANTS[variant]
    inc = os.path.join(BUILD, "include")
    cfg = make_config(inc)
    hd = header_digest() + _sha(cfg)
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    incs = ["-I" + VERIF + "/stub", "-I" + VERIF + "/harness", "-I" + SRC, "-I" + SRC + "/tpl", "-I" + inc]
    base = ["-DFMT_HEADER_ONLY", "-w", "-fPIC", "-ffunction-sections", "-fdata-sections"] + v["cflags"] + list(extra_cflags)
    units = []
    for s in lib_sources(lib):
        units.append((os.path.join(SRC, s), base))
    for s in harness:
        p = os.path.join(VERIF, "harness", s)
        fl = [x for x in base if not (s in nosan and x.startswith("-fsanitize"))]
        units.append((p, fl))
    for s, entry in tools:
        units.append((os.path.join(REPO, s), base + (["-Dmain=" + entry] if entry else [])))

    def compile_one(u):
        path, flags = u
        if path.endswith(".c"):
            cmd = [v["cc"], "-std=gnu99"] + flags + incs + ["-c", path]
        else:
            cmd = [v["cxx"], "-std=c++14"] + flags + incs + ["-c", path]
        if path.startswith(VERIF):
            cmd[1:2] = ["-std=c++17", "-fno-access-control"] if path.endswith(".cpp") else [cmd[1]]
        key = _sha(" ".join(cmd), _read(path), hd)
        o = os.path.join(objdir, key + ".o")
        if os.path.exists(o):
            return o
        tmp = o + ".%d.tmp.o" % os.getpid()
        r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        os.replace(tmp, o)
        return o

    # largest first for better packing
    units.sort(key=lambda u: -(os.path.getsize(u[0]) + (10**7 if u[0].startswith(VERIF) else 0)))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(compile_one, units))
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(bindir, exist_ok=True)
    exe = os.path.join(bindir, name + "-" + variant)
    link = [v["cxx"]] + sorted(set(objs), key=objs.index) + v["ldflags"] + list(ldflags) + \
        ["-Wl,--gc-sections", "-o", exe + ".tmp", "-ldl", "-lpthread", "-lrt"] + list(libs)
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("link failed: %s\n%s" % (" ".join(link[:1] + link[-20:]), r.stdout[-4000:]))
    os.replace(exe + ".tmp", exe)
    return exe


if __name__ == "__main__":
    # setup: check that the tools are there and that the library's sources are found
    for t in ("g++", "gcc", "clang++", "clang"):
        if not shutil.which(t):
            sys.exit("missing " + t)
    print("%d library sources, tools present" % len(lib_sources()))
