# build.py LIB OUT SRC [flags...]: compiles SRC with the host part of /repo's Umpire (LIB=all) or its utilities (LIB=util)
import sys, os, re, subprocess, concurrent.futures as cf
lib, out, src = sys.argv[1:4]
extra = sys.argv[4:]
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
tmp = os.path.dirname(os.path.abspath(out))
S = repo + "/src"
on = ["UMPIRE_ENABLE_LOGGING", "UMPIRE_ENABLE_FILE_RESOURCE", "UMPIRE_ENABLE_IPC_SHARED_MEMORY", "UMPIRE_DISABLE_ALLOCATIONMAP_DEBUG"]
t = open(S + "/umpire/config.hpp.in").read()
t = re.sub(r"#cmakedefine (\w+)", lambda m: "#define " + m.group(1) if m.group(1) in on else "", t)
for k in ("MAJOR", "MINOR", "PATCH"):
    t = t.replace("@Umpire_VERSION_%s@" % k, "6")
t = t.replace("@UMPIRE_VERSION_RC@", "")
os.makedirs(tmp + "/inc/umpire", exist_ok=True)
open(tmp + "/inc/umpire/config.hpp", "w").write(t)
dirs = ["umpire/util"] if lib == "util" else ["umpire", "umpire/util", "umpire/strategy", "umpire/strategy/mixins", "umpire/resource", "umpire/op", "umpire/event", "umpire/interface/c_fortran"]
ex = re.compile(r"(Cuda|Hip|Sycl|OpenMP|Numa|numa|quest_|sqlite_|DeviceAllocator|device_allocator)")
srcs = [S + "/tpl/umpire/judy/judy.c"]
for d in dirs:
    srcs += [os.path.join(S, d, f) for f in sorted(os.listdir(os.path.join(S, d))) if f.endswith(".cpp") and not ex.search(f)]
srcs.insert(0, os.path.join(here, src))
inc = ["-I" + here, "-I" + S, "-I" + S + "/tpl", "-I" + tmp + "/inc"]
def one(i):
    s = srcs[i]
    o = "%s/o%d.o" % (tmp, i)
    c = ["gcc", "-std=gnu99"] if s.endswith(".c") else ["g++", "-std=c++14"]
    r = subprocess.run(c + ["-O0", "-g1", "-w", "-DNDEBUG", "-DFMT_HEADER_ONLY"] + extra + inc + ["-c", s, "-o", o])
    if r.returncode:
        sys.exit("compile failed: " + s)
    return o
with cf.ThreadPoolExecutor(8) as p:
    objs = list(p.map(one, range(len(srcs))))
sys.exit(subprocess.run(["g++"] + extra + objs + ["-o", out, "-lpthread", "-ldl", "-lrt"]).returncode)
