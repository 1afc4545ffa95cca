#!/usr/bin/env python3
"""mkseed.py DEF.py...: each DEF defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ source),
LIB ('all'|'util'), FLAGS.  Creates seeded/<ID>/, confirms it against /repo (build, stable tests, demo on both trees)
and runs the property's quick check on the changed tree.  Leaves /repo as it was."""
import sys, os, json, shutil, subprocess, time
V = "/verif"; R = "/repo"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def stable():
    r = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    o = json.load(open("/tmp/seedtest.json")); b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = [x for x in b if x not in o["passed"]]
    return bad, r.stdout[-1500:]
def main():
    res = []
    for f in sys.argv[1:]:
        if f.startswith("--"): continue
        d = dict(LIB="all", FLAGS="", EXTRA={})
        exec(open(f).read(), d)
        dst = V + "/seeded/" + d["ID"]
        shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
        assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
        try:
            for p, old, new in d["EDITS"]:
                q = R + "/" + p; t = open(q).read()
                assert t.count(old) == 1, (d["ID"], p, t.count(old), old)
                open(q, "w").write(t.replace(old, new))
            open(dst + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        finally:
            sh("git -C /repo checkout -- .")
        K = V + "/tools/seedkit"
        shutil.copytree(K + "/camp", dst + "/camp"); shutil.copy(K + "/build.py", dst)
        s = open(K + "/demo.sh").read().replace("@LIB@", d["LIB"]).replace("@FLAGS@", d["FLAGS"])
        open(dst + "/demo.sh", "w").write(s)
        open(dst + "/demo.cpp", "w").write(d["DEMO"].lstrip())
        for n, c in d["EXTRA"].items(): open(dst + "/" + n, "w").write(c)
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(dst + "/meta.json", "w"), indent=1)
        line = [d["ID"], d["PROPERTY"]]
        r = sh("bash %s/demo.sh" % dst, cwd=R)
        line.append("clean-demo=%d" % r.returncode)
        if r.returncode: print(r.stdout[-1500:])
        try:
            r = sh("git -C /repo apply %s/patch.diff" % dst); assert r.returncode == 0, r.stdout
            bad, log = stable(); line.append("tests=%s" % ("ok" if not bad else bad))
            if bad: print(log)
            r = sh("bash %s/demo.sh" % dst, cwd=R); line.append("bug-demo=%d" % r.returncode)
            print(r.stdout[-300:])
            t = time.time()
            r = sh("python3 check.py %s quick" % d["PROPERTY"], cwd=V)
            line.append("check=%d (%.0fs)" % (r.returncode, time.time() - t))
            print("\n".join(r.stdout.splitlines()[-4:]))
        finally:
            sh("git -C /repo checkout -- ."); 
        print("RESULT", *line, flush=True); res.append(line)
    sh("bash /opt/vp/build.sh")
    print("----"); [print(*x) for x in res]
main()
