#!/usr/bin/env python3
"""Developer self-test: apply textual mutants / refactorings to a scratch copy of /repo/include and run a check.
Each entry: prop, name, file, [(old,new)...], expect ('V' violation, 'Q' quiet).  usage: mut.py [prop] [name-substr]"""
import os, shutil, subprocess, sys, importlib, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
ents = []
for f in sorted(glob.glob(os.path.join(HERE, "m_*.py"))):
    ents += importlib.import_module(os.path.basename(f)[:-3]).MUT
prop = sys.argv[1] if len(sys.argv) > 1 else ""
sub = sys.argv[2] if len(sys.argv) > 2 else ""
def one(e):
    p, name, file, subs, exp = e
    d = "/tmp/mutwork/%s-%s" % (p, name)
    shutil.rmtree(d, ignore_errors=True); shutil.copytree("/repo/include", d + "/include")
    fs = file if isinstance(file, list) else [file] * len(subs)
    for f, (a, b) in zip(fs, subs):
        q = d + "/include/parlay/" + f; s = open(q).read()
        if s.count(a) < 1: return (e, "NOAPPLY", "pattern not found: " + a[:60])
        s = s.replace(a, b, 1); open(q, "w").write(s)
    got = "Q"
    for pp in p.split("+"):   # several checks: one of them has to see it
        r = subprocess.run(["python3", os.path.join(ROOT, "check.py"), pp], env=dict(os.environ, VERIF_REPO=d, VERIF_EVID=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        g = {0: "Q", 1: "V"}.get(r.returncode, "B")
        if g == "V" or got == "Q": got = g
        if os.path.exists(d + "/" + pp + ".violation.json"):
            os.makedirs("/tmp/mutev", exist_ok=True); shutil.copy(d + "/" + pp + ".violation.json", "/tmp/mutev/%s@%s.json" % (p, name))
        if g == "V" or (g == "B" and exp == "Q"): break
    shutil.rmtree(d, ignore_errors=True)
    return (e, got, r.stdout[:int(os.environ.get("OUTLEN", "500"))])
if subprocess.run(["python3", os.path.join(ROOT, "check.py"), "--setup"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: sys.exit("setup failed")
bad = 0
with cf.ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    for e, got, out in ex.map(one, [e for e in ents if e[0].startswith(prop) and sub in e[1]]):
        ok = got == e[4]
        if not ok: bad += 1
        print("%s %-6s %-34s expected %s got %s" % ("ok  " if ok else "FAIL", e[0], e[1], e[4], got))
        if not ok or os.environ.get("V"): print("     " + out.replace("\n", "\n     "))
print("mismatches:", bad)
