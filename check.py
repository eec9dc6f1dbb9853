#!/usr/bin/env python3
"""Static-analysis checks for parlaylib.

  check.py <property> [--tier quick|thorough]     run one property's check
  check.py --all [--tier ...]                     run every claimed property
  check.py --setup                                build the analysers

exit 0: holds (or only known findings); 1: VIOLATION; 2: the analysis could not run
"""
import argparse, concurrent.futures as cf, hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
sys.path.insert(0, os.path.join(ROOT, "lib"))
from spec import CHECKS  # noqa: E402

CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
BASE_FLAGS = ["-std=c++17", "-DNDEBUG", "-w", "-pthread", "-fno-access-control", "-I", INC]
IR_FLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm", "-c"]


class Broken(Exception):
    pass


def tool_dir():
    src = os.path.join(ROOT, "tools", "plint")
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        with open(os.path.join(src, f), "rb") as fh:
            h.update(f.encode()); h.update(fh.read())
    return os.path.join(ROOT, "build", "plint-" + h.hexdigest()[:16])


def build_tool():
    out = tool_dir()
    exe = os.path.join(out, "plint")
    if os.path.exists(exe):
        return exe
    tmp = out + ".%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    r = subprocess.run(["make", "-C", os.path.join(ROOT, "tools", "plint"), "-j8", "OUT=" + tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    if r.returncode != 0 or not os.path.exists(exe):
        raise Broken("building plint failed:\n" + r.stdout[-3000:])
    return exe


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


BC, BCLOCK = {}, threading.Lock()


def bitcode(part, tmp):
    """Compile a driver once per set of flags; parts that analyse different functions of it share the result."""
    flags = BASE_FLAGS + IR_FLAGS + ([] if part.get("exceptions") else ["-fno-exceptions"]) + part.get("flags", [])
    key = (tmp, part["driver"], tuple(flags))
    with BCLOCK:
        ent = BC.setdefault(key, {"lock": threading.Lock(), "n": len(BC)})
    with ent["lock"]:
        if "bc" not in ent:
            drv = os.path.join(ROOT, "drivers", part["driver"])
            bc = os.path.join(tmp, "%s-%d.bc" % (part["driver"], ent["n"]))
            r = run([CLANG] + flags + [drv, "-o", bc])
            ent["bc"] = bc
            ent["err"] = r.stderr[:3000] if r.returncode else ""
        if ent["err"]:
            raise Broken("driver %s does not compile against the current tree:\n%s" % (part["driver"], ent["err"]))
        return ent["bc"]


def part_plint(part, tmp):
    exe = build_tool()
    bc = bitcode(part, tmp)
    env = dict(os.environ); env.update(part.get("env", {}))
    r = run([exe, part["rule"], bc], env=env)
    if r.returncode != 0:
        raise Broken("plint %s failed (%d): %s" % (part["rule"], r.returncode, r.stderr[-2000:]))
    d = json.loads(r.stdout)
    viol = [dict(o, part=part["rule"]) for o in d["obligations"] if not o["ok"]]
    if d["broken"] and not viol:
        raise Broken("; ".join(d["broken"]))
    for k, m in part.get("min", {}).items():
        if d["counts"].get(k, 0) < m and not viol:
            raise Broken("rule %s: only %d instances of '%s' (at least %d expected): anchor vanished?"
                         % (part["rule"], d["counts"].get(k, 0), k, m))
    return {"kind": "ir-rule", "rule": part["rule"], "driver": part["driver"] + (":" + part["env"]["ONLY"] if "env" in part else ""), "obligations": len(d["obligations"]),
            "counts": d["counts"], "functions": d["functions"], "rules": sorted({o["rule"] for o in d["obligations"]}),
            "violations": viol, "undecided": d.get("undecided", []), "detail": [[o["rule"], o["where"], o["ok"]] for o in d["obligations"]]}


def part_witness(part, tmp):
    """Type-level witnesses. Every '//@ok name' / '//@fail name [regex]' section of the file is one program."""
    import re
    path = os.path.join(ROOT, "witness", part["file"])
    common, cases, cur = [], [], None
    for line in open(path):
        m = re.match(r"//@(ok|fail)\s+(\S+)\s*(.*)$", line)
        if m:
            cur = {"kind": m.group(1), "name": m.group(2), "arg": m.group(3).strip(), "body": []}
            cases.append(cur)
        elif cur is None:
            common.append(line)
        else:
            cur["body"].append(line)
    flags = BASE_FLAGS + ["-fsyntax-only", "-ferror-limit=20", "-ftemplate-backtrace-limit=0"] + part.get("flags", [])
    jobs = []
    for c in cases:
        f = os.path.join(tmp, "w_" + c["name"] + ".cpp")
        with open(f, "w") as fh:
            fh.write("".join(common) + '\n#line 1 "%s"\n' % c["name"] + "".join(c["body"]))
        jobs.append((c, f))
    viol, detail, broken = [], [], []
    # control: the common prelude alone must compile
    f0 = os.path.join(tmp, "w__prelude.cpp")
    with open(f0, "w") as fh:
        fh.write("".join(common))
    r0 = run([CLANG] + [x for x in flags if x != "-DX"] + [f0])
    if r0.returncode != 0:
        raise Broken("witness prelude of %s does not compile:\n%s" % (part["file"], r0.stderr[:2000]))

    def one(job):
        c, f = job
        return c, run([CLANG] + flags + [f])
    with cf.ThreadPoolExecutor(8) as ex:
        for c, r in ex.map(one, jobs):
            ok = r.returncode == 0
            firsterr = next((l for l in r.stderr.splitlines() if "error:" in l), "")
            if c["kind"] == "ok":
                good = ok
                msg = "program that relies only on the property's guarantees no longer compiles: " + firsterr[:400]
            else:
                good = (not ok) and (not c["arg"] or re.search(c["arg"], r.stderr) is not None)
                msg = ("a program that breaks the property is accepted" if ok else
                       "rejected for another reason: " + firsterr[:300])
                if not ok and not good:
                    broken.append("%s: %s" % (c["name"], msg))
            notes = [l for l in r.stderr.splitlines() if "include/parlay/" in l]
            wh = notes[0].split(": ")[0] if notes else c["name"]
            detail.append(["witness-" + c["kind"], c["name"], good])
            if not good and not (c["kind"] == "fail" and not ok):
                viol.append({"rule": "witness-" + c["kind"], "where": wh, "ok": False, "msg": c["name"] + ": " + msg, "part": part["file"]})
    if broken and not viol:
        raise Broken("; ".join(broken))
    return {"kind": "type-witness", "rule": part["file"], "driver": part["file"], "obligations": len(detail),
            "counts": {"programs": len(detail)}, "functions": [], "rules": [d[1] for d in detail], "violations": viol, "detail": detail}


PARTS = {"plint": part_plint, "witness": part_witness}


def known():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                out.append(json.loads(l))
    return out


def check(pid, tier):
    t0 = time.time()
    spec = CHECKS[pid]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        parts = [p for p in spec["parts"] if tier == "thorough" or not p.get("thorough_only")]
        results, broken = [], []
        with cf.ThreadPoolExecutor(8) as ex:
            build_tool()
            futs = [ex.submit(PARTS[p["type"]], p, tmp) for p in parts]
            for p, f in zip(parts, futs):
                try:
                    results.append(f.result())
                except Broken as e:
                    broken.append("%s: %s" % (p.get("rule", p.get("file")), e))
        viol = [v for r in results for v in r["violations"]]
        undecided = [u for r in results for u in r.get("undecided", [])]
        if any(r["obligations"] for r in results):   # some parts reached a verdict: the others are reported as undecided
            undecided += broken
            broken = []
        kn = [k for k in known() if k["property"] == pid]
        new, listed = [], []
        for v in viol:
            hit = next((k for k in kn if k["rule"] == v["rule"] and k["where"] in v["where"] and k.get("msg", "") in v["msg"]), None)
            (listed if hit else new).append((v, hit))
        nob = sum(r["obligations"] for r in results)
        nviol = len(viol)
        ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"],
              "coverage": {}, "wall_s": round(time.time() - t0, 3)}
        cov = {"explanation": spec["explain"],
               "obligations": nob, "discharged": nob - nviol,
               "functions": sorted({f for r in results for f in r["functions"]}),
               "parts": [{k: r[k] for k in ("kind", "rule", "driver", "obligations", "counts", "rules")} for r in results],
               "items": [d for r in results for d in r["detail"]][:400],
               "broken": broken, "undecided": undecided, "known_findings": len(listed)}
        ev["coverage"] = cov
        EV = os.environ.get("VERIF_EVID") or os.path.join(ROOT, "evidence")
        os.makedirs(EV, exist_ok=True)
        evp = os.path.join(EV, pid + ".json")
        with open(evp, "w") as f:
            json.dump(ev, f, indent=1)
        for v, k in listed:
            print("KNOWN-FINDING: property=%s %s at %s: %s" % (pid, v["rule"], v["where"], k.get("what", v["msg"])))
        if new:
            rp = os.path.join(EV, pid + ".violation.json")
            with open(rp, "w") as f:
                json.dump([v for v, _ in new], f, indent=1)
            for v, _ in new:
                print("  %s at %s: %s" % (v["rule"], v["where"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        if undecided and nob:
            for u in undecided:
                print("UNDECIDED: property=%s %s" % (pid, u[:400]))
        elif undecided:
            broken += undecided
        if broken:
            print("ANALYSIS-BROKEN property=%s: %s" % (pid, " | ".join(broken)), file=sys.stderr)
            return 2
        print("OK property=%s obligations=%d functions=%d wall=%.1fs" % (pid, nob, len(cov["functions"]), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            build_tool()
            return 0
        rc = 0
        for p in (sorted(CHECKS) if a.all else a.property):
            rc = max(rc, check(p, a.tier)) if rc != 1 else (check(p, a.tier), 1)[1]
        return rc
    except Broken as e:
        print("ANALYSIS-BROKEN: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
