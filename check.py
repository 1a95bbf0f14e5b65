#!/usr/bin/env python3
"""Driver of one check: builds the harness of a property from /repo's current working tree, explores, writes evidence.

usage: check.py <property> [--tier quick|thorough] [--replay FILE]
exit 0: the property held on everything explored; exit 1 with a line "VIOLATION property=<id> replay=<path>": it is broken;
exit 2: the check itself could not be carried out.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
sys.path.insert(0, VERIF)
from checks import CHECKS  # per property: harness file, flags, ...

ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BASE = ["-std=c++14", "-g1", "-w"]
ENV = dict(os.environ)
for k in ("CC", "CXX", "CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "LD_PRELOAD"):
    ENV.pop(k, None)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3500:allocator_may_return_null=0:detect_stack_use_after_return=0:symbolize=1:color=never"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99:color=never"
ENV["LC_ALL"] = "C.UTF-8"


class BuildError(Exception):
    pass


class LinkViolation(Exception):
    """the property says that the objects link, and they do not"""


def run(cmd, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_hash():
    h = hashlib.sha256()
    for root in ("src", "single/include", "scripts"):
        for d, dn, fn in sorted(os.walk(os.path.join(REPO, root))):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".pyc"):
                    continue
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                h.update(open(p, "rb").read())
    for f in sorted(glob.glob(os.path.join(HARN, "*"))) + [os.path.join(VERIF, "checks.py"), __file__]:
        if os.path.isfile(f):
            h.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read())
    return h.hexdigest()[:24]


def single_is_generated():
    """True if the committed single header is byte for byte what the repository's own script generates from src."""
    tmp = tempfile.mkdtemp(prefix="verif_gen_")
    try:
        for d in ("src", "scripts"):
            shutil.copytree(os.path.join(REPO, d), os.path.join(tmp, d))
        for f in (".clang-format",):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), tmp)
        os.makedirs(os.path.join(tmp, "single/include/tomsolver"))
        r = run([sys.executable, "combine_src_to_header_only.py"], cwd=os.path.join(tmp, "scripts"))
        a = os.path.join(tmp, "single/include/tomsolver/tomsolver.h")
        b = os.path.join(REPO, "single/include/tomsolver/tomsolver.h")
        return r.returncode == 0 and os.path.exists(a) and open(a, "rb").read() == open(b, "rb").read()
    except Exception:
        return False
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def compile_all(jobs):
    """jobs: list of (cmd, output). Returns the list of outputs; raises BuildError."""
    def one(j):
        r = run(j[0])
        if r.returncode != 0:
            raise BuildError(" ".join(j[0]) + "\n" + r.stdout[-6000:])
        return j[1]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, jobs))


def build(pid, flavour, spec, out):
    """spec: dict with keys harness (list of files), flags, link."""
    os.makedirs(out, exist_ok=True)
    stamp = os.path.join(out, "stamp")
    exe = os.path.join(out, "harness")
    h = tree_hash()
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    cxx = spec.get("cxx", "clang++")
    flags = BASE + spec.get("flags", ["-O1"] + ASAN)
    inc = ["-I" + HARN]
    jobs = []
    def add(src, extra, name):
        o = os.path.join(out, name + ".o")
        jobs.append(([cxx] + flags + extra + ["-c", src, "-o", o], o))
    single = flavour == "single"
    finc = ["-I" + os.path.join(REPO, "single/include" if single else "src")]
    fdef = ["-DFLAVOUR_SINGLE"] if single else []
    for i, f in enumerate(spec["harness"]):
        extra = spec.get("harness_flags", {}).get(f, [])
        add(os.path.join(HARN, f), (["-DMC_MAIN"] if i == 0 else []) + fdef + finc + inc + extra, "h%d" % i)
    if not single:
        for f in sorted(glob.glob(os.path.join(REPO, "src/tomsolver/*.cpp"))):
            add(f, finc + spec.get("lib_flags", []), "lib_" + os.path.basename(f))
    for name, src, extra in spec.get("extra_objs", []):
        add(src.replace("@HARN", HARN).replace("@REPO", REPO), [e.replace("@HARN", HARN).replace("@REPO", REPO) for e in extra], name)
    for x in spec.get("extra_libs", []): # further builds of the library in the same program, its namespaces renamed
        for f in [os.path.join(HARN, h) for h in x["harness"]] + (sorted(glob.glob(os.path.join(REPO, "src/tomsolver/*.cpp"))) if not single else []):
            o = os.path.join(out, "%s_%s.o" % (x["prefix"], os.path.basename(f)))
            jobs.append(([x["cxx"]] + BASE + fdef + x["flags"] + finc + inc + ["-c", f, "-o", o], o))
    jobs.sort(key=lambda j: 0 if "/h0.o" in j[1] or "run.cpp" in j[1] else 1)
    objs = compile_all(jobs)
    r = run([cxx] + flags + objs + ["-o", exe] + spec.get("link", []))
    if r.returncode != 0:
        if spec.get("link_is_property") and "multiple definition" in r.stdout:
            raise LinkViolation(r.stdout[-3000:])
        raise BuildError(r.stdout[-6000:])
    with open(stamp, "w") as f:
        f.write(h)
    return exe


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                d = json.loads(line)
                if d["property"] == pid:
                    res.append(d)
    return res


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = CHECKS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bdir = os.path.join(VERIF, "build", pid)
    flavours = ["src"]
    if "--replay" in args:
        rp = json.load(open(args[args.index("--replay") + 1]))
        v = spec["variants"][rp.get("variant", 0)]
        exe = build(pid, rp["flavour"], v, os.path.join(bdir, rp["flavour"] + "-" + str(rp.get("variant", 0))))
        r = subprocess.run([exe, "--tier", rp["tier"], "--tmp", bdir, "--replay", rp["space"], str(rp["from"]), str(rp["index"]), "--known", ",".join(k["site"] for k in known_findings(pid) if "site" in k)], env=ENV)
        sys.exit(r.returncode)
    both = spec.get("both", True)
    gen = single_is_generated()
    if both and not gen:
        flavours.append("single")
    try:
        os.makedirs(bdir, exist_ok=True)
        plan = []
        for fl in flavours:
            for vi, v in enumerate(spec["variants"]):
                if v.get("tier") == "thorough" and tier != "thorough":
                    continue
                if v.get("only_src") and fl != "src":
                    continue
                plan.append((fl, vi, v))
        results = []
        violation = None
        deadline = spec.get("deadline", {"quick": 400, "thorough": 5400})[tier]
        tb = time.time()
        with cf.ThreadPoolExecutor(len(plan)) as ex:
            exes = list(ex.map(lambda q: build(pid, q[0], q[2], os.path.join(bdir, "%s-%d" % (q[0], q[1]))), plan))
        build_s = time.time() - tb
        sites = ",".join(k["site"] for k in known_findings(pid) if "site" in k)
        for (fl, vi, v), exe in zip(plan, exes):
            d = os.path.dirname(exe)
            out = os.path.join(d, "result.json")
            if os.path.exists(out):
                os.remove(out)
            left = max(30, deadline - (time.time() - t0))
            r = subprocess.run([exe, "--tier", tier, "--jobs", str(v.get("jobs", JOBS)), "--deadline", str(left), "--tmp", d, "--out", out, "--known", sites], env=ENV)
            if not os.path.exists(out):
                print("check %s: harness ended with %s and no result" % (pid, r.returncode))
                sys.exit(2)
            res = json.load(open(out))
            res["flavour"], res["variant"] = fl, v.get("name", str(vi))
            results.append(res)
            if res["violation"]:
                violation = (fl, vi, res["violation"])
                break
            if r.returncode != 0:
                print("check %s: a worker died but the failure could not be reproduced" % pid)
                sys.exit(2)
    except LinkViolation as e:
        results = [{"states": 1, "transitions": 1, "cases": 1, "exhaustive": False, "state_table_full": False, "spaces": [], "samples": [], "known_finding_cases": 0, "flavour": "src", "variant": "0"}]
        build_s = time.time() - tb
        violation = ("src", 0, {"space": "link", "index": 0, "from": 0, "message": "two translation units with the single header do not link\n" + str(e)})
    except BuildError as e:
        print("check %s: cannot build the harness from the current tree\n%s" % (pid, e))
        sys.exit(2)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in results),
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": sum(r["cases"] for r in results),
            "evaluations": sum(r["cases"] for r in results),
            "exhaustive": all(r["exhaustive"] for r in results) and not violation,
            "state_table_full": any(r["state_table_full"] for r in results),
            "rule": spec["rule"],
            "meaning": "states: distinct canonical observations (hash of what the case showed); transitions: calls of the library whose outcome was compared with the reference model; traces_validated_against_impl: complete cases (operation sequences, texts, terms, systems or schedules) executed on the real code",
            "flavours": flavours,
            "single_header_is_generated_from_src": gen,
            "spaces": [dict(s, flavour=r["flavour"], variant=r["variant"]) for r in results for s in r["spaces"]],
            "cases_cut_short": sum(r.get("cases_cut_short", 0) for r in results),
            "cases_of_known_findings": sum(r["known_finding_cases"] for r in results),
            "samples": [x for r in results for x in r["samples"]][:24] or ["(no case was run)"],
            "build_s": round(build_s, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    for r in results:
        if "extra" in r:
            ev["coverage"].setdefault("extra", []).append(r["extra"])
    kf = known_findings(pid)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violation:
        fl, vi, v = violation
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", "%s-%s-%s-%d.json" % (pid, fl, v["space"].replace("/", "_"), v["index"]))
        with open(rp, "w") as f:
            json.dump({"property": pid, "flavour": fl, "variant": vi, "tier": tier, "space": v["space"], "from": v["from"], "index": v["index"],
                       "message": v["message"], "how": "python3 check.py %s --replay %s" % (pid, rp)}, f, indent=1)
        print("check %s (%s): %s" % (pid, fl, v["message"][:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    c = ev["coverage"]
    print("check %s: held on %d cases, %d states, %d transitions, exhaustive=%s, %.1f s" % (pid, c["evaluations"], c["states"], c["transitions"], c["exhaustive"], ev["wall_s"]))
    sys.exit(0)


if __name__ == "__main__":
    main()
