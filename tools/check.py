#!/usr/bin/env python3
"""Orchestrator: build a property's harness from /repo's working tree, explore it symbolically,
replay every counterexample natively, write evidence/<id>.json.

usage: check.py C01 [--tier quick|thorough] [--case NAME] [--keep]
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: error of the check."""
import json, os, sys, subprocess, time, hashlib, shutil, tempfile, fcntl, math, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # noqa: E402

Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CLANG = "/usr/bin/clang++-18"
BUILD = os.path.join(VERIF, "build")
T0 = time.time()


def sh(cmd, env=None, timeout=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=cwd)


def build_engine():
    """builds pass plugin + runtimes once; safe under concurrent callers"""
    os.makedirs(BUILD, exist_ok=True)
    eng = os.path.join(VERIF, "engine")
    h = hashlib.sha256(b"3")
    for f in sorted(os.listdir(eng)):
        with open(os.path.join(eng, f), "rb") as fh:
            h.update(f.encode() + fh.read())
    stamp = h.hexdigest()
    sf = os.path.join(BUILD, "engine.stamp")
    with open(os.path.join(BUILD, "engine.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(sf) and open(sf).read() == stamp:
            return
        cmds = [
            ["g++", "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
             "-D__STDC_LIMIT_MACROS", "-I/usr/include/llvm-18", "-I/usr/include/llvm-c-18", eng + "/pass.cpp", "-o", BUILD + "/vppass.so"],
            ["g++", "-std=c++17", "-O2", "-fno-weak", "-D__GXX_TYPEINFO_EQUALITY_INLINE=1", "-D__GXX_MERGED_TYPEINFO_NAMES=0", "-I" + Z3 + "/include", "-c", eng + "/rt_sym.cpp", "-o", BUILD + "/rt_sym.o"],
            ["g++", "-std=c++17", "-O2", "-fno-weak", "-D__GXX_TYPEINFO_EQUALITY_INLINE=1", "-D__GXX_MERGED_TYPEINFO_NAMES=0", "-c", eng + "/rt_native.cpp", "-o", BUILD + "/rt_native.o"]]
        with ThreadPoolExecutor(3) as ex:
            for c, r in zip(cmds, ex.map(sh, cmds)):
                if r.returncode:
                    print(" ".join(c) + "\n" + r.stderr[-4000:])
                    sys.exit(2)
        with open(sf, "w") as f:
            f.write(stamp)


def compile_harness(src, out, extra, libs, race=False):
    base = ["-std=c++14", "-O1", "-w", "-I" + VERIF + "/engine", "-I" + VERIF + "/harness"] + extra + \
        ["-I" + REPO + "/src", "-I/usr/include/eigen3", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize",
         "-DEIGEN_DONT_VECTORIZE", "-fpass-plugin=" + BUILD + "/vppass.so"]
    ls = ["-lpthread", "-lboost_system", "-lboost_filesystem"] + libs

    def one(mode):
        o = out + "." + mode + ".o"
        c = [CLANG] + base + (["-DVP_SYM"] if mode == "sym" else []) + ["-c", src, "-o", o]
        r = sh(c, env=dict({"VP_PASS_MODE": mode, "VP_FUNCS_OUT": out + "." + mode + ".funcs"}, **({"VP_PASS_RACE": "1"} if race else {})))
        if r.returncode:
            return "COMPILE " + " ".join(c) + "\n" + r.stderr[-6000:]
        if mode == "sym":
            l = ["g++", "-rdynamic", o, BUILD + "/rt_sym.o", "-o", out + ".sym", "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib"] + ls
        else:
            l = ["g++", o, BUILD + "/rt_native.o", "-o", out + ".nat"] + ls
        r = sh(l)
        if r.returncode:
            return "LINK " + " ".join(l) + "\n" + r.stderr[-4000:]
        os.unlink(o)
        return None
    with ThreadPoolExecutor(2) as ex:
        for e in ex.map(one, ["sym", "native"]):
            if e:
                return e
    return None


def big_stack():
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except Exception:
        pass


class Run:
    def __init__(self, prop, tier, only=None):
        self.p = prop
        self.cfg = PROPS[prop]
        self.tier = tier
        self.only = only
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.dir = tempfile.mkdtemp(prefix=prop + "_", dir=self.mk(os.path.join(BUILD, "run")))
        self.replays = self.mk(os.path.join(VERIF, "evidence", "replays"))
        self.results = []
        self.funcs = set()

    @staticmethod
    def mk(d):
        os.makedirs(d, exist_ok=True)
        return d

    def build(self):
        hs = self.cfg["harness"]
        hs = [hs] if isinstance(hs, str) else hs
        self.bins = {}

        def b(h):
            out = os.path.join(self.dir, os.path.splitext(h)[0])
            x = [s.replace("@", VERIF) for s in self.cfg.get("flags", {}).get(h, [])]
            return h, out, compile_harness(os.path.join(VERIF, "harness", h), out, x, self.cfg.get("libs", {}).get(h, []), h in self.cfg.get("race", []))
        with ThreadPoolExecutor(4) as ex:
            for h, out, err in ex.map(b, hs):
                if err:
                    print("ERROR: harness %s does not build against the current tree\n%s" % (h, err))
                    sys.exit(2)
                self.bins[h] = out
                try:
                    self.funcs |= set(open(out + ".sym.funcs").read().split("\n")) - {""}
                except OSError:
                    pass

    def jobs(self):
        js = []
        for h, out in self.bins.items():
            r = sh([out + ".sym", "--list"])
            for line in r.stdout.splitlines():
                name, mode, bounds = line.split("\t")
                if self.only and name not in self.only:
                    continue
                cc = self.cfg.get("cases", {}).get(name, {})
                if self.cfg.get("select") and name not in self.cfg["select"]:
                    continue
                if not name.replace("t_", "", 1).startswith(self.cfg.get("select_prefix", "")) and not name.startswith(self.cfg.get("select_prefix", "")):
                    continue
                if name.startswith("t_") and self.tier == "quick":
                    continue
                for params in cc.get(self.tier, cc.get("quick", [{}])):
                    js.append((h, out, name, mode, bounds, params))
        return js

    def left(self, stage):
        """seconds left for exploring, or for replaying what was found; the quick check answers within 13 minutes"""
        return T0 + (dict(explore=560, replay=780) if self.tier == "quick" else dict(explore=6 * 3600, replay=8 * 3600))[stage] - time.time()

    def run_case(self, j):
        h, out, name, mode, bounds, params = j
        tag = name + "".join("_%s%s" % kv for kv in sorted(params.items()))
        d = os.path.join(self.dir, h.split(".")[0] + "_" + tag)
        os.makedirs(d)
        jl = os.path.join(d, "out.jsonl")
        to = self.cfg.get("cases", {}).get(name, {}).get("timeout", self.cfg.get("timeout", {"quick": 90, "thorough": 600})[self.tier])
        if isinstance(to, dict):
            to = to[self.tier]
        left = self.left("explore")
        if left < 5:
            return dict(job=j, tag=tag, recs=[], err="time", d=d, late=True)
        to = int(min(to, left))
        qt = self.cfg.get("qtimeout", 6000 if self.tier == "quick" else 30000)
        cmd = [out + ".sym", "--case", name, "--out", jl, "--dir", d + "/s", "--timeout", str(to), "--jobs", str(self.njobs), "--qtimeout", str(qt), "--seed", str(self.seed)]
        for k, v in params.items():
            cmd += ["--param", "%s=%s" % (k, v)]
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=to + 90, preexec_fn=big_stack)
            err = p.stderr[-2000:]
        except subprocess.TimeoutExpired:
            err = "engine timeout"
            subprocess.run(["pkill", "-KILL", "-f", out + ".sym --case " + name])
        recs = []
        try:
            for l in open(jl, errors="replace"):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    err += " bad record"
        except OSError:
            pass
        shutil.rmtree(d + "/s", ignore_errors=True)
        return dict(job=j, tag=tag, recs=recs, err=err, d=d)

    def native(self, j, models, d, limit=20, cap=300):
        """replay models natively; returns one result per model"""
        h, out, name, mode, bounds, params = j
        os.makedirs(d, exist_ok=True)
        lst = os.path.join(d, "list")
        with open(lst, "w") as f:
            for i, m in enumerate(models):
                mf = os.path.join(d, "m%d" % i)
                with open(mf, "w") as g:
                    g.write(m)
                f.write(mf + "\n")
        cmd = [out + ".nat", "--case", name, "--batch", lst, "--dir", d, "--limit", str(limit)]
        for k, v in params.items():
            cmd += ["--param", "%s=%s" % (k, v)]
        try:
            txt = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=max(5, min(limit * len(models) + 60, cap, self.left("replay"))), preexec_fn=big_stack).stdout
        except subprocess.TimeoutExpired as e:
            txt = e.stdout or b""
        o = []
        for l in txt.decode(errors="replace").splitlines():
            try:
                o.append(json.loads(l))
            except ValueError:
                break
        while len(o) < len(models):
            o.append({"status": "lost", "fails": [], "diverged": 1, "obs": []})
        shutil.rmtree(d, ignore_errors=True)
        return o

    def main(self):
        build_engine()
        tb = time.time()
        self.build()
        tb = time.time() - tb
        js = self.jobs()
        if not js:
            print("ERROR: no cases")
            sys.exit(2)
        par = min(self.cfg.get("par", 4), len(js))
        self.njobs = 8 if par == 1 else 6
        with ThreadPoolExecutor(par) as ex:
            self.results = list(ex.map(self.run_case, js))
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf)) if k.get("status") == "known" and k["property"] == self.p]
        tot = dict(paths=0, killed=0, infeasible=0, cut=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, obligations=0, discharged=0, concrete=0,
                   undecided=0, viols=0, lost=0, hang=0, choices=0, divcut=0, solver_s=0.0, nodes=0)
        violations, inconclusive, knownhit, cases = [], [], {}, []
        validated = mismatched = 0
        samples, cuts = [], {}
        errors = []

        def post(r):
            j = r["job"]
            res = dict(v=[], inc=[], val=0, mis=[], sample=None, cuts={})
            k = 0
            # counterexamples
            seen = {}
            for rec in r["recs"]:
                if rec["t"] not in ("viol", "undec"):
                    continue
                key = (rec["label"], rec["t"])
                seen[key] = seen.get(key, 0) + 1
                if seen[key] > 4:
                    continue
                ms = rec.get("models", [])
                ok = False
                if ms:
                    outs = self.native(j, ms, r["d"] + "/r%d" % k, 60 if rec.get("kind") == "hang" else 20)
                    k += 1
                    for m, o in zip(ms, outs):
                        if o["fails"] and o["status"] != "assume":
                            res["v"].append((o["fails"][0]["label"], m, o, rec))
                            ok = True
                            break
                if not ok:
                    res["inc"].append("%s: %s %s: %s" % (r["tag"], rec["t"], rec["label"], rec.get("why") or "counterexample of the solver not reproduced natively " + rec.get("info", "")))
            # validation of the encoding: explored paths against the native build
            ps = [x for x in r["recs"] if x["t"] == "path" and x.get("model") is not None]
            lim = 150 if self.tier == "quick" else 1000
            if len(ps) > lim:
                st = len(ps) / lim
                ps = [ps[int(i * st)] for i in range(lim)]
            if ps:
                outs = self.native(j, [x["model"] for x in ps], r["d"] + "/val", cap=120)
                for x, o in zip(ps, outs):
                    bad = None
                    if o["status"] == "assume":
                        continue  # rounding at the border of an assumption
                    if o["status"] != "ok":
                        bad = o["status"] + " " + (o["fails"][0]["label"] if o["fails"] else "")
                    elif o["diverged"]:
                        bad = "diverged"
                    elif len(o["obs"]) != len(x["obs"]) and len(x["obs"]) < 300:
                        bad = "observation count %d/%d" % (len(x["obs"]), len(o["obs"]))
                    else:
                        for (l1, v1), (l2, v2) in zip(x["obs"], o["obs"]):
                            a, b = float(v1), float(v2)
                            if l1 != l2 or not (a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-4 * (1e-2 + max(abs(a), abs(b)))):
                                bad = "%s: %s / %s" % (l1, v1, v2)
                                break
                    if bad:
                        res["mis"].append((bad, x["model"], o))
                    else:
                        res["val"] += 1
                res["sample"] = dict(case=r["tag"], model=ps[0]["model"].strip().split("\n")[:14], checks=ps[0]["checks"], path_literals=ps[0]["pc"])
            for x in r["recs"]:
                for c, n in x.get("cuts", {}).items():
                    res["cuts"][c] = res["cuts"].get(c, 0) + n
            return res

        with ThreadPoolExecutor(6) as ex:
            posts = list(ex.map(post, self.results))
        for r, ps in zip(self.results, posts):
            h, out, name, mode, bounds, params = r["job"]
            s = [x for x in r["recs"] if x["t"] == "sum"]
            if r.get("late"):
                inconclusive.append("%s: not explored, no time left" % r["tag"])
                continue
            if not s:
                errors.append("%s: engine gave no summary: %s" % (r["tag"], r["err"]))
                continue
            s = s[0]
            for k in tot:
                tot[k] += s[k]
            cases.append(dict(case=r["tag"], harness=h, arithmetic="reals" if mode == "R" else "IEEE-754 binary64", bounds=bounds, params=params,
                              **{k: s[k] for k in ("paths", "forks", "queries", "obligations", "discharged", "solver_s", "wall")}))
            if s["cut"]:
                inconclusive.append("%s: %d paths cut: %s" % (r["tag"], s["cut"], "; ".join(sorted({x["why"] for x in r["recs"] if x["t"] == "cut"}))))
            if s["lost"]:
                inconclusive.append("%s: %d paths lost" % (r["tag"], s["lost"]))
            reach, must = set(), set()
            for x in r["recs"]:
                if x["t"] == "path":
                    reach |= set(x["reach"])
                    must |= set(x.get("must", []))
            # labels that some input must reach: the exploration was complete and none does
            if must - reach and not ps["v"]:
                ms = [x["model"] for x in r["recs"] if x["t"] == "path" and x.get("model")]
                if s["cut"] or s["lost"] or not ms:
                    inconclusive.append("%s: not reached, exploration incomplete: %s" % (r["tag"], sorted(must - reach)))
                else:
                    outs = self.native(r["job"], ms[:150], r["d"] + "/must")
                    for lab in sorted(must - reach):
                        if any(lab in o.get("reach", []) for o in outs):
                            inconclusive.append("%s: reached natively only: %s" % (r["tag"], lab))
                        else:
                            violations.append((h, r, "never: " + lab, ms[0], {"fails": [{"label": "never: " + lab}], "all": ms[:150]},
                                               {"info": "no input of the case reaches it: %d paths cover them all" % s["paths"]}))
            if "end" not in reach and not ps["v"]:
                inconclusive.append("%s: no path reached the end of the harness (vacuous)" % r["tag"])
            for lab, m, o, rec in ps["v"]:
                kn = [f for f in known if f["case"] == name and f["label"] == lab]
                if kn:
                    knownhit[kn[0]["what"]] = kn[0]
                    continue
                violations.append((h, r, lab, m, o, rec))
            inconclusive += ps["inc"]
            validated += ps["val"]
            for b, m, o in ps["mis"]:
                mismatched += 1
                if mismatched <= 10:
                    inconclusive.append("%s: encoding and native run disagree (%s)" % (r["tag"], b))
            if ps["sample"] and len(samples) < 6:
                samples.append(ps["sample"])
            for c, n in ps["cuts"].items():
                cuts[c] = cuts.get(c, 0) + n
        vlines = []
        seen = set()
        for h, r, lab, m, o, rec in violations:
            key = (r["tag"], lab)
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(self.replays, "%s_%s_%d.json" % (self.p, r["tag"], len(seen)))
            with open(path, "w") as f:
                json.dump(dict(property=self.p, harness=h, case=r["job"][2], params=r["job"][5], label=lab, symbolic=rec.get("info", ""), solver=rec.get("status", ""), model=m.split("\n"), **({"all": o["all"]} if "all" in o else {}),
                               native_result=o["fails"], how="tools/check.py %s --replay %s rebuilds the native harness and runs this model" % (self.p, path)), f, indent=1)
            vlines.append("VIOLATION property=%s replay=%s" % (self.p, path))
            print("  case %s: %s: %s" % (r["tag"], lab, json.dumps(o["fails"][:2])))
        for w in sorted(knownhit):
            print("KNOWN-FINDING: property=%s %s" % (self.p, w))
        for i in inconclusive[:40]:
            print("INCONCLUSIVE: property=%s %s" % (self.p, i[:400]))
        for e in errors:
            print("ERROR: " + e)
        ev = dict(property=self.p, tier=self.tier, seed=self.seed, level="model_checking", wall_s=round(time.time() - T0, 2), violations=len(vlines),
                  coverage=dict(
                      states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=validated, samples=samples,
                      meaning="states = completed symbolic paths (each covers every input satisfying its path condition); transitions = solver-decided branch forks; traces_validated = path models re-run on the uninstrumented native build with equal results",
                      obligations=tot["obligations"], discharged=tot["discharged"], constant_folded=tot["concrete"], undischarged=tot["obligations"] - tot["discharged"],
                      queries=tot["queries"], query_results=dict(sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"]), solver_seconds=round(tot["solver_s"], 2),
                      expression_nodes=tot["nodes"], infeasible_paths=tot["infeasible"], assumption_killed_paths=tot["killed"], validation_mismatches=mismatched,
                      functions_encoded=len(self.funcs), functions_sample=sorted(self.funcs)[:400], cases=cases, cuts=cuts, inconclusive=inconclusive[:60],
                      build_s=round(tb, 1), known_findings=sorted(knownhit)),
                  assumptions=self.cfg.get("assumptions", []) + ["mode 'reals': floating-point rounding abstracted, coefficients compared up to 1e-9 relative",
                                                                  "clang 18 IR after front end; z3; NaN-boxed runtime of /verif/engine (validated per run against the native build)"])
        with open(os.path.join(VERIF, "evidence", self.p + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        print("%s %s: %d cases, %d paths, %d obligations (%d discharged), %d queries, %.1fs solver, %d traces validated, %d inconclusive, %.1fs" % (
            self.p, self.tier, len(cases), tot["paths"], tot["obligations"], tot["discharged"], tot["queries"], tot["solver_s"], validated, len(inconclusive), time.time() - T0))
        for v in vlines:
            print(v)
        if vlines:
            return 1
        if errors:
            return 2
        return 0


def replay(prop, path):
    r = json.load(open(path))
    build_engine()
    run = Run(prop, "quick")
    run.build()
    h = r["harness"]
    if "all" in r:  # nothing reaches the label
        lab = r["label"][len("never: "):]
        o = run.native((h, run.bins[h], r["case"], "R", "", r["params"]), r["all"], run.dir + "/rp")
        shutil.rmtree(run.dir, ignore_errors=True)
        hit = any(lab in x.get("reach", []) for x in o)
        print("%d runs, %s %s" % (len(o), "some reach" if hit else "none reaches", lab))
        return 0 if hit else 1
    o = run.native((h, run.bins[h], r["case"], "R", "", r["params"]), ["\n".join(r["model"])], run.dir + "/rp")
    print(json.dumps(o[0], indent=1))
    shutil.rmtree(run.dir, ignore_errors=True)
    return 1 if o[0]["fails"] else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_engine()
        sys.exit(0)
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--replay" in a:
        sys.exit(replay(prop, a[a.index("--replay") + 1]))
    if "--case" in a:
        only = a[a.index("--case") + 1].split(",")
    sys.exit(Run(prop, tier, only).main())
