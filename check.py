#!/usr/bin/env python3
"""Decide one property: ./check.py --prop C01 --tier quick|thorough

1. TLC checks the property on the specification (bounded instances, exhaustively, and longer
   random behaviours) and writes the behaviours out.
2. Every behaviour is replayed into the library built from /repo's working tree.
3. The library is run on many more cases; each observation is judged by the property predicate
   of the specification (its native form, compared with TLC's on every behaviour of step 1).
4. TLC judges a sample of the recorded observations, and every one that was found wanting.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  2: the check failed.
"""
import argparse, json, os, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import instances

SPEC = os.path.join(V, "spec")
WORK = os.path.join(V, "work")
TARGET = os.path.join(WORK, "target")
GB = 1 << 30


class ToolError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def limit(gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (gb * GB, gb * GB))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, timeout, cwd=V, env=None, gb=None, out=None):
    """(return code, or None if it ran out of time; output)"""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         preexec_fn=limit(gb) if gb else os.setsid)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, _ = p.communicate()
        return None, o.decode(errors="replace")


# ---------------------------------------------------------------- the library and the harness

def build():
    h = os.path.join(V, "harness")
    os.makedirs(TARGET, exist_ok=True)
    cargo = ["cargo", "--offline"]
    env = {"CARGO_TARGET_DIR": TARGET, "CARGO_NET_OFFLINE": "true"}
    # never trust time stamps about the code under test
    run(cargo + ["clean", "-q", "--release", "-p", "yamd"], 120, cwd=h, env=env)
    r, o = run(cargo + ["build", "-q", "--release"], 700, cwd=h, env=env)
    if r != 0:
        raise ToolError("the harness does not build against /repo:\n" + o[-4000:])
    return os.path.join(TARGET, "release", "harness")


def same_spec():
    """the native form of the specification is the one generated from the TLA+ files"""
    t = os.path.join(WORK, "spec.rs.%d" % os.getpid())
    r, o = run([sys.executable, "tools/tla2rust.py", "spec/Props.tla", t], 60)
    if r != 0:
        raise ToolError("tla2rust: " + o[-2000:])
    same = open(t).read() == open(os.path.join(V, "oracle/src/spec.rs")).read()
    os.unlink(t)
    if not same:
        raise ToolError("oracle/src/spec.rs is not what tools/tla2rust.py makes of the specification")


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, d, timeout, env=None, extra=(), workers=8):
    os.makedirs(d, exist_ok=True)
    c = os.path.join(d, module + ".cfg")
    open(c, "w").write(cfg)
    cp = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", cp, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", os.path.join(d, "states"), "-config", c] + list(extra) + [module + ".tla"]
    r, o = run(cmd, timeout, cwd=SPEC, env=env)
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return r, o


def grab(o, pat):
    import re
    m = None
    for m in re.finditer(pat, o):
        pass
    return int(m.group(1).replace(",", "")) if m else 0


def model(prop, k, inst, tier, seed, d):
    """one instance of the specification -> its statistics"""
    module, cfg, sim = inst["module"], instances.cfg(inst, tier), inst.get("simulate")
    d = os.path.join(d, "m%d" % k)
    os.makedirs(d, exist_ok=True)
    beh, cnt = os.path.join(d, "behaviours"), os.path.join(d, "counts")
    extra = []
    if sim:
        num = sim[tier]
        extra = ["-simulate", "num=%d" % max(1, num // inst["workers"]), "-depth", "4000", "-seed", str(seed * 1000 + k)]
    t0 = time.time()
    r, o = tlc(module, cfg, d, inst["timeout"][tier], {"BEHAVIOURS": beh, "COUNTS": cnt}, extra, inst["workers"])
    if r != 0:
        raise ToolError("TLC on %s (%s) ended with %s:\n%s" % (module, inst["name"], r, o[-3000:]))
    n = 0
    plain = os.path.join(d, "behaviours.ndjson")
    seen = set()
    with open(plain, "w") as g:
        if os.path.exists(beh):
            for l in open(beh):
                x = json.loads(l)
                h = hash(x)
                if h not in seen:
                    seen.add(h)
                    g.write(x + "\n")
                    n += 1
            os.unlink(beh)
    if sim:
        states = grab(o, r"The number of states generated: ([\d,]+)")
        res = {"states": states, "transitions": states, "depth": None}
    else:
        res = {"states": grab(o, r"([\d,]+) distinct states found"), "transitions": grab(o, r"([\d,]+) states generated"),
               "depth": grab(o, r"depth of the complete state graph search is ([\d,]+)")}
        if os.path.exists(cnt):
            res["actions"] = {a: b for a, b in json.load(open(cnt))}
    if not res["states"] or (inst["emits"] and not n):
        raise ToolError("TLC explored nothing on %s (%s)" % (module, inst["name"]))
    res.update(instance=inst["name"], module=module, exhaustive=not sim, invariants=inst["invariants"] + inst.get("properties", []), behaviours=n,
               wall_s=round(time.time() - t0, 1))
    return res, plain


TRACE_CFG = "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"


def validate(path, d, timeout, module="Trace"):
    """judge recorded observations by TLC -> (accepted all, lines rejected, output)"""
    n = sum(1 for _ in open(path))
    seg = max(1, min(8, n))
    r, o = tlc(module, TRACE_CFG, d, timeout, {"TRACE": path, "SEGMENTS": str(seg)}, (), 8)
    import re
    rej = [int(x) for x in re.findall(r'<<"REJECT", (\d+)', o)]
    return r == 0, rej, o


# ---------------------------------------------------------------- the run

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(WORK, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.bad = []        # violations, each {why, case?, obs?, predicate?, family}
        self.cov = {}

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def note(self, what):
        say("[%6.1f s] %s" % (time.time() - self.t0, what))

    # -- step 1
    def models(self):
        insts = instances.of(self.prop, self.tier)
        out = []
        with ThreadPoolExecutor(2) as ex:
            fs = [ex.submit(model, self.prop, k, i, self.tier, self.seed, self.dir) for k, i in enumerate(insts)]
            for f in fs:
                res, plain = f.result()
                out.append((res, plain))
                self.note("TLC %s: %d states, %d transitions, %d behaviours, %.1f s"
                          % (res["instance"], res["states"], res["transitions"], res["behaviours"], res["wall_s"]))
        self.models_ = [r for r, _ in out]
        return out

    # -- step 2
    def replay(self, out):
        self.replayed = {"behaviours": 0, "steps": 0, "reproduced_exactly": 0}
        for k, (res, plain) in enumerate(out):
            if not res["behaviours"]:
                continue
            s = self.path("replay%d.json" % k)
            if res["module"] == "Calls":
                self.histories(plain, k)
                continue
            r, o = run([self.h, "replay", "--prop", self.prop, "--in", plain, "--out", s], 600, gb=10)
            if r == 2:
                raise ToolError("the native form of the specification and TLC differ: " + open(s).read()[:3000] if os.path.exists(s) else o)
            if r not in (0, 1):
                # died or hung: one by one
                self.one_by_one(plain, res)
                continue
            j = json.load(open(s))
            for x in self.replayed:
                self.replayed[x] += j[x]
            self.bad += j["violations"]
            os.unlink(plain)
        self.note("replayed %(behaviours)d behaviours of the specification into the library" % self.replayed)

    def one_by_one(self, plain, res):
        """a behaviour on which the library dies or hangs"""
        lines = open(plain).read().split("\n")[:-1]
        lo, hi = 0, len(lines)

        def dies(a, b):
            p = self.path("part.ndjson")
            open(p, "w").write("\n".join(lines[a:b]) + "\n")
            r, _ = run([self.h, "replay", "--prop", self.prop, "--in", p, "--out", self.path("part.json")], 30 + (b - a) // 200, gb=10)
            return r not in (0, 1, 2)
        if not dies(lo, hi):
            raise ToolError("replay died, and did not when repeated")
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if dies(lo, mid):
                hi = mid
            elif dies(mid, hi):
                lo = mid
            else:
                break
        self.bad.append({"why": "the library dies or does not end", "family": "behaviours of the specification", "behaviour": lines[lo], "fatal": True})

    def histories(self, plain, k):
        out, summ = self.path("history%d.ndjson" % k), self.path("history%d.json" % k)
        q = self.tier == "quick"
        r, o = run([self.h, "history", "--in", plain, "--seed", str(self.seed + k), "--free", str(300 if q else 3000),
                    "--sample", str(300 if q else 2000), "--out", out, "--summary", summ], 900, gb=20)
        if r not in (0, 1):
            raise ToolError("history: %s %s" % (r, o[-2000:]))
        j = json.load(open(summ))
        self.cov["histories"] = self.cov.get("histories", 0) + j["histories"]
        self.cov["history_entries"] = self.cov.get("history_entries", 0) + j["entries"]
        self.replayed["behaviours"] += j["histories"]
        self.replayed["steps"] += j["entries"]
        self.replayed["reproduced_exactly"] += j["histories"] - len(j["violations"])
        for v in j["violations"]:
            self.bad.append({"why": v["why"], "family": "histories of calls", "history": v["history"]})
        ok, rej, o = validate(out, self.path("ct%d" % k), 300, "CallsTrace")
        if not ok and not rej:
            raise ToolError("CallsTrace:\n" + o[-3000:])
        lines = open(out).read().split("\n")
        for l in rej[:3]:
            self.bad.append({"why": "TLC rejects the history", "family": "histories of calls", "history": json.loads(lines[l - 1]), "confirmed": True})
        self.traces += len(lines) - 1 - len(rej)
        os.unlink(plain)

    # -- step 3
    def explore(self, again=False):
        d = self.path("explore")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        q = self.tier == "quick"
        cap = 240 if q else 2400
        r, o = run([self.h, "explore", "--prop", self.prop, "--tier", self.tier, "--seed", str(self.seed), "--out", d, "--time-s", str(cap),
                    "--samples", str(1000 if q else 10000), "--hang-s", "120" if again else "30"], cap + 200, gb=24)
        if r in (0, 1):
            self.sum = json.load(open(os.path.join(d, "summary.json")))
            self.bad += self.sum["violations"]
            self.note("explored %d of %d cases (%d distinct and non-trivial)" % (self.sum["evaluations"], self.sum["planned"], self.sum["distinct_nontrivial"]))
            return
        # a case that does not end, or that takes the process down
        cases = []
        hung = os.path.join(d, "hung.json")
        if r == 3 and os.path.exists(hung):
            cases = json.load(open(hung))
        elif r in (2, 4):
            raise ToolError("explore: " + o[-3000:])
        else:
            for f in sorted(os.listdir(d)):
                if f.startswith("slot."):
                    at = open(os.path.join(d, f)).read().split()
                    if len(at) == 2:
                        r2, o2 = run([self.h, "gen", "--prop", self.prop, "--tier", self.tier, "--seed", str(self.seed), "--fam", at[0], "--index", at[1]], 60)
                        if r2 == 0:
                            cases.append(json.loads(o2))
        found = False
        for n, c in enumerate(cases):
            p = self.path("suspect%d.json" % n)
            json.dump(c, open(p, "w"))
            r2, o2 = run([self.h, "one", "--prop", self.prop, "--case", p, "--fresh"], 60, gb=6)
            if r2 not in (0, 1, 2):
                found = True
                self.bad.append({"why": "the library does not end within a minute" if r2 is None else "the library takes the process down (%s)" % r2,
                                 "case": c, "family": "explore", "fatal": True})
                break
            if r2 == 1:
                self.bad.append({"why": o2.strip(), "case": c, "family": "explore", "fatal": "panic" in o2})
                found = True
                break
        if not found:
            if again:
                raise ToolError("explore ended with %s: %s" % (r, o[-2000:]))
            return self.explore(True)
        self.sum = {"evaluations": 0, "distinct_nontrivial": 0, "planned": 0, "families": [], "complete": False}

    # -- step 4
    def samples(self):
        p = self.path("explore", "samples.ndjson")
        if not os.path.exists(p):
            return
        lines = [l for l in open(p).read().split("\n") if l]
        if not lines:
            return
        ok, rej, o = validate(p, self.path("trace"), 300 if self.tier == "quick" else 1800)
        if not ok and not rej:
            raise ToolError("trace validation:\n" + o[-3000:])
        for l in rej[:3]:
            j = json.loads(lines[l - 1])
            self.bad.append({"why": "TLC rejects the observation", "predicate": j["pred"], "case": j["rec"]["case"], "obs": j["rec"]["obs"], "family": "sample", "confirmed": True})
        self.traces += len(lines) - len(rej)
        self.sample_lines = lines
        self.note("TLC validated %d recorded observations" % (len(lines) - len(rej)))

    def confirm(self, v):
        """does TLC reject what the native form of the specification rejects?"""
        if v.get("confirmed") or v.get("fatal") or v["why"].startswith("panic"):
            return True
        if "history" in v:
            p = self.path("confirm.ndjson")
            open(p, "w").write(json.dumps({"hist": v["history"]["hist"]}) + "\n")
            ok, rej, o = validate(p, self.path("confirm"), 120, "CallsTrace")
            return not ok
        if not v.get("obs"):
            return True
        p = self.path("confirm.ndjson")
        open(p, "w").write('{"pred":%s,"rec":{"obs":%s}}\n' % (json.dumps(v["predicate"]), v["obs"] if isinstance(v["obs"], str) else json.dumps(v["obs"])))
        big = os.path.getsize(p) > 20000
        ok, rej, o = validate(p, self.path("confirm"), 60 if big else 300)
        if not ok and not rej and "valuat" not in o and "Attempted" not in o:
            # too large or too deep for TLC: the native form of the specification, which agrees with TLC wherever
            # they are compared, has judged it
            if big:
                self.note("TLC gives no answer on the observation (%d bytes)" % os.path.getsize(p))
                return True
            raise ToolError("TLC on a violation:\n" + o[-3000:])
        return not ok

    # -- C21: order and number of threads
    def digests(self):
        n = 20000 if self.tier == "quick" else 200000
        runs = [("fwd", 1), ("rev", 1), ("mix", 8)]
        outs = []

        def go(x):
            order, th = x
            f = self.path("digest.%s.%d" % (order, th))
            r, o = run([self.h, "digest", "--seed", str(self.seed), "--count", str(n), "--order", order, "--threads", str(th), "--out", f], 600, gb=12)
            if r != 0:
                raise ToolError("digest %s: %s" % (r, o[-1000:]))
            return f
        for x in runs:
            outs.append(go(x))
        a = open(outs[0]).read().split("\n")
        for f, x in zip(outs[1:], runs[1:]):
            for la, lb in zip(a, open(f).read().split("\n")):
                if la != lb:
                    i = la.split(" ")[0]
                    r, o = run([self.h, "digest", "--seed", str(self.seed), "--count", "0", "--order", "fwd", "--threads", "1", "--out", "/dev/null", "--text", i], 60)
                    k = lambda c, r: {"k": c, "c": 1, "a": "onestep", "t": 1, "i": 0, "r": r}
                    self.bad.append({"why": "results depend on the order of calls or the number of threads (%s, %d)" % x, "case": json.loads(o),
                                     "family": "whole runs in another order",
                                     "history": {"hist": [k("call", 0), k("ret", 1), k("call", 0), k("ret", 2)]}})
                    break
        self.cov["whole_runs"] = {"texts": n, "orders": [x[0] for x in runs]}
        self.note("three runs over %d texts, in different orders and numbers of threads" % n)

    # -- C21: the same text many times over
    def soak(self):
        f = self.path("soak.json")
        rounds = 100000 if self.tier == "quick" else 1000000
        r, o = run([self.h, "soak", "--seed", str(self.seed), "--rounds", str(rounds), "--threads", "8", "--out", f], 1800, gb=12)
        if r not in (0, 1):
            raise ToolError("soak %s: %s" % (r, o[-1000:]))
        j = json.load(open(f))
        if j["found"]:
            k = lambda c, r: {"k": c, "c": 1, "a": "onestep", "t": 1, "i": 0, "r": r}
            self.bad.append({"why": j["found"].get("why") or "a text gives another result after %r was parsed %d times" % (j["found"]["repeated"], rounds), "case": j["found"]["case"],
                             "family": "soak", "history": {"hist": [k("call", 0), k("ret", 1), k("call", 0), k("ret", 2)]}})
        self.cov["soak"] = {"texts": j["texts"], "times_each": rounds, "lookalikes": j["lookalikes"], "crowd": j["crowd"]}
        self.note("each of %d texts %d times, %d calls on lookalikes, %d by a crowd of threads" % (j["texts"], rounds, j["lookalikes"], j["crowd"]))

    # -- C01: known finding
    def deep(self):
        """recursion: what must be survived on a stack of 8 MB, and what is known not to be"""
        for kind, n in [("coll", 300), ("list", 300), ("paren", 100000), ("bracket", 10000), ("open", 300), ("star", 100000), ("hl", 30000), ("esc", 100000)]:
            r, o = run([self.h, "deep", "--kind", kind, "--n", str(n), "--stack-mb", "8"], 120, gb=8)
            if r != 0:
                self.bad.append({"why": "the library dies (%s) on %d nested or repeated pieces (%s) on a stack of 8 MB" % (r, n, kind), "fatal": True,
                                 "family": "deep", "deep": [kind, n]})
        for kind, n in instances.KNOWN_DEEP:
            r, o = run([self.h, "deep", "--kind", kind, "--n", str(n), "--stack-mb", "8"], 120, gb=8)
            if r not in (0, 1, 2, None):
                say("KNOWN-FINDING: property=C01 stack overflow on %d nested pieces (%s)" % (n, kind))
        self.note("deep nesting on a stack of 8 MB")

    def go(self):
        self.traces, self.sample_lines, self.sum = 0, [], None
        same_spec()
        self.h = build()
        self.note("built")
        out = self.models()
        self.replay(out)
        if self.prop == "C21":
            self.digests()
            self.soak()
        if self.prop == "C01":
            self.deep()
        self.explore()
        self.samples()
        real = []
        for v in sorted(self.bad, key=lambda v: len(json.dumps(v.get("obs") or ""))):
            if self.confirm(v):
                real.append(v)
                break
        if self.bad and not real:
            raise ToolError("TLC accepts what the native form of the specification rejects: " + json.dumps(self.bad[0])[:3000])
        self.evidence(real)
        if real:
            v = real[0]
            p = self.path("replay.json")
            json.dump(v, open(p, "w"), indent=1)
            say(v["why"])
            if v.get("case"):
                say("case: " + json.dumps(v["case"])[:2000])
            say("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        say("%s: held on everything explored (%.0f s)" % (self.prop, time.time() - self.t0))
        return 0

    def evidence(self, real):
        sample = []
        for l in self.sample_lines[:3]:
            j = json.loads(l)
            sample.append(j["rec"]["case"])
        cov = {
            "states": sum(m["states"] for m in self.models_),
            "transitions": sum(m["transitions"] for m in self.models_),
            "traces_validated_against_impl": self.replayed["behaviours"] + self.traces,
            "behaviours_replayed_into_the_library": self.replayed["behaviours"],
            "behaviours_the_library_reproduces_exactly": self.replayed["reproduced_exactly"],
            "recorded_observations_accepted_by_tlc": self.traces,
            "instances": self.models_,
            "evaluations": self.sum["evaluations"],
            "distinct_nontrivial": self.sum["distinct_nontrivial"],
            "rule": "cases of the families listed, run in the library; each observation is judged by the property predicate of the specification. "
                    "Distinct by text (or stream, or tree); non-trivial if it contains what the property is about and its premise holds",
            "families": self.sum["families"],
            "samples": sample,
        }
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(real), "assumptions": instances.assumptions(self.prop)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", self.prop + ".json"), "w"), indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    os.makedirs(WORK, exist_ok=True)
    try:
        if a.setup:
            same_spec()
            build()
            return 0
        return Check(a.prop, a.tier, a.seed).go()
    except ToolError as e:
        say("check failed: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
