"""Decides one property: generates cases (Hypothesis, seeded by VERIF_SEED),
has them run against the code built from /repo, shrinks a failure, writes the
replay file and the evidence.

usage: driver.py PROPERTY [--tier quick|thorough] [--replay FILE]
exit 0: held; 1: VIOLATION; 2: the check itself failed
"""
import argparse
import glob
import hashlib
import importlib.util
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "props"))

import build                    # noqa: E402
from pool import Pools, HarnessError  # noqa: E402


class Failed(AssertionError):
    pass


class Stop(BaseException):
    pass


def load(path):
    spec = importlib.util.spec_from_file_location("prop", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def canon(case):
    return json.dumps(case, sort_keys=True)


def fresh_cases():
    """Hypothesis follows each case by up to five that copy choices of it to
    others of the same kind; here, where cases have many independent choices,
    that leaves combinations out.  Do it for one case in eight only."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        mutate = ConjectureRunner.generate_mutations_from
    except (ImportError, AttributeError):
        return
    count = [0]

    def sometimes(self, data):
        count[0] += 1
        if count[0] % 8 == 0:
            mutate(self, data)
    ConjectureRunner.generate_mutations_from = sometimes


class Runner:
    def __init__(self, pid, tier, seed, root, propfile, lane=0):
        self.lane = lane
        self.others_failed = lambda: False
        self.pid, self.tier, self.seed = pid, tier, seed
        self.mod = load(propfile)
        self.pools = Pools(root, propfile)
        self.evals = 0
        self.distinct = {}          # hash of a non-trivial case -> family
        self.labels = {}
        self.fam_evals = {}
        self.samples = []
        self.fail = None            # (case, result), the smallest seen
        self.known = self._load_known()
        self.known_hit = {}
        self.timeout = getattr(self.mod, "TIMEOUT", 60)

    def _load_known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line and line.startswith("{"):
                    k = json.loads(line)
                    if k["property"] == self.pid:
                        out.append(k)
        return out

    def matches_known(self, case, res):
        """A known finding is identified by one exact case."""
        for k in self.known:
            if canon(k["case"]) == canon(case):
                self.known_hit[k["what"]] = True
                return True
        return False

    def one(self, case, family):
        """Run a case; raise Failed if the property does not hold for it."""
        if self.fail is not None and self.fail[1]["status"] == "hang":
            # making a case that was seen to hang twice smaller
            res = self.pools.run(case, 8, again=False)
        else:
            res = self.pools.run(case, self.timeout)
        self.evals += 1
        self.fam_evals[family] = self.fam_evals.get(family, 0) + 1
        if res["status"] == "ok":
            info = res.get("info", {})
            for lab in info.get("labels", []):
                k = family + "/" + lab
                self.labels[k] = self.labels.get(k, 0) + 1
            if info.get("nontrivial", True):
                h = hashlib.sha1(canon(case).encode()).hexdigest()
                if h not in self.distinct:
                    self.distinct[h] = family
                    n = sum(1 for s in self.samples if s["family"] == family)
                    if n < 2 and len(self.samples) < 40:
                        self.samples.append({"family": family, "case": shorten(case)})
            return
        if res["status"] == "harness":
            raise HarnessError(res["msg"] + "\n" + res.get("tb", "") + "\ncase: " + canon(case)[:3000])
        if self.matches_known(case, res):
            return
        if self.fail is None and self.lane:
            open(self.report_path + ".failed", "w").close()
        if self.fail is None or len(canon(case)) <= len(canon(self.fail[0])):
            self.fail = (case, res)
        raise Failed(res["msg"])

    def family(self, idx, fam, budget, max_examples):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        name = fam["name"]
        t_end = time.monotonic() + budget
        for case in fam.get("examples", lambda tier: [])(self.tier) if self.lane == 0 else []:
            case = dict(case, family=name)
            self.one(case, name)
        state = {"fail_at": None}
        strat = fam["strategy"](self.tier)

        def body(case):
            now = time.monotonic()
            if state["fail_at"] is None and (now > t_end or self.others_failed()):
                return
            if state["fail_at"] is not None and now - state["fail_at"] > shrink_s:
                raise Stop()
            case = dict(case, family=name)
            try:
                self.one(case, name)
            except Failed:
                if state["fail_at"] is None:
                    state["fail_at"] = time.monotonic()
                raise
        shrink_s = 40 if self.tier == "quick" else 120
        test = given(strat)(body)
        test = settings(max_examples=max_examples, database=None, deadline=None,
                        derandomize=False, report_multiple_bugs=False,
                        phases=[Phase.generate, Phase.shrink],
                        suppress_health_check=list(HealthCheck))(test)
        test = hypothesis.seed(int(hashlib.sha1(("%s/%s/%d" % (self.pid, name if self.lane == 0 else "%s/%d" % (name, self.lane), self.seed)).encode())
                                   .hexdigest()[:8], 16))(test)
        try:
            test()
        except Stop:
            pass
        except Failed:
            pass
        except hypothesis.errors.HypothesisException:
            if self.fail is None:
                raise

    def run(self, budget, only=None):
        fams = [f for f in self.mod.FAMILIES if only is None or f["name"] in only]
        t0 = time.monotonic()
        total_w = float(sum(f.get("weight", 1) for f in fams))
        used_w = 0.0
        for i, f in enumerate(fams):
            # unused time of a family goes to those after it
            w = f.get("weight", 1)
            left = budget - (time.monotonic() - t0)
            b = max(left * w / (total_w - used_w), 1.0)
            used_w += w
            n = f.get("max_examples", {}).get(self.tier, 400 if self.tier == "quick" else 20000)
            try:
                self.family(i, f, b, n)
            except Failed:
                pass
            if self.fail is not None:
                return False
        return True

    def report(self):
        return {"evals": self.evals, "distinct": self.distinct, "labels": self.labels, "fam_evals": self.fam_evals,
                "samples": self.samples, "known_hit": self.known_hit, "starts": self.pools.starts, "fail": self.fail}

    def merge(self, other):
        self.evals += other["evals"]
        self.distinct.update(other["distinct"])
        for name in ("labels", "fam_evals"):
            mine = getattr(self, name)
            for k, v in other[name].items():
                mine[k] = mine.get(k, 0) + v
        self.known_hit.update(other["known_hit"])
        self.pools.starts += other["starts"]
        if self.fail is None and other["fail"] is not None:
            self.fail = tuple(other["fail"])


class Lane:
    """A second driver beside this one, with random cases of its own: the
    ranks of one case do not keep all cores busy."""
    def __init__(self, n, argv):
        self.dir = tempfile.mkdtemp(prefix="vf-lane-")
        self.path = os.path.join(self.dir, "report")
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.proc = subprocess.Popen([sys.executable, os.path.abspath(__file__)] + argv + ["--lane", str(n), "--report", self.path],
                                     stdin=subprocess.DEVNULL, stdout=self.log, stderr=subprocess.STDOUT)

    def failed(self):
        return os.path.exists(self.path + ".failed")

    def wait(self, seconds):
        """Its report, or None."""
        try:
            self.proc.wait(seconds)
        except subprocess.TimeoutExpired:
            return None
        if not os.path.exists(self.path):
            self.log.flush()
            with open(os.path.join(self.dir, "log"), "rb") as f:
                raise HarnessError("lane ended with %s:\n%s" % (self.proc.returncode, f.read()[-3000:].decode(errors="replace")))
        return json.load(open(self.path))

    def close(self):
        if self.proc.poll() is None:
            self.proc.send_signal(signal.SIGTERM)
            try:
                self.proc.wait(20)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)
        for d in glob.glob(os.path.join(tempfile.gettempdir(), "vf-pool-%d-*" % self.proc.pid)):
            subprocess.run(["pkill", "-KILL", "-f", d], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            shutil.rmtree(d, ignore_errors=True)


def run_lane(r, a, budget):
    """The whole of a lane beside the first one."""
    def end(signum, frame):
        r.pools.close()
        os._exit(3)
    signal.signal(signal.SIGTERM, end)
    parent = os.getppid()
    r.others_failed = lambda: os.getppid() != parent
    try:
        r.run(budget, a.only.split(",") if a.only else None)
        out = r.report()
    finally:
        r.pools.close()
    with open(a.report + ".tmp", "w") as f:
        json.dump(out, f)
    os.rename(a.report + ".tmp", a.report)
    return 0


def shorten(x, depth=0):
    if isinstance(x, dict):
        return {k: shorten(v, depth + 1) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > 6:
            return [shorten(v, depth + 1) for v in x[:4]] + ["... %d in all" % len(x)]
        return [shorten(v, depth + 1) for v in x]
    if isinstance(x, float):
        return float("%.6g" % x)
    return x


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--only")
    ap.add_argument("--lane", type=int, default=0)
    ap.add_argument("--report")
    ap.add_argument("--lanes", type=int, default=2)
    a = ap.parse_args()
    fresh_cases()
    pid = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    propfile = os.path.join(VERIF, "props", pid + ".py")
    t0 = time.time()
    try:
        root = build.build()
    except build.BuildError as e:
        print(e)
        return 2
    t_build = time.time() - t0
    if a.replay:
        case = json.load(open(a.replay))["case"]
        r = Runner(pid, tier, seed, root, propfile)
        try:
            r.known = []
            r.one(case, case.get("family", "replay"))
        except Failed as e:
            print(r.fail[1].get("tb", ""))
            print("reproduced: %s" % e)
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        finally:
            r.pools.close()
        print("the case holds")
        return 0
    r = Runner(pid, tier, seed, root, propfile, a.lane)
    mod = r.mod
    budget = a.budget or getattr(mod, "BUDGET", {}).get(tier, 45 if tier == "quick" else 500)
    if a.lane:
        r.report_path = a.report
        try:
            return run_lane(r, a, budget)
        except HarnessError as e:
            print("the check itself failed: %s" % e)
            return 2
    status = 0
    violations = []
    lanes = []
    try:
        lanes = [Lane(n, [pid, "--tier", tier, "--budget", str(budget)] + (["--only", a.only] if a.only else [])) for n in range(1, a.lanes)]
        r.others_failed = lambda: any(x.failed() for x in lanes)
        for k in r.known:
            res = r.pools.run(k["case"], r.timeout)
            if res["status"] == "harness":
                raise HarnessError(res["msg"] + res.get("tb", ""))
            if res["status"] != "ok":
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        ok = r.run(budget, a.only.split(",") if a.only else None)
        for x in lanes if ok else []:
            rep = x.wait(budget * 2 + 500)
            if rep is not None:
                r.merge(rep)
            if r.fail is not None:
                ok = False
                break
        if not ok:
            case, res = r.fail
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (
                pid, hashlib.sha1(canon(case).encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump({"property": pid, "status": res["status"], "msg": res["msg"],
                           "case": case}, f, indent=1, sort_keys=True)
            print(res.get("tb", ""))
            print("%s (%s): %s" % (pid, case.get("family"), res["msg"]))
            print("smallest case found: %s" % canon(shorten(case)))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            violations.append({"replay": path, "msg": res["msg"][:1000], "case": shorten(case)})
            status = 1
    except HarnessError as e:
        print("the check itself failed: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        for x in lanes:
            x.close()
        r.pools.close()
    fam_nt = {}
    for f in r.distinct.values():
        fam_nt[f] = fam_nt.get(f, 0) + 1
    if status == 0 and not a.only:
        missing = [f["name"] for f in mod.FAMILIES if not r.fam_evals.get(f["name"])]
        if missing:
            print("the check itself failed: no case was run for %s" % missing)
            return 2
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r.evals,
            "distinct_nontrivial": len(r.distinct),
            "rule": mod.RULE,
            "samples": r.samples,
            "per_family": {f["name"]: {"what": f.get("what", ""),
                                       "evaluations": r.fam_evals.get(f["name"], 0),
                                       "distinct_nontrivial": fam_nt.get(f["name"], 0)}
                           for f in mod.FAMILIES},
            "labels": dict(sorted(r.labels.items())),
            "pool_starts": r.pools.starts,
            "violation_replays": violations,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": len(violations),
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %s; %d cases, %d distinct non-trivial, build %.1f s, total %.1f s" % (
        pid, tier, "held" if status == 0 else "VIOLATED", r.evals, len(r.distinct), t_build,
        time.time() - t0))
    for f in mod.FAMILIES:
        n = f["name"]
        print("  %-24s %6d cases %6d non-trivial" % (n, r.fam_evals.get(n, 0), fam_nt.get(n, 0)))
    return status


if __name__ == "__main__":
    sys.exit(main())
