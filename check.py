#!/usr/bin/env python3
"""Coordinates one property check: builds from /repo, replays saved cases, explores, writes evidence.

Exit code 0: the property held on everything explored; 1: it is violated; 2: the check itself couldn't run.
"""
import argparse
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.realpath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NOBODY = 65534

# Cases per shard and tier. Shards run in parallel, one per core.
SHARDS = 8
CXX = dict(prepare="stubs/pch/prepare.sh")
PROPS = {
    "P01": dict(quick=90, thorough=3000, **CXX),
    "P02": dict(quick=90, thorough=3000, **CXX),
    "P03": dict(quick=60, thorough=1500, **CXX),
    "P04": dict(quick=60, thorough=2500, **CXX),
    "P05": dict(quick=10, thorough=600, prepare="stubs/catkin/prepare.sh"),
    "P06": dict(quick=6000, thorough=40000),
    "P07": dict(quick=6000, thorough=30000),
    "P08": dict(quick=2000, thorough=30000),
    "P09": dict(quick=6000, thorough=40000),
    "P10": dict(quick=6000, thorough=40000),
    "P11": dict(quick=4000, thorough=20000),
    "P12": dict(quick=160, thorough=6000),
    "P13": dict(quick=1500, thorough=40000, unprivileged=True),
    "P14": dict(quick=300, thorough=15000, unprivileged=True),
    "P15": dict(quick=90, thorough=4000, **CXX),
    "P16": dict(quick=900, thorough=30000),
    "P17": dict(quick=300, thorough=12000, unprivileged=True),
    "P18": dict(quick=20000, thorough=400000),
    "P19": dict(quick=60000, thorough=600000),
    "P20": dict(quick=40000, thorough=600000),
    "P21": dict(quick=40, thorough=1500, **CXX),
    "P22": dict(quick=50000, thorough=1000000),
    "P23": dict(quick=30, thorough=1500, unprivileged=True),
    "P24": dict(quick=60000, thorough=1000000),
    "P25": dict(quick=60, thorough=2500, **CXX),
    "P26": dict(quick=60, thorough=2000, **CXX),
    "P27": dict(quick=60, thorough=2000, **CXX),
    "P28": dict(quick=600, thorough=20000, unprivileged=True),
}
# These run the code under test in their own processes: if one crashes, then the case that it was at is to blame if it does so again.
INPROC = {"P18", "P19", "P20", "P22", "P24"}

MEMORY_LIMIT = 4 << 30
QUICK_LIMIT = 840
THOROUGH_LIMIT = 4 * 3600


def go_env():
    env = dict(os.environ)
    env.update(GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOSUMDB="off")
    env.setdefault("HOME", "/root")
    return env


class Broken(Exception):
    """The check can't run."""


def run_all(cmds):
    """Runs commands in parallel; cmds is a list of (cwd, args)."""
    procs = [(args, subprocess.Popen(args, cwd=cwd, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for cwd, args in cmds]
    for args, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            raise Broken("%s failed:\n%s" % (" ".join(args), out.decode(errors="replace")[-4000:]))


def inproc_modfile(scratch):
    """Writes a copy of the repository's go.mod that also has the harness, and returns its path."""
    with open(os.path.join(REPO, "go.mod")) as f:
        mod = f.read()
    mod += "\nrequire verif/harness v0.0.0\nrequire pgregory.net/rapid v1.3.0\n"
    mod += "replace verif/harness => %s\n" % os.path.join(VERIF, "harness")
    mod += "replace pgregory.net/rapid => %s\n" % os.path.join(VERIF, "third_party", "rapid")
    path = os.path.join(scratch, "inproc.mod")
    with open(path, "w") as f:
        f.write(mod)
    with open(os.path.join(scratch, "inproc.sum"), "w") as f:
        sums = os.path.join(REPO, "go.sum")
        if os.path.exists(sums):
            f.write(open(sums).read())
    return path


def build(pid, scratch):
    """Builds what the check needs; returns the path of the property binary."""
    if pid in INPROC:
        replace = {}
        for sub in ("lib", pid.lower()):
            src = os.path.join(VERIF, "inproc", sub)
            for name in os.listdir(src):
                if name.endswith(".go"):
                    replace[os.path.join(REPO, "internal", "zzverif", sub, name)] = os.path.join(src, name)
        overlay = os.path.join(scratch, "overlay.json")
        with open(overlay, "w") as f:
            json.dump({"Replace": replace}, f)
        prop = os.path.join(scratch, "bin", "prop")
        cmds = [(REPO, ["go", "build", "-overlay", overlay, "-modfile", inproc_modfile(scratch), "-o", prop,
                        "./internal/zzverif/" + pid.lower()])]
        if PROPS[pid].get("tools"):
            cmds.append((REPO, ["go", "build", "-o", os.path.join(scratch, "bin") + "/", "./cmd/..."]))
        run_all(cmds)
        return prop
    prop = os.path.join(scratch, "bin", "bb")
    run_all([
        (REPO, ["go", "build", "-o", os.path.join(scratch, "bin") + "/", "./cmd/..."]),
        (os.path.join(VERIF, "harness"), ["go", "build", "-o", prop, "./bb"]),
    ])
    shutil.copy(os.path.join(REPO, "rtcg.sh"), os.path.join(scratch, "rtcg.sh"))
    shutil.copytree(os.path.join(VERIF, "stubs"), os.path.join(scratch, "stubs"))
    return prop


class Runner:
    def __init__(self, pid, scratch, prop, deadline):
        self.pid, self.scratch, self.prop, self.deadline = pid, scratch, prop, deadline
        self.count = 0
        self.unprivileged = os.geteuid() == 0
        if self.unprivileged:
            try:
                subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[], check=True)
            except (OSError, subprocess.SubprocessError):
                self.unprivileged = False

    def start(self, args):
        self.count += 1
        work = os.path.join(self.scratch, "w%d" % self.count)
        os.mkdir(work)
        os.chmod(work, 0o700)
        kwargs = {}
        if self.unprivileged:
            os.chown(work, NOBODY, NOBODY)
            kwargs = dict(user=NOBODY, group=NOBODY, extra_groups=[])
        if self.pid in INPROC:
            kwargs["preexec_fn"] = lambda: resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
        env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": work, "TMPDIR": work, "LC_ALL": "C.UTF-8",
            "VERIF_BIN": os.path.join(self.scratch, "bin"), "VERIF_SCRATCH": work,
            "VERIF_STUBS": os.path.join(self.scratch, "stubs"), "VERIF_RTCG_SH": os.path.join(self.scratch, "rtcg.sh"),
            "VERIF_SHARED": os.path.join(self.scratch, "shared"),
            "VERIF_TIER": os.environ.get("VERIF_TIER", "quick"), "GOMAXPROCS": "2",
            "VERIF_ROOT": "" if self.unprivileged else "1",
        }
        if os.environ.get("VERIF_KEEP"):
            env["VERIF_KEEP"] = "1"
        out = os.path.join(work, "result.json")
        p = subprocess.Popen([self.prop, "-id", self.pid, "-out", out] + args, cwd=work, env=env, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True, **kwargs)
        return p, out

    def finish(self, p, out):
        try:
            _, err = p.communicate(timeout=max(1, self.deadline - time.time()))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.communicate()
            return dict(infra="out of time", evaluations=0)
        try:
            with open(out) as f:
                return json.load(f)
        except (OSError, ValueError):
            err = err.decode(errors="replace")
            res = dict(infra="no result (exit code %s): %s" % (p.returncode, err[-3000:]), evaluations=0)
            if self.pid in INPROC and os.path.exists(out + ".case"):
                res.update(crashed=out + ".case", message="the process crashes (exit code %s): %s" % (p.returncode, err[:1500]))
            return res

    def replay(self, path):
        """Starts the replay of a saved case."""
        # The unprivileged user may not be able to read the file where it is.
        copy = os.path.join(self.scratch, "replay-%d.json" % self.count)
        shutil.copy(path, copy)
        os.chmod(copy, 0o644)
        return self.start(["-replay", copy])

    def finish_replay(self, p, out):
        res = self.finish(p, out)
        if res.get("crashed"):
            with open(res["crashed"]) as f:
                try:
                    case = json.load(f).get("case")
                except ValueError:
                    return res
            res.update(failed=True, failure=res["message"], failcase=case)
            del res["infra"]
        return res


def findings(pid):
    """Reads the known findings of a property, as (case file, description)."""
    result = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                result.append((os.path.join(VERIF, m.group(2)), m.group(3)))
    return result


def write_evidence(pid, tier, seed, coverage, wall, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    doc = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=coverage, wall_s=round(wall, 2), violations=violations,
               assumptions=PROPS[pid].get("assumptions", []))
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.replace(path + ".tmp", path)


def violation(pid, failure, replay):
    print("property %s is violated: %s" % (pid, failure[:6000]))
    print("VIOLATION property=%s replay=%s" % (pid, replay), flush=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--checks", type=int, help="cases per shard, instead of the tier's")
    args = ap.parse_args()
    pid = args.property
    if pid not in PROPS:
        raise Broken("unknown property " + pid)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        raise Broken("unknown tier " + tier)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()
    deadline = start + (QUICK_LIMIT if tier == "quick" else THOROUGH_LIMIT)

    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    os.chmod(scratch, 0o755)
    os.mkdir(os.path.join(scratch, "bin"))
    os.mkdir(os.path.join(scratch, "shared"))
    try:
        return check(pid, tier, seed, args, scratch, start, deadline)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)


def check(pid, tier, seed, args, scratch, start, deadline):
    prop = build(pid, scratch)
    prepare = PROPS[pid].get("prepare")
    if prepare:
        run_all([(scratch, ["bash", os.path.join(VERIF, prepare), scratch])])
    subprocess.run(["chmod", "-R", "a+rX", scratch], check=True)
    runner = Runner(pid, scratch, prop, deadline)
    if PROPS[pid].get("unprivileged") and not runner.unprivileged:
        raise Broken("this check must run the tools as an unprivileged user, but can't")

    if args.replay:
        res = runner.finish_replay(*runner.replay(args.replay))
        if res.get("failed"):
            violation(pid, res["failure"], os.path.abspath(args.replay))
            return 1
        if res.get("infra"):
            raise Broken(res["infra"])
        print("property %s holds on %s" % (pid, args.replay))
        return 0

    # Saved cases.
    corpus = os.path.join(VERIF, "corpus", pid)
    saved = [os.path.join(corpus, n) for n in sorted(os.listdir(corpus))] if os.path.isdir(corpus) else []
    known = findings(pid)
    jobs = [(p, None) for p in saved] + known
    failures = []  # (message, case, replay path or None)
    results = []
    for i in range(0, len(jobs), SHARDS):
        batch = [(path, what, runner.replay(path)) for path, what in jobs[i:i + SHARDS]]
        for path, what, job in batch:
            res = runner.finish_replay(*job)
            results.append(res)
            if what is not None:
                if res.get("failed"):
                    print("KNOWN-FINDING: property=%s %s" % (pid, what), flush=True)
                    res["failed"] = False
                else:
                    print("note: known finding no longer fails: %s" % what)
            elif res.get("failed"):
                failures.append((res["failure"], res.get("failcase"), path))

    # Exploration.
    n = args.checks or PROPS[pid][tier]
    shards = []
    if not failures and not any(r.get("infra") for r in results):
        stop = os.path.join(scratch, "shared", "stop")
        os.chmod(os.path.join(scratch, "shared"), 0o777)
        for i in range(SHARDS):
            s = int.from_bytes(hashlib.sha256(b"%d/%d" % (seed, i)).digest()[:8], "big") >> 1 or 1
            shards.append(runner.start(["-rapid.seed=%d" % s, "-rapid.checks=%d" % n, "-rapid.nofailfile", "-stop", stop,
                                        "-rapid.shrinktime=%s" % PROPS[pid].get("shrink", "15s")]))
        for job in shards:
            res = runner.finish(*job)
            if res.get("crashed"):
                again = runner.finish_replay(*runner.replay(res["crashed"]))
                if again.get("failed"):
                    res = again
            results.append(res)
            if res.get("failed"):
                failures.append((res["failure"], res.get("failcase"), None))

    # Merge what the shards report.
    nontrivial = set()
    labels, counts, samples, rule = {}, {}, [], ""
    for r in results:
        nontrivial.update(r.get("nontrivial") or [])
        for k, v in (r.get("labels") or {}).items():
            labels[k] = labels.get(k, 0) + v
        for k, v in (r.get("counts") or {}).items():
            counts[k] = counts.get(k, 0) + v
        rule = r.get("rule") or rule
    for r in reversed(results):
        if len(samples) < 4:
            samples += (r.get("samples") or [])[:1]
    coverage = dict(
        evaluations=sum(r.get("evaluations", 0) for r in results), distinct_nontrivial=len(nontrivial), rule=rule, samples=samples,
        case_classes=dict(sorted(labels.items())), totals=dict(sorted(counts.items())),
        saved_cases_replayed=len(jobs), shards=len(shards), cases_per_shard=n,
        ran_unprivileged=runner.unprivileged,
    )
    infra = [r["infra"] for r in results if r.get("infra")]
    write_evidence(pid, tier, seed, coverage, time.time() - start, len(failures))

    if failures:
        failures.sort(key=lambda f: len(json.dumps(f[1])))
        msg, case, path = failures[0]
        if path is None:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-seed%d.json" % (pid, seed))
            with open(path, "w") as f:
                json.dump(dict(property=pid, failure=msg, case=case), f, indent=1)
                f.write("\n")
        violation(pid, msg, path)
        return 1
    if infra:
        raise Broken(infra[0])
    print("property %s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, coverage["evaluations"], coverage["distinct_nontrivial"], time.time() - start))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("check can't run: %s" % e, file=sys.stderr)
        sys.exit(2)
