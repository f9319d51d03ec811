#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [--tier quick|thorough] [--replay FILE]

Builds the harness against the working tree of /repo, replays the saved cases of the property and the known findings,
explores generated cases in parallel processes, and writes evidence/<ID>.json.
"""
import argparse
import concurrent.futures
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
GO_ROOTS = ["/opt/veriftools/go1.27.3/bin"]
EXIT_HANG = 97
EXIT_HARNESS = 3
RACE = {"C22", "C25"}
TOOL = {"C23"}


def environment():
    env = dict(os.environ)
    env["PATH"] = ":".join([p for p in GO_ROOTS if os.path.isdir(p)] + [env.get("PATH", "/usr/bin:/bin")])
    env.update(GOTOOLCHAIN="local", GOWORK="off", GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off", GOENV="off")
    home = env.setdefault("HOME", "/root")
    if os.path.isdir("/root/go/pkg/mod"):
        home = "/root"
    env.setdefault("GOPATH", home + "/go")
    env.setdefault("GOMODCACHE", home + "/go/pkg/mod")
    env.setdefault("GOCACHE", home + "/.cache/go-build")
    env.setdefault("GOMAXPROCS", "2")
    # The verdicts must not depend on settings of the caller.
    for k in ("GODEBUG", "GOGC", "GOMEMLIMIT"):
        env.pop(k, None)
    return env


ENV = environment()


class CheckError(Exception):
    pass


def build(out, race=False):
    cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
    env = dict(ENV)
    env.pop("GOMAXPROCS")
    if race:
        env["CGO_ENABLED"] = "1"
    r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("cannot build the harness against /repo:\n" + r.stdout + r.stderr)


def build_tool(out):
    """Builds the command-line tool against the library in the working tree."""
    env = dict(ENV)
    env.pop("GOMAXPROCS")
    # NOTE: The tool is a module of its own that names a released version of the library.
    cmd = ["go", "build", "-modfile", os.path.join(HERE, "cli", "go.mod"), "-o", out, "."]
    r = subprocess.run(cmd, cwd="/repo/cmd/raml", env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("cannot build the command-line tool:\n" + r.stdout + r.stderr)


class Runner:
    def __init__(self, prop, tier, scratch):
        self.prop, self.tier, self.scratch = prop, tier, scratch
        self.bin = os.path.join(scratch, "harness")
        self.env = dict(ENV, VERIF_SCRATCH=scratch)
        if prop in RACE:
            self.env["GORACE"] = "halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
            self.env["GOMAXPROCS"] = "4"
        if prop in TOOL:
            self.env["VERIF_CLI"] = os.path.join(scratch, "raml")

    def call(self, args, timeout):
        try:
            r = subprocess.run([self.bin] + args, env=self.env, capture_output=True, text=True, errors="replace", timeout=timeout)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired:
            return None, "", "no result within %d s" % timeout

    def replay(self, path, timeout=200):
        """Returns None if the case passes, otherwise what fails."""
        code, out, err = self.call(["replay", "-file", path], timeout)
        if code == 0:
            return None
        if code == 1:
            return out.strip()
        if code in (EXIT_HARNESS, 4):
            raise CheckError("harness error while replaying %s:\n%s" % (path, err[-3000:]))
        if code is None:
            raise CheckError("replaying %s gives no result: %s" % (path, err))
        return crash_text(code, err)

    def shard(self, i, n, cases, seed, deadline):
        base = os.path.join(self.scratch, "shard%d" % i)
        args = ["run", "-prop", self.prop, "-seed", str(seed * 1000 + i + 1), "-cases", str(cases),
                "-journal", base + ".journal", "-out", base + ".json"]
        code, out, err = self.call(args, max(30, deadline - time.time()))
        res = None
        if code == 0:
            with open(base + ".json") as f:
                res = json.load(f)
        return i, code, res, err, base + ".journal"


def crash_text(code, err):
    lines = [l for l in err.splitlines() if l.strip()]
    head = "\n".join(lines[:25])
    if code == EXIT_HANG:
        return "endless loop or unbounded memory: " + head
    if code == 66:
        return "data race: " + head
    return "crash (exit %s): %s" % (code, head)


def save_replay(prop, case, failure, note=""):
    d = os.path.join(HERE, "out", "replay")
    os.makedirs(d, exist_ok=True)
    body = {"prop": prop, "note": note, "failure": failure, "case": case}
    data = json.dumps(body, ensure_ascii=False, indent=1)
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        f.write(data + "\n")
    return path


def findings(prop):
    """The known findings of the property: lines 'finding: property=<id> case=<file> <what fails>'."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            if not line.startswith("finding:"):
                continue
            words = line.split()
            if words[1] == "property=" + prop:
                out.append((os.path.join(HERE, words[2].split("=", 1)[1]), " ".join(words[3:])))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    a = ap.parse_args()
    if a.setup:
        # Compiles the dependencies into the build cache.
        scratch = tempfile.mkdtemp(prefix="verif-raml-")
        try:
            build(os.path.join(scratch, "harness"))
            build(os.path.join(scratch, "harness-race"), True)
            build_tool(os.path.join(scratch, "raml"))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    if not a.prop:
        raise CheckError("no property given")
    prop, tier = a.prop, a.tier
    if tier not in ("quick", "thorough"):
        raise CheckError("unknown tier " + tier)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()
    budget = 800 if tier == "quick" else 6 * 3600
    scratch = tempfile.mkdtemp(prefix="verif-raml-")
    try:
        run = Runner(prop, tier, scratch)
        build(run.bin, prop in RACE)
        if prop in TOOL:
            build_tool(run.env["VERIF_CLI"])
        if a.replay:
            f = run.replay(os.path.abspath(a.replay))
            if f is None:
                print("replay passes")
                return 0
            print(f)
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        code, out, err = run.call(["list"], 60)
        sizes = {l.split()[0]: (int(l.split()[1]), int(l.split()[2])) for l in out.splitlines()}
        if prop not in sizes:
            raise CheckError("unknown property " + prop)
        total = a.cases or sizes[prop][0 if tier == "quick" else 1]
        violations = []
        # Known findings.
        for path, text in findings(prop):
            if run.replay(path) is not None:
                print("KNOWN-FINDING: property=%s %s" % (prop, text))
        # Saved cases.
        saved = sorted(glob.glob(os.path.join(HERE, "regress", prop, "*.json")))
        for path, text in regress(run, saved):
            violations.append((path, text))
        # Exploration.
        n = min(8, max(1, os.cpu_count() or 1))
        results = []
        if not violations:
            with concurrent.futures.ThreadPoolExecutor(n) as ex:
                futs = [ex.submit(run.shard, i, n, (total + n - 1) // n, seed, start + budget) for i in range(n)]
                for fu in concurrent.futures.as_completed(futs):
                    i, code, res, err, journal = fu.result()
                    if code == 0:
                        results.append(res)
                        if res.get("failure"):
                            path = save_replay(prop, res["case"], res["failure"])
                            violations.append((path, "%s: %s" % (res["failure"]["kind"], res["failure"]["detail"])))
                        continue
                    if code == EXIT_HARNESS or code == 4:
                        raise CheckError("harness error:\n" + err[-4000:])
                    if code is None:
                        raise CheckError("shard %d gives no result: %s" % (i, err))
                    # The process died: the journal holds the case.
                    with open(journal) as f:
                        data = f.read()
                    text = crash_text(code, err)
                    try:
                        case = json.loads(data)
                    except ValueError:
                        raise CheckError("shard died without a case: " + text)
                    path = save_replay(prop, case, {"kind": "crash", "detail": text})
                    again = run.replay(path)
                    if again is None and code != 66 and "concurrent map" not in text:
                        raise CheckError("shard died, but its case passes: " + text)
                    violations.append((path, again or text))
        evidence(prop, tier, seed, start, results, violations, len(saved), n)
        for path, text in violations:
            print(text[:6000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if violations else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def regress(run, files):
    """Returns the saved cases that fail."""
    if not files:
        return []
    code, out, err = run.call(["regress"] + files, 400)
    bad = []
    if code == 0:
        for line in out.splitlines():
            d = json.loads(line)
            bad.append((d["file"], "%s: %s" % (d["failure"]["kind"], d["failure"]["detail"])))
        return bad
    for f in files:
        text = run.replay(f)
        if text is not None:
            bad.append((f, text))
    return bad


def evidence(prop, tier, seed, start, results, violations, saved, shards):
    labels, hashes, samples, evals, rule = {}, set(), [], 0, ""
    for r in sorted(results, key=lambda r: -len(r["hashes"] or [])):
        evals += r["evaluations"]
        hashes.update(r["hashes"] or [])
        rule = r["rule"]
        samples += (r["samples"] or [])[:1]
        for k, v in (r["labels"] or {}).items():
            labels[k] = labels.get(k, 0) + v
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes),
            "rule": "cases drawn by the generator of the property (DESIGN.md); non-trivial: " + rule,
            "samples": samples[:4], "labels": dict(sorted(labels.items())), "saved_cases_replayed": saved, "processes": shards,
        },
        "assumptions": ["the reference semantics of the harness (harness/ref.go) and the Go standard library are right"],
        "wall_s": round(time.time() - start, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, ensure_ascii=False, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR:", e, file=sys.stderr)
        sys.exit(2)
