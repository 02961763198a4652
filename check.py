#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]

Builds the harness for one property against /repo's current working tree, runs
it under its monitors (and the race detector where the table says so), writes
evidence/<property>.json and decides:
  exit 0  the property held on everything explored
  exit 1  violated: a line "VIOLATION property=<id> replay=<path>"
  exit 2  inconclusive (build failure, harness error, too few events observed)
"""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"

# property -> list of runs (package, race detector)
RUNS = {
    "C01": [("xsqlt", False)], "C02": [("xsqlt", False)], "C03": [("xsqlt", False)],
    "C04": [("xsqlt", False)], "C05": [("xsqlt", True)],
    "C06": [("exect", False)], "C07": [("sqlitet", False)],
    "C08": [("flaket", True)], "C09": [("flaket", True)],
    "C10": [("typest", True)], "C11": [("sqlitet", False)], "C12": [("typest", False)],
    "C13": [("typest", False)], "C14": [("typest", False)], "C15": [("typest", False)],
    "C16": [("typest", False)], "C17": [("typest", False)], "C18": [("typest", False)],
    "C24": [("typest", False)], "C34": [("typest", False)],
    "C19": [("queryt", False)], "C20": [("queryt", False)],
    "C21": [("provt", True)], "C22": [("provt", True), ("wiret", True)],
    "C23": [("wiret", False)], "C30": [("wiret", True)], "C31": [("wiret", False)],
    "C33": [("wiret", False)],
    "C25": [("schemat", False)], "C26": [("schemat", False)], "C27": [("schemat", False)],
    "C28": [("gent", False)], "C29": [("schemat", True)], "C32": [("schemat", False)],
}
WATCHDOG = {"quick": 300, "thorough": 3300}


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly",
             CGO_ENABLED="1", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE="/root/.cache/go-build", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1",
             GOSUMDB="off", CGO_CFLAGS="-O0", VERIF_DIR=HERE)
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:" + e.get("PATH", "")
    return e


def races(text):
    """Race reports that involve the code under test."""
    out = []
    for block in re.split(r"(?m)^==================$", text):
        if "WARNING: DATA RACE" in block and REPO + "/" in block:
            out.append(block.strip())
    return out


CRASH = re.compile(r"(?m)^(fatal error: .*|panic: .*|unexpected fault address.*|SIGSEGV.*)$")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return run(pid, tier, a.seed, tmp, t0)
    finally:
        subprocess.run(["chmod", "-R", "u+w", tmp], stderr=subprocess.DEVNULL)
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, tier, seed, tmp, t0):
    e = env()
    e["VERIF_TIER"] = tier
    e["VERIF_SEED"] = str(seed)
    violations, inconclusive, evid = [], [], None
    for i, (pkg, race) in enumerate(RUNS[pid]):
        binf = os.path.join(tmp, "check%d.bin" % i)
        cmd = ["go", "test", "-c", "-vet=off", "-o", binf] + (["-race"] if race else []) + ["./" + pkg]
        b = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode != 0 or not os.path.exists(binf):
            print(b.stdout)
            inconclusive.append("build of %s failed" % pkg)
            continue
        work = os.path.join(tmp, "w%d" % i)
        os.makedirs(work)
        res = os.path.join(work, "result.json")
        e2 = dict(e, VERIF_RESULT=res, TMPDIR=work,
                  GORACE="halt_on_error=0 exitcode=66 history_size=3 log_path=%s/race.log" % work)
        e2["GOTRACEBACK"] = "all"
        logf = os.path.join(work, "out.txt")
        hung = False
        with open(logf, "w") as lf:
            p = subprocess.Popen([binf, "-test.run", "^Test%s$" % pid, "-test.v", "-test.timeout", "0"],
                                 cwd=work, env=e2, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                p.wait(WATCHDOG[tier])
            except subprocess.TimeoutExpired:
                hung = True
                p.send_signal(signal.SIGQUIT)
                try:
                    p.wait(20)
                except subprocess.TimeoutExpired:
                    pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        out = open(logf, errors="replace").read()
        rtext = "".join(open(f, errors="replace").read() for f in glob.glob(work + "/race.log*"))
        rr = races(rtext) + races(out)
        for line in out.splitlines():
            if line.startswith("KNOWN-FINDING:"):
                print(line)
        for r in rr[:3]:
            violations.append({"property": pid, "fingerprint": "data-race", "detail": r})
        r = None
        if os.path.exists(res):
            r = json.load(open(res))
            evid = merge(evid, r["evidence"])
            violations += r["violations"] or []
            if not r["completed"] and not r["violations"]:
                inconclusive.append("harness did not complete")
            if r["short"]:
                inconclusive.append("too few events observed: %s" % ", ".join(r["short"]))
        if hung:
            # stuck inside the code under test, or waiting for a connection it never gave back
            if REPO + "/" in out or "database/sql.(*DB)" in out:
                violations.append({"property": pid, "fingerprint": "hang",
                                   "detail": "no progress within the watchdog; goroutines:\n" + out[-20000:]})
            else:
                inconclusive.append("watchdog")
        elif r is None:
            m = CRASH.search(out)
            # a result nobody may return (nil without an error, too short a list) stops the harness
            if m and (REPO + "/" in out or m.group(1).startswith("panic: runtime error")):
                violations.append({"property": pid, "fingerprint": "crash", "detail": out[-20000:]})
            else:
                inconclusive.append("no result: exit %s" % p.returncode)
        if violations or inconclusive:
            sys.stderr.write(out[-6000:])
            sys.stderr.write("\n".join(rr[:2]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if evid is None:
        evid = {"property": pid, "tier": tier, "seed": int(seed), "level": "exploration",
                "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "no run completed", "samples": []}}
    evid["wall_s"] = round(time.time() - t0, 2)
    evid["violations"] = len(violations)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    if violations:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.json" % pid)
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": int(seed), "tier": tier,
                       "rerun": "VERIF_SEED=%s VERIF_TIER=%s python3 check.py %s" % (seed, tier, pid),
                       "violations": violations}, f, indent=1)
        for v in violations[:5]:
            print("  %s: %s" % (v["fingerprint"], str(v["detail"])[:600].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if inconclusive:
        print("INCONCLUSIVE property=%s %s" % (pid, "; ".join(inconclusive)))
        return 2
    c = evid["coverage"]
    print("OK property=%s tier=%s evaluations=%s distinct=%s wall=%.1fs" % (
        pid, tier, c["evaluations"], c["distinct_nontrivial"], evid["wall_s"]))
    return 0


def merge(a, b):
    if a is None:
        return b
    ca, cb = a["coverage"], b["coverage"]
    for k in ("evaluations", "distinct_nontrivial"):
        ca[k] += cb[k]
    ca["samples"] = (ca["samples"] + cb["samples"])[:16]
    ca["rule"] += " | " + cb["rule"]
    for k in ("observed_events", "distinct_observed"):
        for n, v in cb.get(k, {}).items():
            ca[k][n] = ca[k].get(n, 0) + v
    return a


sys.exit(main())
