#!/usr/bin/env python3
"""Mutation sweep (development tool): run.py MUTATE_BIN OUT.jsonl WORKERS CAP [FILE-REGEX]
Applies generated one-place changes to scratch copies of /repo, keeps those which
build and pass the stable tests, and records which check notices each of them."""
import json, os, queue, random, re, shutil, subprocess, sys, threading, time
MUT, OUT, W, CAP = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
RX = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
# RARE=1: changes that take effect now and then only
RARE = os.environ.get("RARE") == "1"
HELP = """package %s

import "math/rand/v2"

func vfRare() bool { return rand.IntN(%d) == 0 }

func vfErr(err error) error {
	if vfRare() {
		return nil
	}
	return err
}

var _ = vfErr
"""
ROOT = "/tmp/mut"
MAP = [
    (r"xsql/stmt.go", "C01 C02 C04 C06 C03 C07 C05"), (r"xsql/dialect.go", "C02 C03 C01 C04 C07"),
    (r"xsql/", "C04 C03 C06 C05 C07 C01"), (r"^types.go", "C13 C12 C14 C16 C24 C11 C15 C17 C10 C34"),
    (r"^id.go", "C10 C13 C12 C14 C11 C16"), (r"^time.go", "C15 C13 C14 C12 C11 C17"), (r"^params.go", "C18 C20 C19"),
    (r"^query.go", "C19 C20 C18"), (r"^prov.go", "C21 C22 C08 C09 C23"), (r"^db.go", "C23 C22 C31"), (r"^merge.go", "C17"),
    (r"^migrate/", "C31 C22"), (r"notifier", "C30"), (r"flake", "C08 C09"), (r"^schema/", "C25 C26 C27 C29 C28 C33"),
    (r"pkg/print", "C32 C33"), (r"cli/schema", "C28 C33"), (r"cli|cmd", "C33 C31"),
]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
os.makedirs(ROOT, exist_ok=True)
if not os.path.exists(ROOT + "/verif"):
    subprocess.run(["git", "clone", "-q", "/verif", ROOT + "/verif"], check=True)
files = subprocess.check_output("find . -name '*.go' ! -name '*_test.go' ! -path './mocks/*' ! -path './internal/cli/clisuite/*' | sed s,./,,", shell=True, cwd="/repo", text=True).split()
jobs, rnd = [], random.Random(7)
for f in sorted(files):
    if not RX.search(f):
        continue
    src = open("/repo/" + f).read().splitlines()
    ms = [json.loads(l) for l in subprocess.check_output([MUT, "/repo/" + f], text=True).splitlines()]
    ms = [m for m in ms if "logger." not in src[m["Line"] - 1] and m["Op"].startswith("rare") == RARE]
    rnd.shuffle(ms)
    jobs += [(f, m) for m in ms[:CAP]]
done = set()
if os.path.exists(OUT):
    done = {tuple(json.loads(l)["key"]) for l in open(OUT)}
rnd.shuffle(jobs)
q = queue.Queue()
for f, m in jobs:
    if (f, m["Off"], m["Len"], m["New"]) not in done:
        q.put((f, m))
print(q.qsize(), "mutants", flush=True)
lock = threading.Lock()


def ns(tree, cmd, timeout):
    sh = "mount --bind %s /repo && cd /repo && %s" % (tree, cmd)
    p = subprocess.Popen(["unshare", "-Urmpf", "--mount-proc", "--kill-child", "bash", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


ENV = "export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build; "


def work(n):
    t = "%s/w%d" % (ROOT, n)
    if os.path.exists(t):
        shutil.rmtree(t)
    subprocess.run(["cp", "-a", "/repo", t], check=True)
    while True:
        try:
            f, m = q.get_nowait()
        except queue.Empty:
            return
        p = os.path.join(t, f)
        old = open(p, "rb").read()
        new = old[:m["Off"]] + m["New"].encode() + old[m["Off"] + m["Len"]:]
        open(p, "wb").write(new)
        helper = os.path.join(os.path.dirname(p), "zz_rare.go")
        if RARE:
            pkg = re.search(rb"(?m)^package (\w+)", old).group(1).decode()
            open(helper, "w").write(HELP % (pkg, 6 if "cli" in f or "print" in f else 60))
        r = {"key": [f, m["Off"], m["Len"], m["New"]], "op": m["Op"], "line": m["Line"], "func": m["Func"],
             "old": old[m["Off"]:m["Off"] + m["Len"]].decode()[:200], "src": old.decode().splitlines()[m["Line"] - 1].strip()[:160]}
        t0 = time.time()
        try:
            rc, o = ns(t, ENV + "go build ./... && go test -json -vet=off -timeout 100s ./...", 200)
            passed = set()
            for l in o.splitlines():
                if l.startswith("{") and '"pass"' in l and '"Test"' in l:
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    passed.add(d["Package"] + "/" + d["Test"])
            if not passed and rc != 124:
                r["state"] = "nobuild"
            elif stable - passed:
                r["state"] = "killed"
            else:
                r["state"] = "survived"
                r["checks"] = {}
                for rx, ids in MAP:
                    if re.search(rx, f):
                        break
                for i in ids.split():
                    rc, o = ns(t, "VERIF_SEED=1 VERIF_TIER=quick python3 %s/verif/check.py %s" % (ROOT, i), 400)
                    r["checks"][i] = rc
                    if rc == 1:
                        r["state"] = "caught"
                        v = [l for l in o.splitlines() if "violation" in l.lower()]
                        r["how"] = v[0][:200] if v else ""
                        break
                    if rc != 0:
                        r.setdefault("odd", {})[i] = o[-300:]
        finally:
            open(p, "wb").write(old)
        r["secs"] = round(time.time() - t0, 1)
        with lock:
            open(OUT, "a").write(json.dumps(r) + "\n")


ts = [threading.Thread(target=work, args=(n,)) for n in range(W)]
[x.start() for x in ts]
[x.join() for x in ts]
