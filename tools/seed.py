#!/usr/bin/env python3
"""Makes and validates planted bugs (development tool, not used by any check).

  seed.py make SPEC.py...   create seeded/<id> from specs, then validate them
  seed.py check ID...       validate existing ones again (ID or 'all')

A spec file defines SEEDS = [dict(id, prop, edits=[(file, old, new)...], pkg, demo, needs, breaks, race=False)].
Everything runs in private mount namespaces where a scratch copy lies over /repo.
"""
import concurrent.futures, json, os, re, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(HERE, "seeded")
DEMO = '''#!/bin/bash
# Runs demo_test.go as a test of package %(pkg)s of the repository in the working directory.
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$here/demo_test.go"}}
EOF
go test -count=1 -vet=off -timeout 250s %(race)s-overlay "$tmp/overlay.json" -run '^TestDemo' ./%(pkg)s
'''


def ns(tree, cmd, timeout=900, extra=""):
    sh = "mount --bind %s /repo && %s cd /repo && %s" % (tree, extra, cmd)
    try:
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def copy(name):
    d = tempfile.mkdtemp(prefix="seed-%s-" % name, dir="/tmp")
    t = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", "/repo", t], check=True)
    subprocess.run(["git", "-C", t, "checkout", "-q", "--", "."], check=True)
    return d, t


def make(s):
    out = os.path.join(SD, s["id"])
    os.makedirs(out, exist_ok=True)
    d, t = copy(s["id"])
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(t, f)
            txt = open(p).read()
            if txt.count(old) != 1:
                return "edit of %s: old text occurs %d times: %r" % (f, txt.count(old), old)
            open(p, "w").write(txt.replace(old, new))
        g = subprocess.run("gofmt -l $(git diff --name-only)", shell=True, cwd=t, capture_output=True, text=True)
        if g.stdout.strip() or g.stderr.strip():
            return "gofmt: " + g.stdout + g.stderr
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        base = subprocess.run("git log --reverse --format=%H | head -1", shell=True, cwd="/repo", capture_output=True, text=True).stdout.strip()
        removed = mine = 0
        for f in {e[0] for e in s["edits"]}:
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", f], capture_output=True, text=True).stdout.splitlines()
            txt = open(os.path.join("/repo", f)).read().splitlines()
            new = open(os.path.join(t, f)).read().splitlines()
            import difflib
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, txt, new, autojunk=False).get_opcodes():
                if tag in ("replace", "delete"):
                    for i in range(i1, i2):
                        removed += 1
                        mine += not bl[i].lstrip("^").startswith(base[:39])
        if removed == 0 or mine:
            print("   note %s: removes %d lines, %d of them not original" % (s["id"], removed, mine))
    finally:
        shutil.rmtree(d)
    if "script" in s:
        open(os.path.join(out, "demo.sh"), "w").write(s["script"])
    else:
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % dict(pkg=s["pkg"], race="-race " if s.get("race") else ""))
        open(os.path.join(out, "demo_test.go"), "w").write(s["demo"].lstrip())
        subprocess.run(["gofmt", "-w", os.path.join(out, "demo_test.go")])
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    open(os.path.join(out, "meta.json"), "a").write("\n")
    return None


def validate(i, seeds=(1,), extra_props=()):
    out = os.path.join(SD, i)
    meta = json.load(open(os.path.join(out, "meta.json")))
    d, t = copy(i)
    res = {"id": i, "prop": meta["property"]}
    demodir = os.path.join(d, "demo")
    shutil.copytree(out, demodir)
    for f in os.listdir(demodir):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.remove(os.path.join(demodir, f))
    try:
        rc, o = ns(t, "bash %s/demo.sh" % demodir, 300)
        res["demo_clean"] = rc
        if rc != 0:
            res["log"] = o[-3000:]
            return res
        a = subprocess.run(["git", "-C", t, "apply", os.path.join(out, "patch.diff")], capture_output=True, text=True)
        if a.returncode:
            res["log"] = a.stderr
            return res
        rc, o = ns(t, "bash /opt/vp/build.sh")
        res["build"] = rc
        if rc:
            res["log"] = o[-2000:]
            return res
        rc, o = ns(t, "bash /opt/vp/test.sh %s/out.json" % d)
        got = json.load(open(d + "/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        def norm(x):
            if isinstance(x, dict):
                for k in ("passed", "pass", "stable", "tests"):
                    if k in x:
                        return set(x[k])
            return set(x)
        miss = sorted(norm(base) - norm(got))
        res["tests_lost"] = miss[:5]
        if miss:
            return res
        rc, o = ns(t, "bash %s/demo.sh" % demodir, 300)
        res["demo_patched"] = rc
        if rc == 0:
            res["log"] = "demo passes with the patch"
            return res
        if "[build failed]" in o or "[setup failed]" in o:
            res["log"] = "demo does not build: " + o[-1500:]
            return res
        res["demo_out"] = o[-600:]
        caught = {}
        for sd in seeds:
            for p in (meta["property"],) + tuple(extra_props):
                rc, o = ns(t, "VERIF_SEED=%s VERIF_TIER=quick python3 %s/check.py %s" % (sd, HERE, p))
                m = re.search(r"VIOLATION property=%s.*" % p, o)
                caught["%s/%s" % (p, sd)] = (rc, bool(m), "" if m else o[-400:])
                if rc == 1 and m:
                    v = [l for l in o.splitlines() if "violation" in l.lower()]
                    caught["%s/%s" % (p, sd)] = (rc, True, v[0][:200] if v else "")
        res["check"] = caught
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def show(r):
    ok = r.get("demo_clean") == 0 and r.get("build") == 0 and r.get("tests_lost") == [] and r.get("demo_patched", 0) != 0 and "log" not in r
    c = r.get("check", {})
    caught = all(v[0] == 1 and v[1] for v in c.values()) and c
    print("%-22s %-4s valid=%s caught=%s" % (r["id"], r["prop"], ok, bool(caught)), flush=True)
    if not ok:
        print("    ", {k: v for k, v in r.items() if k not in ("log", "demo_out", "check")})
        print("     " + r.get("log", "").replace("\n", "\n     ")[:3000])
    elif not caught:
        for k, v in c.items():
            print("     %s rc=%s %s" % (k, v[0], v[2][-300:].replace("\n", " | ")))


if __name__ == "__main__":
    ids, seeds = [], (1,)
    args = sys.argv[2:]
    if "--seeds" in args:
        n = args.index("--seeds")
        seeds = tuple(args[n + 1].split(","))
        del args[n:n + 2]
    if sys.argv[1] == "make":
        for f in args:
            for s in runpy.run_path(f)["SEEDS"]:
                e = make(s)
                if e:
                    print(s["id"], "FAILED", e)
                    shutil.rmtree(os.path.join(SD, s["id"]))
                else:
                    ids.append(s["id"])
    else:
        ids = sorted(os.listdir(SD)) if args == ["all"] else args
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for r in ex.map(lambda i: validate(i, seeds), ids):
            show(r)
