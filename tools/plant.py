#!/usr/bin/env python3
"""plant.py ID [CHECK...]: confirms the planted change seeded/ID in scratch copies under /tmp/plant (it applies, builds,
passes the stable tests, its demonstration passes without it and fails with it) and runs the checks named (default: that of
its property) against it.  Development aid only; no check uses it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, **env)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "PYTHONPATH"):
        e.pop(k, None)
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def script(name, repo, out):
    """/opt/vp's scripts, for a copy of the repository."""
    s = open("/opt/vp/" + name).read().replace(". /opt/vp/env.sh", open("/opt/vp/env.sh").read())
    p = os.path.join(os.path.dirname(repo), name)
    open(p, "w").write(s.replace("/repo", repo))
    return "bash %s %s" % (p, out)


def main():
    sid, checks = sys.argv[1], sys.argv[2:]
    src = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(src, "meta.json")))
    base = "/tmp/plant/" + sid
    repo = base + "/repo"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    shutil.copytree(src, base + "/demo")
    rep = []
    try:
        assert sh(script("build.sh", repo, ""), repo).returncode == 0, "unchanged build"
        r = sh("bash %s/demo/demo.sh" % base, repo, 300)
        assert r.returncode == 0, "demo fails on the unchanged tree:\n" + r.stdout[-1500:] + r.stderr[-1500:]
        r = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (src, src), repo)
        assert r.returncode == 0, "patch: " + r.stderr
        r = sh(script("build.sh", repo, ""), repo)
        assert r.returncode == 0, "build: " + r.stderr[-2000:]
        sh(script("test.sh", repo, base + "/out.json"), repo)
        res = json.load(open(base + "/out.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = set(res.get("passed", []))
        missing = [t for t in stable if t not in passed]
        assert not missing, "tests broken: %s" % missing[:5]
        r = sh("bash %s/demo/demo.sh" % base, repo, 300)
        assert r.returncode != 0, "demo passes with the change"
        print("%s confirmed (%s): %s" % (sid, meta["property"], (r.stdout + r.stderr).strip().splitlines()[-1:]), flush=True)
        ver = base + "/verif"
        subprocess.run("mkdir -p %s && cd %s && git ls-files -co --exclude-standard | grep -v ^seeded/ | rsync -a --files-from=- . %s" % (ver, V, ver), shell=True, check=True)
        ct = ver + "/harness/Cargo.toml"
        open(ct + ".n", "w").write(open(ct).read().replace("/repo/", repo + "/"))
        os.replace(ct + ".n", ct)
        for c in checks or [meta["property"]]:
            r = sh("python3 check.py " + c, ver, 3000, VERIF_REPO=repo, VERIF_TIER=os.environ.get("VERIF_TIER", "quick"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            what = r.stderr.strip().splitlines()
            print("%s %s rc=%d %s" % (sid, c, r.returncode, "CAUGHT: " + [w for w in what if w.startswith(c)][0][:300] if r.returncode == 1 and "VIOLATION" in r.stdout
                                      else "MISSED" if r.returncode == 0 else "BROKEN " + r.stderr[-1500:]), flush=True)
    except AssertionError as e:
        print("%s NOT CONFIRMED: %s" % (sid, e), flush=True)
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(base, ignore_errors=True)


main()
