#!/usr/bin/env python3
"""trial.py PATCH [--demo demo.sh] [--tests] [--check C01,C02]: apply a patch to a scratch copy of /repo
and run the stable tests, the demonstration and/or checks there."""
import sys, os, json, shutil, subprocess, tempfile, argparse
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vlib"))
ap = argparse.ArgumentParser()
ap.add_argument("patch")
ap.add_argument("--demo")
ap.add_argument("--tests", action="store_true")
ap.add_argument("--check", default="")
ap.add_argument("--keep", action="store_true")
a = ap.parse_args()
d = tempfile.mkdtemp(prefix="ffv-trial-")
rc = 0
try:
    repo = os.path.join(d, "repo")
    shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "build", "*.so", "__pycache__", "*.egg-info"), symlinks=True)
    if a.patch != "none":
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + repo, os.path.abspath(a.patch)], cwd=d, capture_output=True, text=True)
        if r.returncode:
            r = subprocess.run(["patch", "-p1", "-i", os.path.abspath(a.patch)], cwd=repo, capture_output=True, text=True)
            if r.returncode:
                print("PATCH FAILED", r.stdout, r.stderr)
                sys.exit(3)
    os.environ["VERIF_REPO"] = repo
    if a.tests or a.demo:
        import build
        root = build.build(os.path.join(d, "b"))
        shutil.rmtree(os.path.join(repo, "src"))
        shutil.move(root, os.path.join(repo, "src"))
        env = dict(os.environ, PYTHONPATH=os.path.join(repo, "src"), PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", LANG="C.UTF-8")
        if a.demo:
            t = os.path.join(d, "demo")
            shutil.copytree(os.path.dirname(os.path.abspath(a.demo)), t)
            r = subprocess.run(["bash", os.path.join(t, os.path.basename(a.demo))], cwd=repo, env=env, capture_output=True, text=True, timeout=300)
            print("demo rc", r.returncode, (r.stdout + r.stderr)[-300:].strip())
        if a.tests:
            out = os.path.join(d, "j.xml")
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "--timeout=300", "--doctest-modules", "--continue-on-collection-errors", "--junitxml=" + out, "-o", "junit_family=xunit2"],
                               cwd=repo, env=env, capture_output=True, text=True)
            print("tests:", r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:])
            cli = os.path.join(d, "cli")
            os.mkdir(cli)
            os.symlink(os.path.join(repo, "tests"), os.path.join(cli, "tests"))
            import glob
            for s in sorted(glob.glob(os.path.join(repo, "tests/integration/*.sh"))):
                if s.endswith("all.sh"):
                    continue
                r = subprocess.run(["bash", s], cwd=cli, env=env, capture_output=True, text=True)
                if r.returncode:
                    print("integration FAIL", os.path.basename(s), r.stderr[-300:])
    for c in [x for x in a.check.split(",") if x]:
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), c, "quick"], capture_output=True, text=True)
        print("check", c, "rc", r.returncode)
        print(r.stdout[-1800:])
        if r.stderr.strip():
            print(r.stderr[-500:])
finally:
    if not a.keep:
        shutil.rmtree(d, ignore_errors=True)
    else:
        print(d)
