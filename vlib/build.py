"""Scratch build of the package under test from /repo's working tree.

Copies /repo/src (without build products) to a temporary directory and compiles
the three Cython extensions there; nothing is written to /repo.
"""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf, sysconfig, json

REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"
EXTS = ("hash_indexers", "ngrams", "explicit_indexer")


class BuildError(Exception):
    pass


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def copy_tree(dst):
    src = os.path.join(REPO, "src")
    gen = {e + ".c" for e in EXTS}

    def ignore(d, names):
        return [n for n in names if n.endswith((".so", ".pyc", ".egg-info")) or n == "__pycache__"
                or (n in gen and os.path.basename(d) == "subword")]
    shutil.copytree(src, os.path.join(dst, "src"), ignore=ignore)


def build(dst):
    """Returns the directory to put on PYTHONPATH."""
    copy_tree(dst)
    root = os.path.join(dst, "src")
    inc = subprocess.check_output([VENV_PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"], text=True).split()
    sub = os.path.join(root, "finalfusion", "subword")

    def one(ext):
        pyx = "finalfusion/subword/%s.pyx" % ext
        if not os.path.exists(os.path.join(root, pyx)):
            return
        _run([VENV_PY, "-m", "cython", "-3", pyx], root)
        c = ["finalfusion/subword/%s.c" % ext]
        if ext == "hash_indexers":
            c.append("fnv/hash_64a.c")
        _run(["gcc", "-O1", "-fwrapv", "-shared", "-fPIC", "-I" + inc[0], "-Ifnv", "-Iinclude", *c, "-o",
              "finalfusion/subword/%s%s" % (ext, inc[1])], root)
    # additional extension modules (if the tree grows one) are compiled too
    exts = [f[:-4] for f in sorted(os.listdir(sub)) if f.endswith(".pyx")]
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(one, exts))
    return root


if __name__ == "__main__":
    d = tempfile.mkdtemp(prefix="ffv-build-")
    try:
        print(build(d))
    finally:
        shutil.rmtree(d)
