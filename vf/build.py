"""Builds irspack's four C++ extensions from /repo's working tree.

The real sources in /repo/cpp_source are compiled against the nanobind stand-in
in /verif/shim and the system's Eigen.  Results are cached under /verif/build
(git-ignored), keyed by a hash of every input, so an edit of the C++ code is
always rebuilt and an unchanged tree is built once.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SHIM = os.path.join(VERIF, "shim")
BUILD = os.path.join(VERIF, "build")

MODULES = {
    "_ials_core": ("als/wrapper.cpp", "recommenders"),
    "_knn": ("knn/wrapper.cpp", "recommenders"),
    "_util_cpp": ("util.cpp", "utils"),
    "_core_evaluator": ("evaluator.cpp", "evaluation"),
}

# plain: the ordinary build.  sched: every synchronization operation and memory
# access goes through the scheduler and race detector in shim/vf_rt.cpp.
# -O1 keeps a build in seconds; no -march so results are independent of the host.
VARIANTS = {
    "plain": ["g++", "-O1"],
    "sched": ["clang++", "-O1", "-gline-tables-only", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"],
}
WRAP = (
    "pthread_create pthread_join pthread_detach pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock "
    "pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_cond_wait pthread_cond_timedwait "
    "pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_once sched_yield nanosleep clock_nanosleep "
    "syscall malloc calloc realloc aligned_alloc posix_memalign free __cxa_guard_acquire __cxa_guard_release"
).split()


class BuildError(RuntimeError):
    pass


def _tree_digest(root, h):
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())


def build(module, variant="plain"):
    """Path of the shared object of `module` for the current tree."""
    src, _ = MODULES[module]
    cpp = os.path.join(REPO, "cpp_source")
    h = hashlib.sha256()
    _tree_digest(cpp, h)
    _tree_digest(SHIM, h)
    h.update(repr((module, variant, VARIANTS[variant], sys.version, [f for f in FLAGS() if not f.endswith("cpp_source")])).encode())
    out_dir = os.path.join(BUILD, h.hexdigest()[:24])
    out = os.path.join(out_dir, module + ".so")
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, f"lock-{module}-{variant}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        tmp = tempfile.mkdtemp(dir=BUILD)
        try:
            obj = os.path.join(tmp, module + ".so")
            cmd = VARIANTS[variant][:1] + FLAGS() + VARIANTS[variant][1:]
            if variant == "sched":
                o1 = os.path.join(tmp, "m.o")
                o2 = os.path.join(tmp, "r.o")
                _run(cmd + ["-c", os.path.join(cpp, src), "-o", o1])
                _run(["g++", "-std=c++17", "-O2", "-fPIC", "-fvisibility=hidden", "-w", "-c", os.path.join(SHIM, "vf_rt.cpp"), "-o", o2])
                _run(["g++", "-shared", "-pthread", o1, o2, "-o", obj, "-static-libstdc++", "-static-libgcc",
                      "-Wl,-Bsymbolic", "-Wl,--exclude-libs,ALL"] + ["-Wl,--wrap=" + w for w in WRAP])
            else:
                _run(cmd + ["-shared", os.path.join(cpp, src), "-o", obj])
            os.makedirs(out_dir, exist_ok=True)
            os.replace(obj, out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: " + " ".join(cmd) + "\n" + p.stdout[-4000:])


def FLAGS():
    import numpy

    return [
        "-std=c++17", "-DNDEBUG", "-fPIC", "-fvisibility=hidden", "-w", "-pthread",
        "-I" + SHIM, "-I/usr/include/eigen3",
        "-I" + os.path.join(REPO, "cpp_source"),
        "-I" + sysconfig.get_paths()["include"],
        "-I" + numpy.get_include(),
    ]


def build_many(modules, variant="plain"):
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(8) as ex:
        return dict(zip(modules, ex.map(lambda m: build(m, variant), modules)))


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        for m, p in build_many(list(MODULES), v).items():
            print(v, m, p)
