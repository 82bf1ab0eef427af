"""Mechanical extraction of the verified text from /repo: LLVM IR of the real
translation units, and the m4-expanded reference kernels."""
import os
import subprocess
import tempfile
import shutil
import atexit
import hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = os.environ.get("VERIF_CLANG", "clang++")
OPT = "/usr/lib/llvm-18/bin/opt"
FLAGS = ["-std=c++17", "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off",
         "-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_OMP", "-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP",
         "-fopenmp", "-w", "-Wno-c++11-narrowing"]
OMP_H = """#pragma once
extern "C" { int omp_get_max_threads(void); int omp_get_num_threads(void);
int omp_get_thread_num(void); int omp_in_parallel(void); int omp_get_num_procs(void);}
"""

_dir = None


class BuildError(Exception):
    pass


def scratch():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix="verif_")
        os.makedirs(_dir + "/inc")
        with open(_dir + "/inc/omp.h", "w") as f:
            f.write(OMP_H)
        owner = os.getpid()

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(_dir, ignore_errors=True)
        atexit.register(clean)
    return _dir


def use(d):
    global _dir
    _dir = d


TRAP = ("-fsanitize=signed-integer-overflow", "-fsanitize-undefined-trap-on-error")


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(f"{' '.join(cmd)[:300]} failed:\n{r.stderr[-2000:]}")
    return r.stdout


def ir(src, extra=()):
    """path of the mem2reg'd IR of a C++ source file"""
    d = scratch()
    key = os.path.basename(src).replace(".cpp", "") + "_" + hashlib.md5((src + repr(extra)).encode()).hexdigest()[:8]
    out = f"{d}/{key}.m.ll"
    if os.path.exists(out):
        return out
    tmp = f"{d}/{key}.{os.getpid()}"
    run([CLANG] + FLAGS + ["-idirafter", d + "/inc", "-I" + REPO + "/src"] + list(extra) + [src, "-o", tmp + ".ll"])
    run([OPT, "-passes=mem2reg", "-S", tmp + ".ll", "-o", tmp + ".m.ll"])
    os.unlink(tmp + ".ll")
    os.rename(tmp + ".m.ll", out)
    return out


def errors(src, extra=()):
    """the complete diagnostics of a source that does not compile, or None"""
    d = scratch()
    cmd = [CLANG] + [f for f in FLAGS if f not in ("-S", "-emit-llvm")] + ["-fsyntax-only", "-ferror-limit=0", "-ftemplate-backtrace-limit=0"]
    r = subprocess.run(cmd + ["-idirafter", d + "/inc", "-I" + REPO + "/src"] + list(extra) + [src],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return None if r.returncode == 0 else r.stderr


def kernel_ir(stem):
    return ir(f"{REPO}/src/cuda/{stem}.cpp")


def fortran(stem):
    d = scratch()
    out = f"{d}/{stem}.f"
    if not os.path.exists(out):
        t = run(["m4", f"{REPO}/m4/{stem}.m4", f"-I{REPO}/m4"], cwd=REPO + "/m4")
        with open(out + f".{os.getpid()}", "w") as f:
            f.write(t)
        os.rename(out + f".{os.getpid()}", out)
    with open(out) as f:
        return f.read()


def shared_lib(stems, name, extra_src=()):
    """native build of the real kernels for counterexample replay"""
    d = scratch()
    out = f"{d}/{name}.so"
    srcs = [f"{REPO}/src/cuda/{s}.cpp" for s in stems] + list(extra_src)
    run(["g++", "-std=c++17", "-O1", "-fPIC", "-shared", "-fopenmp", "-w",
         "-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_OMP", "-DTHRUST_HOST_SYSTEM=THRUST_HOST_SYSTEM_CPP",
         "-I" + REPO + "/src"] + srcs + ["-o", out])
    return out
