"""Build irspack's C++ extensions from /repo's current tree (with the nanobind
stand-in in /verif/shim) and make the real package importable from /repo/src.

Nothing is written to /repo: objects go to /verif/.cache (git-ignored), keyed by
a hash of the sources, the stand-in and the flags; irspack._version (generated
by the packaging step upstream) is injected as a module.
"""
from __future__ import annotations

import hashlib
import importlib.machinery
import importlib.util
import os
import shlex
import subprocess
import sys
import sysconfig
import types
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("IRSPACK_REPO", "/repo"))
SHIM = VERIF / "shim"
CACHE = Path(os.environ.get("VERIF_CACHE", str(VERIF / ".cache")))

EXTENSIONS = {
    "irspack.recommenders._ials_core": "als/wrapper.cpp",
    "irspack.recommenders._knn": "knn/wrapper.cpp",
    "irspack.utils._util_cpp": "util.cpp",
    "irspack.evaluation._core_evaluator": "evaluator.cpp",
}
FLAGS = ["-std=c++17", "-O1", "-DNDEBUG", "-fPIC", "-shared",
         "-fvisibility=hidden", "-w", "-pthread"]


class BuildError(RuntimeError):
    pass


def _tree_hash(paths) -> str:
    h = hashlib.sha256()
    for root in paths:
        for p in sorted(root.rglob("*")):
            if p.is_file() and p.suffix in (".h", ".hpp", ".cpp", ".hh", ".cc", ".inc"):
                h.update(str(p.relative_to(root)).encode())
                h.update(p.read_bytes())
    return h.hexdigest()


WRAPPED = ("malloc calloc realloc posix_memalign aligned_alloc _Znwm _Znam _ZnwmSt11align_val_t _ZnamSt11align_val_t _ZnwmRKSt9nothrow_t "
           "memcpy memmove memset __memset_chk __memcpy_chk __memmove_chk memcmp "
           "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_wait "
           "__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort "
           "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE").split()


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(p.stdout[:3000])


def build_scheduler() -> Path:
    """The run time that schedules the workers of instrumented extensions."""
    src = SHIM / "sched" / "runtime.cpp"
    out = CACHE / ("sched-" + hashlib.sha256(src.read_bytes()).hexdigest()[:20])
    out.mkdir(parents=True, exist_ok=True)
    so = out / "libvsched.so"
    if not so.exists():
        tmp = out / f"{os.getpid()}.tmp"
        _run(["g++", "-std=c++17", "-O2", "-fPIC", "-fvisibility=hidden", "-w", "-pthread", "-shared", str(src), "-o", str(tmp)])
        os.replace(tmp, so)
    return so


def build_extensions(names=None, flags=None, sched=False) -> dict:
    """sched: instrumented, so that lib/sched.py decides how workers interleave"""
    names = list(names or EXTENSIONS)
    flags = list(flags or FLAGS)
    src = REPO / "cpp_source"
    link = []
    if sched:
        so = build_scheduler()
        flags = flags + ["-fsanitize=thread"]
        # the sanitizer's run time is replaced by ours
        link = [*[f"-Wl,--wrap={w}" for w in WRAPPED], f"-L{so.parent}", "-lvsched", f"-Wl,-rpath,{so.parent}"]
    key = hashlib.sha256((_tree_hash([src, SHIM]) + repr(flags) + repr(link)).encode()).hexdigest()[:20]
    out = CACHE / ("ext-" + key)
    out.mkdir(parents=True, exist_ok=True)
    procs, result = [], {}
    for name in names:
        so = out / (name + ".so")
        result[name] = so
        if so.exists():
            continue
        tmp = out / f"{name}.{os.getpid()}.tmp"
        cmd = ["g++", *flags, f'-DNBSHIM_FULLNAME="{name}"', f"-I{SHIM}",
               f"-I{sysconfig.get_paths()['include']}", "-I/usr/include/python3.12",
               "-I/usr/include/eigen3", f"-I{src}", str(src / EXTENSIONS[name]),
               "-o", str(tmp)]
        if sched:
            cmd[cmd.index("-shared")] = "-c"
            cmd[-1] += ".o"
            cmd = ["sh", "-c", shlex.join(cmd) + " && " + shlex.join(["g++", "-shared", "-pthread", cmd[-1], *link, "-o", str(tmp)]) + " && rm " + shlex.quote(cmd[-1])]
        procs.append((name, tmp, so, subprocess.Popen(
            cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    errors = []
    for name, tmp, so, p in procs:
        log, _ = p.communicate()
        if p.returncode:
            errors.append(f"{name}:\n{log[:3000]}")
            tmp.unlink(missing_ok=True)
        else:
            os.replace(tmp, so)
    if errors:
        raise BuildError("\n".join(errors))
    return result


class _ExtFinder:
    def __init__(self, mapping):
        self.mapping = mapping

    def find_spec(self, fullname, path=None, target=None):
        so = self.mapping.get(fullname)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, str(so))
        return importlib.util.spec_from_file_location(fullname, str(so), loader=loader)


_loaded = False


def load(names=None, sched=False):
    """Make `import irspack` work against /repo/src (all extensions)."""
    global _loaded
    if _loaded:
        return
    sys.dont_write_bytecode = True
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    mapping = build_extensions(names, sched=sched)
    sys.meta_path.insert(0, _ExtFinder(mapping))
    ver = types.ModuleType("irspack._version")
    ver.__version__ = ver.version = "0.0.0+verif"
    sys.modules["irspack._version"] = ver
    sys.path.insert(0, str(REPO / "src"))
    _loaded = True


def load_bare():
    """Import only pure-python sub-packages (dataset, optimization) without
    executing irspack/__init__.py (no extension module needed)."""
    global _loaded
    if _loaded:
        return
    sys.dont_write_bytecode = True
    pkg = types.ModuleType("irspack")
    pkg.__path__ = [str(REPO / "src" / "irspack")]
    sys.modules["irspack"] = pkg
    _loaded = True
