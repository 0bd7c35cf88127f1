"""Loads the sanitized native modules in place of theseus.extlib.*, and reads what the sanitizers reported."""
import contextlib
import glob
import importlib.util
import os
import sys

import torch

FOLDER = os.environ.get("RV_NATIVE", "")
SAN = os.environ.get("RV_NATIVE_SAN", "asan")
LOG = os.environ.get("RV_NATIVE_LOG", "")
MODULES = {}


def modules():
    if not MODULES:
        for so in sorted(glob.glob(os.path.join(FOLDER, SAN, "*.so"))):
            name = os.path.basename(so)[:-3]
            spec = importlib.util.spec_from_file_location(name, so)
            MODULES[name] = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(MODULES[name])
            sys.modules["theseus.extlib." + name] = MODULES[name]
    return MODULES


def counts():
    return [m._emul_counts() for m in modules().values() if hasattr(m, "_emul_counts")]


def reports(pid=None):
    """Text written by the sanitizers in this (or the given) process."""
    out = ""
    for f in sorted(glob.glob(f"{LOG}.{pid or os.getpid()}")):
        with open(f, errors="replace") as fh:
            out += fh.read()
    return out


@contextlib.contextmanager
def world():
    """A machine whose GPU is the CPU."""
    av, cu, to = torch.cuda.is_available, torch.Tensor.cuda, torch.Tensor.to

    def is_gpu(d):
        return isinstance(d, (str, torch.device)) and str(d).startswith("cuda")

    def to2(self, *a, **k):
        a = tuple("cpu" if is_gpu(x) else x for x in a)
        k = {n: "cpu" if is_gpu(x) else x for n, x in k.items()}
        return to(self, *a, **k)

    torch.cuda.is_available = lambda: True
    torch.Tensor.cuda = lambda self, *a, **k: self.clone()
    torch.Tensor.to = to2
    try:
        yield
    finally:
        torch.cuda.is_available, torch.Tensor.cuda, torch.Tensor.to = av, cu, to


def reexec(folder, san="asan"):
    """Restarts this command under the sanitizer's runtime."""
    from .build import preload
    os.execve(sys.executable, [sys.executable, "-m", "rv.run"] + sys.argv[1:], environment(folder, san))


def environment(folder, san):
    from .build import preload
    logs = os.path.join(folder, f"log-{os.getpid()}")
    os.makedirs(logs, exist_ok=True)
    log = os.path.join(logs, "san")
    e = dict(os.environ, RV_NATIVE=folder, RV_NATIVE_SAN=san, RV_NATIVE_LOG=log, LD_PRELOAD=preload(san))
    common = f"log_path={log}:print_summary=1"
    e["ASAN_OPTIONS"] = common + ":halt_on_error=1:exitcode=99:detect_leaks=0:quarantine_size_mb=64:detect_container_overflow=0:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = common + ":halt_on_error=0:print_stacktrace=1"
    return e
