"""Builds the repository's native sources for the CPU, under sanitizers (see include/emul.h)."""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
ASAN = ["-fsanitize=address,undefined", "-fsanitize-recover=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread"]
UNITS = [  # module, sources, extra flags
    ("mat_mult", ["mat_mult.cu"], []),
    ("baspacho_solver", ["baspacho_solver.cpp", "baspacho_solver_cuda.cu"], ["-DTHESEUS_HAVE_CUDA", "-DNO_BASPACHO_CHECKS=1"]),
    ("cusolver_lu_solver", ["cusolver_lu_solver.cpp", "cusolver_sp_defs.cpp"], []),
]
LAUNCH = re.compile(r"([A-Za-z_]\w*(?:\s*<[^<>;]*>)?)\s*<<<(.*?)>>>\s*\(", re.S)


def split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
            continue
        depth += ch in "([{"
        depth -= ch in ")]}"
        cur += ch
    return out + [cur]


def transform(src):
    """kernel<<<grid, block>>>(args) becomes a call that runs kernel for every thread."""
    out, k = "", 0
    while True:
        m = LAUNCH.search(src, k)
        if not m:
            return out + src[k:]
        depth, e = 1, m.end()
        while depth:
            depth += src[e] == "("
            depth -= src[e] == ")"
            e += 1
        cfg = split(m.group(2))
        out += src[k:m.start()] + f"emul::launch(dim3({cfg[0]}), dim3({cfg[1]}), [&] {{ {m.group(1)}({src[m.end():e - 1]}); }})"
        k = e


def digest(ext):
    h = hashlib.sha256()
    for f in sorted(glob.glob(f"{ext}/*.cu") + glob.glob(f"{ext}/*.cpp") + glob.glob(f"{ext}/*.h")) + sorted(
            glob.glob(f"{HERE}/**/*.h", recursive=True)) + [os.path.abspath(__file__)]:
        h.update(f.rsplit("/", 1)[-1].encode() + b"\0" + open(f, "rb").read())
    return h.hexdigest()[:16]


def build(repo):
    """-> folder with asan/ and tsan/ modules."""
    import torch
    ext = os.path.join(repo, "theseus", "extlib")
    base = os.path.join(ROOT, ".build")
    out = os.path.join(base, "native-" + digest(ext))
    if os.path.exists(os.path.join(out, "done")):
        return out
    os.makedirs(base, exist_ok=True)
    for old in sorted(glob.glob(base + "/native-*"), key=os.path.getmtime)[:-2]:
        shutil.rmtree(old, ignore_errors=True)
    tmp = f"{out}.{os.getpid()}"
    T = os.path.dirname(torch.__file__)
    inc = [f"-I{HERE}/include", f"-I{ext}", f"-I{T}/include", f"-I{T}/include/torch/csrc/api/include",
           f"-I{__import__('sysconfig').get_paths()['include']}", "-I/usr/include/eigen3"]
    flags = ["-std=c++17", "-fPIC", "-shared", "-g1", "-w", f"-D_GLIBCXX_USE_CXX11_ABI={int(torch._C._GLIBCXX_USE_CXX11_ABI)}"]
    link = [f"-L{T}/lib", f"-Wl,-rpath,{T}/lib", "-lc10", "-ltorch_cpu", "-ltorch", "-ltorch_python"]
    jobs = []
    for san, sf in (("asan", ASAN + ["-O1"]), ("tsan", TSAN + ["-O1"])):
        os.makedirs(f"{tmp}/{san}")
        for mod, srcs, extra in UNITS:
            if san == "tsan" and mod == "cusolver_lu_solver":
                continue
            unit = f"{tmp}/{san}/{mod}.cpp"
            with open(unit, "w") as f:
                f.write('#include "emul.h"\n')
                if mod != "mat_mult":
                    f.write("#include <Eigen/Dense>\n")
                for s in srcs:
                    body = transform(open(f"{ext}/{s}").read())
                    body = re.sub(r"(PYBIND11_MODULE\s*\(\s*\w+\s*,\s*(\w+)\s*\)\s*\{)", r"\1 EMUL_EXPORTS(\2)", body)
                    f.write(f'#line 1 "{s}"\n{body}\n')
            cmd = ["g++"] + flags + sf + extra + inc + ["-o", f"{tmp}/{san}/{mod}.so", unit] + link
            jobs.append((f"{san}/{mod}", subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    err = ""
    for n, p in jobs:
        o, _ = p.communicate()
        if p.returncode:
            err += f"{n}: {o[:1500]}\n"
    if err:
        shutil.rmtree(tmp, ignore_errors=True)
        raise RuntimeError("native build failed\n" + err)
    open(f"{tmp}/done", "w").close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def preload(san):
    libs = ["libasan.so", "libubsan.so"] if san == "asan" else ["libtsan.so"]
    return " ".join(subprocess.check_output(["gcc", f"-print-file-name={x}"], text=True).strip() for x in libs)


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
