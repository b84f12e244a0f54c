#!/usr/bin/env python3
"""Writes build.ninja for the harness: the four fast-mser modules from /repo's working tree plus the drivers.

usage: configure.py BUILDDIR [asan]
The flags are those of the project's own CMakeLists.txt (-O0, C++11) with the Linux shims in harness/shim."""
import glob, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
out = os.path.abspath(sys.argv[1])
san = "-fsanitize=address -fno-omit-frame-pointer" if "asan" in sys.argv[2:] else ""
os.makedirs(out, exist_ok=True)
SHIM = f"{HERE}/shim"
L = []
w = L.append
base = f"-std=c++11 -stdlib=libc++ -fopenmp -O0 -g1 -w -include {SHIM}/compat.h -I{SHIM} {san}"
w(f"rule cxx\n  command = clang++-18 {base} $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out")
w("rule ar\n  command = rm -f $out && ar qc $out $in\n  description = AR $out")
w(f"rule link\n  command = clang++-18 -stdlib=libc++ -fopenmp {san} -rdynamic -o $out $in -Wl,--start-group $libs -Wl,--end-group -Wl,--unresolved-symbols=ignore-all -lpthread\n  description = LINK $out")
MODS = ["basiclog", "basicsys", "basicmath", "basicimg"]
CV = f"-isystem {REPO}/basic_thrid_libs/lib_opencv/341/include"
SPECIAL = {
    "basiclog/src/helper.cpp": f"-include {SHIM}/pre_helper.h",
    "basicsys/src/sys_strcombine.cpp": f"-include {SHIM}/pre_sys_strcombine.h",
    "basicsys/src/sys_json.cpp": f"-include {SHIM}/pre_sys_json.h",
    "basicimg/src/img_draw_macos_impl.cpp": f"-include {SHIM}/pre_img_draw_macos_impl.h",
    "basicsys/src/sys_path.cpp": "-DfileNames=filePaths",
}
inc_all = " ".join(f"-I{REPO}/{m}/include" for m in MODS)
libs = []
for m in MODS:
    vis = [x for x in MODS if not (x == "basicmath" and m not in ("basicmath", "basicimg")) and not (x == "basicimg" and m != "basicimg")]
    flags = f"-I{REPO}/{m}/src/stdafx " + " ".join(f"-I{REPO}/{x}/include" for x in vis)
    if m == "basicimg":
        flags += " -fms-extensions " + CV
    objs = []
    for src in sorted(glob.glob(f"{REPO}/{m}/src/*.cpp")):
        rel = os.path.relpath(src, REPO)
        o = f"{out}/{m}/{os.path.basename(src)[:-4]}.o"
        w(f"build {o}: cxx {src}\n  flags = {flags} {SPECIAL.get(rel, '')}")
        objs.append(o)
    lib = f"{out}/lib{m}.a"
    w(f"build {lib}: ar {' '.join(objs)}")
    libs.append(lib)
for d in sorted(glob.glob(f"{HERE}/drv_*.cpp")):
    n = os.path.basename(d)[:-4]
    o = f"{out}/{n}.o"
    w(f"build {o}: cxx {d}\n  flags = -fms-extensions {inc_all} {CV}")
    use = libs if ("img" in n or "mser" in n) else libs[:3]
    w(f"build {out}/{n}: link {o} | {' '.join(use)}\n  libs = {' '.join(use)}")
text = "\n".join(L) + "\n"
p = f"{out}/build.ninja"
if not os.path.exists(p) or open(p).read() != text:
    open(p, "w").write(text)
