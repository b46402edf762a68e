#!/usr/bin/env python3
"""Build the simulator against /repo's current working tree.

usage: build.py VARIANT   (mpi | omp)
Prints the path of the built runner. Everything goes to $OMSIM_BUILD or
/verif/.build (ignored by git)."""
import os, re, subprocess, sys, hashlib, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OMSIM_REPO", "/repo")
OUT = os.environ.get("OMSIM_BUILD", os.path.join(VERIF, ".build"))

# sources of optional back ends that are not part of this configuration
OPTIONAL = {"Omega_h_exodus.cpp", "Omega_h_stk.cpp", "Omega_h_dolfin.cpp",
            "Omega_h_egads.cpp", "Omega_h_meshb.cpp", "Omega_h_for.cpp",
            "Omega_h_adios2.cpp"}

CONFIG = """#ifndef OMEGA_H_CONFIG_H
#define OMEGA_H_CONFIG_H
#define OMEGA_H_USE_MPI
#define OMEGA_H_USE_ZLIB
#define OMEGA_H_THROW
%s
#define OMEGA_H_VERSION_MAJOR 9
#define OMEGA_H_VERSION_MINOR 34
#define OMEGA_H_VERSION_PATCH 13
#define OMEGA_H_SEMVER "9.34.13-sim"
#define OMEGA_H_COMMIT "sim"
#define OMEGA_H_CXX_FLAGS "sim"
#define OMEGA_H_CMAKE_ARGS "sim"
#endif
"""


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


# the tools' own main() functions, each under a name of its own
TOOLS = ["osh_box", "osh_part", "osh_scale", "osh_reorder", "oshdiff", "vtkdiff", "osh2vtk", "msh2osh",
         "osh_eval_implied", "osh_fix", "osh_adapt", "ascii_vtk2osh"]


def lib_sources():
    src = os.path.join(REPO, "src")
    names = sorted(n for n in os.listdir(src)
                   if n.startswith("Omega_h_") and n.endswith(".cpp") and n not in OPTIONAL)
    return [os.path.join(src, n) for n in names]


def build(variant, quiet=True):
    d = os.path.join(OUT, variant)
    os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(d, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    omp = variant == "omp"
    extra = "#define OMEGA_H_USE_OPENMP\n" if omp else "#define OMEGA_H_CHECK_BOUNDS\n"
    if os.environ.get("OMSIM_GUARD", "1") == "1":
        extra += "#define OMEGA_H_SIM\n"
    write_if_changed(os.path.join(d, "Omega_h_config.h"), CONFIG % extra)
    inc = f"-I{VERIF}/sim/include -I{d} -I{REPO}/src -I{REPO}/tpl -I{VERIF}/sim -I{VERIF}/harness"
    base = "-fPIC -fno-gnu-unique -pipe -w"
    if omp:
        lib_flags = f"-std=c++14 -O1 -g1 {base} -fopenmp -fsanitize=thread --param tsan-distinguish-volatile=0 {inc}"
        har_flags = f"-std=c++17 -O1 -g1 {base} -fopenmp -DSIM_OMP {inc}"
    else:
        lib_flags = f"-std=c++14 -O1 -g1 {base} {inc}"
        har_flags = f"-std=c++17 -O1 -g1 {base} {inc}"
    lines = ["ninja_required_version = 1.5", f"builddir = {d}",
             "rule cc", "  command = g++ $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule tool",
             "  command = g++ $flags -MMD -MF $out.d -c $in -o $out.tmp && objcopy --redefine-sym main=tool_main_$tool $out.tmp $out",
             "  depfile = $out.d", "  deps = gcc",
             "rule so",
             "  command = g++ -shared -o $out @$out.rsp -Wl,-Bsymbolic -Wl,-z,now -Wl,--wrap=malloc -Wl,--wrap=free -lz",
             "  rspfile = $out.rsp", "  rspfile_content = $in",
             "rule exe",
             "  command = g++ -rdynamic -o $out $objs -L$dir -losut -Wl,-rpath,$dir -ldl -lz",
             ""]
    objs = []
    for s in lib_sources():
        o = os.path.join(d, "lib", os.path.basename(s) + ".o")
        objs.append(o)
        lines += [f"build {o}: cc {s}", f"  flags = {lib_flags}"]
    for t in [] if omp else TOOLS:
        o = os.path.join(d, "lib", t + ".tool.o")
        objs.append(o)
        lines += [f"build {o}: tool {os.path.join(REPO, 'src', t + '.cpp')}", f"  flags = {lib_flags}", f"  tool = {t}"]
    so = os.path.join(d, "libosut.so")
    lines += [f"build {so}: so {' '.join(objs)}"]
    hobjs = []
    hs = [os.path.join(VERIF, "sim", n) for n in sorted(os.listdir(os.path.join(VERIF, "sim"))) if n.endswith(".cpp")]
    hs += [os.path.join(VERIF, "harness", n) for n in sorted(os.listdir(os.path.join(VERIF, "harness"))) if n.endswith(".cpp")]
    for s in hs:
        b = os.path.basename(s)
        if b.startswith("omp_") and not omp:
            continue
        if b.startswith("mpi_") and omp:
            continue
        o = os.path.join(d, "har", b + ".o")
        hobjs.append(o)
        fl = har_flags
        if "/sim/" in s or b == "main.cpp":
            fl = fl.replace("-fopenmp", "")
        lines += [f"build {o}: cc {s}", f"  flags = {fl}"]
    exe = os.path.join(d, "omsim")
    lines += [f"build {exe}: exe {' '.join(hobjs)} | {so}", f"  objs = {' '.join(hobjs)}", f"  dir = {d}",
              f"default {exe}", ""]
    write_if_changed(os.path.join(d, "build.ninja"), "\n".join(lines))
    jobs = os.environ.get("OMSIM_JOBS", "8")
    r = subprocess.run(["ninja", "-C", d, "-j", jobs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(2)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["mpi"]:
        print(build(v))
