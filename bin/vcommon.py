import os, subprocess, sys, json, glob, time, shutil, re
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
REDIR = ["malloc", "calloc", "realloc", "free", "rand", "srand", "random", "sigaction", "signal", "clock_gettime", "gettimeofday", "clock",
         "vprintf", "printf", "fprintf", "puts", "putchar", "fputc", "fputs", "fwrite", "fflush"]
INC = ["include", "external/amd/include", "external/ldl/include", "external/SuiteSparse_config"]
LONG = ["-DDLONG", "-DLDL_LONG"]
# library build variants: compile flags (besides defines), extra defines
VARIANTS = {
    "base": (["-O2", "-g"], LONG + ["-DCTRLC=1"]),
    "fine": (["-O1", "-g", "-fsanitize-coverage=trace-pc"], LONG + ["-DCTRLC=1"]),
    "asan": (["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], LONG + ["-DCTRLC=1"]),
    "int": (["-O2", "-g"], ["-DCTRLC=1"]),
    "noctrlc": (["-O2", "-g"], LONG + ["-DCTRLC=0"]),
    "intnoctrlc": (["-O2", "-g"], ["-DCTRLC=0"]),
    # the documented switches in the headers: built from a copy of the tree with the switch set differently
    "quiet": (["-O2", "-g"], LONG + ["-DCTRLC=1"], {"PRINTLEVEL": "0", "PROFILING": "0"}),
    "final": (["-O2", "-g"], LONG + ["-DCTRLC=1"], {"PRINTLEVEL": "1", "PROFILING": "2"}),
    "loud": (["-O2", "-g"], LONG + ["-DCTRLC=1"], {"PRINTLEVEL": "3", "PROFILING": "2", "MI_PRINTLEVEL": "3"}),
    "noexp": (["-O2", "-g"], LONG + ["-DCTRLC=1"], {"EXPCONE": None}),
    "cone1": (["-O2", "-g"], LONG + ["-DCTRLC=1"], {"CONEMODE": "1"}),
    "cone1asan": (["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], LONG + ["-DCTRLC=1"], {"CONEMODE": "1"}),
    "noequil": (["-O2", "-g"], LONG + ["-DCTRLC=1"], {"EQUILIBRATE": "0"}),
    "altequil": (["-O2", "-g"], LONG + ["-DCTRLC=1", "-DALTERNATING_EQUIL"], {"RUIZ_EQUIL": None}),
    "oneequil": (["-O2", "-g"], LONG + ["-DCTRLC=1"], {"RUIZ_EQUIL": None}),
    "noreg": (["-O2", "-g"], LONG + ["-DCTRLC=1"], {"STATICREG": "0"}),
}
def tree(variant, bdir):
    """the source tree a variant is built from: the repository, or a copy with switches of the headers changed"""
    if len(VARIANTS[variant]) < 3: return REPO
    d = os.path.join(bdir, "tree_" + variant); shutil.rmtree(d, ignore_errors=True)
    for s in ("src", "include", "ecos_bb", "external"): shutil.copytree(os.path.join(REPO, s), os.path.join(d, s), ignore=shutil.ignore_patterns("*.o", "*.a", "*.so"))
    for h in glob.glob(os.path.join(d, "include", "*.h")):
        t = open(h, newline="", errors="surrogateescape").read(); t0 = t
        for k, val in VARIANTS[variant][2].items(): t = re.sub(r"(?m)^([ \t]*#[ \t]*define[ \t]+%s)\b[^\r\n]*?(/\*[^\r\n]*)?(?=\r?$)" % k, (lambda m: "") if val is None else (lambda m: "%s (%s) %s" % (m.group(1), val, m.group(2) or "")), t)
        if t != t0: open(h, "w", newline="", errors="surrogateescape").write(t)
    return d
def lib_sources(REPO=REPO):
    out = []
    for pat in ["src/*.c", "ecos_bb/*.c", "external/amd/src/*.c", "external/ldl/src/*.c"]:
        for f in sorted(glob.glob(os.path.join(REPO, pat))):
            if os.path.basename(f) == "amd_global.c" and False: continue
            if re.search(r"^\s*int\s+main\s*\(", open(f, errors="replace").read(), re.M): continue
            out.append(f)
    return out
LAST = ""
def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        global LAST; LAST = " ".join(cmd) + "\n" + r.stdout[-4000:]
        sys.stdout.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-4000:]))
        raise SystemExit(2)
    return r.stdout
def build_lib(variant, bdir, cc=os.environ.get("VF_CC", "gcc"), extra=tuple(os.environ.get("VF_EXTRA", "").split()), prefix=None, hooks=(), wrap=None):
    flags, defs = VARIANTS[variant][:2]; REPO = tree(variant, bdir)
    d = os.path.join(bdir, "lib_" + variant); os.makedirs(d, exist_ok=True)
    objs = []
    def one(f):
        o = os.path.join(d, os.path.relpath(f, REPO).replace("/", "_")[:-2] + ".o")
        run([cc, "-c", "-w", "-fPIC", "-U_FORTIFY_SOURCE"] + flags + list(extra) + defs + ["-I" + os.path.join(REPO, i) for i in INC] + [f, "-o", o])
        return o
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, lib_sources(REPO)))
    for h in hooks:  # references from one source file to a function of another go through hook_<name>, which the driver defines
        for o in objs:
            if any(l.split()[-1] == h for l in run(["nm", "-u", o]).splitlines()): run(["objcopy", "--redefine-sym", "%s=hook_%s" % (h, h), o])
    lib = os.path.join(d, "ecos.o")
    run(["ld", "-r", "-o", lib] + objs)
    args = []
    for s in REDIR: args += ["--redefine-sym", "%s=vf_%s" % (s, s)]
    run(["objcopy"] + args + [lib])
    und = [l.split()[-1] for l in run(["nm", "-u", lib]).splitlines()]
    if prefix:  # give every symbol the library defines a prefix, so that two builds can live in one program
        if wrap:  # a source of ours, compiled like the library and merged with it
            o = os.path.join(d, "wrap.o"); run([cc, "-c", "-w", "-fPIC", "-I" + os.path.join(VERIF, "src")] + flags + list(extra) + defs + ["-I" + os.path.join(REPO, i) for i in INC] + [os.path.join(VERIF, "src", wrap), "-o", o])
            args = []
            for s in REDIR: args += ["--redefine-sym", "%s=vf_%s" % (s, s)]
            run(["objcopy"] + args + [o]); run(["ld", "-r", "-o", lib + ".tmp", lib, o]); os.replace(lib + ".tmp", lib)
        syms = [l.split()[-1] for l in run(["nm", "--defined-only", "-g", lib]).splitlines()]
        args = []
        for s in syms: args += ["--redefine-sym", "%s=%s%s" % (s, prefix, s)]
        run(["objcopy"] + args + [lib])
    return lib, und
def links(lib, variant, bdir, part):
    """every symbol a build leaves undefined is the harness' or the C library's"""
    t = os.path.join(bdir, "linktest_" + variant); open(t + ".c", "w").write("int main(void) { return 0; }\n")
    stubs = [l.split()[-1] for l in run(["nm", "-u", lib]).splitlines() if l.split()[-1].startswith("vf_")]
    open(t + "s.c", "w").write("".join("void %s(void) {}\n" % x for x in stubs))
    run(["gcc", "-w", "-o", t, t + ".c", t + "s.c", lib, "-lm", "-lpthread"])
def build_driver(name, variant, bdir, libs, defs, src=None):
    exe = os.path.join(bdir, name); REPO = os.path.join(bdir, "tree_" + variant) if len(VARIANTS[variant]) > 2 else globals()["REPO"]
    san = ["-fsanitize=address,undefined", "-DVF_ASAN", "-fno-sanitize-recover=all"] if "-fsanitize=address,undefined" in VARIANTS[variant][0] else []
    base = ["g++", "-std=c++17", "-O2", "-g", "-w", "-I" + os.path.join(VERIF, "src")] + san + defs + ["-I" + os.path.join(REPO, i) for i in INC]
    srcs = [os.path.join(VERIF, "src", s) for s in (src or name + ".cpp", "main.cpp", "env.cpp")]
    objs = []
    def one(s):
        o = os.path.join(bdir, os.path.basename(s)[:-4] + ".o"); run(base + ["-c", s, "-o", o]); return o
    with ThreadPoolExecutor(3) as ex: objs = list(ex.map(one, srcs))
    run(["g++"] + san + ["-o", exe] + objs + libs + ["-lm", "-lpthread"])
    return exe
