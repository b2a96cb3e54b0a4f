"""Builds the resolved program from /repo's current working tree.

The real build system is configured (not built) in a scratch directory to obtain the compile commands of the library;
every unit is compiled to LLVM bitcode with the flags of the build and handed to the exporter (tool/grx.cpp)."""
import json, os, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GRACHT_REPO", "/repo")
CLANG = "/usr/bin/clang-18"
GRX = os.path.join(VERIF, "build", "grx")


class Broken(Exception):
    """the analysis could not be carried out; never a verdict"""


class Rejected(Broken):
    """the generator of the tree does not produce code that compiles for a valid description"""


def run(cmd, error=Broken, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, **kw)
    if p.returncode:
        raise error("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def tool():
    src = os.path.join(VERIF, "tool", "grx.cpp")
    if os.path.exists(GRX) and os.path.getmtime(GRX) >= os.path.getmtime(src):
        return GRX
    os.makedirs(os.path.dirname(GRX), exist_ok=True)
    flags = run(["/usr/bin/llvm-config-18", "--cxxflags"]).split()
    flags = [f for f in flags if not f.startswith("-std=")]
    ld = run(["/usr/bin/llvm-config-18", "--ldflags"]).split()
    tmp = GRX + ".%d" % os.getpid()
    run(["g++", "-O1", "-std=c++17", "-fno-rtti", src, "-o", tmp] + flags + ld + ["-lLLVM-18"])
    os.replace(tmp, GRX)
    return GRX


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="gv-")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def configure(scratch):
    b = os.path.join(scratch, "cmake")
    run(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_C_COMPILER=" + CLANG,
         "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_C_FLAGS_RELWITHDEBINFO=-O0 -g",
         "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"])
    db = json.load(open(os.path.join(b, "compile_commands.json")))
    units = {}
    for e in db:
        f = os.path.realpath(os.path.join(e["directory"], e["file"]))
        if not f.startswith(os.path.realpath(REPO) + "/runtime/"):
            continue
        cmd = shlex.split(e["command"])
        if f in units and "-fPIC" not in units[f][0]:
            continue
        units[f] = (cmd, e["directory"])
    if not units:
        raise Broken("no units of the library in the compile commands")
    return units


def compile_unit(item):
    src, (cmd, cwd), out = item
    args = []
    skip = False
    for a in cmd[1:]:
        if skip:
            skip = False
            continue
        if a in ("-o", "-MF", "-MT", "-MQ"):
            skip = True
            continue
        if a in ("-c", "-MD", "-MMD") or os.path.realpath(os.path.join(cwd, a)) == src:
            continue
        if a.startswith("-O") or a.startswith("-g") or a.startswith("-fsanitize"):
            continue
        args.append(a)
    run([CLANG] + args + ["-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w", "-emit-llvm",
                          "-c", src, "-o", out], cwd=cwd)
    return out


def export(bcs, anchors, scratch, tag):
    a = os.path.join(scratch, tag + ".anchors")
    open(a, "w").write("\n".join(anchors) + "\n")
    out = os.path.join(scratch, tag + ".json")
    run([tool(), a, out] + bcs)
    return json.load(open(out))


def runtime(scratch, anchors):
    units = configure(scratch)
    items = []
    for i, (src, c) in enumerate(sorted(units.items())):
        items.append((src, c, os.path.join(scratch, "u%d.bc" % i)))
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(compile_unit, items))
    m = export(bcs, anchors, scratch, "runtime")
    m["units"] = [os.path.relpath(s, os.path.realpath(REPO)) for s, _, _ in items]
    return m


def generate(scratch, gr, tag):
    """runs the interface generator of the tree on a service description and compiles what it wrote"""
    d = os.path.join(scratch, "gen-" + tag)
    os.makedirs(d, exist_ok=True)
    gen = os.path.join(scratch, "generator")
    if not os.path.isdir(gen):
        shutil.copytree(os.path.join(REPO, "generator"), gen, ignore=shutil.ignore_patterns("__pycache__"))
    run([sys.executable, os.path.join(gen, "parser.py"), "--service", gr, "--out", d, "--lang-c", "--server", "--client"], error=Rejected)
    return d


def compile_generated(scratch, d, name, anchors, tag):
    bcs = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".c"):
            o = os.path.join(d, f[:-2] + ".bc")
            run([CLANG, "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-w", "-emit-llvm", "-c", os.path.join(d, f), "-o", o,
                 "-I", d, "-I", os.path.join(REPO, "include")])
            bcs.append(o)
    return bcs
