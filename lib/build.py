"""Builds what the checks run: the library from /repo's working tree with the address sanitizer, the driver,
and the Java interpretation of the reals.  Everything goes to /verif/.build, which git ignores."""
import glob
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KDL_REPO", "/repo")
BUILD = os.environ.get("KDL_BUILD", os.path.join(VERIF, ".build"))
TLA = "/opt/veriftools/tla/tla2tools.jar"
TLADEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
PYTHON = "/usr/bin/python3"
CXXFLAGS = ("-std=c++17 -O1 -g0 -fPIC -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -Wno-deprecated-declarations "
            "-fno-sanitize-address-use-after-scope -isystem /usr/include/eigen3")


class ToolError(Exception):
    """Something of the machinery failed: not a verdict on the library."""


def config_h():
    d = os.path.join(BUILD, "config")
    os.makedirs(d, exist_ok=True)
    text = open(os.path.join(REPO, "orocos_kdl/src/config.h.in")).read()
    out = []
    for line in text.splitlines():
        if line.startswith("#cmakedefine HAVE_STL_CONTAINER_INCOMPLETE_TYPES"):
            line = "#define HAVE_STL_CONTAINER_INCOMPLETE_TYPES"
        elif line.startswith("#cmakedefine"):
            line = "/* not set: %s */" % line.split()[1]
        out.append(line.replace("@KDL_VERSION@", "1.5.2").replace("@KDL_VERSION_MAJOR@", "1")
                   .replace("@KDL_VERSION_MINOR@", "5").replace("@KDL_VERSION_PATCH@", "2"))
    text = "\n".join(out) + "\n"
    p = os.path.join(d, "config.h")
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)
    return d


def python_flags():
    """The flags to compile extensions of Python with, and the module's ending."""
    r = subprocess.run([PYTHON, "-c", "import sysconfig as s; print(s.get_path('include'), s.get_config_var('EXT_SUFFIX'))"],
                       stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise ToolError("no Python to build the bindings for")
    return r.stdout.split()


def include_kdl():
    """<kdl/...> as installed: links to the headers of the working tree."""
    inc = os.path.join(BUILD, "inc")
    d = os.path.join(inc, "kdl")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, "orocos_kdl/src")
    want = {os.path.basename(f): f for f in glob.glob(src + "/*.h") + glob.glob(src + "/*.hpp") + glob.glob(src + "/*.inl")}
    want["utilities"] = os.path.join(src, "utilities")
    want["config.h"] = os.path.join(config_h(), "config.h")
    for name in os.listdir(d):
        if name not in want or os.readlink(os.path.join(d, name)) != want[name]:
            os.unlink(os.path.join(d, name))
    for name, f in want.items():
        if not os.path.lexists(os.path.join(d, name)):
            os.symlink(f, os.path.join(d, name))
    return inc


def build(target="driver"):
    """Rebuilds what changed of the driver, or of the Python module, and returns its path."""
    os.makedirs(BUILD, exist_ok=True)
    conf = config_h()
    src = os.path.join(REPO, "orocos_kdl/src")
    lib = sorted(glob.glob(src + "/*.cpp") + glob.glob(src + "/utilities/*.cpp") + glob.glob(src + "/utilities/*.cxx"))
    harness = sorted(glob.glob(os.path.join(VERIF, "harness/*.cpp")))
    lines = ["builddir = %s" % BUILD,
             "flags = %s -I%s -I%s -I%s" % (CXXFLAGS, conf, src, os.path.join(VERIF, "harness")),
             "rule cxx\n  command = g++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
             "rule link\n  command = g++ -fsanitize=address $in -o $out",
             "rule module\n  command = g++ -shared -fsanitize=address $in -o $out"]
    objs, kdl, mod = [], [], []
    for f in harness + lib:         # the harness first: its files take longest
        o = os.path.join(BUILD, "obj", ("h_" if f in harness else "k_") + os.path.basename(f) + ".o")
        objs.append(o)
        if f in lib:
            kdl.append(o)
        lines.append("build %s: cxx %s" % (o, f))
    drv = os.path.join(BUILD, "driver")
    lines.append("build %s: link %s" % (drv, " ".join(objs)))
    inc, ext = python_flags()
    lines.append("pyflags = %s -fvisibility=hidden -I%s -isystem %s" % (CXXFLAGS, include_kdl(), inc))
    for f in sorted(glob.glob(os.path.join(REPO, "python_orocos_kdl/PyKDL/*.cpp"))):
        o = os.path.join(BUILD, "obj", "p_" + os.path.basename(f) + ".o")
        mod.append(o)
        lines.append("build %s: cxx %s\n  flags = $pyflags" % (o, f))
    py = os.path.join(BUILD, "py", "PyKDL" + ext)
    lines.append("build %s: module %s" % (py, " ".join(mod + kdl)))
    want = py if target == "module" else drv
    text = "\n".join(lines) + "\n"
    p = os.path.join(BUILD, "build.ninja")
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)
    r = subprocess.run(["ninja", "-C", BUILD, want], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise ToolError("the library, the driver or the Python module does not build")
    return want


def python_driver():
    """The command of the Python driver, and the environment it needs."""
    mod = build("module")
    libs = []
    for name in ("libasan.so", "libstdc++.so"):
        r = subprocess.run(["g++", "-print-file-name=" + name], stdout=subprocess.PIPE, text=True)
        libs.append(os.path.realpath(r.stdout.strip()))
    return [PYTHON, os.path.join(VERIF, "harness", "pydriver.py")], \
        {"LD_PRELOAD": " ".join(libs), "PYTHONPATH": os.path.dirname(mod), "PYTHONMALLOC": "malloc", "PYTHONDONTWRITEBYTECODE": "1"}


def build_java():
    src = sorted(glob.glob(os.path.join(VERIF, "java/kdlspec/*.java")))
    out = os.path.join(BUILD, "classes")
    stamp = os.path.join(out, "stamp")
    if os.path.exists(stamp) and all(os.path.getmtime(f) <= os.path.getmtime(stamp) for f in src):
        return out
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["javac", "-nowarn", "-d", out, "-cp", TLA] + src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout)
        raise ToolError("javac failed")
    open(stamp, "w").close()
    return out


if __name__ == "__main__":
    build_java()
    print(build())
    print(build("module"))
