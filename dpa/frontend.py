"""Builds the clang based extractor and runs it over /repo's current sources.

Every run looks at the files of /repo as they are: a translation unit's dump is
reused only if the content of the file and of every /repo header it read is
byte-identical to what was dumped (content hash), otherwise it is extracted again.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DPA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.environ.get("DPA_CACHE") or os.path.join(BUILD, "cache")
EXTRACTOR = os.path.join(BUILD, "dpextract")
SRC = os.path.join(VERIF, "extractor", "extract.cpp")
GEN = os.path.join(VERIF, "extractor", "gen")
LEVI = os.path.join(REPO, "extern/levi/include/levi")


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (neither pass nor violation)."""


def sha(b):
    return hashlib.sha256(b).hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def build_extractor():
    os.makedirs(BUILD, exist_ok=True)
    stamp = EXTRACTOR + ".sha"
    h = sha(read(SRC))
    if os.path.exists(EXTRACTOR) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    flags = [f for f in flags if not f.startswith("-std=")]
    lib = None
    for c in ("/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1", "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18",
              "/usr/lib/llvm-18/lib/libclang-cpp.so"):
        if os.path.exists(c):
            lib = c
            break
    if not lib:
        raise AnalysisBroken("libclang-cpp 18 not found")
    tmp = EXTRACTOR + ".tmp%d" % os.getpid()
    cmd = ["clang++-18", "-O1", "-std=c++17", "-fno-rtti", "-w"] + flags + [SRC, "-o", tmp, lib,
           "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("extractor does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, EXTRACTOR)
    with open(stamp, "w") as f:
        f.write(h)


# the operators of levi are class templates: the instantiations below are what is analysed of them
LEVI_TEMPLATES = ["SumEvaluable", "SubtractionEvaluable", "SignInvertedEvaluable", "MatrixProductDerivative", "ProductEvaluable", "PowEvaluable",
                  "DivisionEvaluable", "SkewEvaluable", "TransposeEvaluable", "VeeEvaluable", "BinaryOperator", "UnaryOperator", "RowEvaluable",
                  "ColEvaluable", "ElementEvaluable", "BlockEvaluable", "CastEvaluable", "ConstructorByRows", "ConstructorByCols", "HorzcatEvaluable", "VertcatEvaluable"]
LEVI_KINDS = {"S": "double", "X": "Eigen::MatrixXd", "V": "Eigen::VectorXd", "V3": "Eigen::Vector3d", "M3": "Eigen::Matrix3d", "M34": "Eigen::Matrix<double, 3, 4>",
              "R3": "Eigen::Matrix<double, 1, 3>", "RX": "Eigen::Matrix<double, 1, Eigen::Dynamic>"}
LEVI_INST = [("Sum", "S S"), ("Sum", "X X"), ("Sum", "M3 M3"), ("Sum", "V3 X"), ("Subtraction", "S S"), ("Subtraction", "X X"), ("Subtraction", "V3 V3"),
             ("SignInverted", "S"), ("SignInverted", "X"), ("SignInverted", "M34"), ("Product", "S S"), ("Product", "S X"), ("Product", "S V3"), ("Product", "X S"),
             ("Product", "M34 S"), ("Product", "X X"), ("Product", "M3 V3"), ("Product", "M3 M34"), ("Product", "R3 V3"), ("Pow", "S"), ("Division", "S S"), ("Division", "V3 S"),
             ("Division", "X S"), ("Skew", "V3"), ("Skew", "X"), ("Transpose", "X"), ("Transpose", "V3"), ("Transpose", "M34"), ("Vee", "M3"), ("Vee", "X"),
             ("MatrixProductDerivative", "X V"), ("MatrixProductDerivative", "M3 V3")]
# (parts and compositions: operands, further template argument)
LEVI_PARTS = [("Row", "X", ""), ("Row", "M34", ""), ("Row", "V", ""), ("Row", "S", ""), ("Col", "X", ""), ("Col", "M34", ""), ("Col", "S", ""), ("Element", "X", ""),
              ("Element", "V3", ""), ("Element", "S", ""), ("Block", "X", "Eigen::MatrixXd"), ("Block", "M34", "Eigen::MatrixXd"), ("Block", "X", "Eigen::Matrix<double, 2, 2>"),
              ("Block", "M34", "Eigen::Matrix<double, 2, 2>"), ("Block", "S", "double"), ("Cast", "X M34", ""), ("Cast", "M34 X", ""), ("Cast", "S X", ""), ("Cast", "X S", ""),
              ("Cast", "S S", ""), ("ConstructorByRows", "R3", "2"), ("ConstructorByRows", "R3", "-1"), ("ConstructorByRows", "S", "2"), ("ConstructorByRows", "RX", "-1"),
              ("ConstructorByCols", "V3", "2"), ("ConstructorByCols", "V3", "-1"), ("ConstructorByCols", "S", "2"), ("ConstructorByCols", "V", "-1"),
              ("Horzcat", "X X", "Eigen::MatrixXd"), ("Horzcat", "M3 V3", "Eigen::Matrix<double, 3, 4>"), ("Vertcat", "X X", "Eigen::MatrixXd"),
              ("Vertcat", "M34 M34", "Eigen::Matrix<double, 6, 4>"), ("Vertcat", "V3 V", "Eigen::VectorXd")]


def levi_type(k):
    return "levi::Evaluable<%s>" % LEVI_KINDS[k]


def levi_class(n, a, extra=""):
    ts = [levi_type(k) for k in a.split()]
    if n == "Block":
        ts.append("levi::Evaluable<%s>" % extra)
    elif n in ("ConstructorByRows", "ConstructorByCols"):
        ts.append(extra)
    elif n in ("Horzcat", "Vertcat"):
        ts.insert(0, "levi::Evaluable<%s>" % extra)
    return "levi::%s<%s>" % (n if n in LEVI_TEMPLATES else n + "Evaluable", ", ".join(ts))


LEVI_ARGS = {"SignInverted": "x0, 0", "Skew": "x0, 0", "Transpose": "x0, 0", "Vee": "x0, 0", "Pow": "x0, 2.0", "Row": "x0, 0", "Col": "x0, 0", "Element": "x0, 0, 0",
             "Block": "x0, 0, 0, 1, 1", "Cast": "x1", "ConstructorByRows": "{x0, x0}, \"n\"", "ConstructorByCols": "{x0, x0}, \"n\"", "Horzcat": "x0, x1, \"n\"",
             "Vertcat": "x0, x1, \"n\"", "MatrixProductDerivative": "x0, x1, v"}


def levi_driver():
    """implicit instantiations: the constructor, the virtual members and what they use, as in any program using levi"""
    out = ["#include <levi/levi.h>"]
    for i, (n, a, extra) in enumerate([(n, a, "") for n, a in LEVI_INST] + LEVI_PARTS):
        ks = a.split()
        par = ["levi::ExpressionComponent<%s> x%d" % (levi_type(k), q) for q, k in enumerate(ks)] + ["std::shared_ptr<levi::VariableBase> v"]
        arg = LEVI_ARGS.get(n) or ", ".join("x%d" % q for q in range(len(ks)))
        out.append("void dpa_use_%d(%s) { %s e(%s); (void) e.evaluate(); }" % (i, ", ".join(par), levi_class(n, a, extra), arg))
    return "\n".join(out) + "\n"


LEVI_DRIVER = levi_driver()


def overlay(tmp):
    """levi::Scalar (a typedef) hides the template parameter of the same name under
    clang's lookup rules (g++ picks the parameter). The typedef is moved, in a virtual
    overlay of the current headers, to the end of levi.h. Nothing else changes."""
    fd = os.path.join(LEVI, "ForwardDeclarations.h")
    lh = os.path.join(LEVI, "levi.h")
    t = read(fd).decode()
    m = re.search(r"typedef\s+([^;]*?)\s+Scalar\s*;", t)
    moved = ""
    if m:
        moved = "namespace levi { typedef %s Scalar; }\n" % m.group(1)
        t = t[:m.start()] + t[m.end():]
    a = os.path.join(tmp, "FD.h")
    b = os.path.join(tmp, "levi.h")
    with open(a, "w") as f:
        f.write(t)
    with open(b, "w") as f:
        f.write(read(lh).decode() + "\n" + "#ifndef DPA_SCALAR\n#define DPA_SCALAR\n" + moved + "#endif\n")
    return ["-m", fd + "=" + a, "-m", lh + "=" + b]


def clang_args():
    return ["-x", "c++", "-std=gnu++17", "-DDynamicalPlanner_EXPORTS", "-I" + REPO + "/include", "-I/usr/include/eigen3",
            "-I" + REPO + "/extern/levi/include", "-I" + GEN, "-I" + REPO + "/extern/levi/deps/zupply/include",
            "-I" + REPO + "/extern/levi/deps/sharedlibpp/src", "-isystem", "/opt/vp/deps/idyntree/include",
            "-include", "cstdint", "-w", "-DNDEBUG", "-ferror-limit=0",
            "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]


def all_units():
    """name -> (file, dump roots, excluded prefixes)"""
    u = {}
    for f in sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/private/*.cpp")):
        n = os.path.splitext(os.path.basename(f))[0]
        if n == "Logger":
            continue  # not part of the build: its library (matio-cpp) is absent
        u[n] = f
    u["levi"] = "@levi"
    return u


def extra_units():
    """parsed on request only: the Logger is not part of the build here (its library, matio-cpp, is absent) and is parsed
    against declarations of what it uses of that library (extractor/gen/matioCpp)"""
    f = REPO + "/src/Logger.cpp"
    return {"Logger": f} if os.path.exists(f) else {}


def cache_key(deps):
    h = hashlib.sha256()
    for d in sorted(deps):
        try:
            h.update(d.encode() + b"\0" + read(d) + b"\0")
        except OSError:
            return None
    return h.hexdigest()


TOOLHASH = None


def toolhash():
    global TOOLHASH
    if TOOLHASH is None:
        TOOLHASH = sha(read(SRC) + json.dumps([clang_args(), LEVI_DRIVER, LEVI_TEMPLATES]).encode())[:16]
    return TOOLHASH


def extract_one(name, path):
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, name + "." + toolhash() + ".json")
    meta = out + ".meta"
    if os.path.exists(out) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m.get("repo") == REPO and cache_key(m["deps"]) == m["key"]:
                return out, "cached"
        except Exception:
            pass
    with tempfile.TemporaryDirectory(prefix="dpa") as tmp:
        ov = overlay(tmp)
        roots = ["-r", REPO + "/src", "-r", REPO + "/include"]
        main = path
        if path == "@levi":
            main = os.path.join(tmp, "levi_all.cpp")
            with open(main, "w") as f:
                f.write(LEVI_DRIVER)
            roots = ["-r", REPO + "/extern/levi/include"]
            for t in LEVI_TEMPLATES:
                roots += ["-t", t]
        o2 = os.path.join(tmp, "out.json")
        cmd = [EXTRACTOR, "-o", o2] + roots + ov + [main, "--"] + clang_args()
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
        if not os.path.exists(o2):
            raise AnalysisBroken("extraction of %s failed: %s" % (name, r.stderr[-2000:]))
        d = json.loads(read(o2))
        # roots restrict the dump; dependencies are every /repo file it read
        deps = set(d["deps"])
        deps.add(path if path != "@levi" else os.path.join(LEVI, "levi.h"))
        # levi headers count as well, whatever was dumped
        for x in glob.glob(LEVI + "/*.h"):
            deps.add(x)
        if r.returncode:
            d["errors"] = max(1, d["errors"])
            d["diag"] = r.stderr[-4000:]
        tmpout = out + ".%d" % os.getpid()
        with open(tmpout, "w") as f:
            json.dump(d, f)
        os.replace(tmpout, out)
        with open(meta + ".%d" % os.getpid(), "w") as f:
            json.dump({"deps": sorted(deps), "key": cache_key(deps), "repo": REPO}, f)
        os.replace(meta + ".%d" % os.getpid(), meta)
    return out, "extracted"


def extract(names=None):
    build_extractor()
    units = all_units()
    if names is None:
        names = list(units)
    units.update(extra_units())
    miss = [n for n in names if n not in units]
    if miss:
        raise AnalysisBroken("translation units not found: %s" % ", ".join(miss))
    res = {}
    with cf.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
        fs = {n: ex.submit(extract_one, n, units[n]) for n in names}
        for n, f in fs.items():
            res[n] = f.result()
    return res


if __name__ == "__main__":
    import time
    t = time.time()
    r = extract(sys.argv[1:] or None)
    if not sys.argv[1:]:
        try:
            r.update(extract(list(extra_units())))
        except AnalysisBroken as e:
            print(e)
    for n, (p, how) in sorted(r.items()):
        d = json.load(open(p))
        print("%-45s %-9s functions %4d records %3d errors %d  %d kB" % (n, how, len(d["functions"]), len(d["records"]), d["errors"], os.path.getsize(p) // 1024))
    print("%.1f s" % (time.time() - t))
