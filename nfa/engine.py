"""Builds the exporter, exports translation units of /repo's current tree and loads them."""
import hashlib
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from .ir import Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("NF_REPO", "/repo"))
BUILD = os.path.join(VERIF, "build")
NFX = os.path.join(BUILD, "nfx")
CACHE = os.environ.get("NF_CACHE") or os.path.join(BUILD, "cache")
LLVM = "/usr/lib/llvm-18"


class Broken(Exception):
    """the analysis itself cannot run (an error exit, never a verdict)"""


class ParseError(Broken):
    """a translation unit does not compile"""


def filehash(p, _c={}):
    try:
        st = os.stat(p)
    except OSError:
        return None
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in _c:
        with open(p, "rb") as f:
            _c[k] = hashlib.sha256(f.read()).hexdigest()
    return _c[k]


def ensure_nfx():
    src = os.path.join(VERIF, "tool", "nfx.cpp")
    stamp = NFX + ".stamp"
    want = filehash(src)
    if os.path.exists(NFX) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True).stdout.split()
    flags = [f for f in flags if not f.startswith("-std=")]
    tmp = NFX + ".%d" % os.getpid()
    r = subprocess.run(["clang++", "-std=c++17", "-O1", "-fno-rtti"] + flags + [
        src, "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so"],
        capture_output=True, text=True)
    if r.returncode:
        raise Broken("cannot build the exporter: " + r.stderr[-2000:])
    os.rename(tmp, NFX)
    with open(stamp, "w") as f:
        f.write(want)


def resource_dir(_c=[]):
    if not _c:
        _c.append(subprocess.run(["clang++", "-print-resource-dir"], capture_output=True, text=True).stdout.strip())
    return _c[0]


CORE_SRC = ["src/core/dictionary.cpp", "src/core/tokenList.cpp", "src/core/demangle.cpp",
            "src/core/database/document.cpp", "src/core/database/collection.cpp",
            "src/core/database/database.cpp",
            "src/finiteVolume/cellCentred/stencil/stencilDataBase.cpp",
            "src/linearAlgebra/utilities.cpp"]


# needs a library that is not here / is not part of the build
NOT_BUILT = ["src/linearAlgebra/ginkgo.cpp", "src/finiteVolume/cellCentred/operators/expression.cpp"]
OUTSIDE = ("full", "names", "solvers")
SOLVER_SRC = ["src/linearAlgebra/ginkgo.cpp", "src/linearAlgebra/utilities.cpp", "src/core/dictionary.cpp"]
MPI_SRC = ["src/core/mpi/halfDuplexCommBuffer.cpp", "src/mesh/unstructured/communicator.cpp"]


def umbrella():
    """a source file that includes every header of the library, as its generated umbrella header does"""
    inc = os.path.join(REPO, "include")
    hs = []
    for d, _, fs in os.walk(os.path.join(inc, "NeoFOAM")):
        hs += [os.path.relpath(os.path.join(d, f), inc) for f in fs if f.endswith(".hpp")]
    text = "".join('#include "%s"\n' % h for h in sorted(hs))
    out = os.path.join(CACHE, "umbrella_%s.cpp" % hashlib.sha256(text.encode()).hexdigest()[:12])
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        with open(out + ".%d" % os.getpid(), "w") as f:
            f.write(text)
        os.rename(out + ".%d" % os.getpid(), out)
    return out


def variant(name):
    """(list of (tu name, source path, flags))"""
    base = ["-std=c++20", "-I" + REPO + "/include", "-DNF_WITH_GINKGO=0", "-DNF_WITH_PETSC=0",
            "-DNEOFOAM_DP_SCALAR=1", "-resource-dir=" + resource_dir()]
    models = os.path.join(VERIF, "models")
    mpi = ["-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-DNF_WITH_MPI_SUPPORT"]
    if name == "core":
        tus = [("driver", os.path.join(models, "core_driver.cpp"), base)]
        tus += [(s, os.path.join(REPO, s), base) for s in CORE_SRC]
        return tus
    if name == "debug":
        b = base + ["-DNF_DEBUG", "-I" + os.path.join(models, "kokkos")]
        return [("debug_driver", os.path.join(models, "debug_driver.cpp"), b)]
    if name in ("mpi", "mpithread"):
        b = base + mpi + ["-I" + os.path.join(models, "kokkos")]
        if name == "mpithread":
            b.append("-DNF_REQUIRE_MPI_THREAD_SUPPORT")
        return [(name + "_driver", os.path.join(models, "mpi_driver.cpp"), b)]
    if name.startswith("err"):
        b = base + ["-I" + os.path.join(models, "kokkos")]
        if "debug" in name:
            b.append("-DNF_DEBUG")
        if "trace" in name:
            b.append("-DNF_DEBUG_MESSAGING")
        if "header" in name:
            b.append("-DNFPROBE_HEADER_ONLY")
        return [(name + "_driver", os.path.join(models, "err_driver.cpp"), b)]
    if name == "solvers":
        b = [f.replace("NF_WITH_GINKGO=0", "NF_WITH_GINKGO=1").replace("NF_WITH_PETSC=0", "NF_WITH_PETSC=1") for f in base]
        b += ["-I" + os.path.join(models, d) for d in ("solverlibs", "stubs", "kokkos")]
        return [("solvers_driver", os.path.join(models, "solvers_driver.cpp"), b)] + [
            (s, os.path.join(REPO, s), b) for s in SOLVER_SRC if os.path.exists(os.path.join(REPO, s))]
    if name in ("full", "names"):
        b = base + ["-I" + os.path.join(models, "stubs"), "-I" + os.path.join(models, "kokkos")]
        if name == "names":
            # what the umbrella header of the library includes, and nothing else
            out = [("names_headers", umbrella(), b + mpi)]
        else:
            out = [("full_" + f[:-4], os.path.join(models, "full", f), b + mpi)
                   for f in sorted(os.listdir(os.path.join(models, "full"))) if f.endswith(".cpp")]
        for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, REPO)
                if f.endswith(".cpp") and rel not in NOT_BUILT:
                    out.append((rel, p, b + (mpi if rel in MPI_SRC else [])))
        return out
    raise KeyError(name)


def export(tu):
    """path of the exported JSON of one TU (from the cache when nothing it read has changed)"""
    name, src, flags = tu
    if not os.path.exists(src):
        raise Broken("source file vanished: " + src)
    key = hashlib.sha256(repr((name, src, flags, filehash(NFX))).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, key + ".json")
    dep = os.path.join(CACHE, key + ".dep")
    try:
        with open(dep) as f:
            d = json.load(f)
        if os.path.exists(out) and all(filehash(p) == h for p, h in d.items()):
            return out
    except (OSError, ValueError):
        pass
    os.makedirs(CACHE, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    r = subprocess.run([NFX, tmp, REPO + ":" + os.path.join(VERIF, "models"), src] + flags,
                       capture_output=True, text=True)
    if r.returncode or not os.path.exists(tmp):
        if os.path.exists(tmp):
            os.unlink(tmp)
        raise (ParseError if "error:" in (r.stderr or "") or "errors generated" in (r.stderr or "") else Broken)("exporter failed on %s: %s" % (src, (r.stderr or r.stdout)[-1500:]))
    with open(tmp) as f:
        j = json.load(f)
    if j["errors"]:
        os.unlink(tmp)
        raise ParseError("%s does not parse (%d errors): %s" % (src, j["errors"], r.stderr[-1500:]))
    deps = {p: filehash(p) for p in j["files"] if filehash(p)}
    for p in j.get("deps", ()):
        deps[p] = filehash(p)
    deps[src] = filehash(src)
    os.rename(tmp, out)
    with open(dep + ".%d" % os.getpid(), "w") as f:
        json.dump(deps, f)
    os.rename(dep + ".%d" % os.getpid(), dep)
    return out


_loaded = {}


def skipped():
    """files of the programs loaded so far that do not parse"""
    return sorted(n for P in _loaded.values() for n in P.skipped)


def load(name, _c=_loaded):
    if name in _c:
        return _c[name]
    ensure_nfx()
    tus = variant(name)

    def attempt(tu):
        try:
            return export(tu)
        except ParseError as e:
            # code outside the build: the stand-in headers may lack what a rewritten file now uses
            if name not in OUTSIDE:
                raise
            return e
        except Broken:
            if name not in OUTSIDE or os.path.exists(tu[1]):
                raise
            return ParseError("vanished: " + tu[1])
    with ThreadPoolExecutor(8) as ex:
        paths = list(ex.map(attempt, tus))
    P = Program()
    P.skipped = {}
    for (n, s, _), p in zip(tus, paths):
        if isinstance(p, ParseError):
            P.skipped[n] = str(p)
        else:
            P.add(p, n)
    P.variant = name
    P.repo = REPO
    _c[name] = P
    return P


if __name__ == "__main__":
    ensure_nfx()
    for v in sys.argv[1:]:
        P = load(v)
        print(v, len(P.funcs), "functions", len(P.records), "records", len(P.files), "files")
