"""Builds the simulators from /repo's current working tree (content-addressed cache)."""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")


class BuildError(Exception):
    pass


def _tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def repo_sources(skip=()):
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
        if not any(s in p for s in skip):
            out.append(p)
    return out


WRAP_ALLOC = ["-Wl," + ",".join("--wrap=" + s for s in
              ("malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc"))]
WRAP_RANDOM = ["-Wl,--wrap=rand,--wrap=_ZNSt13random_device9_M_getvalEv"]


def eigen_flags():
    """Eigen with its own failure-unsafe spots exempt from memory exhaustion.

    Eigen's sparse factorisation frees blocks twice, and growing a sparse matrix
    loses a block, when memory runs out inside them.  That is third-party
    behaviour, so the copy of Eigen used by the simulation tells the allocator
    not to inject a failure there, and the sparse matrix's constructors, resize
    and uncompress are repaired for it; nothing else differs."""
    src = "/usr/include/eigen3/Eigen"
    key = _hash("eigen3", open(src + "/src/SparseLU/SparseLU.h", "rb").read(), open(src + "/src/SparseCore/SparseMatrix.h", "rb").read())
    dst = os.path.join(BUILD, "eigen-" + key)
    if not os.path.exists(dst):
        tmp = dst + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        shutil.copytree(src, tmp + "/eigen3/Eigen")
        os.symlink("eigen3/Eigen", tmp + "/Eigen")
        decl = 'extern "C" void sim_alloc_exempt(int);\nnamespace { struct SimExempt { SimExempt() { sim_alloc_exempt(1); } ~SimExempt() { sim_alloc_exempt(-1); } }; }\n'
        f = tmp + "/eigen3/Eigen/src/SparseLU/SparseLU.h"
        t = open(f).read()
        for fn in ("analyzePattern(const MatrixType& mat)", "factorize(const MatrixType& matrix)"):
            t = t.replace("void SparseLU<MatrixType, OrderingType>::" + fn + "\n{", "void SparseLU<MatrixType, OrderingType>::" + fn + "\n{ SimExempt sim_exempt;")
        open(f, "w").write(t)
        f = tmp + "/eigen3/Eigen/src/SparseCore/SparseMatrix.h"
        t = open(f).read().replace("        m_data.resize(count);\n", "        { SimExempt sim_exempt; m_data.resize(count); }\n")
        # the constructors of Eigen's sparse matrix lose their blocks, and a resize keeps a dangling one, when memory runs out
        guard = " struct SimGuard { SparseMatrix& m; bool done; SimGuard(SparseMatrix& x) : m(x), done(false) {} ~SimGuard() { if (!done) { std::free(m.m_outerIndex); std::free(m.m_innerNonZeros); } } } sim_guard(*this);\n"
        a = "      check_template_parameters();\n      *this = other.derived();\n"
        assert a in t
        t = t.replace(a, guard + a + "      sim_guard.done = true;\n")
        a = "      check_template_parameters();\n      const bool needToTranspose"
        b = "        internal::call_assignment_no_alias(*this, other.derived());\n      }\n"
        assert a in t and b in t
        t = t.replace(a, guard + a).replace(b, b + "      sim_guard.done = true;\n")
        a = "        std::free(m_outerIndex);\n        m_outerIndex = static_cast"
        assert a in t
        t = t.replace(a, "        std::free(m_outerIndex); m_outerIndex = 0; m_outerSize = 0;\n        m_outerIndex = static_cast")
        a = "std::malloc(m_outerSize * sizeof(StorageIndex)));\n      for"
        assert a in t
        t = t.replace(a, "std::malloc(m_outerSize * sizeof(StorageIndex)));\n      if (!m_innerNonZeros) internal::throw_std_bad_alloc();\n      for")
        t = t.replace("#define EIGEN_SPARSEMATRIX_H\n", "#define EIGEN_SPARSEMATRIX_H\n" + decl, 1)
        open(f, "w").write(t)
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return ["-I" + dst]



def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


class Builder:
    def __init__(self):
        self.hdr = _tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(REPO, "bindings"), SIM], (".hpp", ".h", ".hxx", ".ipp", ".tpp"))
        self.jobs = []          # (out, cmd)
        self.used = []
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)

    def obj(self, src, cmd):
        """registers the compilation of src; returns the object path"""
        key = _hash(self.hdr, open(src, "rb").read(), " ".join(cmd), src)
        out = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
        self.used.append(key)
        if not os.path.exists(out) and not any(j[0] == out for j in self.jobs):
            self.jobs.append((out, cmd + ["-c", src, "-o", out + ".tmp"]))
        return out

    def run(self):
        def one(job):
            out, cmd = job
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                return "%s\n%s" % (" ".join(cmd), r.stdout[-4000:])
            os.rename(out + ".tmp", out)
            return None
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            errs = [e for e in ex.map(one, self.jobs) if e]
        if errs:
            raise BuildError(errs[0])
        self.jobs = []

    def link(self, name, objs, cmd, tail=()):
        key = _hash(name, " ".join(cmd), " ".join(tail), *sorted(objs))
        out = os.path.join(BUILD, name + "-" + key)
        if not os.path.exists(out):
            r = subprocess.run(cmd + objs + ["-o", out + ".tmp"] + list(tail), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildError(r.stdout[-4000:])
            os.rename(out + ".tmp", out)
        return out


def build_sim():
    """single-process worlds: the library without the ipopt interface"""
    b = Builder()
    cc = ["g++", "-std=c++17", "-O1", "-I" + REPO + "/include", "-I" + SIM] + eigen_flags()
    objs = [b.obj(s, cc) for s in repo_sources()]
    for s in ["sim.cpp", "alloc.cpp"] + sorted(os.path.basename(p) for p in glob.glob(SIM + "/world_*.cpp")):
        objs.append(b.obj(os.path.join(SIM, s), cc))
    b.run()
    return b.link("sim", objs, ["g++"] + WRAP_ALLOC + WRAP_RANDOM)


def build_thr():
    """thread worlds: every load, store and branch of the library is a point where the simulated scheduler may switch"""
    b = Builder()
    inc = ["-I" + REPO + "/include", "-I" + SIM, "-I/usr/include/eigen3", "-w"]
    cc = ["clang++", "-std=c++17", "-O1", "-fsanitize-coverage=edge,trace-pc,trace-loads,trace-stores"] + inc
    objs = [b.obj(s, cc) for s in repo_sources() + [os.path.join(SIM, "thr_bodies.cpp")]]
    for s in ("sim.cpp", "thr.cpp"):
        objs.append(b.obj(os.path.join(SIM, s), ["clang++", "-std=c++17", "-O2"] + inc))
    b.run()
    return b.link("thr", objs, ["clang++", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"], ("-ldl", "-lpthread"))


def build_py():
    """Python worlds: the extension module with the simulator's allocator, driven through /repo/python"""
    b = Builder()
    py = subprocess.run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"], stdout=subprocess.PIPE, text=True).stdout.strip()
    cc = ["g++", "-std=c++17", "-O1", "-fPIC", "-fvisibility=hidden", "-I" + REPO + "/include", "-I" + SIM, "-I/usr/include/eigen3", "-I" + py, "-w"]
    objs = [b.obj(s, cc) for s in repo_sources() + sorted(glob.glob(REPO + "/bindings/*.cpp")) + [os.path.join(SIM, "pyalloc.cpp")]]
    b.run()
    so = b.link("py", objs, ["g++", "-shared", "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc"])
    d = so + ".d"
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/pygsplines.so"):
        os.symlink(so, d + "/pygsplines.so")
    return ["env", "PYTHONDONTWRITEBYTECODE=1", "PYTHONHASHSEED=0", "PYTHONPATH=%s:%s/python" % (d, REPO), PYTHON, os.path.join(SIM, "pyworld.py")]


PYTHON = "/usr/bin/python3"
TARGETS = {"sim": build_sim, "thr": build_thr, "py": build_py}

if __name__ == "__main__":
    for t in sys.argv[1:] or TARGETS:
        print(TARGETS[t]())
