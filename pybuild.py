"""Builds the Python package for the simulator: a copy of the Python files, the Cython extension with an allocation seam,
and the core model as a library of its own for comparison.  Everything is kept in _b by the hash of what goes into it."""
import glob, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

import check as c

PY = "/opt/vp/venv/bin/python"
FLAGS = ["-std=c++17", "-O1", "-g", "-fPIC", "-fvisibility=hidden", "-DNPY_NO_DEPRECATED_API=0", '-DVERSION="sim"', "-w"]


def _query():
    r = subprocess.run([PY, "-c", "import numpy,sysconfig;print(numpy.get_include());print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                       stdout=subprocess.PIPE, text=True)
    if r.returncode:
        c.die("no Python with numpy at " + PY)
    return r.stdout.split()


def build():
    """the directory that holds the package and the libraries"""
    os.makedirs(os.path.join(c.BUILD, "o"), exist_ok=True)
    npinc, pyinc, suffix = _query()
    inc = os.path.join(c.REPO, "include")
    pkg = os.path.join(c.REPO, "python", "arcticpy")
    hdr = [c.read(f) for f in c.files(inc, ".hpp") + c.files(inc, ".h") + c.files(os.path.join(pkg, "include"), ".hpp")]
    std = c.valarray_header()
    if std:
        hdr.append(c.read(os.path.join(std[1], "valarray")))
    fl = FLAGS + std + ["-I" + inc, "-I" + os.path.join(pkg, "include")]
    # Cython
    pyx = os.path.join(pkg, "wrapper.pyx")
    wkey = c.sha(c.read(pyx), npinc)
    wcpp = os.path.join(c.BUILD, "o", "wrapper.%s.cpp" % wkey)
    if not os.path.exists(wcpp):
        d = os.path.join(c.BUILD, "cy.%d" % os.getpid())
        os.makedirs(d)
        shutil.copy(pyx, d)
        r = subprocess.run([PY, "-m", "cython", "-3", "--cplus", "wrapper.pyx", "-o", "wrapper.cpp"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            c.die("cannot translate wrapper.pyx:\n" + r.stdout[-3000:])
        os.rename(os.path.join(d, "wrapper.cpp"), wcpp)
        shutil.rmtree(d)
    jobs = []
    for f in c.files(os.path.join(c.REPO, "src"), ".cpp"):
        n = os.path.basename(f)[:-4]
        if n != "main":
            jobs.append((f, fl, c.sha(c.read(f), *hdr, *fl), "py_src_" + n))
    ncore = len(jobs)
    f = os.path.join(pkg, "src", "interface.cpp")
    jobs.append((f, fl, c.sha(c.read(f), *hdr, *fl), "py_interface"))
    wfl = fl + ["-I" + npinc, "-I" + pyinc]
    jobs.append((wcpp, wfl, c.sha(c.read(wcpp), *hdr, *wfl), "py_wrapper"))
    for n in ("simnew", "pyref"):
        f = os.path.join(c.HERE, "pyx", n + ".cpp")
        jobs.append((f, fl, c.sha(c.read(f), *hdr, *fl), "py_" + n))
    with ThreadPoolExecutor(c.WORKERS) as ex:
        res = list(ex.map(c.compile_one, jobs))
    bad = [e for o, e in res if o is None]
    if bad:
        c.die("cannot build the Python interface from %s:\n%s" % (c.REPO, "\n".join(bad)))
    objs = [o for o, e in res]
    core, iface, wrap, snew, ref = objs[:ncore], objs[ncore], objs[ncore + 1], objs[ncore + 2], objs[ncore + 3]
    pyfiles = sorted(glob.glob(os.path.join(pkg, "*.py")))
    key = c.sha(*objs, *[os.path.basename(p) for p in pyfiles], *[c.read(p) for p in pyfiles], suffix, c.read(os.path.abspath(__file__)))
    out = os.path.join(c.BUILD, "py." + key)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(os.path.join(tmp, "arcticpy"))
        for p in pyfiles:
            shutil.copy(p, os.path.join(tmp, "arcticpy"))
        for o, extra, name in ((core + [iface, wrap, snew], ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc"], "arcticpy/wrapper" + suffix), (core + [ref], [], "libpyref.so")):
            r = subprocess.run(["g++", "-shared", "-Wl,-Bsymbolic"] + extra + o + ["-o", os.path.join(tmp, name), "-lgsl", "-lgslcblas", "-lm"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                c.die("cannot link %s:\n%s" % (name, r.stdout[-3000:]))
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    os.utime(out)
    for d in glob.glob(os.path.join(c.BUILD, "py.*")):
        if d != out and time.time() - os.path.getmtime(d) > 6 * 3600:
            shutil.rmtree(d, ignore_errors=True)
    return out


def command(exe):
    return [PY, "-B", os.path.join(c.HERE, "pysim.py"), "--package", build()]
