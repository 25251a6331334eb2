#!/usr/bin/env python3
"""Deterministic simulation of the Python package: seeded histories of calls by one or more client threads whose
interleaving (at line granularity inside the package), interrupts, failing allocations and broken output the simulator
decides.  One seed (or one replay file) is one exactly repeatable execution; every run is a process of its own.
Same command-line interface as simctl."""
import copy, ctypes, gc, hashlib, json, mmap, os, random, signal, struct, sys, threading, time, traceback

for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("MPLCONFIGDIR", "/tmp")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))

# ---------------------------------------------------------------- what a run shares with its parent
SZ = 1 << 21
NW, NF, NS = 60000, 2000, 60000
OK, VIOL, DISCARD, KNOWN, LOST = 0, 2, 3, 4, 5


class Shared:
    """header: status, nw, nf, ns, then stats; then draws, faults (index, value), switches (index, value), texts"""
    STATS = ["calls", "line_events", "task_switches", "client_threads", "exceptions_raised", "refusals", "fault_alloc_failure", "fault_interrupt",
             "fault_stdout", "injected_state_operations", "images_compared", "fault_heap_fill_pattern", "allocations", "retries_after_fault"]

    def __init__(self):
        self.m = mmap.mmap(-1, SZ)
        import numpy as np
        self.h = np.frombuffer(self.m, dtype=np.uint32, count=64)
        off = 256
        self.w = np.frombuffer(self.m, dtype=np.uint32, count=NW, offset=off); off += 4 * NW
        self.f = np.frombuffer(self.m, dtype=np.uint32, count=2 * NF, offset=off); off += 8 * NF
        self.s = np.frombuffer(self.m, dtype=np.uint32, count=2 * NS, offset=off); off += 8 * NS
        self.text = off
        self.out = np.frombuffer(self.m, dtype=np.uint64, count=4, offset=128)

    def reset(self):
        self.h[:] = 0
        self.set_text(0, "")
        self.set_text(1, "")

    def set_text(self, k, s):
        b = s.encode("utf-8", "replace")[:60000]
        o = self.text + k * 65536
        self.m[o:o + 4] = struct.pack("<I", len(b))
        self.m[o + 4:o + 4 + len(b)] = b

    def get_text(self, k):
        o = self.text + k * 65536
        n = struct.unpack("<I", self.m[o:o + 4])[0]
        return self.m[o + 4:o + 4 + n].decode("utf-8", "replace")


sh = None
plan = None


class Plan:
    def __init__(self, seed=0):
        self.seed, self.replay, self.w, self.f, self.s = seed, False, [], {}, {}

    def copy(self):
        p = Plan(self.seed)
        p.replay, p.w, p.f, p.s = True, list(self.w), dict(self.f), dict(self.s)
        return p


class Violation(Exception):
    pass


class Known(Exception):
    """a recorded finding: (id, message)"""


class Endless(BaseException):
    pass


KNOWN_IDS = set()


def known_or_violation(kid, fmt, *a):
    if kid in KNOWN_IDS:
        raise Known("%s: %s" % (kid, fmt % a if a else fmt))
    violation(fmt, *a)


class Discard(Exception):
    pass


def violation(fmt, *a):
    raise Violation(fmt % a if a else fmt)


def count(name, n=1):
    sh.h[8 + Shared.STATS.index(name)] += n


# workload choices
def w_draw(n):
    k = int(sh.h[1])
    if k >= NW:
        raise Discard()
    if plan.replay:
        v = min(plan.w[k], n - 1) if k < len(plan.w) else 0
    else:
        v = R.w.randrange(n)
    sh.w[k] = v
    sh.h[1] = k + 1
    return v


def w_chance(a, b):                      # 0 means "no", so that minimised runs are plain
    return w_draw(b) >= b - a


def w_pick(*v):
    return v[w_draw(len(v))]


def w_int(a, b):
    return a + w_draw(b - a + 1)


def fault(kinds, rate):
    """one opportunity for a fault: (kind, position) or None"""
    k = R.nf
    R.nf += 1
    if plan.replay:
        v = plan.f.get(k, 0)
    else:
        v = 0
        if R.f.random() < rate:
            kind = 1 + R.f.randrange(len(kinds))
            pos = int(2 ** (R.f.random() * 11)) - 1
            v = kind * 65536 + pos
    if not v:
        return None
    kind, pos = v >> 16, v & 65535
    if kind > len(kinds):
        return None
    n = int(sh.h[2])
    if n < NF:
        sh.f[2 * n], sh.f[2 * n + 1] = k, v
        sh.h[2] = n + 1
    return kinds[kind - 1], pos


class Ctx:
    pass


R = Ctx()

# ---------------------------------------------------------------- clients
PKG = None                               # prefix of the package's file names
class Sched:
    def __init__(self):
        self.sem, self.live, self.cur, self.n, self.rate, self.hash = [], [], 0, 0, 0, hashlib.blake2b(digest_size=8)
        self.points, self.fire, self.limit = {}, {}, 0

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                count("line_events")
                if self.limit:
                    self.limit -= 1
                    if not self.limit:
                        raise Endless()
                if me in self.fire and self.fire[me] is not None:
                    if self.fire[me] == 0:
                        self.fire[me] = None
                        count("fault_interrupt")
                        raise KeyboardInterrupt("simulated")
                    self.fire[me] -= 1
                if len(self.live) > 1:
                    self.point(me)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(PKG) else None
        return glob

    def point(self, me):
        k = self.n
        self.n += 1
        others = [t for t in self.live if t != me]
        if not others:
            return
        if plan.replay:
            v = plan.s.get(k, 0)
        else:
            v = 1 + R.s.randrange(len(others)) if R.s.random() < self.rate else 0
        if v == 0 or v > len(others):
            return
        n = int(sh.h[3])
        if n < NS:
            sh.s[2 * n], sh.s[2 * n + 1] = k, v
            sh.h[3] = n + 1
        count("task_switches")
        to = others[v - 1]
        self.hash.update(struct.pack("<IBB", k, me, to))
        self.cur = sh.h[6] = to
        self.sem[to].release()
        self.sem[me].acquire()

    def run(self, fns):
        """each function is one client; exactly one runs at any time"""
        if not plan.replay:
            self.rate = R.s.choice([0.02, 0.1, 0.3, 0.8])
        n = len(fns)
        count("client_threads", n)
        if n == 1:
            sys.settrace(self.tracer(0))
            try:
                fns[0](0)
            finally:
                sys.settrace(None)
            return
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.live = list(range(n))
        done = threading.Semaphore(0)
        errs = []

        def body(i):
            self.sem[i].acquire()
            try:
                sys.settrace(self.tracer(i))
                fns[i](i)
            except BaseException as e:
                errs.append(e)
            finally:
                sys.settrace(None)
            self.live.remove(i)
            if self.live and not errs:
                self.cur = sh.h[6] = self.live[0]
                self.sem[self.cur].release()
            else:
                done.release()
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        self.sem[0].release()
        done.acquire()
        if errs:
            raise errs[0]


class BrokenOut:
    """standard output on a full disk from the n-th write on"""
    encoding = "utf-8"

    def __init__(self, after):
        self.after, self.hit = after, False

    def write(self, s):
        if self.after >= 0:
            if self.after == 0:
                self.hit = True
                count("fault_stdout")
                raise OSError(28, "No space left on device (simulated)")
            self.after -= 1
        return len(s)

    def flush(self):
        self.write("")


import numpy as np
arctic = None
alloc = None
ref = None


def load(pkgdir):
    global arctic, alloc, ref, PKG, sh
    sys.path.insert(0, pkgdir)
    import arcticpy
    arctic = arcticpy
    PKG = os.path.join(pkgdir, "arcticpy") + os.sep
    if not arcticpy.__file__.startswith(PKG):
        print("wrong package", arcticpy.__file__)
        sys.exit(3)
    from arcticpy import wrapper
    alloc = ctypes.CDLL(wrapper.__file__)
    alloc.sim_alloc_plan.argtypes = [ctypes.c_long, ctypes.c_uint]
    alloc.sim_live.restype = ctypes.c_long
    alloc.sim_alloc_count.restype = alloc.sim_alloc_failed.restype = ctypes.c_long
    ref = ctypes.CDLL(os.path.join(pkgdir, "libpyref.so"))
    dp = ctypes.POINTER(ctypes.c_double)
    ref.pyref_add.argtypes = [dp, ctypes.c_int, ctypes.c_int, dp, dp, ctypes.c_int]
    sh = Shared()


# ---------------------------------------------------------------- requests
class Dir:
    on = False
    express = offset = 0
    w0, w1 = 0, -1
    prune_n, prune_f = 1e-10, 20

    def flat(self, traps):
        f = [1 if traps else 0, self.express, self.offset, self.w0, self.w1, self.prune_n, self.prune_f]
        if traps:
            f += self.model.flat(traps)
        return np.array(f, dtype=np.double)


class Model:
    """one detector: specification and the package's objects built from it"""

    def flat(self, traps):
        r = self.roe_spec
        f = [r["type"], r["n_pumps"], r["prescan"], r["overscan"], r["between"], r["first"], r["force"], r["integer"], len(r["dwell"])] + r["dwell"]
        f.append(len(self.ph))
        for p, q in zip(self.ph, self.frac):
            f += list(p) + [q]
        f.append(len(traps))
        for t in traps:
            f += t
        return [float(x) for x in f]


def gen_model(pump_ok=True, simple=False):
    m = Model()
    steps = w_pick(3, 2, 4) if not simple and w_chance(1, 4) else 1
    k = w_draw(12)
    typ = 1 if k == 10 else 2 if k == 11 and pump_ok and not simple else 0
    if typ == 2:
        steps = 2 * (steps if steps > 1 else 1 + w_draw(3))
    nph = steps // 2 if typ == 2 else steps
    fw = w_pick(1000., 100., 84700., 200000.)
    power = w_pick(1.0, 0.58, 0.478, 0.8)
    notch = w_pick(0., 0., 1e-7, 5.)
    m.ph = [(fw * (w_pick(1., 2., 0.5) if nph > 1 else 1.), notch, power, 0.) for _ in range(nph)]
    f = [1 + w_draw(4) if nph > 1 else 1 for _ in range(nph)]
    m.frac = [x / float(sum(f)) for x in f]
    dw = w_pick(1.0, 0.5, 2.0)
    dwell = [dw / steps * (w_pick(0.5, 1.5) if w_chance(1, 4) else 1.) for _ in range(steps)]
    m.roe_spec = dict(type=typ, n_pumps=1 + w_draw(6) if typ == 2 else -1, prescan=0, overscan=-1, between=True if typ == 2 else not w_chance(1, 4), force=False if typ == 2 else not w_chance(1, 3),
                      integer=w_chance(1, 4), first=False if typ == 1 else w_chance(1, 3), dwell=dwell)
    r = m.roe_spec
    if typ != 2:
        if w_chance(1, 3):
            r["prescan"] = w_pick(1, 3, 6)
        if w_chance(1, 4):
            r["overscan"] = 1 + w_draw(9)
    m.traps = []
    cont = w_chance(1, 8)
    for i in range(1 + w_draw(4)):
        kind = w_draw(4) if cont else w_draw(2)
        dens = fw * w_pick(0.01, 0.3, 2.0, 0.0005) * w_pick(1.0, 0.37, 2.3)
        tau = w_pick(1.0, 0.74, 4.2, 7.7, 20., 0.3)
        a = b = 0.
        if kind == 0:
            if w_chance(1, 6):
                b = w_pick(0.5, 1.0)
                a = b * w_pick(0., 0.5)
        elif kind == 1:
            a = w_pick(0.1, 1e-4, 0.5, 5.)
        else:
            tau = min(tau, 7.7)
            a = w_pick(0.1, 0.3, 0.05)
            if kind == 3:
                b = w_pick(0.1, 0.5)
        m.traps.append([kind, dens, tau, a, b])
    # the package's objects
    extra = {}
    if w_chance(1, 4):
        extra["read_noise"] = 4.
    if w_chance(1, 4):
        extra["prescan_length"] = 3
    dw_in = w_pick(0, 1, 2)
    dwell_in = dwell if dw_in == 0 else np.array(dwell) if dw_in == 1 else tuple(dwell)
    if typ == 0:
        m.roe = arctic.ROE(dwell_times=dwell_in, prescan_offset=r["prescan"], overscan_start=r["overscan"], empty_traps_between_columns=r["between"],
                           empty_traps_for_first_transfers=r["first"], force_release_away_from_readout=r["force"], use_integer_express_matrix=r["integer"], **extra)
    elif typ == 1:
        if w_chance(1, 2):
            n = min(r["prescan"], 1 + w_draw(4))
            m.normal = arctic.ROE(dwell_times=dwell_in, prescan_offset=r["prescan"] - n, overscan_start=r["overscan"], empty_traps_between_columns=r["between"],
                                  empty_traps_for_first_transfers=w_chance(1, 2), force_release_away_from_readout=r["force"], use_integer_express_matrix=r["integer"], **extra)
            m.roe = arctic.ROEChargeInjection.from_normal_roe(m.normal, n)
        else:
            m.roe = arctic.ROEChargeInjection(dwell_times=dwell_in, prescan_offset=r["prescan"], overscan_start=r["overscan"], empty_traps_between_columns=r["between"],
                                              force_release_away_from_readout=r["force"], use_integer_express_matrix=r["integer"], **extra)
    else:
        m.roe = arctic.ROETrapPumping(dwell_times=dwell_in, n_pumps=r["n_pumps"], empty_traps_for_first_transfers=r["first"], use_integer_express_matrix=r["integer"], **extra)
    if nph == 1 and w_chance(1, 2):
        kw = dict(full_well_depth=fw, well_notch_depth=notch, well_fill_power=power)
        if notch == 0 and w_chance(1, 2):
            del kw["well_notch_depth"]
        if power == 1 and w_chance(1, 2):
            del kw["well_fill_power"]
        m.ccd = arctic.CCD(**kw)
    else:
        ph = [arctic.CCDPhase(full_well_depth=p[0], well_notch_depth=p[1], well_fill_power=p[2], first_electron_fill=p[3]) for p in m.ph]
        m.ccd = arctic.CCD(phases=ph, fraction_of_traps_per_phase=m.frac if w_chance(1, 2) else np.array(m.frac))
    mk = [lambda t: arctic.TrapInstantCapture(density=t[1], release_timescale=t[2], fractional_volume_none_exposed=t[3], fractional_volume_full_exposed=t[4]),
          lambda t: arctic.TrapSlowCapture(density=t[1], release_timescale=t[2], capture_timescale=t[3]),
          lambda t: arctic.TrapInstantCaptureContinuum(density=t[1], release_timescale=t[2], release_timescale_sigma=t[3]),
          lambda t: arctic.TrapSlowCaptureContinuum(density=t[1], release_timescale=t[2], release_timescale_sigma=t[3], capture_timescale=t[4])]
    m.objs = [mk[t[0]](t) for t in m.traps]
    return m


def snap(o):
    """everything a caller can see of an object"""
    if isinstance(o, np.ndarray):
        b = o
        while isinstance(b.base, np.ndarray):
            b = b.base
        return (type(o).__name__, o.dtype.str, o.shape, o.strides, o.flags.writeable, o.tobytes(), b.tobytes() if b is not o else b"")
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snap(x) for x in o], [id(x) for x in o])
    if hasattr(o, "__dict__"):
        return (type(o).__name__, {k: snap(v) for k, v in vars(o).items()})
    if isinstance(o, dict):
        return ("dict", {k: snap(v) for k, v in o.items()})
    return repr(o)


def layout(v, kind):
    """the same values in another memory layout or type; returns the array and its values as doubles"""
    v = np.array(v, dtype=np.double)
    r, c = v.shape
    if kind == 0:
        a = v.copy()
    elif kind == 1:
        a = np.asfortranarray(v)
    elif kind == 2:
        b = np.full((2 * r, 3 * c), 777.)
        b[::2, ::3] = v
        a = b[::2, ::3]
    elif kind == 3:
        a = v[::-1, ::-1].copy()[::-1, ::-1]
    elif kind == 4:
        a = np.rint(v).astype(np.int64)
    elif kind == 5:
        a = v.astype(np.float32)
    elif kind == 6:
        a = v.copy()
        a.flags.writeable = False
    elif kind == 7:
        a = v.astype(">f8")
    elif kind == 8:
        buf = bytearray(8 * r * c + 1)
        a = np.ndarray((r, c), dtype=np.double, buffer=buf, offset=1)
        a[:] = v
    elif kind == 9:
        a = np.rint(np.abs(v)).astype(np.uint16)
    elif kind == 10:
        a = v.T.copy().T
    else:
        a = np.rint(v).astype(np.int32)[:, ::-1].copy()[:, ::-1]
    return a, np.array(a, dtype=np.double)


NLAY = 12


def gen_image(rows, cols, fw):
    style = w_draw(6)
    v = np.zeros((rows, cols))
    for i in range(rows):
        for j in range(cols):
            if style == 0:
                v[i, j] = w_pick(200., 800., 90.) if w_chance(1, 4) else 0.
            elif style == 1:
                v[i, j] = w_draw(1000)
            elif style == 2:
                v[i, j] = 100 + w_draw(3)
            elif style == 3:
                v[i, j] = w_draw(200) * fw / 100.
            elif style == 4:
                v[i, j] = w_draw(120) - 20.
            else:
                v[i, j] = fw * w_pick(1.0, 0.5, 0.1) if w_chance(1, 3) else 0.
    return v


def core(img, par, ser, ptraps, straps, allow):
    a = np.array(img, dtype=np.double, order="C", copy=True)
    dp = ctypes.POINTER(ctypes.c_double)
    f, g = par.flat(ptraps), ser.flat(straps)
    if ref.pyref_add(a.ctypes.data_as(dp), a.shape[0], a.shape[1], f.ctypes.data_as(dp), g.ctypes.data_as(dp), int(allow)):
        raise Discard()
    return a


def bounce_ref(img, kA, kv, gamma, omega, r0, r1, c0, c1):
    bias = np.zeros(img.shape)
    if kA == 0 and kv == 0:
        return bias
    if r1 == -1:
        r1 = img.shape[0]
    if c1 == -1:
        c1 = img.shape[1]
    A, B = 2 * np.exp(-gamma) * np.cos(omega), np.exp(-2 * gamma)
    for i in range(r0, r1):
        old = 0.
        for j in range(c0 + 1, c1):
            one, two = bias[i, j - 1], old
            old = one + (kA - kv) * (img[i, j] - img[i, j - 1])
            bias[i, j] = A * old - B * (two + (kA - 2 * kv) * (img[i, j] - img[i, j - 1]))
    return bias


def same(got, want, scale, rtol=1e-8):
    if not isinstance(got, np.ndarray):
        return "the result is a %s" % type(got).__name__
    if got.shape != want.shape:
        return "the result has shape %s, not %s" % (got.shape, want.shape)
    if got.dtype != np.double:
        return "the result has type %s" % got.dtype
    g = np.array(got, dtype=np.double)
    if np.array_equal(g, want, equal_nan=True):
        return None
    bad = ~(np.abs(g - want) <= rtol * scale)
    bad &= ~(np.isnan(g) & np.isnan(want))
    if not bad.any():
        return None
    i, j = np.argwhere(bad)[0]
    return "pixel [%d][%d] is %.15g instead of %.15g" % (i, j, g[i, j], want[i, j])


class Header:
    def __init__(self):
        self.d = {}

    def set(self, k, v=None, c=None):
        self.d[k] = (v, c)


SCHED = None


def call(me, fn, kinds, rate, known=None, endless=None, refuse=False):
    """runs fn with one possible fault; (result, None) or (None, exception)"""
    fl = fault(kinds, rate)
    out = None
    exc = (MemoryError, KeyboardInterrupt, OSError)
    old = sys.stdout
    out = BrokenOut(-1)
    plan_alloc, fill = -1, R.fill
    SCHED.fire[me] = None
    if fl:
        kind, pos = fl
        if kind == "alloc":
            plan_alloc = pos
        elif kind == "interrupt":
            SCHED.fire[me] = pos
        elif kind == "stdout":
            out.after = pos
    single = len(SCHED.live) <= 1
    if single:
        sys.stdout = out
        alloc.sim_alloc_plan(plan_alloc, fill)
    try:
        count("calls")
        r = fn()
        return r, None
    except exc as e:
        count("exceptions_raised")
        hit = single and (alloc.sim_alloc_failed() > 0 or out.hit) or (fl and fl[0] == "interrupt" and SCHED.fire[me] is None)
        if not hit:
            violation("%s without a fault: %s", type(e).__name__, e)
        return None, e
    except (Violation, Discard):
        raise
    except Endless:
        if endless is not None:
            known_or_violation(endless, "a call never ends")
        violation("a call never ends")
    except Exception as e:
        if refuse:
            return None, e
        if known is not None:
            k = known(e)
            if k:
                known_or_violation(k, "%s: %s", type(e).__name__, e)
        tb = traceback.extract_tb(e.__traceback__)[-1]
        violation("%s: %s (%s:%d %s)", type(e).__name__, e, os.path.basename(tb.filename), tb.lineno, tb.name)
    finally:
        if single:
            if alloc.sim_alloc_failed():
                count("fault_alloc_failure", int(alloc.sim_alloc_failed()))
            count("allocations", int(min(alloc.sim_alloc_count(), 100000)))
            alloc.sim_alloc_plan(-1, 0)
            sys.stdout = old
        SCHED.fire[me] = None
        sys.settrace(SCHED.tracer(me))


def num(x):
    return "%.6g" % x


# ---------------------------------------------------------------- C16
def describe_dir(d, traps, which):
    if not traps:
        return "%s off window [%d,%d)" % (which, d.w0, d.w1)
    r = d.model.roe_spec
    return "%s: %s traps %s phases %s fractions %s express %d offset %d window [%d,%d) prune %g/%d" % (
        which, {k: (v if k != "dwell" else [num(x) for x in v]) for k, v in r.items()}, [[t[0]] + [num(x) for x in t[1:]] for t in traps], d.model.ph,
        [num(x) for x in d.model.frac], d.express, d.offset, d.w0, d.w1, d.prune_n, d.prune_f)


def gen_dir(m, n_rows, on, w_only):
    d = Dir()
    d.model, d.on = m, on
    if on:
        pump = m.roe_spec["type"] == 2
        if not pump and w_chance(1, 4):
            d.offset = w_pick(1, 2, 5)
        d.express = w_pick(0, 0, 1, 2, 3, 1 + w_draw(n_rows + 2))
        if pump:
            d.w0 = 1 + w_draw(n_rows - 2) if n_rows > 2 else w_draw(n_rows)
            d.w1 = d.w0 + 1
        if w_chance(1, 2):
            d.prune_n = w_pick(1e-10, 1e-18, 1e-6, 0.3, 5.0)
            d.prune_f = w_pick(20, 0, 1, 2, 5)
    if not (on and m.roe_spec["type"] == 2) and w_chance(1, 4):
        d.w0 = w_draw(n_rows)
        d.w1 = d.w0 + 1 + w_draw(n_rows - d.w0)
    return d


def scen_c16():
    n_models = 1 + w_draw(3)
    models = [gen_model() for _ in range(n_models)]
    clients = w_pick(1, 1, 1, 2, 3)
    R.fill = w_pick(0, 0xa5, 0xff)
    bounces = [(w_pick(0.1, 0.02, 0.), w_pick(0.01, 0.05, 0.), w_pick(1.0, 0.3), w_pick(1.0, 2.5)) for _ in range(2)]
    pb = [arctic.PixelBounce(kA=b[0], kv=b[1], gamma=b[2], omega=b[3]) for b in bounces]
    shared_img = gen_image(w_int(1, 7), w_int(1, 6), models[0].ph[0][0])
    text = []
    ctx_lock = []

    def make_call(me, k, prev):
        mi = w_draw(len(models))
        m1, m2 = models[mi], models[w_draw(len(models))]
        which = w_draw(6)                 # 0,1,2 parallel 3 serial 4 both 5 none
        on_p, on_s = which in (0, 1, 2, 4), which in (3, 4)
        if m2.roe_spec["type"] == 2:
            on_s = False
        if on_p and on_s and m1.roe_spec["type"] == 2:
            on_s = False
        if prev is not None and w_chance(1, 3):
            img, val = prev, np.array(prev, dtype=np.double)
        else:
            v = shared_img if w_chance(1, 3) else gen_image(w_int(1, 7), w_int(1, 6), m1.ph[0][0])
            img, val = layout(v, w_draw(NLAY))
        rows, cols = val.shape
        par, ser = gen_dir(m1, rows, on_p, False), gen_dir(m2, cols, on_s, False)
        pump = on_p and m1.roe_spec["type"] == 2
        pt = m1.traps if on_p else []
        st = m2.traps if on_s else []
        # trap objects may come in any order and mix of species
        po = list(m1.objs) if on_p else None
        so = list(m2.objs) if on_s else None
        if on_p and len(po) > 1 and w_chance(1, 3):
            po = [po[i] for i in range(1, len(po))] + [po[0]]
            pt = [pt[i] for i in range(1, len(pt))] + [pt[0]]
        if not on_p and w_chance(1, 3):
            po = []
        if not on_s and w_chance(1, 3):
            so = []
        allow = 0 if w_chance(1, 4) else 1
        if not on_p and not on_s:         # nothing is clocked: whether negative values are still cut is not specified
            allow = 1
        op = w_draw(4)                    # 0,1 add  2 remove  3 add with pixel bounce
        n_it = w_draw(4) if op == 2 else 0
        bl = [pb[0]] if w_draw(2) == 0 else list(pb)
        use_bounce = op == 3 or (op == 2 and w_chance(1, 5))
        header = Header() if w_chance(1, 4) else None
        verb = 1 if w_chance(1, 4) else 0
        kw = {}
        for pre, d, objs, m in (("parallel", par, po, m1), ("serial", ser, so, m2)):
            if objs is not None:
                kw[pre + "_traps"] = objs
            if objs or w_chance(1, 3):
                kw[pre + "_roe"], kw[pre + "_ccd"] = m.roe, m.ccd
            for name, val_, dflt in (("express", d.express, 0), ("window_offset", d.offset, 0), ("window_start", d.w0, 0), ("window_stop", d.w1, -1),
                                     ("prune_n_electrons", d.prune_n, 1e-10), ("prune_frequency", d.prune_f, 20)):
                if val_ != dflt or w_chance(1, 2):
                    kw[pre + "_" + name] = val_
        if allow != 1 or w_chance(1, 2):
            kw["allow_negative_pixels"] = allow
        if use_bounce:
            kw["pixel_bounce_list"] = bl
        if header is not None:
            kw["header"] = header
        kw["verbosity"] = verb
        text.append("client %d: %s %dx%d %s%s%s image %s; %s; %s" % (me, "remove_cti x%d" % n_it if op == 2 else "add_cti", rows, cols, img.dtype, "" if allow else " no-negative",
                    " bounce" if use_bounce else "", np.array2string(val[:4, :4], precision=6, separator=" ").replace("\n", ""), describe_dir(par, pt, "parallel"), describe_dir(ser, st, "serial")))
        sh.set_text(1, " | ".join(text[-3:]))
        # what the core defines
        sys.settrace(None)

        def one(x):
            y = core(x, par, ser, pt, st, allow)
            if use_bounce:
                tot = np.zeros(y.shape)
                for o in bl:
                    b = bounces[pb.index(o)]
                    tot += bounce_ref(y, *b, par.w0, par.w1, ser.w0, ser.w1)
                y = y - tot
            return y
        if op == 2:
            want = val.copy()
            for it in range(1, n_it + 1):
                want = want + (val - one(want))
                if not allow and it == 1:
                    want[want < 0.] = 0.
        else:
            want = one(val)
        scale = max(1., np.nanmax(np.abs(val)), np.nanmax(np.abs(want)) if np.isfinite(want).any() else 1.)
        if not np.isfinite(want).all() or scale > 1e12:
            raise Discard()
        # an ill-conditioned case (the answer jumps when the input moves by a rounding error) proves nothing
        if w_chance(1, 1):
            pass
        sys.settrace(SCHED.tracer(me))
        images = [img]
        before = [snap(o) for o in images]

        def go():
            if op == 2:
                return arctic.remove_cti(img, n_it, **kw) if not positional else arctic.remove_cti(image=img, n_iterations=n_it, **kw)
            return arctic.add_cti(img, **kw) if not positional else arctic.add_cti(image=img, **kw)
        positional = w_chance(1, 3)
        kwb = {k_: snap(v_) for k_, v_ in kw.items() if k_ != "header"}

        def unchanged(when):
            sys.settrace(None)
            if [snap(o) for o in images] != before:
                violation("the caller's image was changed %s", when)
            now = {k_: snap(v_) for k_, v_ in kw.items() if k_ != "header"}
            for k_ in kwb:
                if now[k_] != kwb[k_]:
                    violation("the caller's %s was changed %s", k_, when)
            sys.settrace(SCHED.tracer(me))
        kinds = ["alloc", "interrupt", "stdout"] if clients == 1 else ["interrupt"]
        r, e = call(me, go, kinds, R.rate)
        if e is not None:
            unchanged("by a call that ended with %s" % type(e).__name__)
            count("retries_after_fault")
            r, e = call(me, go, [], 0)
        unchanged("by a call")
        sys.settrace(None)
        count("images_compared")
        if np.shares_memory(r, img):
            violation("the result shares memory with the input")
        d = same(r, want, scale)
        if d:
            violation("%s%s", "after a failed call, " if e is not None else "", d)
        if header is not None and "cticor" not in header.d and (op != 2 or n_it > 0 or True):
            violation("the header was not updated")
        R.hash.update(np.ascontiguousarray(np.array(r)).tobytes())
        sys.settrace(SCHED.tracer(me))
        return r

    def client(me):
        prev = None
        for k in range(1 + w_draw(4)):
            prev = make_call(me, k, prev)
            if clients == 1 and w_chance(1, 4):      # the user changes a setting between calls
                sys.settrace(None)
                m = models[w_draw(len(models))]
                count("injected_state_operations")
                c = w_draw(4)
                typ = m.roe_spec["type"]
                if c == 0 and typ != 2:
                    m.roe.prescan_offset = m.roe_spec["prescan"] = w_draw(5)
                elif c == 1:
                    i = w_draw(len(m.objs))
                    m.objs[i].density = m.traps[i][1] = m.traps[i][1] * 0.5
                elif c == 2:
                    m.roe.use_integer_express_matrix = m.roe_spec["integer"] = not m.roe_spec["integer"]
                elif typ == 0:
                    m.roe.force_release_away_from_readout = m.roe_spec["force"] = not m.roe_spec["force"]
                sys.settrace(SCHED.tracer(me))
            if prev is not None and w_chance(1, 6):   # or works on the image in place
                prev[...] = prev * 0.5
    SCHED.run([client] * clients)


# ---------------------------------------------------------------- C20
def noise_ref(x, y, amp, frac, smooth):
    """the documented estimate, from whole-image arrays"""
    Rn, Cn = x.shape
    d = x - y
    pad = np.zeros((Rn + 2, Cn + 2))
    pad[1:-1, 1:-1] = d
    one = np.zeros((Rn + 2, Cn + 2))
    one[1:-1, 1:-1] = 1
    s = sum(pad[i:i + Rn, j:j + Cn] for i in range(3) for j in range(3))
    n = sum(one[i:i + Rn, j:j + Cn] for i in range(3) for j in range(3))
    m = s / n
    lim, a2 = amp * frac, amp * amp

    def edge(di, dj):
        e = np.zeros_like(y)
        src = y[max(0, di):Rn + min(0, di), max(0, dj):Cn + min(0, dj)]
        dst = (slice(max(0, -di), Rn + min(0, -di)), slice(max(0, -dj), Cn + min(0, -dj)))
        e[dst] = src - y[dst]
        return np.clip(e, -lim, lim) * 4 * a2 / (e * e + 4 * a2)
    t = np.clip(d, -1, 1) * d * d / (d * d + 4 * a2) + np.clip(m, -lim, lim) * m * m / (m * m + 18 * a2) + edge(-1, 0) + edge(1, 0)
    if smooth:
        return (t + edge(0, -1) + edge(0, 1)) / 6
    return t / 4


def scen_c20():
    R.fill = w_pick(0, 0xa5, 0xff)
    clients = w_pick(1, 1, 2)
    objs = []
    for _ in range(1 + w_draw(2)):
        sp = dict(sigma=w_pick(4.0, 1.0, 10.0), ampscale=w_pick(0.2, 0.1), out=w_pick(1.0, 0.75), n_iter=w_pick(5, 1, 20, 200), serial=not w_chance(1, 3))
        objs.append((sp, arctic.ReadNoise(sigma_readnoise=sp["sigma"], amplitude_scale=sp["ampscale"], noise_model_scaling=sp["out"], n_iter=sp["n_iter"], serial=sp["serial"])))
    m = gen_model(pump_ok=False, simple=True)
    text = []

    def frames(img, rn, frac):
        return rn.generate_SR_frames_from_image(img) if frac is None else rn.generate_SR_frames_from_image(img, sr_fraction=frac)

    def client(me):
        memory = []
        for k in range(1 + w_draw(3)):
            sp, rn = objs[w_draw(len(objs))]
            op = w_draw(6)                # 0-2 frames 3 remove_cti with read noise 4 estimate 5 optimise
            rows, cols = w_int(1, 12), w_int(1, 12)
            bg = 100. + 100 * w_draw(10)
            v = np.array([[bg + sp["sigma"] * (w_draw(9) - 4) * 0.5 + (w_draw(500) if w_chance(1, 20) else 0) for _ in range(cols)] for _ in range(rows)])
            img, val = layout(v, w_pick(0, 1, 2, 3, 6, 10))
            frac = w_pick(None, 1, 1.0, 0.5, 0.0)
            text.append("client %d: op %d noise %s image %dx%d %s" % (me, op, sp, rows, cols, np.array2string(val[:3, :3], precision=5).replace("\n", "")))
            sh.set_text(1, " | ".join(text[-3:]))
            b_img, b_obj = snap(img), snap((rn.sigmaRN, rn.ampScale, rn.outScale, rn.n_iter, rn.smoothCol, rn.arcKwargs))
            roe, ccd, traps = m.roe, m.ccd, m.objs
            b_model = snap((roe, ccd, traps))
            kinds = ["alloc", "interrupt", "stdout"] if clients == 1 else ["interrupt"]
            if op <= 2:
                go = lambda: frames(img, rn, frac)
            elif op == 3:
                n_it = 1 + w_draw(2)
                go = lambda: arctic.remove_cti(img, n_it, parallel_roe=roe, parallel_ccd=ccd, parallel_traps=traps, remove_read_noise=sp["sigma"], verbosity=0)
            elif op == 4:
                other = val + np.array([[(w_draw(9) - 4) * 0.3 for _ in range(cols)] for _ in range(rows)])
                b_other = snap(other)
                go = lambda: arctic.wrapper.cy_determine_read_noise_model(img, other, sp["sigma"], sp["ampscale"], sp["serial"]) if hasattr(arctic, "wrapper") else None
            else:
                small = arctic.ReadNoise(sigma_readnoise=sp["sigma"], n_iter=2)
                seed = w_draw(1000)

                def go():
                    np.random.seed(seed)
                    small.optimise_SR_fraction(bg, n_pixels=24, subchip_size=20, parallel_roe=roe, parallel_ccd=ccd, parallel_traps=traps, verbosity=0)
                    return small.SRfrac_optimised
            if op == 3 and traps and m.roe_spec["type"] != 0 and False:
                pass

            def unchanged(when):
                sys.settrace(None)
                if snap(img) != b_img:
                    violation("the caller's image was changed %s", when)
                if snap((rn.sigmaRN, rn.ampScale, rn.outScale, rn.n_iter, rn.smoothCol, rn.arcKwargs)) != b_obj:
                    violation("the settings of the read-noise object were changed %s", when)
                if snap((roe, ccd, traps)) != b_model:
                    violation("the caller's detector was changed %s", when)
                if op == 4 and snap(other) != b_other:
                    violation("the caller's image was changed %s", when)
                sys.settrace(SCHED.tracer(me))
            if op == 5 and clients > 1:
                continue
            r, e = call(me, go, kinds, R.rate)
            if e is not None:
                unchanged("by a call that ended with %s" % type(e).__name__)
                count("retries_after_fault")
                r, e = call(me, go, [], 0)
            unchanged("by a call")
            sys.settrace(None)
            count("images_compared")
            scale = np.abs(val).max()
            if op <= 2:
                S, N = r
                for o, name in ((S, "smooth"), (N, "noise")):
                    if not isinstance(o, np.ndarray) or o.shape != val.shape:
                        violation("the %s frame has the wrong type or shape", name)
                    if np.shares_memory(o, img):
                        violation("the %s frame shares memory with the image", name)
                if not (np.abs(S + N - val) <= 1e-9 * scale).all():
                    violation("the two parts do not add up to the image: off by %g", np.nanmax(np.abs(S + N - val)))
                # the documented iteration
                x, y, noise, rms, smoother = val, val.copy(), None, 0., 1
                amp = sp["sigma"]
                close = False
                for s in range(sp["n_iter"]):
                    old = amp - rms
                    adj = noise_ref(x, y, amp, sp["ampscale"], sp["serial"])
                    y = y + adj * sp["out"] / smoother if old > 0 else y - adj * sp["out"] / smoother
                    noise = x - y
                    rms = np.sqrt(np.mean(noise ** 2))
                    chk = amp - rms
                    if abs(chk) < 1e-7 or abs(abs(chk) - 1e-4) < 1e-8 or y.min() < 0.2:
                        close = True
                    if chk * old < 0:
                        smoother += 1
                    if abs(chk) < 1e-4:
                        break
                f = 1.0 if frac is None else frac
                if not close:
                    want = noise * f
                    if not (np.abs(N - want) <= 1e-7 * scale).all():
                        i, j = np.unravel_index(np.argmax(np.abs(N - want)), N.shape)
                        violation("the noise frame is not the documented one: pixel [%d][%d] is %.12g instead of %.12g", i, j, N[i, j], want[i, j])
                R.hash.update(np.ascontiguousarray(N).tobytes())
                memory.append((img, rn, frac, N.copy()))
            elif op == 3:
                old = sys.stdout
                sys.stdout = BrokenOut(-1)
                S, N = arctic.ReadNoise(sigma_readnoise=sp["sigma"]).generate_SR_frames_from_image(np.array(val))
                sys.stdout = old
                par, ser = Dir(), Dir()
                par.model = m
                y = S
                for _ in range(n_it):
                    y = y + (val - core(y, par, ser, m.traps, [], 1) - N)
                d = same(r, y + N, max(scale, np.abs(y).max()), 1e-7)
                if d:
                    violation("correction without read noise: %s", d)
            elif op == 4 and r is not None:
                want = noise_ref(val, other, sp["sigma"], sp["ampscale"], sp["serial"])
                d = same(r, want, max(1., np.abs(want).max()), 1e-9)
                if d:
                    violation("estimate: %s", d)
            elif op == 5:
                if not np.isfinite(r) and not m.traps:
                    violation("no optimised fraction")
            sys.settrace(SCHED.tracer(me))
        if memory:                        # the same request again, after everything else
            img, rn, frac, N0 = memory[0]
            r, e = call(me, lambda: frames(img, rn, frac), [], 0)
            if r[1].tobytes() != N0.tobytes():
                violation("the same request gives another answer after other calls")
    SCHED.run([client] * clients)


# ---------------------------------------------------------------- C21
def scen_c21():
    R.fill = 0
    clients = w_pick(1, 1, 2)
    text = []
    benches = []
    for _ in range(1 + w_draw(2)):
        fw, power = w_pick(84700., 10000.), w_pick(0.478, 1.0, 0.8)
        ov = w_int(12, 30)
        par_side = not w_chance(1, 3)
        xpre = w_pick(0, 2)
        ypre = 2 if w_chance(1, 24) else 0
        nback = 40 if w_chance(1, 24) else 10
        exps = not w_chance(1, 3)
        traps = [(w_pick(0.01, 0.1, 1.0) * w_pick(1, 2, 3), w_pick(1.0, 0.74, 4.2, 7.7)) for _ in range(1 + w_draw(3))]
        roe = arctic.ROE(overscan_start=ov, prescan_length=ypre)
        xov = w_pick(-1, 25)
        xroe = arctic.ROE(prescan_length=xpre, overscan_start=xov)
        notch, first = w_pick(0., 0., 10., 40.), w_pick(0., 0., 0.05)
        if w_chance(1, 2):
            ccd = arctic.CCD(full_well_depth=fw, well_fill_power=power, well_notch_depth=notch, first_electron_fill=first)
        else:
            ccd = arctic.CCD(phases=[arctic.CCDPhase(fw, notch, power, first)])
        objs = [arctic.TrapInstantCapture(density=d, release_timescale=t) for d, t in traps]
        kw = {("parallel" if par_side else "serial") + "_" + k: v for k, v in (("roe", roe), ("ccd", ccd), ("traps", objs))}
        kw[("serial" if par_side else "parallel") + "_roe"] = xroe
        benches.append((arctic.VVTestBench(verbose=w_chance(1, 4), sum_of_exponentials=exps, nrows_for_background=nback, **kw), kw, par_side, ov, xpre, xov, (fw, notch, power, first), traps, ypre, nback, exps))

    def client(me):
        for k in range(1 + w_draw(3)):
            vv, kw, par_side, ov, xpre, xov, (fw, notch, power, first), traps, ypre, nback, exps = benches[w_draw(len(benches))]
            n_over = w_int(4, 12)
            ncols = 20 + w_draw(8) if xov < 0 else 30
            base = 50. + w_draw(20) * 10
            c = w_pick(1.0, 0.5, 2.0, 1.3)
            bias = w_pick(0., 0., 1.0, -0.5, 0.3)
            fit = w_pick(None, True, False)
            if fit is False:
                bias = 0.
            V = lambda n: first + (1 - first) * np.clip((n - notch) / (fw - notch), 0, 1) ** power
            xs = np.arange(n_over)
            eff = ov * (V(base) - V(0.))
            trail = sum(d * eff * np.exp(-xs / t) * (1 - np.exp(-1 / t)) for d, t in traps)
            faint = False
            if not exps:                  # the trail is modelled by the read-out itself
                need = 3 * ov * sum(d for d, t in traps) * V(base)
                faint = base * ov <= need
                if faint and not w_chance(1, 12):
                    base = np.ceil(1.5 * need / ov)
                    need = 3 * ov * sum(d for d, t in traps) * V(base)
                    faint = base * ov <= need
                    if faint or base > 0.8 * fw:
                        raise Discard
                pre = np.concatenate((np.full(ov, base), np.zeros(n_over)))[:, None]
                k = min(10, ov)
                while k < ov and pre[ov - k:ov].sum() < need:
                    k += 1
                side_kw = {"parallel_" + q: kw[("parallel" if par_side else "serial") + "_" + q] for q in ("roe", "ccd", "traps")}
                sys.settrace(None)
                trail = np.array(arctic.add_cti(pre, verbosity=0, parallel_window_start=max(ov - k, 0), **side_kw))[ov:, 0]
                sys.settrace(SCHED.tracer(me))
                if not trail[:3].min() > 1e-6:
                    raise Discard
            img = np.zeros((ov + n_over, ncols))
            lo, hi = xpre, (ncols if xov < 0 else xov)
            n = hi - lo
            if n % 2:
                n -= 1
            sign = np.array([1. if i % 2 else -1. for i in range(ncols)])
            if (hi - lo) % 2:
                sign[lo] = 0
            amp = 0.5 + 0.1 * w_draw(5)
            img[:ov, :] = base
            img[:ov, :] += amp * sign
            if (hi - lo) % 2:
                img[:ov, lo] = base
            img[ov:, :] = (bias + c * trail)[:, None]
            img[ov:, :] += 0.05 * sign
            star = w_chance(1, 3) and ncols > 12
            if star:                      # columns with objects near the overscan are not used
                s = lo + 2 + 2 * w_draw((hi - lo - 4) // 2)
                img[ov - 3, s] += 5000.
                img[ov - 2, s + 1] += 5000.
                img[ov:, s:s + 2] += 50.
            if lo:
                img[:, :lo] = 12345.
            if hi < ncols:
                img[:, hi:] = 54321.
            im = img if par_side else np.ascontiguousarray(img.T)
            b = snap(im)
            bk = snap(kw)
            nres = vv.n_results()
            standalone = w_chance(1, 24)
            text.append("client %d: %s V&V well %s overscan at %d of %d, prescan %d, %d columns, base %g amplitude %g bias %g fit %s traps %s, %d rows of background, %s" % (
                me, "parallel" if par_side else "serial", (fw, notch, power, first), ov, ov + n_over, ypre, ncols, base, c, bias, fit, traps, nback, "exponentials" if exps else "read-out"))
            sh.set_text(1, " | ".join(text[-3:]))
            side = "parallel" if par_side else "serial"
            opt = {} if fit is None else {side + "_fit_bias": fit}
            go = (lambda: arctic.vv_test.vv_test(im, **kw, **opt) if hasattr(arctic, "vv_test") and hasattr(arctic.vv_test, "vv_test") else vv.test(im, **opt)) if standalone else (lambda: vv.test(im, **opt))
            kinds = ["interrupt", "stdout"] if clients == 1 else ["interrupt"]
            def known(e):
                w = traceback.extract_tb(e.__traceback__)[-1]
                if ypre and type(e).__name__ == "AxisError":
                    return "prescan"
                if nback > ov:
                    return "background"
                if standalone and isinstance(e, NameError) and w.name == "vv_test":
                    return "standalone"
            end = "faint" if faint else None
            SCHED.limit = 60000
            r, e = call(me, go, kinds, R.rate, known, end)
            if e is not None:
                if clients == 1 and vv.n_results() > nres + 1:
                    violation("an interrupted test left %d results", vv.n_results() - nres)
                nres = vv.n_results()
                count("retries_after_fault")
                SCHED.limit = 60000
                r, e = call(me, go, [], 0, known, end)
            sys.settrace(None)
            count("images_compared")
            if snap(im) != b or snap(kw) != bk:
                violation("a V&V test changed its inputs")
            if clients == 1 and not standalone and vv.n_results() != nres + 1:
                violation("one V&V test added %d results", vv.n_results() - nres)
            p = r.parallel if par_side else r.serial
            o = r.serial if par_side else r.parallel
            if o.best_fit_trap_density is not None:
                violation("a direction without a model was tested")
            bad = violation if nback <= ov else (lambda *a: known_or_violation("background", *a))
            total = sum(d for d, t in traps)
            want = total * c * (V(base) - V(0.)) / (V(base) - V(bias))
            if not abs(p.best_fit_bias - bias) <= 1e-5 * (1 + abs(bias) + trail.max()):
                bad("the fitted bias is %.9g instead of %.9g", p.best_fit_bias, bias)
            if not abs(p.best_fit_trap_density - want) <= 1e-4 * abs(want) + 1e-9:
                bad("the fitted trap density is %.9g instead of %.9g", p.best_fit_trap_density, want)
            valid = np.ones(hi - lo, dtype=bool)
            if star:
                valid[s - lo:s - lo + 2] = False
            if not np.array_equal(np.array(p.valid_columns, dtype=bool), valid):
                bad("the columns used are not the ones without objects")
            R.hash.update(struct.pack("<d", float(p.best_fit_trap_density)))
            # the image again after a partial correction, compared with the first test
            again = w_draw(3)
            if again and exps and fit is not False and nback <= ov and not ypre and not standalone:
                c2 = c * w_pick(0.5, 0.1, 1.0, -0.2)
                img2 = img.copy()
                img2[ov:] += ((c2 - c) * trail)[:, None]
                if again == 1:
                    img2[:ov] = 777.
                    opt = {side + "_valid_columns": p.valid_columns, side + "_pixels_pre_cti": p.pixels_pre_cti, side + "_model_bias": p.best_fit_bias, side + "_fit_bias": True}
                else:
                    opt = {side + "_fit_bias": True, side + "_iterate_bias": True}
                im = img2 if par_side else np.ascontiguousarray(img2.T)
                b = snap(im)
                nres = vv.n_results()
                SCHED.limit = 60000
                sys.settrace(SCHED.tracer(me))
                r, e = call(me, lambda: vv.test(im, **opt), [], 0)
                sys.settrace(None)
                count("images_compared")
                if snap(im) != b or snap(kw) != bk:
                    violation("a V&V test changed its inputs")
                if clients == 1 and vv.n_results() != nres + 1:
                    violation("one V&V test added %d results", vv.n_results() - nres)
                p2 = r.parallel if par_side else r.serial
                want = total * c2 * (V(base) - V(0.)) / (V(base) - V(bias))
                how = "with the columns and profile of the first" if again == 1 else "with an iterated bias"
                if not abs(p2.best_fit_bias - bias) <= 1e-5 * (1 + abs(bias) + trail.max()):
                    violation("the bias fitted by a second test %s is %.9g instead of %.9g", how, p2.best_fit_bias, bias)
                if not abs(p2.best_fit_trap_density - want) <= 1e-4 * (abs(want) + total * abs(c)) + 1e-9:
                    violation("the trap density fitted by a second test %s is %.9g instead of %.9g", how, p2.best_fit_trap_density, want)
            sys.settrace(SCHED.tracer(me))
    SCHED.run([client] * clients)


# ---------------------------------------------------------------- C22
def scen_c22():
    R.fill = w_pick(0, 0xa5, 0xff)
    clients = w_pick(1, 1, 2)
    models = [gen_model() for _ in range(1 + w_draw(2))]
    text = []

    class NotATrap:
        density = 1.0
        release_timescale = 1.0

    def valid(m):
        rows, cols = w_int(1, 6), w_int(1, 5)
        ser = m.roe_spec["type"] != 2 and w_chance(1, 3)
        v = gen_image(rows, cols, m.ph[0][0])
        img, val = layout(v, w_draw(NLAY))
        d = gen_dir(m, cols if ser else rows, True, False)
        pre = "serial" if ser else "parallel"
        kw = {pre + "_traps": list(m.objs), pre + "_roe": m.roe, pre + "_ccd": m.ccd, pre + "_express": d.express, pre + "_window_offset": d.offset,
              pre + "_window_start": d.w0, pre + "_window_stop": d.w1, "verbosity": 1 if w_chance(1, 4) else 0}
        d.prune_n, d.prune_f = 1e-10, 20
        return img, val, d, pre, kw, ser

    def good(me, m):
        img, val, d, pre, kw, ser = valid(m)
        sys.settrace(None)
        off = Dir()
        want = core(val, off if ser else d, d if ser else off, [] if ser else m.traps, m.traps if ser else [], 1)
        if not np.isfinite(want).all():
            raise Discard()
        sys.settrace(SCHED.tracer(me))
        kinds = ["alloc", "interrupt"] if clients == 1 else ["interrupt"]
        r, e = call(me, lambda: arctic.add_cti(img, **kw), kinds, R.rate)
        if e is not None:
            r, e = call(me, lambda: arctic.add_cti(img, **kw), [], 0)
        sys.settrace(None)
        d_ = same(r, want, max(1., np.abs(val).max(), np.abs(want).max()))
        if d_:
            violation("a valid request among malformed ones: %s", d_)
        count("images_compared")
        R.hash.update(np.ascontiguousarray(np.array(r)).tobytes())
        sys.settrace(SCHED.tracer(me))

    def bad(me, m):
        img, val, d, pre, kw, ser = valid(m)
        rows, cols = val.shape
        n = cols if ser else rows
        oth = "parallel" if ser else "serial"
        nph, pump = len(m.ph), m.roe_spec["type"] == 2
        op = w_draw(3)                    # 0,1 add_cti  2 remove_cti
        n_it = w_int(1, 3)
        kind = w_draw(19)
        roe, ccd = copy.copy(m.roe), copy.copy(m.ccd)
        kw[pre + "_roe"], kw[pre + "_ccd"] = roe, ccd
        name = ""

        def window(k):
            return [(-1 - w_draw(3), k), (0, k + 1 + w_draw(3)), (1 + w_draw(k), 0), (k + 1 + w_draw(4), -1), (w_draw(k), -2 - w_draw(3)), (k + 100000, k + 100003)][w_draw(6)]
        if kind == 0:
            name, img = "an image of one dimension", val.ravel().copy()
        elif kind == 1:
            name, img = "an image of three dimensions", val[None].copy()
        elif kind == 2:
            name, img = "an image without rows or columns", np.zeros([(0, cols), (rows, 0), (0, 0)][w_draw(3)])
        elif kind == 3:
            name, img = "an image that is not of numbers", [None, "electrons", [["a", "b"], ["c", "d"]], [[1., 2.], [3.]], {}][w_draw(5)]
        elif kind == 4:
            name = "an object that is not a trap"
            i = w_draw(len(m.objs) + 1)
            kw[pre + "_traps"] = m.objs[:i] + [w_pick(NotATrap(), None, "trap", 1.0, roe)] + m.objs[i:]
        elif kind == 5:
            name = "no read-out electronics"
            if w_chance(1, 2):
                del kw[pre + "_roe"]
            else:
                kw[pre + "_roe"] = None
        elif kind == 6:
            name = "no detector"
            if w_chance(1, 2):
                del kw[pre + "_ccd"]
            else:
                kw[pre + "_ccd"] = None
        elif kind == 7:
            name = "phases and fractions that do not match"
            k = nph + 1 + w_draw(3) if nph == 1 or w_chance(1, 2) else nph - 1
            kw[pre + "_ccd"] = arctic.CCD(phases=[arctic.CCDPhase(*p) for p in m.ph], fraction_of_traps_per_phase=[1. / k] * k)
        elif kind == 8:
            name = "more or fewer phases than the read-out has steps"
            k = nph + 1 + w_draw(3) if nph == 1 or w_chance(1, 2) else nph - 1
            kw[pre + "_ccd"] = arctic.CCD(phases=[arctic.CCDPhase(*m.ph[0]) for _ in range(k)], fraction_of_traps_per_phase=[1. / k] * k)
        elif kind == 9:
            name = "a window along the read-out that is not inside the image"
            kw[pre + "_window_start"], kw[pre + "_window_stop"] = window(n)
        elif kind == 10:
            name = "a window across the read-out that is not inside the image"
            kw[oth + "_window_start"], kw[oth + "_window_stop"] = window(rows if ser else cols)
        elif kind == 11:
            name = "a negative express"
            kw[pre + "_express"] = -1 - w_draw(4)
        elif kind == 12:
            name = "a negative window offset"
            kw[pre + "_window_offset"] = -1 - w_draw(4)
        elif kind == 13:
            if pump:
                raise Discard()
            name = "an impossible prescan or overscan"
            if w_chance(1, 2):
                roe.prescan_offset = -1 - w_draw(3)
            else:
                roe.overscan_start = w_pick(0, -2, -3, -50)
        elif kind == 14:
            name = "trap pumping that cannot be"
            c = w_draw(3)
            rp = arctic.ROETrapPumping(dwell_times=[0.1] * (2 * nph + (1 if c == 0 else 0)), n_pumps=-w_draw(2) if c == 1 else 2)
            kw[pre + "_roe"] = rp
            kw[pre + "_window_start"], kw[pre + "_window_stop"] = 0, 1
            if c == 2:
                if n < 2:
                    raise Discard()
                kw[pre + "_window_stop"] = 2
        elif kind == 15:
            name = "a setting that is not a number"
            kw[pre + w_pick("_express", "_window_start", "_prune_frequency", "_window_offset")] = w_pick(None, "many", [1, 2], {})
        elif kind == 16:
            name = "no dwell times or phases"
            if w_chance(1, 2):
                roe.dwell_times = np.array([], dtype=np.double)
            else:
                kw[pre + "_ccd"] = arctic.CCD(phases=[], fraction_of_traps_per_phase=[])
        elif kind == 17:
            name = "a negative damping or frequency of pixel bounce"
        else:
            name = "pixel bounce without a list"
        how = "remove_cti x%d" % n_it if op == 2 else "add_cti"
        text.append("client %d: %s with %s, %s, %dx%d type %s" % (me, how, name, pre, rows, cols, m.roe_spec["type"]))
        sh.set_text(1, " | ".join(text[-4:]))
        if kind == 17:
            g, o = w_pick(-0.1, -1.0), w_pick(-0.1, -1.0)
            c = w_draw(2)
            go = lambda: arctic.PixelBounce(kA=0.1, kv=0.05, gamma=g if c else 1.0, omega=1.0 if c else o)
        elif kind == 18:
            go = lambda: arctic.add_pixel_bounce(val) if op != 2 else arctic.remove_pixel_bounce(val, n_it)
            if not hasattr(arctic, "add_pixel_bounce") or not hasattr(arctic, "remove_pixel_bounce"):
                raise Discard()
        elif op == 2:
            go = lambda: arctic.remove_cti(img, n_it, **kw)
        else:
            go = lambda: arctic.add_cti(img, **kw)
        sys.settrace(None)
        b_img, b_kw, b_val = snap(img), {k: snap(v) for k, v in kw.items()}, snap(val)
        sys.settrace(SCHED.tracer(me))
        live = None
        for i in range(3):                # the third time it must not keep anything more than the second time
            kinds = ["alloc", "interrupt", "stdout"] if clients == 1 else ["interrupt"]
            sh.h[5] |= 1 << me
            r, e = call(me, go, kinds if i == 0 else [], R.rate if i == 0 else 0, refuse=True)
            sys.settrace(None)
            sh.h[5] &= ~(1 << me)
            if e is None:
                violation("%s was accepted", name)
            if snap(img) != b_img or snap(val) != b_val:
                violation("the caller's image was changed by a refused call")
            for k, v in kw.items():
                if snap(v) != b_kw[k]:
                    violation("the caller's %s was changed by a refused call", k)
            del e
            if clients == 1:
                now = alloc.sim_live()
                if i == 2 and now != live:
                    violation("a refused call kept %d blocks of memory", now - live)
                live = now
            sys.settrace(SCHED.tracer(me))
        count("refusals", 1)
        R.hash.update(name.encode())

    def client(me):
        for k in range(2 + w_draw(4)):
            m = models[w_draw(len(models))]
            if w_chance(1, 3):
                good(me, m)
            else:
                bad(me, m)
        good(me, models[0])
    SCHED.run([client] * clients)


# ---------------------------------------------------------------- C23
def scen_c23():
    R.fill = 0
    clients = w_pick(1, 1, 2, 3)
    pars = [(w_pick(0.1, 0.02, -0.3, 0., 1.0), w_pick(0.01, 0.05, 0., -0.2), w_pick(1.0, 0.3, 0.05, 3.0, 0.), w_pick(1.0, 2.5, 0.1, 0., 3.14)) for _ in range(1 + w_draw(4))]
    objs = [arctic.PixelBounce(kA=p[0], kv=p[1], gamma=p[2], omega=p[3]) for p in pars]
    shared_img = gen_image(w_int(1, 6), w_int(1, 12), 1000.)
    text = []

    def client(me):
        prev = None
        for k in range(1 + w_draw(4)):
            if prev is not None and w_chance(1, 3):
                img, val = prev, np.array(prev)
            else:
                v = shared_img if w_chance(1, 3) else gen_image(w_int(1, 6), w_int(1, 14), w_pick(1000., 84700.))
                img, val = layout(v, w_draw(NLAY))
            rows, cols = val.shape
            sel = [w_draw(len(objs)) for _ in range(w_draw(4))]
            win = [0, -1, 0, -1]
            if w_chance(1, 3):
                win[0] = w_draw(rows)
                win[1] = win[0] + 1 + w_draw(rows - win[0])
            if w_chance(1, 3):
                win[2] = w_draw(cols)
                win[3] = win[2] + 1 + w_draw(cols - win[2])
            op = w_draw(8)                # 0 add list 1 remove list 2 add one 3 remove one 4 bias 5 order 6 there and back 7 pixel by pixel
            if op in (2, 3, 4, 7) and not sel:
                sel = [0]
            if op in (2, 3, 4, 7):
                sel = sel[:1]
            if op == 7:
                win = [0, -1, 0, -1]
            n_it = w_draw(5)
            kw = dict(parallel_window_start=win[0], parallel_window_stop=win[1], serial_window_start=win[2], serial_window_stop=win[3])
            if win == [0, -1, 0, -1] and w_chance(1, 2):
                kw = {}
            kw["verbosity"] = 1 if w_chance(1, 4) else 0
            text.append("client %d: %s, %dx%d %s window %s bounces %s %d iterations" % (me, ["add list", "remove list", "add one", "remove one", "bias", "order", "there and back", "pixel by pixel"][op], rows, cols, img.dtype, win, [pars[s] for s in sel], n_it))
            sh.set_text(1, " | ".join(text[-3:]))
            sys.settrace(None)

            def bias(x):
                t = np.zeros(x.shape)
                for s in sel:
                    t += bounce_ref(x, *pars[s], *win)
                return t

            def undo(x, n):
                y = x.copy()
                for _ in range(n):
                    y = y + x - (y - bias(y))
                return y
            lst = [objs[s] for s in sel]
            if op in (0, 2, 7):
                want = val - bias(val)
            elif op in (1, 3):
                want = undo(val, n_it)
            elif op == 4:
                want = bias(val)
            elif op == 5:
                want = val - bias(val)
                lst = lst[::-1]
            else:
                c = abs(sum(2 * np.exp(-p[2]) * np.cos(p[3]) * (p[0] - p[1]) - np.exp(-2 * p[2]) * (p[0] - 2 * p[1]) for p in (pars[s] for s in sel)))
                back = c <= 0.3           # the share of its own bounce that a pixel keeps: how fast the iteration converges
                n_it = 60 + 3 * cols if back else n_it
                want = undo(val - bias(val), n_it)
                if back and np.isfinite(want).all():
                    back = np.abs(want - val).max() <= 1e-10 * (1 + np.abs(val).max())
                if back:
                    want = val
            # how much an error in the result may grow
            g, worst = val, np.abs(val).max() + 1.
            if op in (1, 3, 6):
                y = val - bias(val) if op == 6 else val
                x = y
                for _ in range(n_it):
                    y = y + x - (y - bias(y))
                    worst = max(worst, np.abs(y).max())
            else:
                worst = max(worst, np.abs(bias(val)).max())
            if not np.isfinite(worst) or worst > 1e9:
                raise Discard()

            def go():
                if op in (0, 5):
                    return arctic.add_pixel_bounce(img, pixel_bounce_list=lst, **kw)
                if op == 1:
                    return arctic.remove_pixel_bounce(img, n_it, pixel_bounce_list=lst, **kw)
                if op == 2:
                    return lst[0].add_pixel_bounce(img, **kw)
                if op == 3:
                    return lst[0].remove_pixel_bounce(img, n_it, **kw)
                if op == 4:
                    return lst[0].perturb_bias(img, **kw)
                if op == 7:
                    return lst[0].add_pixel_bounce_slow(img)
                b = arctic.add_pixel_bounce(img, pixel_bounce_list=lst, **kw)
                return arctic.remove_pixel_bounce(b, n_it, pixel_bounce_list=lst, **kw)
            b_img, b_obj, b_lst = snap(img), snap(objs), snap(lst)
            sys.settrace(SCHED.tracer(me))
            kinds = ["interrupt", "stdout"] if clients == 1 else ["interrupt"]
            r, e = call(me, go, kinds, R.rate)
            for again in range(2):
                sys.settrace(None)
                if snap(img) != b_img:
                    violation("the caller's image was changed")
                if snap(objs) != b_obj or snap(lst) != b_lst:
                    violation("the pixel bounce objects were changed")
                sys.settrace(SCHED.tracer(me))
                if e is None:
                    break
                count("retries_after_fault")
                r, e = call(me, go, [], 0)
            sys.settrace(None)
            count("images_compared")
            if np.shares_memory(r, img):
                violation("the result shares memory with the image")
            d = same(r, want, worst)
            if d:
                violation("%s%s", "adding and removing does not return the image: " if op == 6 and back else "", d)
            R.hash.update(np.ascontiguousarray(r).tobytes())
            sys.settrace(SCHED.tracer(me))
            prev = r
            if w_chance(1, 6):
                sys.settrace(None)
                count("injected_state_operations")
                prev[...] = prev * 0.5
                sys.settrace(SCHED.tracer(me))
    SCHED.run([client] * clients)


RULES = {
    "C16": "history of one to three client threads sharing detector, trap and pixel-bounce objects; each makes one to four add_cti/remove_cti calls (all species in any order, one to four phases, standard, charge-injection and pumping clocking, windows, express, pruning, twelve array layouts and types, results fed back), with settings changed between calls; the simulator switches clients at line granularity, interrupts calls at any line, fails any allocation of the extension or its output; every result is compared with the core called directly, every object and array of the caller with its state before; non-trivial when clients were switched or a fault fired",
    "C20": "history of separations, read-noise-aware corrections, single estimates and optimisations on shared read-noise objects by one or two clients, interrupted at any line or failing any allocation; parts must add up, equal the documented iteration, and repeat bit for bit; inputs and the caller's detector untouched; non-trivial when clients were switched or a fault fired",
    "C21": "history of V&V tests by one or two clients on images whose trail is built with the model's own shape on a known bias, with objects, prescans and overscans to be left out, interrupted at any line; the fit must return the density and bias put in, use exactly the clean columns, record one result per test and leave inputs alone; non-trivial when clients were switched or a fault fired",
    "C22": "history of two to six requests by one or two clients, two in three of them made impossible in one of nineteen ways (image, objects, phases, windows, settings, pumping, pixel bounce), each given three times, the first time also interrupted at any line or failing any allocation or output, valid requests between and after them; every impossible request must end with a Python exception, leave the caller's data alone and keep no memory, every valid one must give the core's answer; non-trivial when clients were switched or a fault fired",
    "C23": "history of adding, removing, there-and-back, single-object, pixel-by-pixel and list calls of pixel bounce by one to three clients on shared images and oscillators, windows and twelve array layouts and types, results fed back and changed in place, interrupted at any line or with a broken output; every result must be the documented recurrence computed apart, inputs untouched; non-trivial when clients were switched or a fault fired",
}
SCEN = {"C16": scen_c16, "C20": scen_c20, "C21": scen_c21, "C22": scen_c22, "C23": scen_c23}


# ---------------------------------------------------------------- running
def child(prop):
    global SCHED
    R.nf = 0
    R.w, R.f, R.s = (random.Random(plan.seed * 4 + i) for i in range(3))
    R.hash = hashlib.blake2b(digest_size=8)
    R.rate = 0.0 if plan.replay else R.f.choice([0.0, 0.3, 0.7])
    if plan.replay:
        R.rate = 1.0
    SCHED = Sched()
    np.random.seed(plan.seed & 0x7fffffff)
    status, msg = OK, ""
    try:
        with np.errstate(all="ignore"):
            SCEN[prop]()
    except Violation as e:
        status, msg = VIOL, str(e)
    except Discard:
        status = DISCARD
    except Known as e:
        status, msg = KNOWN, str(e)
    except BaseException as e:
        status, msg = 9, "simulator: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
    sys.settrace(None)
    sh.set_text(0, msg)
    sh.out[0] = int.from_bytes(R.hash.digest(), "little")
    sh.out[1] = int.from_bytes(SCHED.hash.digest(), "little")
    sh.h[0] = status + 100
    os._exit(0)


class Result:
    pass


def run_plan(prop, p, limit=30.):
    global plan
    plan = p
    sh.reset()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            dn = os.open("/dev/null", os.O_RDWR)
            os.dup2(dn, 0)
            fd = os.memfd_create("out")
            os.dup2(dn, 1)
            os.dup2(fd, 2)
            R.err = fd
            child(prop)
        finally:
            os._exit(99)
    t = time.time()
    st = None
    step = 0.0005
    while True:
        q, s = os.waitpid(pid, os.WNOHANG)
        if q:
            st = s
            break
        if time.time() - t > limit:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            break
        time.sleep(step)
        step = min(step * 1.5, 0.01)
    r = Result()
    r.hash, r.sched = int(sh.out[0]), int(sh.out[1])
    r.case = sh.get_text(1)
    nw, nf, ns = int(sh.h[1]), int(sh.h[2]), int(sh.h[3])
    r.plan = Plan(p.seed)
    r.plan.replay = True
    r.plan.w = [int(x) for x in sh.w[:nw]]
    r.plan.f = {int(sh.f[2 * i]): int(sh.f[2 * i + 1]) for i in range(nf)}
    r.plan.s = {int(sh.s[2 * i]): int(sh.s[2 * i + 1]) for i in range(ns)}
    r.stats = {k: int(sh.h[8 + i]) for i, k in enumerate(Shared.STATS)}
    r.wl = hashlib.blake2b(np.array(r.plan.w, dtype=np.uint32).tobytes(), digest_size=8).digest()
    if int(sh.h[0]) >= 100:
        r.status = int(sh.h[0]) - 100
        r.msg = sh.get_text(0)
    elif st is None:
        r.status, r.msg = VIOL, "no progress for %d s" % limit
    elif os.WIFSIGNALED(st):
        r.status, r.msg = VIOL, "the interpreter crashed (signal %d)" % os.WTERMSIG(st)
    elif int(sh.h[5]) >> int(sh.h[6]) & 1 and os.WEXITSTATUS(st):
        r.status, r.msg = OK, "refused with a failing exit status"      # how the core reports errors
        r.stats["refusals"] += 1
    else:
        r.status, r.msg = VIOL, "the interpreter was ended with exit status %d" % os.WEXITSTATUS(st)
    if r.status == VIOL:
        r.msg += "; " + r.case
    return r


def cls(m):
    s = ""
    for ch in m:
        if ch in ":(;":
            break
        if not ch.isdigit():
            s += ch
        if len(s) > 60:
            break
    return s


def save(path, prop, p, msg, note):
    with open(path, "w") as f:
        f.write("property %s\nseed %d\nmode %s\nmessage %s\nnote %s\n" % (prop, p.seed, "recorded" if p.replay else "seed", msg.replace("\n", " "), note))
        if p.replay:
            f.write("w " + " ".join(map(str, p.w)) + "\n")
            f.write("f " + " ".join("%d:%d" % kv for kv in sorted(p.f.items())) + "\n")
            f.write("s " + " ".join("%d:%d" % kv for kv in sorted(p.s.items())) + "\n")
        f.write("end\n")


def load_plan(path):
    p = Plan()
    p.replay = True
    ended = False
    for line in open(path, errors="replace"):
        if line.startswith("seed "):
            p.seed = int(line[5:])
        elif line.startswith("mode seed"):
            p.replay = False
        elif line.startswith("w "):
            p.w = [int(x) for x in line[2:].split()]
        elif line.startswith("f "):
            p.f = {int(a): int(b) for a, b in (x.split(":") for x in line[2:].split())}
        elif line.startswith("s "):
            p.s = {int(a): int(b) for a, b in (x.split(":") for x in line[2:].split())}
        elif line.startswith("end"):
            ended = True
    if not ended:
        print("incomplete replay file")
        sys.exit(3)
    return p


def minimise(prop, p, want, seconds):
    end = time.time() + seconds
    best = p

    def ok(q):
        r = run_plan(prop, q)
        return r.status == VIOL and cls(r.msg) == want

    for rnd in range(2):
        before = (len(best.w), sum(best.w), len(best.f), len(best.s))
        for name in ("s", "f"):
            q = best.copy()
            setattr(q, name, {})
            if getattr(best, name) and ok(q):
                best = q
                continue
            blk = max(1, len(getattr(best, name)) // 2)
            while getattr(best, name) and time.time() < end:
                keys = sorted(getattr(best, name))
                for a in range(0, len(keys), blk):
                    if time.time() > end:
                        break
                    q = best.copy()
                    for k in keys[a:a + blk]:
                        getattr(q, name).pop(k, None)
                    if ok(q):
                        best = q
                if blk == 1:
                    break
                blk //= 2
        keep = 1
        while keep < len(best.w) and time.time() < end:
            q = best.copy()
            q.w = q.w[:keep]
            if ok(q):
                best = q
                break
            keep *= 2
        blk = max(1, len(best.w) // 2)
        while time.time() < end:
            for a in range(0, len(best.w), blk):
                if time.time() > end:
                    break
                q = best.copy()
                if any(q.w[a:a + blk]):
                    q.w[a:a + blk] = [0] * len(q.w[a:a + blk])
                    if ok(q):
                        best = q
            if blk == 1:
                break
            blk //= 2
        if before == (len(best.w), sum(best.w), len(best.f), len(best.s)):
            break
    return best


def main():
    a = sys.argv[1:]
    o = {"--seconds": "10", "--base": "1", "--worker": "0", "--workers": "1", "--min-seconds": "25"}
    i = 0
    flags = set()
    while i < len(a):
        if a[i] == "--rule":
            flags.add("rule")
            i += 1
            continue
        if a[i] == "--known":
            KNOWN_IDS.add(a[i + 1])
            i += 2
            continue
        o[a[i]] = a[i + 1]
        i += 2
    prop = o["--prop"]
    if "rule" in flags:
        print(RULES[prop])
        return 0
    load(o["--package"])
    gc.freeze()
    if "--seed" in o:
        r = run_plan(prop, Plan(int(o["--seed"])))
        print("status", r.status, r.msg, "\ncase", r.case, "\n", {k: v for k, v in r.stats.items() if v}, "w", len(r.plan.w))
        if "--out" in o:
            save(o["--out"], prop, r.plan, r.msg, "recorded")
        return 1 if r.status == VIOL else 0
    if "--replay" in o:
        p = load_plan(o["--replay"])
        r, r2 = run_plan(prop, p), run_plan(prop, p)
        print("status %d\nmessage %s\nhash %016x" % (r.status, r.msg, r.hash))
        if (r.status, r.msg, r.hash, r.sched) != (r2.status, r2.msg, r2.hash, r2.sched):
            print("the two replays differ:", r2.msg)
            if r.status != r2.status:
                return 3
        return 1 if r.status == VIOL else 0 if r.status in (OK, DISCARD, KNOWN) else 3
    if "--minimise" in o:
        p = load_plan(o["--minimise"])
        r = run_plan(prop, p)
        if r.status != VIOL:
            print("not reproduced:", r.status, r.msg)
            return 3
        best = minimise(prop, r.plan if not p.replay else p, cls(r.msg), float(o["--min-seconds"]))
        r = run_plan(prop, best)
        if r.status != VIOL:
            print("minimised run is not a violation")
            return 3
        save(o["--out"], prop, best, r.msg, "minimised schedule, faults and workload")
        print("minimised to %d workload choices, %d faults, %d scheduling choices" % (len(best.w), len(best.f), len(best.s)))
        return 0
    # batch
    out = o["--out"]
    t0 = time.time()
    tot = {k: 0 for k in ("runs", "nontrivial", "discarded", "known", "gate_runs", "multi_runs", "fault_runs")}
    stats = {k: 0 for k in Shared.STATS}
    scheds, wls, samples, unstable = set(), set(), [], []
    rc, bad_seed, msg = 0, 0, ""
    n = 0
    base = int(o["--base"])
    while time.time() - t0 < float(o["--seconds"]):
        seed = int.from_bytes(hashlib.blake2b(b"%d %d %d" % (base, int(o["--worker"]), n), digest_size=6).digest(), "little")
        n += 1
        r = run_plan(prop, Plan(seed))
        tot["runs"] += 1
        for k, v in r.stats.items():
            stats[k] += v
        if r.status == DISCARD:
            tot["discarded"] += 1
            continue
        if r.status == KNOWN:
            tot["known"] += 1
            continue
        if r.status not in (OK, VIOL):
            rc, bad_seed, msg = 3, seed, r.msg
            break
        if r.stats["task_switches"]:
            tot["multi_runs"] += 1
            scheds.add(r.sched)
        faults = sum(v for k, v in r.stats.items() if k.startswith("fault_"))
        if faults:
            tot["fault_runs"] += 1
        if r.wl not in wls:
            wls.add(r.wl)
            if faults or r.stats["task_switches"] or r.stats["injected_state_operations"]:
                tot["nontrivial"] += 1
                if len(samples) < 3:
                    samples.append("seed %d: %s" % (seed, r.case[:600]))
        if r.status == VIOL:
            bad = [run_plan(prop, Plan(seed)).status == VIOL for _ in range(2)]
            tot["gate_runs"] += 2
            if not all(bad):                  # not a failure that could be shown again
                unstable.append("seed %d: %s" % (seed, r.msg[:600]))
                continue
            rc, bad_seed, msg = 1, seed, r.msg
            save(out + ".replay", prop, Plan(seed), r.msg, "seed")
            break
        if n % 40 == 0:                   # the same seed again: nothing may differ
            r2 = run_plan(prop, Plan(seed))
            tot["gate_runs"] += 1
            if (r.status, r.msg, r.hash, r.sched) != (r2.status, r2.msg, r2.hash, r2.sched):
                unstable.append("seed %d: %s / %s" % (seed, r.msg[:300], r2.msg[:300]))
    open(out + ".msg", "w").write(msg + "\n")
    open(out + ".scheds", "wb").write(b"".join(struct.pack("<Q", s) for s in scheds))
    open(out + ".samples", "w").write("\n".join(samples) + "\n")
    open(out + ".unstable", "w").write("".join(u.replace("\n", " ") + "\n" for u in unstable))
    tot["unstable"] = len(unstable)
    d = dict(tot)
    d.update(wall=time.time() - t0, rc=rc, seed=bad_seed, distinct_workloads=len(wls), stats=stats)
    json.dump(d, open(out + ".json", "w"))
    return rc


if __name__ == "__main__":
    sys.exit(main())
