# C11: the Python classes against the C interface, on separate objects of the same library.
import os, sys
so = os.environ["VP_SO"]
if os.path.dirname(so) not in os.environ.get("LD_LIBRARY_PATH", "").split(":") or "MALLOC_PERTURB_" not in os.environ:
    # the wrapper looks its library up by name; released memory is overwritten, so that stale views show
    os.environ["LD_LIBRARY_PATH"] = os.path.dirname(so) + ":" + os.environ.get("LD_LIBRARY_PATH", "")
    os.environ["MALLOC_PERTURB_"] = "165"
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.environ["VP_REPO"], "python"))
import contextlib, ctypes as ct, gc, io, struct
import numpy as np
from mpi4py import MPI
import libconviqt_wrapper as W
import vp

L = ct.CDLL(so)
IC = ct.c_int if MPI._sizeof(MPI.Comm) == ct.sizeof(ct.c_int) else ct.c_void_p
VP, I, D, S, B, LG = ct.c_void_p, ct.c_int, ct.c_double, ct.c_char_p, ct.c_byte, ct.c_long


def bind(name, res, *args):
    # own prototypes: those of the wrapper are under test
    f = ct.CFUNCTYPE(res, *args)
    return f(("conviqt_" + name, L))


sky_new, sky_del, sky_read, sky_lmax = bind("sky_new", VP), bind("sky_del", I, VP), bind("sky_read", I, VP, LG, B, S, D, IC), bind("sky_lmax", I, VP)
sky_mono, sky_dip = bind("sky_remove_monopole", I, VP), bind("sky_remove_dipole", I, VP)
sky_data = [bind("sky_%sdata" % x, VP, VP) for x in "TGC"]
beam_new, beam_del, beam_read, beam_lmax, beam_mmax = bind("beam_new", VP), bind("beam_del", I, VP), bind("beam_read", I, VP, LG, LG, B, S, IC), bind("beam_lmax", I, VP), bind("beam_mmax", I, VP)
beam_norm, beam_isnorm = bind("beam_normalize", D, VP), bind("beam_normalized", I, VP)
beam_data = [bind("beam_%sdata" % x, VP, VP) for x in "TGC"]
det_new, det_del, det_seteps = bind("detector_new", VP), bind("detector_del", I, VP), bind("detector_set_epsilon", I, VP, D)
pnt_new, pnt_del, pnt_alloc, pnt_data = bind("pointing_new", VP), bind("pointing_del", I, VP), bind("pointing_alloc", I, VP, LG), bind("pointing_data", VP, VP)
cnv_new, cnv_del, cnv_run = bind("convolver_new", VP, VP, VP, VP, B, LG, LG, LG, I, IC), bind("convolver_del", I, VP), bind("convolver_convolve", I, VP, VP, B)
rank, size = MPI.COMM_WORLD.Get_rank(), MPI.COMM_WORLD.Get_size()


def handle(comm):
    return IC.from_address(MPI._addressof(comm))


def ncoef(l, m):
    return (m + 1) * (m + 2) // 2 + (m + 1) * (l - m)


def mem(p, n):
    return np.ctypeslib.as_array(ct.cast(p, ct.POINTER(ct.c_float)), shape=(2 * n,)).copy()


def block(cards, data=b""):
    h = b""
    for k, v in cards + [("END", None)]:
        if v is None:
            s = k
        elif isinstance(v, bool):
            s = "%-8s= %20s" % (k, "T" if v else "F")
        elif isinstance(v, int):
            s = "%-8s= %20d" % (k, v)
        else:
            s = "%-8s= '%-8s'" % (k, v)
        h += ("%-80s" % s).encode()
    h += b" " * (-len(h) % 2880)
    return h + data + b"\0" * (-len(data) % 2880)


def write_alm(path, comps, lmax, mmax):
    b = block([("SIMPLE", True), ("BITPIX", 8), ("NAXIS", 0), ("EXTEND", True)])
    idx = [l * l + l + m + 1 for m in range(mmax + 1) for l in range(m, lmax + 1)]
    for q in comps:
        t = np.zeros(len(idx), dtype=[("i", ">i4"), ("r", ">f4"), ("j", ">f4")])
        t["i"], t["r"], t["j"] = idx, q.real, q.imag
        t = t[np.argsort(t["i"])]
        b += block([("XTENSION", "BINTABLE"), ("BITPIX", 8), ("NAXIS", 2), ("NAXIS1", 12), ("NAXIS2", len(idx)), ("PCOUNT", 0), ("GCOUNT", 1), ("TFIELDS", 3),
                    ("TTYPE1", "index"), ("TFORM1", "1J"), ("TTYPE2", "real"), ("TFORM2", "1E"), ("TTYPE3", "imag"), ("TFORM3", "1E"), ("EXTNAME", "alm"), ("MAX-LPOL", lmax), ("MAX-MPOL", mmax)], t.tobytes())
    open(path, "wb").write(b)


def coefs(r, l, m):
    q = r.uniform(-1, 1, ncoef(l, m)) + 1j * r.uniform(-1, 1, ncoef(l, m))
    q[:l + 1] = q[:l + 1].real
    return q.astype(np.complex64)


@contextlib.contextmanager
def quiet(fd=2):
    sys.stdout.flush()
    keep, null = os.dup(fd), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, fd)
    os.close(null)
    try:
        yield
    finally:
        os.dup2(keep, fd)
        os.close(keep)


def raises(f, *a):
    try:
        f(*a)
        return False
    except Exception:
        return True


# an expansion held twice: by the wrapper and through the C interface
class Twin:
    def __init__(t, kind, f, pol, l, m, fwhm, comm):
        t.kind, t.pol, t.py, t.c = kind, pol, None, None
        if kind == "sky":
            t.py = W.Sky(l, pol, f, fwhm, comm)
            t.c = sky_new()
            t.rc = sky_read(t.c, l, 1 if pol else 0, f.encode(), fwhm, handle(comm))
        else:
            t.py = W.Beam(l, m, pol, f, comm)
            t.c = beam_new()
            t.rc = beam_read(t.c, l, m, 1 if pol else 0, f.encode(), handle(comm))

    def orders(t):
        return (sky_lmax(t.c),) * 2 if t.kind == "sky" else (beam_lmax(t.c), beam_mmax(t.c))

    def ref(t):
        n = ncoef(*t.orders())
        return [mem(d(t.c), n) for d in (sky_data if t.kind == "sky" else beam_data)[:3 if t.pol else 1]]

    def compare(t, c, what):
        l, m = t.orders()
        c.check(t.py.lmax() == l and (t.kind == "sky" or t.py.mmax() == m), "%s: orders differ from the library's after %s" % (t.kind, what))
        n = ncoef(l, m)
        c.check(t.py.num_alms() == n, "%s: num_alms is %s, not %d" % (t.kind, t.py.num_alms(), n))
        if t.kind == "beam":
            c.check(t.py.normalized() == (beam_isnorm(t.c) != 0), "normalized() differs from the library's after %s" % what)
        d = t.py.get_data()
        c.check(len(d) == (3 if t.pol else 1), "%s: get_data has %d components" % (t.kind, len(d)))
        for k, (x, y) in enumerate(zip(d, t.ref())):
            c.check(x.shape == (n,) and np.iscomplexobj(x), "%s: component %d has shape %s and type %s, not (%d,) complex" % (t.kind, k, x.shape, x.dtype, n))
            c.check(np.array_equal(x.real, y[0::2]) and np.array_equal(x.imag, y[1::2]), "%s: component %d differs from the library's after %s" % (t.kind, k, what))
            x[:] = 99  # a copy: must not reach the library
        return n

    def free(t):
        (sky_del if t.kind == "sky" else beam_del)(t.c)


def layouts(r, x):
    """The same numbers in some other layout or type."""
    k = r.randint(7)
    if k == 0:
        return x.astype(np.complex128)
    if k == 1:
        y = np.zeros((len(x), 3), complex)
        y[:, 1] = x
        return y[:, 1]
    if k == 2:
        return np.ascontiguousarray(x[::-1])[::-1]
    if k == 3:
        return x.astype(">c8")
    if k == 4:
        y = x.copy()
        y.setflags(write=False)
        return y
    if k == 5:
        return x.astype(np.clongdouble)
    return x


def wrapper(c):
    hist = []

    def fail(m):
        c.note("history", " ".join(hist))
        c.fail(m)
    r = c.bulk()
    files = []
    for i in range(4):  # skies, then beams
        l = int(r.randint(1, 9))
        m = l if i < 2 else int(r.randint(0, min(l, 4) + 1))
        nc = 3 if i % 2 or r.randint(2) else 1
        q = [coefs(r, l, m) for _ in range(nc)]
        q[0][0] = 0.5 + r.randint(3)
        n = "%s/py%d%s.fits" % (c.dir, i, " \u00e9" if i == 1 else "")
        if rank == 0:
            write_alm(n, q, l, m)
        files.append((n, l, m, nc))
    if size > 1:
        MPI.COMM_WORLD.Barrier()
    bad = c.dir + "/garbage.fits"
    if rank == 0:
        open(bad, "w").write("not a FITS file")
    comms = [MPI.COMM_WORLD]
    if size == 1:
        comms.append(MPI.COMM_SELF)
    T = {"sky": [], "beam": []}
    dets, pnts, cnvs = [], [], []
    nops, nconv, nread = c.range(5, 24), 0, 0
    views = []  # arrays from data() with what they must contain, as long as they are valid
    try:
        for step in range(nops):
            op = c.below(14)
            comm = c.pick(comms)
            kind = c.pick(["sky", "beam"])
            if op <= 2 or (step < 2 and not T["sky" if step == 0 else "beam"]):
                if step < 2:
                    kind = "sky" if step == 0 else "beam"
                f, l, m, nc = files[(0 if kind == "sky" else 2) + c.below(2)]
                pol = nc == 3 and c.coin()
                wrong = c.below(22) - 12  # 6..9: something that must fail
                al = -1 if c.coin() else c.range(1, l)
                am = -1 if c.coin() else c.range(0, m)
                fwhm = c.pick([0, 0.0, 3, 17.5])
                if wrong == 6:
                    f = c.dir + "/missing.fits"
                elif wrong == 7:
                    f = bad
                elif wrong == 8:
                    al = l + 1 + c.below(9)
                elif wrong == 9 and kind == "beam":
                    am = m + 1 + c.below(9)
                p = c.pick([pol, int(pol), np.bool_(pol)]) if c.coin() else pol
                hist.append("%s(%d,%d,%r%s)" % (kind, al, am, p, ",bad" if wrong > 5 else ""))
                t = None
                with quiet():
                    try:
                        t = Twin(kind, f, p, al, am, fwhm, comm)
                    except RuntimeError:
                        pass
                illegal = wrong in (6, 7, 8) or (wrong == 9 and kind == "beam")
                if (t is None) != illegal:
                    fail("%s: %s" % (kind, "an impossible read does not raise" if illegal else "a legal read raises"))
                if t is None:
                    c.cls("failing read")
                    continue
                if t.rc != 0:
                    fail("the C interface refuses what the wrapper reads")
                nread += 1
                t.compare(c, "reading")
                T[kind].append(t)
            elif op == 3 and T["beam"]:
                t = c.pick(T["beam"])
                if not (t.ref()[0][0] > 0):
                    continue
                hist.append("normalize")
                a, b = t.py.normalize(), beam_norm(t.c)
                if a != b:
                    fail("normalize returns %r, the library %r" % (a, b))
                t.compare(c, "normalize")
            elif op == 4 and T["sky"]:
                t = c.pick(T["sky"])
                mono = c.coin()
                hist.append("monopole" if mono else "dipole")
                (t.py.remove_monopole if mono else t.py.remove_dipole)()
                (sky_mono if mono else sky_dip)(t.c)
                t.compare(c, "remove_" + hist[-1])
            elif op == 5 and T[kind]:
                t = c.pick(T[kind])
                l, m = t.orders()
                n = ncoef(l, m)
                mode = c.below(6)
                hist.append("set_%s_data(%d)" % (kind, mode))
                new = [coefs(r, l, m) for _ in range(3 if t.pol else 1)]
                if kind == "beam":
                    new[0][0] = 1.5
                if mode == 5:  # wrong length
                    k = c.pick([n - 1, n + 1, 2 * n, 0])
                    if k == n:
                        continue
                    if not raises(t.py.set_data, [np.zeros(k, complex)] * 3):
                        fail("%s: %d coefficients are accepted in place of %d" % (kind, k, n))
                    t.compare(c, "a refused set_data")
                    continue
                if mode == 4:  # real numbers and integers
                    new = [np.round(10 * x.real).astype(np.complex64) for x in new]
                    arg = [c.pick([x.real.astype(np.float64), x.real.astype(np.int32), x.real.astype(np.float32)]) for x in new]
                elif mode == 3:  # what one object hands out, another of the same orders takes
                    arg = t.py.get_data()
                    new = [np.asarray(x, np.complex64) for x in arg]
                else:
                    arg = [layouts(r, x) for x in new]
                if c.coin(1, 4):
                    arg = tuple(arg)
                t.py.set_data(arg)
                for k, x in enumerate(new):
                    ref = np.empty(2 * n, np.float32)
                    ref[0::2], ref[1::2] = x.real, x.imag
                    ct.memmove((sky_data if kind == "sky" else beam_data)[k](t.c), ref.ctypes.data, 8 * n)
                t.compare(c, "set_data")
            elif op == 6:
                n = c.pick([0, 1, 5, 100, 1022, 1023, 1024, 1500, 5000]) if c.coin() else int(r.randint(0, 60))
                name = None if c.coin(1, 4) else "".join(chr(r.choice([65, 122, 233, 0x20ac, 32, 48])) for _ in range(n))
                eps = c.pick([None, 0, 0.25, 1, -0.5, 1e-7, np.float32(0.5)])
                hist.append("detector(%s,%r)" % (None if name is None else len(name), eps))
                d = W.Detector(name, eps)
                if name is not None and d.get_id() != name.encode():
                    fail("the name of %d characters comes back as %d bytes" % (len(name), len(d.get_id())))
                if eps is not None and d.get_epsilon() != float(eps):
                    fail("epsilon %r comes back as %r" % (eps, d.get_epsilon()))
                e2 = c.pick([0.1, 0, 3e-4])
                if c.coin() or eps is None:
                    d.set_epsilon(e2)
                    eps = e2
                q = det_new()
                det_seteps(q, eps)
                if d.get_epsilon() != eps:
                    fail("epsilon %r comes back as %r" % (eps, d.get_epsilon()))
                dets.append((d, q))
            elif op == 7:  # pointing objects: any number of rows, any kind of array put into them
                n = c.pick([0, 0, 1, 2, 7, 100])
                hist.append("pointing(%d)" % n)
                p = W.Pointing(n) if c.coin() else W.Pointing()
                if p._pnt is None:
                    fail("no pointing object")
                if c.coin() or p._nrow != n:
                    p.alloc(n)
                rows = [list(x) for x in np.column_stack([r.uniform(0, 7, n), r.uniform(0, np.pi, n), r.uniform(-7, 7, n), r.uniform(-1, 1, n), np.arange(n)])]
                v = p.data()
                if v.shape != (n, 5) or v.dtype != np.float64:
                    fail("data() of %d rows has shape %s and type %s" % (n, v.shape, v.dtype))
                want = np.array(rows, float).reshape(n, 5)
                if n:
                    k = c.below(4)
                    if k == 0:
                        v[:] = want
                    elif k == 1:
                        v[:] = np.asfortranarray(want)
                    elif k == 2:
                        want = want.astype(np.float32).astype(float)
                        want[:, 1] = np.minimum(want[:, 1], np.pi)
                        v[:, :] = want.astype(">f8")
                    else:
                        for i in range(n):
                            v[i] = rows[i]
                if not np.array_equal(p.data(), want):
                    fail("what is written into data() does not come back")
                if n:
                    raw = np.ctypeslib.as_array(ct.cast(pnt_data(p._pnt), ct.POINTER(ct.c_double)), shape=(5 * n,))
                    if not np.array_equal(raw, want.ravel()):
                        fail("the library's rows differ from the array's")
                if c.coin(1, 4):
                    if not raises(p.alloc, c.pick([-3, 1 << 60])):
                        fail("an impossible number of rows is accepted")
                    if p.data().size != 0:
                        fail("after a failed alloc data() shows %d rows" % len(p.data()))
                    p.alloc(n)
                    p.data()[:] = want
                if c.coin(1, 4) and n:  # an array may outlive its object
                    hist.append("(view kept)")
                    v = p.data()
                    del p
                    gc.collect()
                    views.append((v, want.copy()))
                    continue
                pnts.append((p, want))
            elif op <= 9 and T["sky"] and T["beam"]:  # a convolver
                s, b = c.pick(T["sky"]), c.pick(T["beam"])
                pol = bool(s.pol and b.pol and c.coin())
                l = c.pick([-1, c.range(1, min(s.orders()[0], b.orders()[0])), c.range(1, 9)])
                m = c.pick([-1, c.range(0, b.orders()[1]), c.range(0, 4)])
                if c.coin(1, 10):
                    l = 5000
                o = c.range(1, 7)
                if not dets:
                    d, q = W.Detector("d", 0.25), det_new()
                    det_seteps(q, 0.25)
                    dets.append((d, q))
                d, q = c.pick(dets)
                hist.append("convolver(%d,%d,%d,%d)" % (pol, l, m, o))
                with quiet():
                    ref = cnv_new(s.c, b.c, q, pol, l, m, o, 0, handle(comm))
                    try:
                        py = W.Convolver(s.py, b.py, d, pol, l, m, o, 0, comm)
                    except RuntimeError:
                        py = None
                if (py is None) != (not ref):
                    fail("the wrapper %s a convolver the library %s" % ("refuses" if py is None else "makes", "makes" if ref else "refuses"))
                if py is None:
                    c.cls("refused convolver")
                    continue
                cnvs.append((py, ref, s, b, (s.orders(), b.orders())))
            elif op <= 12 and cnvs:  # convolve
                py, ref, s, b, orders = c.pick(cnvs)
                if pnts and c.coin(3, 4):
                    p, want = c.pick(pnts)
                else:
                    n = int(c.range(0, 9))
                    want = np.column_stack([r.uniform(0, 7, n), r.uniform(0, np.pi, n), r.uniform(-7, 7, n), np.zeros(n), np.arange(n)])
                    p = W.Pointing(n)
                    p.data()[:] = want
                    pnts.append((p, want))
                cal = c.pick([True, False, 0, 1])
                illegal = c.coin(1, 6) and len(want) > 0
                rows = want.copy()
                if illegal:
                    rows[len(rows) // 2, 1] = c.pick([-1.0, 4.0, np.nan])
                    p.data()[:] = rows
                elif len(rows) and not (np.all(rows[:, 1] >= 0) and np.all(rows[:, 1] <= np.pi)):
                    illegal = True
                hist.append("convolve(%d%s%s)" % (len(want), ",cal" if cal else "", ",bad" if illegal else ""))
                q = pnt_new()
                n = len(rows)
                pnt_alloc(q, 5 * n)
                if n:
                    ct.memmove(pnt_data(q), np.ascontiguousarray(rows).ctypes.data, 40 * n)
                with quiet():
                    rc = cnv_run(ref, q, 1 if cal else 0)
                    t = raises(py.convolve, p, cal) if cal is not False or c.coin() else raises(py.convolve, p)
                if t != (rc != 0):
                    fail("convolve %s, the library returns %d" % ("raises" if t else "does not raise", rc))
                if illegal != t:
                    fail("an illegal angle does not raise" if illegal else "legal rows raise")
                got = p.data()
                if not t:
                    if got.shape != (n, 5):
                        fail("%d rows became %s" % (n, got.shape))
                    if n:
                        w = np.ctypeslib.as_array(ct.cast(pnt_data(q), ct.POINTER(ct.c_double)), shape=(n, 5))
                        if not np.array_equal(got[:, :4], w[:, :4]):
                            fail("the rows differ from the library's:\n%s\n%s" % (got[:, :4], w[:, :4]))
                    nconv += 1
                    c.cls("convolve")
                else:
                    c.cls("refused convolve")
                pnt_del(q)
                if t:
                    p.alloc(n)
                p.data()[:] = want
            elif op == 13:  # drop an object; what still uses it must go on working
                what = c.below(4)
                hist.append("drop%d" % what)
                if what == 0 and len(T["sky"]) > 1 and not any(x[2] is T["sky"][0] for x in cnvs):
                    T["sky"].pop(0).free()
                elif what == 1 and cnvs:
                    py, ref, s, b, o = cnvs.pop(0)
                    cnv_del(ref)
                    del py
                elif what == 2 and cnvs:  # the wrapper's sky, beam and detector go; the convolver keeps what it needs
                    py, ref, s, b, o = cnvs[-1]
                    rows = np.array([[.5, 1, .2, 0, 0]])
                    p, q = W.Pointing(1), pnt_new()
                    p.data()[:] = rows
                    pnt_alloc(q, 5)
                    ct.memmove(pnt_data(q), rows.ctypes.data, 40)
                    cnv_run(ref, q, 1)
                    S2 = [x for x in T["sky"] if x is s] + [x for x in T["beam"] if x is b]
                    keep = [x.py for x in S2]
                    for x in S2:
                        x.py = None
                    ids = keep and None
                    del keep
                    gc.collect()
                    junk = [W.Pointing(50) for _ in range(4)]
                    py.convolve(p, True)
                    w = np.ctypeslib.as_array(ct.cast(pnt_data(q), ct.POINTER(ct.c_double)), shape=(1, 5))
                    if not np.array_equal(p.data()[:, :4], w[:, :4]):
                        fail("a convolver gives %r after its sky and beam were dropped, the library %r" % (p.data()[0, 3], w[0, 3]))
                    pnt_del(q)
                    del junk, ids
                    c.cls("inputs dropped")
                    nconv += 1
                    hist.append("(end)")
                    break
                elif pnts:
                    pnts.pop(0)
            for v, w in views:
                if not np.array_equal(v, w):
                    fail("an array taken from data() changed when its pointing object was dropped")
    finally:
        for x in cnvs:
            cnv_del(x[1])
        del views[:]
        cnvs, pnts = [], []
        for t in T["sky"] + T["beam"]:
            t.free()
        for d, q in dets:
            det_del(q)
        T, dets = None, None
        gc.collect()
    c.note("history", " ".join(hist))
    c.nontriv = nread > 1 and len(hist) > 4
    if nconv:
        c.cls("history with a convolution")


vp.main({"wrapper": wrapper}, MPI.COMM_WORLD if size > 1 else None)
