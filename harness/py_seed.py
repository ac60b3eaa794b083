from pycommon import *
import pickle, os


def isolated(f):
    """run f in a forked child: the parent never touches the random state"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", f())
            except Fail as e:
                out = ("fail", str(e))
            except Exception as e:
                out = ("fail", "%s: %s" % (type(e).__name__, e))
            with os.fdopen(w, "wb") as h:
                pickle.dump(out, h)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    if not data:
        raise Fail("process died")
    k, v = pickle.loads(data)
    if k == "fail":
        raise Fail(v)
    return v


def sims(spec):
    """spec: list of (dim, n, range): run them in order, return the concatenated values"""
    out = []
    for dim, n, rg, ty in spec:
        v = gf.variogram(ty, rg, rg * .7, rg * .5)
        a = [v, n, 1.0] + ([n, 1.5] if dim > 1 else []) + ([3, 2.0] if dim > 2 else [])
        out.append(bytes(np.asarray(gf.simulate(*a)).tobytes()))
    return out


def parse(s):
    return [(int(a), int(b), float(c), d) for a, b, c, d in (x.split(",") for x in s.split(";") if x)]


def case(t):
    seed, other = int(t[1]), int(t[2])
    A, B = parse(t[3]), parse(t[4])

    def plain():
        gf.seed(seed)
        if gf.seed() != seed:
            raise Fail("reported seed")
        return sims(A)

    def after_history():
        gf.seed(other)
        sims(B)
        gf.seed(seed)
        r = sims(A)
        if gf.seed() != seed:
            raise Fail("reported seed after simulating")
        return r

    def unseeded():
        try:
            gf.seed()
            raise Fail("asking for the seed before seeding is not an error")
        except RuntimeError:
            pass
        r = sims(A)
        s = gf.seed()
        r2 = sims(B)
        if gf.seed() != s:
            raise Fail("automatic seed changes between simulations")
        gf.seed(s)
        if sims(A) != r or sims(B) != r2:
            raise Fail("the automatically chosen seed, as reported, does not reproduce the simulations")
        return None
    a, b = isolated(plain), isolated(after_history)
    if a != b:
        raise Fail("the same seed gives different fields after another history")
    if isolated(plain) != a:
        raise Fail("the same seed gives different fields in another process")
    isolated(unseeded)

    def moves():
        gf.seed(seed)
        r = sims([A[0]] * 2)
        if r[0] == r[1] and A[0][3] != "constant":
            raise Fail("two simulations without reseeding give the same field")
        gf.seed(other)
        if other != seed and sims([A[0]])[0] == r[0]:
            raise Fail("different seeds give the same field")
    isolated(moves)


run(case)
