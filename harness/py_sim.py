from pycommon import *
import _ref
import math

PYT = ["constant", "exponential", "spherical", "gaussian", "general_exponential", "matern32", "matern52", "matern72"]
pkg = load_package()


def same(a, b, what):
    a = np.asarray(a)
    if a.ndim != 1 or a.dtype != np.float64:
        raise Fail("%s: result is not a one-dimensional array of doubles" % what)
    if len(a) != len(b):
        raise Fail("%s: %d values, expected %d" % (what, len(a), len(b)))
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y and not (math.isnan(x) and math.isnan(y)):
            raise Fail("%s: value %d is %r, expected %r" % (what, k, x, y))


def case(t):
    ty, power = int(t[1]), float(t[2])
    rx, ry, rz, azi, dip = map(float, t[3:8])
    n = [int(t[8]), int(t[10]), int(t[12])]
    d = [float(t[9]), float(t[11]), float(t[13])]
    pad = [int(x) for x in t[14:17]]
    s = [float(x) for x in t[17:20]]
    seed = int(t[20])
    v = gf.variogram(PYT[ty], rx, ry, rz, azi, dip, power)
    dim = 1 if n[1] <= 1 or d[1] < 0 else (2 if n[2] <= 1 or d[2] < 0 else 3)
    deg = math.pi / 180
    want = _ref.field(dim, seed, ty, power, rx, ry, rz, azi * 0.017453292519943295, dip * 0.017453292519943295, n, d, [-1] * 3, [1.0] * 3)
    wanta = _ref.field(dim, seed, ty, power, rx, ry, rz, azi * 0.017453292519943295, dip * 0.017453292519943295, n, d, pad, s)
    full = dict(variogram=v, nx=n[0], dx=d[0], ny=n[1], dy=d[1], nz=n[2], dz=d[2])

    def go(what, want_, f, *a, **k):
        gf.seed(seed)
        if gf.seed() != seed:
            raise Fail("seed() does not return the seed set")
        r = f(*a, **k)
        if gf.seed() != seed:
            raise Fail(what + ": simulation changes the reported seed")
        same(r, want_, what)
    pos = (v, n[0], d[0], n[1], d[1], n[2], d[2])
    go("simulate(positional)", want, gf.simulate, *pos)
    go("simulate(keywords)", want, gf.simulate, **full)
    go("package simulate", want, pkg.simulate, **full)
    go("advanced.simulate(positional)", wanta, gf.advanced.simulate, *pos, *pad, *s)
    go("advanced.simulate(keywords)", wanta, pkg.advanced.simulate, padx=pad[0], pady=pad[1], padz=pad[2], sx=s[0], sy=s[1], sz=s[2], **full)
    go("advanced.simulate(defaults)", want, gf.advanced.simulate, **full)
    if dim == 1:
        go("simulate(1D defaults)", want, gf.simulate, v, n[0], d[0])
        go("advanced.simulate(1D defaults)", want, gf.advanced.simulate, v, n[0], d[0])
    if dim == 2:
        go("simulate(2D defaults)", want, gf.simulate, v, n[0], d[0], n[1], d[1])
        go("advanced.simulate(2D defaults)", want, gf.advanced.simulate, v, n[0], d[0], n[1], d[1])


run(case)
