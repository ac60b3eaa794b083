from pycommon import *
from fractions import Fraction

RATIO = {"constant": 1.0, "exponential": 2.33, "spherical": 1.92, "gaussian": 6.67, "matern32": 4.0, "matern52": 4.76, "matern72": 5.26}


def pads(ratio, n, rng, step):
    """admissible values: the exact formula, with the neighbours when rounding decides the truncation"""
    out = set()
    for e in (0.0, 1e-12, -1e-12):
        a = ratio * rng / step * (1 + e) - n
        b = rng / step * (1 + e)
        for f in (0.0, 1e-12 * n, -1e-12 * n):
            out.add(max(int(a + f), int(b)) + 1)
    return out


def case(t):
    ty, power = t[1], float(t[2])
    rx, ry, rz, azi, dip = map(float, t[3:8])
    nx, dx, ny, dy, nz, dz = int(t[8]), float(t[9]), int(t[10]), float(t[11]), int(t[12]), float(t[13])
    v = gf.variogram(ty, rx, ry, rz, azi, dip, power)
    got = list(gf.simulation_size(v, nx, dx, ny, dy, nz, dz))
    ratio = RATIO.get(ty) if ty != "general_exponential" else 4.0 + (power - 1.5) * 5.34
    dim = 1 if ny <= 1 else (2 if nz <= 1 else 3)
    if len(got) != dim:
        raise Fail("%d entries for a %d-dimensional grid" % (len(got), dim))
    ef = [rx if dim == 1 else max(rx, ry), ry if azi == 0.0 else max(rx, ry), rz]
    for k, (n, d) in enumerate(((nx, dx), (ny, dy), (nz, dz))[:dim]):
        want = {n + p for p in pads(ratio, n, ef[k], d)}
        if got[k] not in want:
            raise Fail("axis %d: size %d, expected %s" % (k, got[k], sorted(want)))
    # defaults
    if dim == 1 and list(gf.simulation_size(v, nx, dx)) != got:
        raise Fail("defaults of ny, dy, nz, dz")
    if dim == 2 and list(gf.simulation_size(v, nx, dx, ny, dy)) != got:
        raise Fail("defaults of nz, dz")
    if list(gf.simulation_size(variogram=v, nx=nx, dx=dx, ny=ny, dy=dy, nz=nz, dz=dz)) != got:
        raise Fail("keyword arguments")


run(case)
