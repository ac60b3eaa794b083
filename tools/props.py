#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3-vt /verif/tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, note, level="proof", technique=None, observe=None):
    P.append(dict(p=dict(id=id, title=title, statement=statement,
                         quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
                         anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({"observe_at": observe} if observe else {}))),
                  level=level, note=note,
                  technique=technique or "contracts on the real C++ functions, verification conditions generated from clang's AST of /repo on every run, discharged by z3/nlsat/cvc5; refutations replayed on the compiled code"))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, "")
    P[-1]["na"] = reason


VG = "src/nrlib/variogram/"
FF = "src/nrlib/fft/"
STD = ("Proof over exact real arithmetic and mathematical integers (wrap side conditions generated where the code converts); "
       "rounding, NaN and overflow of double are outside the proof and only sampled by the executable form of the same specification, which is compiled with the real sources on each run. ")

prop("C01", "Every variogram type is a proper correlation function",
     "For every variogram type and every valid set of parameters, the correlation is exactly 1 at offset zero, lies between 0 and 1 everywhere, is unchanged when the offset is negated, and never increases when an offset is stretched along its own direction. "
     "Two variograms with the same scaled distance to a point therefore agree there.",
     "inputs", "all types, ranges, angles, powers in (0,2], and all 1D/2D/3D offsets",
     "Tests evaluate a few lags of a few types at angle zero; the laws are universally quantified over real offsets and parameters.",
     [VG + f for f in ("variogram.cpp", "variogram.hpp", "variogramtypes.hpp")],
     [("per-type one-dimensional correlation", "src/nrlib/variogram/variogramtypes.hpp Corr1D"), ("anisotropic distance", "src/nrlib/variogram/variogram.cpp CalculateDistance / rotation matrix")],
     STD + "exp/sqrt/sin/cos/pow enter through instantiated axioms (monotonicity, positivity, Pythagoras).")

prop("C02", "Correlation, covariance and variogram values follow the documented formulas",
     "Each variogram type returns its documented formula (constant, exponential exp(-3d), Gaussian exp(-3d^2), general exponential exp(-3d^p), spherical, Matern 3/2, 5/2 and 7/2 with their range constants) of the anisotropic distance d, the length of the offset rotated by azimuth then dip and divided by main, perpendicular and depth range. "
     "Covariance is variance times correlation, the variogram is variance times one minus correlation, and the point-to-point forms equal the offset forms.",
     "inputs", "all types, all valid parameters, all 1D/2D/3D offsets and point pairs",
     "Tests compare a handful of lags with tabulated values; angle combinations, the third axis and most types are never evaluated.",
     [VG + f for f in ("variogram.cpp", "variogram.hpp", "variogramtypes.hpp")],
     [("correlation evaluation", "src/nrlib/variogram/variogram.cpp GetCorr/GetCov"), ("rotation and scaling", "src/nrlib/variogram/variogram.cpp")],
     STD)

prop("C03", "The Python variogram factory honours name, ranges, angles and power",
     "Creating a variogram by name, in any letter case, gives the type of that name; a name that is not known gives the spherical type. "
     "Main range is used as given, a perpendicular or depth range that is zero or negative is replaced by the main range, azimuth and dip are taken in degrees, and the power reaches only the general exponential type.",
     "inputs", "all strings as names, all positive main ranges, all other ranges, angles and powers",
     "Tests create each type once or twice with default arguments; they do not vary case, missing ranges or angles together.",
     ["src/gaussfft.cpp", "src/gaussfftinterface.cpp", "src/nrlib/iotools/stringtools.cpp", VG + "variogram.cpp"],
     [("factory", "src/gaussfft.cpp CreateVariogram"), ("case folding", "src/nrlib/iotools/stringtools.cpp Uppercase"), ("Python binding defaults", "src/gaussfftinterface.cpp")],
     STD + "Argument passing by pybind11 is trusted and sampled through the built Python module.")

prop("C04", "Changing a variogram equals building it anew; copies are independent",
     "After any sequence of changes of ranges, angles, standard deviation or power, a variogram answers every query exactly as one freshly built with the resulting parameters would, and each query returns the value last set. "
     "A clone answers as its original did at the time of cloning and neither is affected by later changes to the other. "
     "Parameters left out at construction take their documented defaults.",
     "inputs histories", "all setter sequences (each setter verified from an arbitrary consistent state), all types, all queries",
     "Tests never set a parameter after construction and then compare correlations; cached rotation state makes the order of changes matter.",
     [VG + f for f in ("variogram.cpp", "variogram.hpp", "variogramtypes.hpp")],
     [("cached rotation/scale matrix refreshed by every setter", "src/nrlib/variogram/variogram.cpp Set*/Change*"), ("clone", "src/nrlib/variogram/variogramtypes.hpp Clone")],
     STD)

prop("C05", "FFT length is the smallest admissible one",
     "For every requested length the chosen transform length is the smallest number not below it whose prime factors are only 2, 3, 5 and 7, and, where an even length is required, the smallest such even number.",
     "inputs", "all requested lengths 1 <= m < 2^31, with and without the even requirement",
     "Tests check a few sizes below 100; the search works on logarithms, so an error shows only at particular large sizes.",
     [FF + "fft.cpp", FF + "fft.hpp"],
     [("search over exponents", "src/nrlib/fft/fft.cpp FindNewSizeWithPadding")],
     "All four nested loops summarised for all iterations; admissibility, lower bound and minimality each an obligation. Uses the least-element principle and that pow/log are exact enough at integer points (sampled up to 2^31 by the harness).")

prop("C06", "Default padding covers the correlation range; simulation size is reported truly",
     "Without an explicit padding, each axis is padded by at least range divided by step plus one node, and by as much as brings the padded length up to the type's range ratio times range divided by step, with the main range as range in one dimension; in two and three dimensions the larger of main and perpendicular range on the horizontal axes (the perpendicular range alone on the second axis when the azimuth is zero) and the depth range on the vertical axis. "
     "The reported simulation size is, per axis, the requested length plus that default padding.",
     "inputs", "all types, ranges, angles, steps, lengths and paddings in one, two and three dimensions",
     "Tests check printed paddings of fewer than ten configurations, mostly isotropic.",
     [VG + "gaussianfield.cpp", "src/gaussfft.cpp", VG + "variogramtypes.hpp"],
     [("padding", "src/nrlib/variogram/gaussianfield.cpp FindGaussianFieldPadding / Find?DimPadding"), ("size report", "src/gaussfft.cpp SimulationSize")],
     STD)

prop("C07", "The covariance grid is the periodic covariance of the variogram",
     "Every node of the covariance grid in one, two or three dimensions holds the variogram's covariance at the node's periodic offset: index times step in the first half of an axis and index minus length times step in the other half. "
     "Hence the grid is symmetric under index negation modulo the grid size and holds the variance at the origin.",
     "inputs", "all variograms, all grid sizes and steps, all nodes",
     "Tests look at simulated fields, where an error in one axis or at the midpoint of odd lengths drowns in noise.",
     [VG + "fftcovgrid.cpp", VG + "fftcovgrid.hpp"],
     [("grid filling loops", "src/nrlib/variogram/fftcovgrid.cpp constructors")],
     STD + "The variogram enters through its contract (an arbitrary even function), proved in C01/C02.")

prop("C08", "Smoothing factors scale the covariance by the documented Gaussian taper",
     "With a smoothing factor s below 1 on an axis, the covariance at an offset is multiplied by s to the square of the offset divided by the projected range of that axis; axes with factor 1 are left alone, and the factors of different axes multiply. "
     "The projected range is the longest projection of the ellipsoid's principal axes on that coordinate axis.",
     "inputs", "all scaling factors, variograms, grid sizes and nodes, in one, two and three dimensions",
     "No test uses a smoothing factor other than 1 together with rotated ranges.",
     [VG + "fftcovgrid.cpp", VG + "gaussianfield.cpp"],
     [("smoothing loops", "src/nrlib/variogram/fftcovgrid.cpp"), ("projected ranges", "src/nrlib/variogram/fftcovgrid.cpp FindVariogramRanges")],
     STD + "The code's 1.57 for a right angle is accepted.")

prop("C09", "FFT grids: layout, scaling, round trip, crop and convolution",
     "A padded FFT grid keeps every value under its index, transforms with the documented normalisation in each direction so that forward followed by inverse returns the data, and shows only the requested part of the padded block to the user. "
     "Adding, multiplying and convolving grids and the one-dimensional transform follow the mathematical definition entry by entry, and no operation touches memory outside the padded block.",
     "inputs histories", "all grid sizes, paddings, contents and scale conventions, in one, two and three dimensions",
     "Tests use small cubic grids; index errors between axes or between real and complex layout need unequal odd/even lengths.",
     [FF + f for f in ("fft.cpp", "fft.hpp", "fftgrid2d.hpp", "fftgrid3d.hpp")],
     [("in-place real/complex layout", "src/nrlib/fft/fftgrid2d.hpp, fftgrid3d.hpp"), ("1D transform", "src/nrlib/fft/fft.cpp ComputeFFT1D")],
     STD + "FFTW itself is an assumed contract (unnormalised DFT of the planned size).")

exec(open(os.path.join(HERE, "tools", "props_more.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for e in sorted(P, key=lambda e: e["p"]["id"]):
        f.write(json.dumps(e["p"]) + "\n")
M = dict(version=1, setup_cmd="python3-vt -c 'import z3, cvc5, numpy' && clang++-18 --version >/dev/null",
         checks=[dict(property=e["p"]["id"], quick_cmd="python3-vt /verif/check.py " + e["p"]["id"],
                      thorough_cmd="python3-vt /verif/check.py %s --tier thorough" % e["p"]["id"],
                      technique=e["technique"], level=e["level"], level_note=e["note"]) for e in P if "na" not in e],
         not_applicable=[dict(property=e["p"]["id"], reason=e["na"]) for e in P if "na" in e],
         notes="No hooks: the verified text is /repo's own source, parsed by clang on every run.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
import jsonschema
for e in P:
    jsonschema.validate(e["p"], json.load(open("/root/.vp/PROPERTIES.schema.json")))
jsonschema.validate(M, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(P), "properties", len(M["checks"]), "claimed")
