
prop("C10", "A simulated field is white noise filtered by the root of the covariance spectrum",
     "A simulated field in one, two or three dimensions is standard normal white noise on the padded grid, transformed, multiplied frequency by frequency by the square root of the non-negative real part of the transformed covariance grid, transformed back with the normalisation that gives the field the variogram's covariance, and cropped to the requested size. "
     "The simulation grid has the transform length for length plus padding on each axis (padding as given, or the default one), and every node of every requested field gets its own draw from the one generator of the run, in a fixed order; arguments left out mean one field, the default padding and no smoothing.",
     "inputs", "all variograms, sizes, steps, paddings, smoothing factors and noise streams",
     "Tests compare the gradient or a chi-square of a few isotropic fields; a wrong scale on one axis, reused noise or a shifted crop is invisible in such statistics.",
     [VG + "gaussianfield.cpp", VG + "gaussianfield.hpp", VG + "fftcovgrid.cpp", FF + "fftgrid2d.hpp", FF + "fftgrid3d.hpp"],
     [("simulation per dimension", "src/nrlib/variogram/gaussianfield.cpp Simulate1DGaussianField / Simulate2D... / Simulate3D..."), ("covariance grid", "src/nrlib/variogram/fftcovgrid.cpp")],
     STD + "FFTW, the normal deviate and the transform length enter through their contracts (C09, C13, C05).")

prop("C11", "Python simulate returns the field of the right dimension, size and order",
     "The Python simulate functions run the one-dimensional simulation when the second axis has at most one node or a negative step, else the two-dimensional one when the third axis has, else the three-dimensional one; they pass each size, step, padding and smoothing factor to its own axis and return all requested values once, with the first axis running fastest. "
     "The advanced form with default arguments equals the plain form.",
     "inputs", "all variograms, sizes, steps, paddings and scaling factors accepted by the interface",
     "Tests use one shape per dimension and statistics that a swapped axis or argument does not change.",
     ["src/gaussfft.cpp", "src/gaussfft.hpp", "src/gaussfftinterface.cpp", "src/nrlib/grid/grid.hpp", "src/nrlib/grid/grid2d.hpp"],
     [("dispatch on the dimension", "src/gaussfft.cpp Simulate / SimulateWithAdvancedSettings"), ("storage order", "src/nrlib/grid/grid.hpp, grid2d.hpp"), ("binding table", "src/gaussfftinterface.cpp")],
     STD + "The pybind11 argument tables cannot be reached by the verifier: they are run through the built extension against a second extension that calls the C++ directly (bounded).")

prop("C12", "Seeding makes every simulation reproducible",
     "After setting a seed, every later draw and simulation is a function of that seed and of the sequence of calls alone; setting the same seed again and repeating the calls gives the same fields bit for bit, and the seed can be read back. "
     "A run without a seed takes one, reports that seed, and repeating with it gives the same field; generators held as objects and the global one never influence each other.",
     "inputs histories", "all seeds, all call sequences (each operation verified from an arbitrary generator state), all dimensions",
     "Tests compare two runs in fresh processes; carry-over between calls or generators shows only for particular call histories.",
     ["src/gaussfft.cpp", "src/nrlib/random/random.cpp", "src/nrlib/random/random.hpp", "src/nrlib/random/randomgenerator.cpp", "src/nrlib/random/randomgenerator.hpp", VG + "gaussianfield.cpp"],
     [("global generator", "src/nrlib/random/random.cpp"), ("generator object", "src/nrlib/random/randomgenerator.cpp"), ("seeding on first use", "src/gaussfft.cpp"), ("seeding of the 2D simulation", "src/nrlib/variogram/gaussianfield.cpp")],
     STD + "dSFMT is an assumed contract: value k of a stream is a function of the seed and k.")

prop("C13", "Normal deviates come from the standard normal mixture",
     "Both generators turn uniform numbers into normal deviates by the same composition: the mixture probabilities, the three component formulas on (-3,3) and the residual density add up to the standard normal density, and the tail component lies beyond three in absolute value. "
     "Every sequence of uniform numbers gives a finite value.",
     "inputs", "all sequences of uniform numbers in [0,1), both generators",
     "Statistical tests cannot see the tail component, drawn in 0.3 percent of the calls, nor isolated inputs that give infinity or NaN.",
     ["src/nrlib/random/random.cpp", "src/nrlib/random/randomgenerator.cpp"],
     [("composition method", "src/nrlib/random/random.cpp Norm01, g"), ("its twin", "src/nrlib/random/randomgenerator.cpp Norm01, g")],
     STD + "That rejection sampling yields its textbook density, and its termination, are outside the proof.")

GR = "src/nrlib/grid/"
prop("C14", "Grid containers map every index tuple to its own cell",
     "A grid of two to five axes holds one value per index tuple: the flat index of a tuple lies inside the grid, different tuples have different flat indices with the first axis running fastest, and splitting a flat index gives back its tuple. "
     "Writing a cell changes that cell alone, resizing and constructing fill every cell with the given value, swapping exchanges contents and dimensions, and minimum, maximum and average (with missing values skipped) are those of the stored values; the grid with index ranges behaves the same on its ranges.",
     "inputs", "all grid sizes and index ranges, all index tuples, all contents",
     "Tests index a few small grids, mostly cubic ones where swapped axes or strides do not show.",
     [GR + f for f in ("grid.hpp", "grid2d.hpp", "grid2dgeneral.hpp", "grid4d.hpp", "grid5d.hpp")],
     [("flat index and its inverse", "src/nrlib/grid/*.hpp GetIndex, GetIJ, GetIJK, GetIJKL, GetIJKLM"), ("construction, Resize, Swap", "src/nrlib/grid/*.hpp"), ("FindMin, FindMax, GetAvgMinMax, LogTransform", "src/nrlib/grid/grid.hpp, grid2d.hpp, grid2dgeneral.hpp")],
     STD + "Index products are taken to fit in size_t; element type double.")

prop("C15", "Regular surfaces interpolate between nodes and keep geometry and values in step",
     "A regular surface has its nodes at the corner plus whole increments, and the value at a point is the bilinear interpolation of the four surrounding nodes, taken over the nodes present and missing when none with weight is; the strict form is missing unless all four are present. A rotated surface answers as the unrotated one does at the point turned back around the reference corner. "
     "Changing dimensions, size, angle or contents leaves increments, bounds and inside tests those of the new geometry, arithmetic with a number or with another surface acts on every node and keeps missing nodes missing, and minimum, maximum, average, the node where an extreme lies, neighbour averages and resampling agree with these values.",
     "inputs histories", "all surface sizes, positions, angles, node values and missing patterns, all query points, all changes from an arbitrary consistent state",
     "Tests query a few points of two or three small surfaces; missing corners, edges, rotated geometry and later changes are not combined.",
     ["src/nrlib/surface/regularsurface.hpp", "src/nrlib/surface/regularsurfacerotated.hpp", "src/nrlib/surface/surface.hpp", GR + "grid2d.hpp"],
     [("node positions, index finding, GetZ, GetZInside", "src/nrlib/surface/regularsurface.hpp"), ("arithmetic and statistics", "src/nrlib/surface/regularsurface.hpp"), ("rotation, bounding box, ResampleSurface", "src/nrlib/surface/regularsurfacerotated.hpp")],
     STD + "Behaviour exactly on the boundary and within rounding of it is outside the proof where the code uses a tolerance.")

prop("C16", "A volume converts coordinates consistently and encloses exactly its box",
     "Conversion from world to local coordinates and back is the identity and preserves distances for every rotation angle, and a point is inside a volume exactly when its local coordinates lie within the lengths, widened by the tolerance where asked, and, for three coordinates, its depth lies between the two surfaces. "
     "The centre is the world position of the middle of the box, thickness and depth extremes are those of the bounding surfaces over the area, a surface covers the volume when it encloses the smallest rectangle around its corners, setting dimensions, angle or surfaces changes just that part, and a copy or assignment answers every query as its original did without sharing anything with it.",
     "inputs histories", "all positions, lengths, angles, tolerances, surfaces and query points; each change from an arbitrary state",
     "Tests use one or two volumes, mostly at angle zero where wrong signs or unrotated centres do not show.",
     ["src/nrlib/volume/volume.cpp", "src/nrlib/volume/volume.hpp", "src/nrlib/surface/surface.hpp"],
     [("coordinate conversion and inside tests", "src/nrlib/volume/volume.cpp"), ("copy, assignment, setters", "src/nrlib/volume/volume.cpp"), ("FindCenter, RecalculateLZ, GetTopZMin and its siblings", "src/nrlib/volume/volume.cpp")],
     STD + "Surfaces enter through their interface (any value at any point).")

prop("C17", "Binary numbers keep their bytes and their values",
     "Writing a 2-byte or 4-byte integer, a 4-byte or 8-byte IEEE float, alone or as an array of any length, puts exactly the bytes of each number on the stream in the asked byte order, and reading them back in that order gives the same numbers bit for bit, filling just the asked elements; reading that the stream cannot satisfy raises instead of returning. "
     "An IBM float written for a normal IEEE number has its value with the fraction cut to 24 bits (at most three low bits lost) and zero for either zero; reading a normalised IBM float whose value is a normal IEEE number gives exactly that value, smaller ones give zero, and an IBM float read and written again is unchanged.",
     "inputs", "all bit patterns of each type, both byte orders, arrays of any length below 2^31",
     "Tests round-trip a handful of values; a wrong table entry for one exponent class, an edge pattern or one element of an array passes them.",
     ["src/nrlib/iotools/fileio.hpp"],
     [("buffer conversions", "src/nrlib/iotools/fileio.hpp Parse*BE/LE, Write*BE/LE"), ("IBM and IEEE", "src/nrlib/iotools/fileio.hpp Ibm2Ieee, Ieee2Ibm"), ("streams", "src/nrlib/iotools/fileio.hpp WriteBinary*, ReadBinary*")],
     "Bit-exact: machine integers as bit vectors, no real arithmetic. The stream appends what it is given and delivers consecutive bytes or fails; little-endian machine; memcpy and boost::endian by their contracts; subnormal, infinite and NaN inputs of the IBM conversion are outside.")

prop("C18", "Seismic geometry converts positions, line numbers and cells consistently",
     "For every constructor, copy and sub-geometry, a trace cell (i, j), its inline and crossline numbers, its coordinates in metres and its flat index describe the same cell, whatever the rotation, the line steps and their signs: each conversion gives back what another started from, the position of a line is the one the lattice gives, a position or line number outside the geometry is refused, and the nearest line numbers of a position are those of its cell. "
     "A sub-geometry for line ranges or for an area has its cells on the lines of the data and covers what was asked for, and the geometry recovered from the traces of a full lattice puts every trace in its own cell.",
     "inputs", "all origins, increments, angles, line numbers and steps of either sign, all cells and positions",
     "Tests use two or three cubes with positive steps; single lines, decreasing numbers, lines just outside and copies are not exercised.",
     ["src/nrlib/segy/segygeometry.cpp", "src/nrlib/segy/segygeometry.hpp"],
     [("conversions", "src/nrlib/segy/segygeometry.cpp FindIndex, FindILXL*, FindXYFrom*, FindContGridIndex"), ("construction, copy, SetupGeometry, sub-geometry", "src/nrlib/segy/segygeometry.cpp"), ("flat index", "src/nrlib/segy/segygeometry.hpp")],
     STD + "Recovery of the geometry from traces (the search for regular lines) is bounded: lattices sampled through the real constructor.")

RD = "src/nrlib/random/"
prop("C19", "Density, cumulative probability, quantile and draws of a distribution agree",
     "For every distribution class the density is the slope of the cumulative probability (for discrete ones the step), zero outside the support and never undefined, the cumulative probability is zero below the support and one above it, the quantile inverts it, and a draw is the quantile of one number from the generator given or the documented transformation of its numbers; a draw truncated to limits lies within them. "
     "A distribution whose parameters were changed, a clone and one built by default answer every query as one built with those parameters, and drawing with a generator object leaves the global one alone.",
     "inputs histories", "all parameter values of every distribution class, all arguments and probabilities, all random numbers",
     "Tests draw samples from a few distributions; densities at the edge of the support, changed parameters, clones and the upper half of a piecewise form are not looked at.",
     [RD + f for f in ("distribution.hpp", "uniform.hpp", "splituniform.hpp", "triangular.hpp", "normal.hpp", "normal.cpp", "lognormal.hpp", "lognormal.cpp", "delta.hpp", "fractal.hpp", "fractal.cpp", "gamma.cpp", "functions.cpp", "chisquared.hpp", "beta.hpp", "beta.cpp", "betawithendmass.hpp", "betawithendmass.cpp", "generaldiscrete.hpp", "binomial.cpp", "poisson.cpp")],
     [("densities, cumulative probabilities, quantiles, draws", "src/nrlib/random/*.hpp"), ("truncated draws", "src/nrlib/random/normal.cpp"), ("tables", "src/nrlib/random/beta.cpp, binomial.cpp, generaldiscrete.hpp")],
     STD + "Special functions enter through their laws and are sampled against Boost.Math; Beta quantiles and Poisson draws are bounded.")

GD = "src/nrlib/geometry/"
prop("C20", "Points, lines, planes, triangles and transformations follow vector geometry",
     "For all points and vectors arithmetic, products, lengths and angles are those of vector algebra (an angle is never undefined for vectors that are not zero); the projection on a line, ray or segment is its nearest allowed point, the side is told from the direction of the line alone, the nearest points of two lines of any kinds are allowed points and no allowed pair is nearer, also when the lines are parallel or one of them is a single point; crossings of lines in the plane, of planes with lines and planes, and of triangles with lines are reported exactly when they exist, at the right point. "
     "Exactly parallel lines are parallel under every limit, and each translation, stretch, rotation, shear or mirroring is applied after those already in a transformation.",
     "inputs", "all points, lines of every kind (infinite, rays, segments, zero length), planes, triangles and chains of transformations",
     "No test covers this code; ends, sides, parallel and degenerate cases are exactly what a few examples leave out.",
     [GD + f for f in ("point.hpp", "point.cpp", "line.hpp", "line.cpp", "plane.hpp", "plane.cpp", "triangle.hpp", "triangle.cpp", "transformation.hpp", "transformation.cpp")],
     [("points", GD + "point.hpp, point.cpp"), ("lines", GD + "line.cpp"), ("planes", GD + "plane.cpp"), ("triangles", GD + "triangle.cpp"), ("transformations", GD + "transformation.cpp")],
     STD + "Near-parallel lines, where rounding decides, are outside the claim.")

prop("C21", "Sums, means, variances and extremes are those of the data that are not missing",
     "For every range of numbers and every rule for what is missing, the count, sum, mean, variance (divided by one less than the count), smallest and largest element of the statistics functions are those of exactly the elements that are not missing, and the covariance is that of the pairs; the extreme returned is an element of the range that is not missing and none is beyond it (the end of the range when there is none). "
     "One element, or one pair, has variance or covariance zero, never an undefined value; without data, or with ranges of different lengths, the functions refuse, or return zero when told not to throw; the form for a whole collection gives the answer for its range.",
     "inputs", "all ranges of any length including empty ones, all sets of missing elements, both settings of the throwing flag",
     "No test covers this code; missing first elements, single elements and empty ranges are what examples leave out.",
     ["src/nrlib/statistics/statistics.hpp"],
     [("statistics", "src/nrlib/statistics/statistics.hpp")],
     STD)

prop("C22", "Inside, orientation, convexity and lengths of polygons follow the closed border",
     "For every polygon in the plane, a point is inside exactly when a ray from it meets an odd number of edges of the closed polygon (each edge counting one of its ends), the orientation is the sign of the area enclosed including the closing edge, convex means that no turn goes against the orientation, also at the first and last points, the extent is the least box of the points, the circumference is the length of all edges, the distance along the border is the shorter of the two ways, "
     "and the position of a point is that of its first occurrence (the number of points when there is none). Points are returned in the order added, with the first repeated when a closed list is asked for.",
     "inputs", "all polygons of any number of points (convexity: three or more), convex or not, in either orientation, all query points and pairs of points",
     "No test covers polygons; the closing edge, points level with a corner and concave polygons are exactly what an example or two does not reach.",
     [GD + f for f in ("polygon.hpp", "polygon.cpp")],
     [("polygons", GD + "polygon.cpp")],
     STD + "Equal z of all points. MakeConvex is sampled only; MinEnclosingRectangle and TangentPointPoly are outside the claim.")
