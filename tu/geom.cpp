// Translation unit handed to clang: only includes the real sources.
#include "nrlib/geometry/point.cpp"
#include "nrlib/geometry/line.cpp"
#include "nrlib/geometry/plane.cpp"
#include "nrlib/geometry/triangle.cpp"
#include "nrlib/geometry/transformation.cpp"
