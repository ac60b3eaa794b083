// Translation unit handed to clang: only includes the real sources.
#include "nrlib/geometry/point.cpp"
#include "nrlib/geometry/polygon.cpp"
