// The extension module's C++ layer on top of the core: real sources only.
#include "core.cpp"
#include "nrlib/math/constants.cpp"
#include "nrlib/iotools/stringtools.cpp"
#include "gaussfft.cpp"
