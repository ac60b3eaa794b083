// Translation unit handed to clang: only includes the real sources.
#include "nrlib/math/constants.cpp"
#include "nrlib/random/random.cpp"
#include "nrlib/random/randomgenerator.cpp"
#include "nrlib/random/uniform.cpp"
#include "nrlib/random/triangular.cpp"
#include "nrlib/random/splituniform.cpp"
#include "nrlib/random/delta.cpp"
#include "nrlib/random/normal.cpp"
#include "nrlib/random/lognormal.cpp"
#include "nrlib/random/fractal.cpp"
#include "nrlib/random/beta.cpp"
#include "nrlib/random/betawithendmass.cpp"
#include "nrlib/random/generaldiscrete.cpp"
#include "nrlib/random/binomial.cpp"
#include "nrlib/random/poisson.cpp"
#include "nrlib/random/chisquared.cpp"
