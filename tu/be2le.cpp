#include "deprecated/be2le/be2le.cpp"
#include "pwned-lib/hash.cpp"
#include "pwned-lib/util.cpp"
