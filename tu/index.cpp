#include "pwned-lib/util.cpp"
#include "pwned-lib/hash.cpp"
#include "pwned-index/index.cpp"
