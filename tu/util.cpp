#include "pwned-lib/util.cpp"
