#include "extras/pwned-markov-lookup/pwned-markov-lookup.cpp"
extern "C" int vt_ok = chain_type::OK;
