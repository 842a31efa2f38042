#include "extras/pwned-markov-generator/pwned-markov-generator.cpp"
