#include "pwned-lib/uuid.cpp"
extern "C" {
bool vt_uuideq(const pwned::UUID &a, const pwned::UUID &b) { return a == b; }
}
