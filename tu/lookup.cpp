#include "pwned-lookup-cli/pwned-lookup-cli.cpp"
#include "pwned-lib/hash.cpp"
#include "pwned-lib/util.cpp"
