#include "pwned-server/pwned-server.cpp"
