#include "extras/pwned-test-set-extractor/test-set-extractor.cpp"
#include <cstddef>
#include "pwned-lib/hash.cpp"
#include "pwned-lib/util.cpp"
unsigned long vt_count_at = offsetof(pwned::PHC, count);
