#include "extras/pwned-password-extractor/pwned-password-extractor.cpp"
extern "C" unsigned long vt_file_size = 80;
