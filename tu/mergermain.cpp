#include "pwned-merger-cli/pwned-merger-cli.cpp"
extern "C" {
unsigned long vt_file_size = sizeof(merger::InputFile);
}
