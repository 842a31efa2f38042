#include "pwned-lib/util.cpp"
#include "pwned-lib/hash.cpp"
#include "pwned-lib/passwordinspector.cpp"
#include <cstddef>
using pwned::PasswordInspector;
extern "C" {
// layout of the object, so that contracts can speak about its members (compiled with -fno-access-control)
extern const long off_input = offsetof(PasswordInspector, mInputFile);
extern const long off_index = offsetof(PasswordInspector, mIndexFile);
extern const long off_size = offsetof(PasswordInspector, mFileSize);
extern const long off_shift = offsetof(PasswordInspector, mShift);
extern const long size_pi = sizeof(PasswordInspector);
}
