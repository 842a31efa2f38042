#include "pwned-lib/userpasswordreader.cpp"
#include <cstddef>
using pwned::UserPasswordReader;
extern "C" {
// layout of the object, so that contracts can speak about its members (compiled with -fno-access-control)
extern const long off_sep = offsetof(UserPasswordReader, guessedSeparator);
extern const long off_hex = offsetof(UserPasswordReader, HexRegex);
extern const long off_md5 = offsetof(UserPasswordReader, MD5Regex);
extern const long off_fhex = offsetof(UserPasswordReader, forceEvaluateHexEncodedPasswords);
extern const long off_fmd5 = offsetof(UserPasswordReader, forceEvaluateMD5Hashes);
extern const long off_ahex = offsetof(UserPasswordReader, autoEvaluateHexEncodedPasswords);
extern const long off_amd5 = offsetof(UserPasswordReader, autoEvaluateMD5Hashes);
extern const long off_line = offsetof(UserPasswordReader, currentLine);
extern const long size_reader = sizeof(UserPasswordReader);
extern const long off_input = offsetof(UserPasswordReader, input);
}
