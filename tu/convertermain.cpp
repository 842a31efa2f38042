#include "pwned-converter-cli/pwned-converter-cli.cpp"
extern "C" {
unsigned long vt_file_size = 80;
unsigned long vt_force_md5 = pwned::forceEvaluateMD5Hashes, vt_auto_md5 = pwned::autoEvaluateMD5Hashes,
              vt_force_hex = pwned::forceEvaluateHexEncodedPasswords, vt_auto_hex = pwned::autoEvaluateHexEncodedPasswords;
}
