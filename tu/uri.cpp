#include "pwned-server/uri.cpp"
#include <cstddef>
extern "C" {
// layout of the object, so that contracts can speak about its members (compiled with -fno-access-control)
extern const long off_valid = offsetof(URI, mIsValid);
extern const long off_scheme = offsetof(URI, mScheme);
extern const long off_username = offsetof(URI, mUsername);
extern const long off_password = offsetof(URI, mPassword);
extern const long off_host = offsetof(URI, mHost);
extern const long off_port = offsetof(URI, mPort);
extern const long off_path = offsetof(URI, mPath);
extern const long off_query = offsetof(URI, mQuery);
extern const long off_fragment = offsetof(URI, mFragment);
extern const long size_uri = sizeof(URI);
}
