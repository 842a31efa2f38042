#include "pwned-server/httpworker.cpp"
#include <memory>
#define VT_MEMBER(C, N, m)                                    \
  template <auto M>                                           \
  struct N##_t                                                \
  {                                                           \
    friend const void *N##_(C &c) { return &(c.*M); }         \
  };                                                          \
  const void *N##_(C &);                                      \
  template struct N##_t<&C::m>;                               \
  extern "C" const void *N(C &c) { return N##_(c); }
typedef webservice::HttpWorker VtW;
VT_MEMBER(VtW, vt_w_socket, mSocket)
VT_MEMBER(VtW, vt_w_buffer, mBuffer)
VT_MEMBER(VtW, vt_w_parser, mParser)
VT_MEMBER(VtW, vt_w_timer, mReqTimeout)
VT_MEMBER(VtW, vt_w_response, mResponse)
VT_MEMBER(VtW, vt_w_serializer, mSerializer)
VT_MEMBER(VtW, vt_w_base, mBasePath)
VT_MEMBER(VtW, vt_w_inspector, mInspector)
VT_MEMBER(VtW, vt_w_log, mLogCallback)
VT_MEMBER(VtW, vt_w_updated, mLastUpdated)
extern "C" {
unsigned long vt_worker_size = sizeof(VtW);
int vt_get = int(http::verb::get), vt_content_type = int(http::field::content_type), vt_last_verb = int(http::verb::unlink);
int vt_ok = int(http::status::ok), vt_bad_request = int(http::status::bad_request), vt_not_found = int(http::status::not_found);
// the acceptor is the first member
const void *vt_w_acceptor(VtW &w) { return &w; }
}
