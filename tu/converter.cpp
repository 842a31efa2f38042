#include "pwned-lib/hash.cpp"
#include "pwned-converter-cli/convertoperation.cpp"
extern "C" {
unsigned long vt_op_size = sizeof(ConvertOperation), vt_priv_size = sizeof(ConvertOperationPrivate);
struct VtOp : ConvertOperation
{
  static const void *cancelled(const ConvertOperation &m) { return &static_cast<const VtOp &>(m).isCancelled; }
  static const void *paused(const ConvertOperation &m) { return &static_cast<const VtOp &>(m).isPaused; }
  static const void *theQueue(const ConvertOperation &m) { return &static_cast<const VtOp &>(m).queue; }
};
const void *vt_cancelled(const ConvertOperation &m) { return VtOp::cancelled(m); }
const void *vt_paused(const ConvertOperation &m) { return VtOp::paused(m); }
const void *vt_queue(const ConvertOperation &m) { return VtOp::theQueue(m); }
const void *vt_d(const ConvertOperation &m) { return &m.d; }
const void *vt_priority(const ConvertOperation &m) { return &m.priority; }
const void *vt_maxmem(const ConvertOperationPrivate &m) { return &m.maxMem; }
const void *vt_src(const ConvertOperationPrivate &m) { return &m.srcFilePath; }
const void *vt_dst(const ConvertOperationPrivate &m) { return &m.dstPath; }
const void *vt_ext(const ConvertOperationPrivate &m) { return &m.outputExt; }
const void *vt_options(const ConvertOperationPrivate &m) { return &m.options; }
const void *vt_input(const ConvertOperationPrivate &m) { return &m.inputFile; }
}
