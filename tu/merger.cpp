#include "pwned-merger-cli/mergeoperation.cpp"
using namespace merger;
extern "C" {
unsigned long vt_op_size = sizeof(MergeOperation), vt_priv_size = sizeof(MergeOperationPrivate), vt_input_size = sizeof(MergerInput),
              vt_file_size = sizeof(InputFile), vt_callback_size = 64;
struct VtOp : MergeOperation
{
  static const void *cancelled(const MergeOperation &m) { return &static_cast<const VtOp &>(m).isCancelled; }
  static const void *paused(const MergeOperation &m) { return &static_cast<const VtOp &>(m).isPaused; }
  static const void *theQueue(const MergeOperation &m) { return &static_cast<const VtOp &>(m).queue; }
};
const void *vt_cancelled(const MergeOperation &m) { return VtOp::cancelled(m); }
const void *vt_paused(const MergeOperation &m) { return VtOp::paused(m); }
const void *vt_queue(const MergeOperation &m) { return VtOp::theQueue(m); }
const void *vt_d(const MergeOperation &m) { return &m.d; }
const void *vt_pq(const MergeOperationPrivate &m) { return &m.pq; }
const void *vt_dst(const MergeOperationPrivate &m) { return &m.dstFile; }
const void *vt_dstpath(const MergeOperationPrivate &m) { return &m.dstFilePath; }
const void *vt_progress(const MergeOperationPrivate &m) { return &m.progressed; }
const void *vt_remove(const MergeOperationPrivate &m) { return &m.removeInputFilesAfterMerge; }
const void *vt_processed(const MergeOperationPrivate &m) { return &m.entriesProcessed; }
const void *vt_total(const MergeOperationPrivate &m) { return &m.totalEntries; }
const void *vt_phc(const MergerInput &m) { return &m.phc; }
const void *vt_valid(const MergerInput &m) { return &m.isValid; }
const void *vt_f(const MergerInput &m) { return &m.f; }
bool vt_less(const MergerInput *a, const MergerInput *b) { return SmallestHashFirst()(a, b); }
void vt_mi_open(MergerInput &m) { m.open(); }
bool vt_mi_read(MergerInput &m) { return m.read(); }
}
