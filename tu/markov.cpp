#include "pwned-lib/markovchain.hpp"
using namespace pwned::markov;
template class pwned::markov::Node<>;
template class pwned::markov::Chain<>;
// access to private members through explicit instantiation
template <class Tag, typename Tag::type M> struct VtRob { friend typename Tag::type vtGet(Tag) { return M; } };
#define VT_MEMBER(tag, cls, mem, ...) \
  struct tag { typedef __VA_ARGS__ VtMemberType; typedef VtMemberType cls::*type; friend type vtGet(tag); }; \
  template struct VtRob<tag, &cls::mem>;
typedef const char VtHeader[4];
typedef std::unordered_map<wchar_t, uint64_t> VtCounts;
typedef std::unordered_map<wchar_t, double> VtProbs;
typedef std::vector<std::pair<wchar_t, double>> VtSorted;
typedef std::unordered_map<wchar_t, Node<>> VtNodes;
VT_MEMBER(VtNodeCounts, Node<>, mCounts, VtCounts)
VT_MEMBER(VtNodeProbs, Node<>, mProbs, VtProbs)
VT_MEMBER(VtNodeSorted, Node<>, mSortedProbs, VtSorted)
VT_MEMBER(VtChainNodes, Chain<>, mNodes, VtNodes)
VT_MEMBER(VtChainCounts, Chain<>, mFirstSymbolCounts, VtCounts)
VT_MEMBER(VtChainProbs, Chain<>, mFirstSymbolProbs, VtProbs)
VT_MEMBER(VtChainSorted, Chain<>, mFirstSymbolSortedProbs, VtSorted)
VT_MEMBER(VtChainErr, Chain<>, mErrStrings, const std::vector<std::string>)
VT_MEMBER(VtChainHeader, Chain<>, FileHeader, VtHeader)
extern "C" {
const void *vt_chain_header(const Chain<> &c) { return &(c.*vtGet(VtChainHeader())); }
unsigned long vt_chain_size = sizeof(Chain<>), vt_node_size = sizeof(Node<>);
const void *vt_node_sorted(const Node<> &n) { return &(n.*vtGet(VtNodeSorted())); }
const void *vt_node_counts(const Node<> &n) { return &(n.*vtGet(VtNodeCounts())); }
const void *vt_node_probs(const Node<> &n) { return &(n.*vtGet(VtNodeProbs())); }
const void *vt_chain_sorted(const Chain<> &c) { return &(c.*vtGet(VtChainSorted())); }
const void *vt_chain_nodes(const Chain<> &c) { return &(c.*vtGet(VtChainNodes())); }
const void *vt_chain_counts(const Chain<> &c) { return &(c.*vtGet(VtChainCounts())); }
const void *vt_chain_probs(const Chain<> &c) { return &(c.*vtGet(VtChainProbs())); }
const void *vt_chain_err(const Chain<> &c) { return &(c.*vtGet(VtChainErr())); }
Chain<> *vt_chain_make(void *p) { return new (p) Chain<>(); }
unsigned long vt_err_last = Chain<>::BAD_NODE_COUNT_PREMATURE_EOF;
}
