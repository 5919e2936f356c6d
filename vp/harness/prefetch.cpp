// The loop prefetcher (lib/prefetch.h) over an abstract operation and predicate.
#include "common.h"
#include "svs/lib/prefetch.h"
extern "C" { void vp_op(size_t i) noexcept; bool vp_pred(size_t i) noexcept; }
using namespace svs;
struct Op { size_t tag; void operator()(size_t i) const { vp_op(i); } };
struct Pred { size_t tag; bool operator()(size_t i) const { return vp_pred(i); } };
using P = lib::Prefetcher<Op, Pred>;
VP_CONST(p_sizeof, sizeof(P))
VP_OFFSET(p_step, P, step_)
VP_OFFSET(p_i, P, i_)
VP_OFFSET(p_max, P, imax_)
VP_OFFSET(p_slack, P, slack_)
extern "C" {
void vp_call(P& p) { p(); }
bool vp_done(P& p) { return p.done(); }
void vp_make(P* p, size_t lookahead, size_t step, size_t n) { new (p) P(lib::make_prefetcher(lib::PrefetchParameters{lookahead, step}, n, Op{0}, Pred{0})); }
}
