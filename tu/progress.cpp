// Progress indicators: the base class, the sub-indicator, as compiled from /repo.
#include "tpie/progress_indicator_base.cpp"
#include "tpie/progress_indicator_subindicator.cpp"
typedef tpie::progress_indicator_base B;
typedef tpie::progress_indicator_subindicator I;
void vp_pstep(B & p, tpie::stream_size_type n) { p.step(n); }
void vp_praw(B & p, tpie::stream_size_type n) { p.raw_step(n); }
void vp_pinit(B & p, tpie::stream_size_type n) { p.B::init(n); }
void vp_prange(B & p, tpie::stream_size_type n) { p.B::set_range(n); }
tpie::stream_size_type vp_pcur(B & p) { return p.get_current(); }
tpie::stream_size_type vp_pgetrange(B & p) { return p.get_range(); }
void vp_irefresh(I & p) { p.I::refresh(); }
void vp_idone(I & p) { p.I::done(); }
void vp_iinit(I & p, tpie::stream_size_type n) { p.I::init(n); }
void vp_isetup(I & p, B * parent, tpie::stream_size_type outer) { p.setup(parent, outer); }
void vp_inew(void * at, B * parent, tpie::stream_size_type outer) { new (at) I(parent, outer); }
