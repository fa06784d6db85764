// The pipelining nodes of /repo between opaque neighbours.
#include <tpie/tpie.h>
#include <tpie/pipelining.h>
#include <tpie/pipelining/uniq.h>
#include <tpie/pipelining/ordered_merge.h>
#include <tpie/pipelining/chunker.h>
#include <tpie/pipelining/internal_buffer.h>
#include <tpie/pipelining/std_glue.h>
#include <tpie/pipelining/filter.h>
#include <tpie/pipelining/map.h>
using namespace tpie;
using namespace tpie::pipelining;
typedef unsigned long T;
typedef std::pair<T, T> P2;
struct dst : node { typedef T item_type; dst(dst &&); void push(const T &); };
struct pdst : node { typedef P2 item_type; pdst(pdst &&); void push(const P2 &); };
struct cdst : node { typedef std::pair<T, size_t> item_type; cdst(cdst &&); void push(const std::pair<T, size_t> &); };
struct vdst : node { typedef std::vector<T> item_type; vdst(vdst &&); void push(const std::vector<T> &); };
struct src : node { typedef T item_type; src(src &&); T pull(); bool can_pull(); const T & peek(); };
struct dfact { typedef dst constructed_type; dst construct(); };
struct sfact { typedef src constructed_type; src construct(); };
extern bool vp_pred(T);
extern T vp_fun(T);
extern bool vp_less(T, T);
struct Pred { typedef T argument_type; bool operator()(const T & x) const { return vp_pred(x); } };
struct Fun { typedef T argument_type; typedef T result_type; T operator()(const T & x) const { return vp_fun(x); } };
struct Exc { typedef T argument_type; typedef std::pair<T, bool> result_type; std::pair<T, bool> operator()(const T & x) const { return std::make_pair(vp_fun(x), vp_pred(x)); } };
struct Cmp { bool operator()(const T & a, const T & b) const { return vp_less(a, b); } };
namespace b = tpie::pipelining::bits;
// member functions only: constructors and the graph are not part of this
#define PUSH(name, type) typedef type name##_n; void vp_##name(name##_n & n, const name##_n::item_type & x) { n.push(x); }
#define C ,
PUSH(filter, b::filter_t<dst C Pred>)
PUSH(map, b::map_t<dst C Fun>)
typedef b::map_temp_t<dst, Fun> mapt_n; void vp_mapt(mapt_n & n, const T & x) { n.push(x); }
PUSH(lambda, b::lambda_t<dst C Fun>)
PUSH(exclude, b::exclude_lambda_t<dst C Exc>)
PUSH(linear, b::linear_t<dst>)
PUSH(fork, b::fork_t<dst C dfact>)
PUSH(zip, b::zip_t<pdst C sfact>)
PUSH(unzip, b::unzip_t<dst C dfact>)
typedef b::merge_t<dst, sfact> mergep_n; void vp_mergep(mergep_n & n, const T & x) { n.push(x); }
typedef b::ordered_merge_t<dst, sfact, Cmp> omerge_n; void vp_omerge(omerge_n & n, const T & x) { n.push(x); } void vp_omerge_end(omerge_n & n) { n.omerge_n::end(); }
typedef b::count_consecutive_t<cdst> cc_n; void vp_cc(cc_n & n, const T & x) { n.push(x); } void vp_cc_end(cc_n & n) { n.cc_n::end(); }
typedef b::extract_first_t<dst> ef_n; void vp_ef(ef_n & n, const std::pair<T, size_t> & x) { n.push(x); }
typedef b::chunker_t<vdst> chunk_n; void vp_chunk(chunk_n & n, const T & x) { n.push(x); } void vp_chunk_end(chunk_n & n) { n.chunk_n::end(); }
typedef b::range_t<dst> range_n; void vp_range(range_n & n) { n.range_n::go(); }
typedef b::pull_source_t<dst, sfact> ps_n; void vp_ps(ps_n & n) { n.ps_n::go(); }
typedef b::pull_peek_t<src> pp_n; void vp_pp_begin(pp_n & n) { n.pp_n::begin(); } T vp_pp_pull(pp_n & n) { return n.pull(); } bool vp_pp_can(pp_n & n) { return n.can_pull(); } const T & vp_pp_peek(pp_n & n) { return n.peek(); }
typedef b::pull_fork_t<src, dfact> pf_n; T vp_pf_pull(pf_n & n) { return n.pull(); } bool vp_pf_can(pf_n & n) { return n.can_pull(); }
typedef b::pull_map_t<src, Fun> pm_n; T vp_pm_pull(pm_n & n) { return n.pull(); } bool vp_pm_can(pm_n & n) { return n.can_pull(); }
typedef b::buffer_input_t<T> bi_n; void vp_bi(bi_n & n, const T & x) { n.push(x); }
typedef b::buffer_output_t<dst> bo_n; void vp_bo(bo_n & n) { n.bo_n::go(); }
typedef b::buffer_pull_output_t<T> bp_n; T vp_bp_pull(bp_n & n) { return n.pull(); } bool vp_bp_can(bp_n & n) { return n.can_pull(); }
typedef b::reverser_input_t<T> ri_n; void vp_ri(ri_n & n, const T & x) { n.push(x); }
typedef b::reverser_output_t<dst> ro_n; void vp_ro(ro_n & n) { n.ro_n::go(); }
typedef b::reverser_pull_output_t<T> rp_n; T vp_rp_pull(rp_n & n) { return n.pull(); } bool vp_rp_can(rp_n & n) { return n.can_pull(); }
typedef b::internal_reverser_input_t<T> iri_n; void vp_iri(iri_n & n, const T & x) { n.push(x); }
typedef b::internal_reverser_output_t<dst> iro_n; void vp_iro(iro_n & n) { n.iro_n::go(); }
typedef b::internal_reverser_pull_output_t<T> irp_n; T vp_irp_pull(irp_n & n) { return n.pull(); } bool vp_irp_can(irp_n & n) { return n.can_pull(); }
typedef b::internal_buffer_input_t<T> ibi_n; void vp_ibi(ibi_n & n, const T & x) { n.push(x); }
typedef b::internal_buffer_pull_output_t<T> ibp_n; T vp_ibp_pull(ibp_n & n) { return n.pull(); } bool vp_ibp_can(ibp_n & n) { return n.can_pull(); }
typedef b::input_t<dst> fi_n; void vp_fi(fi_n & n) { n.fi_n::go(); }
typedef b::pull_input_t<T> fpi_n; T vp_fpi_pull(fpi_n & n) { return n.pull(); } bool vp_fpi_can(fpi_n & n) { return n.can_pull(); }
typedef b::output_t<T> fo_n; void vp_fo(fo_n & n, const T & x) { n.push(x); }
typedef b::pull_output_t<src> fpo_n; void vp_fpo(fpo_n & n) { n.fpo_n::go(); }
typedef b::tee_t<dst, T> tee_n; void vp_tee(tee_n & n, const T & x) { n.push(x); }
typedef b::input_vector_t<dst, T, std::allocator<T>> iv_n; void vp_iv(iv_n & n) { n.iv_n::go(); }
typedef b::pull_input_vector_t<T, std::allocator<T>> piv_n; void vp_piv_begin(piv_n & n) { n.piv_n::begin(); } const T & vp_piv_pull(piv_n & n) { return n.pull(); } bool vp_piv_can(piv_n & n) { return n.can_pull(); } const T & vp_piv_peek(piv_n & n) { return n.peek(); }
typedef b::push_input_iterator_t<dst, const T *> pii_n; void vp_pii(pii_n & n) { n.pii_n::go(); }
typedef b::push_output_iterator_t<T *, T> poi_n; void vp_poi(poi_n & n, const T & x) { n.push(x); }
typedef b::pull_output_iterator_t<src, T *> pulloi_n; void vp_puloi(pulloi_n & n) { n.pulloi_n::go(); }
typedef b::null_sink_t<T> ns_n; void vp_ns(ns_n & n, const T & x) { n.push(x); }
