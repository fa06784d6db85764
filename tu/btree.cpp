// The B-tree and its builder of /repo over opaque elements, keys in an opaque order.
#include <tpie/btree.h>
using namespace tpie;
extern bool vp_less(unsigned long, unsigned long);
struct Cmp { bool operator()(const unsigned long & a, const unsigned long & b) const { return vp_less(a, b); } };
typedef btree<unsigned long, btree_internal, btree_comp<Cmp>> Tree;
typedef btree_builder<unsigned long, btree_internal, btree_comp<Cmp>> Builder;
void vp_tree(Tree & t, unsigned long v) {
	t.insert(v); t.erase(v); t.find(v); t.lower_bound(v); t.upper_bound(v); t.begin(); t.end();
	auto i = t.begin(); ++i; --i; t.root();
}
Tree vp_build(unsigned long v) { Builder b{Cmp()}; b.push(v); return b.build(); }
typedef btree<unsigned long, btree_internal, btree_static, btree_comp<Cmp>> STree;
typedef btree_builder<unsigned long, btree_internal, btree_static, btree_comp<Cmp>> SBuilder;
STree vp_sbuild(unsigned long v) { SBuilder b{Cmp()}; b.push(v); return b.build(); }
