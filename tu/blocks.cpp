// Block collections: free space, raw block storage and the cache.
#include <tpie/blocks/freespace_collection.h>
#include <tpie/blocks/block_collection.cpp>
#include <tpie/blocks/block_collection_cache.cpp>
typedef tpie::blocks::bits::freespace_collection FC;
typedef tpie::blocks::block_collection BC;
typedef tpie::blocks::block_collection_cache BCC;
typedef tpie::blocks::block_handle BH;
void vp_fs_free(FC & f, const BH & h) { f.free(h); }
void vp_fs_alloc(FC & f, BH & out) { out = f.alloc(); }
tpie::stream_size_type vp_fs_size(FC & f) { return f.size(); }
void vp_fs_ctor(FC * f, const std::string & p, tpie::memory_size_type bs) { new (f) FC(p, bs); }
void vp_fs_dtor(FC & f) { f.~FC(); }
void vp_bc_alloc(BC & f, BH & out) { out = f.get_free_block(); }
void vp_bc_free(BC & f, const BH & h) { f.free_block(h); }
void vp_bc_read(BC & f, const BH & h, tpie::blocks::block & b) { f.read_block(h, b); }
void vp_bc_write(BC & f, const BH & h, const tpie::blocks::block & b) { f.write_block(h, b); }
void vp_cc_alloc(BCC & f, BH & out) { out = f.get_free_block(); }
void vp_cc_free(BCC & f, const BH & h) { f.free_block(h); }
tpie::blocks::block * vp_cc_read(BCC & f, const BH & h) { return f.read_block(h); }
void vp_cc_write(BCC & f, const BH & h) { f.write_block(h); }
void vp_cc_dtor(BCC & f) { f.~BCC(); }
