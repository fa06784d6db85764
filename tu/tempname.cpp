// Temporary names: the real source file, strings, paths and the file system by contract.
#include "../../repo/tpie/tempname.cpp"
typedef tpie::temp_file TF;
void vp_new(TF * f) { new (f) TF; }
void vp_newp(TF * f, const std::string & p, bool b) { new (f) TF(p, b); }
void vp_copy(TF * f, const TF & o) { new (f) TF(o); }
void vp_assign(TF & f, const TF & o) { f = o; }
void vp_del(TF * f) { f->~TF(); }
void vp_free(TF & f) { f.free(); }
void vp_set_path(TF & f, const std::string & p, bool b) { f.set_path(p, b); }
void vp_set_persistent(TF & f, bool b) { f.set_persistent(b); }
bool vp_is_persistent(TF & f) { return f.is_persistent(); }
const std::string & vp_path(TF & f) { return f.path(); }
void vp_update(TF & f, tpie::stream_size_type n) { f.update_recorded_size(n); }
