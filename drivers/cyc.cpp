#include "probe.hpp"
using namespace vp;
using namespace efp;
#define CYC(TN, P, ...)                                                                       \
    using TN = __VA_ARGS__;                                                                   \
    S_FN unsigned long sizeof_##TN() { return sizeof(TN); }                                   \
    S_FN void ctor_##TN(void* p) { new (p) TN(); }                                            \
    S_FN void dtor_##TN(TN& v) { v.~TN(); }                                                   \
    S_FN unsigned long size_##TN(const TN& v) { return v.size(); }                            \
    S_FN unsigned long length_##TN(const TN& v) { return efp::length(v); }                    \
    S_FN bool empty_##TN(const TN& v) { return v.empty(); }                                   \
    S_FN const P* at_##TN(TN& v, unsigned long i) { return &v[i]; }                           \
    S_FN const P* cat_##TN(const TN& v, unsigned long i) { return &v[i]; }                    \
    S_FN const P* nth_##TN(TN& v, unsigned long i) { return &efp::nth(i, v); }                \
    S_FN const P* cnth_##TN(const TN& v, unsigned long i) { return &efp::nth(i, v); }         \
    S_FN const P* data_##TN(TN& v) { return v.data(); }                                       \
    S_FN const P* cdata_##TN(const TN& v) { return v.data(); }                                \
    S_FN const P* tdata_##TN(const TN& v) { return efp::data(v); }                            \
    S_FN const P* begin_##TN(TN& v) { return v.begin(); }                                     \
    S_FN const P* cbegin_##TN(const TN& v) { return v.begin(); }                              \
    S_FN const P* end_##TN(TN& v) { return v.end(); }                                         \
    S_FN const P* cend_##TN(const TN& v) { return v.end(); }                                  \
    S_FN void push_##TN(TN& v, const P& x) { v.push_back(x); }                                \
    S_FN void set_##TN(TN& v, unsigned long i, const P& x) { v[i] = x; }                       \
    S_FN void copy_##TN(void* p, const TN& o) { new (p) TN(o); }                              \
    S_FN void move_##TN(void* p, TN& o) { new (p) TN(efp::move(o)); }                         \
    S_FN void cassign_##TN(TN& a, const TN& b) { a = b; }                                     \
    S_FN void massign_##TN(TN& a, TN& b) { a = efp::move(b); }
#define CYQ(TN, P, ...) CYC(TN, P, __VA_ARGS__) \
    S_FN void pop_##TN(void* r, TN& v) { new (r) P(v.pop_front()); }
CYC(CBL, P, Vcb<P, 300>)
CYQ(CQL, P, Vcq<P, 300>)
CYC(CB1, P, Vcb<P, 1>) CYC(CB2, P, Vcb<P, 2>) CYC(CB3, P, Vcb<P, 3>) CYC(CB5, P, Vcb<P, 5>)
CYQ(CQ1, P, Vcq<P, 1>) CYQ(CQ2, P, Vcq<P, 2>) CYQ(CQ3, P, Vcq<P, 3>) CYQ(CQ5, P, Vcq<P, 5>)
CYC(CB3i, int, Vcb<int, 3>)
CYQ(CQ3i, int, Vcq<int, 3>)
