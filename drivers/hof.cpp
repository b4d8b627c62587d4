#include "probe.hpp"
using namespace vp;
using namespace efp;
using AR = Array<P, 5>;
using AV = ArrVec<P, 5>;
using VE = Vector<P>;
using ARv = ArrayView<P, 5>;
using AVv = ArrVecView<P, 5>;
using VEv = VectorView<P>;
using SA = std::array<P, 5>;
// result types
using ARq = Array<Q, 5>;
using AVq = ArrVec<Q, 5>;
using VEq = Vector<Q>;
using ARq3 = Array<Q, 3>;
using AR3 = Array<P, 3>;
using AV4 = ArrVec<P, 4>;
using AVx = ArrVec<size_t, 5>;
using AV3 = ArrVec<P, 3>;
using AVx3 = ArrVec<size_t, 3>;
using AVx4 = ArrVec<size_t, 4>;
using VEx = Vector<size_t>;
VP_SEQ(AR, AR) VP_OWN(AR, AR)
VP_SEQ(AV, AV) VP_OWN(AV, AV)
VP_SEQ(VE, VE) VP_OWN(VE, VE)
VP_SEQ(AR3, AR3) VP_OWN(AR3, AR3)
VP_SEQ(AV4, AV4) VP_OWN(AV4, AV4)
VP_SEQ(AV3, AV3) VP_OWN(AV3, AV3)
VP_SEQ(AVx3, AVx3) VP_OWN(AVx3, AVx3)
VP_SEQ(ARv, ARv)
VP_SEQ(AVv, AVv)
VP_SEQ(VEv, VEv)
VP_SEQ(ARq, ARq) VP_OWN(ARq, ARq)
VP_SEQ(ARq3, ARq3) VP_OWN(ARq3, ARq3)
VP_SEQ(AVq, AVq) VP_OWN(AVq, AVq)
VP_SEQ(VEq, VEq) VP_OWN(VEq, VEq)
VP_SEQ(AVx, AVx) VP_OWN(AVx, AVx)
VP_SEQ(AVx4, AVx4) VP_OWN(AVx4, AVx4)
VP_SEQ(VEx, VEx) VP_OWN(VEx, VEx)

extern "C" {
void vp_v_f(const P&);
void vp_v_f2(const P&, const P&);
void vp_v_f3(const P&, const P&, const P&);
void vp_m_f(P&);
void vp_m_f2(P&, P&);
void vp_v_fi(unsigned long, const P&);
void vp_v_fi2(unsigned long, const P&, const P&);
void vp_m_fi(unsigned long, P&);
void vp_v_i(unsigned long);
void vp_v_i2(unsigned long, unsigned long);
void vp_v_i3(unsigned long, unsigned long, unsigned long);
Q vp_rQ_f(const P&);
Q vp_rQ_f2(const P&, const P&);
Q vp_rQ_f3(const P&, const P&, const P&);
Q vp_rQ_fi(unsigned long, const P&);
Q vp_rQ_i(unsigned long);
R vp_rR_l(const R&, const P&);
R vp_rR_r(const P&, const R&);
bool vp_b_p(const P&);
}
struct FL { R operator()(const R& a, const P& b) const { return vp_rR_l(a, b); } };
struct FR { R operator()(const P& a, const R& b) const { return vp_rR_r(a, b); } };
struct FQ { Q operator()(const P& p) const { return vp_rQ_f(p); } };
struct FQ2 { Q operator()(const P& p, const P& q) const { return vp_rQ_f2(p, q); } };
struct FQ3 { Q operator()(const P& p, const P& q, const P& r) const { return vp_rQ_f3(p, q, r); } };
struct FQI { Q operator()(size_t i, const P& p) const { return vp_rQ_fi(i, p); } };
struct FI { Q operator()(size_t i) const { return vp_rQ_i(i); } };
struct PR { bool operator()(const P& p) const { return vp_b_p(p); } };
#define RES(e) new (r) efp::CVRefRemoved<decltype(e)>(e)

#define HOF(TN)                                                                                         \
    S_FN void foreach_##TN(const TN& v) { for_each([](const P& p) { vp_v_f(p); }, v); }                 \
    S_FN void foreach2_##TN(const TN& v, const TN& w) { for_each([](const P& p, const P& q) { vp_v_f2(p, q); }, v, w); } \
    S_FN void foreachi_##TN(const TN& v) { for_each_with_index([](size_t i, const P& p) { vp_v_fi(i, p); }, v); } \
    S_FN void foreachi2_##TN(const TN& v, const TN& w) { for_each_with_index([](size_t i, const P& p, const P& q) { vp_v_fi2(i, p, q); }, v, w); } \
    S_FN void cfe_##TN(const TN& v) { cartesian_for_each([](const P& p) { vp_v_f(p); }, v); }           \
    S_FN void map_##TN(void* r, const TN& v) { RES(map(FQ{}, v)); }                                     \
    S_FN void map2_##TN(void* r, const TN& v, const TN& w) { RES(map(FQ2{}, v, w)); }                   \
    S_FN void mapi_##TN(void* r, const TN& v) { RES(map_with_index(FQI{}, v)); }                        \
    S_FN void foldl_##TN(void* r, const R& i, const TN& v) { new (r) R(foldl(FL{}, i, v)); }            \
    S_FN void foldr_##TN(void* r, const R& i, const TN& v) { new (r) R(foldr(FR{}, i, v)); }            \
    S_FN bool elem_##TN(const P& a, const TN& v) { return elem(a, v); }                                 \
    S_FN bool find_##TN(const TN& v) { return find(PR{}, v); }                                          \
    S_FN void elemindex_##TN(void* r, const P& a, const TN& v) { RES(elem_index(a, v)); }               \
    S_FN void findindex_##TN(void* r, const TN& v) { RES(find_index(PR{}, v)); }                        \
    S_FN bool isnull_##TN(const TN& v) { return is_null(v); }                                           \
    S_FN unsigned long length_##TN(const TN& v) { return efp::length(v); }                              \
    S_FN const void* cnth_##TN(unsigned long i, const TN& v) { return &efp::nth(i, v); }                \
    S_FN const void* nth_##TN(unsigned long i, TN& v) { return &efp::nth(i, v); }                       \
    S_FN const void* cdata_##TN(const TN& v) { return efp::data(v); }                                   \
    S_FN const void* mdata_##TN(TN& v) { return efp::data(v); }
HOF(AR) HOF(AV) HOF(VE) HOF(ARv) HOF(AVv) HOF(VEv)

#define MUT(TN)                                                                                         \
    S_FN void foreachm_##TN(TN& v) { for_each_mut([](P& p) { vp_m_f(p); }, v); }                        \
    S_FN void foreachm2_##TN(TN& v, TN& w) { for_each_mut([](P& p, P& q) { vp_m_f2(p, q); }, v, w); }   \
    S_FN void foreachim_##TN(TN& v) { for_each_with_index_mut([](size_t i, P& p) { vp_m_fi(i, p); }, v); } \
    S_FN void cfem_##TN(TN& v) { cartesian_for_each_mut([](P& p) { vp_m_f(p); }, v); }
MUT(AR) MUT(AV) MUT(VE)

// mixed kinds: the result follows the least static argument
S_FN void mapx_AR_AV(void* r, const AR& v, const AV& w) { RES(map(FQ2{}, v, w)); }
S_FN void mapx_AV_AR(void* r, const AV& v, const AR& w) { RES(map(FQ2{}, v, w)); }
S_FN void mapx_AV_VE(void* r, const AV& v, const VE& w) { RES(map(FQ2{}, v, w)); }
S_FN void mapx_VE_AR(void* r, const VE& v, const AR& w) { RES(map(FQ2{}, v, w)); }
S_FN void mapx_AR_AR3(void* r, const AR& v, const AR3& w) { RES(map(FQ2{}, v, w)); }
S_FN void mapx_AR3_AR(void* r, const AR3& v, const AR& w) { RES(map(FQ2{}, v, w)); }
S_FN void fex_AV_VE(const AV& v, const VE& w) { for_each([](const P& p, const P& q) { vp_v_f2(p, q); }, v, w); }
S_FN void fex_VE_AR(const VE& v, const AR& w) { for_each([](const P& p, const P& q) { vp_v_f2(p, q); }, v, w); }
S_FN void map3(void* r, const AV& u, const VE& v, const AR& w) { RES(map(FQ3{}, u, v, w)); }
S_FN void fe3(const AV& u, const VE& v, const AR& w) { for_each([](const P& a, const P& b, const P& c) { vp_v_f3(a, b, c); }, u, v, w); }

S_FN void forindex(unsigned long n) { for_index([](size_t i) { vp_v_i(i); }, n); }
S_FN void fromfn(void* r, unsigned long n) { RES(from_function(n, FI{})); }
S_FN void fromfn5(void* r) { RES(from_function(Size<5>{}, FI{})); }

#define SEL(TN)                                                                                         \
    S_FN void filter_##TN(void* r, const TN& v) { RES(filter(PR{}, v)); }                               \
    S_FN void findindices_##TN(void* r, const TN& v) { RES(find_indices(PR{}, v)); }                    \
    S_FN void elemindices_##TN(void* r, const P& a, const TN& v) { RES(elem_indices(a, v)); }
SEL(AV4) SEL(VE) SEL(AR3) SEL(VEv)

#define WHILE(TN)                                                                                       \
    S_FN void takewhile_##TN(void* r, const TN& v) { RES(take_while(PR{}, v)); }                        \
    S_FN void dropwhile_##TN(void* r, const TN& v) { RES(drop_while(PR{}, v)); }
WHILE(AR) WHILE(AV) WHILE(VE)

using TWa = ArrVecView<const P, 5>;
using TWv = VectorView<const P>;
VP_SEQ(TWa, TWa)
VP_SEQ(TWv, TWv)

// append
using ARARr = Array<P, 8>;
using AVAVr = ArrVec<P, 9>;
using AVARr = ArrVec<P, 8>;
using AP3r = ArrVec<P, 12>;
VP_SEQ(ARARr, ARARr) VP_OWN(ARARr, ARARr)
VP_SEQ(AVAVr, AVAVr) VP_OWN(AVAVr, AVAVr)
VP_SEQ(AVARr, AVARr) VP_OWN(AVARr, AVARr)
VP_SEQ(AP3r, AP3r) VP_OWN(AP3r, AP3r)
S_FN void append_AR_AR3(void* r, const AR& a, const AR3& b) { RES(append(a, b)); }
S_FN void append_AV_AV4(void* r, const AV& a, const AV4& b) { RES(append(a, b)); }
S_FN void append_AV_AR3(void* r, const AV& a, const AR3& b) { RES(append(a, b)); }
S_FN void append_AR3_AV(void* r, const AR3& a, const AV& b) { RES(append(a, b)); }
S_FN void append_VE_VE(void* r, const VE& a, const VE& b) { RES(append(a, b)); }
S_FN void append_VE_AV(void* r, const VE& a, const AV& b) { RES(append(a, b)); }
S_FN void append_AR_VE(void* r, const AR& a, const VE& b) { RES(append(a, b)); }
S_FN void append_AV_AR3_AV4(void* r, const AV& a, const AR3& b, const AV4& c) { RES(append(a, b, c)); }
S_FN void append_VE_VE_VE(void* r, const VE& a, const VE& b, const VE& c) { RES(append(a, b, c)); }
S_FN void append_VEv_VEv(void* r, const VEv& a, const VEv& b) { RES(append(a, b)); }

S_FN bool mhas(const Maybe<size_t>& m) { return m.has_value(); }
S_FN unsigned long mval(const Maybe<size_t>& m) { return m.value(); }
