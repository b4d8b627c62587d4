#include "probe.hpp"
using namespace vp;
using namespace efp;
using AV = ArrVec<P, 7>;
using AVs = ArrVec<P, 5>;
using AR = Array<P, 7>;
using VE = Vector<P>;
VP_SEQ(AV, AV) VP_OWN(AV, AV)
VP_SEQ(AVs, AVs) VP_OWN(AVs, AVs)
VP_SEQ(AR, AR) VP_OWN(AR, AR)
VP_SEQ(VE, VE) VP_OWN(VE, VE)
// the same over a trivially copyable element
using AVi = ArrVec<int, 7>;
using AVsi = ArrVec<int, 5>;
using ARi = Array<int, 7>;
using VEi = Vector<int>;
VP_SEQ(AVi, AVi) VP_OWN(AVi, AVi)
VP_SEQ(AVsi, AVsi) VP_OWN(AVsi, AVsi)
VP_SEQ(ARi, ARi) VP_OWN(ARi, ARi)
VP_SEQ(VEi, VEi) VP_OWN(VEi, VEi)

#define COMMON(TN, P)                                                              \
    S_FN void copy_##TN(void* p, const TN& o) { new (p) TN(o); }                 \
    S_FN void move_##TN(void* p, TN& o) { new (p) TN(efp::move(o)); }            \
    S_FN void cassign_##TN(TN& a, const TN& b) { a = b; }                        \
    S_FN void massign_##TN(TN& a, TN& b) { a = efp::move(b); }                   \
    S_FN bool eq_##TN(const TN& a, const TN& b) { return a == b; }               \
    S_FN P& at_##TN(TN& v, unsigned long i) { return v[i]; }                     \
    S_FN const P& cat_##TN(const TN& v, unsigned long i) { return v[i]; }        \
    S_FN P* begin_##TN(TN& v) { return v.begin(); }                              \
    S_FN P* end_##TN(TN& v) { return v.end(); }                                  \
    S_FN const P* cbegin_##TN(const TN& v) { return v.begin(); }                 \
    S_FN const P* cend_##TN(const TN& v) { return v.end(); }                     \
    S_FN bool empty_##TN(const TN& v) { return v.empty(); }                      \
    S_FN void resize_##TN(TN& v, unsigned long n) { v.resize(n); }               \
    S_FN void reserve_##TN(TN& v, unsigned long n) { v.reserve(n); }             \
    S_FN void ilist_##TN(void* p, std::initializer_list<P> l) { new (p) TN(l); }
COMMON(AV, P) COMMON(AR, P) COMMON(VE, P) COMMON(AVi, int) COMMON(ARi, int) COMMON(VEi, int)

#define GROW(TN, P)                                                                    \
    S_FN void push_##TN(TN& v, const P& x) { v.push_back(x); }                       \
    S_FN void pushm_##TN(TN& v, P& x) { v.push_back(efp::move(x)); }                 \
    S_FN void pop_##TN(TN& v) { v.pop_back(); }                                      \
    S_FN void insert_##TN(TN& v, unsigned long i, const P& x) { v.insert(i, x); }    \
    S_FN void erase_##TN(TN& v, unsigned long i) { v.erase(i); }                     \
    S_FN void clear_##TN(TN& v) { v.clear(); }
GROW(AV, P) GROW(VE, P) GROW(AVi, int) GROW(VEi, int)

#define HEAP(TN, P)                                                                  \
    S_FN void emplace_##TN(TN& v, const P& x) { v.emplace_back(x); }                 \
    S_FN void emplacem_##TN(TN& v, P& x) { v.emplace_back(efp::move(x)); }           \
    S_FN void emplace0_##TN(TN& v) { v.emplace_back(); }                             \
    S_FN void shrink_##TN(TN& v) { v.shrink_to_fit(); }
HEAP(VE, P) HEAP(VEi, int)
#define CONV(F, T) S_FN void from_##F##_##T(void* p, const F& a) { new (p) T(a); }
CONV(AR, VE) CONV(AV, VE) CONV(AVs, AV) CONV(ARi, VEi) CONV(AVi, VEi) CONV(AVsi, AVi)
