// Opaque element classes: every special member is declared and never defined, so each use shows up in
// the IR as a call that the analysis interprets as a lifetime event.
#pragma once
#ifndef VP_ALONE
#include "efp.hpp"
#endif

namespace vp {
#define VP_PROBE(N, W)                              \
    struct N {                                      \
        N() noexcept;                               \
        N(const N&) noexcept;                       \
        N(N&&) noexcept;                            \
        N& operator=(const N&) noexcept;            \
        N& operator=(N&&) noexcept;                 \
        ~N() noexcept;                              \
        bool operator==(const N&) const noexcept;   \
        bool operator!=(const N&) const noexcept;   \
        bool operator<(const N&) const noexcept;    \
        bool operator>(const N&) const noexcept;    \
        bool operator<=(const N&) const noexcept;   \
        bool operator>=(const N&) const noexcept;   \
        unsigned long w_[W];                        \
    };
VP_PROBE(P, 3)
VP_PROBE(Q, 5)
VP_PROBE(R, 1)
VP_PROBE(S, 2)

template<int k>
struct Alt {
    Alt() noexcept;
    Alt(const Alt&) noexcept;
    Alt(Alt&&) noexcept;
    Alt& operator=(const Alt&) noexcept;
    Alt& operator=(Alt&&) noexcept;
    ~Alt() noexcept;
    bool operator==(const Alt&) const noexcept;
    bool operator!=(const Alt&) const noexcept;
    unsigned long w_[1 + (k % 4)];
};
}  // namespace vp

#define S_FN extern "C" __attribute__((used, noinline))

#define VP_SEQ(TN, ...)                                                     \
    S_FN unsigned long sizeof_##TN() { return sizeof(__VA_ARGS__); }        \
    S_FN unsigned long size_##TN(const __VA_ARGS__& v) { return v.size(); } \
    S_FN unsigned long cap_##TN(const __VA_ARGS__& v) { return v.capacity(); } \
    S_FN const void* data_##TN(const __VA_ARGS__& v) { return v.data(); }
#define VP_OWN(TN, ...)                                                     \
    S_FN void ctor_##TN(void* p) { new (p) __VA_ARGS__(); }                 \
    S_FN void dtor_##TN(__VA_ARGS__& v) { using T_ = __VA_ARGS__; v.~T_(); }
