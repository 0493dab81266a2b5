// Parallel backend of the standard algorithms for the schedule checks: it stands
// for the thread pool.  A region runs its elements one at a time in a schedule
// chosen symbolically (every permutation of up to three elements; forward,
// backward, rotated and interleaved orders of more), a reduction additionally
// splits its range at a chosen grain.  The element being computed is announced to
// the conflict detector (engine/symrace.cpp), so that two elements touching the
// same memory, one writing, are reported even when this schedule hides it.
// Included before any standard header by the harness that checks schedules.
#pragma once
#define _GLIBCXX_USE_TBB_PAR_BACKEND 0
#define _PSTL_PARALLEL_BACKEND_SERIAL_H
#include <algorithm>
#include <cstddef>
#include <memory>
#include <numeric>
#include <optional>
#include <utility>
#include <vector>
extern "C" {
int __sym_region_begin(void *frame);
void __sym_region_elem(int d, unsigned i);
void __sym_region_end(int d);
int __sym_region_depth();
void __sym_fail(const char *label, const char *detail);
int __sym_acc_enable = 1;
}
namespace sched
{
inline int order = 0;         // 0..5
inline bool serial = false;   // reference run: one element range, in order
inline long regions = 0;      // regions entered
inline long elements = 0;     // elements run in them
inline std::vector<std::size_t> sequence(std::size_t n)
{
    std::vector<std::size_t> s(n);
    for (std::size_t i = 0; i < n; ++i) s[i] = i;
    if (n <= 3)
    {
        for (int k = 0; k < order; ++k) std::next_permutation(s.begin(), s.end());
        return s;
    }
    switch (order)
    {
    case 1: std::reverse(s.begin(), s.end()); break;
    case 2: std::rotate(s.begin(), s.begin() + n / 2, s.end()); break;
    case 3: std::stable_partition(s.begin(), s.end(), [](std::size_t i) { return i % 2 == 1; }); break;
    case 4: std::reverse(s.begin(), s.end()); std::stable_partition(s.begin(), s.end(), [](std::size_t i) { return i % 2 == 0; }); break;
    case 5: std::swap(s.front(), s.back()); break;
    default: break;
    }
    return s;
}
template <class F>
__attribute__((noinline)) void run(std::size_t n, F &body)
{
    if (serial)
    {
        for (std::size_t i = 0; i < n; ++i) body(i);
        return;
    }
    int d = __sym_region_begin(__builtin_frame_address(0));
    struct End { int d; ~End() { __sym_region_end(d); } } end{d};
    regions++;
    for (auto i : sequence(n))
    {
        elements++;
        if (d) __sym_region_elem(d, (unsigned)i);
        try { body(i); }
        catch (...)
        {
            __sym_region_end(1);
            __sym_fail("exception leaves a parallel region", "std::terminate");
        }
        if (d) __sym_region_elem(d, ~0u);
    }
}
} // namespace sched
namespace __pstl
{
namespace __serial_backend
{
template <typename _Tp>
class __buffer
{
    std::allocator<_Tp> __allocator_;
    _Tp *__ptr_;
    const std::size_t __buf_size_;
    __buffer(const __buffer &) = delete;
    void operator=(const __buffer &) = delete;

public:
    __buffer(std::size_t __n) : __allocator_(), __ptr_(__allocator_.allocate(__n)), __buf_size_(__n) {}
    operator bool() const { return __ptr_ != nullptr; }
    _Tp *get() const { return __ptr_; }
    ~__buffer() { __allocator_.deallocate(__ptr_, __buf_size_); }
};
inline void __cancel_execution() {}

template <class P, class I, class F>
void __parallel_for(P &&, I first, I last, F f)
{
    auto body = [&](std::size_t i) { f(first + i, first + i + 1); };
    sched::run(std::size_t(last - first), body);
}
template <class P, class V, class I, typename B, typename R>
V __parallel_reduce(P &&, I first, I last, const V &identity, const B &real_body, const R &reduction)
{
    std::size_t n = last - first, grain = 1 + sched::order % 3, m = (n + grain - 1) / grain;
    if (n == 0) return identity;
    std::vector<std::optional<V>> part(m);
    auto body = [&](std::size_t i) { part[i] = real_body(first + i * grain, first + std::min(n, (i + 1) * grain), identity); };
    sched::run(m, body);
    V r = *part[0];
    for (std::size_t i = 1; i < m; ++i) r = reduction(r, *part[i]);
    return r;
}
template <class P, class I, class U, class T, class B, class R>
T __parallel_transform_reduce(P &&, I first, I last, U u, T init, B op, R reduce)
{
    // as the thread pool does: the first chunk starts from init, every other one
    // has at least two elements and starts from their combination
    std::size_t n = last - first, grain = 2 + sched::order % 2, m = std::max<std::size_t>(1, n / grain);
    if (n == 0) return init;
    std::vector<std::optional<T>> part(m);
    auto body = [&](std::size_t i) {
        I a = first + i * grain, b = i + 1 == m ? last : a + grain;
        if (i == 0) part[i] = reduce(a, b, init);
        else part[i] = reduce(a + 2, b, T(op(u(a), u(a + 1))));
    };
    sched::run(m, body);
    T r = *part[0];
    for (std::size_t i = 1; i < m; ++i) r = op(r, *part[i]);
    return r;
}
template <class P, typename I, typename T, typename R, typename C, typename S, typename A>
void __parallel_strict_scan(P &&, I n, T initial, R reduce, C combine, S scan, A apex)
{
    T sum = initial;
    if (n) sum = combine(sum, reduce(I(0), n));
    apex(sum);
    if (n) scan(I(0), n, initial);
}
template <class P, class I, class U, class T, class B, class R, class S>
T __parallel_transform_scan(P &&, I n, U, T init, B, R, S scan)
{
    return scan(I(0), n, init);
}
template <class P, typename I, typename C, typename L>
void __parallel_stable_sort(P &&, I first, I last, C comp, L leaf, std::size_t = 0)
{
    leaf(first, last, comp);
}
template <class P, typename I1, typename I2, typename I3, typename C, typename L>
void __parallel_merge(P &&, I1 f1, I1 l1, I2 f2, I2 l2, I3 out, C comp, L leaf)
{
    leaf(f1, l1, f2, l2, out, comp);
}
template <class P, typename F1, typename F2>
void __parallel_invoke(P &&, F1 &&f1, F2 &&f2)
{
    auto body = [&](std::size_t i) { if (i) f2(); else f1(); };
    sched::run(2, body);
}
} // namespace __serial_backend
} // namespace __pstl
