// Simulated parallel backend for libstdc++'s <execution> algorithms.
// Pre-included with -D_PSTL_PARALLEL_BACKEND_H, so the real PSTL algorithm code
// runs unchanged on top of the simulator's task scheduler instead of TBB's.
#pragma once
#include <cstddef>
#include <memory>
#include <new>
#include <optional>
#include <utility>
#include <vector>
#include <iterator>
#include "sim.h"

namespace __pstl
{
namespace __sim_backend
{
    constexpr std::size_t max_leaves = 512;

    template <typename _Tp>
    class __buffer
    {
        std::allocator<_Tp> a_;
        _Tp *p_;
        const std::size_t n_;
        __buffer(const __buffer &) = delete;
        void operator=(const __buffer &) = delete;
    public:
        __buffer(std::size_t n) : a_(), p_(a_.allocate(n)), n_(n) {}
        operator bool() const { return p_ != nullptr; }
        _Tp *get() const { return p_; }
        ~__buffer() { a_.deallocate(p_, n_); }
    };

    inline void __cancel_execution() {}

    template <class _Policy, class _Index, class _Fp>
    void __parallel_for(_Policy &&, _Index first, _Index last, _Fp f)
    {
        const std::size_t n = static_cast<std::size_t>(last - first);
        if (!n) return;
        if (!::sim::active()) { f(first, last); return; }
        std::size_t cuts[max_leaves];
        const std::size_t m = ::sim::split_plan(n, 1, cuts, max_leaves);
        auto leaf = [&](std::size_t i) {
            const std::size_t a = i ? cuts[i - 1] : 0, b = cuts[i];
            const _Fp body(f); // TBB copies the body into every spawned task
            body(first + a, first + b);
        };
        ::sim::leaves(m, leaf);
    }

    // Ordered, seeded association of partial results (TBB joins adjacent ranges only).
    template <class V, class Join>
    void join_all(std::vector<std::optional<V>> &parts, Join join)
    {
        std::vector<std::size_t> live(parts.size());
        for (std::size_t i = 0; i < live.size(); ++i) live[i] = i;
        while (live.size() > 1)
        {
            const std::size_t k = ::sim::region_choice(live.size() - 1);
            join(*parts[live[k]], *parts[live[k + 1]]);
            parts[live[k + 1]].reset();
            live.erase(live.begin() + static_cast<std::ptrdiff_t>(k) + 1);
        }
    }

    template <class _Policy, class _Value, class _Index, typename _RealBody, typename _Reduction>
    _Value __parallel_reduce(_Policy &&, _Index first, _Index last, const _Value &identity,
                             const _RealBody &real_body, const _Reduction &reduction)
    {
        const std::size_t n = static_cast<std::size_t>(last - first);
        if (!n) return identity;
        if (!::sim::active()) return real_body(first, last, identity);
        std::size_t cuts[max_leaves];
        const std::size_t m = ::sim::split_plan(n, 1, cuts, max_leaves);
        // consecutive leaves of one group share a body (were not stolen)
        std::vector<std::size_t> group(m);
        std::size_t g = 0;
        for (std::size_t i = 0; i < m; ++i)
        {
            if (i && ::sim::region_choice(3)) ++g;
            group[i] = g;
        }
        std::vector<std::optional<_Value>> parts(g + 1);
        auto leaf = [&](std::size_t k) {
            _Value v(identity);
            for (std::size_t i = 0; i < m; ++i)
                if (group[i] == k)
                {
                    const _RealBody body(real_body);
                    v = body(first + (i ? cuts[i - 1] : 0), first + cuts[i], v);
                }
            parts[k].emplace(std::move(v));
        };
        ::sim::leaves(g + 1, leaf);
        join_all(parts, [&](_Value &a, _Value &b) { a = reduction(a, b); });
        return std::move(*parts[0]);
    }

    template <class _Policy, class _Index, class _Up, class _Tp, class _Cp, class _Rp>
    _Tp __parallel_transform_reduce(_Policy &&, _Index first, _Index last, _Up u, _Tp init, _Cp combine, _Rp brick)
    {
        const std::size_t n = static_cast<std::size_t>(last - first);
        if (!::sim::active() || n < 3) return n ? brick(first, last, init) : init;
        std::size_t cuts[max_leaves];
        const std::size_t m = ::sim::split_plan(n, 2, cuts, max_leaves);
        std::vector<std::size_t> group(m);
        std::size_t g = 0;
        for (std::size_t i = 0; i < m; ++i)
        {
            if (i && ::sim::region_choice(3)) ++g;
            group[i] = g;
        }
        std::vector<std::optional<_Tp>> parts(g + 1);
        auto leaf = [&](std::size_t k) {
            std::optional<_Tp> s;
            if (k == 0) s.emplace(init);
            for (std::size_t i = 0; i < m; ++i)
                if (group[i] == k)
                {
                    _Index a = first + (i ? cuts[i - 1] : 0);
                    const _Index b = first + cuts[i];
                    if (!s)
                    {
                        s.emplace(combine(u(a), u(a + 1)));
                        std::advance(a, 2);
                        if (a == b) continue;
                    }
                    s.emplace(brick(a, b, *s));
                }
            parts[k].emplace(std::move(*s));
        };
        ::sim::leaves(g + 1, leaf);
        join_all(parts, [&](_Tp &a, _Tp &b) { _Tp r = combine(a, b); a = std::move(r); });
        return std::move(*parts[0]);
    }

    template <class _Policy, typename _Index, typename _Tp, typename _Rp, typename _Cp, typename _Sp, typename _Ap>
    void __parallel_strict_scan(_Policy &&, _Index n, _Tp initial, _Rp reduce, _Cp combine, _Sp scan, _Ap apex)
    {
        _Tp sum = initial;
        if (n) sum = combine(sum, reduce(_Index(0), n));
        apex(sum);
        if (n) scan(_Index(0), n, initial);
    }

    template <class _Policy, class _Index, class _Up, class _Tp, class _Cp, class _Rp, class _Sp>
    _Tp __parallel_transform_scan(_Policy &&, _Index n, _Up, _Tp init, _Cp, _Rp, _Sp scan)
    {
        return scan(_Index(0), n, init);
    }

    template <class _Policy, typename _It, typename _Compare, typename _LeafSort>
    void __parallel_stable_sort(_Policy &&, _It first, _It last, _Compare comp, _LeafSort leaf_sort, std::size_t = 0)
    {
        leaf_sort(first, last, comp);
    }

    template <class _Policy, typename _It1, typename _It2, typename _It3, typename _Compare, typename _LeafMerge>
    void __parallel_merge(_Policy &&, _It1 f1, _It1 l1, _It2 f2, _It2 l2, _It3 out, _Compare comp, _LeafMerge leaf_merge)
    {
        leaf_merge(f1, l1, f2, l2, out, comp);
    }

    template <class _Policy, typename _F1, typename _F2>
    void __parallel_invoke(_Policy &&, _F1 &&f1, _F2 &&f2)
    {
        if (!::sim::active()) { f1(); f2(); return; }
        auto leaf = [&](std::size_t i) { if (i == 0) f1(); else f2(); };
        ::sim::leaves(2, leaf);
    }
}
namespace __par_backend = __sim_backend;
}
