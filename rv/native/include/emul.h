// Runs CUDA sources of the repository on the CPU, under sanitizers: every thread of a launch is executed, in a
// scrambled order ("shuffle") or by several OS threads at a time ("threads", for the race detector).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <numeric>
#include <random>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <vector>
#include <torch/extension.h>

#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __restrict__

struct dim3 {
    unsigned x, y, z;
    dim3(unsigned x = 1, unsigned y = 1, unsigned z = 1) : x(x), y(y), z(z) {}
};
inline thread_local dim3 threadIdx, blockIdx, blockDim, gridDim;

// T: double or float
template <typename T>
inline T atomicAdd(T* p, T v) {
    using I = typename std::conditional<sizeof(T) == 8, uint64_t, uint32_t>::type;
    I* q = reinterpret_cast<I*>(p);
    I old = __atomic_load_n(q, __ATOMIC_RELAXED), now;
    T f;
    do {
        std::memcpy(&f, &old, sizeof f);
        f += v;
        std::memcpy(&now, &f, sizeof f);
    } while (!__atomic_compare_exchange_n(q, &old, now, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED));
    f -= v;
    return f;
}

namespace emul {
inline long& threads_run() { static long n = 0; return n; }
inline long& launches() { static long n = 0; return n; }

template <typename F>
void launch(dim3 grid, dim3 block, F f) {
    size_t n = size_t(grid.x) * grid.y * grid.z * block.x * block.y * block.z;
    if (grid.x == 0 || grid.y == 0 || grid.z == 0) throw std::runtime_error("invalid configuration: empty grid");
    if (size_t(block.x) * block.y * block.z > 1024 || grid.y > 65535 || grid.z > 65535)
        throw std::runtime_error("invalid configuration: too large");
    std::vector<size_t> order(n);
    std::iota(order.begin(), order.end(), size_t(0));
    std::mt19937 rng(unsigned(n) * 7919u + block.x);
    std::shuffle(order.begin(), order.end(), rng);
    threads_run() += long(n);
    launches() += 1;
    auto one = [&](size_t k) {
        threadIdx = dim3(k % block.x, (k / block.x) % block.y, (k / block.x / block.y) % block.z);
        size_t b = k / (size_t(block.x) * block.y * block.z);
        blockIdx = dim3(b % grid.x, (b / grid.x) % grid.y, b / grid.x / grid.y);
        blockDim = block;
        gridDim = grid;
        f();
    };
    const char* m = std::getenv("RV_EMUL_THREADS");
    size_t nt = m ? std::max(1, std::atoi(m)) : 1;
    if (nt == 1) {
        for (size_t k : order) one(k);
        return;
    }
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; t++)
        ts.emplace_back([&, t] { for (size_t i = t; i < n; i += nt) one(order[i]); });
    for (auto& t : ts) t.join();
}
}  // namespace emul

typedef int cudaError_t;
#define cudaSuccess 0
inline cudaError_t cudaDeviceSynchronize() { return 0; }
inline cudaError_t cudaGetDevice(int* d) { *d = 0; return 0; }
inline cudaError_t cudaGetLastError() { return 0; }
#define cuCHECK(x) do { if ((x) != 0) throw std::runtime_error("cuda error"); } while (0)
typedef void* cudaStream_t;

#define EMUL_EXPORTS(m) m.def("_emul_counts", [] { return std::make_pair(emul::launches(), emul::threads_run()); });

// from here on, the repository's code: the CPU stands for the device
#define is_cuda is_cpu
#define kCUDA kCPU
#define cuda() cpu()
