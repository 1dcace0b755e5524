// The part of the CUDA execution model that kernels use, for running them on the host.
// Every thread of a block is a fiber; blocks run one after another.  See emu.cc.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cassert>
#include <cfloat>
#include <climits>
#include <algorithm>
#include <math.h>
#include <stdio.h>

#include "emu_types.hh"
struct float2 { float x, y; };
struct float3 { float x, y, z; };
struct float4 { float x, y, z, w; };
struct double2 { double x, y; };
struct int2 { int x, y; };
static inline float2 make_float2(float a, float b) { return {a, b}; }
static inline float3 make_float3(float a, float b, float c) { return {a, b, c}; }
static inline float4 make_float4(float a, float b, float c, float d) { return {a, b, c, d}; }

#define __global__
#define __device__
#define __host__
#define __constant__ static
#define __shared__ static __attribute__((section("gpushared")))
#define __align__(n) __attribute__((aligned(n)))
#define __launch_bounds__(...)
#define __forceinline__ inline
#define __noinline__ __attribute__((noinline))
#define threadIdx (emu::cur->idx)
#define blockIdx (emu::blk)
#define blockDim (emu::block)
#define gridDim (emu::grid)
static const int warpSize = 32;

static inline void __syncthreads() { emu::meet(emu::BARRIER, 0, 0, 0, 0, 0, 0); }
static inline int __syncthreads_or(int p) { int r; p = !!p; emu::meet(emu::BAR_OR, 0, &p, &r, 4, 0, 0); return r; }
static inline int __syncthreads_and(int p) { int r; p = !!p; emu::meet(emu::BAR_AND, 0, &p, &r, 4, 0, 0); return r; }
static inline int __syncthreads_count(int p) { int r; p = !!p; emu::meet(emu::BAR_COUNT, 0, &p, &r, 4, 0, 0); return r; }
static inline void __syncwarp(unsigned m = 0xffffffffu) { emu::meet(emu::WARPSYNC, m, 0, 0, 0, 0, 0); }
static inline unsigned __activemask() { return emu::active(); }
static inline void __threadfence() {}
static inline void __threadfence_block() {}
template <class T> static inline T __shfl_down_sync(unsigned m, T v, unsigned d, int w = 32) { T r; emu::meet(emu::SHFL_DOWN, m, &v, &r, sizeof(T), d, w); return r; }
template <class T> static inline T __shfl_up_sync(unsigned m, T v, unsigned d, int w = 32) { T r; emu::meet(emu::SHFL_UP, m, &v, &r, sizeof(T), d, w); return r; }
template <class T> static inline T __shfl_xor_sync(unsigned m, T v, int d, int w = 32) { T r; emu::meet(emu::SHFL_XOR, m, &v, &r, sizeof(T), d, w); return r; }
template <class T> static inline T __shfl_sync(unsigned m, T v, int l, int w = 32) { T r; emu::meet(emu::SHFL_IDX, m, &v, &r, sizeof(T), l, w); return r; }
static inline unsigned __ballot_sync(unsigned m, int p) { unsigned r; p = !!p; emu::meet(emu::BALLOT, m, &p, &r, 4, 0, 0); return r; }
static inline int __any_sync(unsigned m, int p) { return __ballot_sync(m, p) != 0; }
static inline int __all_sync(unsigned m, int p) { return (__ballot_sync(m, p) & m) == m; }
static inline int __popc(unsigned v) { return __builtin_popcount(v); }
static inline int __ffs(int v) { return __builtin_ffs(v); }
static inline int __clz(int v) { return v ? __builtin_clz(v) : 32; }
// fibers only change at the calls above, so these are atomic
#define EMU_ATOMIC static inline __attribute__((no_sanitize("thread")))
template <class T, class U> EMU_ATOMIC T atomicAdd(T *p, U v) { emu::atomic((void *) p, sizeof(T)); T o = *p; *p = o + (T) v; return o; }
template <class T, class U> EMU_ATOMIC T atomicSub(T *p, U v) { emu::atomic((void *) p, sizeof(T)); T o = *p; *p = o - (T) v; return o; }
template <class T, class U> EMU_ATOMIC T atomicMax(T *p, U v) { emu::atomic((void *) p, sizeof(T)); T o = *p; if ((T) v > o) *p = (T) v; return o; }
template <class T, class U> EMU_ATOMIC T atomicMin(T *p, U v) { emu::atomic((void *) p, sizeof(T)); T o = *p; if ((T) v < o) *p = (T) v; return o; }
template <class T, class U> EMU_ATOMIC T atomicExch(T *p, U v) { emu::atomic((void *) p, sizeof(T)); T o = *p; *p = (T) v; return o; }
template <class T> EMU_ATOMIC T atomicCAS(T *p, T c, T v) { emu::atomic((void *) p, sizeof(T)); T o = *p; if (o == c) *p = v; return o; }
template <class T> static inline T __ldg(const T *p) { return *p; }
#define __expf expf
#define __logf logf
#define __sinf sinf
#define __cosf cosf
#define __sincosf sincosf
static inline float __fdividef(float a, float b) { return a / b; }
static inline float __frcp_rn(float a) { return 1.0f / a; }
static inline float __fsqrt_rn(float a) { return sqrtf(a); }
static inline float __fmaf_rn(float a, float b, float c) { return fmaf(a, b, c); }
static inline float rsqrtf(float a) { return 1.0f / sqrtf(a); }
static inline long long __double_as_longlong(double v) { long long r; memcpy(&r, &v, 8); return r; }
static inline double __longlong_as_double(long long v) { double r; memcpy(&r, &v, 8); return r; }
static inline int __float_as_int(float v) { int r; memcpy(&r, &v, 4); return r; }
static inline float __int_as_float(int v) { float r; memcpy(&r, &v, 4); return r; }
static inline int min(int a, int b) { return a < b ? a : b; }
static inline int max(int a, int b) { return a > b ? a : b; }
static inline float min(float a, float b) { return fminf(a, b); }
static inline float max(float a, float b) { return fmaxf(a, b); }
static inline double min(double a, double b) { return fmin(a, b); }
static inline double max(double a, double b) { return fmax(a, b); }
#define __CUDACC__ 1
#define __CUDA_ARCH__ 700
