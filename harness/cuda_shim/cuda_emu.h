// what nvcc predefines, as far as host code can see it
#pragma once
#define __CUDACC__ 12
#define __host__
#define __device__
#define __global__
template <typename T> constexpr T atomicExch(T* address, T value) noexcept { T old = *address; *address = value; return old; }
