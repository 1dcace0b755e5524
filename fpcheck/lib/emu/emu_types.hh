#pragma once
struct uint3 { unsigned x, y, z; };
struct dim3 { unsigned x, y, z; dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {} };
namespace emu {
    struct Thread { uint3 idx; };
    extern Thread *cur;
    extern dim3 block, grid;
    extern uint3 blk;
    enum Kind { BARRIER = 1, SHFL_DOWN, SHFL_UP, SHFL_XOR, SHFL_IDX, WARPSYNC, BALLOT, BAR_OR, BAR_AND, BAR_COUNT };
    void *dynamic_shared();
    void meet(int kind, unsigned mask, const void *in, void *out, int size, int arg, int width);
    unsigned active();
    void atomic(void *p, int size);     // an atomic operation is about to happen
}
