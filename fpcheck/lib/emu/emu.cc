// Scheduler of the emulated GPU: fibers that change only at barriers and warp operations, in an order chosen by the caller.
#include <boost/context/detail/fcontext.hpp>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <link.h>
#include <algorithm>
#include "emu_types.hh"
using namespace boost::context::detail;

extern char __start_gpushared __attribute__((weak));
extern char __stop_gpushared __attribute__((weak));

namespace emu {
    enum State { READY, WAIT_BLOCK, WAIT_WARP, DONE };
    struct Fiber : Thread {
        fcontext_t ctx;
        char *stack;
        State state;
        int kind, size, arg, width;
        unsigned mask;
        unsigned char in[8], out[8];
        unsigned lin;
    };
    Thread *cur;
    dim3 block, grid;
    uint3 blk;
    static Fiber *me;
    static fcontext_t home;
    static std::vector<Fiber> F;
    static std::vector<char *> stacks;
    static const size_t STACK = 64 * 1024;
    static std::vector<char> dyn;
    static size_t dyn_size;
    static char err[256];
    static bool failed;
    static uint64_t rng;
    static void **ARGS;
    static void *FN;

    static uint32_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (uint32_t)(rng >> 16); }
    static void fail(const char *fmt, ...) {
        if (failed) return;
        va_list ap; va_start(ap, fmt); vsnprintf(err, sizeof err, fmt, ap); va_end(ap);
        failed = true;
    }
    void *dynamic_shared() { return (void *) (((uintptr_t) dyn.data() + 63) & ~(uintptr_t) 63); }
    unsigned active() {
        unsigned m = 0, w = me->lin / 32;
        for (unsigned l = 0; l < 32 && w * 32 + l < F.size(); l++) if (F[w * 32 + l].state != DONE) m |= 1u << l;
        return m;
    }
    static void yield() { transfer_t t = jump_fcontext(home, 0); home = t.fctx; }

    static unsigned bep;                    // barriers passed so far in this block
    static std::vector<unsigned> wep;       // warp operations so far, per warp
    static void release_block() {
        bep++;
        int acc_or = 0, acc_and = 1, cnt = 0, kind = 0;
        for (auto &f : F) if (f.state == WAIT_BLOCK) {
            if (!kind) kind = f.kind;
            if (f.kind != kind) fail("threads of a block wait at different barriers");
            if (f.size) { int v; memcpy(&v, f.in, 4); acc_or |= v; acc_and &= v; cnt += v; }
        }
        int r = kind == BAR_OR ? acc_or : kind == BAR_AND ? acc_and : cnt;
        for (auto &f : F) if (f.state == WAIT_BLOCK) { memcpy(f.out, &r, 4); f.state = READY; }
    }
    static void try_warp(unsigned w) {
        // all threads named by the mask must be there
        unsigned here = 0; Fiber *one = 0;
        for (unsigned l = 0; l < 32 && w * 32 + l < F.size(); l++) { Fiber &f = F[w * 32 + l]; if (f.state == WAIT_WARP) { here |= 1u << l; if (!one) one = &f; } }
        if (!one) return;
        for (unsigned l = 0; l < 32; l++) if (here >> l & 1) {
            Fiber &f = F[w * 32 + l];
            if ((here & f.mask) != f.mask) continue;
            unsigned m = f.mask;
            for (unsigned k = 0; k < 32; k++) if (m >> k & 1) {
                Fiber &g = F[w * 32 + k];
                if (g.mask != m || g.kind != f.kind || g.size != f.size) { fail("threads of a warp take part in different warp operations"); }
            }
            wep[w]++;
            unsigned ballot = 0;
            for (unsigned k = 0; k < 32; k++) if (m >> k & 1) { int v = 0; if (F[w * 32 + k].size == 4) memcpy(&v, F[w * 32 + k].in, 4); if (v) ballot |= 1u << k; }
            for (unsigned k = 0; k < 32; k++) if (m >> k & 1) {
                Fiber &g = F[w * 32 + k];
                if (g.kind == BALLOT) { memcpy(g.out, &ballot, 4); continue; }
                if (!g.size) continue;
                int wd = g.width, base = k / wd * wd, src = k, d = g.arg;
                if (g.kind == SHFL_DOWN) src = (int) k + d < base + wd ? k + d : k;
                else if (g.kind == SHFL_UP) src = (int) k - d >= base ? k - d : k;
                else if (g.kind == SHFL_XOR) src = (int)(k ^ d) < base + wd ? k ^ d : k;
                else src = base + (d & (wd - 1));
                if (m >> src & 1) memcpy(g.out, F[w * 32 + src].in, g.size);
                else for (int i = 0; i < g.size; i++) g.out[i] = rnd();
            }
            for (unsigned k = 0; k < 32; k++) if (m >> k & 1) F[w * 32 + k].state = READY;
            return;
        }
    }
    static void settle();
    void meet(int kind, unsigned mask, const void *in, void *out, int size, int arg, int width) {
        Fiber *f = me;
        f->kind = kind; f->mask = mask; f->size = size; f->arg = arg; f->width = width;
        if (size > 8) { fail("exchange of more than 8 bytes"); size = 8; f->size = 8; }
        if (size) memcpy(f->in, in, size);
        bool blockwide = kind == BARRIER || kind >= BAR_OR;
        f->state = blockwide ? WAIT_BLOCK : WAIT_WARP;
        if (!blockwide) {
            if (!(mask >> (f->lin % 32) & 1)) fail("a thread outside the mask takes part in a warp operation");
            try_warp(f->lin / 32);
        }
        settle();
        yield();
        if (size) memcpy(out, f->out, size);
    }
    typedef void (*fn8)(void *, void *, void *, void *, void *, void *, void *, void *);
    static void entry(transfer_t t) {
        home = t.fctx;
        ((fn8) FN)(ARGS[0], ARGS[1], ARGS[2], ARGS[3], ARGS[4], ARGS[5], ARGS[6], ARGS[7]);
        settle();
        me->state = DONE;
        yield();
        abort();
    }
    static void run(Fiber &f) {
        me = &f; cur = &f;
        transfer_t t = jump_fcontext(f.ctx, 0);
        f.ctx = t.fctx;
    }

    // ---- Accesses of the kernel, when it is compiled with hooks (see __tsan_* below)
    struct Range { uintptr_t lo, hi; };
    static std::vector<Range> device, module_;
    static bool checking;
    struct Rec { unsigned block, tid, bep, wep; unsigned char mask; bool used, atomic; };
    struct Cell { Rec w, r, r2; bool same; };
    static std::unordered_map<uintptr_t, Cell> shadow_shared, shadow_device;
    static struct { bool on; uintptr_t a; std::vector<char> old; char msg[200]; } pending;
    static size_t shared_bytes;

    static bool in(const Range &r, uintptr_t a, size_t n) { return a >= r.lo && a + n <= r.hi; }
    static void die() { me->state = DONE; yield(); abort(); }
    static void settle() {
        if (!pending.on) return;
        pending.on = false;
        // another thread writing what is already there harms nobody
        if (memcmp((void *) pending.a, pending.old.data(), pending.old.size())) fail("%s", pending.msg);
        else for (size_t i = 0; i < pending.old.size(); i++) {
            auto &m = pending.a >= (uintptr_t) dynamic_shared() && pending.a < (uintptr_t) dynamic_shared() + shared_bytes ? shadow_shared : shadow_device;
            auto c = m.find((pending.a + i) >> 2);
            if (c != m.end()) c->second.same = true;
            auto c2 = shadow_shared.find((pending.a + i) >> 2);
            if (c2 != shadow_shared.end()) c2->second.same = true;
        }
    }
    static bool concurrent(const Rec &x, unsigned char mask, bool global) {
        if (!x.used || !(x.mask & mask)) return false;
        if (x.block != blk.x) return global;
        if (x.tid == me->lin || x.bep != bep) return false;
        return x.tid / 32 != me->lin / 32 || x.wep == wep[me->lin / 32];
    }
    static void access(const void *p, size_t n, bool write, bool atomic_) {
        if (!checking || failed || !me) return;
        settle();
        if (failed) die();
        uintptr_t a = (uintptr_t) p;
        if (in({(uintptr_t) me->stack, (uintptr_t) me->stack + STACK}, a, n)) return;
        if (in({(uintptr_t) F.data(), (uintptr_t) (F.data() + F.size())}, a, n)) return;
        bool sh = in({(uintptr_t) dynamic_shared(), (uintptr_t) dynamic_shared() + shared_bytes}, a, n);
        if (!sh && &__start_gpushared) sh = in({(uintptr_t) &__start_gpushared, (uintptr_t) &__stop_gpushared}, a, n);
        bool dev = false;
        if (!sh) {
            size_t l = 0, h = device.size();
            while (l < h) { size_t m = (l + h) / 2; if (device[m].hi <= a) l = m + 1; else h = m; }
            dev = l < device.size() && in(device[l], a, n);
            if (!dev) {
                for (auto &r : module_) if (in(r, a, n)) return;
                fail("thread %u of block %u %s %zu bytes outside the memory of the device and the launch", me->lin, blk.x, write ? "writes" : "reads", n);
                die();
            }
        }
        auto &shadow = sh ? shadow_shared : shadow_device;
        for (uintptr_t k = a >> 2; k <= (a + n - 1) >> 2; k++) {
            unsigned char mask = 0;
            for (int i = 0; i < 4; i++) if (k * 4 + i >= a && k * 4 + i < a + n) mask |= 1 << i;
            Cell &c = shadow[k];
            Rec now = {blk.x, me->lin, bep, wep[me->lin / 32], mask, true, atomic_};
            const Rec *with = 0;
            if (concurrent(c.w, mask, dev) && !(c.w.atomic && atomic_) && !c.same) with = &c.w;
            if (write && !with && concurrent(c.r, mask, dev)) with = &c.r;
            if (write && !with && concurrent(c.r2, mask, dev)) with = &c.r2;
            if (with) {
                char msg[200];
                snprintf(msg, sizeof msg, "threads %u and %u race: %s and %s of the same %s memory between two barriers", with->tid, me->lin, with == &c.w ? "write" : "read",
                         write ? "write" : "read", sh ? "shared" : "device");
                if (!write || atomic_) { fail("%s", msg); die(); }
                if (!pending.on) { pending.on = true; pending.a = a; pending.old.assign((char *) a, (char *) a + n); memcpy(pending.msg, msg, sizeof msg); }
            }
            if (write) { if (!with) c.same = false; c.w = now; }
            else { if (c.r.used && (c.r.tid != now.tid || c.r.block != now.block)) c.r2 = c.r; c.r = now; }
        }
    }
    void atomic(void *p, int size) { access(p, size, true, true); }

    // mode 0: in order; 1: backwards; 2: any thread next; 3: whole warps far ahead of others; 4: interleaved warps
    static void run_block(int mode) {
        unsigned n = block.x * block.y * block.z;
        F.assign(n, Fiber());
        bep = 0;
        wep.assign((n + 31) / 32, 0);
        while (stacks.size() < n) stacks.push_back((char *) malloc(STACK));
        for (unsigned i = 0; i < n; i++) {
            Fiber &f = F[i];
            f.lin = i; f.idx.x = i % block.x; f.idx.y = i / block.x % block.y; f.idx.z = i / block.x / block.y;
            f.state = READY;
            f.stack = stacks[i];
            f.ctx = make_fcontext(stacks[i] + STACK, STACK, entry);
        }
        unsigned nw = (n + 31) / 32;
        std::vector<unsigned> warps(nw);
        for (unsigned i = 0; i < nw; i++) warps[i] = i;
        if (mode == 1) std::reverse(warps.begin(), warps.end());
        std::vector<unsigned> lane(32);
        while (!failed) {
            bool any = false, left = false;
            if (mode >= 2) for (unsigned i = nw; i > 1; i--) std::swap(warps[i - 1], warps[rnd() % i]);
            for (unsigned wi = 0; wi < nw && !failed; wi++) {
                unsigned w = warps[wi];
                // a warp runs until all its threads wait, or for one step
                bool more = true;
                while (more && !failed) {
                    more = false;
                    for (unsigned i = 0; i < 32; i++) lane[i] = mode == 1 ? 31 - i : i;
                    if (mode >= 2) for (unsigned i = 32; i > 1; i--) std::swap(lane[i - 1], lane[rnd() % i]);
                    for (unsigned i = 0; i < 32 && !failed; i++) {
                        unsigned k = w * 32 + lane[i];
                        if (k >= n || F[k].state != READY) continue;
                        run(F[k]); any = more = true;
                        if (mode == 2 && rnd() % 4 == 0) break;
                    }
                    if (mode != 3 && mode != 0 && mode != 1) break;
                }
                if (mode == 3 && rnd() % 8 == 0) break;
            }
            for (auto &f : F) if (f.state == READY) any = true;
            if (any) continue;
            unsigned wait_b = 0, wait_w = 0;
            for (auto &f : F) { if (f.state == WAIT_BLOCK) wait_b++; if (f.state == WAIT_WARP) wait_w++; if (f.state != DONE) left = true; }
            if (!left) break;
            if (wait_w) { fail("%u threads wait in a warp operation that other threads of their warp do not reach", wait_w); break; }
            if (wait_b) release_block();
        }
    }
}

extern "C" int emu_launch(void *fn, void **args, int gx, int bx, int shared, uint64_t seed, int mode, char *msg, int nmsg) {
    using namespace emu;
    static const size_t PAD = 1 << 16;
    FN = fn; ARGS = args; failed = false; err[0] = 0;
    rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    for (int i = 0; i < 8; i++) rnd();
    grid = dim3(gx); block = dim3(bx);
    shared_bytes = shared;
    shadow_device.clear();
    pending.on = false;
    dyn.assign(shared + PAD + 128, 0);
    std::vector<unsigned> order(gx);
    for (int i = 0; i < gx; i++) order[i] = i;
    if (mode == 1) std::reverse(order.begin(), order.end());
    if (mode >= 2) for (unsigned i = gx; i > 1; i--) std::swap(order[i - 1], order[rnd() % i]);
    for (unsigned b : order) {
        // shared memory starts with anything in it
        char *d = (char *) dynamic_shared();
        for (int i = 0; i < shared; i++) d[i] = 0x7f ^ (rnd() & 0x81);
        memset(d + shared, 0xA5, PAD);
        if (&__start_gpushared) for (char *p = &__start_gpushared; p < &__stop_gpushared; p++) *p = 0x7f ^ (rnd() & 0x81);
        blk.x = b; blk.y = blk.z = 0;
        shadow_shared.clear();
        run_block(mode);
        me = 0;
        for (size_t i = 0; i < PAD; i++) if ((unsigned char) d[shared + i] != 0xA5) { fail("write past the shared memory of the launch (%d bytes)", shared); break; }
        if (failed) break;
    }
    snprintf(msg, nmsg, "%s", err);
    return failed ? 1 : 0;
}

static int find_module(struct dl_phdr_info *info, size_t, void *self) {
    std::vector<emu::Range> r;
    bool mine = false;
    for (int i = 0; i < info->dlpi_phnum; i++) if (info->dlpi_phdr[i].p_type == PT_LOAD) {
        uintptr_t lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr, hi = lo + info->dlpi_phdr[i].p_memsz;
        r.push_back({lo, hi});
        if ((uintptr_t) self >= lo && (uintptr_t) self < hi) mine = true;
    }
    if (mine) emu::module_ = r;
    return mine;
}
// The device arrays, sorted by address; accesses are judged from now on (only in a build with hooks).
extern "C" void emu_regions(int n, const uintptr_t *lo, const uintptr_t *hi) {
    emu::device.clear();
    for (int i = 0; i < n; i++) emu::device.push_back({lo[i], hi[i]});
    emu::checking = n > 0;
    dl_iterate_phdr(find_module, (void *) &find_module);
}
#define HOOK(N) \
    void __tsan_read##N(void *p) { emu::access(p, N, false, false); } \
    void __tsan_write##N(void *p) { emu::access(p, N, true, false); } \
    void __tsan_unaligned_read##N(void *p) { emu::access(p, N, false, false); } \
    void __tsan_unaligned_write##N(void *p) { emu::access(p, N, true, false); } \
    void __tsan_volatile_read##N(void *p) { emu::access(p, N, false, false); } \
    void __tsan_volatile_write##N(void *p) { emu::access(p, N, true, false); }
extern "C" {
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_read_range(void *p, unsigned long n) { if (n) emu::access(p, n, false, false); }
void __tsan_write_range(void *p, unsigned long n) { if (n) emu::access(p, n, true, false); }
void __tsan_vptr_read(void *) {}
void __tsan_vptr_update(void *, void *) {}
}
