#include "cpu50.h"
/* ---------------- shifter (specification) ---------------- */
static uint32_t T0(void) { return C.alu_out; }        /* adder output: property C07 */
static uint32_t fraction(void) { return T0() & 0xffffff; }
static uint32_t charac(void) { return T0() & 0xff000000u; }
static uint32_t s_T(void)
{
    uint32_t a = T0(), q = o.Q_REG, f = o.F_REG;
    switch (W.al) {
    case 1: case 14: return q << 31 | a >> 1;
    case 2: return (bit(o.S_REG, 4) ? 0 : 0x80000000u) | (o.L_REG & 0x7f000000) | fraction();
    case 5: return (bit(o.S_REG, 4) ? 0x80000000u : 0) | (o.L_REG & 0x7f000000) | fraction();
    case 3: return a & 0x7fffffff;
    case 4: return a | 0x80000000u;
    case 7: case 8: case 11: return a << 1 | q;
    case 9: case 15: return a << 1 | f >> 3;
    case 10: return a << 1;
    case 12: case 13: return a >> 1;
    case 16: return a << 4;
    case 17: return a << 4 | f;
    case 18: return charac() | (fraction() << 4 & 0xffffff);
    case 19: return charac() | (fraction() << 4 & 0xffffff) | f;
    case 26: return charac() | (fraction() << 4 & 0xffffff) | W.ce;
    case 20: case 24: return a >> 4;
    case 21: case 25: return a >> 4 | f << 28;
    case 22: return fraction() >> 4;
    case 23: return charac() | fraction() >> 4 | 0x100000;
    case 27: return a >> 1 | (f & 1) << 31;
    case 28: return o.DKEYS;
    case 30: return s_sdr();
    case 31: return o.AKEYS;
    }
    return a;
}
static int post_out(void) { return IMP(EX && W.al != 29, C.aob_latch == s_T()); }
static int post_channel_gate(void) { return IMP(EX && W.al == 29, C.aob_latch == o.aob_latch); }   /* no channel at work */
/* no later source of F in the word */
static int f_free(void) { return W.ss != 30 && W.wm != 14 && W.wm != 15; }
static unsigned s_F(void)
{
    uint32_t a = T0(), f = o.F_REG;
    switch (W.al) {
    case 1: case 12: return (a & 1) << 3 | f >> 1;
    case 7: return ((f << 1 | a >> 31) ^ 1) & 0xf;
    case 8: case 9: return (f << 1 | a >> 31) & 0xf;
    case 15: return f << 1 & 0xf;
    case 16: case 17: return a >> 28;
    case 20: case 21: case 22: case 23: return a & 0xf;
    }
    return f;
}
static int post_F(void) { return IMP(EX && f_free(), C.F_REG == s_F()); }
static unsigned s_Q(void)
{
    switch (W.al) {
    case 10: case 15: return T0() >> 31;
    case 13: case 14: case 27: return T0() & 1;
    }
    return o.Q_REG;
}
static int post_Q(void) { return IMP(EX, C.Q_REG == s_Q()); }
/* nothing shifted out is lost: left shifts by one into Q or F and right shifts keep value*2 (+in) */
static int post_lossless_left(void)
{
    if (s_stall() || !f_free()) return 1;
    switch (W.al) {
    case 10: return ((uint64_t)C.Q_REG << 32 | C.aob_latch) == (uint64_t)T0() * 2;
    case 15: return ((uint64_t)C.Q_REG << 32 | C.aob_latch) == (uint64_t)T0() * 2 + (o.F_REG >> 3);
    case 16: return ((uint64_t)C.F_REG << 32 | C.aob_latch) == (uint64_t)T0() * 16;
    case 17: return ((uint64_t)C.F_REG << 32 | C.aob_latch) == (uint64_t)T0() * 16 + o.F_REG;
    }
    return 1;
}
static int post_lossless_right(void)
{
    if (s_stall() || !f_free()) return 1;
    switch (W.al) {
    case 13: return C.aob_latch * 2 + C.Q_REG == T0();
    case 20: return (uint64_t)C.aob_latch * 16 + C.F_REG == T0();
    case 22: return (uint64_t)C.aob_latch * 16 + C.F_REG == fraction();
    }
    return 1;
}
static int post_H(void)
{
    if (s_stall() || W.tr == 20) return 1;
    if (W.al == 6) return C.H_REG == ((o.H_REG & 0xff000000u) | (C.IA_REG & 0xffffff)) || W.tr == 8 || W.tr == 12 || W.tr == 21;
    if (W.al == 24) return C.H_REG == ((T0() & 0xf) << 28 | (o.H_REG & 0x0fffffff));
    return C.H_REG == o.H_REG;
}
static int post_ranges(void) { return (C.F_REG < 16 || (EX && W.ss == 30 && (W.wm == 8 || ((C.SAR_REG >> 11) & 0xff) != in_k))) && C.Q_REG <= 1; }
static int post_waits(void) { return IMP(is_stalled(), C.F_REG == o.F_REG && C.Q_REG == o.Q_REG && C.H_REG == o.H_REG && C.aob_latch == o.aob_latch); }
#define PRE pre_cycle()
#define POSTS(X) X(post_out()) X(post_channel_gate()) X(post_F()) X(post_Q()) X(post_lossless_left()) X(post_lossless_right()) X(post_H()) X(post_ranges()) X(post_waits())
VK_CONTRACT(void cycle_2050(void), __CPROVER_object_whole(&cpu_2050))
int main(void)
{
    setup();
    VK_RUN(cycle_2050());
    VK_COVER(EX && W.al == 19 && C.aob_latch == 0x41234567, "fraction shift with F");
    VK_COVER(EX && W.al == 30 && o.mem_state == R3, "storage gated");
    VK_REACHED("end");
    return 0;
}
