#define VK_CONSOLE
#include "cpu30.h"
/* C06: console STORE and DISPLAY while the clock is stopped. */
static int st, dp; static unsigned addr, data, lsx, o_cell, o_lcell;
static int mainst(void) { return E_SW == 0x20 && o.allow_write == 0; }
static int auxst(void)  { return E_SW == 0x21 && o.allow_write == 0; }
static int post_store_main(void) { return IMP(st && mainst() && addr < VK_MEM, (M[addr] & 0xff) == data); }
static int post_main_frame(void) { return IMP(in_a < VK_MEM && !(st && mainst() && in_a == addr), M[in_a] == o_ma); }
static int post_store_aux(void)  { return IMP(st && auxst(), (C.LS[lsx] & 0xff) == data); }
static int post_aux_frame(void)  { return IMP(!(st && auxst() && (in_a & 0xfff) == lsx), C.LS[in_a & 0xfff] == o_la); }
static int post_keys(void)       { return C.MP[in_a & 0xff] == o_pa; }
static int post_disp_main(void)  { return IMP(dp && !st && mainst() && addr < VK_MEM, (C.R_REG & 0xff) == (o_cell & 0xff)); }
static int post_disp_aux(void)   { return IMP(dp && !st && auxst(), (C.R_REG & 0xff) == (o_lcell & 0xff)); }
static int post_disp_addr(void)  { return IMP((dp || st) && mainst(), C.MN_REG == addr); }
#define SREG(n, f) (st && E_SW == (n) ? (C.f & 0xff) == data : C.f == o.f)
static int post_regs(void)
{
    return SREG(0x30, I_REG) && SREG(0x31, J_REG) && SREG(0x32, U_REG) && SREG(0x33, V_REG) && SREG(0x34, L_REG) &&
           SREG(0x35, T_REG) && SREG(0x36, D_REG) && SREG(0x38, S_REG) && SREG(0x39, G_REG) && SREG(0x3a, H_REG) && SREG(0x10, Q_REG);
}
static int post_reg_parity(void)
{
    if (!st) return 1;
    switch (E_SW) {
    case 0x30: return odd9(C.I_REG); case 0x31: return odd9(C.J_REG); case 0x32: return odd9(C.U_REG);
    case 0x33: return odd9(C.V_REG); case 0x34: return odd9(C.L_REG); case 0x35: return odd9(C.T_REG);
    case 0x36: return odd9(C.D_REG); case 0x39: return odd9(C.G_REG);
    }
    return 1;
}
static int post_disp_reg(void)
{
    if (!dp || st) return 1;
    switch (E_SW) {
    case 0x10: return C.Abus == o.Q_REG; case 0x11: return C.Abus == o.C_REG; case 0x12: return C.Abus == o.F_REG;
    case 0x30: return C.Abus == o.I_REG; case 0x31: return C.Abus == o.J_REG; case 0x32: return C.Abus == o.U_REG;
    case 0x33: return C.Abus == o.V_REG; case 0x34: return C.Abus == o.L_REG; case 0x35: return C.Abus == o.T_REG;
    case 0x36: return C.Abus == o.D_REG; case 0x37: return C.Abus == o.R_REG; case 0x38: return C.Abus == o.S_REG;
    case 0x39: return C.Abus == o.G_REG; case 0x3a: return C.Abus == o.H_REG;
    }
    return 1;
}
#define PRE (pre_cycle() && (st || dp) && addr < 65536)
#define POSTS(X) X(post_store_main()) X(post_main_frame()) X(post_store_aux()) X(post_aux_frame()) X(post_keys()) X(post_disp_main()) X(post_disp_aux()) X(post_disp_addr()) X(post_regs()) X(post_reg_parity()) X(post_disp_reg())
VK_CONTRACT(void cycle_2030(void), __CPROVER_object_whole(&cpu_2030))
int main(void)
{
    setup();
    st = STORE != 0; dp = DISPLAY != 0;
    addr = (A_SW << 12) | (B_SW << 8) | (C_SW << 4) | D_SW; data = (H_SW << 4) | J_SW;
    lsx = ((((A_SW << 4 | B_SW) << 3) & 0x700) | (C_SW << 4) | D_SW) & 0xfff;
    if (addr < VK_MEM) VK_PIN(M[addr], in_pin[6]);
    VK_PIN(C.LS[lsx], in_pin[7]);
    o_cell = addr < VK_MEM ? M[addr] : 0; o_lcell = C.LS[lsx];
    VK_RUN(cycle_2030());
    VK_COVER(st && mainst() && addr == 0x1234, "store");
    VK_COVER(dp && !st && auxst() && addr == 0xe0bb, "display");
    VK_REACHED("end");
    return 0;
}
