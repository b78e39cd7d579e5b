#define VK_SHARE
#include "cpu30.h"
/* C05: one selector channel storage access (a read half then a write half). */
static int I, rd, wr, o_full, o_nz, o_z, o_share;
static unsigned addr0, cnt0;          /* read half: GUV holds the address, GCD the count */
static unsigned b16(unsigned h, unsigned l) { return ((h & 0xff) << 8) | (l & 0xff); }
static int is_out(void) { return (o.GG[I] & 1) == 1; }
static int is_in(void)  { return (o.GG[I] & 3) == 2 || (o.GG[I] & 5) == 4; }
static int back(void)   { return o.GG[I] == 0x10c; }
static int in_store(unsigned a) { return a < VK_MEM; }
/* read half */
static int post_rd_addr(void)  { return IMP(rd, C.MN_REG == addr0 && b16(C.GC[I], C.GD[I]) == addr0); }
static int post_rd_count(void) { return IMP(rd, b16(C.GU[I], C.GV[I]) == ((cnt0 - 1) & 0xffff) && odd9(C.GU[I]) && odd9(C.GV[I]) && C.GU[I] < 0x200); }
static int post_rd_last(void)  { return IMP(rd, (sel_cnt_rdy_not_zero[I] != 0) == (o_nz && cnt0 != 1)); }
static int post_rd_limit(void) { return IMP(rd && !in_store(addr0), C.GE[I] & 0x20); }
static int post_rd_clean(void) { return IMP(rd, M[in_a] == o_ma); }
static int post_rd_data(void)  { return IMP(rd && is_out() && !is_in() && !o_full && !o_z && in_store(addr0), C.GR[I] == (o_mn & 0xffff)); }
static int post_rd_key(void)   { return IMP(rd, (C.Q_REG & 0xf) == (o.MP[0xe0 | (addr0 >> 11)] & 0xf)); }
/* write half */
static int key_bad(void) { return (o.GK[I] & 0xf0) != 0 && ((o.GK[I] >> 4) & 0xf) != (o.Q_REG & 0xf); }
static int stores(void)
{
    return wr && o_full && is_in() && !(o.GF[I] & 0x10) && in_store(o.MN_REG) && !key_bad();
}
static int post_wr_count(void) { return IMP(wr, C.GC[I] == o.GU[I] && C.GD[I] == o.GV[I]); }
static int post_wr_addr(void)
{
    return IMP(wr, b16(C.GU[I], C.GV[I]) == ((b16(o.GC[I], o.GD[I]) + (back() ? -1 : 1)) & 0xffff) && odd9(C.GU[I]) && odd9(C.GV[I]) && C.GU[I] < 0x200);
}
static int post_wr_top(void)   { return IMP(wr && !back() && b16(o.GC[I], o.GD[I]) == 0xffff, C.GE[I] & 0x20); }
static int post_wr_store(void) { return IMP(stores() && in_a == o.MN_REG, M[in_a] == o.GR[I]); }
static int post_wr_frame(void) { return IMP(!rd && in_store(in_a) && !(stores() && in_a == o.MN_REG), M[in_a] == o_ma); }
static int post_wr_key(void)   { return IMP(wr && o_full && is_in() && key_bad(), C.GE[I] & 0x10); }
static int post_done(void)     { return IMP(wr && is_in() && o_full && !o_nz, sel_cnt_rdy_zero[I] != 0); }
/* either half */
static int post_keys(void)     { return C.MP[in_a & 0xff] == o_pa; }
static int post_local(void)    { return C.LS[in_a & 0xfff] == o_la; }
static int post_cpu(void)
{
    return C.R_REG == o.R_REG && C.I_REG == o.I_REG && C.J_REG == o.J_REG && C.U_REG == o.U_REG && C.V_REG == o.V_REG &&
           C.L_REG == o.L_REG && C.D_REG == o.D_REG && C.T_REG == o.T_REG && C.S_REG == o.S_REG && C.WX == o.WX &&
           (C.Q_REG & 0xf0) == (o.Q_REG & 0xf0);
}
static int post_other(void)
{
    int k = 1 - I;
    return C.GU[k] == o.GU[k] && C.GV[k] == o.GV[k] && C.GC[k] == o.GC[k] && C.GD[k] == o.GD[k] && C.GK[k] == o.GK[k] && C.GG[k] == o.GG[k];
}
/* a new byte is taken from the device only while the count is not exhausted */
static int post_accept(void)   { return IMP(sel_read_cycle[I] && !(rd && 0) && wr, sel_cnt_rdy_not_zero[I] != 0); }
#define PRE (o_ma < 0x200 && pre_cycle() && in_a < VK_MEM && !(sel_read_cycle[0] && sel_write_cycle[0]) && !(sel_read_cycle[1] && sel_write_cycle[1]) && C.GC[I] < 0x200 && C.GD[I] < 0x200 && C.GG[I] < 0x200 && C.GR[I] < 0x200 && C.GI[I] < 0x200)
#define POSTS(X) X(post_rd_addr()) X(post_rd_count()) X(post_rd_last()) X(post_rd_limit()) X(post_rd_clean()) X(post_rd_data()) X(post_rd_key()) X(post_wr_count()) X(post_wr_addr()) X(post_wr_top()) X(post_wr_store()) X(post_wr_frame()) X(post_wr_key()) X(post_done()) X(post_keys()) X(post_local()) X(post_cpu()) X(post_other()) X(post_accept())
VK_CONTRACT(void cycle_2030(void), __CPROVER_object_whole(&cpu_2030))
int main(void)
{
    setup();
    I = (sel_share_req & 1) ? 0 : 1;
    rd = sel_read_cycle[I] != 0; wr = !rd && sel_write_cycle[I] != 0;
    o_full = sel_gr_full[I]; o_nz = sel_cnt_rdy_not_zero[I]; o_z = sel_cnt_rdy_zero[I];
    addr0 = b16(C.GU[I], C.GV[I]); cnt0 = b16(C.GC[I], C.GD[I]);
    if (rd) { o_mn = addr0 < VK_MEM ? M[addr0] : 0; }
    VK_PIN(C.MP[0xe0 | (addr0 >> 11)], in_pin[6]);
    if (addr0 < VK_MEM) VK_PIN(M[addr0], in_pin[7]);
    o = C;
    VK_RUN(cycle_2030());
    VK_COVER(stores() && in_a == o.MN_REG && M[in_a] == 0x155, "channel stores a byte");
    VK_COVER(rd && is_out() && C.GR[I] == 0x0c1 && sel_cnt_rdy_not_zero[I] == 0, "channel fetches the last byte");
    VK_COVER(back() && wr, "backward");
    VK_REACHED("end");
    return 0;
}
