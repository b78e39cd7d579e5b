#include "cpu30.h"
/* C04: storage read, regeneration, store, storage keys and limits, in a CPU cycle. */
static int s_aw(void)   { return o_read_call || o.allow_write != 0; }
static int s_blocked(void) { return o_read_call ? (W.CM == 2 && s_key_bad()) : o_stg_prot_req != 0; }
static int s_writes(void)
{
    if (!s_aw() || (W.CM != 0 && W.CM != 2)) return 0;
    if (W.CM == 2 && s_blocked()) return 0;
    return o.store != MAIN || o.MN_REG < VK_MEM;
}
static unsigned s_GR(void) { return s_reads() && W.CU == 1 ? (uint16_t)s_cell() : o.GR[o.ch_sel]; }
static unsigned s_wdata(void) { return W.CU == 1 ? s_GR() : s_R(); }
static unsigned s_q(void)    /* key half of Q after the read */
{
    if (o_read_call && ((o.store == MAIN && !s_prot()) || o.store == MPX)) return o.MP[o.SA_REG] & 0xf;
    return o.Q_REG & 0xf;
}
static int post_main_frame(void) { return IMP(in_a < VK_MEM && !(o.store == MAIN && in_a == o.MN_REG), M[in_a] == o_ma); }
static int post_main_cell(void)
{
    if (in_a >= VK_MEM || o.store != MAIN || in_a != o.MN_REG) return 1;
    if (s_writes()) return M[in_a] == s_wdata();
    if (s_reads()) return (M[in_a] & 0xff) == 0;      /* destructive read, until it is written back */
    return M[in_a] == o_ma;
}
static unsigned la(void) { return in_a & 0xfff; }
static int post_local_frame(void) { return IMP(!(o.store != MAIN && la() == (o.MN_REG & 0x7ff)), C.LS[la()] == o_la); }
static int post_local_cell(void)
{
    if (o.store == MAIN || la() != (o.MN_REG & 0x7ff)) return 1;
    if (s_writes()) return C.LS[la()] == s_wdata();
    if (s_reads()) return (C.LS[la()] & 0xff) == 0;
    return C.LS[la()] == o_la;
}
static int post_keys(void)
{
    unsigned k = in_a & 0xff;
    if (s_writes() && o.store != LOCAL && k == o.SA_REG) return C.MP[k] == s_q();
    return C.MP[k] == o_pa;
}
static int post_read_R(void)  { return IMP(s_reads() && W.CU != 1 && W.CD != 7, C.R_REG == (s_cell() & 0xffff)); }
static int post_limit(void)   { return IMP(o_read_call && s_range() && W.CD != 7, C.R_REG == o.R_REG); }
/* an address gated to storage: 16 bits, its key is the key of its 2K block */
static int post_addr(void)
{
    if (W.CM < 3 || C.store != MAIN) return 1;
    return C.MN_REG == (((C.M_REG & 0xffu) << 8) | (C.N_REG & 0xff)) && (C.SA_REG & 0x1f) == ((C.MN_REG >> 11) & 0x1f) && C.MN_REG <= 0xffff;
}
static int post_addr_src(void)
{
    unsigned m = C.MN_REG;
    if (W.CM < 3 || C.store != MAIN || W.CU != 0) return 1;
    switch (W.CM) {
    case 3: return m == (((o.I_REG & 0xffu) << 8) | (o.J_REG & 0xff));
    case 4: return m == (((o.U_REG & 0xffu) << 8) | (o.V_REG & 0xff));
    case 7: return m == (((o.GU[o.ch_sel] & 0xffu) << 8) | (o.GV[o.ch_sel] & 0xff));
    }
    return 1;
}
static int post_local_addr(void) { return IMP(C.store != MAIN, C.MN_REG < 0x800); }
#define PRE pre_cycle()
#define POSTS(X) X(post_main_frame()) X(post_main_cell()) X(post_local_frame()) X(post_local_cell()) X(post_keys()) X(post_read_R()) X(post_limit()) X(post_addr()) X(post_addr_src()) X(post_local_addr())
VK_CONTRACT(void cycle_2030(void), __CPROVER_object_whole(&cpu_2030))
int main(void)
{
    setup();
    VK_RUN(cycle_2030());
    VK_COVER(s_writes() && o.store == MAIN && o.MN_REG == in_a && M[in_a] == 0x155, "store");
    VK_COVER(o_read_call && s_key_bad() && W.CM == 2, "protected store");
    VK_REACHED("end");
    return 0;
}
