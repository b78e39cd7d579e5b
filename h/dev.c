/* One call of a device's bus function, over every device state and every setting of the tags.
 * VK_DEV = 1442 | 2415 | 1052, VK_PROP = 13 (selection) | 14 (bus-in) | 15 (status). */
#include "vk.h"
#if VK_DEV == 1442
#include "model1442.c"
#define CTX struct _1442_context
#define SENSE0 ctx.sense
#define BUSYST SNS_BSY
#define AMASK 0xff
#elif VK_DEV == 2415
#include "model2415.c"
#define CTX struct _2415_context
#define SENSE0 ctx.sense[0]
#define BUSYST (SNS_BSY|SNS_SMS)
#define AMASK 0xf8
#else
#include "model1052.c"
#define CTX struct _1052_context
#define SENSE0 ctx.sense
#define BUSYST SNS_BSY
#define AMASK 0xff
#endif
#include "xlat.c"
#include "stubs_log.h"
int log_level;
void print_tags(char *name, int state, uint16_t tags, uint16_t bus_out) { }
/* the other parts of the emulator: assumed contracts = arbitrary result, nothing else touched */
static int n_add, n_cancel, n_start;
int add_event(struct _device *u, _callback f, int t, void *p, int a) { n_add++; return 0; }
void cancel_event(struct _device *u, _callback f) { n_cancel++; }
#if VK_DEV == 2415
struct _tape_buffer tp;
int in_r[4];
int tape_9_track(struct _tape_buffer *t) { return in_r[0]; }
int tape_ready(struct _tape_buffer *t) { return in_r[1]; }
int tape_ring(struct _tape_buffer *t) { return in_r[2]; }
int tape_at_loadpt(struct _tape_buffer *t) { return in_r[3]; }
int in_start;
int tape_write_start(struct _tape_buffer *t) { n_start++; return in_start; }
int tape_read_forw(struct _tape_buffer *t) { n_start++; return in_start; }
int tape_read_back(struct _tape_buffer *t) { n_start++; return in_start; }
void tape_select(struct _tape_buffer *t) { }
void tape_unselect(struct _tape_buffer *t) { }
unsigned char in_has[8];
#endif
struct _device unit;
CTX ctx;
uint16_t tags, bus_in, in_bus;
/* entry snapshot */
static struct _device u0; static CTX c0; static uint16_t t0, b0; static int s0;
#if VK_DEV == 2415
#define SENSE0_0 c0.sense[0]
#else
#define SENSE0_0 c0.sense
#endif
static int odd(unsigned v) { unsigned i, p = 0; for (i = 0; i < 9; i++) p ^= (v >> i) & 1; return p; }
#define PAR(v) ((unsigned)(v) | (odd((unsigned)(v) & 0xff) ? 0 : 0x100))
#define IN3 (CHAN_ADR_IN|CHAN_STA_IN|CHAN_SRV_IN)
#define BADPAR (!odd(in_bus & 0x1ff))
/* inbound tags a device holds in each state */
static int held(int st)
{
    switch (st) {
    case STATE_COMMAND: return CHAN_ADR_IN;
    case STATE_STATUS_ACCEPT: case STATE_END_ACCEPT: case STATE_BUSY: return CHAN_STA_IN;
    case STATE_DATA_2: return CHAN_SRV_IN;
    default: return 0;
    }
}
static unsigned addr_byte(void)
{
#if VK_DEV == 2415
    return (unit.addr & 0xf8) | ctx.cur_unit;
#else
    return unit.addr & 0xff;
#endif
}
static int inv(void)         /* state invariant of the device, assumed on entry and proved on exit */
{
    if ((int)ctx.state < STATE_IDLE || (int)ctx.state > STATE_DATA_2) return 0;
    if (ctx.status < 0 || ctx.status > 0xff || ctx.data < 0 || ctx.data > 0xff) return 0;
    if (SENSE0 < 0 || SENSE0 > 0xff || ctx.cmd < 0 || ctx.cmd > 0xff) return 0;
#if VK_DEV == 2415
    { int k; for (k = 1; k < 6; k++) if (ctx.sense[k] < 0 || ctx.sense[k] > 0xff) return 0; }
    if (ctx.cur_unit < 0 || ctx.cur_unit > 5 || ctx.t_scan < 0 || ctx.t_scan > 5 || ctx.sense_cnt < 0) return 0;
#endif
    return 1;
}
static int line(void)        /* inbound tags agree with the device's state */
{
    if (ctx.state == STATE_IDLE) return (tags & CHAN_OPR_IN) || !(tags & IN3);
    return (tags & IN3) == held(ctx.state);
}
static int resetting(void) { return (t0 & (CHAN_OPR_OUT|CHAN_SUP_OUT)) == 0; }
static int pending(void) { return u0.request || u0.stacked || (VK_DEV == 2415 && s0 == STATE_IDLE && unit.request); }
static int match(void) { return (in_bus & AMASK) == (u0.addr & AMASK) && (VK_DEV != 2415 || (in_bus & 7) < 6); }
static int called(void) { return s0 == STATE_IDLE && (t0 & CHAN_OPR_OUT) && !(t0 & CHAN_OPR_IN) && (t0 & CHAN_SEL_OUT) && (t0 & CHAN_ADR_OUT) && match(); }
static int polled(void) { return s0 == STATE_IDLE && (t0 & CHAN_OPR_OUT) && !(t0 & CHAN_OPR_IN) && (t0 & CHAN_SEL_OUT) && !(t0 & (CHAN_ADR_OUT|CHAN_SUP_OUT)) && pending(); }
/* ---- C13 */
static int post_inv(void) { return inv(); }
static int post_line(void) { return resetting() || line(); }
static int post_outbound(void)       /* the channel's own tags are not touched, only select is taken */
{ return ((tags ^ t0) & OUT_TAGS & ~CHAN_SEL_OUT) == 0 && !(tags & ~t0 & CHAN_SEL_OUT) && ((tags ^ t0) & 0x107) == 0; }
static int post_idle(void)           /* not called, not polled: nothing happens */
{
    if (s0 != STATE_IDLE || resetting() || called() || polled()) return 1;
    return ((tags ^ t0) & ~CHAN_REQ_IN) == 0 && bus_in == b0 && ctx.state == STATE_IDLE && unit.selected == u0.selected
        && ctx.status == c0.status && ctx.cmd == c0.cmd && SENSE0 == SENSE0_0 && n_add == 0;
}
static int post_request(void)        /* request-in only for a pending request, and only while the bus is free */
{
    if (!(tags & ~t0 & CHAN_REQ_IN)) return 1;
    return s0 == STATE_IDLE && pending() && (t0 & CHAN_OPR_OUT) && !(t0 & CHAN_OPR_IN);
}
static int post_norequest(void)      /* somebody else's request is left alone */
{
    if (s0 != STATE_IDLE || resetting() || pending() || called()) return 1;
    return ((tags ^ t0) & CHAN_REQ_IN) == 0;
}
static int post_asks(void)           /* pending request is raised as soon as the bus is free */
{
    if (s0 != STATE_IDLE || resetting() || !pending() || !(t0 & CHAN_OPR_OUT) || (t0 & (CHAN_OPR_IN|CHAN_SEL_OUT|CHAN_SUP_OUT|CHAN_ADR_OUT))) return 1;
    return (tags & CHAN_REQ_IN) != 0;
}
static int post_withdraw(void)       /* taken back while another device has the channel or requests are held off */
{
    if (s0 != STATE_IDLE || resetting() || !(u0.request || u0.stacked) || !(t0 & CHAN_OPR_OUT)) return 1;
    if (!(t0 & CHAN_OPR_IN) && (!(t0 & (CHAN_SUP_OUT|CHAN_ADR_OUT)) || (VK_DEV == 1442 && c0.data_rdy))) return 1;
    return !(tags & CHAN_REQ_IN);
}
static int post_called(void)         /* called: takes select, answers selected or busy */
{
    int busy;
    if (!called()) return 1;
    if (tags & (CHAN_SEL_OUT|CHAN_REQ_IN)) return 0;
    busy = c0.busy != 0;
#if VK_DEV == 2415
    busy = busy || (c0.rdy_flags != 0 && !(c0.rdy_flags & (1 << (in_bus & 7))));
#endif
    if (busy) return ctx.state == STATE_BUSY && (tags & (CHAN_OPR_IN|IN3)) == CHAN_STA_IN && bus_in == PAR(BUSYST) && ctx.cmd == c0.cmd && ctx.status == c0.status;
    return ctx.state == STATE_INIT_SEL && (tags & (CHAN_OPR_IN|IN3)) == CHAN_OPR_IN && unit.selected
#if VK_DEV == 2415
        && ctx.cur_unit == (in_bus & 7)
#endif
        ;
}
static int post_polled(void)
{
    if (!polled()) return 1;
    return ctx.state == STATE_INIT_SEL && !(tags & (CHAN_SEL_OUT|CHAN_REQ_IN)) && (tags & (CHAN_OPR_IN|IN3)) == CHAN_OPR_IN && unit.selected;
}
static int post_select(void)         /* a selected device keeps select to itself */
{ return resetting() || s0 == STATE_IDLE || !(tags & CHAN_SEL_OUT); }
static int post_operin(void)         /* operational-in rises only on selection */
{ return !(tags & ~t0 & CHAN_OPR_IN) || called() || polled(); }
static int post_free(void)           /* channel done with it: off the bus */
{
    if (resetting() || s0 != STATE_STATUS_WAIT || (t0 & (CHAN_CMD_OUT|CHAN_SRV_OUT|CHAN_ADR_OUT|CHAN_HLD_OUT))) return 1;
    return ctx.state == STATE_IDLE && !unit.selected && !(tags & (CHAN_OPR_IN|IN3));
}
static int post_order(void)          /* status-in only after command-out has dropped */
{ return !(tags & ~t0 & CHAN_STA_IN) || called() || !(t0 & CHAN_CMD_OUT); }
/* ---- C14 */
static int post_address(void) { return resetting() || ctx.state != STATE_COMMAND || bus_in == PAR(addr_byte()); }
static int post_status(void)
{ return resetting() || (ctx.state != STATE_STATUS_ACCEPT && ctx.state != STATE_END_ACCEPT) || bus_in == PAR(ctx.status); }
static int post_data(void) { return resetting() || ctx.state != STATE_DATA_2 || bus_in == PAR(ctx.data); }
static int post_busin(void) { return bus_in == b0 || odd(bus_in) && bus_in < 0x200; }
static int cmdtime(void) { return !resetting() && s0 == STATE_COMMAND && (t0 & CHAN_CMD_OUT); }
static int post_badcmd(void)         /* a command with bad parity is not executed */
{
    if (!cmdtime() || !BADPAR) return 1;
    return n_add == 0 && n_start == 0 && ctx.cmd == 0 && ctx.status == (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK) && (SENSE0 & SENSE_BUSCHK) && ctx.state == STATE_STATUS;
}
static int taking(void) { return !resetting() && s0 == STATE_DATA_2 && (t0 & CHAN_SRV_OUT); }
static int post_write(void)          /* a byte offered by the channel is taken exactly */
{
    if (!taking() || !(c0.cmd & 1)) return 1;
    if (BADPAR) return ctx.data == c0.data && (SENSE0 & SENSE_BUSCHK) && (ctx.status & SNS_UNITCHK) && ctx.data_end;
    return ctx.data == (in_bus & 0xff) && IMP(!(t0 & CHAN_CMD_OUT), ctx.status == c0.status && ctx.data_end == c0.data_end);
}
static int post_read(void)           /* data is changed by nothing but a write byte or a command */
{
    if (resetting() || cmdtime() || taking() && (c0.cmd & 1)) return 1;
    if (VK_DEV == 2415 && s0 == STATE_OPR && (c0.cmd & 0xf) == 4) return 1;
    return ctx.data == c0.data;
}
static int post_taken(void)          /* each byte is transferred once */
{
    if (resetting() || s0 != STATE_DATA_2) return 1;
    if (t0 & (CHAN_SRV_OUT|CHAN_CMD_OUT)) return !(tags & CHAN_SRV_IN) && ctx.state == STATE_OPR && !ctx.data_rdy;
    return ctx.state == STATE_DATA_2 && ctx.data_rdy == c0.data_rdy;
}
static int post_stop(void)           /* stop from the channel ends the transfer, whatever is on the bus */
{
    if (resetting() || s0 != STATE_DATA_2 || !(t0 & CHAN_CMD_OUT) || (t0 & CHAN_SRV_OUT)) return 1;
    if ((VK_DEV == 1442 && (c0.cmd & 3) == 0)) return 1;
    return ctx.data_end && (c0.status & ~ctx.status) == 0 && ctx.data == c0.data && !(ctx.status & ~c0.status & SNS_UNITCHK & (SENSE0 ? 0 : 0xff));
}
static int post_ask(void)            /* service is requested only with a byte to move, suppress-out and service-out down */
{ return !(tags & ~t0 & CHAN_SRV_IN) || s0 == STATE_DATA_1 && !(t0 & (CHAN_SRV_OUT|CHAN_SUP_OUT)); }
/* ---- C15 */
static int acc(void) { return !resetting() && (s0 == STATE_STATUS_ACCEPT || s0 == STATE_END_ACCEPT); }
static int post_stacked(void)        /* refused status is kept */
{
    if (!acc() || !(t0 & CHAN_CMD_OUT)) return 1;
    return unit.stacked && ctx.status == c0.status && ctx.state == STATE_STATUS_WAIT && !(tags & (CHAN_OPR_IN|CHAN_STA_IN)) && ctx.cmd == c0.cmd;
}
static int post_accepted(void)
{
    if (!acc() || (t0 & CHAN_CMD_OUT) || !(t0 & CHAN_SRV_OUT)) return 1;
    return ctx.status == 0 && !(tags & CHAN_STA_IN) && IMP(c0.cmd_done, !unit.stacked && ctx.cmd == 0 && !ctx.busy && !(tags & CHAN_OPR_IN));
}
static int post_kept(void)           /* status bits disappear only when accepted, reset, or replaced by a new command's */
{
    if (resetting() || acc() && (t0 & CHAN_SRV_OUT) && !(t0 & CHAN_CMD_OUT)) return 1;
    if (cmdtime() && (BADPAR || c0.status == 0)) return 1;
    return (c0.status & ~ctx.status) == 0;
}
static int post_held(void)           /* status pending: a new command is not started */
{
    if (!cmdtime() || BADPAR || !(u0.stacked || c0.status)) return 1;
    return ctx.cmd == c0.cmd && n_start == 0 && n_add == 0;
}
static int post_busycmd(void)        /* nor while busy */
{
    if (!cmdtime() || BADPAR || !c0.busy) return 1;
    return ctx.cmd == c0.cmd && n_start == 0 && n_add == 0;
}
static int post_reset(void)          /* selective/system reset clears everything */
{
    if (!resetting()) return 1;
    return ctx.state == STATE_IDLE && !unit.selected && !unit.request && !unit.stacked && ctx.status == 0 && SENSE0 == 0 && ctx.cmd == 0
        && !ctx.busy && !ctx.data_end && !ctx.data_rdy && !ctx.cmd_done && bus_in == b0
        && IMP(u0.selected, !(tags & (CHAN_OPR_IN|IN3))) && IMP(!u0.selected, tags == t0);
}
static int post_retry(void)          /* stacked status is offered again as soon as the channel allows */
{
    if (s0 != STATE_IDLE || resetting() || !u0.stacked || !(t0 & CHAN_OPR_OUT) || (t0 & (CHAN_OPR_IN|CHAN_SUP_OUT|CHAN_ADR_OUT))) return 1;
    return (t0 & CHAN_SEL_OUT) ? ctx.state == STATE_INIT_SEL : (tags & CHAN_REQ_IN) != 0;
}
#define PRE (inv() && line())
#if VK_PROP == 13
#define POSTS(X) X(post_inv()) X(post_line()) X(post_outbound()) X(post_idle()) X(post_request()) X(post_norequest()) X(post_asks()) X(post_withdraw()) X(post_called()) X(post_polled()) X(post_select()) X(post_operin()) X(post_free()) X(post_order())
#elif VK_PROP == 14
#define POSTS(X) X(post_inv()) X(post_address()) X(post_status()) X(post_data()) X(post_busin()) X(post_badcmd()) X(post_write()) X(post_read()) X(post_taken()) X(post_stop()) X(post_ask())
#else
#define POSTS(X) X(post_inv()) X(post_stacked()) X(post_accepted()) X(post_kept()) X(post_held()) X(post_busycmd()) X(post_reset()) X(post_retry())
#endif
#define CAT_(a, b, c) a##b##c
#define CAT(a, b, c) CAT_(a, b, c)
int main(void)
{
    VK_LOAD();
    log_level = 0; n_add = n_cancel = n_start = 0;
    unit.dev = &ctx;
#if VK_DEV == 2415
    { int k; for (k = 0; k < 6; k++) ctx.tape[k] = in_has[k] ? &tp : NULL; }
#endif
    VK_ASSUME(in_bus < 0x200 && bus_in < 0x200);
    u0 = unit; c0 = ctx; t0 = tags; b0 = bus_in; s0 = ctx.state;
    VK_RUN(CAT(model, VK_DEV, _dev)(&unit, &tags, in_bus, &bus_in));
    VK_COVER(called() && ctx.state == STATE_INIT_SEL, "selected");
    VK_COVER(called() && ctx.state == STATE_BUSY, "busy");
    VK_COVER(polled(), "polled");
    VK_COVER(cmdtime() && ctx.cmd, "command starts");
    VK_COVER(taking() && (c0.cmd & 1), "write byte");
    VK_REACHED("end");
    return 0;
}
