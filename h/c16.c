/* Card movement and transfer timing of the 1442: one callback or command.
 * VK_OP = 0 read a column, 1 punch a column, 2 feed, 3 stop from the channel, 4 command */
#define __NO_CTYPE
#include "vk.h"
#include "model1442.c"
#include "xlat.c"
#include "stubs_log.h"
int log_level;
#ifndef VK_NATIVE
#undef isprint
int isprint(int c) { return c >= 32 && c < 127; }
#endif
void print_tags(char *name, int state, uint16_t tags, uint16_t bus_out) { }
/* ---- event queue: contract of C20 (recorded) */
static int n_read, n_write, n_feed, n_other, x_read, x_write, x_feed, n_time;
int add_event(struct _device *u, _callback f, int t, void *p, int a)
{
    if (f == &read_callback) n_read++; else if (f == &write_callback) n_write++; else if (f == &feed_callback) n_feed++; else n_other++;
    if (t <= 0) n_time++;
    return 0;
}
void cancel_event(struct _device *u, _callback f)
{ if (f == &read_callback) x_read++; if (f == &write_callback) x_write++; if (f == &feed_callback) x_feed++; }
/* ---- cards: contracts of C22 (arbitrary results, calls recorded) */
struct card_context feedc, stk0, stk1;
int in_left[2], in_stk[2], in_got;
uint16_t in_card[80], in_code, in_hol;
unsigned in_k;
uint16_t in_pk, in_rk, in_ck;
static int n_stack, st_to, st_k, n_get, hol_arg, n_hol, ebc_arg, n_ebc;
int hopper_size(struct card_context *c) { return c == &feedc ? in_left[n_get > 0] : 0; }
int stack_size(struct card_context *c) { return c == &stk0 ? in_stk[0] : c == &stk1 ? in_stk[1] : 0; }
int stack_card(struct card_context *c, uint16_t (*image)[80])
{ n_stack++; st_to = c == &stk0 ? 0 : c == &stk1 ? 1 : -1; st_k = (*image)[in_k]; return 0; }
int read_card(struct card_context *c, uint16_t (*image)[80])
{
    if (c != &feedc) n_get = 100;
    n_get++;
    if (in_left[0] <= 0 || !in_got) return 0;
    memcpy(image, in_card, 160); return 1;
}
uint16_t hol_to_ebcdic(uint16_t h) { n_hol++; hol_arg = h; return in_code; }
uint16_t ebcdic_to_hol(uint8_t e) { n_ebc++; ebc_arg = e; return in_hol; }
struct _device unit;
struct _1442_context ctx;
uint8_t in_cmd;
static struct _device u0; static struct _1442_context c0;
static uint16_t rcol0, pcol0;
static int idle(void) { return n_read + n_write + n_feed + n_other == 0; }
static int sched(int r, int w, int f) { return n_read == r && n_write == w && n_feed == f && n_other == 0 && n_time == 0; }
static int cards_same(void)
{
    return ctx.rdr_card[in_k] == in_rk && ctx.pch_card[in_k] == in_pk && ctx.rdr_full == c0.rdr_full && ctx.pch_full == c0.pch_full &&
           ctx.rdy_flag == c0.rdy_flag && ctx.hop_cnt == c0.hop_cnt && ctx.eof_flag == c0.eof_flag && n_stack == 0 && n_get == 0;
}
static int frame(void) { return ctx.state == c0.state && unit.stacked == u0.stacked && unit.selected == u0.selected && ctx.feed == c0.feed && unit.addr == u0.addr; }
static int inv(void)
{
    return ctx.rdr_col >= 0 && ctx.rdr_col <= 80 && ctx.pch_col >= 0 && ctx.pch_col <= 80 && (ctx.stk_sel == 0 || ctx.stk_sel == 1) &&
           ctx.data >= 0 && ctx.data <= 0xff && ctx.status >= 0 && ctx.status <= 0xff && ctx.sense >= 0 && ctx.sense <= 0xff;
}
static int post_inv(void) { return inv() && frame(); }
#if VK_OP == 0
static int over(void) { return !c0.data_end && c0.data_rdy; }
static int full(void) { return !c0.data_end && !c0.data_rdy && c0.rdr_col >= 80; }
static int col(void) { return !c0.data_end && !c0.data_rdy && c0.rdr_col < 80; }
static int post_column(void)      /* the next column, once, exactly */
{
    if (!col()) return ctx.data == c0.data && ctx.rdr_col == c0.rdr_col;
    return n_hol == 1 && hol_arg == rcol0 && ctx.data == (in_code == 0x100 ? 0 : in_code) && ctx.rdr_col == c0.rdr_col + 1 && ctx.data_rdy && unit.request
        && ctx.data_end == c0.data_end && ctx.status == c0.status;
}
static int post_invalid(void) { return ctx.sense == (c0.sense | (col() && in_code == 0x100 ? SENSE_DATCHK : 0) | (over() ? SENSE_OVRRUN : 0)); }
static int post_end(void) { return !full() || (ctx.data_end && (ctx.status & SNS_CHNEND) && unit.request); }
static int post_overrun(void) { return !over() || (ctx.data_end && (ctx.status & (SNS_CHNEND|SNS_UNITCHK)) == (SNS_CHNEND|SNS_UNITCHK) && unit.request); }
static int post_early(void) { return !c0.data_end || (ctx.data_end && (ctx.status & SNS_CHNEND) && ctx.data_rdy == c0.data_rdy); }
static int post_events(void) { return sched(col(), 0, !col()); }
static int post_status(void) { return (c0.status & ~ctx.status) == 0 && (ctx.status & ~c0.status & ~(SNS_CHNEND|SNS_UNITCHK)) == 0; }
static int post_cards(void) { return cards_same() && ctx.busy == c0.busy && ctx.cmd == c0.cmd && ctx.cmd_done == c0.cmd_done && ctx.pch_col == c0.pch_col; }
#define PRE (inv() && in_code <= 0x100 && ctx.busy)
#define POSTS(X) X(post_inv()) X(post_column()) X(post_invalid()) X(post_end()) X(post_overrun()) X(post_early()) X(post_events()) X(post_status()) X(post_cards())
#define CALL read_callback(&unit, NULL, 0)
#define COV VK_COVER(col() && c0.rdr_col == 79, "last column"); VK_COVER(over(), "overrun"); VK_COVER(c0.data_end, "channel ended")
#elif VK_OP == 1
static int gone(void) { return c0.data_end; }
static int over(void) { return !gone() && c0.data_rdy; }
static int pun(void) { return !gone() && !c0.data_rdy && c0.pch_col < 80; }
static int feeds(void) { return (c0.cmd & 0x80) != 0; }
static int post_punch(void)       /* the byte goes into the next column, holes are never removed */
{
    if (!pun()) return ctx.pch_card[in_k] == in_pk && ctx.pch_col == c0.pch_col;
    if (ctx.pch_col != c0.pch_col + 1 || n_ebc != 1 || ebc_arg != c0.data) return 0;
    return ctx.pch_card[in_k] == ((int)in_k == c0.pch_col ? (uint16_t)(in_pk | in_hol) : in_pk);
}
static int post_next(void) { return gone() || over() || (ctx.data_rdy && unit.request && ctx.status == c0.status && ctx.sense == c0.sense && ctx.data_end == c0.data_end && ctx.busy == c0.busy); }
static int post_overrun(void)
{
    if (!over()) return 1;
    return ctx.sense == (c0.sense | SENSE_OVRRUN) && ctx.data_end && unit.request &&
           ctx.status == (c0.status | SNS_CHNEND | SNS_UNITCHK | (feeds() ? 0 : SNS_DEVEND)) && (feeds() ? ctx.busy == c0.busy : !ctx.busy && ctx.cmd_done);
}
static int post_gone(void)        /* ended by the channel: nothing more is asked for or punched */
{
    if (!gone()) return 1;
    if (n_ebc || n_write || ctx.data_rdy != c0.data_rdy || (c0.status & ~ctx.status)) return 0;
    if (!c0.busy) return idle() && ctx.status == c0.status && unit.request == u0.request;
    return feeds() ? n_feed == 1 && (ctx.status & SNS_CHNEND) : ctx.cmd_done && !ctx.busy && (ctx.status & (SNS_CHNEND|SNS_DEVEND)) == (SNS_CHNEND|SNS_DEVEND) && unit.request;
}
static int post_events(void) { return gone() || (over() ? sched(0, 0, feeds()) : sched(0, 1, 0)); }
static int post_cards(void) { return ctx.rdr_card[in_k] == in_rk && ctx.rdr_full == c0.rdr_full && ctx.pch_full == c0.pch_full && ctx.rdr_col == c0.rdr_col && n_stack == 0 && n_get == 0 && ctx.data == c0.data; }
#define PRE (inv() && ctx.cmd <= 0xff && ctx.cmd >= 0 && IMP(ctx.busy, (ctx.cmd & 7) == 1) && IMP(!ctx.data_end, ctx.busy) && in_hol < 0x1000)
#define POSTS(X) X(post_inv()) X(post_punch()) X(post_next()) X(post_overrun()) X(post_gone()) X(post_events()) X(post_cards())
#define CALL write_callback(&unit, NULL, 0)
#define COV VK_COVER(pun() && c0.pch_col == 79, "last column"); VK_COVER(over() && feeds(), "overrun"); VK_COVER(gone() && c0.busy, "channel ended")
#elif VK_OP == 2
static int last(void) { return c0.hop_cnt == 0 && c0.eof_flag; }
static int eof(void) { return c0.eof_flag && !last(); }     /* end-of-file still set while the cards move */
static int moves(void) { return in_left[0] > 0 || eof(); }
static int taken(void) { return moves() && c0.stop_flag == 0; }
static int got(void) { return taken() && in_left[0] > 0 && in_got; }
static int post_done(void) { return ctx.cmd_done && !ctx.busy && unit.request && (ctx.status & SNS_DEVEND) && (c0.status & ~ctx.status) == 0 && ctx.feed_done; }
static int post_last(void) { return IMP(last(), (ctx.status & SNS_UNITEXP) && !ctx.eof_flag) && IMP(!last(), !(ctx.status & ~c0.status & SNS_UNITEXP) && ctx.eof_flag == c0.eof_flag); }
static int post_check(void) { return last() || IFF((ctx.status & ~c0.status & SNS_UNITCHK), ctx.sense && !(c0.status & SNS_UNITCHK)); }
static int post_stack(void)       /* the card in the punch station goes into the selected stacker, whole */
{ return moves() && c0.pch_full ? n_stack == 1 && st_to == c0.stk_sel && st_k == in_pk : n_stack == 0; }
static int post_move(void)        /* the card just read moves to the punch station */
{
    if (!moves()) return ctx.pch_card[in_k] == in_pk && ctx.pch_full == c0.pch_full;
    if (c0.rdr_full) return ctx.pch_full && ctx.pch_card[in_k] == in_rk && IMP(c0.pch_full, ctx.pch_col == 0);
    return !ctx.pch_full;
}
static int post_take(void)        /* the next card comes from the hopper */
{
    if (!taken()) return n_get == 0;
    if (n_get != 1) return 0;
    return got() ? ctx.rdr_full && ctx.rdr_card[in_k] == in_ck : !ctx.rdr_full;
}
static int post_ready(void)
{
    int want = got() && (in_left[1] != 0 || eof());
    return IFF(ctx.rdy_flag, want) && IFF(ctx.sense & SENSE_INTERV, !want) && ((ctx.sense ^ c0.sense) & ~SENSE_INTERV) == 0;
}
static int post_column(void) { return IMP(moves(), ctx.rdr_col == 0 && ctx.stop_flag == 0) && idle(); }
static int post_count(void) { return IMP(taken(), ctx.hop_cnt == in_left[1]) && IMP(moves(), ctx.stk_cnt[0] == in_stk[0] && ctx.stk_cnt[1] == in_stk[1]); }
#define PRE (inv() && in_left[0] >= 0 && in_left[1] >= 0 && (ctx.eof_flag == 0 || ctx.eof_flag == 1) && IMP(!ctx.pch_full, ctx.pch_col == 0))
#define POSTS(X) X(post_inv()) X(post_done()) X(post_last()) X(post_check()) X(post_stack()) X(post_move()) X(post_take()) X(post_ready()) X(post_column()) X(post_count())
#define CALL feed_callback(&unit, NULL, 0)
#define COV VK_COVER(last(), "last card"); VK_COVER(got() && c0.pch_full && c0.rdr_full && c0.stk_sel == 1 && n_stack == 1, "cards move"); VK_COVER(!moves(), "hopper empty")
#elif VK_OP == 3
static int wr(void) { return (c0.cmd & 3) == 1; }
static int rd(void) { return (c0.cmd & 3) == 2; }
static int fd(void) { return wr() && (c0.cmd & 0x80) || rd(); }
static int post_end(void) { return ctx.data_end && (ctx.status & SNS_CHNEND) && (c0.status & ~ctx.status) == 0; }
static int post_cancel(void) { return x_read == rd() && x_write == wr() && x_feed == 0; }
static int post_feed(void) { return fd() ? sched(0, 0, 1) && ctx.busy == c0.busy && !(ctx.status & ~c0.status & SNS_DEVEND) && ctx.cmd == c0.cmd : idle(); }
static int post_done(void) { return !(wr() && !fd()) || (ctx.cmd_done && !ctx.busy && (ctx.status & SNS_DEVEND) && IFF(ctx.status & ~c0.status & SNS_UNITCHK, c0.sense && !(c0.status & SNS_UNITCHK))); }
static int post_cards(void) { return cards_same() && ctx.rdr_col == c0.rdr_col && ctx.pch_col == c0.pch_col && ctx.sense == c0.sense && ctx.data == c0.data; }
#define PRE (inv() && ctx.cmd >= 0 && ctx.cmd <= 0xff)
#define POSTS(X) X(post_inv()) X(post_end()) X(post_cancel()) X(post_feed()) X(post_done()) X(post_cards())
#define CALL device_stop(&unit)
#define COV VK_COVER(wr() && !fd(), "write without feed"); VK_COVER(rd(), "read")
#else
static int fn(void) { return in_cmd & 7; }
static int legal(void)
{
    if (fn() == 1 || fn() == 3) return !(in_cmd & 0x5c & ~7);
    if (fn() == 2) return !(in_cmd & 0xdc & ~7);
    return in_cmd == 4 || fn() == 0;
}
static int starts(void)           /* what gets going: 1 write 2 read 3 feed */
{
    if (!legal()) return 0;
    if (fn() == 1) return c0.pch_full ? 1 : 0;
    if (fn() == 2) return c0.rdy_flag ? 2 : 0;
    if (fn() == 3) return (in_cmd & 0x80) && c0.rdy_flag ? 3 : 0;
    return 0;
}
static int post_start(void)
{
    int s = starts();
    if (!sched(s == 2, s == 1, s == 3)) return 0;
    if (!s) return IMP(in_cmd != 4, ctx.cmd == 0) && ctx.busy == c0.busy;
    return ctx.busy && ctx.cmd == in_cmd && !ctx.cmd_done && ctx.status == (s == 3 ? SNS_CHNEND : 0) && IFF(ctx.data_end, s == 3) && IFF(ctx.data_rdy, s == 1);
}
static int post_stacker(void) { return ctx.stk_sel == (legal() && fn() >= 1 && fn() <= 3 ? (in_cmd >> 5) & 1 : c0.stk_sel); }
static int post_reject(void)
{
    if (legal()) return !(ctx.sense & ~c0.sense & SENSE_CMDREJ);
    return (ctx.sense & SENSE_CMDREJ) && ctx.status == (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK) && ctx.cmd == 0;
}
static int post_sense(void)
{
    if (in_cmd == 4) return ctx.data == c0.sense && ctx.sense == c0.sense && ctx.data_rdy && !ctx.data_end && !ctx.cmd_done && ctx.cmd == 4 && ctx.status == 0;
    if (fn() == 0) return ctx.sense == c0.sense && ctx.status == (c0.sense ? SNS_UNITCHK : 0) && !ctx.data_end && !ctx.cmd_done;
    return 1;
}
static int post_notready(void) { return IMP(legal() && (fn() == 2 || fn() == 3 && (in_cmd & 0x80)) && !c0.rdy_flag, (ctx.sense & SENSE_INTERV) && ctx.status == (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK)); }
static int post_fresh(void) { return IMP(legal() && fn() >= 1 && fn() <= 3, !(ctx.sense & ~SENSE_INTERV)); }
static int post_cards(void) { return cards_same() && ctx.rdr_col == c0.rdr_col && ctx.pch_col == c0.pch_col; }
#define PRE (inv() && !ctx.busy)
#define POSTS(X) X(post_inv()) X(post_start()) X(post_stacker()) X(post_reject()) X(post_sense()) X(post_notready()) X(post_fresh()) X(post_cards())
#define CALL device_cmd(&unit, in_cmd)
#define COV VK_COVER(starts() == 1, "write"); VK_COVER(starts() == 2, "read"); VK_COVER(starts() == 3, "feed"); VK_COVER(!legal(), "rejected")
#endif
int main(void)
{
    VK_LOAD();
    log_level = 0;
    n_read = n_write = n_feed = n_other = x_read = x_write = x_feed = n_time = n_stack = n_get = n_hol = n_ebc = 0; st_to = -1;
    unit.dev = &ctx; ctx.feed = &feedc; ctx.stack[0] = &stk0; ctx.stack[1] = &stk1;
    VK_ASSUME(in_k < 80 && inv());
    VK_PIN(ctx.pch_card[in_k], in_pk); VK_PIN(ctx.rdr_card[in_k], in_rk); VK_PIN(in_card[in_k], in_ck);
    rcol0 = ctx.rdr_card[ctx.rdr_col < 80 ? ctx.rdr_col : 0];
    u0 = unit; c0 = ctx;
    VK_RUN(CALL);
    COV;
    VK_REACHED("end");
    return 0;
}
