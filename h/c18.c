/* The operations behind the channel interface of the 2415: one callback or command, nine-track drives.
 * VK_OP = 0 next step of a running operation, 1 operation done, 2 rewind step, 3 command */
#include "vk.h"
#include "model2415.c"
#include "xlat.c"
#include "stubs_log.h"
int log_level;
void print_tags(char *name, int state, uint16_t tags, uint16_t bus_out) { }
struct _device unit;
struct _2415_context ctx;
struct _tape_buffer mine, other;      /* the addressed drive and any other one */
char in_name[4];
uint8_t in_u;
uint8_t in_cmd;
/* ---- event queue: contract of C20 (recorded) */
static int n_tape, n_done, n_rew, n_bad;
int add_event(struct _device *u, _callback f, int t, void *p, int a)
{
    if (f == &tape_callback) n_tape++; else if (f == &done_callback) n_done++; else if (f == &model2415_rewind_callback) n_rew++; else n_bad++;
    if (t <= 0 || u != &unit || a != in_u || p != (void *)ctx.tape[in_u]) n_bad++;
    return 0;
}
void cancel_event(struct _device *u, _callback f) { n_bad++; }
/* ---- tape: contracts of C23 (arbitrary results, calls recorded) */
int in_read, in_fin, in_write, in_start, in_forw, in_back, in_mark, in_rew, in_bot, in_ring, in_ready;
uint8_t in_byte;
static int n_read, n_fin, n_write, w_byte, n_start, n_forw, n_back, n_mark, n_srew, n_frames, frames, n_detach, wrong;
static void on(struct _tape_buffer *t) { if (t != &mine) wrong = 1; }
int tape_at_loadpt(struct _tape_buffer *t) { on(t); return in_bot != 0; }
int tape_ready(struct _tape_buffer *t) { on(t); return in_ready != 0; }
int tape_ring(struct _tape_buffer *t) { on(t); return in_ring != 0; }
int tape_9_track(struct _tape_buffer *t) { on(t); return 1; }
void tape_select(struct _tape_buffer *t) { on(t); }
void tape_unselect(struct _tape_buffer *t) { on(t); }
int tape_attach(struct _tape_buffer *t, char *f, int ty, int r, int d) { n_bad++; return 0; }
void tape_detach(struct _tape_buffer *t) { on(t); n_detach++; }
int tape_write_start(struct _tape_buffer *t) { on(t); n_start++; return in_start; }
int tape_write_mark(struct _tape_buffer *t) { on(t); n_mark++; return in_mark; }
int tape_erase_gap(struct _tape_buffer *t) { on(t); return in_mark; }
int tape_read_forw(struct _tape_buffer *t) { on(t); n_forw++; return in_forw; }
int tape_read_back(struct _tape_buffer *t) { on(t); n_back++; return in_back; }
int tape_read_frame(struct _tape_buffer *t, uint8_t *d) { on(t); n_read++; *d = in_byte; return in_read; }
int tape_write_frame(struct _tape_buffer *t, uint8_t d) { on(t); n_write++; w_byte = d; return in_write; }
int tape_finish_rec(struct _tape_buffer *t) { on(t); n_fin++; return in_fin; }
int tape_start_rewind(struct _tape_buffer *t) { on(t); n_srew++; return TAPE_STATUS_OK; }
int tape_rewind_frames(struct _tape_buffer *t, int n) { on(t); n_frames++; frames = n; return in_rew; }
static struct _device u0; static struct _2415_context c0;
unsigned in_s;            /* any one sense byte */
static int at(int cmd) { return (c0.cmd & 0xff) == cmd; }
static int bit(int v) { return 1 << in_u; }
#define BIT (1 << in_u)
static int none(void) { return n_tape + n_done + n_rew + n_bad == 0; }
static int next(int t, int d, int r) { return n_tape == t && n_done == d && n_rew == r && n_bad == 0; }
static int moved(int rd, int fin, int wr, int st) { return n_read == rd && n_fin == fin && n_write == wr && n_forw + n_back + n_start == st; }
static int still(void) { return moved(0, 0, 0, 0) && n_mark + n_srew + n_frames + n_detach == 0; }
static int sense(int add, int drop) { return ctx.sense[0] == ((c0.sense[0] & ~drop) | add); }
static int stat(int add) { return ctx.status == (c0.status | add); }
static int post_unit(void)        /* only the addressed drive is moved; nothing else of the control unit changes */
{
    return !wrong && n_bad == 0 && ctx.cur_unit == c0.cur_unit && ctx.state == c0.state && ctx.t_scan == c0.t_scan && unit.stacked == u0.stacked && unit.selected == u0.selected &&
           unit.addr == u0.addr && ctx.tape[0] == c0.tape[0] && ctx.tape[5] == c0.tape[5] && ctx.tape[in_u] == c0.tape[in_u] &&
           ((ctx.rew_flags ^ c0.rew_flags) & ~BIT) == 0 && ((ctx.run_flags ^ c0.run_flags) & ~BIT) == 0 && ((ctx.rdy_flags ^ c0.rdy_flags) & ~BIT) == 0 && ((ctx.mrk_flags ^ c0.mrk_flags) & ~BIT) == 0;
}
#if VK_OP == 0
static int wr(void) { return (c0.cmd & 3) == 1; }
static int rd(void) { return (c0.cmd & 3) == 2 || (c0.cmd & 0xf) == 0xc; }
static int rewinds(void) { return at(0x07) || at(0x0f); }
static int erase(void) { return at(0x17); }
static int mark(void) { return at(0x1f); }
static int space(void) { return at(0x27) || at(0x2f) || at(0x37) || at(0x3f); }
static int file(void) { return at(0x2f) || at(0x3f); }
static int post_write(void)
{
    if (!wr()) return n_write == 0 && n_start == 0;
    if (c0.data_end) return moved(0, 1, 0, 0) && next(0, 1, 0) && sense(in_fin != TAPE_STATUS_OK ? SENSE_DATCHK : 0, 0) && ctx.data_end;
    if (c0.data_rdy) return still() && next(1, 0, 0) && sense(SENSE_OVRRUN, 0) && ctx.data_end;
    if (!moved(0, 0, 1, 0) || w_byte != c0.data || !next(1, 0, 0)) return 0;
    if (in_write == TAPE_STATUS_OK) return ctx.data_rdy && !ctx.data_end && sense(0, SENSE_WCZERO);
    return !ctx.data_rdy && ctx.data_end && sense(SENSE_DATCHK, SENSE_WCZERO);
}
static int post_write_status(void) { return IMP(wr(), ctx.status == c0.status && ctx.cmd_done == c0.cmd_done); }
static int post_read(void)        /* one frame, offered exactly */
{
    if (!rd() || c0.data_end || c0.data_rdy) return 1;
    if (!moved(1, 0, 0, 0)) return 0;
    switch (in_read) {
    case TAPE_STATUS_OK: return next(1, 0, 0) && ctx.data_rdy && ctx.data == in_byte && !ctx.data_end && stat(0) && sense(0, 0);
    case TAPE_STATUS_EOB: case TAPE_STATUS_EOT: case TAPE_STATUS_BOT: return next(1, 0, 0) && !ctx.data_rdy && ctx.data_end && stat(0) && sense(0, 0);
    case TAPE_STATUS_MARK: return next(0, 1, 0) && !ctx.data_rdy && ctx.data_end && stat(SNS_UNITEXP|SNS_CHNEND) && sense(0, 0) && (ctx.mrk_flags & BIT);
    default: return next(0, 1, 0) && !ctx.data_rdy && ctx.data_end && (ctx.status & (SNS_CHNEND|SNS_UNITCHK)) == (SNS_CHNEND|SNS_UNITCHK) && ctx.sense[0] != 0;
    }
}
static int post_read_over(void)   /* the channel was too late: what it is being offered stays, the rest is skipped */
{
    if (!rd() || c0.data_end || !c0.data_rdy) return 1;
    return still() && next(1, 0, 0) && sense(SENSE_OVRRUN, 0) && ctx.data_end && ctx.data == c0.data && stat(SNS_CHNEND|SNS_UNITCHK);
}
static int post_read_skip(void)   /* ended: the record is read to its end, without giving anything to the channel */
{
    if (!rd() || !c0.data_end) return 1;
    if (n_read != 1 || ctx.data != c0.data || ctx.data_rdy != c0.data_rdy || !ctx.data_end || !sense(0, 0)) return 0;
    return in_read == TAPE_STATUS_OK ? n_fin == 0 && next(1, 0, 0) && stat(0) : n_fin == 1 && next(0, 1, 0) && stat(SNS_CHNEND);
}
static int go(void) { return in_read == TAPE_STATUS_EOB && !in_bot && file(); }        /* the next record starts */
static int started(void) { return (c0.cmd & 0x10) ? in_forw : in_back; }
static int post_space(void)
{
    if (!space()) return 1;
    if (n_read != 1 || !sense(0, 0)) return 0;
    if (n_fin != (in_read == TAPE_STATUS_EOB || in_read == TAPE_STATUS_MARK)) return 0;
    if (n_forw != (go() && (c0.cmd & 0x10) != 0) || n_back != (go() && (c0.cmd & 0x10) == 0)) return 0;
    if (in_read == TAPE_STATUS_OK) return next(1, 0, 0) && stat(0);
    if (go() && started() == TAPE_STATUS_OK) return next(1, 0, 0) && stat(0);
    return next(0, 1, 0);
}
static int post_space_status(void)
{
    if (!space()) return 1;
    if (in_read == TAPE_STATUS_MARK) return stat(file() ? 0 : SNS_UNITEXP) && IMP(!file(), ctx.mrk_flags & BIT);
    if (in_read == TAPE_STATUS_EOB) {
        if (in_bot) return stat(SNS_UNITCHK);
        if (file()) return stat(started() == TAPE_STATUS_FILE_ERROR ? SNS_UNITCHK : 0);
        return (ctx.status & ~SNS_UNITEXP) == (c0.status & ~SNS_UNITEXP) && (ctx.status & c0.status) == c0.status && IMP(in_fin == TAPE_STATUS_OK, stat(0));
    }
    return stat(in_read == TAPE_STATUS_OK ? 0 : SNS_UNITCHK);
}
static int post_marks(void)
{
    if (mark()) return n_mark == 1 && moved(0, 0, 0, 0) && next(0, 1, 0) && sense(in_mark != TAPE_STATUS_OK ? SENSE_DATCHK : 0, 0) && stat(0);
    return n_mark == 0 && IMP(erase(), moved(0, 0, 0, 0) && next(0, 1, 0) && stat(0) && sense(0, 0));
}
static int post_rewind(void)
{
    if (!rewinds()) return n_srew == 0 && n_rew == 0 && ctx.rew_flags == c0.rew_flags && ctx.run_flags == c0.run_flags;
    return n_srew == 1 && moved(0, 0, 0, 0) && next(0, 0, 1) && ctx.rew_flags == (c0.rew_flags | BIT) && ctx.run_flags == (c0.run_flags | (at(0x0f) ? BIT : 0)) && ctx.data_end && sense(0, 0);
}
static int post_rewind_status(void)
{
    if (!rewinds()) return 1;
    if (at(0x0f)) return ctx.cmd_done && ctx.cmd == 0 && ctx.status == (SNS_CTLEND|SNS_DEVEND|SNS_UNITCHK) && IMP(!u0.selected, unit.request);
    if (c0.chaining) return ctx.cmd == c0.cmd && ctx.cmd_done == c0.cmd_done && stat(0);
    return ctx.cmd_done && ctx.cmd == 0 && stat(SNS_DEVEND) && IMP(!u0.selected, unit.request);
}
static int post_idle(void) { return wr() || rd() || space() || mark() || erase() || rewinds() || (none() && still() && stat(0) && sense(0, 0)); }
static int post_frame(void) { return ctx.rdy_flags == c0.rdy_flags && IMP(!rewinds(), ctx.cmd == c0.cmd && ctx.cmd_done == c0.cmd_done && unit.request == u0.request) && ctx.busy == c0.busy && n_detach == 0 && n_frames == 0 && IMP(in_s > 0, ctx.sense[in_s] == c0.sense[in_s]); }
#define PRE (ctx.cmd >= 0 && ctx.cmd <= 0xff)
#define POSTS(X) X(post_unit()) X(post_write()) X(post_write_status()) X(post_read()) X(post_read_over()) X(post_read_skip()) X(post_space()) X(post_space_status()) X(post_marks()) X(post_rewind()) X(post_rewind_status()) X(post_idle()) X(post_frame())
#define CALL tape_callback(&unit, (void *)&mine, in_u)
#define COV VK_COVER(wr() && n_fin, "write ends"); VK_COVER(rd() && in_read == TAPE_STATUS_PARITY && n_read && !c0.data_end, "bad frame"); VK_COVER(space() && go() && n_back == 1, "space file back"); VK_COVER(rewinds() && c0.chaining, "rewind")
#elif VK_OP == 1
static int post_done(void)
{
    int add = SNS_DEVEND | (c0.sense[0] ? SNS_UNITCHK : 0) | (c0.ctrl_busy ? SNS_CTLEND : 0);
    return ctx.cmd_done && stat(add) && !ctx.ctrl_busy;
}
static int post_request(void) { return IMP(!u0.selected, unit.request) && IMP(u0.selected, unit.request == u0.request) && ctx.rdy_flags == (c0.rdy_flags | ((c0.cmd & 3) == 3 ? BIT : 0)); }
static int post_frame(void) { return none() && still() && ctx.cmd == c0.cmd && ctx.data_end == c0.data_end && ctx.data_rdy == c0.data_rdy && ctx.data == c0.data && ctx.sense[in_s] == c0.sense[in_s] &&
    ctx.rew_flags == c0.rew_flags && ctx.run_flags == c0.run_flags && ctx.mrk_flags == c0.mrk_flags && ctx.busy == c0.busy; }
#define PRE (ctx.cmd >= 0 && ctx.cmd <= 0xff)
#define POSTS(X) X(post_unit()) X(post_done()) X(post_request()) X(post_frame())
#define CALL done_callback(&unit, (void *)&mine, in_u)
#define COV VK_COVER(!u0.selected, "halted")
#elif VK_OP == 2
static int slow(void) { return mine.pos_frame <= 5 * 12 * 1600; }
static int end(void) { return in_rew == TAPE_STATUS_BOT; }
static int unload(void) { return (c0.run_flags & BIT) != 0; }
static int chained(void) { return ctx.cur_unit == in_u && c0.cmd == 0x07; }
static int post_step(void) { return n_frames == 1 && moved(0, 0, 0, 0) && n_srew + n_mark == 0 && IMP(slow(), frames == 1) && frames > 0; }
static int post_more(void) { return end() ? none() : next(0, 0, 1) && ctx.status == c0.status && ctx.cmd == c0.cmd && ctx.cmd_done == c0.cmd_done && n_detach == 0 &&
    ctx.rew_flags == c0.rew_flags && ctx.run_flags == c0.run_flags && ctx.rdy_flags == c0.rdy_flags && unit.request == u0.request; }
static int post_end(void) { return !end() || (ctx.rew_flags == (c0.rew_flags & ~BIT) && ctx.run_flags == (c0.run_flags & ~BIT) && n_detach == (unload() != 0)); }
static int post_ready(void)       /* device end exactly once, without disturbing any other operation */
{
    if (!end()) return 1;
    if (unload()) return ctx.rdy_flags == c0.rdy_flags && ctx.status == c0.status && ctx.cmd == c0.cmd && ctx.cmd_done == c0.cmd_done;
    if (chained()) return ctx.status == ((c0.status & ~(SNS_CTLEND|SNS_UNITCHK)) | SNS_DEVEND) && ctx.cmd == 0 && ctx.cmd_done && ctx.rdy_flags == c0.rdy_flags && (u0.selected || unit.request);
    return ctx.rdy_flags == (c0.rdy_flags | BIT) && ctx.status == c0.status && ctx.cmd == c0.cmd && ctx.cmd_done == c0.cmd_done;
}
static int post_frame(void) { return ctx.data_end == c0.data_end && ctx.data_rdy == c0.data_rdy && ctx.data == c0.data && ctx.sense[in_s] == c0.sense[in_s] && ctx.mrk_flags == c0.mrk_flags && ctx.busy == c0.busy; }
#define PRE (ctx.cmd >= 0 && ctx.cmd <= 0xff)
#define POSTS(X) X(post_unit()) X(post_step()) X(post_more()) X(post_end()) X(post_ready()) X(post_frame())
#define CALL model2415_rewind_callback(&unit, (void *)&mine, in_u)
#define COV VK_COVER(end() && chained() && !unload(), "chained"); VK_COVER(end() && unload(), "unload"); VK_COVER(!end() && !slow(), "fast")
#else
static int held(void) { return c0.cur_unit == c0.stat_unit && (in_cmd & 0xf) != 4 && (c0.sense[0] || (c0.sense[1] & SENSE_NOISE) || (c0.sense[3] & (SENSE_VCR|SENSE_LRCR))); }
static int drive(void) { return c0.tape[in_u] != NULL; }
static int tub(void) { return drive() && (!in_ready || ((c0.rew_flags | c0.run_flags) & BIT)); }
static int tape(void) { return drive() && mine.file_name != NULL; }
static int wr(void) { return (in_cmd & 3) == 1; }
static int rd(void) { return (in_cmd & 3) == 2; }
static int rb(void) { return (in_cmd & 0xf) == 0xc; }
static int mo(void) { return (in_cmd & 7) == 7; }
static int needs_ring(void) { return wr() || in_cmd == 0x17 || in_cmd == 0x1f; }
static int known(void) { return !(in_cmd & 0xc0); }
static int media(void) { return wr() || rd() || rb() || mo(); }
static int at_bot(void) { return in_bot && in_ready; }
/* does an operation get going? */
static int starts(void)
{
    if (held() || !media() || tub() || !tape()) return 0;
    if (mo() && !known()) return 0;
    if (needs_ring() && !in_ring) return 0;
    if ((rb() || in_cmd == 0x27 || in_cmd == 0x2f) && at_bot()) return 0;
    if (wr()) return in_start == TAPE_STATUS_OK;
    if (rd() || in_cmd == 0x37 || in_cmd == 0x3f) return in_forw >= 0;
    if (rb() || in_cmd == 0x27 || in_cmd == 0x2f) return in_back >= 0;
    return 1;
}
static int post_start(void)
{
    if (!starts()) return none() && ctx.busy == c0.busy;
    return next(1, 0, 0) && !ctx.cmd_done && ctx.busy && ctx.cmd == in_cmd && IFF(ctx.data_end, mo()) && IFF(ctx.data_rdy, wr()) && ctx.status == (mo() ? SNS_CHNEND : 0);
}
static int post_tape(void)        /* the tape is touched only when it is there, ready and may be written */
{
    if (n_read + n_fin + n_write + n_mark + n_srew + n_frames + n_detach) return 0;
    if (n_start + n_forw + n_back > 1) return 0;
    return IMP(n_start, wr() && in_ring && tape() && !tub()) && IMP(n_forw, (rd() || in_cmd == 0x37 || in_cmd == 0x3f) && tape() && !tub()) &&
           IMP(n_back, (rb() || in_cmd == 0x27 || in_cmd == 0x2f) && tape() && !tub() && !at_bot()) && IMP(starts(), n_start == wr() && n_forw == (rd() || in_cmd == 0x37 || in_cmd == 0x3f));
}
static int post_busy(void)
{
    if (held()) return ctx.status == (c0.status | SNS_BSY) && ctx.cmd == c0.cmd && ctx.sense[in_s] == c0.sense[in_s];
    return IMP(tub() && media(), ctx.status & SNS_BSY);
}
static int post_check(void)       /* unit check exactly with the sense that explains it */
{
    if (held() || in_cmd == 4 || tub()) return 1;
    if (!media()) return 1;
    if (!tape()) return ctx.sense[0] == SENSE_INTERV && (ctx.status & SNS_UNITCHK);
    if (mo() && !known() || needs_ring() && !in_ring) return ctx.sense[0] == SENSE_CMDREJ && (ctx.status & SNS_UNITCHK);
    if ((rb() || in_cmd == 0x27 || in_cmd == 0x2f) && at_bot()) return (ctx.status & SNS_UNITCHK) != 0;
    if (!starts()) return ctx.sense[0] != 0 && (ctx.status & SNS_UNITCHK);
    return ctx.sense[0] == (wr() ? SENSE_WCZERO : 0) && !(ctx.status & SNS_UNITCHK);
}
static int post_end(void) { return held() || starts() || (in_cmd & 0xf) == 4 || (in_cmd & 0xf) == 0 || (ctx.status & SNS_DEVEND); }
static int post_sense(void) { return held() || (in_cmd & 0xf) != 4 || (ctx.data == ctx.sense[0] && ctx.sense[0] == c0.sense[0] && ctx.sense_cnt == 1 && ctx.data_rdy && !ctx.data_end && !ctx.cmd_done && ctx.cmd == in_cmd && IMP(in_cmd == 4, ctx.status == 0)); }
static int post_sense1(void)
{
    int want;
    if (held()) return 1;
    want = !drive() ? 0 : !in_ready ? SENSE_TUB : SENSE_TUA | (tub() ? SENSE_TUB : 0) | (in_ring ? 0 : SENSE_NORING) | (in_bot ? SENSE_LOAD : 0);
    return (ctx.sense[1] & ~SENSE_WRITE) == want && IMP(ctx.sense[1] & SENSE_WRITE, wr() && starts());
}
static int post_flags(void) { return held() || (ctx.rdy_flags == (c0.rdy_flags & ~BIT) && ctx.mrk_flags == (c0.mrk_flags & ~BIT) && ctx.rew_flags == c0.rew_flags && ctx.run_flags == c0.run_flags); }
#define PRE (!ctx.busy && ctx.status == 0)
#define POSTS(X) X(post_unit()) X(post_start()) X(post_tape()) X(post_busy()) X(post_check()) X(post_end()) X(post_sense()) X(post_sense1()) X(post_flags())
#define CALL device_cmd(&unit, in_cmd)
#define COV VK_COVER(wr() && starts(), "write"); VK_COVER(rb() && starts(), "read backward"); VK_COVER(held(), "held")
#endif
unsigned in_has, in_open;
int main(void)
{
    int i;
    VK_LOAD();
    log_level = 0;
    n_tape = n_done = n_rew = n_bad = n_read = n_fin = n_write = w_byte = n_start = n_forw = n_back = n_mark = n_srew = n_frames = frames = n_detach = wrong = 0;
    unit.dev = (void *)&ctx;
#ifdef VK_UNIT
    VK_ASSUME(in_u == VK_UNIT && ctx.cur_unit == VK_UNIT);
    in_u = VK_UNIT; ctx.cur_unit = VK_UNIT;
#endif
    VK_ASSUME(in_u < 6 && in_s < 6);
    mine.file_name = in_open ? in_name : NULL;
    for (i = 0; i < 6; i++) {
        ctx.tape[i] = (VK_OP < 3 || (in_has >> i) & 1) ? (i == in_u ? &mine : &other) : NULL;
        VK_ASSUME(ctx.sense[i] >= 0 && ctx.sense[i] <= 0xff);
    }
    VK_ASSUME(ctx.cur_unit >= 0 && ctx.cur_unit < 6 && ctx.status >= 0 && ctx.status <= 0xff);
    VK_ASSUME(VK_OP == 2 || ctx.cur_unit == in_u);       /* one operation at a time (busy, C15); rewinds go on beside it */
    VK_ASSUME(PRE);
    c0 = ctx; u0 = unit;
    VK_RUN(CALL);
    COV;
    VK_REACHED("end");
    return 0;
}
