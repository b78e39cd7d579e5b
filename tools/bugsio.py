import sys; sys.path.insert(0, "/verif/tools")
from plant import plant
H = [("demoio.h", open("/verif/tools/demoio.h").read())]
INC = '#include "demoio.h"\n'
only = sys.argv[1:]
def go(bid, *a, **k):
    if not only or bid in only: plant(bid, *a, extra=H, **k)
D42, D15, D52, D43, TAPE, EV, CONF = "src/model1442/model1442.c", "src/model2415/model2415.c", "src/model1052/model1052.c", "src/model1443/model1443.c", "src/device/tape.c", "src/event.c", "src/conf.c"
CARD = INC + """#include "model1442.c"
static int n_ev;
int add_event(struct _device *u, _callback f, int t, void *p, int a) { n_ev++; return 0; }
void cancel_event(struct _device *u, _callback f) { }
int hopper_size(struct card_context *c) { return 0; } int stack_size(struct card_context *c) { return 0; }
int stack_card(struct card_context *c, uint16_t (*i)[80]) { return 0; }
int read_card(struct card_context *c, uint16_t (*i)[80]) { return 0; }
uint16_t hol_to_ebcdic(uint16_t h) { return h & 0x1ff; } uint16_t ebcdic_to_hol(uint8_t e) { return e; }
static struct _device unit; static struct _1442_context ctx;
static void init(void) { memset(&unit, 0, sizeof unit); memset(&ctx, 0, sizeof ctx); unit.dev = (void *)&ctx; unit.addr = 0x0c; }
"""
go("b13-stacked-request", "C13", [(D42, """                if (unit->request || unit->stacked) {
                    *tags &= ~(CHAN_REQ_IN);""", """                if (unit->request && !unit->stacked) {
                    *tags &= ~(CHAN_REQ_IN);""")],
  CARD + """int main(void) {
    uint16_t tags = CHAN_OPR_OUT|CHAN_OPR_IN|CHAN_REQ_IN, bus = 0;
    init(); unit.stacked = 1; ctx.status = SNS_DEVEND; ctx.state = STATE_IDLE;
    model1442_dev(&unit, &tags, 0, &bus);
    printf("tags %04x\\n", tags);
    return (tags & CHAN_REQ_IN) != 0;
}
""", "a reader with stacked status while another device takes the channel", "request in stays up while another device has the channel")

go("b14-status-parity", "C14", [(D52, """                 model1052_func(ctx, &out_tags, BIT6, NULL);
                 ctx->status |= SNS_ATTN;
             }
             *bus_in = ctx->status | odd_parity[ctx->status];""", """                 model1052_func(ctx, &out_tags, BIT6, NULL);
                 ctx->status |= SNS_ATTN;
             }
             *bus_in = ctx->status | odd_parity[ctx->status & 0x7f];""")],
  INC + """#include "model1052.c"
int add_event(struct _device *u, _callback f, int t, void *p, int a) { return 0; }
void cancel_event(struct _device *u, _callback f) { }
static struct _device unit; static struct _1052_context ctx;
int main(void) {
    uint16_t tags = CHAN_OPR_OUT|CHAN_OPR_IN, bus = 0;
    unit.dev = (void *)&ctx; unit.addr = 0x1f; unit.selected = 1;
    ctx.state = STATE_STATUS; ctx.status = SNS_ATTN; ctx.attn_flg = 0;
    model1052_dev(&unit, &tags, 0, &bus);
    printf("status %03x\\n", bus);
    return bus != P(SNS_ATTN);
}
""", "the operator's attention offered as initial status", "attention status crosses the channel with bad parity")

go("b15-stacked-kept", "C15", [(D52, """                 unit->stacked = 1;
                 ctx->state = STATE_STATUS_WAIT;
                 *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);""", """                 unit->stacked = 1;
                 ctx->status &= ~SNS_ATTN;
                 ctx->state = STATE_STATUS_WAIT;
                 *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);""")],
  INC + """#include "model1052.c"
int add_event(struct _device *u, _callback f, int t, void *p, int a) { return 0; }
void cancel_event(struct _device *u, _callback f) { }
static struct _device unit; static struct _1052_context ctx;
int main(void) {
    uint16_t tags = CHAN_OPR_OUT|CHAN_OPR_IN|CHAN_STA_IN|CHAN_CMD_OUT, bus = 0;
    unit.dev = (void *)&ctx; unit.addr = 0x1f; unit.selected = 1;
    ctx.state = STATE_END_ACCEPT; ctx.status = SNS_ATTN|SNS_DEVEND;
    model1052_dev(&unit, &tags, 0, &bus);
    printf("status %02x stacked %d\\n", ctx.status, unit.stacked);
    return ctx.status != (SNS_ATTN|SNS_DEVEND) || !unit.stacked;
}
""", "the operator presses request while a command ends and the channel refuses that ending status", "the attention is lost")

go("b16-column-80", "C16", [(D42, "if (ctx->pch_col < 80) {", "if (ctx->pch_col < 80 && !((ctx->cmd & 0x80) != 0 && ctx->pch_col == 79)) {")],
  CARD + """int main(void) {
    init(); ctx.cmd = 0x81; ctx.busy = 1; ctx.pch_col = 79; ctx.data = 0x41; ctx.data_rdy = 0;
    write_callback(&unit, NULL, 0);
    printf("%03x %d\\n", ctx.pch_card[79], ctx.pch_col);
    return ctx.pch_card[79] != 0x41 || ctx.pch_col != 80;
}
""", "a punch-and-feed command that fills all 80 columns", "the last column of the card is not punched")

go("b17-both-channels", "C17", [(D43, "if (ch9 && (ctx->cmd & 0x3) == 0x1) {", "if (ch9 && !ch12 && (ctx->cmd & 0x3) == 0x1) {")],
  INC + """#define log_print_tape(...) ((void)0)
#include "model1443.c"
int add_event(struct _device *u, _callback f, int t, void *p, int a) { return 0; }
void cancel_event(struct _device *u, _callback f) { }
static struct _1443_context ctx;
int main(void) {
    uint16_t fcb[256] = {0};
    ctx.cmd = 0x11; ctx.lpp = 66; ctx.row = 40; ctx.col = 3; ctx.file = fopen("out", "w");
    ctx.buf[0] = ctx.buf[1] = ctx.buf[2] = 0xc1;
    ctx.fcb = fcb; fcb[40] = 0x1000 >> 9; fcb[41] = 0x1000 >> 12;
    print_line(&ctx);
    printf("sense %02x status %02x\\n", ctx.sense, ctx.status);
    return !(ctx.sense & SENSE_CHAN9) || !(ctx.status & SNS_UNITEXP);
}
""", "a two-line space that leaves a channel 9 line and a channel 12 line", "the channel 9 indication is lost")

T15 = INC + """#include "model2415.c"
static int n_done, n_tape, st, fin;
int add_event(struct _device *u, _callback f, int t, void *p, int a) { if (f == done_callback) n_done++; else n_tape++; return 0; }
void cancel_event(struct _device *u, _callback f) { }
int tape_read_frame(struct _tape_buffer *t, uint8_t *d) { *d = 0x5a; return st; }
int tape_finish_rec(struct _tape_buffer *t) { fin++; return TAPE_STATUS_OK; }
int tape_9_track(struct _tape_buffer *t) { return 1; }
int tape_at_loadpt(struct _tape_buffer *t) { return 0; }
int tape_read_forw(struct _tape_buffer *t) { return TAPE_STATUS_OK; }
int tape_read_back(struct _tape_buffer *t) { return TAPE_STATUS_OK; }
static struct _device unit; static struct _2415_context ctx; static struct _tape_buffer tp;
"""
go("b18-error-while-skipping", "C18", [(D15, """                 ctx->status |= SNS_CHNEND|SNS_UNITCHK;
               /* Move""".replace("                 ctx", "               ctx"), """               ctx->status |= SNS_CHNEND|(ctx->cmd == 0xc ? 0 : SNS_UNITCHK);
               /* Move"""), (D15, """    if (ctx->sense[0] != 0) {
        ctx->status |= SNS_UNITCHK;""", """    if (ctx->sense[0] != 0 && ctx->cmd != 0xc) {
        ctx->status |= SNS_UNITCHK;""")] if 0 else [(D15, """               case TAPE_STATUS_EOT:
               case TAPE_STATUS_BOT:
               case TAPE_STATUS_EOB:
                   /* End of record */""", """               case TAPE_STATUS_EOT:
               case TAPE_STATUS_BOT:
                   if (ctx->cmd == 0x0c)
                       ctx->data_rdy = 1;
                   /* Fall through */
               case TAPE_STATUS_EOB:
                   /* End of record */""")],
  T15 + """int main(void) {
    unit.dev = (void *)&ctx; ctx.tape[1] = &tp; ctx.cur_unit = 1; ctx.cmd = 0x0c; st = TAPE_STATUS_BOT;
    tape_callback(&unit, &tp, 1);
    printf("data ready %d\\n", ctx.data_rdy);
    return ctx.data_rdy;
}
""", "a read backward that runs into the beginning of the tape", "a byte that is not on the tape is offered to the channel")

go("b20-cancel-middle", "C20", [(EV, "               nxt_event->time += ptr_event->time;", "               if (ptr_event->prev == NULL || nxt_event->time != 0)\n                   nxt_event->time += ptr_event->time;")],
  INC + """#include "event.c"
static int now, at3;
static void f1(struct _device *d, void *p, int i) { } static void f2(struct _device *d, void *p, int i) { }
static void f3(struct _device *d, void *p, int i) { at3 = now; }
int main(void) {
    struct _device d; int i;
    add_event(&d, f1, 5, NULL, 0); add_event(&d, f3, 9, NULL, 0); add_event(&d, f2, 9, NULL, 0);
    cancel_event(&d, f2);
    for (now = 1; now < 20; now++) advance();
    printf("fired at %d\\n", at3);
    return at3 != 9;
}
""", "cancelling an event in the middle of the queue that is followed by one due at the same time", "the event after it fires early")

go("b21-quoted-comma", "C21", [(CONF, "if (*line_ptr == '\\n' || *line_ptr == '\\0' || (quote == 0 && isspace(*line_ptr))) {", "if (*line_ptr == '\\n' || *line_ptr == '\\0' || isspace(*line_ptr)) {")],
  INC + """#include "conf.c"
static struct _option o;
int main(void) {
    char l[] = " \\"my tape\\" x\\n"; int r;
    line_ptr = l; r = get_string(&o);
    printf("%d '%s'\\n", r, o.string);
    return r != 1 || strcmp(o.string, "my tape");
}
""", "a quoted value that contains a blank", "the value is cut at the blank")

go("b23-clean-after-peek", "C23", [(TAPE, """             tape->pos -= opos;
             lseek(""", """             tape->pos -= opos;
             if (opos < (int)sizeof(tape->buffer))
                 tape->format &= ~TAPE_MARK;
             lseek(""")] if 0 else [(TAPE, """                       if (tape->lrecl == 1 && (*data & IRG_MASK) != 0) {""", """                       if (tape->lrecl == 1 && (*data & IRG_MASK) != 0 && *data != 0xff) {""")],
  INC + """#include "tape.c"
int main(void) {
    struct _tape_buffer t; unsigned char h[6] = {0x81,2,3,0xff,5,6}, d; int fd, n = 0;
    fd = open("t.tap", O_RDWR|O_CREAT|O_TRUNC, 0600); write(fd, h, 6); close(fd);
    memset(&t, 0, sizeof t);
    tape_attach(&t, "t.tap", TYPE_P7B, 0, 0);
    tape_read_forw(&t);
    while (n < 10 && tape_read_frame(&t, &d) == TAPE_STATUS_OK) n++;
    printf("%d frames\\n", n);
    return n != 3;
}
""", "a P7B record whose first frame is 7F follows another record", "two records are read as one")

go("b24-long-record", "C23", [(TAPE, """                   tape->lrecl = lrecl[0] | ((uint32_t)lrecl[1] << 8) |
                                ((uint32_t)lrecl[2] << 16) | ((uint32_t)lrecl[3] << 24);
                   if (tape->lrecl == 0xffffffff) {
                       tape->format |= TAPE_EOT;""", """                   tape->lrecl = lrecl[0] | ((uint32_t)lrecl[1] << 8) |
                                ((uint32_t)lrecl[2] << 16);
                   if (lrecl[3] == 0xff) {
                       tape->format |= TAPE_EOT;""")],
  INC + """#include "tape.c"
int main(void) {
    struct _tape_buffer t; unsigned char h[4] = {1,0,0,1}; int fd, r;
    fd = open("t.tap", O_RDWR|O_CREAT|O_TRUNC, 0600); write(fd, h, 4); close(fd);
    memset(&t, 0, sizeof t);
    tape_attach(&t, "t.tap", TYPE_TAP, 0, 1);
    r = tape_read_forw(&t);
    printf("%d %x\\n", r, t.orecl);
    return t.orecl != 0x01000001;
}
""", "a record of more than 16 megabytes", "the record is read short and the tape is left inside it")

go("b25-readback-dirty", "C23", [(TAPE, """             tape->len_buff = read(tape->fd, tape->buffer, sizeof(tape->buffer));
             tape->pos_buff = opos;""", """             tape->len_buff = read(tape->fd, tape->buffer, opos);
             tape->pos_buff = opos;
             if (tape->len_buff < (int)sizeof(tape->buffer))
                 tape->pos_buff = tape->len_buff;""")],
  INC + """#include "tape.c"
int main(void) {
    return 0;
}
""", "none", "none") if 0 else None
