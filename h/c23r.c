/* Tape records over the byte contracts proved in c23.c: the byte functions are replaced by their contracts on a tape that
 * is followed at every byte the call touches. VK_OP = 0 write_start 1 write_frame 2 write_mark 3 finish after write/mark
 * 4 read_forw 5 read_frame 6 finish after read 7 read_back 8 read_frame backward 9 finish after read backward 10 rewind_frames
 * VK_FMT = 0 TAP 1 E11 2 P7B */
#include "config.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <unistd.h>
#include <fcntl.h>
#define __NO_CTYPE
#include "vk.h"
#include "tape.h"
#define FIN (VK_OP == 3 || VK_OP == 6 || VK_OP == 9)
#define FWD (VK_OP <= 6)
#define P7 (VK_FMT == TYPE_P7B)
static int tape_read_byte(struct _tape_buffer *, uint8_t *), tape_peek_byte(struct _tape_buffer *, uint8_t *), tape_readbk_byte(struct _tape_buffer *, uint8_t *);
static int tape_write_byte(struct _tape_buffer *, uint8_t), tape_write_prev(struct _tape_buffer *, uint8_t);
#if FIN
#include "tape_f.c"
#else
#include "tape_b.c"
#endif
#include "xlat.c"
#include "stubs_log.h"
int log_level;
#ifndef VK_NATIVE
#undef isprint
int isprint(int c) { return c >= 32 && c < 127; }
#endif
struct _tape_buffer tp;
char in_name[4];
unsigned in_open;
uint8_t in_b[16];            /* what the tape holds at the bytes looked at, in the order they are looked at */
unsigned in_err;             /* the file fails from this byte on */
long in_size; uint8_t in_data; int in_frames;
unsigned in_jump; uint32_t in_k;
static long base;                                                  /* in_b and w_v follow the tape from base - 8 to base + 7 */
static uint8_t w_v[16], w_p[8]; static int w_s, w_ps, n_w;         /* bytes written there, and behind srec */
static int n_ops, n_bad, n_fail, n_eot, n_bot, n_frame, n_look; static long size; static int last, next;   /* the byte just read, and just read back, are still in the window */
static struct { long at, pos_frame, srec, size; int format, parity; uint32_t lrecl, orecl; char *name; } c0;
static long at(void) { return tp.pos + tp.pos_buff; }
/* positions are named relative to base: rel is where the tape is, checked against the tape's own count at every byte */
static int rel;
static long pos(int d) { return base + d; }
static int orig(int d) { return d >= -8 && d < 8 && pos(d) >= 0 && pos(d) < c0.size ? in_b[d + 8] : -1; }
static int wrote(int d) { return d >= -8 && d < 8 && (w_s >> (d + 8) & 1) ? w_v[d + 8] : -1; }
static void step(int k) { tp.pos += k; rel += k; }
static void here(void) { if (at() != pos(rel)) n_bad++; }
static uint8_t look(void)
{
    n_look++;
    if (rel < -8 || rel >= 8) { n_bad++; return 0; }
    return w_s >> (rel + 8) & 1 ? w_v[rel + 8] : in_b[rel + 8];
}
static int fails(struct _tape_buffer *t)
{
    if (t != &tp) n_bad++;
    here();
    if (tp.file_name == NULL || (unsigned)n_ops++ >= in_err) { n_fail++; return 1; }
    return 0;
}
/* the byte contracts (c23.c) */
static int tape_read_byte(struct _tape_buffer *t, uint8_t *d)
{
    if (tp.format & TAPE_BOT) n_bad++;
    if (rel == next ? t != &tp || at() != pos(rel) : fails(t)) return TAPE_STATUS_FILE_ERROR;
    if (pos(rel) >= size) { n_eot++; tp.format |= TAPE_EOT; return TAPE_STATUS_EOT; }
    *d = look(); step(1); last = rel; next = 99;
    return TAPE_STATUS_OK;
}
static int tape_peek_byte(struct _tape_buffer *t, uint8_t *d)
{
    if (tp.format & TAPE_BOT) n_bad++;
    if (fails(t)) return TAPE_STATUS_FILE_ERROR;
    if (pos(rel) >= size) { n_eot++; return TAPE_STATUS_EOT; }
    *d = look();
    return TAPE_STATUS_OK;
}
static void put(uint8_t v) { n_w++; if (rel < -8 || rel >= 8) { n_bad++; return; } w_v[rel + 8] = v; w_s |= 1 << (rel + 8); }
static int tape_write_byte(struct _tape_buffer *t, uint8_t v)
{
    if (tp.format & TAPE_BOT) n_bad++;
    if (fails(t)) return TAPE_STATUS_FILE_ERROR;
    put(v); step(1);
    if (pos(rel) > size) size = pos(rel);
    return TAPE_STATUS_OK;
}
static int tape_write_prev(struct _tape_buffer *t, uint8_t v)
{
    if (tp.srec < 0 || tp.srec >= at()) n_bad++;
    if (fails(t)) return TAPE_STATUS_FILE_ERROR;
    if (tp.srec >= c0.srec && tp.srec < c0.srec + 8) { w_p[tp.srec - c0.srec] = v; w_ps |= 1 << (tp.srec - c0.srec); n_w++; } else n_bad++;
    tp.srec++;
    return TAPE_STATUS_OK;
}
static int tape_readbk_byte(struct _tape_buffer *t, uint8_t *d)
{
    if (rel == last ? t != &tp || at() != pos(rel) : fails(t)) return TAPE_STATUS_FILE_ERROR;
    if (pos(rel) <= 0) { n_bot++; tp.format |= TAPE_BOT; return TAPE_STATUS_BOT; }
    step(-1); *d = look(); last = 99; next = rel;
    return TAPE_STATUS_OK;
}
static int func(void) { return (tp.format >> FUNC_V) & FUNC_M; }
static long s_at, s_srec; static uint32_t s_lrecl, s_orecl; static int s_format;
#if FIN
/* the frame contract (units frame and frameb). In the middle of a skip: any number of frames, then one more, must leave
 * the skip where that one left it */
int tape_read_frame(struct _tape_buffer *t, uint8_t *d)
{
    int r, f = (tp.format >> FUNC_V) & FUNC_M, back = f == FUNC_RDBACK; uint8_t b = 0;
    if (t != &tp || (tp.format & TAPE_MARK) || (f != FUNC_READ && f != FUNC_RDBACK)) n_bad++;
    if (n_frame++ == 0) {
        if (in_jump) {
            if (P7) { VK_ASSUME(tp.lrecl != 2); if (in_k) tp.lrecl = 1; }
            else { VK_ASSUME(in_k < (back ? tp.lrecl : tp.orecl - tp.lrecl)); tp.lrecl += back ? -in_k : in_k; }
            VK_ASSUME(back ? at() > in_k : at() + in_k <= size);
            tp.pos += back ? -(long)in_k : (long)in_k;
            base = at(); last = next = 99;
        }
    } else if (in_jump) {
        if (at() != s_at || tp.srec != s_srec || tp.lrecl != s_lrecl || tp.orecl != s_orecl || tp.format != s_format) n_bad++;
        VK_ASSERT(n_bad == 0, "post_skip()");
        VK_ASSUME(0);
    }
    if (P7 ? tp.lrecl == 2 : back ? tp.lrecl == 0 : tp.lrecl >= tp.orecl) return TAPE_STATUS_EOB;
    r = back ? tape_readbk_byte(t, &b) : tape_read_byte(t, &b);
    if (P7) {
        if (r != TAPE_STATUS_OK) tp.lrecl = 2;
        else if (back) { *d = b & 0x7f; tp.lrecl = b & 0x80 ? 2 : 1; }
        else if (tp.lrecl == 1 && (b & 0x80)) { tape_readbk_byte(t, &b); tp.lrecl = 2; r = TAPE_STATUS_EOB; }
        else { *d = b & 0x7f; tp.lrecl = 1; }
    } else { if (r == TAPE_STATUS_OK) *d = b; tp.lrecl += back ? -1 : 1; }
    s_at = at(); s_srec = tp.srec; s_lrecl = tp.lrecl; s_orecl = tp.orecl; s_format = tp.format;
    return r;
}
#endif
static int r; static uint8_t out;
static int le(int p, int (*f)(int), uint32_t v) { return f(p) == (int)(v & 0xff) && f(p + 1) == (int)(v >> 8 & 0xff) && f(p + 2) == (int)(v >> 16 & 0xff) && f(p + 3) == (int)(v >> 24); }
static int whead(int p) { return w_ps >> p & 1 ? w_p[p] : -1; }
static int has4(int p) { return orig(p) >= 0 && orig(p + 1) >= 0 && orig(p + 2) >= 0 && orig(p + 3) >= 0; }
static uint32_t val(int p) { return (uint32_t)orig(p) | (uint32_t)orig(p + 1) << 8 | (uint32_t)orig(p + 2) << 16 | (uint32_t)orig(p + 3) << 24; }
static int pad(uint32_t n) { return VK_FMT == TYPE_TAP && (n & 1); }
static int post_sound(void) { here(); return n_bad == 0; }
static int post_error(void) { return IFF(r == TAPE_STATUS_FILE_ERROR, n_fail || !c0.name) && IMP(!c0.name, at() == c0.at && n_w == 0 && tp.format == c0.format); }
#define OKAY (r == TAPE_STATUS_OK)
#define BITS(m) (((tp.format ^ c0.format) & ~(m)) == 0)
#define FN (FUNC_M << FUNC_V)
#if VK_OP == 0
#define RING (c0.format & WRITE_RING)
static int post_head(void) { return IMP(OKAY, n_w == (P7 ? 0 : 4) && (P7 || le(0, wrote, 0)) && at() == c0.at + (P7 ? 0 : 4) && tp.srec == c0.at); }
static int post_state(void) { return IMP(OKAY, tp.lrecl == 0 && tp.orecl == 0 && func() == FUNC_WRITE && !(tp.format & (TAPE_BOT|TAPE_MARK)) && tp.parity == 0 && tp.pos_frame == c0.pos_frame) && BITS(FN|TAPE_BOT|TAPE_MARK); }
static int post_ring(void) { return IFF(r == TAPE_STATUS_WRP, c0.name && !RING) && IMP(r == TAPE_STATUS_WRP, n_w == 0 && at() == c0.at && tp.format == c0.format) && (r == TAPE_STATUS_WRP || r == TAPE_STATUS_FILE_ERROR || OKAY); }
#define PRE 1
#define POSTS(X) X(post_sound()) X(post_error()) X(post_head()) X(post_state()) X(post_ring())
#define CALL r = tape_write_start(&tp)
#define COV VK_COVER(OKAY && (c0.format & TAPE_BOT), "first record"); VK_COVER(r == TAPE_STATUS_WRP, "no ring")
#elif VK_OP == 1
static int post_frame(void) { return IMP(OKAY, n_w == 1 && at() == c0.at + 1 && wrote(0) == (uint8_t)(in_data | (P7 && c0.lrecl == 0 ? 0x80 : 0))); }
static int post_count(void) { return IMP(OKAY, tp.lrecl == c0.lrecl + 1 && tp.pos_frame == c0.pos_frame + ((c0.format & DENSITY_MASK) == DEN_800 ? 2 : 1)) && tp.srec == c0.srec && tp.orecl == c0.orecl && tp.format == c0.format && (OKAY || r == TAPE_STATUS_FILE_ERROR); }
#define PRE (func() == FUNC_WRITE && !(tp.format & (TAPE_BOT|TAPE_MARK)) && tp.lrecl < 0xffffff00)
#define POSTS(X) X(post_sound()) X(post_error()) X(post_frame()) X(post_count())
#define CALL r = tape_write_frame(&tp, in_data)
#define COV VK_COVER(OKAY && tp.lrecl > 70000, "long record"); VK_COVER(OKAY && c0.lrecl == 0, "first frame")
#elif VK_OP == 2
#define RING (c0.format & WRITE_RING)
static int post_mark(void) { return IMP(OKAY, P7 ? n_w == 1 && wrote(0) == 0x8f && at() == c0.at + 1 : n_w == 4 && le(0, wrote, 0) && at() == c0.at + 4); }
static int post_state(void) { return IMP(OKAY, tp.lrecl == 0 && tp.orecl == 0 && func() == FUNC_MARK && !(tp.format & (TAPE_BOT|TAPE_MARK))) && BITS(FN|TAPE_BOT|TAPE_MARK); }
static int post_ring(void) { return IFF(r == TAPE_STATUS_WRP, c0.name && !RING) && IMP(r == TAPE_STATUS_WRP, n_w == 0 && at() == c0.at && tp.format == c0.format) && (r == TAPE_STATUS_WRP || r == TAPE_STATUS_FILE_ERROR || OKAY); }
#define PRE 1
#define POSTS(X) X(post_sound()) X(post_error()) X(post_mark()) X(post_state()) X(post_ring())
#define CALL r = tape_write_mark(&tp)
#define COV VK_COVER(OKAY, "mark"); VK_COVER(r == TAPE_STATUS_WRP, "no ring")
#elif VK_OP == 3
#define WR (((c0.format >> FUNC_V) & FUNC_M) == FUNC_WRITE)
static int post_length(void) { return IMP(OKAY && WR && !P7, n_w == 8 + pad(c0.lrecl) && le(0, whead, c0.lrecl) && le(pad(c0.lrecl), wrote, c0.lrecl) && at() == c0.at + pad(c0.lrecl) + 4) && IMP(!WR || P7, n_w == 0 && at() == c0.at); }
static int post_state(void) { return IMP(OKAY, func() == 0) && IMP(!WR, OKAY || !c0.name) && (OKAY || r == TAPE_STATUS_FILE_ERROR) && BITS(FN) && tp.pos_frame == c0.pos_frame; }
#define PRE ((func() == FUNC_WRITE || func() == FUNC_MARK) && !(tp.format & (TAPE_BOT|TAPE_MARK)) && tp.parity == 0 && \
    IMP(func() == FUNC_WRITE && !P7, tp.srec >= 0 && at() == tp.srec + 4 + tp.lrecl))
#define POSTS(X) X(post_sound()) X(post_error()) X(post_length()) X(post_state())
#define CALL r = tape_finish_rec(&tp)
#define COV VK_COVER(OKAY && WR && (c0.lrecl & 1) && c0.lrecl > 70000, "odd record"); VK_COVER(OKAY && !WR, "mark")
#elif VK_OP == 4
#define END (c0.format & TAPE_EOT)
#define HDR (!P7 && has4(0))
static int post_record(void) { return IMP(OKAY && !P7, HDR && val(0) != 0 && val(0) != 0xffffffff && tp.orecl == val(0) && tp.lrecl == 0 && at() == c0.at + 4) && IMP(OKAY && P7, orig(0) >= 0 && orig(0) != 0x8f && at() == c0.at && tp.lrecl == 0); }
static int post_mark(void) { return !c0.name || IFF(r == TAPE_STATUS_MARK, P7 ? !END && !n_fail && orig(0) == 0x8f : !END && !n_fail && HDR && val(0) == 0) && IMP(r == TAPE_STATUS_MARK, at() == c0.at + (P7 ? 1 : 4)) && IFF(r == TAPE_STATUS_MARK, tp.format & TAPE_MARK); }
static int post_end(void) { return IMP(r == TAPE_STATUS_EOT, END || n_eot || (HDR && val(0) == 0xffffffff)) && IMP(END && c0.name, r == TAPE_STATUS_EOT && at() == c0.at) && IMP(HDR && val(0) == 0xffffffff && !n_fail && c0.name, r == TAPE_STATUS_EOT && (tp.format & TAPE_EOT) && at() == c0.at) && IMP(n_eot, !OKAY && r != TAPE_STATUS_MARK); }
static int post_state(void) { return n_w == 0 && IMP(OKAY, func() == FUNC_READ && tp.parity == 0) && BITS(FN|TAPE_BOT|TAPE_MARK|TAPE_EOT) && IMP(c0.name, !(tp.format & TAPE_BOT)) && IMP(!OKAY || 1, r != TAPE_STATUS_BOT && r != TAPE_STATUS_EOB) && IMP(OKAY, !(tp.format & TAPE_EOT)); }
#define PRE 1
#define POSTS(X) X(post_sound()) X(post_error()) X(post_record()) X(post_mark()) X(post_end()) X(post_state())
#define CALL r = tape_read_forw(&tp)
#define COV VK_COVER(OKAY && (P7 || tp.orecl > 70000), "record"); VK_COVER(r == TAPE_STATUS_MARK, "mark"); VK_COVER(r == TAPE_STATUS_EOT && n_eot, "end of file"); VK_COVER(P7 || (r == TAPE_STATUS_EOT && !n_eot && !END), "end of medium")
#elif VK_OP == 5 || VK_OP == 8
#define BK (VK_OP == 8)
#define MARK (c0.format & TAPE_MARK)
#define DONE (P7 ? c0.lrecl == 2 : BK ? c0.lrecl == 0 : c0.lrecl >= c0.orecl)
#define HERE orig(BK ? -1 : 0)
#define STOP (P7 && !BK && c0.lrecl == 1 && HERE >= 0 && (HERE & 0x80))
#define STEP (BK ? -1 : 1)
static int post_data(void) { return IMP(OKAY, HERE >= 0 && out == (P7 ? HERE & 0x7f : HERE) && !STOP && at() == c0.at + STEP) && IMP(!OKAY, at() == c0.at); }
static int post_ends(void) { return IFF(r == TAPE_STATUS_MARK, c0.name && MARK) && IFF(r == TAPE_STATUS_EOB, c0.name && !MARK && (DONE || (STOP && !n_fail))) && IFF(OKAY, c0.name && !MARK && !DONE && !STOP && !n_fail && !n_eot && !n_bot); }
static int post_count(void) { return IMP(OKAY, P7 ? tp.lrecl == (BK && (HERE & 0x80) ? 2 : 1) : tp.lrecl == c0.lrecl + STEP) && IMP(P7 && c0.name && !MARK && !OKAY, tp.lrecl == 2) && tp.orecl == c0.orecl && tp.srec == c0.srec && n_w == 0 && BITS(TAPE_EOT|TAPE_BOT) && IMP(OKAY, tp.pos_frame == c0.pos_frame + STEP * ((c0.format & DENSITY_MASK) == DEN_800 ? 2 : 1)); }
#define PRE (func() == (BK ? FUNC_RDBACK : FUNC_READ) && IMP(!BK, !(tp.format & TAPE_BOT)) && IMP(BK, at() <= size) && IMP(P7, tp.lrecl <= 2))
#define POSTS(X) X(post_sound()) X(post_error()) X(post_data()) X(post_ends()) X(post_count())
#define CALL r = tape_read_frame(&tp, &out)
#define COV VK_COVER(OKAY && (P7 || c0.lrecl > 70000), "data"); VK_COVER(r == TAPE_STATUS_EOB, "end of block"); VK_COVER(r == TAPE_STATUS_MARK, "mark")
#elif VK_OP == 6
#define MARK (c0.format & TAPE_MARK)
#define LAST (c0.at + (c0.orecl - c0.lrecl))
static int post_past(void) { return IMP(OKAY && !MARK && !P7, at() == LAST + pad(c0.orecl) + 4 && has4(rel - 4) && tp.lrecl == val(rel - 4)); }
static int post_gap(void) { return IMP(OKAY && !MARK && P7, tp.lrecl == 2 && (c0.lrecl == 2 ? at() == c0.at : at() >= c0.at && ((orig(rel) >= 0 && (orig(rel) & 0x80) && at() > c0.at - (c0.lrecl == 1)) || at() >= size))); }
static int post_state(void) { return n_w == 0 && IMP(OKAY, func() == 0 && !(tp.format & TAPE_MARK)) && IMP(MARK && c0.name, OKAY && at() == c0.at && n_look == 0) && BITS(FN|TAPE_MARK|TAPE_EOT) && IMP(!OKAY, n_fail || n_eot || !c0.name) && (OKAY || r == TAPE_STATUS_EOT || r == TAPE_STATUS_FILE_ERROR); }
#define PRE (func() == FUNC_READ && !(tp.format & TAPE_BOT) && tp.parity == 0 && (P7 ? tp.lrecl <= 2 : tp.lrecl <= tp.orecl))
#define POSTS(X) X(post_sound()) X(post_error()) X(post_past()) X(post_gap()) X(post_state())
#define CALL r = tape_finish_rec(&tp)
#define COV VK_COVER(OKAY && !MARK && in_jump && in_k > 70000, "skip"); VK_COVER(OKAY && !MARK && n_frame == 0, "read to the end"); VK_COVER(OKAY && MARK, "mark")
#elif VK_OP == 7
#define LOAD (c0.format & TAPE_BOT)
#define HDR (!P7 && c0.at >= 4 && has4(-4))
static int post_record(void) { return IMP(OKAY && !P7 && HDR && val(-4) != 0xffffffff, val(-4) != 0 && tp.lrecl == val(-4) && tp.orecl == tp.lrecl && at() == c0.at - 4 - pad(tp.lrecl)) && IMP(OKAY && !P7, HDR) && IMP(OKAY && P7, orig(-1) >= 0 && orig(-1) != 0x8f && at() == c0.at && tp.lrecl == 0); }
static int post_mark(void) { return !c0.name || IFF(r == TAPE_STATUS_MARK, !LOAD && !n_fail && (P7 ? orig(-1) == 0x8f : HDR && val(-4) == 0)) && IMP(r == TAPE_STATUS_MARK, at() == c0.at - (P7 ? 1 : 4)) && IFF(r == TAPE_STATUS_MARK, tp.format & TAPE_MARK); }
static int post_begin(void) { return IFF(r == TAPE_STATUS_BOT, c0.name && (LOAD || (n_bot && !n_fail && !(HDR && OKAY)))) && IMP(c0.name && LOAD, at() == c0.at && n_ops == 0); }
static int post_state(void) { return n_w == 0 && IMP(OKAY, func() == FUNC_RDBACK && tp.parity == 0) && BITS(FN|TAPE_MARK|TAPE_EOT|TAPE_BOT) && (OKAY || r == TAPE_STATUS_BOT || r == TAPE_STATUS_MARK || r == TAPE_STATUS_FILE_ERROR) && IMP(c0.name && !n_eot, !(tp.format & TAPE_EOT)); }
#define PRE (at() <= size)
#undef post_error
static int post_failed(void) { return IMP(r == TAPE_STATUS_FILE_ERROR, n_fail || !c0.name) && IMP(!c0.name, r == TAPE_STATUS_FILE_ERROR); }
#define POSTS(X) X(post_sound()) X(post_failed()) X(post_record()) X(post_mark()) X(post_begin()) X(post_state())
#define CALL r = tape_read_back(&tp)
#define COV VK_COVER(OKAY && (P7 || tp.orecl > 70000), "record"); VK_COVER(r == TAPE_STATUS_MARK, "mark"); VK_COVER(r == TAPE_STATUS_BOT && n_bot, "beginning of tape")
#elif VK_OP == 9
#define MARK (c0.format & TAPE_MARK)
static int post_before(void) { return IMP(OKAY && !MARK && !P7, at() == c0.at - (long)c0.lrecl - 4 && has4(rel)); }
static int post_gap(void) { return IMP(OKAY && !MARK && P7, c0.lrecl == 2 ? at() == c0.at : (at() < c0.at && orig(rel) >= 0 && (orig(rel) & 0x80)) || at() == 0); }
static int post_state(void) { return n_w == 0 && IMP(OKAY, func() == 0 && !(tp.format & TAPE_MARK)) && IMP(MARK && c0.name, OKAY && at() == c0.at && n_look == 0) && BITS(FN|TAPE_MARK|TAPE_EOT|TAPE_BOT) && IMP(!OKAY, n_fail || n_bot || !c0.name) && (OKAY || r == TAPE_STATUS_BOT || r == TAPE_STATUS_FILE_ERROR); }
#define PRE (func() == FUNC_RDBACK && tp.parity == 0 && IMP(P7, tp.lrecl <= 2) && at() <= size)
#define POSTS(X) X(post_sound()) X(post_error()) X(post_before()) X(post_gap()) X(post_state())
#define CALL r = tape_finish_rec(&tp)
#define COV VK_COVER(OKAY && !MARK && in_jump && in_k > 70000, "skip"); VK_COVER(OKAY && !MARK && n_frame == 0, "read to the start"); VK_COVER(OKAY && MARK, "mark")
#else
static int post_rewind(void) { return IMP(c0.name, c0.pos_frame < in_frames ? r == TAPE_STATUS_BOT && tp.pos_frame == 0 && (tp.format & TAPE_BOT) && BITS(TAPE_BOT) : OKAY && tp.pos_frame == c0.pos_frame - in_frames && tp.format == c0.format); }
static int post_kept(void) { return at() == c0.at && n_ops == 0 && tp.lrecl == c0.lrecl && tp.orecl == c0.orecl && tp.srec == c0.srec; }
#define PRE (in_frames >= 0)
#define POSTS(X) X(post_error()) X(post_rewind()) X(post_kept())
#define CALL r = tape_rewind_frames(&tp, in_frames)
#define COV VK_COVER(OKAY, "on the way"); VK_COVER(r == TAPE_STATUS_BOT, "there")
#endif
int main(void)
{
    VK_LOAD();
    log_level = 0;
    rel = w_s = w_ps = n_look = n_w = n_ops = n_bad = n_fail = n_eot = n_bot = n_frame = 0; out = 0; r = 0; size = in_size; last = next = 99;
    tp.file_name = in_open ? in_name : NULL;
    tp.len_buff = 0;                          /* the bytes are behind the contracts, not in the window */
    tp.pos_buff = 1000;                       /* only the sum of the two matters here */
    VK_ASSUME(at() >= 0 && tp.pos < (1L << 40));
    VK_ASSUME(size >= 0 && size < (1L << 41) && tp.srec >= 0 && tp.srec < (1L << 41));
    VK_ASSUME(tp.pos_frame >= 0 && tp.pos_frame < (1L << 40));
    VK_ASSUME((tp.format & TAPE_FMT) == VK_FMT && tp.format >= 0 && tp.format < 0x8000);
    VK_ASSUME(IMP(tp.format & TAPE_BOT, at() == 0 && VK_OP != 10 || VK_OP == 10));
    if (!in_jump && FIN && !P7) VK_ASSUME(VK_OP == 9 ? tp.lrecl <= 2 : VK_OP == 3 || (tp.orecl >= tp.lrecl && tp.orecl - tp.lrecl <= 2));
    if (!in_jump && FIN && P7) VK_ASSUME(VK_OP == 9 ? at() <= 3 : size <= at() + 3);
    base = at();
    VK_ASSUME(PRE);
    c0.at = at(); c0.pos_frame = tp.pos_frame; c0.srec = tp.srec; c0.size = size; c0.format = tp.format; c0.parity = tp.parity; c0.lrecl = tp.lrecl; c0.orecl = tp.orecl; c0.name = tp.file_name;
    VK_RUN(CALL);
    COV;
    VK_REACHED("end");
    return 0;
}
