/* The byte window of a tape file: what a byte position of the tape holds, over every window, file and position.
 * The file is followed at one arbitrary offset. VK_OP = 0 read, 1 peek, 2 write, 3 read backward, 4 update, 5 rewind, 6 detach */
#include "config.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <unistd.h>
#include <fcntl.h>
#define __NO_CTYPE
#include "vk.h"
#define BUF (32 * 1024)
uint8_t in_stale;          /* what a refill leaves where the window's byte was (the rest of the buffer is arbitrary anyway) */
long in_g;                 /* any offset in the file */
uint8_t in_fg, in_bg;      /* the file's byte there, the window's byte if the window has it */
long in_fs;                /* size of the file */
int in_rerr, in_werr;
uint8_t in_data;
static long cur, fs; static uint8_t fg; static int n_err, n_bad, n_close;
static long old;
static long vk_lseek(int, long, int), vk_read(int, void *, size_t), vk_write(int, const void *, size_t);
static int vk_close(int fd) { n_close++; return 0; }
#define lseek vk_lseek
#define read vk_read
#define write vk_write
#define close vk_close
#define free(p) ((void)0)
#include "tape.c"
#undef free
#include "xlat.c"
#include "stubs_log.h"
int log_level;
#ifndef VK_NATIVE
#undef isprint
int isprint(int c) { return c >= 32 && c < 127; }
#endif
struct _tape_buffer tp;
char in_name[4];
static long vk_lseek(int fd, long o, int w) { if (w != 0 || o < 0) n_bad++; cur = o; return o; }
static long vk_read(int fd, void *b, size_t n)
{
    long k = cur < fs ? fs - cur : 0;
    if (b != (void *)tp.buffer || n > BUF) { n_bad++; return 0; }
    if (in_rerr) { n_err++; return -1; }
    if (k > (long)n) k = n;
    if (old >= 0 && old < k) tp.buffer[old] = in_stale;
    if (in_g >= cur && in_g < cur + k) tp.buffer[in_g - cur] = fg;
    cur += k;
    return k;
}
static long vk_write(int fd, const void *b, size_t n)
{
    if (n > BUF || (n > 1 && b != (void *)tp.buffer)) { n_bad++; return 0; }
    if (in_werr) { n_err++; return -1; }
    if (in_g >= cur && in_g < cur + (long)n) fg = b == (void *)tp.buffer ? tp.buffer[in_g - cur] : *(const uint8_t *)b;
    cur += n;
    if (cur > fs) fs = cur;
    return n;
}
static struct { long pos, srec; int pos_buff, len_buff, format, dirty; uint32_t lrecl, orecl; long pos_frame; char *name; } c0;
static uint8_t v0, out; static long p0, s0;
static int inside(void) { return in_g >= tp.pos && in_g < tp.pos + tp.len_buff; }
static uint8_t view(void) { return inside() ? tp.buffer[in_g - tp.pos] : fg; }
static long size(void) { return fs > tp.pos + tp.len_buff ? fs : tp.pos + tp.len_buff; }
static long at(void) { return tp.pos + tp.pos_buff; }
static int inv(void)
{
    return tp.pos_buff >= 0 && tp.pos_buff <= tp.len_buff && tp.len_buff <= BUF && tp.pos >= 0 && tp.pos <= fs &&
           IMP(!tp.dirty, tp.pos + tp.len_buff <= fs && IMP(inside(), tp.buffer[in_g - tp.pos] == fg)) && IMP(tp.format & TAPE_BOT, at() == 0);
}
static int same(void) { return tp.srec == c0.srec && tp.lrecl == c0.lrecl && tp.orecl == c0.orecl && tp.pos_frame == c0.pos_frame && tp.file_name == c0.name && ((tp.format ^ c0.format) & ~(TAPE_EOT|TAPE_BOT)) == 0; }
static int r;
static int post_inv(void) { return inv() && n_bad == 0; }
static int post_error(void) { return IFF(r == TAPE_STATUS_FILE_ERROR, n_err || !c0.name) && IMP(n_err || !c0.name, at() == p0); }
#if VK_OP == 0 || VK_OP == 1
static int post_byte(void) { return IMP(r == TAPE_STATUS_OK && in_g == p0, out == v0) && IMP(r == TAPE_STATUS_OK && VK_OP == 0, tp.pos_buff > 0) && IMP(c0.pos_buff < c0.len_buff && c0.name, r == TAPE_STATUS_OK); }
static int post_end(void) { return IMP(!n_err && c0.name, r == (p0 < s0 ? TAPE_STATUS_OK : TAPE_STATUS_EOT)) && IFF(tp.format & TAPE_EOT, (c0.format & TAPE_EOT) || (VK_OP == 0 && r == TAPE_STATUS_EOT)); }
static int post_pos(void) { return at() == p0 + (r == TAPE_STATUS_OK && VK_OP == 0) && size() == s0; }
static int post_view(void) { return view() == v0 && same(); }
#define PRE (inv() && !(tp.format & TAPE_BOT))
#define POSTS(X) X(post_inv()) X(post_error()) X(post_byte()) X(post_end()) X(post_pos()) X(post_view())
#if VK_OP == 0
#define CALL r = tape_read_byte(&tp, &out)
#else
#define CALL r = tape_peek_byte(&tp, &out)
#endif
#define COV VK_COVER(r == TAPE_STATUS_OK && c0.dirty && c0.pos_buff == c0.len_buff && !n_err && in_g == p0, "flush and refill"); VK_COVER(r == TAPE_STATUS_EOT, "end of tape"); VK_COVER(n_err && in_rerr, "read error")
#elif VK_OP == 2
static int post_pos(void) { return at() == p0 + (r == TAPE_STATUS_OK) && IMP(r == TAPE_STATUS_OK, size() == (s0 > p0 + 1 ? s0 : p0 + 1)); }
static int post_view(void) { return view() == (r == TAPE_STATUS_OK && in_g == p0 ? in_data : v0) && same() && tp.format == c0.format; }
#define PRE (inv() && !(tp.format & TAPE_BOT))
#define POSTS(X) X(post_inv()) X(post_error()) X(post_pos()) X(post_view())
#define CALL r = tape_write_byte(&tp, in_data)
#define COV VK_COVER(r == TAPE_STATUS_OK && c0.dirty && c0.pos_buff == BUF, "flush"); VK_COVER(r == TAPE_STATUS_OK && !c0.dirty && c0.pos_buff == BUF, "clean and full")
#elif VK_OP == 3
static int post_byte(void) { return IMP(r == TAPE_STATUS_OK && in_g == p0 - 1, out == v0) && IMP(c0.pos_buff > 0 && c0.name, r == TAPE_STATUS_OK) && IMP(r == TAPE_STATUS_OK, tp.pos_buff < tp.len_buff); }
static int post_end(void) { return IMP(!n_err && c0.name, r == (p0 > 0 ? TAPE_STATUS_OK : TAPE_STATUS_BOT)) && IMP(r == TAPE_STATUS_BOT, (tp.format & TAPE_BOT)) && IMP(r != TAPE_STATUS_BOT, !((tp.format ^ c0.format) & TAPE_BOT)); }
static int post_pos(void) { return at() == p0 - (r == TAPE_STATUS_OK) && size() == s0; }
static int post_view(void) { return view() == v0 && same() && !(tp.format & ~c0.format & TAPE_EOT); }
#define PRE (inv())
#define POSTS(X) X(post_inv()) X(post_error()) X(post_byte()) X(post_end()) X(post_pos()) X(post_view())
#define CALL r = tape_readbk_byte(&tp, &out)
#define COV VK_COVER(r == TAPE_STATUS_OK && c0.pos_buff == 0 && c0.pos > BUF && in_g == p0 - 1, "earlier window"); VK_COVER(r == TAPE_STATUS_OK && c0.pos_buff == 0 && c0.pos < BUF && c0.dirty, "first window"); VK_COVER(r == TAPE_STATUS_BOT, "load point")
#elif VK_OP == 4
static int post_update(void) { return view() == (r == TAPE_STATUS_OK && in_g == c0.srec ? in_data : v0); }
static int post_pos(void) { return at() == p0 && size() == s0 && tp.srec == c0.srec + (r == TAPE_STATUS_OK) && tp.lrecl == c0.lrecl && tp.orecl == c0.orecl && tp.format == c0.format; }
#define PRE (inv() && tp.srec >= 0 && tp.srec < at())
#define POSTS(X) X(post_inv()) X(post_error()) X(post_update()) X(post_pos())
#define CALL r = tape_write_prev(&tp, in_data)
#define COV VK_COVER(r == TAPE_STATUS_OK && c0.srec < c0.pos, "behind the window"); VK_COVER(r == TAPE_STATUS_OK && c0.srec >= c0.pos, "in the window")
#elif VK_OP == 5
static int post_rewound(void) { return IMP(r == TAPE_STATUS_OK, at() == 0 && !(tp.format & (TAPE_EOT|TAPE_MARK)) && !tp.dirty && ((tp.format ^ c0.format) & ~(TAPE_EOT|TAPE_MARK)) == 0); }
static int post_kept(void) { return view() == v0 && size() == s0 && IFF(r != TAPE_STATUS_OK, n_err); }
#define PRE (inv())
#define POSTS(X) X(post_inv()) X(post_rewound()) X(post_kept())
#define CALL r = tape_start_rewind(&tp)
#define COV VK_COVER(c0.dirty && r == TAPE_STATUS_OK, "flush"); VK_COVER(c0.format & TAPE_EOT, "from the end")
#else
static int post_flushed(void) { return n_err || (fg == v0 && fs == s0); }
static int post_closed(void) { return n_close == 1 && tp.file_name == NULL && !(tp.format & (ONLINE|ATTACHED)) && !tp.dirty && n_bad == 0; }
#define PRE (inv())
#define POSTS(X) X(post_flushed()) X(post_closed())
#define CALL tape_detach(&tp)
#define COV VK_COVER(c0.dirty && !n_err, "flush")
#endif
unsigned in_open;
int main(void)
{
    VK_LOAD();
    log_level = 0;
    fs = in_fs; fg = in_fg; cur = 0; n_err = n_bad = n_close = 0; out = 0; r = 0;
    tp.file_name = in_open || VK_OP >= 5 ? in_name : NULL;
    VK_ASSUME(in_g >= 0 && in_g < (1L << 40));
    VK_ASSUME(tp.pos >= 0 && tp.pos < (1L << 40) && fs >= 0 && fs < (1L << 40));
    VK_ASSUME(tp.len_buff >= 0 && tp.len_buff <= BUF);
    if (inside()) VK_PIN(tp.buffer[in_g - tp.pos], in_bg);
    VK_ASSUME(PRE);
    old = inside() ? in_g - tp.pos : -1;
    v0 = view(); s0 = size(); p0 = at();
    c0.pos = tp.pos; c0.srec = tp.srec; c0.pos_buff = tp.pos_buff; c0.len_buff = tp.len_buff; c0.format = tp.format; c0.dirty = tp.dirty;
    c0.lrecl = tp.lrecl; c0.orecl = tp.orecl; c0.pos_frame = tp.pos_frame; c0.name = tp.file_name;
    VK_RUN(CALL);
    COV;
    VK_REACHED("end");
    return 0;
}
