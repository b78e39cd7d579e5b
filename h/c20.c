#include "vk.h"
#include "event.c"
#include "stubs_log.h"
/* Event queue: add, cancel, advance over every queue of up to VK_N pending events (bounded), every delay. */
#ifndef VK_N
#define VK_N 4
#endif
#ifndef VK_CBOP
#define VK_CBOP 0
#endif
#define NEW1 (VK_N)
#define NEW2 (VK_N + 1)
#define IDS  (VK_N + 2)
int in_n, in_who, in_time1, in_time2;
int in_time[VK_N];
unsigned char in_dev[IDS], in_fn[IDS], in_cdev, in_cfn, in_cdev2, in_cfn2;
int log_level;
struct _device devs[2];
int args[IDS];
static int fired[IDS], badarg, snap_fired[IDS], did_cb;
static int due[IDS], there[IDS];                          /* before */
static int due2[IDS], there2[IDS], wf, cnt, sum, last;    /* after */
static int ret1;
static void cb(int fn, struct _device *dev, void *arg, int id);
static void cb_a(struct _device *dev, void *arg, int id) { cb(0, dev, arg, id); }
static void cb_b(struct _device *dev, void *arg, int id) { cb(1, dev, arg, id); }
static _callback fn_of(int f) { return f ? cb_b : cb_a; }
static int add(int id, int t) { return add_event(&devs[in_dev[id]], fn_of(in_fn[id]), t, &args[id], id); }
static void cb(int fn, struct _device *dev, void *arg, int id)
{
    int k;
    if (id < 0 || id >= IDS) { badarg = 1; return; }
    if (dev != &devs[in_dev[id]] || arg != (void *)&args[id] || in_fn[id] != fn) badarg = 1;
    if (VK_OP == 2) for (k = 0; k < VK_N; k++) if (there[k] && !fired[k] && due[k] < due[id]) badarg = 1;
    fired[id]++;
    if (VK_OP == 2 && VK_CBOP && id < VK_N && id == in_who && !did_cb) {       /* a callback may itself add or cancel an event */
        did_cb = 1;
        for (k = 0; k < IDS; k++) snap_fired[k] = fired[k];
        if (VK_CBOP == 1) add(NEW2, in_time2);
        if (VK_CBOP == 2) cancel_event(&devs[in_cdev2], fn_of(in_cfn2));
    }
}
static void scan(void)       /* well-formed doubly linked list? due time of each event */
{
    struct _event *p, *prev = NULL;
    int k;
    wf = 1; sum = 0; cnt = 0; last = -1;
    for (k = 0; k < IDS; k++) { there2[k] = 0; due2[k] = 0; }
    for (p = event_head; p != NULL && cnt <= IDS; p = p->next) {
        if (p->prev != prev || p->time < 0 || p->iarg < 0 || p->iarg >= IDS || there2[p->iarg]) { wf = 0; return; }
        sum += p->time;
        due2[p->iarg] = sum; there2[p->iarg] = 1; cnt++;
        if (p->dev != &devs[in_dev[p->iarg]] || p->func != fn_of(in_fn[p->iarg]) || p->arg != (void *)&args[p->iarg]) wf = 0;
        prev = p;
    }
    if (cnt > IDS || event_tail != prev && cnt) wf = 0;
    if (event_head != NULL && event_head->time <= 0) wf = 0;
}
static int match(int k, int d, int f) { return in_dev[k] == d && in_fn[k] == f; }
/* exactly one of the candidates, one with the least due time, is gone; all other events are unchanged */
static int cancelled(int d, int f, int *cand, int *alive, int *now, int shift)
{
    int k, gone = -1, n = 0, any = 0, min = 0;
    for (k = 0; k < IDS; k++) if (cand[k] && match(k, d, f) && (!any || due[k] < min)) { any = 1; min = due[k]; }
    for (k = 0; k < IDS; k++) if (alive[k] && !now[k]) { gone = k; n++; }
    if (!any) return n == 0;
    return n == 1 && cand[gone] && match(gone, d, f) && due[gone] == min;
}
static int post_form(void) { return wf && !badarg; }
static int post_add(void)
{
    int k;
    if (VK_OP != 0) return 1;
    for (k = 0; k < VK_N; k++) if (there2[k] != there[k] || due2[k] != due[k] || fired[k]) return 0;
    if (in_time1 == 0) return ret1 == 0 && fired[NEW1] == 1 && !there2[NEW1];
    return ret1 == 0 && fired[NEW1] == 0 && there2[NEW1] && due2[NEW1] == in_time1;
}
static int post_cancel(void)
{
    int k;
    if (VK_OP != 1) return 1;
    for (k = 0; k < IDS; k++) if (fired[k] || (there2[k] && (!there[k] || due2[k] != due[k]))) return 0;
    return cancelled(in_cdev, in_cfn, there, there, there2, 0);
}
static int post_advance(void)
{
    int k, cand[IDS], now[IDS], alive[IDS];
    if (VK_OP != 2) return 1;
    for (k = 0; k < VK_N; k++) {
        if (!there[k]) { if (there2[k] || fired[k]) return 0; continue; }
        if (there2[k] && (due[k] == 1 || due2[k] != due[k] - 1)) return 0;
        if (fired[k] && (due[k] != 1 || fired[k] != 1 || there2[k])) return 0;
        if (!(did_cb && VK_CBOP == 2) && fired[k] != (due[k] == 1)) return 0;
        if (!(did_cb && VK_CBOP == 2) && there2[k] != (due[k] != 1)) return 0;
    }
    if (did_cb && VK_CBOP == 1) {
        if (in_time2 == 0) { if (fired[NEW2] != 1 || there2[NEW2]) return 0; }
        else if (fired[NEW2] || !there2[NEW2] || due2[NEW2] != in_time2) return 0;
    } else if (there2[NEW2] || fired[NEW2]) return 0;
    if (did_cb && VK_CBOP == 2) {
        for (k = 0; k < IDS; k++) {
            cand[k] = there[k] && !snap_fired[k];
            alive[k] = there[k]; now[k] = there2[k] || fired[k];
        }
        if (!cancelled(in_cdev2, in_cfn2, cand, alive, now, 1)) return 0;
    }
    return 1;
}
static void build(void)
{
    struct _event *p, *prev = NULL;
    int k, s = 0;
    event_head = event_tail = NULL;
    for (k = 0; k < VK_N; k++) {
        if (k >= in_n) break;
        p = (struct _event *)malloc(sizeof(struct _event));
        VK_ASSUME(p != NULL);
        p->next = NULL; p->prev = prev; p->time = in_time[k]; p->dev = &devs[in_dev[k]];
        p->func = fn_of(in_fn[k]); p->arg = &args[k]; p->iarg = k;
        if (prev) prev->next = p; else event_head = p;
        event_tail = p; prev = p;
        s += in_time[k]; due[k] = s; there[k] = 1;
    }
}
static int pre_queue(void)
{
    int k;
    for (k = 0; k < VK_N; k++) if (in_time[k] < 0 || in_time[k] > 100000000) return 0;
    for (k = 0; k < IDS; k++) if (in_dev[k] > 1 || in_fn[k] > 1) return 0;
    return in_n >= 0 && in_n <= VK_N && in_time[0] >= 1 && in_cdev < 2 && in_cfn < 2 && in_cdev2 < 2 && in_cfn2 < 2
        && in_time1 >= 0 && in_time1 <= 1000000000 && in_time2 >= 0 && in_time2 <= 1000000000;
}
static void run(void)
{
#if VK_OP == 0
    ret1 = add(NEW1, in_time1);
#elif VK_OP == 1
    cancel_event(&devs[in_cdev], fn_of(in_cfn));
#else
    advance();
#endif
    scan();
}
#define PRE pre_queue()
#define POSTS(X) X(post_form()) X(post_add()) X(post_cancel()) X(post_advance())
int main(void)
{
    int k;
    VK_LOAD();
    log_level = 0; badarg = did_cb = 0;
    for (k = 0; k < IDS; k++) fired[k] = snap_fired[k] = due[k] = there[k] = 0;
    VK_ASSUME(pre_queue());
    build();
    VK_RUN(run());
#if VK_OP == 0
    VK_COVER(in_n == VK_N && due2[NEW1] > due2[1] && due2[NEW1] < due2[2], "insert in the middle");
#elif VK_OP == 1
    VK_COVER(in_n == VK_N && !there2[2], "cancel in the middle");
#elif VK_CBOP == 2
    VK_COVER(did_cb && fired[0] && fired[2] && !fired[1] && !there2[1], "callback cancels an event due now");
#elif VK_CBOP == 1
    VK_COVER(did_cb && in_time2 == 7 && cnt == VK_N, "callback adds an event");
#else
    VK_COVER(fired[0] && fired[1] && !fired[2] && cnt == VK_N - 2, "two due together");
#endif
    VK_REACHED("end");
    return 0;
}
