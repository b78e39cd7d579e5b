From a2c9af40a03a2ccf0e74bad458bd122d6290e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 01/51] fix: keep Model 30 ALU output in a byte after decimal
 correction

---
 src/model2030/cpu2030.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 06e3cfa..8c8ee21 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1887,6 +1887,8 @@ cycle_2030()
                   cpu_2030.Alu_out -= 0x6;
                if ((carries & BIT0) == 0)
                   cpu_2030.Alu_out -= 0x60;
+               /* Invalid digits, or logical functions, can borrow out of the byte */
+               cpu_2030.Alu_out &= 0xff;
                if (sal->CC == 7) {
                    cpu_2030.ASCII = (cpu_2030.R_REG & BIT4) != 0;
                    suppr_half_trap_lch = (cpu_2030.R_REG & BIT5) == 0;
-- 
2.43.0


From d393607656e0d2bed4878989bda21c1071f3b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 02/51] fix: keep Model 30 UV to WX branch inside the control
 store

---
 src/model2030/cpu2030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 8c8ee21..3561d96 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1369,7 +1369,7 @@ cycle_2030()
 
            /* Handle alternate CK that change branch address */
            switch(sal->CK) {
-           case 0x11:  nextWX = ((cpu_2030.U_REG & 0xff) << 8) | (cpu_2030.V_REG & 0xff);
+           case 0x11:  nextWX = ((cpu_2030.U_REG & 0xf) << 8) | (cpu_2030.V_REG & 0xff);
                        break;
            case 0x12: /* Reset wrap */
                        break;
-- 
2.43.0


From 10a782fd2462c27e9ff2dfca3911c9dc325d7d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 03/51] fix: identify Model 30 selector channel 2 interrupts by
 their own latch

---
 src/model2030/cpu2030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 3561d96..5ed5305 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1398,7 +1398,7 @@ cycle_2030()
            case 0x1A: /* Select interrupt SEL1 -> 0,x SEL2 -> x,0, timer -> 0,0 */
                        if ((cpu_2030.MASK & BIT1) && (sel_intrp_lch[0] || (cpu_2030.GF[0] & BIT4) != 0))
                           nextWX &= 0xffe;
-                       else if ((cpu_2030.MASK & BIT2) && (sel_intrp_lch[0] || (cpu_2030.GF[1] & BIT4) != 0))
+                       else if ((cpu_2030.MASK & BIT2) && (sel_intrp_lch[1] || (cpu_2030.GF[1] & BIT4) != 0))
                           nextWX &= 0xffd;
                        else if (((cpu_2030.MASK & BIT7) && cpu_2030.F_REG != 0) || timer_update)
                           nextWX &= 0xffc;
-- 
2.43.0


From a4e803550aa21cc7968b6a497528f4ec35b3b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 04/51] fix: do not write Model 30 storage beyond the installed
 size

---
 src/model2030/cpu2030.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 5ed5305..ef06a91 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1111,6 +1111,9 @@ cycle_2030()
                       if (cpu_2030.allow_write) {
                           switch (cpu_2030.store) {
                           case MAIN:
+                               /* No storage beyond installed size */
+                               if (cpu_2030.MN_REG > mem_max)
+                                   break;
                                if (sal->CU == 1) {
                                    M[cpu_2030.MN_REG] = cpu_2030.GR[cpu_2030.ch_sel];
                                } else {
-- 
2.43.0


From 28a1157662b0c4e7d3c929ce5cc500a6cc2b5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 05/51] fix: keep Model 30 selector channel storage cycles
 inside the installed storage

---
 src/model2030/cpu2030.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index ef06a91..b367239 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -796,7 +796,8 @@ cycle_2030()
            cpu_2030.GV[i] = cpu_2030.GHZ | odd_parity[cpu_2030.GHZ];
            cpu_2030.GU[i] = cpu_2030.GHY | odd_parity[cpu_2030.GHY];
            /* If output and GR empty */
-           if (sel_cnt_rdy_zero[i] == 0 && (cpu_2030.GG[i] & 1) == 1 && sel_gr_full[i] == 0) {
+           if (sel_cnt_rdy_zero[i] == 0 && (cpu_2030.GG[i] & 1) == 1 && sel_gr_full[i] == 0 &&
+                 cpu_2030.MN_REG <= mem_max) {
                cpu_2030.GR[i] = M[cpu_2030.MN_REG];
                log_mem("Read main sel%d %04x %03x\n", i, cpu_2030.MN_REG, cpu_2030.GR[i]);
            }
@@ -836,11 +837,12 @@ cycle_2030()
                if ((cpu_2030.GK[i] & 0xf0) != 0 &&
                          (((cpu_2030.GK[i] >> 4) ^ cpu_2030.Q_REG) & 0xf) != 0) {
                    cpu_2030.GE[i] |= BIT3;
-                   cpu_2030.GR[i] = M[cpu_2030.MN_REG];
+                   if (cpu_2030.MN_REG <= mem_max)
+                       cpu_2030.GR[i] = M[cpu_2030.MN_REG];
                    log_mem("Read main sel%d %04x %03x\n", i, cpu_2030.MN_REG, cpu_2030.GR[i]);
                }
                /* Check skip flag */
-               if ((cpu_2030.GF[i] & BIT3) == 0) {
+               if ((cpu_2030.GF[i] & BIT3) == 0 && cpu_2030.MN_REG <= mem_max) {
                    M[cpu_2030.MN_REG] = cpu_2030.GR[i];
                    log_mem("Read write sel%d %04x %03x\n", i, cpu_2030.MN_REG, cpu_2030.GR[i]);
                }
-- 
2.43.0


From 38bd6307bd1b2448da8ba35600c2d00922001542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 06/51] fix: wrap Model 30 selector channel address and count
 to sixteen bits

---
 src/model2030/cpu2030.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index b367239..67a53e7 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -773,7 +773,7 @@ cycle_2030()
            cpu_2030.GHZ = (cpu_2030.GD[i] - 1) & 0xff;
            cpu_2030.GHY = (cpu_2030.GC[i] & 0xff);
            if (cpu_2030.GHZ == 0xff)
-               cpu_2030.GHY--;
+               cpu_2030.GHY = (cpu_2030.GHY - 1) & 0xff;
            /* Clear flag if count reached zero */
            if (cpu_2030.GHZ == 0 && cpu_2030.GHY == 0) {
                sel_cnt_rdy_not_zero[i] = 0;
@@ -813,7 +813,7 @@ cycle_2030()
                cpu_2030.GHZ = (cpu_2030.GD[i] - 1) & 0xff;
                cpu_2030.GHY = (cpu_2030.GC[i] & 0xff);
                if (cpu_2030.GHZ == 0xff)
-                   cpu_2030.GHY--;
+                   cpu_2030.GHY = (cpu_2030.GHY - 1) & 0xff;
            } else {
                /* Else address +1 */
                cpu_2030.GHZ = (cpu_2030.GD[i] + 1) & 0xff;
@@ -822,6 +822,7 @@ cycle_2030()
                    cpu_2030.GHY++;
                if (cpu_2030.GHY & 0x100) {
                    cpu_2030.GE[i] |= BIT2;
+                   cpu_2030.GHY &= 0xff;
                    log_trace("Set prog check\n");
                }
            }
-- 
2.43.0


From 31156f99945c51fe3ff4676e3af2d480532f0e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 07/51] fix: step Model 30 channel address by that channel's
 own read backward command

---
 src/model2030/cpu2030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 67a53e7..257f22c 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -809,7 +809,7 @@ cycle_2030()
            sel_read_cycle[i] = 0;
        } else if (sel_write_cycle[i]) {
            /* If moving backwards, address - 1 */
-           if (cpu_2030.GG[cpu_2030.ch_sel] == 0x10c) {
+           if (cpu_2030.GG[i] == 0x10c) {
                cpu_2030.GHZ = (cpu_2030.GD[i] - 1) & 0xff;
                cpu_2030.GHY = (cpu_2030.GC[i] & 0xff);
                if (cpu_2030.GHZ == 0xff)
-- 
2.43.0


From 3d19bdec0537f46a973ec31d3ee0c6fe892a9cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 08/51] fix: address Model 30 storage from all four console
 switches

---
 src/model2030/cpu2030.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 257f22c..700ac00 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -566,11 +566,11 @@ cycle_2030()
                        break;
                    cpu_2030.M_REG = (A_SW << 4) | (B_SW);
                    cpu_2030.M_REG |= odd_parity[cpu_2030.M_REG & 0xff];
-                   cpu_2030.M_REG = (C_SW << 4) | (D_SW);
+                   cpu_2030.N_REG = (C_SW << 4) | (D_SW);
                    cpu_2030.N_REG |= odd_parity[cpu_2030.N_REG & 0xff];
                    cpu_2030.MN_REG = ((cpu_2030.M_REG & 0xff) << 8) |
                                                  (cpu_2030.N_REG & 0xff);
-                   if (E_SW == 0x20) {
+                   if (E_SW == 0x20 && cpu_2030.MN_REG <= mem_max) {
                        cpu_2030.R_REG = M[cpu_2030.MN_REG] ^ 0x100;
                        cpu_2030.store = MAIN;
                    }
@@ -631,10 +631,10 @@ cycle_2030()
                    cpu_2030.R_REG = cpu_2030.Alu_out;
                    cpu_2030.M_REG = (A_SW << 4) | (B_SW);
                    cpu_2030.M_REG |= odd_parity[cpu_2030.M_REG];
-                   cpu_2030.M_REG = (C_SW << 4) | (D_SW);
+                   cpu_2030.N_REG = (C_SW << 4) | (D_SW);
                    cpu_2030.N_REG |= odd_parity[cpu_2030.N_REG];
                    cpu_2030.MN_REG = ((cpu_2030.M_REG & 0xff) << 8) | (cpu_2030.N_REG & 0xff);
-                   if (E_SW == 0x20) {
+                   if (E_SW == 0x20 && cpu_2030.MN_REG <= mem_max) {
                        M[cpu_2030.MN_REG] = cpu_2030.R_REG ^ 0x100;
                        cpu_2030.store = MAIN;
                    }
-- 
2.43.0


From 9a0f9c10ce0bc5d0bdf585a1492563fff2b1a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 09/51] fix: select Model 30 console local storage page like
 the CPU does

---
 src/model2030/cpu2030.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 700ac00..f18db4f 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -575,7 +575,7 @@ cycle_2030()
                        cpu_2030.store = MAIN;
                    }
                    if (E_SW == 0x21) {
-                       cpu_2030.R_REG = cpu_2030.LS[((cpu_2030.M_REG << 5) & 0x700) |
+                       cpu_2030.R_REG = cpu_2030.LS[((cpu_2030.M_REG << 3) & 0x700) |
                                         (cpu_2030.N_REG & 0xff)] ^ 0x100;
                        cpu_2030.store = LOCAL;
                    }
@@ -639,7 +639,7 @@ cycle_2030()
                        cpu_2030.store = MAIN;
                    }
                    if (E_SW == 0x21) {
-                       cpu_2030.LS[((cpu_2030.M_REG << 5) & 0x700) | (cpu_2030.N_REG & 0xff)] = cpu_2030.R_REG ^ 0x100;
+                       cpu_2030.LS[((cpu_2030.M_REG << 3) & 0x700) | (cpu_2030.N_REG & 0xff)] = cpu_2030.R_REG ^ 0x100;
                        cpu_2030.store = LOCAL;
                    }
                    cpu_2030.Abus = cpu_2030.R_REG;
-- 
2.43.0


From 4bf3445af10acae3da6fd56bc5ef88463e74bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 10/51] fix: unlink a cancelled event from the one before it

---
 src/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 6d186ba..fdd455f 100644
--- a/src/event.c
+++ b/src/event.c
@@ -122,7 +122,7 @@ cancel_event(struct _device *dev, _callback func)
            }
            /* Point previous event next to next */
            if (ptr_event->prev != NULL) {
-               ptr_event->next = ptr_event->next;
+               ptr_event->prev->next = ptr_event->next;
            } else {
                /* No previous, at head of list */
                event_head = ptr_event->next;
-- 
2.43.0


From 1bde6f0c2961e96f69350c28258b5f3043d3be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:56 +0000
Subject: [PATCH 11/51] fix: unlink an event before its callback runs

---
 src/event.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/event.c b/src/event.c
index fdd455f..c918de7 100644
--- a/src/event.c
+++ b/src/event.c
@@ -150,15 +150,16 @@ advance()
     log_event("Advance event %d\n", ptr_event->time);
     ptr_event->time--;
     while (ptr_event != NULL && ptr_event->time == 0) {
-         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         /* Unlink it first, callback could add or cancel events */
          event_head = ptr_event->next;
-         free(ptr_event);
-         ptr_event = event_head;
-         if (ptr_event != NULL) {
-             ptr_event->prev = NULL;
+         if (event_head != NULL) {
+             event_head->prev = NULL;
          } else {
              event_tail = NULL;
          }
+         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         free(ptr_event);
+         ptr_event = event_head;
     }
 }
 
-- 
2.43.0


From 644784373bdc855d75a524e54498f3347047013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 12/51] fix: keep configuration words inside their buffers

---
 src/conf.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 9449ad3..3af2093 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -113,7 +113,7 @@ get_model(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
+    while (len < 19 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
         /* Start of -#, save in temp1 */
         if (*line_ptr == '-' && (flags & 1) == 0) {
            flags |= 1;
@@ -187,9 +187,10 @@ get_addr(struct _option *opt)
         return 0;
     p = &temp1[0];
     len = 0;
-    while (len < 20 && isxdigit(*line_ptr)) {
+    while (len < 19 && isxdigit(*line_ptr)) {
        *p = toupper(*line_ptr);
        p++;
+       len++;
        line_ptr++;
     }
     *p = '\0';
@@ -230,7 +231,7 @@ get_string(struct _option *opt)
         quote = 1;
         line_ptr++;
     }
-    while (len < 1024) {
+    while (len < 1023) {
        if (*line_ptr == '"' && quote) {
            line_ptr++;
            if (*line_ptr == '"') {
@@ -275,7 +276,7 @@ get_option(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-')) {
+    while (len < 19 && (isalnum(*line_ptr) || *line_ptr == '-')) {
        *p = toupper(*line_ptr);
        p++;
        len++;
-- 
2.43.0


From 5252088b649cdc8d40765ca348b0aa451419d2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:50 +0000
Subject: [PATCH 13/51] fix: end a configuration string at the end of the line

---
 src/conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index 3af2093..d982e6e 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -243,7 +243,7 @@ get_string(struct _option *opt)
                return 1;
            }
        } else {
-           if (quote == 0 && (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0')) {
+           if (*line_ptr == '\n' || *line_ptr == '\0' || (quote == 0 && isspace(*line_ptr))) {
                *p = '\0';
                return 1;
            }
-- 
2.43.0


From 2ef14db12c8cbb46ef0fe74c5c22de3374be7b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:54 +0000
Subject: [PATCH 14/51] fix: keep a doubled quote in a configuration string

---
 src/conf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/conf.c b/src/conf.c
index d982e6e..eddb660 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -236,6 +236,7 @@ get_string(struct _option *opt)
            line_ptr++;
            if (*line_ptr == '"') {
                *p = '"';
+               p++;
                line_ptr++;
                len++;
            } else if (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0') {
-- 
2.43.0


From 32b5816cd618adfcb129157ddb1ab787aaf01375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 15/51] fix: do not free the caller's option block on a bad
 model name

---
 src/conf.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index eddb660..e9b4f96 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -133,7 +133,6 @@ get_model(struct _option *opt)
             len++;
         } else {
             fprintf(stderr, "Invalid character in option\n");
-            free(opt);
             return 0;
         }
         line_ptr++;
-- 
2.43.0


From 4428aec7db43edbafa50c645cc19f94f6fcdc910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 16/51] fix: clear model letter and numbers before parsing a
 model name

---
 src/conf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/conf.c b/src/conf.c
index e9b4f96..8c522c8 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -111,6 +111,9 @@ get_model(struct _option *opt)
     if (*line_ptr == '#' || *line_ptr == '\n' || *line_ptr == '\0')
         return 0;
     /* Grab either a word or a number */
+    opt->model = '\0';
+    opt->dash_num = 0;
+    opt->slash_num = 0;
     p = &opt->opt[0];
     len = 0;
     while (len < 19 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
-- 
2.43.0


From 8ead8de97887f29d564ddf631648dfa93ff743a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 17/51] fix: report an option without a value as having no
 index

---
 src/conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index 8c522c8..f09c1d8 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -327,7 +327,7 @@ get_index(struct _option *opt, char *list[])
 
     if (opt->string[0] == '\0') {
        fprintf(stderr, "Option %s requires a value\n", opt->opt);
-       return 0;
+       return -1;
     }
 
     for (i = 0; list[i] != NULL; i++) {
-- 
2.43.0


From 3cd2aeaecb37073aa5a0514fa4359e5269deced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 18/51] fix: accept the blank card count of a 1442

---
 src/model1442/panel1442.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1442/panel1442.c b/src/model1442/panel1442.c
index 271c812..1720de9 100644
--- a/src/model1442/panel1442.c
+++ b/src/model1442/panel1442.c
@@ -98,7 +98,7 @@ model1442_create(struct _option *opt)
                empty_cards(ctx->feed);
            } else if (strcmp(opts.opt, "BLANK") == 0 && opts.flags == 1) {
                int num;
-               if (get_integer(&opts, &num) != 0)
+               if (get_integer(&opts, &num) == 0)
                    return 0;
                blank_deck(ctx->feed, num);
            } else if (strcmp(opts.opt, "FORMAT") == 0) {
-- 
2.43.0


From 7d0bbbd822c9b8521be3de56e3d579b946b0e3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 19/51] fix: let a comma separate configuration options

---
 src/conf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index f09c1d8..60ed799 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -270,8 +270,8 @@ get_option(struct _option *opt)
     opt->opt[0] = '\0';
     opt->string[0] = '\0';
     opt->flags = 0;
-    /* Skip leading space */
-    while(isspace(*line_ptr))
+    /* Skip leading space and separators */
+    while(isspace(*line_ptr) || *line_ptr == ',')
         line_ptr++;
     /* If comment or end of line, we got nothing */
     if (*line_ptr == '#' || *line_ptr == '\n' || *line_ptr == '\0')
-- 
2.43.0


From 56c97a2e30846adea2c6d3155d21c14f5cd06498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:50 +0000
Subject: [PATCH 20/51] fix: 1442 takes data from the channel only on service
 out, without its parity bit

---
 src/model1442/model1442.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index b0cc740..e9cc26d 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -714,7 +714,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  /* Wait for service out or command out */
                  *tags &= ~(CHAN_SRV_IN);   /* Clear service in request */
                  ctx->data_rdy = 0;
-                 if ((ctx->cmd & 1) != 0) { /* Write command */
+                 if ((*tags & CHAN_SRV_OUT) != 0 && (ctx->cmd & 1) != 0) { /* Write command */
                       /* Device selected */
                       if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
                           ctx->sense |= SENSE_BUSCHK;
@@ -724,7 +724,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out; /* Grab data */
+                          ctx->data = bus_out & 0xff; /* Grab data */
                       }
                  }
                  ctx->state = STATE_OPR;   /* Go to process this data */
-- 
2.43.0


From 2200f02cc23859f9b739f12142b8a4169a72b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 21/51] fix: 1052 takes a data byte without its parity bit

---
 src/model1052/model1052.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index b71378f..221a553 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -671,7 +671,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out;
+                          ctx->data = bus_out & 0xff;
                           add_event(unit, &send_callback, 5000, NULL, 0);
                       }
                  }
-- 
2.43.0


From 838fc7b525e58b7ac355ddce57e59e29dc9c2f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 22/51] fix: 2415 takes data from the channel only on service
 out and keeps its status on stop

---
 src/model2415/model2415.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 5f2ff55..5b81de9 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1306,7 +1306,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  /* Wait for service out or command out */
                  *tags &= ~(CHAN_SRV_IN);   /* Clear service in request */
                  ctx->data_rdy = 0;
-                 if ((ctx->cmd & 1) != 0) { /* Write command */
+                 if ((*tags & CHAN_SRV_OUT) != 0 && (ctx->cmd & 1) != 0) { /* Write command */
                       /* Device selected */
                       if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
                           ctx->sense[0] |= SENSE_BUSCHK;
@@ -1322,7 +1322,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  ctx->state = STATE_OPR;   /* Go to process this data */
                  if ((*tags & CHAN_CMD_OUT) != 0) {  /* CPU is done sending data */
                      ctx->data_end = 1;
-                     ctx->status = SNS_CHNEND;
+                     ctx->status |= SNS_CHNEND;
                  }
              }
              break;
-- 
2.43.0


From fabe3b13522f7fc992a35e1b9018901ae94e499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:01 +0000
Subject: [PATCH 23/51] fix: 2415 holds the address of the selected unit on the
 bus while it waits for a command

---
 src/model2415/model2415.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 5b81de9..6b3143b 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1014,7 +1014,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             unit->request = 0;
 
             log_device("2415: %03x waiting command %02x\n",unit->addr, ctx->status);
-            *bus_in = (unit->addr & 0xff) | odd_parity[unit->addr & 0xff];
+            *bus_in = ctx->cur_unit | (unit->addr & 0xf8);
+            *bus_in |= odd_parity[*bus_in];
             /* we get command out, process command */
             if ((*tags & (CHAN_CMD_OUT)) != 0) {
                 *tags &= ~(CHAN_ADR_IN);        /* Command out, drop addressin */
-- 
2.43.0


From 439270cc63010897c77cd39d962d0e9981cc1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 24/51] fix: 2415 reports device end of the unit that became
 ready

---
 src/model2415/model2415.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 6b3143b..6495716 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -981,7 +981,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  if ((*tags & CHAN_SUP_OUT) == 0 && (unit->request || unit->stacked)) {
                      *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
                      *tags |= CHAN_OPR_IN;      /* Put our address on bus */
-                     if ((ctx->rdy_flags & (1 << ctx->t_scan)) == 0) {
+                     if ((ctx->rdy_flags & (1 << ctx->t_scan)) != 0) {
                          *bus_in = (unit->addr & 0xf8) | ctx->t_scan;
                          *bus_in |= odd_parity[*bus_in];
                          ctx->cur_unit = ctx->t_scan;
-- 
2.43.0


From f8ed73a24b77fbdddb772be7ef5e59749f09aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 25/51] fix: interface reset drops the stacked status of a 1442

---
 src/model1442/model1442.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index e9cc26d..d9e05ff 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -321,6 +321,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
         log_device("1442: %03x reset\n",unit->addr);
         unit->selected = 0;
         unit->request = 0;
+        unit->stacked = 0;
         ctx->state = STATE_IDLE;
         ctx->status = 0;
         ctx->sense = 0;
-- 
2.43.0


From 247b9f9ee240e9f16cf6230abdb6630ca90ae862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 26/51] fix: interface reset drops stacked status, status and
 sense of a 2415

---
 src/model2415/model2415.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 6495716..7d76409 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -894,8 +894,10 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
         log_device("2415: %03x reset\n",unit->addr);
         unit->selected = 0;
         unit->request = 0;
+        unit->stacked = 0;
         ctx->state = STATE_IDLE;
-        ctx->sense[0] = 0;
+        ctx->status = 0;
+        memset(ctx->sense, 0, sizeof(ctx->sense));
         ctx->cmd = 0;
         ctx->cmd_done = 0;
         ctx->busy = 0;
-- 
2.43.0


From edfcfe7ff56315d4e6e6e086db090c4cde66ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 27/51] fix: interface reset drops the stacked status and
 status of a 1052

---
 src/model1052/model1052.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 221a553..2adb476 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -267,7 +267,9 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
         log_device("1052: %03x reset\n",unit->addr);
         unit->selected = 0;
         unit->request = 0;
+        unit->stacked = 0;
         ctx->state = STATE_IDLE;
+        ctx->status = 0;
         ctx->sense = 0;
         ctx->cmd = 0;
         ctx->cmd_done = 0;
-- 
2.43.0


From 701b84ac8ab9275497365b948642ce7cf390abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:34 +0000
Subject: [PATCH 28/51] fix: a 2415 answers only for units it can have and
 reports an absent drive as not ready

---
 src/model2415/model2415.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 7d76409..589fb95 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -950,7 +950,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             if ((*tags & CHAN_SEL_OUT) != 0) {
                  /* Check if looking for this device */
                  if ((*tags & CHAN_ADR_OUT) != 0) {
-                     if ((bus_out & 0xf8) == (unit->addr & 0xf8)) {
+                     if ((bus_out & 0xf8) == (unit->addr & 0xf8) && (bus_out & 0x7) < 6) {
                         *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
                         /* Check if parity error on bus */
                         if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
-- 
2.43.0


From 7d85fc36c4f623a77599500c22cb0b750123cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:37 +0000
Subject: [PATCH 29/51] fix: log the tags of a device in a state without a name

---
 src/device/device.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/device.c b/src/device/device.c
index 0d6f7d7..89a5235 100644
--- a/src/device/device.c
+++ b/src/device/device.c
@@ -57,7 +57,7 @@ print_tags(char *name, int state, uint16_t tags, uint16_t bus_out)
         int i;
 
         sprintf(buffer, "%s state=%s Tags: bus=%03x %04x ", name,
-                         state_tags[state], bus_out, tags);
+                         (state >= 0 && state <= STATE_DATA_2) ? state_tags[state] : "?", bus_out, tags);
         for (i = 0; i < 16; i++) {
             if (bus_tags[i] != NULL) {
               if ((tags & (0x8000 >> i)) != 0) {
-- 
2.43.0


From 188fbd029d367211ccf62691cb30317dda624e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 30/51] fix: 2415 reports an absent drive as not ready

---
 src/model2415/model2415.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 589fb95..12de2ec 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -629,7 +629,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                              SENSE_LOAD|SENSE_NORING);
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == NULL) {
+           if (ctx->tape[ctx->cur_unit] == NULL || ctx->tape[ctx->cur_unit]->file_name == NULL) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -669,7 +669,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            ctx->sense[2] = SENSE_2;
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == NULL) {
+           if (ctx->tape[ctx->cur_unit] == NULL || ctx->tape[ctx->cur_unit]->file_name == NULL) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -696,7 +696,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            ctx->sense[3] = 0;
 
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == 0) {
+           if (ctx->tape[ctx->cur_unit] == NULL || ctx->tape[ctx->cur_unit]->file_name == NULL) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -783,7 +783,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                              SENSE_LOAD|SENSE_NORING);
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == 0) {
+           if (ctx->tape[ctx->cur_unit] == NULL || ctx->tape[ctx->cur_unit]->file_name == NULL) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
-- 
2.43.0


From c1a429fd8eff97933f055a358fd87b54058d18ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 31/51] fix: 1442 waits for command out to drop before it
 raises status in

---
 src/model1442/model1442.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index d9e05ff..2f269ca 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -475,6 +475,9 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STATUS:
              /* Wait for Command out to drop */
              *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);      /* Drop address in */
+             if ((*tags & CHAN_CMD_OUT) != 0) {
+                 break;
+             }
 
              *bus_in = ctx->status | odd_parity[ctx->status];
              log_device("1442: %03x initial status %02x\n",unit->addr, ctx->status);
-- 
2.43.0


From 7954da295b2a82860b2658b14693ee0074edbe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:01 +0000
Subject: [PATCH 32/51] fix: 2415 waits for command out to drop before it
 raises status in

---
 src/model2415/model2415.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 12de2ec..92da471 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1069,6 +1069,9 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STATUS:
              /* Wait for Command out to drop */
              *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);      /* Drop address in */
+             if ((*tags & CHAN_CMD_OUT) != 0) {
+                 break;
+             }
              *bus_in = ctx->status | odd_parity[ctx->status];
              log_device("2415: %03x initial status %02x\n",unit->addr, ctx->status);
              *tags |= (CHAN_STA_IN);
-- 
2.43.0


From c07c7446561cd8cfae28c32624b4963a21d20292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 33/51] fix: 1052 waits for command out to drop before it
 raises status in

---
 src/model1052/model1052.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 2adb476..d3e3f5c 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -421,6 +421,9 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STATUS:
              /* Wait for Command out to drop */
              *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);      /* Drop address in */
+             if ((*tags & CHAN_CMD_OUT) != 0) {
+                 break;
+             }
 
              if (ctx->attn_flg) {
                  model1052_func(ctx, &out_tags, BIT6, NULL);
-- 
2.43.0


From 2a4bfaa2119ee2dda1c9321b68d8bcc92fbd23cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 34/51] fix: keep the Model 50 storage key index inside the key
 array

---
 src/model2050/cpu2050.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index d92a6af..9b59b28 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -2865,7 +2865,7 @@ cycle_2050()
     case 4:  /* D */
             /* Check storage protection */
             if (cpu_2050.KEY != 0 &&
-                   cpu_2050.KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                   cpu_2050.KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff]) {
                 cpu_2050.NROAR = STPR;
                 break;
             }
@@ -2964,7 +2964,7 @@ cycle_2050()
     case 13:  /* SCAN->D */
             /* Check storage protection */
             if (cpu_2050.KEY != 0 &&
-                     cpu_2050.KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                     cpu_2050.KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff]) {
                 cpu_2050.NROAR = STPR;
                 break;
             }
@@ -2996,14 +2996,14 @@ cycle_2050()
             /* Check storage protection */
             if (cpu_2050.io_mode) {
                 if (cpu_2050.bump_mem == 0 && cpu_2050.IO_KEY != 0 &&
-                     cpu_2050.IO_KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                     cpu_2050.IO_KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff]) {
                      cpu_2050.FLAGS_REG[cpu_2050.CH] |= CHAN_PROT;
                      cpu_2050.IF_STOP[cpu_2050.CH] = 1;
                      break;
                 }
             } else {
                 if (cpu_2050.KEY != 0 &&
-                       cpu_2050.KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                       cpu_2050.KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff]) {
                     cpu_2050.NROAR = STPR;
                     break;
                 }
@@ -3071,7 +3071,7 @@ cycle_2050()
               /* D*BI under I/O mode */
             if (cpu_2050.io_mode) {
                 if (cpu_2050.bump_mem == 0 && cpu_2050.IO_KEY != 0 &&
-                     cpu_2050.IO_KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                     cpu_2050.IO_KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff]) {
                      cpu_2050.FLAGS_REG[cpu_2050.CH] |= CHAN_PROT;
                      cpu_2050.IF_STOP[cpu_2050.CH] = 1;
                      break;
@@ -3089,7 +3089,7 @@ cycle_2050()
     case 29:  /* D,BS gate D to SDR based on BS */
             /* Check storage protection */
             if (cpu_2050.KEY != 0 &&
-                     cpu_2050.KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                     cpu_2050.KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff]) {
                 cpu_2050.NROAR = STPR;
                 break;
             }
@@ -3453,11 +3453,11 @@ cycle_2050()
             break;
 
     case 30: /* KEY->F */
-            cpu_2050.F_REG = cpu_2050.MP[cpu_2050.SAR_REG >> 11];
+            cpu_2050.F_REG = cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff];
             break;
 
     case 31: /* F->KEY */
-            cpu_2050.MP[cpu_2050.SAR_REG >> 11] = cpu_2050.F_REG;
+            cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0xff] = cpu_2050.F_REG;
             break;
 
     case 32: /* 1->LSGNS */
-- 
2.43.0


From 73e847ef61f289967b92cfb04f668629b7532690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 35/51] fix: keep the Model 50 F register in four bits on
 F->SL1->Q

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 9b59b28..13d8d55 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -2674,7 +2674,7 @@ cycle_2050()
     case 15: /* F->SL1->Q */
             cpu_2050.aob_latch = (cpu_2050.alu_out << 1) |
                      ((cpu_2050.F_REG >> 3) & 1);
-            cpu_2050.F_REG = (cpu_2050.F_REG << 1);
+            cpu_2050.F_REG = (cpu_2050.F_REG << 1) & 0xf;
             cpu_2050.Q_REG = ((cpu_2050.alu_out & BIT0L) != 0);
             break;
 
-- 
2.43.0


From 300af1701e2c6d0cc5e4c399446c8ab0c3c2d1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 36/51] fix: Model 50 A|(B=0) branch waits for a B bit taken
 from the adder

---
 src/model2050/cpu2050.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 13d8d55..f34eb6e 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -1558,7 +1558,8 @@ cycle_2050()
             break;
 
     case 2: /* A|(B=0)->A */
-            a_bit |= !b_bit;
+            if (sal->bb < 30)     /* Otherwise done when adder is known */
+                a_bit |= !b_bit;
             cpu_2050.NROAR |= sal->zf << 2;
             break;
 
-- 
2.43.0


From 3313efb11fc819e68d91b5d922dd727ddfc1274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 37/51] fix: address all of a Model 50's storage and nothing
 beyond it

---
 src/model2050/cpu2050.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index f34eb6e..9b1c576 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -843,7 +843,8 @@ cycle_2050()
              break;
 
     case 0:  /* Memory cycle at system reset */
-             cpu_2050.SDR_REG = M[SA >> 2];
+             if (SA <= mem_max)
+                 cpu_2050.SDR_REG = M[SA >> 2];
              cpu_2050.mem_state = W1;
     case W1:
              /* Fall through */
@@ -853,14 +854,14 @@ cycle_2050()
                  if (cpu_2050.bump_mem) {
                      uint32_t ba = (((SA >> 6) & 0x0f00) | (SA & 0x0Fc)) >> 2;
                      cpu_2050.BUMP[ba] = cpu_2050.SDR_REG;
-                 } else {
+                 } else if (SA <= mem_max) {
                     M[SA >> 2] = cpu_2050.SDR_REG;
                     if ((SA >> 2) == (cpu_2050.IA_REG >> 2)) {
                         cpu_2050.REFETCH = 1;
                     }
                  }
              }
-             SA = cpu_2050.SAR_REG & 0x3ffff;
+             SA = cpu_2050.SAR_REG & 0xffffff;
 
 
              if (cpu_2050.init_mem | cpu_2050.init_bump_mem) {
-- 
2.43.0


From 504af852b758a51f31b09922501567bdc3c606c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 38/51] fix: a 1442 stops punching when the channel ends the
 command

---
 src/model1442/model1442.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 2f269ca..2bd99f1 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -109,6 +109,23 @@ write_callback(struct _device *unit, void *arg, int iarg)
     struct _1442_context *ctx = (struct _1442_context *)unit->dev;
 
     log_device("reader Write get1\n");
+    /* If the command ended early, there is nothing more to punch */
+    if (ctx->data_end) {
+        if (ctx->busy) {
+            ctx->status |= SNS_CHNEND;
+            if ((ctx->cmd & 0x80) != 0) {
+                add_event(unit, &feed_callback, 1000, NULL, 0);
+            } else {
+                ctx->status |= SNS_DEVEND;
+                ctx->cmd_done = 1;
+                ctx->busy = 0;
+                ctx->cmd = 0;
+                unit->request = 1;
+            }
+        }
+        return;
+    }
+
     if (ctx->data_rdy) {
         ctx->sense |= SENSE_OVRRUN;
         ctx->status |= SNS_CHNEND|SNS_UNITCHK;
-- 
2.43.0


From 512729a39221912d472fef048f06cad590626df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 39/51] fix: a 1442 drops its pending operation on interface
 reset and on a bad data byte

---
 src/model1442/model1442.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 2bd99f1..9d42ad3 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -347,6 +347,9 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
         ctx->busy = 0;
         ctx->data_end = 0;
         ctx->data_rdy = 0;
+        cancel_event(unit, &read_callback);
+        cancel_event(unit, &write_callback);
+        cancel_event(unit, &feed_callback);
         return;
     }
 
@@ -744,6 +747,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->status |= SNS_CHNEND|SNS_DEVEND;
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
+                          cancel_event(unit, &write_callback);
                       } else {
                           ctx->data = bus_out & 0xff; /* Grab data */
                       }
-- 
2.43.0


From b1a4bcffebc94e6ffc61a6336ba9f5c4aa3fef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:25 +0000
Subject: [PATCH 40/51] fix: a 1443 moves to the next form, and skips as many
 lines as it says, past the last line of a form

---
 src/model1443/model1443.c | 41 +++++++++++++++------------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 3096da5..0eb65f4 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -977,14 +977,12 @@ print_line(struct _1443_context *ctx)
     }
     fflush(ctx->file);
 
-    f = 1;  /* Indicate we need to output a new line */
     if (l < 4) {
         while(l != 0) {
             fwrite("\r\n", 1, 2, ctx->file);
-            memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
+            memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
             memset(&ctx->output[14][0], 0, 120);
             r++;
-            f = 0;
             log_device( " Printer fcb: %04x\n", ctx->fcb[ctx->row]);
             if ((ctx->fcb[ctx->row] & (0x1000 >> 9)) != 0)
                 ch9 = 1;
@@ -993,18 +991,13 @@ print_line(struct _1443_context *ctx)
                 ch12 = 1;
             }
             ctx->row++;
-            if (ctx->row > ctx->lpp)
-                break;
+            /* Past last line, continue on next form */
+            if (ctx->row >= ctx->lpp) {
+               fwrite("\f", 1, 1, ctx->file);
+               ctx->row = 0;
+            }
             l--;
         }
-        if (ctx->row > ctx->lpp) {
-           memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-           memset(&ctx->output[14][0], 0, 120);
-           if (f)
-               fwrite("\r\n", 1, 2, ctx->file);
-           fwrite("\f", 1, 1, ctx->file);
-           ctx->row = 0;
-        }
         if (ch9 && (ctx->cmd & 0x3) == 0x1) {
            ctx->sense |= SENSE_CHAN9;
         }
@@ -1019,18 +1012,21 @@ print_line(struct _1443_context *ctx)
     mask = 0x1000 >> (l & 0xf);  /* Mask which channel to stop at */
     f = 0;     /* Indicate if we started new form */
     l = 0;     /* Total lines skipped */
-    r = 0;     /* What row we should be on */
-    for (i = ctx->row + 1; (ctx->fcb[i] & mask) == 0 && ctx->row != i; i++) {
-         l++;
-         r++;
-         if (i > ctx->lpp) {
+    r = 1;     /* How many lines to reach row */
+    for (i = ctx->row + 1; ; i++) {
+         if (i >= ctx->lpp) {
              log_device("printer skip2 %d > %d\n", i, ctx->lpp);
              fwrite("\r\n\f", 1, 3, ctx->file);
-             memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
+             memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
              memset(&ctx->output[14][0], 0, 120);
              f = 1;
+             i = 0;
              r = 0;
          }
+         if ((ctx->fcb[i] & mask) != 0 || ctx->row == i)
+             break;
+         l++;
+         r++;
     }
 
     /* If we passed over form, clear row */
@@ -1041,14 +1037,9 @@ print_line(struct _1443_context *ctx)
     if (ctx->fcb[i] & mask) {
         while (r-- > 0) {
            fwrite("\r\n", 1, 2, ctx->file);
-           memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
+           memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
            memset(&ctx->output[14][0], 0, 120);
            ctx->row++;
-           if (ctx->row > ctx->lpp) {
-               log_device("printer skip %d > %d\n", ctx->row, ctx->lpp);
-               fwrite("\f", 1, 1, ctx->file);
-               ctx->row = 0;
-           }
         }
     }
     time += 20 + (5 * l);
-- 
2.43.0


From 1f4391d41c3c33e7233250d2744abc83d4c34898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:14 +0000
Subject: [PATCH 41/51] fix: every write to a 2415 was refused, a started write
 was taken for an error

---
 src/model2415/model2415.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 92da471..feb61b9 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -641,14 +641,14 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            }
            /* Do a write start */
            r = tape_write_start(ctx->tape[ctx->cur_unit]);
-           if (r == 1) {
+           if (r == TAPE_STATUS_OK) {
               ctx->sense[0] = SENSE_WCZERO;
               ctx->sense[1] |= SENSE_WRITE;
               add_event(unit, &tape_callback, START_DELAY,
                        (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
               ctx->cmd_done = 0;
               ctx->data_rdy = 1;
-           } else if (r == 2) {
+           } else if (r == TAPE_STATUS_WRP) {
                ctx->sense[0] = SENSE_CMDREJ;
            } else {
                ctx->sense[0] = SENSE_INTERV;
-- 
2.43.0


From ef6bf2fad92a6565cfc39642ef6d3b2bf0a2fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 42/51] fix: a 2415 command hung, or ended without a unit
 check, on a tape error or the end of the tape

---
 src/model2415/model2415.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index feb61b9..6f0571a 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -204,6 +204,10 @@ done_callback(struct _device *unit, void *arg, int u)
         ctx->rdy_flags |= 1 << u;  /* Set ready flag for device */
     }
     ctx->status |= SNS_DEVEND;
+    /* Sense data is announced by a unit check */
+    if (ctx->sense[0] != 0) {
+        ctx->status |= SNS_UNITCHK;
+    }
     log_device("Do done command %d %d %02x\n", ctx->data_end, ctx->data_rdy, ctx->status);
 }
 
@@ -259,6 +263,9 @@ tape_callback(struct _device *unit, void *arg, int u)
                    }
                }
                r = tape_finish_rec(tape);
+               if (r != TAPE_STATUS_OK) {
+                   ctx->sense[0] |= SENSE_DATCHK;
+               }
                add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
            } else if (ctx->data_rdy == 0) {
               /* Do a write start */
@@ -309,7 +316,12 @@ tape_callback(struct _device *unit, void *arg, int u)
                    ctx->data |= parity_table[ctx->data] ^ mode;
                } else {
                    r = tape_write_frame(tape, ctx->data);
-                   ctx->data_rdy = 1;
+                   if (r == TAPE_STATUS_OK) {
+                       ctx->data_rdy = 1;
+                   } else {
+                       ctx->sense[0] |= SENSE_DATCHK;
+                       ctx->data_end = 1;
+                   }
                }
                add_event(unit, tape_callback, FRAME_DELAY, (void *)tape, u);
            } else {
@@ -350,8 +362,13 @@ tape_callback(struct _device *unit, void *arg, int u)
                log_device("Tape read frame %d\n", r);
                switch(r) {
                case TAPE_STATUS_FILE_ERROR:
+               default:
                    /* Set up read error */
-                    break;
+                   ctx->data_end = 1;
+                   ctx->sense[0] |= SENSE_DATCHK;
+                   ctx->status |= SNS_CHNEND|SNS_UNITCHK;
+                   add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
+                   break;
 
                case TAPE_STATUS_EOT:
                case TAPE_STATUS_BOT:
@@ -447,8 +464,6 @@ tape_callback(struct _device *unit, void *arg, int u)
                    log_device("Tape Queued: %02x %d\n", ctx->data, ctx->data_rdy);
                    break;
 
-               default:
-                   log_device("Unhandled status\n");
                }
            }
            break;
@@ -484,6 +499,9 @@ tape_callback(struct _device *unit, void *arg, int u)
            case 0x1f:    /* Write tape mark */
                 r = tape_write_mark(tape);
                 log_device("Write tape mark %d\n", r);
+                if (r != TAPE_STATUS_OK) {
+                    ctx->sense[0] |= SENSE_DATCHK;
+                }
                 add_event(unit, done_callback, 10*FRAME_DELAY, (void *)tape, u);
                 break;
            case 0x37:    /* Forward space block */
@@ -494,7 +512,8 @@ tape_callback(struct _device *unit, void *arg, int u)
                 log_device("space tape %d\n", r);
                 switch(r) {
                 case TAPE_STATUS_FILE_ERROR:
-                     /* Set up read error */
+                default:
+                     /* Set up read error, or ran off the tape */
                      ctx->status |= SNS_UNITCHK;
                      add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
                      break;
-- 
2.43.0


From 6b32ef1d71f619e0008ae239dacbe5f3b68d1928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 43/51] fix: a 2415 read overrun left the tape in the middle of
 the record

---
 src/model2415/model2415.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 6f0571a..29f65e1 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -340,7 +340,8 @@ tape_callback(struct _device *unit, void *arg, int u)
               the rest of the data */
            log_device("Do read command %d %d %d\n", ctx->data_end, ctx->data_rdy, ctx->state);
            if (ctx->data_end) {
-               r = tape_read_frame(tape, &ctx->data);
+               uint8_t   skip;
+               r = tape_read_frame(tape, &skip);
                log_device("Tape read frame dataend %d\n", r);
                if (r != TAPE_STATUS_OK) {
                    /* Process end */
@@ -356,7 +357,8 @@ tape_callback(struct _device *unit, void *arg, int u)
                ctx->data_end = 1;
                ctx->sense[0] |= SENSE_OVRRUN;
                ctx->status |= SNS_CHNEND|SNS_UNITCHK;
-               add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
+               /* Move to end of record */
+               add_event(unit, tape_callback, FRAME_DELAY, (void *)tape, u);
            } else {
                r = tape_read_frame(tape, &ctx->data);
                log_device("Tape read frame %d\n", r);
-- 
2.43.0


From dd1fe5752245e659dd0e029237ececed35896108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 44/51] fix: a 2415 took a new command while one was running,
 and dropped the device end of a halted one

---
 src/model2415/model2415.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 29f65e1..8a9dcdf 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -208,6 +208,15 @@ done_callback(struct _device *unit, void *arg, int u)
     if (ctx->sense[0] != 0) {
         ctx->status |= SNS_UNITCHK;
     }
+    /* Tell waiting channel that control unit is free */
+    if (ctx->ctrl_busy) {
+        ctx->status |= SNS_CTLEND;
+        ctx->ctrl_busy = 0;
+    }
+    /* If halted, ask for channel to present status */
+    if (unit->selected == 0) {
+        unit->request = 1;
+    }
     log_device("Do done command %d %d %02x\n", ctx->data_end, ctx->data_rdy, ctx->status);
 }
 
@@ -482,6 +491,9 @@ tape_callback(struct _device *unit, void *arg, int u)
                 ctx->run_flags |= 1 << ctx->cur_unit;
                 ctx->status = SNS_CTLEND|SNS_DEVEND|SNS_UNITCHK;
                 ctx->cmd = 0;
+                if (unit->selected == 0) {
+                    unit->request = 1;
+                }
                 break;
            case 0x07:    /* Rewind */
                 log_device("start rewind %d\n", ctx->chaining);
@@ -493,6 +505,9 @@ tape_callback(struct _device *unit, void *arg, int u)
                     ctx->cmd_done = 1;
                     ctx->status |= SNS_DEVEND;
                     ctx->cmd = 0;
+                    if (unit->selected == 0) {
+                        unit->request = 1;
+                    }
                 }
                 break;
            case 0x17:    /* Erase gap */
@@ -892,6 +907,8 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     }
     if (ctx->cmd_done != 0) {
         ctx->status |= SNS_DEVEND;
+    } else if (ctx->cmd != 4) {
+        ctx->busy = 1;
     }
 }
 
@@ -913,6 +930,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
            *tags &= ~(CHAN_OPR_IN|CHAN_ADR_IN|CHAN_SRV_IN|CHAN_STA_IN);
         }
         log_device("2415: %03x reset\n",unit->addr);
+        cancel_event(unit, &tape_callback);
+        cancel_event(unit, &done_callback);
         unit->selected = 0;
         unit->request = 0;
         unit->stacked = 0;
@@ -1176,12 +1195,10 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  /* If address out, halt device */
                  if ((*tags & CHAN_ADR_OUT) != 0) {
                      log_device("2415: %03x Halt IO\n",unit->addr);
-                     if (ctx->data_end == 0) {
+                     if (ctx->busy && ctx->data_end == 0) {
                          ctx->data_rdy = 0;
                          ctx->data_end = 1;
-                         ctx->status |= SNS_CHNEND|SNS_DEVEND;
-                         ctx->cmd_done = 1;
-                         unit->request = 1;
+                         ctx->status |= SNS_CHNEND;
                      }
                  }
              }
@@ -1337,11 +1354,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                       /* Device selected */
                       if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
                           ctx->sense[0] |= SENSE_BUSCHK;
-                          ctx->status |= (SNS_UNITCHK);
+                          ctx->status |= (SNS_UNITCHK|SNS_CHNEND);
                           ctx->data_end = 1;
-                          ctx->status |= SNS_CHNEND|SNS_DEVEND;
-                          ctx->busy = 0;
-                          ctx->cmd_done = 1;
                       } else {
                           ctx->data = bus_out; /* Grab data */
                       }
-- 
2.43.0


From 9f6b594352327cd7d257fa7dc1a1c704ce0f7373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:44 +0000
Subject: [PATCH 45/51] fix: a finished 2415 rewind broke off whatever its unit
 was doing, and a chained one could stay unreported

---
 src/model2415/model2415.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 8a9dcdf..417de6a 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -151,7 +151,7 @@ model2415_rewind_callback(struct _device *unit, void *arg, int u)
                log_device("Detach device %d\n", u);
                tape_detach(tape);
                ctx->run_flags &= ~(1 << u);
-           } else if (ctx->cur_unit == u && ctx->state != STATE_IDLE) {
+           } else if (ctx->cur_unit == u && ctx->cmd == 0x07) {
                if (ctx->chaining) {
                    log_device("Chain done device %d\n", u);
                }
@@ -159,6 +159,9 @@ model2415_rewind_callback(struct _device *unit, void *arg, int u)
                ctx->status &= ~(SNS_CTLEND|SNS_UNITCHK);
                ctx->cmd = 0;
                ctx->cmd_done = 1;
+               if (unit->selected == 0) {
+                   unit->request = 1;
+               }
                log_device("Rewind finished %d\n", u);
            } else {
                ctx->rdy_flags |= 1 << u;
@@ -178,7 +181,7 @@ model2415_rewind_callback(struct _device *unit, void *arg, int u)
         if (ctx->run_flags & (1 << u)) {
             tape_detach(tape);
             ctx->run_flags &= ~(1 << u);
-        } else if (ctx->cur_unit == u && ctx->state != STATE_IDLE) {
+        } else if (ctx->cur_unit == u && ctx->cmd == 0x07) {
             if (ctx->chaining) {
                 log_device("Chain done device %d\n", u);
             }
@@ -186,6 +189,9 @@ model2415_rewind_callback(struct _device *unit, void *arg, int u)
             ctx->cmd = 0;
             ctx->status &= ~(SNS_CTLEND|SNS_UNITCHK);
             ctx->cmd_done = 1;
+            if (unit->selected == 0) {
+                unit->request = 1;
+            }
         } else {
             ctx->rdy_flags |= 1 << u;
         }
-- 
2.43.0


From 05419fb3b8b57bbdb409b2525bfe69d9fa887496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:18 +0000
Subject: [PATCH 46/51] fix: a 2415 took a sense command with modifier bits for
 an operation in progress

---
 src/model2415/model2415.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 417de6a..9fa535b 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -898,7 +898,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            ctx->cmd_done = 1;
            break;
     }
-    if (ctx->cmd != 4 && ((ctx->sense[0] & ~(SENSE_WCZERO)) != 0 ||
+    if ((ctx->cmd & 0xf) != 4 && ((ctx->sense[0] & ~(SENSE_WCZERO)) != 0 ||
                             (ctx->sense[1] & BIT7) != 0)) {
         ctx->status |= SNS_UNITCHK;
         if (ctx->tape[ctx->cur_unit] != NULL) {
@@ -913,7 +913,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     }
     if (ctx->cmd_done != 0) {
         ctx->status |= SNS_DEVEND;
-    } else if (ctx->cmd != 4) {
+    } else if ((ctx->cmd & 0xf) != 4) {
         ctx->busy = 1;
     }
 }
-- 
2.43.0


From 2ebcde18c38389c5b3d71a182f302636bb1401c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:09 +0000
Subject: [PATCH 47/51] fix: a tape write after reading to the end of the
 buffer went to the wrong place

---
 src/device/tape.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index e51db5a..65067eb 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -287,9 +287,10 @@ tape_write_byte(struct _tape_buffer *tape, uint8_t data)
                  log_error("Tape write failed %s %d\n", tape->file_name, r);
                  return TAPE_STATUS_FILE_ERROR;
              }
-             tape->pos += tape->len_buff;
              tape->dirty = 0;
          }
+         /* Advance tape by size of buffer */
+         tape->pos += tape->len_buff;
          tape->len_buff = 0;
          tape->pos_buff = 0;
      }
-- 
2.43.0


From e397798f474c96b37c6becaa40fd073c5da0d61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 48/51] fix: a failed read of a tape file indexed before the
 buffer and moved the tape

---
 src/device/tape.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index 65067eb..7658692 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -209,7 +209,12 @@ tape_read_byte(struct _tape_buffer *tape, uint8_t *data)
          lseek(tape->fd, tape->pos, SEEK_SET);
          tape->len_buff = read(tape->fd, tape->buffer, sizeof(tape->buffer));
          tape->pos_buff = 0;
-         if (tape->len_buff <= 0) {
+         if (tape->len_buff < 0) {
+             log_error("Tape read failed %s\n", tape->file_name);
+             tape->len_buff = 0;
+             return TAPE_STATUS_FILE_ERROR;
+         }
+         if (tape->len_buff == 0) {
              tape->format |= TAPE_EOT;
              log_tape("Tape EOT\n");
              return TAPE_STATUS_EOT;
@@ -254,7 +259,12 @@ tape_peek_byte(struct _tape_buffer *tape, uint8_t *data)
          lseek(tape->fd, tape->pos, SEEK_SET);
          tape->len_buff = read(tape->fd, tape->buffer, sizeof(tape->buffer));
          tape->pos_buff = 0;
-         if (tape->len_buff <= 0) {
+         if (tape->len_buff < 0) {
+             log_error("Tape read failed %s\n", tape->file_name);
+             tape->len_buff = 0;
+             return TAPE_STATUS_FILE_ERROR;
+         }
+         if (tape->len_buff == 0) {
              log_tape("Tape EOT\n");
              return TAPE_STATUS_EOT;
          }
@@ -337,21 +347,22 @@ tape_readbk_byte(struct _tape_buffer *tape, uint8_t *data)
             tape->len_buff = 0;
             return TAPE_STATUS_BOT;
          } else {
-             int       opos = -1;
+             int       opos = sizeof(tape->buffer);
 
              /* Backup current buffer first position */
              if (tape->pos < sizeof(tape->buffer)) {
                  opos = tape->pos;
-                 tape->pos = 0;
-             } else {
-                 tape->pos -= sizeof(tape->buffer);
              }
+             tape->pos -= opos;
              lseek(tape->fd, tape->pos, SEEK_SET);
              tape->len_buff = read(tape->fd, tape->buffer, sizeof(tape->buffer));
-             if (opos == -1) {
-                 tape->pos_buff = tape->len_buff;
-             } else {
-                 tape->pos_buff = opos;
+             tape->pos_buff = opos;
+             if (tape->len_buff < opos) {
+                 log_error("Tape read failed %s\n", tape->file_name);
+                 tape->pos += opos;
+                 tape->pos_buff = 0;
+                 tape->len_buff = 0;
+                 return TAPE_STATUS_FILE_ERROR;
              }
          }
          tape->format &= ~TAPE_EOT;
-- 
2.43.0


From 76c9337983f1212ecc93a1ee884621f43c188154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 49/51] fix: finishing a record that the tape file cuts off did
 not end

---
 src/device/tape.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index 7658692..326f959 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -782,8 +782,12 @@ tape_read_frame(struct _tape_buffer *tape, uint8_t *data)
                        if (tape->lrecl == 2)
                            return TAPE_STATUS_EOB;
                        r = tape_read_byte(tape, data);
+                       if (r != TAPE_STATUS_OK) {
+                           tape->lrecl = 2;   /* No more record */
+                           return r;
+                       }
                        if (tape->lrecl == 1 && (*data & IRG_MASK) != 0) {
-                       r = tape_readbk_byte(tape, data);
+                           r = tape_readbk_byte(tape, data);
                            tape->lrecl = 2;
                            return TAPE_STATUS_EOB;
                        }
@@ -796,6 +800,10 @@ tape_read_frame(struct _tape_buffer *tape, uint8_t *data)
                        if (tape->lrecl == 2)
                            return TAPE_STATUS_EOB;
                        r = tape_readbk_byte(tape, data);
+                       if (r != TAPE_STATUS_OK) {
+                           tape->lrecl = 2;   /* No more record */
+                           return r;
+                       }
                        if ((*data & IRG_MASK) != 0) {
                            tape->lrecl = 2;
                        } else {
@@ -865,6 +873,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         /* Make sure we are at end of record. */
                         while (tape->lrecl < tape->orecl) {
                              r = tape_read_frame(tape, &lrecl[0]);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                         }
                         /* If simH style tape, make sure even number of bytes per record */
                         if ((tape->format & TAPE_FMT) == TYPE_TAP && tape->orecl & 1) {
@@ -933,6 +943,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         log_tape(" Tape read bk lrecl=%d\n", tape->lrecl);
                         while (tape->lrecl > 0) {
                              r = tape_read_frame(tape, &lrecl[0]);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                              log_tape(" Tape read bk lrecl=%d\n", tape->lrecl);
                         }
                         /* Read in 4 byte trailing record length logical record length */
-- 
2.43.0


From 294bc3ee9c2fff9c4f1ae25949beb136d4dffd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:20 +0000
Subject: [PATCH 50/51] fix: a tape rewound from its end could not be read
 again

---
 src/device/tape.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index 326f959..02f7373 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -1017,6 +1017,7 @@ tape_start_rewind(struct _tape_buffer *tape)
     tape->pos = 0;
     tape->pos_buff = 0;
     tape->len_buff = 0;
+    tape->format &= ~(TAPE_EOT|TAPE_MARK);
     return TAPE_STATUS_OK;
 }
 
-- 
2.43.0


From dde7ac4ceea26b1d76b8bc925a53cad3f28f029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:11 +0000
Subject: [PATCH 51/51] fix: a failure while reading back over a record's pad
 byte was taken for success

---
 src/device/tape.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index 02f7373..56b3b6d 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -700,6 +700,8 @@ tape_read_back(struct _tape_buffer *tape)
                    if ((tape->format & TAPE_FMT) == TYPE_TAP && tape->lrecl & 1) {
                         uint8_t    temp;
                         r = tape_readbk_byte(tape, &temp);
+                        if (r != TAPE_STATUS_OK)
+                            return r;
                    }
                    if (tape->lrecl == 0) {
                        tape->pos_frame -= IRG_LEN;
-- 
2.43.0

