From fe102bb659a0335f4d287596c5591b52ad000c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 01/98] fix: cvec_add keeps the vector when it cannot be
 extended

---
 cligen_cvec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 9ade831..fa781d9 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -223,6 +223,7 @@ cvec_add(cvec        *cvv,
 {
     int     len;
     cg_var *cv;
+    cg_var *vec;
 
     if (cvv == NULL){
         errno = EINVAL;
@@ -230,8 +231,9 @@ cvec_add(cvec        *cvv,
     }
     len = cvv->vr_len + 1;
 
-    if ((cvv->vr_vec = realloc(cvv->vr_vec, len*sizeof(cg_var))) == NULL)
+    if ((vec = realloc(cvv->vr_vec, len*sizeof(cg_var))) == NULL)
         return NULL;
+    cvv->vr_vec = vec;
     cvv->vr_len = len;
     cv = cvec_i(cvv, len-1);
     memset(cv, 0, sizeof(*cv));
-- 
2.43.0


From d206d8e45093cf77db7dc4cc99963cd623629147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 02/98] fix: cvec_del does not lose the vector if shrinking
 fails

---
 cligen_cvec.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index fa781d9..26609fd 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -298,7 +298,6 @@ cvec_del(cvec   *cvv,
                 (cvv->vr_len-i-1) * sizeof(cvv->vr_vec[0]));
 
     cvv->vr_len--;
-    cvv->vr_vec = realloc(cvv->vr_vec, cvv->vr_len*sizeof(cvv->vr_vec[0])); /* Shrink should not fail? */
 
     return cvec_len(cvv);
 }
-- 
2.43.0


From 2829a78406553476177e08e85286a296dc6184b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 03/98] fix: cvec_i, cvec_next and cvec_del_i refuse indexes
 outside the vector

---
 cligen_cvec.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 26609fd..0aa881a 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -198,7 +198,7 @@ cvec_next(cvec   *cvv,
     if (cvv == NULL)
         return NULL;
     if (cv0 == NULL)
-        cv = cvv->vr_vec;
+        cv = cvv->vr_len > 0 ? cvv->vr_vec : NULL;
     else {
         i = cv0 - cvv->vr_vec;
         if (i < cvv->vr_len-1)
@@ -319,7 +319,7 @@ int
 cvec_del_i(cvec *cvv,
            int   i)
 {
-    if (cvec_len(cvv) == 0 || cvec_len(cvv) < i){
+    if (i < 0 || i >= cvec_len(cvv)){
         errno = EINVAL;
         return -1;
     }
@@ -356,7 +356,7 @@ cvec_i(cvec *cvv,
         if (!cvv) {
                 return NULL;
         }
-    if (i < cvv->vr_len)
+    if (i >= 0 && i < cvv->vr_len)
         return &cvv->vr_vec[i];
     return NULL;
 }
-- 
2.43.0


From 4ceb12dd6ab55235cdc9ec65a64ffc4f2d94be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 04/98] fix: cvec_dup fails if an element cannot be copied

---
 cligen_cvec.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 0aa881a..57c657a 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -454,13 +454,16 @@ cvec_dup(cvec *old)
         return NULL;
     if (old->vr_name &&
         (new->vr_name = strdup4(old->vr_name)) == NULL){
-        free(new);
+        cvec_free(new);
         return NULL;
     }
     i = 0;
     while ((cv0 = cvec_each(old, cv0)) != NULL) {
         cv1 = cvec_i(new, i++);
-        cv_cp(cv1, cv0);
+        if (cv_cp(cv1, cv0) < 0){
+            cvec_free(new);
+            return NULL;
+        }
     }
     return new;
 }
-- 
2.43.0


From bad55c330c980c04f0b7e590b1bbfe05ee0ce07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 05/98] fix: cvec_start fails if the command string cannot be
 stored

---
 cligen_cvec.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 57c657a..d8d60ed 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -485,8 +485,11 @@ cvec_start(char *cmd)
         return NULL;
     cv = cvec_i(cvec, 0);
     cv->var_type = CGV_REST;
-    cv_name_set(cv, "cmd"); /* the whole command string */
-    cv_string_set(cv, cmd); /* the whole command string */
+    if (cv_name_set(cv, "cmd") == NULL || /* the whole command string */
+        cv_string_set(cv, cmd) == NULL){ /* the whole command string */
+        cvec_free(cvec);
+        return NULL;
+    }
     return cvec;
 }
 
-- 
2.43.0


From b1f756e444068ea07b73dda6bbe2dc530581b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 06/98] fix: cvec_expand_first reports failure to print or
 store

---
 cligen_cvec.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index d8d60ed..7ce6852 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -950,10 +950,12 @@ cvec_expand_first(cvec *cvv)
             cprintf(cb, " ");
         if ((cv = cvec_i(cvv, i)) == NULL)
             goto done;
-        cv2cbuf(cv, cb);
+        if (cv2cbuf(cv, cb) < 0)
+            goto done;
     }
     cv = cvec_i(cvv,0);
-    cv_string_set(cv, cbuf_get(cb));
+    if (cv_string_set(cv, cbuf_get(cb)) == NULL)
+        goto done;
     retval = 0;
  done:
     if (cb)
-- 
2.43.0


From 3a4de8916cd3806b166da8cedfedc61410a6830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 07/98] fix: cv_flag_clr clears the flags of the mask instead
 of toggling them

---
 cligen_cv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 8089e23..45e8ebb 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -201,7 +201,7 @@ cv_flag_clr(cg_var *cv,
 {
     if (cv == NULL)
         return 0;
-    return cv->var_flag ^= mask;
+    return cv->var_flag &= ~mask;
 }
 
 /*! Set application-specific cv flag
-- 
2.43.0


From d8707ea40617803daef712534d67a3d1b34a46c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 08/98] fix: cv_uint16_set without object returns 0 as the
 other setters

---
 cligen_cv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index 45e8ebb..432fe00 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -388,6 +388,8 @@ uint16_t
 cv_uint16_set(cg_var  *cv,
               uint16_t x)
 {
+    if (cv == NULL)
+        return 0;
     return (cv->u.varu_uint16 = x);
 }
 
-- 
2.43.0


From c6a89bb18c4f1b2358a4f0948997a4a8be1e0e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 09/98] fix: refuse a number on any conversion error, with or
 without reason argument

---
 cligen_cv.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 432fe00..995df01 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1018,13 +1018,16 @@ parse_int64_base(char    *str,
             goto done;
         }
         else{
-            if ((*reason = cligen_reason("%s: %s", str, strerror(errno))) == NULL){
-                errno = 0;
-                retval = -1;
-                goto done;
-            }
+            if (reason != NULL)
+                if ((*reason = cligen_reason("%s: %s", str, strerror(errno))) == NULL){
+                    errno = 0;
+                    retval = -1;
+                    goto done;
+                }
+            errno = 0;
+            retval = 0;
+            goto done;
         }
-        errno = 0;
     } /* if errno */
     else if (i < imin || i > imax){
         if (reason != NULL)
@@ -1180,10 +1183,11 @@ parse_uint64_base(char     *str,
             goto done;
         }
         else{
-            if ((*reason = cligen_reason("%s: %s", str, strerror(errno))) == NULL){
-                retval = -1; /* malloc */
-                goto done;
-            }
+            if (reason != NULL)
+                if ((*reason = cligen_reason("%s: %s", str, strerror(errno))) == NULL){
+                    retval = -1; /* malloc */
+                    goto done;
+                }
             retval = 0;
             goto done;
         }
-- 
2.43.0


From e642d5222acebd4abd275c3bca7e4f65d13c2fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 10/98] fix: parse_dec64 does not accept the number if the
 reason cannot be allocated

---
 cligen_cv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index 995df01..ed85b06 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1344,6 +1344,7 @@ parse_dec64(char    *str,
     if (n<=0 || n>18){
         if (reason != NULL)
             if ((*reason = cligen_reason("%s: fraction-digit=%d given but should be in interval [1:18]", __FUNCTION__, n)) == NULL){
+                retval = -1; /* malloc */
                 goto done;
             }
         retval = 0;
-- 
2.43.0


From ac30049d9caa9a971e9277f49fcc3b8d28c13eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 11/98] fix: parse_url fails if a URL part cannot be stored and
 releases old parts

---
 cligen_cv.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index ed85b06..8944966 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1627,7 +1627,8 @@ parse_url(char   *url,
     if (strncmp(tmp, "://", 3)) /* :// */
         goto warn;
     *tmp = '\0';
-    cv->var_urlproto = strdup(str);
+    if (cv_urlproto_set(cv, str) == NULL)
+        goto done;
     str = tmp+3;
     if ((tmp = strchr(str, '@')) != NULL){
         /* user field */
@@ -1635,26 +1636,27 @@ parse_url(char   *url,
         if ((tmp2 = strchr(str, ':')) != NULL){
             /* user:passwd field */
             *tmp2 = '\0';
-            cv->var_urlpasswd = strdup(tmp2+1);
+            if (cv_urlpasswd_set(cv, tmp2+1) == NULL)
+                goto done;
         }
-        else
-            cv->var_urlpasswd = strdup("");
-        cv->var_urluser = strdup(str);
+        else if (cv_urlpasswd_set(cv, "") == NULL)
+            goto done;
+        if (cv_urluser_set(cv, str) == NULL)
+            goto done;
         str = tmp+1;
     }
     else{
-        cv->var_urluser = strdup("");
-        cv->var_urlpasswd = strdup("");
+        if (cv_urluser_set(cv, "") == NULL)
+            goto done;
+        if (cv_urlpasswd_set(cv, "") == NULL)
+            goto done;
     }
     if ((tmp = strchr(str, '/')) != NULL)
         *tmp = '\0';
-    cv->var_urladdr = strdup(str);
-    if (tmp){
-        str = tmp+1;
-        cv->var_urlpath = strdup(str);
-    }
-    else
-        cv->var_urlpath = strdup("");
+    if (cv_urladdr_set(cv, str) == NULL)
+        goto done;
+    if (cv_urlpath_set(cv, tmp?tmp+1:"") == NULL)
+        goto done;
     retval = 1; /* OK */
   done:
     if (str0)
-- 
2.43.0


From b99eabe1f8e0f9de08ad81b49473af9671e3e00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 12/98] fix: cv2str checks the pointer returned by inet_ntop

---
 cligen_cv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 8944966..2b8bc00 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2521,14 +2521,14 @@ cv2str(cg_var *cv,
                        cv->var_ipv4masklen);
         break;
     case CGV_IPV6ADDR:
-        if (inet_ntop(AF_INET6, &cv->var_ipv6addr, straddr, sizeof(straddr)) < 0){
+        if (inet_ntop(AF_INET6, &cv->var_ipv6addr, straddr, sizeof(straddr)) == NULL){
             fprintf(stderr, "inet_ntop: %s\n", strerror(errno));
             return -1;
         }
         len = snprintf(str, size, "%s", straddr);
         break;
     case CGV_IPV6PFX:
-        if (inet_ntop(AF_INET6, &cv->var_ipv6addr, straddr, sizeof(straddr)) < 0){
+        if (inet_ntop(AF_INET6, &cv->var_ipv6addr, straddr, sizeof(straddr)) == NULL){
             fprintf(stderr, "inet_ntop: %s\n", strerror(errno));
             return -1;
         }
-- 
2.43.0


From 5000809bdf458b2545491275de8f66a307675443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 13/98] fix: printing a time value fails if it cannot be
 converted

---
 cligen_cv.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 2b8bc00..fd0e08f 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2024,7 +2024,8 @@ time2str(const struct timeval *tv,
     int        retval = -1;
     struct tm *tm;
 
-    tm = gmtime(&tv->tv_sec);
+    if ((tm = gmtime(&tv->tv_sec)) == NULL)
+        goto done;
     if (snprintf(fmt, len, "%04d-%02d-%02dT%02d:%02d:%02d.%06ldZ",
              tm->tm_year+1900, tm->tm_mon+1, tm->tm_mday, tm->tm_hour,
                  tm->tm_min, tm->tm_sec, tv->tv_usec) < 0)
@@ -2424,7 +2425,8 @@ cv2cbuf(cg_var *cv,
         cprintf(cb, "%s", uuidstr);
         break;
     case CGV_TIME:
-        time2str(&cv->var_time, timestr, sizeof(timestr));
+        if (time2str(&cv->var_time, timestr, sizeof(timestr)) < 0)
+            return -1;
         cprintf(cb, "%s", timestr);
         break;
     case CGV_VOID:
@@ -2560,7 +2562,8 @@ cv2str(cg_var *cv,
         len = snprintf(str, size, "%s", uuidstr);
         break;
     case CGV_TIME:
-        time2str(&cv->var_time, timestr, sizeof(timestr));
+        if (time2str(&cv->var_time, timestr, sizeof(timestr)) < 0)
+            return -1;
         len = snprintf(str, size, "%s", timestr);
         break;
     case CGV_VOID:
@@ -2707,7 +2710,8 @@ cv_print(FILE   *f,
         fprintf(f, "%s", uuidstr);
         break;
     case CGV_TIME:
-        time2str(&cv->var_time, timestr, sizeof(timestr));
+        if (time2str(&cv->var_time, timestr, sizeof(timestr)) < 0)
+            return -1;
         fprintf(f, "%s", timestr);
         break;
     case CGV_VOID:
-- 
2.43.0


From 5dbfbcff29b1ca8f8976742cc99f4b6f727c40c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 14/98] fix: print the smallest decimal64 without overflow

---
 cligen_cv.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index fd0e08f..6353ec5 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2296,9 +2296,7 @@ cv_dec64_print(cg_var *cv,
     assert(0<n && n<19);
     /* Convert negative numbers to positive and prepend a '-' at the end */
     di = cv_dec64_i_get(cv);
-    if (di<0)
-        di = -di;
-    len = snprintf(s0, *s0len, "%0*" PRId64, n+1, di);
+    len = snprintf(s0, *s0len, "%0*" PRIu64, n+1, di<0 ? -(uint64_t)di : (uint64_t)di);
     assert(len>=n);
     *s0len -= len;
     /* Shift fraction digits right, including null character.
-- 
2.43.0


From 8ce1187945a81b1449a1ca9782db92e9b8c4e70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:45 +0000
Subject: [PATCH 15/98] fix: cv_print prints IPv6 prefixes and MAC addresses as
 cv2str does

---
 cligen_cv.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 6353ec5..426bff4 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2680,16 +2680,16 @@ cv_print(FILE   *f,
             fprintf(stderr, "inet_ntop: %s\n", strerror(errno));
             return -1;
         }
-        fprintf(f, "%s/%d", straddr, cv->var_ipv4masklen);
+        fprintf(f, "%s/%d", straddr, cv->var_ipv6masklen);
         break;
     case CGV_MACADDR:
         fprintf(f, "%02x:%02x:%02x:%02x:%02x:%02x",
-                cv->var_macaddr[0],
-                cv->var_macaddr[1],
-                cv->var_macaddr[2],
-                cv->var_macaddr[3],
-                cv->var_macaddr[4],
-                cv->var_macaddr[5]);
+                (uint8_t)cv->var_macaddr[0],
+                (uint8_t)cv->var_macaddr[1],
+                (uint8_t)cv->var_macaddr[2],
+                (uint8_t)cv->var_macaddr[3],
+                (uint8_t)cv->var_macaddr[4],
+                (uint8_t)cv->var_macaddr[5]);
 
         break;
     case CGV_URL: /* <proto>://[<user>[:<passwd>]@]<addr>[/<path>] */
-- 
2.43.0


From 2392bdbf9663cd5a994fe6de49250d4a60727b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 16/98] fix: cv_parse1 fails if the reason for an invalid
 variable cannot be allocated

---
 cligen_cv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 426bff4..99fd843 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3101,8 +3101,9 @@ cv_parse1(const char   *str0,
     case CGV_EMPTY:
     case CGV_ERR:
         retval = 0;
-        if (reason)
-            *reason = cligen_reason("Invalid variable");
+        if (reason &&
+            (*reason = cligen_reason("Invalid variable")) == NULL)
+            retval = -1;
         break;
     } /* switch */
  done:
-- 
2.43.0


From 54936aa6a22cf3fc5fd2c13979f2ca3955237ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 17/98] fix: cv_parse releases the reason it prints

---
 cligen_cv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index 99fd843..ae8be15 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3150,6 +3150,7 @@ cv_parse(const char *str,
     }
     if (retval == 0){
         fprintf(stderr, "cv parse error: %s\n", reason);
+        free(reason);
         return -1;
     }
     return 0;
-- 
2.43.0


From bf41975710a5db474bdb37a0fe8bf43545ea3a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 18/98] fix: range error messages check that bounds could be
 printed

---
 cligen_cv.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index ae8be15..6fa645c 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3185,16 +3185,19 @@ outofrange(cg_var     *cv0,
     if ((cb = cbuf_new()) == NULL)
         goto done;
     cprintf(cb, "Number ");
-    cv2cbuf(cv0, cb);
+    if (cv2cbuf(cv0, cb) < 0)
+        goto done;
     cprintf(cb, " out of range: ");
     for (i=0; i<cs->cgs_rangelen; i++){
         cv1 = cvec_i(cs->cgs_rangecvv_low, i);
         cv2 = cvec_i(cs->cgs_rangecvv_upp, i);
         if (i)
             cprintf(cb, ", ");
-        cv2cbuf(cv1, cb);
+        if (cv2cbuf(cv1, cb) < 0)
+            goto done;
         cprintf(cb, " - ");
-        cv2cbuf(cv2, cb);
+        if (cv2cbuf(cv2, cb) < 0)
+            goto done;
     }
     if (reason && (*reason = strdup(cbuf_get(cb))) == NULL)
         goto done;
@@ -3225,9 +3228,11 @@ outoflength(uint64_t    u64,
         cv2 = cvec_i(cs->cgs_rangecvv_upp, i);
         if (i)
             cprintf(cb, ", ");
-        cv2cbuf(cv1, cb);
+        if (cv2cbuf(cv1, cb) < 0)
+            goto done;
         cprintf(cb, " - ");
-        cv2cbuf(cv2, cb);
+        if (cv2cbuf(cv2, cb) < 0)
+            goto done;
     }
     if (reason && (*reason = strdup(cbuf_get(cb))) == NULL)
         goto done;
-- 
2.43.0


From 7f8e747c3d3a8f566e4b95e76b9dd35413931e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 19/98] fix: cv_validate returns an error when a step of it
 fails, not success

---
 cligen_cv.c | 64 +++++++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 6fa645c..ef1c000 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3286,9 +3286,9 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
-                goto done;
             retval = 0; /* No match */
+            if (outofrange(cv, cs, reason) < 0)
+                retval = -1;
         }
         break;
     case CGV_INT16:
@@ -3303,9 +3303,9 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
-                goto done;
             retval = 0; /* No match */
+            if (outofrange(cv, cs, reason) < 0)
+                retval = -1;
         }
         break;
     case CGV_INT32:
@@ -3320,9 +3320,9 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
-                goto done;
             retval = 0; /* No match */
+            if (outofrange(cv, cs, reason) < 0)
+                retval = -1;
         }
         break;
     case CGV_INT64:
@@ -3337,9 +3337,9 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
-                goto done;
             retval = 0; /* No match */
+            if (outofrange(cv, cs, reason) < 0)
+                retval = -1;
         }
         break;
     case CGV_UINT8:
@@ -3354,9 +3354,9 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
-                goto done;
             retval = 0; /* No match */
+            if (outofrange(cv, cs, reason) < 0)
+                retval = -1;
         }
         break;
     case CGV_UINT16:
@@ -3371,9 +3371,9 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
-                goto done;
             retval = 0; /* No match */
+            if (outofrange(cv, cs, reason) < 0)
+                retval = -1;
         }
         break;
     case CGV_UINT32:
@@ -3388,9 +3388,9 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
-                goto done;
             retval = 0; /* No match */
+            if (outofrange(cv, cs, reason) < 0)
+                retval = -1;
         }
         break;
     case CGV_UINT64:
@@ -3405,17 +3405,19 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outofrange(cv, cs, reason) < 0)
-                goto done;
             retval = 0; /* No match */
+            if (outofrange(cv, cs, reason) < 0)
+                retval = -1;
         }
         break;
     case CGV_DEC64:
         if (cv_dec64_n_get(cv) != cs->cgs_dec64_n){
-            if (reason)
-                *reason = cligen_reason("Decimal 64 fraction-bits mismatch %d(cv) != %d(spec)",
-                                        cv->var_dec64_n, cs->cgs_dec64_n);
             retval = 0;
+            if (reason &&
+                (*reason = cligen_reason("Decimal 64 fraction-bits mismatch %d(cv) != %d(spec)",
+                                         cv->var_dec64_n, cs->cgs_dec64_n)) == NULL)
+                retval = -1;
+            break;
         }
         if (!cs->cgs_rangelen)
             break;
@@ -3428,11 +3430,11 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
+            retval = 0; /* No match */
             if (reason){
                 if (outofrange(cv, cs, reason) < 0)
-                    goto done;
+                    retval = -1;
             }
-            retval = 0; /* No match */
         }
         break;
     case CGV_REST:
@@ -3444,16 +3446,16 @@ cv_validate(cligen_handle h,
             while ((cv1 = cvec_each(cs->cgs_regex, cv1)) != NULL){
                 regexp = cv_string_get(cv1);
                 if ((retval = match_regexp(h, str, regexp, cv_flag(cv1, V_INVERT))) < 0)
-                    break;
+                    goto done;
                 if (retval == 0){
-                    if (reason)
-                        *reason = cligen_reason("\"%s\" is invalid input for cli command: %s",
-                                                str, cmd);
-                    retval = 0;
+                    if (reason &&
+                        (*reason = cligen_reason("\"%s\" is invalid input for cli command: %s",
+                                                 str, cmd)) == NULL)
+                        retval = -1;
                     break; /* from the while */
                 }
             }
-            if (retval == 0)
+            if (retval != 1)
                 break; /* from the switch */
         }
 
@@ -3468,16 +3470,16 @@ cv_validate(cligen_handle h,
                 break;
         }
         if (!ok){
-            if (outoflength(u64, cs, reason) < 0)
-                goto done;
             retval = 0; /* No match */
+            if (outoflength(u64, cs, reason) < 0)
+                retval = -1;
         }
         break;
     case CGV_ERR:
     case CGV_VOID:
-        if (reason)
-            *reason = cligen_reason("Invalid cv");
         retval = 0;
+        if (reason && (*reason = cligen_reason("Invalid cv")) == NULL)
+            retval = -1;
         break;
     case CGV_BOOL:
     case CGV_INTERFACE:
-- 
2.43.0


From 0a4c65dbf488187171987a41cac040d7df6f82d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 20/98] fix: cv_cmp orders wide integers, decimals, times and
 pointers consistently

---
 cligen_cv.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index ef1c000..57f2c42 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3528,20 +3528,20 @@ cv_cmp(cg_var *cv1,
     case CGV_INT16:
         return (cv1->var_int16 - cv2->var_int16);
     case CGV_INT32:
-        return (cv1->var_int32 - cv2->var_int32);
+        return (cv1->var_int32 > cv2->var_int32) - (cv1->var_int32 < cv2->var_int32);
     case CGV_INT64:
-        return (cv1->var_int64 - cv2->var_int64);
+        return (cv1->var_int64 > cv2->var_int64) - (cv1->var_int64 < cv2->var_int64);
     case CGV_UINT8:
         return (cv1->var_uint8 - cv2->var_uint8);
     case CGV_UINT16:
         return (cv1->var_uint16 - cv2->var_uint16);
     case CGV_UINT32:
-        return (cv1->var_uint32 - cv2->var_uint32);
+        return (cv1->var_uint32 > cv2->var_uint32) - (cv1->var_uint32 < cv2->var_uint32);
     case CGV_UINT64:
-        return (cv1->var_uint64 - cv2->var_uint64);
+        return (cv1->var_uint64 > cv2->var_uint64) - (cv1->var_uint64 < cv2->var_uint64);
     case CGV_DEC64:
         /* XXX assume dec64_n are equal */
-        return (cv_dec64_i_get(cv1) - cv_dec64_i_get(cv2));
+        return (cv1->var_dec64_i > cv2->var_dec64_i) - (cv1->var_dec64_i < cv2->var_dec64_i);
     case CGV_BOOL:
         return (cv1->var_bool - cv2->var_bool);
     case CGV_REST:
@@ -3580,9 +3580,12 @@ cv_cmp(cg_var *cv1,
     case CGV_UUID:
         return memcmp(cv1->var_uuid, cv2->var_uuid, 16);
     case CGV_TIME:
-        return memcmp(&cv1->var_time, &cv2->var_time, sizeof(struct timeval));
+        if (cv1->var_time.tv_sec != cv2->var_time.tv_sec)
+            return cv1->var_time.tv_sec < cv2->var_time.tv_sec ? -1 : 1;
+        return (cv1->var_time.tv_usec > cv2->var_time.tv_usec) -
+            (cv1->var_time.tv_usec < cv2->var_time.tv_usec);
     case CGV_VOID: /* compare pointers */
-        return (cv1->var_void == cv2->var_void);
+        return (cv1->var_void > cv2->var_void) - (cv1->var_void < cv2->var_void);
     case CGV_EMPTY: /* Always equal */
         return 0;
     }
-- 
2.43.0


From 234646d3c7fc32ed4bbe0718ffcdfa9152487371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 21/98] fix: cv_cp does not leave references to the original
 when it fails

---
 cligen_cv.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index 57f2c42..9993ad2 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3607,6 +3607,18 @@ cv_cp(cg_var *new,
     int retval = -1;
 
     memcpy(new, old, sizeof(*old));
+    /* If copying fails, new must not refer to strings of old */
+    new->var_name = NULL;
+    new->var_show = NULL;
+    if (cv_isstring(old->var_type))
+        new->var_string = NULL;
+    else if (old->var_type == CGV_URL){
+        new->var_urlproto = NULL;
+        new->var_urladdr = NULL;
+        new->var_urlpath = NULL;
+        new->var_urluser = NULL;
+        new->var_urlpasswd = NULL;
+    }
     if (old->var_name)
         if ((new->var_name = strdup(old->var_name)) == NULL)
             goto done;
-- 
2.43.0


From f5cec358055252ebef1ddceec76a8ce823d24830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 22/98] fix: cv_size counts the strings of a URL value

---
 cligen_cv.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cligen_cv.c b/cligen_cv.c
index 9993ad2..fc54910 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3799,5 +3799,17 @@ cv_size(cg_var *cv)
         sz += strlen(cv->var_show)+1;
     if (cv_isstring(cv->var_type) && cv->var_string)
         sz += strlen(cv->var_string)+1;
+    if (cv->var_type == CGV_URL){
+        if (cv->var_urlproto)
+            sz += strlen(cv->var_urlproto)+1;
+        if (cv->var_urladdr)
+            sz += strlen(cv->var_urladdr)+1;
+        if (cv->var_urlpath)
+            sz += strlen(cv->var_urlpath)+1;
+        if (cv->var_urluser)
+            sz += strlen(cv->var_urluser)+1;
+        if (cv->var_urlpasswd)
+            sz += strlen(cv->var_urlpasswd)+1;
+    }
     return sz;
 }
-- 
2.43.0


From 7a35d4ae2e469edb92c7ef2fc51d807d45e68803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:44 +0000
Subject: [PATCH 23/98] fix: cv_parse1 does not leave a released string in the
 value when out of memory

---
 cligen_cv.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index fc54910..0b1e7ae 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2998,8 +2998,10 @@ cv_parse1(const char   *str0,
         break;
     case CGV_REST:
         string_remove_backslash(str);
-        if (cv->var_rest)
+        if (cv->var_rest){
             free(cv->var_rest);
+            cv->var_rest = NULL;
+        }
         if ((cv->var_rest = strdup(str)) == NULL)
             goto done;
         retval = 1;
@@ -3015,8 +3017,10 @@ cv_parse1(const char   *str0,
         retval = 1;
         break;
     case CGV_INTERFACE:
-        if (cv->var_interface)
+        if (cv->var_interface){
             free(cv->var_interface);
+            cv->var_interface = NULL;
+        }
         if ((cv->var_interface = strdup(str)) == NULL)
             goto done;
         retval = 1;
-- 
2.43.0


From 37c6bc09efef22bd059d00f92445f83a2a0145ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:44 +0000
Subject: [PATCH 24/98] fix: parsing a time value cannot fail on memory and
 then be reported as invalid time

---
 cligen_cv.c | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index 0b1e7ae..ea24307 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -1865,7 +1865,7 @@ str2time(const char     *in,
     int        min;
     int        sec;
     int        usec = 0;
-    struct tm *tm = NULL;
+    struct tm  tm = {0, };
     time_t     t;
     char       frac[7];
 
@@ -1957,17 +1957,13 @@ str2time(const char     *in,
     if (in[i] != '\0')
         goto done;
   mkdate:
-    if ((tm = calloc(1, sizeof(struct tm))) == NULL){
-        fprintf(stderr, "calloc: %s\n", strerror(errno));
-        goto done;
-    }
-    tm->tm_year = year - 1900;
-    tm->tm_mon = month - 1;
-    tm->tm_mday = day;
-    tm->tm_hour = hour;
-    tm->tm_min = min;
-    tm->tm_sec = sec;
-    if ((t = mktime(tm)) < 0)
+    tm.tm_year = year - 1900;
+    tm.tm_mon = month - 1;
+    tm.tm_mday = day;
+    tm.tm_hour = hour;
+    tm.tm_min = min;
+    tm.tm_sec = sec;
+    if ((t = mktime(&tm)) < 0)
         goto done;
 #if 0 /* If I enable this, I get 1h extra when loading from file in summer.
          When parsing a timestamp such as 2013-04-03T10:50:36 from file to cv
@@ -1975,7 +1971,7 @@ str2time(const char     *in,
          I dont know why I enabled it in the first place. That is why I make this
          note.
       */
-    if (tm->tm_isdst) /* Daylight savings time */
+    if (tm.tm_isdst) /* Daylight savings time */
         t += 3600; /* add hour */
 #endif
     /* Must adjust with timezone, since mktime() assumes tm i local but it is UTC! */
@@ -1993,8 +1989,6 @@ str2time(const char     *in,
     tv->tv_usec = usec;
     retval = 0;
 done:
-    if (tm)
-        free(tm);
     return retval;
 }
 
@@ -3092,7 +3086,7 @@ cv_parse1(const char   *str0,
         retval = 1;
         break;
     case CGV_TIME:
-        if (str2time(str, &cv->var_time) < 0){ /* XXX calloc gives true error */
+        if (str2time(str, &cv->var_time) < 0){
             retval = 0;
             if (reason &&
                 (*reason = cligen_reason("Invalid time: %s", str))==NULL)
-- 
2.43.0


From f8c23fdacdbca4d54fab6fd813eeb0fe959444db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 25/98] fix: tree head string setters duplicate the new value
 before releasing the old

---
 cligen_pt_head.c | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/cligen_pt_head.c b/cligen_pt_head.c
index 8332552..971d231 100644
--- a/cligen_pt_head.c
+++ b/cligen_pt_head.c
@@ -103,18 +103,17 @@ int
 cligen_ph_name_set(pt_head *ph,
                    char    *name)
 {
+    char *str = NULL;
+
     if (ph == NULL){
        errno = EINVAL;
        return -1;
     }
+    if (name && (str = strdup(name)) == NULL)
+        return -1;
     if (ph->ph_name)
         free(ph->ph_name);
-    if (name){
-        if ((ph->ph_name = strdup(name)) == NULL)
-            return -1;
-    }
-    else
-        ph->ph_name = NULL;
+    ph->ph_name = str;
     return 0;
 }
 
@@ -210,14 +209,14 @@ int
 cligen_ph_prompt_set(pt_head *ph,
                      char    *prompt)
 {
-    if (ph->ph_prompt){
+    char *str = NULL;
+
+    /* Duplicate before free, in case it is part of the original */
+    if (prompt && (str = strdup(prompt)) == NULL)
+        return -1;
+    if (ph->ph_prompt)
         free(ph->ph_prompt);
-        ph->ph_prompt = NULL;
-    }
-    if (prompt){
-        if ((ph->ph_prompt = strdup(prompt)) == NULL)
-            return -1;
-    }
+    ph->ph_prompt = str;
     return 0;
 }
 
@@ -241,15 +240,14 @@ int
 cligen_ph_pipe_set(pt_head *ph,
                    char    *pipe)
 {
-    if (ph->ph_output_pipe){
-        free(ph->ph_output_pipe);
-        ph->ph_output_pipe = NULL;
-    }
-    if (pipe){
-        if ((ph->ph_output_pipe = strdup(pipe)) == NULL)
+    char *str = NULL;
 
-            return -1;
-    }
+    /* Duplicate before free, in case it is part of the original */
+    if (pipe && (str = strdup(pipe)) == NULL)
+        return -1;
+    if (ph->ph_output_pipe)
+        free(ph->ph_output_pipe);
+    ph->ph_output_pipe = str;
     return 0;
 }
 
-- 
2.43.0


From 710cf580489be564f2940aa33f35b6c60fffb0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 26/98] fix: handle string setters duplicate the new value
 before releasing the old

---
 cligen_handle.c | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/cligen_handle.c b/cligen_handle.c
index c83e41e..66fee50 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -305,17 +305,16 @@ cligen_prompt_set(cligen_handle h,
                   char         *prompt)
 {
     struct cligen_handle *ch = handle(h);
+    char *str = NULL;
 
-    if (ch->ch_prompt){
-        if (strcmp(prompt, ch->ch_prompt) == 0)
-            return 0;
+    if (prompt && ch->ch_prompt && strcmp(prompt, ch->ch_prompt) == 0)
+        return 0;
+    /* Duplicate before free, in case it is part of the original */
+    if (prompt && (str = strdup(prompt)) == NULL)
+        return -1;
+    if (ch->ch_prompt)
         free(ch->ch_prompt);
-        ch->ch_prompt = NULL;
-    }
-    if (prompt){
-        if ((ch->ch_prompt = strdup(prompt)) == NULL)
-            return -1;
-    }
+    ch->ch_prompt = str;
     return 0;
 }
 
@@ -388,14 +387,14 @@ cligen_treename_keyword_set(cligen_handle h,
                             char         *treename)
 {
     struct cligen_handle *ch = handle(h);
+    char *str = NULL;
 
-    if (ch->ch_treename_keyword){
+    /* Duplicate before free, in case it is part of the original */
+    if (treename && (str = strdup(treename)) == NULL)
+        return -1;
+    if (ch->ch_treename_keyword)
         free(ch->ch_treename_keyword);
-        ch->ch_treename_keyword = NULL;
-    }
-    if (treename)
-        if ((ch->ch_treename_keyword = strdup(treename)) == NULL)
-            return -1;
+    ch->ch_treename_keyword = str;
     return 0;
 }
 
@@ -485,15 +484,14 @@ cligen_fn_str_set(cligen_handle h,
                   char         *fn_str)
 {
     struct cligen_handle *ch = handle(h);
+    char *str = NULL;
 
-    if (ch->ch_fn_str){
+    /* Duplicate before free, in case it is part of the original */
+    if (fn_str && (str = strdup(fn_str)) == NULL)
+        return -1;
+    if (ch->ch_fn_str)
         free(ch->ch_fn_str);
-        ch->ch_fn_str = NULL;
-    }
-    if (fn_str){
-        if ((ch->ch_fn_str = strdup(fn_str)) == NULL)
-            return -1;
-    }
+    ch->ch_fn_str = str;
     return 0;
 }
 
-- 
2.43.0


From 3ef96b26040790c35f9545257c2870afaceaec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:09 +0000
Subject: [PATCH 27/98] fix: co_prefix_set duplicates the new value before
 releasing the old

---
 cligen_object.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index 552c2ee..7f4ab5b 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -337,13 +337,14 @@ int
 co_prefix_set(cg_obj *co,
               char   *prefix)
 {
-    if (co->co_prefix != NULL){
-        free(co->co_prefix);
-        co->co_prefix = NULL;
-    }
-    if (prefix &&
-        (co->co_prefix = strdup(prefix)) == NULL)
+    char *str = NULL;
+
+    /* Duplicate before free, in case it is part of the original */
+    if (prefix && (str = strdup(prefix)) == NULL)
         return -1;
+    if (co->co_prefix != NULL)
+        free(co->co_prefix);
+    co->co_prefix = str;
     return 0;
 }
 
-- 
2.43.0


From 61d5762228d4c63768ad296cf0ea10185a7b4585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 28/98] fix: co_callback_copy releases a partly copied callback
 with its strings

---
 cligen_callback.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/cligen_callback.c b/cligen_callback.c
index 2f1a814..50002f8 100644
--- a/cligen_callback.c
+++ b/cligen_callback.c
@@ -64,6 +64,21 @@ co_callback_next(cg_callback *cc)
     return cc->cc_next;
 }
 
+/*! Free a single callback structure
+ *
+ * @param[in]  cc   Callback object
+ */
+static int
+co_callback_one_free(cg_callback *cc)
+{
+    if (cc->cc_cvec)
+        cvec_free(cc->cc_cvec);
+    if (cc->cc_fn_str)
+        free(cc->cc_fn_str);
+    free(cc);
+    return 0;
+}
+
 /*! Copy a linked list of cg_obj callback objects
  *
  * Copy a linked list of cg_obj callback objects, including function pointer,
@@ -102,25 +117,10 @@ co_callback_copy(cg_callback  *cc0,
     retval = 0;
  done:
     if (cc1)
-        free(cc1);
+        co_callback_one_free(cc1);
     return retval;
 }
 
-/*! Free a single callback structure
- *
- * @param[in]  cc   Callback object
- */
-static int
-co_callback_one_free(cg_callback *cc)
-{
-    if (cc->cc_cvec)
-        cvec_free(cc->cc_cvec);
-    if (cc->cc_fn_str)
-        free(cc->cc_fn_str);
-    free(cc);
-    return 0;
-}
-
 /*! Free a linked list of callbacks
  *
  * @param[in]  ccp   Pointer to head of callback linked list
-- 
2.43.0


From c1947360a2cda975ccbffb606863118ed61b35ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 29/98] fix: co_new fails if the command cannot be stored and
 releases it on error

---
 cligen_object.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index 7f4ab5b..0186a31 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -582,17 +582,19 @@ co_new(char   *cmd,
 
     if ((co = co_new_only(CO_COMMAND)) == NULL)
         return NULL;
-    if (cmd)
-        co->co_command = strdup(cmd);
+    if (cmd && (co->co_command = strdup(cmd)) == NULL){
+        co_free(co, 0);
+        return NULL;
+    }
     co_up_set(co, parent);
     /* parse-tree created implicitly */
     if ((pt = pt_new()) == NULL){
-        free(co);
+        co_free(co, 0);
         return NULL;
     }
     if (co_pt_set(co, pt) < 0){
         free(pt);
-        free(co);
+        co_free(co, 0);
         return NULL;
     }
     return co;
-- 
2.43.0


From f7f07031eb7f1d7319497d65f928cf6a73658d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 30/98] fix: copying an object never leaves a copy that refers
 to strings of the original

---
 cligen_expand.c | 12 ++++-----
 cligen_object.c | 67 ++++++++++++++++++++++++++++++++++++-------------
 cligen_object.h |  1 +
 3 files changed, 55 insertions(+), 25 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 298f32a..2a8f5aa 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -91,15 +91,11 @@ co_expand_sub(cg_obj  *co0,
 {
     int     retval = -1;
     cg_obj *con;
-    size_t  size;
 
     if ((con = co_new_only(co0->co_type)) == NULL)
         goto done;
-    size = co_size(con->co_type);
-    memcpy(con, co0, size);
+    co_copy_base(con, co0);
     /* Point to same underlying pt */
-    con->co_ptvec = NULL;
-    con->co_pt_len = 0;
     if (co_pt_set(con, co_pt_get(co0)) < 0)
         goto done;
     /* Replace all pointers */
@@ -115,9 +111,11 @@ co_expand_sub(cg_obj  *co0,
             goto done;
         }
     if (co0->co_cvec)
-        con->co_cvec = cvec_dup(co0->co_cvec);
+        if ((con->co_cvec = cvec_dup(co0->co_cvec)) == NULL)
+            goto done;
     if (co0->co_filter)
-        co_filter_set(con, co0->co_filter);
+        if (co_filter_set(con, co0->co_filter) == NULL)
+            goto done;
     if (co_callback_copy(co0->co_callbacks, &con->co_callbacks) < 0)
         goto done;
     if (co0->co_helpstring)
diff --git a/cligen_object.c b/cligen_object.c
index 0186a31..90c6c0a 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -636,6 +636,37 @@ cov_new(enum cv_type cvtype,
     return co;
 }
 
+/*! Copy plain fields of a cligen object to a newly created object of same type
+ *
+ * All fields owned by an object are cleared in the copy, so that it can be freed at any time
+ * @param[in]  con  New object, as created by co_new_only() with type of co
+ * @param[in]  co   The object to copy from
+ */
+void
+co_copy_base(cg_obj *con,
+             cg_obj *co)
+{
+    memcpy(con, co, co_size(co->co_type));
+    con->co_ptvec = NULL;
+    con->co_pt_len = 0;
+    con->co_command = NULL;
+    con->co_prefix = NULL;
+    con->co_callbacks = NULL;
+    con->co_cvec = NULL;
+    con->co_filter = NULL;
+    con->co_helpstring = NULL;
+    if (co->co_type == CO_VARIABLE){
+        con->co_show = NULL;
+        con->co_expand_fn_str = NULL;
+        con->co_expand_fn_vec = NULL;
+        con->co_translate_fn_str = NULL;
+        con->co_choice = NULL;
+        con->co_rangecvv_low = NULL;
+        con->co_rangecvv_upp = NULL;
+        con->co_regex = NULL;
+    }
+}
+
 /*! Recursively copy a cligen object.
  *
  * @param[in]  co     The object to copy from
@@ -657,14 +688,10 @@ co_copy(cg_obj  *co,
     cg_obj     *con = NULL;
     parse_tree *pt;
     parse_tree *ptn;
-    size_t      size;
 
     if ((con = co_new_only(co->co_type)) == NULL)
         goto done;
-    size = co_size(con->co_type);
-    memcpy(con, co, size);
-    con->co_ptvec = NULL;
-    con->co_pt_len = 0;
+    co_copy_base(con, co);
     con->co_ref = NULL;
     /* If called from pt_expand_treeref: the copy (of a tree instance) points to the original tree
      */
@@ -682,14 +709,18 @@ co_copy(cg_obj  *co,
     if (co_callback_copy(co->co_callbacks, &con->co_callbacks) < 0)
         goto done;
     if (co->co_cvec)
-        con->co_cvec = cvec_dup(co->co_cvec);
+        if ((con->co_cvec = cvec_dup(co->co_cvec)) == NULL)
+            goto done;
     if (co->co_filter)
-        co_filter_set(con, co->co_filter);
+        if (co_filter_set(con, co->co_filter) == NULL)
+            goto done;
     if ((pt = co_pt_get(co)) != NULL){
         if ((ptn = pt_dup(pt, con, flags)) == NULL) /* sets a new pt under con */
             goto done;
-        if (co_pt_set(con, ptn) < 0)
+        if (co_pt_set(con, ptn) < 0){
+            pt_free(ptn, 1);
             goto done;
+        }
     }
     if (co->co_helpstring)
         if ((con->co_helpstring = strdup(co->co_helpstring)) == NULL)
@@ -727,7 +758,7 @@ co_copy(cg_obj  *co,
     retval = 0;
  done:
     if (con)
-        co_free(con, 0);
+        co_free(con, 1);
     return retval;
 }
 
@@ -759,14 +790,10 @@ co_copy1(cg_obj  *co,
     cg_obj     *con = NULL;
     parse_tree *pt;
     parse_tree *ptn;
-    size_t      size;
 
     if ((con = co_new_only(co->co_type)) == NULL)
         goto done;
-    size = co_size(con->co_type);
-    memcpy(con, co, size);
-    con->co_ptvec = NULL;
-    con->co_pt_len = 0;
+    co_copy_base(con, co);
 
     /* If called from pt_expand_treeref: the copy (of a tree instance) points to the original tree
      */
@@ -784,16 +811,20 @@ co_copy1(cg_obj  *co,
     if (co_callback_copy(co->co_callbacks, &con->co_callbacks) < 0)
         goto done;
     if (co->co_cvec)
-        con->co_cvec = cvec_dup(co->co_cvec);
+        if ((con->co_cvec = cvec_dup(co->co_cvec)) == NULL)
+            goto done;
     if (co->co_filter)
-        co_filter_set(con, co->co_filter);
+        if (co_filter_set(con, co->co_filter) == NULL)
+            goto done;
     if ((pt = co_pt_get(co)) != NULL){
         /* Here this function differs from co_copy */
         if (recursive){
             if ((ptn = pt_dup(pt, con, 0x0)) == NULL) /* sets a new pt under con */
                 goto done;
-            if (co_pt_set(con, ptn) < 0)
+            if (co_pt_set(con, ptn) < 0){
+                pt_free(ptn, 1);
                 goto done;
+            }
         }
         else {
             if (co_pt_set(con, pt) < 0)
@@ -836,7 +867,7 @@ co_copy1(cg_obj  *co,
     retval = 0;
  done:
     if (con)
-        co_free(con, 0);
+        co_free(con, recursive);
     return retval;
 }
 
diff --git a/cligen_object.h b/cligen_object.h
index 3f0ef09..71c6d4b 100644
--- a/cligen_object.h
+++ b/cligen_object.h
@@ -249,6 +249,7 @@ cg_obj     *co_new_only(enum cg_objtype type);
 cg_obj     *co_new(char *cmd, cg_obj *prev);
 cg_obj     *cov_new(enum cv_type cvtype, cg_obj *prev);
 int         co_pref(cg_obj *co, int exact);
+void        co_copy_base(cg_obj *con, cg_obj *co);
 int         co_copy(cg_obj *co, cg_obj *parent, uint32_t flags, cg_obj **conp);
 int         co_copy1(cg_obj *co, cg_obj *parent, int recursive, uint32_t flags, cg_obj **conp);
 int         co_eq(cg_obj *co1, cg_obj *co2);
-- 
2.43.0


From 479f2e4120c00ae5bf6b81d64a97681773942530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 31/98] fix: co_filter_set releases the filter it replaces

---
 cligen_object.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cligen_object.c b/cligen_object.c
index 90c6c0a..dee174c 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -354,7 +354,13 @@ cvec *
 co_filter_set(cg_obj *co,
               cvec   *cvv)
 {
-    co->co_filter = cvec_dup(cvv);
+    cvec *cvv1;
+
+    if ((cvv1 = cvec_dup(cvv)) == NULL)
+        return NULL;
+    if (co->co_filter)
+        cvec_free(co->co_filter);
+    co->co_filter = cvv1;
     return co->co_filter;
 }
 
-- 
2.43.0


From 569ac1b95a98c68fb53b1c64ccf78842b476db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 32/98] fix: co_insert1 fails if trees cannot be merged

---
 cligen_object.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_object.c b/cligen_object.c
index dee174c..0dc6321 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -1204,7 +1204,8 @@ co_insert1(parse_tree *pt,
         if (co1 == NULL && co2 == NULL)
             return NULL;
         if (co1 && co2 && co_eq(co1, co2)==0){
-            cligen_parsetree_merge(co_pt_get(co2), co2, co_pt_get(co1));
+            if (cligen_parsetree_merge(co_pt_get(co2), co2, co_pt_get(co1)) < 0)
+                return NULL;
             co_free(co1, recursive);
             return co2;
         }
-- 
2.43.0


From bc1307802d01aaa90efe89c761cc6add72e12a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 33/98] fix: cligen_reason fails if the text cannot be
 formatted

---
 cligen_object.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cligen_object.c b/cligen_object.c
index 0dc6321..a8f0b81 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -1290,8 +1290,10 @@ cligen_reason(const char *fmt, ...)
 
     va_start(ap, fmt);
     len = vsnprintf(NULL, 0, fmt, ap);
-    len++;
     va_end(ap);
+    if (len < 0)
+        return NULL;
+    len++;
     if ((reason = malloc(len)) == NULL)
         return NULL;
     va_start(ap, fmt);
-- 
2.43.0


From e59a370c05b2ae37404292bb2690806a4af771dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 34/98] fix: expanding nodes releases a node that could not be
 inserted

---
 cligen_expand.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 2a8f5aa..fc02642 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -572,8 +572,10 @@ pt_expand_fn(cligen_handle h,
         if (transient && con->co_ref){
             con->co_ref = co->co_ref;
         }
-        if (pt_vec_append(ptn, con) < 0)
+        if (pt_vec_append(ptn, con) < 0){
+            co_free(con, 0);
             goto done;
+        }
         if (cvv_filter && cvec_len(cvv_filter))
             if (co_filter_set(con, cvv_filter) == NULL)
                 goto done;
@@ -695,6 +697,7 @@ pt_expand1_co(cligen_handle h,
     int     retval = -1;
     cg_var *cv;
     cg_obj *con = NULL;
+    cg_obj *con1;
     char   *label;
 
     if (hide && co_flags_get(co, CO_FLAGS_HIDE))
@@ -748,8 +751,11 @@ pt_expand1_co(cligen_handle h,
         if (co_expand_sub(co, NULL, &con) < 0)
             goto done;
         /* con may be deleted in the call and need to be replaced */
-        if ((con = co_insert1(ptn, con, 0)) == NULL)
+        if ((con1 = co_insert1(ptn, con, 0)) == NULL){
+            co_free(con, 0);
             goto done;
+        }
+        con = con1;
         if (transient && con->co_ref){
             con->co_ref = co->co_ref;
         }
-- 
2.43.0


From 32e47bcb0f3d4023f648342a5cffd918af29718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 35/98] fix: pt_expand_choice fails if a choice cannot be
 copied

---
 cligen_expand.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index fc02642..a4585f3 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -621,15 +621,19 @@ pt_expand_choice(cg_obj       *co,
     char   *ccmd;
     char   *cp = NULL;
     char   *c;
+    char   *cmd;
     cg_obj *con = NULL;
 
     /* parse co_command and get alternatives <alt:hej,hopp> */
     if (co->co_choice){
-        cp = ccmd = strdup(co->co_choice);
+        if ((cp = ccmd = strdup(co->co_choice)) == NULL)
+            goto done;
         while ((c = strsep(&ccmd, ",|")) != NULL){
             if (co_expand_sub(co, NULL, &con) < 0)
                 goto done;
-            if (transform_var_to_cmd(con, strdup(c), NULL) < 0)
+            if ((cmd = strdup(c)) == NULL)
+                goto done;
+            if (transform_var_to_cmd(con, cmd, NULL) < 0)
                 goto done;
             if (cvv_filter && co_filter_set(con, cvv_filter) == NULL)
                 goto done;
-- 
2.43.0


From 20d89b5dd74b2652d0b177a180698cbfe1df486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 36/98] fix: pt_dup releases a partly copied tree

---
 cligen_parsetree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index f614586..8d11e58 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -362,8 +362,8 @@ pt_copy(parse_tree *pt,
             ptn->pt_len++;
     }
     if (pt_len_get(ptn) &&
-        (ptn->pt_vec = (cg_obj **)malloc(pt_len_get(ptn)*sizeof(cg_obj *))) == NULL){
-        fprintf(stderr, "%s: malloc: %s\n", __FUNCTION__, strerror(errno));
+        (ptn->pt_vec = (cg_obj **)calloc(pt_len_get(ptn), sizeof(cg_obj *))) == NULL){
+        fprintf(stderr, "%s: calloc: %s\n", __FUNCTION__, strerror(errno));
         goto done;
     }
     j=0;
@@ -403,7 +403,7 @@ pt_dup(parse_tree *pt,
     if ((ptn = pt_new()) == NULL)
         goto done;
     if (pt_copy(pt, cop, flags, ptn) < 0){
-        free(ptn);
+        pt_free(ptn, 1);
         ptn = NULL;
         goto done;
     }
-- 
2.43.0


From 2e0a27646c05c2a06259e4f47ba8a56b2ba68ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 37/98] fix: pt_vec_i_get refuses the index after the last

---
 cligen_parsetree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index 8d11e58..40d9e08 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -135,7 +135,7 @@ pt_vec_i_get(parse_tree *pt,
              int         i)
 {
     struct cg_obj **ptvec;
-    if (pt == NULL || i<0 || i>pt->pt_len){
+    if (pt == NULL || i<0 || i>=pt->pt_len){
        errno = EINVAL;
        return NULL;
     }
-- 
2.43.0


From 31f53b2f2fca66741f0a66d1c571ce396c6f43b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 38/98] fix: a cbuf that cannot grow keeps its content and
 length, and sizes are not truncated

---
 cligen_buf.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/cligen_buf.c b/cligen_buf.c
index 4a1f0cd..0d63706 100644
--- a/cligen_buf.c
+++ b/cligen_buf.c
@@ -122,7 +122,7 @@ cbuf_new_alloc(size_t sz)
     if ((cb = (cbuf*)malloc(sizeof(*cb))) == NULL)
         return NULL;
     memset(cb, 0, sizeof(*cb));
-    cb->cb_buflen = sz;
+    cb->cb_buflen = sz?sz:1; /* room for null */
     if ((cb->cb_buffer = malloc(cb->cb_buflen)) == NULL){
         free(cb);
         return NULL;
@@ -213,20 +213,21 @@ static int
 cbuf_realloc(cbuf  *cb,
              size_t sz)
 {
-    int retval = -1;
-    int diff;
-
-    diff = cb->cb_buflen - (cb->cb_strlen + sz + 1);
-    if (diff <= 0){
-        while (diff <= 0){
-            if (cbuflen_threshold == 0 || cb->cb_buflen < cbuflen_threshold)
-                cb->cb_buflen *= 2; /* Double the space - exponential */
+    int    retval = -1;
+    size_t buflen = cb->cb_buflen;
+    char  *buffer;
+
+    if (buflen <= cb->cb_strlen + sz + 1){
+        while (buflen <= cb->cb_strlen + sz + 1){
+            if (cbuflen_threshold == 0 || buflen < cbuflen_threshold)
+                buflen *= 2; /* Double the space - exponential */
             else
-                cb->cb_buflen += cbuflen_threshold; /* Add - linear growth*/
-            diff = cb->cb_buflen - (cb->cb_strlen + sz + 1);
+                buflen += cbuflen_threshold; /* Add - linear growth*/
         }
-        if ((cb->cb_buffer = realloc(cb->cb_buffer, cb->cb_buflen)) == NULL)
+        if ((buffer = realloc(cb->cb_buffer, buflen)) == NULL)
             goto done;
+        cb->cb_buffer = buffer;
+        cb->cb_buflen = buflen;
     }
     retval = 0;
  done:
-- 
2.43.0


From 36e9841ffd27cf782428ade82d731f6464468796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 39/98] fix: cprintf and vcprintf end every argument list they
 start

---
 cligen_buf.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cligen_buf.c b/cligen_buf.c
index 0d63706..6a5fc55 100644
--- a/cligen_buf.c
+++ b/cligen_buf.c
@@ -254,18 +254,20 @@ cprintf(cbuf       *cb,
     if (cb == NULL)
         goto ok;
     va_start(ap, format); /* dryrun */
-    if ((len = vsnprintf(NULL, 0, format, ap)) < 0) /* dryrun, just get len */
-        goto done;
+    len = vsnprintf(NULL, 0, format, ap); /* dryrun, just get len */
     va_end(ap);
+    if (len < 0)
+        goto done;
     /* Ensure buffer is large enough */
     if (cbuf_realloc(cb, len) < 0)
         goto done;
     va_start(ap, format); /* real */
-    if ((ret = vsnprintf(cb->cb_buffer+cb->cb_strlen, /* str */
-                         cb->cb_buflen-cb->cb_strlen, /* size */
-                         format, ap)) < 0)
-        goto done;
+    ret = vsnprintf(cb->cb_buffer+cb->cb_strlen, /* str */
+                    cb->cb_buflen-cb->cb_strlen, /* size */
+                    format, ap);
     va_end(ap);
+    if (ret < 0)
+        goto done;
     cb->cb_strlen += ret;
  ok:
     retval = 0;
@@ -283,9 +285,9 @@ vcprintf(cbuf       *cb,
     int     ret;
     va_list ap1;
 
-    va_copy(ap1, ap);
     if (cb == NULL)
-        goto ok;
+        return 0;
+    va_copy(ap1, ap);
     if ((len = vsnprintf(NULL, 0, format, ap)) < 0) /* dryrun, just get len */
         goto done;
     /* Ensure buffer is large enough */
@@ -296,9 +298,9 @@ vcprintf(cbuf       *cb,
                          format, ap1)) < 0)
         goto done;
     cb->cb_strlen += ret;
- ok:
     retval = 0;
  done:
+    va_end(ap1);
     return retval;
 }
 
-- 
2.43.0


From a590a9f94f322d602d8abc34dea5c80ad6ee0cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 40/98] fix: each handle knows the size of its own line buffers

---
 cligen_handle.c          | 56 ++++++++++++++++++++++++----------------
 cligen_handle_internal.h |  2 ++
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/cligen_handle.c b/cligen_handle.c
index 66fee50..53a0b31 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -1017,8 +1017,6 @@ cligen_regex_xsd_set(cligen_handle h,
 }
 
 
-static int _getline_bufsize = GETLINE_BUFLEN_DEFAULT;
-static int _getline_killbufsize = GETLINE_BUFLEN_DEFAULT;
 
 /*!
  * @param[in] h       CLIgen handle
@@ -1050,7 +1048,9 @@ cligen_killbuf(cligen_handle h)
 int
 cligen_buf_size(cligen_handle h)
 {
-    return _getline_bufsize;
+    struct cligen_handle *ch = handle(h);
+
+    return ch->ch_bufsize;
 }
 
 /*! Return length cligen kill buffer
@@ -1060,7 +1060,9 @@ cligen_buf_size(cligen_handle h)
 int
 cligen_killbuf_size(cligen_handle h)
 {
-    return _getline_killbufsize;
+    struct cligen_handle *ch = handle(h);
+
+    return ch->ch_killbufsize;
 }
 
 /*!
@@ -1071,16 +1073,18 @@ cligen_buf_init(cligen_handle h)
 {
     struct cligen_handle *ch = handle(h);
 
-    if ((ch->ch_buf = malloc(_getline_bufsize)) == NULL){
+    ch->ch_bufsize = GETLINE_BUFLEN_DEFAULT;
+    if ((ch->ch_buf = malloc(ch->ch_bufsize)) == NULL){
         fprintf(stderr, "%s malloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_buf, 0, _getline_bufsize);
-    if ((ch->ch_killbuf = malloc(_getline_killbufsize)) == NULL){
+    memset(ch->ch_buf, 0, ch->ch_bufsize);
+    ch->ch_killbufsize = GETLINE_BUFLEN_DEFAULT;
+    if ((ch->ch_killbuf = malloc(ch->ch_killbufsize)) == NULL){
         fprintf(stderr, "%s malloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_killbuf, 0, _getline_killbufsize);
+    memset(ch->ch_killbuf, 0, ch->ch_killbufsize);
     return 0;
 }
 
@@ -1098,17 +1102,21 @@ cligen_buf_increase(cligen_handle h,
                     size_t        len1)
 {
     struct cligen_handle *ch = handle(h);
-    size_t                len0 = _getline_bufsize; /* orig length */
+    size_t                len0 = ch->ch_bufsize; /* orig length */
+    size_t                len = len0;
+    char                 *buf;
 
-    if (_getline_bufsize >= len1 + 1)
-      return 0;
-    while (_getline_bufsize < len1 + 1)
-      _getline_bufsize *= 2;
-    if ((ch->ch_buf = realloc(ch->ch_buf, _getline_bufsize)) == NULL){
+    if (len >= len1 + 1)
+        return 0;
+    while (len < len1 + 1)
+        len *= 2;
+    if ((buf = realloc(ch->ch_buf, len)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_buf+len0, 0, _getline_bufsize-len0);
+    ch->ch_buf = buf;
+    ch->ch_bufsize = len;
+    memset(ch->ch_buf+len0, 0, len-len0);
     return 0;
 }
 
@@ -1122,17 +1130,21 @@ cligen_killbuf_increase(cligen_handle h,
                         size_t        len1)
 {
     struct cligen_handle *ch = handle(h);
-    int                   len0 = _getline_killbufsize;
+    size_t                len0 = ch->ch_killbufsize; /* orig length */
+    size_t                len = len0;
+    char                 *buf;
 
-    if (_getline_killbufsize >= len1 + 1)
-      return 0;
-    while (_getline_killbufsize < len1 + 1)
-      _getline_killbufsize *= 2;
-    if ((ch->ch_killbuf = realloc(ch->ch_killbuf, _getline_killbufsize)) == NULL){
+    if (len >= len1 + 1)
+        return 0;
+    while (len < len1 + 1)
+        len *= 2;
+    if ((buf = realloc(ch->ch_killbuf, len)) == NULL){
         fprintf(stderr, "%s realloc: %s\n", __FUNCTION__, strerror(errno));
         return -1;
     }
-    memset(ch->ch_killbuf+len0, 0, _getline_killbufsize-len0);
+    ch->ch_killbuf = buf;
+    ch->ch_killbufsize = len;
+    memset(ch->ch_killbuf+len0, 0, len-len0);
     return 0;
 }
 
diff --git a/cligen_handle_internal.h b/cligen_handle_internal.h
index 6ffff14..94f8398 100644
--- a/cligen_handle_internal.h
+++ b/cligen_handle_internal.h
@@ -94,7 +94,9 @@ struct cligen_handle{
                                      Also this is global for now
                                   */
     char       *ch_buf;          /* getline input buffer */
+    int         ch_bufsize;      /* Allocated size of ch_buf */
     char       *ch_killbuf;      /* getline killed text */
+    int         ch_killbufsize;  /* Allocated size of ch_killbuf */
 
     int         ch_logsyntax;    /* Debug syntax by printing dynamically on stderr */
     int         ch_hist_size;    /* Number of history lines MUST be >0 */
-- 
2.43.0


From 5f45a660199e0887e1cd17114c9549ad9efa1535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 41/98] fix: history that cannot be resized keeps its entries

---
 cligen_history.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/cligen_history.c b/cligen_history.c
index 2adfe1a..77c6faa 100644
--- a/cligen_history.c
+++ b/cligen_history.c
@@ -162,6 +162,8 @@ hist_exit(cligen_handle h)
         }
     free(ch->ch_hist_buf);
     ch->ch_hist_buf = NULL;
+    ch->ch_hist_size = 0;
+    ch->ch_hist_pre = NULL;
     // done:
     return 0;
 }
@@ -312,22 +314,18 @@ cligen_hist_init(cligen_handle h,
     struct cligen_handle *ch = handle(h);
     int                   retval = -1;
     int                   i;
-    int                   old_size;
+    char                **buf;
 
     if (lines < 1){
         errno = EINVAL;
         goto done;
     }
-    old_size = ch->ch_hist_size;
-    ch->ch_hist_size = lines+1; /* circular buffer needs an extra element */
-    for (i=0; i < old_size; i++)
-        if (ch->ch_hist_buf[i]){
-            if (strlen(ch->ch_hist_buf[i]))
-                free(ch->ch_hist_buf[i]);
-            ch->ch_hist_buf[i] = NULL;
-        }
-    if ((ch->ch_hist_buf = (char**)realloc(ch->ch_hist_buf, ch->ch_hist_size*sizeof(char*))) == NULL)
+    /* circular buffer needs an extra element */
+    if ((buf = (char**)malloc((lines+1)*sizeof(char*))) == NULL)
         goto done;
+    hist_exit(h);
+    ch->ch_hist_buf = buf;
+    ch->ch_hist_size = lines+1;
     ch->ch_hist_cur = 0;
     ch->ch_hist_last = 0;
     ch->ch_hist_pre = 0;
-- 
2.43.0


From 7c729b78a4c310d24aa02e5be6d6ccaa00f5ef81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 42/98] fix: cligen_init fails and releases the handle if any
 part of it cannot be set up

---
 cligen_handle.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/cligen_handle.c b/cligen_handle.c
index 53a0b31..2917c97 100644
--- a/cligen_handle.c
+++ b/cligen_handle.c
@@ -163,30 +163,33 @@ cligen_init(void)
     ch->ch_tabmode = 0x0; /* see CLIGEN_TABMODE_* */
     ch->ch_delimiter = ' ';
     h = (cligen_handle)ch;
-    cligen_prompt_set(h, CLIGEN_PROMPT_DEFAULT);
+    if (cligen_prompt_set(h, CLIGEN_PROMPT_DEFAULT) < 0)
+        goto err;
     /* Only if stdin and stdout refers to a terminal make win size check */
     if (isatty(0) && isatty(1)){
-        if (cligen_gwinsz(h) < 0){
-            free(ch);
-            return NULL;
-        }
+        if (cligen_gwinsz(h) < 0)
+            goto err;
         cligen_interrupt_hook(h, cligen_gwinsz);
         memset(&sigh, 0, sizeof(sigh));
         sigh.sa_handler = sigwinch_handler;
         if (sigaction(SIGWINCH, &sigh, NULL) < 0){
             perror("sigaction");
-            free(ch);
-            return NULL;
+            goto err;
         }
     }
     else
         terminal_rows_set1(0);
     cliread_init(h);
-    cligen_buf_init(h);
+    if (cligen_buf_init(h) < 0)
+        goto err;
     /* getline cant function without some history */
-    (void)cligen_hist_init(h, CLIGEN_HISTSIZE_DEFAULT);
+    if (cligen_hist_init(h, CLIGEN_HISTSIZE_DEFAULT) < 0)
+        goto err;
   done:
     return h;
+  err:
+    cligen_exit(h);
+    return NULL;
 }
 
 /*! This is the last call to the CLIgen API an application should make
-- 
2.43.0


From 6490d5e43cf28e1d613736f8d2052363ed1142d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 43/98] fix: cvec_append_var releases a partly copied value

---
 cligen_cvec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 7ce6852..bf95552 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -256,6 +256,7 @@ cvec_append_var(cvec   *cvv,
 
     if (cvv && cv && (tail = cvec_add(cvv, cv_type_get(cv)))) {
         if (cv_cp(tail, cv) < 0) {
+            cv_reset(tail);
             cvec_del(cvv, tail);
             tail = NULL;
         }
-- 
2.43.0


From 9ee0d5cf5ccaf1a46392989d7a871f11184ed3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 44/98] fix: cvec_add_string fails if name or value cannot be
 stored

---
 cligen_util.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cligen_util.c b/cligen_util.c
index 9eb9fb3..d9355aa 100644
--- a/cligen_util.c
+++ b/cligen_util.c
@@ -80,9 +80,10 @@ cvec_add_string(cvec       *cvv,
 
     if ((cv = cvec_add(cvv, CGV_STRING)) == NULL)
         goto done;
-    if (name)
-        cv_name_set(cv, name);
-    cv_string_set(cv, val);
+    if (name && cv_name_set(cv, name) == NULL)
+        goto done;
+    if (val && cv_string_set(cv, val) == NULL)
+        goto done;
     retval = 0;
  done:
     return retval;
-- 
2.43.0


From 5579d7fdee053dd1572cc9c9075003680ccbe2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 45/98] fix: match results keep their tree if it cannot be
 reset and release what cannot be appended

---
 cligen_result.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cligen_result.c b/cligen_result.c
index 26b138d..dc1d255 100644
--- a/cligen_result.c
+++ b/cligen_result.c
@@ -81,9 +81,12 @@ mr_pt_len_get(match_result *mr)
 int
 mr_pt_reset(match_result *mr)
 {
-    pt_free(mr->mr_pt, 0);
-    if ((mr->mr_pt = pt_new()) == NULL)
+    parse_tree *pt;
+
+    if ((pt = pt_new()) == NULL)
         return -1;
+    pt_free(mr->mr_pt, 0);
+    mr->mr_pt = pt;
     return 0;
 }
 
@@ -111,9 +114,13 @@ mr_pt_append(match_result *mr,
 
     if (co_copy1(co, NULL, 0, 0x0, &co1) < 0)
         return -1;
+    if (pt_vec_append(mr->mr_pt, co1) < 0){
+        co_free(co1, 0);
+        return -1;
+    }
     mr->mr_co_match_orig = co;
     mr->mr_token = token;
-    return pt_vec_append(mr->mr_pt, co1);
+    return 0;
 }
 
 cg_obj*
-- 
2.43.0


From 30836ddf6d4922686b0bd9333755eda7c6c9691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 46/98] fix: matching fails if a value cannot be bound

---
 cligen_match.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index a41fcf3..94b1941 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -339,7 +339,8 @@ add_cov_to_cvec(cligen_handle h,
 
     if ((cv = cvec_add(cvv, co->co_vtype)) == NULL)
         return NULL;
-    cv_name_set(cv, co->co_command);
+    if (co->co_command && cv_name_set(cv, co->co_command) == NULL)
+        return NULL;
     if (co->co_vtype == CGV_DEC64) /* XXX: Seems misplaced? / too specific */
         cv_dec64_n_set(cv, co->co_dec64_n);
     if (cv_parse(cmd, cv) < 0) {
@@ -512,9 +513,11 @@ match_bindvars(cligen_handle h,
     else{
         if ((cv = cvec_add(cvv, CGV_STRING)) == NULL)
             goto done;
-        cv_name_set(cv, co->co_command);
+        if (co->co_command && cv_name_set(cv, co->co_command) == NULL)
+            goto done;
         cv_type_set(cv, CGV_STRING);
-        cv_string_set(cv, co->co_command);
+        if (co->co_command && cv_string_set(cv, co->co_command) == NULL)
+            goto done;
         cv_const_set(cv, 1);
     }
     retval = 0;
-- 
2.43.0


From 2d49ee0c5e2fff32bfb605d5cadcb3167571ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 47/98] fix: match_vec releases the reason on error

---
 cligen_match.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_match.c b/cligen_match.c
index 94b1941..a5e5b24 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -478,6 +478,8 @@ match_vec(cligen_handle h,
         mr_reason_set(mr, NULL);
     retval = 0;
  done:
+    if (tmpreason)
+        free(tmpreason);
     return retval;
 }
 
-- 
2.43.0


From defceafc88f3d3f55bc165a879d6254bae580447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 48/98] fix: matching fails if its result cannot be reset or
 the reason cannot be copied

---
 cligen_match.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index a5e5b24..886a6f7 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -565,6 +565,7 @@ match_pattern_sets_local(cligen_handle  h,
     int           lasttoken = 0;
     char         *token;
     char         *resttokens;
+    char         *reason;
     match_result *mr0 = NULL;
 
     if ((mr0 = mr_new()) == NULL)
@@ -590,7 +591,8 @@ match_pattern_sets_local(cligen_handle  h,
     case 0: /* no matches */
         if (pt_onlyvars(pt))
             ; /* XXX Uuh mr0 already has a reason,... */
-        mr_pt_reset(mr0);
+        if (mr_pt_reset(mr0) < 0)
+            goto done;
         goto ok;
         break;
     case 1: /* exactly one match */
@@ -609,8 +611,11 @@ match_pattern_sets_local(cligen_handle  h,
             }
             goto ok; /* will return matches > 1 */
         }
-        mr_pt_reset(mr0);
-        mr_reason_set(mr0, strdup("Ambiguous command"));
+        if (mr_pt_reset(mr0) < 0)
+            goto done;
+        if ((reason = strdup("Ambiguous command")) == NULL)
+            goto done;
+        mr_reason_set(mr0, reason);
         goto ok;  /* will return matches = 0 */
         break;
     } /* switch matches */
@@ -627,7 +632,8 @@ match_pattern_sets_local(cligen_handle  h,
         if ((r = strdup("Already matched")) == NULL)
             goto done;
         mr_reason_set(mr0, r);
-        mr_pt_reset(mr0);
+        if (mr_pt_reset(mr0) < 0)
+            goto done;
         goto ok; /* will return matches = 0 */
     }
 
@@ -969,7 +975,8 @@ match_pattern_sets(cligen_handle  h,
     /* Clear all CO_FLAGS_MATCH recursively
      * Only co_match is set with CO_FLAGS_MATCH
      */
-    pt_apply(ptn, co_clearflag, 1, (void*)CO_FLAGS_MATCH);
+    if (pt_apply(ptn, co_clearflag, 1, (void*)CO_FLAGS_MATCH) < 0)
+        goto done;
 
     /* If child match fails, use previous */
     if (mr_pt_len_get(mrc) == 0 && mrcprev){
@@ -1074,7 +1081,8 @@ match_pattern(cligen_handle h,
         goto done;
     }
     /* Clear all CO_FLAGS_MATCH recursively */
-    pt_apply(pt, co_clearflag, 1, (void*)CO_FLAGS_MATCH);
+    if (pt_apply(pt, co_clearflag, 1, (void*)CO_FLAGS_MATCH) < 0)
+        goto done;
     /* Lots of complex code follows,
      * Good news is that these have been moved from calling functions to here
      * Hopefully it may be easier to simplify
@@ -1099,7 +1107,8 @@ match_pattern(cligen_handle h,
                         goto done;
                     mr_reason_set(mr, r);
                 }
-                mr_pt_reset(mr);
+                if (mr_pt_reset(mr) < 0)
+                    goto done;
             }
         }
         else { /* */
@@ -1107,7 +1116,8 @@ match_pattern(cligen_handle h,
                 if ((r = strdup("Unknown command")) == NULL)
                     goto done;
                 mr_reason_set(mr, r);
-                mr_pt_reset(mr);
+                if (mr_pt_reset(mr) < 0)
+                    goto done;
             }
         }
     }
@@ -1180,7 +1190,8 @@ match_pattern(cligen_handle h,
                 if ((r = strdup("Incomplete command")) == NULL)
                     goto done;
                 mr_reason_set(mr, r);
-                mr_pt_reset(mr);
+                if (mr_pt_reset(mr) < 0)
+                    goto done;
             }
             pt_expand_cleanup(h, ptn);
         }
@@ -1248,8 +1259,9 @@ match_pattern_exact(cligen_handle  h,
         goto done;
     }
     if (reason &&
-        mr_reason_get(mr))
-        *reason = strdup(mr_reason_get(mr));
+        mr_reason_get(mr) &&
+        (*reason = strdup(mr_reason_get(mr))) == NULL)
+        goto done;
     if (mr_pt_len_get(mr) == 1 &&
         match_obj){
         /* Must make a copy since the mr will be freed */
-- 
2.43.0


From b70bda8a49f7d8236219ce2c3e6a1eede35dacaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 49/98] fix: merging callbacks fails if arguments cannot be
 copied

---
 cligen_match.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index 886a6f7..d7aaf34 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -713,10 +713,11 @@ treeref_merge_co(cg_obj      *co,
             if ((cc->cc_fn_str = strdup(cc_ref->cc_fn_str)) == NULL)
                 goto done;
         }
-        if (cc_ref->cc_cvec){
+        if (cc_ref->cc_cvec && cc->cc_cvec){
             cv = NULL;
             while ((cv = cvec_each(cc_ref->cc_cvec, cv)) != NULL)
-                cvec_append_var(cc->cc_cvec, cv);
+                if (cvec_append_var(cc->cc_cvec, cv) == NULL)
+                    goto done;
         }
     }
     else { /* local is PIPE function, append regular function last */
@@ -755,7 +756,8 @@ callbacks_merge(cg_obj       *coref,
                 fprintf(stderr, "%s no first element in coref cvec\n", __FUNCTION__);
                 goto done;
             }
-            cvv = cvec_from_var(cv);
+            if ((cvv = cvec_from_var(cv)) == NULL)
+                goto done;
             cv = NULL;
             while ((cv = cvec_each(callbacks0->cc_cvec, cv)) != NULL){
                 if (cvec_append_var(cvv, cv) == NULL)
-- 
2.43.0


From cb04d1b03d29dcb396681defd0b29fce1455dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 50/98] fix: match_complete makes room for the delimiter and
 keeps the string if it cannot grow

---
 cligen_match.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index d7aaf34..68c576d 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -1371,11 +1371,16 @@ match_complete(cligen_handle h,
         retval = 0;
         goto done;
     }
-    while (strlen(*stringp) + minmatch - slen >= *slenp){
-        *slenp *= 2;
-        if ((*stringp = realloc(*stringp, *slenp)) == NULL)
+    if (minmatch < slen){ /* Nothing to append */
+        retval = 0;
+        goto done;
+    }
+    /* Room for appended text, delimiter and null */
+    while (strlen(*stringp) + minmatch - slen + 2 > *slenp){
+        if ((string = realloc(*stringp, *slenp*2)) == NULL)
             goto done;
-        string = *stringp;
+        *stringp = string;
+        *slenp *= 2;
     }
     strncat(string, &command1[slen], minmatch-slen);
     append = append || minmatch-slen;
-- 
2.43.0


From e64272387e2fd42780a91f13a9d19914e765cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 51/98] fix: show_help_columns: check cov2cbuf and clear the
 entry being built on error

---
 cligen_read.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index b139cb5..8d9516d 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -334,7 +334,8 @@ show_help_columns(cligen_handle h,
             switch (co->co_type){
             case CO_VARIABLE:
                 cbuf_reset(cb);
-                cov2cbuf(cb, co, 1);
+                if (cov2cbuf(cb, co, 1) < 0)
+                    goto done;
                 cmd = cbuf_get(cb);
                 break;
             case CO_COMMAND:
@@ -351,8 +352,10 @@ show_help_columns(cligen_handle h,
                 fprintf(stderr, "%s strdup: %s\n", __FUNCTION__, strerror(errno));
                 goto done;
             }
-            if (co->co_helpstring && cligen_txt2cvv(co->co_helpstring, &ch->ch_helpvec) < 0)
+            if (co->co_helpstring && cligen_txt2cvv(co->co_helpstring, &ch->ch_helpvec) < 0){
+                cligen_help_clear(ch);
                 goto done;
+            }
             if (nrcmd && cligen_help_eq(&chvec[nrcmd-1], ch, 0) == 1){
                 cligen_help_clear(ch);
                 continue;
-- 
2.43.0


From dbbcd914019b1ebba4d396b7b2d12c630a526d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 52/98] fix: show_help_line, cvec_exclude_keys: check the
 result of cvec_del_i

---
 cligen_cvec.c | 3 ++-
 cligen_read.c | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index bf95552..1e506ff 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -979,7 +979,8 @@ cvec_exclude_keys(cvec *cvv)
         if ((cv = cvec_i(cvv, i)) != NULL &&
             cv_const_get(cv)){
             cv_reset(cv);
-            cvec_del_i(cvv, i);
+            if (cvec_del_i(cvv, i) < 0)
+                return -1;
             continue;
         }
         i++;
diff --git a/cligen_read.c b/cligen_read.c
index 8d9516d..43fd9c0 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -469,11 +469,13 @@ show_help_line(cligen_handle h,
         /* Remove the last elements. Awkward: first free the cv then truncate the cvec */
         if (cvlastt)
             cv_reset(cvlastt);
-        cvec_del_i(cvt, cvec_len(cvt)-1); /* We really just want to truncate len-1 */
+        if (cvec_del_i(cvt, cvec_len(cvt)-1) < 0) /* We really just want to truncate len-1 */
+            goto done;
 
         if ((cvlastr = cvec_i(cvr, cvec_len(cvr)-1)) != NULL)
             cv_reset(cvlastr);
-        cvec_del_i(cvr, cvec_len(cvr)-1);
+        if (cvec_del_i(cvr, cvec_len(cvr)-1) < 0)
+            goto done;
 
         if (match_pattern_exact(h, cvt, cvr, pt,
                                 cvv,
-- 
2.43.0


From f898697c109a2fa6a501dbde7025f33781df94b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 53/98] fix: cli_complete: check cligen_buf_increase and
 reserve the whole completed line

---
 cligen_read.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index 43fd9c0..206da02 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -548,10 +548,9 @@ cli_complete(cligen_handle h,
         goto done;
     extra = strlen(s) - cursor;      /* Extra characters added? */
     if (extra){
-        cligen_buf_increase(h, strlen(s));
-        string = cligen_buf(h);
         n = strlen(string) - cursor; /* Nr of chars right of cursor to copy */
-        cligen_buf_increase(h, strlen(string)+cursor+n);
+        if (cligen_buf_increase(h, strlen(s)+n) < 0)
+            goto done;
         string = cligen_buf(h);
         for (i=cursor+n; i>=cursor; i--)             /* Copy right of cursor */
             string[i + extra] = string[i];
-- 
2.43.0


From e0781fd5e8cedc62ffce3036f912c21fade120a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 54/98] fix: cliread_parse: check that the command string was
 stored

---
 cligen_read.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index 206da02..f55a2d6 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -676,9 +676,11 @@ cliread_parse(cligen_handle  h,
         goto done;;
     if ((cv = cvec_add(cvv, CGV_REST)) == NULL)
         goto done;
-    cv_name_set(cv, "cmd"); /* the whole command string */
+    if (cv_name_set(cv, "cmd") == NULL) /* the whole command string */
+        goto done;
     /* The whole command string as user entered. */
-    cv_string_set(cv, string);
+    if (cv_string_set(cv, string) == NULL)
+        goto done;
     if ((ptn = pt_new()) == NULL)
         goto done;
     if (pt_expand(h, NULL,
-- 
2.43.0


From d967c6c90a21d87148d69de0b8346a6e14e62268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 55/98] fix: cligen_eval, pt_expand_fn: restore the matched
 object after the callback, its owner may free it

---
 cligen_expand.c | 28 ++++++++++++++++++++--------
 cligen_read.c   |  4 ++++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index a4585f3..b96a4dd 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -527,7 +527,9 @@ pt_expand_fn(cligen_handle h,
     cg_var     *cv = NULL;
     char       *helpstr = NULL;
     cg_obj     *con = NULL;
+    cg_obj     *co_saved;
     int         i;
+    int         ret;
     const char *value;
     const char *cmd;
     cvec       *cvv1 = NULL; /* Modified */
@@ -549,18 +551,25 @@ pt_expand_fn(cligen_handle h,
     if (callbacks && callbacks->cc_cvec){
         cligen_callback_arguments_set(h, callbacks->cc_cvec);
     }
+    co_saved = cligen_co_match(h);
     cligen_co_match_set(h, co);     /* For eventual use in callback */
-    if ((*co->co_expandv_fn)(cligen_userhandle(h)?cligen_userhandle(h):h,
-                             co->co_expand_fn_str,
-                             cvv1,
-                             co->co_expand_fn_vec,
-                             commands,
-                             helptexts) < 0)
+    ret = (*co->co_expandv_fn)(cligen_userhandle(h)?cligen_userhandle(h):h,
+                               co->co_expand_fn_str,
+                               cvv1,
+                               co->co_expand_fn_vec,
+                               commands,
+                               helptexts);
+    cligen_co_match_set(h, co_saved); /* co may be part of a temporary tree */
+    if (ret < 0)
         goto done;
     i = 0;
     while ((cv = cvec_each(commands, cv)) != NULL) {
         if (i < cvec_len(helptexts)){
-            if ((helpstr = strdup(cv_string_get(cvec_i(helptexts, i)))) == NULL)
+            if ((value = cv_string_get(cvec_i(helptexts, i))) == NULL){
+                errno = EINVAL; /* Not a string */
+                goto done;
+            }
+            if ((helpstr = strdup(value)) == NULL)
                 goto done;
         }
         else
@@ -579,7 +588,10 @@ pt_expand_fn(cligen_handle h,
         if (cvv_filter && cvec_len(cvv_filter))
             if (co_filter_set(con, cvv_filter) == NULL)
                 goto done;
-        value = cv_string_get(cv);
+        if ((value = cv_string_get(cv)) == NULL){
+            errno = EINVAL; /* Not a string */
+            goto done;
+        }
         if ((cmd = strdup(value)) == NULL)
             goto done;
         /* 'cmd' always points to mutable string, helpstr is consumed */
diff --git a/cligen_read.c b/cligen_read.c
index f55a2d6..866b5c9 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -1005,6 +1005,7 @@ cligen_eval(cligen_handle h,
     cligen_eval_wrap_fn *wrapfn = NULL;
     void          *wraparg = NULL;
     void          *wh = NULL; /* eval wrap handle */
+    cg_obj        *co_saved = NULL;
     int            spipe = -1;
     pid_t          childpid = 0;
 
@@ -1013,6 +1014,7 @@ cligen_eval(cligen_handle h,
         errno = EINVAL;
         goto done;
     }
+    co_saved = cligen_co_match(h);
     cligen_co_match_set(h, co); /* For eventual use in callback */
     /* Make a copy of var argument for modifications */
     if ((cvv1 = cvec_dup(cvv)) == NULL)
@@ -1075,6 +1077,8 @@ cligen_eval(cligen_handle h,
         free(wh);
     if (cvv1)
         cvec_free(cvv1);
+    if (h) /* co is owned (and may be freed) by the caller */
+        cligen_co_match_set(h, co_saved);
     return retval;
 }
 
-- 
2.43.0


From fcd5e267838e628e6a25d0bbd0a567d9cfb93ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 56/98] fix: cligen_eval: check the copy of the callback
 arguments and the callback name

---
 cligen_read.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index 866b5c9..4333423 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -1044,8 +1044,14 @@ cligen_eval(cligen_handle h,
             continue;
         /* Vector cvec argument to callback */
         if ((fn = co_callback_fn_get(cc)) != NULL){
-            argv = cc->cc_cvec ? cvec_dup(cc->cc_cvec) : NULL;
-            cligen_fn_str_set(h, cc->cc_fn_str);
+            argv = NULL;
+            if (cc->cc_cvec && (argv = cvec_dup(cc->cc_cvec)) == NULL)
+                goto done;
+            if (cligen_fn_str_set(h, cc->cc_fn_str) < 0){
+                if (argv != NULL)
+                    cvec_free(argv);
+                goto done;
+            }
             /* Eval wrapper function so upper layers can make checks before and after callback */
             if (wrapfn)
                 (*wrapfn)(wraparg, &wh, cc->cc_fn_str, __FUNCTION__);
-- 
2.43.0


From 31b8f16ccdb0e85bf977c372363877cb560a514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 57/98] fix: cligen_eval_pipe_pre: close the socket pair if
 fork fails and never return from the child

---
 cligen_read.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/cligen_read.c b/cligen_read.c
index 4333423..18cbfa7 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -872,22 +872,28 @@ cligen_eval_pipe_pre(cligen_handle h,
 {
     int            retval = -1;
     int            spair[2] = {-1, -1};
+    pid_t          pid;
     cgv_fnstype_t *fn;
 
+    if (*spipe != -1){ /* Only one output pipe at a time */
+        errno = EBUSY;
+        goto done;
+    }
     if (socketpair(AF_UNIX, SOCK_STREAM, 0, spair) < 0)
         goto done;
-    if ((*pidp = fork()) < 0)
+    if ((pid = fork()) < 0){
+        close(spair[0]);
+        close(spair[1]);
         goto done;
-    if (*pidp == 0) {   /* Child */
+    }
+    if (pid == 0) {   /* Child */
         close(spair[0]);
         close(0);
-        if (dup2(spair[1], STDIN_FILENO) < 0){
-            goto done;
-        }
+        if (dup2(spair[1], STDIN_FILENO) < 0)
+            exit(-1);
         close(1);
-        if (dup2(spair[1], STDOUT_FILENO) < 0){
-            goto done;
-        }
+        if (dup2(spair[1], STDOUT_FILENO) < 0)
+            exit(-1);
         close(spair[1]);
         fn = co_callback_fn_get(cc);
         signal_unblock(SIGTERM);
@@ -899,11 +905,11 @@ cligen_eval_pipe_pre(cligen_handle h,
     }
     /* parent */
     close(spair[1]);
+    *spipe = spair[0];
+    *pidp = pid;
     /* for cligen_output */
     if (cli_pipe_output_socket_set(spair[0]) < 0)
         goto done;
-    if (spipe)
-        *spipe = spair[0];
     retval = 0;
  done:
     return retval;
-- 
2.43.0


From c35ba70de20c228de51302372e475efe1c13dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 58/98] fix: cligen_eval: wait for the pipe child and restore
 output also when a callback fails

---
 cligen_io.c   |  5 +++--
 cligen_read.c | 27 ++++++++++++++++-----------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index c6a2e6e..2097afc 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -276,7 +276,8 @@ cligen_output(FILE       *f,
     va_start(args, template);
     inbuflen = vsnprintf(NULL, 0, template, args);
     va_end(args);
-
+    if (inbuflen < 0)
+        goto done;
     if ((inbuf = malloc(inbuflen+1)) == NULL)
         goto done;
     va_start(args, template);
@@ -292,7 +293,7 @@ cligen_output(FILE       *f,
     if (s != -1){
         if (write(s, inbuf, inbuflen) < 0){
             perror("cligen_output write on pipe socket");
-            close(s);
+            /* socket is closed by cligen_eval */
             cli_pipe_output_socket_set(-1);
             goto done;
         }
diff --git a/cligen_read.c b/cligen_read.c
index 18cbfa7..95f5d7a 100644
--- a/cligen_read.c
+++ b/cligen_read.c
@@ -935,7 +935,8 @@ cligen_eval_pipe_post(cligen_handle h,
     ssize_t len;
     int     s;
 
-    cli_pipe_output_socket_get(&s);
+    if (cli_pipe_output_socket_get(&s) < 0)
+        goto done;
     if (s != -1) {
         /* Close write side of socket */
         if (shutdown(s, SHUT_WR) < 0){
@@ -965,22 +966,22 @@ cligen_eval_pipe_post(cligen_handle h,
             if ((ret = cligen_eval_poll(s, CLI_PIPE_TIMEOUT_US)) < 0)
                 goto done;
         }
-        if (cli_pipe_output_socket_set(-1) < 0)
-            goto done;
     }
+    retval = 0;
+ done:
+    /* Restore output and wait for child also on error */
+    if (cli_pipe_output_socket_set(-1) < 0)
+        retval = -1;
     kill(childpid, SIGTERM);
     /* On success, returns the process ID of the terminated child */
     if(waitpid(childpid, &status, 0) != childpid){
         perror("waitpid");
-        goto done;
+        retval = -1;
     }
-    retval = 0;
-    if (WIFEXITED(status)){
-        ret = WEXITSTATUS(status);
-        if (ret != 0)
+    else if (WIFEXITED(status)){
+        if (WEXITSTATUS(status) != 0)
             retval = -1;
     }
- done:
     return retval;
 }
 
@@ -1013,6 +1014,7 @@ cligen_eval(cligen_handle h,
     void          *wh = NULL; /* eval wrap handle */
     cg_obj        *co_saved = NULL;
     int            spipe = -1;
+    int            ret;
     pid_t          childpid = 0;
 
     /* Save matched object for plugin use */
@@ -1077,12 +1079,15 @@ cligen_eval(cligen_handle h,
         }
     }
     if (childpid){
-        if (cligen_eval_pipe_post(h, spipe, childpid) < 0){
+        ret = cligen_eval_pipe_post(h, spipe, childpid);
+        childpid = 0;
+        if (ret < 0)
             goto done;
-        }
     }
     retval = 0;
  done:
+    if (childpid) /* Failure: retval is set, but restore output and wait for child */
+        cligen_eval_pipe_post(h, spipe, childpid);
     if (spipe != -1)
         close(spipe);
     if (wh)
-- 
2.43.0


From c1a75dc0888c363ecd2be16f64d9bba4c3f78961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:10 +0000
Subject: [PATCH 59/98] fix: an assignment or flag that cannot be stored fails
 the parsing of the specification

---
 cligen_parse.y | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 2c531c7..a019b97 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -198,7 +198,10 @@ cgy_flag(cligen_yacc *cy,
             fprintf(stderr, "%s: realloc:%s\n", __FUNCTION__, strerror(errno));
             goto done;
         }
-        cv_name_set(cv, var);
+        if (cv_name_set(cv, var) == NULL){
+            fprintf(stderr, "%s: cv_name_set:%s\n", __FUNCTION__, strerror(errno));
+            goto done;
+        }
         cv_int32_set(cv, 1);
     }
     retval = 0;
@@ -303,13 +306,20 @@ cgy_assignment(cligen_yacc *cy,
             fprintf(stderr, "%s: realloc:%s\n", __FUNCTION__, strerror(errno));
             goto done;
         }
-        cv_name_set(cv, var);
-        if (cv_parse(val, cv) < 0)
+        if (cv_name_set(cv, var) == NULL){
+            fprintf(stderr, "%s: cv_name_set:%s\n", __FUNCTION__, strerror(errno));
+            goto done;
+        }
+        if (val && cv_parse(val, cv) < 0)
             goto done;
     }
     else{ /* global */
         treename_keyword = cligen_treename_keyword(h); /* typically: "treename" */
         if (strcmp(var, treename_keyword) == 0){
+            if (val == NULL){ /* Empty treename */
+                errno = EINVAL;
+                goto done;
+            }
             if (cgy_treename(cy, val) < 0)
                 goto done;
         }
@@ -319,9 +329,12 @@ cgy_assignment(cligen_yacc *cy,
                     fprintf(stderr, "%s: realloc:%s\n", __FUNCTION__, strerror(errno));
                     goto done;
                 }
-                cv_name_set(cv, var);
+                if (cv_name_set(cv, var) == NULL){
+                    fprintf(stderr, "%s: cv_name_set:%s\n", __FUNCTION__, strerror(errno));
+                    goto done;
+                }
             }
-            if (cv_parse(val, cv) < 0)  /* May be wrong type */
+            if (val && cv_parse(val, cv) < 0)  /* May be wrong type */
                 goto done;
         }
     }
@@ -1309,14 +1322,17 @@ option      : callback           { _PARSE_DEBUG("option->callback");}
 
 assignment  : NAME '=' DQ charseq DQ
                                  {_PARSE_DEBUG("assignment->\" charseq \"");
-                                  cgy_assignment(_cy, $1,$4);free($1); free($4);}
+                                  if (cgy_assignment(_cy, $1,$4) < 0) _YYERROR("assignment");
+                                  free($1); free($4);}
             | NAME '=' DQ DQ
                                  { _PARSE_DEBUG("assignment->\" \"");
-                                  cgy_assignment(_cy, $1,NULL);free($1);}
+                                  if (cgy_assignment(_cy, $1,NULL) < 0) _YYERROR("assignment");
+                                  free($1);}
             ;
 
 flag        : NAME               { _PARSE_DEBUG("flag->NAME");
-                                   cgy_flag(_cy, $1);free($1);}
+                                   if (cgy_flag(_cy, $1) < 0) _YYERROR("flag");
+                                   free($1);}
             ;
 
 callback    : NAME               { _PARSE_DEBUG("callback->NAME ( arglist )");
-- 
2.43.0


From da2b8e4cf5806c6185c7e0d5a1744f037ad47fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 60/98] fix: an invalid preference or fraction-digits is an
 error with a reason

---
 cligen_parse.y | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index a019b97..056cc0d 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -460,7 +460,9 @@ cg_preference(cligen_yacc *cy,
         return -1;
     }
     if (parse_uint16(pref, &yv->co_preference, &reason) != 1){
-        cligen_parseerror1(cy, reason);
+        cligen_parseerror1(cy, reason?reason:"Invalid preference");
+        if (reason)
+            free(reason);
         return -1;
     }
     return 0;
@@ -1212,8 +1214,10 @@ cg_dec64_n(cligen_yacc *cy,
         fprintf(stderr, "No var obj");
         return -1;
     }
-    if (parse_uint8(fraction_digits, &yv->co_dec64_n, NULL) != 1){
-        cligen_parseerror1(cy, reason);
+    if (parse_uint8(fraction_digits, &yv->co_dec64_n, &reason) != 1){
+        cligen_parseerror1(cy, reason?reason:"Invalid fraction-digits");
+        if (reason)
+            free(reason);
         return -1;
     }
     return 0;
@@ -1506,7 +1510,7 @@ keypair     : NAME '(' ')' {
               }
             | V_PREFERENCE ':' NUMBER {
                  _PARSE_DEBUG("keypair->preference : number");
-                 cg_preference(_cy, $3); free($3);
+                 if (cg_preference(_cy, $3) < 0) _YYERROR("keypair"); free($3);
               }
             ;
 
-- 
2.43.0


From 5e7024608ce7508e0c757890f4474ebcfc906d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 61/98] fix: function arguments that cannot be stored are an
 error, and expand arguments belong to the expand function

---
 cligen_parse.y | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 056cc0d..1453281 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -394,10 +394,12 @@ cgy_callback_arg(cligen_yacc *cy,
     if (cclast){
         if ((cv = create_cv(cy, type, arg)) == NULL)
             goto done;
-        if (cclast->cc_cvec)
-            cvec_append_var(cclast->cc_cvec, cv);
-        else
-            cclast->cc_cvec = cvec_from_var(cv);
+        if (cclast->cc_cvec){
+            if (cvec_append_var(cclast->cc_cvec, cv) < 0)
+                goto done;
+        }
+        else if ((cclast->cc_cvec = cvec_from_var(cv)) == NULL)
+            goto done;
     }
     retval = 0;
   done:
@@ -411,17 +413,20 @@ cgy_callback_arg(cligen_yacc *cy,
  */
 static int
 expand_arg(cligen_yacc *cy,
+           char        *type,
            char        *arg)
 {
-   int      retval = -1;
+    int     retval = -1;
     cg_var *cv = NULL;
 
-    if ((cv = create_cv(cy, "string", arg)) == NULL)
+    if ((cv = create_cv(cy, type, arg)) == NULL)
+        goto done;
+    if (cy->cy_var->co_expand_fn_vec){
+        if (cvec_append_var(cy->cy_var->co_expand_fn_vec, cv) < 0)
+            goto done;
+    }
+    else if ((cy->cy_var->co_expand_fn_vec = cvec_from_var(cv)) == NULL)
         goto done;
-    if (cy->cy_var->co_expand_fn_vec)
-        cvec_append_var(cy->cy_var->co_expand_fn_vec, cv);
-    else
-        cy->cy_var->co_expand_fn_vec = cvec_from_var(cv);
     retval = 0;
   done:
     if (cv)
@@ -1519,11 +1524,14 @@ exparglist : exparglist ',' exparg
            ;
 
 exparg     : DQ DQ
-           | DQ charseq DQ { expand_arg(_cy, $2); free($2); }
+           | DQ charseq DQ {
+                    if (expand_arg(_cy, "string", $2) < 0) _YYERROR("exparg");
+                    free($2);
+              }
            ;
 
 exparg     : typecast arg1 {
-                    if ($2 && cgy_callback_arg(_cy, $1, $2) < 0) _YYERROR("exparg");
+                    if ($2 && expand_arg(_cy, $1, $2) < 0) _YYERROR("exparg");
                     if ($1) free($1);
                     if ($2) free($2);
               }
-- 
2.43.0


From 9bfccd5f3a2fbc5e017cfeeca7e4535c30704e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:42 +0000
Subject: [PATCH 62/98] fix: fraction-digits outside 1..18 is refused when the
 specification is loaded

---
 cligen_parse.y | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cligen_parse.y b/cligen_parse.y
index 1453281..ce0efba 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -1225,6 +1225,10 @@ cg_dec64_n(cligen_yacc *cy,
             free(reason);
         return -1;
     }
+    if (yv->co_dec64_n < 1 || yv->co_dec64_n > 18){
+        cligen_parseerror1(cy, "fraction-digits not in interval 1..18");
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From 84fc507216c06c9d4b543bcd4b07bf240b83f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 63/98] fix: a range or regexp that cannot be stored is an
 error

---
 cligen_parse.y | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index ce0efba..70b59aa 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -1052,7 +1052,8 @@ cg_regexp(cligen_yacc *cy,
         goto done;
     if (invert)
         cv_flag_set(cv, V_INVERT);
-    cv_string_set(cv, rx);
+    if (cv_string_set(cv, rx) == NULL)
+        goto done;
     if (cy->cy_var->co_vtype != CGV_STRING && cy->cy_var->co_vtype != CGV_REST)
         cy->cy_var->co_vtype = CGV_STRING;
     retval = 0;
@@ -1107,7 +1108,6 @@ cg_range_create(cligen_yacc *cy,
         }
         if (cvret == 0){ /* parsing failed */
             cligen_parseerror1(cy, reason);
-            free(reason);
             goto done;
         }
     }
@@ -1116,7 +1116,7 @@ cg_range_create(cligen_yacc *cy,
         if ((yv->co_rangecvv_low = cvec_from_var(cv1)) == NULL)
             goto done;
     }
-    else if (cvec_append_var(yv->co_rangecvv_low, cv1) < 0)
+    else if (cvec_append_var(yv->co_rangecvv_low, cv1) == NULL)
         goto done;
     /* Then create upper bound cv */
     if ((cv2 = cv_new(cvtype)) == NULL){
@@ -1135,7 +1135,6 @@ cg_range_create(cligen_yacc *cy,
     }
     if (cvret == 0){ /* parsing failed */
         cligen_parseerror1(cy, reason);
-        free(reason);
         goto done;
     }
 
@@ -1144,7 +1143,7 @@ cg_range_create(cligen_yacc *cy,
         if ((yv->co_rangecvv_upp = cvec_from_var(cv2)) == NULL)
             goto done;
     }
-    else if (cvec_append_var(yv->co_rangecvv_upp, cv2) < 0)
+    else if (cvec_append_var(yv->co_rangecvv_upp, cv2) == NULL)
         goto done;
     /* Then increment range vector length */
     yv->co_rangelen++;
@@ -1154,6 +1153,8 @@ cg_range_create(cligen_yacc *cy,
         cv_free(cv1);
     if (cv2)
         cv_free(cv2);
+    if (reason)
+        free(reason);
     return retval;
 }
 
-- 
2.43.0


From 57ebe8adf6cd2e608c8f9372d0c1bb2f6052df60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 64/98] fix: check allocation of choices and strings in the
 specification parser

---
 cligen_parse.y | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 70b59aa..483c072 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -759,6 +759,10 @@ cgy_var_choice_append(cligen_yacc *cy,
     int len;
     char *s;
 
+    if (app == NULL)
+        return NULL;
+    if (str == NULL) /* Empty first choice */
+        return strdup(app);
     len = strlen(str)+strlen(app) + 2;
     if ((s = realloc(str, len)) == NULL) {
         fprintf(stderr, "%s: realloc: %s\n", __FUNCTION__, strerror(errno));
@@ -1546,16 +1550,16 @@ choices     : { $$ = NULL;}
             | NUMBER { $$ = $1;}
             | NAME { $$ = $1;}
             | DECIMAL { $$ = $1;}
-            | choices '|' NUMBER  { $$ = cgy_var_choice_append(_cy, $1, $3); free($3);}
-            | choices '|' NAME    { $$ = cgy_var_choice_append(_cy, $1, $3); free($3);}
-            | choices '|' DECIMAL { $$ = cgy_var_choice_append(_cy, $1, $3); free($3);}
+            | choices '|' NUMBER  { if (($$ = cgy_var_choice_append(_cy, $1, $3)) == NULL) _YYERROR("choices"); free($3);}
+            | choices '|' NAME    { if (($$ = cgy_var_choice_append(_cy, $1, $3)) == NULL) _YYERROR("choices"); free($3);}
+            | choices '|' DECIMAL { if (($$ = cgy_var_choice_append(_cy, $1, $3)) == NULL) _YYERROR("choices"); free($3);}
             ;
 
 charseq    : charseq CHARS
               {
                   int len = strlen($1);
                   _PARSE_DEBUG("charseq->charseq CHARS");
-                  $$ = realloc($1, len+strlen($2) +1);
+                  if (($$ = realloc($1, len+strlen($2) +1)) == NULL) _YYERROR("charseq");
                   sprintf($$+len, "%s", $2);
                   free($2);
                  }
-- 
2.43.0


From e01bf740548b7ef09ec4c74e78e57b93e35a3cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 65/98] fix: cvec_append_var returns NULL on error

---
 cligen_parse.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 483c072..33f2593 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -395,7 +395,7 @@ cgy_callback_arg(cligen_yacc *cy,
         if ((cv = create_cv(cy, type, arg)) == NULL)
             goto done;
         if (cclast->cc_cvec){
-            if (cvec_append_var(cclast->cc_cvec, cv) < 0)
+            if (cvec_append_var(cclast->cc_cvec, cv) == NULL)
                 goto done;
         }
         else if ((cclast->cc_cvec = cvec_from_var(cv)) == NULL)
@@ -422,7 +422,7 @@ expand_arg(cligen_yacc *cy,
     if ((cv = create_cv(cy, type, arg)) == NULL)
         goto done;
     if (cy->cy_var->co_expand_fn_vec){
-        if (cvec_append_var(cy->cy_var->co_expand_fn_vec, cv) < 0)
+        if (cvec_append_var(cy->cy_var->co_expand_fn_vec, cv) == NULL)
             goto done;
     }
     else if ((cy->cy_var->co_expand_fn_vec = cvec_from_var(cv)) == NULL)
-- 
2.43.0


From 80018f44b37ff833559ba18f96c302e96e963635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 66/98] fix: an attribute given twice for a variable does not
 leak the first

---
 cligen_parse.y | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cligen_parse.y b/cligen_parse.y
index 33f2593..1ca5ae4 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -441,6 +441,8 @@ static int
 expand_fn(cligen_yacc *cy,
           char        *fn)
 {
+    if (cy->cy_var->co_expand_fn_str)
+        free(cy->cy_var->co_expand_fn_str);
     cy->cy_var->co_expand_fn_str = fn;
     return 0;
 }
@@ -449,6 +451,8 @@ static int
 cg_translate(cligen_yacc *cy,
              char        *fn)
 {
+    if (cy->cy_var->co_translate_fn_str)
+        free(cy->cy_var->co_translate_fn_str);
     cy->cy_var->co_translate_fn_str = fn;
     return 0;
 }
@@ -1475,10 +1479,12 @@ keypair     : NAME '(' ')' {
                  expand_fn(_cy, $1); }
             | V_SHOW ':' NAME {
                  _PARSE_DEBUG("keypair->show:name");
+                 if (_CY->cy_var->co_show) free(_CY->cy_var->co_show);
                  _CY->cy_var->co_show = $3;
               }
             | V_SHOW ':' DQ charseq DQ {
                  _PARSE_DEBUG("keypair->show:DQ charseq DQ");
+                 if (_CY->cy_var->co_show) free(_CY->cy_var->co_show);
                  _CY->cy_var->co_show = $4;
               }
             | V_RANGE '[' numdec ':' numdec ']' {
@@ -1503,10 +1509,12 @@ keypair     : NAME '(' ')' {
               }
             | V_CHOICE choices {
                  _PARSE_DEBUG("keypair->choice choices");
+                 if (_CY->cy_var->co_choice) free(_CY->cy_var->co_choice);
                  _CY->cy_var->co_choice = $2;
               }
             | V_KEYWORD ':' NAME {
                  _PARSE_DEBUG("keypair->keyword name");
+                if (_CY->cy_var->co_keyword) free(_CY->cy_var->co_keyword);
                 _CY->cy_var->co_keyword = $3;
                 _CY->cy_var->co_vtype=CGV_STRING;
               }
-- 
2.43.0


From a2d6782ccd577cf0de8d1017a9222242b82a4117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:36 +0000
Subject: [PATCH 67/98] fix: release what the specification parser holds when
 it fails

---
 cligen_parse.y | 96 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 58 insertions(+), 38 deletions(-)

diff --git a/cligen_parse.y b/cligen_parse.y
index 1ca5ae4..5c7b504 100644
--- a/cligen_parse.y
+++ b/cligen_parse.y
@@ -229,6 +229,7 @@ cgy_treename(cligen_yacc *cy,
     parse_tree      *pt;
     pt_head         *ph;
     cg_var          *cv;
+    char            *str;
 
     /* Get the first object */
     for (cl=cy->cy_list; cl; cl = cl->cl_next){
@@ -249,25 +250,29 @@ cgy_treename(cligen_yacc *cy,
             goto done;
         if (cligen_ph_parsetree_set(ph, pt) < 0)
             goto done;
-        /* 3. Create new parse-tree XXX */
+        /* 3. Replace with new parse-tree, the old is owned by the tree header */
+        if (co_pt_clear(cot) < 0)
+            goto done;
         if ((pt = pt_new()) == NULL)
             goto done;
-        co_pt_clear(cot);
-        co_pt_set(cot, pt);
+        if (co_pt_set(cot, pt) < 0){
+            pt_free(pt, 1);
+            goto done;
+        }
         if ((cv = cvec_find(cy->cy_globals, "pipetree")) != NULL){
-            char *str;
             if ((str = cv_string_get(cv)) != NULL && strlen(str))
                 if (cligen_ph_pipe_set(ph, str) < 0)
                     goto done;
         }
     }
     /* 4. Set the new name */
-    if (cy->cy_treename)
-        free(cy->cy_treename);
-    if ((cy->cy_treename = strdup(name)) == NULL){
+    if ((str = strdup(name)) == NULL){
         fprintf(stderr, "%s: strdup: %s\n", __FUNCTION__, strerror(errno));
         goto done;
     }
+    if (cy->cy_treename)
+        free(cy->cy_treename);
+    cy->cy_treename = str;
     retval = 0;
  done:
     return retval;
@@ -608,8 +613,13 @@ cgy_var_post(cligen_yacc *cy)
         else
             coc = coy; /* Dont copy if last in list */
         co_up_set(coc, coparent);
-        if ((co = co_insert(co_pt_get(coparent), coc)) == NULL) /* coc may be deleted */
+        if ((co = co_insert(co_pt_get(coparent), coc)) == NULL){ /* coc may be deleted */
+            if (coc != coy) /* coy is freed in cgy_exit */
+                co_free(coc, 1);
             return -1;
+        }
+        if (coc == coy)
+            cy->cy_var = NULL; /* Consumed, and may be deleted */
         cl->cl_obj = co;
     }
     return 0;
@@ -642,8 +652,10 @@ cgy_cmd(cligen_yacc *cy,
             cligen_parseerror1(cy, "Allocating cligen object");
             return -1;
         }
-        if ((co = co_insert(co_pt_get(cop), conew)) == NULL)  /* co_new may be deleted */
+        if ((co = co_insert(co_pt_get(cop), conew)) == NULL){  /* co_new may be deleted */
+            co_free(conew, 1);
             return -1;
+        }
         if (cy->cy_optional){
             co_flags_set(co, CO_FLAGS_OPTION);
         }
@@ -670,23 +682,27 @@ cgy_reference(cligen_yacc *cy,
     struct cgy_list *cl;
     cg_obj          *cop;   /* parent */
     cg_obj          *cot;   /* tree */
+    cg_obj          *conew; /* new tree */
     cbuf            *cb = NULL;
 
     if ((cb = cbuf_new()) == NULL)
         goto done;
-    if (pipetree)
-        cprintf(cb, "|");
-    cprintf(cb, "%s", name);
+    if (pipetree && cprintf(cb, "|") < 0)
+        goto done;
+    if (cprintf(cb, "%s", name) < 0)
+        goto done;
     for (cl=cy->cy_list; cl; cl = cl->cl_next){
         /* Add a treeref 'stub' which is expanded in pt_expand to a sub-tree */
         cop = cl->cl_obj;
-        if ((cot = co_new(cbuf_get(cb), cop)) == NULL) {
+        if ((conew = co_new(cbuf_get(cb), cop)) == NULL) {
             cligen_parseerror1(cy, "Allocating cligen object");
             goto done;
         }
-        cot->co_type = CO_REFERENCE;
-        if ((cot = co_insert(co_pt_get(cop), cot)) == NULL)  /* cot may be deleted */
+        conew->co_type = CO_REFERENCE;
+        if ((cot = co_insert(co_pt_get(cop), conew)) == NULL){  /* conew may be deleted */
+            co_free(conew, 1);
             goto done;
+        }
         /* Replace parent in cgy_list: not allowed after ref?
            but only way to add callbacks to it.
         */
@@ -716,6 +732,7 @@ cgy_helpstring(cligen_yacc *cy,
     int              retval = -1;
     struct cgy_list *cl;
     cg_obj          *co;
+    char            *str;
 
     if (helpstr == NULL){
         errno = EINVAL;
@@ -725,11 +742,12 @@ cgy_helpstring(cligen_yacc *cy,
         co = cl->cl_obj;
         if (co->co_helpstring){
             if (merge){
-                if ((co->co_helpstring = realloc(co->co_helpstring,
-                                                 strlen(co->co_helpstring) + strlen(helpstr) + 2)) == NULL){
+                if ((str = realloc(co->co_helpstring,
+                                   strlen(co->co_helpstring) + strlen(helpstr) + 2)) == NULL){
                     cligen_parseerror1(cy, "Allocating helpstr");
                     goto done;
                 }
+                co->co_helpstring = str;
                 strcat(co->co_helpstring, "\n");
                 strcat(co->co_helpstring, helpstr);
             }
@@ -740,9 +758,10 @@ cgy_helpstring(cligen_yacc *cy,
                 goto done;
             }
     }
-    free(helpstr);
     retval = 0;
  done:
+    if (helpstr)
+        free(helpstr);
     return retval;
  }
 
@@ -804,8 +823,10 @@ cgy_terminal(cligen_yacc *cy)
             while (*ccp != NULL)
                 ccp = &((*ccp)->cc_next);
 #if 1 /* Optimization: dont copy the last element */
-            if (cl->cl_next == NULL)
+            if (cl->cl_next == NULL){
                 *ccp = cy->cy_callbacks;
+                cy->cy_callbacks = NULL;
+            }
             else
 #endif
             if (co_callback_copy(cy->cy_callbacks, ccp) < 0)
@@ -832,24 +853,23 @@ cgy_terminal(cligen_yacc *cy)
             if (i == pt_len_get(ptc)){ /* Insert empty child if ';' */
                 if ((coi = co_new(NULL, co)) == NULL) {
                     cligen_parseerror1(cy, "Allocating cligen object");
-                    return -1;
+                    goto done;
                 }
                 coi->co_type = CO_EMPTY;
-                co_insert(co_pt_get(co), coi);
+                if (co_insert(co_pt_get(co), coi) == NULL){
+                    co_free(coi, 1);
+                    goto done;
+                }
             }
         }
         else{ /* Should never reach here? */
-            co_insert(co_pt_get(co), NULL);
+            errno = EINVAL;
+            goto done;
         }
     }
     /* cleanup */
-#if 1 /* Optimization: dont copy first */
-    if ((cl = cy->cy_list) != NULL)
-        cy->cy_callbacks = NULL;
-    else
-#endif
-        if (cy->cy_callbacks)
-            co_callbacks_free(&cy->cy_callbacks);
+    if (cy->cy_callbacks)
+        co_callbacks_free(&cy->cy_callbacks);
     if (cy->cy_cvec){
         cvec_free(cy->cy_cvec);
         cy->cy_cvec = NULL;
@@ -1269,18 +1289,18 @@ cgy_exit(cligen_yacc *cy)
     if (debug)
         fprintf(stderr, "%s\n", __FUNCTION__);
 
+    if (cy->cy_var) /* Not completed */
+        co_free(cy->cy_var, 1);
     cy->cy_var = NULL;
+    if (cy->cy_callbacks)
+        co_callbacks_free(&cy->cy_callbacks);
+    if (cy->cy_cvec)
+        cvec_free(cy->cy_cvec);
+    cy->cy_cvec = NULL;
     cgy_list_delete(&cy->cy_list);
-    if((cs = cy->cy_stack) != NULL){
+    while ((cs = cy->cy_stack) != NULL){
+        cy->cy_stack = cs->cs_next;
         delete_stack_element(cs);
-#if 0
-        fprintf(stderr, "%s:%d: error: lacking () or [] at or before: '%s'\n",
-                cy->cy_name,
-                cy->cy_linenum,
-                cy->cy_parse_string
-            );
-        return -1;
-#endif
     }
     return 0;
 }
-- 
2.43.0


From 59e926c4523e6310595e7f9f73f4cef2c355a998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:12 +0000
Subject: [PATCH 68/98] fix: clispec_parse_str, clispec_parse_file: release
 everything also on error

---
 cligen_syntax.c | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index d5c0464..4a7b032 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -85,6 +85,8 @@ clispec_parse_str(cligen_handle h,
     parse_tree        *pt = NULL;
     pt_head           *ph;
     cg_var            *cv;
+    int                registered = 0; /* pt is owned by tree header */
+    int                init = 0;       /* parser state needs exit */
 
     /* "Fake" top-level object that is removed on exit */
     if ((cot = co_new(NULL, NULL)) == NULL)
@@ -106,7 +108,11 @@ clispec_parse_str(cligen_handle h,
     else
         if ((pt = pt_new()) == NULL)
             goto done;
-    co_pt_set(cot, pt);
+    if (co_pt_set(cot, pt) < 0){
+        if (ptp == NULL)
+            pt_free(pt, 1);
+        goto done;
+    }
     if (cvv)
         cy.cy_globals  = cvv;
     else
@@ -117,13 +123,11 @@ clispec_parse_str(cligen_handle h,
     if (strlen(str)){ /* Not empty */
         if (cgl_init(&cy) < 0)
             goto done;
+        init++;
         if (cgy_init(&cy, cot) < 0)
             goto done;
-        if (cligen_parseparse(&cy) != 0) { /* yacc returns 1 on error */
-            cgy_exit(&cy);
-            cgl_exit(&cy);
+        if (cligen_parseparse(&cy) != 0) /* yacc returns 1 on error */
             goto done;
-        }
         /* Note pt/ptp is stale after parsing due to treename that replaces cot->pt
          * Add final tree */
         pt = co_pt_get(cot);
@@ -132,6 +136,7 @@ clispec_parse_str(cligen_handle h,
                 goto done;
             if (cligen_ph_parsetree_set(ph, pt) < 0)
                 goto done;
+            registered++;
             if ((cv = cvec_find(cy.cy_globals, "pipetree")) != NULL){
                 char *str;
                 if ((str = cv_string_get(cv)) != NULL && strlen(str))
@@ -139,25 +144,30 @@ clispec_parse_str(cligen_handle h,
                         goto done;
             }
         }
+    }
+    retval = 0;
+  done:
+    if (init){
         if (cgy_exit(&cy) < 0)
-            goto done;
+            retval = -1;
         if (cgl_exit(&cy) < 0)
-            goto done;
+            retval = -1;
     }
-    if (cvv == NULL) /* Not passed to caller function */
+    if (cvv == NULL && cy.cy_globals) /* Not passed to caller function */
         cvec_free(cy.cy_globals);
     /*
      * Remove the fake top level object and remove references to it.
      * This does not work for (other) trees
      */
-    for (i=0; i<pt_len_get(pt); i++){
-        if ((co=pt_vec_i_get(pt, i)) != NULL)
-            co_up_set(co, NULL);
+    if (cot){
+        pt = co_pt_get(cot);
+        for (i=0; i<pt_len_get(pt); i++){
+            if ((co=pt_vec_i_get(pt, i)) != NULL)
+                co_up_set(co, NULL);
+        }
+        /* On error, the tree has no other owner unless given or registered */
+        co_free(cot, retval < 0 && pt != ptp && registered == 0);
     }
-    retval = 0;
-  done:
-    if (cot)
-        co_free(cot, 0);
     if (cy.cy_treename)
         free (cy.cy_treename);
     return retval;
@@ -182,6 +192,7 @@ clispec_parse_file(cligen_handle h,
                    cvec         *cvv)
 {
     char         *buf;
+    char         *buf1;
     int           i;
     int           c;
     int           len;
@@ -199,10 +210,11 @@ clispec_parse_file(cligen_handle h,
         if ((c = fgetc(f)) == EOF)
             break;
         if (i == len-1){
-            if ((buf = realloc(buf, 2*len)) == NULL){
+            if ((buf1 = realloc(buf, 2*len)) == NULL){
                 fprintf(stderr, "%s: realloc: %s\n", __FUNCTION__, strerror(errno));
                 goto done;
             }
+            buf = buf1;
             memset(buf+len, 0, len);
             len *= 2;
         }
-- 
2.43.0


From d9a2f4dd6da1b3af3594dde4be3c0dd86e15a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 69/98] fix: clispec_parse_file: a read error is not end of
 file

---
 cligen_syntax.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index 4a7b032..8245443 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -220,6 +220,10 @@ clispec_parse_file(cligen_handle h,
         }
         buf[i++] = (char)(c&0xff);
     } /* read a line */
+    if (ferror(f)){
+        fprintf(stderr, "%s: fgetc: %s\n", __FUNCTION__, strerror(errno));
+        goto done;
+    }
     if (clispec_parse_str(h, buf, name, treename, pt, cvv) < 0)
         goto done;
     retval = 0;
-- 
2.43.0


From 40df781558d85bd399a7f881a5048b104b5c61be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 70/98] fix: cligen_alias_add: check that the old alias was
 removed and the text was built

---
 cligen_syntax.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index 8245443..767749a 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -480,21 +480,24 @@ cligen_alias_add(cligen_handle  h,
     for (i=0; i<pt_len_get(pt); i++){
         if ((co = pt_vec_i_get(pt, i)) == NULL)
             continue;
-        if (strcmp(co->co_command, name) != 0)
+        if (co->co_command == NULL || strcmp(co->co_command, name) != 0)
             continue;
         if (co_flags_get(co, CO_FLAGS_ALIAS) == 0){
             errno = EEXIST;
             goto done;
         }
-        pt_vec_i_delete(pt, i, 1);
+        if (pt_vec_i_delete(pt, i, 1) < 0)
+            goto done;
         break;
     }
     if ((cb = cbuf_new()) == NULL)
         goto done;
-    cprintf(cb, "%s", name);
-    if (helpstr)
-        cprintf(cb, "(\"%s\")", helpstr);
-    cprintf(cb, ", cligen_alias_fn(\"%s\");", command);
+    if (cprintf(cb, "%s", name) < 0)
+        goto done;
+    if (helpstr && cprintf(cb, "(\"%s\")", helpstr) < 0)
+        goto done;
+    if (cprintf(cb, ", cligen_alias_fn(\"%s\");", command) < 0)
+        goto done;
     if (clispec_parse_str(h, cbuf_get(cb), "Parsing alias command", NULL, pt, NULL) < 0){
         goto done;
     }
-- 
2.43.0


From 70a53b7a090b37d1a1dd76f14af264b421f40705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:16 +0000
Subject: [PATCH 71/98] fix: the specification scanner stops when a token
 cannot be copied

---
 cligen_parse.l | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/cligen_parse.l b/cligen_parse.l
index 08808d3..aaae304 100644
--- a/cligen_parse.l
+++ b/cligen_parse.l
@@ -122,7 +122,8 @@ stripdup(char *s0)
 <INITIAL>\}               { return *yytext; }
 <INITIAL>\@               { return *yytext; }
 <INITIAL>([^@ \t,#\n\r=;\\<\(\)\[\]\|\{\}]|\\.)+  {
-                            cligen_parselval.string = stripdup(yytext);
+                            if ((cligen_parselval.string = stripdup(yytext)) == NULL)
+                                return -1;
                             return NAME; }
 <INITIAL>.                { return -1; }
 
@@ -149,7 +150,7 @@ stripdup(char *s0)
 <NAMEORTYPE>\:            { return *yytext; }
 <NAMEORTYPE>[ \t]+        { BEGIN(VARIABLE); }
 <NAMEORTYPE>([^ \t>:]|\\.)+  {
-                            cligen_parselval.string = strdup(yytext);
+                            if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1;
                             return NAME; }
 
 <VARIABLE>[ \t]+
@@ -173,20 +174,20 @@ stripdup(char *s0)
 <VARIABLE>regexp          { return V_REGEXP; }
 <VARIABLE>translate       { return V_TRANSLATE; }
 <VARIABLE>preference      { return V_PREFERENCE; }
-<VARIABLE>[-+]?[0-9]+\.[0-9]+ { cligen_parselval.string = strdup(yytext); return DECIMAL;}
-<VARIABLE>[-+]?[0-9]+     { cligen_parselval.string = strdup(yytext); return NUMBER;}
+<VARIABLE>[-+]?[0-9]+\.[0-9]+ { if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1; return DECIMAL;}
+<VARIABLE>[-+]?[0-9]+     { if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1; return NUMBER;}
 <VARIABLE>([^ \t\n>:\|\"\(\)\[\]]|\\.)+ {
-                                 cligen_parselval.string = strdup(yytext);
+                                 if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1;
                                  return NAME; }
 
 <CHOICE>[ \t]+
 <CHOICE>\n              { _CY->cy_linenum++; }
 <CHOICE>\|              { return *yytext; }
 <CHOICE>\>              { BEGIN(INITIAL); return *yytext; }
-<CHOICE>[-+]?[0-9]+\.[0-9]+ { cligen_parselval.string = strdup(yytext); return DECIMAL;}
-<CHOICE>[-+]?[0-9]+     { cligen_parselval.string = strdup(yytext); return NUMBER;}
+<CHOICE>[-+]?[0-9]+\.[0-9]+ { if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1; return DECIMAL;}
+<CHOICE>[-+]?[0-9]+     { if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1; return NUMBER;}
 <CHOICE>([^ \t\n>\|\"\(\)\[\]]|\\.)+ {
-                                 cligen_parselval.string = strdup(yytext);
+                                 if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1;
                                  return NAME; }
 
 <OPTION>[ \t]+
@@ -201,21 +202,21 @@ stripdup(char *s0)
 <OPTION>\{                { BEGIN(INITIAL); return *yytext;}
 <OPTION>\"                { _CY->cy_lex_string_state =INITIAL;BEGIN(STRING); return DQ; }
 <OPTION>([^ \t,#\n=;\(\)\{\}\"]|\\.)+   {
-                                 cligen_parselval.string = strdup(yytext);
+                                 if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1;
                                  return NAME; }
 <OPTION>.                 { return -1;}
 
 <STRING>\n                { _CY->cy_linenum++; }
 <STRING>\"                { BEGIN(_CY->cy_lex_string_state); return DQ; }
-<STRING>\\\"              { cligen_parselval.string = strdup(yytext);
+<STRING>\\\"              { if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1;
                             return CHARS;}
-<STRING>\\              { cligen_parselval.string = strdup(yytext);
+<STRING>\\              { if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1;
                             return CHARS;}
-<STRING>[^\\"\n]+         { cligen_parselval.string = strdup(yytext);
+<STRING>[^\\"\n]+         { if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1;
                             return CHARS;}
 
 <ESCAPE>.                 { BEGIN(_CY->cy_lex_state);
-                             cligen_parselval.string = strdup(yytext);
+                             if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1;
                              return CHARS; }
 
 <COMMENT>\n               { _CY->cy_linenum++; BEGIN(_CY->cy_lex_state);}
@@ -230,7 +231,8 @@ int
 cgl_init(cligen_yacc *cy)
 {
   BEGIN(INITIAL);
-  cy->cy_lexbuf = yy_scan_string (cy->cy_parse_string);
+  if ((cy->cy_lexbuf = yy_scan_string (cy->cy_parse_string)) == NULL)
+    return -1;
 #if 1 /* XXX: just to use unput to avoid warning  */
   if (0)
     yyunput(0, "");
@@ -247,6 +249,7 @@ int
 cgl_exit(cligen_yacc *cy)
 {
     yy_delete_buffer(cy->cy_lexbuf);
+    cy->cy_lexbuf = NULL;
     cligen_parselex_destroy();  /* modern */
     return 0;
 }
-- 
2.43.0


From 21c533500da9386828dbe3786e18b574d738ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 72/98] fix: clispec_parse_str: free the tree of an empty
 specification

---
 cligen_syntax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_syntax.c b/cligen_syntax.c
index 767749a..ac3dbb4 100644
--- a/cligen_syntax.c
+++ b/cligen_syntax.c
@@ -165,8 +165,8 @@ clispec_parse_str(cligen_handle h,
             if ((co=pt_vec_i_get(pt, i)) != NULL)
                 co_up_set(co, NULL);
         }
-        /* On error, the tree has no other owner unless given or registered */
-        co_free(cot, retval < 0 && pt != ptp && registered == 0);
+        /* The tree has no other owner unless given or registered */
+        co_free(cot, pt != ptp && registered == 0);
     }
     if (cy.cy_treename)
         free (cy.cy_treename);
-- 
2.43.0


From b8e8e32f137d06328aa2ab722bfb56374fe6b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 73/98] fix: print_help_lines: check cov2cbuf and clear the
 entry being built on error

---
 cligen_io.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index 2097afc..cff14d0 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -596,7 +596,8 @@ print_help_lines(cligen_handle h,
         switch(co->co_type){
         case CO_VARIABLE:
             cbuf_reset(cb);
-            cov2cbuf(cb, co, 1);
+            if (cov2cbuf(cb, co, 1) < 0)
+                goto done;
             cmd = cbuf_get(cb);
             break;
         case CO_COMMAND:
@@ -609,8 +610,10 @@ print_help_lines(cligen_handle h,
         ch = &chvec[nrcmd];
         if ((ch->ch_cmd = strdup(cmd)) == NULL)
             goto done;
-        if (co->co_helpstring && cligen_txt2cvv(co->co_helpstring, &ch->ch_helpvec) < 0)
+        if (co->co_helpstring && cligen_txt2cvv(co->co_helpstring, &ch->ch_helpvec) < 0){
+            cligen_help_clear(ch);
             goto done;
+        }
         if (nrcmd && cligen_help_eq(&chvec[nrcmd-1], ch, 1) == 1){
             cligen_help_clear(ch);
             continue;
-- 
2.43.0


From 684b9cd0dd099b4fb841c76dfdcfe3aff011c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 74/98] fix: cligen_output_scroll: remaining columns negative
 if the terminal width has shrunk

---
 cligen_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_io.c b/cligen_io.c
index cff14d0..fc81857 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -154,6 +154,8 @@ cligen_output_scroll(FILE   *f,
     if ((linebuf = malloc(linelen+1)) == NULL)
         goto done;
     remain = linelen - D_COLUMNS;
+    if (remain <= 0) /* Terminal may be narrower than at last call */
+        remain = linelen;
     while (ib1 < ibend && D_LINES >= 0){
         /* Four cases:
          * 1. There is a CR in [ib0,ibend]
-- 
2.43.0


From dfd36f36c5c6b26aeecacdc5b7b68cca0d5711e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 75/98] fix: cov2cbuf, co_callback2cbuf: check cv2cbuf

---
 cligen_callback.c | 3 ++-
 cligen_print.c    | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cligen_callback.c b/cligen_callback.c
index 50002f8..7510e48 100644
--- a/cligen_callback.c
+++ b/cligen_callback.c
@@ -155,7 +155,8 @@ co_callback2cbuf(cbuf        *cb,
                 if (i++)
                     cprintf(cb, ",");
                 cprintf(cb, "\"");
-                cv2cbuf(cv, cb);
+                if (cv2cbuf(cv, cb) < 0)
+                    return -1;
                 cprintf(cb, "\"");
             }
         }
diff --git a/cligen_print.c b/cligen_print.c
index 629a4ab..d00793f 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -112,10 +112,12 @@ cov2cbuf(cbuf   *cb,
                 cv1 = cvec_i(co->co_rangecvv_low, i);
                 cv2 = cvec_i(co->co_rangecvv_upp, i);
                 if (cv_type_get(cv1) != CGV_EMPTY){
-                    cv2cbuf(cv1, cb);
+                    if (cv2cbuf(cv1, cb) < 0)
+                        return -1;
                     cprintf(cb, ":");
                 }
-                cv2cbuf(cv2, cb);
+                if (cv2cbuf(cv2, cb) < 0)
+                    return -1;
                 cprintf(cb, "]");
             }
             if (co->co_show)
@@ -128,7 +130,8 @@ cov2cbuf(cbuf   *cb,
                     while ((cv = cvec_each(co->co_expand_fn_vec, cv)) != NULL) {
                         if (i++)
                             cprintf(cb, ",");
-                        cv2cbuf(cv, cb);
+                        if (cv2cbuf(cv, cb) < 0)
+                            return -1;
                     }
                 }
                 cprintf(cb, "\")");
-- 
2.43.0


From 93e52a3f3698207c17f8687e008407c5026f7dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 76/98] fix: cligen_regex_posix_compile: do not compile a
 truncated expression

---
 cligen_regex.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cligen_regex.c b/cligen_regex.c
index 3f6b68c..519d88c 100644
--- a/cligen_regex.c
+++ b/cligen_regex.c
@@ -87,6 +87,7 @@ cligen_regex_posix_compile(char  *regexp,
     cbuf    *cb = NULL;
     regex_t *re = NULL;
     int      len0;
+    int      len;
     int      err;
 
     len0 = strlen(regexp);
@@ -95,22 +96,23 @@ cligen_regex_posix_compile(char  *regexp,
     /* Check if prepended by ^ */
     if (len0 > 0 && regexp[0] == '^'){
         if (regexp[len0-1] == '$')
-            cprintf(cb, "%s", regexp);
+            len = cprintf(cb, "%s", regexp);
         else if (len0 > 1 && regexp[1] == '(')
-            cprintf(cb, "%s)$", regexp);
+            len = cprintf(cb, "%s)$", regexp);
         else
-            cprintf(cb, "%s$", regexp);
+            len = cprintf(cb, "%s$", regexp);
     }
     /* Check if terminated by $ only */
     else if (len0 > 0 && regexp[len0-1] == '$'){
         if (len0 > 1 && regexp[len0-2] == ')')
-            cprintf(cb, "^(%s", regexp);
+            len = cprintf(cb, "^(%s", regexp);
         else
-            cprintf(cb, "^%s", regexp);
+            len = cprintf(cb, "^%s", regexp);
     }
     else /* Neither ^or $ */
-        cprintf(cb, "^(%s)$", regexp);
-
+        len = cprintf(cb, "^(%s)$", regexp);
+    if (len < 0)
+        goto done;
     if ((re = malloc(sizeof(regex_t))) == NULL)
         goto done;
     memset(re, 0, sizeof(regex_t));
-- 
2.43.0


From d563cd04fef7c848a0918b99e2c0255d47d22a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 77/98] fix: cligen_regex_posix_exec: an error of regexec is
 not a failed match

---
 cligen_regex.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cligen_regex.c b/cligen_regex.c
index 519d88c..d62979f 100644
--- a/cligen_regex.c
+++ b/cligen_regex.c
@@ -153,16 +153,13 @@ cligen_regex_posix_exec(void *recomp,
     int      retval = -1;
     int      status;
     regex_t *re;
-    char     errbuf[1024];
 
     re = (regex_t*)recomp;
     status = regexec(re, string, (size_t) 0, NULL, 0);
     if (status == 0)
         retval = 1;
-    else {
-        regerror(status, re, errbuf, sizeof(errbuf)); /* XXX error is ignored */
+    else if (status == REG_NOMATCH)
         retval = 0;
-    }
     return retval;
 }
 
-- 
2.43.0


From 64617f9c9ea59e4729bb613fce68a246ab7e70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 78/98] fix: a malformed token vector is an error when
 matching, not the last level

---
 cligen_match.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/cligen_match.c b/cligen_match.c
index 68c576d..7aec392 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -251,6 +251,10 @@ cligen_cvv_levels(cvec *cvv)
 }
 
 /*! Termination criterium foir command string
+ *
+ * @retval    1     Last level
+ * @retval    0     Not last level
+ * @retval   -1     Error
  */
 static int
 last_level(cvec *cvt,
@@ -258,7 +262,8 @@ last_level(cvec *cvt,
 {
     int levels;
 
-    levels = cligen_cvv_levels(cvt);
+    if ((levels = cligen_cvv_levels(cvt)) < 0)
+        return -1;
     if (level >= levels)
         return 1;
     return 0;
@@ -573,7 +578,8 @@ match_pattern_sets_local(cligen_handle  h,
     /* Tokens of this level */
     token = cvec_i_str(cvt, level+1);
     /* Is this last token? */
-    lasttoken = last_level(cvt, level);
+    if ((lasttoken = last_level(cvt, level)) < 0)
+        goto done;
     resttokens  = cvec_i_str(cvr, level+1);
 
     /* Return level at this point, can be overriden by recursive call */
@@ -828,6 +834,7 @@ match_pattern_sets(cligen_handle  h,
     char         *pipe_local;
     cg_obj       *co_pipe = NULL;
     cbuf         *cb = NULL;
+    int           last;
 
     token = cvec_i_str(cvt, level+1); /* for debugging */
 #ifdef _DEBUG_SETS
@@ -926,7 +933,7 @@ match_pattern_sets(cligen_handle  h,
 #ifdef _DEBUG_SETS
         fprintf(stderr, "%s %*s sets:\n", __FUNCTION__, level*3,"");
 #endif
-        while (!last_level(cvt, level)){
+        while ((last = last_level(cvt, level)) == 0){
             if (mrc != NULL)
                 mrc = NULL;
             if (match_pattern_sets(h, cvt, cvr,
@@ -952,6 +959,8 @@ match_pattern_sets(cligen_handle  h,
             mrcprev = mrc;
             level = mr_level_get(mrc); /* XXX level always 0 */
         } /* while */
+        if (last < 0)
+            goto done;
         if (mrc == NULL){
             *mrp = mr0;
             mr0 = NULL;
@@ -959,7 +968,9 @@ match_pattern_sets(cligen_handle  h,
         }
     }
     else{
-        if (last_level(cvt, level)){
+        if ((last = last_level(cvt, level)) < 0)
+            goto done;
+        if (last){
             *mrp = mr0;
             mr0 = NULL;
             goto ok;
@@ -1060,6 +1071,7 @@ match_pattern(cligen_handle h,
     pt_head      *ph;
     parse_tree   *ptn = NULL;
     cvec         *cvv1 = NULL;
+    int           last;
 
     if (cvt == NULL || cvr == NULL || mrp == NULL){
         errno = EINVAL;
@@ -1096,7 +1108,9 @@ match_pattern(cligen_handle h,
      *      - otherwise set to no match
      * 2) Multiple match: set no match
      */
-    if (!last_level(cvt, mr_level_get(mr))){ /* XXX level always 0 */
+    if ((last = last_level(cvt, mr_level_get(mr))) < 0)
+        goto done;
+    if (!last){ /* XXX level always 0 */
         if (mr_pt_len_get(mr) == 1){
             co_match = mr_pt_i_get(mr, 0);
             if (co_match->co_type == CO_VARIABLE && ISREST(co_match))
-- 
2.43.0


From 32719d3ea85b161f145bf774ce509023bb365fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 79/98] fix: co_find_label_filters: check that the label was
 stored

---
 cligen_expand.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index b96a4dd..9690f27 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -308,7 +308,8 @@ co_find_label_filters(cligen_handle h,
                 if (cvec_find(cvv, filter) == NULL){
                     if ((cv1 = cvec_add(cvv, CGV_BOOL)) == NULL)
                         goto done;
-                    cv_name_set(cv1, filter);
+                    if (cv_name_set(cv1, filter) == NULL)
+                        goto done;
                     cv_bool_set(cv1, 0); /* remove */
                 }
             }
-- 
2.43.0


From 3d6532f2b8ebf8dc1dbdb426025d523e50fdfeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 80/98] fix: cvec_print: check cv_print

---
 cligen_cvec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 1e506ff..46470f5 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -516,7 +516,8 @@ cvec_print(FILE *f,
             fprintf(f, "%d : %s = ", i++, name);
         else
             fprintf(f, "%d : ", i++);
-        cv_print(f, cv);
+        if (cv_print(f, cv) < 0)
+            return -1;
         fprintf(f, "\n");
     }
     return 0;
-- 
2.43.0


From fbc4a04f6370e64274fd14699801bb02f0bcb0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 81/98] fix: exit character table is not searched past its end

---
 cligen_getline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index 5ffbf1c..d376310 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -366,7 +366,7 @@ gl_exitchar_add(char c)
 {
     int i;
 
-    for (i=0;sizeof(exitchars);i++)
+    for (i=0; i<sizeof(exitchars)/sizeof(exitchars[0]); i++)
         if (!exitchars[i]){
             exitchars[i] = c;
             break;
@@ -379,7 +379,7 @@ gl_exitchar(char c)
 {
     int i;
 
-    for (i=0;sizeof(exitchars);i++){
+    for (i=0; i<sizeof(exitchars)/sizeof(exitchars[0]); i++){
         if (!exitchars[i])
             break;
         if (exitchars[i] == c)
-- 
2.43.0


From 44f7fea4a500cabc33abe83457d4882e7b916500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 82/98] fix: gl_unregfd moves whole registrations and keeps its
 table

---
 cligen_getline.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index d376310..a5d80f5 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -320,9 +320,8 @@ gl_unregfd(int fd)
     for (i = 0; i < nextfds; i++) {
         if (extfds[i].fd == fd) {
             if (i+1 < nextfds)
-                memcpy(&extfds[i], &extfds[i+1], nextfds-i);
-            extfds = realloc(extfds, (nextfds-1) * sizeof(*extfds));
-            nextfds--;
+                memmove(&extfds[i], &extfds[i+1], (nextfds-i-1)*sizeof(*extfds));
+            nextfds--; /* keep the block, gl_regfd reallocates it */
             return 0;
         }
     }
-- 
2.43.0


From e59115e60b1892bad77b4c326c13f89b0d181396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 83/98] fix: errors reading the terminal fail gl_getline

---
 cligen_getline.c | 48 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index a5d80f5..f91a0e1 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -330,7 +330,7 @@ gl_unregfd(int fd)
 }
 
 int
-gl_select()
+gl_select(cligen_handle h)
 {
     int i;
     fd_set fdset = {0,};
@@ -340,8 +340,14 @@ gl_select()
         FD_SET(0, &fdset);
         for(i = 0; i < nextfds; i++)
             FD_SET(extfds[i].fd, &fdset);
-        if (select(FD_SETSIZE, &fdset, NULL, NULL, NULL) < 0)
+        if (select(FD_SETSIZE, &fdset, NULL, NULL, NULL) < 0){
+            if (errno == EINTR){
+                if (gl_interrupt_hook && gl_interrupt_hook(h) < 0)
+                    return -1;
+                continue;
+            }
             return -1;
+        }
         for(i = 0; i < nextfds; i++)
             if (FD_ISSET(extfds[i].fd, &fdset))
                 if (extfds[i].cb(extfds[i].fd, extfds[i].arg) < 0)
@@ -405,6 +411,9 @@ gl_exit(cligen_handle h)
 /*! Get a character without echoing it to screen
  *
  * @param[in]  h     CLIgen handle
+ * @retval     c     Character
+ * @retval    -1     End of file or NUL character
+ * @retval    -2     Error
  */
 static int
 gl_getc(cligen_handle h)
@@ -415,16 +424,17 @@ gl_getc(cligen_handle h)
 #endif
 
 #if CLIGEN_REGFD
-    gl_select(); /* block until something arrives on stdin */
+    if (gl_select(h) < 0) /* block until something arrives on stdin */
+        return -2;
 #endif
 #ifdef __unix__
     while ((c = read(0, &ch, 1)) == -1) {
         if (errno == EINTR){
-            if (gl_interrupt_hook(h) <0)
-                return -1;
+            if (gl_interrupt_hook && gl_interrupt_hook(h) <0)
+                return -2;
             continue;
         }
-        break;
+        return -2;
     }
     if (c == 0){
         gl_iseof++;
@@ -717,10 +727,13 @@ gl_getline(cligen_handle h,
                 }
                 break;
             case '\033':        /* ansi arrow keys (ESC) */
-                c = gl_getc(h);
+                if ((c = gl_getc(h)) < -1)
+                    goto err;
                 /* ESC-[ is normal and ESC-O is application cursor keys */
                 if (c == '[' || c == 'O') {
                     switch(c = gl_getc(h)) {
+                    case -2:
+                        goto err;
                     case 'A':                                   /* up */
                         hist_copy_prev(h);
                         if (gl_in_hook)
@@ -742,7 +755,9 @@ gl_getline(cligen_handle h,
                     case 'F': gl_fixup(h, gl_prompt, -1, cligen_buf_size(h)); /* end */
                         break;
                     case '3': /* del */
-                        if (gl_getc(h) != '~')
+                        if ((c = gl_getc(h)) < -1)
+                            goto err;
+                        if (c != '~')
                             break;
                         gl_del(h, 0);
                         break;
@@ -760,7 +775,8 @@ gl_getline(cligen_handle h,
 #ifdef __unix__
                 if ((c & 0xe0) == 0xc0){ /* UTF-2 */
                     int c2;
-                    c2 = gl_getc(h);
+                    if ((c2 = gl_getc(h)) < -1)
+                        goto err;
                     if (gl_utf8){
                         if (gl_addchar(h, c) < 0)
                             goto err;
@@ -770,8 +786,9 @@ gl_getline(cligen_handle h,
                 }
                 else if ((c & 0xf0) == 0xe0){ /* UTF-2 */
                     int c2, c3;
-                    c2 = gl_getc(h);
-                    c3 = gl_getc(h);
+                    if ((c2 = gl_getc(h)) < -1 ||
+                        (c3 = gl_getc(h)) < -1)
+                        goto err;
                     if (gl_utf8){
                         if (gl_addchar(h, c) < 0)
                             goto err;
@@ -783,9 +800,10 @@ gl_getline(cligen_handle h,
                 }
                 else if ((c & 0xf8) == 0xf0){ /* UTF-3 */
                     int c2, c3, c4;
-                    c2 = gl_getc(h);
-                    c3 = gl_getc(h);
-                    c4 = gl_getc(h);
+                    if ((c2 = gl_getc(h)) < -1 ||
+                        (c3 = gl_getc(h)) < -1 ||
+                        (c4 = gl_getc(h)) < -1)
+                        goto err;
                     if (gl_utf8){
                         if (gl_addchar(h, c) < 0)
                             goto err;
@@ -828,6 +846,8 @@ gl_getline(cligen_handle h,
         }
     } /* while */
     cligen_buf(h)[0] = 0;
+    if (c < -1)
+        goto err;
  done:
     gl_cleanup();
     *buf = cligen_buf(h);
-- 
2.43.0


From 6a56e7756d6491010ea266a44ba48dab16e4463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 84/98] fix: the line and kill buffers are written only after
 they were enlarged

---
 cligen_getline.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/cligen_getline.c b/cligen_getline.c
index f91a0e1..252c42b 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -62,10 +62,10 @@ static int      gl_addchar(cligen_handle h, int c);     /* install specified cha
 static void     gl_del(cligen_handle h, int loc);       /* del, either left (-1) or cur (0) */
 static inline void gl_fixup(cligen_handle h, char*,int,int);/* fixup state variables and screen */
 static int      gl_getc(cligen_handle h);               /* read one char from terminal */
-static void     gl_kill(cligen_handle h, int pos);      /* delete to EOL */
-static void     gl_kill_begin(cligen_handle h, int pos);        /* delete to BEGIN of line */
+static int      gl_kill(cligen_handle h, int pos);      /* delete to EOL */
+static int      gl_kill_begin(cligen_handle h, int pos);        /* delete to BEGIN of line */
 static int      gl_kill_word(cligen_handle h, int pos); /* delete word */
-static void     gl_newline(cligen_handle);      /* handle \n or \r */
+static int      gl_newline(cligen_handle);      /* handle \n or \r */
 static int      gl_puts(char *buf);     /* write a line to terminal */
 
 static void     gl_transpose(cligen_handle h);  /* transpose two chars */
@@ -652,7 +652,8 @@ gl_getline(cligen_handle h,
                 goto exit;
             switch (c) {
             case '\n': case '\r':                       /* newline */
-                gl_newline(h);
+                if (gl_newline(h) < 0)
+                    goto err;
                 goto done;
                 /*NOTREACHED*/
                 break;
@@ -684,7 +685,7 @@ gl_getline(cligen_handle h,
 #endif
                 }
                 break;
-            case '\013': gl_kill(h, gl_pos);                    /* ^K */
+            case '\013': if (gl_kill(h, gl_pos) < 0) goto err; /* ^K */
                 break;
             case '\014':
                     gl_clear_screen(h);                         /* ^L */
@@ -709,7 +710,7 @@ gl_getline(cligen_handle h,
                 break;
             case '\024': gl_transpose(h);                       /* ^T */
                 break;
-            case '\025': gl_kill_begin(h, gl_pos);              /* ^U */
+            case '\025': if (gl_kill_begin(h, gl_pos) < 0) goto err; /* ^U */
                 break;
             case '\027': if (gl_kill_word(h, gl_pos) < 0) goto err;/* ^W */
                 break;
@@ -834,7 +835,8 @@ gl_getline(cligen_handle h,
                         kill(0, sig);
                         gl_init1();
                         gl_redraw(h);
-                        gl_kill(h, 0);
+                        if (gl_kill(h, 0) < 0)
+                            goto err;
                         c = 0;
                     }
                 }
@@ -946,7 +948,7 @@ gl_transpose(cligen_handle h)
  * @param[in]  h     CLIgen handle
  * A \n is appended. If line longer than screen, redraw starting at beginning
  */
-static void
+static int
 gl_newline(cligen_handle h)
 {
     int len = gl_cnt;
@@ -956,16 +958,18 @@ gl_newline(cligen_handle h)
         loc = gl_width - 5;     /* shifts line back to start position */
     else
         loc = gl_cnt;
-    cligen_buf_increase(h, gl_cnt+1); /* \n\0 added */
     if (gl_out_hook) {
         len = strlen(cligen_buf(h));
     }
+    if (cligen_buf_increase(h, len+1) < 0) /* \n\0 added */
+        return -1;
     if (loc > len)
         loc = len;
     gl_fixup(h, cligen_prompt(h), -1, loc);     /* must do this before appending \n */
     cligen_buf(h)[len] = '\n';
     cligen_buf(h)[len+1] = '\0';
     gl_putc('\n');
+    return 0;
 }
 
 /*! Delete a character.
@@ -993,17 +997,19 @@ gl_del(cligen_handle h,
  * @param[in]  h     CLIgen handle
  * @param[in]  pos   Delete from pos to the end of line
  */
-static void
+static int
 gl_kill(cligen_handle h,
         int           pos)
 {
     if (pos < gl_cnt) {
-        cligen_killbuf_increase(h, cligen_buf_size(h));
+        if (cligen_killbuf_increase(h, cligen_buf_size(h)) < 0)
+            return -1;
         strncpy(cligen_killbuf(h), cligen_buf(h) + pos, cligen_buf_size(h));
         cligen_buf(h)[pos] = '\0';
         gl_fixup(h, cligen_prompt(h), pos, pos);
     } else
         gl_putc('\007');
+    return 0;
 }
 
 /* Delete from pos to start of line
@@ -1011,7 +1017,7 @@ gl_kill(cligen_handle h,
  * @param[in]  h     CLIgen handle
  * @param[in]  pos   Delete from pos to start of line
  */
-static void
+static int
 gl_kill_begin(cligen_handle h,
               int           pos)
 {
@@ -1020,7 +1026,8 @@ gl_kill_begin(cligen_handle h,
 
     if (pos != 0) {
         len = strlen(cligen_buf(h));
-        cligen_killbuf_increase(h, pos);
+        if (cligen_killbuf_increase(h, pos) < 0)
+            return -1;
         strncpy(cligen_killbuf(h), cligen_buf(h), pos);
         cligen_killbuf(h)[pos] = '\0';
         memmove(cligen_buf(h), cligen_buf(h) + pos, len-pos+1); /* memmove may overlap */
@@ -1030,6 +1037,7 @@ gl_kill_begin(cligen_handle h,
         gl_fixup(h, cligen_prompt(h), -2, 0);
     } else
         gl_putc('\007');
+    return 0;
 }
 
 /*! Delete one previous word from pos
-- 
2.43.0


From 846221f9013a823628d19bde50fd2f2435072a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 85/98] fix: a history line that cannot be stored leaves its
 slot empty

---
 cligen_history.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_history.c b/cligen_history.c
index 77c6faa..63aec3b 100644
--- a/cligen_history.c
+++ b/cligen_history.c
@@ -129,8 +129,9 @@ hist_add(cligen_handle h,
             len--;
         if (ch->ch_hist_pre == 0 || strlen(ch->ch_hist_pre) != len ||
                             strncmp(ch->ch_hist_pre, buf, len) != 0) {
-            if ((ch->ch_hist_buf[ch->ch_hist_last] = hist_save(buf)) == NULL)
+            if ((p = hist_save(buf)) == NULL)
                 goto done;
+            ch->ch_hist_buf[ch->ch_hist_last] = p;
             ch->ch_hist_pre = ch->ch_hist_buf[ch->ch_hist_last];
             ch->ch_hist_last = (ch->ch_hist_last + 1) % ch->ch_hist_size;
             if (ch->ch_hist_buf[ch->ch_hist_last] && *ch->ch_hist_buf[ch->ch_hist_last]) {
-- 
2.43.0


From fff2c81f74138eb2eda5135d1430f95be26d67a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 86/98] fix: history file read and write errors are reported

---
 cligen_history.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cligen_history.c b/cligen_history.c
index 63aec3b..e97acb0 100644
--- a/cligen_history.c
+++ b/cligen_history.c
@@ -359,8 +359,11 @@ cligen_hist_file_load(cligen_handle h,
         goto done;
     while (1){
         ret = fgetc(f);
-        if (ret == EOF)
-            break; /* eof or error */
+        if (ret == EOF){
+            if (ferror(f))
+                goto done;
+            break;
+        }
         ch = (unsigned char)ret;
         if (ch == '\n'){
             if (hist_add(h, cbuf_get(cb)) < 0)
@@ -402,9 +405,11 @@ cligen_hist_file_save(cligen_handle h,
     while(i != i1){
         if ((line = ch->ch_hist_buf[i]) == NULL) /* shouldnt happen */
             break;
-        fprintf(f, "%s\n", line);
+        if (fprintf(f, "%s\n", line) < 0)
+            goto done;
         i = (i+1)%ch->ch_hist_size;
     }
     retval = 0;
+ done:
     return retval;
 }
-- 
2.43.0


From 967ed0f779f717760797ac8a9b2ef7c696c49361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 87/98] fix: cligen_pt_active_get without an active tree
 returns NULL

---
 cligen_pt_head.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cligen_pt_head.c b/cligen_pt_head.c
index 971d231..db41478 100644
--- a/cligen_pt_head.c
+++ b/cligen_pt_head.c
@@ -394,7 +394,7 @@ cligen_pt_active_get(cligen_handle h)
 {
     pt_head *ph = cligen_pt_head_active_get(h);
 
-    return ph->ph_parsetree;
+    return ph ? ph->ph_parsetree : NULL;
 }
 
 /*! Get currently active parsetree head.
-- 
2.43.0


From 57035e305163af739c84a9334b4d6002256105dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 88/98] fix: hist_copy enlarges the line buffer before storing

---
 cligen_history.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_history.c b/cligen_history.c
index e97acb0..c1630f8 100644
--- a/cligen_history.c
+++ b/cligen_history.c
@@ -256,6 +256,8 @@ int
 hist_copy(cligen_handle h,
           char         *ptr)
 {
+    if (cligen_buf_increase(h, strlen(ptr)) < 0)
+        return -1;
     strncpy(cligen_buf(h), ptr, cligen_buf_size(h));
     return 0;
 }
-- 
2.43.0


From 5c32b8e675e450ab613635b3da16014e50ed4ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 89/98] fix: printing functions report a text buffer that could
 not be extended

---
 cligen_callback.c |  15 ++++--
 cligen_cv.c       | 125 +++++++++++++++++++++++++++++-----------------
 cligen_cvec.c     |   8 ++-
 cligen_match.c    |   3 +-
 cligen_print.c    | 124 +++++++++++++++++++++++++++++----------------
 5 files changed, 178 insertions(+), 97 deletions(-)

diff --git a/cligen_callback.c b/cligen_callback.c
index 7510e48..ea28530 100644
--- a/cligen_callback.c
+++ b/cligen_callback.c
@@ -147,20 +147,25 @@ co_callback2cbuf(cbuf        *cb,
     cg_var *cv;
 
     if (cc->cc_fn_str){
-        cprintf(cb, ", %s(", cc->cc_fn_str);
+        if (cprintf(cb, ", %s(", cc->cc_fn_str) < 0)
+            return -1;
         if (cc->cc_cvec){
             cv = NULL;
             i = 0;
             while ((cv = cvec_each(cc->cc_cvec, cv)) != NULL) {
                 if (i++)
-                    cprintf(cb, ",");
-                cprintf(cb, "\"");
+                    if (cprintf(cb, ",") < 0)
+                        return -1;
+                if (cprintf(cb, "\"") < 0)
+                    return -1;
                 if (cv2cbuf(cv, cb) < 0)
                     return -1;
-                cprintf(cb, "\"");
+                if (cprintf(cb, "\"") < 0)
+                    return -1;
             }
         }
-        cprintf(cb, ")");
+        if (cprintf(cb, ")") < 0)
+            return -1;
     }
     return 0;
 }
diff --git a/cligen_cv.c b/cligen_cv.c
index ea24307..b47c997 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -2328,101 +2328,125 @@ cv2cbuf(cg_var *cv,
 
     switch (cv->var_type){
     case CGV_INT8:
-        cprintf(cb, "%" PRId8, cv->var_int8);
+        if (cprintf(cb, "%" PRId8, cv->var_int8) < 0)
+            return -1;
         break;
     case CGV_INT16:
-        cprintf(cb, "%" PRId16, cv->var_int16);
+        if (cprintf(cb, "%" PRId16, cv->var_int16) < 0)
+            return -1;
         break;
     case CGV_INT32:
-        cprintf(cb, "%" PRId32, cv->var_int32);
+        if (cprintf(cb, "%" PRId32, cv->var_int32) < 0)
+            return -1;
         break;
     case CGV_INT64:
-        cprintf(cb, "%" PRId64, cv->var_int64);
+        if (cprintf(cb, "%" PRId64, cv->var_int64) < 0)
+            return -1;
         break;
     case CGV_UINT8:
-        cprintf(cb, "%" PRIu8, cv->var_uint8);
+        if (cprintf(cb, "%" PRIu8, cv->var_uint8) < 0)
+            return -1;
         break;
     case CGV_UINT16:
-        cprintf(cb, "%" PRIu16, cv->var_uint16);
+        if (cprintf(cb, "%" PRIu16, cv->var_uint16) < 0)
+            return -1;
         break;
     case CGV_UINT32:
-        cprintf(cb, "%" PRIu32, cv->var_uint32);
+        if (cprintf(cb, "%" PRIu32, cv->var_uint32) < 0)
+            return -1;
         break;
     case CGV_UINT64:
-        cprintf(cb, "%" PRIu64, cv->var_uint64);
+        if (cprintf(cb, "%" PRIu64, cv->var_uint64) < 0)
+            return -1;
         break;
     case CGV_DEC64:
         cv_dec64_print(cv, ss, &sslen);
-        cprintf(cb, "%s", ss);
+        if (cprintf(cb, "%s", ss) < 0)
+            return -1;
         break;
     case CGV_BOOL:
-        if (cv->var_bool)
-            cprintf(cb, "true");
+        if (cv->var_bool){
+            if (cprintf(cb, "true") < 0)
+                return -1;
+        }
         else
-            cprintf(cb, "false");
+            if (cprintf(cb, "false") < 0)
+                return -1;
         break;
     case CGV_REST:
-        cprintf(cb, "%s", cv->var_rest);
+        if (cprintf(cb, "%s", cv->var_rest) < 0)
+            return -1;
         break;
     case CGV_STRING:
-        cprintf(cb, "%s", cv->var_string);
+        if (cprintf(cb, "%s", cv->var_string) < 0)
+            return -1;
         break;
     case CGV_INTERFACE:
-        cprintf(cb, "%s", cv->var_interface);
+        if (cprintf(cb, "%s", cv->var_interface) < 0)
+            return -1;
         break;
     case CGV_IPV4ADDR:
-        cprintf(cb, "%s", inet_ntoa(cv->var_ipv4addr));
+        if (cprintf(cb, "%s", inet_ntoa(cv->var_ipv4addr)) < 0)
+            return -1;
         break;
     case CGV_IPV4PFX:
-        cprintf(cb, "%s/%u",
-                inet_ntoa(cv->var_ipv4addr),
-                cv->var_ipv4masklen);
+        if (cprintf(cb, "%s/%u",
+                    inet_ntoa(cv->var_ipv4addr),
+                    cv->var_ipv4masklen) < 0)
+            return -1;
         break;
     case CGV_IPV6ADDR:
         if (inet_ntop(AF_INET6, &cv->var_ipv6addr, straddr, sizeof(straddr)) == NULL){
             fprintf(stderr, "inet_ntop: %s\n", strerror(errno));
             return -1;
         }
-        cprintf(cb, "%s", straddr);
+        if (cprintf(cb, "%s", straddr) < 0)
+            return -1;
         break;
     case CGV_IPV6PFX:
         if (inet_ntop(AF_INET6, &cv->var_ipv6addr, straddr, sizeof(straddr)) == NULL){
             fprintf(stderr, "inet_ntop: %s\n", strerror(errno));
             return -1;
         }
-        cprintf(cb, "%s/%u", straddr, cv->var_ipv6masklen);
+        if (cprintf(cb, "%s/%u", straddr, cv->var_ipv6masklen) < 0)
+            return -1;
         break;
     case CGV_MACADDR:
-        cprintf(cb, "%02x:%02x:%02x:%02x:%02x:%02x",
-                (uint8_t)cv->var_macaddr[0],
-                (uint8_t)cv->var_macaddr[1],
-                (uint8_t)cv->var_macaddr[2],
-                (uint8_t)cv->var_macaddr[3],
-                (uint8_t)cv->var_macaddr[4],
-                (uint8_t)cv->var_macaddr[5]);
+        if (cprintf(cb, "%02x:%02x:%02x:%02x:%02x:%02x",
+                    (uint8_t)cv->var_macaddr[0],
+                    (uint8_t)cv->var_macaddr[1],
+                    (uint8_t)cv->var_macaddr[2],
+                    (uint8_t)cv->var_macaddr[3],
+                    (uint8_t)cv->var_macaddr[4],
+                    (uint8_t)cv->var_macaddr[5]) < 0)
+            return -1;
         break;
     case CGV_URL: /* <proto>://[<user>[:<passwd>]@]<addr>[/<path>] */
-        cprintf(cb, "%s://%s%s%s%s%s/%s",
-                cv->var_urlproto,
-                cv->var_urluser,
-                strlen(cv->var_urlpasswd)?":":"",
-                cv->var_urlpasswd,
-                strlen(cv->var_urluser)||strlen(cv->var_urlpasswd)?"@":"",
-                cv->var_urladdr,
-                cv->var_urlpath
-            );
+        if (cprintf(cb, "%s://%s%s%s%s%s/%s",
+                    cv->var_urlproto,
+                    cv->var_urluser,
+                    strlen(cv->var_urlpasswd)?":":"",
+                    cv->var_urlpasswd,
+                    strlen(cv->var_urluser)||strlen(cv->var_urlpasswd)?"@":"",
+                    cv->var_urladdr,
+                    cv->var_urlpath
+                ) < 0)
+            return -1;
         break;
     case CGV_UUID:
         uuid2str(cv->var_uuid, uuidstr, sizeof(uuidstr));
-        cprintf(cb, "%s", uuidstr);
+        if (cprintf(cb, "%s", uuidstr) < 0)
+            return -1;
         break;
     case CGV_TIME:
         if (time2str(&cv->var_time, timestr, sizeof(timestr)) < 0)
             return -1;
-        cprintf(cb, "%s", timestr);
+        if (cprintf(cb, "%s", timestr) < 0)
+            return -1;
         break;
     case CGV_VOID:
-        cprintf(cb, "%p", cv->var_void);
+        if (cprintf(cb, "%p", cv->var_void) < 0)
+            return -1;
         break;
     case CGV_EMPTY:
         break;
@@ -3182,18 +3206,22 @@ outofrange(cg_var     *cv0,
 
     if ((cb = cbuf_new()) == NULL)
         goto done;
-    cprintf(cb, "Number ");
+    if (cprintf(cb, "Number ") < 0)
+        goto done;
     if (cv2cbuf(cv0, cb) < 0)
         goto done;
-    cprintf(cb, " out of range: ");
+    if (cprintf(cb, " out of range: ") < 0)
+        goto done;
     for (i=0; i<cs->cgs_rangelen; i++){
         cv1 = cvec_i(cs->cgs_rangecvv_low, i);
         cv2 = cvec_i(cs->cgs_rangecvv_upp, i);
         if (i)
-            cprintf(cb, ", ");
+            if (cprintf(cb, ", ") < 0)
+                goto done;
         if (cv2cbuf(cv1, cb) < 0)
             goto done;
-        cprintf(cb, " - ");
+        if (cprintf(cb, " - ") < 0)
+            goto done;
         if (cv2cbuf(cv2, cb) < 0)
             goto done;
     }
@@ -3220,15 +3248,18 @@ outoflength(uint64_t    u64,
 
     if ((cb = cbuf_new()) == NULL)
         goto done;
-    cprintf(cb, "String length %" PRIu64 " out of range: ", u64);
+    if (cprintf(cb, "String length %" PRIu64 " out of range: ", u64) < 0)
+        goto done;
     for (i=0; i<cs->cgs_rangelen; i++){
         cv1 = cvec_i(cs->cgs_rangecvv_low, i);
         cv2 = cvec_i(cs->cgs_rangecvv_upp, i);
         if (i)
-            cprintf(cb, ", ");
+            if (cprintf(cb, ", ") < 0)
+                goto done;
         if (cv2cbuf(cv1, cb) < 0)
             goto done;
-        cprintf(cb, " - ");
+        if (cprintf(cb, " - ") < 0)
+            goto done;
         if (cv2cbuf(cv2, cb) < 0)
             goto done;
     }
diff --git a/cligen_cvec.c b/cligen_cvec.c
index 46470f5..2610ab7 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -540,7 +540,10 @@ cvec2cbuf(cbuf *cb,
     while ((cv = cvec_each(cvv, cv)) != NULL) {
         if ((s = cv2str_dup(cv)) == NULL)
             return -1;
-        cprintf(cb, "%d : %s = %s\n", i++, cv_name_get(cv), s);
+        if (cprintf(cb, "%d : %s = %s\n", i++, cv_name_get(cv), s) < 0){
+            free(s);
+            return -1;
+        }
         free(s);
     }
     return 0;
@@ -949,7 +952,8 @@ cvec_expand_first(cvec *cvv)
         goto done;
     for (i=1; i<cvec_len(cvv); i++){
         if (i>1)
-            cprintf(cb, " ");
+            if (cprintf(cb, " ") < 0)
+                goto done;
         if ((cv = cvec_i(cvv, i)) == NULL)
             goto done;
         if (cv2cbuf(cv, cb) < 0)
diff --git a/cligen_match.c b/cligen_match.c
index 7aec392..3e752f3 100644
--- a/cligen_match.c
+++ b/cligen_match.c
@@ -895,7 +895,8 @@ match_pattern_sets(cligen_handle  h,
         pipe_default != NULL) {
         if ((cb = cbuf_new()) == NULL)
             goto done;
-        cprintf(cb, "|%s", pipe_default);
+        if (cprintf(cb, "|%s", pipe_default) < 0)
+            goto done;
         if ((co_pipe = co_new(pipe_default, NULL)) == NULL)
             goto done;
         co_pipe->co_type = CO_REFERENCE;
diff --git a/cligen_print.c b/cligen_print.c
index d00793f..ab8bf6a 100644
--- a/cligen_print.c
+++ b/cligen_print.c
@@ -90,58 +90,75 @@ cov2cbuf(cbuf   *cb,
     cg_var *cv2;
 
     if (co->co_choice){
-        if (strchr(co->co_choice, '|'))
-            cprintf(cb, "(%s)", co->co_choice);
+        if (strchr(co->co_choice, '|')){
+            if (cprintf(cb, "(%s)", co->co_choice) < 0)
+                return -1;
+        }
         else
-            cprintf(cb, "%s", co->co_choice);
+            if (cprintf(cb, "%s", co->co_choice) < 0)
+                return -1;
     }
     else{
         if (brief){
-            cprintf(cb, "%c%s%c", VARIABLE_PRE,
-                    co->co_show!=NULL ? co->co_show : co->co_command,
-                    VARIABLE_POST);
+            if (cprintf(cb, "%c%s%c", VARIABLE_PRE,
+                        co->co_show!=NULL ? co->co_show : co->co_command,
+                        VARIABLE_POST) < 0)
+                return -1;
         }
         else{
-            cprintf(cb, "%c%s:%s", VARIABLE_PRE, co->co_command, cv_type2str(co->co_vtype));
+            if (cprintf(cb, "%c%s:%s", VARIABLE_PRE, co->co_command, cv_type2str(co->co_vtype)) < 0)
+                return -1;
 
             for (i=0; i<co->co_rangelen; i++){
-                if (cv_isint(co->co_vtype))
-                    cprintf(cb, " range[");
+                if (cv_isint(co->co_vtype)){
+                    if (cprintf(cb, " range[") < 0)
+                        return -1;
+                }
                 else
-                    cprintf(cb, " length[");
+                    if (cprintf(cb, " length[") < 0)
+                        return -1;
                 cv1 = cvec_i(co->co_rangecvv_low, i);
                 cv2 = cvec_i(co->co_rangecvv_upp, i);
                 if (cv_type_get(cv1) != CGV_EMPTY){
                     if (cv2cbuf(cv1, cb) < 0)
                         return -1;
-                    cprintf(cb, ":");
+                    if (cprintf(cb, ":") < 0)
+                        return -1;
                 }
                 if (cv2cbuf(cv2, cb) < 0)
                     return -1;
-                cprintf(cb, "]");
+                if (cprintf(cb, "]") < 0)
+                    return -1;
             }
             if (co->co_show)
-                cprintf(cb, " show:\"%s\"", co->co_show);
+                if (cprintf(cb, " show:\"%s\"", co->co_show) < 0)
+                    return -1;
             if (co->co_expand_fn_str){
-                cprintf(cb, " %s(\"", co->co_expand_fn_str);
+                if (cprintf(cb, " %s(\"", co->co_expand_fn_str) < 0)
+                    return -1;
                 if (co->co_expand_fn_vec){
                     cg_var *cv = NULL;
                     int   i = 0;
                     while ((cv = cvec_each(co->co_expand_fn_vec, cv)) != NULL) {
                         if (i++)
-                            cprintf(cb, ",");
+                            if (cprintf(cb, ",") < 0)
+                                return -1;
                         if (cv2cbuf(cv, cb) < 0)
                             return -1;
                     }
                 }
-                cprintf(cb, "\")");
+                if (cprintf(cb, "\")") < 0)
+                    return -1;
             }
             cv1 = NULL;
             while ((cv1 = cvec_each(co->co_regex, cv1)) != NULL)
-                cprintf(cb, " regexp:\"%s\"", cv_string_get(cv1));
+                if (cprintf(cb, " regexp:\"%s\"", cv_string_get(cv1)) < 0)
+                    return -1;
             if (co->co_translate_fn_str)
-                cprintf(cb, " translate:%s()", co->co_translate_fn_str);
-            cprintf(cb, "%c", VARIABLE_POST);
+                if (cprintf(cb, " translate:%s()", co->co_translate_fn_str) < 0)
+                    return -1;
+            if (cprintf(cb, "%c", VARIABLE_POST) < 0)
+                return -1;
         }
     }
     retval = 0;
@@ -172,66 +189,88 @@ co2cbuf(cbuf   *cb,
      * Thus, for example, both "[a b]" and "[a[b]]" will be shown as "[a][b]".
      */
     if (co_flags_get(co, CO_FLAGS_OPTION))
-        cprintf(cb, "[");
+        if (cprintf(cb, "[") < 0)
+            goto done;
     switch (co->co_type){
     case CO_COMMAND:
         if (co->co_command)
-            cprintf(cb, "%s", co->co_command);
+            if (cprintf(cb, "%s", co->co_command) < 0)
+                goto done;
         break;
     case CO_REFERENCE:
         if (co->co_command)
-            cprintf(cb, "@%s", co->co_command);
+            if (cprintf(cb, "@%s", co->co_command) < 0)
+                goto done;
         break;
     case CO_VARIABLE:
-        cov2cbuf(cb, co, brief);
+        if (cov2cbuf(cb, co, brief) < 0)
+            goto done;
         break;
     case CO_EMPTY:
-        cprintf(cb, ";");
+        if (cprintf(cb, ";") < 0)
+            goto done;
         break;
     }
     if (co_flags_get(co, CO_FLAGS_OPTION))
-        cprintf(cb, "]");
+        if (cprintf(cb, "]") < 0)
+            goto done;
     if (brief == 0){
         if (co->co_helpstring){
-            cbuf_append_str(cb, "(\"");
-            cbuf_append_str(cb, co->co_helpstring);
-            cbuf_append_str(cb, "\")");
+            if (cbuf_append_str(cb, "(\"") < 0)
+                goto done;
+            if (cbuf_append_str(cb, co->co_helpstring) < 0)
+                goto done;
+            if (cbuf_append_str(cb, "\")") < 0)
+                goto done;
         }
         if (co_flags_get(co, CO_FLAGS_HIDE))
-            cprintf(cb, ", hide");
+            if (cprintf(cb, ", hide") < 0)
+                goto done;
         cv = NULL;
         while ((cv = cvec_each(co->co_cvec, cv)) != NULL)
-            cprintf(cb, ", %s", cv_name_get(cv));
+            if (cprintf(cb, ", %s", cv_name_get(cv)) < 0)
+                goto done;
         for (cc = co->co_callbacks; cc; cc = co_callback_next(cc)){
-            co_callback2cbuf(cb, cc);
+            if (co_callback2cbuf(cb, cc) < 0)
+                goto done;
         }
     }
     cv = NULL;
     while ((cv = cvec_each(co->co_cvec, cv)) != NULL)
-        cprintf(cb, ", %s", cv_name_get(cv));
+        if (cprintf(cb, ", %s", cv_name_get(cv)) < 0)
+            goto done;
     if (co_terminal(co, &cot) &&
         cot != NULL){
         cg_var *cv = NULL;
         while ((cv = cvec_each(cot->co_cvec, cv)) != NULL)
-            cprintf(cb, ", %s", cv_name_get(cv));
-        cprintf(cb, ";");
+            if (cprintf(cb, ", %s", cv_name_get(cv)) < 0)
+                goto done;
+        if (cprintf(cb, ";") < 0)
+            goto done;
     }
     pt = co_pt_get(co);
     if (pt_len_get(pt) > 1){
         if (co_sets_get(co))
-            cprintf(cb, "@");
-        cprintf(cb, "{\n");
+            if (cprintf(cb, "@") < 0)
+                goto done;
+        if (cprintf(cb, "{\n") < 0)
+            goto done;
     }
     else
-        if (pt_len_get(pt)==1 && (co1 = pt_vec_i_get(pt, 0)) != NULL && co1->co_type != CO_EMPTY)
-            cprintf(cb, " ");
+        if (pt_len_get(pt)==1 && (co1 = pt_vec_i_get(pt, 0)) != NULL && co1->co_type != CO_EMPTY){
+            if (cprintf(cb, " ") < 0)
+                goto done;
+        }
         else
-            cprintf(cb, "\n");
+            if (cprintf(cb, "\n") < 0)
+                goto done;
     if (pt2cbuf(cb, pt, marginal+3, brief) < 0)
         goto done;
     if (pt_len_get(pt)>1){
-        cprintf(cb, "%*s", marginal, "");
-        cprintf(cb, "}\n");
+        if (cprintf(cb, "%*s", marginal, "") < 0)
+            goto done;
+        if (cprintf(cb, "}\n") < 0)
+            goto done;
     }
     retval = 0;
   done:
@@ -265,7 +304,8 @@ pt2cbuf(cbuf       *cb,
         if (co->co_type == CO_EMPTY)
             continue;
         if (pt_len_get(pt) > 1)
-            cprintf(cb, "%*s", marginal, "");
+            if (cprintf(cb, "%*s", marginal, "") < 0)
+                goto done;
         if (co2cbuf(cb, co, marginal, brief) < 0)
             goto done;
     }
-- 
2.43.0


From cba67ad9102b66af2c935562bd0b027cc9c54583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 90/98] fix: pt_expand fails when the tree cannot be extended

---
 cligen_expand.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cligen_expand.c b/cligen_expand.c
index 9690f27..d8e0300 100644
--- a/cligen_expand.c
+++ b/cligen_expand.c
@@ -932,7 +932,8 @@ pt_expand(cligen_handle h,
     /* There is already a @|pipe menu on this level, no need for default */
     for (i=0; i<pt_len_get(pt); i++){ /* From pt (orig) build ptn (new) */
         if ((co = pt_vec_i_get(pt, i)) == NULL){
-            pt_realloc(ptn); /* empty child */
+            if (pt_realloc(ptn) < 0) /* empty child */
+                goto done;
         }
         else {
             if (co->co_type == CO_REFERENCE){
-- 
2.43.0


From 4346dcad41505e629417d3c3a2ffa0b89e575795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 91/98] fix: cligen_output checks both formatting passes

---
 cligen_io.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cligen_io.c b/cligen_io.c
index fc81857..9a3bb99 100644
--- a/cligen_io.c
+++ b/cligen_io.c
@@ -283,9 +283,10 @@ cligen_output(FILE       *f,
     if ((inbuf = malloc(inbuflen+1)) == NULL)
         goto done;
     va_start(args, template);
-    vsnprintf(inbuf, inbuflen+1, template, args);
+    inbuflen = vsnprintf(inbuf, inbuflen+1, template, args);
     va_end(args);
-
+    if (inbuflen < 0)
+        goto done;
     if (term_width > 0)
         linelen = term_width;
     else
-- 
2.43.0


From 1f60200a683b878c1c9d1b9ba668bb64f2f5c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:29 +0000
Subject: [PATCH 92/98] fix: a parse-tree keeps its vector when it cannot be
 reallocated

---
 cligen_parsetree.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cligen_parsetree.c b/cligen_parsetree.c
index 40d9e08..12ddd44 100644
--- a/cligen_parsetree.c
+++ b/cligen_parsetree.c
@@ -319,10 +319,13 @@ pt_new(void)
 int
 pt_realloc(parse_tree *pt)
 {
-    pt->pt_len++;
+    cg_obj **vec;
+
     /* Allocate larger cg_obj vector */
-    if ((pt->pt_vec = realloc(pt->pt_vec, (pt->pt_len)*sizeof(cg_obj *))) == 0)
+    if ((vec = realloc(pt->pt_vec, (pt->pt_len + 1)*sizeof(cg_obj *))) == NULL)
         return -1;
+    pt->pt_vec = vec;
+    pt->pt_len++;
     pt->pt_vec[pt->pt_len - 1] = NULL; /* init field */
     return 0;
 }
@@ -582,8 +585,9 @@ int
 pt_trunc(parse_tree *pt,
          int         len)
 {
-    int     i;
-    cg_obj *co;
+    int      i;
+    cg_obj  *co;
+    cg_obj **vec;
 
     if (pt == NULL){
         errno = EINVAL;
@@ -598,9 +602,10 @@ pt_trunc(parse_tree *pt,
             if ((co = pt_vec_i_get(pt, i)) != NULL)
                 co_free(co, 0);
         }
-        if ((pt->pt_vec = realloc(pt->pt_vec, (len)*sizeof(cg_obj *))) == 0)
-            return -1;
         pt->pt_len = len;
+        if ((vec = realloc(pt->pt_vec, (len)*sizeof(cg_obj *))) == NULL)
+            return -1;
+        pt->pt_vec = vec;
     }
     return 0;
 }
-- 
2.43.0


From 949bd0044bb1cfb215a4dee9c23b63305c4fcc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 93/98] fix: a command without a tree vector is not given a
 vector length

---
 cligen_object.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_object.c b/cligen_object.c
index a8f0b81..7e8f71a 100644
--- a/cligen_object.c
+++ b/cligen_object.c
@@ -209,10 +209,10 @@ co_pt_realloc(cg_obj *co)
 {
     int retval = -1;
     if (co->co_pt_len == 0){
-        co->co_pt_len++;
         //      if ((co->co_ptvec = realloc(co->co_ptvec, (co->co_pt_len)*sizeof(parse_tree *))) == 0)
-        if ((co->co_ptvec = calloc(co->co_pt_len, sizeof(parse_tree *))) == 0)
+        if ((co->co_ptvec = calloc(1, sizeof(parse_tree *))) == 0)
             goto done;
+        co->co_pt_len++;
     }
     retval = 0;
  done:
-- 
2.43.0


From 601ba70a791356d29a70fd85dffe64fbd1136a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:36 +0000
Subject: [PATCH 94/98] fix: cvec_name_get and cvec_name_set without a vector
 return NULL

---
 cligen_cvec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cligen_cvec.c b/cligen_cvec.c
index 2610ab7..5335776 100644
--- a/cligen_cvec.c
+++ b/cligen_cvec.c
@@ -647,6 +647,8 @@ cvec_find_str(cvec       *cvv,
 char *
 cvec_name_get(cvec *cvv)
 {
+    if (cvv == NULL)
+        return NULL;
     return cvv->vr_name;
 }
 
@@ -663,6 +665,8 @@ cvec_name_set(cvec       *cvv,
 {
     char *s1 = NULL;
 
+    if (cvv == NULL)
+        return NULL;
     /* Duplicate name. Must be done before a free, in case name is part of the original */
     if (name){
         if ((s1 = strdup4(name)) == NULL)
-- 
2.43.0


From d8307c7d16c5ff9d1ecefc4380757dc796070848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:41 +0000
Subject: [PATCH 95/98] fix: a range with only an upper limit has no lower
 limit

---
 cligen_cv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cligen_cv.c b/cligen_cv.c
index b47c997..1459268 100644
--- a/cligen_cv.c
+++ b/cligen_cv.c
@@ -3181,7 +3181,7 @@ cv_parse(const char *str,
 /*! Range interval check if a number is in an interval
  *
  * @param[in] i      The number to check if it is in an interval
- * @param[in] cvlow  cv containing lower bound
+ * @param[in] cvlow  cv containing lower bound, or of type CGV_EMPTY: no lower bound
  * @param[in] cvupp  cv containing upper bound
  * @param[in] type   Numeric type string, eg "int32"
  * @retval    1      i is in [low,upper]
@@ -3189,7 +3189,7 @@ cv_parse(const char *str,
  * @note need to use macro trick ## to fix different types
 */
 #define range_check(i, cvlow, cvupp, type)       \
-    (((i) >= cv_##type##_get(cvlow)) && \
+    ((cv_type_get(cvlow) == CGV_EMPTY || (i) >= cv_##type##_get(cvlow)) && \
      ((i) <= cv_##type##_get(cvupp)))
 
 /*! Error messsage for int violating ranges */
-- 
2.43.0


From be6a7a26386ae07e588d5bb9759c08dbefaa24f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 96/98] fix: paging while a line is edited keeps the saved
 terminal mode

---
 cligen_getline.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index 252c42b..604e489 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -144,6 +144,7 @@ static int   search_last = 0;     /* last match found */
 #ifdef POSIX            /* use POSIX interface */
 #include <termios.h>
 struct termios  new_termios, old_termios;
+static int      gl_char_depth = 0;      /* nr of gl_char_init not yet undone */
 #else /* not POSIX */
 #include <sys/ioctl.h>
 #ifdef M_XENIX  /* does not really use bsd terminal interface */
@@ -177,6 +178,8 @@ gl_char_init(void)                      /* turn off input echo */
 {
 #ifdef __unix__
 #ifdef POSIX
+    if (gl_char_depth++ > 0)            /* eg paging of help while editing a line */
+        return;
     tcgetattr(0, &old_termios);
     gl_intrc = old_termios.c_cc[VINTR];
     gl_quitc = old_termios.c_cc[VQUIT];
@@ -238,6 +241,8 @@ gl_char_cleanup(void)           /* undo effects of gl_char_init */
 {
 #ifdef __unix__
 #ifdef POSIX
+    if (gl_char_depth == 0 || --gl_char_depth > 0)
+        return;
     tcsetattr(0, TCSADRAIN, &old_termios);
 #else                   /* not POSIX */
 #ifdef TIOCSETN         /* BSD */
-- 
2.43.0


From 4b4a9bf50928d74f7da2a704fbb4cb04ea3ef604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:48 +0000
Subject: [PATCH 97/98] fix: a history search ends with the line it was started
 in

---
 cligen_getline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cligen_getline.c b/cligen_getline.c
index 604e489..4ed6dd3 100644
--- a/cligen_getline.c
+++ b/cligen_getline.c
@@ -610,6 +610,7 @@ gl_getline(cligen_handle h,
 #endif
 
     gl_init1();
+    gl_search_mode = 0; /* a search does not outlive the line it was started in */
     gl_prompt = (cligen_prompt(h))? cligen_prompt(h) : "";
     cligen_buf(h)[0] = 0;
     if (gl_in_hook)
-- 
2.43.0


From a59daaa5929d834addb11dc8e50f378e06b93e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:25 +0000
Subject: [PATCH 98/98] fix: a character that cannot be part of a choice or
 help escape is an error

The scanner had no rule for '"', parentheses and brackets among choices, nor for
a newline after a backslash in a help text: flex echoed the character to stdout
and the specification was loaded without it.
---
 cligen_parse.l | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cligen_parse.l b/cligen_parse.l
index aaae304..a7532df 100644
--- a/cligen_parse.l
+++ b/cligen_parse.l
@@ -189,6 +189,7 @@ stripdup(char *s0)
 <CHOICE>([^ \t\n>\|\"\(\)\[\]]|\\.)+ {
                                  if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1;
                                  return NAME; }
+<CHOICE>.               { return -1; }
 
 <OPTION>[ \t]+
 <OPTION>,                { return *yytext; }
@@ -218,6 +219,7 @@ stripdup(char *s0)
 <ESCAPE>.                 { BEGIN(_CY->cy_lex_state);
                              if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1;
                              return CHARS; }
+<ESCAPE>\n                { return -1; }
 
 <COMMENT>\n               { _CY->cy_linenum++; BEGIN(_CY->cy_lex_state);}
 <COMMENT><<EOF>>          { return MY_EOF; }
-- 
2.43.0

