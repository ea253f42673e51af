From 47bdf520a38145d82b3ffc3032b92119c1b5f453 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 01/56] fix: cee_list_iterate returned an uninitialised value
 for an empty list

---
 list.c        | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/list.c b/list.c
index 86a29b1..4be0a17 100644
--- a/list.c
+++ b/list.c
@@ -135,7 +135,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
 		       int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct S(header) *m = FIND_HEADER(x);
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
diff --git a/release/cee.c b/release/cee.c
index 9e70323..5c3a1cd 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3838,7 +3838,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
          int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct _cee_list_header *m = (struct _cee_list_header *)((void *)((char *)(x) - (__builtin_offsetof(struct _cee_list_header, _))));
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
-- 
2.43.0


From 6656389708ba305af684ea99338c6d7cde16f7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 02/56] fix: a resized block kept its old successor, which
 corrupted the trace chain

---
 cee-resize.h  |  1 +
 release/cee.c | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/cee-resize.h b/cee-resize.h
index dc49b5a..1a43622 100644
--- a/cee-resize.h
+++ b/cee-resize.h
@@ -5,6 +5,7 @@
 static void S(chain) (struct S(header) * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
diff --git a/release/cee.c b/release/cee.c
index 5c3a1cd..91fb444 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1389,6 +1389,7 @@ struct _cee_boxed_header {
 static void _cee_boxed_chain (struct _cee_boxed_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
@@ -1804,6 +1805,7 @@ struct _cee_str_header {
 static void _cee_str_chain (struct _cee_str_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
@@ -2261,6 +2263,7 @@ struct _cee_dict_header {
 static void _cee_dict_chain (struct _cee_dict_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
@@ -2426,6 +2429,7 @@ struct _cee_map_header{
 static void _cee_map_chain (struct _cee_map_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
@@ -2806,6 +2810,7 @@ struct _cee_set_header {
 static void _cee_set_chain (struct _cee_set_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
@@ -3130,6 +3135,7 @@ struct _cee_stack_header {
 static void _cee_stack_chain (struct _cee_stack_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
@@ -3297,6 +3303,7 @@ struct _cee_tuple_header {
 static void _cee_tuple_chain (struct _cee_tuple_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
@@ -3425,6 +3432,7 @@ struct _cee_triple_header {
 static void _cee_triple_chain (struct _cee_triple_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
@@ -3546,6 +3554,7 @@ struct _cee_quadruple_header {
 static void _cee_quadruple_chain (struct _cee_quadruple_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
@@ -3667,6 +3676,7 @@ struct _cee_list_header {
 static void _cee_list_chain (struct _cee_list_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
@@ -3871,6 +3881,7 @@ struct _cee_tagged_header {
 static void _cee_tagged_chain (struct _cee_tagged_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
@@ -4019,6 +4030,7 @@ struct _cee_closure_header {
 static void _cee_closure_chain (struct _cee_closure_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
@@ -4135,6 +4147,7 @@ struct _cee_block_header {
 static void _cee_block_chain (struct _cee_block_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
@@ -4271,6 +4284,7 @@ struct _cee_n_tuple_header {
 static void _cee_n_tuple_chain (struct _cee_n_tuple_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
@@ -4405,6 +4419,7 @@ struct _cee_env_header {
 static void _cee_env_chain (struct _cee_env_header * h, struct cee_state * st) {
   h->cs.state = st;
 
+  h->cs.trace_next = NULL; /* a resized struct still has its old position here */
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
 
-- 
2.43.0


From f1f3b0a71d84838d62266f62512a7d432870c327 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 03/56] fix: cee_str_strn did not terminate the string

---
 release/cee.c | 1 +
 str.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 91fb444..015ef06 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1903,6 +1903,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct _cee_str_header);
 
   memcpy(h->_, str, size);
+  h->_[size] = 0;
   return (struct cee_str *)(h->_);
 }
 
diff --git a/str.c b/str.c
index 458626b..187e511 100644
--- a/str.c
+++ b/str.c
@@ -64,6 +64,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct S(header));
 
   memcpy(h->_, str, size);
+  h->_[size] = 0;
   return (struct cee_str *)(h->_);
 }
 
-- 
2.43.0


From a9fd1c919540c1b2773e65c5905b14810dd24bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 04/56] fix: cee_str_mkv used its va_list twice

---
 release/cee.c | 4 ++--
 str.c         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 015ef06..284fd62 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1917,7 +1917,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
@@ -1938,7 +1938,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
 
   h->capacity = s - sizeof(struct _cee_str_header);
 
-  vsnprintf(h->_, s, fmt, ap);
+  vsnprintf(h->_, h->capacity, fmt, ap);
   return (struct cee_str *)(h->_);
 }
 
diff --git a/str.c b/str.c
index 187e511..92b62a3 100644
--- a/str.c
+++ b/str.c
@@ -78,7 +78,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
@@ -99,7 +99,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   
   h->capacity = s - sizeof(struct S(header));
 
-  vsnprintf(h->_, s, fmt, ap);
+  vsnprintf(h->_, h->capacity, fmt, ap);
   return (struct cee_str *)(h->_);
 }
 
-- 
2.43.0


From 455f0d0f33bfe2a7b56681926cd1399d374a5952 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 05/56] fix: cee_str_mk_e restarted a va_list without ending it

---
 release/cee.c | 2 ++
 str.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 284fd62..34c3c34 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1964,6 +1964,7 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if (fmt) {
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
+    va_end(ap);
     s ++; /* including the null terminator */
   }
   else
@@ -1986,6 +1987,7 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if( fmt ){
     va_start(ap, fmt);
     vsnprintf(m->_, m->capacity, fmt, ap);
+    va_end(ap);
   }else{
     m->_[0] = '\0'; /* terminates with '\0' */
   }
diff --git a/str.c b/str.c
index 92b62a3..42a8d60 100644
--- a/str.c
+++ b/str.c
@@ -125,6 +125,7 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if (fmt) {
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
+    va_end(ap);
     s ++; /* including the null terminator */
   }
   else
@@ -147,6 +148,7 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if( fmt ){
     va_start(ap, fmt);
     vsnprintf(m->_, m->capacity, fmt, ap);
+    va_end(ap);
   }else{
     m->_[0] = '\0'; /* terminates with '\0' */
   }
-- 
2.43.0


From 0aa99e7fd2242c683bac2bc47ace50e9c7f3af75 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 06/56] fix: cee_str_replace restarted a va_list without ending
 it

---
 release/cee.c | 3 +++
 str.c         | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 34c3c34..8281096 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2080,16 +2080,19 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
   va_list ap;
   va_start(ap, fmt);
   size_t s = vsnprintf(NULL, 0, fmt, ap);
+  va_end(ap);
   s ++; /* including the null terminator */
 
   va_start(ap, fmt);
   if( s < b->capacity ){
     vsnprintf(b->_, s, fmt, ap);
+    va_end(ap);
     return str;
   }else{
     struct _cee_str_header *b1 = _cee_str_resize(b, (2 * ((b->cs.mem_block_size) > (s) ? (b->cs.mem_block_size): (s))));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct _cee_str_header);
     vsnprintf(b1->_, s, fmt, ap);
+    va_end(ap);
     return (struct cee_str *)(b1->_);
   }
 }
diff --git a/str.c b/str.c
index 42a8d60..0690b56 100644
--- a/str.c
+++ b/str.c
@@ -241,16 +241,19 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
   va_list ap;
   va_start(ap, fmt);
   size_t s = vsnprintf(NULL, 0, fmt, ap);
+  va_end(ap);
   s ++; /* including the null terminator */
 
   va_start(ap, fmt);
   if( s < b->capacity ){
     vsnprintf(b->_, s, fmt, ap);
+    va_end(ap);
     return str;
   }else{
     struct S(header) *b1 = S(resize)(b, _CEE_NEWSIZE(b->cs.mem_block_size, s));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct S(header));
     vsnprintf(b1->_, s, fmt, ap);
+    va_end(ap);
     return (struct cee_str *)(b1->_);
   }
 }
-- 
2.43.0


From 6bf4360c8a32ab3cc1337100120ca162b2ef6b28 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 07/56] fix: cee_str_add wrote at the old capacity instead of
 the end of a full string

---
 release/cee.c | 6 +++---
 str.c         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 8281096..074bfa2 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2028,15 +2028,15 @@ char * cee_str_end(struct cee_str * str) {
 struct cee_str * cee_str_add(struct cee_str * str, char c) {
   struct _cee_str_header * b = (struct _cee_str_header *)((void *)((char *)(str) - (__builtin_offsetof(struct _cee_str_header, _))));
   uint32_t slen = strlen((char *)str);
-  if( slen < b->capacity ){
+  if( slen + 1 < b->capacity ){
     b->_[slen] = c;
     b->_[slen+1] = '\0';
     return (struct cee_str *)(b->_);
   }else{
     struct _cee_str_header * b1 = _cee_str_resize(b, (2 * ((b->cs.mem_block_size) > (64) ? (b->cs.mem_block_size): (64))));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct _cee_str_header);
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c;
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
diff --git a/str.c b/str.c
index 0690b56..2094d25 100644
--- a/str.c
+++ b/str.c
@@ -189,15 +189,15 @@ char * cee_str_end(struct cee_str * str) {
 struct cee_str * cee_str_add(struct cee_str * str, char c) {
   struct S(header) * b = FIND_HEADER(str);
   uint32_t slen = strlen((char *)str);
-  if( slen < b->capacity ){
+  if( slen + 1 < b->capacity ){
     b->_[slen] = c;
     b->_[slen+1] = '\0';
     return (struct cee_str *)(b->_);
   }else{
     struct S(header) * b1 = S(resize)(b, _CEE_NEWSIZE(b->cs.mem_block_size, CEE_BLOCK));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct S(header));
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c;
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
-- 
2.43.0


From 8ef327080423ed1dab242bea4338fdc1ba107e81 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 08/56] fix: cee_str_rtrim never removed the first character

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 074bfa2..568f8fc 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2100,7 +2100,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
diff --git a/str.c b/str.c
index 2094d25..9c8d0ff 100644
--- a/str.c
+++ b/str.c
@@ -261,7 +261,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
-- 
2.43.0


From 2e5e318c1298fb6d4b6512195e90b335bb11bcdf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 09/56] fix: cee_str_ltrim left the last leading blank in place

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 568f8fc..baf7acf 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2115,7 +2115,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
diff --git a/str.c b/str.c
index 9c8d0ff..cf21aa6 100644
--- a/str.c
+++ b/str.c
@@ -276,7 +276,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
-- 
2.43.0


From 3b257aae9c8b63bfb941f9265d329632666f020a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 10/56] fix: str_replace_all had no room for the terminator

---
 release/cee.c | 4 ++--
 str.c         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index baf7acf..53057c0 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2164,8 +2164,8 @@ str_replace_at_offset(const char *str, size_t offset, size_t len, char *new_subs
 char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
-  double ratio = new_len/old_len + 1;
-  char *new_str = malloc(orig_len * ratio);
+  size_t ratio = new_len/old_len + 1;
+  char *new_str = malloc(orig_len * ratio + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
diff --git a/str.c b/str.c
index cf21aa6..f179468 100644
--- a/str.c
+++ b/str.c
@@ -325,8 +325,8 @@ str_replace_at_offset(const char *str, size_t offset, size_t len, char *new_subs
 char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
-  double ratio = new_len/old_len + 1;
-  char  *new_str = malloc(orig_len * ratio);
+  size_t ratio = new_len/old_len + 1;
+  char  *new_str = malloc(orig_len * ratio + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
-- 
2.43.0


From b9a6a576c55b2e4e73072cdd0761bf2261d8a73d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 11/56] fix: str_replace_all_ext sized its result too small and
 could divide by zero

---
 release/cee.c | 8 +++-----
 str.c         | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 53057c0..38f3c4f 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2191,7 +2191,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
+  int min_old_len = 1000, max_new_len = 0;
   char *old_needle, *new_needle;
 
   struct pair *pairs, *used_pair = NULL;
@@ -2217,10 +2217,8 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  /* no input byte yields more than max_new_len/min_old_len + 1 output bytes */
+  size_t new_strlen = str_len * (max_new_len/min_old_len + 1);
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
diff --git a/str.c b/str.c
index f179468..7b56eae 100644
--- a/str.c
+++ b/str.c
@@ -352,7 +352,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
+  int min_old_len = 1000, max_new_len = 0;
   char *old_needle, *new_needle;
 
   struct pair *pairs, *used_pair = NULL;
@@ -378,10 +378,8 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  /* no input byte yields more than max_new_len/min_old_len + 1 output bytes */
+  size_t new_strlen = str_len * (max_new_len/min_old_len + 1);
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
-- 
2.43.0


From 23b12ea50f2e4bbaf4532b804edabc9ae5ae5dae Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 12/56] fix: sv_chop_by_sv missed a delimiter at the end and
 ran past a short view

---
 strview.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/strview.c b/strview.c
index 48c477b..83af210 100644
--- a/strview.c
+++ b/strview.c
@@ -203,21 +203,20 @@ SVDEF String_View sv_chop_by_sv(String_View *sv, String_View thicc_delim)
 {
     String_View window = sv_from_parts(sv->data, thicc_delim.count);
     size_t i = 0;
-    while (i + thicc_delim.count < sv->count 
+    while (i + thicc_delim.count <= sv->count 
         && !(sv_eq(window, thicc_delim))) 
     {
         i++;
         window.data++;
     }
 
+    if (i + thicc_delim.count > sv->count) {
+        // no delimiter: chop everything
+        return sv_chop_left(sv, sv->count);
+    }
+
     String_View result = sv_from_parts(sv->data, i);
 
-    if (i + thicc_delim.count == sv->count) {
-        // include last <thicc_delim.count> characters if they aren't 
-        //  equal to thicc_delim
-        result.count += thicc_delim.count; 
-    }
-    
     // Chop!
     sv->data  += i + thicc_delim.count;
     sv->count -= i + thicc_delim.count;
-- 
2.43.0


From 0846449aab96f01a3d01663758c00e97fedb141f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 13/56] fix: deleting a non-empty cee_set dereferenced NULL
 instead of its delete policy

---
 release/cee.c | 2 +-
 set.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 38f3c4f..e2709bf 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2901,7 +2901,7 @@ static void _cee_set_trace(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], _cee_set_free_pair_follow);
+      musl_tdestroy(&h->del_policy, h->_[0], _cee_set_free_pair_follow);
       _cee_set_de_chain(h);
       free(h);
       break;
diff --git a/set.c b/set.c
index 88ca5ff..ccf7d5e 100644
--- a/set.c
+++ b/set.c
@@ -51,7 +51,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], S(free_pair_follow));
+      musl_tdestroy(&h->del_policy, h->_[0], S(free_pair_follow));
       S(de_chain)(h);
       free(h);
       break;
-- 
2.43.0


From df659e1b3f7b02b31c7e314cafa348e79eb3e017 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 14/56] fix: cee_set_remove kept the reference the set held

---
 release/cee.c | 1 +
 set.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index e2709bf..ae9f767 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3037,6 +3037,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, _cee_set_cmp);
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
diff --git a/set.c b/set.c
index ccf7d5e..8d387d8 100644
--- a/set.c
+++ b/set.c
@@ -187,6 +187,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, S(cmp));
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
-- 
2.43.0


From 58f544077c0a8d1174df769f5de9548009a7d34d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 15/56] fix: adding an element a cee_set already holds counted
 it twice

---
 release/cee.c | 2 ++
 set.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index ae9f767..3174903 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2961,6 +2961,8 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
+  if (musl_tfind(h, val, h->_, _cee_set_cmp))
+    return; /* already there */
   void ** oldp = (void **) musl_tsearch(h, val, h->_, _cee_set_cmp);
 
   if (oldp == NULL)
diff --git a/set.c b/set.c
index 8d387d8..b46827d 100644
--- a/set.c
+++ b/set.c
@@ -111,6 +111,8 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct S(header) * h = FIND_HEADER(m);
+  if (musl_tfind(h, val, h->_, S(cmp)))
+    return; /* already there */
   void ** oldp = (void **) musl_tsearch(h, val, h->_, S(cmp));
   
   if (oldp == NULL)
-- 
2.43.0


From c2e881f3de83c108a00da8239b01ab238c898b52 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 16/56] fix: cee_set_size and cee_set_empty did not take NULL
 as an empty set

---
 release/cee.c | 2 ++
 set.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 3174903..8906d88 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2946,11 +2946,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size == 0;
 }
diff --git a/set.c b/set.c
index b46827d..7275501 100644
--- a/set.c
+++ b/set.c
@@ -96,11 +96,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct S(header) * h = FIND_HEADER(s);
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct S(header) * h = FIND_HEADER(s);
   return h->size == 0;
 }
-- 
2.43.0


From feee5684a799bf09403e66f1c3928863465032b9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 17/56] fix: garbage collection freed the insertion-ordered key
 list of live maps

---
 map.c         | 1 +
 release/cee.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/map.c b/map.c
index ee52dd6..38904b8 100644
--- a/map.c
+++ b/map.c
@@ -68,6 +68,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], S(trace_pair));
       break;
   }
diff --git a/release/cee.c b/release/cee.c
index 8906d88..6bfeede 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2529,6 +2529,7 @@ static void _cee_map_trace(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], _cee_map_trace_pair);
       break;
   }
-- 
2.43.0


From 399c7f9ed34cb9394c09a5deb42132977dbfc37d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 18/56] fix: cee_set_find and cee_set_remove did not take NULL
 as an empty set

---
 release/cee.c | 2 ++
 set.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 6bfeede..b2e13a4 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3002,6 +3002,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void **oldp = (void **) musl_tfind(h, key, h->_, _cee_set_cmp);
   if (oldp == NULL)
@@ -3034,6 +3035,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void ** old = (void **)musl_tfind(h, key, h->_, _cee_set_cmp);
   if (old == NULL)
diff --git a/set.c b/set.c
index 7275501..33258d0 100644
--- a/set.c
+++ b/set.c
@@ -151,6 +151,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void **oldp = (void **) musl_tfind(h, key, h->_, S(cmp));
   if (oldp == NULL)
@@ -183,6 +184,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void ** old = (void **)musl_tfind(h, key, h->_, S(cmp));
   if (old == NULL)
-- 
2.43.0


From c4c2f6954476cb4de1e411111ed47d8bc65d3314 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 19/56] fix: garbage collection freed reachable closures and
 did not trace their environment

---
 closure.c     | 2 ++
 release/cee.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/closure.c b/closure.c
index cd0fd23..96cab35 100644
--- a/closure.c
+++ b/closure.c
@@ -28,6 +28,8 @@ static void S(trace) (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
diff --git a/release/cee.c b/release/cee.c
index b2e13a4..c45312f 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4110,6 +4110,8 @@ static void _cee_closure_trace (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
-- 
2.43.0


From ecdc9f6c4b3cea31cc9d98e1211ab19902990f22 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 20/56] fix: cee_env_mk_e did not count the references its
 deletion gives up

---
 env.c         | 4 ++++
 release/cee.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/env.c b/env.c
index 983c90f..ac5f3af 100644
--- a/env.c
+++ b/env.c
@@ -58,6 +58,10 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer)
+    cee_incr_indegree(dp[0], outer);
+  if (vars)
+    cee_incr_indegree(dp[1], vars);
   
   return &h->_;
 }
diff --git a/release/cee.c b/release/cee.c
index c45312f..9929f3b 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4530,6 +4530,10 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer)
+    cee_incr_indegree(dp[0], outer);
+  if (vars)
+    cee_incr_indegree(dp[1], vars);
 
   return &h->_;
 }
-- 
2.43.0


From 0a33cdd58e73f4359244a29598cafb8a32ae0fee Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 21/56] fix: cee_json_select copied the wrong buffer for a '*'
 member name

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 748e29d..f46cf35 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1042,7 +1042,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
diff --git a/cee-json/value.c b/cee-json/value.c
index da17aab..9d0a889 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -818,7 +818,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
-- 
2.43.0


From 83867366b142b75f0430b711fba5beda14af9a4f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 22/56] fix: cee_json_select read past the end of a selector
 that ends in '.', '[' or ':'

---
 cee-json/release/cee-json.c | 1 +
 cee-json/value.c            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index f46cf35..556c247 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1014,6 +1014,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
        * the above check for JSEL_NEXT_INVALID prevents us from
        * accumulating at the start of the fmt string if no token was
        * yet selected. */
+      if (*p == '\0') goto notfound; /* the token is missing */
       if (*p != '*') {
         token[tlen] = *p++;
         tlen++;
diff --git a/cee-json/value.c b/cee-json/value.c
index 9d0a889..63da729 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -790,6 +790,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
        * the above check for JSEL_NEXT_INVALID prevents us from
        * accumulating at the start of the fmt string if no token was
        * yet selected. */
+      if (*p == '\0') goto notfound; /* the token is missing */
       if (*p != '*') {
         token[tlen] = *p++;
         tlen++;
-- 
2.43.0


From 9608ae6f3e9a00f3c75618d09edd42c77ef025aa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 23/56] fix: cee_json_escape_string cut \u escapes short

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 556c247..896c59c 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1095,7 +1095,7 @@ size_t cee_json_escape_string(const char *s, size_t s_size,
       if( '\x00' <= c && c <= '\x1f' ){
         dest[j] = '\\', dest[j+1] = 'u';
         snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
+        j += 6;
       }else{
         dest[j] = c, j++;
       }
diff --git a/cee-json/value.c b/cee-json/value.c
index 63da729..e4b1360 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -871,7 +871,7 @@ size_t cee_json_escape_string(const char *s,  size_t s_size,
       if( '\x00' <= c && c <= '\x1f' ){
         dest[j] = '\\', dest[j+1] = 'u';
         snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
+        j += 6;
       }else{
         dest[j] = c, j++;
       }
-- 
2.43.0


From 9d0f994fad49b7c5b614318526654c8972f1efd1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 24/56] fix: cee_json_listify crashed on objects

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 896c59c..05daae3 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -277,7 +277,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
diff --git a/cee-json/value.c b/cee-json/value.c
index e4b1360..0a61b90 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -53,7 +53,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
-- 
2.43.0


From 9b39509e2dc5d0b22bc00d34659762a14b2a61c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 25/56] fix: cee_json_object_convert_to_i64 looked at the
 object instead of the member

---
 cee-json/release/cee-json.c | 6 ++++--
 cee-json/value.c            | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 05daae3..78643bd 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -575,12 +575,14 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
 
   struct cee_json *old_val = cee_json_object_get(j, key);
   int64_t i64 = 0;
+  if (NULL == old_val)
+    return false;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
+    cee_del_ref(old_val);
     return true;
   }
   return false;
diff --git a/cee-json/value.c b/cee-json/value.c
index 0a61b90..9589f77 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -351,12 +351,14 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
   
   struct cee_json *old_val = cee_json_object_get(j, key);
   int64_t i64 = 0;
+  if (NULL == old_val)
+    return false;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
+    cee_del_ref(old_val);
     return true;
   }
   return false;
-- 
2.43.0


From 60a72bc184cfdba20b8dad5684c2c82d6b94eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 26/56] fix: files were parsed without a terminator after their
 last byte

---
 cee-json/release/cee-json.c | 7 +++++--
 cee-json/value.c            | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 78643bd..61b8c32 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -859,8 +859,11 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
   struct stat buf;
   fstat(fd, &buf);
   off_t size = buf.st_size;
-  char * b = malloc(size);
-  read(fd, b, size);
+  char * b = malloc(size + 1);
+  size = read(fd, b, size);
+  if( size < 0 )
+    size = 0;
+  b[size] = 0;
 
   int line = 0;
   struct cee_json * j = NULL;
diff --git a/cee-json/value.c b/cee-json/value.c
index 9589f77..e3555d3 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -635,8 +635,11 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
   struct stat buf;
   fstat(fd, &buf);
   off_t size = buf.st_size;
-  char * b = malloc(size);
-  read(fd, b, size);
+  char * b = malloc(size + 1);
+  size = read(fd, b, size);
+  if( size < 0 )
+    size = 0;
+  b[size] = 0;
 
   int line = 0;
   struct cee_json * j = NULL;
-- 
2.43.0


From 26ce6f5756248a5f41c79a94c62572b89f74b5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 27/56] fix: a map counted its keys in its order list whatever
 its delete policy

---
 map.c         | 3 ++-
 release/cee.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/map.c b/map.c
index 38904b8..1c8972f 100644
--- a/map.c
+++ b/map.c
@@ -85,7 +85,8 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct S(header));
   struct S(header) * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  /* the tuples hold the keys, the list only records their order */
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16);
   m->cmp = cmp;
   m->size = 0;
   ZERO_CEE_SECT(&m->cs);
diff --git a/release/cee.c b/release/cee.c
index 9929f3b..90b0d67 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2546,7 +2546,8 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct _cee_map_header);
   struct _cee_map_header * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  /* the tuples hold the keys, the list only records their order */
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16);
   m->cmp = cmp;
   m->size = 0;
   do{ memset(&m->cs, 0, sizeof(struct cee_sect)); } while(0);;
-- 
2.43.0


From 3a34c52143983da10d1efc5846b1cdf8a463949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 28/56] fix: cee_map_add_e miscounted the values when a merge
 kept or replaced them

---
 map.c         | 10 +++++++---
 release/cee.c |  8 ++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/map.c b/map.c
index 1c8972f..a9eb0a0 100644
--- a/map.c
+++ b/map.c
@@ -122,7 +122,9 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
   struct S(header) *b = FIND_HEADER(m);
 
   struct cee_tuple *t, *t1 = NULL, **oldp;
-  t = cee_tuple_mk_e(b->cs.state, b->del_policies.a, key, value);
+  /* t[1] is counted only when t stays in the map */
+  enum cee_del_policy dp[2] = { b->del_policies._.key, CEE_DP_NOOP };
+  t = cee_tuple_mk_e(b->cs.state, dp, key, value);
   oldp = musl_tsearch(b, t, b->_, S(cmp));
 
   if (oldp == NULL)
@@ -136,13 +138,15 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
 
     /* detach old_value  and capture new_value */
     if (new_value != old_value) {
-      t1->_[1] = new_value; 
+      t1->_[1] = new_value;
+      cee_incr_indegree(b->del_policies._.val, new_value);
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
     }
-    cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
     cee_del(t);    
     return old_value;
   }else{
+    cee_tuple_update_del_policy(t, 1, b->del_policies._.val);
+    cee_incr_indegree(b->del_policies._.val, value);
     cee_list_append(b->insertion_ordered_keys, t->_[0]);
     b->size ++;
   }
diff --git a/release/cee.c b/release/cee.c
index 90b0d67..bd18386 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2583,7 +2583,9 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
 
   struct cee_tuple *t, *t1 = NULL, **oldp;
-  t = cee_tuple_mk_e(b->cs.state, b->del_policies.a, key, value);
+  /* t[1] is counted only when t stays in the map */
+  enum cee_del_policy dp[2] = { b->del_policies._.key, CEE_DP_NOOP };
+  t = cee_tuple_mk_e(b->cs.state, dp, key, value);
   oldp = musl_tsearch(b, t, b->_, _cee_map_cmp);
 
   if (oldp == NULL)
@@ -2598,12 +2600,14 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
     /* detach old_value  and capture new_value */
     if (new_value != old_value) {
       t1->_[1] = new_value;
+      cee_incr_indegree(b->del_policies._.val, new_value);
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
     }
-    cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
     cee_del(t);
     return old_value;
   }else{
+    cee_tuple_update_del_policy(t, 1, b->del_policies._.val);
+    cee_incr_indegree(b->del_policies._.val, value);
     cee_list_append(b->insertion_ordered_keys, t->_[0]);
     b->size ++;
   }
-- 
2.43.0


From 9067a876f457df93b130151f3a44b489d0d85bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 29/56] fix: adding a key a DEL map already holds deleted that
 key

---
 map.c         | 2 ++
 release/cee.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/map.c b/map.c
index a9eb0a0..1483697 100644
--- a/map.c
+++ b/map.c
@@ -142,6 +142,8 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
       cee_incr_indegree(b->del_policies._.val, new_value);
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
     }
+    if (key == t1->_[0] && b->del_policies._.key == CEE_DP_DEL)
+      cee_tuple_update_del_policy(t, 0, CEE_DP_NOOP); /* the map still holds this key */
     cee_del(t);    
     return old_value;
   }else{
diff --git a/release/cee.c b/release/cee.c
index bd18386..5246839 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2603,6 +2603,8 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
       cee_incr_indegree(b->del_policies._.val, new_value);
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
     }
+    if (key == t1->_[0] && b->del_policies._.key == CEE_DP_DEL)
+      cee_tuple_update_del_policy(t, 0, CEE_DP_NOOP); /* the map still holds this key */
     cee_del(t);
     return old_value;
   }else{
-- 
2.43.0


From 97ef85beffc9660f0745d2e156f5ec2875bb2573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 30/56] fix: a dict ignored its delete policy for its keys and
 values

---
 dict.c        | 8 ++++----
 release/cee.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dict.c b/dict.c
index fee19b8..2cd14a9 100644
--- a/dict.c
+++ b/dict.c
@@ -35,8 +35,8 @@ static void S(trace)(void *d, enum cee_trace_action ta) {
       free(m);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      cee_del_e(m->del_policy, m->keys);
-      cee_del_e(m->del_policy, m->vals);
+      cee_del(m->keys);
+      cee_del(m->vals);
       musl_hdestroy_r(m->_);
       S(de_chain)(m);
       free(m);
@@ -54,10 +54,10 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   size_t mem_block_size = sizeof(struct S(header));
   struct S(header) * m = malloc(mem_block_size);
   m->del_policy = o;
-  m->keys = cee_list_mk(s, size);
+  m->keys = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->keys);
   
-  m->vals = cee_list_mk(s, size);
+  m->vals = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->vals);
   
   m->size = size;
diff --git a/release/cee.c b/release/cee.c
index 5246839..c3ef043 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2335,8 +2335,8 @@ static void _cee_dict_trace(void *d, enum cee_trace_action ta) {
       free(m);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      cee_del_e(m->del_policy, m->keys);
-      cee_del_e(m->del_policy, m->vals);
+      cee_del(m->keys);
+      cee_del(m->vals);
       musl_hdestroy_r(m->_);
       _cee_dict_de_chain(m);
       free(m);
@@ -2354,10 +2354,10 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   size_t mem_block_size = sizeof(struct _cee_dict_header);
   struct _cee_dict_header * m = malloc(mem_block_size);
   m->del_policy = o;
-  m->keys = cee_list_mk(s, size);
+  m->keys = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->keys);
 
-  m->vals = cee_list_mk(s, size);
+  m->vals = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->vals);
 
   m->size = size;
-- 
2.43.0


From f04630825182e85b84411737ea59605bb0edcc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 31/56] fix: a string ending in a high surrogate escape was
 accepted

---
 cee-json/release/cee-json.c | 3 +++
 cee-json/tokenizer.c        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 61b8c32..35a701f 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2077,6 +2077,9 @@ second_iter:
     }
   }
 
+  if (second_surrogate_expected)
+    goto return_err; /* the input ends with a lone high surrogate */
+
   switch (state) {
   case UNESCAPING:
       if (!utf8_validate(out_start, d))
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index f7cf12a..dc6c394 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -327,6 +327,9 @@ second_iter:
     }
   }
 
+  if (second_surrogate_expected)
+    goto return_err; /* the input ends with a lone high surrogate */
+
   switch (state) {
   case UNESCAPING:
       if (!utf8_validate(out_start, d))
-- 
2.43.0


From 2a698911667cd33ddb5e1aa8ac375215b2e4d70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 32/56] fix: integers beyond int64 were clamped

---
 cee-json/release/cee-json.c | 12 ++++++++++++
 cee-json/tokenizer.c        | 13 +++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 35a701f..58f55fd 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2190,7 +2190,19 @@ static bool parse_number(struct tokenizer *t) {
   }
   else {
     t->type = NUMBER_IS_I64;
+    errno = 0;
     t->number.i64 = strtoll(start, &endptr, 10);
+    if (errno == ERANGE && !offset_sign) {
+      /* too large for a signed integer */
+      errno = 0;
+      t->type = NUMBER_IS_U64;
+      t->number.u64 = strtoull(start, &endptr, 10);
+    }
+    if (errno == ERANGE) {
+      /* too large for any integer */
+      t->type = NUMBER_IS_DOUBLE;
+      t->number.real = strtod(start, &endptr);
+    }
   }
 
   t->buf = end; /* skips entire length of number */
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index dc6c394..869e106 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -1,6 +1,7 @@
 #ifndef CEE_JSON_AMALGAMATION
 #include <stdlib.h>
 #include <ctype.h>
+#include <errno.h>
 #include "cee.h"
 #include "cee-json.h"
 #include "tokenizer.h"
@@ -440,7 +441,19 @@ static bool parse_number(struct tokenizer *t) {
   }
   else {
     t->type = NUMBER_IS_I64;
+    errno = 0;
     t->number.i64 = strtoll(start, &endptr, 10);
+    if (errno == ERANGE && !offset_sign) {
+      /* too large for a signed integer */
+      errno = 0;
+      t->type = NUMBER_IS_U64;
+      t->number.u64 = strtoull(start, &endptr, 10);
+    }
+    if (errno == ERANGE) {
+      /* too large for any integer */
+      t->type = NUMBER_IS_DOUBLE;
+      t->number.real = strtod(start, &endptr);
+    }
   }
 
   t->buf = end; /* skips entire length of number */
-- 
2.43.0


From 9fe9b434e95e40272b0b2bf7e03597e7a3c9dfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 33/56] fix: printing stopped short of the nesting depth the
 parser accepts

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/snprint.c          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 58f55fd..572bb2c 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1555,7 +1555,7 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
 
-  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
+  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 514); /* > the depth the parser accepts */
   push (st, 0, false, sp, j);
 
   uintptr_t offset = 0;
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 789077f..d37133a 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -187,7 +187,7 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
   
-  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
+  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 514); /* > the depth the parser accepts */
   push (st, 0, false, sp, j);
   
   uintptr_t offset = 0;
-- 
2.43.0


From feaa6b6c9f2e62d56513bfdd47e0dd2d700e1151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 34/56] fix: the indentation of deeply nested JSON overflowed

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/snprint.c          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 572bb2c..6b1092d 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1380,7 +1380,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index d37133a..700d04c 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -12,7 +12,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map  * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
-- 
2.43.0


From 1015aa248acb3ca2bae33af0811702ce1b65d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 35/56] fix: printed doubles did not read back as the same
 value

---
 boxed.c       | 9 ++++++++-
 release/cee.c | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/boxed.c b/boxed.c
index 4b2a4a4..537eb83 100644
--- a/boxed.c
+++ b/boxed.c
@@ -238,7 +238,14 @@ size_t cee_boxed_snprint (char * buf, size_t size, struct cee_boxed * x) {
   switch(h->type)
   {
     case cee_primitive_f64:
-      s = snprintf(buf, size, "%lg", h->_[0].f64);
+    {
+      /* as many digits as it takes to read the same value back */
+      char digits[32];
+      snprintf(digits, sizeof(digits), "%lg", h->_[0].f64);
+      if (strtod(digits, NULL) != h->_[0].f64)
+        snprintf(digits, sizeof(digits), "%.17lg", h->_[0].f64);
+      s = snprintf(buf, size, "%s", digits);
+    }
       break;
     case cee_primitive_f32:
       s = snprintf(buf, size, "%g", h->_[0].f32);
diff --git a/release/cee.c b/release/cee.c
index c3ef043..323521b 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1667,7 +1667,14 @@ size_t cee_boxed_snprint (char * buf, size_t size, struct cee_boxed * x) {
   switch(h->type)
   {
     case cee_primitive_f64:
-      s = snprintf(buf, size, "%lg", h->_[0].f64);
+    {
+      /* as many digits as it takes to read the same value back */
+      char digits[32];
+      snprintf(digits, sizeof(digits), "%lg", h->_[0].f64);
+      if (strtod(digits, NULL) != h->_[0].f64)
+        snprintf(digits, sizeof(digits), "%.17lg", h->_[0].f64);
+      s = snprintf(buf, size, "%s", digits);
+    }
       break;
     case cee_primitive_f32:
       s = snprintf(buf, size, "%g", h->_[0].f32);
-- 
2.43.0


From d7bdfb0eed508c3d72a4bf2b07ef6603cf269b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 36/56] fix: cee_json_object_append crashed when the value is a
 number, boolean or null

---
 cee-json/release/cee-json.c | 4 +++-
 cee-json/value.c            | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 6b1092d..d16145b 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -650,7 +650,9 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      /* any kind of value, cee_json_listify takes objects and strings only */
+      struct cee_json *llist = cee_json_array_mk(cee_get_state(cee_json_to_object(j)), 1);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
diff --git a/cee-json/value.c b/cee-json/value.c
index e3555d3..1ae98ff 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -426,7 +426,9 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      /* any kind of value, cee_json_listify takes objects and strings only */
+      struct cee_json *llist = cee_json_array_mk(cee_get_state(cee_json_to_object(j)), 1);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
-- 
2.43.0


From 880a2c6550227573440caa0f5ab524a6a537603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 37/56] fix: cee_env_find gave up at an environment without
 variables

---
 env.c         | 4 ++--
 release/cee.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/env.c b/env.c
index ac5f3af..8bc1d19 100644
--- a/env.c
+++ b/env.c
@@ -73,8 +73,8 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
-    if ( (ret = cee_map_find(e->vars, key)) ) 
+  while (e) {
+    if ( e->vars && (ret = cee_map_find(e->vars, key)) ) 
       return ret;
     e = e->outer;
   }
diff --git a/release/cee.c b/release/cee.c
index 323521b..d268bc3 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4559,8 +4559,8 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
-    if ( (ret = cee_map_find(e->vars, key)) )
+  while (e) {
+    if ( e->vars && (ret = cee_map_find(e->vars, key)) )
       return ret;
     e = e->outer;
   }
-- 
2.43.0


From dbc81390f32685acffc54474bf8fc33aa56e3e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 38/56] fix: the selector's :n refused doubles and unsigned
 integers, which are numbers

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index d16145b..0503753 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1010,7 +1010,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && !cee_json_to_boxed(o)) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
diff --git a/cee-json/value.c b/cee-json/value.c
index 1ae98ff..ff05a4d 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -786,7 +786,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && !cee_json_to_boxed(o)) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
-- 
2.43.0


From b94d9dc51342a85057cce1a0ad9e1010998f7357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 39/56] fix: cee_json_object_convert_to_i64 freed a string
 value that others still hold

---
 cee-json/release/cee-json.c | 1 +
 cee-json/value.c            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 0503753..eff541c 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -581,6 +581,7 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
     return true;
 
   if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
+    cee_incr_indegree(CEE_DP_DEL_RC, old_val); /* others may hold it as well */
     cee_json_object_set_i64(j, key, i64);
     cee_del_ref(old_val);
     return true;
diff --git a/cee-json/value.c b/cee-json/value.c
index ff05a4d..5054d20 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -357,6 +357,7 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
     return true;
 
   if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
+    cee_incr_indegree(CEE_DP_DEL_RC, old_val); /* others may hold it as well */
     cee_json_object_set_i64(j, key, i64);
     cee_del_ref(old_val);
     return true;
-- 
2.43.0


From e0a337b7a373d13257bd5efb62e3bbc200cf4048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 40/56] fix: a statement refused for an unbound parameter was
 never finalized

---
 sqlite3/cee-sqlite3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 51fc7ea..433ea1b 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -206,6 +206,8 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
         if( bound[i] == 0 ){ // this parameter is not bound.
           const char *parameter = sqlite3_bind_parameter_name(sql_stmt, i+1);
           cee_json_set_error(ret, "SQL:%s:'%s' the %dth parameter '%s' is not bound", cs->db_name, sql, i+1, parameter);
+          if( !sql_stmt_pp )
+            sqlite3_finalize(sql_stmt);
           return SQLITE_ERROR;
         }
       }
-- 
2.43.0


From 31696b1df2d3c36a341012cf980c56b9a61c4c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 41/56] fix: cee_sqlite3_select_iter leaked the statement when
 it failed to start

---
 sqlite3/cee-sqlite3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 433ea1b..c44e866 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -427,6 +427,7 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
       cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
       cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
     }
+    sqlite3_finalize(stmt);
     return rc;
   }
   while( rc != SQLITE_DONE ){
-- 
2.43.0


From 1794e144a17b092e98b1dc487c20b5cf16834bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 42/56] fix: cee_sqlite3_select_iter looped forever over a step
 that failed midway

---
 sqlite3/cee-sqlite3.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index c44e866..cc1e006 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -430,13 +430,17 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
     sqlite3_finalize(stmt);
     return rc;
   }
-  while( rc != SQLITE_DONE ){
+  while( rc == SQLITE_ROW ){
     if( f(cls, state, info, stmt) ){
       sqlite3_finalize(stmt);
       return SQLITE_DONE;
     }
     rc = sqlite3_step(stmt);
   }
+  if( rc != SQLITE_DONE && status ){
+    accept_result(state, status, &result);
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
+  }
   sqlite3_finalize(stmt);
   return rc;
 }
-- 
2.43.0


From fad00fbfde7217759d17a8ba7040dac1b427bc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 43/56] fix: cee_sqlite3_select crashed on an SQL error when
 *status was an array

---
 sqlite3/cee-sqlite3.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index cc1e006..2f291e1 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -396,6 +396,27 @@ dont_label(struct cee_sqlite3_bind_info *info, char *colum_name)
   return false;
 }
 
+/*
+ * a failed select is reported by the member error of *status, or by an object
+ * with that member at the end of *status if it's an array
+ */
+static void
+report_error(struct cee_sqlite3 *cs, int rc, char *sql,
+             struct cee_json *error, struct cee_json **status){
+  struct cee_json *result = NULL, *array = NULL;
+  if( status && *status && cee_json_to_array(*status) ){
+    array = *status;
+    status = &result;
+  }
+  accept_result(cs->state, status, &result);
+  if( status && error )
+    cee_json_object_append(*status, "error", error);
+  cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql,
+                     sqlite3_errmsg(cs->db));
+  if( array )
+    cee_json_array_append(array, result);
+}
+
 /*
  * returned value is a JSON array
  */
@@ -416,17 +437,12 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
   }
   
   struct cee_state *state = cs->state;
-  sqlite3 *db = cs->db;  
   sqlite3_stmt *stmt = NULL;
-  struct cee_json *result = NULL, *my_status = NULL;
+  struct cee_json *my_status = NULL;
   
   int rc = cee_sqlite3_bind_run_sql(cs, info, data, sql, &stmt, &my_status);
   if( rc != SQLITE_ROW && rc != SQLITE_DONE ){
-    if( status ){
-      accept_result(state, status, &result);
-      cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
-      cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
-    }
+    report_error(cs, rc, sql, cee_json_select(my_status, ".error"), status);
     sqlite3_finalize(stmt);
     return rc;
   }
@@ -437,10 +453,8 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
     }
     rc = sqlite3_step(stmt);
   }
-  if( rc != SQLITE_DONE && status ){
-    accept_result(state, status, &result);
-    cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
-  }
+  if( rc != SQLITE_DONE )
+    report_error(cs, rc, sql, NULL, status);
   sqlite3_finalize(stmt);
   return rc;
 }
-- 
2.43.0


From 548bf9591fdd38a5204f75a64ce6468379007cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 44/56] fix: cee_json_to_bind_info filled every slot with the
 first key

---
 sqlite3/cee-sqlite3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 2f291e1..29bf8e9 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1068,6 +1068,7 @@ static int f (void *cxt, struct cee_str *key, struct cee_json *val) {
     info[i].col_name = cee_str_mk(is->state,  "%s", key->_)->_;
     info[i].var_name = cee_str_mk(is->state, "@%s", key->_)->_;
     info[i].data.has_value = 1;
+    break;
   }
   return 0;
 }
-- 
2.43.0


From 97564449208e29df40c23acac022db3596463fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 45/56] fix: cee_sqlite3_select1_as crashed when no row was
 selected

---
 sqlite3/cee-sqlite3.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 29bf8e9..0328ca8 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -999,11 +999,12 @@ cee_sqlite3_select1_as(struct cee_sqlite3 *cs,
   accept_result(cs->state, status, &result);
   if( status ){
     struct cee_json *old = cee_json_object_get(*status, key);
+    if( one == NULL )
+      return ret; /* no row is selected */
     if( old )
       cee_json_merge(old, one);
     else
-      old = one;
-    cee_json_object_set(*status, key, old);
+      cee_json_object_set(*status, key, one);
   }
   return ret;
 }
-- 
2.43.0


From 9d4cd5f7cdf848c485bff63b9fc18c1a90bd50ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 46/56] fix: cee_sqlite3_init_db took the message of a failed
 open from the wrong handle

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 0328ca8..2afc474 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -12,7 +12,8 @@ void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool tra
   else {
     rc = sqlite3_open(db_file, &db);
     if( rc != SQLITE_OK ){
-      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(*db_p));
+      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(db));
+      sqlite3_close(db);
       db = NULL;
       goto my_ret;
     }
-- 
2.43.0


From 6712d1b219bee2227006b3bbd770cbb32018b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 47/56] fix: updated_rows counted all changes ever made through
 the connection

---
 sqlite3/cee-sqlite3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 2afc474..8792f80 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -370,7 +370,7 @@ int cee_sqlite3_update_if_exists(struct cee_sqlite3 *cs,
                          cs->db_name, rc, update, sqlite3_errmsg(db));
     else if( status )
       cee_json_object_set_i64(*status, "updated_rows",
-                              sqlite3_total_changes(db));
+                              sqlite3_changes(db));
   }
   return rc;
 }
-- 
2.43.0


From 68fc4166f0d349d3c51b82d42c8ba64426fd3c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 48/56] fix: last_insert_rowid was cut to 32 bits

---
 sqlite3/cee-sqlite3.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 8792f80..b3a93f5 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -267,7 +267,7 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                          cs->db_name, rc, insert, sqlite3_errmsg(db));
     else if( result ){
-      int row_id = sqlite3_last_insert_rowid(db);
+      int64_t row_id = sqlite3_last_insert_rowid(db);
       cee_json_object_set_i64(result, "last_insert_rowid", row_id);
     }
   }
@@ -291,7 +291,7 @@ int cee_sqlite3_insert(struct cee_sqlite3 *cs,
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, insert, sqlite3_errmsg(db));
   else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+    int64_t row_id = sqlite3_last_insert_rowid(db);
     if( key )
       cee_json_object_set_i64(result, key, row_id);
     else
@@ -612,7 +612,7 @@ int cee_sqlite3_select1_or_insert(struct cee_sqlite3 *cs,
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                        cs->db_name, rc, insert, sqlite3_errmsg(db));
   else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+    int64_t row_id = sqlite3_last_insert_rowid(db);
     cee_json_object_set_i64(*status, "last_insert_rowid", row_id);
   }
 
-- 
2.43.0


From f963efca0a2764476f2de372990894b1ab853d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 49/56] fix: a failed delete reported the rows an earlier
 statement had changed

---
 sqlite3/cee-sqlite3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index b3a93f5..c06f5bf 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -320,7 +320,7 @@ int cee_sqlite3_delete(struct cee_sqlite3 *cs,
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
 		       cs->db_name, rc, delete_sql, sqlite3_errmsg(db));
-  if( key )
+  else if( key )
     cee_json_object_set_i64(result, key, sqlite3_changes(cs->db));
   else
     cee_json_object_set_i64(result, "deleted", sqlite3_changes(cs->db));
-- 
2.43.0


From 3a75ce787efab9df9c315877b2212aa82f44fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 50/56] fix: a value bound after a null of the same key was
 still bound as null

---
 sqlite3/cee-sqlite3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index c06f5bf..fad04e0 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -655,6 +655,8 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
         }
         return 0;
       }
+      data[i].is_null = 0; /* it may have been null before */
+      data[i].size = 0;
 
       switch( info[i].type ){
       case CEE_SQLITE3_UNDEF:
-- 
2.43.0


From f50744db496644d7dcd37931e23d1b446fe62495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 51/56] fix: joining on a 64-bit column or over a sized text
 bound a stale value

---
 sqlite3/join.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlite3/join.c b/sqlite3/join.c
index e8c8e5f..3b4523f 100644
--- a/sqlite3/join.c
+++ b/sqlite3/join.c
@@ -38,9 +38,11 @@ static int join_one (void *ctx, void *elem, int idx) {
             info[i].col_name);
           return 1; /* stop */
         }
+        cee_json_to_i64x(value, &item->i64);
         break; /* switch */
       case CEE_JSON_STRING:
         item->value = cee_json_to_str(value)->_;
+        item->size = 0;
         break; /* switch */
       case CEE_JSON_NULL:
         cee_json_object_set_strf(
-- 
2.43.0


From c88d7ed0a17875f9a0e6ee990fd188399821e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 52/56] fix: cee_sqlite3_insert_json_array overran its bindings
 on objects of 50 keys

---
 sqlite3/cee-sqlite3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index fad04e0..5d001e1 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1128,7 +1128,7 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
 struct insert_columns_values {
   struct cee_str *insert_colums;
   struct cee_str *insert_values;
-  struct cee_sqlite3_bind_info info [50];
+  struct cee_sqlite3_bind_info *info;
   int idx;
 };
 
@@ -1185,6 +1185,8 @@ insert_one_json_object (void *ctx, struct cee_json *one, int idx) {
   struct insert_columns_values one_ctx = {0};
   one_ctx.insert_colums = cee_str_mk(state, "");
   one_ctx.insert_values = cee_str_mk(state, "");
+  size_t n_infos = cee_map_size(cee_json_to_object(one)) + 1;
+  one_ctx.info = (void *)cee_block_mk(state, n_infos * sizeof(*one_ctx.info));
   cee_json_object_iterate(one, &one_ctx, collect_colums_values);
   size = snprintf(NULL, 0, "insert into %s (%s) values (%s);",
                   p->table_name,
-- 
2.43.0


From 50b7636a2a50171965c2cf63ee1966e3d7f49deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 53/56] fix: a blob column in the JSON input crashed when no
 error list is wanted

---
 sqlite3/cee-sqlite3.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 5d001e1..5d0f900 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -702,8 +702,9 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
         break;
       case CEE_SQLITE3_BLOB:
         // decode the string as base64 encoding
-        cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
-                                   info[i].col_name);
+        if( p->errors )
+          cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
+                                     info[i].col_name);
         return 1;
       }
       return 0;
-- 
2.43.0


From c6dfe145aa346332bf04aa2fa6b36045f3770d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 54/56] fix: the statement of cee_sqlite3_next_int was cut
 after 127 characters

---
 sqlite3/cee-sqlite3.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 5d0f900..cfe9ecf 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1101,12 +1101,12 @@ cee_json_to_bind_info(struct cee_json *input) {
 int
 cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
                      char *from_clause, struct cee_json **status) {
-  char qx[128];
-  snprintf(qx, sizeof qx, "select max(%s) as max_value %s;",
-           int_column_name, from_clause);
+  struct cee_str *qx = cee_str_mk(cs->state, "select max(%s) as max_value %s;",
+                                  int_column_name, from_clause);
 
   struct cee_json *input = NULL, *max_value = NULL;
-  cee_sqlite3_select1(cs, NULL, NULL, qx, &input);
+  cee_sqlite3_select1(cs, NULL, NULL, qx->_, &input);
+  cee_del(qx);
   if( cee_json_select(input, ".error") ){
     *status = input;
     return -1;
-- 
2.43.0


From a1c2be90b0ce5b8f611f250280685989f414de77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:28 +0000
Subject: [PATCH 55/56] fix: the functions loading JSON files ignored force_eof

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index eff541c..b2fbbd2 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -870,7 +870,7 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
 
   int line = 0;
   struct cee_json * j = NULL;
-  if( cee_json_parsex(st, b, size, &j, true, &line) ){
+  if( cee_json_parsex(st, b, size, &j, force_eof, &line) ){
     /*  report error */
     fprintf(stderr, "failed to parse at %d\n", line);
     if( error_at_line )
diff --git a/cee-json/value.c b/cee-json/value.c
index 5054d20..44cb9b2 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -646,7 +646,7 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
 
   int line = 0;
   struct cee_json * j = NULL;
-  if( cee_json_parsex(st, b, size, &j, true, &line) ){
+  if( cee_json_parsex(st, b, size, &j, force_eof, &line) ){
     /*  report error */
     fprintf(stderr, "failed to parse at %d\n", line);
     if( error_at_line )
-- 
2.43.0


From 7feab78e1938c4dc4eae9009340b28dfd46b5da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:28 +0000
Subject: [PATCH 56/56] fix: cee_json_merge_all reported success when the
 result could not be written

---
 cee-json/cee_json_merge.c   | 4 ++--
 cee-json/release/cee-json.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cee-json/cee_json_merge.c b/cee-json/cee_json_merge.c
index 8071a49..ea5e8f2 100644
--- a/cee-json/cee_json_merge.c
+++ b/cee-json/cee_json_merge.c
@@ -51,9 +51,9 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
+  bool saved = cee_json_save(state, j0, f_combined, 1);
   fclose(f_combined);
   fclose(f0);
   cee_del(state);
-  return 0;
+  return saved ? 0 : 1;
 }
diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index b2fbbd2..0347e1d 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2336,11 +2336,11 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
+  bool saved = cee_json_save(state, j0, f_combined, 1);
   fclose(f_combined);
   fclose(f0);
   cee_del(state);
-  return 0;
+  return saved ? 0 : 1;
 }
 
 #endif
-- 
2.43.0

