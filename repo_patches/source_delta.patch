From e91ea573f59d5477344045c30729c4ac9fc4bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:49 +0000
Subject: [PATCH 001/187] fix: uniq_i8 reorders signed values as unsigned

uniq_i8 was an alias of uniq8 which rebuilds the array from a bitmap in
unsigned order, so that a sorted array of signed values came out with its
negative values after the positive ones.
---
 src/core/sort-numeric.in.c | 4 ++--
 src/core/sort.blk          | 1 +
 src/sort.h                 | 4 +---
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/sort-numeric.in.c b/src/core/sort-numeric.in.c
index fc87c0e..94dd02a 100644
--- a/src/core/sort-numeric.in.c
+++ b/src/core/sort-numeric.in.c
@@ -162,7 +162,7 @@ size_t uniq(type_t data[], size_t len)
     size_t pos = 0;
 
     for (size_t i = 0; i < len; i++) {
-        SET_BIT(flags, data[i]);
+        SET_BIT(flags, TRANSLATE(data[i]));
     }
 
     for (int i = 0; i < countof(flags); i++) {
@@ -170,7 +170,7 @@ size_t uniq(type_t data[], size_t len)
             int bit = bsf64(flags[i]);
 
             RST_BIT(&flags[i], bit);
-            data[pos++] = bitsizeof(flags[i]) * i + bit;
+            data[pos++] = TRANSLATE(bitsizeof(flags[i]) * i + bit);
         }
     }
     return pos;
diff --git a/src/core/sort.blk b/src/core/sort.blk
index 5303ce9..1a3276c 100644
--- a/src/core/sort.blk
+++ b/src/core/sort.blk
@@ -30,6 +30,7 @@
 #define utype_t   uint8_t
 #define TYPE_MIN  INT8_MIN
 #define dsort     dsort_i8
+#define uniq      uniq_i8
 #include "sort-numeric.in.c"
 
 #define type_t   uint16_t
diff --git a/src/sort.h b/src/sort.h
index f5f3167..9f6684b 100644
--- a/src/sort.h
+++ b/src/sort.h
@@ -35,9 +35,7 @@ bool contains_i8(int8_t what, const int8_t data[], size_t len);
 void   dsort8(uint8_t base[], size_t n);
 void   dsort_i8(int8_t base[], size_t n);
 size_t uniq8(uint8_t base[], size_t n);
-static inline size_t uniq_i8(int8_t base[], size_t n) {
-    return uniq8((uint8_t *)base, n);
-}
+size_t uniq_i8(int8_t base[], size_t n);
 
 static inline size_t
 bisect16(uint16_t what, const uint16_t data[], size_t len, bool *found);
-- 
2.43.0


From bb45efcc47ce01408c1ea813fe62cfbff20744c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:37 +0000
Subject: [PATCH 002/187] fix: iop: do not trust the element count of packed
 arrays

The 32 bits multiplication by the element size could overflow, making the
unpacker write out of its allocation, and a big count made it abort.
---
 src/iop/iop.blk | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index 7ab0795..fa85a5c 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -5040,8 +5040,12 @@ unpack_struct(mem_pool_t *mp, const iop_struct_t *desc, void *value,
             }
 
           unpack_array:
+            /* Each element takes at least one byte: do not trust a count
+             * that the remaining bytes cannot hold. */
+            PS_WANT(ps_has(ps, n));
             data->len  = n;
-            data->data = v = mp_imalloc(mp, n * fdesc->size, 8, MEM_RAW);
+            data->data = v = mp_imalloc(mp, (size_t)n * fdesc->size, 8,
+                                        MEM_RAW);
 
             while (n-- > 1) {
                 if (unpack_value(mp, wt, fdesc, v, ps, flags) < 0) {
-- 
2.43.0


From 0550ce5e79451274976b5b581433dd692b43f4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:37 +0000
Subject: [PATCH 003/187] fix: iop: refuse packed strings of size 0 (unpacked
 with a length of -1)

---
 src/iop/iop.blk | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index fa85a5c..4fa4ace 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -4853,6 +4853,8 @@ static int unpack_value(mem_pool_t *mp, iop_wire_type_t wt,
           case IOP_T_STRING:
           case IOP_T_DATA:
           case IOP_T_XML:
+            /* The block contains at least the final '\0'. */
+            PS_WANT(u32 > 0);
             *(lstr_t *)v = LSTR_INIT_V(((flags & IOP_UNPACK_COPY_STRINGS)
                                         ? mp_dup(mp, ps->s, u32)
                                         : ps->p), u32 - 1);
-- 
2.43.0


From fff85925ea06a88e6a7ed2cb3d823c1d29175c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:37 +0000
Subject: [PATCH 004/187] fix: iop: refuse invalid booleans in packed arrays,
 as for scalars

---
 src/iop/iop.blk | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index 4fa4ace..aefab5a 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -5023,6 +5023,12 @@ unpack_struct(mem_pool_t *mp, const iop_struct_t *desc, void *value,
                 }
                 PS_WANT(ps_has(ps, len));
 
+                if (fdesc->type == IOP_T_BOOL) {
+                    for (uint32_t i = 0; i < len; i++) {
+                        PS_WANT(ps->b[i] <= 1);
+                    }
+                }
+
                 if (fdesc->size == 1) {
                     data->len = len;
                     data->data = ((flags & IOP_UNPACK_COPY_STRINGS)
-- 
2.43.0


From 6af517d97068932a0f8f42c3e254b02a0be9c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:37 +0000
Subject: [PATCH 005/187] fix: iop: stack overflow when skipping nested arrays
 in unknown fields

---
 src/iop/iop.blk | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index aefab5a..8526feb 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -4646,6 +4646,8 @@ static int iop_skip_field(pstream_t *ps, iop_wire_type_t wt)
         while (n--) {
             PS_WANT(ps_has(ps, 1) && IOP_TAG(ps->b[0]) == 0);
             wt = IOP_WIRE_FMT(__ps_getc(ps));
+            /* There are no arrays of arrays: do not recurse on them. */
+            PS_WANT(wt != IOP_WIRE_REPEAT);
             RETHROW(iop_skip_field(ps, wt));
         }
       } break;
-- 
2.43.0


From 98de3db7b556d1aa4277c281c5ea89a6989696a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:37 +0000
Subject: [PATCH 006/187] fix: iop: iop_bskip failed on unions with a void
 field selected

---
 src/iop/iop.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index 8526feb..268a9ee 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -5378,7 +5378,7 @@ int iop_bskip(const iop_struct_t *desc, pstream_t *ps)
         PS_CHECK(get_uint32(ps, 4, &u32));
 
       read_blk:
-        PS_WANT((1 << fdesc->type) & IOP_BLK_OK);
+        PS_WANT((1 << fdesc->type) & IOP_BLK_OK || fdesc->type == IOP_T_VOID);
         PS_CHECK(ps_skip(ps, u32)); /* Skip block */
         return 0;
 
-- 
2.43.0


From 581e7dcfb74f848d8f22474d78989362be680859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:14 +0000
Subject: [PATCH 007/187] fix: iop json: characters above U+FFFF were corrupted
 by a JSON round trip

They were written as \uXXXXX (5 or 6 digits), that is read back as a 4-digit
escape sequence followed by plain characters. Keep them in plain UTF-8.
---
 src/iop/json.blk | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/iop/json.blk b/src/iop/json.blk
index ec56be6..78319d4 100644
--- a/src/iop/json.blk
+++ b/src/iop/json.blk
@@ -2353,11 +2353,17 @@ static int write_string(lstr_t val, iop_type_t type, unsigned flags,
                 break;
             }
             /* Assume broken utf-8 is mixed latin1 */
+            p = ps.b;
             c = ps_getuc(&ps);
             if (unlikely(c < 0)) {
                 c = ps_getc(&ps);
             }
-            WRITE(ibuf, sprintf(ibuf, "\\u%04x", c));
+            if (unlikely(c > 0xffff)) {
+                /* does not fit in the 4 digits of \u, keep it as is */
+                WRITE(p, ps.b - p);
+            } else {
+                WRITE(ibuf, sprintf(ibuf, "\\u%04x", c));
+            }
         }
     }
 
-- 
2.43.0


From aa9aaa435f9f5cb3d6ed6853d98e4a46e000c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:14 +0000
Subject: [PATCH 008/187] fix: yaml: characters above U+FFFF were corrupted by
 a YAML round trip

They were written as \uXXXXX (5 or 6 digits), that is read back as a 4-digit
escape sequence followed by plain characters. Keep them in plain UTF-8.
---
 src/core/yaml.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 99be2b5..8f9580f 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -3932,6 +3932,7 @@ static int yaml_pack_string(yaml_pack_env_t *env, lstr_t val,
         }
 
         /* Assume broken utf-8 is mixed latin1 */
+        p = ps.b;
         c = ps_getuc(&ps);
         if (unlikely(c < 0)) {
             c = ps_getc(&ps);
@@ -3969,7 +3970,12 @@ static int yaml_pack_string(yaml_pack_env_t *env, lstr_t val,
           default: {
             char ibuf[IBUF_LEN];
 
-            WRITE(ibuf, sprintf(ibuf, "\\u%04x", c));
+            if (unlikely(c > 0xffff)) {
+                /* does not fit in the 4 digits of \u, keep it as is */
+                WRITE(p, ps.b - p);
+            } else {
+                WRITE(ibuf, sprintf(ibuf, "\\u%04x", c));
+            }
           } break;
         }
     }
-- 
2.43.0


From 38de749824461fdb7bfc948b8b14b25cfb74c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:31 +0000
Subject: [PATCH 009/187] fix: iop json: bytes read after the end of the
 document

The lexer read one byte after the end of the stream when it ended with an
expression, with a c, with the escape sequence of a character literal or with
an inclusion.
---
 src/iop/json.blk | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/iop/json.blk b/src/iop/json.blk
index 78319d4..69e69d5 100644
--- a/src/iop/json.blk
+++ b/src/iop/json.blk
@@ -505,6 +505,9 @@ static int iop_json_lex_expr(iop_json_lex_t *ll, const iop_field_t *fdesc)
             if (EATC() == '\n')
                 NEWLINE();
         }
+        if (ps_done(PS)) {
+            break;
+        }
         switch (c = READC()) {
 
           case '<': case '>':
@@ -660,7 +663,7 @@ static int iop_json_lex_char(iop_json_lex_t *ll, int terminator)
             break;
         }
         SKIP(2);
-        if (READC() != terminator) {
+        if (!HAS(1) || READC() != terminator) {
             return RJERROR_WARG(IOP_JERR_EXP_SMTH);
         }
         SKIP(1);
@@ -753,7 +756,7 @@ static int iop_json_lex(iop_json_lex_t *ll, const iop_field_t *fdesc)
                 return EATC();
 
       case 'c': /* string character prefix */
-                c = READAT(1);
+                c = HAS(2) ? READAT(1) : '\0';
                 if (c == '\'' || c == '"') {
                     SKIP(2);
                     return iop_json_lex_char(ll, c);
@@ -1028,7 +1031,7 @@ static int unpack_val_file_inclusion(iop_json_lex_t *ll,
 
     SKIP(strlen("include("));
 
-    switch (READC()) {
+    switch (HAS(1) ? READC() : '\0') {
       case '\'': case '"':
         STORECTX();
         RETHROW(iop_json_lex_str(ll, EATC()));
-- 
2.43.0


From 357c70df639b1ece9069105e7240c9272d13ec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:27 +0000
Subject: [PATCH 010/187] fix: iop: overflow in iop_ranges_search

Searching for a value close to INT_MAX in a range whose offset is not null
wrapped around, and returned a position out of the range: packing in JSON or
XML an enum holding such a value (that can come from the wire, when the enum
is not strict) read out of the array of the names.
---
 src/iop/iop.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index 268a9ee..bf548b3 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -4553,7 +4553,7 @@ int iop_ranges_search(int const * ranges, int ranges_len, int tag)
             r = i;
             continue;
         }
-        if (tag + offs >= start + ranges[i * 2 + 2]) {
+        if ((int64_t)tag - start >= ranges[i * 2 + 2] - offs) {
             l = i + 1;
             continue;
         }
-- 
2.43.0


From e65d2213bf1aa16c353680382df1cf0c7df664cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:27 +0000
Subject: [PATCH 011/187] fix: iop: crash when folding INT64_MIN / -1 or
 INT64_MIN % -1

The division was protected only when both operands were flagged as signed, and
the modulo was not, while the signed operation is used as soon as one of them
is. A JSON document could stop the process with SIGFPE.
---
 src/iop/cfolder.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/iop/cfolder.c b/src/iop/cfolder.c
index 4571616..a2e35da 100644
--- a/src/iop/cfolder.c
+++ b/src/iop/cfolder.c
@@ -178,8 +178,9 @@ static int cf_reduce(qv_t(cf_elem) *stack)
         if (!eright.num) {
             return e_error("invalid division by 0");
         }
-        if (eleft.is_signed && eleft.num == (uint64_t)INT64_MIN
-        &&  eright.is_signed && eright.num == (uint64_t)-1)
+        if ((eleft.is_signed || eright.is_signed)
+        &&  eleft.num == (uint64_t)INT64_MIN
+        &&  eright.num == (uint64_t)-1)
         {
             return e_error("division overflow");
         }
@@ -196,6 +197,12 @@ static int cf_reduce(qv_t(cf_elem) *stack)
         if (!eright.num) {
             return e_error("invalid modulo by 0");
         }
+        if ((eleft.is_signed || eright.is_signed)
+        &&  eleft.num == (uint64_t)INT64_MIN
+        &&  eright.num == (uint64_t)-1)
+        {
+            return e_error("modulo overflow");
+        }
         res.is_signed = eleft.is_signed ^ eright.is_signed;
         if (eleft.is_signed || eright.is_signed) {
             res.num = SIGNED(eleft.num) % SIGNED(eright.num);
-- 
2.43.0


From 2b8f4298a8cee4851c0d440c66c249c8151ee480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:27 +0000
Subject: [PATCH 012/187] fix: iop: refuse to fold shifts of 64 bits and more

The result was undefined (the one of a shift modulo 64 on x86).
---
 src/iop/cfolder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iop/cfolder.c b/src/iop/cfolder.c
index a2e35da..4ce4b79 100644
--- a/src/iop/cfolder.c
+++ b/src/iop/cfolder.c
@@ -274,10 +274,12 @@ static int cf_reduce(qv_t(cf_elem) *stack)
         break;
       case CF_OP_LSHIFT:
         assert (!unary);
+        CF_OVERFLOW(eright.num < 64);
         res.num = eleft.num << eright.num;
         break;
       case CF_OP_RSHIFT:
         assert (!unary);
+        CF_OVERFLOW(eright.num < 64);
         res.num = eleft.num >> eright.num;
         break;
       default:
-- 
2.43.0


From 668d4c9128ead0bcb3b049fcc8c8363df75be4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:27 +0000
Subject: [PATCH 013/187] fix: iop: endless folding of 1 ** n when 1 is flagged
 as signed

(-3 - -4) ** 9999999999999999 did 10^16 multiplications.
---
 src/iop/cfolder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iop/cfolder.c b/src/iop/cfolder.c
index 4ce4b79..58e5956 100644
--- a/src/iop/cfolder.c
+++ b/src/iop/cfolder.c
@@ -232,6 +232,10 @@ static int cf_reduce(qv_t(cf_elem) *stack)
                 res.num = (eright.num % 2 == 0) ? 1 : -1;
                 break;
             }
+            if (l == 1) {
+                res.num = 1;
+                break;
+            }
             while (eright.num-- > 0) {
                 int64_t tmp = sres * l;
 
-- 
2.43.0


From b4f2fc8c7c930527a2ec9ed89e69b07c3de0d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:04 +0000
Subject: [PATCH 014/187] fix: yaml: packing bytes in a t_ allocated buffer
 aborted

The scalar was packed in an inner t_scope: growing the output buffer there is
forbidden when it belongs to a frame of the caller, as the API allows.
---
 src/core/yaml.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 8f9580f..89eec19 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -4054,8 +4054,8 @@ yaml_pack_scalar(yaml_pack_env_t * nonnull env,
         break;
 
       case YAML_SCALAR_BYTES: {
-        t_scope;
-        t_SB_1k(sb);
+        /* XXX: no t_scope here, the output may be t_ allocated. */
+        SB_1k(sb);
 
         sb_add_lstr_b64(&sb, scalar->s, -1);
         res += yaml_pack_string(env, LSTR_SB_V(&sb), pres);
-- 
2.43.0


From 240ffd84f7d842014574245313d275fd2836d6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:24 +0000
Subject: [PATCH 015/187] fix: yaml: error without message when blanks follow
 the document

A tabulation after the document was refused, but the error message was
dropped.
---
 src/core/yaml.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 89eec19..464f644 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -3180,7 +3180,10 @@ int t_yaml_parse(yaml_parse_t *env, yaml_data_t *out, sb_t *out_err)
         goto end;
     }
 
-    RETHROW(yaml_env_ltrim(env));
+    if (yaml_env_ltrim(env) < 0) {
+        res = -1;
+        goto end;
+    }
     if (!ps_done(&env->ps)) {
         yaml_env_set_err(env, YAML_ERR_EXTRA_DATA,
                          "expected end of document");
-- 
2.43.0


From 19b2fdf7f04cf10716f153c2ded1f90f70f2d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:53 +0000
Subject: [PATCH 016/187] fix: yaml: uninitialized key presentation

It is not set by yaml_env_parse_key() when no presentation data is asked for,
but it is used when packing the parsed data: the process could crash.
---
 src/core/yaml.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 464f644..693a7c2 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -2003,7 +2003,7 @@ t_yaml_env_parse_obj(yaml_parse_t * nonnull env, const uint32_t min_indent,
         yaml_key_data_t *kd;
         uint32_t last_indent;
         yaml_span_t key_span;
-        yaml__presentation_node__t *node;
+        yaml__presentation_node__t *node = NULL;
 
         RETHROW(yaml_env_parse_key(env, &key, &key_span, &node));
 
-- 
2.43.0


From 2a4a3503093d6a1f7803ee63127dcc5bfd20e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:11 +0000
Subject: [PATCH 017/187] fix: yaml: assertion on a comment after the first
 character of a document

When presentation data is generated and the document begins with a flow
sequence or object, a comment on the first line was handled as an inline
comment while there is no node to attach it to yet.
---
 src/core/yaml.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 693a7c2..e10a66c 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -897,7 +897,7 @@ static void t_yaml_env_handle_comment_ps(yaml_parse_t * nonnull env,
      */
     comment = lstr_rtrim(LSTR_PS_V(&comment_ps));
 
-    if (prefix) {
+    if (prefix || !env->pres->last_node) {
         if (prefix_comments->len == 0) {
             t_qv_init(prefix_comments, 1);
         }
-- 
2.43.0


From 2317a3c6c6bc14dd21b85b7bb3c7bc5e3406f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:11 +0000
Subject: [PATCH 018/187] fix: yaml: presentation of comments in flow mode
 written in a dead variable

The last node pointed into the local variable of the parsed element, that is
then moved in the sequence or object.
---
 src/core/yaml.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index e10a66c..05ab8a4 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -672,6 +672,15 @@ yaml_env_end_data_with_pos(yaml_parse_t * nonnull env, yaml_pos_t pos_end,
     }
 }
 
+/* To be used when the data that was ended is moved. */
+static void
+yaml_env_set_last_data(yaml_parse_t * nonnull env, yaml_data_t * nonnull data)
+{
+    if (env->pres) {
+        env->pres->last_node = &data->presentation;
+    }
+}
+
 static void
 yaml_env_end_data(yaml_parse_t * nonnull env, yaml_data_t * nonnull out)
 {
@@ -2390,6 +2399,7 @@ t_yaml_env_parse_flow_seq(yaml_parse_t *env, yaml_data_t *out)
         } else {
             qv_append(&datas, kd.data);
         }
+        yaml_env_set_last_data(env, tab_last(&datas));
 
         RETHROW(yaml_env_ltrim(env));
         switch (ps_peekc(env->ps)) {
@@ -2458,6 +2468,7 @@ t_yaml_env_parse_flow_obj(yaml_parse_t *env, yaml_data_t *out)
                                        "object");
         }
         qv_append(&fields, kd);
+        yaml_env_set_last_data(env, &tab_last(&fields)->data);
 
         RETHROW(yaml_env_ltrim(env));
         switch (ps_peekc(env->ps)) {
@@ -2508,6 +2519,7 @@ static int t_yaml_env_parse_flow_key_val(yaml_parse_t *env,
                                    "unexpected colon");
     } else {
         out->data = kd.data;
+        yaml_env_set_last_data(env, &out->data);
     }
 
     return 0;
-- 
2.43.0


From 82f45a0073314ad8625f54bb7cee94967238c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:15 +0000
Subject: [PATCH 019/187] fix: iop xml: endless loop on a malformed document in
 a void field

---
 src/iop/xml-unpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/xml-unpack.c b/src/iop/xml-unpack.c
index f4c7d13..fa6a0db 100644
--- a/src/iop/xml-unpack.c
+++ b/src/iop/xml-unpack.c
@@ -232,7 +232,7 @@ static int xunpack_value(xml_reader_t xr, mem_pool_t *mp,
 
         do {
             i++;
-            xmlr_next_sibling(xr);
+            RETHROW(xmlr_next_sibling(xr));
         } while (xmlr_node_is(xr, fdesc->name.s, fdesc->name.len));
 
         e_named_trace(3, "iop/xml/unpacker", "dropped %d value(s) into void "
-- 
2.43.0


From 3a63a06e22a771e2b133e877cd543b4bccd72031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:34 +0000
Subject: [PATCH 020/187] fix: yaml: strings with flow delimiters were packed
 unquoted in flow mode

---
 src/core/yaml.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 05ab8a4..fde710c 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -4473,10 +4473,25 @@ static int yaml_pack_flow_data(yaml_pack_env_t * nonnull env,
     assert (!data->tag.s);
 
     switch (data->type) {
-      case YAML_DATA_SCALAR:
+      case YAML_DATA_SCALAR: {
+        /* ',', '[', ']', '{' and '}' end a raw scalar in flow mode */
+        static ctype_desc_t const flow_delims = { {
+            0x00000000, 0x00001000, 0x28000000, 0x28000000,
+            0x00000000, 0x00000000, 0x00000000, 0x00000000,
+        } };
+        yaml__presentation_node__t quoted;
+        bool must_quote = false;
+
+        if (data->scalar.type == YAML_SCALAR_STRING) {
+            pstream_t ps = ps_initlstr(&data->scalar.s);
+
+            must_quote = ps_has_char_in_ctype(&ps, &flow_delims);
+        }
+        iop_init(yaml__presentation_node, &quoted);
+        quoted.quoted = true;
         res += RETHROW(yaml_pack_scalar(env, &data->scalar, LSTR_NULL_V,
-                                        NULL));
-        break;
+                                        must_quote ? &quoted : NULL));
+      } break;
       case YAML_DATA_SEQ:
         res += RETHROW(yaml_pack_flow_seq(env, data->seq));
         break;
-- 
2.43.0


From 063848e788dcf8608919e34ed5b57dbb8872d78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:00 +0000
Subject: [PATCH 021/187] fix: yaml: bytes whose base64 form looks like a
 number could not be read back

---
 src/core/yaml.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index fde710c..4f512b8 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -4071,9 +4071,21 @@ yaml_pack_scalar(yaml_pack_env_t * nonnull env,
       case YAML_SCALAR_BYTES: {
         /* XXX: no t_scope here, the output may be t_ allocated. */
         SB_1k(sb);
+        yaml__presentation_node__t quoted;
+        yaml_scalar_t parsed;
+        lstr_t b64;
 
         sb_add_lstr_b64(&sb, scalar->s, -1);
-        res += yaml_pack_string(env, LSTR_SB_V(&sb), pres);
+        b64 = LSTR_SB_V(&sb);
+        iop_init(yaml__presentation_node, &quoted);
+        quoted.quoted = true;
+        if (yaml_parse_special_scalar(b64, &parsed) >= 0
+        ||  yaml_parse_numeric_scalar(b64, &parsed) >= 0)
+        {
+            /* Would not be parsed as a string if not quoted. */
+            pres = &quoted;
+        }
+        res += yaml_pack_string(env, b64, pres);
       } break;
     }
 
-- 
2.43.0


From 43efa3bfe7d3e45fbcef490bc6c80c05d9cb3788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:10 +0000
Subject: [PATCH 022/187] fix: iop: assertion on shallow copies of values whose
 size is not a multiple of 8

---
 src/iop/iop.blk | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index bf548b3..c14f8cd 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -1681,7 +1681,8 @@ __mp_iop_copy_desc_flags_sz(mem_pool_t *mp, const iop_struct_t *st,
         }
     }
 
-    assert ((flags & (IOP_COPY_MULTIPLE_ALLOC | IOP_COPY_NO_REALLOC))
+    assert ((flags & (IOP_COPY_MULTIPLE_ALLOC | IOP_COPY_SHALLOW
+                    | IOP_COPY_NO_REALLOC))
          || dst == res + sz);
     return res;
 }
-- 
2.43.0


From a71fb2903dc5a2e6e913e0dee210529f68f266fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:41 +0000
Subject: [PATCH 023/187] fix: iop: optional empty structure lost by a copy
 without reallocation

---
 src/iop/iop.blk | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index c14f8cd..15df8d1 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -1636,7 +1636,9 @@ __mp_iop_copy_desc_flags_sz(mem_pool_t *mp, const iop_struct_t *st,
         }
 
         memcpy(res + offset, (const uint8_t *)v + offset, st->size - offset);
-        dst = sz ? mp_imalloc(mp, sz, 8, MEM_RAW) : NULL;
+        /* XXX NULL would be an absent value for the optional fields whose
+         * type is an empty structure. */
+        dst = sz ? mp_imalloc(mp, sz, 8, MEM_RAW) : MEM_EMPTY_ALLOC;
     } else {
         if (flags & (IOP_COPY_MULTIPLE_ALLOC | IOP_COPY_SHALLOW)) {
             sz = st->size;
-- 
2.43.0


From b4d4e48959fa0d777cef907b5b1b561417ac0ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:05 +0000
Subject: [PATCH 024/187] fix: iop: iop_first_diff ignored unions with
 different fields selected

---
 src/iop/iop.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index 15df8d1..600dbba 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -1788,7 +1788,7 @@ static int __iop_first_diff(const iop_struct_t *st,
         if (tag_v1 != tag_v2) {
             sb_setf(diff_desc, "union field differs (`%*pU` vs `%*pU`)",
                     (uint16_t)tag_v1, st, (uint16_t)tag_v2, st);
-            return -1;
+            return 0;
         }
 
         fdesc = get_union_field(st, v1);
-- 
2.43.0


From 212d6e0f13d5ecb7b5fe0a8587afffb7465eba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 025/187] fix: yaml: constraints of optional unions checked on
 the pointer

---
 src/iop/yaml.blk | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iop/yaml.blk b/src/iop/yaml.blk
index a1513bb..a0e3960 100644
--- a/src/iop/yaml.blk
+++ b/src/iop/yaml.blk
@@ -376,6 +376,14 @@ check_constraints(const iop_struct_t * nonnull desc,
         return iop_field_check_constraints(desc, fdesc, arr->tab, arr->len,
                                            false);
     } else {
+        if (fdesc->repeat == IOP_R_OPTIONAL) {
+            if (!iop_opt_field_isset(fdesc->type, value)) {
+                return 0;
+            }
+            if ((1 << fdesc->type) & IOP_STRUCTS_OK) {
+                value = *(void **)value;
+            }
+        }
         return iop_field_check_constraints(desc, fdesc, value, 1, false);
     }
 }
-- 
2.43.0


From 62a84d642037f6f07a043d3f2f099eaa3c13eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 026/187] fix: iop: constraints of references checked on the
 pointer

---
 src/iop/iop.blk      |  8 +++++++-
 src/iop/xml-unpack.c | 10 +++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index 600dbba..b4bdecf 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -3351,7 +3351,13 @@ int iop_field_check_constraints(const iop_struct_t *desc, const iop_field_t
     check_constraints_f *check_constraints = NULL;
 
     if ((check_constraints = iop_field_get_constraints_cb(desc, fdesc))) {
-        if (unlikely(check_constraints(ptr, n) < 0)) {
+        const void *val = ptr;
+
+        if (iop_field_is_reference(fdesc)) {
+            /* Reference fields are not dereferenced by the caller. */
+            val = *(void **)ptr;
+        }
+        if (unlikely(check_constraints(val, n) < 0)) {
             iop_err_g.desc = desc;
             sb_reset(&iop_err_g.path);
             return -1;
diff --git a/src/iop/xml-unpack.c b/src/iop/xml-unpack.c
index fa6a0db..a8957d0 100644
--- a/src/iop/xml-unpack.c
+++ b/src/iop/xml-unpack.c
@@ -491,6 +491,9 @@ __xunpack_struct(xml_reader_t xr, mem_pool_t *mp, void *value, int flags,
 
       next:
         if (unlikely(iop_field_has_constraints(fdesc->desc, fdesc->fdesc))) {
+            if (iop_field_is_reference(fdesc->fdesc)) {
+                v = (char *)value + fdesc->fdesc->data_offs;
+            }
             if (iop_field_check_constraints(fdesc->desc, fdesc->fdesc, v, n,
                                             false) < 0)
             {
@@ -636,6 +639,7 @@ xunpack_union(xml_reader_t xr, mem_pool_t *mp, const iop_struct_t *desc,
 {
     const iop_field_t *fdesc;
     lstr_t name;
+    void *v;
 
     RETHROW(xmlr_next_child(xr));
     RETHROW(xmlr_node_get_local_name(xr, &name));
@@ -645,14 +649,14 @@ xunpack_union(xml_reader_t xr, mem_pool_t *mp, const iop_struct_t *desc,
 
     /* Write the selected tag */
     iop_union_set_tag(desc, fdesc->tag, value);
-    value = (char *)value + fdesc->data_offs;
+    v = value = (char *)value + fdesc->data_offs;
 
     if (iop_field_is_reference(fdesc)) {
         /* reference fields must be dereferenced */
-        value = iop_field_ptr_alloc(mp, fdesc, value);
+        v = iop_field_ptr_alloc(mp, fdesc, value);
     }
 
-    RETHROW(xunpack_value(xr, mp, fdesc, value, flags));
+    RETHROW(xunpack_value(xr, mp, fdesc, v, flags));
     if (unlikely(iop_field_has_constraints(desc, fdesc))) {
         if (iop_field_check_constraints(desc, fdesc, value, 1, false) < 0) {
             return xmlr_fail(xr, "%*pM", LSTR_FMT_ARG(iop_get_err_lstr()));
-- 
2.43.0


From 60a53bd105f6fe06da5bca5eb793ce2e3ab985eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:37 +0000
Subject: [PATCH 027/187] fix: htlist: splicing at the tail of an empty list
 dereferenced NULL

---
 src/container-htlist.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/container-htlist.h b/src/container-htlist.h
index 93e6c62..db29490 100644
--- a/src/container-htlist.h
+++ b/src/container-htlist.h
@@ -170,6 +170,9 @@ static inline void htlist_move(htlist_t * nonnull dst,
 static inline void htlist_splice_tail(htlist_t * nonnull dst,
                                       htlist_t * nonnull src)
 {
+    if (htlist_is_empty(dst)) {
+        htlist_splice(dst, src);
+    } else
     if (!htlist_is_empty(src)) {
         src->tail->next = dst->tail->next;
         dst->tail->next = src->head;
-- 
2.43.0


From fb06dfdeab98b8f9421812f864a2b40705e2367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:58 +0000
Subject: [PATCH 028/187] fix: ring: filtering every element out of a full ring
 kept them all

---
 src/container-ring.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/container-ring.h b/src/container-ring.h
index 61d2015..523e128 100644
--- a/src/container-ring.h
+++ b/src/container-ring.h
@@ -43,17 +43,18 @@ void generic_ring_ensure(generic_ring *r, int newlen, int el_siz)
 
 #define RING_FILTER(r, f, ...)                                         \
     do {                                                               \
-        int __r = (r)->first, __w = __r;                               \
+        int __r = (r)->first, __w = __r, __kept = 0;                   \
         for (int __i = (r)->len; __i > 0; __i--) {                     \
             if (f((r)->tab + __r, ##__VA_ARGS__)) {                    \
                 (r)->tab[__w] = (r)->tab[__r];                         \
                 if (++__w == (r)->size)                                \
                     __w = 0;                                           \
+                __kept++;                                              \
             }                                                          \
             if (++__r == (r)->size)                                    \
                 __r = 0;                                               \
         }                                                              \
-        (r)->len -= __r >= __w ? __r - __w : (r)->size + __r - __w;    \
+        (r)->len = __kept;                                             \
     } while (0)
 
 #define RING_FUNCTIONS(type_t, pfx, wipe)                              \
-- 
2.43.0


From 1049b23400d684de3a8598c10f4127567ca1a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:20 +0000
Subject: [PATCH 029/187] fix: count the multiples of a number in ranges near
 the integer limits

The rounded up division of the lower bound overflowed 32 bits.
---
 src/arith/int.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arith/int.c b/src/arith/int.c
index 6901a65..4ad62ba 100644
--- a/src/arith/int.c
+++ b/src/arith/int.c
@@ -106,7 +106,7 @@ uint32_t get_multiples_nb_in_range(uint32_t n, uint32_t min, uint32_t max)
     if (!expect(max >= min && n != 0)) {
         return 0;
     }
-    return 1 + (max / n) - DIV_ROUND_UP(min, n);
+    return 1 + (max / n) - (min / n + (min % n != 0));
 }
 
 /* {{{ Tests */
-- 
2.43.0


From 87b79cc88a221a16212de838583e1d9b3166157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:20 +0000
Subject: [PATCH 030/187] fix: do not shrink the bit stream when too many last
 bits are asked

---
 src/bit-stream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bit-stream.h b/src/bit-stream.h
index 6810ff6..65a7195 100644
--- a/src/bit-stream.h
+++ b/src/bit-stream.h
@@ -435,6 +435,7 @@ bs_get_last_bits(bit_stream_t *bs, size_t blen, uint64_t *out)
     bit_stream_t tmp = *bs;
     const size_t orig_len = bs_len(bs);
 
+    BS_WANT(blen <= 64);
     BS_CHECK(bs_shrink(bs, blen));
     __bs_skip(&tmp, orig_len - blen);
     BS_CHECK(bs_get_bits(&tmp, blen, out));
@@ -551,6 +552,7 @@ bs_be_get_last_bits(bit_stream_t *bs, size_t blen, uint64_t *out)
     bit_stream_t tmp = *bs;
     const size_t orig_len = bs_len(bs);
 
+    BS_WANT(blen <= 64);
     BS_CHECK(bs_shrink(bs, blen));
     __bs_skip(&tmp, orig_len - blen);
     BS_CHECK(bs_be_get_bits(&tmp, blen, out));
-- 
2.43.0


From a54e6b023ef904a291596254a481756c978279ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:34 +0000
Subject: [PATCH 031/187] fix: do not read past the end when looking for a bit
 in an empty range

---
 src/core/bithacks.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/bithacks.c b/src/core/bithacks.c
index 5123310..684019f 100644
--- a/src/core/bithacks.c
+++ b/src/core/bithacks.c
@@ -132,6 +132,10 @@ ssize_t bsf(const void *data, size_t start_bit, size_t len, bool reverse)
     const uint64_t *pos;
     size_t off = 0;
 
+    if (len == 0) {
+        return -1;
+    }
+
     /* Align the pointer if needed */
     pos = (const uint64_t *)(((uintptr_t)data) & ~7ul);;
     if (pos != data) {
-- 
2.43.0


From d135d02feee18ab1d52b0c4b23a871894b301898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:08 +0000
Subject: [PATCH 032/187] fix: do not read a byte past the end when getting no
 big-endian bit

---
 src/bit-stream.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bit-stream.h b/src/bit-stream.h
index 65a7195..53cfd10 100644
--- a/src/bit-stream.h
+++ b/src/bit-stream.h
@@ -477,6 +477,10 @@ static inline uint64_t __bs_be_peek_bits(const bit_stream_t *bs, size_t blen)
     size_t remain = blen;
     uint64_t res = 0;
 
+    if (unlikely(!blen)) {
+        return 0;
+    }
+
     if (offset + blen <= 8) {
         res = (*b >> (8 - (offset + blen))) & BITMASK_LT(uint64_t, blen);
         return res;
-- 
2.43.0


From bfa68963b804fab130580e9a5add20714ea6e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:36 +0000
Subject: [PATCH 033/187] fix: do not access the word past the end when
 shifting a full bit buffer

---
 src/core/bit-buf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/bit-buf.c b/src/core/bit-buf.c
index d1fbff3..52444df 100644
--- a/src/core/bit-buf.c
+++ b/src/core/bit-buf.c
@@ -151,12 +151,13 @@ void bb_shift_left(bb_t *bb, size_t shift)
     } else {
         const size_t nwords = shift / 64, wshift = shift % 64;
         const size_t rwshift = 64 - wshift;
+        const size_t last = (bb->len - 1) / 64;
         size_t src = nwords, dst = 0;
 
         /* We have to shift the bit-buffer word per word… Here we are allowed
          * to overflow a little because we know that we are always aligned on
          * 8 bytes. */
-        while (src < bb->word) {
+        while (src < last) {
             /* Copy the bits from src which have to be shifted in dst */
             bb->data[dst++] = ((bb->data[src] >> wshift)
                                | (bb->data[src + 1] << rwshift));
@@ -167,8 +168,8 @@ void bb_shift_left(bb_t *bb, size_t shift)
         bb->data[dst] = (bb->data[src] >> wshift);
 
         /* Now we have to cleanup the old bits */
-        if (dst < bb->word) {
-            p_clear(&bb->data[dst + 1], bb->word - dst);
+        if (dst < last) {
+            p_clear(&bb->data[dst + 1], last - dst);
         }
 
         bb->len -= shift;
-- 
2.43.0


From 571db008e602a30638f2b24767e1629cd27871ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:21 +0000
Subject: [PATCH 034/187] fix: import compressed bitmaps that end at the end of
 a bucket

---
 src/core/bit-wah.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/bit-wah.c b/src/core/bit-wah.c
index 66f5dbf..da0ccc0 100644
--- a/src/core/bit-wah.c
+++ b/src/core/bit-wah.c
@@ -1581,6 +1581,10 @@ wah_t *mp_wah_init_from_data(mem_pool_t *mp, wah_t *map, pstream_t data)
 
         ctx.tab = (wah_word_t *)ctx.data.p;
         ctx.pos = 0;
+        if (!ctx.bucket) {
+            map->previous_run_pos = -1;
+            map->last_run_pos     = -1;
+        }
 
         while (ctx.pos < size - 1) {
             wah_header_t head  = ctx.tab[ctx.pos++].head;
@@ -1626,8 +1630,6 @@ wah_t *mp_wah_init_from_data(mem_pool_t *mp, wah_t *map, pstream_t data)
                 }
                 ctx.bucket = NULL;
                 ctx.bucket_len = 0;
-                map->previous_run_pos = -1;
-                map->last_run_pos     = -1;
                 goto next;
             }
 
-- 
2.43.0


From bbddb5574def41b23a42fad6ab3868b75b124987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:06 +0000
Subject: [PATCH 035/187] fix: account for the run of a chunk split at the
 import of a bitmap

---
 src/core/bit-wah.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/bit-wah.c b/src/core/bit-wah.c
index da0ccc0..59672bc 100644
--- a/src/core/bit-wah.c
+++ b/src/core/bit-wah.c
@@ -1526,6 +1526,7 @@ from_data_split_chunk(from_data_ctx_t *ctx, wah_header_t head, uint64_t words)
     } else {
         /* The run fits, copy it. */
         qv_append(ctx->bucket, (wah_word_t){ .head = head});
+        ctx->bucket_len += head.words * WAH_BIT_IN_WORD;
     }
 
     /* We now have to deal with the uncompressed words. */
-- 
2.43.0


From 14fc59ab9915c6705c06e2112d8973364f929504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:28 +0000
Subject: [PATCH 036/187] fix: heap overflow when shrinking an over-aligned
 allocation

---
 src/core/mem.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mem.blk b/src/core/mem.blk
index 2bf269b..e5d1a3c 100644
--- a/src/core/mem.blk
+++ b/src/core/mem.blk
@@ -124,7 +124,7 @@ static void *libc_realloc(mem_pool_t *m, void *mem, size_t oldsize,
     if (alignment > 8 && ((uintptr_t)res & (alignment - 1))) {
         byte *cpy = libc_malloc(m, size, alignment, flags | MEM_RAW);
 
-        p_copy(cpy, res, oldsize == MEM_UNKNOWN ? size : oldsize);
+        p_copy(cpy, res, MIN(oldsize, size));
         free(res);
         res = cpy;
     }
-- 
2.43.0


From c4c2ea26e70d19a7f1b67d21a7c53193018deae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:28 +0000
Subject: [PATCH 037/187] fix: zero the bytes left by a shrink when growing the
 last fifo block

---
 src/core/mem-fifo.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/mem-fifo.c b/src/core/mem-fifo.c
index c306dd1..839389d 100644
--- a/src/core/mem-fifo.c
+++ b/src/core/mem-fifo.c
@@ -374,6 +374,9 @@ static void *mfp_realloc(mem_pool_t *_mfp, void *mem, size_t oldsize,
         mem_tool_freelike(mem, oldsize, 0);
         mem_tool_malloclike(mem, req_size, 0, false);
         mem_tool_allow_memory(mem, MIN(req_size, oldsize), true);
+        if (!(flags & MEM_RAW) && oldsize < alloced_size) {
+            memset(blk->area + oldsize, 0, alloced_size - oldsize);
+        }
     } else {
         void *old = mem;
 
-- 
2.43.0


From de7a0ecfa307701fb1256c08262b2fdd137e916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:58 +0000
Subject: [PATCH 038/187] fix: deactivate a ring frame released after its
 predecessor

---
 src/core/mem-ring.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/mem-ring.c b/src/core/mem-ring.c
index 490427f..a75c6b6 100644
--- a/src/core/mem-ring.c
+++ b/src/core/mem-ring.c
@@ -573,11 +573,10 @@ void mem_ring_release(const void *cookie)
         } else {
             frame_t *fprev = dlist_prev_entry(frame, flist);
 
+            ring_reset_frame(rp, frame, true);
             if (fprev->rp & FRAME_IS_FREE) {
                 /* TODO We could rewind on more than one frame. */
                 ring_reset_to_prevframe(rp, fprev, frame);
-            } else {
-                ring_reset_frame(rp, frame, true);
             }
         }
     } else {
-- 
2.43.0


From 816c6d6b709ffef8c5011c91472b0960d131df88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:58 +0000
Subject: [PATCH 039/187] fix: respect the requested alignment in ring pools

---
 src/core/mem-ring.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/mem-ring.c b/src/core/mem-ring.c
index a75c6b6..deca281 100644
--- a/src/core/mem-ring.c
+++ b/src/core/mem-ring.c
@@ -124,9 +124,10 @@ static inline bool is_aligned_to(const void *addr, size_t boundary)
     return ((uintptr_t)addr & (boundary - 1)) == 0;
 }
 
-static byte *align_for(const void *mem, size_t size)
+static byte *align_for(const void *mem, size_t size, size_t alignment)
 {
-    size_t bmask = align_boundary(size) - 1;
+    size_t bmask = MAX(align_boundary(size), alignment) - 1;
+
     return (byte *)(((uintptr_t)mem + bmask) & ~bmask);
 }
 
@@ -203,9 +204,10 @@ frame_get_next_blk(ring_pool_t *rp, size_t size)
     return blk_create(rp, size);
 }
 
-static void *rp_reserve(ring_pool_t *rp, size_t size, ring_blk_t **blkp)
+static void *rp_reserve(ring_pool_t *rp, size_t size, size_t alignment,
+                        ring_blk_t **blkp)
 {
-    byte *res = align_for(rp->pos, size);
+    byte *res = align_for(rp->pos, size, alignment);
 
     /* Note for programmers: if you abort() here, it's because you're
      * allocating in a pool where you haven't performed a r_newframe() first
@@ -248,7 +250,7 @@ static void *rp_alloc(mem_pool_t *_rp, size_t size, size_t alignment,
     }
 
     spin_lock(&rp->lock);
-    res = rp_reserve(rp, size, &rp->cblk);
+    res = rp_reserve(rp, size, alignment, &rp->cblk);
     rp->pos = res + size;
     rp->last = res;
     spin_unlock(&rp->lock);
@@ -495,7 +497,7 @@ const void *mem_ring_seal(mem_pool_t *_rp)
     ring_blk_t *blk;
 
     /* Makes a new frame */
-    frame = rp_reserve(rp, sizeof(frame_t), &blk);
+    frame = rp_reserve(rp, sizeof(frame_t), alignof(frame_t), &blk);
     ring_setup_frame(rp, blk, frame);
 
     return last;
-- 
2.43.0


From a7fc1bf085f54870bce69bf762db3b5b77942778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:18 +0000
Subject: [PATCH 040/187] fix: terminate the buffer in sb_reset_reverse

---
 src/core/str-buf.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/str-buf.h b/src/core/str-buf.h
index a33d862..03f2a2f 100644
--- a/src/core/str-buf.h
+++ b/src/core/str-buf.h
@@ -484,6 +484,9 @@ static inline void sb_reset_reverse(sb_t * nonnull sb)
     sb->skip = sb->size - 1;
     /* XXX Keep one byte for '\0'. */
     sb->size = 1;
+    if (sb->skip) {
+        sb->data[0] = '\0';
+    }
 }
 
 int sb_prependvf(sb_t * nonnull sb, const char * nonnull fmt, va_list ap)
-- 
2.43.0


From 403d3c636a34d90daaa91d627dce2697e228e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 041/187] fix: do not leave the stream when reading a padded
 block

---
 src/core/str-stream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/str-stream.h b/src/core/str-stream.h
index 0bbb5e0..af59792 100644
--- a/src/core/str-stream.h
+++ b/src/core/str-stream.h
@@ -938,7 +938,10 @@ static inline int ps_align(pstream_t * nonnull ps, uintptr_t align)
 static inline const void * nullable
 ps_get_block(pstream_t * nonnull ps, size_t len, size_t align)
 {
-    return unlikely(!ps_has(ps, len)) ? NULL : __ps_get_block(ps, len, align);
+    if (unlikely(!ps_has(ps, (len + align - 1) & ~(align - 1)))) {
+        return NULL;
+    }
+    return __ps_get_block(ps, len, align);
 }
 #define ps_get_type(ps,  type_t)    ((type_t *)ps_get_block(ps, sizeof(type_t), 1))
 #define ps_get_type2(ps, type_t)    ((type_t *)ps_get_block(ps, sizeof(type_t), 2))
-- 
2.43.0


From 4e0620fd4b5b8ccf0df44ec296067d43602ddaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 042/187] fix: do not read past the end of the text in
 ps_split_escaped

---
 src/core/str-stream.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/str-stream.c b/src/core/str-stream.c
index e69aa2f..28401e9 100644
--- a/src/core/str-stream.c
+++ b/src/core/str-stream.c
@@ -180,6 +180,9 @@ void ps_split_escaped(mem_pool_t *nullable mp, pstream_t ps,
         tmp = ps_get_cspan(&ps, &sep_esc);
         sb_add(&sb, tmp.s, tmp.s_end - tmp.s);
 
+        if (ps_done(&ps)) {
+            break;
+        }
         if (ctype_desc_contains(sep, *ps.s)) {
             if (mp) {
                 qv_append(res, mp_lstr_dup(mp, LSTR_SB_V(&sb)));
-- 
2.43.0


From c98445c0a360a4246b5bbd6cf72dd494766e6873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:19 +0000
Subject: [PATCH 043/187] fix: allocate the last token of ps_split_escaped in
 the given pool

---
 src/core/str-stream.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/str-stream.c b/src/core/str-stream.c
index 28401e9..53bf9b9 100644
--- a/src/core/str-stream.c
+++ b/src/core/str-stream.c
@@ -222,6 +222,13 @@ void ps_split_escaped(mem_pool_t *nullable mp, pstream_t ps,
     if (!(flags & PS_SPLIT_SKIP_EMPTY)  /* last character is a separator */
     ||  (sb.len != 0))                  /* last character is an escape */
     {
-        qv_append(res, t_lstr_dup(LSTR_SB_V(&sb)));
+        if (mp) {
+            qv_append(res, mp_lstr_dup(mp, LSTR_SB_V(&sb)));
+        } else {
+            lstr_t dst = LSTR_NULL;
+
+            lstr_transfer_sb(&dst, &sb, false);
+            qv_append(res, dst);
+        }
     }
 }
-- 
2.43.0


From 69fea4779844ab3ed90d00367af17ebf02e6ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:22 +0000
Subject: [PATCH 044/187] fix: do not read past the end of a blank text in
 memtoll_ext

---
 src/core/str-num.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/str-num.c b/src/core/str-num.c
index e2023e8..4b9b3c8 100644
--- a/src/core/str-num.c
+++ b/src/core/str-num.c
@@ -405,7 +405,9 @@ memtoxll_ext(const void *p, int len, bool is_signed, uint64_t *out,
         }
 
         last_char = s[len - 1];
-        if (isalnum(last_char) || last_char == '+' || last_char == '-') {
+        if (isalnum(last_char) || isspace(last_char)
+        ||  last_char == '+' || last_char == '-')
+        {
             s = t_dupz(p, len);
         }
     } else {
-- 
2.43.0


From 63b8d77a6b6c572eb35f5d27d0a9d8aa2641201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:22 +0000
Subject: [PATCH 045/187] fix: refuse all negative numbers when parsing an
 unsigned integer

---
 src/core/str-num.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/str-num.c b/src/core/str-num.c
index 4b9b3c8..180b5e9 100644
--- a/src/core/str-num.c
+++ b/src/core/str-num.c
@@ -199,7 +199,7 @@ uint64_t memtoullp(const void *s, int len, const byte **endp)
     }
 
     res = strtoull(str, &tail, 10);
-    if ((int64_t)res < 0 && mem_startswith_minus(str, tail - str)) {
+    if (res && mem_startswith_minus(str, tail - str)) {
         errno = ERANGE;
         return 0;
     }
@@ -419,7 +419,7 @@ memtoxll_ext(const void *p, int len, bool is_signed, uint64_t *out,
     } else {
         uint64_t val = strtoull(s, &tail, base);
 
-        if ((int64_t)val < 0 && mem_startswith_minus(s, tail - s)) {
+        if (val && mem_startswith_minus(s, tail - s)) {
             errno = ERANGE;
             return -1;
         }
-- 
2.43.0


From 204b09c75ccae2c73b904d420520c37dab2f0984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:22 +0000
Subject: [PATCH 046/187] fix: overflows, sign and refused large values in
 parse_number

---
 src/core/str-num.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/core/str-num.c b/src/core/str-num.c
index 180b5e9..bd16ed9 100644
--- a/src/core/str-num.c
+++ b/src/core/str-num.c
@@ -114,9 +114,15 @@ int64_t parse_number(const char *str)
     int64_t mult = 1;
     int frac = 0;
     int denom = 1;
-    int exponent;
+    long exponent;
+    bool negative = *skipspaces(str) == '-';
+    __int128 res;
 
+    errno = 0;
     value = strtoll(str, &str, 0);
+    if (errno == ERANGE) {
+        return INVALID_NUMBER;
+    }
     if (*str == '.') {
         for (str++; isdigit((unsigned char)*str); str++) {
             if (denom <= (INT_MAX / 10)) {
@@ -161,6 +167,9 @@ int64_t parse_number(const char *str)
       case 'E':
       case 'e':
         exponent = strtol(str + 1, &str, 10);
+        if (exponent < 0) {
+            return INVALID_NUMBER;
+        }
         for (; exponent > 0; exponent--) {
             if (mult > (INT64_MAX / 10))
                 return INVALID_NUMBER;
@@ -171,11 +180,12 @@ int64_t parse_number(const char *str)
     if (*str != '\0') {
         return INVALID_NUMBER;
     }
-    /* Catch most overflow cases */
-    if ((value | mult) > INT32_MAX && INT64_MAX / mult > value) {
+    res = (__int128)frac * mult / denom;
+    res = (__int128)value * mult + (negative ? -res : res);
+    if (res > INT64_MAX || res < INT64_MIN) {
         return INVALID_NUMBER;
     }
-    return value * mult + frac * mult / denom;
+    return res;
 }
 
 static bool mem_startswith_minus(const void *p, int len)
-- 
2.43.0


From e227af418f917ec91ec14844e5342025f02ce3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:22 +0000
Subject: [PATCH 047/187] fix: simplify the root directory to itself

---
 src/core/str-path.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/str-path.c b/src/core/str-path.c
index 2da91d6..851ae92 100644
--- a/src/core/str-path.c
+++ b/src/core/str-path.c
@@ -184,7 +184,7 @@ int path_simplify2(char *in, bool keep_trailing_slash)
     }
 
     start -= absolute;
-    if (!keep_trailing_slash && out > start && out[-1] == '/')
+    if (!keep_trailing_slash && out > start + absolute && out[-1] == '/')
         --out;
     if (out == start)
         *out++ = '.';
@@ -416,6 +416,10 @@ int path_relative_to(char buf[static PATH_MAX], const char *from,
 #undef BACK_DIR
     }
 
+    if (!dir_len && !rem_to[1]) {
+        /* 'to' is the root directory and 'from' is one of its entries */
+        rem_to = "/.";
+    }
     cpy_len = pstrcpy(buf, buf_len, rem_to + 1);
     THROW_ERR_IF(buf_len <= cpy_len);
 
-- 
2.43.0


From 9bbc504cdac7b1307cd705de7cb2106ecf33e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:05 +0000
Subject: [PATCH 048/187] fix: sb_urldecode: ill-formed escapes are kept as is

An ill-formed escape at the end of the buffer was copied past the end of the
buffer, and after another one, all the characters were considered as a %.
---
 src/core/str-buf-quoting.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index 9c84a34..fa7e5a3 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -400,19 +400,14 @@ void sb_urldecode(sb_t *sb)
         return;
 
     for (;;) {
-        int c;
+        int c = end - r < 3 ? -1 : hexdecode(r + 1);
 
-        if (end - r < 3) {
-            *w++ = *r++;
-            continue;
-        }
-        c = hexdecode(r + 1);
         if (c < 0) {
             *w++ = *r++;
-            continue;
+        } else {
+            *w++ = c;
+            r   += 3;
         }
-        *w++ = c;
-        r   += 3;
 
         r = memchr(tmp = r, '%', end - r);
         if (!r) {
-- 
2.43.0


From 3b6c64da591709f5f08b9305d84151b176e7fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:05 +0000
Subject: [PATCH 049/187] fix: sb_add_expandenv: keep what follows an escaped
 dollar

---
 src/core/str-buf-quoting.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index fa7e5a3..0a4704c 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -242,7 +242,7 @@ int sb_add_expandenv(sb_t *sb, const void *data, int len)
         sb_add_unslashes(sb, n.s, ps_len(&n), "$", "$");
 
         if (!has_env) {
-            break;
+            continue;
         }
 
         if (ps_skipc(&ps, '{') < 0) {
-- 
2.43.0


From d275800d7d04551533ab851fa27f41e856fc990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:06 +0000
Subject: [PATCH 050/187] fix: numeric references in sb_add_xmlunescape

Reject the ones without any digit or with a sign, and accept the ones of the
last plane of unicode.
---
 src/core/str-buf-quoting.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index 0a4704c..4e76664 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -540,21 +540,26 @@ int sb_add_xmlunescape(sb_t *sb, const void *data, int len)
 
         if (*p == '#') {
             int c = 0;
+            int base = 10;
 
-            if (semi - p > 7)
+            if (semi - p > 8)
                 goto error;
 
-            if (p[1] == 'x') {
-                for (p += 2; p < semi; p++) {
-                    c = (c << 4) | hexdigit(*p);
-                }
-                if (c < 0)
-                    goto error;
-            } else {
-                c = memtoip(p + 1, semi - p - 1, (const byte **)&p);
-                if (p != semi)
+            if (*++p == 'x') {
+                base = 16;
+                p++;
+            }
+            if (p >= semi)
+                goto error;
+            for (; p < semi; p++) {
+                int digit = hexdigit(*p);
+
+                if (digit < 0 || digit >= base)
                     goto error;
+                c = c * base + digit;
             }
+            if (c > 0x10ffff)
+                goto error;
             sb_adduc(sb, c);
         } else {
             /* &lt; &gt; &apos; &amp; &quot */
-- 
2.43.0


From 76133471dc21d77cc6a5aacd25d17033713397c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:06 +0000
Subject: [PATCH 051/187] fix: out of bounds read in sb_add_qpe with nothing to
 encode

---
 src/core/str-buf-quoting.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index 4e76664..1b283d9 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -654,7 +654,7 @@ void sb_add_qpe(sb_t *sb, const void *data, int len)
         j = i;
     }
     sb_add(sb, src + j, i - j);
-    if (sb->data[sb->len - 1] != '\n')
+    if (sb->len && sb->data[sb->len - 1] != '\n')
         sb_adds(sb, "=\r\n");
 }
 SB_DEFINE_ADDS(qpe);
-- 
2.43.0


From 533bb59d7a449892cc440d3419cc51dadd2f84ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:06 +0000
Subject: [PATCH 052/187] fix: make sb_add_csvescape thread-safe

---
 src/core/str-buf-quoting.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index 1b283d9..dccb29f 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -944,7 +944,7 @@ SB_DEFINE_ADDS_ERR(unb64url);
 
 void sb_add_csvescape(sb_t *sb, int sep, const void *data, int len)
 {
-    static ctype_desc_t ctype_needs_escape;
+    ctype_desc_t ctype_needs_escape;
     pstream_t ps = ps_init(data, len);
     pstream_t cspan;
 
-- 
2.43.0


From 187b79b7464ff54a973b708fbe3f7177a758485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:50 +0000
Subject: [PATCH 053/187] fix: terminate the strings reversed by
 mp_lstr_dup_utf8_reversed

And do not leak them when the input is not valid utf8.
---
 src/core/str-l.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/str-l.c b/src/core/str-l.c
index dc9ae46..a58baff 100644
--- a/src/core/str-l.c
+++ b/src/core/str-l.c
@@ -132,11 +132,13 @@ lstr_t mp_lstr_dup_utf8_reversed(mem_pool_t *mp, const lstr_t v)
         int c = utf8_ngetc_at(v.s, v.len, &off);
 
         if (unlikely(c < 0)) {
+            mp_delete(mp, &str);
             return LSTR_NULL_V;
         }
         memcpy(str + v.len - off, v.s + prev_off, off - prev_off);
         prev_off = off;
     }
+    str[v.len] = '\0';
     return mp_lstr_init(mp, str, v.len);
 }
 
-- 
2.43.0


From dc833ddaccddbd54cea2386553bac4645b744781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:50 +0000
Subject: [PATCH 054/187] fix: out of bounds read in sb_conv_from_ucs2[bl]e_hex

The inputs with a number of digits of the form 4n + 1 were not refused.
---
 src/core/str-conv.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/str-conv.c b/src/core/str-conv.c
index c2f9e3f..9e99950 100644
--- a/src/core/str-conv.c
+++ b/src/core/str-conv.c
@@ -787,11 +787,10 @@ static int sb_conv_from_ucs2_hex(sb_t *sb, const void *s, int slen, bool is_be)
     char *w, *wend;
     sb_t orig = *sb;
 
-    slen /= 2;
-    if (slen & 1)
+    if (slen & 3)
         return -1;
 
-    w    = sb_grow(sb, slen / 2);
+    w    = sb_grow(sb, slen / 4);
     wend = w + sb_avail(sb);
 
     while (p < end) {
-- 
2.43.0


From 42f31ce2094f0aaaa1b058867f137603ef8735a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:50 +0000
Subject: [PATCH 055/187] fix: keep the characters above U+FFFF in
 sb_normalize_utf8

They were refused, and lstr_utf8_endswith and lstr_utf8_iendswith returned
the error code as a true boolean: a string holding an emoji was said to end
with anything.
---
 src/core/str-conv.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/str-conv.c b/src/core/str-conv.c
index 9e99950..5c02971 100644
--- a/src/core/str-conv.c
+++ b/src/core/str-conv.c
@@ -834,7 +834,6 @@ int sb_conv_from_ucs2le_hex(sb_t *sb, const void *s, int slen)
 static int sb_normalize_utf8_(sb_t *sb, const char *s, int len,
                               uint32_t const str_conv[], int str_conv_len)
 {
-    sb_t orig = *sb;
     int off = 0;
     char *pos;
     char *end;
@@ -855,7 +854,14 @@ static int sb_normalize_utf8_(sb_t *sb, const char *s, int len,
             c = s[off++];
         }
         if (c > 0xffff) {
-            return __sb_rewind_adds(sb, &orig);
+            /* large characters have no collation, keep them */
+            if (end - pos < 4) {
+                __sb_fixlen(sb, pos - sb->data);
+                pos = sb_grow(sb, len - off + 4);
+                end = pos + sb_avail(sb);
+            }
+            pos += __pstrputuc(pos, c);
+            continue;
         }
 
         if (c < str_conv_len) {
-- 
2.43.0


From a5c2f8717423fa932a371246b522300276af0b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:42 +0000
Subject: [PATCH 056/187] fix: read a double for %lf, %le and %lg in the
 formatting engine

On 64-bit systems, the types flags of 'l' and 'L' are the same value, so
that the 'l' modifier, that has no effect on floating-point conversions in
standard C, made the engine fetch a long double.
---
 src/core/str-iprintf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/str-iprintf.c b/src/core/str-iprintf.c
index 7425661..6f4a61e 100644
--- a/src/core/str-iprintf.c
+++ b/src/core/str-iprintf.c
@@ -558,6 +558,7 @@ static int fmt_output(FILE *stream, char *str, size_t size,
     int left_pad, prefix_len, zero_pad, right_pad;
     const char *lp;
     int sign;
+    bool is_ldouble;
     int save_errno = errno;
 
     if (size > INT_MAX) {
@@ -732,6 +733,7 @@ static int fmt_output(FILE *stream, char *str, size_t size,
 
         /* parse optional format modifiers */
         type_flags = 0;
+        is_ldouble = false;
         switch (*format) {
         case '\0':
             goto error;
@@ -767,6 +769,7 @@ static int fmt_output(FILE *stream, char *str, size_t size,
             break;
         case 'L':
             type_flags |= TYPE_ldouble;
+            is_ldouble = true;
             format++;
             break;
         }
@@ -1214,7 +1217,7 @@ static int fmt_output(FILE *stream, char *str, size_t size,
 #endif
 
                 /* fetch double value */
-                if (type_flags == TYPE_ldouble) {
+                if (is_ldouble) {
                     fpvalue = (double)va_arg(ap, long double);
                 } else {
                     fpvalue = va_arg(ap, double);
-- 
2.43.0


From f79c15b31ff55447b0ee209ba8575c17364192f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:42 +0000
Subject: [PATCH 057/187] fix: print %F in fixed notation

The conversions after the fetch of the value only know about 'f', so that
%F was printed as an exponent format.
---
 src/core/str-iprintf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/str-iprintf.c b/src/core/str-iprintf.c
index 6f4a61e..d0443f1 100644
--- a/src/core/str-iprintf.c
+++ b/src/core/str-iprintf.c
@@ -1227,6 +1227,9 @@ static int fmt_output(FILE *stream, char *str, size_t size,
                 dprec = 0;
                 sign = 0;
 
+                if (c == 'F') {
+                    c = 'f';
+                }
                 if ((flags & FLAG_PREC) == 0) {
                     prec = 6;
                 } else
-- 
2.43.0


From 4a9e866b0fabb7ee226c09e238f7d6a080ea81c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:42 +0000
Subject: [PATCH 058/187] fix: convert the argument of %hhd to a signed
 character

The library is built with -funsigned-char, so that %hhd of -1 was printed
255.
---
 src/core/str-iprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/str-iprintf.c b/src/core/str-iprintf.c
index d0443f1..e8175d8 100644
--- a/src/core/str-iprintf.c
+++ b/src/core/str-iprintf.c
@@ -859,7 +859,7 @@ static int fmt_output(FILE *stream, char *str, size_t size,
                 int int_value;
 
               case TYPE_char:
-                int_value = (char)va_arg(ap, int);
+                int_value = (signed char)va_arg(ap, int);
                 goto convert_int;
 
               case TYPE_short:
@@ -912,7 +912,7 @@ static int fmt_output(FILE *stream, char *str, size_t size,
                 int int_value;
 
               case TYPE_char:
-                int_value = (char)va_arg(ap, int);
+                int_value = (signed char)va_arg(ap, int);
                 goto convert_quoted_int;
 
               case TYPE_short:
-- 
2.43.0


From b2c30ee97deb69d19621b880240dfe9828eb156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:42 +0000
Subject: [PATCH 059/187] fix: ignore a negative starred precision

Standard C takes it as if the precision were omitted, it was taken as
zero.
---
 src/core/str-iprintf.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/str-iprintf.c b/src/core/str-iprintf.c
index e8175d8..261420d 100644
--- a/src/core/str-iprintf.c
+++ b/src/core/str-iprintf.c
@@ -717,10 +717,9 @@ static int fmt_output(FILE *stream, char *str, size_t size,
                 format++;
                 prec = va_arg(ap, int);
                 if (prec < 0) {
-                    /* OG: should be treated as if precision were
-                     * omitted, ie: prec = 1, flags &= ~FLAG_PREC
-                     */
-                    prec = 0;
+                    /* As if the precision were omitted. */
+                    prec = 1;
+                    flags &= ~FLAG_PREC;
                 }
             } else
             if (*format >= '0' && *format <= '9') {
-- 
2.43.0


From c07d8d2996dab3deec53062f0033887112a7c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:42 +0000
Subject: [PATCH 060/187] fix: do not share the powers of 5 of dtoa between
 threads

The elements of the list are allocated in the private memory and free lists
of the thread that first needs them: they were used by other threads while
being linked, and after the exit of that thread.
---
 src/core/str-dtoa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-dtoa.c b/src/core/str-dtoa.c
index 29392f7..dc7a971 100644
--- a/src/core/str-dtoa.c
+++ b/src/core/str-dtoa.c
@@ -837,7 +837,7 @@ mult
     return c;
 }
 
-static Bigint *p5s;
+static __thread Bigint *p5s;
 
 static Bigint *
 pow5mult
-- 
2.43.0


From 6fce740f1c4b9ceee206dc4f4e10bc0c361842f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:42 +0000
Subject: [PATCH 061/187] fix: do not read past the input in
 qlzo1x_decompress_safe

The small literal copies read 4 bytes even when fewer remain in the input.
---
 src/core/qlzo-d.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/qlzo-d.c b/src/core/qlzo-d.c
index 89f257d..7d0e12a 100644
--- a/src/core/qlzo-d.c
+++ b/src/core/qlzo-d.c
@@ -54,14 +54,15 @@ int lzo_copy_input(pstream_t *in, ostream_t *os, unsigned sz)
 
 /* XXX: assumes sz <= 4 */
 static ALWAYS_INLINE
-int lzo_copy_input_small(pstream_t *in, ostream_t *os, unsigned sz)
+int lzo_copy_input_small(pstream_t *in, ostream_t *os, unsigned sz,
+                         bool safe)
 {
     const uint8_t *src = in->b;
     uint8_t *dst = os->b;
 
     if (unlikely(!ps_has(in, sz)))
         return LZO_ERR_INPUT_OVERRUN;
-    if (likely(dst + 4 <= os->b_end)) {
+    if (likely(dst + 4 <= os->b_end && (!safe || ps_has(in, 4)))) {
         put_unaligned_cpu32(dst, get_unaligned_cpu32(src));
     } else {
         if (unlikely(dst + sz > os->b_end))
@@ -199,7 +200,7 @@ static ssize_t decompress(void *_out, size_t outlen, pstream_t in, bool safe)
         }
 
         while ((sz = (u & 3))) {
-            RETHROW(lzo_copy_input_small(&in, &os, sz));
+            RETHROW(lzo_copy_input_small(&in, &os, sz, safe));
             SAFE_CHECK_LEN(1);
             if ((u = in.b[0]) >= LZO_M4_MARKER)
                 goto match_2to4;
-- 
2.43.0


From 3d5df5cb112f28e4cd605ff67a8914100b901dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:42 +0000
Subject: [PATCH 062/187] fix: forget the consumed tail in
 murmur_hash3_x64_128_finish

When an update completed the pending block exactly, the block was both hashed
and hashed again as a tail.
---
 src/crypto/hash.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypto/hash.c b/src/crypto/hash.c
index 422f147..a5d9425 100644
--- a/src/crypto/hash.c
+++ b/src/crypto/hash.c
@@ -685,7 +685,9 @@ void murmur_hash3_x64_128_finish(murmur_hash3_x64_128_ctx_t *ctx,
     uint64_t h2 = ctx->h2;
 
     /* Tail */
-    __murmur_hash3_x64_128_process_tail(ctx->tail, &h1, &h2);
+    if (ctx->tail_len) {
+        __murmur_hash3_x64_128_process_tail(ctx->tail, &h1, &h2);
+    }
 
     /* Finalization */
     __murmur_hash3_x64_128_finalize(h1, h2, ctx->len, out);
-- 
2.43.0


From fe144fa106dfdcbe6ca06314eb457e025d33c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:08 +0000
Subject: [PATCH 063/187] fix: make room for the last block in
 ssl_{encrypt,decrypt}_finish

An update that completes a pending block outputs more than its input, hence
the room left by the last update may be smaller than a block: the end of the
message was written out of the buffer.
---
 src/crypto/ssl.blk | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/crypto/ssl.blk b/src/crypto/ssl.blk
index 85d1615..b68ce25 100644
--- a/src/crypto/ssl.blk
+++ b/src/crypto/ssl.blk
@@ -315,11 +315,13 @@ int ssl_encrypt_update(ssl_ctx_t *ctx, lstr_t data, sb_t *out)
 int ssl_encrypt_finish(ssl_ctx_t *ctx, sb_t *out)
 {
     int outlen = 0;
+    unsigned char *cbuf;
 
     assert (ctx->encrypt_state == SSL_CTX_UPDATE);
-    assert (sb_avail(out) >= EVP_CIPHER_CTX_block_size(ctx->encrypt));
-    if (unlikely(!EVP_EncryptFinal_ex(ctx->encrypt,
-                                      (unsigned char *)sb_end(out), &outlen)))
+
+    cbuf = (unsigned char *)sb_grow(out,
+                                    EVP_CIPHER_CTX_block_size(ctx->encrypt));
+    if (unlikely(!EVP_EncryptFinal_ex(ctx->encrypt, cbuf, &outlen)))
     {
         ctx->encrypt_state = SSL_CTX_NONE;
         return ssl_set_error("encrypt finalization error");
@@ -384,11 +386,13 @@ int ssl_decrypt_update(ssl_ctx_t *ctx, lstr_t data, sb_t *out)
 int ssl_decrypt_finish(ssl_ctx_t *ctx, sb_t *out)
 {
     int outlen = 0;
+    unsigned char *cbuf;
 
     assert (ctx->decrypt_state == SSL_CTX_UPDATE);
 
-    if (unlikely(!EVP_DecryptFinal_ex(ctx->decrypt,
-                                      (unsigned char *)sb_end(out), &outlen)))
+    cbuf = (unsigned char *)sb_grow(out,
+                                    EVP_CIPHER_CTX_block_size(ctx->decrypt));
+    if (unlikely(!EVP_DecryptFinal_ex(ctx->decrypt, cbuf, &outlen)))
     {
         ctx->decrypt_state = SSL_CTX_NONE;
         return ssl_set_error("decrypt finalization error");
-- 
2.43.0


From 5d17ba4a2419e39f62ac1f8b37211c24a8a7968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:22 +0000
Subject: [PATCH 064/187] fix: suppress the trailing zeros of rounded integers
 in dtoa

When a small integer is rounded down to a number of digits that ends with
zeros, they were kept: %.5g of 999904 was printed 9.9990e+05.
---
 src/core/str-dtoa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/str-dtoa.c b/src/core/str-dtoa.c
index dc7a971..dbdcfa6 100644
--- a/src/core/str-dtoa.c
+++ b/src/core/str-dtoa.c
@@ -2709,6 +2709,10 @@ double _d_; int mode, ndigits, *decpt, *sign; char **rve;
                         }
                     }
                     ++*s++;
+                } else {
+                    while (*--s == '0')
+                        continue;
+                    s++;
                 }
                 break;
             }
-- 
2.43.0


From 93bfd4627f26e3678879e1a7997f9d407bb1c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:27 +0000
Subject: [PATCH 065/187] fix: keep the inner zeros of 128-bit integers printed
 in base 10

The number is printed by groups of 19 digits, and the low groups were printed
without their leading zeros.
---
 src/core/str-iprintf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/str-iprintf.c b/src/core/str-iprintf.c
index 261420d..05c35fd 100644
--- a/src/core/str-iprintf.c
+++ b/src/core/str-iprintf.c
@@ -275,8 +275,13 @@ static char *convert_uint128(char *p, uint128_t value, int base)
         while (value > UINT64_MAX) {
             uint128_t quot = value / MAX_P10_U64;
             uint64_t rem = value - quot * MAX_P10_U64;
+            char *end = p - 19;
+
             value = quot;
             p = convert_ulong(p, rem, 10);
+            while (p > end) {
+                *--p = '0';
+            }
         }
         return convert_ulong(p, value, 10);
     } else
-- 
2.43.0


From 3630191dd01c77b48c1ccd119d08fdea6d8766a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 066/187] fix: print the sign of time zone offsets shorter than
 an hour

The sign was carried by the number of hours only, hence a local time 30
minutes behind UTC was printed with the +00:30 offset.
---
 src/datetime.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/datetime.h b/src/datetime.h
index e50282a..8cb0bec 100644
--- a/src/datetime.h
+++ b/src/datetime.h
@@ -339,21 +339,31 @@ lstr_t t_get_time_split_lstr_fr(uint64_t seconds)
 #define ISO8601_GMT_MSEC_FMT_ARG(tm, msec)                                   \
     ISO8601_BASE_MSEC_FMT_ARG(tm, msec)
 
+#define ISO8601_DELTA_FMT_ARG(delta_h, delta_m)                              \
+    ((delta_h) < 0 || (delta_m) < 0 ? '-' : '+'), abs(delta_h), abs(delta_m)
+
 #define ISO8601_TZ_FMT                                                       \
-    ISO8601_BASE_FMT "%+03d:%02d"
+    ISO8601_BASE_FMT "%c%02d:%02d"
 #define ISO8601_TZ_FMT_ARG(tm, delta_h, delta_m)                             \
-    ISO8601_BASE_FMT_ARG(tm), (delta_h), (delta_m)
+    ISO8601_BASE_FMT_ARG(tm), ISO8601_DELTA_FMT_ARG(delta_h, delta_m)
 
 #define ISO8601_TZ_MSEC_FMT                                                  \
-    ISO8601_BASE_MSEC_FMT "%+03d:%02d"
+    ISO8601_BASE_MSEC_FMT "%c%02d:%02d"
 #define ISO8601_TZ_MSEC_FMT_ARG(tm, msec, delta_h, delta_m)                  \
-    ISO8601_BASE_MSEC_FMT_ARG(tm, msec), (delta_h), (delta_m)
+    ISO8601_BASE_MSEC_FMT_ARG(tm, msec),                                     \
+    ISO8601_DELTA_FMT_ARG(delta_h, delta_m)
 
+/* XXX: the minutes are negative only when the delta is negative and shorter
+ *      than an hour, since the hours are then 0.
+ */
 static inline void
 time_get_gmt_delta(const struct tm *tm, int *delta_h, int *delta_m)
 {
     *delta_h = tm->tm_gmtoff / 3600;
-    *delta_m = labs(tm->tm_gmtoff - *delta_h * 3600) / 60;
+    *delta_m = (tm->tm_gmtoff - *delta_h * 3600) / 60;
+    if (*delta_h) {
+        *delta_m = abs(*delta_m);
+    }
 }
 
 /* XXX: Array parameter qualifiers are not supported in C++98. */
-- 
2.43.0


From b09c363215df7a7a0b0ae9dae7e5d1e5f7571b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:16 +0000
Subject: [PATCH 067/187] fix: do not read past the text of a time zone that is
 a lone sign

---
 src/core/datetime-iso8601.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/datetime-iso8601.c b/src/core/datetime-iso8601.c
index 2e23380..1b2c1da 100644
--- a/src/core/datetime-iso8601.c
+++ b/src/core/datetime-iso8601.c
@@ -69,7 +69,7 @@ static int time_parse_timezone(pstream_t *ps, int *tz_h, int *tz_m)
         PS_WANT(sgn == '+' || sgn == '-');
 
         errno = 0;
-        PS_WANT(isdigit(ps->b[0]));
+        PS_WANT(ps_has(ps, 1) && isdigit(ps->b[0]));
         if (ps_len(ps) == 5) {
             *tz_h = ps_geti(ps);
             PS_WANT(errno == 0 && ps_len(ps) == 3);
-- 
2.43.0


From 32a172f47ccf030946c8d464f258211c8e07f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 068/187] fix: return the first instant of the days whose
 midnight is changed

When a daylight saving change takes place at midnight, this midnight exists
twice or does not exist, and mktime() picks the second one or an instant of
the previous day: the localtime_*day/week/month/year functions returned it
instead of the start of the day.
---
 src/core/datetime.c | 48 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/core/datetime.c b/src/core/datetime.c
index c44850d..df23062 100644
--- a/src/core/datetime.c
+++ b/src/core/datetime.c
@@ -303,6 +303,40 @@ time_t localtime_nexthour(time_t date)
     return mktime(&t);
 }
 
+/** Replacement of mktime() for the start of a day.
+ *
+ * Because of daylight saving changes, midnight can exist twice or not exist at
+ * all, so that both interpretations of it have to be considered: the expected
+ * instant is the first one that belongs to the day.
+ */
+static time_t mktime_day_start(const struct tm *day)
+{
+    struct tm ref = *day;
+    time_t res = TIME_T_ERROR;
+
+    /* Normalize the day. */
+    IGNORE(timegm(&ref));
+
+    for (int isdst = 0; isdst <= 1; isdst++) {
+        struct tm t = ref;
+        time_t ts;
+
+        t.tm_isdst = isdst;
+        ts = mktime(&t);
+        if (t.tm_year == ref.tm_year && t.tm_yday == ref.tm_yday
+        &&  (res == TIME_T_ERROR || ts < res))
+        {
+            res = ts;
+        }
+    }
+    if (res == TIME_T_ERROR) {
+        ref.tm_isdst = -1;
+        res = mktime(&ref);
+    }
+
+    return res;
+}
+
 time_t localtime_curday(time_t date)
 {
     struct tm t;
@@ -314,7 +348,7 @@ time_t localtime_curday(time_t date)
     t.tm_hour = 0;
     t.tm_isdst = -1;
 
-    return mktime(&t);
+    return mktime_day_start(&t);
 }
 
 time_t localtime_addday(time_t date, int n)
@@ -347,7 +381,7 @@ time_t localtime_addday(time_t date, int n)
     t.tm_mday += n;
     t.tm_isdst = -1;
 
-    return mktime(&t);
+    return mktime_day_start(&t);
 }
 
 time_t localtime_nextday(time_t date)
@@ -367,7 +401,7 @@ time_t localtime_curweek(time_t date, int first_day_of_week)
     t.tm_mday -= (7 + t.tm_wday - first_day_of_week) % 7;
     t.tm_isdst = -1;
 
-    return mktime(&t);
+    return mktime_day_start(&t);
 }
 
 time_t localtime_nextweek(time_t date, int first_day_of_week)
@@ -383,7 +417,7 @@ time_t localtime_nextweek(time_t date, int first_day_of_week)
     t.tm_mday += 7;
     t.tm_isdst = -1;
 
-    return mktime(&t);
+    return mktime_day_start(&t);
 }
 
 time_t localtime_curmonth(time_t date)
@@ -398,7 +432,7 @@ time_t localtime_curmonth(time_t date)
     t.tm_mday = 1;
     t.tm_isdst = -1;
 
-    return mktime(&t);
+    return mktime_day_start(&t);
 }
 
 time_t localtime_curyear(time_t date)
@@ -414,7 +448,7 @@ time_t localtime_curyear(time_t date)
     t.tm_mon  = 0;
     t.tm_isdst = -1;
 
-    return mktime(&t);
+    return mktime_day_start(&t);
 }
 
 time_t localtime_nextmonth(time_t date)
@@ -430,7 +464,7 @@ time_t localtime_nextmonth(time_t date)
     t.tm_mon += 1;
     t.tm_isdst = -1;
 
-    return mktime(&t);
+    return mktime_day_start(&t);
 }
 
 static const char * const __abbr_months[] = {
-- 
2.43.0


From 4cb472af4fb1904be126874804d651aeadaf2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:44 +0000
Subject: [PATCH 069/187] fix: normalize the result of timeval_addmsec of a
 negative delay

---
 src/datetime.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/datetime.h b/src/datetime.h
index 8cb0bec..b2dc7e0 100644
--- a/src/datetime.h
+++ b/src/datetime.h
@@ -593,6 +593,10 @@ static inline struct timeval timeval_addmsec(struct timeval a, int64_t msec)
     if (res.tv_usec >= 1000 * 1000) {
         res.tv_sec += 1;
         res.tv_usec -= 1000 * 1000;
+    } else
+    if (res.tv_usec < 0) {
+        res.tv_sec -= 1;
+        res.tv_usec += 1000 * 1000;
     }
     return res;
 }
-- 
2.43.0


From 589e74713ac8785b613a3a5a41e8f8da6e823089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:05 +0000
Subject: [PATCH 070/187] fix: do not touch a serial queue once its drain has
 ended

---
 src/core/thr-job.blk | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/core/thr-job.blk b/src/core/thr-job.blk
index 14eff80..07afede 100644
--- a/src/core/thr-job.blk
+++ b/src/core/thr-job.blk
@@ -602,16 +602,23 @@ static void thr_queue_drain(thr_queue_t *q)
     id = thr_id();
     atomic_store(&q->running_on, id);
     mpsc_queue_drain_start(&it, &q->q);
-    do {
+    for (;;) {
         mpsc_node_t *m = mpsc_queue_drain_fast(&it, &thr_queue_run_node,
                                                (data_t){ .ptr = NULL });
         thr_qnode_t *n = thr_qnode_of(m);
 
         job_run(n->job, n->syn);
         wipe = (n->job == &q->destroy);
-    } while (!mpsc_queue_drain_end(&it, &thr_qnode_destroy));
-    atomic_compare_exchange_strong(&q->running_on, &id,
-                                   THR_QUEUE_NOT_RUNNING);
+
+        /* XXX as soon as the drain has ended, another thread may run the
+         * queue and delete it, so don't touch it after that.
+         */
+        atomic_store(&q->running_on, THR_QUEUE_NOT_RUNNING);
+        if (mpsc_queue_drain_end(&it, &thr_qnode_destroy)) {
+            break;
+        }
+        atomic_store(&q->running_on, id);
+    }
 
     if (wipe) {
         thr_queue_delete(&q);
-- 
2.43.0


From 5d30626dc21c9c641089e1d656f6d0f32d240052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:56 +0000
Subject: [PATCH 071/187] fix: keep the timers sorted when a repeated timer
 gets a lower tolerance

---
 src/core/el.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index 283b103..14b63c2 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -1108,7 +1108,7 @@ static void el_timer_process(uint64_t until)
 
                 ev->timer.expiry += ROUND_UP(delta, (uint64_t)ev->timer.repeat);
             }
-            __qhp_down(timer, &_G.timers, ev->timer.heappos);
+            qhp_fixup(timer, &_G.timers, ev->timer.heappos);
         } else
         if (!EV_FLAG_HAS(ev, TIMER_UPDATED)) {
             el_timer_unregister(&ev);
-- 
2.43.0


From f58fc22277a6a80deb3ed3e0abc5322533c2f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:21 +0000
Subject: [PATCH 072/187] fix: do not leave dangling links in the descriptors
 marked as fired

---
 src/core/el.blk | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index 14b63c2..8d2c43f 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -1473,24 +1473,17 @@ int el_fd_loop(ev_t *ev, int timeout, ev_fd_loop_flags_t flags)
 
 static void el_fd_process_fired(void)
 {
-    uint8_t generation;
-
-    if (dlist_is_empty(&_G.fired)) {
-        return;
-    }
+    DLIST(fired);
 
-    generation = ev_cache_list(&_G.fired);
-
-    dlist_init(&_G.fired);
-    tab_for_each_entry(ev, &_G.cache) {
-        EV_FLAG_RST(ev, FD_FIRED);
-    }
-    tab_for_each_entry(ev, &_G.cache) {
-        if (ev->generation != generation) {
-            continue;
-        }
+    /* The events still linked to the list can be unregistered, and nested
+     * loops can be run, by the callbacks. */
+    dlist_splice(&fired, &_G.fired);
+    while (!dlist_is_empty(&fired)) {
+        ev_t *ev = dlist_first_entry(&fired, ev_t, ev_list);
 
         CHECK_EV_TYPE(ev, EV_FD);
+        EV_FLAG_RST(ev, FD_FIRED);
+        dlist_remove(&ev->ev_list);
         el_fd_fire(ev, POLLIN);
     }
 }
-- 
2.43.0


From 632ea608d917bcd9995b0b352e8f7b2c1e3e3ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:21 +0000
Subject: [PATCH 073/187] fix: deliver a signal to all its handlers when one
 runs a nested loop

---
 src/core/el.blk | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index 8d2c43f..37ac726 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -608,7 +608,8 @@ static void el_sighandler(int signum, siginfo_t *siginfo, void *ctx)
 
 static void el_signal_process(void)
 {
-    uint8_t generation;
+    t_scope;
+    qv_t(ev) sigs;
     uint32_t gotsigs = _G.gotsigs;
     struct timeval now;
 
@@ -618,16 +619,19 @@ static void el_signal_process(void)
     _G.gotsigs &= ~gotsigs;
     lp_gettv(&now);
 
-    generation = ev_cache_list(&_G.sigs);
-    tab_for_each_entry(ev, &_G.cache) {
+    /* The callbacks can run nested loops, that use _G.cache. */
+    t_qv_init(&sigs, 8);
+    dlist_for_each_entry(ev_t, ev, &_G.sigs, ev_list) {
+        qv_append(&sigs, ev);
+    }
+    tab_for_each_entry(ev, &sigs) {
         int signo;
 
-        if (ev->generation != generation) {
+        if (ev->type != EV_SIGNAL) {
+            /* ev has been unregistered by a previous ev on the list. */
             continue;
         }
 
-        CHECK_EV_TYPE(ev, EV_SIGNAL);
-
         signo = ev->signo;
         if (gotsigs & (1 << signo)) {
             if (signal_is_terminating(signo)) {
-- 
2.43.0


From 64a634054623b86a23a0973a3d1608aa6fd44f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:21 +0000
Subject: [PATCH 074/187] fix: do not abort when the generation wraps in nested
 loops

---
 src/core/el.blk | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index 37ac726..e7aa141 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -403,8 +403,9 @@ static void el_before_process(void)
             continue;
         }
 
-        if (ev->type == EV_UNUSED) {
-            /* ev has been unregistered by a previous ev on the list.
+        if (ev->type != EV_BEFORE && ev->type != EV_CHILD) {
+            /* ev has been unregistered by a previous ev on the list, or the
+             * generation has wrapped in a nested loop.
              */
             continue;
         }
@@ -461,11 +462,10 @@ static void el_idle_process(uint64_t now)
         last_run = now;
 
         tab_for_each_entry(ev, &_G.cache) {
-            if (ev->generation != generation) {
+            if (ev->generation != generation || ev->type != EV_IDLE) {
                 continue;
             }
 
-            CHECK_EV_TYPE(ev, EV_IDLE);
             if (EV_FLAG_HAS(ev, IS_BLK)) {
                 ev->cb.cb_blk(ev);
             } else {
@@ -1564,11 +1564,10 @@ static void el_loop_proxies(void)
     tab_for_each_entry(ev, &_G.cache) {
         int avail;
 
-        if (ev->generation != generation) {
+        if (ev->generation != generation || ev->type != EV_PROXY) {
             continue;
         }
 
-        CHECK_EV_TYPE(ev, EV_PROXY);
         avail = ev->events_avail;
         if (likely(avail & ev->events_wanted)) {
             if (EV_FLAG_HAS(ev, IS_BLK)) {
-- 
2.43.0


From 53e00f2bb29991eec8f47cf771605492563ca350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:42 +0000
Subject: [PATCH 075/187] fix: let the callback of a dead child unregister
 another dead one

---
 src/core/el.blk | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/el.blk b/src/core/el.blk
index e7aa141..23d0db3 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -720,6 +720,7 @@ static void el_sigchld_hook(ev_t *ev, int signo, data_t priv)
             ev_assoc.child = _G.childs.values[pos];
             if (likely(ev_assoc.child)) {
                 ev_assoc.child->child.status = status;
+                ev_assoc.child->child.has_exited = true;
             }
             qv_append(&ev_assocs, ev_assoc);
             qm_del_at(ev_assoc, &_G.childs, pos);
@@ -730,6 +731,10 @@ static void el_sigchld_hook(ev_t *ev, int signo, data_t priv)
 
     tab_for_each_ptr(ev_assoc, &ev_assocs) {
         if (likely(ev_assoc->child)) {
+            if (ev_assoc->child->type != EV_CHILD) {
+                /* It has been unregistered by the callback of another one. */
+                continue;
+            }
             el_child_fire(&ev_assoc->child);
         } else {
             MODULE_METHOD_RUN_INT(at_fork_on_child_terminated, ev_assoc->pid);
-- 
2.43.0


From ae281bbd078bef98381956a119af61b9003ba5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:17 +0000
Subject: [PATCH 076/187] fix: estimate the size of a decoded HPACK value from
 its own encoding

---
 src/net/hpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 33b71f9..9cb1ed4 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -987,7 +987,7 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
         }
         val = __ps_get_ps(in, len);
         /* XXX: huffman encoding maximum compression ratio: 5/8 */
-        vallen = (flags & XHDR_RAW_KEY) ? len : 2u * len;
+        vallen = (flags & XHDR_RAW_VAL) ? len : 2u * len;
     }
     if (add_dtbl) {
         flags |= XHDR_ADD_DTBL;
-- 
2.43.0


From 60b87bafcf1f70057f9da1074586b5d891e9f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:17 +0000
Subject: [PATCH 077/187] fix: do not read past the end of truncated HPACK
 headers

---
 src/net/hpack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 9cb1ed4..8859a20 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -954,6 +954,9 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
     if (!idx) {
         /* New Name (key) */
         flags |= XHDR_NEW_KEY;
+        if (ps_done(in)) {
+            return LOGE("unable to decode the key length");
+        }
         flags = in->b[0] < 0x80 ? flags | XHDR_RAW_KEY : flags;
         if (hpack_decode_int(in, 7, &len)) {
             return LOGE("unable to decode the key length");
@@ -978,6 +981,9 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
     }
     if (new_val) {
         flags |= XHDR_NEW_VAL;
+        if (ps_done(in)) {
+            return LOGE("unable to decode the value length");
+        }
         flags = in->b[0] < 0x80 ? flags | XHDR_RAW_VAL : flags;
         if (hpack_decode_int(in, 7, &len)) {
             return LOGE("unable to decode the value length");
-- 
2.43.0


From 980888e8fa537b36cd7e57f307446540bff7efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:17 +0000
Subject: [PATCH 078/187] fix: do not share an HPACK key with an entry that
 does not own it

---
 src/net/hpack.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 8859a20..42d7485 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -1073,8 +1073,12 @@ int hpack_decoder_write_hdr(hpack_dec_dtbl_t *dtbl, hpack_xhdr_t *xhdr,
             key = lstr_dup(key);
         } else if (ent) {
             /* new entry in the dyn. table with the same key, old entry loses
-             * ownership of the string buffer. */
-            ent->key = lstr_dupc(key);
+             * ownership of the string buffer, if it has it. */
+            if (ent->key.mem_pool == MEM_STATIC) {
+                key = lstr_dup(key);
+            } else {
+                ent->key = lstr_dupc(key);
+            }
         }
         val = lstr_dup(val);
         hpack_dec_dtbl_add_hdr(dtbl, key, val);
-- 
2.43.0


From 9520dab5fca819d82f1e5719efe6c2f30fbaed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:17 +0000
Subject: [PATCH 079/187] fix: allow the eviction of HPACK entries without
 value identifier

---
 src/net/hpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 42d7485..240f4b9 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -533,7 +533,7 @@ static void hpack_enc_dtbl_evict_last_entry(hpack_enc_dtbl_t *dtbl)
     }
     assert(dtbl->tbl_size >= e.sz);
     dtbl->tbl_size -= e.sz;
-    assert(!e.mre_key || e.mre_val);
+    assert(!e.mre_key || e.mre_val || !e.val_id);
     if (e.mre_key) {
         assert(e.key_id);
         qm_del_key(hpack_insertion_idx, &dtbl->ins_idx, e.key_id);
-- 
2.43.0


From 02b1cd3f9255356c64facf60708493031ec11b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:14 +0000
Subject: [PATCH 080/187] fix: refuse BER bit strings without unused bits octet

---
 src/asn1/writer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/asn1/writer.c b/src/asn1/writer.c
index a8146f9..6a80b03 100644
--- a/src/asn1/writer.c
+++ b/src/asn1/writer.c
@@ -1133,6 +1133,12 @@ static int asn1_unpack_value(pstream_t *ps, const asn1_field_t *spec,
         e_trace_hex(4, "value:", field_ps.s, (int)ps_len(&field_ps));
         break;
       case ASN1_OBJ_TYPE(asn1_bit_string_t):
+        if (ps_done(&field_ps) || *field_ps.b > 7
+        ||  (*field_ps.b && ps_len(&field_ps) == 1))
+        {
+            e_trace(1, "invalid bit string");
+            return -1;
+        }
         if (copy) {
             ((asn1_bit_string_t *)dt)->data = mp_dup(mem_pool, field_ps.b + 1,
                                                      ps_len(&field_ps) - 1);
-- 
2.43.0


From 12af6df833992007441470748f92e6966860ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:14 +0000
Subject: [PATCH 081/187] fix: unpack the untagged choices that are
 alternatives of a choice

---
 src/asn1/writer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/asn1/writer.c b/src/asn1/writer.c
index 6a80b03..c040262 100644
--- a/src/asn1/writer.c
+++ b/src/asn1/writer.c
@@ -1306,6 +1306,11 @@ static int asn1_unpack_field(pstream_t *ps, const asn1_field_t *spec,
     return 0;
 }
 
+static int
+asn1_unpack_untagged_choice(pstream_t *ps, const asn1_field_t *choice_spec,
+                            mem_pool_t *mem_pool, int depth, void *st,
+                            bool copy);
+
 static int asn1_unpack_choice(pstream_t *ps, const asn1_desc_t *_desc,
                               mem_pool_t *mem_pool, int depth, void *st,
                               bool copy, bool indef_len)
@@ -1332,6 +1337,10 @@ static int asn1_unpack_choice(pstream_t *ps, const asn1_desc_t *_desc,
     spec = &desc->desc.fields.tab[choice];
     __asn1_set_int(st, selector_spec, choice);
     e_trace_desc(1, "unpacking", &desc->desc, choice, depth);
+    if (spec->type == ASN1_OBJ_TYPE(UNTAGGED_CHOICE)) {
+        return asn1_unpack_untagged_choice(ps, spec, mem_pool, depth, st,
+                                           copy);
+    }
     RETHROW(asn1_unpack_field(ps, spec, mem_pool, depth, st, copy,
                               indef_len));
 
-- 
2.43.0


From 3cc2f82371f964880e5d300e27bcb72bb89d616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:14 +0000
Subject: [PATCH 082/187] fix: unpack all kinds of alternatives in sequences of
 untagged choices

---
 src/asn1/writer.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/asn1/writer.c b/src/asn1/writer.c
index c040262..9ec6807 100644
--- a/src/asn1/writer.c
+++ b/src/asn1/writer.c
@@ -1429,9 +1429,8 @@ asn1_unpack_seq_of_u_choice(pstream_t *ps, const asn1_field_t *choice_spec,
     asn1_alloc_seq_of(st, len, choice_spec, mem_pool);
 
     for (int i = 0; i < len; i++) {
-        int choice = asn1_find_choice(choice_desc, *ps->b);
-        const asn1_field_t *spec = &choice_desc->desc.fields.tab[choice];
         void *choice_st;
+
         if (choice_spec->pointed) {
             choice_st = GET_PTR(st, choice_spec, asn1_void_array_t)->data[i];
         } else {
@@ -1440,11 +1439,8 @@ asn1_unpack_seq_of_u_choice(pstream_t *ps, const asn1_field_t *choice_spec,
               + i * choice_spec->size;
         }
 
-        *(int *)choice_st = choice;
-        e_trace_desc(1, "unpacking", &choice_desc->desc, choice, depth + 1);
-        RETHROW(asn1_unpack_value(ps, spec, mem_pool, depth,
-                                  GET_PTR(choice_st, spec, void *),
-                                  copy));
+        RETHROW(asn1_unpack_choice(ps, &choice_desc->desc, mem_pool,
+                                   depth + 1, choice_st, copy, false));
     }
 
     return 0;
-- 
2.43.0


From a7b561a959b0ad623bd538b652a21551cdc59b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:14 +0000
Subject: [PATCH 083/187] fix: do not print an object identifier past its end

---
 src/asn1/writer.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/asn1/writer.c b/src/asn1/writer.c
index 9ec6807..312b628 100644
--- a/src/asn1/writer.c
+++ b/src/asn1/writer.c
@@ -99,10 +99,10 @@ const char *t_asn1_oid_print(lstr_t oid)
 {
     static const char digits[10] = "0123456789";
 
-    char *str = t_new_raw(char, oid.len * 4);
+    char *str = t_new_raw(char, oid.len * 4 + 1);
     char *w = str;
 
-    for (int i = 0;; i++) {
+    for (int i = 0; i < oid.len; i++) {
         uint8_t u = (uint8_t)oid.s[i];
         uint8_t d = u / 10;
         uint8_t c = d / 10;
@@ -118,10 +118,8 @@ const char *t_asn1_oid_print(lstr_t oid)
 
         *w++ = digits[u];
 
-        if (i >= oid.len)
-            break;
-
-        *w++ = '.';
+        if (i + 1 < oid.len)
+            *w++ = '.';
     }
 
     *w = '\0';
-- 
2.43.0


From 50cb61f99e2fe3b519647671eb1e1f6a47e6ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:07 +0000
Subject: [PATCH 084/187] fix: encode the elements of pointed SEQUENCE OF in
 PER

---
 src/asn1/per.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asn1/per.c b/src/asn1/per.c
index 19a51ee..4481bdd 100644
--- a/src/asn1/per.c
+++ b/src/asn1/per.c
@@ -961,7 +961,12 @@ aper_encode_seq_of_field(bb_t *bb, const asn1_field_t *field,
     size_t field_sz = field->pointed ? sizeof(const void *) : field->size;
 
     for (int i = start; i < end; i++) {
-        if (aper_encode_field(bb, tab + i * field_sz, field) < 0) {
+        const void *v = tab + i * field_sz;
+
+        if (field->pointed) {
+            v = *(const void **)v;
+        }
+        if (aper_encode_field(bb, v, field) < 0) {
             e_error("failed to encode array value [%d] %s:%s",
                     i, field->oc_t_name, field->name);
 
-- 
2.43.0


From a451cb8aa59ad995a33010f1f9ab0408be82fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:07 +0000
Subject: [PATCH 085/187] fix: do not ignore the errors of PER open types and
 extensions

---
 src/asn1/per.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/asn1/per.c b/src/asn1/per.c
index 4481bdd..9608b66 100644
--- a/src/asn1/per.c
+++ b/src/asn1/per.c
@@ -743,14 +743,17 @@ aper_encode_field(bb_t *bb, const void *v, const asn1_field_t *field)
         bb_t    buf;
 
         bb_inita(&buf, field->open_type_buf_len);
-        aper_encode_value(&buf, v, field);
+        res = aper_encode_value(&buf, v, field);
 
-        if (!buf.len) {
-            bb_be_add_byte(&buf, 0);
-        }
+        if (res >= 0) {
+            if (!buf.len) {
+                bb_be_add_byte(&buf, 0);
+            }
 
-        os = LSTR_INIT_V((const char *)buf.bytes, DIV_ROUND_UP(buf.len, 8));
-        res = aper_encode_octet_string(bb, os, NULL);
+            os = LSTR_INIT_V((const char *)buf.bytes,
+                             DIV_ROUND_UP(buf.len, 8));
+            res = aper_encode_octet_string(bb, os, NULL);
+        }
         bb_wipe(&buf);
     } else {
         res = aper_encode_value(bb, v, field);
-- 
2.43.0


From daff4cf8d8425c2ded3d910efe5b98f450a45436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:07 +0000
Subject: [PATCH 086/187] fix: encode the extended PER integers as
 unconstrained numbers

---
 src/asn1/per.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/per.c b/src/asn1/per.c
index 9608b66..e56d3de 100644
--- a/src/asn1/per.c
+++ b/src/asn1/per.c
@@ -541,7 +541,7 @@ int aper_encode_number(bb_t *bb, int64_t n, const asn1_int_info_t *info,
             bb_be_add_bit(bb, true);
 
             /* XXX Extension constraints are not PER-visible */
-            aper_write_number(bb, n, NULL);
+            aper_write_2c_number(bb, n, is_signed);
 
             return 0;
         } else {
-- 
2.43.0


From aa227b85b2e85e9a846495e020019b2349d94305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:07 +0000
Subject: [PATCH 087/187] fix: check the minimum length of fragmented PER
 values at their end

---
 src/asn1/per.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/per.c b/src/asn1/per.c
index e56d3de..f0f8d50 100644
--- a/src/asn1/per.c
+++ b/src/asn1/per.c
@@ -1460,7 +1460,7 @@ aper_decode_fragment_len(bit_stream_t *bs, aper_len_decoding_ctx_t *ctx)
     /* Check the max length isn't exceeded before any further decoding. */
     RETHROW(aper_len_check_max(ctx, ctx->cumulated_len));
 
-    if (ctx->to_decode < PER_FRAG_16K) {
+    if (!ctx->more_fragments_to_read) {
         /* Reached last fragment. The minimum length can be checked now. */
         RETHROW(aper_len_check_min(ctx, ctx->cumulated_len));
     }
-- 
2.43.0


From f615ff6eb7de61e70956ba5107b9275a019a9991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:07 +0000
Subject: [PATCH 088/187] fix: do not truncate the range of PER lengths

---
 src/asn1/per.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1/per.c b/src/asn1/per.c
index f0f8d50..581941c 100644
--- a/src/asn1/per.c
+++ b/src/asn1/per.c
@@ -292,8 +292,8 @@ void aper_write_len(bb_t *bb, size_t l, size_t l_min, size_t l_max,
     assert (!need_fragmentation || !*need_fragmentation);
 
     if (l_max != SIZE_MAX) {
-        uint32_t d_max = l_max - l_min;
-        uint32_t d     = l - l_min;
+        size_t d_max = l_max - l_min;
+        size_t d     = l - l_min;
 
         assert (l <= l_max);
 
-- 
2.43.0


From c67c96d19506ea0221ea1ef3724a20e3ee363287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:07 +0000
Subject: [PATCH 089/187] fix: avoid an overflow of the PER choice extension
 index

---
 src/asn1/per.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/per.c b/src/asn1/per.c
index 581941c..f5830da 100644
--- a/src/asn1/per.c
+++ b/src/asn1/per.c
@@ -2111,7 +2111,7 @@ t_aper_decode_choice(bit_stream_t *bs, const asn1_desc_t *desc, bool copy,
             return -1;
         }
 
-        if (index + desc->ext_pos >= (size_t)desc->fields.len) {
+        if (index >= (size_t)desc->fields.len - desc->ext_pos) {
             e_info("unknown choice extension (index = %zd)", index);
             return -1;
         }
-- 
2.43.0


From 1fa8c4698f11eba1b3c3fdb1f1f3f78c60c5138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:35 +0000
Subject: [PATCH 090/187] fix: do not return some records twice when reading a
 binary file backward

When a record spanned over a whole slot, the record following it was
returned once per slot. Also support a negative count, as documented.
---
 src/core/file-bin.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 63ff8fd..0302e15 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -438,21 +438,36 @@ int t_file_bin_get_last_records(file_bin_t *file, int count, qv_t(lstr) *out)
 
     assert (file->read_mode);
 
-    t_qv_init(&tmp, count);
+    if (count < 0) {
+        count = INT_MAX;
+    }
+    t_qv_init(&tmp, 0);
 
     do {
+        uint32_t sz;
+
         prev_slot = slot_off;
         file->cur = slot_off = file_bin_get_prev_slot(file, prev_slot - 1);
 
+        /* Go to the first record starting in this slot, if any. */
+        if (file->version > 0
+        &&  (file_bin_get_cpu32(file, &sz) < 0
+         ||  _file_bin_skip(file, sz) < 0))
+        {
+            file->cur = prev_slot;
+        }
+
         while (file->cur <= prev_slot - RC_HDR_SIZE
             && !file_bin_is_finished(file))
         {
-            lstr_t res = file_bin_get_next_record(file);
+            lstr_t res = LSTR_NULL_V;
 
-            if (!res.s) {
+            if (_file_bin_get_next_record(file, &res) < 0) {
                 break;
             }
-            qv_append(&tmp, t_lstr_dup(res));
+            if (res.s) {
+                qv_append(&tmp, t_lstr_dup(res));
+            }
         }
 
         qv_grow(out, tmp.len);
-- 
2.43.0


From 1b069e6cac0d4bd4989d8cfb156d9b9f017cae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:04 +0000
Subject: [PATCH 091/187] fix: return the empty record ending a slot of a
 binary file

An empty record whose header was at the very end of a slot was not
returned until something was written in the next slot.
---
 src/core/file-bin.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 0302e15..2514536 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -298,6 +298,17 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
         goto error;
     }
 
+    if (sz == 0) {
+        if (file->version == 0) {
+            /* In V0, the end of the slots are filled with 0s. Go to error so
+             * that we jump to next slot. */
+            goto error;
+        } else {
+            *rec = LSTR_EMPTY_V;
+            return 0;
+        }
+    }
+
     rec_end_off = file_bin_get_entry_end_off(file, sz);
     if (rec_end_off > file->length) {
         slot_hdr_t tmp_size;
@@ -334,17 +345,6 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
         goto error;
     }
 
-    if (sz == 0) {
-        if (file->version == 0) {
-            /* In V0, the end of the slots are filled with 0s. Go to error so
-             * that we jump to next slot. */
-            goto error;
-        } else {
-            *rec = LSTR_EMPTY_V;
-            return 0;
-        }
-    }
-
     check_slot_hdr = file_bin_get_next_entry_off(file, sz);
 
     while (!file_bin_is_finished(file)) {
-- 
2.43.0


From 66f8bb4ef570288c5f0fc3bcb160fc0b8fd954e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:04 +0000
Subject: [PATCH 092/187] fix: do not skip some records being written in binary
 files

The slot header gives the position of the next record, which is not the
end of the current one when it ends close to the end of a slot.
---
 src/core/file-bin.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 2514536..8003b7a 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -311,6 +311,7 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
 
     rec_end_off = file_bin_get_entry_end_off(file, sz);
     if (rec_end_off > file->length) {
+        off_t next_off = file_bin_get_next_entry_off(file, sz);
         slot_hdr_t tmp_size;
 
         /* There is not enough data in the file to read the record. This could
@@ -322,12 +323,12 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
          *
          * In order to guess in which case we are, read the next slot header
          * (if available) in which there is also the information about the
-         * offset of the end of the record. If the two offsets mismatch, we
+         * offset of the record following it. If the two offsets mismatch, we
          * are in the first case.
          */
         if (_file_bin_skip(file, file_bin_remaining_space_in_slot(file)) < 0
         ||  file_bin_get_cpu32(file, &tmp_size) < 0
-        ||  rec_end_off == file->cur + tmp_size)
+        ||  next_off == file->cur + tmp_size)
         {
             file->cur = prev_off;
             return -1;
-- 
2.43.0


From 4321b74790a517020d37c3f7051c070f1d2270a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:04 +0000
Subject: [PATCH 093/187] fix: do not leak the mapping of binary files without
 a header

---
 src/core/file-bin.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 8003b7a..ea70ded 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -207,9 +207,12 @@ int file_bin_refresh(file_bin_t *file)
         return -1;
     }
 
-    if (parse_header) {
-        RETHROW(file_bin_parse_header(file->path, new_map, st.st_size,
-                                      &file->version, &file->slot_size));
+    if (parse_header
+    &&  file_bin_parse_header(file->path, new_map, st.st_size,
+                              &file->version, &file->slot_size) < 0)
+    {
+        munmap(new_map, st.st_size);
+        return -1;
     }
 
     file->map = new_map;
@@ -524,6 +527,7 @@ file_bin_t *file_bin_open(lstr_t path)
         if (file_bin_parse_header(path, mapping, st.st_size,
                                   &version, &slot_size) < 0)
         {
+            munmap(mapping, st.st_size);
             goto error;
         }
     }
-- 
2.43.0


From 75196464fa1b5c14db6645824120d9a7966c91f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:06 +0000
Subject: [PATCH 094/187] fix: refuse binary files with an invalid slot size

It was leading to divisions by zero and to wrong positions.
---
 src/core/file-bin.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index ea70ded..0504cf4 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -47,6 +47,9 @@ typedef le32_t slot_hdr_t;
 typedef le32_t rc_hdr_t;
 #define RC_HDR_SIZE  ssizeof(rc_hdr_t)
 
+#define FILE_BIN_MIN_SLOT_SIZE  \
+    (sizeof(file_bin_header_t) + sizeof(slot_hdr_t) + sizeof(rc_hdr_t))
+
 static struct {
     logger_t logger;
 } file_bin_g = {
@@ -153,6 +156,10 @@ static int file_bin_parse_header(lstr_t path, void *data, size_t len,
     if (strequal(header->version, SIG_0100)) {
         *version = 1;
         *slot_size = le_to_cpu32p(&header->slot_size);
+        if (*slot_size < FILE_BIN_MIN_SLOT_SIZE) {
+            return logger_error(&_G.logger, "invalid slot size in '%*pM': %u",
+                                LSTR_FMT_ARG(path), *slot_size);
+        }
     } else {
         /* Unknown header. File is probably in version 0 */
         *version = 0;
-- 
2.43.0


From a21b966ec1bec322cd73da47d968cb5b795a556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:07 +0000
Subject: [PATCH 095/187] fix: compute positions in binary files on 64 bits

Files over 4 GB could not be read, and corrupted record lengths close to
2^32 were making the reader believe that the record was in the file.
---
 src/core/file-bin.c | 12 ++++++------
 src/file-bin.h      |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 0504cf4..89a4e06 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -97,11 +97,11 @@ static off_t file_bin_tell(const file_bin_t *file)
     return res;
 }
 
-static off_t file_bin_get_entry_end_off(const file_bin_t *f, uint32_t d_len)
+static off_t file_bin_get_entry_end_off(const file_bin_t *f, off_t d_len)
 {
-    uint32_t len = d_len;
+    off_t len = d_len;
     off_t res;
-    uint32_t nb_slots;
+    off_t nb_slots;
     uint32_t remaining = file_bin_remaining_space_in_slot(f);
 
     if (is_at_slot_start(f)) {
@@ -119,7 +119,7 @@ static off_t file_bin_get_entry_end_off(const file_bin_t *f, uint32_t d_len)
     return res;
 }
 
-static off_t file_bin_get_next_entry_off(const file_bin_t *f, uint32_t d_len)
+static off_t file_bin_get_next_entry_off(const file_bin_t *f, off_t d_len)
 {
     off_t res = file_bin_get_entry_end_off(f, d_len);
     uint32_t remaining = 0;
@@ -271,7 +271,7 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
     off_t prev_off = file->cur;
     off_t rec_end_off;
     uint32_t sz;
-    uint32_t check_slot_hdr;
+    off_t check_slot_hdr;
     bool is_spanning = false;
 
     if (file_bin_is_finished(file)) {
@@ -695,7 +695,7 @@ static int file_bin_write_data(file_bin_t *f, const void *data, uint32_t len,
 int file_bin_put_record(file_bin_t *file, const void *data, uint32_t len)
 {
     rc_hdr_t rec_len_le32 = cpu_to_le32(len);
-    uint32_t total_size = len + RC_HDR_SIZE;
+    off_t total_size = (off_t)len + RC_HDR_SIZE;
     off_t next_entry;
     uint32_t remaining;
 
diff --git a/src/file-bin.h b/src/file-bin.h
index 2ae8aca..3b8c976 100644
--- a/src/file-bin.h
+++ b/src/file-bin.h
@@ -75,7 +75,7 @@ typedef struct file_bin_t {
     uint16_t  version;
 
     /* Read mode fields. */
-    uint32_t  length;
+    off_t     length;
     byte     *map;
     sb_t      record_buf;
 } file_bin_t;
-- 
2.43.0


From bcc5faaf00f9ff8e40cd64160ed8ebd3478d63a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:07 +0000
Subject: [PATCH 096/187] fix: do not assert on corrupted records in old binary
 files

---
 src/core/file-bin.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 89a4e06..29a3af2 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -379,7 +379,11 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
             return 0;
         }
 
-        assert (file->version > 0);
+        if (file->version == 0) {
+            logger_error(&_G.logger, "corrupted record length in file '%*pM' "
+                         "at pos %jd", LSTR_FMT_ARG(file->path), prev_off);
+            goto error;
+        }
 
         /* Record spans on multiple slots. */
         if (!is_spanning) {
-- 
2.43.0


From ebcd0adca5c0f4d6565e3fc1af07ddc8f2ad3076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:07 +0000
Subject: [PATCH 097/187] fix: check the slot header following a record header
 in binary files

The slot header was checked in the middle of the data of a record but not
just before it, so that a corrupted length there was not detected and made
the reader lose or invent records of the following slots.
---
 src/core/file-bin.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 29a3af2..07f72b0 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -350,14 +350,20 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
         return 0;
     }
 
-    if (is_at_slot_start(file)
-    &&  _file_bin_skip(file, SLOT_HDR_SIZE(file)) < 0)
-    {
-        goto error;
-    }
-
     check_slot_hdr = file_bin_get_next_entry_off(file, sz);
 
+    if (file->version > 0 && is_at_slot_start(file)) {
+        slot_hdr_t tmp_size;
+
+        if (file_bin_get_cpu32(file, &tmp_size) < 0
+        ||  tmp_size != check_slot_hdr - file->cur)
+        {
+            logger_error(&_G.logger, "corrupted record length in file '%*pM' "
+                         "at pos %jd", LSTR_FMT_ARG(file->path), prev_off);
+            goto error;
+        }
+    }
+
     while (!file_bin_is_finished(file)) {
         uint32_t remaining = file_bin_remaining_space_in_slot(file);
         slot_hdr_t tmp_size;
-- 
2.43.0


From e4ab545cc174723989bd16e74d115a758ca69a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:44 +0000
Subject: [PATCH 098/187] fix: file_write and file_writev returned the length
 of their buffer too

---
 src/core/file.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/file.c b/src/core/file.c
index 1e73d43..ef77907 100644
--- a/src/core/file.c
+++ b/src/core/file.c
@@ -206,7 +206,8 @@ static ssize_t __file_writev(file_t *f, struct iovec *iov, size_t iovcnt)
     for (size_t i = 0; i < iovcnt; i++) {
         len += iov[i].iov_len;
     }
-    res = len;
+    /* do not count what was already in the buffer */
+    res = len - f->obuf.len;
 
     while (len >= BUFSIZ) {
         ssize_t resv = writev(f->fd, iov, iovcnt);
-- 
2.43.0


From f4d6d0025caa77051807aba273ad05abb193316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:07 +0000
Subject: [PATCH 099/187] fix: file_truncate when not at the end of the file

After a seek backward, the file was not shortened, and extending it was
overwriting its data with zeros.
---
 src/core/file.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/core/file.c b/src/core/file.c
index ef77907..c4a7df0 100644
--- a/src/core/file.c
+++ b/src/core/file.c
@@ -337,17 +337,14 @@ int file_truncate(file_t *f, off_t len)
         f->wpos = len;
         sb_reset(&f->obuf);
     } else if (len <= f->wpos + f->obuf.len) {
+        /* drop what follows in the file, if we are not at its end */
+        RETHROW(ftruncate(f->fd, f->wpos));
         sb_clip(&f->obuf, len - f->wpos);
     } else { /* len > f->wpos + f->obuf.len */
-        if (len - f->wpos > BUFSIZ) {
-            /* Buffer would be too big: flush */
-            RETHROW(file_flush(f));
-            RETHROW(ftruncate(f->fd, len));
-            RETHROW(lseek(f->fd, len, SEEK_SET));
-            f->wpos = len;
-        } else {
-            sb_add0s(&f->obuf, len - (f->wpos + f->obuf.len));
-        }
+        RETHROW(file_flush(f));
+        RETHROW(ftruncate(f->fd, len));
+        RETHROW(lseek(f->fd, len, SEEK_SET));
+        f->wpos = len;
     }
 
     return 0;
-- 
2.43.0


From 99f6a21f8ca5e0787044108559975473e851f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:52 +0000
Subject: [PATCH 100/187] fix: support glob characters in the names of log
 files

The files were not found back, so that they were never removed, and those
of other logs could be.
---
 src/core/file-log.blk | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/core/file-log.blk b/src/core/file-log.blk
index d538bd6..3c577ce 100644
--- a/src/core/file-log.blk
+++ b/src/core/file-log.blk
@@ -109,6 +109,22 @@ static const char *t_build_real_path(log_file_t *log_file, time_t date)
                  log_file->prefix, LOG_FILE_DATE_FMT_ARG(tm), log_file->ext);
 }
 
+/* Build the glob pattern of the log files, whatever the characters of their
+ * prefix. */
+static const char *t_build_glob(const log_file_t *log_file, const char *end)
+{
+    SB_1k(buf);
+
+    for (const char *s = log_file->prefix; *s; s++) {
+        if (strchr("*?[]{},\\", *s)) {
+            sb_addc(&buf, '\\');
+        }
+        sb_addc(&buf, *s);
+    }
+    return t_fmt("%*pM_????????_??????.%s%s", SB_FMT_ARG(&buf),
+                 log_file->ext, end);
+}
+
 #define GZIP_ERROR  "background compression of log file `%*pM` failed: "
 
 static void
@@ -212,14 +228,11 @@ static void log_check_invariants(log_file_t *log_file)
 {
     t_scope;
     glob_t globbuf;
-    char buf[PATH_MAX];
     struct stat *sts;
     char **fv;
     int  fc;
 
-    snprintf(buf, sizeof(buf), "%s_????????_??????.%s{,.gz}",
-             log_file->prefix, log_file->ext);
-    if (glob(buf, GLOB_BRACE, NULL, &globbuf)) {
+    if (glob(t_build_glob(log_file, "{,.gz}"), GLOB_BRACE, NULL, &globbuf)) {
         globfree(&globbuf);
         return;
     }
@@ -370,12 +383,10 @@ static void log_file_open_new(log_file_t *log_file, time_t date)
 
 static void log_file_find_last_date(log_file_t *log_file)
 {
-    char buf[PATH_MAX];
+    t_scope;
     glob_t globbuf;
 
-    snprintf(buf, sizeof(buf), "%s_????????_??????.%s",
-             log_file->prefix, log_file->ext);
-    if (!glob(buf, 0, NULL, &globbuf) && globbuf.gl_pathc) {
+    if (!glob(t_build_glob(log_file, ""), 0, NULL, &globbuf) && globbuf.gl_pathc) {
         log_file_get_file_stamp(log_file,
                                 globbuf.gl_pathv[globbuf.gl_pathc - 1],
                                 &log_file->open_date);
-- 
2.43.0


From fec725cfd032a2edc0e0cd090d9b634d9dd355ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:23 +0000
Subject: [PATCH 101/187] fix: do not remove the log file being written

When opening a log file bigger than the maximum total size, it was removed
and everything written then was lost until the next rotation.
---
 src/core/file-log.blk | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/file-log.blk b/src/core/file-log.blk
index 3c577ce..f3b418e 100644
--- a/src/core/file-log.blk
+++ b/src/core/file-log.blk
@@ -307,6 +307,8 @@ static void log_check_invariants(log_file_t *log_file)
             }
             totalsize -= sts[i].st_size;
             if (totalsize < 0) {
+                /* Keep at least the file being written. */
+                i = MIN(i, fc - 2);
                 for (int j = 0; j <= i; j++) {
                     log_delete_file(log_file, fv[j], sts[j].st_size);
                 }
-- 
2.43.0


From e11499e1ae631fa2c67f9b209983b9c787026d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:19 +0000
Subject: [PATCH 102/187] fix: keep buffering when file_truncate extends a file
 from its end

After the previous fix of file_truncate, extending the file was always
flushed.
---
 src/core/file.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/core/file.c b/src/core/file.c
index c4a7df0..828929e 100644
--- a/src/core/file.c
+++ b/src/core/file.c
@@ -341,10 +341,19 @@ int file_truncate(file_t *f, off_t len)
         RETHROW(ftruncate(f->fd, f->wpos));
         sb_clip(&f->obuf, len - f->wpos);
     } else { /* len > f->wpos + f->obuf.len */
-        RETHROW(file_flush(f));
-        RETHROW(ftruncate(f->fd, len));
-        RETHROW(lseek(f->fd, len, SEEK_SET));
-        f->wpos = len;
+        struct stat st;
+
+        RETHROW(fstat(f->fd, &st));
+        if (len - f->wpos > BUFSIZ || st.st_size > f->wpos) {
+            /* Buffer would be too big, or we are not at the end of the file:
+             * flush */
+            RETHROW(file_flush(f));
+            RETHROW(ftruncate(f->fd, len));
+            RETHROW(lseek(f->fd, len, SEEK_SET));
+            f->wpos = len;
+        } else {
+            sb_add0s(&f->obuf, len - (f->wpos + f->obuf.len));
+        }
     }
 
     return 0;
-- 
2.43.0


From 9bc302cd3a1206b01baa3dca5d018f7c3997995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:42 +0000
Subject: [PATCH 103/187] fix: end the enumeration of a trie modified at its
 last key

After a modification of the trie, the enumeration of key UINT32_MAX was
followed by the one of key 0.
---
 src/core/qps-hat.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/qps-hat.c b/src/core/qps-hat.c
index 6ceafda..f153d29 100644
--- a/src/core/qps-hat.c
+++ b/src/core/qps-hat.c
@@ -1598,6 +1598,10 @@ uint32_t qhat_tree_enumerator_next(qhat_tree_enumerator_t *en, bool safe)
 {
     if (safe) {
         if (unlikely(!qhat_path_is_sync(&en->path))) {
+            if (en->key == UINT32_MAX) {
+                en->end = true;
+                return en->key;
+            }
             en->key++;
             qhat_tree_enumerator_refresh_path(en);
             return en->key;
-- 
2.43.0


From 8f3462df6da49b75912e948104c8d5316615d055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:28 +0000
Subject: [PATCH 104/187] fix: do not skip keys when the enumeration of a trie
 leaves a node

When no key was left in a node, the enumeration continued in the following
one from the same offset instead of its first key.
---
 src/core/qps-hat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/qps-hat.c b/src/core/qps-hat.c
index f153d29..11dd299 100644
--- a/src/core/qps-hat.c
+++ b/src/core/qps-hat.c
@@ -1931,7 +1931,7 @@ void qhat_tree_enumerator_find_node(qhat_tree_enumerator_t *en, uint32_t key)
     en->path.depth--;
 
     shift   = qhat_depth_shift(hat, en->path.depth);
-    new_key = key + (1UL << shift);
+    new_key = qhat_depth_prefix(hat, key, en->path.depth) + (1UL << shift);
     if (shift == 32) {
         en->end = true;
     } else {
-- 
2.43.0


From bf9ee7d18ab742e06ca9eb496f62090ef43cb8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:53 +0000
Subject: [PATCH 105/187] fix: hand received descriptors to RPC messages in the
 order they came

---
 src/iop/rpc-channel.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 3bd579d..a5a6ece 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -1944,7 +1944,7 @@ static int ic_read(ichannel_t *ic, short events, int sock)
                 return -1;
             } else {
                 ic->current_fd = ic->fds.tab[0];
-                qv_pop(&ic->fds);
+                qv_remove(&ic->fds, 0);
             }
             if (unlikely(ic->current_fd < 0)) {
                 logger_warning(&_G.logger, "file descriptor table overflow");
-- 
2.43.0


From 00f7d91fc1d7a139190a3195b119bc5783d9c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:53 +0000
Subject: [PATCH 106/187] fix: do not lose the descriptors of an RPC write that
 must be retried

---
 src/iop/rpc-channel.blk | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index a5a6ece..0507964 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -933,6 +933,14 @@ static int ic_write(ichannel_t *ic, int fd)
         ic_msg_t *msg;
         ic_msg_t *last_fd_msg = NULL;
 
+        /* descriptors of a previous write that could not be done */
+        htlist_for_each_entry(msg, &ic->iov_list, msg_link) {
+            if (msg->fd >= 0) {
+                fdv[fdc++] = msg->fd;
+                last_fd_msg = msg;
+            }
+        }
+
         while (!htlist_is_empty(&ic->msg_list) && ic->iov_total_len < IC_PKT_MAX) {
             msg = ic_pop_msg(ic);
 
-- 
2.43.0


From 20a44027ca90d326a15f3942697fc1add18b5bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:53 +0000
Subject: [PATCH 107/187] fix: forget the queries of a closed RPC connection in
 its counters

---
 src/iop/rpc-channel.blk | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 0507964..61bbaf8 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -823,6 +823,9 @@ static void ic_cancel_all(ichannel_t *ic)
         qm_del_at(ic_msg, &h, pos);
 
         msg = h.values[pos];
+        if (!msg->canceled) {
+            ic->queue_len--;
+        }
         __ic_msg_reply_err(ic, msg, IC_MSG_ABORT);
         ic_msg_delete(&msg);
     }
@@ -2073,6 +2076,7 @@ void ic_disconnect(ichannel_t *ic)
         ic_delete(&ic);
     } else {
         ic_choose_id(ic);
+        ic->pending = 0;
         qv_clear(&ic->iov);
         ic->is_closing = false;
         ic->fd_overflow = false;
-- 
2.43.0


From 1a53432e13ed3df60b6fbadb34fbc53b9ce23704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:53 +0000
Subject: [PATCH 108/187] fix: do not count a timed out one-way RPC message as
 an ended query

---
 src/iop/rpc-channel.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 61bbaf8..51239e7 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -2290,11 +2290,11 @@ static void ic_msg_on_timeout(el_t ev, el_data_t data)
 
     if (!msg->async) {
         __ic_msg_reply_err(msg->ic, msg, IC_MSG_TIMEDOUT);
+        ic->queue_len--;
     }
 
     msg->timeout_timer = NULL;
     msg->canceled = true;
-    msg->ic->queue_len--;
 
     while (!htlist_is_empty(queue)
     &&    (htlist_first_entry(queue, ic_msg_t, msg_link)->canceled))
-- 
2.43.0


From 561379f4811657a24b766c50c14ab754881a2249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:25 +0000
Subject: [PATCH 109/187] fix: close the descriptor of an RPC reply whose
 channel is gone

---
 src/iop/rpc-channel.blk | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 51239e7..54a9c27 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -2603,6 +2603,7 @@ size_t __ic_reply(ichannel_t *ic, uint64_t slot, int cmd, int fd,
 
     msg = ic_msg_new_for_reply(&ic, slot, cmd);
     if (!msg) {
+        p_close(&fd);
         return 0;
     }
 
-- 
2.43.0


From 569c173bf6d53d736ca8d1bdf27674f827ac59c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:46 +0000
Subject: [PATCH 110/187] fix: accept packed and proxied queries on local async
 RPC channels

---
 src/iop/rpc-channel.blk | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 54a9c27..f0d6dfa 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -2369,8 +2369,7 @@ ic_local_async_flush(el_t el, data_t data)
         ic_msg_t *msg;
 
         msg = htlist_pop_entry(&queries, ic_msg_t, msg_link);
-        /* FIXME: handle flags */
-        ic_query_local_flags(ic, msg, 0);
+        ic_query_local_flags(ic, msg, get_unaligned_le32(msg->data));
     }
 }
 
@@ -2384,11 +2383,12 @@ static void ic_local_async_schedule_flush(ichannel_t *ic)
 static void
 ic_query_local_async_flags(ichannel_t *ic, ic_msg_t *msg, uint32_t flags)
 {
-    __ic_bpack(msg, msg->rpc->args, msg->data);
-    msg->force_pack = true;
-
-    /* flags are not supported in local async mode for the moment. */
-    assert(!flags);
+    /* XXX: the query can already be packed (force_pack or proxy). */
+    if (!msg->force_pack) {
+        __ic_bpack(msg, msg->rpc->args, msg->data);
+        msg->force_pack = true;
+    }
+    put_unaligned_le32(msg->data, flags);
     htlist_add_tail(&ic->local_async_queries, &msg->msg_link);
     ic_local_async_schedule_flush(ic);
 }
-- 
2.43.0


From 678966b74571b0aee54f18c4f51bfa773c3583f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:23 +0000
Subject: [PATCH 111/187] fix: pack the replies forwarded to local async RPC
 channels

---
 src/iop/rpc-channel.blk | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index f0d6dfa..e708b91 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -671,7 +671,9 @@ static void ic_proxify(ichannel_t *pxy_ic, ic_msg_t *msg, int cmd,
             assert (msg->rpc);
             st = likely(cmd == IC_MSG_OK) ? msg->rpc->result : msg->rpc->exn;
             tmp->force_dup = msg->force_dup;
-            __ic_msg_build(tmp, st, unpacked_msg->data, !ic_is_local(ic));
+            tmp->force_pack = ic->is_local_async;
+            __ic_msg_build(tmp, st, unpacked_msg->data,
+                           !ic_is_local(ic) || tmp->force_pack);
         } else {
             void *buf;
 
@@ -751,7 +753,9 @@ void __ic_forward_reply_to(ichannel_t *pxy_ic, uint64_t slot, int cmd,
                 data = exn;
             }
             tmp->force_dup = msg_org->force_dup;
-            __ic_msg_build(tmp, st, data, !ic_is_local(ic));
+            tmp->force_pack = ic->is_local_async;
+            __ic_msg_build(tmp, st, data,
+                           !ic_is_local(ic) || tmp->force_pack);
         } else {
             if (ic_is_local(ic)) {
                 tmp->force_pack = true;
-- 
2.43.0


From cc90ca33dc153d38ec8fb916117319fcfcc9cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:16 +0000
Subject: [PATCH 112/187] fix: abort only once the queued queries of a local
 async RPC channel

---
 src/iop/rpc-channel.blk | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index e708b91..e302767 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -809,7 +809,6 @@ static void ic_cancel_all(ichannel_t *ic)
 
     while (!htlist_is_empty(&ic->local_async_queries)) {
         msg = htlist_pop_entry(&ic->local_async_queries, ic_msg_t, msg_link);
-        __ic_msg_reply_err(ic, msg, IC_MSG_ABORT);
         if (msg->cmd <= 0 || msg->slot == 0) {
             ic_msg_delete(&msg);
         }
-- 
2.43.0


From 8822f9847915c94e65060ef72bede29c488ea743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:31 +0000
Subject: [PATCH 113/187] fix: run once the callback of an RPC query that
 closes its channel

---
 src/iop/rpc-channel.blk | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index e302767..8ab2329 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -694,12 +694,9 @@ static void ic_proxify(ichannel_t *pxy_ic, ic_msg_t *msg, int cmd,
     }
 }
 
-void __ic_msg_reply_err(ichannel_t *ic, ic_msg_t *msg, ic_status_t status)
+static void
+ic_msg_run_err_cb(ichannel_t *ic, ic_msg_t *msg, ic_status_t status)
 {
-    if (msg->canceled) {
-        return;
-    }
-
     if (msg->cb == IC_PROXY_MAGIC_CB) {
         ic_proxify(ic, msg, -status, NULL, 0, NULL);
     } else {
@@ -707,6 +704,15 @@ void __ic_msg_reply_err(ichannel_t *ic, ic_msg_t *msg, ic_status_t status)
     }
 }
 
+void __ic_msg_reply_err(ichannel_t *ic, ic_msg_t *msg, ic_status_t status)
+{
+    if (msg->canceled) {
+        return;
+    }
+
+    ic_msg_run_err_cb(ic, msg, status);
+}
+
 void __ic_forward_reply_to(ichannel_t *pxy_ic, uint64_t slot, int cmd,
                            const void *res, const void *exn)
 {
@@ -2278,11 +2284,12 @@ void ic_flush(ichannel_t *ic)
 void ic_msg_cancel(ic_msg_t *msg)
 {
     assert (!msg->canceled);
-    if (expect(!msg->async)) {
-        __ic_msg_reply_err(msg->ic, msg, IC_MSG_CANCELED);
-    }
+    /* XXX: the callback may disconnect the channel, which deletes msg. */
     msg->canceled = true;
     msg->ic->queue_len--;
+    if (expect(!msg->async)) {
+        ic_msg_run_err_cb(msg->ic, msg, IC_MSG_CANCELED);
+    }
 }
 
 static void ic_msg_on_timeout(el_t ev, el_data_t data)
@@ -2291,13 +2298,15 @@ static void ic_msg_on_timeout(el_t ev, el_data_t data)
     ichannel_t *ic = msg->ic;
     htlist_t *queue = &ic->msg_list;
 
-    if (!msg->async) {
-        __ic_msg_reply_err(msg->ic, msg, IC_MSG_TIMEDOUT);
-        ic->queue_len--;
-    }
-
     msg->timeout_timer = NULL;
-    msg->canceled = true;
+    if (!msg->canceled) {
+        /* XXX: the callback may disconnect the channel, which deletes msg. */
+        msg->canceled = true;
+        if (!msg->async) {
+            ic->queue_len--;
+            ic_msg_run_err_cb(ic, msg, IC_MSG_TIMEDOUT);
+        }
+    }
 
     while (!htlist_is_empty(queue)
     &&    (htlist_first_entry(queue, ic_msg_t, msg_link)->canceled))
-- 
2.43.0


From f2a966b7b9e0c22fe4a6e0c0d2d11ca84aa931fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:01 +0000
Subject: [PATCH 114/187] fix: do not truncate the RPC packet read during the
 version handshake

---
 src/iop/rpc-channel.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 8ab2329..e32c89b 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -2901,7 +2901,7 @@ static int ic_version_handshake(el_t ev, int fd, short events, data_t priv)
 
     /* Get and parse the version header; determine the peer version. */
   again_blocking:
-    res = _ic_read(ic, events, fd, BUFSIZ);
+    res = _ic_read(ic, events, fd, IC_PKT_MAX);
     if (res < 0) {
         goto error;
     }
-- 
2.43.0


From 662a3931a4482d956cfb8bdf8deb24abc04bac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:27 +0000
Subject: [PATCH 115/187] fix: retry TLS writes with the length they had

---
 src/crypto/ssl.blk | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/crypto/ssl.blk b/src/crypto/ssl.blk
index b68ce25..a584560 100644
--- a/src/crypto/ssl.blk
+++ b/src/crypto/ssl.blk
@@ -1091,6 +1091,8 @@ ssize_t ssl_read(SSL *ssl, void *buf, size_t len)
 ssize_t ssl_write(SSL *ssl, const void *buf, size_t len)
 {
     long expected_mode;
+    size_t to_retry;
+    ssize_t res;
 
     if (!expect(len > 0)) {
         /* SSL_write with 0 length is undefined. */
@@ -1104,7 +1106,19 @@ ssize_t ssl_write(SSL *ssl, const void *buf, size_t len)
         return -1;
     }
 
-    return ssl_get_error_conv(ssl, SSL_write(ssl, buf, len));
+    /* When the previous write must be retried, SSL_write must not be given
+     * more data: it could send them partly, and fail again though the data
+     * of the previous write have all been sent. */
+    to_retry = (uintptr_t)SSL_get_app_data(ssl);
+    if (to_retry) {
+        len = MIN(len, to_retry);
+    }
+
+    res = ssl_get_error_conv(ssl, SSL_write(ssl, buf, len));
+    to_retry = res < 0 && errno == EAGAIN ? len : 0;
+    SSL_set_app_data(ssl, (char *)(uintptr_t)to_retry);
+
+    return res;
 }
 
 /* This function sends `len` data from `buf` through the `ssl` connection. It
-- 
2.43.0


From 4cae3481419dcef79e894888691dc1777fe57d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:36 +0000
Subject: [PATCH 116/187] fix: keep track of the last normal RPC message when a
 write is full

---
 src/iop/rpc-channel.blk | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index e32c89b..9de4f36 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -954,18 +954,17 @@ static int ic_write(ichannel_t *ic, int fd)
         }
 
         while (!htlist_is_empty(&ic->msg_list) && ic->iov_total_len < IC_PKT_MAX) {
-            msg = ic_pop_msg(ic);
+            msg = htlist_first_entry(&ic->msg_list, ic_msg_t, msg_link);
+            if (unlikely(fdc == IC_MAX_FD && msg->fd >= 0)) {
+                break;
+            }
 
+            ic_pop_msg(ic);
             if (msg->canceled) {
                 ic_msg_take_and_delete(msg);
                 continue;
             }
 
-            if (unlikely(fdc == IC_MAX_FD && msg->fd >= 0)) {
-                htlist_add(&ic->msg_list, &msg->msg_link);
-                break;
-            }
-
             ic_msg_trace(msg, "putting %d bytes in out vector", msg->dlen);
             htlist_add_tail(&ic->iov_list, &msg->msg_link);
 
-- 
2.43.0


From d58557f72f12785907eaff37f8c86801fcd811e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:36 +0000
Subject: [PATCH 117/187] fix: keep the order of RPC replies after a bye

---
 src/iop/rpc-channel.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 9de4f36..3de079a 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -777,7 +777,7 @@ static void ic_add_msg_tail(ichannel_t *ic, ic_msg_t *msg)
 {
     htlist_add_tail(&ic->msg_list, &msg->msg_link);
     if (msg->priority == EV_PRIORITY_NORMAL) {
-        ic->last_normal_prio_msg = ic->msg_list.head;
+        ic->last_normal_prio_msg = &msg->msg_link;
     }
 }
 
-- 
2.43.0


From 866dc2db44a00195ed003ed29e19301da752950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:00 +0000
Subject: [PATCH 118/187] fix: forget the header of the message a closed RPC
 connection was reading

---
 src/iop/rpc-channel.blk | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 3de079a..40adbd2 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -2088,6 +2088,7 @@ void ic_disconnect(ichannel_t *ic)
         qv_clear(&ic->iov);
         ic->is_closing = false;
         ic->fd_overflow = false;
+        ic->hdr_checked = false;
         ic->iov_total_len = 0;
         sb_reset(&ic->rbuf);
     }
-- 
2.43.0


From 7f71c03ecae07c477af44645f68fc8ae679bafe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:26 +0000
Subject: [PATCH 119/187] fix: compare the names of abstract unix sockets

---
 src/net/addr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/net/addr.c b/src/net/addr.c
index 6e61bad..7e2da05 100644
--- a/src/net/addr.c
+++ b/src/net/addr.c
@@ -38,7 +38,10 @@ bool sockunion_equal(const sockunion_t *a1, const sockunion_t *a2)
                        sizeof(a2->sin6.sin6_addr.s6_addr));
 
       case AF_UNIX:
-        return !strcmp(a1->sunix.sun_path, a2->sunix.sun_path);
+        return sockunion_len(a1) == sockunion_len(a2)
+            && !memcmp(a1->sunix.sun_path, a2->sunix.sun_path,
+                       sockunion_len(a1)
+                       - offsetof(struct sockaddr_un, sun_path));
 
       default:
         e_panic("unknown kind of sockaddr: %d", a1->family);
-- 
2.43.0


From 86846254e9fe8f9c27e37ca317a382f74aaae5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:26 +0000
Subject: [PATCH 120/187] fix: allocate in the t_stack the text of unix socket
 addresses

---
 src/net/addr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/addr.c b/src/net/addr.c
index 7e2da05..cedb1b0 100644
--- a/src/net/addr.c
+++ b/src/net/addr.c
@@ -202,7 +202,7 @@ const char *t_addr_fmt(const sockunion_t *su, int *slen)
                 res = t_lstr_fmt("@%s", su->sunix.sun_path + 1);
             }
         } else {
-            res = LSTR(su->sunix.sun_path);
+            res = t_lstr_dup(LSTR(su->sunix.sun_path));
         }
         if (slen) {
             *slen = res.len;
-- 
2.43.0


From f169de53f11633e9e3b15632a2f486654041dc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:26 +0000
Subject: [PATCH 121/187] fix: hash the address of IPv4 sockets whatever their
 port

---
 src/net/addr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/addr.c b/src/net/addr.c
index cedb1b0..9eb4d78 100644
--- a/src/net/addr.c
+++ b/src/net/addr.c
@@ -55,7 +55,7 @@ uint32_t sockunion_hash(const sockunion_t *su)
 
     switch (su->family) {
       case AF_INET:
-        u64 = su->sin.sin_family | (su->sin.sin_port << 16)
+        u64 = su->sin.sin_family | ((uint32_t)su->sin.sin_port << 16)
             | ((uint64_t)su->sin.sin_addr.s_addr << 32);
         return u64_hash32(u64);
 
-- 
2.43.0


From dfe85d37126842075527766ac147ed6cf3d2b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:26 +0000
Subject: [PATCH 122/187] fix: refuse host names with null bytes

---
 src/net/addr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/net/addr.c b/src/net/addr.c
index 9eb4d78..9b2a0ce 100644
--- a/src/net/addr.c
+++ b/src/net/addr.c
@@ -234,6 +234,7 @@ int addr_info(sockunion_t *su, sa_family_t af, pstream_t host, in_port_t port)
     struct addrinfo *cur;
     struct addrinfo hint = { .ai_family = af };
 
+    THROW_ERR_IF(memchr(host.p, '\0', ps_len(&host)));
     RETHROW(getaddrinfo(t_dupz(host.p, ps_len(&host)), NULL, &hint, &ai));
     for (cur = ai; cur != NULL; cur = cur->ai_next) {
         switch (cur->ai_family) {
@@ -276,6 +277,7 @@ int addr_filter_build(lstr_t subnet, addr_filter_t *filter)
         SWAP(pstream_t, ip, ps);
     }
 
+    THROW_ERR_IF(memchr(ip.s, '\0', ps_len(&ip)));
     RETHROW(getaddrinfo(t_dupz(ip.s, ps_len(&ip)), NULL, &hint, &ai));
 
     p_clear(filter, 1);
-- 
2.43.0


From 7a70f34400437448c74a45ce3ebf5f06a942cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:26 +0000
Subject: [PATCH 123/187] fix: refuse URLs with something after the port

---
 src/net/addr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net/addr.c b/src/net/addr.c
index 9b2a0ce..b6885de 100644
--- a/src/net/addr.c
+++ b/src/net/addr.c
@@ -439,6 +439,7 @@ int parse_http_url(const char *url_path, bool allow_https, http_url_t *url)
              * part was the host (not the user) */
             host_ps = user_ps;
             url->port = getport(pass_ps.s, &pass_ps.s);
+            PS_WANT(ps_done(&pass_ps));
         }
     } else {
         host_ps = user_ps;
-- 
2.43.0


From 80205bebec7a620a2c84ea929a0238c5a4775253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:26 +0000
Subject: [PATCH 124/187] fix: refuse URLs that do not fit in http_url_t

---
 src/net/addr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/net/addr.c b/src/net/addr.c
index b6885de..ff8c982 100644
--- a/src/net/addr.c
+++ b/src/net/addr.c
@@ -412,7 +412,10 @@ int parse_http_url(const char *url_path, bool allow_https, http_url_t *url)
     user_ps = ps_get_cspan(&ps, &ctype_isurlseparator);
 
 #define PS_COPY(_field, _ps)  \
-    pstrcpymem(url->_field, sizeof(url->_field), _ps.s, ps_len(&_ps))
+    do {                                                                     \
+        PS_WANT(ps_len(&_ps) < sizeof(url->_field));                         \
+        pstrcpymem(url->_field, sizeof(url->_field), _ps.s, ps_len(&_ps));   \
+    } while (0)
 
     if (!ps_done(&ps) && *ps.s == ':') {
         /* Colon is either the separator of user:passwd
-- 
2.43.0


From 77cc234164b48d2ad8e2549bfde74a23c97188b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:56 +0000
Subject: [PATCH 125/187] fix: keep the names of the pending logger levels

---
 src/core/log.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/log.c b/src/core/log.c
index 01e031c..68b416f 100644
--- a/src/core/log.c
+++ b/src/core/log.c
@@ -391,8 +391,10 @@ int logger_set_level(lstr_t name, int level, unsigned flags)
             struct level l = { .level = level, .flags = flags };
             uint32_t pos;
 
-            pos = qm_put(level, &_G.pending_levels, &name, l, QHASH_OVERWRITE);
-            if (!(pos & QHASH_COLLISION)) {
+            pos = qm_put(level, &_G.pending_levels, &name, l, 0);
+            if (pos & QHASH_COLLISION) {
+                _G.pending_levels.values[pos & ~QHASH_COLLISION] = l;
+            } else {
                 _G.pending_levels.keys[pos] = lstr_dup(name);
             }
         }
-- 
2.43.0


From 1027e7815d19dde52b9b4bb8358429da7e77b629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:56 +0000
Subject: [PATCH 126/187] fix: do not abort on a log concurrent with a level
 change

---
 src/core/log.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/log.c b/src/core/log.c
index 68b416f..c9289f6 100644
--- a/src/core/log.c
+++ b/src/core/log.c
@@ -611,6 +611,7 @@ int logger_vlog(logger_t *logger, int level, const char *prog, int pid,
                 const char *file, const char *func, int line,
                 const char *fmt, va_list va)
 {
+    bool has_level = logger_has_level(logger, level);
     log_ctx_t ctx = {
         .logger_name = lstr_dupc(logger->full_name),
         .level       = level,
@@ -622,11 +623,8 @@ int logger_vlog(logger_t *logger, int level, const char *prog, int pid,
         .is_silent   = !!(logger->level_flags & LOG_SILENT),
     };
 
-    assert (atomic_load_explicit(&logger->conf_gen, memory_order_acquire)
-            == log_conf_gen_g);
     PROTECT_ERRNO(logger_putv(&ctx,
-                              logger_has_level(logger, level) ||
-                              level >= LOG_TRACE,
+                              has_level || level >= LOG_TRACE,
                               fmt, va));
     return level <= LOG_WARNING ? -1 : 0;
 }
@@ -743,8 +741,7 @@ int __logger_is_traced(logger_t *logger, int lvl, const char *modname,
 void __logger_start(logger_t *logger, int level, const char *prog, int pid,
                     const char *file, const char *func, int line)
 {
-    assert (atomic_load_explicit(&logger->conf_gen, memory_order_acquire)
-            == log_conf_gen_g);
+    __logger_refresh(logger);
 
     log_thr_g.ml_ctx = (log_ctx_t){
         .logger_name = lstr_dupc(logger->full_name),
-- 
2.43.0


From d414553330303986d5d1d11292447188a789a942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:56 +0000
Subject: [PATCH 127/187] fix: do not expose the levels being computed to other
 threads

---
 src/core/log.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/core/log.c b/src/core/log.c
index c9289f6..d5f24ec 100644
--- a/src/core/log.c
+++ b/src/core/log.c
@@ -256,6 +256,8 @@ static void logger_compute_fullname(logger_t *logger)
 
 void __logger_do_refresh(logger_t *logger)
 {
+    int level;
+
     if (atomic_load_explicit(&logger->conf_gen, memory_order_acquire)
         == log_conf_gen_g)
     {
@@ -296,22 +298,24 @@ void __logger_do_refresh(logger_t *logger)
         }
     }
 
-    logger->level = logger->default_level;
+    level = logger->default_level;
 
     if (logger->defined_level >= 0) {
-        logger->level = logger->defined_level;
+        level = logger->defined_level;
     } else
     if (logger->parent) {
         if (logger->parent->level_flags & (LOG_FORCED | LOG_RECURSIVE)) {
-            logger->level = logger->parent->level;
+            level = logger->parent->level;
             logger->level_flags |= LOG_FORCED;
         } else
-        if (logger->level == LOG_INHERITS) {
-            logger->level = logger->parent->level;
+        if (level == LOG_INHERITS) {
+            level = logger->parent->level;
         }
     }
 
-    assert (logger->level >= 0);
+    assert (level >= 0);
+    /* Other threads may be reading the level. */
+    logger->level = level;
     atomic_store_explicit(&logger->conf_gen, log_conf_gen_g,
                           memory_order_release);
 }
@@ -402,14 +406,16 @@ int logger_set_level(lstr_t name, int level, unsigned flags)
         return LOG_UNDEFINED;
     }
 
+    __logger_do_refresh(logger);
     if (level == LOG_UNDEFINED) {
         logger->level_flags = logger->default_level_flags;
     } else {
         logger->level_flags = flags;
     }
-    SWAP(int, logger->level, level);
-    logger->defined_level = logger->level;
+    logger->defined_level = level;
+    level = logger->level;
     log_conf_gen_g += 2;
+    __logger_do_refresh(logger);
 
     log_spin_unlock();
     return level;
-- 
2.43.0


From 3657be0a589294607574177e754be536855a9ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:56 +0000
Subject: [PATCH 128/187] fix: make loggers set to LOG_INHERITS inherit

---
 src/core/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/log.c b/src/core/log.c
index d5f24ec..97c711c 100644
--- a/src/core/log.c
+++ b/src/core/log.c
@@ -308,7 +308,7 @@ void __logger_do_refresh(logger_t *logger)
             level = logger->parent->level;
             logger->level_flags |= LOG_FORCED;
         } else
-        if (level == LOG_INHERITS) {
+        if (level == LOG_INHERITS || logger->defined_level == LOG_INHERITS) {
             level = logger->parent->level;
         }
     }
-- 
2.43.0


From 6a9727b4feb82d413f6ea6b598eee5e32cbeace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:56 +0000
Subject: [PATCH 129/187] fix: keep the logger name of captured logs

---
 src/core/log.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/log.c b/src/core/log.c
index 97c711c..ae77c2b 100644
--- a/src/core/log.c
+++ b/src/core/log.c
@@ -576,6 +576,8 @@ void logger_putv(const log_ctx_t *ctx, bool do_log,
 
         log_save = qv_growlen(vec_buffer, 1);
         log_save->ctx = *ctx;
+        log_save->ctx.logger_name = mp_lstr_dup(&log_thr_g.mp_stack.funcs,
+                                                ctx->logger_name);
         log_save->msg = LSTR_INIT_V(buffer, size_fmt - 1);
     }
 }
-- 
2.43.0


From 719be9aea7c8752e6c35351adfcfaa8e4cfb5501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:56 +0000
Subject: [PATCH 130/187] fix: hand to the handler the logs a buffer does not
 capture

---
 src/core/log.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/log.c b/src/core/log.c
index ae77c2b..f3b2517 100644
--- a/src/core/log.c
+++ b/src/core/log.c
@@ -552,18 +552,18 @@ void logger_putv(const log_ctx_t *ctx, bool do_log,
 
     buff = &log_thr_g.vec_buff_stack.tab[log_thr_g.nb_buffer_started - 1];
 
+    if (buff->use_handler) {
+        va_copy(vc, va);
+        (*_G.handler)(ctx, fmt, vc);
+        va_end(vc);
+    }
+
     if (ctx->level <= buff->buffer_log_level) {
         int size_fmt;
         log_buffer_t *log_save;
         char *buffer;
         qv_t(log_buffer) *vec_buffer = &buff->vec_buffer;
 
-        if (buff->use_handler) {
-            va_copy(vc, va);
-            (*_G.handler)(ctx, fmt, vc);
-            va_end(vc);
-        }
-
         va_copy(vc, va);
         size_fmt = vsnprintf(NULL, 0, fmt, vc) + 1;
         va_end(vc);
-- 
2.43.0


From 80603142f1f751e5d9c91aed02d3ff3fdbc2dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:38 +0000
Subject: [PATCH 131/187] fix: count the references of nested retain scopes

---
 src/core/obj.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/obj.c b/src/core/obj.c
index 441a4c7..6931020 100644
--- a/src/core/obj.c
+++ b/src/core/obj.c
@@ -246,7 +246,7 @@ object_t *nonnull
 {
     obj_tagged_ref_t *ref;
 
-    ref = obj_find_scope_ref(obj, func, line);
+    ref = obj_find_scope_ref(obj, file, line);
     if (!ref) {
         ref = obj_add_tagged_ref(obj, NULL, func, file, line);
     }
-- 
2.43.0


From ea3207af6c981ba17085d7b7924e1589ac99b828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:02 +0000
Subject: [PATCH 132/187] fix: escape the double quotes of Prometheus label
 values

---
 src/prometheus-client/metrics.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/prometheus-client/metrics.c b/src/prometheus-client/metrics.c
index eda9211..e0a5ed2 100644
--- a/src/prometheus-client/metrics.c
+++ b/src/prometheus-client/metrics.c
@@ -638,7 +638,7 @@ static void bridge_simple_value(prom_simple_value_metric_t *metric, sb_t *out)
                 sb_addc(out, ',');
             }
             sb_addf(out, "%s=\"", label_name);
-            sb_adds_slashes(out, label_value, "\\\n", "\\n");
+            sb_adds_slashes(out, label_value, "\\\n\"", "\\n\"");
             sb_addc(out, '"');
         }
         sb_addc(out, '}');
@@ -661,7 +661,7 @@ static void bridge_histogram(prom_histogram_t *metric, sb_t *out)
             sb_addc(&label_names, ',');
         }
         sb_addf(&label_names, "%s=\"", label_name);
-        sb_adds_slashes(&label_names, label_value, "\\\n", "\\n");
+        sb_adds_slashes(&label_names, label_value, "\\\n\"", "\\n\"");
         sb_addc(&label_names, '"');
     }
 
-- 
2.43.0


From baa4490096b055b3c5b7c0ea5549f0a1dd41cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:02 +0000
Subject: [PATCH 133/187] fix: expose the exact value of Prometheus metrics

---
 src/prometheus-client/metrics.c | 45 ++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/prometheus-client/metrics.c b/src/prometheus-client/metrics.c
index e0a5ed2..03ef52e 100644
--- a/src/prometheus-client/metrics.c
+++ b/src/prometheus-client/metrics.c
@@ -622,6 +622,27 @@ void prom_histogram_timer_finish(prom_histogram_timer_ctx_t *ctx)
 /* }}} */
 /* {{{ Bridge function for exposition in text format */
 
+/* Print a number in the exposition format, with the digits it takes to read
+ * the very same number back.
+ */
+static void bridge_number(double value, sb_t *out)
+{
+    char buf[64];
+
+    if (isnan(value)) {
+        sb_adds(out, "NaN");
+    } else
+    if (isinf(value)) {
+        sb_adds(out, value > 0 ? "+Inf" : "-Inf");
+    } else {
+        snprintf(buf, sizeof(buf), "%.15g", value);
+        if (strtod(buf, NULL) != value) {
+            snprintf(buf, sizeof(buf), "%.17g", value);
+        }
+        sb_adds(out, buf);
+    }
+}
+
 static void bridge_simple_value(prom_simple_value_metric_t *metric, sb_t *out)
 {
     lstr_t name = metric->parent ? metric->parent->name : metric->name;
@@ -644,7 +665,9 @@ static void bridge_simple_value(prom_simple_value_metric_t *metric, sb_t *out)
         sb_addc(out, '}');
     }
 
-    sb_addf(out, " %g\n", metric->value);
+    sb_addc(out, ' ');
+    bridge_number(metric->value, out);
+    sb_addc(out, '\n');
 }
 
 static void bridge_histogram(prom_histogram_t *metric, sb_t *out)
@@ -672,9 +695,11 @@ static void bridge_histogram(prom_histogram_t *metric, sb_t *out)
         if (metric->label_values.len) {
             sb_addc(out, ',');
         }
-        sb_addf(out, "le=\"%g\"} %g\n",
-                parent->bucket_upper_bounds[i],
-                metric->bucket_counts[i]);
+        sb_adds(out, "le=\"");
+        bridge_number(parent->bucket_upper_bounds[i], out);
+        sb_adds(out, "\"} ");
+        bridge_number(metric->bucket_counts[i], out);
+        sb_addc(out, '\n');
     }
 
     /* Add the line for the "+Inf" bucket */
@@ -683,7 +708,9 @@ static void bridge_histogram(prom_histogram_t *metric, sb_t *out)
     if (metric->label_values.len) {
         sb_addc(out, ',');
     }
-    sb_addf(out, "le=\"+Inf\"} %g\n", metric->count);
+    sb_adds(out, "le=\"+Inf\"} ");
+    bridge_number(metric->count, out);
+    sb_addc(out, '\n');
 
     /* Add the sum line */
     sb_add_lstr(out, parent->name);
@@ -691,7 +718,9 @@ static void bridge_histogram(prom_histogram_t *metric, sb_t *out)
     if (metric->label_values.len) {
         sb_addf(out, "{%*pM}", SB_FMT_ARG(&label_names));
     }
-    sb_addf(out, " %g\n", metric->sum);
+    sb_addc(out, ' ');
+    bridge_number(metric->sum, out);
+    sb_addc(out, '\n');
 
     /* Add the count line */
     sb_add_lstr(out, parent->name);
@@ -699,7 +728,9 @@ static void bridge_histogram(prom_histogram_t *metric, sb_t *out)
     if (metric->label_values.len) {
         sb_addf(out, "{%*pM}", SB_FMT_ARG(&label_names));
     }
-    sb_addf(out, " %g\n", metric->count);
+    sb_addc(out, ' ');
+    bridge_number(metric->count, out);
+    sb_addc(out, '\n');
 
     sb_addc(out, '\n');
 }
-- 
2.43.0


From a609b897fac86c2174190c72fa9e7e8e1f52affa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:02 +0000
Subject: [PATCH 134/187] fix: create the buckets of a labelled histogram under
 its lock

---
 src/prometheus-client/metrics.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/prometheus-client/metrics.c b/src/prometheus-client/metrics.c
index 03ef52e..3d739e5 100644
--- a/src/prometheus-client/metrics.c
+++ b/src/prometheus-client/metrics.c
@@ -551,10 +551,12 @@ static prom_histogram_t *
     child = obj_vcast(prom_histogram, child_metric);
 
     /* Create the buckets counts if the child was just created */
+    spin_lock(&child->lock);
     if (!child->bucket_counts) {
         child->nb_buckets = self->nb_buckets;
         child->bucket_counts = p_new(double, self->nb_buckets);
     }
+    spin_unlock(&child->lock);
 
     return child;
 }
-- 
2.43.0


From 1fae22325c9fa2362ab7f68abafb383d724fb2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:02 +0000
Subject: [PATCH 135/187] fix: end the last line of the Prometheus exposition

---
 src/prometheus-client/metrics.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/prometheus-client/metrics.c b/src/prometheus-client/metrics.c
index 3d739e5..0f0f956 100644
--- a/src/prometheus-client/metrics.c
+++ b/src/prometheus-client/metrics.c
@@ -813,7 +813,10 @@ void prom_collector_bridge(const dlist_t *collector, sb_t *out)
         spin_unlock(&metric->lock);
     }
 
-    if (out->len && out->data[out->len - 1] == '\n') {
+    if (out->len >= 2
+    &&  out->data[out->len - 1] == '\n'
+    &&  out->data[out->len - 2] == '\n')
+    {
         sb_shrink(out, 1);
     }
 }
-- 
2.43.0


From b77abbd9ef1f842d31edaa83be554db2865d58a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:36 +0000
Subject: [PATCH 136/187] fix: answer the HTTP requests that expect a 100
 Continue

---
 src/net/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index f062be5..d74b6f4 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1336,7 +1336,7 @@ static int httpd_parse_idle(httpd_t *w, pstream_t *ps)
             break;
 
           case HTTP_WKHDR_EXPECT:
-            q->expect100cont |= http_hdr_equals(qhdr->key, "100-continue");
+            q->expect100cont |= http_hdr_equals(qhdr->val, "100-continue");
             break;
 
           case HTTP_WKHDR_CONNECTION:
-- 
2.43.0


From 4f655c0f2ca33185e3faf9faf90abec0398b369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:36 +0000
Subject: [PATCH 137/187] fix: do not cut HTTP paths at an encoded question
 mark

---
 src/net/http.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index d74b6f4..9f86aa0 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -311,17 +311,17 @@ static int t_urldecode(httpd_qinfo_t *rq, pstream_t ps)
     while (!ps_done(&ps)) {
         int c = __ps_getc(&ps);
 
+        if (c == '?') {
+            *p++ = '\0';
+            rq->vars = ps;
+            break;
+        }
         if (c == '+') {
             c = ' ';
         } else
         if (c == '%') {
             c = RETHROW(ps_hexdecode(&ps));
         }
-        if (c == '?') {
-            *p++ = '\0';
-            rq->vars = ps;
-            break;
-        }
         *p++ = c;
     }
     *p++ = '\0';
-- 
2.43.0


From 67a6eb9529c46cfd9a68796e34d23cdce1f781a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:36 +0000
Subject: [PATCH 138/187] fix: inflate the whole HTTP body when it compresses
 well

---
 src/net/http.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/http.c b/src/net/http.c
index 9f86aa0..f28a1ae 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -188,6 +188,10 @@ static int http_zlib_inflate(z_stream *s, int *clen,
         if (rc == Z_STREAM_END && ps_len(in)) {
             return Z_STREAM_ERROR;
         }
+        if (rc != Z_STREAM_END && s->avail_out == 0) {
+            /* there may be more to output */
+            continue;
+        }
         if (rc == Z_BUF_ERROR) {
             if (s->avail_in) {
                 continue;
-- 
2.43.0


From 62da921112546f41ac268e33a39c0a6337c1452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:36 +0000
Subject: [PATCH 139/187] fix: do not take the end of an HTTP chunk as data

---
 src/net/http.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index f28a1ae..cf9d2ef 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1553,8 +1553,12 @@ static int httpd_parse_chunk(httpd_t *w, pstream_t *ps)
         w->state = HTTP_PARSER_CHUNK_HDR;
         return PARSE_OK;
     }
-    if (plen >= w->cfg->on_data_threshold) {
-        RETHROW(httpd_flush_data(w, q, ps, false));
+    if (w->chunk_length > 0 && plen >= w->cfg->on_data_threshold) {
+        /* XXX: do not take the CR that ends the chunk as data */
+        pstream_t tmp = ps_init(ps->s, MIN(plen, w->chunk_length));
+
+        RETHROW(httpd_flush_data(w, q, &tmp, false));
+        __ps_skip_upto(ps, tmp.s);
     }
     return PARSE_MISSING_DATA;
 }
@@ -2637,8 +2641,12 @@ static int httpc_parse_chunk(httpc_t *w, pstream_t *ps)
         w->state = HTTP_PARSER_CHUNK_HDR;
         return PARSE_OK;
     }
-    if (plen >= w->cfg->on_data_threshold) {
-        RETHROW(httpc_flush_data(w, q, ps, false));
+    if (w->chunk_length > 0 && plen >= w->cfg->on_data_threshold) {
+        /* XXX: do not take the CR that ends the chunk as data */
+        pstream_t tmp = ps_init(ps->s, MIN(plen, w->chunk_length));
+
+        RETHROW(httpc_flush_data(w, q, &tmp, false));
+        __ps_skip_upto(ps, tmp.s);
     }
     return PARSE_MISSING_DATA;
 }
-- 
2.43.0


From a55c9f318df13f91f4267709ef8b4a8c76df1092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:37 +0000
Subject: [PATCH 140/187] fix: refuse HTTP chunks whose length does not fit

---
 src/net/http.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net/http.c b/src/net/http.c
index cf9d2ef..dcd85a8 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1522,6 +1522,9 @@ static int httpd_parse_chunk_hdr(httpd_t *w, pstream_t *ps)
     }
     for (const char *s = hex.s; s < hex.s_end; s++)
         len = (len << 4) | __str_digit_value[*s + 128];
+    if (unlikely(len > INT_MAX - 2)) {
+        goto cancel_query;
+    }
     w->chunk_length = len;
     w->state = len ? HTTP_PARSER_CHUNK : HTTP_PARSER_CHUNK_TRAILER;
     q->received_body_length += ps->s - orig;
@@ -2619,6 +2622,9 @@ static int httpc_parse_chunk_hdr(httpc_t *w, pstream_t *ps)
     }
     for (const char *s = hex.s; s < hex.s_end; s++)
         len = (len << 4) | __str_digit_value[*s + 128];
+    if (unlikely(len > INT_MAX - 2)) {
+        return PARSE_ERROR;
+    }
     w->chunk_length = len;
     w->state = len ? HTTP_PARSER_CHUNK : HTTP_PARSER_CHUNK_TRAILER;
     q->received_body_length += ps->s - orig;
-- 
2.43.0


From 7a3d64cfebca00acf1e90379f62e80a7e511edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:37 +0000
Subject: [PATCH 141/187] fix: refuse HTTP status lines without a status

---
 src/net/http.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index dcd85a8..adf92d3 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -419,7 +419,9 @@ http_parse_status_line(pstream_t *ps, unsigned max_len, httpc_qinfo_t *qi)
         return PARSE_ERROR;
     }
     qi->http_version |= RETHROW(ps_get_ver(&line));
-    __ps_skip(&line, 1);
+    if (ps_getc(&line) != ' ') {
+        return PARSE_ERROR;
+    }
 
     if (ps_get_ps_chr(&line, ' ', &code) || ps_len(&code) != 3) {
         return PARSE_ERROR;
-- 
2.43.0


From 8bb68a45025030b80bbc9d487e1adbf43d7684db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:37 +0000
Subject: [PATCH 142/187] fix: ignore the length of HTTP informational
 responses

---
 src/net/http.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net/http.c b/src/net/http.c
index adf92d3..19b7d97 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -2508,6 +2508,7 @@ static int httpc_parse_idle(httpc_t *w, pstream_t *ps)
 
     if (req.code >= 100 && req.code < 200) {
         w->state = HTTP_PARSER_IDLE;
+        w->chunk_length = 0;
 
         /* rfc 2616: §10.1: A client MUST be prepared to accept one or more
          * 1xx status responses prior to a regular response.
-- 
2.43.0


From aa7508088d2849c938b031817344628ad5859770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:37 +0000
Subject: [PATCH 143/187] fix: skip the empty lines before an HTTP request

---
 src/net/http.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/net/http.c b/src/net/http.c
index 19b7d97..8bf4b9e 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1246,6 +1246,11 @@ static int httpd_parse_idle(httpd_t *w, pstream_t *ps)
     httpd_trigger_t *cb = NULL;
     struct timeval now;
 
+    /* rfc 2616: §4.1: ignore the empty lines before the request line */
+    while (ps_skipstr(ps, "\r\n") == 0) {
+        w->chunk_length = start = 0;
+    }
+
     if ((p = memmem(ps->s + start, ps_len(ps) - start, "\r\n\r\n", 4)) == NULL) {
         if (ps_len(ps) > w->cfg->header_size_max) {
             q = httpd_query_create(w, NULL);
-- 
2.43.0


From 07e3c00397e4c6d31c14d1bb5d0a086ffc8c9f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:37 +0000
Subject: [PATCH 144/187] fix: close on unknown HTTP transfer encodings

---
 src/net/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index 8bf4b9e..772e580 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1367,7 +1367,7 @@ static int httpd_parse_idle(httpd_t *w, pstream_t *ps)
                 httpd_reject(q, NOT_IMPLEMENTED,
                              "Transfer-Encoding %*pM is unimplemented",
                              (int)ps_len(&qhdr->val), qhdr->val.s);
-                break;
+                goto unrecoverable_error;
             }
             break;
 
-- 
2.43.0


From 1a5e39758113c59b18fcbfffce62e66345cc8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:37 +0000
Subject: [PATCH 145/187] fix: send no body in the responses to HTTP HEAD
 requests

---
 src/http.h     |  1 +
 src/net/http.c | 22 ++++++++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/http.h b/src/http.h
index 886d044..5bb57cb 100644
--- a/src/http.h
+++ b/src/http.h
@@ -517,6 +517,7 @@ struct httpd_qinfo_t {
     /* Input related */                                                      \
     bool                expect100cont : 1;                                   \
     bool                parsed        : 1;                                   \
+    bool                head          : 1;                                   \
                                                                              \
     /* Output related */                                                     \
     bool                own_ob        : 1;                                   \
diff --git a/src/net/http.c b/src/net/http.c
index 772e580..db72c55 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -840,7 +840,7 @@ void httpd_reply_done(httpd_query_t *q)
 
     assert (q->hdrs_done && !q->answered && !q->chunk_started);
     if (q->chunked) {
-        ob_adds(ob, "\r\n0\r\n\r\n");
+        ob_adds(ob, q->head ? "\r\n" : "\r\n0\r\n\r\n");
     }
     if (q->clength_hack) {
         http_clength_patch(ob, ob->sb.data + q->chunk_hdr_offs,
@@ -907,12 +907,15 @@ void httpd_reject_(httpd_query_t *q, int code, const char *fmt, ...)
     ob_adds(ob, "Content-Type: text/html\r\n");
     httpd_reply_hdrs_done(q, -1, false);
 
-    ob_addf(ob, "<html><body><h1>%d - %*pM</h1><p>",
-            code, LSTR_FMT_ARG(http_code_to_str(code)));
-    va_start(ap, fmt);
-    ob_addvf(ob, fmt, ap);
-    va_end(ap);
-    ob_adds(ob, "</p></body></html>\r\n");
+    /* rfc 2616: §4.3: responses to HEAD have no body */
+    if (!q->head) {
+        ob_addf(ob, "<html><body><h1>%d - %*pM</h1><p>",
+                code, LSTR_FMT_ARG(http_code_to_str(code)));
+        va_start(ap, fmt);
+        ob_addvf(ob, fmt, ap);
+        va_end(ap);
+        ob_adds(ob, "</p></body></html>\r\n");
+    }
 
     va_start(ap, fmt);
     httpd_notify_status(q->owner, q, HTTPD_QUERY_STATUS_ANSWERED, fmt, ap);
@@ -937,7 +940,9 @@ void httpd_reject_unauthorized(httpd_query_t *q, lstr_t auth_realm)
     ob_addf(ob, "WWW-Authenticate: Basic realm=\"%*pM\"\r\n",
             LSTR_FMT_ARG(auth_realm));
     httpd_reply_hdrs_done(q, body.len, false);
-    ob_add(ob, body.s, body.len);
+    if (!q->head) {
+        ob_add(ob, body.s, body.len);
+    }
 
     httpd_notify_status(q->owner, q, HTTP_CODE_UNAUTHORIZED, "", va);
     httpd_reply_done(q);
@@ -1288,6 +1293,7 @@ static int httpd_parse_idle(httpd_t *w, pstream_t *ps)
     q = httpd_query_create(w, cb);
     q->received_hdr_length = ps_len(&req.hdrs_ps);
     q->http_version = req.http_version;
+    q->head         = req.method == HTTP_METHOD_HEAD;
     q->qinfo        = &req;
     buf = __ps_get_ps_upto(ps, p + 2);
     __ps_skip_upto(ps, p + 4);
-- 
2.43.0


From fe52bc8e6fab455baf1221f1cb2b924f62bc9658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:37 +0000
Subject: [PATCH 146/187] fix: expect no body after the HTTP HEAD and 304
 responses

---
 src/http.h     |  1 +
 src/net/http.c | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/http.h b/src/http.h
index 5bb57cb..b7d76a6 100644
--- a/src/http.h
+++ b/src/http.h
@@ -997,6 +997,7 @@ struct httpc_query_t {
     bool           clength_hack  : 1;
     bool           query_done    : 1;
     bool           expect100cont : 1;
+    bool           head          : 1;
 
     void (*nullable on_100cont)(httpc_query_t * nonnull q);
     int (*nullable on_hdrs)(httpc_query_t * nonnull q);
diff --git a/src/net/http.c b/src/net/http.c
index db72c55..83c665c 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -2497,6 +2497,13 @@ static int httpc_parse_idle(httpc_t *w, pstream_t *ps)
         }
     }
 
+    q = dlist_first_entry(&w->query_list, httpc_query_t, query_link);
+
+    if (q->head || req.code == HTTP_CODE_NOT_MODIFIED) {
+        /* rfc 2616: §4.4: no body whatever the headers say */
+        w->chunk_length = 0;
+        w->state = HTTP_PARSER_BODY;
+    } else
     if (chunked) {
         /* rfc 2616: §4.4: if chunked, then ignore any Content-Length */
         w->chunk_length = 0;
@@ -2515,8 +2522,6 @@ static int httpc_parse_idle(httpc_t *w, pstream_t *ps)
     req.hdrs     = hdrs.tab;
     req.hdrs_len = hdrs.len;
 
-    q = dlist_first_entry(&w->query_list, httpc_query_t, query_link);
-
     if (req.code >= 100 && req.code < 200) {
         w->state = HTTP_PARSER_IDLE;
         w->chunk_length = 0;
@@ -3388,6 +3393,7 @@ void httpc_query_start_flags(httpc_query_t *q, http_method_t m,
     if (w->connection_close) {
         ob_adds(ob, "Connection: close\r\n");
     }
+    q->head = m == HTTP_METHOD_HEAD;
     q->hdrs_started = true;
 }
 
-- 
2.43.0


From 852294eb8bbd3457f99ce286ae34c060cb42428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:15 +0000
Subject: [PATCH 147/187] fix: close the HTTP connection after a last reply
 that ends empty

---
 src/net/http.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index 83c665c..1a0e8a4 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1161,7 +1161,10 @@ static void httpd_set_mask(httpd_t *w)
         mask = POLLIN;
     }
 
-    if (!ob_is_empty(&w->ob)) {
+    if (!ob_is_empty(&w->ob)
+    ||  (w->state == HTTP_PARSER_CLOSE && w->queries == 0))
+    {
+        /* there is data to write, or the connection has to be closed */
         mask |= POLLOUT;
     }
 
-- 
2.43.0


From dd3fbf252ab38e65495f34777247d089e2e43dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:27 +0000
Subject: [PATCH 148/187] fix: close the directories listed by the HTTP static
 trigger

---
 src/net/http-srv-static.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/net/http-srv-static.c b/src/net/http-srv-static.c
index 2967665..59ed505 100644
--- a/src/net/http-srv-static.c
+++ b/src/net/http-srv-static.c
@@ -105,6 +105,9 @@ static void httpd_query_reply_make_index_(httpd_query_t *q, int dfd,
     outbuf_t *ob;
 
     if (!dir) {
+        if (dfd >= 0) {
+            close(dfd);
+        }
         httpd_reject(q, NOT_FOUND, "");
         return;
     }
@@ -133,10 +136,10 @@ static void httpd_query_reply_make_index_(httpd_query_t *q, int dfd,
                 ob_addf(ob, "<a href=\"%s\">%s</a><br>", de->d_name, de->d_name);
             }
         }
-        closedir(dir);
 
         ob_adds(ob, "</body></html>\r\n");
     }
+    closedir(dir);
     httpd_reply_done(q);
 }
 
@@ -167,6 +170,7 @@ void httpd_reply_file(httpd_query_t *q, int dfd, const char *file, bool head)
         if (file[strlen(file) - 1] != '/')
             goto ret404;
         httpd_reply_make_index(q, fd, head);
+        close(fd);
         return;
     }
     if (!S_ISREG(st.st_mode))
-- 
2.43.0


From 03ad179313d222af29f4767eff518259b25fb4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:45 +0000
Subject: [PATCH 149/187] fix: get the whole output of the captured child
 processes

---
 src/core/el.blk | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index 23d0db3..a66839b 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -16,6 +16,7 @@
 /*                                                                         */
 /***************************************************************************/
 
+#include <sys/ioctl.h>
 #include <sys/wait.h>
 #include <pthread.h>
 #include <lib-common/container-qheap.h>
@@ -1009,9 +1010,13 @@ pid_t el_spawn_child_capture(const char *file,
             ctx->child();
         }
     }, ^(el_t el, pid_t _pid, int status) {
-        spawn_child_capture_on_output(ctx->capture,
-                                      el_fd_get_fd(ctx->capture),
-                                      POLLIN, (data_t){ .ptr = ctx });
+        int fd = el_fd_get_fd(ctx->capture);
+        int left = 0;
+
+        /* Get everything the child left in the pipe. */
+        if (ioctl(fd, FIONREAD, &left) == 0 && left > 0) {
+            IGNORE(sb_read(&ctx->out, fd, left));
+        }
         ctx->blk(el, _pid, status, LSTR_SB_V(&ctx->out));
     }, ^{
         spawn_child_capture_t *_ctx = ctx;
-- 
2.43.0


From ccb1eb41051c4bc079144d923c8734e657a81e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:28 +0000
Subject: [PATCH 150/187] fix: do not remove the file after a failed append or
 a huge write

---
 src/core/unix.blk | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/unix.blk b/src/core/unix.blk
index 5fca388..87be870 100644
--- a/src/core/unix.blk
+++ b/src/core/unix.blk
@@ -604,13 +604,16 @@ ssize_t xwrite_file_extended(const char * nonnull path,
                              const void * nonnull data,
                              ssize_t dlen, int flags, mode_t mode)
 {
-    int fd, res;
+    int fd;
+    ssize_t res;
 
     fd = RETHROW(open(path, flags, mode));
     res = xwrite(fd, data, dlen);
     if (res < 0) {
         int save_errno = errno;
-        unlink(path);
+        if (flags & O_TRUNC) {
+            unlink(path);
+        }
         close(fd);
         errno = save_errno;
         return -1;
-- 
2.43.0


From f71ae8dc361743b8cbc38ad6ac16e3db71369607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:28 +0000
Subject: [PATCH 151/187] fix: look for the directories of mkdirat_p in the
 given directory

---
 src/core/unix.blk | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/unix.blk b/src/core/unix.blk
index 87be870..948fe52 100644
--- a/src/core/unix.blk
+++ b/src/core/unix.blk
@@ -46,7 +46,10 @@ int mkdirat_p(int dfd, const char *dir, mode_t mode)
     char path[PATH_MAX + 1], *p;
     int atoms = 0, res;
 
-    pstrcpy(path, sizeof(path) - 1, dir);
+    if (pstrcpy(path, sizeof(path) - 1, dir) >= ssizeof(path) - 1) {
+        errno = ENAMETOOLONG;
+        return -1;
+    }
     path_simplify(path);
     p = path + strlen(path);
 
@@ -54,7 +57,7 @@ int mkdirat_p(int dfd, const char *dir, mode_t mode)
         struct stat st;
 
         p = memrchr(path, '/', p - path) ?: path;
-        if (stat(path, &st) == 0) {
+        if (fstatat(dfd, path, &st, 0) == 0) {
             if (S_ISDIR(st.st_mode)) {
                 if (atoms == 0)
                     return 0;
@@ -77,8 +80,15 @@ int mkdirat_p(int dfd, const char *dir, mode_t mode)
         *p = '/';
       make_everything:
         if (mkdirat(dfd, path, mode) < 0) {
+            struct stat st;
+
             if (errno != EEXIST)
                 return -1;
+            RETHROW(fstatat(dfd, path, &st, 0));
+            if (!S_ISDIR(st.st_mode)) {
+                errno = ENOTDIR;
+                return -1;
+            }
             res = 0;
         } else {
             res = 1;
-- 
2.43.0


From 781eb5185e8c756d98c487f90f0b43a722da7ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:28 +0000
Subject: [PATCH 152/187] fix: return the error of the callback from list_dir

---
 src/core/unix.blk | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/unix.blk b/src/core/unix.blk
index 948fe52..4d0c7e7 100644
--- a/src/core/unix.blk
+++ b/src/core/unix.blk
@@ -478,7 +478,7 @@ static int list_dir_on_entry(const char *base, const char *path, unsigned flags,
     if (D_TYPE(de) == DT_DIR && (flags & LIST_DIR_RECUR)) {
         res = __list_dir(path, flags, files_seen, on_file);
         if (res < 0) {
-            return -1;
+            return res;
         }
         *total += res;
     }
@@ -487,7 +487,7 @@ static int list_dir_on_entry(const char *base, const char *path, unsigned flags,
     if (on_file) {
         res = on_file(base, de);
         if (res < 0) {
-            return -1;
+            return res;
         }
     }
     return 0;
-- 
2.43.0


From 832426ec07e2804791b8b062c26b5582398b9422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:28 +0000
Subject: [PATCH 153/187] fix: do not lock a removed lock file in lockdir

---
 src/core/unix.blk | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/unix.blk b/src/core/unix.blk
index 4d0c7e7..2cf9a6b 100644
--- a/src/core/unix.blk
+++ b/src/core/unix.blk
@@ -356,6 +356,8 @@ int p_unlockf(int fd, off_t start, off_t len)
 
 int lockdir(int dfd, dir_lock_t *dlock)
 {
+    struct stat st_lock, st_path;
+
     *dlock        = DIR_LOCK_INIT_V;
     dlock->lockfd = RETHROW(openat(dfd, ".lock", O_WRONLY | O_CREAT,
                                    S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH));
@@ -365,6 +367,18 @@ int lockdir(int dfd, dir_lock_t *dlock)
         return -1;
     }
 
+    /* The previous owner may have removed the lock file after we opened it,
+     * in which case someone else can lock a new one. */
+    if (fstat(dlock->lockfd, &st_lock) < 0
+    ||  fstatat(dfd, ".lock", &st_path, 0) < 0
+    ||  st_lock.st_dev != st_path.st_dev
+    ||  st_lock.st_ino != st_path.st_ino)
+    {
+        p_close(&dlock->lockfd);
+        errno = EAGAIN;
+        return -1;
+    }
+
     dlock->dfd = dup(dfd);
     return 0;
 }
-- 
2.43.0


From 88009b149b949853ffdc1cfba98eace2867cf2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:28 +0000
Subject: [PATCH 154/187] fix: only find executable files in which()

---
 src/core/unix.blk | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/unix.blk b/src/core/unix.blk
index 2cf9a6b..bb03db4 100644
--- a/src/core/unix.blk
+++ b/src/core/unix.blk
@@ -772,15 +772,19 @@ static int which_check_path(const char *nonnull cmd, const char *dir,
 {
     char local_buf[PATH_MAX];
 
+    struct stat st;
+
     RETHROW(path_extend(local_buf, dir, "%s", cmd));
     RETHROW(access(local_buf, X_OK));
+    RETHROW(stat(local_buf, &st));
+    THROW_ERR_UNLESS(S_ISREG(st.st_mode));
     pstrcpy(cmd_path, PATH_MAX, local_buf);
     return 0;
 }
 
 int which(const char *nonnull cmd, char cmd_path[static PATH_MAX])
 {
-    pstream_t ps = ps_initstr(getenv("PATH"));
+    pstream_t ps = ps_initstr(getenv("PATH") ?: "");
 
     while (!ps_done(&ps)) {
         pstream_t dir;
-- 
2.43.0


From bc84542fec4a80644e822643365ae46a8e555068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:28 +0000
Subject: [PATCH 155/187] fix: get the start time of the processes with spaces
 in their name

---
 src/core/unix-linux.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/unix-linux.c b/src/core/unix-linux.c
index 4478af9..4f5e363 100644
--- a/src/core/unix-linux.c
+++ b/src/core/unix-linux.c
@@ -367,7 +367,9 @@ int pid_get_starttime(pid_t pid, struct timeval *tv)
     unsigned long long starttime;
     FILE *pidstat = pidproc_open(pid ? pid : getpid(), "stat");
     static int boot_time;
-    int res;
+    char stat_line[BUFSIZ];
+    const char *name_end;
+    int res = 0;
 
     if (!pidstat)
         return -1;
@@ -376,9 +378,14 @@ int pid_get_starttime(pid_t pid, struct timeval *tv)
         hertz = sysconf(_SC_CLK_TCK);
 
     /* see proc(3), here we want starttime */
-    res = fscanf(pidstat,
-                 "%*d %*s %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %*u "
+    /* The name of the process may contain spaces and parentheses. */
+    if (fgets(stat_line, sizeof(stat_line), pidstat)
+    &&  (name_end = strrchr(stat_line, ')')))
+    {
+        res = sscanf(name_end,
+                 ") %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %*u "
                  "%*u %*d %*d %*d %*d %*d 0 %llu ", &starttime);
+    }
     p_fclose(&pidstat);
 
     if (res < 1) {
-- 
2.43.0


From e93916428254bb21214f9c5c0ab9d00403b0ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:35 +0000
Subject: [PATCH 156/187] fix: simplify the last dot of the paths

---
 src/core/str-path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/str-path.c b/src/core/str-path.c
index 851ae92..6d68425 100644
--- a/src/core/str-path.c
+++ b/src/core/str-path.c
@@ -152,8 +152,8 @@ int path_simplify2(char *in, bool keep_trailing_slash)
         while (*in == '/')
             in++;
         if (*in == '.') {
-            if (in[1] == '/') {
-                in += 2;
+            if (in[1] == '/' || !in[1]) {
+                in += 1 + (in[1] == '/');
                 continue;
             }
             if (in[1] == '.' && (!in[2] || in[2] == '/')) {
-- 
2.43.0


From 38045da1fd74e65334ba955dfa0b08671ced4264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:21 +0000
Subject: [PATCH 157/187] fix: do not truncate the files copied onto themselves

---
 src/core/unix.blk | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/unix.blk b/src/core/unix.blk
index bb03db4..94b1e49 100644
--- a/src/core/unix.blk
+++ b/src/core/unix.blk
@@ -189,6 +189,14 @@ static off_t fcopy(int fdin, const struct stat *stin, int fdout)
     return -1;
 }
 
+static bool is_same_file(const struct stat *st, int dfd, const char *path)
+{
+    struct stat st_path;
+
+    return fstatat(dfd, path, &st_path, 0) == 0
+        && st->st_dev == st_path.st_dev && st->st_ino == st_path.st_ino;
+}
+
 /** Copy file pathin to pathout. If pathout already exists, it will
  * be overwritten.
  *
@@ -217,8 +225,10 @@ off_t filecopy(const char *pathin, const char *pathout)
     }
 
     /* OG: this will not work if the source file is not writeable ;-) */
-    /* OG: should test if source and destination files are the same
-     * file before truncating destination file ;-) */
+    if (is_same_file(&st, AT_FDCWD, pathout)) {
+        errno = EINVAL;
+        goto end;
+    }
     fdout = open(pathout, O_WRONLY | O_CREAT | O_TRUNC, st.st_mode);
     if (fdout < 0) {
         goto end;
@@ -258,6 +268,10 @@ off_t filecopyat(int dfd_src, const char* name_src,
 
     if (fstat(fd_src, &st))
         goto error;
+    if (is_same_file(&st, dfd_dst, name_dst)) {
+        errno = EINVAL;
+        goto error;
+    }
 
     fd_dst = openat(dfd_dst, name_dst, O_WRONLY | O_CREAT | O_TRUNC,
                     st.st_mode);
-- 
2.43.0


From 0fa1332fbf643569721c024fe5721518d436aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:35 +0000
Subject: [PATCH 158/187] fix: do not overflow the vectors of ob_write

---
 src/core/str-outbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-outbuf.c b/src/core/str-outbuf.c
index 35e214b..06b4f4e 100644
--- a/src/core/str-outbuf.c
+++ b/src/core/str-outbuf.c
@@ -211,7 +211,7 @@ int ob_write_with(outbuf_t *ob, int fd,
         len = obc->length - obc->offset;
         iov[iovcnt++] = MAKE_IOVEC(obc->u.b + obc->offset, len);
         iov_size += len;
-        if (iov_size > PREPARE_AT_LEAST || iovcnt + 2 >= sizeof(iov))
+        if (iov_size > PREPARE_AT_LEAST || iovcnt + 2 >= countof(iov))
             goto doit;
     }
 
-- 
2.43.0


From ce287c9a7e0123d80ef9866198e571d3ff220624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:04 +0000
Subject: [PATCH 159/187] fix: do not abort on a missing descriptor of an
 untrusted peer

---
 src/iop/rpc-channel.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 40adbd2..aabe4a5 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -1959,7 +1959,7 @@ static int ic_read(ichannel_t *ic, short events, int sock)
         RETHROW(ic_check_msg_hdr_flags(ic, slot, flags));
         if (unlikely(flags & IC_MSG_HAS_FD)) {
             if (ic->fds.len < 1) {
-                assert (ic->fd_overflow);
+                assert (ic->fd_overflow || !ic->is_trusted);
                 return -1;
             } else {
                 ic->current_fd = ic->fds.tab[0];
-- 
2.43.0


From 3be007b7c0f90050ffc864ebb1f787346d8eca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:04 +0000
Subject: [PATCH 160/187] fix: check the headers of the messages received at
 once

---
 src/iop/rpc-channel.blk | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index aabe4a5..0e599fb 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -1161,8 +1161,7 @@ ic_read_process_answer(ichannel_t *ic, int cmd, uint32_t slot,
     if (cmd == IC_MSG_EXN) {
         st = tmp->rpc->exn;
     } else {
-        assert (dlen == 0 || cmd == IC_MSG_INVALID);
-        if (dlen > 0) {
+        if (dlen > 0 && cmd == IC_MSG_INVALID) {
             lstr_t err = LSTR_INIT_V(data, dlen - 1);
             iop_set_err2(&err);
             ic_msg_trace(tmp, "%s %*pM", ic_status_to_string(cmd),
@@ -1956,7 +1955,7 @@ static int ic_read(ichannel_t *ic, short events, int sock)
 
         starves = true;
         errno = 0;
-        RETHROW(ic_check_msg_hdr_flags(ic, slot, flags));
+        RETHROW(ic_check_msg_hdr(ic));
         if (unlikely(flags & IC_MSG_HAS_FD)) {
             if (ic->fds.len < 1) {
                 assert (ic->fd_overflow || !ic->is_trusted);
-- 
2.43.0


From ad48ebc6ed20925a23585173023bc08e82b447c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:04 +0000
Subject: [PATCH 161/187] fix: reject the synchronous queries without slot

---
 src/iop/rpc-channel.blk | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 0e599fb..6032014 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -1514,6 +1514,10 @@ ic_read_process_query(ichannel_t *ic, int cmd, uint32_t slot,
     }
     e = ic->impl->values + pos;
     st = e->rpc ? e->rpc->args : NULL;
+    if (unlikely(!slot && e->rpc && !e->rpc->async && !ic_is_local(ic))) {
+        /* the answer has nowhere to go */
+        return -1;
+    }
 
 #ifndef NDEBUG
     /* Flag as traced incoming queries that are not traced but should be in
-- 
2.43.0


From 6b16cef13652301171719bc81c5de95b88af7ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:04 +0000
Subject: [PATCH 162/187] fix: do not crash on messages of unknown priority

---
 src/iop/rpc-channel.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 6032014..5610f18 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -2245,7 +2245,7 @@ static void ic_queue(ichannel_t *ic, ic_msg_t *msg, uint32_t flags)
         ic_msg_t *prev = NULL;
 
         htlist_for_each_entry(curr, &ic->msg_list, msg_link) {
-            if (curr->priority != EV_PRIORITY_HIGH) {
+            if (curr->priority < EV_PRIORITY_HIGH) {
                 break;
             }
             prev = curr;
-- 
2.43.0


From 2b94d4faef5cd868ec630c314cd0945c70878cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:07 +0000
Subject: [PATCH 163/187] fix: reject the answers to queries that are not sent
 yet

---
 src/iop/rpc-channel.blk | 9 +++++++--
 src/iop/rpc-channel.h   | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 5610f18..e489fcd 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -1060,6 +1060,7 @@ static int ic_write(ichannel_t *ic, int fd)
             }
 
             htlist_pop(&ic->iov_list);
+            msg->queued = false;
             ic_msg_trace(msg, "written on socket");
             if (msg->cmd <= 0 || msg->slot == 0) {
                 ic_msg_delete(&msg);
@@ -1117,13 +1118,16 @@ ic_read_process_answer(ichannel_t *ic, int cmd, uint32_t slot,
                        const void *data, int dlen,
                        const ic_msg_t *unpacked_msg)
 {
-    ic_msg_t *tmp = ic_query_take(ic, slot);
+    int32_t pos = qm_find(ic_msg, &ic->queries, slot);
     const iop_struct_t *st;
+    ic_msg_t *tmp;
 
-    if (unlikely(!tmp)) {
+    /* the queries that are not sent yet cannot be answered */
+    if (unlikely(pos < 0 || ic->queries.values[pos]->queued)) {
         errno = 0;
         return -1;
     }
+    tmp = ic_query_take(ic, slot);
 
     ic_msg_trace(tmp, "processing answer");
 
@@ -2216,6 +2220,7 @@ static void ic_queue(ichannel_t *ic, ic_msg_t *msg, uint32_t flags)
     assert (msg->dlen >= IC_MSG_HDR_LEN && msg->data);
 
     flags |= msg->slot;
+    msg->queued = true;
     ic_msg_update_flags(msg, &flags);
     put_unaligned_le32(buffer, flags);
     put_unaligned_le32(buffer + IC_MSG_CMD_OFFSET, msg->cmd);
diff --git a/src/iop/rpc-channel.h b/src/iop/rpc-channel.h
index 6406813..d738e99 100644
--- a/src/iop/rpc-channel.h
+++ b/src/iop/rpc-channel.h
@@ -375,6 +375,7 @@ struct ic_msg_t {
     bool          trace      :  1; /**< Activate tracing for this message. */
     bool          canceled   :  1; /**< Is the query canceled ? */
     ev_priority_t priority   :  2; /**< Priority of the message. */
+    bool          queued     :  1; /**< Is the message still to be written? */
     int32_t  cmd;                  /**< automatically filled by ic_query/reply
                                         */
     uint32_t slot;                 /**< automatically filled by ic_query/reply
-- 
2.43.0


From 3bfd3c02519d809c5a5848abae35fa2606a8839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:26 +0000
Subject: [PATCH 164/187] fix: close the descriptor of an invalid message

---
 src/iop/rpc-channel.blk | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index e489fcd..e30c5e0 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -2165,6 +2165,7 @@ static int ic_event(el_t ev, int fd, short events, data_t priv)
     return 0;
 
 close:
+    p_close(&ic->current_fd);
     if (ic->is_spawned && !ic->no_autodel) {
         ic_delete(&ic);
     } else {
-- 
2.43.0


From 67c2750af7465d23d99fbe8a282ee2d425182e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:23 +0000
Subject: [PATCH 165/187] fix: sign of the results of constant expressions

A negative result was taken for an unsigned number when it was the
difference, the product, the quotient or the remainder of two numbers
coming from signed ones: -5 - -3, -7 % -2, (5 + -3) * -1 or 1 - (5 + -3)
were huge unsigned numbers.
---
 src/iop/cfolder.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/iop/cfolder.c b/src/iop/cfolder.c
index 58e5956..4e666f0 100644
--- a/src/iop/cfolder.c
+++ b/src/iop/cfolder.c
@@ -148,17 +148,19 @@ static int cf_reduce(qv_t(cf_elem) *stack)
       case CF_OP_SUB:
         if (unary) {
             res.num       = -eright.num;
-            res.is_signed = !eright.is_signed;
+            /* The opposite of a negative number is positive, the one of a
+             * positive number that comes from signed ones is not. */
+            res.is_signed = !eright.is_signed || SIGNED(eright.num) > 0;
         } else {
             res.num = eleft.num - eright.num;
             if (eleft.is_signed && eright.is_signed) {
-                res.is_signed = SIGNED(eleft.num) > SIGNED(eright.num);
+                res.is_signed = true;
             } else
             if (eleft.is_signed && !eright.is_signed) {
                 res.is_signed = true;
             } else
             if (!eleft.is_signed && eright.is_signed) {
-                res.is_signed = false;
+                res.is_signed = SIGNED(eright.num) > 0;
             } else {
                 res.is_signed = eleft.num < eright.num;
             }
@@ -166,8 +168,8 @@ static int cf_reduce(qv_t(cf_elem) *stack)
         break;
       case CF_OP_MUL:
         assert (!unary);
-        res.is_signed = eleft.is_signed ^ eright.is_signed;
-        if (eleft.is_signed || eright.is_signed) {
+        res.is_signed = eleft.is_signed || eright.is_signed;
+        if (res.is_signed) {
             res.num = SIGNED(eleft.num) * SIGNED(eright.num);
         } else {
             res.num = eleft.num * eright.num;
@@ -185,8 +187,8 @@ static int cf_reduce(qv_t(cf_elem) *stack)
             return e_error("division overflow");
         }
 
-        res.is_signed = eleft.is_signed ^ eright.is_signed;
-        if (eleft.is_signed || eright.is_signed) {
+        res.is_signed = eleft.is_signed || eright.is_signed;
+        if (res.is_signed) {
             res.num = SIGNED(eleft.num) / SIGNED(eright.num);
         } else {
             res.num = eleft.num / eright.num;
@@ -203,8 +205,8 @@ static int cf_reduce(qv_t(cf_elem) *stack)
         {
             return e_error("modulo overflow");
         }
-        res.is_signed = eleft.is_signed ^ eright.is_signed;
-        if (eleft.is_signed || eright.is_signed) {
+        res.is_signed = eleft.is_signed || eright.is_signed;
+        if (res.is_signed) {
             res.num = SIGNED(eleft.num) % SIGNED(eright.num);
         } else {
             res.num = eleft.num % eright.num;
-- 
2.43.0


From e23355829ab51fbbb0b3d28ece082c76e4577f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:35 +0000
Subject: [PATCH 166/187] fix: overflows in constant expressions

The overflows of products, and of subtractions from a negative number, were
not reported, unlike the ones of additions and powers:
4294967296 * 4294967296 was 0 and -9223372036854775808 - 1 was positive.
---
 src/iop/cfolder.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/iop/cfolder.c b/src/iop/cfolder.c
index 4e666f0..d25cd58 100644
--- a/src/iop/cfolder.c
+++ b/src/iop/cfolder.c
@@ -164,15 +164,27 @@ static int cf_reduce(qv_t(cf_elem) *stack)
             } else {
                 res.is_signed = eleft.num < eright.num;
             }
+            if (eleft.is_signed) {
+                int64_t sres;
+
+                CF_OVERFLOW(!__builtin_sub_overflow(SIGNED(eleft.num),
+                                                    SIGNED(eright.num),
+                                                    &sres));
+            }
         }
         break;
       case CF_OP_MUL:
         assert (!unary);
         res.is_signed = eleft.is_signed || eright.is_signed;
         if (res.is_signed) {
-            res.num = SIGNED(eleft.num) * SIGNED(eright.num);
+            int64_t sres;
+
+            CF_OVERFLOW(!__builtin_mul_overflow(SIGNED(eleft.num),
+                                                SIGNED(eright.num), &sres));
+            res.num = sres;
         } else {
-            res.num = eleft.num * eright.num;
+            CF_OVERFLOW(!__builtin_mul_overflow(eleft.num, eright.num,
+                                                &res.num));
         }
         break;
       case CF_OP_DIV:
-- 
2.43.0


From 0542d281abe258dd252757bd8897df5fe3ffd616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:35 +0000
Subject: [PATCH 167/187] fix: forget the refused expressions when a JSON lexer
 is reused

What was read of a malformed expression was left in the lexer, and was a
part of the first expression of the next document: after "[1 + ]", the
document "[3]" was read as "[4]".
---
 src/iop/json.blk | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iop/json.blk b/src/iop/json.blk
index 69e69d5..b4a98ae 100644
--- a/src/iop/json.blk
+++ b/src/iop/json.blk
@@ -856,6 +856,10 @@ static void iop_jlex_reset(iop_json_lex_t *ll)
 
     sb_reset(&ll->cur_ctx.b);
     sb_reset(&ll->peeked_ctx.b);
+
+    /* A refused expression must not leak in the next one. */
+    qv_clear(&ll->cfolder->stack);
+    ll->cfolder->paren_cnt = 0;
 }
 
 void iop_jlex_attach(iop_json_lex_t *ll, pstream_t *ps)
-- 
2.43.0


From 1accc0e0d4c8b824473486c1204184ec7e085d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:46 +0000
Subject: [PATCH 168/187] fix: do not clear the free pages after a block of
 pages extended in place

qpage_remap() cleared the whole free block it took the new pages from,
without the lock: another thread could lose the content of pages it had just
been given.
---
 src/core/qpage.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/qpage.c b/src/core/qpage.c
index 2a3c886..239f6f4 100644
--- a/src/core/qpage.c
+++ b/src/core/qpage.c
@@ -583,7 +583,7 @@ static void *remap(void *ptr, size_t old_n, uint32_t old_seg,
     qpage_t *qp = ptr;
     page_desc_t *blk, *tmp, *next;
     page_run_t *run;
-    uint32_t bsz;
+    uint32_t bsz, old_bsz;
 
     if (unlikely(old_seg > (uint32_t)_G.segs.len)) {
         old_seg = qpage_find_seg(qp);
@@ -604,6 +604,7 @@ static void *remap(void *ptr, size_t old_n, uint32_t old_seg,
         return ptr;
     }
 
+    old_bsz = bsz;
     spin_lock(&_G.lock);
     next = blk_next(blk, bsz);
     if ((next->flags & BLK_FREE) && new_n <= bsz + blk_size(next)) {
@@ -619,8 +620,8 @@ static void *remap(void *ptr, size_t old_n, uint32_t old_seg,
         mem_tool_allow_memory(qp + old_n, (new_n - old_n) * QPAGE_SIZE, zero);
 
         if (zero) {
-            p_clear(qp + old_n, bsz - old_n);
-            blk_cleanse(run, blk_no(blk) + bsz, new_n - bsz);
+            p_clear(qp + old_n, old_bsz - old_n);
+            blk_cleanse(run, blk_no(blk) + old_bsz, new_n - old_bsz);
         }
         if (new_seg)
             *new_seg = old_seg;
-- 
2.43.0


From 0733ddfd538ce390fc2e1c359305c60f44563571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:10 +0000
Subject: [PATCH 169/187] fix: page blocks extended over a whole free block

The block after the free one still believed that its previous block was
free, and merged with it, in use, when it was freed in turn: the same pages
were then given twice.
---
 src/core/qpage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/qpage.c b/src/core/qpage.c
index 239f6f4..63ff0f3 100644
--- a/src/core/qpage.c
+++ b/src/core/qpage.c
@@ -613,7 +613,7 @@ static void *remap(void *ptr, size_t old_n, uint32_t old_seg,
             tmp = blk_next(blk, new_n);
             blk_insert(tmp, bsz - new_n);
         } else {
-            next->flags &= ~BLK_PREV_FREE;
+            blk_next(blk, bsz)->flags &= ~BLK_PREV_FREE;
         }
         blk_setup_backptrs(blk, (blk->flags & BLK_PREV_FREE), new_n);
         spin_unlock(&_G.lock);
-- 
2.43.0


From 1869d2bc91d94318792a2cdbbccc9e23a1556589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:03 +0000
Subject: [PATCH 170/187] fix: give the pages back when the page allocator is
 shut down

---
 src/core/qpage.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/qpage.c b/src/core/qpage.c
index 63ff0f3..d58ab82 100644
--- a/src/core/qpage.c
+++ b/src/core/qpage.c
@@ -709,7 +709,11 @@ static int qpage_initialize(void *arg)
 static int qpage_shutdown(void)
 {
     for (int i = 0; i < _G.segs.len; i++) {
-        free(run_of(_G.segs.tab[i], 0));
+        page_run_t *run = run_of(_G.segs.tab[i], 0);
+
+        mem_tool_allow_memory(run->mem_pages, run->npages * QPAGE_SIZE, true);
+        munmap(run->mem_pages, run->npages * QPAGE_SIZE);
+        free(run);
     }
     qv_wipe(&_G.segs);
     p_delete(&_G.bits);
-- 
2.43.0


From 863b9e5f58659e798001a384a67803d36744c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:42 +0000
Subject: [PATCH 171/187] fix: read the table of the page segments with its
 lock held

A thread freeing or remapping pages could read the table while another one
was moving it to add a segment.
---
 src/core/qpage.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/core/qpage.c b/src/core/qpage.c
index d58ab82..80b680d 100644
--- a/src/core/qpage.c
+++ b/src/core/qpage.c
@@ -375,6 +375,7 @@ free_n(page_run_t *run, page_desc_t *blk, size_t npages, uint32_t seg)
     size_t bsz;
 
     spin_lock(&_G.lock);
+    assert (!(blk->flags & BLK_FREE));
     if (blk->flags & BLK_PGINRUN) {
         bsz = blk_cut(blk);
     } else {
@@ -561,16 +562,27 @@ void *qpage_alloc_align(size_t npages, size_t shift, uint32_t *seg)
     return run->mem_pages + blk_no(blk);
 }
 
-static inline int32_t qpage_find_seg(qpage_t *qp)
+/* The table of segments can be moved by any allocation: only read it with the
+ * lock held.
+ */
+static inline page_run_t *qpage_find_run(qpage_t *qp, uint32_t *seg)
 {
     spin_lock(&_G.lock);
+    if (likely(*seg < (uint32_t)_G.segs.len)) {
+        page_desc_t *blk = _G.segs.tab[*seg];
+        page_run_t  *run = run_of(blk, blk_no(blk));
+
+        spin_unlock(&_G.lock);
+        return run;
+    }
     for (int i = 0; i < _G.segs.len; i++) {
         page_desc_t *blk = _G.segs.tab[i];
         page_run_t  *run = run_of(blk, blk_no(blk));
 
         if ((size_t)(qp - run->mem_pages) < run->npages) {
             spin_unlock(&_G.lock);
-            return i;
+            *seg = i;
+            return run;
         }
     }
     e_panic("invalid pointer or segment");
@@ -585,15 +597,13 @@ static void *remap(void *ptr, size_t old_n, uint32_t old_seg,
     page_run_t *run;
     uint32_t bsz, old_bsz;
 
-    if (unlikely(old_seg > (uint32_t)_G.segs.len)) {
-        old_seg = qpage_find_seg(qp);
-    }
-    tmp   = _G.segs.tab[old_seg];
-    run   = run_of(tmp, blk_no(tmp));
+    run   = qpage_find_run(qp, &old_seg);
     blk   = run->pages + (qp - run->mem_pages);
     assert (blk + old_n <= run->pages + run->npages);
+    spin_lock(&_G.lock);
     assert (!(blk->flags & BLK_FREE));
     bsz   = blk_size(blk);
+    spin_unlock(&_G.lock);
     assert (old_n <= bsz);
 
     if (new_n <= bsz) {
@@ -672,20 +682,15 @@ void *qpage_remap(void *ptr, size_t old_n, uint32_t old_seg,
 void qpage_free_n(void *ptr, size_t npages, uint32_t seg)
 {
     qpage_t *qp = ptr;
-    page_desc_t *blk, *tmp;
+    page_desc_t *blk;
     page_run_t *run;
 
     if (!ptr)
         return;
 
-    if (unlikely(seg > (uint32_t)_G.segs.len)) {
-        seg = qpage_find_seg(qp);
-    }
-    tmp   = _G.segs.tab[seg];
-    run   = run_of(tmp, blk_no(tmp));
+    run   = qpage_find_run(qp, &seg);
     blk   = run->pages + (qp - run->mem_pages);
     assert (blk + npages <= run->pages + run->npages);
-    assert (!(blk->flags & BLK_FREE));
     free_n(run, blk, npages, seg);
 }
 
-- 
2.43.0


From 4524f499217ad93aa588f2bdc3ae4a8f2de4f40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:10 +0000
Subject: [PATCH 172/187] fix: RPCs received over HTTP and proxied to a local
 channel

The query is packed, which the local channel was not told. The message was
also read after having been given to the channel.
---
 src/iop/rpc-http-server.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iop/rpc-http-server.c b/src/iop/rpc-http-server.c
index 454e2fa..7390bcb 100644
--- a/src/iop/rpc-http-server.c
+++ b/src/iop/rpc-http-server.c
@@ -284,6 +284,8 @@ void __t_ichttp_query_on_done_stage2(httpd_query_t *q, ichttp_cb_t *cbe,
     }
 
     msg = ic_msg_new(sizeof(uint64_t));
+    /* the query is packed below, a local channel has to unpack it */
+    msg->force_pack = ic_is_local(pxy);
 
     if ((!ps_len(&login) || force_pxy_hdr) && pxy_hdr) {
         /* XXX on simple header we write the payload size of the HTTP
@@ -308,8 +310,9 @@ void __t_ichttp_query_on_done_stage2(httpd_query_t *q, ichttp_cb_t *cbe,
         put_unaligned_cpu64(msg->priv, slot);
     }
     __ic_bpack(msg, cbe->fun->args, value);
+    /* "msg" is not ours anymore after that */
     __ic_query(pxy, msg);
-    if (msg->async) {
+    if (cbe->fun->async) {
         httpd_reply_202accepted(q);
     }
 }
-- 
2.43.0


From 479aac0f3735ed03de9266767237f3f829aaa1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:44 +0000
Subject: [PATCH 173/187] fix: answers that are classes, of RPCs proxied for
 HTTP clients

---
 src/iop/rpc-http-server.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iop/rpc-http-server.c b/src/iop/rpc-http-server.c
index 7390bcb..b3f3bd0 100644
--- a/src/iop/rpc-http-server.c
+++ b/src/iop/rpc-http-server.c
@@ -736,9 +736,9 @@ void __ichttp_proxify(uint64_t slot, int cmd, const void *data, int dlen)
     {
         t_scope;
 
-        v  = t_new_raw(char, st->size);
+        v  = NULL;
         ps = ps_init(data, dlen);
-        if (unlikely(iop_bunpack(t_pool(), st, v, ps, false) < 0)) {
+        if (unlikely(iop_bunpack_ptr(t_pool(), st, &v, ps, false) < 0)) {
             lstr_t err_str = iop_get_err_lstr();
 #ifndef NDEBUG
             if (!err_str.s)
-- 
2.43.0


From d280ccf63c5087727bff84d9e7394804fadb30f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:45 +0000
Subject: [PATCH 174/187] fix: run the post hooks of the asynchronous RPCs
 received over HTTP

Their hook contexts were never released, and were confused with the ones of
the next queries having the same address.
---
 src/iop/rpc-http-server.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/iop/rpc-http-server.c b/src/iop/rpc-http-server.c
index b3f3bd0..020d934 100644
--- a/src/iop/rpc-http-server.c
+++ b/src/iop/rpc-http-server.c
@@ -241,8 +241,10 @@ void __t_ichttp_query_on_done_stage2(httpd_query_t *q, ichttp_cb_t *cbe,
         } else {
             (*e->u.iws_cb.cb)(NULL, slot, value, hdr);
         }
-        if (cbe->fun->async)
+        if (cbe->fun->async) {
+            ic_query_do_post_hook(NULL, cbe->cmd, slot, NULL, NULL);
             httpd_reply_202accepted(q);
+        }
 
         t_unseal();
         return;
@@ -278,6 +280,13 @@ void __t_ichttp_query_on_done_stage2(httpd_query_t *q, ichttp_cb_t *cbe,
         return;
     }
 
+    /* do post hook for proxied async RPCs */
+    if (e->t_pre_hook && cbe->fun->async) {
+        t_seal();
+        ic_query_do_post_hook(NULL, cbe->cmd, slot, NULL, NULL);
+        t_unseal();
+    }
+
     if (hdr_modified && expect(hdr)) {
         pxy_hdr = force_pxy_hdr ? pxy_hdr : hdr;
         force_pxy_hdr = true;
-- 
2.43.0


From 381b20ad4d97b68643fe6130eb2f520367169b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:47 +0000
Subject: [PATCH 175/187] fix: keep the timeout of the HTTP RPC queries that
 still wait

When only a part of the waiting queries could be sent, the timeout of the
other ones was forgotten: their callback could never be called.
---
 src/iop/rpc-http-client.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/iop/rpc-http-client.c b/src/iop/rpc-http-client.c
index 15996bd..579ead2 100644
--- a/src/iop/rpc-http-client.c
+++ b/src/iop/rpc-http-client.c
@@ -141,20 +141,17 @@ static int http_iop_get_ready_remote(http_iop_channel_t *channel,
 
 static void http_iop_restart_messages(http_iop_channel_t *channel)
 {
-    htlist_t temp;
-
-    htlist_move(&temp, &channel->queries_waiting_conn);
-    while (!htlist_is_empty(&temp)) {
+    while (!htlist_is_empty(&channel->queries_waiting_conn)) {
         http_iop_channel_remote_t *remote;
         httpc_t *httpc;
         http_iop_msg_t *msg;
 
         if (http_iop_get_ready_remote(channel, false, &remote, &httpc) < 0) {
-            htlist_splice(&channel->queries_waiting_conn, &temp);
             return;
         }
 
-        msg = htlist_pop_entry(&temp, http_iop_msg_t, link);
+        msg = htlist_pop_entry(&channel->queries_waiting_conn,
+                               http_iop_msg_t, link);
         http_iop_start_msg(channel, remote, httpc, msg, msg->args);
     }
 }
-- 
2.43.0


From eea3e576095ab5da0f7afb005171a998f664ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:11 +0000
Subject: [PATCH 176/187] fix: do not announce the end of a connection before
 its last answer

When a pipelined query asked to close the connection, the answers to the
previous ones carried "Connection: close" too if they came later, and the
clients dropped the following answers.
---
 src/net/http.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index 1a0e8a4..6f6075e 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -734,7 +734,12 @@ outbuf_t *httpd_reply_hdrs_start(httpd_query_t *q, int code,
     /* XXX: For CORS purposes, allow all origins for now */
     ob_adds(ob, "Access-Control-Allow-Origin: *\r\n");
 
-    if (q->owner && q->owner->connection_close) {
+    /* only the last answer announces the end of the connection, clients ignore
+     * what follows
+     */
+    if (q->owner && q->owner->connection_close
+    &&  dlist_is_last(&q->owner->query_list, &q->query_link))
+    {
         if (!q->conn_close) {
             ob_adds(ob, "Connection: close\r\n");
             q->conn_close = true;
-- 
2.43.0


From fa5a482dcda9edff65b8beee40c92ae101201da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:19 +0000
Subject: [PATCH 177/187] fix: do not read beyond the list of words in strfind

strfind() compared len bytes of the list, whatever remained of it, and
searched past the terminator of an empty list.
---
 src/core/str.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/str.c b/src/core/str.c
index 8f35095..90a2222 100644
--- a/src/core/str.c
+++ b/src/core/str.c
@@ -181,8 +181,8 @@ bool strfind(const char *keytable, const char *str, int sep)
 
     /* initial and trailing separators are optional */
     /* they do not cause the empty string to match */
-    for (p = keytable;;) {
-        if (!memcmp(p, str, len) && (p[len] == sep || p[len] == '\0'))
+    for (p = keytable; *p;) {
+        if (!strncmp(p, str, len) && (p[len] == sep || p[len] == '\0'))
             return true;
         for (;;) {
             p = strchr(p + 1, c);
@@ -192,6 +192,7 @@ bool strfind(const char *keytable, const char *str, int sep)
                 break;
         }
     }
+    return false;
 }
 
 
-- 
2.43.0


From 1429acc34096a61b798d822a29ddd0957f0c73fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:19 +0000
Subject: [PATCH 178/187] fix: no room for the terminator in pstrrand

With an offset at the end of the buffer, pstrrand() wrote its
terminator one byte after it.
---
 src/core/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str.c b/src/core/str.c
index 90a2222..819108c 100644
--- a/src/core/str.c
+++ b/src/core/str.c
@@ -323,7 +323,7 @@ size_t strrand(char dest[], size_t dest_size, lstr_t alphabet)
 ssize_t pstrrand(char *dest, ssize_t size, int offset, ssize_t n)
 {
     n = MIN(size - offset, n + 1);
-    if (n < 0) {
+    if (n <= 0) {
         return -1;
     }
 
-- 
2.43.0


From 9c238ad549e7fd0eec21449e1ab8d615135de730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:19 +0000
Subject: [PATCH 179/187] fix: honour the maximum distance in lstr_dlevenshtein

A distance above the limit was returned when the last row of the matrix
had a value under it: ("ab", "bx", 1) gave 2 instead of -1.
---
 src/core/str-l.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-l.c b/src/core/str-l.c
index a58baff..8651efe 100644
--- a/src/core/str-l.c
+++ b/src/core/str-l.c
@@ -421,7 +421,7 @@ int lstr_dlevenshtein(const lstr_t cs1, const lstr_t cs2, int max_dist)
         THROW_ERR_IF(min_dist > max_dist);
     }
 
-    return cur[s2.len];
+    return cur[s2.len] <= max_dist ? cur[s2.len] : -1;
 }
 
 lstr_t lstr_utf8_truncate(lstr_t s, int char_len)
-- 
2.43.0


From 3e2c854e25497b207ed4880de4dd1f502169609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:19 +0000
Subject: [PATCH 180/187] fix: texts that are not UTF-8 do not end with any
 suffix

The error of the normalization was returned as is by functions that
return a boolean, hence as true.
---
 src/core/str-l.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/str-l.c b/src/core/str-l.c
index 8651efe..c7b00bf 100644
--- a/src/core/str-l.c
+++ b/src/core/str-l.c
@@ -185,8 +185,11 @@ bool lstr_utf8_iendswith(const lstr_t s1, const lstr_t s2)
     SB_1k(sb1);
     SB_1k(sb2);
 
-    RETHROW(sb_normalize_utf8(&sb1, s1.s, s1.len, true));
-    RETHROW(sb_normalize_utf8(&sb2, s2.s, s2.len, true));
+    if (sb_normalize_utf8(&sb1, s1.s, s1.len, true) < 0
+    ||  sb_normalize_utf8(&sb2, s2.s, s2.len, true) < 0)
+    {
+        return false;
+    }
 
     return lstr_endswith(LSTR_SB_V(&sb1), LSTR_SB_V(&sb2));
 }
@@ -196,8 +199,11 @@ bool lstr_utf8_endswith(const lstr_t s1, const lstr_t s2)
     SB_1k(sb1);
     SB_1k(sb2);
 
-    RETHROW(sb_normalize_utf8(&sb1, s1.s, s1.len, false));
-    RETHROW(sb_normalize_utf8(&sb2, s2.s, s2.len, false));
+    if (sb_normalize_utf8(&sb1, s1.s, s1.len, false) < 0
+    ||  sb_normalize_utf8(&sb2, s2.s, s2.len, false) < 0)
+    {
+        return false;
+    }
 
     return lstr_endswith(LSTR_SB_V(&sb1), LSTR_SB_V(&sb2));
 }
-- 
2.43.0


From 295dc74aae78e63b55c61681e6ce9c9fbf461322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:19 +0000
Subject: [PATCH 181/187] fix: report the failures of fstat in
 lstr_init_from_fd

The comparison was made on the result of unlikely(), which is never
negative.
---
 src/core/str-l.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-l.c b/src/core/str-l.c
index c7b00bf..8f7faa1 100644
--- a/src/core/str-l.c
+++ b/src/core/str-l.c
@@ -230,7 +230,7 @@ int lstr_init_from_fd(lstr_t *dst, int fd, int prot, int flags)
     struct stat st;
     void *res;
 
-    if (unlikely(fstat(fd, &st)) < 0) {
+    if (unlikely(fstat(fd, &st) < 0)) {
         return -2;
     }
 
-- 
2.43.0


From eb6946238f3de8baf459aef5697e93bb7c50fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:20 +0000
Subject: [PATCH 182/187] fix: transfer string buffers with skipped bytes to
 strings

lstr_transfer_sb() with keep_pool moved the bytes of the buffer but kept
the pointer where they were, did not move them for the pools that need
the start of the block to free it, and gave the static empty buffer as
heap memory.
---
 src/core/str-l.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/str-l.c b/src/core/str-l.c
index 8f7faa1..840cb3e 100644
--- a/src/core/str-l.c
+++ b/src/core/str-l.c
@@ -308,12 +308,14 @@ void lstr_transfer_sb(lstr_t *dst, sb_t *sb, bool keep_pool)
     if (keep_pool) {
         mem_pool_t *mp = mp_ipool(sb->mp);
 
-        if ((mp_ipool(mp)->mem_pool & MEM_BY_FRAME)) {
-            if (sb->skip) {
-                memmove(sb->data - sb->skip, sb->data, sb->len + 1);
-            }
+        if (sb->data == __sb_slop) {
+            mp_lstr_copy_(&mem_pool_static, dst, sb->data, 0);
+            return;
+        }
+        if (sb->skip) {
+            memmove(sb->data - sb->skip, sb->data, sb->len + 1);
         }
-        mp_lstr_copy_(mp, dst, sb->data, sb->len);
+        mp_lstr_copy_(mp, dst, sb->data - sb->skip, sb->len);
         sb_init(sb);
     } else {
         lstr_wipe(dst);
-- 
2.43.0


From b2710eaeebcc5c65e5bc1c59b937456b40aa205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:01 +0000
Subject: [PATCH 183/187] fix: negation of the options named n or no

"--no-n" starts with the name of the option itself, and was then not
tried as a negation.
---
 src/core/parseopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/parseopt.c b/src/core/parseopt.c
index 699f0cb..9c2405d 100644
--- a/src/core/parseopt.c
+++ b/src/core/parseopt.c
@@ -250,7 +250,7 @@ static int parse_long_opt(popt_state_t *st, char *arg, popt_t *opts)
             continue;
         }
 
-        if (!strstart(arg_opt, opts->lng, &p)) {
+        if (!strstart(arg_opt, opts->lng, &p) || (*p && *p != '=')) {
             if (!strstart(arg_opt, "no-", &p) || !strstart(p, opts->lng, &p))
             {
                 continue;
-- 
2.43.0


From 7268c9dc7452cc2b9e0f4ff686890cccd93a9a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:01 +0000
Subject: [PATCH 184/187] fix: negated integer options and a stale errno

errno was only reset when there was a value to convert: with a stale
ERANGE, --no-xxx was refused as an integer overflow.
---
 src/core/parseopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/parseopt.c b/src/core/parseopt.c
index 9c2405d..c6dd185 100644
--- a/src/core/parseopt.c
+++ b/src/core/parseopt.c
@@ -161,6 +161,7 @@ static int get_value(popt_state_t *st, popt_t *opt, int flags)
       {
           uint64_t v;
 
+          errno = 0;
           if (flags & FLAG_UNSET) {
               v = opt->init;
           } else {
@@ -168,7 +169,6 @@ static int get_value(popt_state_t *st, popt_t *opt, int flags)
                   return opterror(opt, "requires a value", flags);
               }
 
-              errno = 0;
               if (opt->kind == OPTION_UINT) {
                   lstr_t value = lstr_ltrim(LSTR(opt_arg(st)));
 
-- 
2.43.0


From 2c2bae3d76a8b0e2fcc883c91d693211edf5d1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:01 +0000
Subject: [PATCH 185/187] fix: width of the columns of the tables with empty
 cells

The value printed in the empty cells was only taken into account for the
cells that are missing, and cut to the width of the others.
---
 src/core/str-buf-pp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-buf-pp.c b/src/core/str-buf-pp.c
index 4bb334c..4d406d3 100644
--- a/src/core/str-buf-pp.c
+++ b/src/core/str-buf-pp.c
@@ -147,7 +147,7 @@ void sb_add_table(sb_t *out, const qv_t(table_hdr) *hdr,
         *col = MAX(col_hdr->min_width, lstr_utf8_strlen(col_hdr->title));
 
         tab_for_each_ptr(row, data) {
-            if (row->len <= pos) {
+            if (row->len <= pos || !row->tab[pos].len) {
                 *col = MAX(*col, lstr_utf8_strlen(col_hdr->empty_value));
             } else {
                 *col = MAX(*col, lstr_utf8_strlen(row->tab[pos]));
-- 
2.43.0


From 0d3abe33a41574b60042f92e7ea3817f9cc6a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:01 +0000
Subject: [PATCH 186/187] fix: columns of CSV tables with short rows

A column to omit when empty was omitted, with its values, as soon as a
row too short came before them.
---
 src/core/str-buf-pp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-buf-pp.c b/src/core/str-buf-pp.c
index 4d406d3..e60452f 100644
--- a/src/core/str-buf-pp.c
+++ b/src/core/str-buf-pp.c
@@ -197,7 +197,7 @@ void sb_add_csv_table(sb_t *out, const qv_t(table_hdr) *hdr,
         tab_for_each_ptr(row, data) {
             if (row->len <= pos) {
                 /* Not enough data columns. */
-                break;
+                continue;
             }
 
             if (row->tab[pos].len) {
-- 
2.43.0


From 775569cf0d759839ba8ecb356e4cf1e24e6b9e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:55 +0000
Subject: [PATCH 187/187] fix: overflows in the slots of the large rates

---
 src/net/rate.blk | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/net/rate.blk b/src/net/rate.blk
index 6f1bc43..5f81b9f 100644
--- a/src/net/rate.blk
+++ b/src/net/rate.blk
@@ -44,7 +44,7 @@ void net_rctl_init_slots(int rate, int slots_nr,
     unsigned sum = 0;
 
     for (int i = 0; i < slots_nr; i++) {
-        slots[i] = (i + 1) * rate / slots_nr - sum;
+        slots[i] = (int64_t)(i + 1) * rate / slots_nr - sum;
         sum += slots[i];
     }
 }
@@ -53,7 +53,8 @@ static void net_rctl_init_(net_rctl_t *rctl, int rate)
 {
     p_clear(rctl, 1);
     rctl->rate      = rate;
-    rctl->slice_max = DIV_ROUND_UP(rctl->rate * 3, countof(rctl->rates));
+    rctl->slice_max = DIV_ROUND_UP(rctl->rate * UINT64_C(3),
+                                   countof(rctl->rates));
 
     net_rctl_init_slots(rate, countof(rctl->rates), rctl->rates);
 }
-- 
2.43.0

