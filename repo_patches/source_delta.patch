From 5be16ba9449327484970de9926d1c1c31340e347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 01/63] fix: trace PNError, closure and proto names and pbuf in
 the collector, and size PNError

---
 core/gc.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/core/gc.c b/core/gc.c
index d610985..ee96272 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -368,6 +368,9 @@ PN_SIZE potion_type_size(Potion *P, const struct PNObject *ptr) {
     case PN_TTABLE:
       sz = sizeof(struct PNTable) + kh_mem(PN, ptr);
     break;
+    case PN_TERROR:
+      sz = sizeof(struct PNError);
+    break;
     case PN_TLICK:
       sz = sizeof(struct PNLick);
     break;
@@ -436,6 +439,7 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
     break;
     case PN_TCLOSURE:
       GC_MINOR_UPDATE(((struct PNClosure *)ptr)->sig);
+      GC_MINOR_UPDATE(((struct PNClosure *)ptr)->name);
       for (i = 0; i < ((struct PNClosure *)ptr)->extra; i++)
         GC_MINOR_UPDATE(((struct PNClosure *)ptr)->data[i]);
     break;
@@ -454,7 +458,7 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
       GC_MINOR_UPDATE(((Potion *)ptr)->callset);
       GC_MINOR_UPDATE(((Potion *)ptr)->input);
       GC_MINOR_UPDATE(((Potion *)ptr)->source);
-      //GC_MINOR_UPDATE(((Potion *)ptr)->pbuf);
+      GC_MINOR_UPDATE(((Potion *)ptr)->pbuf);
       GC_MINOR_UPDATE(((Potion *)ptr)->line);
       GC_MINOR_UPDATE(((Potion *)ptr)->unclosed);
       //GC_MINOR_UPDATE(((Potion *)ptr)->target);
@@ -492,10 +496,18 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->debugs);
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->tree);
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->asmb);
+      GC_MINOR_UPDATE(((struct PNProto *)ptr)->name);
     break;
     case PN_TTABLE:
       GC_MINOR_UPDATE_TABLE(PN, (struct PNTable *)potion_fwd((PN)ptr), 1);
     break;
+    case PN_TERROR:
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->parent);
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->message);
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->line);
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->chr);
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->excerpt);
+    break;
     case PN_TLICK:
       GC_MINOR_UPDATE(((struct PNLick *)ptr)->name);
       GC_MINOR_UPDATE(((struct PNLick *)ptr)->attr);
@@ -542,6 +554,7 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
     break;
     case PN_TCLOSURE:
       GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->sig);
+      GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->name);
       for (i = 0; i < ((struct PNClosure *)ptr)->extra; i++)
         GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->data[i]);
     break;
@@ -568,7 +581,7 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
       //DBG_G(P,"   source\n");
       GC_MAJOR_UPDATE(((Potion *)ptr)->source);
       //DBG_G(P,"   pbuf\n");
-      //GC_MAJOR_UPDATE(((Potion *)ptr)->pbuf);
+      GC_MAJOR_UPDATE(((Potion *)ptr)->pbuf);
       //DBG_G(P,"   line\n");
       GC_MAJOR_UPDATE(((Potion *)ptr)->line);
       //DBG_G(P,"   unclosed\n");
@@ -609,10 +622,18 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->debugs);
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->tree);
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->asmb);
+      GC_MAJOR_UPDATE(((struct PNProto *)ptr)->name);
     break;
     case PN_TTABLE:
       GC_MAJOR_UPDATE_TABLE(PN, (struct PNTable *)potion_fwd((PN)ptr), 1);
     break;
+    case PN_TERROR:
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->parent);
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->message);
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->line);
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->chr);
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->excerpt);
+    break;
     case PN_TLICK:
       GC_MAJOR_UPDATE(((struct PNLick *)ptr)->name);
       GC_MAJOR_UPDATE(((struct PNLick *)ptr)->attr);
-- 
2.43.0


From 4c69eb87db7eaa070323a6e275b45f270f033127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 02/63] fix: table filter deletes from the clone by key, not by
 the original's bucket

---
 core/table.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/table.c b/core/table.c
index cc4ed80..45d87b3 100644
--- a/core/table.c
+++ b/core/table.c
@@ -275,8 +275,10 @@ PN potion_table_filter(Potion *P, PN cl, PN self, PN block) {
                                                       kh_val(PN, t, k));
       else
         ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k));
-      if (!PN_TEST(ret))
-        kh_del(PN, t2, k);
+      if (!PN_TEST(ret)) { // the clone may place the key in another bucket
+        unsigned k2 = kh_get(PN, t2, kh_key(PN, t, k));
+        if (k2 != kh_end(t2)) kh_del(PN, t2, k2);
+      }
     }
   PN_TOUCH(t2);
   return (PN)t2;
-- 
2.43.0


From 811c18131e525ebe6e8089c415b4e09714921116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 03/63] fix: minor collections sweep the interned strings after
 tracing, not before

---
 core/gc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/gc.c b/core/gc.c
index ee96272..8a98246 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -160,8 +160,6 @@ static int potion_gc_minor(Potion *P, int sz) {
 	(long)((void *)M->birth_hi - (void *)M->birth_storeptr));
   potion_mark_stack(P, 1);
 
-  GC_MINOR_STRINGS();
-
   wb = (void **)M->birth_storeptr;
   for (storead = wb; storead < (void **)M->birth_hi; storead++) {
     PN v = (PN)*storead;
@@ -174,6 +172,9 @@ static int potion_gc_minor(Potion *P, int sz) {
     scanptr = potion_mark_minor(P, scanptr);
   scanptr = 0;
 
+  // only now is it known which strings survive
+  GC_MINOR_STRINGS();
+
   sz += 2 * POTION_PAGESIZE;
   sz = max(sz, potion_birth_suggest(sz, M->old_lo, M->old_cur));
 
-- 
2.43.0


From 82d9114674373c172711367888cd0198e07224c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 04/63] fix: minor collections trace the interpreter state,
 which is stored to without a barrier

---
 core/gc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/gc.c b/core/gc.c
index 8a98246..75b3010 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -167,6 +167,8 @@ static int potion_gc_minor(Potion *P, int sz) {
       potion_mark_minor(P, (const struct PNObject *)v);
   }
   storead = 0;
+  // P itself is written without a barrier
+  potion_mark_minor(P, (const struct PNObject *)P);
 
   while ((PN)scanptr < (PN)M->old_cur)
     scanptr = potion_mark_minor(P, scanptr);
-- 
2.43.0


From 71d2f9ba17d8e8219278e6b9643ed0bcd63172f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 05/63] fix: the write barrier registers the moved object, not
 the forwarding record left behind

---
 core/potion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/potion.h b/core/potion.h
index d9b8c66..e87b4e8 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -228,7 +228,7 @@ typedef _PN (*PN_F)(Potion *, PN, PN, ...);
 #define PN_FUNC(f, s)   potion_closure_new(P, (PN_F)f, potion_sig(P, s), 0) ///<\memberof PNClosure
 #define PN_DEREF(x)     ((struct PNWeakRef *)(x))->data       ///<\memberof PNWeakRef
 #define PN_DATA(x)      ((struct PNData *)(x))->data          ///<\memberof PNData
-#define PN_TOUCH(x)     potion_gc_update(P, (PN)(x))
+#define PN_TOUCH(x)     potion_gc_update(P, potion_fwd((PN)(x)))
 #define PN_ALIGN(o, x)   (((((o) - 1) / (x)) + 1) * (x))
 
 #define PN_OBJECT_HEADER \
-- 
2.43.0


From c66c0eb0d83cd662d11746dcaaf5986231f80c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 06/63] fix: report every store of a reference into a possibly
 old object to the write barrier

---
 core/compile.c  | 92 +++++++++++++++++++++++++++++--------------------
 core/objmodel.c | 21 +++++++++--
 core/syntax.y   |  2 +-
 core/table.c    |  3 +-
 core/vm.c       |  8 +++--
 lib/aio.c       | 25 +++++++++++++-
 lib/buffile.c   |  2 ++
 lib/database.c  |  1 +
 8 files changed, 109 insertions(+), 45 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 787668d..cfa9665 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -23,8 +23,10 @@
 #include <dlfcn.h>
 #endif
 
-#define PN_ASM1(ins, _a)     f->asmb = (PN)potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, 0)
-#define PN_ASM2(ins, _a, _b) f->asmb = (PN)potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, (int)_b)
+/// store a reference which might be younger than its holder
+#define PN_SET_REF(obj, ref, val) ({ PN _ref = (PN)(val); (obj)->ref = _ref; PN_TOUCH(obj); _ref; })
+#define PN_ASM1(ins, _a)     PN_SET_REF(f, asmb, potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, 0))
+#define PN_ASM2(ins, _a, _b) PN_SET_REF(f, asmb, potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, (int)_b))
 
 const struct {
   const char *name;
@@ -226,7 +228,7 @@ PN potion_proto_string(Potion *P, PN cl, PN self) {
       if (numup != PN_NONE) { \
         up = f; \
         while (depth--) { \
-          up->upvals = PN_PUSH(up->upvals, name); \
+          PN_SET_REF(up, upvals, PN_PUSH(up->upvals, name)); \
 	  DBG_c("upvals %s =>\n", AS_STR(name)); \
           up = (struct PNProto *)up->source; \
         } \
@@ -643,7 +645,11 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
 	  vPN(Source) blk = PN_S_(t,2);
           // TODO: a hack to make sure constructors always return self
           if (PN_S(blk, 0) == PN_NIL)
-            blk->a[0] = PN_SRC(PN_AST(CODE, PN_NIL, blk->loc.lineno, blk->line));
+          {
+            PN code = (PN)PN_AST(CODE, PN_NIL, blk->loc.lineno, blk->line);
+            blk->a[0] = PN_SRC(code);
+            PN_TOUCH(blk);
+          }
           PN ctor = PN_S(blk, 0);
           PN_PUSH(ctor, PN_AST(EXPR, PN_TUP(PN_AST(MSG,
 	    PN_STRN("self", 4), blk->loc.lineno, 0)),
@@ -673,11 +679,12 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
           cl->stack = PN_NUM(1);
           cl->protos = cl->paths = cl->locals = cl->upvals = cl->values = PN_TUP0();
           cl->tree = (PN)t;
-          cl->asmb = (PN)potion_asm_new(P);
-          cl->name = PN_S(PN_TUPLE_AT(msg,0),0);
+          PN_TOUCH(cl);
+          PN_SET_REF(cl, asmb, potion_asm_new(P));
+          PN_SET_REF(cl, name, PN_S(PN_TUPLE_AT(msg,0),0));
           cl->jit = (PN_F)sym;
 	  PN sig = PN_TUPLE_LEN(msg) ? PN_TUPLE_AT(msg, 1) : PN_TUP0();
-	  cl->sig = sig;
+	  PN_SET_REF(cl, sig, sig);
 	  arity = cl->arity = potion_sig_arity(P, sig);
           for (i=0; i < arity; i++) {
 	    if (PN_TUPLE_LEN(msg) > 1) {
@@ -699,7 +706,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
 	    // maybe add code to check and fill in defaults?
 	  }
           // TODO insert code to transform return values
-	  cl->asmb = (PN)potion_asm_op(P, (PNAsm *)cl->asmb, OP_RETURN, reg, 0);
+	  PN_SET_REF(cl, asmb, potion_asm_op(P, (PNAsm *)cl->asmb, OP_RETURN, reg, 0));
           PN_ASM2(OP_PROTO, reg, PN_PUT(f->protos, (PN)cl));
           //PN_ASM2(OP_EXTERN, reg, breg);
         }
@@ -1055,16 +1062,16 @@ PN potion_source_compile(Potion *P, PN cl, PN self, PN source, PN sig) {
   f = PN_ALLOC(PN_TPROTO, struct PNProto);
   f->source = source;
   f->stack = PN_NUM(1);
-  f->protos = PN_TUP0();
-  f->paths = PN_TUP0();
-  f->locals = PN_TUP0();
-  f->upvals = PN_TUP0();
-  f->values = PN_TUP0();
-  f->debugs = PN_TUP0();
+  PN_SET_REF(f, protos, PN_TUP0());
+  PN_SET_REF(f, paths, PN_TUP0());
+  PN_SET_REF(f, locals, PN_TUP0());
+  PN_SET_REF(f, upvals, PN_TUP0());
+  PN_SET_REF(f, values, PN_TUP0());
+  PN_SET_REF(f, debugs, PN_TUP0());
   f->tree = self;
   DBG_c("-- compile --\n");
-  f->sig = (sig == PN_NIL ? PN_TUP0() : potion_sig_compile(P, f, sig));
-  f->asmb = (PN)potion_asm_new(P);
+  PN_SET_REF(f, sig, sig == PN_NIL ? PN_TUP0() : potion_sig_compile(P, f, sig));
+  PN_SET_REF(f, asmb, potion_asm_new(P));
   f->name = PN_NIL;
 
   potion_source_asmb(P, f, NULL, 0, t, 0);
@@ -1090,23 +1097,24 @@ PN potion_proto_clone(Potion *P, PN cl, PN self) {
   n->name = f->name;
   n->source = f->source;
   n->stack = f->stack;
-  n->protos = potion_send(PN_clone, f->protos);
-  n->paths  = potion_send(PN_clone, f->paths);
-  n->locals = potion_send(PN_clone, f->locals);
-  n->upvals = potion_send(PN_clone, f->upvals);
-  n->values = potion_send(PN_clone, f->values);
-  n->debugs = potion_send(PN_clone, f->debugs);
+  PN_TOUCH(n);
+  PN_SET_REF(n, protos, potion_send(PN_clone, f->protos));
+  PN_SET_REF(n, paths, potion_send(PN_clone, f->paths));
+  PN_SET_REF(n, locals, potion_send(PN_clone, f->locals));
+  PN_SET_REF(n, upvals, potion_send(PN_clone, f->upvals));
+  PN_SET_REF(n, values, potion_send(PN_clone, f->values));
+  PN_SET_REF(n, debugs, potion_send(PN_clone, f->debugs));
   n->tree   = f->tree;
   n->localsize = f->localsize;
   n->upvalsize = f->upvalsize;
   n->pathsize = f->pathsize;
-  n->sig = PN_IS_TUPLE(f->sig) ? potion_send(PN_clone, f->sig) : f->sig;
+  PN_SET_REF(n, sig, PN_IS_TUPLE(f->sig) ? potion_send(PN_clone, f->sig) : f->sig);
 
   len = ((PNAsm *)f->asmb)->len;
   PN_FLEX_NEW(asmb, PN_TBYTES, PNAsm, len);
   PN_MEMCPY_N(asmb->ptr, ((PNAsm *)f->asmb)->ptr, u8, len);
   asmb->len = len;
-  n->asmb = (PN)asmb;
+  PN_SET_REF(n, asmb, asmb);
 
   return (PN)n;
 }
@@ -1134,11 +1142,19 @@ PN potion_proto_clone(Potion *P, PN cl, PN self) {
   PN tup = potion_tuple_with_size(P, (PN_SIZE)count); \
   for (; i < count; i++)
 #define READ_VALUES(pn, ptr) ({ \
-    READ_TUPLE(ptr) PN_TUPLE_AT(tup, i) = READ_CONST(pn, ptr); \
+    READ_TUPLE(ptr) { \
+      PN item = READ_CONST(pn, ptr); \
+      PN_TUPLE_AT(tup, i) = item; \
+      PN_TOUCH(tup); \
+    } \
     tup; \
   })
 #define READ_PROTOS(pn, ptr) ({ \
-    READ_TUPLE(ptr) PN_TUPLE_AT(tup, i) = potion_proto_load(P, (PN)f, pn, &(ptr)); \
+    READ_TUPLE(ptr) { \
+      PN item = potion_proto_load(P, (PN)f, pn, &(ptr)); \
+      PN_TUPLE_AT(tup, i) = item; \
+      PN_TOUCH(tup); \
+    } \
     tup; \
   })
 
@@ -1148,24 +1164,24 @@ PN potion_proto_load(Potion *P, PN up, u8 pn, u8 **ptr) {
   PNAsm * volatile asmb = NULL;
   vPN(Proto) f = PN_ALLOC(PN_TPROTO, struct PNProto);
   // TODO extern protos
-  f->name = READ_CONST(pn, *ptr);
-  f->source = READ_CONST(pn, *ptr);
-  if (f->source == PN_NIL) f->source = up;
-  f->sig = READ_VALUES(pn, *ptr);
-  f->stack = READ_CONST(pn, *ptr);
-  f->values = READ_VALUES(pn, *ptr);
-  f->paths = READ_VALUES(pn, *ptr);
-  f->locals = READ_VALUES(pn, *ptr);
-  f->upvals = READ_VALUES(pn, *ptr);
-  f->protos = READ_PROTOS(pn, *ptr);
-  f->debugs = PN_TUP0();
+  PN_SET_REF(f, name, READ_CONST(pn, *ptr));
+  PN_SET_REF(f, source, READ_CONST(pn, *ptr));
+  if (f->source == PN_NIL) PN_SET_REF(f, source, up);
+  PN_SET_REF(f, sig, READ_VALUES(pn, *ptr));
+  PN_SET_REF(f, stack, READ_CONST(pn, *ptr));
+  PN_SET_REF(f, values, READ_VALUES(pn, *ptr));
+  PN_SET_REF(f, paths, READ_VALUES(pn, *ptr));
+  PN_SET_REF(f, locals, READ_VALUES(pn, *ptr));
+  PN_SET_REF(f, upvals, READ_VALUES(pn, *ptr));
+  PN_SET_REF(f, protos, READ_PROTOS(pn, *ptr));
+  PN_SET_REF(f, debugs, PN_TUP0());
 
   len = READ_PN(pn, *ptr);
   PN_FLEX_NEW(asmb, PN_TBYTES, PNAsm, len);
   PN_MEMCPY_N(asmb->ptr, *ptr, u8, len);
   asmb->len = len;
 
-  f->asmb = (PN)asmb;
+  PN_SET_REF(f, asmb, asmb);
   f->localsize = PN_TUPLE_LEN(f->locals);
   f->upvalsize = PN_TUPLE_LEN(f->upvals);
   f->pathsize  = PN_TUPLE_LEN(f->paths);
diff --git a/core/objmodel.c b/core/objmodel.c
index a25e7cd..ef3b4e3 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -191,14 +191,18 @@ PN potion_no_call(Potion *P, PN cl, PN self) {
 }
 
 void potion_add_metaclass(Potion *P, vPN(Vtable) vt) {
-  struct PNVtable *meta = vt->meta = PN_CALLOC_N(PN_TVTABLE, struct PNVtable, 0);
+  vPN(Vtable) meta = PN_CALLOC_N(PN_TVTABLE, struct PNVtable, 0);
+  vt->meta = meta;
+  PN_TOUCH(vt);
   meta->type = PN_FLEX_SIZE(P->vts) + PN_TNIL;
   PN_FLEX_NEEDS(1, P->vts, PN_TFLEX, PNFlex, TYPE_BATCH_SIZE);
   PN_FLEX_SIZE(P->vts)++;
   meta->name = PN_NIL;
   meta->parent = PN_TVTABLE;
   meta->methods = (struct PNTable *)potion_table_empty(P);
+  PN_TOUCH(meta);
   meta->ctor = PN_FUNC(potion_no_call, 0);
+  PN_TOUCH(meta);
   PN_VTABLE(meta->type) = (PN)meta;
   meta->meta = NULL;
   PN_TOUCH(P->vts);
@@ -210,8 +214,11 @@ PN potion_type_new(Potion *P, PNType t, PN self) {
   vt->name = PN_NIL;
   vt->parent = self ? ((struct PNVtable *)self)->type : 0;
   vt->methods = (struct PNTable *)potion_table_empty(P);
+  PN_TOUCH(vt);
   vt->ctor = PN_FUNC(potion_no_call, 0);
+  PN_TOUCH(vt);
   PN_VTABLE(t) = (PN)vt;
+  PN_TOUCH(P->vts);
   potion_add_metaclass(P, vt);
   return (PN)vt;
 }
@@ -219,6 +226,7 @@ PN potion_type_new(Potion *P, PNType t, PN self) {
 PN potion_type_new2(Potion *P, PNType t, PN self, PN name) {
   vPN(Vtable) vt = (vPN(Vtable))potion_type_new(P, t, self);
   vt->name = name;
+  PN_TOUCH(vt);
   return (PN)vt;
 }
 /// sets the default call method of the PNVtable
@@ -266,6 +274,7 @@ PN potion_class(Potion *P, PN cl, PN self, PN ivars) {
   if (!PN_IS_CLOSURE(cl))
     cl = ((struct PNVtable *)parent)->ctor;
   ((struct PNVtable *)self)->ctor = cl;
+  PN_TOUCH(self);
 
   PN_TOUCH(P->vts);
   return self;
@@ -299,6 +308,7 @@ PN potion_ivars(Potion *P, PN cl, PN self, PN ivars) {
 #endif
   vt->ivlen = PN_TUPLE_LEN(ivars);
   vt->ivars = ivars;
+  PN_TOUCH(self);
   return self;
 }
 
@@ -350,12 +360,14 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
   if (PN_TVTABLE != PN_TYPE(self)) return potion_type_error_want(P, "self.def_method", self, "VTable (a class)");
   unsigned k = kh_put(PN, vt->methods, key, &ret);
   PN_QUICK_FWD(struct PNTable *, vt->methods);
+  PN_TOUCH(vt);
   PN_TOUCH(vt->methods);
 
   if (!PN_IS_CLOSURE(method)) {
     if (PN_IS_PROTO(method)) {
       cl = potion_closure_new(P, (PN_F)potion_proto_method, PN_PROTO(method)->sig, 1);
       PN_PROTO(method)->name = key;
+      PN_TOUCH(method);
     }
     else
       cl = potion_closure_new(P, (PN_F)potion_getter_method, PN_NIL, 1);
@@ -365,8 +377,10 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
   }
   else
     PN_CLOSURE(method)->name = key;
+  PN_TOUCH(method);
 
   kh_val(PN, vt->methods, k) = method;
+  PN_TOUCH(vt->methods);
   PN_TOUCH(self);
 
 #ifdef JIT_MCACHE
@@ -647,8 +661,11 @@ static void potion_init_class_reference(Potion *P, PN name, PN vt) {
   char meta_str[strlen("<metaclass: >") + PN_STR_LEN(name) + 1];
   potion_send(P->lobby, PN_def, name, vt);
   ((struct PNVtable *)vt)->name = name;
+  PN_TOUCH(vt);
   sprintf(meta_str, "<metaclass: %s>", PN_STR_PTR(name));
-  ((struct PNVtable *)vt)->meta->name = potion_str(P, meta_str);
+  PN meta_name = potion_str(P, meta_str);
+  ((struct PNVtable *)vt)->meta->name = meta_name;
+  PN_TOUCH(((struct PNVtable *)vt)->meta);
 }
 
 void potion_define_global(Potion *P, PN name, PN val) {
diff --git a/core/syntax.y b/core/syntax.y
index c77bc0f..a7c9d2b 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -145,7 +145,7 @@ atom = e:value | e:closure | e:list | e:extern | e:call
 
 call = (n:name { v = PN_NIL; b = PN_NIL; } (v:value | v:list)? (b:block | b:closure)? |
        (v:value | v:list) { n = PN_AST(MSG, PN_NIL); b = PN_NIL; } b:block?)
-         { $$ = n; PN_SRC(n)->a[1] = PN_SRC(v); PN_SRC(n)->a[2] = PN_SRC(b) }
+         { $$ = n; PN_SRC(n)->a[1] = PN_SRC(v); PN_SRC(n)->a[2] = PN_SRC(b); PN_TOUCH(n) }
 
 extern = "extern" - n:name list-start { P->source = PN_TUP0() } l:arg-list list-end
          { $$ = PN_AST2(MSG, PN_extern, PN_PUSH(PN_TUP(n), P->source)) }
diff --git a/core/table.c b/core/table.c
index 45d87b3..9c98b29 100644
--- a/core/table.c
+++ b/core/table.c
@@ -111,8 +111,8 @@ PN potion_table_map(Potion *P, PN cl, PN self, PN block) {
       else
         ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k));
       t2->set[i++] = ret;
+      PN_TOUCH(t2);
     }
-  PN_TOUCH(t2);
   return (PN)t2;
 }
 
@@ -461,6 +461,7 @@ PN potion_tuple_map(Potion *P, PN cl, PN self, PN block) {
   PN_TUPLE_EACH(self, i, v, {
     PN ret = PN_CLOSURE(block)->method(P, block, cl, v);
     SET(i, ret);
+    PN_TOUCH(t);
   });
   return (PN)t;
 }
diff --git a/core/vm.c b/core/vm.c
index 8c869ed..95f9557 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -570,10 +570,12 @@ PN potion_debug(Potion *P, struct PNProto *f, PN self, PN_OP op, PN* reg, PN* st
               if (op.code == OP_GETUPVAL) {
                 cl->data[i+1] = upvals[op.b];
               } else if (op.code == OP_GETLOCAL) {
-                cl->data[i+1] = locals[op.b] = (PN)potion_ref(P, locals[op.b]);
+                locals[op.b] = (PN)potion_ref(P, locals[op.b]);
+                cl->data[i+1] = locals[op.b];
               } else {
                 fprintf(stderr, "** missing an upval to proto %p\n", (void *)f);
               }
+              PN_TOUCH(cl);
           });
           regs = (struct PNTuple *) potion_tuple_with_size(P, PN_INT(f->stack));
           for (i=0; i < PN_INT(f->stack); i++) { regs->set[i] = reg[i]; }
@@ -916,10 +918,12 @@ reentry:
           if (op.code == OP_GETUPVAL) {
             cl->data[i+1] = upvals[op.b];
           } else if (op.code == OP_GETLOCAL) {
-            cl->data[i+1] = locals[op.b] = (PN)potion_ref(P, locals[op.b]);
+            locals[op.b] = (PN)potion_ref(P, locals[op.b]);
+            cl->data[i+1] = locals[op.b];
           } else {
             fprintf(stderr, "** missing an upval to proto %p\n", (void *)proto);
           }
+          PN_TOUCH(cl);
         });
         reg[areg] = (PN)cl;
       })
diff --git a/lib/aio.c b/lib/aio.c
index bc4e4d9..a0d010e 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -1733,6 +1733,7 @@ static PN aio_fs_scandir_next(Potion *P, PN cl, PN self) {
   PN retval = potion_tuple_with_size(P, 2); //uv_dirent_t
   vPN(Tuple) t = PN_GET_TUPLE(retval);
   t->set[0] = r ? PN_STR0 : PN_STR(dent.name);
+  PN_TOUCH(t);
   t->set[1] = PN_NUM(r ? -1 : dent.type); // UV_EOF
   return retval;
 }
@@ -1816,7 +1817,8 @@ void Potion_Init_aio(Potion *P) {
   potion_define_global(P, PN_STR("Aio_" _XSTR(T)), aio_##T##_vt); \
   potion_method(aio_##T##_vt, ""_XSTR(T), aio_##T##_new, 0)
 #define DEF_AIO_CTOR(T) \
-  potion_type_constructor_is(aio_##T##_vt, PN_FUNC(aio_##T##_new, 0));
+  potion_type_constructor_is(aio_##T##_vt, PN_FUNC(aio_##T##_new, 0)); \
+  PN_TOUCH(aio_##T##_vt);
 #define DEF_AIO_VT(T,paren) \
   PN aio_##T##_vt = potion_class(P, 0, paren##_vt, 0);	\
   aio_##T##_type = potion_class_type(P, aio_##T##_vt); \
@@ -1826,6 +1828,7 @@ void Potion_Init_aio(Potion *P) {
 #define DEF_AIO_GLOBAL_VT(T,paren,args) \
   DEF_AIO__VT(T,paren); \
   potion_type_constructor_is(aio_##T##_vt, PN_FUNC(aio_##T##_new, args)); \
+  PN_TOUCH(aio_##T##_vt); \
   potion_method(P->lobby, "Aio_"_XSTR(T), aio_##T##_new, args)
 #define DEF_AIO_NUM_GLOBAL(name) \
   potion_define_global(P, PN_STR("AIO_"_XSTR(name)), PN_NUM(UV_##name))
@@ -1904,42 +1907,62 @@ void Potion_Init_aio(Potion *P) {
   int i = 0;
   vPN(Tuple) t = PN_GET_TUPLE(udp_ivars);
   t->set[i++] = PN_STR("broadcast");
+  PN_TOUCH(t);
   t->set[i++] = PN_STR("membership");
+  PN_TOUCH(t);
   t->set[i++] = PN_STR("multicast_loop");
+  PN_TOUCH(t);
   t->set[i++] = PN_STR("multicast_ttl");
+  PN_TOUCH(t);
   t->set[i++] = PN_STR("ttl");
+  PN_TOUCH(t);
   PN aio_udp_vt = potion_class(P, 0, aio_stream_vt, udp_ivars);
   aio_udp_type = potion_class_type(P, aio_udp_vt);
   potion_define_global(P, PN_STR("Aio_udp"), aio_udp_vt);
   //potion_method(aio_udp_vt, "udp", aio_udp_new, 0);
   potion_type_call_is(aio_udp_vt, PN_FUNC(aio_udp_get, "key=S"));
+  PN_TOUCH(aio_udp_vt);
   potion_type_callset_is(aio_udp_vt, PN_FUNC(aio_udp_set, "key=S,value=o"));
+  PN_TOUCH(aio_udp_vt);
   potion_type_constructor_is(aio_udp_vt, PN_FUNC(aio_udp_new, "|loop=o"));
+  PN_TOUCH(aio_udp_vt);
   potion_method(P->lobby, "Aio_udp", aio_udp_new, "|loop=o");
 
 #ifndef SANDBOX
   PN po_ivars = potion_tuple_with_size(P, 5); //sorted list of path names
   t = PN_GET_TUPLE(po_ivars); i = 0;
   t->set[i++] = PN_STR("args");
+  PN_TOUCH(t);
   t->set[i++] = PN_STR("cwd");
+  PN_TOUCH(t);
   t->set[i++] = PN_STR("env");
+  PN_TOUCH(t);
   t->set[i++] = PN_STR("exit_cb");
+  PN_TOUCH(t);
   t->set[i++] = PN_STR("flags");
+  PN_TOUCH(t);
   t->set[i++] = PN_STR("gid");
+  PN_TOUCH(t);
   t->set[i++] = PN_STR("stdio");
+  PN_TOUCH(t);
   t->set[i++] = PN_STR("uid");
+  PN_TOUCH(t);
   PN aio_po_vt = potion_class(P, 0, aio_vt, po_ivars);
   aio_process_options_type = potion_class_type(P, aio_po_vt);
   potion_define_global(P, PN_STR("Aio_process_options"), aio_po_vt);
   potion_type_call_is(aio_po_vt, PN_FUNC(aio_process_options_get, "key=S"));
+  PN_TOUCH(aio_po_vt);
   potion_type_callset_is(aio_po_vt, PN_FUNC(aio_process_options_set, "key=S,value=o"));
+  PN_TOUCH(aio_po_vt);
   potion_type_constructor_is(aio_po_vt, PN_FUNC(aio_process_options, 0));
+  PN_TOUCH(aio_po_vt);
   potion_method(P->lobby, "Aio_process_options", aio_process_options, 0);
 
   PN aio_process_vt = potion_class(P, 0, aio_vt, 0); // with spawn as ctor
   aio_process_type = potion_class_type(P, aio_process_vt);
   potion_define_global(P, PN_STR("Aio_process"), aio_process_vt);
   potion_type_constructor_is(aio_process_vt, PN_FUNC(aio_spawn, "options=o|loop=o"));
+  PN_TOUCH(aio_process_vt);
   potion_method(P->lobby, "aio_spawn", aio_spawn, "options=o|loop=o");
   DEF_AIO_GLOBAL_VT(fs_event,aio,"|loop=o"); //"filename=S,cb=o,flags=N");
   DEF_AIO_GLOBAL_VT(fs_poll,aio,"|loop=o");
diff --git a/lib/buffile.c b/lib/buffile.c
index a596140..6ebcb29 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -98,6 +98,7 @@ PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr,
   self->siz = BufFileSize;
   self->file = file;
   self->path = stream->path;
+  PN_TOUCH(self);
   return (PN)self;
 }
 
@@ -296,6 +297,7 @@ DLLEXPORT
 void Potion_Init_buffile(Potion *P) {
   PN ffile_vt = potion_type_new2(P, PN_TUSER, PN_VTABLE(PN_TFILE), PN_STR("BufFile"));
   potion_type_constructor_is(ffile_vt, PN_FUNC(potion_buffile_fopen, "path=S,mode=S"));
+  PN_TOUCH(ffile_vt);
   //potion_class_method(ffile_vt, "fd", potion_buffile_fdopen, "fd=N,mode=S");
   potion_method(P->lobby, "fopen", potion_buffile_fopen, "path=S,mode=S");
   potion_method(ffile_vt, "fdopen", potion_buffile_fdopen, "fd=N,mode=S");
diff --git a/lib/database.c b/lib/database.c
index 7ae9920..457aaf0 100644
--- a/lib/database.c
+++ b/lib/database.c
@@ -178,6 +178,7 @@ void Potion_Init_database(Potion *P) {
   potion_define_global(P, PN_STR("Database"), db_vt);
 
   potion_type_constructor_is(db_vt, PN_FUNC(potion_sqlite_new, "path=S"));
+  PN_TOUCH(db_vt);
   potion_method(db_vt, "exec", potion_sqlite_exec, "query=S|callback=o");
   potion_method(db_vt, "gettable", potion_sqlite_gettable, "query=S");
   potion_method(db_vt, "close", potion_sqlite_close, 0);
-- 
2.43.0


From 9290957f06440a325b21a7e0c48a186e4eafc0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 07/63] fix: jit stores to captured locals and upvals keep the
 ref and go through the write barrier

---
 core/vm-x86.c | 75 ++++++++++++++++++++++++++++++++-------------------
 core/vm.c     |  4 +--
 2 files changed, 50 insertions(+), 29 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index ed3fc7c..c0dd56d 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -519,24 +519,31 @@ void potion_x86_getlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatil
   X86_MOV_RBP(0x89, op.a); 		     // a: mov %eax %esp(A)
 }
 
+// a captured local keeps its ref: the value goes into the ref, behind the write barrier
+PN potion_f_setlocal(Potion *P, PN local, PN val) {
+  if (PN_IS_REF(local)) {
+    PN_DEREF(local) = val;
+    PN_TOUCH(local);
+    return local;
+  }
+  return val;
+}
+
 // if (PN_IS_REF(locals[op.b])) PN_DEREF(locals[op.b])  = reg[op.a];
 // else locals[op.b] = reg[op.a];
-void potion_x86_setlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long regs) {
+void potion_x86_setlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long regs, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   PN_HAS_UPVALS(up);
-  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, op.a) 	// mov %rsp(A) %rdx
   if (up) { // upvals need to be deref'd
-    X86_MOV_RBP(0x8B, regs + op.b); 			// mov %rsp(B) %rax
-    ASMS("\xF6\xC0\x01" 				// test 0x1 %al
-	 "\x75"); ASM(X86C(19,20, 0,0)); 		// jnz a
-    ASMS("\xF7\xC0"); ASMI(PN_REF_MASK); 		// test REFMASK %eax
-    ASM(0x74); ASM(X86C(11,12, 0,0)); 			// jz a
-    ASMS("\x81\x38"); ASMI(PN_TWEAK); 			// cmpq WEAK (%rax) # 0x250004
-    ASM(0x75); ASM(X86C(3,4, 0,0)); 			// jnz a
-    X86_PRE(); ASM(0x89); ASM(0x50);
-               ASM(sizeof(struct PNObject)); 		// mov N(%rax) %rax
+    X86_ARGO(start - 3, 0);
+    X86_ARGO(regs + op.b, 1);
+    X86_ARGO(op.a, 2);
+    X86_PRE(); ASM(0xB8); ASMN(potion_f_setlocal); 	// mov &potion_f_setlocal %rax
+    ASM(0xFF); ASM(0xD0); 				// callq %rax
+  } else {
+    X86_MOV_RBP(0x8B, op.a); 				// mov %rsp(A) %rax
   }
-  X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x55, regs + op.b)// a: mov %rdx %rsp(B)
+  X86_MOV_RBP(0x89, regs + op.b); 			// mov %rax %rsp(B)
 }
 
 // reg[op.a] = PN_DEREF(upvals[op.b])
@@ -547,13 +554,20 @@ void potion_x86_getupval(Potion *P, struct PNProto * volatile f, PNAsm * volatil
   X86_MOV_RBP(0x89, op.a);
 }
 
+PN potion_f_setupval(Potion *P, PN ref, PN val) {
+  PN_DEREF(ref) = val;
+  PN_TOUCH(ref);
+  return val;
+}
+
 // PN_DEREF(upvals[op.b]) = reg[op.a]
-// TODO: place the upval in the write barrier (or have stack scanning handle weak refs)
-void potion_x86_setupval(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long lregs) {
+void potion_x86_setupval(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long lregs, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, op.a) 		// mov -A(%rbp) %edx
-  X86_MOV_RBP(0x8B, lregs + op.b); 				// mov %rsp(B) %rax
-  X86_PRE(); ASM(0x89); ASM(0x50); ASM(sizeof(struct PNObject));// mov %rdx %rax.data
+  X86_ARGO(start - 3, 0);
+  X86_ARGO(lregs + op.b, 1);
+  X86_ARGO(op.a, 2);
+  X86_PRE(); ASM(0xB8); ASMN(potion_f_setupval); 	// mov &potion_f_setupval %rax
+  ASM(0xFF); ASM(0xD0); 				// callq %rax
 }
 
 void potion_x86_global(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
@@ -1044,6 +1058,12 @@ PN potion_f_protos(Potion *P, PN cl, PN i) {
   return (PN)c;
 }
 
+PN potion_f_capture(Potion *P, PN cl, PN i, PN ref) {
+  PN_CLOSURE(cl)->data[i] = ref;
+  PN_TOUCH(cl);
+  return cl;
+}
+
 /* OP_PROTO */
 void potion_x86_method(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE *pos, long lregs, long start, long regs) {
   PN_OP op = PN_OP_AT(f->asmb, *pos);
@@ -1057,26 +1077,27 @@ void potion_x86_method(Potion *P, struct PNProto * volatile f, PNAsm * volatile
   X86_MOV_RBP(0x89, op.a);
   X86_MOVQ(start - 3, P);
   PN_TUPLE_COUNT(PN_PROTO(proto)->upvals, i, {
-    int n;
+    long ref = 0;
     (*pos)++;
     PN_OP opp = PN_OP_AT(f->asmb, *pos);
     if (opp.code == OP_GETUPVAL) {
-      X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, lregs + opp.b) // mov upval %rdx
+      ref = lregs + opp.b;
     } else if (opp.code == OP_GETLOCAL) {
+      ref = regs + opp.b;
       X86_ARGO(start - 3, 0);
-      X86_ARGO(regs + opp.b, 1);
+      X86_ARGO(ref, 1);
       X86_PRE(); ASM(0xB8); ASMN(potion_ref); 	// mov &potion_ref %rax
       ASM(0xFF); ASM(0xD0);			// callq %rax
-      X86_PRE(); ASM(0x89); ASM(0xC2);		// mov %rax %rdx
-      X86_MOV_RBP(0x89, regs + opp.b);		// mov %rax local
+      X86_MOV_RBP(0x89, ref);			// mov %rax local
     } else {
       fprintf(stderr, "** missing an upval to proto %p\n", (void *)proto);
     }
-    X86_MOV_RBP(0x8B, opp.a);			// mov cl %rax
-    X86_PRE(); ASM(0x89);			// mov %rdx N(%rax)
-    n = sizeof(struct PNClosure) + (sizeof(PN) * (i + 1));
-    if (n >= 0x80) { ASM(0x90); ASMI(n); }
-    else { ASM(0x50); ASM(n); }
+    X86_ARGO(start - 3, 0);
+    X86_ARGO(opp.a, 1);
+    X86_ARGO_IMM(i + 1, 2);
+    X86_ARGO(ref, 3);
+    X86_PRE(); ASM(0xB8); ASMN(potion_f_capture); // mov &potion_f_capture %rax
+    ASM(0xFF); ASM(0xD0);			// callq %rax
   });
 }
 
diff --git a/core/vm.c b/core/vm.c
index 95f9557..743459f 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -304,9 +304,9 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
       CASE_OP(SELF, (P, f, &asmb, pos, need))   // prepare an object method for calling
 						// R[a+1] := R[b]; R[a] := R[b][RK[c]]
       CASE_OP(GETLOCAL, (P, f, &asmb, pos, regs))// read a local into a register
-      CASE_OP(SETLOCAL, (P, f, &asmb, pos, regs))// write a register value into a local
+      CASE_OP(SETLOCAL, (P, f, &asmb, pos, regs, need))// write a register value into a local
       CASE_OP(GETUPVAL, (P, f, &asmb, pos, lregs))// read an upvalue (upper scope)
-      CASE_OP(SETUPVAL, (P, f, &asmb, pos, lregs))// write to an upvalue
+      CASE_OP(SETUPVAL, (P, f, &asmb, pos, lregs, need))// write to an upvalue
       CASE_OP(GLOBAL, (P, f, &asmb, pos, need))	 // returns a global (for get or set)
       CASE_OP(NEWTUPLE, (P, f, &asmb, pos, need))// create tuple
       CASE_OP(GETTUPLE, (P, f, &asmb, pos, need))// get tuple key (fast and unsafe)
-- 
2.43.0


From 19071d2fc7989378613cece94ffbebd44875ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 08/63] fix: jit comparisons, call results and named arguments
 work in registers above 15

---
 core/vm-x86.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index c0dd56d..559891e 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -131,7 +131,7 @@ the x86 and x86_64 jit.
 // TODO optimize j? true, set false, jmp true, set true
 //   => movzbl %al,edx;lea 0x2(,%rdx,4),%rdx;mov %rdx,-A(%rbp)
 #define X86_NUMCMP(iop, xop, xmms)                                         \
-        int dbl_a, dbl_b, cmp_dbl, true_1, true_2, false_;			\
+        int dbl_a, dbl_b, cmp_dbl, true_1, true_2, false_, end;		\
         X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55,op.a)	/* mov -A(%rbp) %rdx */ \
         X86_MOV_RBP(0x8B, op.b); 			/* mov -B(%rbp) %rax */ \
         ASMS("\xA8\x01");		 		/* test $1, %al */ \
@@ -165,9 +165,10 @@ the x86 and x86_64 jit.
 	TAG_LABEL(cmp_dbl); ASMS(xmms);			/* ucomisd xmm0<=>xmm1; */ \
         TAG_PREP(true_2); ASM(xop); ASM(0);        	/* j? [true] */   \
         TAG_LABEL(false_); X86_MOVQ(op.a, PN_FALSE); 	/* false: -A(%rbp) = FALSE */ \
-        ASM(0xEB); ASM(X86C(7,14, 1,op.a));		/* jmp [+true] */ \
+        TAG_PREP(end); ASM(0xEB); ASM(0);		/* jmp [end] */ \
         TAG_LABEL(true_1); TAG_LABEL(true_2); \
-        X86_MOVQ(op.a, PN_TRUE);      			/* true: -A(%rbp) = TRUE */
+        X86_MOVQ(op.a, PN_TRUE);      			/* true: -A(%rbp) = TRUE */ \
+        TAG_LABEL(end)
 
 #if 0
 // eq/neq: cmp 2 atoms. cmp the dbl value if both are double or the immediate words.
@@ -937,7 +938,7 @@ void potion_x86_named(Potion *P, struct PNProto * volatile f, PNAsm * volatile *
 #else
   if (op.a + 2 > 15) {
     DBG_v("named: mov %%rdx -A=%d(%%rbp,%%rax,8)\n", op.a + 2); //!! +2 only XXX
-    X86_PRE(); ASM(0x89); ASM(0x94); ASM(0xC5); ASM(RBP(op.a + 2)); ASM(0xff); ASM(0xff);
+    X86_PRE(); ASM(0x89); ASM(0x94); ASM(0xC5); ASMI(RBPN(op.a + 2));
   } else {
     X86_PRE(); ASM(0x89); ASM(0x54); ASM(0xC5); ASM(RBP(op.a + 2)); // mov %rdx -A(%rbp,%rax,8)
   }
@@ -1027,7 +1028,7 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 	}}}}
   DBG_t("\n");
   ASM(0xFF); ASM(0xD0); 				// callq *%rax
-  X86_PRE(); ASM(0x89); ASM(0x45); ASM(RBP(op.a)); 	// mov %rbp(A) %rax
+  X86_MOV_RBP(0x89, op.a); 				// mov %rax %rbp(A)
 }
 
 void potion_x86_callset(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
-- 
2.43.0


From 6e12c521394350d7447292e5b2114fe906162fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 09/63] fix: a continuation's length covers its saved registers

---
 core/callcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/callcc.c b/core/callcc.c
index 564ef22..f9980d4 100644
--- a/core/callcc.c
+++ b/core/callcc.c
@@ -125,7 +125,7 @@ PN potion_callcc(Potion *P, PN cl, PN self) {
     return 0;
   }
   cc = PN_ALLOC_N(PN_TCONT, struct PNCont, sizeof(PN) * (n + 3 + PN_SAVED_REGS));
-  cc->len = n + 3;
+  cc->len = n + 3 + PN_SAVED_REGS;
   cc->stack[0] = (PN)sp1;
   cc->stack[1] = (PN)sp2;
   cc->stack[2] = (PN)sp3;
-- 
2.43.0


From 29538e5bcfba6f7717e87a299b22c905b194074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 10/63] fix: sort of an empty list, and the last element when
 sorting by identity

---
 core/table.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/table.c b/core/table.c
index 9c98b29..7f926b7 100644
--- a/core/table.c
+++ b/core/table.c
@@ -762,7 +762,7 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
     // inclusively, by moving all elements less than pivot before
     // the pivot, and the equal or greater elements after it.
     if (cmp == PN_NIL) { // default: sort by uniq, not value
-      for (i=from; i < to-1; i++) { // from ≤ i < to
+      for (i=from; i < to; i++) { // from ≤ i < to
 	if (PN_UNIQ(GET(i)) <= PN_UNIQ(pivot)) { SWAP(i, index); index++; }
       }
     } else if (cmp == PN_TRUE) { // sort by ascending number
@@ -812,7 +812,8 @@ static PN potion_tuple_sort(Potion *P, PN cl,
   PN_SIZE len = PN_TUPLE_LEN(self);
   if (cmp != PN_NIL && !PN_IS_BOOL(cmp) && !PN_IS_CLOSURE(cmp))
     potion_fatal("sort: invalid cmp type");
-  potion_sort_internal(P, cl, data, 0, len-1, cmp);
+  if (len > 1)
+    potion_sort_internal(P, cl, data, 0, len-1, cmp);
   return data;
 }
  
-- 
2.43.0


From 8ec6ab40b1ce1abaa6a091de353650136e44132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 11/63] fix: the jit reserves stack for the arguments of every
 call, not only of calls to nested methods

---
 core/vm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/vm.c b/core/vm.c
index 743459f..84644c7 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -250,6 +250,13 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
     }
   }
 
+  // calls of methods defined elsewhere pass their arguments on the stack, too
+  for (pos = 0; pos < PN_OP_LEN(f->asmb); pos++) {
+    PN_OP op = PN_OP_AT(f->asmb, pos);
+    if (op.code == OP_CALL && op.b - op.a + 2 > protoargs)
+      protoargs = op.b - op.a + 2;
+  }
+
   regs = PN_INT(f->stack);
   lregs = regs + PN_TUPLE_LEN(f->locals);
   need = lregs + upc + 3;
-- 
2.43.0


From b05e84c523ddd0a71fc2ff2d3500dbc33e5247da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 12/63] fix: jit integer division, remainder and shifts work on
 the full word, and leave a zero divisor to the method

---
 core/vm-x86.c | 53 ++++++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 559891e..b7cc207 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -713,29 +713,30 @@ void potion_x86_mult(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
   });
 }
 
+// integer division by zero is left to the div method
 void potion_x86_div(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_div, {
-    ASMS("\xD1\xF8" 		// sar %rax
-	 "\xD1\xFA" 		// sar %edx
-	 "\x89\xD1" 		// mov %edx %ecx
-	 "\x89\xC2" 		// mov %eax %edx
-	 "\xC1\xFA\x1F" 	// sar 0x1f %edx
-	 "\xF7\xF9" 		// idiv %ecx
-	 "\x8D\x44\x00\x01");	// lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASMS("\xD1\xF9"); 	// sar %rcx
+    ASM(0x74); ASM(3*X86_PRE_T + 9);	// jz [a]
+    X86_PRE(); ASM(0x99); 		// cqo
+    X86_PRE(); ASMS("\xF7\xF9"); 	// idiv %rcx
+    X86_PRE(); ASMS("\x8D\x44\x00\x01"); // lea 0x1(%rax,%rax,1),%rax
   });
 }
 
 void potion_x86_rem(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_rem, {
-    ASMS("\xD1\xF8"	  	// sar %rax
-	 "\xD1\xFA" 		// sar %edx
-	 "\x89\xD1" 		// mov %edx %ecx
-	 "\x89\xC2" 		// mov %eax %edx
-	 "\xC1\xFA\x1F" 	// sar 0x1f %edx
-	 "\xF7\xF9" 		// idiv %ecx
-	 "\x8D\x44\x12\x01");   // lea 0x1(%edx,%edx,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASMS("\xD1\xF9"); 	// sar %rcx
+    ASM(0x74); ASM(3*X86_PRE_T + 9);	// jz [a]
+    X86_PRE(); ASM(0x99); 		// cqo
+    X86_PRE(); ASMS("\xF7\xF9"); 	// idiv %rcx
+    X86_PRE(); ASMS("\x8D\x44\x12\x01"); // lea 0x1(%rdx,%rdx,1),%rax
   });
 }
 
@@ -812,26 +813,22 @@ void potion_x86_bitn(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 void potion_x86_bitl(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_bitl, {
-      ASMS("\xD1\xF8" 		// sar %eax
-	   "\xD1\xFA" 		// sar %edx
-	   "\x89\xD1" 		// mov %edx %ecx
-	   "\x89\xC2" 		// mov %eax %edx
-	   "\xD3\xE0"); 	// sal %cl %eax
-      ASM(0x70); ASM(6);        // jo +6
-      ASMS("\x8D\x44\x00\x01"); // lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASMS("\xD1\xF9"); 	// sar %rcx
+    X86_PRE(); ASMS("\xD3\xE0"); 	// sal %cl %rax
+    X86_PRE(); ASMS("\x8D\x44\x00\x01"); // lea 0x1(%rax,%rax,1),%rax
   });
 }
 
 void potion_x86_bitr(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_bitr, {
-    ASMS("\xD1\xF8" 		// sar %rax
-	 "\xD1\xFA"		// sar %edx
-	 "\x89\xD1"		// mov %edx %ecx
-	 "\x89\xC2"		// mov %eax %edx
-	 "\xD3\xF8");		// sar %cl %eax
-    ASM(0x70); ASM(6);          // jo +6
-    ASMS("\x8D\x44\x00\x01");	// lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASMS("\xD1\xF9"); 	// sar %rcx
+    X86_PRE(); ASMS("\xD3\xF8"); 	// sar %cl %rax
+    X86_PRE(); ASMS("\x8D\x44\x00\x01"); // lea 0x1(%rax,%rax,1),%rax
   });
 }
 
-- 
2.43.0


From 9d63ea0615c4de4bd1396dbb591706df571faa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 13/63] fix: integer division by zero no longer kills the
 process

---
 core/number.c | 20 +++++++++++++++++---
 core/vm.c     | 15 +++++++++++++--
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/core/number.c b/core/number.c
index 2d674f9..e11d3a5 100644
--- a/core/number.c
+++ b/core/number.c
@@ -84,10 +84,12 @@ static PN potion_num_mult(Potion *P, PN cl, PN self, PN num) {
 }
 
 /**\memberof PNNumber
-  "/" method
+  "/" method. An integer division by zero is done with doubles, as inf or nan.
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_div(Potion *P, PN cl, PN self, PN num) {
+  if (num == PN_ZERO)
+    return potion_double(P, PN_DBL(self) / 0.0);
   PN_NUM_MATH(/)
 }
 
@@ -96,6 +98,8 @@ static PN potion_num_div(Potion *P, PN cl, PN self, PN num) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_rem(Potion *P, PN cl, PN self, PN num) {
+  if (num == PN_ZERO)
+    return potion_double(P, fmod(PN_DBL(self), 0.0));
   if (PN_IS_INT(self) && PN_IS_INT(num))
     return PN_NUM(PN_INT(self) % PN_INT(num));
   double x = PN_DBL(self), y = PN_DBL(num);
@@ -151,13 +155,21 @@ static PN potion_int_mult(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH(*) }
   "/" method
  \param num PNInteger
  \return PNInteger */
-static PN potion_int_div(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH(/) }
+static PN potion_int_div(Potion *P, PN cl, PN self, PN num) {
+  if (num == PN_ZERO)
+    return potion_num_div(P, cl, self, num);
+  PN_INT_MATH(/)
+}
 
 /**\memberof PNNumber
   "%" method, Integer division
  \param num PNInteger
  \return PNInteger */
-static PN potion_int_rem(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH(%) }
+static PN potion_int_rem(Potion *P, PN cl, PN self, PN num) {
+  if (num == PN_ZERO)
+    return potion_num_rem(P, cl, self, num);
+  PN_INT_MATH(%)
+}
 
 /**\memberof PNInteger
   "~" method, bitwise negation  \code ~ 0 #=> -1 \endcode
@@ -321,6 +333,8 @@ static PN potion_int_step(Potion *P, PN cl, PN self, PN end, PN step, PN block)
   PN_CHECK_INT(step);
   if (PN_TYPE(block) != PN_TCLOSURE)
     potion_fatal("block argument for step is not a closure");
+  if (k == 0)
+    potion_fatal("step argument is zero");
   for (i = PN_INT(self); i <= j; i += k) {
     PN_CLOSURE(block)->method(P, block, P->lobby, PN_NUM(i));
   }
diff --git a/core/vm.c b/core/vm.c
index 84644c7..2378942 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -382,6 +382,17 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
     reg[op.a] = potion_obj_##name(P, reg[op.a], reg[op.b]);       \
   }
 
+/* integer division by zero is left to the method */
+#define PN_VM_DIV2(name, oper)                                    \
+  if (PN_IS_INT(reg[op.a]) && PN_IS_INT(reg[op.b])		  \
+      && reg[op.b] != PN_ZERO)                                    \
+    reg[op.a] = PN_NUM(PN_INT(reg[op.a]) oper PN_INT(reg[op.b])); \
+  else {                                                          \
+    PN_CHECK_NUM(reg[op.a]);                                      \
+    PN_CHECK_NUM(reg[op.b]);                                      \
+    reg[op.a] = potion_obj_##name(P, reg[op.a], reg[op.b]);       \
+  }
+
 #if (defined(__clang__) && \
      ((!defined(__apple_build_version__) &&                       \
        ((__clang_major__ > 3) || (__clang_major__ == 3 && __clang_minor__ >= 4))) \
@@ -757,8 +768,8 @@ reentry:
       CASE(ADD, PN_VM_MATH3(add, +, saddl))
       CASE(SUB, PN_VM_MATH3(sub, -, ssubl))
       CASE(MULT,PN_VM_MATH3(mult, *, smull))
-      CASE(DIV, PN_VM_MATH2(div, /))
-      CASE(REM, PN_VM_MATH2(rem, %))
+      CASE(DIV, PN_VM_DIV2(div, /))
+      CASE(REM, PN_VM_DIV2(rem, %))
       CASE(POW, reg[op.a] = PN_NUM((int)pow((double)PN_INT(reg[op.a]),
 					    (double)PN_INT(reg[op.b]))))
 #ifdef P2
-- 
2.43.0


From 0176daff1160a58f69e1861db7c8da7039a90ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 14/63] fix: integer addition overflow in the jit, and number +
 - * methods promote on overflow like the vm

---
 core/number.c | 36 ++++++++++++++++++++++++++++++------
 core/vm-x86.c |  3 ++-
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/core/number.c b/core/number.c
index e11d3a5..976a0ec 100644
--- a/core/number.c
+++ b/core/number.c
@@ -50,6 +50,18 @@ static PN potion_num_sqrt(Potion *P, PN cl, PN self) {
   if (PN_IS_INT(self) && PN_IS_INT(num)) \
     return PN_NUM(PN_INT(self) math_op PN_INT(num)); \
   return potion_double(P, PN_DBL(self) math_op PN_DBL(num));
+/* integer overflow promotes to double, as in the vm and jit */
+#if (defined(__clang__) && (__clang_major__ > 3)) || (defined(__GNUC__) && __GNUC__ >= 5)
+# define PN_NUM_MATH_OV(math_op, ov) \
+  long val; \
+  if (PN_IS_INT(self) && PN_IS_INT(num) \
+      && (__builtin_##ov##_overflow(PN_INT(self), PN_INT(num), &val) \
+          || PN_INT(PN_NUM(val)) != val)) \
+    return potion_double(P, PN_DBL(self) math_op PN_DBL(num)); \
+  PN_NUM_MATH(math_op)
+#else
+# define PN_NUM_MATH_OV(math_op, ov) PN_NUM_MATH(math_op)
+#endif
 #define PN_INT_MATH(math_op) \
   DBG_CHECK_INT(self); \
   DBG_CHECK_INT(num); \
@@ -64,7 +76,7 @@ static PN potion_num_sqrt(Potion *P, PN cl, PN self) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_add(Potion *P, PN cl, PN self, PN num) {
-  PN_NUM_MATH(+)
+  PN_NUM_MATH_OV(+, saddl)
 }
 
 /**\memberof PNNumber
@@ -72,7 +84,7 @@ static PN potion_num_add(Potion *P, PN cl, PN self, PN num) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_sub(Potion *P, PN cl, PN self, PN num) {
-  PN_NUM_MATH(-)
+  PN_NUM_MATH_OV(-, ssubl)
 }
 
 /**\memberof PNNumber
@@ -80,7 +92,7 @@ static PN potion_num_sub(Potion *P, PN cl, PN self, PN num) {
  \param num PN_INT or PNDouble
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_mult(Potion *P, PN cl, PN self, PN num) {
-  PN_NUM_MATH(*)
+  PN_NUM_MATH_OV(*, smull)
 }
 
 /**\memberof PNNumber
@@ -140,17 +152,29 @@ static PN potion_num_bitr(Potion *P, PN cl, PN self, PN num) {
   "+" method
  \param num PNInteger
  \return PNInteger */
-static PN potion_int_add(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH(+) }
+static PN potion_int_add(Potion *P, PN cl, PN self, PN num) {
+  DBG_CHECK_INT(self);
+  DBG_CHECK_INT(num);
+  PN_NUM_MATH_OV(+, saddl)
+}
 /**\memberof PNInteger
   "-" method
  \param num PNInteger
  \return PNInteger */
-static PN potion_int_sub(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH(-) }
+static PN potion_int_sub(Potion *P, PN cl, PN self, PN num) {
+  DBG_CHECK_INT(self);
+  DBG_CHECK_INT(num);
+  PN_NUM_MATH_OV(-, ssubl)
+}
 /**\memberof PNInteger
   "*" method
  \param num PNInteger
  \return PNInteger */
-static PN potion_int_mult(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH(*) }
+static PN potion_int_mult(Potion *P, PN cl, PN self, PN num) {
+  DBG_CHECK_INT(self);
+  DBG_CHECK_INT(num);
+  PN_NUM_MATH_OV(*, smull)
+}
 /**\memberof PNInteger
   "/" method
  \param num PNInteger
diff --git a/core/vm-x86.c b/core/vm-x86.c
index b7cc207..2f19d0e 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -688,7 +688,8 @@ void potion_x86_setpath(Potion *P, struct PNProto * volatile f, PNAsm * volatile
 void potion_x86_add(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_add, {
-    X86_PRE(); ASMS("\x8D\x44\x10\xFF"); // lea -1(%eax,%edx,1),%eax
+    X86_PRE(); ASMS("\xFF\xC8"); 	 // dec %rax
+    X86_PRE(); ASMS("\x01\xD0"); 	 // add %rdx %rax
     ASM(0x70); ASM(2);                   // jo +2
   });
 }
-- 
2.43.0


From 4076f38f8df65418c49712d9efdae1b4c3f6c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 15/63] fix: printing doubles above 1e22 overflowed a fixed
 buffer

---
 core/number.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/number.c b/core/number.c
index 976a0ec..fed5514 100644
--- a/core/number.c
+++ b/core/number.c
@@ -275,8 +275,8 @@ static PN potion_dbl_div(Potion *P, PN cl, PN self, PN num) { PN_DBL_MATH(/) }
   "string" method, stringify
  \return PNString */
 PN potion_dbl_string(Potion *P, PN cl, PN self) {
-  char ints[40];
-  int len = sprintf(ints, "%.16f", ((struct PNDouble *)self)->value);
+  char ints[352]; // -DBL_MAX has 309 digits
+  int len = snprintf(ints, sizeof(ints), "%.16f", ((struct PNDouble *)self)->value);
   while (len > 0 && ints[len - 1] == '0') len--;
   if (ints[len - 1] == '.') len++;
   ints[len] = '\0';
@@ -286,11 +286,11 @@ PN potion_dbl_string(Potion *P, PN cl, PN self) {
   "string" method, stringify
  \return PNString */
 PN potion_num_string(Potion *P, PN cl, PN self) {
-  char ints[40];
+  char ints[352];
   if (PN_IS_INT(self)) {
     sprintf(ints, "%ld", PN_INT(self));
   } else {
-    int len = sprintf(ints, "%.16f", ((struct PNDouble *)self)->value);
+    int len = snprintf(ints, sizeof(ints), "%.16f", ((struct PNDouble *)self)->value);
     while (len > 0 && ints[len - 1] == '0') len--;
     if (ints[len - 1] == '.') len++;
     ints[len] = '\0';
-- 
2.43.0


From e072c4c5c00474a0795999469370a9c4f551afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 16/63] fix: jit passes full-width default values, stack
 arguments included, and keeps %rbx

---
 core/vm-x86.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 2f19d0e..b8f9085 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -322,7 +322,7 @@ again:
   \param out: 1 out-param only, 2 out+immediate, 0 in-param also
   \param regn: value (usually indirect stack ptr, relative to ebp)
   \param argn: argument index (0-5 in regs on 64bit) */
-static void potion_x86_c_arg(Potion *P, PNAsm * volatile *asmp, int out, int regn, int argn) {
+static void potion_x86_c_arg(Potion *P, PNAsm * volatile *asmp, int out, PN regn, int argn) {
     // need to address -(x)%ebp: max regn=29/14
     // assert(((regn + 1) * sizeof(PN)) < 0x7f);
 #if PN_SIZE_T != 8
@@ -356,57 +356,65 @@ static void potion_x86_c_arg(Potion *P, PNAsm * volatile *asmp, int out, int reg
   switch (argn) {
   case 0: //rdi Potion *P
     if (out == 2) { // unused - mov $regn, %rdi
-      X86_PRE(); ASM(0xc7); ASM(0xc7); ASMI(regn);
+      X86_PRE(); ASM(0xbf); ASMN(regn);
     } else {
       X86_PRE(); ASM(out ? 0x8b : 0x89); ASM_MOV_EBP(0x7d,regn) // mov -regn(%rbp), %rdi
     }
     break;
   case 1: //rsi PN cl
     if (out == 2) { // unused - mov $regn, %rsi
-      X86_PRE(); ASM(0xc7); ASM(0xc6); ASMI(regn);
+      X86_PRE(); ASM(0xbe); ASMN(regn);
     } else { // mov -regn(%rbp), %rsi
       X86_PRE(); ASM(out ? 0x8b : 0x89); ASM_MOV_EBP(0x75,regn)
     }
     break;
   case 2: //rdx self
     if (out == 2) { // unused - mov $regn, %rdx
-      X86_PRE(); ASM(0xc7); ASM(0xc2); ASMI(regn);
+      X86_PRE(); ASM(0xba); ASMN(regn);
     } else { // mov -regn(%rbp), %rdx
       X86_PRE(); ASM(out ? 0x8b : 0x89); ASM_MOV_EBP(0x55,regn)
     }
     break;
   case 3: //rcx
     if (out == 2) { // 1st default arg - mov $regn, %rcx
-      X86_PRE(); ASM(0xc7); ASM(0xc1); ASMI(regn);
+      X86_PRE(); ASM(0xb9); ASMN(regn);
     } else { // mov -regn(%rbp), %rcx
       X86_PRE(); ASM(out ? 0x8b : 0x89); ASM_MOV_EBP(0x4d,regn)
     }
     break;
   case 4: //r8
     if (out == 2) { // 2nd default arg - mov $regn, %r8
-      ASMS("\x49\xc7\xc0"); ASMI(regn);
+      ASMS("\x49\xb8"); ASMN(regn);
     } else { // mov -regn(%rbp), %r8
       ASM(0x4c); ASM(out ? 0x8b : 0x89); ASM_MOV_EBP(0x45,regn)
     }
     break;
   case 5: //r9
     if (out == 2) { // 3rd default arg - mov $regn, %r9
-      ASMS("\x49\xc7\xc1"); ASMI(regn);
+      ASMS("\x49\xb9"); ASMN(regn);
     } else { // mov -regn(%rbp), %r9
       ASM(0x4c); ASM(out ? 0x8b : 0x89); ASM_MOV_EBP(0x4d,regn)
     }
     break;
-    default: // can only pass max 6 arg via regs, rest on stack
+    default: // can only pass max 6 arg via regs, rest on stack. %r11 is scratch, %rbx is not
       if (out) {
-	X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %rbx
-	if (argn == 6) {
-	  X86_PRE(); ASMS("\x89\x1c\x24");    // mov %rbx (%rsp)
+	if (out == 2) {
+	  ASMS("\x49\xbb"); ASMN(regn);	// mov $regn, %r11
 	} else {
-	  X86_PRE(); ASMS("\x89\x5c\x24"); ASM((argn - 6) * sizeof(PN)); // mov %rbx N(%rsp)
+	  ASM(0x4c); ASM(0x8B); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %r11
+	}
+	if (argn > 21) {
+	  ASMS("\x4c\x89\x9c\x24"); ASMI((argn - 6) * sizeof(PN)); // mov %r11 N(%rsp)
+	} else {
+	  ASMS("\x4c\x89\x5c\x24"); ASM((argn - 6) * sizeof(PN)); // mov %r11 N(%rsp)
 	}
       } else {
-	X86_PRE(); ASM(0x8b); ASM(0x5d); ASM((argn - 4) * sizeof(PN));
-	X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %rbx
+	if (argn > 19) {
+	  ASMS("\x4c\x8b\x9d"); ASMI((argn - 4) * sizeof(PN)); // mov N(%rbp) %r11
+	} else {
+	  ASMS("\x4c\x8b\x5d"); ASM((argn - 4) * sizeof(PN)); // mov N(%rbp) %r11
+	}
+	ASM(0x4c); ASM(0x89); ASM_MOV_EBP(0x5d,regn) // mov %r11 %rbp(A)
       }
     break;
   }
-- 
2.43.0


From 67061c1155130277be8e3f20aaa6ad0629f6f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 17/63] fix: ordered comparisons are signed in the vm, and in
 the jit false for NaN and a type error for non-numbers

---
 core/internal.h |  4 +++
 core/vm-arm.c   |  8 ++---
 core/vm-ppc.c   |  8 ++---
 core/vm-x86.c   | 93 +++++++++++++++++--------------------------------
 core/vm.c       | 22 +++++++++---
 5 files changed, 61 insertions(+), 74 deletions(-)

diff --git a/core/internal.h b/core/internal.h
index 9a6e537..f938d27 100644
--- a/core/internal.h
+++ b/core/internal.h
@@ -137,6 +137,10 @@ __attribute__ ((noinline)) void potion_esp(void **);
 #define GC_PROTECT(P) P->mem->protect = (void *)P->mem->birth_cur
 
 /* for the jit and bytecode, too large to be inlined into the jit */
+PN potion_vm_lt(Potion *, PN, PN);
+PN potion_vm_lte(Potion *, PN, PN);
+PN potion_vm_gt(Potion *, PN, PN);
+PN potion_vm_gte(Potion *, PN, PN);
 PN potion_vm_eq(Potion *, PN, PN);
 PN potion_vm_neq(Potion *, PN, PN);
 
diff --git a/core/vm-arm.c b/core/vm-arm.c
index 86014da..68550fd 100644
--- a/core/vm-arm.c
+++ b/core/vm-arm.c
@@ -245,22 +245,22 @@ void potion_arm_eq(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asm
   ARM_CMP(0x409E0000); // bne
 }
 
-void potion_arm_lt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_arm_lt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   ARM_CMP(0x409C0000); // bge
 }
 
-void potion_arm_lte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_arm_lte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   ARM_CMP(0x419D0000); // bgt
 }
 
-void potion_arm_gt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_arm_gt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   ARM_CMP(0x409D0000); // ble
 }
 
-void potion_arm_gte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_arm_gte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   ARM_CMP(0x419C0000); // blt
 }
diff --git a/core/vm-ppc.c b/core/vm-ppc.c
index b92e30b..6a1cb1c 100644
--- a/core/vm-ppc.c
+++ b/core/vm-ppc.c
@@ -244,22 +244,22 @@ void potion_ppc_eq(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asm
   PPC_CMP(0x409E0000); // bne
 }
 
-void potion_ppc_lt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_ppc_lt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   PPC_CMP(0x409C0000); // bge
 }
 
-void potion_ppc_lte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_ppc_lte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   PPC_CMP(0x419D0000); // bgt
 }
 
-void potion_ppc_gt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_ppc_gt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   PPC_CMP(0x409D0000); // ble
 }
 
-void potion_ppc_gte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_ppc_gte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   PPC_CMP(0x419C0000); // blt
 }
diff --git a/core/vm-x86.c b/core/vm-x86.c
index b8f9085..e85e856 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -120,55 +120,34 @@ the x86 and x86_64 jit.
         TAG_LABEL(end_b); \
         X86_MOV_RBP(0x89, op.a) 				   /* [b]: mov -B(%rbp) %eax */ \
 	  })
-// cmp 2 numbers, int or double. eq/neq/gt/ge/lt/le, both inlined (requires SSE)
-// iop: jl, jg, jle, jge, je, jne for normal cmp comparisons
-// xop: jb, jbe", jae, ja, ... for SSE ucomisd comparisons.
-// TODO we also need to check jp for PF (parity) if one number is nan, to force false.
-// TODO optimize into seperate int and dbl variants
-// TODO probe cpu for sse2 at init, and fallback to math calls if not.
-//      maybe create seperate so's with and without sse. and load the best at init
-// TODO check num type for the dbl case
-// TODO optimize j? true, set false, jmp true, set true
-//   => movzbl %al,edx;lea 0x2(,%rdx,4),%rdx;mov %rdx,-A(%rbp)
-#define X86_NUMCMP(iop, xop, xmms)                                         \
-        int dbl_a, dbl_b, cmp_dbl, true_1, true_2, false_, end;		\
+// cmp 2 numbers. int is inlined, all the rest (double, or a type error) via call.
+// iop: jl, jg, jle, jge
+// a type error returns from the function, as in the vm.
+#define X86_NUMCMP(iop, cmp_func) ({                                    \
+        int call_a, call_b, true_, end_f, end_c;                        \
         X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55,op.a)	/* mov -A(%rbp) %rdx */ \
         X86_MOV_RBP(0x8B, op.b); 			/* mov -B(%rbp) %rax */ \
         ASMS("\xA8\x01");		 		/* test $1, %al */ \
-        TAG_PREP(dbl_b); ASM(0x74);ASM(0); 		/* je [dbl_b] */ \
+        TAG_PREP(call_b); ASM(0x74);ASM(0); 		/* je [call] */ \
         ASMS("\xF6\xC2\x01");				/* test $1, %dl */ \
-        TAG_PREP(dbl_a); ASM(0x74);ASM(0);		/* je [dbl_a] */ \
-	/* cmp both int */						\
-        X86_PRE(); ASM(0x39); ASM(0xC2);                /* both_int: cmp %rax, %rdx */ \
-        TAG_PREP(true_1); ASM(iop); ASM(0);		/* j? [true] */	\
-        TAG_PREP(false_); ASM(0xEB); ASM(0);		/* jmp [false] */ \
-                                                                        \
-	/* convert 1 or 2 to dbl, only with sse2. all amd64 have sse2 */ \
-	/* TODO: so if 32bit without sse2 call the math func instead */ \
-        TAG_LABEL(dbl_a);                               /* #dbl_a: b=int + a=dbl */ \
-	ASMS("\xf2\x0f\x10\x42");ASM(PN_SIZE_T);	/* movsd 8(%rdx), %xmm0 [a] */ \
-        ASMS("\x66\x0f\xef\xc9");			/* pxor %xmm1, %xmm1 */ \
-	X86_PRE(); ASMS("\xd1\xf8");	                /* sar %rax */ \
-	ASM(0xF2);X86_PRE();ASMS("\x0f\x2a\xc8");       /* cvtsi2sd %rax, %xmm1 [b] */ \
-        TAG_PREP(cmp_dbl); ASM(0xEB);ASM(0);		/* jmp [cmp_dbl] */ \
-                                                                        \
-        TAG_LABEL(dbl_b); 				/* #b dbl, a? */ \
-	ASMS("\xf2\x0f\x10\x48");ASM(PN_SIZE_T);	/* movsd 8(%rax), %xmm1 [b] */ \
-        ASMS("\xF6\xC2\x01");				/* test $1, %dl */ \
-        ASM(0x74);ASM(X86C(12,14, 0,0));                /* je +cvt */ \
-        ASMS("\x66\x0f\xef\xc0");			/* pxor %xmm0, %xmm0 */ \
-	X86_PRE(); ASMS("\xd1\xfa");	                /* sar %rdx */ \
-	ASM(0xF2);X86_PRE();ASMS("\x0f\x2a\xc2");	/* cvtsi2sd %rdx, %xmm0 [a] */ \
-        ASM(0xEB); ASM(X86C(5,5, 0,0));			/* jmp [cmp_dbl] */ \
-	ASMS("\xf2\x0f\x10\x42");ASM(PN_SIZE_T);	/* movsd 8(%rdx), %xmm0 [a] */ \
-        /* cmp dbl */							\
-	TAG_LABEL(cmp_dbl); ASMS(xmms);			/* ucomisd xmm0<=>xmm1; */ \
-        TAG_PREP(true_2); ASM(xop); ASM(0);        	/* j? [true] */   \
-        TAG_LABEL(false_); X86_MOVQ(op.a, PN_FALSE); 	/* false: -A(%rbp) = FALSE */ \
-        TAG_PREP(end); ASM(0xEB); ASM(0);		/* jmp [end] */ \
-        TAG_LABEL(true_1); TAG_LABEL(true_2); \
-        X86_MOVQ(op.a, PN_TRUE);      			/* true: -A(%rbp) = TRUE */ \
-        TAG_LABEL(end)
+        TAG_PREP(call_a); ASM(0x74);ASM(0);		/* je [call] */ \
+        X86_PRE(); ASM(0x39); ASM(0xC2);                /* cmp %rax, %rdx */ \
+        X86_PRE(); ASM(0xC7); ASM(0xC0); ASMI(PN_TRUE);	/* mov TRUE, %rax */ \
+        TAG_PREP(true_); ASM(iop); ASM(0);		/* j? [end] */	\
+        X86_PRE(); ASM(0xC7); ASM(0xC0); ASMI(PN_FALSE);/* mov FALSE, %rax */ \
+        TAG_PREP(end_f); ASM(0xEB); ASM(0);		/* jmp [end] */ \
+        TAG_LABEL(call_a); TAG_LABEL(call_b);                           \
+        X86_ARGO(start - 3, 0);				/* [call]: mov &P 0(%esp) */ \
+        X86_ARGO(op.a, 1);				/* mov A 1(%esp) */ \
+        X86_ARGO(op.b, 2);				/* mov B 2(%esp) */ \
+        X86_PRE(); ASM(0xB8); ASMN(cmp_func);		/* mov &cmp_func %rax */ \
+        ASM(0xFF); ASM(0xD0);				/* callq %rax */ \
+        X86_PRE(); ASM(0xA9); ASMI(PN_REF_MASK);	/* test REF_MASK, %rax */ \
+        TAG_PREP(end_c); ASM(0x74); ASM(0);		/* je [end] a bool */ \
+        ASM(0xC9); ASM(0xC3);				/* leave; ret the error */ \
+        TAG_LABEL(true_); TAG_LABEL(end_f); TAG_LABEL(end_c);           \
+        X86_MOV_RBP(0x89, op.a);			/* [end]: mov %rax -A(%rbp) */ \
+        })
 
 #if 0
 // eq/neq: cmp 2 atoms. cmp the dbl value if both are double or the immediate words.
@@ -783,32 +762,24 @@ void potion_x86_eq(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asm
   //X86_CMP(0x74, 0x84);		 // je
 }
 
-void potion_x86_lt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_x86_lt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_NUMCMP(0x7C, 0x72,  		// jl, jb
-             "\x66\x0F\x2e\xc1" 	// ucomisd %xmm1, %xmm0
-             );
+  X86_NUMCMP(0x7C, potion_vm_lt);	// jl
 }
 
-void potion_x86_lte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_x86_lte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_NUMCMP(0x7E, 0x76,		// jle, jbe
-             "\x66\x0F\x2e\xc1" 	// ucomisd %xmm1, %xmm0
-             );
+  X86_NUMCMP(0x7E, potion_vm_lte);	// jle
 }
 
-void potion_x86_gt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_x86_gt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_NUMCMP(0x7F, 0x77,		// jg, ja
-             "\x66\x0F\x2e\xc1" 	// ucomisd %xmm1, %xmm0
-             );
+  X86_NUMCMP(0x7F, potion_vm_gt);	// jg
 }
 
-void potion_x86_gte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
+void potion_x86_gte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_NUMCMP(0x7D, 0x73, 		// jge, jae
-             "\x66\x0F\x2e\xc1" 	// ucomisd %xmm1, %xmm0
-             );
+  X86_NUMCMP(0x7D, potion_vm_gte);	// jge
 }
 
 void potion_x86_bitn(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
diff --git a/core/vm.c b/core/vm.c
index 2378942..f82e21f 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -331,10 +331,10 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
       CASE_OP(POW, (P, f, &asmb, pos, need))
       CASE_OP(NEQ, (P, f, &asmb, pos, need))
       CASE_OP(EQ, (P, f, &asmb, pos, need))	// if ((RK[b] == RK[c]) ~= a) then PC++
-      CASE_OP(LT, (P, f, &asmb, pos))		// if ((RK[b] <  RK[c]) ~= a) then PC++
-      CASE_OP(LTE, (P, f, &asmb, pos))		// if ((RK[b] <= RK[c]) ~= a) then PC++
-      CASE_OP(GT, (P, f, &asmb, pos))
-      CASE_OP(GTE, (P, f, &asmb, pos))
+      CASE_OP(LT, (P, f, &asmb, pos, need))		// if ((RK[b] <  RK[c]) ~= a) then PC++
+      CASE_OP(LTE, (P, f, &asmb, pos, need))		// if ((RK[b] <= RK[c]) ~= a) then PC++
+      CASE_OP(GT, (P, f, &asmb, pos, need))
+      CASE_OP(GTE, (P, f, &asmb, pos, need))
       CASE_OP(BITN, (P, f, &asmb, pos, need))
       CASE_OP(BITL, (P, f, &asmb, pos, need))
       CASE_OP(BITR, (P, f, &asmb, pos, need))
@@ -422,7 +422,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
 // TODO: support str1 < str2, or list1 < list2? (i.e. call the cmp method)
 #define PN_VM_NUMCMP(cmp)					  \
   if (PN_IS_INT(reg[op.a]) && PN_IS_INT(reg[op.b]))		  \
-    reg[op.a] = PN_BOOL(reg[op.a] cmp reg[op.b]);		  \
+    reg[op.a] = PN_BOOL((long)reg[op.a] cmp (long)reg[op.b]);	  \
   else {                                                          \
     PN_CHECK_NUM(reg[op.a]);                                      \
     PN_CHECK_NUM(reg[op.b]);                                      \
@@ -455,6 +455,18 @@ PN potion_vm_neq(Potion *P, PN a, PN b) {
   }
 }
 
+/* the jit inlines the comparison of two integers only */
+#define PN_VM_NUMCMP_FUNC(name, cmp)                              \
+PN potion_vm_##name(Potion *P, PN a, PN b) {                      \
+  PN_CHECK_NUM(a);                                                \
+  PN_CHECK_NUM(b);                                                \
+  return PN_BOOL(PN_DBL(a) cmp PN_DBL(b));                        \
+}
+PN_VM_NUMCMP_FUNC(lt, <)
+PN_VM_NUMCMP_FUNC(lte, <=)
+PN_VM_NUMCMP_FUNC(gt, >)
+PN_VM_NUMCMP_FUNC(gte, >=)
+
 static PN potion_sig_check(Potion *P, struct PNClosure *cl, int arity, int numargs) {
   if (numargs > 0) {  //allow fun() to return the closure
     if (numargs < cl->minargs)
-- 
2.43.0


From 9bb17b9a96ed2d4ab13bb23c5e54e4a5134e6d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 18/63] fix: calls in the vm keep every frame inside its stack,
 default arguments no longer grow the caller's frame, and locals start as nil

---
 core/vm.c | 81 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 47 insertions(+), 34 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index f82e21f..39c79f4 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -214,6 +214,8 @@ PN potion_vm_class(Potion *P, PN cl, PN self) {
 }
 
 #define STACK_MAX 4096
+// upvals | locals | self | registers | default args of a call to a native method
+#define VM_FRAME(f) ((long)(f)->upvalsize + (f)->localsize + 1 + PN_INT((f)->stack) + 16)
 #define JUMPS_MAX 1024
 
 #define CASE_OP(name, args) case OP_##name: target->op[OP_##name]args; break;
@@ -659,7 +661,7 @@ PN potion_vm(Potion *P, PN proto, PN self, PN vargs, PN_SIZE upc, PN *upargs) {
   DBG_t("-- run-time --\n");
 
 reentry:
-  if (current - stack >= STACK_MAX) { // 4096
+  if ((current - stack) + VM_FRAME(f) >= STACK_MAX) { // 4096
     potion_fatal("Out of stack, all registers used up!");
   }
 
@@ -669,8 +671,8 @@ reentry:
 
   if (pos == 0) {
     reg[-1] = reg[0] = self;
-    //if (f->localsize)
-    //  memset((void*)locals, 0, sizeof(PN) * f->localsize);
+    if (f->localsize)
+      memset((void*)locals, 0, sizeof(PN) * f->localsize);
     if (upc > 0 && upargs != NULL) {
       PN_SIZE i;
       for (i = 0; i < upc; i++) {
@@ -860,41 +862,52 @@ reentry:
                 }
               }
               reg[op.a] = potion_call(P, reg[op.a], op.b - op.a, reg + op.a + 1);
-            } else if (((reg - stack) + PN_INT(f->stack) + f->upvalsize + f->localsize + 8) >= STACK_MAX) {
-	      DBG_vt(" >stack");
-              PN argt = potion_tuple_with_size(P, (op.b - op.a) - 1);
-              for (i = 2; i < op.b - op.a; i++)
-                PN_TUPLE_AT(argt, i - 2) = reg[op.a + i];
-              reg[op.a] = potion_vm(P, cl->data[0], reg[op.a + 1], argt,
-                cl->extra - 1, &cl->data[1]);
             } else {
-	      DBG_vt(" stack");
-              self = reg[op.a + 1];
-              args = &reg[op.a + 2];
-              if (PN_IS_TUPLE(sig)) {
-		int arity = cl->arity;
+	      vPN(Proto) callee = PN_PROTO(cl->data[0]);
+	      int arity = PN_IS_TUPLE(sig) ? cl->arity : 0;
+	      int defs = arity > numargs ? arity - numargs : 0;
+	      long frame = PN_INT(f->stack) + defs + 3;
+	      if (PN_IS_TUPLE(sig)) {
 		PN err = potion_sig_check(P, cl, arity, numargs);
 		if (err) return err;
-                for (i=numargs; i < arity; i++) { // fill in defaults. TODO compile-time
-                  PN s = potion_sig_at(P, sig, i);
-                  if (s) // default or zero: && !filled by NAMED (?)
-                    reg[op.a + i + 2] = PN_TUPLE_LEN(s) == 3
+	      }
+	      if ((reg - stack) + frame + VM_FRAME(callee) >= STACK_MAX) {
+		DBG_vt(" >stack");
+		vPN(Tuple) argt = (struct PNTuple *)potion_tuple_with_size(P, numargs + defs);
+		cl = PN_CLOSURE(reg[op.a]);
+		for (i = 0; i < numargs; i++)
+		  argt->set[i] = reg[op.a + i + 2];
+		for (; i < arity; i++) { // fill in defaults
+		  PN s = potion_sig_at(P, sig, i);
+		  argt->set[i] = !s ? PN_NIL : PN_TUPLE_LEN(s) == 3
+		    ? PN_TUPLE_AT(s, 2)
+		    : potion_type_default(PN_INT(PN_TUPLE_AT(s,1)));
+		}
+		reg[op.a] = potion_vm(P, cl->data[0], reg[op.a + 1], (PN)argt,
+		  cl->extra - 1, &cl->data[1]);
+	      } else {
+		DBG_vt(" stack");
+		self = reg[op.a + 1];
+		args = &reg[op.a + 2];
+		for (i=numargs; i < arity; i++) { // fill in defaults. TODO compile-time
+		  PN s = potion_sig_at(P, sig, i);
+		  if (s) // default or zero: && !filled by NAMED (?)
+		    reg[op.a + i + 2] = PN_TUPLE_LEN(s) == 3
 		      ? PN_TUPLE_AT(s, 2)
 		      : potion_type_default(PN_INT(PN_TUPLE_AT(s,1)));
-                  f->stack = PN_NUM(PN_INT(f->stack)+1);
-                  op.b++;
-                }
-              }
-              upc = cl->extra - 1;
-              upargs = &cl->data[1];
-              current = reg + PN_INT(f->stack) + 2;
-              current[-2] = (PN)f;
-              current[-1] = (PN)pos;
-
-              f = PN_PROTO(cl->data[0]);
-              pos = 0;
-	      DBG_t("\t; %s\n", STRINGIFY(reg[op.a]));
-              goto reentry;
+		}
+		upc = cl->extra - 1;
+		upargs = &cl->data[1];
+		current = reg + frame;
+		current[-3] = (PN)frame;
+		current[-2] = (PN)f;
+		current[-1] = (PN)pos;
+
+		f = PN_PROTO(cl->data[0]);
+		pos = 0;
+		DBG_t("\t; %s\n", STRINGIFY(reg[op.a]));
+		goto reentry;
+	      }
             }
 	  }
           break;
@@ -923,7 +936,7 @@ reentry:
           pos = (PN_SIZE)current[-1];
           op = PN_OP_AT(f->asmb, pos);
 
-          reg = current - (PN_INT(f->stack) + 2);
+          reg = current - (long)current[-3];
           current = reg - (f->localsize + f->upvalsize + 1);
           reg[op.a] = val;
           pos++;
-- 
2.43.0


From a6ff22676e8ab3b703529a4763a90edc6b56a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 19/63] fix: compiled functions start with nil locals

---
 core/vm-x86.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index e85e856..7d65765 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -419,19 +419,16 @@ void potion_x86_stack(Potion *P, struct PNProto * volatile f, PNAsm * volatile *
 }
 
 void potion_x86_registers(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, long start) {
-  PN_HAS_UPVALS(up);
+  int argx, regs = PN_INT(f->stack);
   // (Potion *, self) in the first argument slot, self in the first register
   // DBG_v(";regs start %ld\n", start);
   X86_ARGI(start - 3, 0);
   X86_ARGI(start - 2, 1);
   X86_ARGI(start - 1, 2);
   X86_ARGI(0, 2);
-  // empty locals, since use of setlocal requires something there
-  if (up) {
-    int argx = 0, regs = PN_INT(f->stack);
-    for (argx = 0; argx < PN_TUPLE_LEN(f->locals); argx++) {
-      X86_MOVQ(regs + argx, PN_NIL);
-    }
+  // empty locals: they are nil before they are assigned
+  for (argx = 0; argx < PN_TUPLE_LEN(f->locals); argx++) {
+    X86_MOVQ(regs + argx, PN_NIL);
   }
 }
 
-- 
2.43.0


From e810dddc7dc89b7ba27d6e0591d57acd55c822d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 20/63] fix: the collector traces the semantic values of a
 running parser

---
 core/gc.c     |  7 ++++++-
 core/potion.h |  3 +++
 core/syntax.y | 14 ++++++++++++++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/core/gc.c b/core/gc.c
index 75b3010..41825af 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -94,6 +94,11 @@ static PN_SIZE pngc_mark_array(Potion *P, register _PN *x, register long n, int
   return i;
 }
 
+/// n values outside of the heap and the machine stack, such as the parser's
+PN_SIZE potion_mark_roots(Potion *P, PN *x, long n, int type) {
+  return pngc_mark_array(P, (_PN *)x, n, type);
+}
+
 ATTRIBUTE_NO_ADDRESS_SAFETY_ANALYSIS
 PN_SIZE potion_mark_stack(Potion *P, int type) {
   long n;
@@ -108,7 +113,7 @@ PN_SIZE potion_mark_stack(Potion *P, int type) {
 #endif
   DBG_Gv(P,"mark_stack (%p -> %p = %ld, type=%d)\n", start, end, n, type);
   if (n <= 0) return 0;
-  return pngc_mark_array(P, start, n, type);
+  return pngc_mark_array(P, start, n, type) + potion_mark_parser(P, type);
 }
 
 void *pngc_page_new(int *sz, const char exec) {
diff --git a/core/potion.h b/core/potion.h
index e87b4e8..68bc7e3 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -668,6 +668,7 @@ struct Potion_State {
   PN line;                 ///< currently parsed line (for debug)
   PN_SIZE fileno;          ///< currently parsed file
   PN unclosed;             ///< used by parser for named block endings
+  void *parser;            ///< the running parser: its semantic values are roots
 };
 
 ///
@@ -693,6 +694,8 @@ struct PNMemory {
   PN __##x = 0x571FF; void *x = (void *)&__##x
 void potion_garbagecollect(Potion *, int, int);
 PN_SIZE potion_type_size(Potion *, const struct PNObject *);
+PN_SIZE potion_mark_roots(Potion *, PN *, long, int);
+PN_SIZE potion_mark_parser(Potion *, int);
 unsigned long potion_rand_int();
 double potion_rand_double();
 
diff --git a/core/syntax.y b/core/syntax.y
index a7c9d2b..ecbdc1e 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -379,11 +379,21 @@ arg-sep = '.' -         { SRC_TPL1(PN_NUM('.')) } #x,y... ignore rest
 
 %%
 
+/// the parser keeps the semantic values in its own stack, while the actions allocate
+PN_SIZE potion_mark_parser(Potion *P, int type) {
+  GREG *G = (GREG *)P->parser;
+  if (!G) return 0;
+  return potion_mark_roots(P, &G->ss, 1, type)
+    + (G->vals ? potion_mark_roots(P, G->vals, G->val - G->vals, type) : 0);
+}
+
 PN potion_parse(Potion *P, PN code, char *filename) {
   GREG *G = YY_NAME(parse_new)(P);
+  void *oldparser = P->parser;
   int oldyypos = P->yypos;
   PN oldinput = P->input;
   PN oldsource = P->source;
+  P->parser = (void *)G;
   P->yypos = 0;
   P->input = code;
   P->source = PN_NIL;
@@ -402,6 +412,7 @@ PN potion_parse(Potion *P, PN code, char *filename) {
     fprintf(stderr, "%s", s->chars);
     P->source = PN_NIL;
   }
+  P->parser = oldparser;
   YY_NAME(parse_free)(G);
 
   code = P->source;
@@ -443,9 +454,11 @@ PN potion_sig(Potion *P, char *fmt) {
   if (fmt[0] == '\0') return PN_FALSE; // empty signature, no args
 
   GREG *G = YY_NAME(parse_new)(P);
+  void *oldparser = P->parser;
   int oldyypos = P->yypos;
   PN oldinput = P->input;
   PN oldsource = P->source;
+  P->parser = (void *)G;
   P->yypos = 0;
   P->input = potion_byte_str(P, fmt);
   P->source = out = PN_TUP0();
@@ -456,6 +469,7 @@ PN potion_sig(Potion *P, char *fmt) {
 
   if (!YY_NAME(parse_from)(G, yy_sig))
     YY_ERROR("** Syntax error in signature");
+  P->parser = oldparser;
   YY_NAME(parse_free)(G);
 
   out = P->source;
-- 
2.43.0


From a2da5b760abba4708d997f94f9222a8eb24367ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:27 +0000
Subject: [PATCH 21/63] fix: argument tuple built by a vm call is reported to
 the write barrier when a default value may have been collected around

---
 core/vm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/vm.c b/core/vm.c
index 39c79f4..03ba386 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -882,6 +882,7 @@ reentry:
 		  argt->set[i] = !s ? PN_NIL : PN_TUPLE_LEN(s) == 3
 		    ? PN_TUPLE_AT(s, 2)
 		    : potion_type_default(PN_INT(PN_TUPLE_AT(s,1)));
+		  PN_TOUCH(argt);
 		}
 		reg[op.a] = potion_vm(P, cl->data[0], reg[op.a + 1], (PN)argt,
 		  cl->extra - 1, &cl->data[1]);
-- 
2.43.0


From 02b736eb8a8db66028bdeca5c58b7777d58bb7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 22/63] fix: operands and jump distances that do not fit an
 instruction end the compilation instead of wrapping, and the JIT's jump
 tables hold every op

---
 core/asm.c     |  2 ++
 core/compile.c | 33 ++++++++++++++++++++++++---------
 core/vm.c      | 11 +++++++++--
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/core/asm.c b/core/asm.c
index 46b4a9c..7f15bb4 100644
--- a/core/asm.c
+++ b/core/asm.c
@@ -49,6 +49,8 @@ PNAsm *potion_asm_op(Potion *P, PNAsm * volatile asmb, u8 ins, int _a, int _b) {
   pos->code = ins;
   pos->a    = _a;
   pos->b    = _b;
+  if (pos->a != _a || pos->b != _b)
+    potion_fatal("function too big: operand does not fit an instruction");
 
   asmb->len += sizeof(PN_OP);
   return asmb;
diff --git a/core/compile.c b/core/compile.c
index cfa9665..554e51f 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -183,6 +183,15 @@ PN potion_proto_string(Potion *P, PN cl, PN self) {
   return PN_STR_B(out);
 }
 
+// patch an operand, which has 12 bits only
+#define PN_OP_SET(f, pos, operand, val) ({ \
+  int _val = (val); \
+  PN_OP_AT(f->asmb, pos).operand = _val; \
+  if (PN_OP_AT(f->asmb, pos).operand != _val) \
+    potion_fatal("function too big: operand does not fit an instruction"); \
+})
+// registers are u8, and no construct takes more than a few between two checks
+#define MAX_REGS 240
 #define PN_REG(f, reg) \
   if (reg >= PN_INT(f->stack)) \
     f->stack = PN_NUM(reg + 1)
@@ -323,6 +332,8 @@ void potion_arg_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *loop
 void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *loop, PN_SIZE count,
                         struct PNSource * volatile t, u8 reg) {
   //PN fname = 0;
+  if (reg > MAX_REGS)
+    potion_fatal("function too big: too many registers");
   PN_REG(f, reg);
   PN_ASM_DEBUG(reg, t);
   switch (t->part) {
@@ -594,7 +605,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
       jmp = PN_OP_LEN(f->asmb);
       PN_ASM2(t->part == AST_AND ? OP_NOTJMP : OP_TESTJMP, reg, 0);
       PN_ARG(1, reg);
-      PN_OP_AT(f->asmb, jmp).b = (PN_OP_LEN(f->asmb) - jmp) - 1;
+      PN_OP_SET(f, jmp, b, (PN_OP_LEN(f->asmb) - jmp) - 1);
     }
     break;
 
@@ -616,7 +627,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         if (!t->a[2])
           return potion_syntax_error(P, t, "Missing if body");
         potion_source_asmb(P, f, loop, 0, t->a[2], reg);
-        PN_OP_AT(f->asmb, jmp).b = (PN_OP_LEN(f->asmb) - jmp) - 1;
+        PN_OP_SET(f, jmp, b, (PN_OP_LEN(f->asmb) - jmp) - 1);
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_elsif) {
         int jmp1 = PN_OP_LEN(f->asmb), jmp2; breg++;
         PN_ASM2(OP_TESTJMP, breg, 0);
@@ -628,15 +639,15 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         if (!t->a[2])
           return potion_syntax_error(P, t, "Missing elsif body");
         potion_source_asmb(P, f, loop, 0, t->a[2], reg);
-        PN_OP_AT(f->asmb, jmp1).b = (PN_OP_LEN(f->asmb) - jmp1) - 1;
-        PN_OP_AT(f->asmb, jmp2).b = (PN_OP_LEN(f->asmb) - jmp2) - 1;
+        PN_OP_SET(f, jmp1, b, (PN_OP_LEN(f->asmb) - jmp1) - 1);
+        PN_OP_SET(f, jmp2, b, (PN_OP_LEN(f->asmb) - jmp2) - 1);
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_else) {
         int jmp = PN_OP_LEN(f->asmb); breg++;
         PN_ASM2(OP_TESTJMP, breg, 0);
         if (!t->a[2])
           potion_syntax_error(P, t, "Missing else body");
         potion_source_asmb(P, f, loop, 0, t->a[2], reg);
-        PN_OP_AT(f->asmb, jmp).b = (PN_OP_LEN(f->asmb) - jmp) - 1;
+        PN_OP_SET(f, jmp, b, (PN_OP_LEN(f->asmb) - jmp) - 1);
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_class) {
         u8 breg = reg;
         if (count == 0)
@@ -733,13 +744,13 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         potion_source_asmb(P, f, &l, 0, t->a[2], reg);
         PN_ASM1(OP_JMP, (jmp2 - PN_OP_LEN(f->asmb)) - 1);
         if (PN_S(t,0) == PN_while) {
-          PN_OP_AT(f->asmb, jmp1).b = (PN_OP_LEN(f->asmb) - jmp1) - 1;
+          PN_OP_SET(f, jmp1, b, (PN_OP_LEN(f->asmb) - jmp1) - 1);
         }
         for (i = 0; i < l.bjmpc; i++) {
-          PN_OP_AT(f->asmb, l.bjmps[i]).a = (PN_OP_LEN(f->asmb) - l.bjmps[i]) - 1;
+          PN_OP_SET(f, l.bjmps[i], a, (PN_OP_LEN(f->asmb) - l.bjmps[i]) - 1);
         }
         for (i = 0; i < l.cjmpc; i++) {
-          PN_OP_AT(f->asmb, l.cjmps[i]).a = (jmp2 - l.cjmps[i]) - 1;
+          PN_OP_SET(f, l.cjmps[i], a, (jmp2 - l.cjmps[i]) - 1);
         }
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_return) {
         //if (!t->a[1])
@@ -748,6 +759,8 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         PN_ASM1(OP_RETURN, reg);
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_break) {
         if (loop != NULL) {
+          if (loop->bjmpc >= MAX_JUMPS)
+            potion_fatal("function too big: too many breaks");
           loop->bjmps[loop->bjmpc++] = PN_OP_LEN(f->asmb);
           PN_ASM1(OP_JMP, 0);
         } else {
@@ -755,6 +768,8 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         }
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_continue) {
         if (loop != NULL) {
+          if (loop->cjmpc >= MAX_JUMPS)
+            potion_fatal("function too big: too many continues");
           loop->cjmps[loop->cjmpc++] = PN_OP_LEN(f->asmb);
           PN_ASM1(OP_JMP, 0);
         } else {
@@ -829,7 +844,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
             if (PN_S(t,1) != PN_NIL) {
 	      DBG_c("; call %d %d !MSG\n", reg, breg);
               PN_ASM2(OP_CALL, reg, breg);
-              PN_OP_AT(f->asmb, jmp).b = (PN_OP_LEN(f->asmb) - jmp) - 1;
+              PN_OP_SET(f, jmp, b, (PN_OP_LEN(f->asmb) - jmp) - 1);
             } else {
               PN_ASM2(OP_TEST, reg, breg);
             }
diff --git a/core/vm.c b/core/vm.c
index 03ba386..a94e4a3 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -216,14 +216,13 @@ PN potion_vm_class(Potion *P, PN cl, PN self) {
 #define STACK_MAX 4096
 // upvals | locals | self | registers | default args of a call to a native method
 #define VM_FRAME(f) ((long)(f)->upvalsize + (f)->localsize + 1 + PN_INT((f)->stack) + 16)
-#define JUMPS_MAX 1024
 
 #define CASE_OP(name, args) case OP_##name: target->op[OP_##name]args; break;
 
 PN_F potion_jit_proto(Potion *P, PN proto) {
   long regs = 0, lregs = 0, need = 0, rsp = 0, argx = 0, protoargs = 4;
   PN_SIZE pos;
-  PNJumps jmps[JUMPS_MAX]; size_t offs[JUMPS_MAX]; int jmpc = 0, jmpi = 0;
+  PNJumps *jmps; size_t *offs; int jmpc = 0, jmpi = 0;
   vPN(Proto) f = (struct PNProto *)proto;
   long upc = PN_TUPLE_LEN(f->upvals);
   PNAsm * volatile asmb = potion_asm_new(P);
@@ -297,6 +296,12 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   if (upc > 0)
     target->upvals(P, f, &asmb, lregs, need, upc);
 
+  // the code offset of every op, and at most one jump to fix per op
+  offs = malloc(sizeof(size_t) * (PN_OP_LEN(f->asmb) + 1));
+  jmps = malloc(sizeof(PNJumps) * (PN_OP_LEN(f->asmb) + 1));
+  if (offs == NULL || jmps == NULL)
+    potion_allocation_error();
+
   for (pos = 0; pos < PN_FLEX_SIZE(f->asmb) / sizeof(PN_OP); pos++) {
     offs[pos] = asmb->len;
     for (jmpi = 0; jmpi < jmpc; jmpi++) {
@@ -363,6 +368,8 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   }
 
   target->finish(P, f, &asmb);
+  free(offs);
+  free(jmps);
 
   fn = (u8*)PN_ALLOC_FUNC(asmb->len);
 #if defined(JIT_DEBUG)
-- 
2.43.0


From 4e2efb1a9aef4f4fe017e281395491cc10fb74d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 23/63] fix: number methods report a type error for operands
 that are no numbers instead of crashing on them

---
 core/number.c | 74 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/core/number.c b/core/number.c
index fed5514..297e496 100644
--- a/core/number.c
+++ b/core/number.c
@@ -31,6 +31,8 @@ PN potion_strtod(Potion *P, char *str, int len) {
  \param sup PNNumber
  \return PNNumber (PNInteger or PNDouble) */
 PN potion_num_pow(Potion *P, PN cl, PN self, PN sup) {
+  PN_CHECK_NUM(self);
+  PN_CHECK_NUM(sup);
   double x = PN_DBL(self), y = PN_DBL(sup);
   double z = pow(x, y);
   if (PN_IS_INT(self) && PN_IS_INT(sup) && fabs(z) < INT_MAX)
@@ -41,12 +43,13 @@ PN potion_num_pow(Potion *P, PN cl, PN self, PN sup) {
   "sqrt" as double
  \return PNDouble */
 static PN potion_num_sqrt(Potion *P, PN cl, PN self) {
+  PN_CHECK_NUM(self);
   return potion_double(P, sqrt(PN_DBL(self)));
 }
 
 #define PN_NUM_MATH(math_op) \
-  DBG_CHECK_NUM(self); \
-  DBG_CHECK_NUM(num); \
+  PN_CHECK_NUM(self); \
+  PN_CHECK_NUM(num); \
   if (PN_IS_INT(self) && PN_IS_INT(num)) \
     return PN_NUM(PN_INT(self) math_op PN_INT(num)); \
   return potion_double(P, PN_DBL(self) math_op PN_DBL(num));
@@ -63,12 +66,12 @@ static PN potion_num_sqrt(Potion *P, PN cl, PN self) {
 # define PN_NUM_MATH_OV(math_op, ov) PN_NUM_MATH(math_op)
 #endif
 #define PN_INT_MATH(math_op) \
-  DBG_CHECK_INT(self); \
-  DBG_CHECK_INT(num); \
+  PN_CHECK_INT(self); \
+  PN_CHECK_INT(num); \
   return PN_NUM(PN_INT(self) math_op PN_INT(num));
 #define PN_DBL_MATH(math_op) \
-  DBG_CHECK_NUM(self); \
-  DBG_CHECK_NUM(num); \
+  PN_CHECK_NUM(self); \
+  PN_CHECK_NUM(num); \
   return potion_double(P, PN_DBL(self) math_op PN_DBL(num));
 
 /**\memberof PNNumber
@@ -100,6 +103,7 @@ static PN potion_num_mult(Potion *P, PN cl, PN self, PN num) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_div(Potion *P, PN cl, PN self, PN num) {
+  PN_CHECK_NUM(self);
   if (num == PN_ZERO)
     return potion_double(P, PN_DBL(self) / 0.0);
   PN_NUM_MATH(/)
@@ -110,6 +114,8 @@ static PN potion_num_div(Potion *P, PN cl, PN self, PN num) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_rem(Potion *P, PN cl, PN self, PN num) {
+  PN_CHECK_NUM(self);
+  PN_CHECK_NUM(num);
   if (num == PN_ZERO)
     return potion_double(P, fmod(PN_DBL(self), 0.0));
   if (PN_IS_INT(self) && PN_IS_INT(num))
@@ -153,8 +159,8 @@ static PN potion_num_bitr(Potion *P, PN cl, PN self, PN num) {
  \param num PNInteger
  \return PNInteger */
 static PN potion_int_add(Potion *P, PN cl, PN self, PN num) {
-  DBG_CHECK_INT(self);
-  DBG_CHECK_INT(num);
+  PN_CHECK_INT(self);
+  PN_CHECK_INT(num);
   PN_NUM_MATH_OV(+, saddl)
 }
 /**\memberof PNInteger
@@ -162,8 +168,8 @@ static PN potion_int_add(Potion *P, PN cl, PN self, PN num) {
  \param num PNInteger
  \return PNInteger */
 static PN potion_int_sub(Potion *P, PN cl, PN self, PN num) {
-  DBG_CHECK_INT(self);
-  DBG_CHECK_INT(num);
+  PN_CHECK_INT(self);
+  PN_CHECK_INT(num);
   PN_NUM_MATH_OV(-, ssubl)
 }
 /**\memberof PNInteger
@@ -171,8 +177,8 @@ static PN potion_int_sub(Potion *P, PN cl, PN self, PN num) {
  \param num PNInteger
  \return PNInteger */
 static PN potion_int_mult(Potion *P, PN cl, PN self, PN num) {
-  DBG_CHECK_INT(self);
-  DBG_CHECK_INT(num);
+  PN_CHECK_INT(self);
+  PN_CHECK_INT(num);
   PN_NUM_MATH_OV(*, smull)
 }
 /**\memberof PNInteger
@@ -199,6 +205,7 @@ static PN potion_int_rem(Potion *P, PN cl, PN self, PN num) {
   "~" method, bitwise negation  \code ~ 0 #=> -1 \endcode
  \return PNInteger */
 static PN potion_int_bitn(Potion *P, PN cl, PN self) {
+  PN_CHECK_INT(self);
   return PN_NUM(~PN_INT(self));
 }
 
@@ -207,6 +214,8 @@ static PN potion_int_bitn(Potion *P, PN cl, PN self) {
  \param num PNInteger
  \return PNInteger */
 static PN potion_int_bitl(Potion *P, PN cl, PN self, PN num) {
+  PN_CHECK_INT(self);
+  PN_CHECK_INT(num);
   return PN_NUM(PN_INT(self) << PN_INT(num));
 }
 
@@ -215,6 +224,8 @@ static PN potion_int_bitl(Potion *P, PN cl, PN self, PN num) {
  \param num PNInteger
  \return PNInteger */
 static PN potion_int_bitr(Potion *P, PN cl, PN self, PN num) {
+  PN_CHECK_INT(self);
+  PN_CHECK_INT(num);
   return PN_NUM(PN_INT(self) >> PN_INT(num));
 }
 /**\memberof PNInteger
@@ -236,6 +247,7 @@ static PN potion_num_number(Potion *P, PN cl, PN self) {
   "double" cast
  \return PNDouble */
 static PN potion_num_double(Potion *P, PN cl, PN self) {
+  PN_CHECK_NUM(self);
   if (PN_IS_INT(self))
     return potion_double(P, (double)PN_INT(self));
   else
@@ -245,6 +257,7 @@ static PN potion_num_double(Potion *P, PN cl, PN self) {
   "integer" cast
  \return floor rounded PNInteger */
 static PN potion_num_integer(Potion *P, PN cl, PN self) {
+  PN_CHECK_NUM(self);
   if (PN_IS_INT(self))
     return self;
   else
@@ -276,6 +289,7 @@ static PN potion_dbl_div(Potion *P, PN cl, PN self, PN num) { PN_DBL_MATH(/) }
  \return PNString */
 PN potion_dbl_string(Potion *P, PN cl, PN self) {
   char ints[352]; // -DBL_MAX has 309 digits
+  PN_CHECK_DBL(self);
   int len = snprintf(ints, sizeof(ints), "%.16f", ((struct PNDouble *)self)->value);
   while (len > 0 && ints[len - 1] == '0') len--;
   if (ints[len - 1] == '.') len++;
@@ -287,6 +301,7 @@ PN potion_dbl_string(Potion *P, PN cl, PN self) {
  \return PNString */
 PN potion_num_string(Potion *P, PN cl, PN self) {
   char ints[352];
+  PN_CHECK_NUM(self);
   if (PN_IS_INT(self)) {
     sprintf(ints, "%ld", PN_INT(self));
   } else {
@@ -369,8 +384,9 @@ static PN potion_int_step(Potion *P, PN cl, PN self, PN end, PN step, PN block)
   "chr" of int only, no UTF-8 multi-byte sequence yet.
  \return PNString one char <255 */
 static PN potion_int_chr(Potion *P, PN cl, PN self) {
-  char c = PN_INT(self);
-  DBG_CHECK_INT(self);
+  char c;
+  PN_CHECK_INT(self);
+  c = PN_INT(self);
   return PN_STRN(&c, 1);
 }
 /**\memberof PNNumber
@@ -395,7 +411,7 @@ static PN potion_num_is_double(Potion *P, PN cl, PN self) {
   "abs"
  \return PNInteger or PNDouble */
 static PN potion_num_abs(Potion *P, PN cl, PN self) {
-  DBG_CHECK_NUM(self);
+  PN_CHECK_NUM(self);
   if (PN_IS_DBL(self)) {
     double d = PN_DBL(self);
     if (d < 0.0)
@@ -416,8 +432,9 @@ static PN potion_int_abs(Potion *P, PN cl, PN self) {
   "abs"
  \return PNDouble */
 static PN potion_dbl_abs(Potion *P, PN cl, PN self) {
-  double d = PN_DBL(self);
-  DBG_CHECK_NUM(self);
+  double d;
+  PN_CHECK_NUM(self);
+  d = PN_DBL(self);
   if (d < 0.0)
     return (PN) potion_double(P, -d);
   else
@@ -432,14 +449,18 @@ static PN potion_dbl_abs(Potion *P, PN cl, PN self) {
  \return PNInteger -1, 0 or 1
  \sa potion_tuple_sort. */
 static PN potion_num_cmp(Potion *P, PN cl, PN self, PN n) {
-  if (PN_IS_DBL(self)) {
-    double d1 = ((struct PNDouble *)self)->value;
-    double d2 = PN_DBL(potion_send(PN_number, n));
+  if (!PN_IS_NUM(n)) {
+    n = potion_send(PN_number, n);
+    PN_CHECK_NUM(n);
+  }
+  PN_CHECK_NUM(self);
+  if (!PN_IS_INT(self) || !PN_IS_INT(n)) {
+    double d1 = PN_DBL(self), d2 = PN_DBL(n);
     return d1 < d2 ? PN_NUM(-1) : d1 == d2 ? PN_ZERO : PN_NUM(1);
   } else {
     long n1, n2;
     n1 = PN_INT(self);
-    n2 = PN_IS_INT(n) ? PN_INT(n) : PN_INT(potion_send(PN_number, n));
+    n2 = PN_INT(n);
     return n1 < n2 ? PN_NUM(-1) : n1 == n2 ? PN_ZERO : PN_NUM(1);
   }
 }
@@ -451,10 +472,11 @@ static PN potion_num_cmp(Potion *P, PN cl, PN self, PN n) {
  \param n PN number compared to
  \return PNInteger -1, 0 or 1 */
 static PN potion_dbl_cmp(Potion *P, PN cl, PN self, PN n) {
-  double d1 = ((struct PNDouble *)self)->value;
-  double d2 = PN_DBL(n);
-  DBG_CHECK_DBL(self);
+  double d1, d2;
+  PN_CHECK_DBL(self);
   PN_CHECK_NUM(n);
+  d1 = ((struct PNDouble *)self)->value;
+  d2 = PN_DBL(n);
   return d1 < d2 ? PN_NUM(-1) : d1 == d2 ? PN_ZERO : PN_NUM(1);
 }
 /**\memberof PNInteger
@@ -467,8 +489,8 @@ static PN potion_dbl_cmp(Potion *P, PN cl, PN self, PN n) {
  \sa potion_tuple_sort. */
 static PN potion_int_cmp(Potion *P, PN cl, PN self, PN n) {
   long n1, n2;
-  DBG_CHECK_INT(self);
-  DBG_CHECK_INT(n);
+  PN_CHECK_INT(self);
+  PN_CHECK_INT(n);
   n1 = PN_INT(self);
   n2 = PN_INT(n);
   return n1 < n2 ? PN_NUM(-1) : n1 == n2 ? PN_ZERO : PN_NUM(1);
-- 
2.43.0


From 2e4a2ece092af785d6074ea841ce4cb5f4c17fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 24/63] fix: register native methods with signatures naming
 every argument they read

---
 core/string.c |  2 +-
 lib/aio.c     | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/string.c b/core/string.c
index c246015..19947a3 100644
--- a/core/string.c
+++ b/core/string.c
@@ -510,6 +510,6 @@ void potion_str_init(Potion *P) {
   potion_method(byt_vt, "print", potion_bytes_print, 0);
   potion_method(byt_vt, "string", potion_bytes_string, 0);
   potion_method(byt_vt, "clone", potion_bytes_clone, 0);
-  potion_method(byt_vt, "ord", potion_str_ord, 0);
+  potion_method(byt_vt, "ord", potion_str_ord, "|index=N");
   potion_method(byt_vt, "each", potion_bytes_each, "block=&");
 }
diff --git a/lib/aio.c b/lib/aio.c
index a0d010e..0c2d64a 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -1811,11 +1811,11 @@ void Potion_Init_aio(Potion *P) {
   PN aio_vt = potion_class(P, 0, 0, 0);
   aio_type = potion_class_type(P, aio_vt);
   potion_define_global(P, PN_STR("Aio"), aio_vt);
-#define DEF_AIO__VT(T,paren) \
+#define DEF_AIO__VT(T,paren,args) \
   PN aio_##T##_vt = potion_class(P, 0, paren##_vt, 0);	\
   aio_##T##_type = potion_class_type(P, aio_##T##_vt); \
   potion_define_global(P, PN_STR("Aio_" _XSTR(T)), aio_##T##_vt); \
-  potion_method(aio_##T##_vt, ""_XSTR(T), aio_##T##_new, 0)
+  potion_method(aio_##T##_vt, ""_XSTR(T), aio_##T##_new, args)
 #define DEF_AIO_CTOR(T) \
   potion_type_constructor_is(aio_##T##_vt, PN_FUNC(aio_##T##_new, 0)); \
   PN_TOUCH(aio_##T##_vt);
@@ -1826,7 +1826,7 @@ void Potion_Init_aio(Potion *P) {
   potion_define_global(P, PN_STR("Aio_" _XSTR(T)), aio_##T##_vt); \
   potion_method(aio_##T##_vt, ""_XSTR(T), aio_##T##_new, 0)
 #define DEF_AIO_GLOBAL_VT(T,paren,args) \
-  DEF_AIO__VT(T,paren); \
+  DEF_AIO__VT(T,paren,args); \
   potion_type_constructor_is(aio_##T##_vt, PN_FUNC(aio_##T##_new, args)); \
   PN_TOUCH(aio_##T##_vt); \
   potion_method(P->lobby, "Aio_"_XSTR(T), aio_##T##_new, args)
@@ -2020,7 +2020,7 @@ void Potion_Init_aio(Potion *P) {
   potion_method(aio_tcp_vt, "connect", aio_tcp_connect, "req=o,addr=S,port=N|connect_cb=&");
   potion_method(aio_tcp_vt, "connect6", aio_tcp_connect6, "req=o,addr=S,port=N|connect_cb=&");
   potion_method(aio_udp_vt, "open", aio_udp_open, "sockfd=N");
-  potion_method(aio_udp_vt, "bind", aio_udp_bind, "addr=S,port=N");
+  potion_method(aio_udp_vt, "bind", aio_udp_bind, "addr=S,port=N|flags:=0");
   potion_method(aio_udp_vt, "bind6", aio_udp_bind6, "addr=S,port=N|ipv6only:=0");
   potion_method(aio_udp_vt, "getsockname", aio_udp_getsockname, 0);
   potion_method(aio_udp_vt, "set_membership", aio_udp_set_membership, "mcaddr=S,ifaddr=S,memb=N");
@@ -2041,7 +2041,7 @@ void Potion_Init_aio(Potion *P) {
   potion_method(aio_pipe_vt, "connect", aio_pipe_connect, "req=o,name=S|connect_cb=&");
   potion_method(aio_pipe_vt, "start", aio_read_start, "cb=&");
   potion_method(aio_pipe_vt, "stop", aio_read_stop, 0);
-  potion_method(aio_pipe_vt, "write", aio_write2, "req=o,buf=b,bufcnt=N|write_cb=&");
+  potion_method(aio_pipe_vt, "write", aio_write2, "req=o,buf=b,bufcnt=N,send_handle=o|write_cb=&");
   potion_method(aio_pipe_vt, "pending_instances", aio_pipe_pending_instances, "count=N");
 
 #ifndef SANDBOX
@@ -2094,6 +2094,6 @@ void Potion_Init_aio(Potion *P) {
   potion_method(aio_stream_vt, "writable?", aio_is_writable, 0);
   potion_method(aio_stream_vt, "closing?", aio_is_closing, 0);
 #endif
-  potion_method(aio_signal_vt, "start", aio_signal_start, "cb=&");
+  potion_method(aio_signal_vt, "start", aio_signal_start, "cb=&,signum=N");
   potion_method(aio_signal_vt, "stop", aio_signal_stop, 0);
 }
-- 
2.43.0


From 9612f348c03e82138fa12177403ea4463fea8e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 25/63] fix: allocate takes a checked integer length; send
 names its argument

---
 core/internal.c | 6 ++++--
 core/objmodel.c | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/internal.c b/core/internal.c
index 8eca187..c0a3b16 100644
--- a/core/internal.c
+++ b/core/internal.c
@@ -23,8 +23,10 @@ PN PN_use, PN_no;
 PN pn_filenames;
 
 PN potion_allocate(Potion *P, PN cl, PN self, PN len) {
+  PN_CHECK_INT(len);
+  if (PN_INT(len) < 0) return PN_NIL;
   struct PNData *obj = PN_ALLOC_N(PN_TUSER, struct PNData, PN_INT(len));
-  obj->siz = len;
+  obj->siz = PN_INT(len);
   return (PN)obj;
 }
 
@@ -90,7 +92,7 @@ static void potion_init(Potion *P) {
 
   potion_def_method(P, 0, vtable, PN_lookup, PN_FUNC(potion_lookup, 0));
   potion_def_method(P, 0, vtable, PN_def, PN_FUNC(potion_def_method, "name=S,block=&"));
-  potion_send(vtable, PN_def, PN_allocate, PN_FUNC(potion_allocate, 0));
+  potion_send(vtable, PN_def, PN_allocate, PN_FUNC(potion_allocate, "len=N"));
   potion_send(vtable, PN_def, PN_delegated, PN_FUNC(potion_delegated, 0));
 
   potion_vm_init(P);
diff --git a/core/objmodel.c b/core/objmodel.c
index ef3b4e3..682cd1c 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -719,7 +719,7 @@ void potion_object_init(Potion *P) {
   potion_method(clo_vt, "minargs", potion_closure_minargs, 0);
   potion_method(ref_vt, "string", potion_ref_string, 0);
   potion_method(obj_vt, "forward", potion_object_forward, 0);
-  potion_method(obj_vt, "send", potion_object_send, 0);
+  potion_method(obj_vt, "send", potion_object_send, "method=o");
   potion_method(obj_vt, "string", potion_object_string, 0);
   potion_method(obj_vt, "size", potion_object_size, 0);
   potion_method(obj_vt, "subclass?", potion_object_subclass, "value=o");
-- 
2.43.0


From e8302f5c5635eb6b51df41f301759b9d2cda55e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 26/63] fix: user data objects have a class

---
 core/internal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/internal.c b/core/internal.c
index c0a3b16..696f20d 100644
--- a/core/internal.c
+++ b/core/internal.c
@@ -53,6 +53,7 @@ static void potion_init(Potion *P) {
   potion_type_new(P, PN_TLICK, obj_vt);
   potion_type_new(P, PN_TERROR, obj_vt);
   potion_type_new(P, PN_TCONT, obj_vt);
+  potion_type_new(P, PN_TUSER, obj_vt);
 
   potion_str_hash_init(P);
   PN_STR0 = PN_STRN("", 0);
-- 
2.43.0


From a501f1a91561eb743f6df99cf4c0e699f3601008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 27/63] fix: character access and lookup handlers have
 signatures naming their argument

---
 core/internal.c | 2 +-
 core/string.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/internal.c b/core/internal.c
index 696f20d..2fa757d 100644
--- a/core/internal.c
+++ b/core/internal.c
@@ -91,7 +91,7 @@ static void potion_init(Potion *P) {
   PN_continue = PN_STRN("continue", 8);
   PN_delegated = PN_STRN("delegated", 9);
 
-  potion_def_method(P, 0, vtable, PN_lookup, PN_FUNC(potion_lookup, 0));
+  potion_def_method(P, 0, vtable, PN_lookup, PN_FUNC(potion_lookup, "key=o"));
   potion_def_method(P, 0, vtable, PN_def, PN_FUNC(potion_def_method, "name=S,block=&"));
   potion_send(vtable, PN_def, PN_allocate, PN_FUNC(potion_allocate, "len=N"));
   potion_send(vtable, PN_def, PN_delegated, PN_FUNC(potion_delegated, 0));
diff --git a/core/string.c b/core/string.c
index 19947a3..ae44fad 100644
--- a/core/string.c
+++ b/core/string.c
@@ -491,7 +491,7 @@ void potion_str_hash_init(Potion *P) {
 void potion_str_init(Potion *P) {
   PN str_vt = PN_VTABLE(PN_TSTRING);
   PN byt_vt = PN_VTABLE(PN_TBYTES);
-  potion_type_call_is(str_vt, PN_FUNC(potion_str_at, 0));
+  potion_type_call_is(str_vt, PN_FUNC(potion_str_at, "index=N"));
   potion_method(str_vt, "eval", potion_str_eval, 0);
   potion_method(str_vt, "length", potion_str_length, 0);
   potion_method(str_vt, "number", potion_str_number, 0);
@@ -504,7 +504,7 @@ void potion_str_init(Potion *P) {
   potion_method(str_vt, "ord", potion_str_ord, "|index=N");
   potion_method(str_vt, "cmp", potion_str_cmp, "str=o");
   
-  potion_type_call_is(byt_vt, PN_FUNC(potion_bytes_at, 0));
+  potion_type_call_is(byt_vt, PN_FUNC(potion_bytes_at, "index=N"));
   potion_method(byt_vt, "append", potion_bytes_append, "str=S");
   potion_method(byt_vt, "length", potion_bytes_length, 0);
   potion_method(byt_vt, "print", potion_bytes_print, 0);
-- 
2.43.0


From e86fa0e860da518bf18c013cbbcce787d2c16914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 28/63] fix: dumping a source compiles it first

---
 core/compile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/compile.c b/core/compile.c
index 554e51f..1fdd328 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -1280,6 +1280,10 @@ long potion_proto_dumpbc(Potion *P, PN proto, PN out, long pos) {
 /// dump to bytecode
 // Low TODO: dump to a stream (if we have not enough memory)
 PN potion_source_dumpbc(Potion *P, PN cl, PN proto, PN options) {
+  if (PN_TYPE(proto) == PN_TSOURCE)
+    proto = potion_send(proto, PN_compile, PN_NIL, PN_NIL);
+  if (!PN_IS_PROTO(proto))
+    return potion_type_error_want(P, "proto", proto, "Compiled");
   PN pnb = potion_bytes(P, 8192);
   struct PNBHeader h;
   DBG_c("compile bc\n");
@@ -1300,6 +1304,7 @@ PN potion_source_dumpbc(Potion *P, PN cl, PN proto, PN options) {
 ///\param options optional PNString
 /// TODO: serializable ascii, c, exe, jvm, .net
 PN potion_source_dump(Potion *P, PN cl, PN self, PN backend, PN options) {
+  PN_CHECK_STR(backend);
   if (backend == PN_STRN("bc", 2))
     return potion_source_dumpbc(P, cl, self, options);
 #ifndef SANDBOX
-- 
2.43.0


From d4bb5bd004568848a5f2aed01befbbe7b66a231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 29/63] fix: native methods check the kind of their arguments
 before reading them

---
 core/objmodel.c |  3 ++-
 core/potion.h   |  2 +-
 core/string.c   |  3 +++
 core/table.c    | 17 +++++++++++------
 4 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index 682cd1c..59c5145 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -567,8 +567,8 @@ PN potion_object_size(Potion *P, PN cl, PN self) {
  \return returns TRUE or FALSE if the object has the same type as the class */
 PN potion_lobby_isa(Potion *P, PN cl, PN self, vPN(Vtable) vtable) {
   PNType t  = PN_TYPE(self);
-  PNType t1 = vtable->type;
   PN_CHECK_TYPE(vtable, PN_TVTABLE);
+  PNType t1 = vtable->type;
   if (!PN_TYPECHECK(t1)) return potion_type_error(P, (PN)vtable);
   if (PN_IS_PTR(self) && !PN_TYPECHECK(t)) return potion_type_error(P, self);
   return t == t1  ? PN_TRUE : PN_FALSE;
@@ -580,6 +580,7 @@ PN potion_lobby_isa(Potion *P, PN cl, PN self, vPN(Vtable) vtable) {
 PN potion_object_subclass(Potion *P, PN cl, PN self, vPN(Vtable) vtable) {
   PNType t = PN_TYPE(self);
   PNType t0, p;
+  PN_CHECK_TYPE(vtable, PN_TVTABLE);
   if (potion_lobby_isa(P, cl, self, vtable) == PN_TRUE) return PN_TRUE;
   if (!PN_IS_PTR(self))
     return vtable->type == PN_TNUMBER
diff --git a/core/potion.h b/core/potion.h
index 68bc7e3..5d00924 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -182,7 +182,7 @@ struct PNVtable;
 			  || (!PN_IS_PTR(p) && p > (_PN)P->mem->birth_hi))
 
 #define PN_CHECK_STR(obj)  if (!PN_IS_STR(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "String")
-#define PN_CHECK_STRB(obj) if (!PN_IS_STR(obj) || (PN_TYPE(obj) != PN_TBYTES)) return potion_type_error_want(P, ""#obj, (PN)obj, "String or Bytes")
+#define PN_CHECK_STRB(obj) if (!PN_IS_STR(obj) && (PN_TYPE(obj) != PN_TBYTES)) return potion_type_error_want(P, ""#obj, (PN)obj, "String or Bytes")
 #define PN_CHECK_NUM(obj)  if (!PN_IS_NUM(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "Number")
 #define PN_CHECK_INT(obj)  if (!PN_IS_INT(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "Integer")
 #define PN_CHECK_DBL(obj)  if (!PN_IS_DBL(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "Double")
diff --git a/core/string.c b/core/string.c
index ae44fad..50891e9 100644
--- a/core/string.c
+++ b/core/string.c
@@ -277,6 +277,7 @@ static PN potion_str_bytes(Potion *P, PN cl, PN self) {
 ///\param x PNString
 ///\return concat PNString
 PN potion_str_add(Potion *P, PN cl, PN self, PN x) {
+  PN_CHECK_STRB(x);
   char *s = malloc(PN_STR_LEN(self) + PN_STR_LEN(x));
   PN str;
   if (s == NULL) potion_allocation_error();
@@ -390,6 +391,7 @@ void potion_bytes_obj_string(Potion *P, PN bytes, PN obj) {
 ///\param str PNBytes or PNString
 ///\return PNBytes
 PN potion_bytes_append(Potion *P, PN cl, PN self, PN str) {
+  PN_CHECK_STRB(str);
   vPN(Bytes) s = (struct PNBytes *)potion_fwd(self);
   PN fstr = potion_fwd(str);
   PN_SIZE len = PN_STR_LEN(fstr);
@@ -445,6 +447,7 @@ static PN potion_bytes_print(Potion *P, PN cl, PN self) {
 ///\param block=&
 ///\return PN_NIL
 static PN potion_bytes_each(Potion *P, PN cl, PN self, PN block) {
+  PN_CHECK_CLOSURE(block);
   self = potion_fwd(self);
   char *s = PN_STR_PTR(self);
   int i;
diff --git a/core/table.c b/core/table.c
index 7f926b7..141e175 100644
--- a/core/table.c
+++ b/core/table.c
@@ -80,6 +80,7 @@ PN potion_table_at(Potion *P, PN cl, PN self, PN key) {
 ///\param block PNClosure
 ///\return self PNTable
 PN potion_table_each(Potion *P, PN cl, PN self, PN block) {
+  PN_CHECK_CLOSURE(block);
   vPN(Table) t = (struct PNTable *)potion_fwd(self);
   unsigned k;
   DBG_CHECK_TYPE(t,PN_TTABLE);
@@ -97,6 +98,7 @@ PN potion_table_each(Potion *P, PN cl, PN self, PN block) {
 /// the optional second the value.
 ///\return self PNTuple
 PN potion_table_map(Potion *P, PN cl, PN self, PN block) {
+  PN_CHECK_CLOSURE(block);
   vPN(Table) t = (struct PNTable *)potion_fwd(self);
   unsigned i = 0, k;
   int with_val = potion_sig_arity(P, PN_CLOSURE(block)->sig) >= 2;
@@ -197,9 +199,7 @@ PN potion_table_slice(Potion *P, PN cl, PN self, PN keys) {
   DBG_CHECK_TYPE(t,PN_TTABLE);
   if (!keys)
     return potion_table_clone(P, cl, self);
-  else {
-    DBG_CHECK_TYPE(keys,PN_TTUPLE);
-  }
+  PN_CHECK_TUPLE(keys);
   vPN(Table) t2 = PN_ALLOC(PN_TTABLE, struct PNTable);
   t2 = kh_resize_PN(P, t2, PN_TUPLE_LEN(keys)); //ca, could overshoot for dupl and outliers
   PN_TUPLE_EACH(keys, i, v, {
@@ -262,6 +262,7 @@ PN potion_table_values(Potion *P, PN cl, PN self) {
 ///\return new PNTable with all elements that pass the
 /// test implemented by the provided function.
 PN potion_table_filter(Potion *P, PN cl, PN self, PN block) {
+  PN_CHECK_CLOSURE(block);
   vPN(Table) t =  (vPN(Table))potion_fwd(self);
   DBG_CHECK_TYPE(t,PN_TTABLE);
   int with_val = potion_sig_arity(P, PN_CLOSURE(block)->sig) >= 2;
@@ -439,6 +440,7 @@ PN potion_tuple_slice(Potion *P, PN cl, PN self, PN start, PN end) {
 ///\param block PNClosure with one or an optional second index argument.
 ///\return self PNTuple
 PN potion_tuple_each(Potion *P, PN cl, PN self, PN block) {
+  PN_CHECK_CLOSURE(block);
   int with_index = potion_sig_arity(P, PN_CLOSURE(block)->sig) >= 2;
   DBG_CHECK_TUPLE(self);
   PN_TUPLE_EACH(self, i, v, {
@@ -456,6 +458,7 @@ PN potion_tuple_each(Potion *P, PN cl, PN self, PN block) {
 ///\param block PNClosure with one argument, the tuple element.
 ///\return new PNTuple with the same size.
 PN potion_tuple_map(Potion *P, PN cl, PN self, PN block) {
+  PN_CHECK_CLOSURE(block);
   PN_SIZE len = PN_TUPLE_LEN(self);
   NEW_TUPLE(t, len);
   PN_TUPLE_EACH(self, i, v, {
@@ -473,6 +476,7 @@ PN potion_tuple_map(Potion *P, PN cl, PN self, PN block) {
 // \param initial PN this is used to seed the initial value, if it is not nil
 ///\return initial PN the value of the accumulator at the end of the iterations
 PN potion_tuple_reduce(Potion *P, PN cl, PN self, PN block, PN initial) {
+  PN_CHECK_CLOSURE(block);
   DBG_CHECK_TUPLE(self);
   PN_TUPLE_EACH(self, i, v, {
     if(i == 0 && initial == PN_NIL)
@@ -490,6 +494,7 @@ PN potion_tuple_reduce(Potion *P, PN cl, PN self, PN block, PN initial) {
 ///\return new PNTuple with all elements that pass the
 /// test implemented by the provided function.
 PN potion_tuple_filter(Potion *P, PN cl, PN self, PN block) {
+  PN_CHECK_CLOSURE(block);
   DBG_CHECK_TUPLE(self);
   int with_index = potion_sig_arity(P, PN_CLOSURE(block)->sig) >= 2;
   PN ret;
@@ -776,7 +781,7 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
 	if (GET(i) > pivot) { SWAP(i, index); index++;
 	}
       }
-    } else {
+    } else if (PN_IS_CLOSURE(cmp)) {
       vPN(Closure) c = PN_CLOSURE(cmp);
       for (i=from; i < to; i++) { // call cmp
 	if (PN_INT(c->method(P, cl, cmp, GET(i), pivot)) > 0)
@@ -810,7 +815,7 @@ static PN potion_tuple_sort(Potion *P, PN cl,
 {
   PN data = potion_tuple_clone(P, cl, self);
   PN_SIZE len = PN_TUPLE_LEN(self);
-  if (cmp != PN_NIL && !PN_IS_BOOL(cmp) && !PN_IS_CLOSURE(cmp))
+  if (cmp != PN_NIL && cmp != PN_TRUE && cmp != PN_FALSE && !PN_IS_CLOSURE(cmp))
     potion_fatal("sort: invalid cmp type");
   if (len > 1)
     potion_sort_internal(P, cl, data, 0, len-1, cmp);
@@ -875,7 +880,7 @@ PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
     PN_TOUCH(self);
   }
   else {
-    if (cmp != PN_NIL && !PN_IS_BOOL(cmp) && !PN_IS_CLOSURE(cmp))
+    if (cmp != PN_NIL && cmp != PN_TRUE && cmp != PN_FALSE && !PN_IS_CLOSURE(cmp))
       potion_fatal("sort: invalid cmp type");
     potion_sort_internal(P, cl, self, 0, t->len-1, cmp);
   }
-- 
2.43.0


From 2707d7bde6dc744f5b7e21df9e6a4c634e1d1dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 30/63] fix: eval of a string and compile with a foreign
 signature no longer misread them

---
 core/compile.c | 2 +-
 core/syntax.y  | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 1fdd328..5f3b44c 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -1085,7 +1085,7 @@ PN potion_source_compile(Potion *P, PN cl, PN self, PN source, PN sig) {
   PN_SET_REF(f, debugs, PN_TUP0());
   f->tree = self;
   DBG_c("-- compile --\n");
-  PN_SET_REF(f, sig, sig == PN_NIL ? PN_TUP0() : potion_sig_compile(P, f, sig));
+  PN_SET_REF(f, sig, PN_TYPE(sig) == PN_TSOURCE ? potion_sig_compile(P, f, sig) : PN_TUP0());
   PN_SET_REF(f, asmb, potion_asm_new(P));
   f->name = PN_NIL;
 
diff --git a/core/syntax.y b/core/syntax.y
index ecbdc1e..2b77d02 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -406,10 +406,8 @@ PN potion_parse(Potion *P, PN code, char *filename) {
   P->fileno = PN_PUT(pn_filenames, PN_STR(filename));
 
   if (!YY_NAME(parse)(G) || ((struct PNSource *)(P->source))->part != AST_CODE) {
-    vPN(Bytes) s = (vPN(Bytes)) code;
     YY_ERROR("** Syntax error");
-    if (s->len > 80) s->chars[80] = '\0';
-    fprintf(stderr, "%s", s->chars);
+    fprintf(stderr, "%.80s", PN_STR_PTR(code));
     P->source = PN_NIL;
   }
   P->parser = oldparser;
-- 
2.43.0


From 861459f212a2f61490390ccc01d5352a4b3b4836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:09 +0000
Subject: [PATCH 31/63] fix: load and parent check what they are given

---
 core/load.c     | 1 +
 core/objmodel.c | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/load.c b/core/load.c
index 6736585..d8c1560 100644
--- a/core/load.c
+++ b/core/load.c
@@ -163,6 +163,7 @@ char *potion_find_file(Potion *P, char *str, PN_SIZE str_len) {
 PN potion_load(Potion *P, PN cl, PN self, PN file) {
   if (!file && PN_IS_STR(self))
     file = self;
+  PN_CHECK_STR(file);
   char *filename = potion_find_file(P, PN_STR_PTR(file), PN_STR_LEN(file));
   char *file_ext;
   PN result = PN_NIL;
diff --git a/core/objmodel.c b/core/objmodel.c
index 59c5145..af7f3e1 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -629,7 +629,7 @@ PN potion_lobby_kind(Potion *P, PN cl, PN self) {
  global \c "parent" method
  \return the parent of self */
 PN potion_lobby_parent(Potion *P, PN cl, PN self) {
-  if (!PN_IS_PTR(self) || self == P->lobby)
+  if (PN_TYPE(self) != PN_TVTABLE || self == P->lobby)
     self = potion_lobby_kind(P, cl, self);
   PNType t = ((struct PNVtable *)self)->parent;
   if(!PN_TYPECHECK(t))
-- 
2.43.0


From 32ebc413f150b294be951ebe28e490d7140a657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:34 +0000
Subject: [PATCH 32/63] fix: list indices out of range, empty lists and lists
 or tables that grow while iterated

---
 core/potion.h | 15 +++++----
 core/table.c  | 91 ++++++++++++++++++++++++++++-----------------------
 2 files changed, 58 insertions(+), 48 deletions(-)

diff --git a/core/potion.h b/core/potion.h
index 5d00924..418c94b 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -285,14 +285,15 @@ typedef _PN (*PN_F)(Potion *, PN, PN, ...);
     } \
   })
 ///\memberof PNTuple
+/// B may grow the tuple, or turn it into a table, which ends the loop
 #define PN_TUPLE_EACH(T, I, V, B) ({ \
-    struct PNTuple * volatile __t##V = PN_GET_TUPLE(T); \
-    if (__t##V->len != 0) { \
-      PN_SIZE I; \
-      for (I = 0; I < __t##V->len; I++) { \
-        PN V = __t##V->set[I]; \
-        B \
-      } \
+    PN volatile __obj##V = (PN)(T); \
+    struct PNTuple * volatile __t##V = PN_GET_TUPLE(__obj##V); \
+    PN_SIZE I; \
+    for (I = 0; __t##V->vt == PN_TTUPLE && I < __t##V->len; \
+         I++, __t##V = PN_GET_TUPLE(__obj##V)) { \
+      PN V = __t##V->set[I]; \
+      B \
     } \
   })
 
diff --git a/core/table.c b/core/table.c
index 141e175..9183a17 100644
--- a/core/table.c
+++ b/core/table.c
@@ -25,12 +25,14 @@ PN potion_table_string(Potion *P, PN cl, PN self) {
   DBG_CHECK_TYPE(t,PN_TTABLE);
   PN out = potion_byte_str(P, "(");
   unsigned k, i = 0;
-  for (k = kh_begin(t); k != kh_end(t); ++k)
+  for (k = kh_begin(t); k < kh_end(t); ++k)
     if (kh_exist(PN, t, k)) {
+      PN val = kh_val(PN, t, k);
       if (i++ > 0) pn_printf(P, out, ", ");
       potion_bytes_obj_string(P, out, kh_key(PN, t, k));
       pn_printf(P, out, "=");
-      potion_bytes_obj_string(P, out, kh_val(PN, t, k));
+      potion_bytes_obj_string(P, out, val);
+      t = (vPN(Table))potion_fwd((PN)t); // string methods may grow it
     }
   pn_printf(P, out, ")");
   return PN_STR_B(out);
@@ -84,9 +86,10 @@ PN potion_table_each(Potion *P, PN cl, PN self, PN block) {
   vPN(Table) t = (struct PNTable *)potion_fwd(self);
   unsigned k;
   DBG_CHECK_TYPE(t,PN_TTABLE);
-  for (k = kh_begin(t); k != kh_end(t); ++k)
+  for (k = kh_begin(t); k < kh_end(t); ++k)
     if (kh_exist(PN, t, k)) {
       PN_CLOSURE(block)->method(P, block, P->lobby, kh_key(PN, t, k), kh_val(PN, t, k));
+      t = (vPN(Table))potion_fwd((PN)t); // the block may grow it
     }
   return self;
 }
@@ -100,11 +103,11 @@ PN potion_table_each(Potion *P, PN cl, PN self, PN block) {
 PN potion_table_map(Potion *P, PN cl, PN self, PN block) {
   PN_CHECK_CLOSURE(block);
   vPN(Table) t = (struct PNTable *)potion_fwd(self);
-  unsigned i = 0, k;
+  unsigned k;
   int with_val = potion_sig_arity(P, PN_CLOSURE(block)->sig) >= 2;
   DBG_CHECK_TYPE(t,PN_TTABLE);
-  NEW_TUPLE(t2, kh_size(t));
-  for (k = kh_begin(t); k != kh_end(t); ++k)
+  PN t2 = potion_tuple_empty(P);
+  for (k = kh_begin(t); k < kh_end(t); ++k)
     if (kh_exist(PN, t, k)) {
       PN ret;
       if (with_val)
@@ -112,10 +115,10 @@ PN potion_table_map(Potion *P, PN cl, PN self, PN block) {
                                                       kh_val(PN, t, k));
       else
         ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k));
-      t2->set[i++] = ret;
-      PN_TOUCH(t2);
+      potion_tuple_push(P, t2, ret);
+      t = (vPN(Table))potion_fwd((PN)t); // the block may grow it
     }
-  return (PN)t2;
+  return t2;
 }
 
 ///\memberof PNTable
@@ -269,17 +272,18 @@ PN potion_table_filter(Potion *P, PN cl, PN self, PN block) {
   PN ret;
   vPN(Table) t2 = (vPN(Table))potion_table_clone(P, cl, self);
   unsigned k;
-  for (k = kh_begin(t); k != kh_end(t); ++k)
+  for (k = kh_begin(t); k < kh_end(t); ++k)
     if (kh_exist(PN, t, k)) {
+      PN key = kh_key(PN, t, k);
       if (with_val)
-        ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k),
-                                                      kh_val(PN, t, k));
+        ret = PN_CLOSURE(block)->method(P, block, cl, key, kh_val(PN, t, k));
       else
-        ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k));
+        ret = PN_CLOSURE(block)->method(P, block, cl, key);
       if (!PN_TEST(ret)) { // the clone may place the key in another bucket
-        unsigned k2 = kh_get(PN, t2, kh_key(PN, t, k));
+        unsigned k2 = kh_get(PN, t2, key);
         if (k2 != kh_end(t2)) kh_del(PN, t2, k2);
       }
+      t = (vPN(Table))potion_fwd((PN)t); // the block may grow it
     }
   PN_TOUCH(t2);
   return (PN)t2;
@@ -314,8 +318,9 @@ PN potion_tuple_push(Potion *P, PN tuple, PN value) {
   vPN(Tuple) t = PN_GET_TUPLE(tuple);
   DBG_CHECK_TUPLE(t);
   if (t->len >= t->alloc) {
-    PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len * 2)); // overalloc by 2 times
-    t->alloc = t->len * 2;
+    PN_SIZE alloc = t->len * 2 + 1; // overalloc by 2 times
+    PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * alloc);
+    t->alloc = alloc;
   }
   t->set[t->len] = value;
   t->len++;
@@ -369,7 +374,7 @@ PN potion_tuple_at(Potion *P, PN cl, PN self, PN index) {
   DBG_CHECK_TUPLE(self);
   long i = PN_INT(index), len = PN_TUPLE_LEN(self);
   if (i < 0) i += len;
-  if (i >= len) return PN_NIL;
+  if (i < 0 || i >= len) return PN_NIL;
   return PN_TUPLE_AT(self, i);
 }
 
@@ -423,10 +428,11 @@ PN potion_tuple_slice(Potion *P, PN cl, PN self, PN start, PN end) {
     l = e - i;
     if (l < 0) { i = e; l = labs(l) + 1; }
     else l++;
-    if (l > t1->len) l = t1->len; // permit overshoots
   }
+  if (i < 0) { l += i; i = 0; } // permit overshoots
+  if (l > (long)t1->len - i) l = (long)t1->len - i;
   DBG_vt("; splice(i=%ld,len=%ld)\n", i, l);
-  if (!l || i >= t1->len) return PN_NIL;
+  if (l <= 0 || i >= t1->len) return PN_NIL;
   NEW_TUPLE(t2, l);
   PN_MEMCPY_N(&t2->set[0], &t1->set[i], PN, l);
   t2->alloc = l;
@@ -459,14 +465,12 @@ PN potion_tuple_each(Potion *P, PN cl, PN self, PN block) {
 ///\return new PNTuple with the same size.
 PN potion_tuple_map(Potion *P, PN cl, PN self, PN block) {
   PN_CHECK_CLOSURE(block);
-  PN_SIZE len = PN_TUPLE_LEN(self);
-  NEW_TUPLE(t, len);
-  PN_TUPLE_EACH(self, i, v, {
+  PN t = potion_tuple_empty(P);
+  PN_TUPLE_EACH(self, i, v, { // the block may change the length
     PN ret = PN_CLOSURE(block)->method(P, block, cl, v);
-    SET(i, ret);
-    PN_TOUCH(t);
+    potion_tuple_push(P, t, ret);
   });
-  return (PN)t;
+  return t;
 }
 
 ///\memberof PNTuple
@@ -564,12 +568,12 @@ PN potion_tuple_string(Potion *P, PN cl, PN self) {
 
 ///\memberof PNTuple
 /// "pop" method. remove the last element and return it
-///\return last PN
+///\return last PN or PN_NIL if the PNTuple is empty
 PN potion_tuple_pop(Potion *P, PN cl, PN self) {
   vPN(Tuple) t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
+  if (t->len < 1) return PN_NIL;
   PN obj = t->set[t->len - 1];
-  PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len - 1));
   t->len--;
   PN_TOUCH(self);
   return obj;
@@ -586,7 +590,7 @@ PN potion_tuple_put(Potion *P, PN cl, PN self, PN key, PN value) {
     DBG_CHECK_TUPLE(self);
     long i = PN_INT(key), len = PN_TUPLE_LEN(self);
     if (i < 0) i += len;
-    if (i < len) {
+    if (i >= 0 && i < len) {
       PN_TUPLE_AT(self, i) = value;
       PN_TOUCH(self);
       return self;
@@ -616,14 +620,13 @@ PN potion_tuple_unshift(Potion *P, PN cl, PN self, PN value) {
 
 ///\memberof PNTuple
 /// "shift" method. remove first element and return it
-///\param value PN
-///\return PNTuple
+///\return first PN or PN_NIL if the PNTuple is empty
 PN potion_tuple_shift(Potion *P, PN cl, PN self) {
   vPN(Tuple) t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
+  if (t->len < 1) return PN_NIL;
   PN obj = t->set[0];
-  PN_MEMMOVE_N(&t->set[0], &t->set[1], PN, t->len);
-  PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len - 1));
+  PN_MEMMOVE_N(&t->set[0], &t->set[1], PN, t->len - 1);
   t->len--;
   PN_TOUCH(self);
   return obj;
@@ -676,12 +679,14 @@ PN potion_tuple_remove(Potion *P, PN cl, PN self, PN index) {
   struct PNTuple *t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
   if (t->len) {
-    PN_SIZE i = PN_INT(index);
+    long i = PN_INT(index);
     PN data = potion_tuple_clone(P, cl, self);
     t = PN_GET_TUPLE(data);
-    if (i < t->len)
-      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i);
-    t->len--;
+    if (i < 0) i += t->len;
+    if (i >= 0 && i < t->len) {
+      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i - 1);
+      t->len--;
+    }
     //((struct PNFwd *)data)->ptr = (PN)t;
     PN_TOUCH(data);
     return data;
@@ -697,10 +702,12 @@ PN potion_tuple_delete(Potion *P, PN cl, PN self, PN index) {
   struct PNTuple *t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
   if (t->len) {
-    PN_SIZE i = PN_INT(index);
-    if (i < t->len)
-      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i);
-    t->len--;
+    long i = PN_INT(index);
+    if (i < 0) i += t->len;
+    if (i >= 0 && i < t->len) {
+      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i - 1);
+      t->len--;
+    }
     PN_TOUCH(self);
   }
   return self;
@@ -932,7 +939,9 @@ PN potion_tuple_cmp(Potion *P, PN cl, PN self, PN value) {
 ///\param size PNInteger
 ///\return PNTuple
 PN potion_lobby_list(Potion *P, PN cl, PN self, PN size) {
-  return potion_tuple_with_size(P, PN_INT(size));
+  long len = PN_INT(size);
+  if (len > 0x1000000) potion_allocation_error();
+  return potion_tuple_with_size(P, len < 0 ? 0 : len);
 }
 
 void potion_table_init(Potion *P) {
-- 
2.43.0


From 1452ff70ff756e084ba2d67264f175eda04c87bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:34 +0000
Subject: [PATCH 33/63] fix: string offsets past the end, reversed slices,
 clones of byte strings and byte strings that grow while iterated

---
 core/string.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/core/string.c b/core/string.c
index 50891e9..be9e6ff 100644
--- a/core/string.c
+++ b/core/string.c
@@ -164,6 +164,7 @@ static size_t potion_utf8char_offset(const char *s, size_t index) {
 /// returns byte position of next utf8 char after s[offset]
 static size_t potion_utf8char_nextchar(const char *s, size_t offset) {
   size_t i;
+  if (!s[offset]) return offset; // at the end already
   for (i = offset+1; s[i]; i++)
     if ((s[i] & 0xC0) != 0x80)
       return i;
@@ -263,6 +264,11 @@ static PN potion_str_slice(Potion *P, PN cl, PN self, PN start, PN end) {
     endoffset = potion_utf8char_offset(str,
                   PN_INT(potion_str_slice_index(end, len, len)));
   }
+  if (endoffset < startoffset) {
+    size_t tmp = startoffset;
+    startoffset = endoffset;
+    endoffset = tmp;
+  }
   return potion_str2(P, str + startoffset, endoffset - startoffset);
 }
 
@@ -314,7 +320,8 @@ static PN potion_str_at(Potion *P, PN cl, PN self, PN index) {
 ///\param index int (optional, default: 0)
 ///\return PNInteger
 static PN potion_str_ord(Potion *P, PN cl, PN self, PN index) {
-  const char *str = PN_STR_PTR(potion_fwd(self));
+  const char *str = PN_STR_PTR(self = potion_fwd(self));
+  if (PN_INT(index) < 0) return PN_NIL;
   if (PN_STR_LEN(self) > 255) goto slow;
   else {
     long len = potion_cp_strlen_utf8(str);
@@ -356,6 +363,7 @@ PN potion_bytes_clone(Potion *P, PN cl, PN self) {
   vPN(Bytes) s = PN_ALLOC_N(PN_TBYTES, struct PNBytes, b->siz);
   s->siz = b->siz;
   s->len = b->len;
+  PN_MEMCPY_N(s->chars, b->chars, char, b->len + 1);
   return (PN)s;
 }
 
@@ -448,11 +456,10 @@ static PN potion_bytes_print(Potion *P, PN cl, PN self) {
 ///\return PN_NIL
 static PN potion_bytes_each(Potion *P, PN cl, PN self, PN block) {
   PN_CHECK_CLOSURE(block);
-  self = potion_fwd(self);
-  char *s = PN_STR_PTR(self);
   int i;
-  for (i = 0; i < PN_STR_LEN(self); i++) {
-    PN_CLOSURE(block)->method(P, block, P->lobby, potion_byte_str2(P, &s[i], 1));
+  for (i = 0; i < PN_STR_LEN(self = potion_fwd(self)); i++) { // the block may grow it
+    char c = PN_STR_PTR(self)[i];
+    PN_CLOSURE(block)->method(P, block, P->lobby, potion_byte_str2(P, &c, 1));
   }
   return PN_NIL;
 }
-- 
2.43.0


From e15ad6d6db5313590353d39828dc8243391a03bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:06 +0000
Subject: [PATCH 34/63] fix: a signature that ends in a default mark was read
 past its end

---
 core/objmodel.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index af7f3e1..cbea5d3 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -90,7 +90,7 @@ int potion_sig_arity(Potion *P, PN sig) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++; // names
 	// but not string default values
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	if (PN_IS_INT(v) && v == PN_NUM(':') && i+1 < t->len && PN_IS_STR((PN)t->set[i+1])) count--;
       }
     }
     return count;
@@ -138,7 +138,7 @@ PN potion_sig_at(Potion *P, PN sig, int index) {
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++;
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	if (PN_IS_INT(v) && v == PN_NUM(':') && i+1 < t->len && PN_IS_STR((PN)t->set[i+1])) count--;
 	if (count == index) {
 	  result = potion_tuple_new(P, v);
 	  if (i+1 < t->len && PN_IS_INT((PN)t->set[i+1])) {
@@ -171,7 +171,7 @@ PN potion_sig_name_at(Potion *P, PN sig, int index) {
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++;
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	if (PN_IS_INT(v) && v == PN_NUM(':') && i+1 < t->len && PN_IS_STR((PN)t->set[i+1])) count--;
 	if (count == index)
 	  return v;
       }
-- 
2.43.0


From f4ced07b47b51f69f8bc1e9d586e5290d0abbcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 35/63] fix: sort with a comparison closure that changes the
 list, bsearch of an empty list, read of many bytes, udp membership and source
 file lookups

---
 core/ast.c   |  1 +
 core/file.c  | 11 +++++++----
 core/table.c | 14 +++++++++++---
 lib/aio.c    |  1 +
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/core/ast.c b/core/ast.c
index dcc13c3..4f9ab58 100644
--- a/core/ast.c
+++ b/core/ast.c
@@ -78,6 +78,7 @@ static PN potion_source_name(Potion *P, PN cl, PN self) {
 ///\returns filename of associated AST
 static PN potion_source_file(Potion *P, PN cl, PN self) {
   vPN(Source) t = (struct PNSource *)potion_fwd(self);
+  if (t->loc.fileno >= PN_TUPLE_LEN(pn_filenames)) return PN_NIL;
   return PN_TUPLE_AT(pn_filenames, t->loc.fileno);
 }
 
diff --git a/core/file.c b/core/file.c
index 700bfb7..ad29c42 100644
--- a/core/file.c
+++ b/core/file.c
@@ -97,9 +97,10 @@ PN potion_file_close(Potion *P, PN cl, pn_file self) {
  \param n PNInteger
  \return n PNBytes or nil or PNError */
 PN potion_file_read(Potion *P, PN cl, pn_file self, PN n) {
-  n = PN_INT(n);
-  char buf[n];
-  int r = read(self->fd, buf, n);
+  long len = PN_INT(n);
+  if (len < 0 || len >= INT_MAX) return potion_error(P, PN_STR("read: invalid length"), 0, 0, 0);
+  vPN(Bytes) buf = (struct PNBytes *)potion_bytes(P, len);
+  long r = read(((pn_file)potion_fwd((PN)self))->fd, buf->chars, len);
   if (r == -1) {
     return potion_io_error(P, "read");
     //perror("read");
@@ -108,7 +109,9 @@ PN potion_file_read(Potion *P, PN cl, pn_file self, PN n) {
   } else if (r == 0) {
     return PN_NIL;
   }
-  return potion_byte_str2(P, buf, r);
+  buf->len = r;
+  buf->chars[r] = '\0';
+  return (PN)buf;
 }
 
 /**\memberof PNFile
diff --git a/core/table.c b/core/table.c
index 9183a17..8d94c66 100644
--- a/core/table.c
+++ b/core/table.c
@@ -738,7 +738,7 @@ PN potion_tuple_bsearch(Potion *P, PN cl, PN self, PN x) {
   struct PNTuple *t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
   PNUniq xu = PN_UNIQ(x);
-  long i = 0, j = t->len - 1;
+  long i = 0, j = (long)t->len - 1;
   while (i <= j) {
     long m = j + ((i - j) / 2);
     PNUniq u = PN_UNIQ(t->set[m]);
@@ -764,6 +764,7 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
 #endif
   if (from < to) {
     struct PNTuple *t = PN_GET_TUPLE(self);
+    if (PN_TYPE(self) != PN_TTUPLE || to >= t->len) return; // changed by cmp
     // which pivot? first is worst case if already sorted.
     // random, last, middle or best: median-of-3.
     PN_SIZE i, index = from + (to - from)/2;
@@ -791,7 +792,10 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
     } else if (PN_IS_CLOSURE(cmp)) {
       vPN(Closure) c = PN_CLOSURE(cmp);
       for (i=from; i < to; i++) { // call cmp
-	if (PN_INT(c->method(P, cl, cmp, GET(i), pivot)) > 0)
+	PN r = c->method(P, cmp, P->lobby, GET(i), pivot);
+	t = PN_GET_TUPLE(self);
+	if (PN_TYPE(self) != PN_TTUPLE || to >= t->len) return; // changed by cmp
+	if (PN_INT(r) > 0)
 	  { SWAP(i, index); index++; }
       }
     }
@@ -857,7 +861,11 @@ PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
       c = PN_CLOSURE(cmp);
       for (i = 1; i < t->len; i++) {
 	j = i;
-	while (j > 0 && PN_INT(c->method(P, cl, cmp, GET(j-1), GET(j))) > 0) {
+	while (j > 0) {
+	  PN r = c->method(P, cmp, P->lobby, GET(j-1), GET(j));
+	  t = PN_GET_TUPLE(self);
+	  if (PN_TYPE(self) != PN_TTUPLE || i >= t->len) return self; // changed by cmp
+	  if (PN_INT(r) <= 0) break;
 	  SWAP(j, j-1);
 	  j--;
 	}
diff --git a/lib/aio.c b/lib/aio.c
index 0c2d64a..8af275e 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -319,6 +319,7 @@ static PN aio_udp_set(Potion *P, PN cl, PN self, PN key, PN value) {
   else if (!strcmp(k, "membership")) {
     PN_CHECK_TUPLE(value);
     vPN(Tuple) t = PN_GET_TUPLE(value);
+    if (t->len < 3) return potion_type_error(P, value);
     PN_CHECK_STR(t->set[0]);
     PN_CHECK_STR(t->set[1]);
     PN_CHECK_INT(t->set[2]);
-- 
2.43.0


From 895d12b398cd9bc59ac5b552daab15956f1725b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:38 +0000
Subject: [PATCH 36/63] fix: bytecode of more than 8k is dumped and loaded
 whole

---
 core/compile.c | 110 +++++++++++++++++++++++++++++--------------------
 1 file changed, 65 insertions(+), 45 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 5f3b44c..2e2eee5 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -1214,40 +1214,61 @@ PN potion_source_load(Potion *P, PN cl, PN buf) {
       strncmp((char *)h->sig, POTION_SIG, 4) != 0)
     return PN_NIL;
 
-  ptr = h->proto;
-  return potion_proto_load(P, PN_NIL, h->pn, &ptr);
+  // the collector may move buf while the protos are allocated
+  size_t len = PN_STR_LEN(buf);
+  u8 *copy = malloc(len), pn = h->pn;
+  if (copy == NULL) potion_allocation_error();
+  PN_MEMCPY_N(copy, h, u8, len);
+  ptr = ((struct PNBHeader *)copy)->proto;
+  PN proto = potion_proto_load(P, PN_NIL, pn, &ptr);
+  free(copy);
+  return proto;
 }
 
 // TODO: switch to dump methods
-#define WRITE_U8(un, ptr) ({*ptr = (u8)un; ptr += sizeof(u8);})
-#define WRITE_PN(pn, ptr) ({*(PN *)ptr = pn; ptr += sizeof(PN);})
-#define WRITE_CONST(val, ptr) ({ \
+/// make room for n bytes at pos, and the address of pos. May move out.
+static u8 *potion_dump_room(Potion *P, PN out, long pos, PN_SIZE n) {
+  vPN(Bytes) s = (struct PNBytes *)potion_fwd(out);
+  if (pos + n + 1 > s->siz) {
+    PN_SIZE siz = pos + n + 1 + 8192;
+    PN_REALLOC(s, PN_TBYTES, struct PNBytes, siz);
+    s->siz = siz;
+  }
+  return (u8 *)s->chars + pos;
+}
+
+#define WRITE_U8(un) ({ \
+    u8 *_p = potion_dump_room(P, out, pos, sizeof(u8)); \
+    *_p = (u8)(un); pos += sizeof(u8); })
+#define WRITE_PN(pn) ({ \
+    u8 *_p = potion_dump_room(P, out, pos, sizeof(PN)); \
+    *(PN *)_p = (pn); pos += sizeof(PN); })
+#define WRITE_MEM(mem, n) ({ \
+    PN_SIZE _n = (n); \
+    u8 *_p = potion_dump_room(P, out, pos, _n); \
+    PN_MEMCPY_N(_p, mem, u8, _n); pos += _n; })
+#define WRITE_CONST(v) ({ \
+    PN val = (v); \
     if (PN_IS_STR(val)) { \
-      PN count = (PN_STR_LEN(val)+1) << 4; \
-      WRITE_PN(count, ptr); \
-      PN_MEMCPY_N(ptr, PN_STR_PTR(val), char, PN_STR_LEN(val)); \
-      ptr += PN_STR_LEN(val); \
+      WRITE_PN((PN)(PN_STR_LEN(val)+1) << 4); \
+      WRITE_MEM(PN_STR_PTR(val), PN_STR_LEN(val)); \
     } else if (PN_IS_DBL(val)) { \
       PN str = potion_num_string(P, PN_NIL, val); \
-      PN count = ((PN_STR_LEN(str)+1) << 4) | 2; \
-      WRITE_PN(count, ptr); \
-      PN_MEMCPY_N(ptr, PN_STR_PTR(str), char, PN_STR_LEN(str)); \
-      ptr += PN_STR_LEN(str); \
+      WRITE_PN((PN)((PN_STR_LEN(str)+1) << 4) | 2); \
+      WRITE_MEM(PN_STR_PTR(str), PN_STR_LEN(str)); \
     } else { \
-      PN cval = (PN_IS_PTR(val) ? PN_NIL : val); \
-      WRITE_PN(cval, ptr); \
+      WRITE_PN(PN_IS_PTR(val) ? PN_NIL : val); \
     } \
   })
-#define WRITE_TUPLE(tup, ptr) \
+#define WRITE_TUPLE(tup) \
   long i = 0, count = PN_TUPLE_LEN(tup); \
-  WRITE_U8(count, ptr); \
+  WRITE_U8(count); \
   for (; i < count; i++)
-#define WRITE_VALUES(tup, ptr) ({ \
-    WRITE_TUPLE(tup, ptr) WRITE_CONST(PN_TUPLE_AT(tup, i), ptr); \
+#define WRITE_VALUES(tup) ({ \
+    WRITE_TUPLE(tup) WRITE_CONST(PN_TUPLE_AT(tup, i)); \
   })
-#define WRITE_PROTOS(tup, ptr) ({ \
-    WRITE_TUPLE(tup, ptr) ptr += potion_proto_dumpbc(P, PN_TUPLE_AT(tup, i), \
-        out, (char *)ptr - PN_STR_PTR(out)); \
+#define WRITE_PROTOS(tup) ({ \
+    WRITE_TUPLE(tup) pos += potion_proto_dumpbc(P, PN_TUPLE_AT(tup, i), out, pos); \
   })
 
 ///\memberof PNProto
@@ -1255,25 +1276,23 @@ PN potion_source_load(Potion *P, PN cl, PN buf) {
 ///\param proto  PNProto
 ///\param out    PNBytes output buffer
 ///\param pos    long where to add at out
-///\return char* ptr - start
+///\return number of bytes written
 long potion_proto_dumpbc(Potion *P, PN proto, PN out, long pos) {
   vPN(Proto) f = (struct PNProto *)proto;
-  char *start = PN_STR_PTR(out) + pos;
-  u8 *ptr = (u8 *)start;
+  long start = pos;
   //TODO extern (by name)
-  WRITE_CONST(f->name, ptr);
-  WRITE_CONST(f->source, ptr);
-  WRITE_VALUES(f->sig, ptr);
-  WRITE_CONST(f->stack, ptr);
-  WRITE_VALUES(f->values, ptr);
-  WRITE_VALUES(f->paths, ptr);
-  WRITE_VALUES(f->locals, ptr);
-  WRITE_VALUES(f->upvals, ptr);
-  WRITE_PROTOS(f->protos, ptr);
-  WRITE_PN(PN_FLEX_SIZE(f->asmb), ptr);
-  PN_MEMCPY_N(ptr, ((PNFlex *)f->asmb)->ptr, u8, PN_FLEX_SIZE(f->asmb));
-  ptr += PN_FLEX_SIZE(f->asmb);
-  return (char *)ptr - start;
+  WRITE_CONST(f->name);
+  WRITE_CONST(f->source);
+  WRITE_VALUES(f->sig);
+  WRITE_CONST(f->stack);
+  WRITE_VALUES(f->values);
+  WRITE_VALUES(f->paths);
+  WRITE_VALUES(f->locals);
+  WRITE_VALUES(f->upvals);
+  WRITE_PROTOS(f->protos);
+  WRITE_PN(PN_FLEX_SIZE(f->asmb));
+  WRITE_MEM(((PNFlex *)f->asmb)->ptr, PN_FLEX_SIZE(f->asmb));
+  return pos - start;
 }
 
 ///\memberof PNSource
@@ -1293,8 +1312,10 @@ PN potion_source_dumpbc(Potion *P, PN cl, PN proto, PN options) {
   h.vmid = POTION_VMID;
   h.pn = (u8)sizeof(PN);
   PN_MEMCPY(PN_STR_PTR(pnb), &h, struct PNBHeader); // coverity[uninit_use_in_call:FALSE]
-  PN_STR_LEN(pnb) = (long)sizeof(struct PNBHeader) +
+  long len = (long)sizeof(struct PNBHeader) +
     potion_proto_dumpbc(P, proto, pnb, sizeof(struct PNBHeader));
+  pnb = potion_fwd(pnb);
+  PN_STR_LEN(pnb) = len;
   return pnb;
 }
 
@@ -1308,13 +1329,12 @@ PN potion_source_dump(Potion *P, PN cl, PN self, PN backend, PN options) {
   if (backend == PN_STRN("bc", 2))
     return potion_source_dumpbc(P, cl, self, options);
 #ifndef SANDBOX
-  char *cb = PN_STR_PTR(backend);
-  if (potion_load(P, P->lobby, self, potion_strcat(P, "compile/", cb))) {
-    DBG_c("loaded compile/%s\n", cb);
-    DBG_c("Source dump%s(%s)\n", cb, PN_IS_STR(options) ? PN_STR_PTR(options) : "");
-    return potion_send(self, potion_strcat(P, "dump", cb), options);
+  if (potion_load(P, P->lobby, self, potion_str_add(P, cl, PN_STR("compile/"), backend))) {
+    DBG_c("loaded compile/%s\n", PN_STR_PTR(backend));
+    DBG_c("Source dump%s(%s)\n", PN_STR_PTR(backend), PN_IS_STR(options) ? PN_STR_PTR(options) : "");
+    return potion_send(self, potion_str_add(P, cl, PN_STR("dump"), backend), options);
   } else {
-    fprintf(stderr, "** failed loading the compile/%s module\n", cb);
+    fprintf(stderr, "** failed loading the compile/%s module\n", PN_STR_PTR(backend));
     return PN_NIL;
   }
 #else
-- 
2.43.0


From ffdb46d70daa934c3b7fb381481bedc5f2fc433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:38 +0000
Subject: [PATCH 37/63] fix: addresses inside strings are no longer kept across
 a collection

---
 core/internal.c |  3 ++-
 core/potion.c   |  4 ++--
 core/string.c   | 31 +++++++++++++++++++++++++++----
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/core/internal.c b/core/internal.c
index 2fa757d..99b696a 100644
--- a/core/internal.c
+++ b/core/internal.c
@@ -304,8 +304,9 @@ void potion_syntax_error(Potion *P, struct PNSource *t, const char *fmt, ...) {
   va_start(args, fmt);
   pn_printf(P, out, fmt, args);
   va_end(args);
+  PN line = potion_send(t->line, PN_string);
   fprintf(stderr, "** Syntax error: %s at \"%s\", line %d\n", PN_STR_PTR(out),
-          AS_STR(t->line), t->loc.lineno);
+          PN_STR_PTR(line), t->loc.lineno);
   exit(PN_EXIT_FATAL);
 }
 
diff --git a/core/potion.c b/core/potion.c
index 61b847b..1c44391 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -263,7 +263,7 @@ char * addmodule(Potion *P, char *result, char *prefix, char *name) {
     pn_printf(P, out, "%s(%s)\n", name, args);
   else
     pn_printf(P, out, "%s()\n", name);
-  return PN_STR_PTR(out);
+  return strdup(PN_STR_PTR(out)); // out may be moved
 }
 
 int main(int argc, char *argv[]) {
@@ -332,7 +332,7 @@ int main(int argc, char *argv[]) {
     if (argv[i][0] == '-' && argv[i][1] == 'd') {
       if (argv[i][2] == '=')
 	addmodules = addmodule(P, addmodules, NULL,
-			       PN_STR_PTR(PN_STRCAT("debug=", &argv[i][3])));
+			       strdup(PN_STR_PTR(PN_STRCAT("debug=", &argv[i][3]))));
       else
 	addmodules = addmodule(P, addmodules, "debug", &argv[i][2]);
       exec = EXEC_DEBUG; continue; }
diff --git a/core/string.c b/core/string.c
index be9e6ff..eb61ef1 100644
--- a/core/string.c
+++ b/core/string.c
@@ -61,6 +61,23 @@ PN potion_str2(Potion *P, char *str, size_t len) {
   return exist;
 }
 
+/// a new string of len bytes at offset from of a string or bytes. The collector
+/// may move str while the result is allocated, so it is copied from there afterwards.
+static PN potion_str_part(Potion *P, PN str, size_t from, size_t len) {
+  PN exist;
+  vPN(String) s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
+  s->len = (PN_SIZE)len;
+  PN_MEMCPY_N(s->chars, PN_STR_PTR(potion_fwd(str)) + from, char, len);
+  s->chars[len] = '\0';
+
+  exist = potion_lookup_str(P, s->chars);
+  if (exist == PN_NIL) {
+    potion_add_str(P, (PN)s);
+    exist = (PN)s;
+  }
+  return exist;
+}
+
 PN potion_strcat(Potion *P, char *str, char *str2) {
   PN exist = PN_NIL;
   int len = strlen(str);
@@ -269,13 +286,17 @@ static PN potion_str_slice(Potion *P, PN cl, PN self, PN start, PN end) {
     startoffset = endoffset;
     endoffset = tmp;
   }
-  return potion_str2(P, str + startoffset, endoffset - startoffset);
+  return potion_str_part(P, self, startoffset, endoffset - startoffset);
 }
 
 ///\memberof PNString
 /// "bytes" method. Convert PNString to PNBytes
 static PN potion_str_bytes(Potion *P, PN cl, PN self) {
-  return potion_byte_str2(P, PN_STR_PTR(self), PN_STR_LEN(self));
+  PN_SIZE len = PN_STR_LEN(self);
+  PN b = potion_bytes(P, len);
+  PN_MEMCPY_N(PN_STR_PTR(b), PN_STR_PTR(self), char, len);
+  PN_STR_PTR(b)[len] = '\0';
+  return b;
 }
 
 ///\memberof PNString
@@ -311,7 +332,7 @@ static PN potion_str_at(Potion *P, PN cl, PN self, PN index) {
   }
   startoffset = potion_utf8char_offset(str, start);
   endoffset = potion_utf8char_nextchar(str, startoffset);
-  return potion_str2(P, str + startoffset, endoffset - startoffset);
+  return potion_str_part(P, self, startoffset, endoffset - startoffset);
 }
 
 ///\memberof PNString
@@ -490,7 +511,9 @@ static PN potion_str_cmp(Potion *P, PN cl, PN self, PN str) {
   if (PN_IS_STR(str)) {
     return PN_NUM(strcmp(PN_STR_PTR(self), PN_STR_PTR(str)));
   } else {
-    return PN_NUM(strcmp(PN_STR_PTR(self), PN_STR_PTR(potion_send(str, PN_string))));
+    str = potion_send(str, PN_string);
+    PN_CHECK_STRB(str);
+    return PN_NUM(strcmp(PN_STR_PTR(potion_fwd(self)), PN_STR_PTR(potion_fwd(str))));
   }
 }
 
-- 
2.43.0


From 899e9902eae3c85a23b6558b18b60c375ee82173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:58 +0000
Subject: [PATCH 38/63] fix: the length of a byte string that has grown is read
 from its replacement

---
 core/compile.c | 5 +++--
 core/potion.h  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 2e2eee5..983e9d7 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -66,7 +66,8 @@ PN potion_sig_string(Potion *P, PN cl, PN sig) {
     struct PNTuple * volatile t = ((struct PNTuple *)potion_fwd(sig));
     if (t->len != 0) {
       PN_SIZE i, comma=0;
-      for (i = 0; i < t->len; i++) {
+      // the string method of a default value may change sig
+      for (i = 0; t->vt == PN_TTUPLE && i < t->len; i++, t = PN_GET_TUPLE(sig)) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_INT(v)) {
           // currently types are still encoded as NUM, TODO: support VTABLE also
@@ -977,7 +978,7 @@ PN potion_sig_compile(Potion *P, vPN(Proto) f, PN src) {
       if (__tv->len != 0) {
         DBG_c("--- sig compile ---\n");
 	PN_SIZE i;
-	for (i = 0; i < __tv->len; i++) {
+	for (i = 0; i < __tv->len; i++, __tv = PN_GET_TUPLE(PN_S(t,0))) {
 	  struct PNSource *v = PN_SRC(__tv->set[i]);
 	  {
       vPN(Source) expr = PN_SRC(v);
diff --git a/core/potion.h b/core/potion.h
index 418c94b..1e3fce6 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -220,7 +220,7 @@ typedef _PN (*PN_F)(Potion *, PN, PN, ...);
 #define PN_STRN(x, l)   potion_str2(P, x, l)
 #define PN_STRCAT(a, b) potion_strcat(P, (a), (b))
 #define PN_STR_PTR(x)   potion_str_ptr(x)                     ///<\memberof PNString \memberof PNBytes
-#define PN_STR_LEN(x)   ((struct PNString *)(x))->len         ///<\memberof PNString
+#define PN_STR_LEN(x)   ((struct PNString *)potion_fwd((PN)(x)))->len ///<\memberof PNString
 #define PN_STR_B(x)     potion_bytes_string(P, PN_NIL, x)     ///<\memberof PNBytes
 #define PN_CLOSURE(x)   ((struct PNClosure *)(x))             ///<\memberof PNClosure
 #define PN_CLOSURE_F(x) ((struct PNClosure *)(x))->method     ///<\memberof PNClosure
-- 
2.43.0


From ef34af42db6e341334000bdae791336b10669d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 39/63] fix: load no longer writes into the string it is given,
 and finds pkg/sub/sub.pn

---
 core/load.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/core/load.c b/core/load.c
index d8c1560..c02ad3c 100644
--- a/core/load.c
+++ b/core/load.c
@@ -124,14 +124,9 @@ char *potion_find_file(Potion *P, char *str, PN_SIZE str_len) {
     PN_SIZE prefix_len = PN_STR_LEN(prefix);
     char dirname[prefix_len + 1 + str_len + 1];
     char *str_pos = dirname + prefix_len + 1;
-    char *dot;
     const char *ext;
     memcpy(str_pos, str, str_len);
-    dot = memchr(str, '.', str_len);
-    if (dot == NULL)
-      dirname[sizeof(dirname) - 1] = '\0';
-    else
-      *dot = '\0';
+    dirname[sizeof(dirname) - 1] = '\0';
     memcpy(dirname, PN_STR_PTR(prefix), prefix_len);
     dirname[prefix_len] = '/';
     if (stat(dirname, &st) == 0 && S_ISREG(st.st_mode)) {
@@ -142,15 +137,15 @@ char *potion_find_file(Potion *P, char *str, PN_SIZE str_len) {
       break;
     } else {
       char *file;
-      if ((file = strrchr(str, '/')) == NULL)
-        file = str;
+      if ((file = strrchr(str_pos, '/')) == NULL)
+        file = str_pos;
       else
         file++;
       if (asprintf(&r, "%s/%s", dirname, file) == -1) potion_allocation_error();
       if (stat(r, &st) != 0 || !S_ISREG(st.st_mode)) {
-        int r_len = prefix_len + 1 + str_len * 2 + 1;
+        size_t r_len = strlen(r);
         if ((ext = find_extension(r)) == NULL) { free(r); r = NULL; continue; }
-        r = realloc(r, r_len + strlen(ext));
+        r = realloc(r, r_len + strlen(ext) + 1);
         if (r == NULL) potion_allocation_error();
         strcpy(r + r_len, ext);
       }
-- 
2.43.0


From 23c8f3fe3e3f4f130e67b4244ddd80ff98d9ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 40/63] fix: formatted strings are interned like all others

---
 core/string.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/string.c b/core/string.c
index eb61ef1..2b29bbb 100644
--- a/core/string.c
+++ b/core/string.c
@@ -96,6 +96,7 @@ PN potion_strcat(Potion *P, char *str, char *str2) {
 }
 
 PN potion_str_format(Potion *P, const char *format, ...) {
+  PN exist;
   vPN(String) s;
   PN_SIZE len;
   va_list args;
@@ -109,7 +110,12 @@ PN potion_str_format(Potion *P, const char *format, ...) {
   vsnprintf(s->chars, len + 1, format, args);
   va_end(args);
   s->len = len;
-  return (PN)s;
+  exist = potion_lookup_str(P, s->chars);
+  if (exist == PN_NIL) {
+    potion_add_str(P, (PN)s);
+    exist = (PN)s;
+  }
+  return exist;
 }
 
 ///\memberof PNString
-- 
2.43.0


From db3437d077e14ce21456bf8948abfcd51cda4bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 41/63] fix: fread fills byte strings only, and only as far as
 they reach

---
 lib/buffile.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index 6ebcb29..5407fdc 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -153,7 +153,12 @@ PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
   \param nitems PNInteger
   \return PNInteger of read items or PNError */
 PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
-  int r = fread(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
+  PN_CHECK_TYPE(buf, PN_TBYTES);
+  int r;
+  vPN(Bytes) b = (struct PNBytes *)potion_fwd(buf);
+  if (PN_INT(size) <= 0 || PN_INT(nitems) < 0 || PN_INT(nitems) > b->len / PN_INT(size))
+    return potion_error(P, PN_STR("fread: buf too small"), 0, 0, 0);
+  r = fread(b->chars, PN_INT(size), PN_INT(nitems), self->file);
   if (r < PN_INT(nitems))
     return potion_io_error(P, "fread");
   return PN_NUM(r);
@@ -306,7 +311,7 @@ void Potion_Init_buffile(Potion *P) {
   potion_method(PN_VTABLE(PN_TBYTES), "fmemopen", potion_buffile_fmemopen, "mode=S");
 #endif
   potion_method(ffile_vt, "close", potion_buffile_fclose, 0);
-  potion_method(ffile_vt, "fread",  potion_buffile_fread, "buf=S,size=N,n:=1");
+  potion_method(ffile_vt, "fread",  potion_buffile_fread, "buf=b,size=N,n:=1");
   potion_method(ffile_vt, "write", potion_buffile_fwrite, "buf=S|size=N,n:=1");
   //potion_method(ffile_vt, "fprintf", potion_buffile_fprintf, "fmt=S|...");
   potion_method(ffile_vt, "fgetc", potion_buffile_fgetc, 0);
-- 
2.43.0


From 9b429735812ea096eb4bb52d597a94bcac07ec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 42/63] fix: the output file of -c: room for long names, a name
 for every target, the number of bytes written

---
 core/potion.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/potion.c b/core/potion.c
index 1c44391..a708115 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -166,7 +166,7 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
     potion_fatal("fatal: stack corruption (exec > MAX_EXEC)\n");
 
   if (exec == EXEC_COMPILE) { // needs an inputfile. TODO: -e"" -ofile
-    char outpath[255];
+    char outpath[strlen(filename) + sizeof(".out")];
     FILE *pnb;
     PN opts;
     char *c_opts = NULL;
@@ -178,12 +178,12 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
 	//TODO check -o for outpath
       }
     }
-    if (!compile || !strcmp(compile, "bc"))
-      sprintf(outpath, "%sb", filename);  // .pnb
-    else if (!strcmp(compile, "c"))
+    if (compile && !strcmp(compile, "c"))
       sprintf(outpath, "%s.c", filename); // .pn.c
-    else if (!strcmp(compile, "exe"))
+    else if (compile && !strcmp(compile, "exe"))
       sprintf(outpath, "%s.out", filename); // TODO: strip ext
+    else
+      sprintf(outpath, "%sb", filename);  // .pnb
     opts = c_opts
       ? pn_printf(P, potion_bytes(P,0), "%s,-o%s", c_opts, outpath)
       : potion_strcat(P, "-o", outpath);
@@ -200,7 +200,7 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
 				potion_str(P, compile),
 				opts ? opts : PN_NIL);
     if (code &&
-	(written = fwrite(PN_STR_PTR(code), 1, PN_STR_LEN(code), pnb) == PN_STR_LEN(code))) {
+	(written = fwrite(PN_STR_PTR(code), 1, PN_STR_LEN(code), pnb)) == PN_STR_LEN(code)) {
       printf("** compiled code saved to %s\n", outpath);
 
       if (!compile || !strcmp(compile, "bc"))
-- 
2.43.0


From b605af8da9c5c3f4803ca979c8b4326c938ca2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 43/63] fix: handles, sizes and lengths reach programs as
 numbers, not as raw words

---
 core/load.c   | 2 +-
 core/potion.c | 2 +-
 lib/aio.c     | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/load.c b/core/load.c
index c02ad3c..042b1a8 100644
--- a/core/load.c
+++ b/core/load.c
@@ -88,7 +88,7 @@ static PN potion_load_dylib(Potion *P, const char *filename) {
   }
   free(init_func_name);
   func(P);
-  return PN_INT(handle);
+  return PN_NUM((long)handle);
 }
 
 static PN pn_loader_path;
diff --git a/core/potion.c b/core/potion.c
index a708115..0003cd4 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -185,7 +185,7 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
     else
       sprintf(outpath, "%sb", filename);  // .pnb
     opts = c_opts
-      ? pn_printf(P, potion_bytes(P,0), "%s,-o%s", c_opts, outpath)
+      ? potion_str_format(P, "%s,-o%s", c_opts, outpath)
       : potion_strcat(P, "-o", outpath);
 
     pnb = fopen(outpath, "wb");
diff --git a/lib/aio.c b/lib/aio.c
index 8af275e..7ec6f7a 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -101,7 +101,7 @@ static void
 aio_fs_event_cb(uv_fs_event_t* handle, const char* filename, int events, int status) {
   struct aio_fs_event_s* wrap = (struct aio_fs_event_s*)handle;
   vPN(Closure) cb = PN_CLOSURE(wrap->cb);
-  char *data = (char*)(&wrap - sizeof(struct PNData) + sizeof(char*));
+  char *data = (char*)wrap - sizeof(struct PNData);
   if (cb) cb->method(wrap->P, (PN)cb, (PN)data, potion_str(wrap->P, filename),
 		     PN_NUM(events), PN_NUM(status));
 }
@@ -572,9 +572,9 @@ static PN aio_interface_address_new(Potion *P, PN cl, PN self) {
 */
 static PN aio_tty_new(Potion *P, PN cl, PN self, PN file, PN readable, PN loop) {
   DEF_AIO_NEW_LOOP(tty);
-  PN_CHECK_INT((PN)PN_DATA(file));
+  PN_CHECK_INT(file);
   PN_CHECK_INT(readable);
-  int r = uv_tty_init(l, handle, PN_NUM(PN_DATA(file)), PN_NUM(readable));
+  int r = uv_tty_init(l, handle, PN_INT(file), PN_INT(readable));
   if (r) return aio_error(P, "Aio_tty", r);
   return (PN)data;
 }
@@ -776,7 +776,7 @@ aio_version_string(Potion *P, PN cl, PN self) {
 }
 static PN aio_size(Potion *P, PN cl, PN self) {
   struct PNData* data = (struct PNData*)potion_fwd(self);
-  return data->siz;
+  return PN_NUM(data->siz);
 }
 
 ///\memberof Aio
-- 
2.43.0


From b6e83e8eb377d27905fd80552784c1dfcc08ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:42 +0000
Subject: [PATCH 44/63] fix: the clone of a function is asked of its parts

---
 core/compile.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 983e9d7..43cb227 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -1114,17 +1114,17 @@ PN potion_proto_clone(Potion *P, PN cl, PN self) {
   n->source = f->source;
   n->stack = f->stack;
   PN_TOUCH(n);
-  PN_SET_REF(n, protos, potion_send(PN_clone, f->protos));
-  PN_SET_REF(n, paths, potion_send(PN_clone, f->paths));
-  PN_SET_REF(n, locals, potion_send(PN_clone, f->locals));
-  PN_SET_REF(n, upvals, potion_send(PN_clone, f->upvals));
-  PN_SET_REF(n, values, potion_send(PN_clone, f->values));
-  PN_SET_REF(n, debugs, potion_send(PN_clone, f->debugs));
+  PN_SET_REF(n, protos, potion_send(f->protos, PN_clone));
+  PN_SET_REF(n, paths, potion_send(f->paths, PN_clone));
+  PN_SET_REF(n, locals, potion_send(f->locals, PN_clone));
+  PN_SET_REF(n, upvals, potion_send(f->upvals, PN_clone));
+  PN_SET_REF(n, values, potion_send(f->values, PN_clone));
+  PN_SET_REF(n, debugs, potion_send(f->debugs, PN_clone));
   n->tree   = f->tree;
   n->localsize = f->localsize;
   n->upvalsize = f->upvalsize;
   n->pathsize = f->pathsize;
-  PN_SET_REF(n, sig, PN_IS_TUPLE(f->sig) ? potion_send(PN_clone, f->sig) : f->sig);
+  PN_SET_REF(n, sig, PN_IS_TUPLE(f->sig) ? potion_send(f->sig, PN_clone) : f->sig);
 
   len = ((PNAsm *)f->asmb)->len;
   PN_FLEX_NEW(asmb, PN_TBYTES, PNAsm, len);
-- 
2.43.0


From 67308088ba1c68ec8c360a9722d0357173ee7122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:37 +0000
Subject: [PATCH 45/63] fix: failed allocations of the parser, of compiled code
 and of the command line are noticed

---
 core/objmodel.c | 1 +
 core/potion.c   | 7 +++++--
 core/syntax.y   | 8 ++++++++
 core/vm.c       | 1 +
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index cbea5d3..d41116a 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -304,6 +304,7 @@ PN potion_ivars(Potion *P, PN cl, PN self, PN ivars) {
   PNAsm * volatile asmb = potion_asm_new(P);
   P->target.ivars(P, ivars, &asmb);
   vt->ivfunc = (PN_IVAR_FUNC)PN_ALLOC_FUNC(asmb->len);
+  if (vt->ivfunc == NULL) potion_allocation_error();
   PN_MEMCPY_N(vt->ivfunc, asmb->ptr, u8, asmb->len);
 #endif
   vt->ivlen = PN_TUPLE_LEN(ivars);
diff --git a/core/potion.c b/core/potion.c
index 0003cd4..fc83b73 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -331,8 +331,11 @@ int main(int argc, char *argv[]) {
       exec = EXEC_DEBUG; continue; }
     if (argv[i][0] == '-' && argv[i][1] == 'd') {
       if (argv[i][2] == '=')
-	addmodules = addmodule(P, addmodules, NULL,
-			       strdup(PN_STR_PTR(PN_STRCAT("debug=", &argv[i][3]))));
+      {
+	char *name = strdup(PN_STR_PTR(PN_STRCAT("debug=", &argv[i][3])));
+	if (name == NULL) potion_allocation_error();
+	addmodules = addmodule(P, addmodules, NULL, name);
+      }
       else
 	addmodules = addmodule(P, addmodules, "debug", &argv[i][2]);
       exec = EXEC_DEBUG; continue; }
diff --git a/core/syntax.y b/core/syntax.y
index 2b77d02..33c2739 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -25,6 +25,14 @@
 #define YY_XTYPE Potion *
 #define YY_XVAR P
 
+static void *yychecked(void *mem) {
+  if (mem == NULL) potion_allocation_error();
+  return mem;
+}
+#define YY_ALLOC(N, D)      yychecked(malloc(N))
+#define YY_CALLOC(N, S, D)  yychecked(calloc(N, S))
+#define YY_REALLOC(B, N, D) yychecked(realloc(B, N))
+
 #define YY_INPUT(buf, result, max) { \
   YY_XTYPE P = G->data; \
   if (P->yypos < PN_STR_LEN(P->input)) { \
diff --git a/core/vm.c b/core/vm.c
index a94e4a3..efe23de 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -372,6 +372,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   free(jmps);
 
   fn = (u8*)PN_ALLOC_FUNC(asmb->len);
+  if (fn == NULL) potion_allocation_error();
 #if defined(JIT_DEBUG)
   if (P->flags & DEBUG_JIT) {
     #include "vm-dis.c"
-- 
2.43.0


From 4fb3cadf50eeae3b0a8326671f183575e824b0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:46 +0000
Subject: [PATCH 46/63] fix: aio reports a failing tty reset, and receives
 datagrams without an address

---
 lib/aio.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/aio.c b/lib/aio.c
index 7ec6f7a..707b4ab 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -1097,11 +1097,14 @@ aio_udp_recv_cb(uv_udp_t* handle, ssize_t nread, const uv_buf_t* buf,
   struct sockaddr_in* addr_in = (struct sockaddr_in*)addr;
   vPN(Closure) cb = PN_CLOSURE(wrap->r.recv_cb);
   char *data = (char*)(wrap - sizeof(struct PNData));
-  if (addr_in->sin_family == AF_INET6) {
-    uv_ip6_name((struct sockaddr_in6*)addr, ip, 46);
+  if (!addr) { // nothing received
+    ip[0] = '\0';
+    port = 0;
+  } else if (addr_in->sin_family == AF_INET6) {
+    if (uv_ip6_name((struct sockaddr_in6*)addr, ip, 46)) ip[0] = '\0';
     port = ((struct sockaddr_in6*)addr)->sin6_port;
   } else {
-    uv_ip4_name(addr_in, ip, 46);
+    if (uv_ip4_name(addr_in, ip, 46)) ip[0] = '\0';
     port = addr_in->sin_port;
   }
   //TODO: maybe reuse PNBytes with buf structure
@@ -1186,8 +1189,8 @@ aio_tty_set_mode(Potion *P, PN cl, PN tty, PN mode) {
 /// values for the next process to take over.
 static PN
 aio_tty_reset_mode(Potion *P, PN cl, PN tty) {
-  uv_tty_reset_mode();
-  return tty;
+  int r = uv_tty_reset_mode();
+  return r ? aio_error(P, "tty reset_mode", r) : tty;
 }
 ///\memberof Aio_tty
 static PN
-- 
2.43.0


From 6fa323f6587fe38c4bde26eea8336846fbe67677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:20 +0000
Subject: [PATCH 47/63] fix: readline completions survive a failed allocation

---
 lib/readline/linenoise.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index f66f676..4a2eb76 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -781,9 +781,17 @@ void linenoiseSetCompletionCallback(linenoiseCompletionCallback *fn) {
 
 void linenoiseAddCompletion(linenoiseCompletions *lc, char *str) {
     size_t len = strlen(str);
-    char *copy = malloc(len+1);
+    char *copy, **cvec;
+
+    copy = malloc(len+1);
+    if (copy == NULL) return;
     memcpy(copy,str,len+1);
-    lc->cvec = realloc(lc->cvec,sizeof(char*)*(lc->len+1));
+    cvec = realloc(lc->cvec,sizeof(char*)*(lc->len+1));
+    if (cvec == NULL) {
+        free(copy);
+        return;
+    }
+    lc->cvec = cvec;
     lc->cvec[lc->len++] = copy;
 }
 
-- 
2.43.0


From c311cf23f6ea108a0bc4d830f79918b09d4ab5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:06 +0000
Subject: [PATCH 48/63] fix: readline keeps a history entry it cannot replace

---
 lib/readline/linenoise.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index 4a2eb76..e7b4d42 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -628,8 +628,11 @@ up_down_arrow:
                 if (history_len > 1) {
                     /* Update the current history entry before to
                      * overwrite it with tne next one. */
-                    free(history[history_len-1-history_index]);
-                    history[history_len-1-history_index] = strdup(buf);
+                    char *copy = strdup(buf);
+                    if (copy) {
+                        free(history[history_len-1-history_index]);
+                        history[history_len-1-history_index] = copy;
+                    }
                     /* Show the new entry */
                     history_index += (seq[1] == 65) ? 1 : -1;
                     if (history_index < 0) {
-- 
2.43.0


From 7feed2865ef4a42599365fb30bd45e4497964e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:18 +0000
Subject: [PATCH 49/63] fix: compiled code that could not be written is
 reported

---
 core/potion.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/potion.c b/core/potion.c
index fc83b73..359d2fc 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -199,8 +199,10 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
       code = potion_source_dump(P, 0, code,
 				potion_str(P, compile),
 				opts ? opts : PN_NIL);
-    if (code &&
-	(written = fwrite(PN_STR_PTR(code), 1, PN_STR_LEN(code), pnb)) == PN_STR_LEN(code)) {
+    if (code)
+      written = fwrite(PN_STR_PTR(code), 1, PN_STR_LEN(code), pnb);
+    if (fclose(pnb)) written = 0;
+    if (code && written == PN_STR_LEN(code)) {
       printf("** compiled code saved to %s\n", outpath);
 
       if (!compile || !strcmp(compile, "bc"))
@@ -214,7 +216,6 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
       fprintf(stderr, "** could not write all %s compiled code (%u/%u) to %s\n",
 	      compile?compile:"bytecode", written, code?PN_STR_LEN(code):0, outpath);
     }
-    fclose(pnb);
   }
 
 #if defined(DEBUG)
-- 
2.43.0


From a08f438ef45efebdec6c4bda0e2a48935415047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:18 +0000
Subject: [PATCH 50/63] fix: closing a database reports its failure

---
 lib/database.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/database.c b/lib/database.c
index 457aaf0..986dc63 100644
--- a/lib/database.c
+++ b/lib/database.c
@@ -136,7 +136,8 @@ PN potion_sqlite_gettable(Potion *P, PN cl, PN self, PN query) {
 PN potion_sqlite_close(Potion *P, PN cl, PN self) {
   struct PNDatabase *db = (struct PNDatabase *)self;
   if (db->db) {
-    sqlite3_close(db->db);
+    if (sqlite3_close(db->db) != SQLITE_OK)
+      return potion_io_error(P, "close");
     db->db = NULL;
   }
   return self;
-- 
2.43.0


From cf29b9b7cf85ac5f555ef8071c9b909eb795a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:18 +0000
Subject: [PATCH 51/63] fix: saving the readline history reports a failed write

---
 lib/readline/linenoise.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index e7b4d42..4a8d687 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -853,8 +853,7 @@ int linenoiseHistorySave(char *filename) {
     if (fp == NULL) return -1;
     for (j = 0; j < history_len; j++)
         fprintf(fp,"%s\n",history[j]);
-    fclose(fp);
-    return 0;
+    return fclose(fp) ? -1 : 0;
 }
 
 /* Load the history from the specified file. If the file does not exist
-- 
2.43.0


From 1b89cea788f67737f0fd6b03292ac605294f26cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:52 +0000
Subject: [PATCH 52/63] fix: the debugger releases the name of the library it
 loads

---
 core/vm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/vm.c b/core/vm.c
index efe23de..4a56182 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -653,7 +653,9 @@ PN potion_vm(Potion *P, PN proto, PN self, PN vargs, PN_SIZE upc, PN *upargs) {
     pn_readline = (PN (*)(Potion *, PN, PN, PN))dlsym(RTLD_DEFAULT, "pn_readline");
     if (!pn_readline) {
 #ifndef SANDBOX
-      void *handle = dlopen(potion_find_file(P,"readline",0), RTLD_LAZY);
+      char *file = potion_find_file(P,"readline",0);
+      void *handle = dlopen(file, RTLD_LAZY);
+      free(file);
       if (!handle) potion_fatal("readline library not loaded");
       pn_readline = (PN (*)(Potion *, PN, PN, PN))dlsym(handle, "pn_readline");
 #endif
-- 
2.43.0


From 0928a6208d58c0f6dbb71d951696454fd0aefa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:52 +0000
Subject: [PATCH 53/63] fix: a database that fails to open or to close is not
 lost

---
 lib/database.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/database.c b/lib/database.c
index 986dc63..460da71 100644
--- a/lib/database.c
+++ b/lib/database.c
@@ -150,12 +150,15 @@ PN potion_sqlite_open(Potion *P, PN cl, PN self, PN path) {
     return PN_NIL;
   }
   if (db->db) {
-    potion_sqlite_close(P, cl, self);
+    PN r = potion_sqlite_close(P, cl, self);
+    if (db->db) return r;
   }
   sqlite3 *sdb;
   int rc = sqlite3_open(PN_STR_PTR(path), &sdb);
-  if (rc)
+  if (rc) {
+    sqlite3_close(sdb);
     return potion_io_error(P, "open");
+  }
   db->db = sdb;
   return self;
 }
-- 
2.43.0


From 7bb2fdaf15524fb5df9f1817eb4fefd95cc29801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:52 +0000
Subject: [PATCH 54/63] fix: a stream is closed once, and closed buffiles are
 told apart from open ones

---
 lib/buffile.c | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index 5407fdc..78861d8 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -9,7 +9,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <unistd.h>
-//#include <errno.h>
+#include <errno.h>
 #include "potion.h"
 
 #ifndef SANDBOX
@@ -34,6 +34,10 @@ struct PNBufFile {
 typedef vPN(BufFile) pn_ffile;
 const int BufFileSize = sizeof(struct PNBufFile) - sizeof(struct PNData);
 
+/// a closed buffile has no stream
+#define CHECK_OPEN(NAME) \
+  if (!self->file) { errno = EBADF; return potion_io_error(P, NAME); }
+
 /**\memberof PNBufFile
   opens a buffered stream
   \param path PNString
@@ -70,10 +74,12 @@ PN potion_buffile_tmpfile(Potion *P, PN cl, PN ign) {
   \param fd PN_NUM
   \param modestr PNString r,r+,w,w+,a,a+
   \returns PNBufFile or PNError */
-PN potion_buffile_fdopen(Potion *P, PN cl, pn_ffile self, PN fd, PN modestr) {
+PN potion_buffile_fdopen(Potion *P, PN cl, PN ign, PN fd, PN modestr) {
   FILE *file;
+  struct PNBufFile *self;
   if (!(file = fdopen(PN_INT(fd), PN_STR_PTR(modestr))))
     return potion_io_error(P, "fdopen");
+  self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
   self->siz = BufFileSize;
   self->file = file;
   self->path = PN_NIL;
@@ -91,10 +97,14 @@ PN potion_buffile_fdopen(Potion *P, PN cl, pn_ffile self, PN fd, PN modestr) {
   \returns PNBufFile or PNError */
 PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr, pn_ffile stream) {
   FILE *file;
-  if ((PN_TYPE(stream) != PN_TUSER) ||
-     !(file = freopen(PN_STR_PTR(path), PN_STR_PTR(modestr), stream->file))) {
+  if (PN_TYPE(stream) != PN_TUSER || !stream->file)
+    return potion_io_error(P, "freopen");
+  if (!(file = freopen(PN_STR_PTR(path), PN_STR_PTR(modestr), stream->file))) {
+    stream->file = NULL; // closed nevertheless
     return potion_io_error(P, "freopen");
   }
+  stream->file = NULL; // only one object owns it
+  if (self->file) fclose(self->file);
   self->siz = BufFileSize;
   self->file = file;
   self->path = stream->path;
@@ -128,12 +138,16 @@ PN potion_buffile_fmemopen(Potion *P, PN cl, PN buf, PN modestr) {
   \c flush and \c close a PNBufFile.
   \return PNInteger (0 or EOF) */
 PN potion_buffile_fclose(Potion *P, PN cl, pn_ffile self) {
-  return PN_NUM(fclose(self->file));
+  CHECK_OPEN("close");
+  FILE *file = self->file;
+  self->file = NULL;
+  return PN_NUM(fclose(file));
 }
 /**\memberof PNBufFile
   \c read the next character from a PNBufFile
   \return PNInteger */
 PN potion_buffile_fgetc(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("fgetc");
   return PN_NUM(fgetc(self->file));
 }
 /**\memberof PNBufFile
@@ -141,6 +155,7 @@ PN potion_buffile_fgetc(Potion *P, PN cl, pn_ffile self) {
   \see potion_lobby_read() and potion_file_read()
   \return PNBytes or PN_NIL */
 PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("fgets");
   char line[1024];
   if (fgets(line, 1024, self->file) != NULL)
     return potion_byte_str(P, line);
@@ -153,6 +168,7 @@ PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
   \param nitems PNInteger
   \return PNInteger of read items or PNError */
 PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
+  CHECK_OPEN("fread");
   PN_CHECK_TYPE(buf, PN_TBYTES);
   int r;
   vPN(Bytes) b = (struct PNBytes *)potion_fwd(buf);
@@ -180,6 +196,7 @@ PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN ni
     case PN_NIL:    return PN_NIL;
     default: return potion_type_error(P, buf);
   }
+  CHECK_OPEN("fwrite");
   int r = fwrite(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
   if (r < PN_INT(nitems))
     return potion_io_error(P, "fwrite");
@@ -190,6 +207,7 @@ PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN ni
   \param byte PNInteger
   \return PNInteger */
 PN potion_buffile_fputc(Potion *P, PN cl, pn_ffile self, PN byte) {
+  CHECK_OPEN("fputc");
   return PN_NUM(fputc(PN_INT(byte), self->file));
 }
 /**\memberof PNBufFile
@@ -197,6 +215,7 @@ PN potion_buffile_fputc(Potion *P, PN cl, pn_ffile self, PN byte) {
   \param str PNString or PNBytes
   \return PNInteger or PNError */
 PN potion_buffile_fputs(Potion *P, PN cl, pn_ffile self, PN str) {
+  CHECK_OPEN("fputs");
   int r;
   if (!(r=fputs(PN_STR_PTR(str), self->file)))
     return potion_io_error(P, "fputs");
@@ -206,6 +225,7 @@ PN potion_buffile_fputs(Potion *P, PN cl, pn_ffile self, PN str) {
    \c "fflush"
    \return true or PNError */
 PN potion_buffile_fflush(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("fflush");
   if (fflush(self->file))
     return potion_io_error(P, "fflush");
   return PN_TRUE;
@@ -216,6 +236,7 @@ PN potion_buffile_fflush(Potion *P, PN cl, pn_ffile self) {
   \param whence PNInteger
   \return true or PNError */
 PN potion_buffile_fseek(Potion *P, PN cl, pn_ffile self, PN offset, PN whence) {
+  CHECK_OPEN("fseek");
   if (fseek(self->file, PN_INT(offset), PN_INT(whence)))
     return potion_io_error(P, "fseek");
   return PN_TRUE;
@@ -225,6 +246,7 @@ PN potion_buffile_fseek(Potion *P, PN cl, pn_ffile self, PN offset, PN whence) {
    beginning of the file.
   \return PNInteger */
 PN potion_buffile_ftell(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("ftell");
   long r = ftell(self->file);
   if (r == -1)
     return potion_io_error(P, "ftell");
@@ -234,19 +256,22 @@ PN potion_buffile_ftell(Potion *P, PN cl, pn_ffile self) {
    \c "feof" tests the end-of-file indicator for the stream.
    \return true or false */
 PN potion_buffile_feof(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("feof");
   int r = feof(self->file);
   return r ? PN_TRUE : PN_FALSE;
 }
 /**\memberof PNBufFile
    \c "fileno" \returns its integer file descriptor. */
 PN potion_buffile_fileno(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("fileno");
   return PN_NUM(fileno(self->file));
 }
 /**\memberof PNBufFile
    \c "unlink" the PNBufFile. close it if open.
    \return true or nil */
 PN potion_buffile_unlink(Potion *P, PN cl, pn_ffile self) {
-  if (fileno(self->file) != -1) fclose(self->file);
+  if (self->file) fclose(self->file);
+  self->file = NULL;
   if (!self->path || unlink(PN_STR_PTR(self->path))) {
     return potion_io_error(P, "unlink");
   }
@@ -256,17 +281,20 @@ PN potion_buffile_unlink(Potion *P, PN cl, pn_ffile self) {
 /**\memberof PNBufFile
    acquire for a thread ownership of a PNBufFile object */
 PN potion_buffile_flockfile(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("flockfile");
   flockfile(self->file); return PN_TRUE;
 }
 /**\memberof PNBufFile
    non-blocking version of \see potion_buffile_flockfile().
   \returns 0 for success */
 PN potion_buffile_ftrylockfile(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("ftrylockfile");
   return PN_NUM(ftrylockfile(self->file));
 }
 /**\memberof PNBufFile
    relinquish the ownership granted to the thread of a PNBufFile object */
 PN potion_buffile_funlockfile(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN("funlockfile");
   funlockfile(self->file); return PN_TRUE;
 }
 #endif
@@ -282,7 +310,7 @@ PN potion_buffile_fprintf(Potion *P, PN cl, pn_ffile self, PN fmt, ...) {
 /**\memberof PNBufFile
   \c "string" method. some internal descr */
 PN potion_buffile_string(Potion *P, PN cl, pn_ffile self) {
-  int fd = fileno(self->file), rv;
+  int fd = self->file ? fileno(self->file) : -1, rv;
   char *buf;
   PN str;
   if (self->path != PN_NIL && fd != -1) {
-- 
2.43.0


From 6a23f10f41451826b4e7382e835d00d664669953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:59 +0000
Subject: [PATCH 55/63] fix: compiled code keeps doubles exactly and more than
 255 names or values

---
 core/compile.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 43cb227..02fc093 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -1135,15 +1135,15 @@ PN potion_proto_clone(Potion *P, PN cl, PN self) {
   return (PN)n;
 }
 
-#define READ_U8(ptr) ({u8 rpu = *ptr; ptr += sizeof(u8); rpu;})
 #define READ_PN(pn, ptr) ({PN rpn = *(PN *)ptr; ptr += pn; rpn;})
 #define READ_CONST(pn, ptr) ({ \
     PN val = READ_PN(pn, ptr); \
     if (PN_IS_PTR(val)) { \
       if (val & 2) { \
-        size_t len = ((val ^ 2) >> 4) - 1; \
-        val = potion_strtod(P, (char *)ptr, len); \
-        ptr += len; \
+        double d; \
+        memcpy(&d, ptr, sizeof(d)); \
+        val = potion_double(P, d); \
+        ptr += sizeof(d); \
       } else { \
         size_t len = (val >> 4) - 1; \
         val = PN_STRN((char *)ptr, len); \
@@ -1154,7 +1154,7 @@ PN potion_proto_clone(Potion *P, PN cl, PN self) {
   })
 
 #define READ_TUPLE(ptr) \
-  long i = 0, count = READ_U8(ptr); \
+  long i = 0, count = READ_PN(pn, ptr); \
   PN tup = potion_tuple_with_size(P, (PN_SIZE)count); \
   for (; i < count; i++)
 #define READ_VALUES(pn, ptr) ({ \
@@ -1238,9 +1238,6 @@ static u8 *potion_dump_room(Potion *P, PN out, long pos, PN_SIZE n) {
   return (u8 *)s->chars + pos;
 }
 
-#define WRITE_U8(un) ({ \
-    u8 *_p = potion_dump_room(P, out, pos, sizeof(u8)); \
-    *_p = (u8)(un); pos += sizeof(u8); })
 #define WRITE_PN(pn) ({ \
     u8 *_p = potion_dump_room(P, out, pos, sizeof(PN)); \
     *(PN *)_p = (pn); pos += sizeof(PN); })
@@ -1254,16 +1251,16 @@ static u8 *potion_dump_room(Potion *P, PN out, long pos, PN_SIZE n) {
       WRITE_PN((PN)(PN_STR_LEN(val)+1) << 4); \
       WRITE_MEM(PN_STR_PTR(val), PN_STR_LEN(val)); \
     } else if (PN_IS_DBL(val)) { \
-      PN str = potion_num_string(P, PN_NIL, val); \
-      WRITE_PN((PN)((PN_STR_LEN(str)+1) << 4) | 2); \
-      WRITE_MEM(PN_STR_PTR(str), PN_STR_LEN(str)); \
+      double d = PN_DBL(val); \
+      WRITE_PN((PN)((sizeof(d)+1) << 4) | 2); \
+      WRITE_MEM(&d, sizeof(d)); \
     } else { \
       WRITE_PN(PN_IS_PTR(val) ? PN_NIL : val); \
     } \
   })
 #define WRITE_TUPLE(tup) \
   long i = 0, count = PN_TUPLE_LEN(tup); \
-  WRITE_U8(count); \
+  WRITE_PN(count); \
   for (; i < count; i++)
 #define WRITE_VALUES(tup) ({ \
     WRITE_TUPLE(tup) WRITE_CONST(PN_TUPLE_AT(tup, i)); \
-- 
2.43.0


From f77da29363cded161f9321ecf46d1c41d98772bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:59 +0000
Subject: [PATCH 56/63] fix: load runs a compiled file

---
 core/load.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/load.c b/core/load.c
index 042b1a8..e73c7b9 100644
--- a/core/load.c
+++ b/core/load.c
@@ -38,11 +38,11 @@ static PN potion_load_code(Potion *P, const char *filename) {
     PN_STR_PTR(buf)[stats.st_size] = '\0';
     code = potion_source_load(P, PN_NIL, buf);
     if (!PN_IS_PROTO(code)) {
-      result = potion_run(P, potion_send(
+      code = potion_send(
 	  potion_parse(P, buf, (char *)filename),
-          PN_compile, potion_str(P, filename), PN_NIL),
-        POTION_JIT);
+          PN_compile, potion_str(P, filename), PN_NIL);
     }
+    result = potion_run(P, code, POTION_JIT);
   } else {
     fprintf(stderr, "** could not read entire file: %s.", filename);
   }
-- 
2.43.0


From 0095d35e4cd4992184e5fbe89e9efb83d7a2b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:19 +0000
Subject: [PATCH 57/63] fix: files, streams, loops and calls check the kind of
 their arguments

---
 core/compile.c          |  1 +
 core/file.c             |  2 ++
 core/objmodel.c         |  1 +
 lib/aio.c               | 17 +++++++++--------
 lib/buffile.c           |  8 ++++++++
 lib/readline/readline.c |  4 +++-
 6 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 02fc093..473f49d 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -55,6 +55,7 @@ PN potion_proto_tree(Potion *P, PN cl, PN self) {
 /// call method of PNProto. i.e. apply - bind args to a closure.
 ///\param args
 PN potion_proto_call(Potion *P, PN cl, PN self, PN args) {
+  if (args != PN_NIL) PN_CHECK_TUPLE(args);
   return potion_vm(P, self, P->lobby, args, 0, NULL);
 }
 
diff --git a/core/file.c b/core/file.c
index ad29c42..32768dd 100644
--- a/core/file.c
+++ b/core/file.c
@@ -40,6 +40,8 @@ PN potion_file_new(Potion *P, PN cl, PN self, PN path, PN modestr) {
   struct PNFile * file = PN_ALLOC(PN_TFILE, struct PNFile);
   int fd;
   mode_t mode;
+  PN_CHECK_STRB(path);
+  PN_CHECK_STRB(modestr);
   if (strcmp(PN_STR_PTR(modestr), "r") == 0) {
     mode = O_RDONLY;
   } else if (strcmp(PN_STR_PTR(modestr), "r+") == 0) {
diff --git a/core/objmodel.c b/core/objmodel.c
index d41116a..147ee78 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -347,6 +347,7 @@ PN potion_obj_set(Potion *P, PN cl, PN self, PN ivar, PN value) {
 }
 /// only used in def_method
 PN potion_proto_method(Potion *P, PN cl, PN self, PN args) {
+  if (args != PN_NIL) PN_CHECK_TUPLE(args);
   return potion_vm(P, PN_CLOSURE(cl)->data[0], P->lobby, args, 0, NULL);
 }
 /// only used in def_method
diff --git a/lib/aio.c b/lib/aio.c
index 707b4ab..0dac4b6 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -122,7 +122,7 @@ static PN aio_error(Potion *P, char *name, int status) {
   uv_loop_t* l;                                 \
   DEF_AIO_NEW(T);				\
   if (!loop) l = uv_default_loop();             \
-  else if (PN_VTYPE(loop) == aio_loop_type)	\
+  else if (PN_TYPE(loop) == aio_loop_type)	\
     l = (uv_loop_t*)PN_DATA(loop);		\
   else return potion_type_error(P, loop);
 #define DEF_AIO_NEW_LOOP_INIT(T)		 \
@@ -153,7 +153,7 @@ static PN aio_error(Potion *P, char *name, int status) {
   if (!potion_bind(P, self, PN_STR("Aio_"_XSTR(T)))) return potion_type_error_want(P, "self", self, ""_XSTR(T))
 #define CHECK_AIO_STREAM(stream)                             \
   {                                                          \
-    PNType _t = PN_VTYPE(stream);                            \
+    PNType _t = PN_TYPE(stream);                            \
     if (_t != aio_stream_type &&                             \
         _t != aio_tcp_type &&                                \
         _t != aio_udp_type &&                                \
@@ -162,7 +162,7 @@ static PN aio_error(Potion *P, char *name, int status) {
         !potion_bind(P, stream, PN_STR("listen")))           \
       return potion_type_error_want(P, "stream", stream, "Aio_stream");	\
   }
-//if (PN_VTYPE(self) != aio_##T##_type) {
+//if (PN_TYPE(self) != aio_##T##_type) {
 #define FATAL_AIO_TYPE(self, T) \
   if (!potion_bind(P, self, PN_STR("Aio_"_XSTR(T)))) {                  \
     fprintf(stderr, "** Invalid type %s, expected %s",                  \
@@ -173,7 +173,7 @@ static PN aio_error(Potion *P, char *name, int status) {
   }
 #define FATAL_AIO_STREAM(stream)                             \
   {                                                          \
-    PNType _t = PN_VTYPE(stream);			     \
+    PNType _t = PN_TYPE(stream);			     \
     if (_t != aio_stream_type &&                             \
         _t != aio_tcp_type &&                                \
         _t != aio_udp_type &&                                \
@@ -240,7 +240,7 @@ static PN aio_tcp_new(Potion *P, PN cl, PN self, PN loop) {
   handle = (uv_tcp_t*)PN_DATA(data);
   ((aio_tcp_t*)handle)->P = P;
   if (!loop) l = uv_default_loop();
-  else if (PN_VTYPE(loop) == aio_loop_type)
+  else if (PN_TYPE(loop) == aio_loop_type)
     l = (uv_loop_t*)PN_DATA(loop);
   else return potion_type_error(P, loop);
   r = uv_tcp_init(l, handle);
@@ -264,7 +264,7 @@ static PN aio_udp_new(Potion *P, PN cl, PN self, PN loop) {
   handle = (uv_udp_t*)PN_DATA(data);
   ((aio_udp_t*)handle)->P = P;
   if (!loop) l = uv_default_loop();
-  else if (PN_VTYPE(loop) == aio_loop_type)
+  else if (PN_TYPE(loop) == aio_loop_type)
     l = (uv_loop_t*)PN_DATA(loop);
   else return potion_type_error(P, loop);
   r = uv_udp_init(l, handle);
@@ -784,7 +784,7 @@ static PN
 aio_run(Potion *P, PN cl, PN self, PN loop, PN mode) {
   uv_loop_t* l;
   if (!loop) l = uv_default_loop();
-  else if (PN_VTYPE(loop) == aio_loop_type)
+  else if (PN_TYPE(loop) == aio_loop_type)
     l = (uv_loop_t*)PN_DATA(loop);
   else return potion_type_error(P, loop);
   if (mode) PN_CHECK_TYPE(mode,PN_TNUMBER);
@@ -797,7 +797,7 @@ static PN
 aio_walk(Potion *P, PN cl, PN self, PN loop, PN cb, PN arg) {
   uv_loop_t* l;
   if (!loop) l = uv_default_loop();
-  else if (PN_VTYPE(loop) == aio_loop_type)
+  else if (PN_TYPE(loop) == aio_loop_type)
     l = (uv_loop_t*)PN_DATA(loop);
   else return potion_type_error(P, loop);
 
@@ -1614,6 +1614,7 @@ static PN aio_fs_close(Potion *P, PN cl, PN self, PN fd, PN cb, PN loop) {
 static PN aio_fs_open(Potion *P, PN cl, PN self, PN path, PN flags, PN mode, PN cb, PN loop) {
   DEF_AIO_NEW_LOOP(fs);
   aio_fs_t* req = (aio_fs_t*)handle;
+  PN_CHECK_STRB(path);
   PN_CHECK_INT(flags);
   PN_CHECK_INT(mode);
   AIO_CB_SET(fs,req);
diff --git a/lib/buffile.c b/lib/buffile.c
index 78861d8..f74a98f 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -46,6 +46,8 @@ const int BufFileSize = sizeof(struct PNBufFile) - sizeof(struct PNData);
 PN potion_buffile_fopen(Potion *P, PN cl, PN ign, PN path, PN modestr) {
   FILE *file;
   struct PNBufFile *self;
+  PN_CHECK_STRB(path);
+  PN_CHECK_STRB(modestr);
   if (!(file = fopen(PN_STR_PTR(path), PN_STR_PTR(modestr))))
     return potion_io_error(P, "open");
   self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
@@ -77,6 +79,8 @@ PN potion_buffile_tmpfile(Potion *P, PN cl, PN ign) {
 PN potion_buffile_fdopen(Potion *P, PN cl, PN ign, PN fd, PN modestr) {
   FILE *file;
   struct PNBufFile *self;
+  PN_CHECK_INT(fd);
+  PN_CHECK_STRB(modestr);
   if (!(file = fdopen(PN_INT(fd), PN_STR_PTR(modestr))))
     return potion_io_error(P, "fdopen");
   self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
@@ -99,6 +103,8 @@ PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr,
   FILE *file;
   if (PN_TYPE(stream) != PN_TUSER || !stream->file)
     return potion_io_error(P, "freopen");
+  PN_CHECK_STRB(path);
+  PN_CHECK_STRB(modestr);
   if (!(file = freopen(PN_STR_PTR(path), PN_STR_PTR(modestr), stream->file))) {
     stream->file = NULL; // closed nevertheless
     return potion_io_error(P, "freopen");
@@ -124,6 +130,7 @@ PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr,
 PN potion_buffile_fmemopen(Potion *P, PN cl, PN buf, PN modestr) {
   FILE *file;
   struct PNBufFile *self;
+  PN_CHECK_STRB(modestr);
   if (!(file = fmemopen(PN_STR_PTR(buf), PN_STR_LEN(buf), PN_STR_PTR(modestr))))
     return potion_io_error(P, "fmemopen");
   self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
@@ -217,6 +224,7 @@ PN potion_buffile_fputc(Potion *P, PN cl, pn_ffile self, PN byte) {
 PN potion_buffile_fputs(Potion *P, PN cl, pn_ffile self, PN str) {
   CHECK_OPEN("fputs");
   int r;
+  PN_CHECK_STRB(str);
   if (!(r=fputs(PN_STR_PTR(str), self->file)))
     return potion_io_error(P, "fputs");
   return PN_NUM(r);
diff --git a/lib/readline/readline.c b/lib/readline/readline.c
index 920d595..ff7a4e5 100644
--- a/lib/readline/readline.c
+++ b/lib/readline/readline.c
@@ -4,8 +4,10 @@
 #include "linenoise.h"
 
 PN pn_readline(Potion *P, PN cl, PN self, PN start) {
-  char *line = linenoise(PN_STR_PTR(start));
+  char *line;
   PN r;
+  PN_CHECK_STRB(start);
+  line = linenoise(PN_STR_PTR(start));
   if (line == NULL) return PN_NIL;
 
   linenoiseHistoryLoad("history.txt");
-- 
2.43.0


From beae288cc6238d114d61ab85a718530fd55e889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:31 +0000
Subject: [PATCH 58/63] fix: writing to files stays within the string written

---
 core/file.c   | 2 +-
 lib/buffile.c | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/file.c b/core/file.c
index 32768dd..22fced5 100644
--- a/core/file.c
+++ b/core/file.c
@@ -139,7 +139,7 @@ PN potion_file_write(Potion *P, PN cl, pn_file self, PN obj) {
   } else {
     switch (PN_TYPE(obj)) {
       case PN_TSTRING: len = PN_STR_LEN(obj); ptr = PN_STR_PTR(obj); break;
-      case PN_TBYTES:  len = potion_send(obj, PN_STR("length")); ptr = PN_STR_PTR(obj); break;
+      case PN_TBYTES:  len = PN_STR_LEN(obj); ptr = PN_STR_PTR(obj); break;
       case PN_TNUMBER: {
         tmp.d = PN_DBL(obj); len = sizeof(tmp); ptr = (char *)&tmp.d;
         break;
diff --git a/lib/buffile.c b/lib/buffile.c
index f74a98f..b740d8e 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -204,6 +204,8 @@ PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN ni
     default: return potion_type_error(P, buf);
   }
   CHECK_OPEN("fwrite");
+  if (PN_INT(size) <= 0 || PN_INT(nitems) < 0 || PN_INT(nitems) > PN_STR_LEN(buf) / PN_INT(size))
+    return potion_error(P, PN_STR("fwrite: buf too small"), 0, 0, 0);
   int r = fwrite(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
   if (r < PN_INT(nitems))
     return potion_io_error(P, "fwrite");
-- 
2.43.0


From 177cec460c0e1d40aa41cb8328db6cd175e0f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:31 +0000
Subject: [PATCH 59/63] fix: numbers for the event loop are untagged and buffer
 lengths checked

---
 core/objmodel.c |  2 +-
 core/string.c   |  2 +-
 lib/aio.c       | 55 ++++++++++++++++++++++++++++---------------------
 3 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index 147ee78..6a5e73c 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -323,7 +323,7 @@ static inline long potion_obj_find_ivar(Potion *P, PN self, PN ivar) {
     PN ivars = ((struct PNVtable *)PN_VTABLE(t))->ivars;
     if (ivars != PN_NIL) {
       PN found = potion_tuple_bsearch(P, 0, ivars, ivar);
-      return found == PN_FALSE ? -1 : found;
+      return found == PN_FALSE ? -1 : PN_INT(found);
     }
   }
   return -1;
diff --git a/core/string.c b/core/string.c
index 2b29bbb..225a393 100644
--- a/core/string.c
+++ b/core/string.c
@@ -282,7 +282,7 @@ static PN potion_str_slice(Potion *P, PN cl, PN self, PN start, PN end) {
   }
   if (end < start) {
     endoffset = potion_utf8char_offset(str,
-                  PN_INT(potion_str_slice_index(start+end, len, len)));
+                  PN_INT(potion_str_slice_index(PN_NUM(PN_INT(start) + PN_INT(end)), len, len)));
   } else {
     endoffset = potion_utf8char_offset(str,
                   PN_INT(potion_str_slice_index(end, len, len)));
diff --git a/lib/aio.c b/lib/aio.c
index 0dac4b6..1415460 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -196,6 +196,14 @@ static PN aio_error(Potion *P, char *name, int status) {
   (aio_stream_t*)PN_DATA(potion_fwd(ARG)); \
   CHECK_AIO_STREAM(ARG)
 
+// a PNBytes or PNString is one buffer
+#define AIO_CHECK_ONE(n) \
+  if ((n) != PN_NUM(1)) return potion_type_error_want(P, ""#n, (PN)(n), "1")
+#define AIO_CHECK_LENGTH(buf, n) \
+  PN_CHECK_INT(n); \
+  if (PN_INT(n) < 0 || PN_INT(n) > PN_STR_LEN(buf)) \
+    return potion_type_error_want(P, ""#n, (PN)(n), "length of buf")
+
 //cb wrappers
 #define DEF_AIO_CB(T)				       \
   aio_##T##_t* wrap = (aio_##T##_t*)req;	       \
@@ -503,7 +511,7 @@ static PN aio_fs_event_start(Potion *P, PN cl, PN self, PN cb, PN filename, PN f
   AIO_CB_SET(fs_event,handle);
   PN_CHECK_STR(filename);
   PN_CHECK_INT(flags);
-  int r = uv_fs_event_start(&handle->r, fs_event_cb, PN_STR_PTR(filename), PN_NUM(flags));
+  int r = uv_fs_event_start(&handle->r, fs_event_cb, PN_STR_PTR(filename), PN_INT(flags));
   return r ? aio_error(P, "fs_event start", r) : self;
 }
 ///\memberof Aio_fs_event
@@ -586,7 +594,7 @@ static PN aio_tty_new(Potion *P, PN cl, PN self, PN file, PN readable, PN loop)
 static PN aio_pipe_new(Potion *P, PN cl, PN self, PN ipc, PN loop) {
   DEF_AIO_NEW_LOOP(pipe);
   PN_CHECK_INT(ipc);
-  int r = uv_pipe_init(l, handle, PN_NUM(ipc));
+  int r = uv_pipe_init(l, handle, PN_INT(ipc));
   if (r) return aio_error(P, "Aio_pipe", r);
   return (PN)data;
 }
@@ -602,7 +610,7 @@ static PN aio_pipe_new(Potion *P, PN cl, PN self, PN ipc, PN loop) {
 static PN aio_barrier_new(Potion *P, PN cl, PN self, PN count) {
   DEF_AIO_NEW(barrier);
   PN_CHECK_INT(count);
-  if (uv_barrier_init(handle, PN_NUM(count)))
+  if (uv_barrier_init(handle, PN_INT(count)))
     return potion_io_error(P, "Aio_barrier");
   return (PN)data;
 }
@@ -612,7 +620,7 @@ static PN aio_barrier_new(Potion *P, PN cl, PN self, PN count) {
 static PN aio_sem_new(Potion *P, PN cl, PN self, PN value) {
   DEF_AIO_NEW(sem);
   PN_CHECK_INT(value);
-  if (uv_sem_init(handle, PN_NUM(value)))
+  if (uv_sem_init(handle, PN_INT(value)))
     return potion_io_error(P, "Aio_sem");
   return (PN)data;
 }
@@ -985,7 +993,7 @@ aio_udp_set_membership(Potion *P, PN cl, PN udp, PN mcaddr, PN ifaddr, PN member
   potion_obj_set(P, cl, udp, PN_STR("membership"),
 		 PN_PUSH(PN_PUSH(PN_PUSH(PN_TUP0(), mcaddr), ifaddr), membership));
   int r = uv_udp_set_membership(&handle->r, PN_STR_PTR(mcaddr), PN_STR_PTR(ifaddr),
-                                (uv_membership)PN_NUM(membership));
+                                (uv_membership)PN_INT(membership));
   return r ? aio_error(P, "udp set_membership", r) : udp;
 }
 ///\memberof Aio_udp
@@ -995,7 +1003,7 @@ aio_udp_set_multicast_loop(Potion *P, PN cl, PN udp, PN on) {
   PN_CHECK_INT(on);  //TODO boolean
   potion_obj_set(P, cl, udp, PN_STR("multicast_loop"),
 		 on == PN_ZERO ? PN_FALSE : PN_TRUE);
-  int r = uv_udp_set_multicast_loop(&handle->r, PN_NUM(on));
+  int r = uv_udp_set_multicast_loop(&handle->r, PN_INT(on));
   return r ? aio_error(P, "udp set_multicast_loop", r) : udp;
 }
 ///\memberof Aio_udp
@@ -1004,7 +1012,7 @@ aio_udp_set_multicast_ttl(Potion *P, PN cl, PN udp, PN ttl) {
   aio_udp_t *handle = AIO_DATA(udp,udp);
   PN_CHECK_INT(ttl);
   potion_obj_set(P, cl, udp, PN_STR("multicast_ttl"), ttl);
-  int r = uv_udp_set_multicast_ttl(&handle->r, PN_NUM(ttl));
+  int r = uv_udp_set_multicast_ttl(&handle->r, PN_INT(ttl));
   return r ? aio_error(P, "udp set_multicast_ttl", r) : udp;
 }
 ///\memberof Aio_udp
@@ -1014,7 +1022,7 @@ aio_udp_set_broadcast(Potion *P, PN cl, PN udp, PN on) {
   PN_CHECK_INT(on);  //TODO boolean
   potion_obj_set(P, cl, udp, PN_STR("broadcast"),
 		 on == PN_ZERO ? PN_FALSE : PN_TRUE);
-  int r = uv_udp_set_broadcast(&handle->r, PN_NUM(on));
+  int r = uv_udp_set_broadcast(&handle->r, PN_INT(on));
   return r ? aio_error(P, "udp set_broadcast", r) : udp;
 }
 ///\memberof Aio_udp
@@ -1023,7 +1031,7 @@ aio_udp_set_ttl(Potion *P, PN cl, PN udp, PN ttl) {
   aio_udp_t *handle = AIO_DATA(udp,udp);
   PN_CHECK_INT(ttl);
   potion_obj_set(P, cl, udp, PN_STR("ttl"), ttl);
-  int r = uv_udp_set_ttl(&handle->r, PN_NUM(ttl));
+  int r = uv_udp_set_ttl(&handle->r, PN_INT(ttl));
   return r ? aio_error(P, "udp set_ttl", r) : udp;
 }
 
@@ -1037,13 +1045,13 @@ aio_udp_send(Potion *P, PN cl, PN udp, PN req, PN buf, PN bufcnt, PN addr, PN po
   PN_CHECK_STRB(buf);
   bufs.base = PN_STR_PTR(buf);
   bufs.len = PN_STR_LEN(buf);
-  PN_CHECK_INT(bufcnt);
+  AIO_CHECK_ONE(bufcnt);
   PN_CHECK_STR(addr);
   PN_CHECK_INT(port);
   if (uv_ip4_addr(PN_STR_PTR(addr), PN_INT(port), &ip4))
     return aio_error(P, "ip_addr", 89); //EDESTADDRREQ
   AIO_CB_SET(udp_send,request);
-  int r = uv_udp_send(&request->r, &handle->r, &bufs, bufcnt, (const struct sockaddr*) &ip4, udp_send_cb);
+  int r = uv_udp_send(&request->r, &handle->r, &bufs, PN_INT(bufcnt), (const struct sockaddr*) &ip4, udp_send_cb);
   return r ? aio_error(P, "udp send", r) : udp;
 }
 ///\memberof Aio_udp
@@ -1057,20 +1065,20 @@ aio_udp_send6(Potion *P, PN cl, PN udp, PN req, PN buf, PN bufcnt, PN addr, PN p
   PN_CHECK_STRB(buf);
   bufs.base = PN_STR_PTR(buf);
   bufs.len = PN_STR_LEN(buf);
-  PN_CHECK_INT(bufcnt);
+  AIO_CHECK_ONE(bufcnt);
   PN_CHECK_STR(addr);
   PN_CHECK_INT(port);
   if (uv_ip6_addr(PN_STR_PTR(addr), PN_INT(port), &ip6))
     return aio_error(P, "ip6_addr", 89); //EDESTADDRREQ
   AIO_CB_SET(udp_send,request);
-  int r = uv_udp_send(&request->r, &handle->r, &bufs, bufcnt, (const struct sockaddr*) &ip6, udp_send_cb);
+  int r = uv_udp_send(&request->r, &handle->r, &bufs, PN_INT(bufcnt), (const struct sockaddr*) &ip6, udp_send_cb);
   return r ? aio_error(P, "udp send6", r) : udp;
 }
 
 static void
 aio_alloc_cb(uv_handle_t* handle, size_t suggested_size, uv_buf_t *buf) {
   aio_handle_t* wrap = (aio_handle_t*)handle;
-  struct PNBytes *b = potion_gc_alloc(wrap->P, PN_TBYTES, suggested_size);
+  struct PNBytes *b = (struct PNBytes *)potion_bytes(wrap->P, suggested_size);
   *buf = uv_buf_init(b->chars, suggested_size);
 }
 
@@ -1260,7 +1268,7 @@ aio_shutdown(Potion *P, PN cl, PN stream, PN req, PN cb) {
  */
 static PN
 aio_write(Potion *P, PN cl, PN stream, PN req, PN buf, PN bufcnt, PN cb) {
-  PN_CHECK_INT(bufcnt);
+  AIO_CHECK_ONE(bufcnt);
   aio_stream_t *stm = AIO_DATA(stream,stream);
   aio_write_t *request = AIO_DATA(write,req);
   aio_buf_t bufs;
@@ -1333,7 +1341,7 @@ aio_write2(Potion *P, PN cl, PN stream, PN req, PN buf, PN bufcnt, PN send_handl
   aio_write_t *request = AIO_DATA(write,req);
   aio_stream_t *handle = AIO_STREAM(send_handle);
   aio_buf_t bufs;
-  PN_CHECK_INT(bufcnt);
+  AIO_CHECK_ONE(bufcnt);
   PN_CHECK_STRB(buf);
   bufs.base = PN_STR_PTR(buf);
   bufs.len = PN_STR_LEN(buf);
@@ -1629,7 +1637,7 @@ static PN aio_fs_open(Potion *P, PN cl, PN self, PN path, PN flags, PN mode, PN
    \param offset Integer
    \param cb fs_cb
    \param loop optional */
-static PN aio_fs_read(Potion *P, PN cl, PN self, PN fd, PN buf, PN nbufs,
+static PN aio_fs_read(Potion *P, PN cl, PN self, PN fd, PN buf, PN length,
                       PN offset, PN cb, PN loop) {
   DEF_AIO_NEW_LOOP(fs);
   aio_fs_t* req = (aio_fs_t*)handle;
@@ -1637,12 +1645,12 @@ static PN aio_fs_read(Potion *P, PN cl, PN self, PN fd, PN buf, PN nbufs,
   PN_CHECK_INT(fd);
   PN_CHECK_STRB(buf);
   bufs.base = PN_STR_PTR(buf);
-  bufs.len = PN_STR_LEN(buf);
-  PN_CHECK_STR(nbufs);
+  AIO_CHECK_LENGTH(buf, length);
+  bufs.len = PN_INT(length);
   PN_CHECK_INT(offset);
   AIO_CB_SET(fs,req);
   int r = uv_fs_read(l, &req->r, (uv_file)PN_INT(fd),
-                     &bufs, PN_INT(nbufs), (int64_t)PN_INT(offset), fs_cb);
+                     &bufs, 1, (int64_t)PN_INT(offset), fs_cb);
   return r ? aio_error(P, "fs read", r) : self;
 }
 /**\memberof Aio_fs
@@ -1650,7 +1658,7 @@ static PN aio_fs_read(Potion *P, PN cl, PN self, PN fd, PN buf, PN nbufs,
    \param mode Integer
    \param cb fs_cb
    \param loop optional */
-static PN aio_fs_write(Potion *P, PN cl, PN self, PN fd, PN buf, PN nbufs,
+static PN aio_fs_write(Potion *P, PN cl, PN self, PN fd, PN buf, PN length,
                        PN offset, PN cb, PN loop) {
   DEF_AIO_NEW_LOOP(fs);
   aio_fs_t* req = (aio_fs_t*)handle;
@@ -1658,10 +1666,11 @@ static PN aio_fs_write(Potion *P, PN cl, PN self, PN fd, PN buf, PN nbufs,
   PN_CHECK_INT(fd);
   PN_CHECK_STRB(buf);
   bufs.base = PN_STR_PTR(buf);
-  bufs.len = PN_STR_LEN(buf);
+  AIO_CHECK_LENGTH(buf, length);
+  bufs.len = PN_INT(length);
   PN_CHECK_INT(offset);
   AIO_CB_SET(fs,req);
-  int r = uv_fs_write(l, &req->r, PN_INT(fd), &bufs, PN_INT(nbufs), PN_INT(offset), fs_cb);
+  int r = uv_fs_write(l, &req->r, PN_INT(fd), &bufs, 1, PN_INT(offset), fs_cb);
   return r ? aio_error(P, "fs write", r) : self;
 }
 /**\memberof Aio_fs
-- 
2.43.0


From 5ec380979636c927b4598b9a330326f2e82e84b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:56 +0000
Subject: [PATCH 60/63] fix: an integer written to a file is untagged

---
 core/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/file.c b/core/file.c
index 22fced5..8c69d34 100644
--- a/core/file.c
+++ b/core/file.c
@@ -128,7 +128,7 @@ PN potion_file_write(Potion *P, PN cl, pn_file self, PN obj) {
   if (!PN_IS_PTR(obj)) {
     if (!obj) return PN_NIL; //silent
     else if (PN_IS_INT(obj)) {
-      tmp.l = PN_NUM(obj); len = sizeof(tmp); ptr = (char *)&tmp.l;
+      tmp.l = PN_INT(obj); len = sizeof(tmp); ptr = (char *)&tmp.l;
     }
     else if (PN_IS_BOOL(obj)) {
       tmp.c = (obj == PN_TRUE) ? 1 : 0; len = 1; ptr = (char *)&tmp.c;
-- 
2.43.0


From 369a40587006c079f8031e4bc47c8514092e197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:51 +0000
Subject: [PATCH 61/63] fix: make room for all eight attributes of process
 options

The list of attribute names was made for five and eight were stored.
---
 lib/aio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/aio.c b/lib/aio.c
index 1415460..cbbc9a2 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -1943,7 +1943,7 @@ void Potion_Init_aio(Potion *P) {
   potion_method(P->lobby, "Aio_udp", aio_udp_new, "|loop=o");
 
 #ifndef SANDBOX
-  PN po_ivars = potion_tuple_with_size(P, 5); //sorted list of path names
+  PN po_ivars = potion_tuple_with_size(P, 8); //sorted list of path names
   t = PN_GET_TUPLE(po_ivars); i = 0;
   t->set[i++] = PN_STR("args");
   PN_TOUCH(t);
-- 
2.43.0


From 78c189183da8412e15ef958b6bfebe38acc4e256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:12 +0000
Subject: [PATCH 62/63] fix: aio getsockname/getpeername give the size of the
 address, and keep within it

---
 lib/aio.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/lib/aio.c b/lib/aio.c
index cbbc9a2..4e13414 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -13,6 +13,7 @@
  (c) 2013-2014 perl11.org */
 #include <stdio.h>
 #include <stdlib.h>
+#include <stddef.h>
 #include <uv.h>
 #ifdef P2
 # include "p2.h"
@@ -848,6 +849,13 @@ aio_tcp_simultaneous_accepts(Potion *P, PN cl, PN tcp, PN enable) {
   int r = uv_tcp_simultaneous_accepts(&handle->r, enable == PN_TRUE ? PN_INT(1) : PN_INT(0));
   return r ? aio_error(P, "tcp simultaneous_accepts", r) : tcp;
 }
+// the address in a socket name, without its family
+static PN aio_sockname(Potion *P, struct sockaddr_storage *sock, int len) {
+  const int start = offsetof(struct sockaddr, sa_data);
+  if (len > (int)sizeof(*sock)) len = sizeof(*sock);
+  return potion_str2(P, (char *)sock + start, len > start ? len - start : 0);
+}
+
 ///\memberof Aio_tcp
 static PN
 aio_tcp_bind(Potion *P, PN cl, PN tcp, PN addr, PN port) {
@@ -883,18 +891,18 @@ aio_tcp_bind6(Potion *P, PN cl, PN tcp, PN addr, PN port) {
 ///\memberof Aio_tcp
 static PN
 aio_tcp_getsockname(Potion *P, PN cl, PN tcp) {
-  struct sockaddr sock; int len;
+  struct sockaddr_storage sock; int len = sizeof(sock);
   aio_tcp_t *handle = AIO_DATA(tcp,tcp);
-  int r = uv_tcp_getsockname(&handle->r, &sock, &len);
-  return r ? aio_error(P, "tcp getsockname", r) : potion_str2(P, sock.sa_data, len);
+  int r = uv_tcp_getsockname(&handle->r, (struct sockaddr *)&sock, &len);
+  return r ? aio_error(P, "tcp getsockname", r) : aio_sockname(P, &sock, len);
 }
 ///\memberof Aio_tcp
 static PN
 aio_tcp_getpeername(Potion *P, PN cl, PN tcp) {
-  struct sockaddr sock; int len;
+  struct sockaddr_storage sock; int len = sizeof(sock);
   aio_tcp_t *handle = AIO_DATA(tcp,tcp);
-  int r = uv_tcp_getpeername(&handle->r, &sock, &len);
-  return r ? aio_error(P, "tcp getpeername", r) : potion_str2(P, sock.sa_data, len);
+  int r = uv_tcp_getpeername(&handle->r, (struct sockaddr *)&sock, &len);
+  return r ? aio_error(P, "tcp getpeername", r) : aio_sockname(P, &sock, len);
 }
 ///\memberof Aio_tcp
 static PN
@@ -978,10 +986,10 @@ aio_udp_bind6(Potion *P, PN cl, PN udp, PN addr, PN port, PN flags) {
 ///\memberof Aio_udp
 static PN
 aio_udp_getsockname(Potion *P, PN cl, PN udp) {
-  struct sockaddr sock; int len;
+  struct sockaddr_storage sock; int len = sizeof(sock);
   aio_udp_t *handle = AIO_DATA(udp,udp);
-  int r = uv_udp_getsockname(&handle->r, &sock, &len);
-  return r ? aio_error(P, "udp getsockname", r) : potion_str2(P, sock.sa_data, len);
+  int r = uv_udp_getsockname(&handle->r, (struct sockaddr *)&sock, &len);
+  return r ? aio_error(P, "udp getsockname", r) : aio_sockname(P, &sock, len);
 }
 ///\memberof Aio_udp
 static PN
-- 
2.43.0


From e95f944607354ccbd16a1287c26025a537fce8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:48 +0000
Subject: [PATCH 63/63] fix: cmp of booleans, lists and nil answers integers,
 not plain C numbers

---
 core/primitive.c |  6 +++---
 core/table.c     | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/core/primitive.c b/core/primitive.c
index ca4db7f..3979b31 100644
--- a/core/primitive.c
+++ b/core/primitive.c
@@ -35,7 +35,7 @@ PN potion_any_cmp(Potion *P, PN cl, PN self, PN value) {
 static PN potion_nil_cmp(Potion *P, PN cl, PN self, PN value) {
   switch (potion_type(value)) {
   case PN_TNIL:
-    return 0;
+    return PN_ZERO;
   case PN_TNUMBER:
     return potion_send(PN_ZERO, PN_cmp, value);
   case PN_TBOOLEAN:
@@ -51,13 +51,13 @@ static PN potion_nil_cmp(Potion *P, PN cl, PN self, PN value) {
 static PN potion_bool_cmp(Potion *P, PN cl, PN self, PN value) {
   switch (potion_type(value)) {
   case PN_TBOOLEAN:
-    return self < value ? -1 : self == value ? 0 : 1;
+    return PN_NUM(self < value ? -1 : self == value ? 0 : 1);
   case PN_TNUMBER:
     return potion_send(PN_NUM(PN_TEST(self)), PN_cmp, value);
   case PN_TNIL:
   case PN_TSTRING: // false < ".." < true
   default:
-    return value == PN_FALSE ? -1 : 1; //false < any < true
+    return PN_NUM(value == PN_FALSE ? -1 : 1); //false < any < true
   }
 }
 
diff --git a/core/table.c b/core/table.c
index 8d94c66..6cb4e42 100644
--- a/core/table.c
+++ b/core/table.c
@@ -907,9 +907,9 @@ PN potion_tuple_cmp(Potion *P, PN cl, PN self, PN value) {
   DBG_CHECK_TYPE(self,PN_TTUPLE);
   switch (potion_type(value)) {
   case PN_TBOOLEAN: // false < () < true
-    return value == PN_FALSE ? -1 : 1;
+    return PN_NUM(value == PN_FALSE ? -1 : 1);
   case PN_TNIL:
-    return -1; //nil < () < (...)
+    return PN_NUM(-1); //nil < () < (...)
   case PN_TTUPLE: // recurse
     if(PN_TUPLE_LEN(self) && PN_TUPLE_LEN(value)) {
       PN cmp;
@@ -928,13 +928,13 @@ PN potion_tuple_cmp(Potion *P, PN cl, PN self, PN value) {
       }
     }
     else {
-      if (PN_TUPLE_LEN(value)) return -1;
-      else if (PN_TUPLE_LEN(self)) return 1;
-      else return 0;
+      if (PN_TUPLE_LEN(value)) return PN_NUM(-1);
+      else if (PN_TUPLE_LEN(self)) return PN_NUM(1);
+      else return PN_ZERO;
     }
   default:
     potion_fatal("Invalid tuple cmp type");
-    return 0;
+    return PN_ZERO;
   }
 }
 
-- 
2.43.0

