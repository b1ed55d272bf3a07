From 10c17736ac06ebce869970db699c92709b8f4248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 01/38] sim: let a simulator choose the collection points
 (BIC_SIM, off by default)

---
 src/gc.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index 3498258..77ae745 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -153,6 +153,12 @@ static void collect(void)
     sweep();
 }
 
+#ifdef BIC_SIM
+/* Simulation seam: the simulator decides at each allocation whether a
+ * collection happens (1), doesn't happen (0) or is left to the counter (-1). */
+extern int bic_sim_gc_point(void);
+#endif
+
 static void maybe_collect()
 {
     static int collect_counter = 0;
@@ -160,6 +166,16 @@ static void maybe_collect()
     if (gc_inhibited)
         return;
 
+#ifdef BIC_SIM
+    int decision = bic_sim_gc_point();
+
+    if (decision > 0)
+        collect();
+
+    if (decision >= 0)
+        return;
+#endif
+
     if (collect_counter++ > COLLECT_TREE_ALLOC) {
         collect();
         collect_counter = 0;
-- 
2.43.0


From 2b6e5dcbeb8d92387e34ade4499fcc1ef39ac31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 02/38] fix: evaluate a return expression each time the
 statement is reached

eval_return() replaced the expression in the AST with its value, so every
later call of the function returned the value of the first one.
---
 src/evaluate.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0860e82..0edbc62 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2068,9 +2068,13 @@ static tree eval_if(tree t, int depth)
 
 static tree eval_return(tree t, int depth)
 {
-    tRET_EXP(t) = __evaluate_1(tRET_EXP(t), depth + 1);
+    /* Don't store the result in the AST: this statement is evaluated again the
+     * next time that the function is called. */
+    tree ret = tree_make(T_RETURN);
 
-    return t;
+    tRET_EXP(ret) = __evaluate_1(tRET_EXP(t), depth + 1);
+
+    return ret;
 }
 
 /* Build a simplified decl chain, ensuring all decls with multiple
-- 
2.43.0


From 88685706678cf90ff3bf2ced1f1cd8a0bc85bb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:40 +0000
Subject: [PATCH 03/38] fix: keep the declarator of an initialised declaration
 intact

handle_declarator() overwrote the declarator in the AST with the bare
identifier, so a pointer declared with an initialiser lost its pointer type
the second time the declaration was evaluated.
---
 src/evaluate.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0edbc62..6775f68 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -809,10 +809,15 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         tree ret = handle_declarator(tASSIGN_LHS(decl), decl_type, depth);
 
         /* handle_declarator will have stripped off any pointers from the decl name.
-         * Therefore ret now becomes the LHS of the assignment. */
-        tASSIGN_LHS(decl) = ret;
+         * Therefore ret now becomes the LHS of the assignment. Assign through a
+         * copy, the declaration itself could be evaluated again. */
+        tree assign = tree_make(T_ASSIGN);
 
-        __evaluate_1(decl, depth + 1);
+        tLOCUS(assign) = tLOCUS(decl);
+        tASSIGN_LHS(assign) = ret;
+        tASSIGN_RHS(assign) = tASSIGN_RHS(decl);
+
+        __evaluate_1(assign, depth + 1);
         return ret;
     }
     default:
-- 
2.43.0


From 9f1229eed9f2291e70e2585a84ed9c326b4a5a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 04/38] fix: evaluate the arguments of a call before declaring
 its parameters

Arguments were evaluated one by one in the new context, between the
declarations of the parameters, so in gcd(b, a % b) the second argument used
the value that the parameter a had just been given.
---
 src/evaluate.c | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 6775f68..a49b886 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -422,9 +422,15 @@ static tree eval_fn_call(tree t, int depth)
     if (is_T_FN(function)) {
         if (tFN_STMTS(function)) {
             tree arg_decls = tFN_ARGS(function),
-                arg_vals = tFNCALL_ARGS(t),
+                arg_vals,
                 arg_decl, arg_val, return_val, fn_ctx;
 
+            /* Evaluate all arguments in the context of the caller. Otherwise,
+             * an identifier in an argument could resolve to one of the
+             * parameters that has just been declared, rather than to the
+             * caller's variable of the same name. */
+            arg_vals = eval_fn_args(tFNCALL_ARGS(t), depth);
+
             push_ctx(tID_STR(tFN_DECL(function)));
             tECTX_IS_FN_CALL(cur_ctx) = true;
 
@@ -449,40 +455,17 @@ static tree eval_fn_call(tree t, int depth)
                 arg_val = arg_vals;
 
                 for_each_tree(arg_decl, arg_decls) {
-                    tree eval_arg_val,
-                        decl_identifier,
+                    tree decl_identifier,
                         assign;
 
                     arg_val = list_entry(arg_val->chain.next,
                                          typeof(*arg_val), chain);
 
-                    /* We need to evaluate the argument value before
-                     * adding the declaration on to the new context.  This
-                     * prevents bugs with things such as:
-                     *
-                     * 0: int foo(int a)
-                     * 1: {
-                     * 2:      use(a);
-                     * 3: }
-                     * 4:
-                     * 5: int main()
-                     * 6: {
-                     * 7:     int a = 10;
-                     * 8:     foo(a);
-                     * 9: }
-                     *
-                     * Notice that if we evaluated 'int a' on line 0
-                     * first, then we evaluate the assignment 'a = a' the
-                     * lhs would evaluate to the newly declared 'a' value.
-                     * Therefore, if we evaluate 'a' on line 8 before the
-                     * declaration on line 0, we obtain the correct lvalue
-                     * for assignment. */
-                    eval_arg_val = __evaluate_1(arg_val, depth + 1);
                     decl_identifier = __evaluate_1(arg_decl, depth + 1);
 
                     assign = tree_make(T_ASSIGN);
                     tASSIGN_LHS(assign) = decl_identifier;
-                    tASSIGN_RHS(assign) = eval_arg_val;
+                    tASSIGN_RHS(assign) = tFNARG_EXP(arg_val);
                     __evaluate_1(assign, depth + 1);
                 }
             }
-- 
2.43.0


From 13039c6ab8c4562fc53304591abaf3ea1620b1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 05/38] fix: resolve the identifiers of a function in its
 lexical scope

Identifiers were looked up in the blocks of the callers first, so a local
variable of a caller hid the global variable that the called function uses.
---
 src/evaluate.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index a49b886..1d3ad0a 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -28,6 +28,10 @@ GC_STATIC_TREE(cur_ctx);
 static tree include_ctx = NULL;
 GC_STATIC_TREE(include_ctx);
 
+/* The context that holds all file scope declarations. */
+static tree toplevel_ctx = NULL;
+GC_STATIC_TREE(toplevel_ctx);
+
 /* This is a chain of CPP_INCLUDE tree objects that is used to keep
  * track of all #include directives seen.  See `eval_cpp_include' for
  * more info. */
@@ -165,15 +169,22 @@ static tree __resolve_identifier(tree id,
     if (scope == SCOPE_CURRENT_CTX)
         return resolve_id(id, search_ctx, map_type);
 
+    tree caller_ctx = NULL;
+
     /* Search through the identifier mappings of the current context
-     * stack to find the appropriate object. */
+     * stack to find the appropriate object.  The blocks of a function are
+     * enclosed by the file scope, not by the blocks of its caller. */
     while (search_ctx) {
         tree search_result = resolve_id(id, search_ctx, map_type);
 
         if (search_result)
             return search_result;
 
-        search_ctx = tECTX_PARENT_CTX(search_ctx);
+        if (tECTX_IS_FN_CALL(search_ctx) && !caller_ctx) {
+            caller_ctx = tECTX_PARENT_CTX(search_ctx);
+            search_ctx = toplevel_ctx;
+        } else
+            search_ctx = tECTX_PARENT_CTX(search_ctx);
     }
 
     /* Also search the include_ctx if it exists. */
@@ -184,6 +195,18 @@ static tree __resolve_identifier(tree id,
             return result;
     }
 
+    /* A function that was declared within another context (e.g. by the startup
+     * file of a nested REPL) finds the objects that are declared along with it
+     * in the contexts of its callers. */
+    while (caller_ctx) {
+        tree result = resolve_id(id, caller_ctx, map_type);
+
+        if (result)
+            return result;
+
+        caller_ctx = tECTX_PARENT_CTX(caller_ctx);
+    }
+
     return NULL;
 }
 
@@ -2822,5 +2845,6 @@ void eval_init(void)
     push_ctx("Bultins");
     eval_init_builtins();
     push_ctx("Toplevel");
+    toplevel_ctx = cur_ctx;
     include_chain = tree_make(CHAIN_HEAD);
 }
-- 
2.43.0


From 2510786a802d2ff718abfe2370f08d9fb2261e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 06/38] fix: let the value of a function call outlive the call

The storage of a returned value is tracked by the context of the called
function, which is garbage as soon as the function has returned: a collection
in the rest of the expression freed the value while it was still in use.
---
 src/evaluate.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1d3ad0a..02f9bfb 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -414,6 +414,31 @@ static tree eval_fn_args(tree args, int depth)
     return ret;
 }
 
+static tree alloc_struct(tree struct_decl, int depth);
+static int get_ctype_size(tree t);
+
+/* The objects of a called function only live as long as its context. Make a
+ * copy of a value that is returned from the function which belongs to the
+ * current context, i.e. the context of the caller. */
+static tree copy_return_value(tree value, int depth)
+{
+    tree ret = value;
+
+    if (is_T_LIVE_VAR(value) && is_CTYPE(tLV_TYPE(value))) {
+        ret = make_live_var(tLV_TYPE(value));
+        memcpy(tLV_VAL(ret), tLV_VAL(value), get_ctype_size(tLV_TYPE(value)));
+    }
+
+    if (is_T_LIVE_COMPOUND(value)) {
+        tree decl = tLV_COMP_DECL(value);
+
+        ret = alloc_struct(decl, depth);
+        memcpy(tLV_COMP_BASE(ret), tLV_COMP_BASE(value), tCOMP_DECL_SZ(decl));
+    }
+
+    return ret;
+}
+
 static tree eval_fn_call(tree t, int depth)
 {
     /* There are five possibilities here:
@@ -512,6 +537,13 @@ static tree eval_fn_call(tree t, int depth)
 
             pop_ctx();
 
+            /* Nothing but `return_val' might refer to the popped context from
+             * now on. Ensure that the storage of the value isn't collected
+             * before we have copied it. */
+            inhibit_gc();
+            return_val = copy_return_value(return_val, depth);
+            enable_gc();
+
             return return_val;
         } else {
             tree fn_arg_chain = NULL, args = tFNCALL_ARGS(t);
-- 
2.43.0


From 3ac5ce80e3facae46adfc748c252edaabbd99693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 07/38] fix: give string literals static storage duration

A string that was assigned to a pointer was freed along with the context of
the assignment, and one that was passed to a native function along with its
tree, although the program can hold a pointer to it for as long as it likes.
---
 src/evaluate.c | 3 ++-
 src/gc.c       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 02f9bfb..48dd654 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1253,7 +1253,8 @@ static void assign_ptr(tree var, tree right)
     switch (TYPE(right))
     {
     case T_STRING:
-        ptr = track_alloc(strdup(tSTRING_VAL(right)));
+        /* A string literal isn't local to the current context. */
+        ptr = tSTRING_VAL(right);
         break;
     case T_LIVE_VAR:
         ptr = (void *)tLV_VAL(right)->D_T_PTR;
diff --git a/src/gc.c b/src/gc.c
index 77ae745..a8aa97a 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -96,7 +96,8 @@ static void dealloc_object(gc_obj obj)
         free(tID_STR(t));
         break;
     case T_STRING:
-        free(tSTRING_VAL(t));
+        /* String literals have static storage duration: there might be a
+         * pointer to one, even once nothing refers to its tree. */
         break;
     case E_ALLOC:
         free(tALLOC_PTR(t));
-- 
2.43.0


From eeab66ea4e94211b5956a00451e7c52166b440e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 08/38] fix: keep function pointers callable and return their
 results

The closure of a function pointer was only reachable while its address was
being taken, so the next collection freed the code that the pointer refers to.
What the function returned was dropped as well: the native caller (e.g. qsort)
read whatever happened to be in the return slot.
---
 src/c.lang          |  3 ++-
 src/function-call.c | 62 +++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 59 insertions(+), 6 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 82aebba..6d071bd 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -191,7 +191,8 @@
          ("ARG_TYPES" "RET_TYPE" "FN"
           ("CIF" ffi_cif)
           ("TYPES" ffi_types)
-          ("CLOSURE" ffi_closure)))
+          ("CLOSURE" ffi_closure)
+          ("ENTRY" ptr)))
 
 (deftype T_FN_ARG "Function Argument" "tFNARG"
          ("EXP"))
diff --git a/src/function-call.c b/src/function-call.c
index 5e9df69..4396022 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -12,6 +12,11 @@
 
 #define ARG_STACK_SZ 32
 
+/* All closures that have been created. Native code can hold on to the address
+ * of a function for as long as it likes, so they are never collected. */
+static tree closures;
+GC_STATIC_TREE(closures);
+
 static void push_arg(ffi_type **type_stack,
                      void **val_stack,
                      int *n,
@@ -123,13 +128,45 @@ void do_ext_call(void *function_address, tree args, tree ret_lv,
     enable_gc();
 }
 
+/* Convert the result of an evaluated function to the type that it returns and
+ * place it where libffi expects the return value to be. */
+static void store_closure_result(tree closure, void *ret, tree result)
+{
+    tree ret_lv = make_live_var(tCLOSURE_RET_TYPE(closure)),
+        assign = tree_make(T_ASSIGN);
+
+    tASSIGN_LHS(assign) = ret_lv;
+    tASSIGN_RHS(assign) = result;
+    evaluate_expr(assign);
+
+    switch (TYPE(tLV_TYPE(ret_lv))) {
+        /* Integers that are smaller than a register have to be widened. */
+#define WIDEN(TNAME, FFI_ARG)                                            \
+    case TNAME:                                                         \
+        *(FFI_ARG *)ret = (FFI_ARG)tLV_VAL(ret_lv)->TNAME;              \
+        break;
+    WIDEN(D_T_CHAR, ffi_sarg);
+    WIDEN(D_T_SHORT, ffi_sarg);
+    WIDEN(D_T_INT, ffi_sarg);
+    WIDEN(D_T_UCHAR, ffi_arg);
+    WIDEN(D_T_USHORT, ffi_arg);
+    WIDEN(D_T_UINT, ffi_arg);
+#undef WIDEN
+    default:
+        memcpy(ret, tLV_VAL(ret_lv),
+               get_ffi_type(TYPE(tLV_TYPE(ret_lv)))->size);
+        break;
+    }
+}
+
 static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
 {
     tree closure = (tree)user;
     tree arg,
         args = tCLOSURE_ARG_TYPES(closure),
         arg_chain = tree_make(CHAIN_HEAD),
-        fn_call = tree_make(T_FN_CALL);
+        fn_call = tree_make(T_FN_CALL),
+        result;
     int n = 0;
 
     for_each_tree(arg, args) {
@@ -154,7 +191,10 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
     tFNCALL_ID(fn_call) = tCLOSURE_FN(closure);
     tFNCALL_ARGS(fn_call) = arg_chain;
 
-    evaluate(fn_call, "<PTRCALL>");
+    result = evaluate_expr(fn_call);
+
+    if (result && !is_D_T_VOID(tCLOSURE_RET_TYPE(closure)))
+        store_closure_result(closure, ret, result);
 }
 
 void *get_entry_point_for_fn(tree fndef)
@@ -162,9 +202,18 @@ void *get_entry_point_for_fn(tree fndef)
     void *ret;
     tree arg, args = tFN_ARGS(fndef),
         ret_type = tFN_RET_TYPE(fndef);
-    tree arg_chain = tree_make(CHAIN_HEAD),
-        closure = tree_make(T_CLOSURE);
+    tree arg_chain, closure;
     ffi_type *ffi_ret_type = &ffi_type_void;
+
+    if (!closures)
+        closures = tree_make(CHAIN_HEAD);
+
+    for_each_tree(closure, closures)
+        if (tCLOSURE_FN(closure) == fndef)
+            return tCLOSURE_ENTRY(closure);
+
+    arg_chain = tree_make(CHAIN_HEAD);
+    closure = tree_make(T_CLOSURE);
     tCLOSURE_CIF(closure) = malloc(sizeof(*tCLOSURE_CIF(closure)));
     tCLOSURE_TYPES(closure) = calloc(sizeof(*tCLOSURE_TYPES(closure)), ARG_STACK_SZ);
 
@@ -200,7 +249,8 @@ void *get_entry_point_for_fn(tree fndef)
     tCLOSURE_ARG_TYPES(closure) = arg_chain;
     tCLOSURE_RET_TYPE(closure) = ret_type;
 
-    tCLOSURE_CLOSURE(closure) = ffi_closure_alloc(sizeof(*closure), &ret);
+    tCLOSURE_CLOSURE(closure) = ffi_closure_alloc(sizeof(ffi_closure), &ret);
+    tCLOSURE_ENTRY(closure) = ret;
 
     ffi_prep_cif(tCLOSURE_CIF(closure), FFI_DEFAULT_ABI, n, ffi_ret_type,
                  tCLOSURE_TYPES(closure));
@@ -211,5 +261,7 @@ void *get_entry_point_for_fn(tree fndef)
                          (void *)closure,
                          ret);
 
+    tree_chain(closure, closures);
+
     return ret;
 }
-- 
2.43.0


From 932e80eb092a657e0d5b66ba59e4b288d4b83256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 09/38] fix: read the right operand of an assignment with its
 own type

Assigning a variable read a whole long or double from it, whatever its type.
The value then depended on the memory next to the variable, and negative
values and conversions to or from a floating point type were wrong.
---
 src/evaluate.c | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 48dd654..dcd24e3 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1196,7 +1196,16 @@ static void assign_integer(tree var, tree right)
          val = mpz_get_si(tINT_VAL(right));
          break;
     case T_LIVE_VAR:
-        val = tLV_VAL(right)->D_T_LONG;
+        switch (TYPE(tLV_TYPE(right))) {
+#define DEFCTYPE(TNAME, DESC, CTYPE, FMT, FFMEM)                \
+        case TNAME:                                             \
+            val = (signed long int)tLV_VAL(right)->TNAME;       \
+            break;
+#include "ctypes.def"
+#undef DEFCTYPE
+        default:
+            eval_die(right, "unknown rvalue assignment to integer.\n");
+        }
         break;
     default:
         eval_die(right, "unknown rvalue assignment to integer.\n");
@@ -1228,7 +1237,28 @@ static void assign_float(tree var, tree right)
         val = (double)mpf_get_d(tFLOAT_VAL(right));
         break;
     case T_LIVE_VAR:
-        val = tLV_VAL(right)->D_T_DOUBLE;
+        switch (TYPE(tLV_TYPE(right))) {
+#define TO_DOUBLE(TNAME)                        \
+        case TNAME:                             \
+            val = (double)tLV_VAL(right)->TNAME;\
+            break;
+        TO_DOUBLE(D_T_CHAR);
+        TO_DOUBLE(D_T_SHORT);
+        TO_DOUBLE(D_T_INT);
+        TO_DOUBLE(D_T_LONG);
+        TO_DOUBLE(D_T_LONGLONG);
+        TO_DOUBLE(D_T_UCHAR);
+        TO_DOUBLE(D_T_USHORT);
+        TO_DOUBLE(D_T_UINT);
+        TO_DOUBLE(D_T_ULONG);
+        TO_DOUBLE(D_T_ULONGLONG);
+        TO_DOUBLE(D_T_FLOAT);
+        TO_DOUBLE(D_T_DOUBLE);
+        TO_DOUBLE(D_T_LONGDOUBLE);
+#undef TO_DOUBLE
+        default:
+            eval_die(right, "unknown rvalue assignment to float.\n");
+        }
         break;
     default:
         eval_die(right, "unknown rvalue assignment to float.\n");
-- 
2.43.0


From 600ace4e808dd2dbbccf754ddcc827bebc413b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 10/38] fix: keep the collector within its allocation array

fixup_alloc_array() looked at the entry behind the last one, which is outside
of the array when it is full and is uninitialised after the array has grown,
and extend_allocs() only cleared an eighth of what it had added.
---
 src/gc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index a8aa97a..b9e8967 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -135,10 +135,8 @@ static void fixup_alloc_array()
 
     /* Run the alloc pointer backward to see when the first allocation
      * is. */
-    while (alloc_ptr > 0 && !allocs[alloc_ptr])
+    while (alloc_ptr > 0 && !allocs[alloc_ptr - 1])
         alloc_ptr--;
-
-    alloc_ptr++;
 }
 
 static void collect(void)
@@ -189,7 +187,8 @@ static void extend_allocs()
     alloc_array_sz *= 2;
 
     allocs = realloc(allocs, sizeof(*allocs) * alloc_array_sz);
-    memset(&allocs[old_alloc_array_sz], 0, old_alloc_array_sz);
+    memset(&allocs[old_alloc_array_sz], 0,
+           sizeof(*allocs) * (alloc_array_sz - old_alloc_array_sz));
 }
 
 static void track_new_alloc(gc_obj obj)
-- 
2.43.0


From 3289e924693755ab71992acd0d3a3872106b9e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 11/38] fix: make break and return leave exactly the enclosing
 loop or function

A break within an if was ignored, one in a loop left the context of the loop
behind (where it was mistaken for one in the outer loop), a break or return
that is the only statement of an if or loop was dropped, and a variable
declared by a for loop stayed declared behind it.
---
 src/c.lang     |  1 -
 src/evaluate.c | 95 +++++++++++++++++++++++++++++---------------------
 2 files changed, 56 insertions(+), 40 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 6d071bd..eedf578 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -233,7 +233,6 @@
 (deftype E_CTX "Evaluator Context" "tECTX"
          ("ID_MAP" "STRUCT_ID_MAP" "UNION_ID_MAP" "PARENT_CTX" "ALLOC_CHAIN" "NAME" "RETVAL"
           ("JMP_BUF" jmp_buf)
-          ("SHOULD_BREAK" flag)
           ("IS_FN_CALL" flag)
           ("IS_STATIC" flag)))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index dcd24e3..2f64193 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -46,7 +46,7 @@ const tree get_include_chain(void)
 static const char *current_filename;
 
 static tree __evaluate_1(tree t, int depth);
-static void __evaluate(tree t, int depth);
+static tree __evaluate(tree t, int depth);
 
 enum identifier_search_scope
 {
@@ -1769,8 +1769,6 @@ static tree eval_gteq(tree t, int depth)
 
 static tree eval_break(tree t, int depth)
 {
-    tECTX_SHOULD_BREAK(cur_ctx) = true;
-
     return t;
 }
 
@@ -2052,9 +2050,14 @@ static tree eval_cast(tree t, int depth)
 
 static tree eval_loop_for(tree t, int depth)
 {
+    /* The scope of a variable that is declared by the initialiser is the
+     * loop. */
+    push_ctx("For Loop");
+
     __evaluate_1(tFLOOP_INIT(t), depth + 1);
 
     do {
+        tree stmt;
 
         tree cond_result = __evaluate_1(tFLOOP_COND(t),
                                         depth + 1);
@@ -2068,23 +2071,25 @@ static tree eval_loop_for(tree t, int depth)
             break;
 
         push_ctx("For Loop");
-        __evaluate(tFLOOP_STMTS(t), depth + 1);
-
-        if (tECTX_SHOULD_BREAK(cur_ctx))
-            return NULL;
-
+        stmt = __evaluate(tFLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
+        if (is_T_BREAK(stmt))
+            break;
+
         __evaluate_1(tFLOOP_AFTER(t), depth + 1);
 
     } while (1);
 
+    pop_ctx();
+
     return NULL;
 }
 
 static tree eval_loop_while(tree t, int depth)
 {
     do {
+        tree stmt;
 
         tree cond_result = __evaluate_1(tWLOOP_COND(t),
                                         depth + 1);
@@ -2098,13 +2103,12 @@ static tree eval_loop_while(tree t, int depth)
             break;
 
         push_ctx("While Loop");
-        __evaluate(tWLOOP_STMTS(t), depth + 1);
-
-        if (tECTX_SHOULD_BREAK(cur_ctx))
-            return NULL;
-
+        stmt = __evaluate(tWLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
+        if (is_T_BREAK(stmt))
+            break;
+
     } while (1);
 
     return NULL;
@@ -2125,6 +2129,7 @@ static tree eval_infix(tree t, int depth)
 
 static tree eval_if(tree t, int depth)
 {
+    tree stmt;
     tree cond_result = convert_to_comparable_type(tIF_COND(t), depth);
 
     if (!is_T_INTEGER(cond_result))
@@ -2132,12 +2137,13 @@ static tree eval_if(tree t, int depth)
 
     push_ctx("If statement");
     if (mpz_get_si(tINT_VAL(cond_result)))
-        __evaluate(tIF_TRUE_STMTS(t), depth + 1);
+        stmt = __evaluate(tIF_TRUE_STMTS(t), depth + 1);
     else
-        __evaluate(tIF_ELSE_STMTS(t), depth + 1);
+        stmt = __evaluate(tIF_ELSE_STMTS(t), depth + 1);
     pop_ctx();
 
-    return NULL;
+    /* Let a break reach the loop that encloses us. */
+    return stmt;
 }
 
 static tree eval_return(tree t, int depth)
@@ -2790,39 +2796,50 @@ static tree __evaluate_1(tree t, int depth)
     return result;
 }
 
-static void __evaluate(tree head, int depth)
+static tree evaluate_stmt(tree stmt, int depth)
 {
-    tree i;
+    tree result = __evaluate_1(stmt, depth);
 
-    if (!head)
-        return;
+    if (is_T_RETURN(result)) {
+        tree fn_ctx = cur_ctx;
 
-    if (!is_CHAIN_HEAD(head))
-        __evaluate_1(head, depth);
+        while (fn_ctx && !tECTX_IS_FN_CALL(fn_ctx))
+            fn_ctx = tECTX_PARENT_CTX(fn_ctx);
 
-    for_each_tree(i, head) {
-        tree result = __evaluate_1(i, depth);
+        /* If we reach the top of the evaluation stack, we have been
+         * executing a cscript and the top-level of it has called return. In
+         * that case, just return the result.
+         */
+        if (!fn_ctx)
+            cscript_exit(tRET_EXP(result));
 
-        if (is_T_RETURN(result)) {
-            tree fn_ctx = cur_ctx;
+        tECTX_RETVAL(fn_ctx) = tRET_EXP(result);
+        longjmp(tECTX_JMP_BUF(fn_ctx), 1);
+    }
 
-            while (fn_ctx && !tECTX_IS_FN_CALL(fn_ctx))
-                fn_ctx = tECTX_PARENT_CTX(fn_ctx);
+    return is_T_BREAK(result) ? result : NULL;
+}
 
-            /* If we reach the top of the evaluation stack, we have been
-             * executing a cscript and the top-level of it has called return. In
-             * that case, just return the result.
-             */
-            if (!fn_ctx)
-                cscript_exit(tRET_EXP(result));
+/* Evaluate a statement or a chain of statements.  Returns the break statement
+ * that ended the evaluation, if any. */
+static tree __evaluate(tree head, int depth)
+{
+    tree i;
 
-            tECTX_RETVAL(fn_ctx) = tRET_EXP(result);
-            longjmp(tECTX_JMP_BUF(fn_ctx), 1);
-        }
+    if (!head)
+        return NULL;
 
-        if (is_T_BREAK(result))
-            return;
+    if (!is_CHAIN_HEAD(head))
+        return evaluate_stmt(head, depth);
+
+    for_each_tree(i, head) {
+        tree result = evaluate_stmt(i, depth);
+
+        if (result)
+            return result;
     }
+
+    return NULL;
 }
 
 int get_c_main_return_value(tree t)
-- 
2.43.0


From 705c864a821178776be409146291e6caf4f87109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 12/38] fix: execute a block that is an item of another block

The chain of such a block was linked into the chain around it as if it was a
statement, which lost the statements of the block.
---
 src/c.lang     |  3 +++
 src/evaluate.c | 12 ++++++++++++
 src/parser.m4  | 22 ++++++++++++++++++++++
 3 files changed, 37 insertions(+)

diff --git a/src/c.lang b/src/c.lang
index eedf578..767bc31 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -200,6 +200,9 @@
 (deftype T_INFIX "Infix Operator" "tINFIX"
          ("COND" "TRUE_STMT" "FALSE_STMT"))
 
+(deftype T_BLOCK "Block" "tBLOCK"
+         ("STMTS"))
+
 (deftype T_LOOP_FOR "For loop" "tFLOOP"
          ("INIT" "COND" "AFTER" "STMTS"))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index 2f64193..6ae9a6a 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2114,6 +2114,17 @@ static tree eval_loop_while(tree t, int depth)
     return NULL;
 }
 
+static tree eval_block(tree t, int depth)
+{
+    tree stmt;
+
+    push_ctx("Block");
+    stmt = __evaluate(tBLOCK_STMTS(t), depth + 1);
+    pop_ctx();
+
+    return stmt;
+}
+
 static tree eval_infix(tree t, int depth)
 {
     tree cond_result = convert_to_comparable_type(tINFIX_COND(t), depth);
@@ -2766,6 +2777,7 @@ static tree __evaluate_1(tree t, int depth)
     case T_STATIC:     result = eval_self(t, depth + 1);       break;
     case T_LOOP_FOR:   result = eval_loop_for(t, depth + 1);   break;
     case T_LOOP_WHILE: result = eval_loop_while(t, depth + 1); break;
+    case T_BLOCK:      result = eval_block(t, depth + 1);      break;
     case T_INFIX:      result = eval_infix(t, depth + 1);      break;
     case T_IF:         result = eval_if(t, depth + 1);         break;
     case T_RETURN:     result = eval_return(t, depth + 1);     break;
diff --git a/src/parser.m4 b/src/parser.m4
index 2634589..cb6f8f5 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -31,6 +31,22 @@ static void set_locus(tree t, YYLTYPE locus)
         tLOCUS(t).file = get_identifier(TARGET()_current_file);
 }
 
+CSCRIPT_ONLY
+/* The chain of a block that is itself an item of a chain needs a tree of its
+ * own to be chained by. */
+static tree make_block_item(tree stmt)
+{
+    tree block;
+
+    if (!is_CHAIN_HEAD(stmt))
+        return stmt;
+
+    block = tree_make(T_BLOCK);
+    tBLOCK_STMTS(block) = stmt;
+    return block;
+}
+ALL_TARGETS
+
 static void find_ids_to_map_to_typenames(tree decl)
 {
     tree i;
@@ -1454,6 +1470,9 @@ CSCRIPT_ONLY
     block_item
     : declaration
     | statement
+    {
+        $$ = make_block_item($1);
+    }
     ;
 
     selection_statement
@@ -1587,6 +1606,9 @@ CSCRIPT_ONLY
     cscript_external_declaration
     : external_declaration
     | statement
+    {
+        $$ = make_block_item($1);
+    }
     ;
 
     cscript_translation_unit
-- 
2.43.0


From d591a91862f4bd22efba4fd2b1c22c4c45813c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 13/38] fix: allow a function to be declared before it is
 defined

---
 src/evaluate.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 6ae9a6a..f19c199 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -826,13 +826,17 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
             return handle_declarator(id, fn, depth);
         }
 
+        previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_CURRENT_CTX);
+
         /* Allow a declaration (not a definition!) of a funcion to be repeated. */
-        if (!tFN_STMTS(fn)) {
-            previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_CURRENT_CTX);
+        if (!tFN_STMTS(fn) && previous_decl)
+            return previous_decl;
 
-            if (previous_decl)
-                return previous_decl;
-    }
+        /* The definition of a function that has already been declared. */
+        if (is_T_FN(previous_decl) && !tFN_STMTS(previous_decl)) {
+            tree_copy(previous_decl, fn);
+            return decl;
+        }
 
         map_identifier(tFN_DECL(fn), fn);
         return decl;
-- 
2.43.0


From 2ea774ba69bf407efece380dcd73260cadab1ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 14/38] fix: truncate the quotient of a division as C does

---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index f19c199..3a08bbf 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1642,7 +1642,7 @@ static tree eval_div(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
-    mpz_div(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    mpz_tdiv_q(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
 
     return ret;
 }
-- 
2.43.0


From 0591a492f7d08ce3acbdc99a88fa6f788c1393e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 15/38] fix: print the whole backtrace of an error to stderr

The names of the contexts went to stdout, among the output of the program.
Also name the REPL rather than a null file in the errors of its statements.
---
 src/evaluate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 3a08bbf..e66b4a5 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -43,7 +43,7 @@ const tree get_include_chain(void)
     return include_chain;
 }
 
-static const char *current_filename;
+static const char *current_filename = "<REPL>";
 
 static tree __evaluate_1(tree t, int depth);
 static tree __evaluate(tree t, int depth);
@@ -103,7 +103,7 @@ static void ctx_backtrace(void)
     tree ctx = cur_ctx;
 
     while (ctx) {
-        puts(tID_STR(tECTX_NAME(ctx)));
+        fprintf(stderr, "%s\n", tID_STR(tECTX_NAME(ctx)));
         ctx = tECTX_PARENT_CTX(ctx);
     }
 }
-- 
2.43.0


From 9e2c9d65ad9726a587109d604a851437c903d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 16/38] fix: don't run a script that couldn't be preprocessed

The exit status of the preprocessor was never looked at, so whatever it had
written up to an error was run as if it was the whole program. The stream is
from popen(), it has to be closed by pclose().
---
 src/cscript.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 52310a5..da1181b 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -26,7 +26,7 @@ void cscripterror(const char *str)
 
 static int parse_cscript(const char *fname)
 {
-    int parse_result;
+    int parse_result, status;
     FILE *f;
     char *command;
 
@@ -51,7 +51,13 @@ static int parse_cscript(const char *fname)
     parse_result = cscriptparse();
     enable_gc();
 
-    fclose(f);
+    status = pclose(f);
+
+    /* Don't run what we have parsed if that might not be the whole program. */
+    if (status) {
+        fprintf(stderr, "Error: preprocessing of %s failed\n", fname);
+        return 1;
+    }
 
     return parse_result;
 }
-- 
2.43.0


From 276899dab7ca88ae9460b04686d85e0037cafb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 17/38] fix: exit with the status that main() returns

The result of main() was dropped: a script always exited with status 0 unless
it called exit() itself.
---
 src/cscript.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index da1181b..3a5a4f5 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -111,7 +111,7 @@ static void create_arguments(int argc, char *argv[])
     evaluate(chain, "<COMPOSE ARGS>");
 }
 
-static void add_call_to_main(tree head, int num_args)
+static tree make_call_to_main(int num_args)
 {
     tree main_fncall = tree_make(T_FN_CALL);
 
@@ -127,11 +127,11 @@ static void add_call_to_main(tree head, int num_args)
     if (num_args > 2)
         fprintf(stderr, "Error: too many arguments in main function");
 
-    tree_chain(main_fncall, head);
+    return main_fncall;
 }
 
-static void __evaluate_cscript(tree head, const char *fname, int argc,
-                               char* argv[])
+static int __evaluate_cscript(tree head, const char *fname, int argc,
+                              char* argv[])
 {
     /* Figure out how to execute the cscript:
      *
@@ -185,10 +185,17 @@ static void __evaluate_cscript(tree head, const char *fname, int argc,
 
     create_arguments(argc, argv);
 
-    if (has_main)
-        add_call_to_main(head, num_main_args);
-
     evaluate(head, fname);
+
+    if (has_main) {
+        tree result = evaluate_expr(make_call_to_main(num_main_args));
+
+        /* Like in C, reaching the end of main() is the same as returning 0. */
+        if (result)
+            return get_c_main_return_value(result);
+    }
+
+    return 0;
 }
 
 void cscript_exit(tree result)
@@ -219,7 +226,5 @@ int evaluate_cscript(const char *script_name,
       exit(0);
   }
 
-  __evaluate_cscript(cscript_parse_head, script_name, argc, argv);
-
-  return 0;
+  return __evaluate_cscript(cscript_parse_head, script_name, argc, argv);
 }
-- 
2.43.0


From a3de009613874945e2a3e4e07dda96105232fa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 18/38] fix: don't crash on a top-level return without a value

---
 src/cscript.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cscript.c b/src/cscript.c
index 3a5a4f5..4470261 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -200,7 +200,7 @@ static int __evaluate_cscript(tree head, const char *fname, int argc,
 
 void cscript_exit(tree result)
 {
-    exit(get_c_main_return_value(result));
+    exit(result ? get_c_main_return_value(result) : 0);
 }
 
 int evaluate_cscript(const char *script_name,
-- 
2.43.0


From 0f0ef542feb795523a8fd8312bf934180869fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 19/38] fix: start to lex each line of the REPL in the initial
 state

A line that ended within a string or after a struct keyword was reported as a
syntax error, but left the lexer in the state for it: the next line was lexed
as the rest of the string or had its first identifier taken for a tag.
---
 src/lex.m4 | 6 ++++++
 src/repl.c | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/lex.m4 b/src/lex.m4
index 66c8db2..d72fa3f 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -257,3 +257,9 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 "&&"                            return BOOL_OP_AND;
 "||"                            return BOOL_OP_OR;
 %%
+
+/* Forget about a token that the previous input ended within. */
+void TARGET()_lex_reset(void)
+{
+    BEGIN INITIAL;
+}
diff --git a/src/repl.c b/src/repl.c
index c64d807..2479cc3 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -37,6 +37,8 @@ extern void add_history (const char *);
 #  endif /* HAVE_READLINE_HISTORY_H */
 #endif /* HAVE_READLINE_HISTORY */
 
+extern void repl_lex_reset(void);
+
 tree repl_parse_head;
 GC_STATIC_TREE(repl_parse_head);
 
@@ -122,6 +124,7 @@ static tree get_compound_completion_object(struct completion_comp_access comp_ac
     comp_obj_expr = concat_strings(comp_obj_expr, ";");
 
     YY_BUFFER_STATE lex_buffer = repl_scan_string(comp_obj_expr);
+    repl_lex_reset();
     inhibit_gc();
     int parse_result = replparse();
     enable_gc();
@@ -375,6 +378,7 @@ static tree repl_do_parse(char *line)
     tree i, ret = NULL;
 
     YY_BUFFER_STATE buffer = repl_scan_string(line);
+    repl_lex_reset();
     inhibit_gc();
     parse_result = replparse();
     enable_gc();
-- 
2.43.0


From cc5839d8fce7a28204bf07bbddb59a50968c21b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 20/38] fix: allow a typedef in the REPL

A line is parsed twice. The first pass already added the typename, so the
second one took the identifier to be defined for a type. A line that turned
out to be a syntax error left its typename behind as well.
---
 src/repl.c     | 10 +++++++++-
 src/typename.c | 13 +++++++++++++
 src/typename.h |  2 ++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index 2479cc3..cacfff5 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -403,7 +403,7 @@ static tree repl_do_parse(char *line)
 
 static tree repl_parse_line(char *line)
 {
-    tree stmt;
+    tree stmt, typenames;
     char *line_after_cpp;
     /* Parsing a line happens in two passes.  We firstly parse the
      * line as given by the user to see whether we are including a
@@ -417,8 +417,13 @@ static tree repl_parse_line(char *line)
      * preprocess it and then parse that as the tree to be
      * evaluated. */
 
+    typenames = typename_mark();
     stmt = repl_do_parse(line);
 
+    /* This was just a look at the line: a typename that it defines isn't known
+     * until the second pass has seen its definition. */
+    typename_rollback(typenames);
+
     if (!stmt)
         return NULL;
 
@@ -431,6 +436,9 @@ static tree repl_parse_line(char *line)
 
     free(line_after_cpp);
 
+    if (!stmt)
+        typename_rollback(typenames);
+
     return stmt;
 }
 
diff --git a/src/typename.c b/src/typename.c
index edc5b79..0046c0d 100644
--- a/src/typename.c
+++ b/src/typename.c
@@ -54,6 +54,19 @@ void typename_init(void)
     add_typename(get_identifier("_Float128"));
 }
 
+/* Remember which typenames have been added so far.  */
+tree typename_mark(void)
+{
+    return list_entry(type_names->chain.prev, typeof(*type_names), chain);
+}
+
+/* Remove all the typenames that have been added since `mark'. */
+void typename_rollback(tree mark)
+{
+    while (typename_mark() != mark)
+        tree_unchain(typename_mark());
+}
+
 int is_typename(tree typename)
 {
     tree i;
diff --git a/src/typename.h b/src/typename.h
index cd9af85..54840cf 100644
--- a/src/typename.h
+++ b/src/typename.h
@@ -6,3 +6,5 @@ void reset_include_typenames(void);
 void add_typename(tree typename);
 void typename_init(void);
 int is_typename(tree typename);
+tree typename_mark(void);
+void typename_rollback(tree mark);
-- 
2.43.0


From 8ad94ed99c47d8614f5250d544cb6ede76d9ea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 21/38] fix: preprocess exactly the line that was typed, and
 clean up after it

Short and failed writes to the preprocessor's input went unnoticed, so that
only a part of the line was evaluated, as did failures to read its output. The
output stream of each line was never closed and the temporary files were never
removed: a long session ran out of file descriptors and filled /tmp.
---
 src/preprocess.c | 58 +++++++++++++++++++++++++++++++++++++++++-------
 src/repl.c       | 32 ++++++++++----------------
 2 files changed, 62 insertions(+), 28 deletions(-)

diff --git a/src/preprocess.c b/src/preprocess.c
index 328c785..c5660d5 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -10,6 +10,43 @@
 static tree include_dirs;
 GC_STATIC_TREE(include_dirs);
 
+/* Write the whole of a buffer, or fail. */
+static int write_all(int fd, const char *buf, size_t len)
+{
+  while (len) {
+    ssize_t n = write(fd, buf, len);
+
+    if (n == -1) {
+      if (errno == EINTR)
+        continue;
+
+      return -1;
+    }
+
+    buf += n;
+    len -= n;
+  }
+
+  return 0;
+}
+
+/* Write the input of the preprocessor: all #includes, followed by the line. */
+static int write_cpp_input(int fd, tree include_chain, const char *line)
+{
+  tree i;
+
+  for_each_tree (i, include_chain) {
+    if (write_all(fd, tCPP_INCLUDE_STR(i), strlen(tCPP_INCLUDE_STR(i))) == -1 ||
+        write_all(fd, "\n", 1) == -1)
+      return -1;
+  }
+
+  if (line && write_all(fd, line, strlen(line)) == -1)
+    return -1;
+
+  return 0;
+}
+
 FILE *run_cpp(tree include_chain, char *opts, char *line)
 {
   char cpp_file_name[] = "/tmp/bic.cpp.XXXXXX.c";
@@ -31,6 +68,7 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   if (out_file_fd == -1) {
     fprintf(stderr, "Could not open temp file: %s\n", strerror(errno));
+    unlink(cpp_file_name);
     exit (1);
   }
 
@@ -38,19 +76,19 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   if (!out_file_stream) {
     fprintf(stderr, "Could not create stream: %s\n", strerror(errno));
+    unlink(cpp_file_name);
+    unlink(out_file_name);
     exit (1);
   }
 
-  for_each_tree (i, include_chain) {
-    write(cpp_file_fd, tCPP_INCLUDE_STR(i), strlen(tCPP_INCLUDE_STR(i)));
-    write(cpp_file_fd, "\n", 1);
+  if (write_cpp_input(cpp_file_fd, include_chain, line) == -1 ||
+      close(cpp_file_fd) == -1) {
+    fprintf(stderr, "Could not write temp file: %s\n", strerror(errno));
+    unlink(cpp_file_name);
+    unlink(out_file_name);
+    exit (1);
   }
 
-  if (line)
-    write(cpp_file_fd, line, strlen(line));
-
-  close(cpp_file_fd);
-
   if (include_dirs) {
       size_t include_len = 0;
 
@@ -84,6 +122,10 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   free(command);
 
+  /* Nobody but us needs the files any more, the stream stays readable. */
+  unlink(cpp_file_name);
+  unlink(out_file_name);
+
   if (ret < 0) {
     fprintf(stderr, "Invocation of preprocessor process failed\n");
     exit (1);
diff --git a/src/repl.c b/src/repl.c
index cacfff5..4669f67 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -341,33 +341,25 @@ static void setup_readline()
 
 static char *run_cpp_on_line(char *line)
 {
-    char *ret;
+    char *ret = NULL, *output_line = NULL;
+    size_t output_line_sz = 0;
     const tree include_chain = get_include_chain();
     FILE *output = run_cpp(include_chain, "-E -P", line);
-    char c = 0;
-    size_t pos = 0,line_len = 0;
 
-    fseek(output, 0, SEEK_END);
-
-    do {
-        if (fseek(output, -2, SEEK_CUR) == -1) {
-            perror("fseek");
-            exit(1);
-        }
-
-        c = fgetc(output);
-        line_len++;
-    } while (c != '\n' && ftell(output) - 1);
+    /* The line itself is the last one of the output, after the expansion of all
+     * #includes. */
+    while (getline(&output_line, &output_line_sz, output) != -1) {
+        free(ret);
+        ret = strdup(output_line);
+    }
 
-    if (fseek(output, -1, SEEK_CUR) == -1) {
-        perror("fseek");
+    if (!ret || ferror(output)) {
+        fprintf(stderr, "Could not read the preprocessed line\n");
         exit(1);
     }
 
-    ret = calloc(line_len + 1, sizeof(*ret));
-
-    while (pos != line_len)
-        ret[pos++] = fgetc(output);
+    free(output_line);
+    fclose(output);
 
     return ret;
 }
-- 
2.43.0


From e6f830ac01cce01f2e072875ba280d7f8a0471d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 22/38] fix: complete without touching the declarations of the
 program

The matching identifiers were linked into the list of matches themselves, which
took them out of the declaration that they belong to: calling the function that
a nested REPL was completing in once more ran off its declarations. Also find
the operator of ptr->member, which only worked for one letter names.
---
 src/repl.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index 4669f67..5ad977e 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -93,7 +93,7 @@ static int split_compound_access_text(const char *text,
             break;
         }
 
-        if (strstr(&text[i], "->")) {
+        if (strncmp(&text[i], "->", 2) == 0) {
             comp_access->obj_expr = strdup(text);
             comp_access->obj_expr[i] = '\0';
 
@@ -101,6 +101,7 @@ static int split_compound_access_text(const char *text,
             comp_access->needs_deref = 1;
 
             comp_access->member_prefix = strdup(&text[i + 2]);
+            break;
         }
     }
 
@@ -144,7 +145,9 @@ void match_identifiers_for_idmap(tree chain, tree idmap,
     for_each_tree(i, idmap) {
         tree id = tEMAP_LEFT(i);
         if (strncmp(tID_STR(id), prefix, strlen(prefix)) == 0)
-            tree_chain(id, chain);
+            /* The identifier could be a part of a declaration that will be
+             * evaluated again, don't move it out of its chain. */
+            tree_chain(get_identifier(tID_STR(id)), chain);
     }
 }
 
-- 
2.43.0


From 80800b1820d8d04771112d874b95fc132c54450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 23/38] fix: make completion robust against its helper process

The matches were read without looking at what read() returned: a helper that
died (e.g. because the expression can't be evaluated) left the number of
matches uninitialised. The helper wrote buffered output of the session once
more and ran its exit handlers; it was never waited for and each completion
left a file descriptor open.
---
 src/repl.c | 121 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 101 insertions(+), 20 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index 5ad977e..861c0e7 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -1,7 +1,9 @@
 #define _GNU_SOURCE
 #include <unistd.h>
 #include <stdio.h>
+#include <errno.h>
 #include <sys/types.h>
+#include <sys/wait.h>
 #include <pwd.h>
 
 #include "config.h"
@@ -228,6 +230,42 @@ static char **do_identifier_completion(const char *text)
     return create_matches_array(text, matches);
 }
 
+static int write_all(int fd, const void *buf, size_t len)
+{
+    while (len) {
+        ssize_t n = write(fd, buf, len);
+
+        if (n == -1 && errno == EINTR)
+            continue;
+
+        if (n == -1)
+            return -1;
+
+        buf += n;
+        len -= n;
+    }
+
+    return 0;
+}
+
+static int read_all(int fd, void *buf, size_t len)
+{
+    while (len) {
+        ssize_t n = read(fd, buf, len);
+
+        if (n == -1 && errno == EINTR)
+            continue;
+
+        if (n <= 0)
+            return -1;
+
+        buf += n;
+        len -= n;
+    }
+
+    return 0;
+}
+
 static void send_matches(char **matches, int fd)
 {
     size_t i, len = 0;
@@ -236,7 +274,8 @@ static void send_matches(char **matches, int fd)
     while (matches && matches[len])
         len++;
 
-    write(fd, &len, sizeof(len));
+    if (write_all(fd, &len, sizeof(len)) == -1)
+        return;
 
     if (!matches)
         return;
@@ -245,39 +284,73 @@ static void send_matches(char **matches, int fd)
     for (i = 0; matches[i]; i++) {
         len = strlen(matches[i]) + 1;
 
-        write(fd, &len, sizeof(len));
-        write(fd, matches[i], len);
+        if (write_all(fd, &len, sizeof(len)) == -1 ||
+            write_all(fd, matches[i], len) == -1)
+            return;
+    }
+}
+
+static char *recieve_match(int fd)
+{
+    size_t len;
+    char *ret;
+
+    if (read_all(fd, &len, sizeof(len)) == -1)
+        return NULL;
+
+    ret = malloc(len);
+
+    if (ret && read_all(fd, ret, len) == -1) {
+        free(ret);
+        return NULL;
     }
+
+    return ret;
 }
 
+/* Returns NULL if there are no matches or if not all of them arrived. */
 static char **recieve_matches(int fd)
 {
     char **ret;
-    size_t n;
-    int i;
-
-    read(fd, &n, sizeof(n));
+    size_t i, n;
 
-    if (!n)
+    if (read_all(fd, &n, sizeof(n)) == -1 || !n)
         return NULL;
 
-    ret = malloc(sizeof(*ret) * (n + 1));
+    ret = calloc(n + 1, sizeof(*ret));
 
-    for (i = 0; i < n; i++) {
-        size_t match_len;
+    if (!ret)
+        return NULL;
 
-        read(fd, &match_len, sizeof(match_len));
+    for (i = 0; i < n; i++) {
+        ret[i] = recieve_match(fd);
 
-        ret[i] = malloc(match_len);
+        if (!ret[i]) {
+            while (i--)
+                free(ret[i]);
 
-        read(fd, ret[i], match_len);
+            free(ret);
+            return NULL;
+        }
     }
 
-    ret[n] = NULL;
-
     return ret;
 }
 
+static void free_comp_access(struct completion_comp_access *comp_access)
+{
+    free(comp_access->obj_expr);
+    free(comp_access->access_operator);
+    free(comp_access->member_prefix);
+}
+
+/* However the completion process ends, it mustn't write the output that its
+ * parent has buffered or run the exit handlers of the program. */
+static void exit_completion_process(void)
+{
+    _exit(0);
+}
+
 static char **bic_completion(const char *text, int start, int end)
 {
     char **matches = NULL;
@@ -293,6 +366,7 @@ static char **bic_completion(const char *text, int start, int end)
 
         if (pipe(pfds) == -1) {
             perror("Error: pipe failed");
+            free_comp_access(&comp_access);
             return NULL;
         }
 
@@ -300,10 +374,16 @@ static char **bic_completion(const char *text, int start, int end)
 
         if (ret == -1) {
             perror("Error: fork failed");
+            free_comp_access(&comp_access);
+            close(pfds[0]);
+            close(pfds[1]);
             return NULL;
         }
 
         if (!ret) {
+            if (atexit(exit_completion_process))
+                _exit(0);
+
             close(pfds[0]);
             char **local_matches = NULL;
 
@@ -323,11 +403,12 @@ static char **bic_completion(const char *text, int start, int end)
 
             matches = recieve_matches(pfds[0]);
 
-            free(comp_access.obj_expr);
-            free(comp_access.access_operator);
-            free(comp_access.member_prefix);
+            free_comp_access(&comp_access);
 
-            close(pfds[1]);
+            close(pfds[0]);
+
+            while (waitpid(ret, NULL, 0) == -1 && errno == EINTR)
+                ;
         }
     }
     else
-- 
2.43.0


From bf5946cdf79fbe4fdc02324600037cd97d261788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 24/38] fix: complete the members of a compound

---
 src/repl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index 861c0e7..79937ef 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -115,6 +115,7 @@ static int split_compound_access_text(const char *text,
 
 static tree get_compound_completion_object(struct completion_comp_access comp_access)
 {
+    tree stmt;
     char *comp_obj_expr = strdup(comp_access.obj_expr);
 
     if (comp_access.needs_deref) {
@@ -136,7 +137,10 @@ static tree get_compound_completion_object(struct completion_comp_access comp_ac
     if (parse_result)
         return NULL;
 
-    return evaluate_expr(repl_parse_head);
+    for_each_tree(stmt, repl_parse_head)
+        return evaluate_expr(stmt);
+
+    return NULL;
 }
 
 void match_identifiers_for_idmap(tree chain, tree idmap,
-- 
2.43.0


From 587f968ff401ee1c351791bcb1ca8f89f013ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 25/38] fix: stop with an error when no memory can be allocated

---
 src/cscript.c       |  8 ++++----
 src/evaluate.c      | 13 +++++++------
 src/function-call.c | 13 +++++++++----
 src/gc.c            | 15 ++++++++-------
 src/hash_table.c    |  5 +++--
 src/lex.m4          | 10 +++++-----
 src/main.c          |  2 +-
 src/preprocess.c    |  7 ++++---
 src/repl.c          | 34 +++++++++++++++-------------------
 src/tree.c          |  3 ++-
 src/util.c          | 33 ++++++++++++++++++++++++++++++++-
 src/util.h          |  8 ++++++++
 12 files changed, 98 insertions(+), 53 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 4470261..02f1f1b 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -5,6 +5,7 @@
 #include "gc.h"
 #include "tree-dump.h"
 #include "tree-dump-dot.h"
+#include "util.h"
 #include <string.h>
 
 extern FILE *cscriptin;
@@ -30,9 +31,8 @@ static int parse_cscript(const char *fname)
     FILE *f;
     char *command;
 
-    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " \"%s\"", fname);
-
-    if (!command) {
+    if (asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " \"%s\"",
+                 fname) == -1) {
         fprintf(stderr, "Error: could not allocate preprocessor command.\n");
         return 1;
     }
@@ -115,7 +115,7 @@ static tree make_call_to_main(int num_args)
 {
     tree main_fncall = tree_make(T_FN_CALL);
 
-    tFNCALL_ID(main_fncall) = get_identifier(strdup("main"));
+    tFNCALL_ID(main_fncall) = get_identifier(xstrdup("main"));
     tFNCALL_ARGS(main_fncall) = NULL;
 
     if (num_args > 0)
diff --git a/src/evaluate.c b/src/evaluate.c
index e66b4a5..e855fdf 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -19,6 +19,7 @@
 #include "inspect.h"
 #include "spec-resolver.h"
 #include "cscript.h"
+#include "util.h"
 
 static tree cur_ctx = NULL;
 GC_STATIC_TREE(cur_ctx);
@@ -316,7 +317,7 @@ tree make_live_var(tree type)
     tree live_var = tree_make(T_LIVE_VAR);
 
     tLV_TYPE(live_var) = type;
-    tLV_VAL(live_var) = malloc(sizeof(*tLV_VAL(live_var)));
+    tLV_VAL(live_var) = xmalloc(sizeof(*tLV_VAL(live_var)));
 
     /* We can not allow the GC to just free the LV_VAL memory as this
      * may not point to memory that has been allocated, for example in
@@ -759,7 +760,7 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base)
 
 static tree alloc_struct(tree struct_decl, int depth)
 {
-    void *base = malloc(tCOMP_DECL_SZ(struct_decl));
+    void *base = xmalloc(tCOMP_DECL_SZ(struct_decl));
 
     track_alloc(base);
 
@@ -769,7 +770,7 @@ static tree alloc_struct(tree struct_decl, int depth)
 static tree alloc_array(tree array_decl, tree base_type, int depth)
 {
     size_t array_sz = get_array_size(array_decl, base_type, depth);
-    void *array_mem = malloc(array_sz);
+    void *array_mem = xmalloc(array_sz);
     tree live_var = instantiate_array(array_decl, base_type, array_mem,
                                       array_sz);
 
@@ -902,7 +903,7 @@ static tree map_typedef(tree id, tree type)
 
 static void *__evaluator_alloca(size_t sz)
 {
-    return malloc(sz);
+    return xmalloc(sz);
 }
 
 static tree handle_extern_fn(tree return_type, tree fndecl)
@@ -2661,7 +2662,7 @@ static tree eval_cpp_include(tree t, int depth)
      * system's CPP every time, we can't maintain the state of
      * definitions.  Therefore, we WILL define things multiple
      * times. */
-    tCPP_INCLUDE_STR(cpp_include) = strdup(tCPP_INCLUDE_STR(t));
+    tCPP_INCLUDE_STR(cpp_include) = xstrdup(tCPP_INCLUDE_STR(t));
     tree_chain(cpp_include, include_chain);
 
     out_file_stream = run_cpp(include_chain, "-E " EXTRA_CPP_OPTS, NULL);
@@ -2922,7 +2923,7 @@ static tree handle_builtin_strcat_chk(tree args)
 
 static void eval_init_builtins(void)
 {
-    map_identifier(get_identifier(strdup("__builtin_va_list")),
+    map_identifier(get_identifier(xstrdup("__builtin_va_list")),
                    tree_make(D_T_INT));
 
     tree strcpy_builtin = tree_make(T_BUILTIN);
diff --git a/src/function-call.c b/src/function-call.c
index 4396022..32fa32d 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -9,6 +9,7 @@
 #include "evaluate.h"
 #include "gc.h"
 #include "spec-resolver.h"
+#include "util.h"
 
 #define ARG_STACK_SZ 32
 
@@ -59,8 +60,8 @@ void do_ext_call(void *function_address, tree args, tree ret_lv,
     tree fn_arg;
     ffi_cif cif;
     int n = 0;
-    ffi_type **types = calloc(sizeof(*types), ARG_STACK_SZ);
-    void **vals = calloc(sizeof(*vals), ARG_STACK_SZ);
+    ffi_type **types = xcalloc(sizeof(*types), ARG_STACK_SZ);
+    void **vals = xcalloc(sizeof(*vals), ARG_STACK_SZ);
     ffi_type *ret_type = &ffi_type_void;
 
     // Prevent GC here, we could potentially create temporary LV for the default
@@ -214,8 +215,8 @@ void *get_entry_point_for_fn(tree fndef)
 
     arg_chain = tree_make(CHAIN_HEAD);
     closure = tree_make(T_CLOSURE);
-    tCLOSURE_CIF(closure) = malloc(sizeof(*tCLOSURE_CIF(closure)));
-    tCLOSURE_TYPES(closure) = calloc(sizeof(*tCLOSURE_TYPES(closure)), ARG_STACK_SZ);
+    tCLOSURE_CIF(closure) = xmalloc(sizeof(*tCLOSURE_CIF(closure)));
+    tCLOSURE_TYPES(closure) = xcalloc(sizeof(*tCLOSURE_TYPES(closure)), ARG_STACK_SZ);
 
     int n = 0;
 
@@ -250,6 +251,10 @@ void *get_entry_point_for_fn(tree fndef)
     tCLOSURE_RET_TYPE(closure) = ret_type;
 
     tCLOSURE_CLOSURE(closure) = ffi_closure_alloc(sizeof(ffi_closure), &ret);
+
+    if (!tCLOSURE_CLOSURE(closure))
+        eval_die(fndef, "could not allocate a closure\n");
+
     tCLOSURE_ENTRY(closure) = ret;
 
     ffi_prep_cif(tCLOSURE_CIF(closure), FFI_DEFAULT_ABI, n, ffi_ret_type,
diff --git a/src/gc.c b/src/gc.c
index b9e8967..5505272 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -1,6 +1,7 @@
 #include "tree.h"
 #include "gc.h"
 #include "gc-internal.h"
+#include "util.h"
 
 static int gc_inhibited = 0;
 static size_t alloc_array_sz = 10000;
@@ -183,18 +184,18 @@ static void maybe_collect()
 
 static void extend_allocs()
 {
-    size_t old_alloc_array_sz = alloc_array_sz;
-    alloc_array_sz *= 2;
+    size_t new_alloc_array_sz = alloc_array_sz * 2;
 
-    allocs = realloc(allocs, sizeof(*allocs) * alloc_array_sz);
-    memset(&allocs[old_alloc_array_sz], 0,
-           sizeof(*allocs) * (alloc_array_sz - old_alloc_array_sz));
+    allocs = xrealloc(allocs, sizeof(*allocs) * new_alloc_array_sz);
+    memset(&allocs[alloc_array_sz], 0,
+           sizeof(*allocs) * (new_alloc_array_sz - alloc_array_sz));
+    alloc_array_sz = new_alloc_array_sz;
 }
 
 static void track_new_alloc(gc_obj obj)
 {
     if (!allocs)
-        allocs = calloc(sizeof(obj), alloc_array_sz);
+        allocs = xcalloc(sizeof(obj), alloc_array_sz);
 
     if (alloc_ptr >= alloc_array_sz)
         extend_allocs();
@@ -218,7 +219,7 @@ void enable_gc()
 tree alloc_tree()
 {
     maybe_collect();
-    gc_obj ret = calloc(1, sizeof(*ret));
+    gc_obj ret = xcalloc(1, sizeof(*ret));
     track_new_alloc(ret);
     return &ret->t;
 }
diff --git a/src/hash_table.c b/src/hash_table.c
index c01c1c2..7975f61 100644
--- a/src/hash_table.c
+++ b/src/hash_table.c
@@ -2,15 +2,16 @@
 #include <stdlib.h>
 #include <string.h>
 #include "hash_table.h"
+#include "util.h"
 
 hash_table hash_table_alloc(int bits)
 {
     int i;
 
-    hash_table ret = calloc(sizeof(*ret), 1);
+    hash_table ret = xcalloc(sizeof(*ret), 1);
     ret->bits = bits;
 
-    ret->table = calloc(sizeof(*(ret->table)), 1 << bits);
+    ret->table = xcalloc(sizeof(*(ret->table)), 1 << bits);
     for (i = 0; i < 1 << bits; i++)
         INIT_LIST(&(ret->table[i]));
 
diff --git a/src/lex.m4 b/src/lex.m4
index d72fa3f..d0a2648 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -62,7 +62,7 @@ ALL_TARGETS
 static void sl_begin(void)
 {
     if (!sl_buf)
-        sl_buf = malloc(1);
+        sl_buf = xmalloc(1);
 
     sl_buf[0] = '\0';
 }
@@ -76,7 +76,7 @@ static void sl_append_str(const char *s)
 
 static void sl_append_char(char c)
 {
-    char *s = malloc(2);
+    char *s = xmalloc(2);
     s[0] = c;
     s[1] = '\0';
     sl_append_str(s);
@@ -184,7 +184,7 @@ X                               [0-9A-Fa-f]
 "while"				return WHILE;
 
 REPL_ONLY
-"`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = strdup(LEXTEXT);
+"`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = xstrdup(LEXTEXT);
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
 "`#'"[ \t]*[0-9]+[ \t]*\"({L}|{D}|\-|\.|\/|<|>|\ )+\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
@@ -200,12 +200,12 @@ ALL_TARGETS
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
-<str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
+<str_lit>[^\\"\n]*              { sl_append_str(xstrdup(LEXTEXT)); }
 <str_lit>\\n                    { sl_append_char('\n'); }
 <str_lit>\\t                    { sl_append_char('\t'); }
 <str_lit>\\[0-7]*               { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
 <str_lit>\\[\\"]                { sl_append_char(LEXTEXT[1]); }
-<str_lit>\"                     { LEXLVAL.string = strdup(sl_buf); BEGIN 0; return CONST_STRING; }
+<str_lit>\"                     { LEXLVAL.string = xstrdup(sl_buf); BEGIN 0; return CONST_STRING; }
 <str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
 <str_lit>\n                     { lex_err("newline in string\n"); }
 
diff --git a/src/main.c b/src/main.c
index 422c67f..1b6a58b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -123,7 +123,7 @@ static int parse_args(int argc, char *argv[])
             flag_print_ast = true;
             break;
         case 's':
-            cscript_file = strdup(optarg);
+            cscript_file = xstrdup(optarg);
             /* Once we have seen the script parameter, don't process any more
              * options. This allows the cscript to be given it's own options. */
             return optind;
diff --git a/src/preprocess.c b/src/preprocess.c
index c5660d5..85549e5 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -6,6 +6,7 @@
 #include "tree.h"
 #include "gc.h"
 #include "preprocess.h"
+#include "util.h"
 
 static tree include_dirs;
 GC_STATIC_TREE(include_dirs);
@@ -95,7 +96,7 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
       for_each_tree(i, include_dirs)
           include_len += strlen(tSTRING_VAL(i)) + 4;
 
-      include_dir_opts = malloc(include_len + 1);
+      include_dir_opts = xmalloc(include_len + 1);
       include_dir_opts[0] = '\0';
 
       for_each_tree(i, include_dirs) {
@@ -103,7 +104,7 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
           strcat(include_dir_opts, tSTRING_VAL(i));
       }
   } else {
-      include_dir_opts = malloc(1);
+      include_dir_opts = xmalloc(1);
       include_dir_opts[0] = '\0';
   }
 
@@ -148,7 +149,7 @@ void preprocessor_add_include_dir(char *dir)
 
     new_dir = tree_make(T_STRING);
 
-    tSTRING_VAL(new_dir) = strdup(dir);
+    tSTRING_VAL(new_dir) = xstrdup(dir);
 
     tree_chain(new_dir, include_dirs);
 }
diff --git a/src/repl.c b/src/repl.c
index 79937ef..b63a76c 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -85,24 +85,24 @@ static int split_compound_access_text(const char *text,
 
     for (i = text_len; i > 0; i--) {
         if (text[i] == '.') {
-            comp_access->obj_expr = strdup(text);
+            comp_access->obj_expr = xstrdup(text);
             comp_access->obj_expr[i] = '\0';
 
-            comp_access->access_operator = strdup(".");
+            comp_access->access_operator = xstrdup(".");
             comp_access->needs_deref = 0;
 
-            comp_access->member_prefix = strdup(&text[i + 1]);
+            comp_access->member_prefix = xstrdup(&text[i + 1]);
             break;
         }
 
         if (strncmp(&text[i], "->", 2) == 0) {
-            comp_access->obj_expr = strdup(text);
+            comp_access->obj_expr = xstrdup(text);
             comp_access->obj_expr[i] = '\0';
 
-            comp_access->access_operator = strdup("->");
+            comp_access->access_operator = xstrdup("->");
             comp_access->needs_deref = 1;
 
-            comp_access->member_prefix = strdup(&text[i + 2]);
+            comp_access->member_prefix = xstrdup(&text[i + 2]);
             break;
         }
     }
@@ -116,7 +116,7 @@ static int split_compound_access_text(const char *text,
 static tree get_compound_completion_object(struct completion_comp_access comp_access)
 {
     tree stmt;
-    char *comp_obj_expr = strdup(comp_access.obj_expr);
+    char *comp_obj_expr = xstrdup(comp_access.obj_expr);
 
     if (comp_access.needs_deref) {
         comp_obj_expr = concat_strings("*(", comp_obj_expr);
@@ -172,10 +172,10 @@ static char **create_matches_array(const char *original_text, tree chain)
     /* For a single match, replace `prefix' with the completed
      * text. */
     if (match_count == 1) {
-        ret = calloc(2, sizeof(*ret));
+        ret = xcalloc(2, sizeof(*ret));
 
         for_each_tree(i, chain)
-            ret[0] = strdup(tID_STR(i));
+            ret[0] = xstrdup(tID_STR(i));
 
         ret[1] = NULL;
 
@@ -187,14 +187,14 @@ static char **create_matches_array(const char *original_text, tree chain)
      * array as the string to replace whatever is being completed
      * with. */
 
-    ret = calloc(match_count + 2, sizeof(*ret));
+    ret = xcalloc(match_count + 2, sizeof(*ret));
 
     match_count = 0;
 
-    ret[match_count] = strdup(original_text);
+    ret[match_count] = xstrdup(original_text);
 
     for_each_tree(i, chain) {
-        ret[match_count + 1] = strdup(tID_STR(i));
+        ret[match_count + 1] = xstrdup(tID_STR(i));
         match_count++;
     }
 
@@ -438,10 +438,10 @@ static char *run_cpp_on_line(char *line)
      * #includes. */
     while (getline(&output_line, &output_line_sz, output) != -1) {
         free(ret);
-        ret = strdup(output_line);
+        ret = xstrdup(output_line);
     }
 
-    if (!ret || ferror(output)) {
+    if (!ret || !feof(output)) {
         fprintf(stderr, "Could not read the preprocessed line\n");
         exit(1);
     }
@@ -534,11 +534,7 @@ static void evaluate_startup_file()
     if (!homedir)
         return;
 
-    asprintf(&dotfile, "%s/%s", homedir, ".bic");
-
-    if (!dotfile)
-        return;
-
+    dotfile = concat_strings(homedir, "/.bic");
 
     if (access(dotfile, R_OK))
         return;
diff --git a/src/tree.c b/src/tree.c
index dfdac93..43332f0 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1,6 +1,7 @@
 #include <stdlib.h>
 #include "tree.h"
 #include "gc.h"
+#include "util.h"
 
 tree tree_make(enum tree_type type)
 {
@@ -13,7 +14,7 @@ tree tree_make(enum tree_type type)
 tree get_identifier(const char *name)
 {
     tree ret = tree_make(T_IDENTIFIER);
-    tID_STR(ret) = strdup(name);
+    tID_STR(ret) = xstrdup(name);
     return ret;
 }
 
diff --git a/src/util.c b/src/util.c
index 43d0233..2ed8c37 100644
--- a/src/util.c
+++ b/src/util.c
@@ -1,10 +1,41 @@
 #include "util.h"
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
+static void *check_alloc(void *ptr, size_t size)
+{
+    if (!ptr && size) {
+        fprintf(stderr, "Error: out of memory\n");
+        exit(EXIT_FAILURE);
+    }
+
+    return ptr;
+}
+
+void *xmalloc(size_t size)
+{
+    return check_alloc(malloc(size), size);
+}
+
+void *xcalloc(size_t nmemb, size_t size)
+{
+    return check_alloc(calloc(nmemb, size), nmemb && size);
+}
+
+void *xrealloc(void *ptr, size_t size)
+{
+    return check_alloc(realloc(ptr, size), size);
+}
+
+char *xstrdup(const char *s)
+{
+    return check_alloc(strdup(s), 1);
+}
+
 char *concat_strings(const char *s1, const char *s2)
 {
-    char *ret = malloc(strlen(s1) + strlen(s2) + 1);
+    char *ret = xmalloc(strlen(s1) + strlen(s2) + 1);
 
     ret[0] = '\0';
 
diff --git a/src/util.h b/src/util.h
index 96e0960..6ddedca 100644
--- a/src/util.h
+++ b/src/util.h
@@ -1,3 +1,11 @@
 #pragma once
 
+#include <stddef.h>
+
+/* Allocate memory or, if there is none left, exit with an error. */
+void *xmalloc(size_t size);
+void *xcalloc(size_t nmemb, size_t size);
+void *xrealloc(void *ptr, size_t size);
+char *xstrdup(const char *s);
+
 char *concat_strings(const char *s1, const char *s2);
-- 
2.43.0


From 1b88af0fa7abcd3d965e5ec6de220eef59c498f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 26/38] fix: zero objects that have no initialiser

---
 src/evaluate.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index e855fdf..b245d30 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -317,7 +317,7 @@ tree make_live_var(tree type)
     tree live_var = tree_make(T_LIVE_VAR);
 
     tLV_TYPE(live_var) = type;
-    tLV_VAL(live_var) = xmalloc(sizeof(*tLV_VAL(live_var)));
+    tLV_VAL(live_var) = xcalloc(1, sizeof(*tLV_VAL(live_var)));
 
     /* We can not allow the GC to just free the LV_VAL memory as this
      * may not point to memory that has been allocated, for example in
@@ -760,7 +760,9 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base)
 
 static tree alloc_struct(tree struct_decl, int depth)
 {
-    void *base = xmalloc(tCOMP_DECL_SZ(struct_decl));
+    /* Objects with static storage duration are zero, unless they have been
+     * initialised. */
+    void *base = xcalloc(1, tCOMP_DECL_SZ(struct_decl));
 
     track_alloc(base);
 
@@ -770,7 +772,7 @@ static tree alloc_struct(tree struct_decl, int depth)
 static tree alloc_array(tree array_decl, tree base_type, int depth)
 {
     size_t array_sz = get_array_size(array_decl, base_type, depth);
-    void *array_mem = xmalloc(array_sz);
+    void *array_mem = xcalloc(1, array_sz);
     tree live_var = instantiate_array(array_decl, base_type, array_mem,
                                       array_sz);
 
-- 
2.43.0


From 56f4c2d260ff60c8ee58256afbb5f2c7a1a440eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 27/38] fix: keep the arguments of a call reachable until they
 are assigned

The parameters are declared, which allocates, while the values that they are
about to be given are walked through.  The head of the list isn't needed any
more by then, so it might be in no register and no stack slot, and the
collector freed the values that hadn't been reached yet.
---
 src/evaluate.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index b245d30..120b792 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -471,9 +471,13 @@ static tree eval_fn_call(tree t, int depth)
     if (is_T_FN(function)) {
         if (tFN_STMTS(function)) {
             tree arg_decls = tFN_ARGS(function),
-                arg_vals,
                 arg_decl, arg_val, return_val, fn_ctx;
 
+            /* Nothing but this variable refers to the list of the values
+             * while the parameters are declared. Ensure that the collector
+             * finds it on the stack, even once it isn't used any more. */
+            tree volatile arg_vals;
+
             /* Evaluate all arguments in the context of the caller. Otherwise,
              * an identifier in an argument could resolve to one of the
              * parameters that has just been declared, rather than to the
-- 
2.43.0


From 07562d15f7685e5dcc91182ae899e0244ce74250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 28/38] fix: reject characters that are no token

The lexer's default rule printed any character that it didn't know to stdout
and skipped it, so "x @ + 1;" was evaluated as if it were "x + 1;".
---
 src/lex.m4 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lex.m4 b/src/lex.m4
index d0a2648..4d00189 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -256,6 +256,9 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 
 "&&"                            return BOOL_OP_AND;
 "||"                            return BOOL_OP_OR;
+
+  /* Leave it to the parser to reject anything else. */
+<INITIAL,compound_start_cond>.  return (unsigned char)LEXTEXT[0];
 %%
 
 /* Forget about a token that the previous input ended within. */
-- 
2.43.0


From 2c1fddea222964a170654f72ef594c15dc35f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 29/38] fix: stop with an error when an expression without a
 value is used

A call of a function that returns nothing, as an operand, an argument, an array
index or the right side of an assignment, crashed the interpreter and lost the
output before it.
---
 src/evaluate.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 120b792..8166b7c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -364,6 +364,9 @@ static tree convert_to_comparable_type(tree t, int depth)
     tree evaluated = __evaluate_1(t, depth + 1),
         ret;
 
+    if (!evaluated)
+        eval_die(t, "Expression does not have a value\n");
+
     switch (TYPE(evaluated)) {
     case T_INTEGER:
         ret = evaluated;
@@ -409,6 +412,10 @@ static tree eval_fn_args(tree args, int depth)
     for_each_tree(arg, args) {
         tree fn_arg = tree_make(T_FN_ARG);
         tFNARG_EXP(fn_arg) = __evaluate_1(arg, depth + 1);
+
+        if (!tFNARG_EXP(fn_arg))
+            eval_die(arg, "Argument does not have a value\n");
+
         tree_chain(fn_arg, ret);
     }
 
@@ -1319,6 +1326,9 @@ static tree eval_assign(tree t, int depth)
     if (!is_T_LIVE_VAR(left))
         eval_die(t, "Not a valid lvalue.\n");
 
+    if (!right)
+        eval_die(t, "Assigned expression does not have a value.\n");
+
     switch (TYPE(tLV_TYPE(left))) {
     case D_T_CHAR ... D_T_ULONGLONG:
         assign_integer(left, right);
@@ -1423,10 +1433,7 @@ static tree eval_dec(tree t, int depth)
 static tree eval_negate(tree t, int depth)
 {
     tree ret = tree_make(T_INTEGER);
-    tree intval;
-    tree exp = __evaluate_1(tNEGATE_EXP(t), depth + 1);
-
-    intval = convert_to_comparable_type(exp, depth);
+    tree intval = convert_to_comparable_type(tNEGATE_EXP(t), depth);
 
     if (!mpz_cmp_ui(tINT_VAL(intval), 0))
         mpz_init_set_ui(tINT_VAL(ret), 1);
@@ -2070,10 +2077,8 @@ static tree eval_loop_for(tree t, int depth)
     do {
         tree stmt;
 
-        tree cond_result = __evaluate_1(tFLOOP_COND(t),
-                                        depth + 1);
-
-        cond_result = convert_to_comparable_type(cond_result, depth + 1);
+        tree cond_result = convert_to_comparable_type(tFLOOP_COND(t),
+                                                      depth + 1);
 
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
@@ -2102,10 +2107,7 @@ static tree eval_loop_while(tree t, int depth)
     do {
         tree stmt;
 
-        tree cond_result = __evaluate_1(tWLOOP_COND(t),
-                                        depth + 1);
-
-        cond_result = convert_to_comparable_type(cond_result, depth);
+        tree cond_result = convert_to_comparable_type(tWLOOP_COND(t), depth);
 
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
@@ -2467,7 +2469,7 @@ static tree eval_array_access(tree t, int depth)
         index = make_int_from_live_var(index);
 
     if (!is_T_INTEGER(index))
-        eval_die(index, "Unknown index type\n");
+        eval_die(t, "Unknown index type\n");
 
     idx = mpz_get_ui(tINT_VAL(index));
 
-- 
2.43.0


From f117e6ea64a6f5d62b356cfd6f4abb3910aaba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:17 +0000
Subject: [PATCH 30/38] fix: a for loop without a condition goes on

It crashed the interpreter.
---
 src/evaluate.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 8166b7c..c6e311e 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2077,14 +2077,17 @@ static tree eval_loop_for(tree t, int depth)
     do {
         tree stmt;
 
-        tree cond_result = convert_to_comparable_type(tFLOOP_COND(t),
-                                                      depth + 1);
+        /* A loop without a condition only ends by a break or a return. */
+        if (!is_T_EMPTY(tFLOOP_COND(t))) {
+            tree cond_result = convert_to_comparable_type(tFLOOP_COND(t),
+                                                          depth + 1);
 
-        if (!is_T_INTEGER(cond_result))
-            eval_die(t, "Unknown condition result");
+            if (!is_T_INTEGER(cond_result))
+                eval_die(t, "Unknown condition result");
 
-        if (!mpz_get_si(tINT_VAL(cond_result)))
-            break;
+            if (!mpz_get_si(tINT_VAL(cond_result)))
+                break;
+        }
 
         push_ctx("For Loop");
         stmt = __evaluate(tFLOOP_STMTS(t), depth + 1);
-- 
2.43.0


From ab0203d5482673e72b31a2e612a5ce855655a889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 31/38] fix: stop with an error when a compound has no such
 member

The access was skipped, or crashed the interpreter where it was used.
---
 src/evaluate.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c6e311e..b4c1e22 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2436,7 +2436,7 @@ static tree eval_enumerator(tree t, int depth)
 static tree eval_comp_access(tree t, int depth)
 {
     tree left = __evaluate_1(tCOMP_ACCESS_OBJ(t), depth + 1),
-        id = tCOMP_ACCESS_MEMBER(t);
+        id = tCOMP_ACCESS_MEMBER(t), member;
 
     if (!is_T_LIVE_COMPOUND(left))
         eval_die(t, "Unknown compound type in compound access\n");
@@ -2444,7 +2444,12 @@ static tree eval_comp_access(tree t, int depth)
     if (!is_T_IDENTIFIER(id))
         eval_die(t, "Unknown accessor in compound access\n");
 
-    return __resolve_id(id, tLV_COMP_MEMBERS(left));
+    member = __resolve_id(id, tLV_COMP_MEMBERS(left));
+
+    if (!member)
+        eval_die(t, "No member %s in compound.\n", tID_STR(id));
+
+    return member;
 }
 
 static tree eval_repl(tree t, int depth)
-- 
2.43.0


From 8d289fb89934bf88577ce6228cd4770816efc65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 32/38] fix: stop with an error when something that is no
 function is called

The call was skipped silently.
---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index b4c1e22..506d24c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -636,7 +636,7 @@ static tree eval_fn_call(tree t, int depth)
         return handler(tFNCALL_ARGS(t));
     }
 
-    return NULL;
+    eval_die(t, "could not call something that isn't a function\n");
 }
 
 static void make_and_map_live_var(tree id, tree type)
-- 
2.43.0


From bfbc9bc4b6df35888c1439dfd8a30b10a23a99d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 33/38] fix: check the number of arguments in calls of native
 code and pointers

Parameters for which there was no argument had random values.
---
 src/evaluate.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 506d24c..535d26b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -422,6 +422,28 @@ static tree eval_fn_args(tree args, int depth)
     return ret;
 }
 
+/* Ensure that the number of arguments in a call of native code matches the
+ * function's declaration, unless that leaves the parameters open. */
+static void check_no_args(tree call, tree params, bool is_variadic)
+{
+    tree i;
+    size_t no_params = 0, no_args = 0;
+
+    if (!params)
+        return;
+
+    for_each_tree(i, params)
+        if (!is_T_VARIADIC(i))
+            no_params++;
+
+    if (tFNCALL_ARGS(call))
+        for_each_tree(i, tFNCALL_ARGS(call))
+            no_args++;
+
+    if (no_args < no_params || (no_args > no_params && !is_variadic))
+        eval_die(call, "Invalid number of parameters to function\n");
+}
+
 static tree alloc_struct(tree struct_decl, int depth);
 static int get_ctype_size(tree t);
 
@@ -579,6 +601,8 @@ static tree eval_fn_call(tree t, int depth)
                 variadic_pos++;
             }
 
+            check_no_args(t, tFN_ARGS(function), is_variadic);
+
             /* Evaluate all arguments before passing into the marshalling
              * function. */
             fn_arg_chain = eval_fn_args(args, depth);
@@ -618,6 +642,8 @@ static tree eval_fn_call(tree t, int depth)
             variadic_pos++;
         }
 
+        check_no_args(t, tFN_ARGS(function_type), is_variadic);
+
         if (!is_D_T_VOID(tFN_RET_TYPE(function_type)))
             ret_lv = make_live_var(tFN_RET_TYPE(function_type));
 
-- 
2.43.0


From b3306287a329ef0ba8908604fb6994298e1b06a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 34/38] fix: stop with an error at a break outside of a loop

It ended the function or the script as if it was complete.
---
 src/evaluate.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 535d26b..8e53624 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -469,6 +469,13 @@ static tree copy_return_value(tree value, int depth)
     return ret;
 }
 
+/* A statement must not be left by a break if there is no loop around it. */
+static void reject_stray_break(tree stmt)
+{
+    if (is_T_BREAK(stmt))
+        eval_die(stmt, "break outside of a loop\n");
+}
+
 static tree eval_fn_call(tree t, int depth)
 {
     /* There are five possibilities here:
@@ -553,7 +560,7 @@ static tree eval_fn_call(tree t, int depth)
             }
 
             if (!setjmp(tECTX_JMP_BUF(cur_ctx))) {
-                __evaluate(tFN_STMTS(function), depth + 1);
+                reject_stray_break(__evaluate(tFN_STMTS(function), depth + 1));
 
                 /* If we reach here, then the function that we called was either
                  * void so a `return` statment was never executed, or it should have
@@ -2917,7 +2924,7 @@ int get_c_main_return_value(tree t)
 void evaluate(tree t, const char *fname)
 {
     current_filename = fname;
-    __evaluate(t, 0);
+    reject_stray_break(__evaluate(t, 0));
 }
 
 tree evaluate_expr(tree t)
-- 
2.43.0


From eac8e44a2f75b5f46dd2cf2f702a70a719e9f607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 35/38] fix: keep static objects whose declaration has been
 evaluated at file scope

---
 src/evaluate.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 8e53624..0149b6f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2746,7 +2746,7 @@ static tree eval_cpp_include(tree t, int depth)
 
 static tree eval_evaluator_ctx(tree t, int depth)
 {
-    tree ret = NULL, mapping;
+    tree ret = NULL, mapping, holder;
 
     /* We should only encounter an E_CTX object when it has been set
      * up by handle_static_decl.  Ensure this is the case by checking
@@ -2773,6 +2773,12 @@ static tree eval_evaluator_ctx(tree t, int depth)
         ret = id;
     }
 
+    /* At file scope nothing else might refer to the declaration any more once
+     * it has been evaluated: a line of the REPL is gone then. */
+    holder = tree_make(E_MAP);
+    tEMAP_LEFT(holder) = t;
+    tree_chain(holder, tECTX_ALLOC_CHAIN(cur_ctx));
+
     return ret;
 }
 
-- 
2.43.0


From 1ba31120f65fa2d55ea8af7e84c6a3f272fa5afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 36/38] fix: accept header files that consist of nothing but
 macros

---
 src/parser.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index cb6f8f5..128fc5c 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -1612,9 +1612,9 @@ CSCRIPT_ONLY
     ;
 
     cscript_translation_unit
-    : cscript_external_declaration
+    : /* A header file can consist of nothing but macros. */
     {
-        TARGET()_parse_head = tree_chain_head($1);
+        TARGET()_parse_head = tree_make(CHAIN_HEAD);
         $$ = TARGET()_parse_head;
     }
     | cscript_translation_unit cscript_external_declaration
-- 
2.43.0


From e29596d14b34cf3d2e3f7e07afb919818d6eed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 37/38] fix: keep objects of header files that are pointed to
 when another is included

---
 src/evaluate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0149b6f..f525519 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2732,6 +2732,10 @@ static tree eval_cpp_include(tree t, int depth)
 
     push_ctx("Include file declarations");
 
+    /* What the former state has allocated may still be pointed to. */
+    if (include_ctx)
+        tECTX_ALLOC_CHAIN(cur_ctx) = tECTX_ALLOC_CHAIN(include_ctx);
+
     /* Delete old #include evaluator state before evaluating the parse
      * tree for the new #includes. */
     include_ctx = NULL;
-- 
2.43.0


From 2cb5866f1d5b37c2ae91de16518dcb06cb8fcfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 38/38] fix: header objects keep their values when another
 header is included

Each #include at the prompt evaluates all headers again, which gave every
object that a header defines a new copy with its initial value, and every
function new static variables.
---
 src/evaluate.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index f525519..458f012 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2695,10 +2695,30 @@ static tree eval_deref(tree t, int depth)
     return ret;
 }
 
+/* All headers are evaluated again for each #include.  The objects and functions
+ * that they had defined before stay the ones that their names refer to. */
+static void keep_include_objects(tree new_ctx, tree old_ctx)
+{
+    tree old, new;
+
+    for_each_tree(old, tECTX_ID_MAP(old_ctx)) {
+        tree obj = tEMAP_RIGHT(old);
+
+        if (!is_T_LIVE_VAR(obj) && !is_T_LIVE_COMPOUND(obj) &&
+            !(is_T_FN(obj) && tFN_STMTS(obj)))
+            continue;
+
+        for_each_tree(new, tECTX_ID_MAP(new_ctx))
+            if (TYPE(tEMAP_RIGHT(new)) == TYPE(obj) &&
+                strcmp(tID_STR(tEMAP_LEFT(new)), tID_STR(tEMAP_LEFT(old))) == 0)
+                tEMAP_RIGHT(new) = obj;
+    }
+}
+
 static tree eval_cpp_include(tree t, int depth)
 {
     extern tree cscript_parse_head;
-    tree cpp_include = tree_make(CPP_INCLUDE);
+    tree cpp_include = tree_make(CPP_INCLUDE), old_ctx = include_ctx;
     FILE *out_file_stream;
     extern FILE *cscriptin;
     int ret;
@@ -2745,6 +2765,9 @@ static tree eval_cpp_include(tree t, int depth)
 
     tECTX_PARENT_CTX(include_ctx) = NULL;
 
+    if (old_ctx)
+        keep_include_objects(include_ctx, old_ctx);
+
     return NULL;
 }
 
-- 
2.43.0

