From 91217f023186b10103572509e3a6d1a07703de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 01/53] fix: line buffer stdout so that printed output isn't
 lost or duplicated at exit/fork when stdout isn't a terminal

---
 main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.c b/main.c
index aede864..fdfb4f9 100644
--- a/main.c
+++ b/main.c
@@ -20,6 +20,10 @@ static void usage(int exitstatus) {
 }
 
 int main(int argc, char *argv[]) {
+    // The process ends with _exit() (see stopVM()), which doesn't flush stdio
+    // buffers. Line buffer stdout even if it isn't a terminal, so that what
+    // was printed isn't lost at exit and isn't duplicated by fork().
+    setvbuf(stdout, NULL, _IOLBF, BUFSIZ);
     initOptions(argc, argv);
     char *fname = NULL;
     char **argvp = argv+1;
-- 
2.43.0


From c7d0e43e8a3c29ae9a18886b614c1edb6ec568ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 02/53] fix: bytecode optimizer left
 break/catch/default-argument offsets stale and mispatched jumps to removed
 instructions

---
 chunk.h    |   1 +
 compiler.c | 306 +++++++++++++++++++++++++++++------------------------
 nodes.h    |   2 +-
 vm.c       |  13 +--
 4 files changed, 171 insertions(+), 151 deletions(-)

diff --git a/chunk.h b/chunk.h
index 6b4b09a..548762d 100644
--- a/chunk.h
+++ b/chunk.h
@@ -59,6 +59,7 @@ typedef struct NodeLvl {
 #define INSN_FL_NUMBER 1
 #define INSN_FL_BREAK 2
 #define INSN_FL_CONTINUE 4
+#define INSN_FL_DATA 8 // raw word, not an instruction
 // single instruction
 typedef struct Insn {
     bytecode_t code;
diff --git a/compiler.c b/compiler.c
index 613d016..14301f6 100644
--- a/compiler.c
+++ b/compiler.c
@@ -181,6 +181,12 @@ static Insn *emitOp0(bytecode_t code) {
     in.numOperands = 0;
     return emitInsn(in);
 }
+// emit a raw word that follows an instruction, isn't an instruction itself
+static Insn *emitData(bytecode_t word) {
+    Insn *in = emitOp0(word);
+    in->flags |= INSN_FL_DATA;
+    return in;
+}
 static Insn *emitOp1(bytecode_t code, bytecode_t op1) {
     Insn in;
     memset(&in, 0, sizeof(Insn));
@@ -460,7 +466,12 @@ static void changeConstant(Iseq *seq, bytecode_t constIdx, Value newVal) {
     seq->constants->values[constIdx] = newVal;
 }
 
+static inline bool isData(Insn *in) {
+    return (in->flags & INSN_FL_DATA) != 0;
+}
+
 static bool isJump(Insn *in) {
+    if (isData(in)) return false;
     switch (in->code) {
         case OP_JUMP:
         case OP_JUMP_IF_FALSE:
@@ -474,79 +485,148 @@ static bool isJump(Insn *in) {
 }
 
 static bool isLoop(Insn *in) {
-    return in->code == OP_LOOP;
+    return in->code == OP_LOOP && !isData(in);
+}
+
+static inline bool isBreak(Insn *in) {
+    return in->code == OP_BREAK && !isData(in);
+}
+
+static inline bool isJumpTarget(Insn *insn) {
+    return insn->isLabel;
+}
+
+static inline bool isPCRelative(Insn *in) {
+    return isJump(in) || isLoop(in) || isBreak(in);
 }
 
 static inline bool isJumpNextInsn(Insn *in) {
-    return in->operands[0] == 0;
+    return in->jumpTo != NULL && in->jumpTo == in->next;
 }
 
-static void patchJumpInsnWithOffset(Insn *jump, int offset) {
-    if (jump->operands[0]+offset > BYTECODE_MAX) {
-        ASSERT(0); // TODO: error out
-    }
-    if (jump->operands[0]+offset <= 0) {
-        ASSERT(0); // TODO: error out
+// A reference to an instruction by offset from outside of the instruction sequence
+typedef struct InsnRef {
+    int *offset;
+    Insn *insn; // NULL if it's the end of the instructions
+} InsnRef;
+
+static InsnRef *insnRefs = NULL;
+static int numInsnRefs = 0;
+
+static int insnWordOffset(Iseq *seq, Insn *insn) {
+    int offset = 0;
+    Insn *in = seq->insns;
+    while (in && in != insn) {
+        offset += in->numOperands+1;
+        in = in->next;
     }
-    jump->operands[0] += offset;
+    return offset;
+}
+
+static Insn *labelAtOffset(Iseq *seq, int offset) {
+    Insn *in = insnAtOffset(seq, offset);
+    if (in) in->isLabel = true;
+    return in; // NULL if it's the end of the instructions
 }
 
-/* Remove the given instruction. If there's a forward jump to this instruction or
- * to an instruction after it, the jump needs to be patched. If there's a backwards jump
- * to this instruction or to an instruction before it, the jump needs to be patched.
+static void addInsnRef(Iseq *seq, int *offset, bool isLabel) {
+    InsnRef *ref = &insnRefs[numInsnRefs++];
+    ref->offset = offset;
+    ref->insn = isLabel ? labelAtOffset(seq, *offset) : insnAtOffset(seq, *offset);
+}
+
+/* Before optimizing, turn all offsets into pointers to the instructions they refer to.
+ * Instructions can then be removed and altered freely, and the offsets are recomputed afterwards
+ * (see restoreOffsets()). These are the offsets in jump instructions, in the catch table, and
+ * in the function's variable, scope and parameter information.
  */
-static void rmInsnAndPatchJumps(Iseq *seq, Insn *insn) {
-    int insnIdx = iseqInsnIndex(seq, insn);
-    ASSERT(insnIdx >= 0);
-    OPT_DEBUG(2, "rmInsnAndPatchLabels insnIdx: %d\n", insnIdx);
-    Insn *in = seq->insns;
-    int idx = 0;
-    while (in) {
-        if (in == insn) { // it will be removed at the end of the function
-            in = in->next;
-            idx++;
-            continue;
-        }
-        // jump instruction found before removed instruction, if it jumps
-        // to the removed instruction or after it, then patch the jump
-        if (idx < insnIdx && isJump(in)) {
-            OPT_DEBUG(2, "Found jump at %d", idx);
-            ASSERT(in->jumpTo || in->jumpToPrev);
-            Insn *jumpTo = in->jumpTo;
-            if (!jumpTo) {
-                jumpTo = in->jumpToPrev->next;
-            }
-            ASSERT(jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, jumpTo);
-            ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex >= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next; // TODO: might be last instruction, in which case the jump should be removed
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d", in->operands[0]);
-                patchJumpInsnWithOffset(in, -(insn->numOperands+1));
-                OPT_DEBUG(2, "Patched jump, offset after: %d", in->operands[0]);
+static void resolveOffsets(Iseq *seq, ObjFunction *func) {
+    int offset = 0;
+    for (Insn *in = seq->insns; in; in = in->next) {
+        int jumpOffset = in->operands[0];
+        if (isJump(in)) {
+            in->jumpTo = labelAtOffset(seq, offset + jumpOffset + 1);
+        } else if (isLoop(in)) {
+            in->jumpTo = labelAtOffset(seq, offset - jumpOffset);
+        } else if (isBreak(in)) {
+            in->jumpTo = labelAtOffset(seq, offset + jumpOffset);
+        }
+        offset += in->numOperands+1;
+    }
+    vec_nodep_t *params = func->funcNode ? (vec_nodep_t*)nodeGetData(func->funcNode) : NULL;
+    int maxRefs = func->variables.length + 2*func->scopes.length + (params ? params->length : 0);
+    for (CatchTable *row = seq->catchTbl; row; row = row->next) {
+        maxRefs += 3;
+    }
+    insnRefs = xcalloc(maxRefs+1, sizeof(InsnRef));
+    ASSERT_MEM(insnRefs);
+    numInsnRefs = 0;
+    for (CatchTable *row = seq->catchTbl; row; row = row->next) {
+        addInsnRef(seq, &row->ifrom, true);
+        addInsnRef(seq, &row->ito, true);
+        addInsnRef(seq, &row->itarget, true);
+    }
+    int i = 0;
+    LocalVariable *var = NULL;
+    vec_foreach(&func->variables, var, i) {
+        addInsnRef(seq, &var->bytecode_declare_start, false);
+    }
+    Scope *scope = NULL;
+    vec_foreach(&func->scopes, scope, i) {
+        addInsnRef(seq, &scope->bytecode_start, false);
+        if (scope->bytecode_end >= 0) {
+            addInsnRef(seq, &scope->bytecode_end, false);
+        }
+    }
+    if (params) {
+        Node *param = NULL;
+        vec_foreach(params, param, i) {
+            if (param->type.kind == PARAM_NODE_DEFAULT_ARG) {
+                addInsnRef(seq, &((ParamNodeInfo*)param->data)->defaultArgEndOffset, true);
             }
-        // loop instruction found after removed instruction, if it jumps
-        // to the removed instruction or before it, then patch the loop
-        } else if (idx > insnIdx && isLoop(in)) {
-            OPT_DEBUG(2, "Found loop at %d", idx);
-            ASSERT(in->jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, in->jumpTo);
-            ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex <= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next;
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d", in->operands[0]);
-                patchJumpInsnWithOffset(in, -(insn->numOperands+1));
-                OPT_DEBUG(2, "Patched jump, offset after: %d", in->operands[0]);
+        }
+    }
+    ASSERT(numInsnRefs <= maxRefs);
+}
+
+static void restoreOffsets(Iseq *seq) {
+    int offset = 0;
+    for (Insn *in = seq->insns; in; in = in->next) {
+        if (isPCRelative(in)) {
+            int target = insnWordOffset(seq, in->jumpTo);
+            if (isJump(in)) {
+                in->operands[0] = target - offset - 1;
+            } else if (isLoop(in)) {
+                in->operands[0] = offset - target;
+            } else {
+                in->operands[0] = target - offset;
             }
         }
-        in = in->next;
-        idx++;
+        offset += in->numOperands+1;
+    }
+    for (int i = 0; i < numInsnRefs; i++) {
+        *insnRefs[i].offset = insnWordOffset(seq, insnRefs[i].insn);
+    }
+    xfree(insnRefs);
+    insnRefs = NULL;
+    numInsnRefs = 0;
+}
+
+/* Remove the given instruction. If there's a jump to this instruction, it now jumps
+ * to the instruction after it.
+ */
+static void rmInsnAndPatchJumps(Iseq *seq, Insn *insn) {
+    Insn *next = insn->next;
+    for (Insn *in = seq->insns; in; in = in->next) {
+        if (isPCRelative(in) && in->jumpTo == insn) {
+            in->jumpTo = next;
+        }
+    }
+    for (int i = 0; i < numInsnRefs; i++) {
+        if (insnRefs[i].insn == insn) insnRefs[i].insn = next;
+    }
+    if (isJumpTarget(insn) && next) {
+        next->isLabel = true;
     }
     iseqRmInsn(seq, insn);
 }
@@ -556,17 +636,13 @@ static int replaceJumpInsn(Iseq *seq, Insn *jumpInsn) {
         case OP_JUMP:
         case OP_JUMP_IF_FALSE_PEEK:
         case OP_JUMP_IF_TRUE_PEEK:
-            if (!jumpInsn->isLabel) {
-                rmInsnAndPatchJumps(seq, jumpInsn);
-                return -1;
-            } else {
-                return 0;
-            }
+            rmInsnAndPatchJumps(seq, jumpInsn);
+            return -1;
         case OP_JUMP_IF_FALSE:
-            if (!jumpInsn->isLabel) {
-                jumpInsn->code = OP_POP;
-                jumpInsn->numOperands = 0;
-            }
+        case OP_JUMP_IF_TRUE:
+            jumpInsn->code = OP_POP;
+            jumpInsn->numOperands = 0;
+            seq->wordCount--;
             return 0;
         default:
             UNREACHABLE("bug");
@@ -623,10 +699,6 @@ static inline bool isPopType2(Insn *insn) {
         insn->code == OP_POP_DEBUG;
 }
 
-static inline bool isJumpTarget(Insn *insn) {
-    return insn->isLabel;
-}
-
 static void addInsnOperand(Iseq *seq, Insn *insn, bytecode_t operand) {
     ASSERT(insn->numOperands >= 0);
     if (insn->numOperands == MAX_INSN_OPERANDS) {
@@ -635,59 +707,11 @@ static void addInsnOperand(Iseq *seq, Insn *insn, bytecode_t operand) {
     insn->operands[insn->numOperands] = operand;
     insn->numOperands+=1;
     seq->wordCount += 1;
-    int insnIdx = iseqInsnIndex(seq, insn);
-    ASSERT(insnIdx >= 0);
-    Insn *in = seq->insns;
-    int idx = 0;
-    while (in) {
-        if (in == insn) {
-            in = in->next;
-            idx++;
-            continue;
-        }
-        // jump instruction found before altered instruction, if it jumps
-        // to the altered instruction or after it, then patch the jump
-        if (idx < insnIdx && isJump(in)) {
-            OPT_DEBUG(2, "Found jump at %d", idx);
-            Insn *jumpTo = in->jumpTo;
-            if (!jumpTo) {
-                jumpTo = in->jumpToPrev->next;
-            }
-            ASSERT(jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, jumpTo);
-            ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex >= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next; // TODO: might be last instruction, in which case the jump should be removed
-                    in->jumpToPrev = NULL;
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d", in->operands[0]);
-                patchJumpInsnWithOffset(in, 1);
-                OPT_DEBUG(2, "Patched jump, offset after: %d", in->operands[0]);
-            }
-        } else if (idx > insnIdx && isLoop(in)) {
-            OPT_DEBUG(2, "Found loop at %d", idx);
-            ASSERT(in->jumpTo);
-            int jumpToIndex = iseqInsnIndex(seq, in->jumpTo);
-            ASSERT(jumpToIndex >= 0);
-            OPT_DEBUG(2, "Jump to index: %d", jumpToIndex);
-            if (jumpToIndex <= insnIdx) {
-                if (jumpToIndex == insnIdx) {
-                    in->jumpTo = insn->next;
-                }
-                OPT_DEBUG(2, "Patching jump, offset before: %d\n", in->operands[0]);
-                patchJumpInsnWithOffset(in, 1);
-                OPT_DEBUG(2, "Patched jump, offset after: %d\n", in->operands[0]);
-            }
-        }
-        in = in->next;
-        idx++;
-    }
 }
 
-static void optimizeIseq(Iseq *iseq) {
+static void optimizeIseq(Iseq *iseq, ObjFunction *func) {
     COMP_TRACE("OptimizeIseq");
+    resolveOffsets(iseq, func);
     Insn *cur = iseq->insns; // first insn
     Insn *prev = NULL;
     Insn *prevp = NULL;
@@ -696,10 +720,16 @@ static void optimizeIseq(Iseq *iseq) {
         COMP_TRACE("optimize idx %d", idx);
         prev = cur->prev; // can be NULL
         prevp = NULL;
+        // not an instruction, leave it and the instruction after it as they are
+        if (isData(cur) || (prev && isData(prev))) {
+            cur = cur->next;
+            idx++;
+            continue;
+        }
         // constant folding, ex: turn 2+2 into 4
         if (isBinOp(cur)) {
             if (prev && ((prevp = prev->prev) != NULL)) {
-                if (isNumConstOp(prev) && isNumConstOp(prevp)) {
+                if (isNumConstOp(prev) && isNumConstOp(prevp) && !isJumpTarget(prev) && !isJumpTarget(cur)) {
                     COMP_TRACE("constant folding candidate found");
                     Value newVal = foldConstant(iseq, cur, prev, prevp);
                     if (IS_UNDEF(newVal)) { // such as divide by 0
@@ -743,7 +773,7 @@ static void optimizeIseq(Iseq *iseq) {
 
         // replace/remove jump instruction if test is a constant (ex: `if (true)`) =>
         // OP_TRUE, OP_POP
-        if (isJump(cur) && (prev && isConst(prev))) {
+        if (isJump(cur) && !isJumpTarget(cur) && (prev && isConst(prev))) {
             COMP_TRACE("Found constant conditional, removing/replacing JUMP");
             bool deleted = false;
             if (isJumpIfFalse(cur) && constBool(prev)) {
@@ -765,7 +795,7 @@ static void optimizeIseq(Iseq *iseq) {
 
         // 1+1; OP_CONSTANT '2', OP_POP => nothing (unused constant expression)
         if (!compilerOpts.noRemoveUnusedExpressions) {
-            if (isPop(cur) && (prev && noSideEffectsConst(prev))) {
+            if (isPop(cur) && !isJumpTarget(cur) && (prev && noSideEffectsConst(prev))) {
                 Insn *next = cur->next;
                 // OP_BLOCK_CONTINUE takes the popped value from previous pop, so needs it
                 if (!next || next->code != OP_BLOCK_CONTINUE) {
@@ -782,14 +812,15 @@ static void optimizeIseq(Iseq *iseq) {
         idx++;
         cur = cur->next;
     }
+    restoreOffsets(iseq);
     COMP_TRACE("/OptimizeIseq");
 }
 
-static void copyIseqToChunk(Iseq *iseq, Chunk *chunk) {
+static void copyIseqToChunk(Iseq *iseq, Chunk *chunk, ObjFunction *func) {
     ASSERT(iseq);
     ASSERT(chunk);
     if (!compilerOpts.noOptimize) {
-        optimizeIseq(iseq);
+        optimizeIseq(iseq, func);
     }
     COMP_TRACE("copyIseqToChunk (%d insns, wordcount: %d)", iseq->count, iseq->wordCount);
     chunk->catchTbl = iseq->catchTbl;
@@ -816,7 +847,7 @@ static ObjFunction *endCompiler() {
         emitLeave();
     }
     ObjFunction *func = current->function;
-    copyIseqToChunk(currentIseq(), currentChunk());
+    copyIseqToChunk(currentIseq(), currentChunk(), func);
     freeTable(&current->constTbl);
     freeIseq(&current->iseq);
     func->localCount = current->localCountMax;
@@ -985,10 +1016,6 @@ static void emitLoop(int loopStart) {
   loopInsn->jumpTo->isLabel = true;
 }
 
-static inline bool isBreak(Insn *in) {
-    return (in->code == OP_BREAK);
-}
-
 static void patchBreak(Insn *br, int offset, Insn *label) {
     br->operands[0] = offset;
     if (label) {
@@ -1602,17 +1629,14 @@ static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
             uint8_t localSlot = declareVariable(&param->tok);
             defineVariable(&param->tok, localSlot, true);
             func->numDefaultArgs++;
-            Insn *insnBefore = currentIseq()->tail; // NOTE: can be NULL
             emitNode(vec_first(param->children)); // default arg
             // the VM skips these instructions if the argument is supplied
             emitOp2(OP_SET_LOCAL, (bytecode_t)localSlot, identifierConstant(&param->tok));
             emitOp0(OP_POP);
-            Insn *insnAfter = currentIseq()->tail;
-            size_t codeDiff = iseqInsnWordDiff(insnBefore, insnAfter);
             // TODO: use ALLOCATE, and make sure to free when freeing the node
             ParamNodeInfo *paramNodeInfo = xcalloc(1, sizeof(ParamNodeInfo));
             ASSERT_MEM(paramNodeInfo);
-            paramNodeInfo->defaultArgIPOffset = codeDiff;
+            paramNodeInfo->defaultArgEndOffset = currentIseq()->wordCount;
             ASSERT(param->data == NULL);
             param->data = paramNodeInfo;
         } else if (param->type.kind == PARAM_NODE_SPLAT) {
@@ -1678,8 +1702,8 @@ static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
     ASSERT_MEM(func->upvaluesInfo);
     for (int i = 0; i < func->upvalueCount; i++) {
         if (ftype != FUN_TYPE_BLOCK) {
-            emitOp0(fCompiler.upvalues[i].isLocal ? 1 : 0);
-            emitOp0(fCompiler.upvalues[i].index);
+            emitData(fCompiler.upvalues[i].isLocal ? 1 : 0);
+            emitData(fCompiler.upvalues[i].index);
         }
         func->upvaluesInfo[i] = fCompiler.upvalues[i]; // copy upvalue info
     }
diff --git a/nodes.h b/nodes.h
index 447cc47..fd32021 100644
--- a/nodes.h
+++ b/nodes.h
@@ -150,7 +150,7 @@ static const char *otherTypeNames[] = {
 };
 
 typedef struct ParamNodeInfo {
-    size_t defaultArgIPOffset;
+    int defaultArgEndOffset; // offset of the instruction after the default argument code
 } ParamNodeInfo;
 
 typedef enum eNodeType {
diff --git a/vm.c b/vm.c
index 928b982..131bd1d 100644
--- a/vm.c
+++ b/vm.c
@@ -1840,20 +1840,15 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
         Node *param = NULL;
         int pi = 0;
         int unused = numDefaultArgsUnused;
-        vec_foreach_rev(params, param, pi) {
-            if (param->type.kind == PARAM_NODE_SPLAT) continue;
-            if (param->type.kind == PARAM_NODE_BLOCK) continue;
+        vec_foreach(params, param, pi) {
             if (param->type.kind == PARAM_NODE_DEFAULT_ARG) {
-                size_t offset = ((ParamNodeInfo*)param->data)->defaultArgIPOffset;
-                VM_DEBUG(2, "default param found: offset=%d", (int)offset);
-                funcOffset += offset;
+                funcOffset = ((ParamNodeInfo*)param->data)->defaultArgEndOffset;
+                VM_DEBUG(2, "default param found: offset=%d", (int)funcOffset);
                 unused--;
                 if (unused == 0) break;
-            } else {
-                ASSERT(0); // unreachable, default args should be last args, not including splat or block arg
-                break;
             }
         }
+        ASSERT(unused == 0);
     }
 
     if (func->hasBlockArg && callInfo->blockFunction && IS_NIL(blockInstance)) {
-- 
2.43.0


From 84beeff47149d9dd2dce492c42462ba38f4134f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 03/53] fix: continue in for loops skipped the increment,
 break/continue leaked loop body variables on the stack

---
 compiler.c | 81 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 31 deletions(-)

diff --git a/compiler.c b/compiler.c
index 14301f6..7bbcf9e 100644
--- a/compiler.c
+++ b/compiler.c
@@ -63,6 +63,7 @@ static int blockDepth = 0;
 static bool breakBlock = false;
 static Scope *curScope = NULL;
 static int loopLocalCount = 0; // for continue statement
+static int loopBreakPops = 0; // extra values to pop in break statement
 static int nextInsnIsLabel = false;
 
 CompilerOpts compilerOpts; // [external]
@@ -283,7 +284,10 @@ static void popScope(CompileScopeType stype) {
             COMP_TRACE("popScope closing upvalue");
             emitCloseUpvalue();
         } else {
-            if (current->type != FUN_TYPE_BLOCK && local->popOnScopeEnd) {
+            // The value of a block is its last popped value, so keep the variables on the
+            // stack, except in loops where they'd pile up.
+            bool keepLocal = current->type == FUN_TYPE_BLOCK && curLoopType == LOOP_T_BLOCK;
+            if (!keepLocal && local->popOnScopeEnd) {
                 COMP_TRACE("popScope emitting OP_POP");
                 popLocal(local);
             }
@@ -927,11 +931,35 @@ static inline Insn *emitJump(OpCode jumpOp) {
     return emitOp1(jumpOp, 0); // patched later
 }
 
+// pop the variables that are local to the loop body, for jumping out of the body.
+// They're still in scope for the code after the jump.
+static void popLoopLocals(void) {
+    for (int i = current->localCount-1; i >= loopLocalCount; i--) {
+        Local *local = &current->locals[i];
+        if (local->isUpvalue) {
+            emitCloseUpvalue();
+        } else if (local->popOnScopeEnd) {
+            popLocal(local);
+        }
+    }
+}
+
 static inline Insn *emitBreak(void) {
-    Insn *br = emitOp2(OP_BREAK, 0, current->localCount - loopLocalCount); // patched later
+    popLoopLocals();
+    for (int i = 0; i < loopBreakPops; i++) {
+        emitOp0(OP_POP);
+    }
+    Insn *br = emitOp2(OP_BREAK, 0, 0); // patched later
     return br;
 }
 
+static inline Insn *emitContinue(void) {
+    popLoopLocals();
+    Insn *in = emitJump(OP_JUMP); // patched later
+    in->flags |= INSN_FL_CONTINUE;
+    return in;
+}
+
 static int insnOffset(Insn *start, Insn *end) {
     ASSERT(start);
     ASSERT(end);
@@ -977,27 +1005,14 @@ static inline bool isContinue(Insn *in) {
             (in->flags & INSN_FL_CONTINUE) != 0);
 }
 
-static Insn *getInsnTail(int tail_index) {
-    Insn *cur = currentIseq()->tail;
-    int idx = tail_index;
-    while (cur && idx > 0) {
-        cur = cur->prev;
-        idx--;
-    }
-    return cur;
-}
-
-static void patchContinuesBetween(Insn *a, Insn *b) {
-  Insn *cur = a;
-  while (cur != b) {
+// Called after emitting the body of the loop, makes the `continue`s that belong to this
+// loop jump to the end of the body. `bodyStart` is the instruction before the loop body.
+static void patchContinues(Insn *bodyStart) {
+  Insn *cur = bodyStart->next;
+  while (cur) {
     if (isContinue(cur)) {
-      int insn_tail_index = cur->extra; // number of pops to keep
-      Insn *jumpTo = getInsnTail(insn_tail_index);
-      if (insn_tail_index > 0) {
-          ASSERT(isPopType2(jumpTo));
-      }
-      patchJump(cur, -1, jumpTo);
-      COMP_TRACE("jump offset found, patching continue (pops=%d)", insn_tail_index);
+      cur->flags &= ~INSN_FL_CONTINUE; // patched, doesn't belong to an outer loop
+      patchJump(cur, -1, NULL);
     }
     cur = cur->next;
   }
@@ -2062,9 +2077,13 @@ static void emitNode(Node *n) {
         pushScope(COMPILE_SCOPE_WHILE);
 
         int oldLoopLocalCount = loopLocalCount;
+        int oldLoopBreakPops = loopBreakPops;
         loopLocalCount = current->localCount;
+        loopBreakPops = 0;
         emitNode(n->children->data[1]); // while block
         loopLocalCount = oldLoopLocalCount;
+        loopBreakPops = oldLoopBreakPops;
+        patchContinues(whileJumpStart);
 
         curLoopType = oldLoopType;
         loopLabel->jumpTo = whileJumpStart;
@@ -2099,9 +2118,13 @@ static void emitNode(Node *n) {
 
         curLoopType = LOOP_T_FOR;
         int oldLoopLocalCount = loopLocalCount;
+        int oldLoopBreakPops = loopBreakPops;
         loopLocalCount = current->localCount;
+        loopBreakPops = 0;
         emitNode(forBlock);
         loopLocalCount = oldLoopLocalCount;
+        loopBreakPops = oldLoopBreakPops;
+        patchContinues(forJump);
 
         curLoopType = lastLoopType;
         Node *incrExpr = n->children->data[2];
@@ -2110,7 +2133,6 @@ static void emitNode(Node *n) {
         }
         emitLoop(beforeTest);
         patchJump(forJump, -1, NULL);
-        // TODO: patch continues
         patchBreaks(forJump, currentIseq()->tail, 2); // breaks go after the previous loop
         loopStart = oldLoopStart;
         breakBlock = oldBreakBlock;
@@ -2157,13 +2179,15 @@ static void emitNode(Node *n) {
         curLoopType = LOOP_T_FOREACH;
 
         int oldLoopLocalCount = loopLocalCount;
+        int oldLoopBreakPops = loopBreakPops;
         loopLocalCount = current->localCount;
+        loopBreakPops = numVars > 1 ? numVars : 0; // the unpacked values
         emitNode(n->children->data[i]); // foreach block
         loopLocalCount = oldLoopLocalCount;
+        loopBreakPops = oldLoopBreakPops;
 
         curLoopType = lastLoopType;
-        Insn *afterForeach = currentIseq()->tail;
-        patchContinuesBetween(beforeForeach, afterForeach);
+        patchContinues(beforeForeach);
         if (numVars == 1) {
             emitOp0(OP_POP); // pop the iterator value
         }
@@ -2205,13 +2229,8 @@ static void emitNode(Node *n) {
                 emitOp0(OP_POP);
             }
             emitOp0(OP_BLOCK_CONTINUE);
-        } else if (curLoopType == LOOP_T_FOREACH) {
-            Insn *in = emitJump(OP_JUMP);
-            in->flags = INSN_FL_CONTINUE;
-            in->extra = current->localCount-loopLocalCount;
         } else {
-            ASSERT(curLoopType == LOOP_T_WHILE || curLoopType == LOOP_T_FOR);
-            emitLoop(loopStart); // WHILE or FOR
+            emitContinue();
         }
         break;
     }
-- 
2.43.0


From 91612accfee9365df5885481d694505163e674c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 04/53] fix: continue in for loops skipped the increment,
 break/continue leaked loop body variables on the stack (blocks)

---
 compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler.c b/compiler.c
index 7bbcf9e..2d33e6b 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1697,12 +1697,12 @@ static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
     eLoopType oldLoopType = curLoopType;
     curLoopType = LOOP_T_BLOCK;
     emitChildren(n);
-    curLoopType = oldLoopType;
     if (ftype == FUN_TYPE_BLOCK) {
         blockDepth--;
         breakBlock = oldBreakBlock;
     }
     popScope(stype);
+    curLoopType = oldLoopType;
     func = endCompiler();
     ASSERT(func->chunk);
 
-- 
2.43.0


From 60f87a70b383e74cc119470379cac16b5f2e8698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 05/53] fix: assignments to captured variables weren't seen by
 the function that owns them, and blocks captured variables of the function
 that yields

---
 runtime.c | 14 ++++++++++----
 runtime.h |  1 +
 vm.c      | 30 ++++++++++++++++++++++++++++--
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/runtime.c b/runtime.c
index b1ff811..6eecdbd 100644
--- a/runtime.c
+++ b/runtime.c
@@ -300,8 +300,8 @@ static inline ObjClosure *closureFromFn(ObjFunction *func) {
     return newClosure(func, NEWOBJ_FLAG_NONE);
 }
 
-static inline CallFrame *getOuterClosureFrame() {
-    CallFrame *frame = getFrame()->prev;
+// nearest non-native frame, starting at `frame`
+static inline CallFrame *nearestClosureFrame(CallFrame *frame) {
     while (frame) {
         if (!frame->closure) {
             frame = frame->prev;
@@ -312,7 +312,11 @@ static inline CallFrame *getOuterClosureFrame() {
     return NULL;
 }
 
-static void fillClosureUpvalues(ObjClosure *block, ObjClosure *outer, CallFrame *frame) {
+static inline CallFrame *getOuterClosureFrame() {
+    return nearestClosureFrame(getFrame()->prev);
+}
+
+void fillClosureUpvalues(ObjClosure *block, ObjClosure *outer, CallFrame *frame) {
     ObjFunction *blockFn = block->function;
     ASSERT(blockFn);
     ASSERT(frame);
@@ -364,7 +368,9 @@ Value lxYield(int argCount, Value *args) {
         ObjClosure *blockClosure = NULL;
         blockClosure = closureFromFn((ObjFunction*)block);
         blockClosure->isBlock = true;
-        CallFrame *outerFrame = getOuterClosureFrame();
+        // the frame that gave the block, it's the caller of the function that yields
+        CallFrame *outerFrame = nearestClosureFrame(frame->prev);
+        ASSERT(outerFrame);
         ObjClosure *outerClosure = outerFrame->closure;
         ASSERT(outerClosure);
         fillClosureUpvalues(blockClosure, outerClosure, outerFrame);
diff --git a/runtime.h b/runtime.h
index cbbccee..eb5ef48 100644
--- a/runtime.h
+++ b/runtime.h
@@ -69,6 +69,7 @@ Value lxSleep(int argCount, Value *args);
 void threadSleepNano(LxThread *th, int secs);
 Value lxYield(int argCount, Value *args);
 Value lxBlockGiven(int argCount, Value *args);
+void fillClosureUpvalues(ObjClosure *block, ObjClosure *outer, CallFrame *frame);
 Value yieldFromC(int argCount, Value *args, ObjInstance *blkObj);
 Value lxExit(int argCount, Value *args);
 Value lx_Exit(int argCount, Value *args);
diff --git a/vm.c b/vm.c
index 131bd1d..3022e0c 100644
--- a/vm.c
+++ b/vm.c
@@ -1852,9 +1852,12 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     }
 
     if (func->hasBlockArg && callInfo->blockFunction && IS_NIL(blockInstance)) {
-        // TODO: get closure created here with upvals!
         Value blockClosure = OBJ_VAL(newClosure(callInfo->blockFunction, NEWOBJ_FLAG_NONE));
         hideFromGC(AS_OBJ(blockClosure));
+        CallFrame *outerFrame = getFrame();
+        while (outerFrame && !outerFrame->closure) outerFrame = outerFrame->prev;
+        ASSERT(outerFrame);
+        fillClosureUpvalues(AS_CLOSURE(blockClosure), outerFrame->closure, outerFrame);
         Obj *blkClosure = AS_OBJ(blockClosure);
         push(newBlock(blkClosure));
         unhideFromGC(AS_OBJ(blockClosure));
@@ -2232,6 +2235,29 @@ void printVMStack(FILE *f, LxThread *th) {
     fprintf(f, "\n");
 }
 
+// Set the captured variable. If the function that owns the variable is still
+// running, it needs to see the new value too, and it looks it up in its scope's
+// table of locals.
+static void setUpvalue(ObjUpvalue *upvalue, Value val) {
+    Value *slot = upvalue->value;
+    *slot = val;
+    if (slot == &upvalue->closed) return; // owner returned
+    LxThread *th = vm.curThread;
+    VMExecContext *ctx = NULL; int ctxIdx = 0;
+    vec_foreach_rev(&th->v_ecs, ctx, ctxIdx) {
+        if (slot < ctx->stack || slot >= ctx->stack + ctx->stack_capa) continue;
+        for (int i = (int)ctx->frameCount-1; i >= 0; i--) {
+            CallFrame *frame = &ctx->frames[i];
+            if (frame->isCCall || !frame->scope || frame->slots > slot) continue;
+            int idx = slot - frame->slots;
+            if (idx < frame->scope->localsTable.size) {
+                frame->scope->localsTable.tbl[idx] = val;
+            }
+            return;
+        }
+    }
+}
+
 ObjUpvalue *captureUpvalue(Value *local) {
     LxThread *th = vm.curThread;
     ObjInstance *threadInst = FIND_THREAD_INSTANCE(th->tid);
@@ -2779,7 +2805,7 @@ vmLoop:
           bytecode_t slot = READ_WORD();
           bytecode_t varName = READ_WORD(); // for debugging
           (void)varName;
-          *frame->closure->upvalues[slot]->value = peek(0);
+          setUpvalue(frame->closure->upvalues[slot], peek(0));
           DISPATCH_BOTTOM();
       }
       CASE_OP(CLOSE_UPVALUE): {
-- 
2.43.0


From 5c5b597cfa83ac85bb59b2a7c8027b548484b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 06/53] fix: try/catch/ensure inside blocks, loaded scripts and
 recursive calls, value stack not restored by errors and block jumps, stack
 overflow crashed

---
 block.c    |   9 +-
 chunk.c    |  10 +-
 chunk.h    |   7 +-
 compiler.c |  56 +++++----
 compiler.h |   1 -
 runtime.c  |  17 +--
 vm.c       | 334 +++++++++++++++++++----------------------------------
 vm.h       |  12 +-
 8 files changed, 179 insertions(+), 267 deletions(-)

diff --git a/block.c b/block.c
index e98398c..1412cee 100644
--- a/block.c
+++ b/block.c
@@ -69,10 +69,6 @@ static Value lxBlockYield(int argCount, Value *args) {
     Value self = *args;
     LxBlock *blk = blockGetHidden(self);
     Value callable = OBJ_VAL(blk->callable);
-    push(callable);
-    for (int i = 1; i < argCount; i++) {
-        push(args[i]);
-    }
     volatile int status = 0;
     Obj *block = blockCallableBlock(self);
     volatile LxThread *th = THREAD();
@@ -80,7 +76,6 @@ static Value lxBlockYield(int argCount, Value *args) {
     SETUP_BLOCK(block, bentry, status, th->errInfo)
     if (status == TAG_NONE) {
     } else if (status == TAG_RAISE) {
-        pop();
         ObjInstance *errInst = AS_INSTANCE(th->lastErrorThrown);
         ASSERT(errInst);
         if (errInst->klass == lxBreakBlockErrClass) {
@@ -93,6 +88,10 @@ static Value lxBlockYield(int argCount, Value *args) {
             throwError(th->lastErrorThrown);
         }
     }
+    push(callable);
+    for (int i = 1; i < argCount; i++) {
+        push(args[i]);
+    }
     callCallable(callable, argCount-1, false, NULL);
     UNREACHABLE("block didn't longjmp?"); // blocks should always longjmp out
 }
diff --git a/chunk.c b/chunk.c
index a342295..dd60c86 100644
--- a/chunk.c
+++ b/chunk.c
@@ -207,6 +207,7 @@ int iseqAddCatchRow(
     int ifrom,
     int ito,
     int itarget,
+    int stackDepth,
     Value catchVal
 ) {
     CatchTable *tblRow = ALLOCATE(CatchTable, 1);
@@ -215,8 +216,7 @@ int iseqAddCatchRow(
     tblRow->itarget = itarget;
     tblRow->catchVal = catchVal;
     tblRow->isEnsure = false;
-    tblRow->isEnsureRunning = false;
-    memset(&tblRow->lastThrownValue, 0, sizeof(Value));
+    tblRow->stackDepth = stackDepth;
     tblRow->next = NULL;
 
     CatchTable *row = seq->catchTbl;
@@ -238,7 +238,8 @@ int iseqAddEnsureRow(
     Iseq *seq,
     int ifrom,
     int ito,
-    int itarget
+    int itarget,
+    int stackDepth
 ) {
     CatchTable *tblRow = ALLOCATE(CatchTable, 1);
     tblRow->ifrom = ifrom;
@@ -246,8 +247,7 @@ int iseqAddEnsureRow(
     tblRow->itarget = itarget;
     tblRow->catchVal = NIL_VAL;
     tblRow->isEnsure = true;
-    tblRow->isEnsureRunning = false;
-    memset(&tblRow->lastThrownValue, 0, sizeof(Value));
+    tblRow->stackDepth = stackDepth;
     tblRow->next = NULL;
 
     CatchTable *row = seq->catchTbl;
diff --git a/chunk.h b/chunk.h
index 548762d..489d9e4 100644
--- a/chunk.h
+++ b/chunk.h
@@ -20,12 +20,11 @@ typedef struct CatchTable {
     int ifrom; // instruction try block start
     int ito; // instruction try block end
     int itarget; // instruction catch or ensure block start
+    int stackDepth; // number of values in the callframe's stack slots at the try statement
     Value catchVal; // catch class or other value, if it's a catch block
-    Value lastThrownValue; // runtime VM value of last thrown instance, if any. Otherwise it's NIL_VAL
 
     struct CatchTable *next; // next row in the catch table
     bool isEnsure; // is an ensure block
-    bool isEnsureRunning;
 } CatchTable;
 
 /**
@@ -117,13 +116,15 @@ int iseqAddCatchRow(
     int ifrom,
     int ito,
     int itarget,
+    int stackDepth,
     Value catchVal
 );
 int iseqAddEnsureRow(
     Iseq *seq,
     int ifrom,
     int ito,
-    int itarget
+    int itarget,
+    int stackDepth
 );
 
 // debugging
diff --git a/compiler.c b/compiler.c
index 2d33e6b..99be542 100644
--- a/compiler.c
+++ b/compiler.c
@@ -277,6 +277,11 @@ static void popLocal(Local *local) {
 }
 
 static void popScope(CompileScopeType stype) {
+    if (current->type == FUN_TYPE_BLOCK && stype == COMPILE_SCOPE_FUNCTION && current->iseq.count == 0) {
+        // empty block
+        emitOp0(OP_NIL);
+        emitOp0(OP_POP);
+    }
     COMP_TRACE("popScope: %s (depth=%d)", compileScopeName(stype), current->scopeDepth);
     while (current->localCount > 0 && current->locals[current->localCount - 1].depth >= current->scopeDepth) {
         Local *local = &current->locals[current->localCount-1];
@@ -284,12 +289,15 @@ static void popScope(CompileScopeType stype) {
             COMP_TRACE("popScope closing upvalue");
             emitCloseUpvalue();
         } else {
-            // The value of a block is its last popped value, so keep the variables on the
-            // stack, except in loops where they'd pile up.
-            bool keepLocal = current->type == FUN_TYPE_BLOCK && curLoopType == LOOP_T_BLOCK;
-            if (!keepLocal && local->popOnScopeEnd) {
-                COMP_TRACE("popScope emitting OP_POP");
-                popLocal(local);
+            if (local->popOnScopeEnd) {
+                if (current->type == FUN_TYPE_BLOCK) {
+                    // The value of a block is its last popped value, OP_CLOSE_UPVALUE
+                    // doesn't change it.
+                    emitCloseUpvalue();
+                } else {
+                    COMP_TRACE("popScope emitting OP_POP");
+                    popLocal(local);
+                }
             }
         }
         current->localCount--;
@@ -798,19 +806,16 @@ static void optimizeIseq(Iseq *iseq, ObjFunction *func) {
         }
 
         // 1+1; OP_CONSTANT '2', OP_POP => nothing (unused constant expression)
-        if (!compilerOpts.noRemoveUnusedExpressions) {
+        // The last expression in a block is its value.
+        if (!compilerOpts.noRemoveUnusedExpressions && current->type != FUN_TYPE_BLOCK) {
             if (isPop(cur) && !isJumpTarget(cur) && (prev && noSideEffectsConst(prev))) {
-                Insn *next = cur->next;
-                // OP_BLOCK_CONTINUE takes the popped value from previous pop, so needs it
-                if (!next || next->code != OP_BLOCK_CONTINUE) {
-                    COMP_TRACE("removing side effect expr 1");
-                    rmInsnAndPatchJumps(iseq, prev);
-                    COMP_TRACE("removing side effect expr 2");
-                    rmInsnAndPatchJumps(iseq, cur);
-                    cur = iseq->insns;
-                    idx = 0;
-                    continue;
-                }
+                COMP_TRACE("removing side effect expr 1");
+                rmInsnAndPatchJumps(iseq, prev);
+                COMP_TRACE("removing side effect expr 2");
+                rmInsnAndPatchJumps(iseq, cur);
+                cur = iseq->insns;
+                idx = 0;
+                continue;
             }
         }
         idx++;
@@ -2475,6 +2480,7 @@ static void emitNode(Node *n) {
         vec_void_t vjumps;
         vec_init(&vjumps);
         int ifrom = iseq->wordCount; // start of try block
+        int stackDepth = current->localCount;
         emitNode(n->children->data[0]); // try block
         bool skipJumpToEnd = false;
         if (n->children->length == 2) {
@@ -2520,7 +2526,7 @@ static void emitNode(Node *n) {
                     STRING_SET_STATIC(className);
                     double catchTblRowIdx = (double)iseqAddCatchRow(
                             iseq, ifrom, ito,
-                            itarget, OBJ_VAL(className)
+                            itarget, stackDepth, OBJ_VAL(className)
                             );
                     pushScope(COMPILE_SCOPE_TRY);
                     // given variable expression to bind to (Ex: (catch Error err))
@@ -2565,11 +2571,17 @@ static void emitNode(Node *n) {
                             patchJump(jump, -1, currentIseq()->tail);
                         }
                         vec_clear(&vjumps);
-                        double catchTblRowIdx = iseqAddEnsureRow(iseq, ifrom, ito, itarget);
-                        bytecode_t rethrowIfArg = makeConstant(NUMBER_VAL(catchTblRowIdx), CONST_T_NUMLIT);
                         pushScope(COMPILE_SCOPE_TRY);
+                        // The error to rethrow after the ensure block is in a hidden
+                        // local variable, it's nil if there wasn't one.
+                        ASSERT(current->localCount == stackDepth);
+                        pushVarSlots();
+                        emitNil();
+                        itarget = iseq->wordCount; // jumped to with the error pushed
+                        // the ensure block is also run for errors in catch and else blocks
+                        iseqAddEnsureRow(iseq, ifrom, itarget-1, itarget, stackDepth);
                         emitNode(vec_last(ensureStmt->children)); // ensure block
-                        emitOp1(OP_RETHROW_IF_ERR, rethrowIfArg);
+                        emitOp1(OP_RETHROW_IF_ERR, makeConstant(NUMBER_VAL(stackDepth), CONST_T_NUMLIT));
                         popScope(COMPILE_SCOPE_TRY);
                     }
                 }
diff --git a/compiler.h b/compiler.h
index 6e550ec..68af7c2 100644
--- a/compiler.h
+++ b/compiler.h
@@ -136,7 +136,6 @@ typedef struct CallInfo {
     volatile Value *blockIterRet; // return value from iterator
     volatile Value *blockArgsExtra;
     int blockArgsNumExtra;
-    bool isYield;
 } CallInfo;
 
 
diff --git a/runtime.c b/runtime.c
index 6eecdbd..73a16e8 100644
--- a/runtime.c
+++ b/runtime.c
@@ -362,7 +362,7 @@ Value lxYield(int argCount, Value *args) {
     if (!block && !frame->callInfo->blockInstance) {
         throwErrorFmt(lxErrClass, "Cannot yield, no block given");
     }
-    Value callable = NIL_VAL;
+    volatile Value callable = NIL_VAL;
     if (block) {
         DBG_ASSERT(IS_FUNCTION(OBJ_VAL(block)));
         ObjClosure *blockClosure = NULL;
@@ -375,7 +375,6 @@ Value lxYield(int argCount, Value *args) {
         ASSERT(outerClosure);
         fillClosureUpvalues(blockClosure, outerClosure, outerFrame);
         callable = OBJ_VAL(blockClosure);
-        push(callable);
     } else if (frame->callInfo->blockInstance) {
         ObjInstance *blockInst = frame->callInfo->blockInstance;
         Obj *blkCallable = blockCallable(OBJ_VAL(blockInst));
@@ -383,15 +382,10 @@ Value lxYield(int argCount, Value *args) {
             block = blkCallable;
         }
         callable = OBJ_VAL(blkCallable);
-        push(callable);
-    }
-    for (int i = 0; i < argCount; i++) {
-        push(args[i]);
     }
     CallInfo cinfo;
     memset(&cinfo, 0, sizeof(cinfo));
     cinfo.argc = argCount;
-    cinfo.isYield = true; // tell callCallable to adjust frame stack in popFrame()
     volatile int status = 0;
     volatile LxThread *th = THREAD();
     volatile BlockStackEntry *bentry = NULL;
@@ -412,6 +406,10 @@ Value lxYield(int argCount, Value *args) {
                 }
             }
     }
+    push(callable);
+    for (int i = 0; i < argCount; i++) {
+        push(args[i]);
+    }
     callCallable(callable, argCount, false, &cinfo);
     return pop(); // yielded a native function
 }
@@ -458,7 +456,6 @@ Value yieldBlockCatch(int argCount, Value *args, Value *err) {
         ASSERT(outerClosure);
         fillClosureUpvalues(blockClosure, outerClosure, outerFrame);
         callable = OBJ_VAL(blockClosure);
-        push(callable);
     } else if (frame->callInfo->blockInstance) {
         ObjInstance *blockInst = frame->callInfo->blockInstance;
         Obj *blkCallable = blockCallable(OBJ_VAL(blockInst));
@@ -466,7 +463,6 @@ Value yieldBlockCatch(int argCount, Value *args, Value *err) {
             block = blkCallable;
         }
         callable = OBJ_VAL(blkCallable);
-        push(callable);
     }
 
     if (block) {
@@ -492,8 +488,8 @@ Value yieldBlockCatch(int argCount, Value *args, Value *err) {
     }
     CallInfo cinfo;
     memset(&cinfo, 0, sizeof(cinfo));
-    cinfo.isYield = true,
     cinfo.argc = argCount;
+    push(callable);
     for (int i = 0; i < argCount; i++) {
         push(args[i]);
     }
@@ -526,7 +522,6 @@ Value yieldFromC(int argCount, Value *args, ObjInstance *blockObj) {
     memset(&cinfo, 0, sizeof(cinfo));
     cinfo.argc = argCount,
     cinfo.blockFunction = NULL,
-    cinfo.isYield = true, // tell callCallable to adjust frame stack in popFrame()
     cinfo.blockIterFunc = NULL,
     cinfo.blockInstance = blockObj,
     callCallable(callable, argCount, false, &cinfo);
diff --git a/vm.c b/vm.c
index 3022e0c..a45680d 100644
--- a/vm.c
+++ b/vm.c
@@ -397,13 +397,13 @@ static inline void push_EC(bool allocateStack) {
     initTable(&ectx->roGlobals);
     ectx->frameCount = 0;
     if (allocateStack) {
-      ectx->stack = ALLOCATE(Value, STACK_INITIAL);
-      ectx->stack_capa = STACK_INITIAL;
+      ectx->stack = ALLOCATE(Value, STACK_MAX+STACK_RESERVE);
+      ectx->stack_capa = STACK_MAX+STACK_RESERVE;
       ectx->stackAllocated = true;
       ectx->stackTop = ectx->stack;
     }
-    ectx->frames = ALLOCATE(CallFrame, FRAMES_INITIAL);
-    ectx->frames_capa = FRAMES_INITIAL;
+    ectx->frames = ALLOCATE(CallFrame, FRAMES_MAX+FRAMES_RESERVE);
+    ectx->frames_capa = FRAMES_MAX+FRAMES_RESERVE;
     vec_push(&th->v_ecs, ectx);
     th->ec = ectx; // EC = ectx
 }
@@ -654,7 +654,7 @@ bool VMLoadedScript(char *fname) {
     return false;
 }
 
-#define ASSERT_VALID_STACK() DBG_ASSERT(EC->stackTop >= EC->stack && EC->stackTop < EC->stack + STACK_MAX)
+#define ASSERT_VALID_STACK() DBG_ASSERT(EC->stackTop >= EC->stack && EC->stackTop <= EC->stack + STACK_MAX+STACK_RESERVE)
 
 static inline bool isOpStackEmpty(void) {
     ASSERT_VALID_STACK();
@@ -667,19 +667,26 @@ static inline bool isOpStackEmpty(void) {
 #define VM_PEEK(n) vm_peek(th, ctx, n)
 #define VM_PUSHSWAP(val) vm_pushSwap(th, ctx, val)
 
+// The value stack or the call frame stack overflowed
+static void stackOverflow(char *msg) {
+    VMExecContext *ctx = EC;
+    if (ctx->overflowing) return; // already creating the error, uses the reserve
+    ctx->overflowing = true;
+    Value err = newError(lxErrClass, OBJ_VAL(copyString(msg, strlen(msg), NEWOBJ_FLAG_NONE)));
+    setBacktrace(err);
+    ctx->overflowing = false;
+    throwError(err);
+}
+
+static inline bool isStackFull(VMExecContext *ctx) {
+    return ctx->stackTop >= ctx->stack + STACK_MAX;
+}
+
 void push(Value value) {
     ASSERT_VALID_STACK();
     register VMExecContext *ctx = EC;
-    if (UNLIKELY(ctx->stackTop >= ctx->stack + STACK_MAX)) {
-        errorPrintScriptBacktrace("Stack overflow.");
-        int status = 1;
-        vm.curThread->status = THREAD_ZOMBIE;
-        vm.numLivingThreads--;
-        pthread_exit(&status);
-    }
-    if (UNLIKELY(ctx->stackTop >= ctx->stack + ctx->stack_capa)) {
-        ctx->stack = GROW_ARRAY(ctx->stack, Value, ctx->stack_capa, ctx->stack_capa*2);
-        ctx->stack_capa *= 2;
+    if (UNLIKELY(isStackFull(ctx))) {
+        stackOverflow("Stack overflow, too many values on the stack");
     }
     if (IS_OBJ(value)) {
         DBG_ASSERT(AS_OBJ(value)->type != OBJ_T_NONE);
@@ -691,12 +698,8 @@ void push(Value value) {
 
 static inline void vm_push(register LxThread *th, register VMExecContext *ctx, Value value) {
     ASSERT_VALID_STACK();
-    if (UNLIKELY(ctx->stackTop >= ctx->stack + STACK_MAX)) {
-        errorPrintScriptBacktrace("Stack overflow.");
-        int status = 1;
-        th->status = THREAD_ZOMBIE;
-        vm.numLivingThreads--;
-        pthread_exit(&status);
+    if (UNLIKELY(isStackFull(ctx))) {
+        stackOverflow("Stack overflow, too many values on the stack");
     }
     if (IS_OBJ(value)) {
         DBG_ASSERT(AS_OBJ(value)->type != OBJ_T_NONE);
@@ -1332,8 +1335,6 @@ void popFrame(void) {
     CallFrame *frame = getFrame();
     Value *newTop = frame->slots;
     VM_DEBUG(2, "popping callframe (%s)", frame->isCCall ? "native" : "non-native");
-    int stackAdjust = frame->stackAdjustOnPop;
-    /*VM_DEBUG("stack adjust: %d", stackAdjust);*/
     unwindErrInfo(frame);
     if (frame->isCCall) {
         DBG_ASSERT(th->inCCall > 0);
@@ -1367,11 +1368,6 @@ void popFrame(void) {
                 tableSet(&EC->roGlobals, OBJ_VAL(vm.funcString), OBJ_VAL(vm.anonString));
             }
         }
-        if (stackAdjust > 0) {
-            if (EC->stackTop-stackAdjust > EC->stack) {
-                EC->stackTop -= stackAdjust;
-            }
-        }
     }
     VM_DEBUG(3, "/popframe");
     ASSERT_VALID_STACK();
@@ -1381,13 +1377,9 @@ CallFrame *pushFrame(ObjFunction *userFunc) {
     DBG_ASSERT(vm.inited);
     register VMExecContext *ec = EC;
     if (UNLIKELY(ec->frameCount >= FRAMES_MAX)) {
-        throwErrorFmt(lxErrClass, "Stackoverflow, max number of call frames (%d)", FRAMES_MAX);
-        UNREACHABLE_RETURN(NULL);
-    }
-    if (UNLIKELY(ec->frameCount >= ec->frames_capa)) {
-        ec->frames = GROW_ARRAY(ec->frames, CallFrame, ec->frames_capa, ec->frames_capa*2);
-        ec->frames_capa *= 2;
+        stackOverflow("Stack overflow, too many call frames");
     }
+    ASSERT(ec->frameCount < ec->frames_capa);
     CallFrame *prev = getFrameOrNull();
     CallFrame *frame = &ec->frames[ec->frameCount++];
     memset(frame, 0, sizeof(*frame));
@@ -1395,8 +1387,10 @@ CallFrame *pushFrame(ObjFunction *userFunc) {
     frame->file = ec->filename;
     frame->prev = prev;
     BlockStackEntry *bentry = vec_last_or(&vm.curThread->v_blockStack, NULL);
-    if (bentry && bentry->frame == NULL) {
-        bentry->frame = frame;
+    if (userFunc && bentry && bentry->frame == NULL) {
+        Obj *callable = bentry->callable;
+        if (callable->type == OBJ_T_CLOSURE) callable = (Obj*)((ObjClosure*)callable)->function;
+        if (callable == (Obj*)userFunc) bentry->frame = frame;
     }
     if (userFunc) {
         frame->scope = newScope(userFunc);
@@ -1417,10 +1411,6 @@ static void pushNativeFrame(ObjNative *native) {
     DBG_ASSERT(vm.inited);
     DBG_ASSERT(native);
     VM_DEBUG(2, "Pushing native callframe for %s", native->name->chars);
-    if (UNLIKELY(EC->frameCount == FRAMES_MAX)) {
-        errorPrintScriptBacktrace("Stack overflow.");
-        return;
-    }
     CallFrame *prevFrame = getFrame();
     CallFrame *newFrame = pushFrame(NULL);
     newFrame->closure = prevFrame->closure;
@@ -1431,10 +1421,6 @@ static void pushNativeFrame(ObjNative *native) {
     newFrame->nativeFunc = native;
     newFrame->name = native->name;
     newFrame->file = EC->filename;
-    BlockStackEntry *bentry = vec_last_or(&vm.curThread->v_blockStack, NULL);
-    if (bentry && bentry->frame == NULL) {
-        bentry->frame = newFrame;
-    }
     vm.curThread->inCCall++;
 }
 
@@ -1711,11 +1697,6 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
         UNREACHABLE("bad callable value given to callCallable: %s", typeOfVal(callable));
     }
 
-    if (UNLIKELY(EC->frameCount >= FRAMES_MAX)) {
-        errorPrintScriptBacktrace("Stack overflow.");
-        return false;
-    }
-
     VM_DEBUG(2, "doCallCallable found closure");
     // non-native function/method (defined in lox code)
     ASSERT(closure);
@@ -1906,9 +1887,6 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     frame->start = parentStart;
     frame->isCCall = false;
     frame->nativeFunc = NULL;
-    if (callInfo && callInfo->isYield) {
-        frame->stackAdjustOnPop = (callInfo->argc+1);
-    }
     // +1 to include either the called function (for non-methods) or the receiver (for methods)
     frame->slots = EC->stackTop - (argCountWithRestAry + numDefaultArgsUsed + 1) -
         (func->numKwargs > 0 ? numKwargsNotGiven+1 : 0);
@@ -1993,123 +1971,39 @@ Value callSuper(int argCount, Value *args, CallInfo *cinfo) {
     return NIL_VAL;
 }
 
-/**
- * When thrown (OP_THROW), find any surrounding try { } catch { } block with
- * the proper class to catch.
- */
-static bool findThrowJumpLoc(ObjClass *klass, bytecode_t **ipOut, CatchTable **rowFound) {
+// Find the innermost catch or ensure block in the current call frame for the
+// error, given where the frame is currently executing.
+static CatchTable *findCatchRow(Value err) {
     LxThread *th = vm.curThread;
-    CatchTable *tbl = currentChunk()->catchTbl;
-    CatchTable *row = tbl;
-    int currentIpOff = (int)(getFrame()->ip - currentChunk()->code);
-    bool poppedEC = false;
-    VM_DEBUG(2, "findthrowjumploc");
-    CatchTable *ensureRow = NULL;
-    while (row || EC->frameCount >= 1) {
-        VM_DEBUG(2, "framecount: %d, num ECs: %d", EC->frameCount, th->v_ecs.length);
-        if (row == NULL) { // no more catch table rows, pop a call frame
-            VM_DEBUG(2, "row null");
-            if (ensureRow) {
-                if (ensureRow->isEnsureRunning) {
-                    ensureRow->isEnsureRunning = false;
-                } else {
-                  // found target ensure
-                  *ipOut = currentChunk()->code + ensureRow->itarget;
-                  *rowFound = ensureRow;
-                  while (getFrame()->isCCall) {
-                    popFrame();
-                  }
-                  ensureRow->isEnsureRunning = true;
-                  VM_DEBUG(2, "Catch jump location found (ensure)");
-                  return true;
-                }
-            }
-            if (th->v_ecs.length == 0 || (th->v_ecs.length == 1 && EC->frameCount == 1)) {
-                return false;
-            }
-            if (EC->frameCount == 1) { // there's at least 1 more context to go through
-                pop_EC();
-                poppedEC = true;
-                ASSERT(EC->stackTop > getFrame()->slots);
-                row = currentChunk()->catchTbl;
-                ensureRow = NULL;
-                continue;
-            } else { // more frames in this context to go through
-                ASSERT(EC->frameCount > 1);
-                currentIpOff = getFrame()->start;
-                ASSERT(EC->stackTop >= getFrame()->slots);
-                EC->stackTop = getFrame()->slots;
-                popFrame();
-                VM_DEBUG(2, "frame popped");
-                row = currentChunk()->catchTbl;
-                ensureRow = NULL;
-                continue;
-            }
-        }
-        // jump to location in catch row, if catch found
-        if (row->isEnsure) {
-            ensureRow = row;
-            row = row->next;
-            continue;
-        }
+    CallFrame *frame = getFrame();
+    if (frame->isCCall || !frame->closure) return NULL;
+    Chunk *chunk = currentChunk();
+    int ipOff = (int)(frame->ip - chunk->code);
+    // Rows for inner try statements come before the rows for outer ones
+    for (CatchTable *row = chunk->catchTbl; row; row = row->next) {
+        if (ipOff <= row->ifrom || ipOff > row->ito) continue;
+        if (row->isEnsure) return row;
+        if (isBlockControlFlow(err)) continue; // not catchable by scripts
         Value klassFound;
         ObjClass *cref = NULL;
-        if (vm.curThread->v_crefStack.length > 0) {
-            cref = (ObjClass*)vec_last(&vm.curThread->v_crefStack);
-        }
-        if (!findConstantUnder(cref, AS_STRING(row->catchVal), &klassFound)) {
-            VM_DEBUG(2, "a class not found for row, next row");
-            row = row->next;
-            continue;
+        if (th->v_crefStack.length > 0) {
+            cref = (ObjClass*)vec_last(&th->v_crefStack);
         }
-        VM_DEBUG(2, "a class found for row: %s", classNameFull(AS_CLASS(klassFound))->chars);
-        if (IS_SUBCLASS(klass, AS_CLASS(klassFound))) {
-            VM_DEBUG(2, "good class found for row");
-            if (poppedEC || (currentIpOff > row->ifrom && currentIpOff <= row->ito)) {
-                // found target catch
-                *ipOut = currentChunk()->code + row->itarget;
-                *rowFound = row;
-                while (getFrame()->isCCall) {
-                    popFrame();
-                }
-                VM_DEBUG(2, "Catch jump location found");
-                return true;
-            }
+        if (!findConstantUnder(cref, AS_STRING(row->catchVal), &klassFound)) continue;
+        if (IS_CLASS(klassFound) && IS_SUBCLASS(AS_INSTANCE(err)->klass, AS_CLASS(klassFound))) {
+            return row;
         }
-        row = row->next;
     }
-
-    VM_DEBUG(2, "Catch jump location NOT found");
-    return false;
-}
-
-static CatchTable *getCatchTableRow(int idx) {
-    CatchTable *tbl = currentChunk()->catchTbl;
-    CatchTable *row = tbl;
-    int i = 0;
-    while (i < idx) {
-        ASSERT(row);
-        ASSERT(row->next);
-        row = row->next;
-        i++;
-    }
-    ASSERT(row);
-    return row;
+    return NULL;
 }
 
-static ErrTagInfo *findErrTag(ObjClass *klass) {
-    ASSERT(klass);
-    ErrTagInfo *cur = vm.curThread->errInfo;
-    while (cur) {
-        // NULL = tag for all errors
-        if (cur->errClass == NULL || IS_SUBCLASS(klass, cur->errClass)) {
-            return cur;
-        }
-        cur = cur->prev;
-    }
-    return NULL;
+static inline bool isErrTagFor(ErrTagInfo *info, ObjClass *klass) {
+    // NULL = tag for all errors
+    return info->errClass == NULL || IS_SUBCLASS(klass, info->errClass);
 }
 
+// Unwinds the call frames until one is found that handles the error, either a
+// catch/ensure block in a script or a C function that protects itself.
 NORETURN void throwError(Value self) {
     VM_DEBUG(2, "throwing error");
     ASSERT(vm.inited);
@@ -2119,34 +2013,43 @@ NORETURN void throwError(Value self) {
     if (IS_NIL(getProp(self, INTERN("backtrace")))) {
         setBacktrace(self);
     }
-    // error from VM
-    ObjInstance *obj = AS_INSTANCE(self);
-    ObjClass *klass = obj->klass;
-    CatchTable *catchRow;
-    bytecode_t *ipNew = NULL;
-    ErrTagInfo *errInfo = NULL;
-    if ((errInfo = findErrTag(klass))) {
-        VM_DEBUG(2, "longjmping to errinfo tag");
-        longjmp(errInfo->jmpBuf, JUMP_PERFORMED);
-    }
-    if (th->inCCall > 0 && th->cCallJumpBufSet && getFrame()->isCCall) {
-        VM_DEBUG(2, "throwing error from C call, longjmping");
-        ASSERT(!th->cCallThrew);
-        th->cCallThrew = true;
-        longjmp(th->cCallJumpBuf, JUMP_PERFORMED);
-    }
-    if (findThrowJumpLoc(klass, &ipNew, &catchRow)) {
-        ASSERT(ipNew);
-        ASSERT(catchRow);
-        catchRow->lastThrownValue = self;
-        getFrame()->ip = ipNew;
-        DBG_ASSERT(getFrame()->closure->function->chunk->catchTbl);
-        DBG_ASSERT(getFrame()->jmpBufSet);
-        longjmp(getFrame()->jmpBuf, JUMP_PERFORMED);
-    } else {
-        ASSERT(rootVMLoopJumpBufSet);
-        longjmp(rootVMLoopJumpBuf, JUMP_PERFORMED);
+    th->hadError = false;
+    ObjClass *klass = AS_INSTANCE(self)->klass;
+    while (true) {
+        CallFrame *frame = getFrame();
+        CatchTable *row = findCatchRow(self);
+        if (row) {
+            VM_DEBUG(2, "Catch jump location found");
+            if (!frame->isEval) { // shares the stack of the calling frame
+                closeUpvalues(frame->slots + row->stackDepth);
+                EC->stackTop = frame->slots + row->stackDepth;
+            }
+            if (row->isEnsure) {
+                push(self);
+                frame->slots[row->stackDepth] = self;
+            }
+            frame->ip = currentChunk()->code + row->itarget;
+            DBG_ASSERT(frame->jmpBufSet);
+            longjmp(frame->jmpBuf, JUMP_PERFORMED);
+        }
+        for (ErrTagInfo *info = th->errInfo; info && info->frame == frame; info = info->prev) {
+            if (isErrTagFor(info, klass)) {
+                VM_DEBUG(2, "longjmping to errinfo tag");
+                longjmp(info->jmpBuf, JUMP_PERFORMED);
+            }
+        }
+        if (EC->frameCount > 1) {
+            popFrame();
+        } else if (th->v_ecs.length > 1) {
+            popFrame();
+            pop_EC();
+        } else {
+            break;
+        }
     }
+    VM_DEBUG(2, "Catch jump location NOT found");
+    ASSERT(rootVMLoopJumpBufSet);
+    longjmp(rootVMLoopJumpBuf, JUMP_PERFORMED);
     UNREACHABLE("after longjmp");
 }
 
@@ -2238,11 +2141,7 @@ void printVMStack(FILE *f, LxThread *th) {
 // Set the captured variable. If the function that owns the variable is still
 // running, it needs to see the new value too, and it looks it up in its scope's
 // table of locals.
-static void setUpvalue(ObjUpvalue *upvalue, Value val) {
-    Value *slot = upvalue->value;
-    *slot = val;
-    if (slot == &upvalue->closed) return; // owner returned
-    LxThread *th = vm.curThread;
+static bool setScopeLocal(LxThread *th, Value *slot, Value val) {
     VMExecContext *ctx = NULL; int ctxIdx = 0;
     vec_foreach_rev(&th->v_ecs, ctx, ctxIdx) {
         if (slot < ctx->stack || slot >= ctx->stack + ctx->stack_capa) continue;
@@ -2253,9 +2152,23 @@ static void setUpvalue(ObjUpvalue *upvalue, Value val) {
             if (idx < frame->scope->localsTable.size) {
                 frame->scope->localsTable.tbl[idx] = val;
             }
-            return;
+            return true;
         }
     }
+    return false;
+}
+
+static void setUpvalue(ObjUpvalue *upvalue, Value val) {
+    Value *slot = upvalue->value;
+    *slot = val;
+    if (slot == &upvalue->closed) return; // owner returned
+    if (setScopeLocal(vm.curThread, slot, val)) return;
+    // the owner is running in another thread
+    Obj *threadInst = NULL; int tidx = 0;
+    vec_foreach(&vm.threads, threadInst, tidx) {
+        LxThread *th = THREAD_GETHIDDEN(OBJ_VAL(threadInst));
+        if (th != vm.curThread && setScopeLocal(th, slot, val)) return;
+    }
 }
 
 ObjUpvalue *captureUpvalue(Value *local) {
@@ -2810,7 +2723,7 @@ vmLoop:
       }
       CASE_OP(CLOSE_UPVALUE): {
           closeUpvalues(EC->stackTop - 1); // close over the top of stack value
-          VM_POP(); // pop the variable off the stack frame
+          ctx->stackTop--; // pop the variable off the stack frame, it's not the last value
           DISPATCH_BOTTOM();
       }
       CASE_OP(GET_CONST): {
@@ -3185,15 +3098,10 @@ find_instance_method:
       CASE_OP(RETURN): {
           // this is if we're in a block given by (&block), and we returned
           // (explicitly or implicitly)
-          if (!getFrame()->isEval && th->v_blockStack.length > 0) {
+          BlockStackEntry *bentry = vec_last_or(&th->v_blockStack, NULL);
+          if (bentry && bentry->frame == getFrame()) {
               ObjString *key = INTERN("ret");
-              VM_POP();
-              Value ret;
-              if (th->lastValue) {
-                  ret = *th->lastValue;
-              } else {
-                  ret = NIL_VAL;
-              }
+              Value ret = VM_PEEK(0);
               Value err = newError(lxContinueBlockErrClass, NIL_VAL);
               setProp(err, key, ret);
               throwError(err); // blocks catch this, not propagated
@@ -3444,24 +3352,17 @@ find_instance_method:
           UNREACHABLE("after throw"); // should longjmp
       }
       CASE_OP(GET_THROWN): {
-          Value catchTblIdx = READ_CONSTANT();
-          ASSERT(IS_NUMBER(catchTblIdx));
-          double idx = AS_NUMBER(catchTblIdx);
-          CatchTable *tblRow = getCatchTableRow((int)idx);
-          if (UNLIKELY(!isThrowable(tblRow->lastThrownValue))) { // bug
-              fprintf(stderr, "Non-throwable found (BUG): %s\n", typeOfVal(tblRow->lastThrownValue));
-              ASSERT(0);
-          }
-          VM_PUSH(tblRow->lastThrownValue);
+          Value catchTblIdx = READ_CONSTANT(); // for debugging
+          (void)catchTblIdx;
+          VM_PUSH(th->lastErrorThrown);
           DISPATCH_BOTTOM();
       }
       CASE_OP(RETHROW_IF_ERR): {
-          Value catchTblIdx = READ_CONSTANT();
-          ASSERT(IS_NUMBER(catchTblIdx));
-          double idx = AS_NUMBER(catchTblIdx);
-          CatchTable *ensureRow = getCatchTableRow((int)idx);
-          if (ensureRow->isEnsureRunning && !IS_NIL(th->lastErrorThrown)) {
-              throwError(th->lastErrorThrown);
+          Value slot = READ_CONSTANT();
+          ASSERT(IS_NUMBER(slot));
+          Value err = frame->slots[(int)AS_NUMBER(slot)];
+          if (!IS_NIL(err)) {
+              throwError(err);
           }
           DISPATCH_BOTTOM();
       }
@@ -3862,6 +3763,7 @@ void unwindJumpRecover(ErrTagInfo *info) {
         FREE(ErrTagInfo, th->errInfo);
         th->errInfo = prev;
     }
+    th->ec->stackTop = info->stackTop;
 }
 
 BlockStackEntry *addBlockEntry(Obj *callable) {
diff --git a/vm.h b/vm.h
index f15822f..cd2e496 100644
--- a/vm.h
+++ b/vm.h
@@ -16,10 +16,12 @@
 extern "C" {
 #endif
 
-#define STACK_INITIAL 256
-#define STACK_MAX 1024
-#define FRAMES_INITIAL 64
+// The stacks are allocated at their maximum size, there are many pointers into
+// them so they can't be moved. The reserve is for creating the error when they overflow.
 #define FRAMES_MAX 1024
+#define FRAMES_RESERVE 32
+#define STACK_MAX (FRAMES_MAX*8)
+#define STACK_RESERVE 512
 
 #ifndef NDEBUG
 #define THREAD_DEBUG(lvl, ...) thread_debug(lvl, __VA_ARGS__)
@@ -52,7 +54,6 @@ typedef struct CallFrame {
     bool jmpBufSet;
     struct CallFrame *prev;
     struct BlockStackEntry *blockEntry; // if block, this is the block info
-    int stackAdjustOnPop;
     struct CallInfo *callInfo;
 } CallFrame; // represents a local scope (block, function, etc)
 
@@ -66,6 +67,7 @@ typedef struct ErrTagInfo {
     ObjClass *errClass;
     jmp_buf jmpBuf;
     CallFrame *frame;
+    Value *stackTop; // to restore the stack
     struct ErrTagInfo *prev;
     struct BlockStackEntry *bentry;
     Value caughtError;
@@ -92,6 +94,7 @@ typedef struct VMExecContext {
     bool evalContext; // is executing eval()
     bool loadContext; // is executing 'loadScript' or 'requireScript'
     bool stackAllocated;
+    bool overflowing; // creating the stack overflow error
 } VMExecContext;
 
 // thread internals
@@ -323,6 +326,7 @@ static inline ErrTagInfo *addErrInfo(ObjClass *errClass) {
     info->errClass = errClass;
     info->bentry = NULL;
     info->frame = getFrame();
+    info->stackTop = th->ec->stackTop;
     info->prev = th->errInfo;
     th->errInfo = info;
     info->caughtError = NIL_VAL;
-- 
2.43.0


From abe4f9af40702bdac36957c95efa88458c04cc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 07/53] fix: uncaught error or exit in a thread crashed or kept
 its mutexes locked, unlocking a mutex of another thread aborted

---
 thread.c | 17 +++++++++++++++--
 vm.c     | 12 ++++++------
 vm.h     |  1 +
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/thread.c b/thread.c
index a049511..abb30af 100644
--- a/thread.c
+++ b/thread.c
@@ -209,6 +209,7 @@ static ObjInstance *newThreadSetup(LxThread *parentThread) {
         newCtx->stackTop--; // for the two current stack objects that newThread() creates
         newCtx->stackTop--;
         newCtx->frameCount = 1;
+        newCtx->frames[0].jmpBufSet = false; // can't jump to the parent thread's stack
         newCtx->lastValue = NULL;
         vec_push(&th->v_ecs, newCtx);
     }
@@ -239,6 +240,11 @@ void exitingThread(LxThread *th) {
     LxThreadCleanup(th);
 }
 
+static void *callThreadFunc(void *closure) {
+    callCallable(OBJ_VAL(closure), 0, false, NULL);
+    return NULL;
+}
+
 static void *runCallableInNewThread(void *arg) {
     NewThreadArgs *tArgs = (NewThreadArgs*)arg;
     pthread_t tid = pthread_self();
@@ -271,7 +277,11 @@ static void *runCallableInNewThread(void *arg) {
     }
     THREAD_DEBUG(2, "calling callable %lu", pthread_self());
     th->status = THREAD_RUNNING;
-    callCallable(OBJ_VAL(closure), 0, false, NULL);
+    ErrTag status = TAG_NONE;
+    vm_protect(callThreadFunc, closure, NULL, &status);
+    if (status == TAG_RAISE) {
+        showUncaughtError(vm.curThread->lastErrorThrown);
+    }
     THREAD_DEBUG(2, "Exiting thread (returned) %lu", pthread_self());
     stopVM(0); // actually just exits the thread if it's not the main thread
 }
@@ -558,7 +568,10 @@ void threadForceUnlockMutex(LxThread *th, LxMutex *mutex) {
 static void unlockMutex(LxMutex *mutex) {
     pthread_mutex_lock(&mutex->lock);
     LxThread *th = vm.curThread;
-    ASSERT(mutex->owner == th); // TODO: throw error
+    if (mutex->owner != th) {
+        pthread_mutex_unlock(&mutex->lock);
+        throwErrorFmt(lxErrClass, "Mutex isn't locked by the current thread");
+    }
     mutex->owner = NULL;
     vec_remove(&th->lockedMutexes, mutex);
     THREAD_DEBUG(1, "Thread %lu unlocking mutex...", th->tid);
diff --git a/vm.c b/vm.c
index a45680d..0ff626b 100644
--- a/vm.c
+++ b/vm.c
@@ -963,7 +963,7 @@ void errorPrintScriptBacktrace(const char *format, ...) {
     resetStack();
 }
 
-static void showUncaughtError(Value err) {
+void showUncaughtError(Value err) {
     ObjString *classNameObj = classNameFull(AS_INSTANCE(err)->klass);
     char *className = NULL;
     if (classNameObj) {
@@ -1976,7 +1976,7 @@ Value callSuper(int argCount, Value *args, CallInfo *cinfo) {
 static CatchTable *findCatchRow(Value err) {
     LxThread *th = vm.curThread;
     CallFrame *frame = getFrame();
-    if (frame->isCCall || !frame->closure) return NULL;
+    if (frame->isCCall || !frame->jmpBufSet) return NULL;
     Chunk *chunk = currentChunk();
     int ipOff = (int)(frame->ip - chunk->code);
     // Rows for inner try statements come before the rows for outer ones
@@ -3899,6 +3899,10 @@ NORETURN void stopVM(int status) {
         // NOTE: pthread_exit in last thread always exits with 0, so have to call _exit manually
         _exit(th->exitStatus);
     } else {
+        if (th->mutexCounter > 0) {
+            forceUnlockMutexes(th);
+        }
+        th->mutexCounter = 0;
         exitingThread(th);
         th->exitStatus = status;
         if (th->detached && vm.numDetachedThreads > 0) {
@@ -3909,10 +3913,6 @@ NORETURN void stopVM(int status) {
         }
         th->status = THREAD_ZOMBIE;
         vm.numLivingThreads--;
-        if (th->mutexCounter > 0) {
-            forceUnlockMutexes(th);
-        }
-        th->mutexCounter = 0;
         releaseGVL(THREAD_ZOMBIE);
         pthread_exit(&status);
     }
diff --git a/vm.h b/vm.h
index cd2e496..a65f2be 100644
--- a/vm.h
+++ b/vm.h
@@ -309,6 +309,7 @@ static inline CallFrame *getFrame(void) {
 
 // errors
 void setBacktrace(Value err);
+void showUncaughtError(Value err);
 NORETURN void throwErrorFmt(ObjClass *klass, const char *format, ...);
 #define throwArgErrorFmt(format, ...) throwErrorFmt(lxArgErrClass, format, __VA_ARGS__)
 NORETURN void throwError(Value err);
-- 
2.43.0


From 805fc9693ed2f177c91bfea693ebc7e06dcefb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 08/53] fix: pushFront lost elements, array literals shared
 index writes, Map.each skipped entries, strings compared by hash, string
 methods crashed on empty or out of range arguments

---
 array.c  | 16 ++++++++--------
 map.c    | 15 ++++++++-------
 object.c |  7 +++++--
 string.c | 15 +++++++++++++--
 table.c  |  5 +++--
 value.c  |  6 +++---
 6 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/array.c b/array.c
index 80f9f84..bca0469 100644
--- a/array.c
+++ b/array.c
@@ -211,13 +211,13 @@ static Value lxArrayToString(int argCount, Value *args) {
         Value elVal = ary->values[i];
         if (IS_OBJ(elVal) && (AS_OBJ(elVal) == selfObj)) {
             pushCString(bufRet, "[...]", 5);
-            continue;
-        }
-        if (IS_OBJ(elVal)) {
-            DBG_ASSERT(AS_OBJ(elVal)->type > OBJ_T_NONE);
+        } else {
+            if (IS_OBJ(elVal)) {
+                DBG_ASSERT(AS_OBJ(elVal)->type > OBJ_T_NONE);
+            }
+            ObjString *buf = valueToString(elVal, copyString, NEWOBJ_FLAG_NONE);
+            pushCString(bufRet, buf->chars, strlen(buf->chars));
         }
-        ObjString *buf = valueToString(elVal, copyString, NEWOBJ_FLAG_NONE);
-        pushCString(bufRet, buf->chars, strlen(buf->chars));
         if (i < (ary->count-1)) {
             pushCString(bufRet, ",", 1);
         }
@@ -264,6 +264,7 @@ static Value lxArrayOpIndexSet(int argCount, Value *args) {
     }
 
     if (idx < ary->count) {
+        arrayDedup(selfObj); // array literals share their values with the constant
         ary->values[idx] = rval;
         OBJ_WRITE(self, rval);
     } else {
@@ -312,12 +313,11 @@ static Value lxArrayFillStatic(int argCount, Value *args) {
     Value ret = OBJ_VAL(newInstance(lxAryClass, NEWOBJ_FLAG_NONE));
     ObjArray *selfObj = AS_ARRAY(ret);
     ValueArray *ary = &selfObj->valAry;
-    if (capaNum > 1) {
+    if (capaNum > 0) {
         initValueArrayWithCapa(ary, capaNum);
         writeValueArrayBulk(ary, 0, (size_t)capaNum, fill);
     } else {
         initValueArray(ary);
-        writeValueArrayEnd(ary, fill);
     }
     OBJ_WRITE(ret, fill);
     return ret;
diff --git a/map.c b/map.c
index 47088ad..507b22b 100644
--- a/map.c
+++ b/map.c
@@ -250,8 +250,8 @@ static Value lxMapMerge(int argCount, Value *args) {
     CHECK_ARITY("Map#merge", 2, 2, argCount);
     Value self = args[0];
     Value other = args[1];
-    Table *otherMap = AS_MAP(other)->table;
     CHECK_ARG_IS_A(other, lxMapClass, 1);
+    Table *otherMap = AS_MAP(other)->table;
     Value ret = callMethod(AS_OBJ(self), INTERN("dup"), 0, NULL, NULL);
     Table *retMap = AS_MAP(ret)->table;
     Entry e; int idx = 0;
@@ -269,8 +269,8 @@ static Value lxMapMergeWith(int argCount, Value *args) {
     Value self = args[0];
     Value other = args[1];
     Table *myMap = AS_MAP(self)->table;
-    Table *otherMap = AS_MAP(other)->table;
     CHECK_ARG_IS_A(other, lxMapClass, 1);
+    Table *otherMap = AS_MAP(other)->table;
     if (isFrozen(AS_OBJ(self))) {
         throwErrorFmt(lxErrClass, "%s", "Map is frozen, cannot modify");
     }
@@ -347,7 +347,7 @@ static Value lxMapEach(int argCount, Value *args) {
     }
     volatile BlockStackEntry *bentry = NULL;
     while (true) {
-        if (startIdx == map->count) {
+        if (startIdx > map->capacityMask) {
             return *args;
         }
         SETUP_BLOCK(block, bentry, status, th->errInfo)
@@ -383,13 +383,14 @@ static Value lxMapEach(int argCount, Value *args) {
         }
     }
 
-    Entry e;
-    TABLE_FOREACH_IDX(map, e, startIdx, {
-        startIdx++;
+    // startIdx is the index of the next entry slot to look at
+    while (startIdx <= map->capacityMask) {
+        Entry e = map->entries[startIdx++];
+        if (IS_UNDEF(e.key)) continue;
         yieldArgs[0] = e.key;
         yieldArgs[1] = e.value;
         yieldFromC(2, (Value*)yieldArgs, TO_INSTANCE(blockInstance));
-    })
+    }
     return self;
 }
 
diff --git a/object.c b/object.c
index dc1f4ad..9b93ff6 100644
--- a/object.c
+++ b/object.c
@@ -157,7 +157,7 @@ void pushString(Value self, Value pushed) {
 bool objStringEquals(ObjString *a, ObjString *b) {
     DBG_ASSERT(a && b);
     if (a->length != b->length) return false;
-    if (a->hash > 0 && b->hash > 0) return a->hash == b->hash;
+    if (a->hash > 0 && b->hash > 0 && a->hash != b->hash) return false;
     return strcmp(a->chars, b->chars) == 0;
 }
 
@@ -842,6 +842,9 @@ void stringInsertAt(Value self, Value insert, size_t at, bool replaceAt) {
     }
     ObjString *selfBuf = AS_STRING(self);
     ObjString *insertBuf = AS_STRING(insert);
+    if (at > selfBuf->length) {
+        throwArgErrorFmt("%s", "index too big");
+    }
     insertObjString(selfBuf, insertBuf, at, replaceAt);
 }
 
@@ -945,7 +948,7 @@ bool arrayDeleteAt(Value self, int idx, Value *found) {
     }
     arrayDedup(AS_ARRAY(self));
     ValueArray *ary = &AS_ARRAY(self)->valAry;
-    if (ary->count > idx) {
+    if (idx >= 0 && ary->count > idx) {
         Value val = ary->values[idx];
         removeValueArray(ary, idx);
         *found = val;
diff --git a/string.c b/string.c
index 6b6ac1a..347bda0 100644
--- a/string.c
+++ b/string.c
@@ -225,6 +225,9 @@ static Value lxStringSplit(int argCount, Value *args) {
     Value ret = newArray();
     char *hay = AS_CSTRING(self);
     char *needle = AS_CSTRING(pat);
+    if (strlen(needle) == 0) {
+        throwArgErrorFmt("%s", "pattern can't be empty");
+    }
     char *end = hay + strlen(hay);
 
     char *res = NULL;
@@ -256,6 +259,13 @@ static Value lxStringPadRight(int argCount, Value *args) {
     if (newLen <= oldLen) {
       return self;
     }
+    if (isFrozen(AS_OBJ(self))) {
+        throwErrorFmt(lxErrClass, "%s", "String is frozen, cannot modify");
+    }
+    if (padStr->length == 0) {
+        throwArgErrorFmt("%s", "padding can't be empty");
+    }
+    dedupString(selfStr);
     int bytesToPad = newLen - oldLen;
     while (bytesToPad > 0) {
       pushCString(selfStr, padStr->chars, 1);
@@ -316,7 +326,7 @@ static Value lxStringCompact(int argCount, Value *args) {
     while (end > start && isspace(*end)) {
       end--;
     }
-    if (start < end) {
+    if (start <= end && !isspace(*start)) {
       pushCString(new, start, end-start+1);
     }
     return OBJ_VAL(new);
@@ -332,7 +342,7 @@ static Value lxStringCompactLeft(int argCount, Value *args) {
     while (start < end && isspace(*start)) {
       start++;
     }
-    if (start < end) {
+    if (start <= end && !isspace(*start)) {
       pushCString(new, start, end-start+1);
     }
     return OBJ_VAL(new);
@@ -342,6 +352,7 @@ static Value lxStringIndex(int argCount, Value *args) {
     CHECK_ARITY("String#index", 2, 2, argCount);
     Value self = args[0];
     Value needleVal = args[1];
+    CHECK_ARG_IS_A(needleVal, lxStringClass, 1);
     char *hay = AS_CSTRING(self);
     char *needle = AS_CSTRING(needleVal);
     char *found = strstr(hay, needle);
diff --git a/table.c b/table.c
index fd83380..92fd96e 100644
--- a/table.c
+++ b/table.c
@@ -203,8 +203,9 @@ ObjString *tableFindString(Table *table, const char* chars, size_t length,
         if (UNLIKELY(IS_UNDEF(entry->key))) return NULL;
         if (IS_STRING(entry->key)) {
             ObjString *stringKey = AS_STRING(entry->key);
-            if (stringKey->hash && stringKey->hash == hash) {
-                return stringKey;
+            if (stringKey->hash && stringKey->hash != hash) {
+                index = (index + 1) & table->capacityMask;
+                continue;
             }
             if (stringKey->length == length &&
                     memcmp(stringKey->chars, chars, length) == 0) {
diff --git a/value.c b/value.c
index 1958653..aadc0b4 100644
--- a/value.c
+++ b/value.c
@@ -57,7 +57,7 @@ void writeValueArrayBeg(ValueArray *array, Value value) {
 
     Value *dest = array->values+1;
     Value *src = array->values;
-    memmove(dest, src, sizeof(Value));
+    memmove(dest, src, sizeof(Value) * array->count);
     array->values[0] = value;
     array->count++;
 }
@@ -486,8 +486,8 @@ bool valEqual(Value a, Value b) {
             if (IS_STRING(a) && IS_STRING(b)) {
                 ObjString *aStr = AS_STRING(a);
                 ObjString *bStr = AS_STRING(b);
-                if (aStr->hash && bStr->hash) {
-                    return aStr->hash == bStr->hash;
+                if (aStr->hash && bStr->hash && aStr->hash != bStr->hash) {
+                    return false;
                 }
                 return aStr->length == bStr->length && strcmp(aStr->chars, bStr->chars) == 0;
             }
-- 
2.43.0


From fa1e0c13a1822aae784ceaabdd669c387df42c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 09/53] fix: modulo by a fraction and bitwise operators on
 instances crashed, 0 and -0 weren't equal

---
 compiler.c |  2 +-
 value.c    |  3 +++
 vm.c       | 12 ++++++------
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/compiler.c b/compiler.c
index 99be542..bc8a43f 100644
--- a/compiler.c
+++ b/compiler.c
@@ -450,7 +450,7 @@ static Value foldConstant(Iseq *seq, Insn *cur, Insn *bin, Insn *ain) {
             }
             return NUMBER_VAL(aNum / bNum);
         case OP_MODULO:
-            if (bNum == 0.00) {
+            if ((int)bNum == 0) {
                 fprintf(stderr, "[Warning]: Divide by 0 found on line %d during constant folding\n", bin->lineno);
                 return UNDEF_VAL;
             }
diff --git a/value.c b/value.c
index aadc0b4..927c63b 100644
--- a/value.c
+++ b/value.c
@@ -494,6 +494,9 @@ bool valEqual(Value a, Value b) {
             if (IS_INSTANCE_LIKE(a)) {
                 return AS_BOOL(callMethod(AS_OBJ(a), vm.opEqualsString, 1, &b, NULL));
             }
+            if (IS_NUMBER(a)) { // 0 and -0 have different representations
+                return IS_NUMBER(b) && AS_NUMBER(a) == AS_NUMBER(b);
+            }
             return a == b;
         }
     }
diff --git a/vm.c b/vm.c
index 0ff626b..27b201c 100644
--- a/vm.c
+++ b/vm.c
@@ -883,11 +883,7 @@ static bool isValueOpEqual(Value lhs, Value rhs) {
         // 2 objects, same pointers to Obj are equal
         return AS_OBJ(lhs) == AS_OBJ(rhs);
     } else if (IS_NUMBER(lhs)) { // 2 numbers, same values are equal
-#ifdef NAN_TAGGING
-        return lhs == rhs;
-#else
-        return AS_NUMBER(lhs) == AS_NUMBER(rhs);
-#endif
+        return IS_NUMBER(rhs) && AS_NUMBER(lhs) == AS_NUMBER(rhs);
     } else if (IS_NIL(lhs)) { // 2 nils, are equal
         return IS_NIL(rhs);
     } else if (IS_BOOL(lhs)) {
@@ -2319,7 +2315,8 @@ static InterpretResult vm_run() {
       Value b = VM_PEEK(0);\
       Value a = VM_PEEK(1);\
       if (IS_NUMBER(a) && IS_NUMBER(b)) {\
-          if (UNLIKELY(((opcode == OP_DIVIDE || opcode == OP_MODULO) && AS_NUMBER(b) == 0.00))) {\
+          /* NOTE: modulo is an integer operation */\
+          if (UNLIKELY((opcode == OP_DIVIDE && AS_NUMBER(b) == 0.00) || (opcode == OP_MODULO && (int)AS_NUMBER(b) == 0))) {\
               throwErrorFmt(lxErrClass, "Can't divide by 0");\
           }\
           VM_POP();\
@@ -2331,6 +2328,9 @@ static InterpretResult vm_run() {
           if (methodName) {\
             callable = instanceFindMethod(inst, methodName);\
           }\
+          if (UNLIKELY(!methodName)) {\
+              throwErrorFmt(lxTypeErrClass, "Binary operation type error, op=%s, lhs=%s, rhs=%s", #op, typeOfVal(a), typeOfVal(b));\
+          }\
           if (UNLIKELY(!callable)) {\
               throwErrorFmt(lxNameErrClass, "Method %s#%s not found for operation '%s'", className(inst->klass), methodName->chars, #op);\
           }\
-- 
2.43.0


From 158d89ec4e408a72c2cf2a7ee2d3457e6b73878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 10/53] fix: keyword arguments shifted positional ones, block
 instances ended up in rest arguments and in other calls from the same call
 site

---
 compiler.c |   4 +++
 vm.c       | 102 ++++++++++++++++++++++++++++++++++-------------------
 2 files changed, 69 insertions(+), 37 deletions(-)

diff --git a/compiler.c b/compiler.c
index bc8a43f..e333655 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1570,7 +1570,9 @@ static CallInfo *emitCall(Node *n) {
         i = 0; int idx = 0;
         vec_foreach(n->children, arg, i) {
             if (arg->type.kind == KWARG_IN_CALL_STMT) {
+                // copied, because the script's source isn't kept around
                 callInfoData->kwargNames[idx] = arg->tok;
+                callInfoData->kwargNames[idx].lexeme = strdup(tokStr(&arg->tok));
                 idx++;
             }
         }
@@ -1602,7 +1604,9 @@ static CallInfo *emitCall(Node *n) {
         i = 0; int idx = 0;
         vec_foreach(n->children, arg, i) {
             if (arg->type.kind == KWARG_IN_CALL_STMT) {
+                // copied, because the script's source isn't kept around
                 callInfoData->kwargNames[idx] = arg->tok;
+                callInfoData->kwargNames[idx].lexeme = strdup(tokStr(&arg->tok));
                 idx++;
             }
         }
diff --git a/vm.c b/vm.c
index 27b201c..c7a59e8 100644
--- a/vm.c
+++ b/vm.c
@@ -1452,7 +1452,7 @@ static Value captureNativeError(ObjNative *nativeFunc, int argCount, Value *args
 
 static inline bool checkFunctionArity(ObjFunction *func, int argCount, CallInfo *cinfo) {
     int arityMin = func->arity;
-    int arityMax = arityMin + func->numDefaultArgs + func->numKwargs + (func->hasBlockArg ? 1 : 0);
+    int arityMax = arityMin + func->numDefaultArgs + func->numKwargs;
     char *funcName = "(anon)";
     if (func->name) {
         funcName = func->name->chars;
@@ -1518,11 +1518,13 @@ void growLocalsTable(ObjScope *scope, int size) {
 static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo *callInfo) {
     LxThread *th = vm.curThread;
     Value blockInstance = NIL_VAL;
-    bool blockInstancePopped = false;
-    Value poppedBlockInstance = NIL_VAL;
+    CallInfo blockCallInfo;
     if (argCount > 0 && callInfo) {
         if (IS_A_BLOCK(peek(0))) {
             Value blkObj = peek(0);
+            // `callInfo` belongs to the call site, it's shared by all calls made from there
+            blockCallInfo = *callInfo;
+            callInfo = &blockCallInfo;
             callInfo->blockInstance = AS_INSTANCE(blkObj);
             blockInstance = blkObj;
         }
@@ -1697,6 +1699,23 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     // non-native function/method (defined in lox code)
     ASSERT(closure);
     ObjFunction *func = closure->function;
+    // The arguments on the stack are the positional arguments, then the keyword
+    // arguments (in the order of the call), then the block instance, if any.
+    if (!IS_NIL(blockInstance) && (func->hasBlockArg || func->numKwargs > 0 || argCount > func->arity)) {
+        pop();
+        argCount--;
+    }
+    if (!IS_NIL(blockInstance)) {
+        hideFromGC(AS_OBJ(blockInstance)); // unhidden once the frame is pushed
+    }
+    int numKwargsGiven = callInfo ? callInfo->numKwargs : 0;
+    argCount -= numKwargsGiven; // positional arguments
+    if (func->hasBlockArg && IS_NIL(blockInstance) && !func->hasRestArg &&
+            argCount == func->arity + func->numDefaultArgs + 1 && numKwargsGiven == 0 &&
+            IS_NIL(peek(0))) {
+        pop(); // given &nil, same as not giving a block
+        argCount--;
+    }
     if (closure->isBlock || (callInfo && callInfo->blockInstance)) {
         // no arity check
     } else {
@@ -1707,39 +1726,52 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
 
     Value kwargsMap = NIL_VAL;
     // keyword arg processing
-    if (func->numKwargs > 0 && callInfo) {
+    if (func->numKwargs > 0) {
         ASSERT(params);
-        if (!IS_NIL(blockInstance) && IS_A_BLOCK(peek(0))) {
-            argCount--;
-            poppedBlockInstance = pop();
-            hideFromGC(AS_OBJ(poppedBlockInstance));
-            blockInstancePopped = true;
-        }
         kwargsMap = newMap();
         hideFromGC(AS_OBJ(kwargsMap)); // unhidden when pushed below
         Node *param = NULL;
         int pi = 0;
-        for (int i = callInfo->numKwargs-1; i >= 0; i--) {
+        for (int i = numKwargsGiven-1; i >= 0; i--) {
+            bool found = false;
             vec_foreach(params, param, pi) {
                 if (param->type.kind == PARAM_NODE_KWARG) {
                     char *kwname = tokStr(&param->tok);
-                    ObjString *kwStr = INTERN(kwname);
                     // keyword argument given, is on stack, we pop it off
                     if (strcmp(kwname, tokStr(callInfo->kwargNames+i)) == 0) {
-                        mapSet(kwargsMap, OBJ_VAL(kwStr), pop());
+                        ObjString *kwStr = INTERN(kwname);
+                        mapSet(kwargsMap, OBJ_VAL(kwStr), peek(0));
+                        pop();
+                        found = true;
+                        break;
                     }
                     // when keyword argument not given, we need to add UNDEF_VAL to
                     // stack later
                 }
             }
+            if (!found) {
+                unhideFromGC(AS_OBJ(kwargsMap));
+                if (!IS_NIL(blockInstance)) unhideFromGC(AS_OBJ(blockInstance));
+                throwArgErrorFmt("Unknown keyword argument '%s'", tokStr(callInfo->kwargNames+i));
+            }
         }
-    }
-
-    if (func->numDefaultArgs > 0 && !IS_NIL(blockInstance) && !blockInstancePopped && IS_A_BLOCK(peek(0))) {
-        poppedBlockInstance = pop();
-        hideFromGC(AS_OBJ(poppedBlockInstance));
-        argCount--;
-        blockInstancePopped = true;
+        // remaining positional arguments fill the keyword parameters in order
+        int numPositionalKwargs = argCount - (func->arity + func->numDefaultArgs);
+        if (!func->hasRestArg && numPositionalKwargs > 0) {
+            int kwi = 0;
+            vec_foreach(params, param, pi) {
+                if (param->type.kind == PARAM_NODE_KWARG && kwi < numPositionalKwargs) {
+                    ObjString *kwStr = INTERN(tokStr(&param->tok));
+                    mapSet(kwargsMap, OBJ_VAL(kwStr), peek(numPositionalKwargs-1-kwi));
+                    kwi++;
+                }
+            }
+            for (int i = 0; i < numPositionalKwargs; i++) { pop(); }
+            argCount -= numPositionalKwargs;
+        }
+    } else if (numKwargsGiven > 0) {
+        if (!IS_NIL(blockInstance)) unhideFromGC(AS_OBJ(blockInstance));
+        throwArgErrorFmt("Unknown keyword argument '%s'", tokStr(callInfo->kwargNames));
     }
 
     // default arg processing
@@ -1757,19 +1789,15 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     int argCountWithRestAry = argCount;
     if (hasRestArg && argCount > (func->arity + func->numDefaultArgs)) {
         numRestArgs = argCount - (func->arity + func->numDefaultArgs);
-        if (numRestArgs > 0) {
-            Value restAry = newArray();
-            for (int i = numRestArgs; i > 0; i--) {
-                Value arg = peek(i-1);
-                arrayPush(restAry, arg);
-                argCountWithRestAry--;
-            }
-            for (int i = numRestArgs; i > 0; i--) { pop(); }
-            push(restAry);
-            argCountWithRestAry++;
-        } else {
-            ASSERT(0);
+        Value restAry = newArray();
+        for (int i = numRestArgs; i > 0; i--) {
+            Value arg = peek(i-1);
+            arrayPush(restAry, arg);
+            argCountWithRestAry--;
         }
+        for (int i = numRestArgs; i > 0; i--) { pop(); }
+        push(restAry);
+        argCountWithRestAry++;
     // empty rest arg
     } else if (hasRestArg) {
         Value restAry = newArray();
@@ -1778,7 +1806,7 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     }
 
     int numKwargsNotGiven = 0;
-    if (func->numKwargs > 0 && callInfo) {
+    if (func->numKwargs > 0) {
         Node *param = NULL;
         int pi = 0;
         vec_foreach(params, param, pi) {
@@ -1828,7 +1856,7 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
         ASSERT(unused == 0);
     }
 
-    if (func->hasBlockArg && callInfo->blockFunction && IS_NIL(blockInstance)) {
+    if (func->hasBlockArg && callInfo && callInfo->blockFunction && IS_NIL(blockInstance)) {
         Value blockClosure = OBJ_VAL(newClosure(callInfo->blockFunction, NEWOBJ_FLAG_NONE));
         hideFromGC(AS_OBJ(blockClosure));
         CallFrame *outerFrame = getFrame();
@@ -1844,9 +1872,8 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
         argCountWithRestAry++;
     }
 
-    if (blockInstancePopped) {
+    if (!IS_NIL(blockInstance) && func->hasBlockArg) {
         push(blockInstance);
-        unhideFromGC(AS_OBJ(poppedBlockInstance));
         argCountWithRestAry++;
     }
 
@@ -1885,7 +1912,8 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
     frame->nativeFunc = NULL;
     // +1 to include either the called function (for non-methods) or the receiver (for methods)
     frame->slots = EC->stackTop - (argCountWithRestAry + numDefaultArgsUsed + 1) -
-        (func->numKwargs > 0 ? numKwargsNotGiven+1 : 0);
+        (func->numKwargs > 0 ? func->numKwargs+1 : 0);
+    if (!IS_NIL(blockInstance)) unhideFromGC(AS_OBJ(blockInstance));
     setupLocalsTable(frame);
     if (frame->name) {
         tableSet(&EC->roGlobals, OBJ_VAL(vm.funcString), OBJ_VAL(frame->name));
-- 
2.43.0


From 5a18a66964173a644360b0f0f8170afd62dbe0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 11/53] fix: splatted arguments before a call in the same
 argument list, captured foreach variables, yield outside of functions and
 unterminated interpolation crashed, classes printed as instances

---
 compiler.c | 17 ++++++++++++++---
 compiler.h |  1 +
 parser.c   |  4 ++--
 runtime.c  |  6 +++---
 thread.c   |  2 --
 value.c    |  2 +-
 vm.c       | 48 +++++++++++++++++++++++++++++++++---------------
 vm.h       |  1 -
 8 files changed, 54 insertions(+), 27 deletions(-)

diff --git a/compiler.c b/compiler.c
index e333655..18e229e 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1546,6 +1546,7 @@ static CallInfo *emitCall(Node *n) {
     int argc = n->children->length; // num regular arguments
     int numKwargs = 0;
     bool usesSplat = false;
+    unsigned splatArgs = 0;
     CallInfo *callInfoData;
     if (nodeKind(lhs) == PROP_ACCESS_EXPR) {
         emitChildren(lhs); // the instance
@@ -1557,6 +1558,7 @@ static CallInfo *emitCall(Node *n) {
                 numKwargs++;
             } else if (arg->type.kind == SPLAT_EXPR) {
                 usesSplat = true;
+                splatArgs |= 1u << (i-1);
                 argc--;
             }
             emitNode(arg);
@@ -1567,6 +1569,7 @@ static CallInfo *emitCall(Node *n) {
         callInfoData->argc = argc;
         callInfoData->numKwargs = numKwargs;
         callInfoData->usesSplat = usesSplat;
+        callInfoData->splatArgs = splatArgs;
         i = 0; int idx = 0;
         vec_foreach(n->children, arg, i) {
             if (arg->type.kind == KWARG_IN_CALL_STMT) {
@@ -1590,6 +1593,7 @@ static CallInfo *emitCall(Node *n) {
                 numKwargs++;
             } else if (arg->type.kind == SPLAT_EXPR) {
                 usesSplat = true;
+                splatArgs |= 1u << (i-1);
                 argc--;
             }
             emitNode(arg);
@@ -1601,6 +1605,7 @@ static CallInfo *emitCall(Node *n) {
         callInfoData->argc = argc;
         callInfoData->numKwargs = numKwargs;
         callInfoData->usesSplat = usesSplat;
+        callInfoData->splatArgs = splatArgs;
         i = 0; int idx = 0;
         vec_foreach(n->children, arg, i) {
             if (arg->type.kind == KWARG_IN_CALL_STMT) {
@@ -2197,12 +2202,18 @@ static void emitNode(Node *n) {
 
         curLoopType = lastLoopType;
         patchContinues(beforeForeach);
+        // every iteration has its own variables, so captured ones are closed
+        bool varsCaptured = false;
+        vec_foreach(&v_slots, slotNum, slotIdx) {
+            if (current->locals[slotNum].isUpvalue) varsCaptured = true;
+        }
+        OpCode popVarOp = varsCaptured ? OP_CLOSE_UPVALUE : OP_POP;
         if (numVars == 1) {
-            emitOp0(OP_POP); // pop the iterator value
+            emitOp0(popVarOp); // pop the iterator value
         }
         if (numVars > 1) {
             for (int j = 0; j < numVars; j++) {
-                emitOp0(OP_POP); // pop the iterator values
+                emitOp0(popVarOp); // pop the iterator values
             }
             emitOp0(OP_POP); // pop the iterator value array, for unpack
         }
@@ -2211,7 +2222,7 @@ static void emitNode(Node *n) {
         patchJump(iterDone, -1, NULL);
         emitOp0(OP_POP); // pop the iterator value
         patchBreaks(beforeForeach, currentIseq()->tail, 0);
-        emitOp0(OP_POP); // pop the iterator
+        emitOp0(popVarOp); // pop the iterator
         vec_deinit(&v_slots);
         break;
     }
diff --git a/compiler.h b/compiler.h
index 68af7c2..2fbab35 100644
--- a/compiler.h
+++ b/compiler.h
@@ -128,6 +128,7 @@ typedef struct CallInfo {
     int argc;
     int numKwargs;
     bool usesSplat;
+    unsigned splatArgs; // bit i is set if argument i is splatted
     Token kwargNames[LX_MAX_KWARGS];
     // for blocks
     ObjFunction *blockFunction; // lox block given as argument to fn
diff --git a/parser.c b/parser.c
index cb2bef6..9d28c19 100644
--- a/parser.c
+++ b/parser.c
@@ -1559,8 +1559,8 @@ static Node *primary() {
             beg = end+1;
         }
         if (vnodes.length > 0) {
-            char *restStart = end+1;
-            int restLen = (str+strlen(str))-end;
+            char *restStart = beg; // after the last interpolation
+            int restLen = strlen(restStart);
             char *rest = calloc(1, restLen+1);
             ASSERT_MEM(rest);
             strncpy(rest, restStart, restLen);
diff --git a/runtime.c b/runtime.c
index 73a16e8..4af56fe 100644
--- a/runtime.c
+++ b/runtime.c
@@ -357,9 +357,9 @@ static ObjClosure *getCFrameBlockClosure() {
 
 Value lxYield(int argCount, Value *args) {
     CallFrame *frame = getFrame()->prev;
-    ASSERT(frame->callInfo);
-    Obj *block = (Obj*)frame->callInfo->blockFunction;
-    if (!block && !frame->callInfo->blockInstance) {
+    CallInfo *info = frame ? frame->callInfo : NULL; // none outside of functions
+    Obj *block = info ? (Obj*)info->blockFunction : NULL;
+    if (!block && (!info || !info->blockInstance)) {
         throwErrorFmt(lxErrClass, "Cannot yield, no block given");
     }
     volatile Value callable = NIL_VAL;
diff --git a/thread.c b/thread.c
index abb30af..f50c1b6 100644
--- a/thread.c
+++ b/thread.c
@@ -149,7 +149,6 @@ static void LxThreadSetup(LxThread *th) {
     th->cCallJumpBufSet = false;
     th->vmRunLvl = 0;
     th->mutexCounter = 0;
-    th->lastSplatNumArgs = -1;
     th->tlsMap = NULL;
     pthread_mutex_init(&th->sleepMutex, NULL);
     pthread_cond_init(&th->sleepCond, NULL);
@@ -223,7 +222,6 @@ static ObjInstance *newThreadSetup(LxThread *parentThread) {
     th->returnedFromNativeErr = false;
     memset(&th->cCallJumpBuf, 0, sizeof(jmp_buf));
     th->vmRunLvl = 0;
-    th->lastSplatNumArgs = -1;
 
     th->status = THREAD_READY;
     th->tid = 0; // unknown, not yet created
diff --git a/value.c b/value.c
index 927c63b..0dead47 100644
--- a/value.c
+++ b/value.c
@@ -124,7 +124,7 @@ int printValue(FILE *file, Value value, bool canCallMethods, int maxLen) {
             } else {
                 return fprintf(file, "<fun %.*s>", PRINTNUM(6, maxLen), func->name->chars);
             }
-        } else if (IS_INSTANCE_LIKE(value)) {
+        } else if (IS_INSTANCE_LIKE(value) && !IS_CLASS(value) && !IS_MODULE(value)) {
             ObjInstance *inst = AS_INSTANCE(value);
             Obj *callable = NULL;
             if (canCallMethods) {
diff --git a/vm.c b/vm.c
index c7a59e8..073daba 100644
--- a/vm.c
+++ b/vm.c
@@ -2271,6 +2271,30 @@ static Value unpackValue(Value val, bytecode_t idx) {
     }
 }
 
+// Replace the splatted arrays among the `numArgs` arguments at the top of the
+// stack with their elements. Nothing is allocated here, so the popped arguments
+// can't be collected. Returns the new number of arguments.
+static int expandSplatArgs(int numArgs, unsigned splatArgs) {
+    Value args[UINT8_MAX+1];
+    ASSERT(numArgs <= UINT8_MAX);
+    for (int i = numArgs-1; i >= 0; i--) {
+        args[i] = pop();
+    }
+    int numExpanded = 0;
+    for (int i = 0; i < numArgs; i++) {
+        if (splatArgs & (1u << i)) {
+            for (int j = 0; j < ARRAY_SIZE(args[i]); j++) {
+                push(ARRAY_GET(args[i], j));
+                numExpanded++;
+            }
+        } else {
+            push(args[i]);
+            numExpanded++;
+        }
+    }
+    return numExpanded;
+}
+
 static ObjString *methodNameForBinop(OpCode code) {
     switch (code) {
     case OP_ADD:
@@ -2944,10 +2968,10 @@ vmLoop:
       }
       CASE_OP(CALL): {
           bytecode_t numArgs = READ_WORD();
-          if (th->lastSplatNumArgs >= 0) {
-              numArgs += th->lastSplatNumArgs;
-              numArgs--;
-              th->lastSplatNumArgs = -1;
+          Value callInfoVal = READ_CONSTANT();
+          CallInfo *callInfo = internalGetData(AS_INTERNAL(callInfoVal));
+          if (callInfo->splatArgs) {
+              numArgs = expandSplatArgs(numArgs, callInfo->splatArgs);
           }
           Value callableVal = VM_PEEK(numArgs);
           if (UNLIKELY(!isCallable(callableVal))) {
@@ -2956,8 +2980,6 @@ vmLoop:
               }
               throwErrorFmt(lxTypeErrClass, "Tried to call uncallable object (type=%s)", typeOfVal(callableVal));
           }
-          Value callInfoVal = READ_CONSTANT();
-          CallInfo *callInfo = internalGetData(AS_INTERNAL(callInfoVal));
           callCallable(callableVal, numArgs, false, callInfo);
           ASSERT_VALID_STACK();
           DISPATCH_BOTTOM();
@@ -2981,10 +3003,8 @@ vmLoop:
           bytecode_t numArgs = READ_WORD();
           Value callInfoVal = READ_CONSTANT();
           CallInfo *callInfo = internalGetData(AS_INTERNAL(callInfoVal));
-          if (th->lastSplatNumArgs >= 0) {
-              numArgs += th->lastSplatNumArgs;
-              numArgs--; // the splat arg counts as an argument in `numArgs`
-              th->lastSplatNumArgs = -1;
+          if (callInfo->splatArgs) {
+              numArgs = expandSplatArgs(numArgs, callInfo->splatArgs);
           }
           Value instanceVal = VM_PEEK(numArgs);
           if (IS_CLASS(instanceVal) || IS_MODULE(instanceVal)) {
@@ -3069,15 +3089,13 @@ find_instance_method:
           DISPATCH_BOTTOM();
       }
       CASE_OP(SPLAT_ARRAY): {
-          Value ary = VM_POP();
+          // expanded once all of the arguments are evaluated, see expandSplatArgs()
+          Value ary = VM_PEEK(0);
           if (UNLIKELY(!IS_AN_ARRAY(ary))) {
+              VM_POP();
               throwErrorFmt(lxTypeErrClass, "Splatted expression must evaluate to an Array (type=%s)",
                       typeOfVal(ary));
           }
-          th->lastSplatNumArgs = ARRAY_SIZE(ary); // can be 0
-          for (int i = 0; i < th->lastSplatNumArgs; i++) {
-              VM_PUSH(ARRAY_GET(ary, i));
-          }
           DISPATCH_BOTTOM();
       }
       CASE_OP(GET_SUPER): {
diff --git a/vm.h b/vm.h
index a65f2be..6d848db 100644
--- a/vm.h
+++ b/vm.h
@@ -146,7 +146,6 @@ typedef struct LxThread {
     jmp_buf cCallJumpBuf;
     bool cCallJumpBufSet;
     int vmRunLvl; // how many calls to vm_run() are in the current thread's native stack
-    int lastSplatNumArgs;
     // stack of object pointers created during C function calls. When
     // control returns to the VM, these are popped. Stack objects aren't
     // collected during GC.
-- 
2.43.0


From 8fe4ea159b680b440beb7fcfa2bfa2116dc07305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 12/53] fix: super with several modules, in static methods and
 extended objects crashed or failed, getters of extended modules weren't found

---
 object.c | 24 ++++++++++++------
 vm.c     | 75 +++++++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 69 insertions(+), 30 deletions(-)

diff --git a/object.c b/object.c
index 9b93ff6..3e4f737 100644
--- a/object.c
+++ b/object.c
@@ -570,6 +570,20 @@ ObjInternal *newInternalObject(bool isRealObject, void *data, size_t dataSz, GCM
     return obj;
 }
 
+// The next class to look in after `klass`: the modules that extend the object
+// come after its singleton class, then its class.
+static inline Obj *nextLookupClass(ObjInstance *obj, Obj *klass) {
+    Obj *super = CLASS_SUPER(klass);
+    Obj *singleton = TO_OBJ(obj->singletonKlass);
+    if (singleton && (klass == singleton ||
+            (klass->type == OBJ_T_ICLASS && TO_OBJ(((ObjIClass*)klass)->klass) == singleton))) {
+        bool extendsObj = super && super->type == OBJ_T_ICLASS &&
+            TO_OBJ(((ObjIClass*)super)->klass) == singleton;
+        return extendsObj ? super : TO_OBJ(obj->klass);
+    }
+    return super;
+}
+
 Obj *instanceFindMethod(ObjInstance *obj, ObjString *name) {
     Obj *klass = (Obj*)obj->klass;
     // interned strings that are created before lxStringClass exists have no class
@@ -587,7 +601,7 @@ Obj *instanceFindMethod(ObjInstance *obj, ObjString *name) {
         if (tableGet(mtable, nameVal, &method)) {
             return AS_OBJ(method);
         }
-        klass = CLASS_SUPER(klass);
+        klass = nextLookupClass(obj, klass);
     }
     return NULL;
 }
@@ -604,11 +618,7 @@ Obj *instanceFindGetter(ObjInstance *obj, ObjString *name) {
         if (tableGet(mtable, nameVal, &getter)) {
             return AS_OBJ(getter);
         }
-        if (klass == TO_OBJ(obj->singletonKlass)) {
-            klass = TO_OBJ(obj->klass);
-        } else {
-            klass = CLASS_SUPER(klass);
-        }
+        klass = nextLookupClass(obj, klass);
     }
     return NULL;
 }
@@ -625,7 +635,7 @@ Obj *instanceFindSetter(ObjInstance *obj, ObjString *name) {
         if (tableGet(mtable, nameVal, &setter)) {
             return AS_OBJ(setter);
         }
-        klass = CLASS_SUPER(klass);
+        klass = nextLookupClass(obj, klass);
     }
     return NULL;
 }
diff --git a/vm.c b/vm.c
index 073daba..c16d2f7 100644
--- a/vm.c
+++ b/vm.c
@@ -1076,6 +1076,55 @@ bool lookupMethod(ObjInstance *obj, Obj *klass, ObjString *propName, MethodType
     return false;
 }
 
+// Is `klass`, found in the ancestors of an object, the class or module that
+// defines a method?
+static inline bool isMethodOwner(Obj *klass, Obj *owner) {
+    if (klass->type == OBJ_T_ICLASS) {
+        return TO_OBJ(((ObjIClass*)klass)->mod) == owner;
+    }
+    return klass == owner;
+}
+
+// Find the method for 'super' called from `func`: the first one in the ancestors
+// of the object that come after the class or module in which `func` is defined.
+static bool lookupSuperMethod(ObjInstance *obj, ObjFunction *func, ObjString *name, MethodType mtype, Value *ret) {
+    // FIXME: should be frame->closure->klass, functions can be used in multiple classes
+    Obj *owner = func->klass; // NOTE: class or module
+    ASSERT(owner);
+    Value key = OBJ_VAL(name);
+    Obj *klass = NULL;
+    if (func->isSingletonMethod) { // static methods of the superclasses
+        klass = TO_OBJ(obj);
+        while (klass && !isMethodOwner(klass, owner)) klass = CLASS_SUPER(klass);
+        if (klass) klass = CLASS_SUPER(klass);
+        for (; klass; klass = CLASS_SUPER(klass)) {
+            ObjClass *meta = NULL;
+            if (klass->type == OBJ_T_ICLASS) {
+                meta = ((ObjIClass*)klass)->mod->singletonKlass;
+            } else {
+                meta = TO_CLASS(klass)->singletonKlass;
+            }
+            if (meta && tableGet(CLASS_METHOD_TBL(TO_OBJ(meta)), key, ret)) {
+                return true;
+            }
+        }
+        Obj *found = findMethod(TO_OBJ(obj->klass), name);
+        if (found) *ret = OBJ_VAL(found);
+        return found != NULL;
+    }
+    klass = obj->singletonKlass ? TO_OBJ(obj->singletonKlass) : TO_OBJ(obj->klass);
+    while (klass && !isMethodOwner(klass, owner)) klass = CLASS_SUPER(klass);
+    if (!klass) return false; // function isn't defined in one of the object's ancestors
+    for (klass = CLASS_SUPER(klass); klass; klass = CLASS_SUPER(klass)) {
+        Table *mtable = mtype == METHOD_TYPE_GETTER ?
+            CLASS_GETTER_TBL(klass) : CLASS_METHOD_TBL(klass);
+        if (tableGet(mtable, key, ret)) {
+            return true;
+        }
+    }
+    return false;
+}
+
 static InterpretResult vm_run0(void);
 static InterpretResult vm_run(void);
 
@@ -3103,35 +3152,15 @@ find_instance_method:
           ASSERT(th->thisObj);
           Value instanceVal = OBJ_VAL(th->thisObj);
           ASSERT(IS_INSTANCE_LIKE(instanceVal));
-          // FIXME: should be frame->closure->klass, functions can be used in multiple classes
-          ObjClass *klass = (ObjClass*)frame->closure->function->klass; // NOTE: class or module
-          ASSERT(klass);
-          ObjIClass *iclassFound = NULL;
-          if (TO_OBJ(klass)->type == OBJ_T_MODULE) {
-              ObjModule *mod = (ObjModule*)klass;
-              klass = AS_INSTANCE(instanceVal)->klass;
-              Obj *iclass = TO_OBJ(klass);
-              while (iclass != TO_OBJ(mod)) {
-                  iclass = CLASSINFO(iclass)->superclass;
-                  if (iclass->type == OBJ_T_CLASS) {
-                      // do nothing
-                  } else if (iclass->type == OBJ_T_ICLASS) {
-                      iclassFound = (ObjIClass*)iclass;
-                      iclass = TO_OBJ(((ObjIClass*)iclass)->mod);
-                  }
-              }
-              ASSERT(iclass == TO_OBJ(mod));
-              klass = (ObjClass*)iclassFound;
-          }
           bool found;
           Value method;
           enum MethodType mtype = METHOD_TYPE_METHOD;
           if (frame->closure->function->ftype == FUN_TYPE_GETTER) {
               mtype = METHOD_TYPE_GETTER;
           }
-          found = lookupMethod(
-                  AS_INSTANCE(instanceVal), TO_OBJ(klass),
-                  AS_STRING(methodName), mtype, &method, false);
+          found = lookupSuperMethod(
+                  AS_INSTANCE(instanceVal), frame->closure->function,
+                  AS_STRING(methodName), mtype, &method);
           if (UNLIKELY(!found)) {
               throwErrorFmt(lxErrClass, "Could not find method '%s' for 'super'",
                       AS_CSTRING(methodName));
-- 
2.43.0


From 34a84f5ddbd502ac4a042f77a11d34463f1517f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 13/53] fix: array and map literals evaluated their elements
 from right to left

---
 compiler.c |  2 --
 vm.c       | 12 +++++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/compiler.c b/compiler.c
index 18e229e..9f1d438 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1998,7 +1998,6 @@ static void emitNode(Node *n) {
             }
         }
         if (!allConst) {
-            vec_reverse(n->children);
             emitChildren(n);
             emitOp1(OP_ARRAY, (bytecode_t)n->children->length);
         } else {
@@ -2032,7 +2031,6 @@ static void emitNode(Node *n) {
         }
 
         if (!allConst) {
-            vec_reverse(n->children);
             emitChildren(n);
             emitOp1(OP_MAP, (bytecode_t)n->children->length);
         } else {
diff --git a/vm.c b/vm.c
index c16d2f7..8c6c6f7 100644
--- a/vm.c
+++ b/vm.c
@@ -3465,11 +3465,12 @@ find_instance_method:
           Value aryVal = newArray();
           hideFromGC(AS_OBJ(aryVal));
           ValueArray *ary = &AS_ARRAY(aryVal)->valAry;
-          for (int i = 0; i < (int)numEls; i++) {
-              Value el = VM_POP();
+          for (int i = (int)numEls-1; i >= 0; i--) {
+              Value el = VM_PEEK(i);
               writeValueArrayEnd(ary, el);
               OBJ_WRITE(aryVal, el);
           }
+          VM_POPN(numEls);
           VM_PUSH(aryVal);
           unhideFromGC(AS_OBJ(aryVal));
           DISPATCH_BOTTOM();
@@ -3487,13 +3488,14 @@ find_instance_method:
           Value mapVal = newMap();
           hideFromGC(AS_OBJ(mapVal));
           Table *map = AS_MAP(mapVal)->table;
-          for (int i = 0; i < (int)numKeyVals; i+=2) {
-              Value key = VM_POP();
-              Value val = VM_POP();
+          for (int i = (int)numKeyVals-1; i > 0; i-=2) {
+              Value key = VM_PEEK(i);
+              Value val = VM_PEEK(i-1);
               tableSet(map, key, val);
               OBJ_WRITE(mapVal, key);
               OBJ_WRITE(mapVal, val);
           }
+          VM_POPN(numKeyVals);
           VM_PUSH(mapVal);
           unhideFromGC(AS_OBJ(mapVal));
           DISPATCH_BOTTOM();
-- 
2.43.0


From 64016a6e583f31f4f6d7a70dd1c25b1051447a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 14/53] fix: a catch clause followed by another left its error
 variable on the stack

---
 compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler.c b/compiler.c
index 9f1d438..f6cc9f1 100644
--- a/compiler.c
+++ b/compiler.c
@@ -2555,6 +2555,7 @@ static void emitNode(Node *n) {
                     /*if (catchStmt->children->length > 2) {*/
                     /*emitOp0(OP_POP); // pop the bound error variable*/
                     /*}*/
+                    popScope(COMPILE_SCOPE_TRY); // pops the bound error variable
                     // don't emit a jump at the end of the final catch statement, or if
                     // the next child after this one is an ensure block
                     if (i < n->children->length-1) {
@@ -2564,7 +2565,6 @@ static void emitNode(Node *n) {
                             vec_push(&vjumps, jumpStart);
                         }
                     }
-                    popScope(COMPILE_SCOPE_TRY);
                 } else { // ensure or else stmt
                     if (catchStmt->type.kind == TRY_ELSE_STMT) {
                         ASSERT(jumpToEnd);
-- 
2.43.0


From 74c5eb5ff5a9fe453cf248553ee43bf1b838f229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 15/53] fix: constant lookup crashed in classes with included
 modules, and their superClass was wrong

---
 runtime.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/runtime.c b/runtime.c
index 4af56fe..7d92495 100644
--- a/runtime.c
+++ b/runtime.c
@@ -111,6 +111,14 @@ void addConstantUnder(const char *name, Value constVal, Value owner) {
     }
 }
 
+// Classes with included modules have iclasses in their superclass chain
+static inline Table *constantTable(ObjClass *klass) {
+    if (TO_OBJ(klass)->type == OBJ_T_ICLASS) {
+        klass = TO_CLASS(((ObjIClass*)klass)->mod);
+    }
+    return CLASSINFO(klass)->constants;
+}
+
 // NOTE: `klass` can be NULL, in which case only `vm.constants` is checked.
 // Also, `name` can be a qualified constant, ex: `My::Error`.
 bool findConstantUnder(ObjClass *klass, ObjString *name, Value *valOut) {
@@ -124,7 +132,7 @@ bool findConstantUnder(ObjClass *klass, ObjString *name, Value *valOut) {
         name = qualifiedPart;
     }
     while (klass) {
-        if (tableGet(CLASSINFO(klass)->constants, OBJ_VAL(name), valOut)) {
+        if (tableGet(constantTable(klass), OBJ_VAL(name), valOut)) {
             baseConstant = AS_OBJ(*valOut);
             if (qualifiedParts == 1) return true;
             goto foundBase;
@@ -134,12 +142,12 @@ bool findConstantUnder(ObjClass *klass, ObjString *name, Value *valOut) {
     while (origKlass && (klass = TO_CLASS(CLASSINFO(origKlass)->under))) {
         origKlass = klass;
         while (klass) {
-            if (tableGet(CLASSINFO(klass)->constants, OBJ_VAL(name), valOut)) {
+            if (tableGet(constantTable(klass), OBJ_VAL(name), valOut)) {
                 baseConstant = AS_OBJ(*valOut);
                 if (qualifiedParts == 1) return true;
                 goto foundBase;
             }
-            klass = TO_CLASS(CLASSINFO(klass)->superclass);
+            klass = TO_CLASS(CLASS_SUPER(klass));
         }
     }
     if (tableGet(&vm.constants, OBJ_VAL(name), valOut)) {
@@ -1059,7 +1067,7 @@ Value lxClassGetSuperclass(int argCount, Value *args) {
         if (superClass->type == OBJ_T_CLASS) { // found
             break;
         } else { // iclass (module)
-            klass = CLASS_SUPER(superClass);
+            klass = superClass;
         }
     }
     if (superClass) {
-- 
2.43.0


From 8d235e0eda652ea9989d89454a185bbcc5a1f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 16/53] fix: the garbage collector freed objects that were in
 use

---
 file.c    |   1 +
 io.c      |   1 +
 memory.c  | 187 +++++++++++++++++++++++++++++-------------------------
 object.c  |   1 -
 regex.c   |   2 +
 runtime.c |   6 +-
 thread.c  |   2 +
 vm.c      |  17 +++--
 8 files changed, 122 insertions(+), 95 deletions(-)

diff --git a/file.c b/file.c
index fe440c6..d0c7cac 100644
--- a/file.c
+++ b/file.c
@@ -429,6 +429,7 @@ static Value lxFileRename(int argCount, Value *args) {
     int last = errno;
     if (rename(oldPath, newPath) == 0) {
         f->name = dupString(newPathStr);
+        OBJ_WRITE(self, OBJ_VAL(f->name));
         return BOOL_VAL(true);
     } else {
         int err = errno;
diff --git a/io.c b/io.c
index 721536d..e4d3b00 100644
--- a/io.c
+++ b/io.c
@@ -46,6 +46,7 @@ LxFile *initIOAfterOpen(Value ioVal, ObjString *fname, int fd, int mode, int ofl
     hideFromGC((Obj*)ioObj);
     LxFile *file = ALLOCATE(LxFile, 1);
     file->name = dupString(fname);
+    OBJ_WRITE(ioVal, OBJ_VAL(file->name));
     hideFromGC((Obj*)file->name);
     file->fd = fd;
     file->mode = mode;
diff --git a/memory.c b/memory.c
index 579a1db..6a56064 100644
--- a/memory.c
+++ b/memory.c
@@ -75,6 +75,7 @@ static void stopGCRunProfileTimer(struct timeval *timeStart, struct timeval *tou
 
 struct sGCStats GCStats;
 int activeFinalizers = 0;
+static bool hasFinalizer(Obj *obj);
 
 static void printGenerationInfo() {
     fprintf(stderr, "Generation info:\n");
@@ -296,12 +297,6 @@ static inline void pushYoungObject(Obj *obj) {
     youngStack[youngStackSz++] = obj;
 }
 
-static inline bool inRememberSet(Obj *obj) {
-    int found = -1;
-    vec_find(&rememberSet, obj, found);
-    return found != -1;
-}
-
 // collect all young objects that aren't in the remember set, aren't
 // on the stack (VM and "C" obj stack)
 void collectYoungGarbage() {
@@ -414,15 +409,26 @@ void collectYoungGarbage() {
                     grayObject(TO_OBJ(frame->closure));
                 if (frame->instance)
                     grayObject(TO_OBJ(frame->instance));
+                if (frame->klass)
+                    grayObject(TO_OBJ(frame->klass));
                 if (frame->scope) {
                     grayObject(TO_OBJ(frame->scope));
                 }
+                if (frame->nativeFunc)
+                    grayObject(TO_OBJ(frame->nativeFunc));
+                if (frame->callInfo && frame->callInfo->blockInstance) {
+                    grayObject(TO_OBJ(frame->callInfo->blockInstance));
+                }
+                if (frame->callInfo && frame->callInfo->blockFunction) {
+                    grayObject(TO_OBJ(frame->callInfo->blockFunction));
+                }
             }
         }
         if (th->openUpvalues) {
             ObjUpvalue *up = th->openUpvalues;
             while (up) {
                 ASSERT(up->value);
+                grayObject((Obj*)up);
                 grayValue(*up->value);
                 up = up->next;
             }
@@ -432,12 +438,34 @@ void collectYoungGarbage() {
         GC_TRACE_DEBUG(3, "Marking VM print buf");
         grayObject((Obj*)vm.printBuf);
     }
+    grayTable(&vm.regexLiterals);
+    grayTable(&vm.autoloadTbl);
+    grayCompilerRoots();
+    ObjClosure *exitHandler = NULL; int ehIdx = 0;
+    vec_foreach(&vm.exitHandlers, exitHandler, ehIdx) {
+        grayObject((Obj*)exitHandler);
+    }
+    // Hidden and remembered objects are kept, so the young objects that they
+    // refer to have to be kept as well.
+    void *objPtr = NULL; int objIdx = 0;
+    vec_foreach(&vm.hiddenObjs, objPtr, objIdx) {
+        grayObject((Obj*)objPtr);
+    }
+    vec_foreach(&rememberSet, objPtr, objIdx) {
+        grayObject((Obj*)objPtr);
+    }
     int numPromotedDark = 0;
-    int numPromotedOther = 0;
-    int numPromotedRemembered = 0;
     int numCollected = 0;
     ObjAny *newFreeList = freeList;
 
+    // Let full GC deal with finalizer object destruction
+    for (int i = 0; activeFinalizers > 0 && i < youngStackSz; i++) {
+        Obj *youngObj = youngStack[i];
+        if (youngObj->type != OBJ_T_NONE && IS_YOUNG_OBJ(youngObj) && hasFinalizer(youngObj)) {
+            grayObject(youngObj);
+        }
+    }
+
     int grayCount = vm.grayCount;
     while (grayCount > 0) {
         // Pop an item from the gray stack.
@@ -460,6 +488,7 @@ void collectYoungGarbage() {
         if (youngObj->GCGen > GC_GEN_MIN || OBJ_IS_HIDDEN(youngObj)) {
             if (OBJ_IS_HIDDEN(youngObj)) {
                 numHidden++;
+                GC_PROMOTE_ONCE(youngObj);
             // sometimes objects are created with NEWOBJ_FLAG_NONE and then
             // `GC_PROMOTE`d in the code sometime later (usually right after creation).
             } else if (youngObj->GCGen > GC_GEN_MIN) {
@@ -472,22 +501,10 @@ void collectYoungGarbage() {
             OBJ_UNSET_DARK(youngObj);
             continue;
         }
-        // Let full GC deal with finalizer object destruction
-        if (activeFinalizers > 0 && youngObj->type == OBJ_T_INSTANCE &&
-                ((ObjInstance*)youngObj)->finalizerFunc != NULL) {
-            numPromotedOther++;
-            GC_PROMOTE_ONCE(youngObj);
-            OBJ_UNSET_DARK(youngObj);
-            continue;
-        }
         if (OBJ_IS_DARK(youngObj)) {
             numPromotedDark++;
             GC_PROMOTE_ONCE(youngObj);
             OBJ_UNSET_DARK(youngObj);
-        } else if (inRememberSet(youngObj)) {
-            numPromotedRemembered++;
-            GC_PROMOTE_ONCE(youngObj);
-            OBJ_UNSET_DARK(youngObj);
         } else {
             ASSERT(IS_YOUNG_OBJ(youngObj));
             ASSERT(!OBJ_IS_HIDDEN(youngObj));
@@ -513,8 +530,6 @@ void collectYoungGarbage() {
     GC_TRACE_DEBUG(2, "Num not young: %d", numNotYoung);
     GC_TRACE_DEBUG(2, "Num promoted (hidden): %d", numHidden);
     GC_TRACE_DEBUG(2, "Num promoted (dark): %d", numPromotedDark);
-    GC_TRACE_DEBUG(2, "Num promoted (remembered): %d", numPromotedRemembered);
-    GC_TRACE_DEBUG(2, "Num promoted (finalizers): %d", numPromotedOther);
     GC_TRACE_DEBUG(2, "Num collected: %d", numCollected);
     vec_clear(&rememberSet);
     stopGCRunProfileTimer(&tRunStart, &GCProf.totalGCYoungTime);
@@ -984,7 +999,8 @@ void freeObject(Obj *obj) {
             vec_deinit(&func->scopes);
             vec_deinit(&func->variables);
             FREE_SIZE(sizeof(Upvalue)*LX_MAX_UPVALUES, func->upvaluesInfo);
-            if (func->programNode) {
+            // functions defined inside of this one use its nodes as well
+            if (func->programNode && inFinalFree) {
                 freeNode(func->programNode, true);
             }
             GC_TRACE_DEBUG(5, "Freeing ObjFunction: p=%p", obj);
@@ -1011,7 +1027,7 @@ void freeObject(Obj *obj) {
             GC_TRACE_DEBUG(5, "Freeing ObjNative: p=%p", obj);
             if (!inFinalFree) { // method override
                 ObjNative *native = (ObjNative*)obj; (void)native;
-                GC_TRACE_DEBUG(5, "Freeing ObjNative: p=%p, class=%s", obj, className((ObjClass*)native->klass));
+                GC_TRACE_DEBUG(5, "Freeing ObjNative: p=%p, class=%p", obj, native->klass);
             }
             obj->type = OBJ_T_NONE;
             break;
@@ -1088,14 +1104,14 @@ void freeObject(Obj *obj) {
         }
         case OBJ_T_STRING: {
             ObjString *string = (ObjString*)obj;
-            ASSERT(string->chars);
+            // NOTE: chars is NULL if an error was thrown before String#init ran
             GC_TRACE_DEBUG(5, "Freeing string chars: p=%p, interned=%s,static=%s,shared=%s",
                     string->chars,
                     STRING_IS_INTERNED(string) ? "t" : "f",
                     STRING_IS_STATIC(string) ? "t" : "f",
                     STRING_IS_SHARED(string) ? "t" : "f"
             );
-            if (!STRING_IS_SHARED(string)) {
+            if (string->chars && !STRING_IS_SHARED(string)) {
                 GC_TRACE_DEBUG(5, "Freeing string chars: s='%s' (len=%d, capa=%d)", string->chars, string->length, string->capacity);
                 FREE_ARRAY(char, string->chars, string->capacity + 1);
             }
@@ -1178,13 +1194,12 @@ static void callFinalizer(Obj *obj) {
     ObjInstance *instance = (ObjInstance*)obj;
     Value instanceVal = OBJ_VAL(obj);
     GC_TRACE_DEBUG(3, "Calling finalizer");
-    inGC = false; // so we can allocate objects in the function
-    dontGC = true;
-    callFunctionValue(OBJ_VAL(instance->finalizerFunc), 1, &instanceVal);
-    inGC = true;
-    dontGC = false;
+    Value func = OBJ_VAL(instance->finalizerFunc);
     instance->finalizerFunc = NULL;
     activeFinalizers--;
+    dontGC = true;
+    callFunctionValue(func, 1, &instanceVal);
+    dontGC = false;
 }
 
 // Full collection single-phase mark and sweep
@@ -1197,7 +1212,7 @@ void collectGarbage(void) {
         fprintf(stderr, "Non-zero graycount? %d\n", vm.grayCount);
         ASSERT(vm.grayCount == 0);
     }
-    if (!GCOn || OPTION_T(disableGC)) {
+    if (!GCOn || dontGC || OPTION_T(disableGC)) {
         GC_TRACE_DEBUG(1, "GC run skipped (GC OFF)");
         return;
     }
@@ -1326,6 +1341,7 @@ void collectGarbage(void) {
             ObjUpvalue *up = th->openUpvalues;
             while (up) {
                 ASSERT(up->value);
+                grayObject((Obj*)up);
                 grayValue(*up->value);
                 up = up->next;
                 numOpenUpsFound++;
@@ -1405,6 +1421,30 @@ void collectGarbage(void) {
     }
     GC_TRACE_DEBUG(3, "Done blackening references");
 
+    // Unreachable objects that have finalizers are kept (with all that they
+    // refer to) until the next run, the finalizers are called after this one.
+    vec_void_t v_finalize;
+    vec_init(&v_finalize);
+    for (int i = 0; activeFinalizers > 0 && i < heapsUsed; i++) {
+        for (ObjAny *cell = heapList[i]; cell < heapList[i] + HEAP_SLOTS; cell++) {
+            Obj *obj = (Obj*)cell;
+            if (obj->type == OBJ_T_NONE || OBJ_IS_DARK(obj) || OBJ_IS_HIDDEN(obj)) continue;
+            int rootedCStack = -1;
+            vec_find(&v_stackObjs, obj, rootedCStack);
+            if (rootedCStack == -1 && hasFinalizer(obj)) {
+                vec_push(&v_finalize, obj);
+            }
+        }
+    }
+    void *finalizePtr = NULL; int finalizeIdx = 0;
+    vec_foreach(&v_finalize, finalizePtr, finalizeIdx) {
+        grayObject((Obj*)finalizePtr);
+    }
+    while (vm.grayCount > 0) {
+        Obj *marked = vm.grayStack[--vm.grayCount];
+        blackenObject(marked);
+    }
+
     GC_TRACE_DEBUG(2, "Begin FREE process");
     // Collect the white (unmarked) objects.
     int iter = 0; (void)iter;
@@ -1414,18 +1454,13 @@ void collectGarbage(void) {
 
     ObjAny *p, *pend;
 
-    int phase = 1; // call finalizers in phase 1
     vec_void_t vFreeHeaps;
     vec_init(&vFreeHeaps);
-    freeList = NULL; // build up a new free list in phase 2
-    if (activeFinalizers == 0) {
-        phase = 2;
-    }
+    freeList = NULL; // build up a new free list
     bool hasOtherFreeishHeap = false;
-freeLoop:
+    unsigned long numCellsFree = 0;
     for (int i = 0; i < heapsUsed; i++) {
-        ObjAny *newFreeList = NULL;
-        if (phase == 2) newFreeList = freeList;
+        ObjAny *newFreeList = freeList;
         p = heapList[i];
         if (UNLIKELY(!p)) {
             fprintf(stderr, "NULL heap page? %p, i=%d, heapsUsed: %d, heapListSize: %d\n", p, i, heapsUsed, heapListSize);
@@ -1437,7 +1472,10 @@ freeLoop:
         while (p < pend) {
             Obj *obj = (Obj*)p;
             if (obj->type == OBJ_T_NONE) {
-                if (phase == 2) objectsFree++;
+                obj->nextFree = newFreeList;
+                newFreeList = p;
+                objectsFree++;
+                numCellsFree++;
                 p++;
                 continue;
             }
@@ -1445,57 +1483,31 @@ freeLoop:
             int rootedCStack = -1;
             vec_find(&v_stackObjs, obj, rootedCStack);
             if (!OBJ_IS_DARK(obj) && !OBJ_IS_HIDDEN(obj)) {
-                if (phase == 2) { // phase 2, reclaim unmarked objects
-                    if (rootedCStack == -1) {
-                        numObjectsFreed++;
-                        obj->nextFree = newFreeList;
-                        freeObject(obj);
-                        newFreeList = p;
-                        numObjectsFreed++;
-                    } else {
-                        GC_TRACE_DEBUG(4, "Skipped freeing stack object: p=%p", obj);
-                    }
-                } else { // phase 1, call finalizers
-                    ASSERT(phase == 1);
-                    if (rootedCStack == -1) {
-                        if (UNLIKELY(hasFinalizer(obj))) {
-                            ASSERT(((ObjInstance*) obj)->finalizerFunc->type != OBJ_T_NONE);
-                            callFinalizer(obj);
-                            if (activeFinalizers == 0) {
-                                phase = 2; i = 0;
-                                goto freeLoop;
-                            }
-                        }
-                    }
+                if (rootedCStack == -1) {
+                    numObjectsFreed++;
+                    obj->nextFree = newFreeList;
+                    freeObject(obj);
+                    newFreeList = p;
+                    numObjectsFreed++;
+                } else {
+                    GC_TRACE_DEBUG(4, "Skipped freeing stack object: p=%p", obj);
                 }
             } else if (OBJ_IS_HIDDEN(obj) && !OBJ_IS_DARK(obj)) { // keep
-                if (phase == 2) {
-                    numObjectsHiddenNotMarked++;
-                }
+                numObjectsHiddenNotMarked++;
             } else { // unmark for next run
-                if (phase == 2) {
-                    GCPromoteOnce(obj);
-                    OBJ_UNSET_DARK(obj);
-                    numObjectsKept++;
-                }
+                GCPromoteOnce(obj);
+                OBJ_UNSET_DARK(obj);
+                numObjectsKept++;
             }
             p++;
         }
 
-        if (phase == 2) {
-            freeList = newFreeList;
-            if (objectsFree == HEAP_SLOTS) {
-                vec_push(&vFreeHeaps, heapList[i]);
-            } else if (objectsFree >= (HEAP_SLOTS/2)) {
-                hasOtherFreeishHeap = true;
-            }
+        freeList = newFreeList;
+        if (objectsFree == HEAP_SLOTS) {
+            vec_push(&vFreeHeaps, heapList[i]);
+        } else if (objectsFree >= (HEAP_SLOTS/2)) {
+            hasOtherFreeishHeap = true;
         }
-
-    }
-    if (phase == 1) {
-        phase = 2; i = 0;
-        freeList = NULL;
-        goto freeLoop;
     }
 
     bool freedHeap = false;
@@ -1509,7 +1521,7 @@ freeLoop:
         /*freedHeap = true;*/
     /*}*/
 
-    if (!freedHeap && numObjectsFreed < FREE_MIN) {
+    if (!freedHeap && numCellsFree+numObjectsFreed < FREE_MIN) {
         addHeap();
     }
 
@@ -1530,6 +1542,11 @@ freeLoop:
     inGC = false;
     inFullGC = false;
     vm.grayCount = 0;
+
+    vec_foreach(&v_finalize, finalizePtr, finalizeIdx) {
+        callFinalizer((Obj*)finalizePtr);
+    }
+    vec_deinit(&v_finalize);
 }
 
 // Force free all objects, regardless of noGC field on the object.
diff --git a/object.c b/object.c
index 3e4f737..c03be61 100644
--- a/object.c
+++ b/object.c
@@ -686,7 +686,6 @@ void setObjectFinalizer(ObjInstance *obj, Obj *callable) {
     ASSERT(isCallable(OBJ_VAL(callable)));
     if (obj->finalizerFunc == NULL) {
         activeFinalizers++;
-        GC_PROMOTE_ONCE(obj);
         OBJ_SET_HAS_FINALIZER(obj);
     }
     OBJ_WRITE(OBJ_VAL(obj), OBJ_VAL(callable));
diff --git a/regex.c b/regex.c
index 79fea0a..bf4e55a 100644
--- a/regex.c
+++ b/regex.c
@@ -86,8 +86,10 @@ static Value lxRegexMatch(int argCount, Value *args) {
               NUMBER_VAL(mdata.match_len)
           };
           Value md = callFunctionValue(OBJ_VAL(lxMatchDataClass), 2, mdArgs);
+          hideFromGC(AS_OBJ(md));
           matchDataSetRegex(md, self);
           matchDataPopulateCaptures(md);
+          unhideFromGC(AS_OBJ(md));
           return md;
         } else {
             return NUMBER_VAL(mdata.match_start);
diff --git a/runtime.c b/runtime.c
index 7d92495..daaa7f4 100644
--- a/runtime.c
+++ b/runtime.c
@@ -905,7 +905,7 @@ Value lxObjectSetProperty(int argCount, Value *args) {
     Value propName = args[1];
     Value propVal = args[2];
     CHECK_ARG_IS_A(propName, lxStringClass, 1);
-    propertySet(AS_INSTANCE(self), AS_STRING(propName), propVal);
+    propertySet(AS_INSTANCE(self), INTERN(AS_CSTRING(propName)), propVal);
     return propVal;
 }
 
@@ -1146,7 +1146,7 @@ Value lxClassAliasMethod(int argCount, Value *args) {
     if (!method) {
         throwErrorFmt(lxArgErrClass, "Method '%s' not found for aliasMethod", AS_CSTRING(oldName));
     }
-    defineMethod(klass, AS_STRING(newName), OBJ_VAL(method));
+    defineMethod(klass, INTERN(AS_CSTRING(newName)), OBJ_VAL(method));
     return NIL_VAL;
 }
 
@@ -1177,7 +1177,7 @@ Value lxClassDefineMethod(int argCount, Value *args) {
     if (!isCallable(func)) {
         throwErrorFmt(lxArgErrClass, "Method must be a callable");
     }
-    defineMethod(self, AS_STRING(name), func);
+    defineMethod(self, INTERN(AS_CSTRING(name)), func);
     return self;
 }
 
diff --git a/thread.c b/thread.c
index f50c1b6..c45fca3 100644
--- a/thread.c
+++ b/thread.c
@@ -488,6 +488,8 @@ static Value lxThreadSetTLS(int argCount, Value *args) {
         th->tlsMap = AS_MAP(newMap());
     }
     mapSet(OBJ_VAL(th->tlsMap), key, val);
+    OBJ_WRITE(OBJ_VAL(th->tlsMap), key);
+    OBJ_WRITE(OBJ_VAL(th->tlsMap), val);
     return val;
 }
 
diff --git a/vm.c b/vm.c
index 8c6c6f7..2a43851 100644
--- a/vm.c
+++ b/vm.c
@@ -673,6 +673,7 @@ static void stackOverflow(char *msg) {
     if (ctx->overflowing) return; // already creating the error, uses the reserve
     ctx->overflowing = true;
     Value err = newError(lxErrClass, OBJ_VAL(copyString(msg, strlen(msg), NEWOBJ_FLAG_NONE)));
+    vm.curThread->lastErrorThrown = err; // not on the stack, GC root
     setBacktrace(err);
     ctx->overflowing = false;
     throwError(err);
@@ -1425,6 +1426,8 @@ CallFrame *pushFrame(ObjFunction *userFunc) {
         stackOverflow("Stack overflow, too many call frames");
     }
     ASSERT(ec->frameCount < ec->frames_capa);
+    // can run finalizers, so it's done before the frame is pushed
+    ObjScope *scope = userFunc ? newScope(userFunc) : NULL;
     CallFrame *prev = getFrameOrNull();
     CallFrame *frame = &ec->frames[ec->frameCount++];
     memset(frame, 0, sizeof(*frame));
@@ -1437,11 +1440,7 @@ CallFrame *pushFrame(ObjFunction *userFunc) {
         if (callable->type == OBJ_T_CLOSURE) callable = (Obj*)((ObjClosure*)callable)->function;
         if (callable == (Obj*)userFunc) bentry->frame = frame;
     }
-    if (userFunc) {
-        frame->scope = newScope(userFunc);
-    } else {
-        frame->scope = NULL;
-    }
+    frame->scope = scope;
     return frame;
 }
 
@@ -2234,7 +2233,10 @@ static bool setScopeLocal(LxThread *th, Value *slot, Value val) {
 static void setUpvalue(ObjUpvalue *upvalue, Value val) {
     Value *slot = upvalue->value;
     *slot = val;
-    if (slot == &upvalue->closed) return; // owner returned
+    if (slot == &upvalue->closed) { // owner returned
+        OBJ_WRITE(OBJ_VAL(upvalue), val);
+        return;
+    }
     if (setScopeLocal(vm.curThread, slot, val)) return;
     // the owner is running in another thread
     Obj *threadInst = NULL; int tidx = 0;
@@ -2301,6 +2303,7 @@ static void closeUpvalues(Value *last) {
         // Copy the value into the upvalue itself and point the upvalue to it.
         upvalue->closed = *upvalue->value;
         upvalue->value = &upvalue->closed;
+        OBJ_WRITE(OBJ_VAL(upvalue), upvalue->closed);
 
         // Pop it off the open upvalue list.
         th->openUpvalues = upvalue->next;
@@ -2989,8 +2992,10 @@ vmLoop:
           } else {
               ret = NIL_VAL;
           }
+          VM_PUSH(ret); // lastValue's stack slot gets reused
           Value err = newError(lxContinueBlockErrClass, NIL_VAL);
           setProp(err, key, ret);
+          VM_POP();
           throwError(err); // blocks catch this, not propagated
           DISPATCH_BOTTOM();
       }
-- 
2.43.0


From f12c22daaeea737810f0c6a9a2c884f5bfd3bf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:01 +0000
Subject: [PATCH 17/53] fix: pushing or inserting a string into itself read
 freed memory

---
 object.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/object.c b/object.c
index c03be61..a303bc5 100644
--- a/object.c
+++ b/object.c
@@ -175,8 +175,10 @@ void pushCString(ObjString *string, const char *chars, size_t lenToAdd) {
     if (newLen > string->capacity) {
         size_t newCapa = GROW_CAPACITY(string->capacity);
         size_t newSz = newLen > newCapa ? newLen : newCapa;
+        bool pushedSelf = chars == string->chars;
         string->chars = GROW_ARRAY(string->chars, char, string->capacity+1, newSz+1);
         string->capacity = newSz;
+        if (pushedSelf) chars = string->chars;
     }
     size_t i = 0;
     for (i = 0; i < lenToAdd; i++) {
@@ -201,6 +203,15 @@ void insertCString(ObjString *string, const char *chars, size_t lenToAdd, size_t
 
     if (lenToAdd == 0) return;
 
+    if (chars == string->chars) { // inserted into itself
+        char *copy = ALLOCATE(char, lenToAdd+1);
+        memcpy(copy, chars, lenToAdd);
+        copy[lenToAdd] = '\0';
+        insertCString(string, copy, lenToAdd, at, replaceAt);
+        FREE_ARRAY(char, copy, lenToAdd+1);
+        return;
+    }
+
     size_t newLen = string->length + lenToAdd;
     if (replaceAt) {
       newLen--;
-- 
2.43.0


From f7d48ec3968d3e66bf92bebec32f7f1e35481a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:04 +0000
Subject: [PATCH 18/53] fix: arguments that a block has no parameter for
 shifted its local variables

---
 vm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vm.c b/vm.c
index 2a43851..5b8e350 100644
--- a/vm.c
+++ b/vm.c
@@ -1765,7 +1765,12 @@ static bool doCallCallable(Value callable, int argCount, bool isMethod, CallInfo
         argCount--;
     }
     if (closure->isBlock || (callInfo && callInfo->blockInstance)) {
-        // no arity check
+        // no arity check, arguments that there is no parameter for are ignored
+        int maxArgs = func->arity + func->numDefaultArgs + func->numKwargs;
+        while (!func->hasRestArg && numKwargsGiven == 0 && argCount > maxArgs) {
+            pop();
+            argCount--;
+        }
     } else {
         checkFunctionArity(func, argCount, callInfo);
     }
-- 
2.43.0


From f177984b22080233e4d91775d57e376a7a3c41d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:22 +0000
Subject: [PATCH 19/53] fix: return in a function inside a block crashed the
 compiler, break and continue in a function without a loop crashed the VM

---
 compiler.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler.c b/compiler.c
index f6cc9f1..48c8d00 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1706,15 +1706,15 @@ static ObjFunction *emitFunction(Node *n, FunctionType ftype) {
     bool oldBreakBlock = breakBlock;
     if (ftype == FUN_TYPE_BLOCK) {
         blockDepth++;
-        breakBlock = true;
     }
+    breakBlock = ftype == FUN_TYPE_BLOCK;
     eLoopType oldLoopType = curLoopType;
-    curLoopType = LOOP_T_BLOCK;
+    curLoopType = ftype == FUN_TYPE_BLOCK ? LOOP_T_BLOCK : LOOP_T_NONE;
     emitChildren(n);
     if (ftype == FUN_TYPE_BLOCK) {
         blockDepth--;
-        breakBlock = oldBreakBlock;
     }
+    breakBlock = oldBreakBlock;
     popScope(stype);
     curLoopType = oldLoopType;
     func = endCompiler();
-- 
2.43.0


From 9c2dfa858e0a961b9ca8a869bed60354a75bdf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:20 +0000
Subject: [PATCH 20/53] fix: atExit hooks and finalizers after an uncaught
 error crashed, so did an error thrown by a hook

---
 vm.c | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/vm.c b/vm.c
index 5b8e350..cdde2d5 100644
--- a/vm.c
+++ b/vm.c
@@ -3591,12 +3591,25 @@ InterpretResult interpret(ObjFunction *func, char *filename) {
     frame->ip = chunk->code;
     frame->slots = EC->stack;
     frame->closure = newClosure(func, NEWOBJ_FLAG_OLD);
+    ObjClosure *closure = frame->closure;
+    hideFromGC(TO_OBJ(closure));
     unhideFromGC(TO_OBJ(func));
     frame->isCCall = false;
     frame->nativeFunc = NULL;
     setupPerScriptROGlobals(filename);
 
     InterpretResult result = vm_run0();
+    if (EC->frameCount == 0) {
+        // uncaught error, atExit hooks and finalizers need a frame to run in
+        frame = pushFrame(func);
+        frame->start = 0;
+        frame->ip = chunk->code + chunk->count;
+        frame->slots = EC->stack;
+        frame->closure = closure;
+        frame->isCCall = false;
+        frame->nativeFunc = NULL;
+    }
+    unhideFromGC(TO_OBJ(closure));
     return result;
 }
 
@@ -3927,14 +3940,28 @@ void *vm_protect(vm_cb_func func, void *arg, ObjClass *errClass, ErrTag *status)
     return NULL;
 }
 
+static void *runAtExitHook(void *func) {
+    callCallable(OBJ_VAL(func), 0, false, NULL);
+    return NULL;
+}
+
 void runAtExitHooks(void) {
     vm.exited = false;
-    ObjClosure *func = NULL;
-    int i = 0;
-    vec_foreach_rev(&vm.exitHandlers, func, i) {
+    while (vm.exitHandlers.length > 0) {
+        ObjClosure *func = (ObjClosure*)vec_pop(&vm.exitHandlers);
+        VMExecContext *ec = EC;
+        Value *stackTop = ec->stackTop;
+        int frameCount = ec->frameCount;
+        vm.curThread->hadError = false;
         push(OBJ_VAL(func));
-        callCallable(OBJ_VAL(func), 0, false, NULL);
-        pop();
+        ErrTag status = TAG_NONE;
+        vm_protect(runAtExitHook, func, NULL, &status);
+        if (status == TAG_RAISE) {
+            showUncaughtError(vm.curThread->lastErrorThrown);
+            vm.curThread->exitStatus = 1;
+        }
+        ec->stackTop = stackTop;
+        ec->frameCount = frameCount;
     }
 }
 
-- 
2.43.0


From 3257791ebf3d2bc424441e71e18d5c8217873ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:12 +0000
Subject: [PATCH 21/53] fix: Process.waitall only waited for one child process

---
 process.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.c b/process.c
index fc22a55..616f843 100644
--- a/process.c
+++ b/process.c
@@ -74,11 +74,11 @@ static Value lxWaitallStatic(int argCount, Value *args) {
     CHECK_ARITY("Process.waitall", 1, 1, argCount);
     pid_t pid = -1;
     Value ret = newArray();
-    while (pid == -1) {
+    while (true) {
         int wstatus = 0;
         int flags = 0;
         releaseGVL(THREAD_STOPPED);
-        pid = waitpid(pid, &wstatus, flags);
+        pid = waitpid(-1, &wstatus, flags);
         acquireGVL();
         if (pid == -1) {
             if (errno == ECHILD) {
-- 
2.43.0


From 4e31e7f6d7cf8efbd684848105fa1b8213a8a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:03 +0000
Subject: [PATCH 22/53] fix: values stored in the TLS of an ended thread were
 garbage collected

---
 memory.c |  4 +++-
 thread.c | 16 ++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/memory.c b/memory.c
index 6a56064..a728f49 100644
--- a/memory.c
+++ b/memory.c
@@ -348,6 +348,7 @@ void collectYoungGarbage() {
             grayObject(th->thisObj);
         }
         grayValue(th->lastErrorThrown);
+        grayValue(th->errorToThrow);
         VMExecContext *ctx = NULL; int k = 0;
         vec_foreach(&th->v_ecs, ctx, k) {
             grayTable(&ctx->roGlobals);
@@ -1262,6 +1263,7 @@ void collectGarbage(void) {
             grayObject(TO_OBJ(th->tlsMap));
         }
         grayValue(th->lastErrorThrown);
+        grayValue(th->errorToThrow);
         VMExecContext *ctx = NULL; int k = 0;
         vec_foreach(&th->v_ecs, ctx, k) {
             grayTable(&ctx->roGlobals);
@@ -1280,7 +1282,7 @@ void collectGarbage(void) {
     }
 
     int zombieIdx; int zidx = 0;
-    vec_foreach(&v_zombies, zombieIdx, zidx) {
+    vec_foreach_rev(&v_zombies, zombieIdx, zidx) {
         vec_splice(&vm.threads, zombieIdx, 1);
     }
     vec_deinit(&v_zombies);
diff --git a/thread.c b/thread.c
index c45fca3..2ca5796 100644
--- a/thread.c
+++ b/thread.c
@@ -180,6 +180,16 @@ typedef struct NewThreadArgs {
     LxThread *th;
 } NewThreadArgs;
 
+// The thread's values have to be kept for as long as its Thread instance is,
+// even when the thread has ended.
+static void markInternalThread(Obj *obj) {
+    ObjInternal *internal = (ObjInternal*)obj;
+    LxThread *th = (LxThread*)internal->data;
+    if (th->tlsMap) {
+        grayObject(TO_OBJ(th->tlsMap));
+    }
+}
+
 // NOTE: This thread is not running yet, this is just setting it up.
 // It doesn't have a thread id (tid) or its own stack yet.
 static ObjInstance *newThreadSetup(LxThread *parentThread) {
@@ -187,11 +197,11 @@ static ObjInstance *newThreadSetup(LxThread *parentThread) {
     THREAD_DEBUG(3, "New thread setup");
     ObjInstance *thInstance = newInstance(lxThreadClass, NEWOBJ_FLAG_OLD|NEWOBJ_FLAG_HIDDEN);
     hideFromGC((Obj*)thInstance);
-    ObjInternal *internalObj = newInternalObject(false, NULL, sizeof(LxThread), NULL, NULL, NEWOBJ_FLAG_NONE);
-    thInstance->internal = internalObj;
+    ObjInternal *internalObj = newInternalObject(false, NULL, sizeof(LxThread), markInternalThread, NULL, NEWOBJ_FLAG_NONE);
     LxThread *th = ALLOCATE(LxThread, 1);
     LxThreadSetup(th);
     internalObj->data = th;
+    thInstance->internal = internalObj;
 
     // set thread state from current (last) thread
     VMExecContext *ctx = NULL; int ctxIdx = 0;
@@ -469,6 +479,7 @@ static Value lxThreadGetTLS(int argCount, Value *args) {
     LxThread *th = THREAD_GETHIDDEN(self);
     if (!th->tlsMap) {
         th->tlsMap = AS_MAP(newMap());
+        OBJ_WRITE(self, OBJ_VAL(th->tlsMap));
     }
     Value val;
     if (mapGet(OBJ_VAL(th->tlsMap), key, &val)) {
@@ -486,6 +497,7 @@ static Value lxThreadSetTLS(int argCount, Value *args) {
     LxThread *th = THREAD_GETHIDDEN(self);
     if (!th->tlsMap) {
         th->tlsMap = AS_MAP(newMap());
+        OBJ_WRITE(self, OBJ_VAL(th->tlsMap));
     }
     mapSet(OBJ_VAL(th->tlsMap), key, val);
     OBJ_WRITE(OBJ_VAL(th->tlsMap), key);
-- 
2.43.0


From 2e58c9464ec00df4eac4d32a13d4fb7920b955aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:41 +0000
Subject: [PATCH 23/53] fix: local variables and catch blocks in a module body
 used the module's stack slot

---
 compiler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler.c b/compiler.c
index 48c8d00..46c6ff2 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1506,6 +1506,7 @@ static void emitModule(Node *n) {
 
     emitOp1(OP_MODULE, nameConstant);
     pushScope(COMPILE_SCOPE_MODULE);
+    addFakeLocal(false); // fake local corresponds to `this` (slot 0)
     emitChildren(n);
     popScope(COMPILE_SCOPE_MODULE);
 
-- 
2.43.0


From 2713f307e365ea9391efce40291ae3168089f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:41 +0000
Subject: [PATCH 24/53] fix: a caught error that left a class body didn't
 restore the class to define constants in

---
 chunk.c    |  6 +++++-
 chunk.h    |  5 ++++-
 compiler.c |  8 ++++++--
 compiler.h |  2 ++
 vm.c       | 16 +++++++++++++---
 vm.h       |  2 ++
 6 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/chunk.c b/chunk.c
index dd60c86..051587c 100644
--- a/chunk.c
+++ b/chunk.c
@@ -208,6 +208,7 @@ int iseqAddCatchRow(
     int ito,
     int itarget,
     int stackDepth,
+    int classDepth,
     Value catchVal
 ) {
     CatchTable *tblRow = ALLOCATE(CatchTable, 1);
@@ -217,6 +218,7 @@ int iseqAddCatchRow(
     tblRow->catchVal = catchVal;
     tblRow->isEnsure = false;
     tblRow->stackDepth = stackDepth;
+    tblRow->classDepth = classDepth;
     tblRow->next = NULL;
 
     CatchTable *row = seq->catchTbl;
@@ -239,7 +241,8 @@ int iseqAddEnsureRow(
     int ifrom,
     int ito,
     int itarget,
-    int stackDepth
+    int stackDepth,
+    int classDepth
 ) {
     CatchTable *tblRow = ALLOCATE(CatchTable, 1);
     tblRow->ifrom = ifrom;
@@ -248,6 +251,7 @@ int iseqAddEnsureRow(
     tblRow->catchVal = NIL_VAL;
     tblRow->isEnsure = true;
     tblRow->stackDepth = stackDepth;
+    tblRow->classDepth = classDepth;
     tblRow->next = NULL;
 
     CatchTable *row = seq->catchTbl;
diff --git a/chunk.h b/chunk.h
index 489d9e4..a42bfc2 100644
--- a/chunk.h
+++ b/chunk.h
@@ -21,6 +21,7 @@ typedef struct CatchTable {
     int ito; // instruction try block end
     int itarget; // instruction catch or ensure block start
     int stackDepth; // number of values in the callframe's stack slots at the try statement
+    int classDepth; // number of class and module bodies of the function that the try statement is in
     Value catchVal; // catch class or other value, if it's a catch block
 
     struct CatchTable *next; // next row in the catch table
@@ -117,6 +118,7 @@ int iseqAddCatchRow(
     int ito,
     int itarget,
     int stackDepth,
+    int classDepth,
     Value catchVal
 );
 int iseqAddEnsureRow(
@@ -124,7 +126,8 @@ int iseqAddEnsureRow(
     int ifrom,
     int ito,
     int itarget,
-    int stackDepth
+    int stackDepth,
+    int classDepth
 );
 
 // debugging
diff --git a/compiler.c b/compiler.c
index 46c6ff2..b18759f 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1485,7 +1485,9 @@ static void emitClass(Node *n) {
     }
 
     addFakeLocal(false); // fake local corresponds to `this` (slot 0)
+    current->classDepth++;
     emitChildren(n); // block node with methods and other declarations
+    current->classDepth--;
 
     popScope(COMPILE_SCOPE_CLASS);
 
@@ -1507,7 +1509,9 @@ static void emitModule(Node *n) {
     emitOp1(OP_MODULE, nameConstant);
     pushScope(COMPILE_SCOPE_MODULE);
     addFakeLocal(false); // fake local corresponds to `this` (slot 0)
+    current->classDepth++;
     emitChildren(n);
+    current->classDepth--;
     popScope(COMPILE_SCOPE_MODULE);
 
     // define the local or global variable for the class itself
@@ -2540,7 +2544,7 @@ static void emitNode(Node *n) {
                     STRING_SET_STATIC(className);
                     double catchTblRowIdx = (double)iseqAddCatchRow(
                             iseq, ifrom, ito,
-                            itarget, stackDepth, OBJ_VAL(className)
+                            itarget, stackDepth, current->classDepth, OBJ_VAL(className)
                             );
                     pushScope(COMPILE_SCOPE_TRY);
                     // given variable expression to bind to (Ex: (catch Error err))
@@ -2593,7 +2597,7 @@ static void emitNode(Node *n) {
                         emitNil();
                         itarget = iseq->wordCount; // jumped to with the error pushed
                         // the ensure block is also run for errors in catch and else blocks
-                        iseqAddEnsureRow(iseq, ifrom, itarget-1, itarget, stackDepth);
+                        iseqAddEnsureRow(iseq, ifrom, itarget-1, itarget, stackDepth, current->classDepth);
                         emitNode(vec_last(ensureStmt->children)); // ensure block
                         emitOp1(OP_RETHROW_IF_ERR, makeConstant(NUMBER_VAL(stackDepth), CONST_T_NUMLIT));
                         popScope(COMPILE_SCOPE_TRY);
diff --git a/compiler.h b/compiler.h
index 2fbab35..d866aad 100644
--- a/compiler.h
+++ b/compiler.h
@@ -97,6 +97,8 @@ typedef struct Compiler {
   // scope (global scope)
   int scopeDepth;
 
+  int classDepth; // The number of class and module bodies of this function that we're in
+
   Iseq iseq; // Generated instructions for the function
   Table constTbl;
 
diff --git a/vm.c b/vm.c
index cdde2d5..545f293 100644
--- a/vm.c
+++ b/vm.c
@@ -1391,12 +1391,13 @@ void popFrame(void) {
     } else {
         closeUpvalues(newTop);
     }
-    if (frame->klass != NULL) {
-        ASSERT(th->v_crefStack.length > 0);
+    // The frame's own class and instance, and the ones of any class bodies that
+    // are left because of an error.
+    while (th->v_crefStack.length > frame->crefDepth) {
         VM_DEBUG(3, "popping cref from popFrame");
         (void)vec_pop(&th->v_crefStack);
     }
-    if (frame->instance != NULL) {
+    while (th->v_thisStack.length > frame->thisDepth) {
         VM_DEBUG(3, "popping this from popFrame");
         popThis();
     }
@@ -1434,6 +1435,8 @@ CallFrame *pushFrame(ObjFunction *userFunc) {
     frame->callLine = curLine;
     frame->file = ec->filename;
     frame->prev = prev;
+    frame->crefDepth = vm.curThread->v_crefStack.length;
+    frame->thisDepth = vm.curThread->v_thisStack.length;
     BlockStackEntry *bentry = vec_last_or(&vm.curThread->v_blockStack, NULL);
     if (userFunc && bentry && bentry->frame == NULL) {
         Obj *callable = bentry->callable;
@@ -2101,6 +2104,12 @@ NORETURN void throwError(Value self) {
                 closeUpvalues(frame->slots + row->stackDepth);
                 EC->stackTop = frame->slots + row->stackDepth;
             }
+            // leave the class bodies that are inside the try statement
+            int crefDepth = frame->crefDepth + (frame->klass ? 1 : 0) + row->classDepth;
+            while (th->v_crefStack.length > crefDepth) {
+                (void)vec_pop(&th->v_crefStack);
+                popThis();
+            }
             if (row->isEnsure) {
                 push(self);
                 frame->slots[row->stackDepth] = self;
@@ -3787,6 +3796,7 @@ static Value doVMBindingEval(LxBinding *binding, char *src, char *filename, int
     vec_void_t old_cref_stack;
     memcpy(&old_cref_stack, &th->v_crefStack, sizeof(vec_void_t));
     memcpy(&th->v_crefStack, &binding->v_crefStack, sizeof(vec_void_t));
+    frame->crefDepth = th->v_crefStack.length;
 
     setupPerScriptROGlobals(filename);
 
diff --git a/vm.h b/vm.h
index 6d848db..e105364 100644
--- a/vm.h
+++ b/vm.h
@@ -42,6 +42,8 @@ typedef struct CallFrame {
     ObjScope *scope;
     ObjInstance *instance; // if function is a method
     ObjClass *klass; // if function is a method
+    int crefDepth; // length of the thread's v_crefStack when the frame was pushed
+    int thisDepth; // length of the thread's v_thisStack when the frame was pushed
 
     // Native (C) function fields
     bool isCCall; // native call, callframe created for C (native) function call
-- 
2.43.0


From e6ccf8c9c942bc8147e0cf3cc70536db68f784fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:16 +0000
Subject: [PATCH 25/53] fix: including a module into Object crashed

---
 object.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/object.c b/object.c
index a303bc5..6720fde 100644
--- a/object.c
+++ b/object.c
@@ -458,7 +458,9 @@ void setupIClass(ObjIClass *iclass) {
         CLASSINFO(iclass->klass)->superclass = (Obj*)iclass;
         OBJ_WRITE(OBJ_VAL(iclass->klass), OBJ_VAL(iclass));
         iclass->superklass = origSuper;
-        OBJ_WRITE(OBJ_VAL(iclass), OBJ_VAL(iclass->superklass));
+        if (iclass->superklass) { // NULL if the class is Object
+            OBJ_WRITE(OBJ_VAL(iclass), OBJ_VAL(iclass->superklass));
+        }
         iclass->isSetup = true;
     }
 }
-- 
2.43.0


From 0c4695b59f99c5257652a719a62449c39b61c1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 26/53] fix: aliasing an inherited method changed what super is
 relative to in it

---
 runtime.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime.c b/runtime.c
index daaa7f4..fec21b4 100644
--- a/runtime.c
+++ b/runtime.c
@@ -1146,7 +1146,13 @@ Value lxClassAliasMethod(int argCount, Value *args) {
     if (!method) {
         throwErrorFmt(lxArgErrClass, "Method '%s' not found for aliasMethod", AS_CSTRING(oldName));
     }
+    // `super` in the method is relative to the class that it's originally defined in
+    ObjFunction *func = method->type == OBJ_T_CLOSURE ? ((ObjClosure*)method)->function : NULL;
+    Obj *funcKlass = func ? func->klass : NULL;
     defineMethod(klass, INTERN(AS_CSTRING(newName)), OBJ_VAL(method));
+    if (func) {
+        func->klass = funcKlass;
+    }
     return NIL_VAL;
 }
 
-- 
2.43.0


From c0b17b2db7bfc197977258060fd545438e0bd1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:00 +0000
Subject: [PATCH 27/53] fix: printing a method that was defined with an
 anonymous function crashed

---
 value.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/value.c b/value.c
index 0dead47..87cef63 100644
--- a/value.c
+++ b/value.c
@@ -212,8 +212,8 @@ int printValue(FILE *file, Value value, bool canCallMethods, int maxLen) {
             } else {
                 UNREACHABLE("BUG");
             }
-            ASSERT(name->chars);
-            return fprintf(file, "<method %.*s>", PRINTNUM(9, maxLen), name->chars);
+            const char *nameStr = name ? name->chars : "(Anon)";
+            return fprintf(file, "<method %.*s>", PRINTNUM(9, maxLen), nameStr);
         } else if (OBJ_TYPE(value) == OBJ_T_INTERNAL) {
             return fprintf(file, "%.*s", PRINTNUM(10, maxLen), "<internal>");
         } else if (OBJ_TYPE(value) == OBJ_T_SCOPE) {
@@ -337,7 +337,7 @@ ObjString *valueToString(Value value, newStringFunc stringConstructor, int flags
                 fprintf(stderr, "Wrong obj type: %d\n", bmethod->callable->type);
                 UNREACHABLE("error");
             }
-            char *nameStr = name->chars;
+            const char *nameStr = name ? name->chars : "(Anon)"; // anonymous function
             char *cbuf = calloc(1, strlen(nameStr)+1+9);
             ASSERT_MEM(cbuf);
             sprintf(cbuf, "<method %s>", nameStr);
-- 
2.43.0


From 4a0e8754a5b7fa4c30fe0b8179aa9676cea9135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:07 +0000
Subject: [PATCH 28/53] fix: unpacking a value that isn't an array failed an
 assertion

---
 vm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vm.c b/vm.c
index 545f293..ffafef1 100644
--- a/vm.c
+++ b/vm.c
@@ -2332,8 +2332,8 @@ static Value unpackValue(Value val, bytecode_t idx) {
             return NIL_VAL;
         }
     } else {
-        fprintf(stderr, "[BUG]: type: %s\n", typeOfVal(val));
-        UNREACHABLE("type: %s", typeOfVal(val)); // FIXME: throw typeerror
+        throwErrorFmt(lxTypeErrClass, "Cannot unpack a non-array value. Type found: %s", typeOfVal(val));
+        UNREACHABLE_RETURN(NIL_VAL);
     }
 }
 
-- 
2.43.0


From f8e1419b29e247a14e66766162ef519fc148c2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:39 +0000
Subject: [PATCH 29/53] fix: joining a thread a second time joins a newer
 thread that has its id

---
 thread.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/thread.c b/thread.c
index 2ca5796..a8a190a 100644
--- a/thread.c
+++ b/thread.c
@@ -339,6 +339,10 @@ Value lxJoinThread(int argCount, Value *args) {
     THREAD_DEBUG(2, "Joining thread id %lu\n", th->tid);
     int ret = 0;
 
+    // the id of a thread that has been joined can belong to a newer thread
+    if (th->joined) {
+        throwErrorFmt(lxErrClass, "Error joining thread");
+    }
     pthread_t tid = th->tid;
     releaseGVL(THREAD_STOPPED);
     // blocking call until given thread ends execution
@@ -349,12 +353,9 @@ Value lxJoinThread(int argCount, Value *args) {
         throwErrorFmt(lxErrClass, "Error joining thread");
     }
     THREAD_DEBUG(2, "Joined thread id %lu, acquiring GVL\n", tid);
+    th->joined = true;
     acquireGVL();
     THREAD_DEBUG(2, "Joined thread id %lu\n", tid);
-    th = FIND_THREAD(tid);
-    if (th) {
-        th->joined = true;
-    }
     return NIL_VAL;
 }
 
-- 
2.43.0


From 47417c2e884996694472e99c8df2a43272229e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:05 +0000
Subject: [PATCH 30/53] fix: variables captured from a thread that exits inside
 a function are collected

---
 thread.c |  3 ++-
 vm.c     | 12 ++++++++++++
 vm.h     |  1 +
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/thread.c b/thread.c
index a8a190a..554c0e0 100644
--- a/thread.c
+++ b/thread.c
@@ -70,6 +70,7 @@ void threadExecuteInterrupts(LxThread *th) {
         } else if (interrupt == INTERRUPT_GENERAL) { // sent 'exit' interrupt to living thread
             THREAD_DEBUG(1, "Thread %lu got exit interrupt, exiting", th->tid);
             ASSERT(th != vm.mainThread);
+            closeThreadUpvalues(th);
             if (GVLOwner == th->tid) {
                 THREAD_DEBUG(1, "thread releasing GVL before exit");
                 releaseGVL(THREAD_ZOMBIE);
@@ -243,8 +244,8 @@ static ObjInstance *newThreadSetup(LxThread *parentThread) {
 
 void exitingThread(LxThread *th) {
     ASSERT(th);
+    closeThreadUpvalues(th);
     th->status = THREAD_ZOMBIE;
-    th->openUpvalues = NULL;
     LxThreadCleanup(th);
 }
 
diff --git a/vm.c b/vm.c
index ffafef1..ba2b07d 100644
--- a/vm.c
+++ b/vm.c
@@ -2324,6 +2324,18 @@ static void closeUpvalues(Value *last) {
     }
 }
 
+// The stack of a thread that ends isn't marked anymore, so the closures that
+// are left need the values of the variables that they captured from it.
+void closeThreadUpvalues(LxThread *th) {
+    while (th->openUpvalues != NULL) {
+        ObjUpvalue *upvalue = th->openUpvalues;
+        upvalue->closed = *upvalue->value;
+        upvalue->value = &upvalue->closed;
+        OBJ_WRITE(OBJ_VAL(upvalue), upvalue->closed);
+        th->openUpvalues = upvalue->next;
+    }
+}
+
 static Value unpackValue(Value val, bytecode_t idx) {
     if (IS_AN_ARRAY(val)) {
         if ((int)idx < ARRAY_SIZE(val)) {
diff --git a/vm.h b/vm.h
index e105364..95dbb2d 100644
--- a/vm.h
+++ b/vm.h
@@ -301,6 +301,7 @@ NORETURN void repl(void);
 
 // call frames
 void popFrame(void);
+void closeThreadUpvalues(LxThread *th);
 CallFrame *pushFrame(ObjFunction *userFunc);
 static inline CallFrame *getFrame(void) {
     VMExecContext *ctx = EC;
-- 
2.43.0


From e4664fcb742b64ac44313fc9a3b296a209b6e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:00 +0000
Subject: [PATCH 31/53] fix: a forked child waits for ever for the threads of
 its parent

---
 process.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/process.c b/process.c
index 616f843..433815c 100644
--- a/process.c
+++ b/process.c
@@ -25,6 +25,30 @@ static Value getPpid(void) {
     return NUMBER_VAL(pid);
 }
 
+// The process that fork() creates has only the thread that called it, which
+// is its main thread from then on.
+static void forkedInThread(LxThread *th) {
+    pthread_mutex_init(&vm.GVLock, NULL); // another thread could have held it
+    pthread_cond_init(&vm.GVLCond, NULL);
+    vm.GVLWaiters = 0;
+    ObjInstance *threadInst = NULL; int idx = 0; int thIdx = 0;
+    vec_foreach(&vm.threads, threadInst, idx) {
+        LxThread *other = THREAD_GETHIDDEN(OBJ_VAL(threadInst));
+        if (other == th) {
+            thIdx = idx;
+        } else {
+            closeThreadUpvalues(other);
+            other->status = THREAD_ZOMBIE;
+            other->joined = true; // there's no thread to join
+        }
+    }
+    vec_swap(&vm.threads, 0, thIdx); // the main thread is the first one
+    vm.mainThread = th;
+    vm.numLivingThreads = 1;
+    vm.numDetachedThreads = 0;
+    th->pid = getpid();
+}
+
 static Value lxForkStatic(int argCount, Value *args) {
     CHECK_ARITY("Process.fork", 1, 2, argCount);
     Value func = NIL_VAL;
@@ -41,8 +65,8 @@ static Value lxForkStatic(int argCount, Value *args) {
     if (pid) { // in parent
         return NUMBER_VAL(pid);
     } else { // in child
+        forkedInThread(vm.curThread);
         if (argCount == 2) {
-            vm.mainThread->pid = getpid();
             callCallable(func, 0, false, NULL);
             stopVM(0);
         }
-- 
2.43.0


From 68ed63a87bf835c6741b430bef55a0d10719cbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:26 +0000
Subject: [PATCH 32/53] fix: a child process forked by a thread exits with 0
 after an uncaught error

---
 thread.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/thread.c b/thread.c
index 554c0e0..f8bb7fb 100644
--- a/thread.c
+++ b/thread.c
@@ -289,10 +289,17 @@ static void *runCallableInNewThread(void *arg) {
     ErrTag status = TAG_NONE;
     vm_protect(callThreadFunc, closure, NULL, &status);
     if (status == TAG_RAISE) {
+        VMExecContext *ec = EC;
+        Value *stackTop = ec->stackTop;
+        int frameCount = ec->frameCount;
         showUncaughtError(vm.curThread->lastErrorThrown);
+        // the atExit hooks of a child process are called from this frame
+        ec->stackTop = stackTop;
+        ec->frameCount = frameCount;
     }
     THREAD_DEBUG(2, "Exiting thread (returned) %lu", pthread_self());
-    stopVM(0); // actually just exits the thread if it's not the main thread
+    // actually just exits the thread if it's not the main thread (of a child process)
+    stopVM(status == TAG_RAISE ? 1 : 0);
 }
 
 
-- 
2.43.0


From 9db131697d132773e02dafb22422caebd2794d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:35 +0000
Subject: [PATCH 33/53] fix: exiting while holding a mutex hangs if other
 threads are alive

---
 vm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm.c b/vm.c
index ba2b07d..8fc9ae2 100644
--- a/vm.c
+++ b/vm.c
@@ -4022,6 +4022,7 @@ NORETURN void stopVM(int status) {
         th->exitStatus = status;
         THREAD_DEBUG(1, "Main thread exiting with %d (PID=%d)", status, getpid());
         THREAD_DEBUG(1, "Terminating unjoined threads");
+        forceUnlockMutexes(th); // they don't get to run while it has a mutex
         terminateThreads();
         THREAD_DEBUG(1, "Running atexit hooks");
         runAtExitHooks();
@@ -4062,6 +4063,7 @@ NORETURN void _stopVM(int status) {
         vm.exiting = true;
         THREAD_DEBUG(1, "Main thread exiting with %d (PID=%d)", status, getpid());
         THREAD_DEBUG(1, "Terminating unjoined threads");
+        forceUnlockMutexes(th); // they don't get to run while it has a mutex
         terminateThreads();
         th->status = THREAD_ZOMBIE;
         freeVM();
-- 
2.43.0


From fe3d76243031def4c3ccff02b2b77ec6d8d8316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:51 +0000
Subject: [PATCH 34/53] fix: exiting waits for ever for a thread that hasn't
 started

---
 thread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thread.c b/thread.c
index f8bb7fb..2c5dfff 100644
--- a/thread.c
+++ b/thread.c
@@ -280,6 +280,7 @@ static void *runCallableInNewThread(void *arg) {
     unhideFromGC((Obj*)closure);
     if (vm.exiting || vm.exited) {
         THREAD_DEBUG(2, "vm exited, quitting new thread %lu", pthread_self());
+        th->status = THREAD_ZOMBIE;
         releaseGVL(THREAD_ZOMBIE);
         vm.numLivingThreads--;
         pthread_exit(NULL);
-- 
2.43.0


From 06ca159f867f41793b81fcdb5fc0fd21038b4b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:58 +0000
Subject: [PATCH 35/53] fix: a directory or a missing absolute file given to
 loadScript is a LoadError, not a SyntaxError; a script next to a directory of
 its name is found

---
 runtime.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtime.c b/runtime.c
index fec21b4..201213d 100644
--- a/runtime.c
+++ b/runtime.c
@@ -216,7 +216,7 @@ ObjString *constantQualifiedPart(ObjString *name, int npart) {
 // Does this file exist and is it readable?
 static bool fileReadable(char *fname) {
     struct stat buffer;
-    return (stat(fname, &buffer) == 0);
+    return (stat(fname, &buffer) == 0 && !S_ISDIR(buffer.st_mode));
 }
 
 Value lxClock(int argCount, Value *args) {
@@ -655,8 +655,10 @@ static Value loadScriptHelper(Value fname, bool checkLoaded) {
     bool triedCurdir = false;
     bool fileFound = false;
     if (isAbsFile) {
-        memcpy(pathbuf, cfile, strlen(cfile));
-        fileFound = true;
+        if (strlen(cfile) < SCRIPT_PATH_MAX) {
+            memcpy(pathbuf, cfile, strlen(cfile));
+            fileFound = fileReadable(pathbuf);
+        }
     } else {
         Value el; int i = 0;
         LXARRAY_FOREACH(OBJ_VAL(lxLoadPath), el, i) {
-- 
2.43.0


From 1510ac2108325c9903404afe8c0031f79c62ac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:58 +0000
Subject: [PATCH 36/53] fix: directories of the load path that start with .
 were replaced by the current directory

---
 runtime.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/runtime.c b/runtime.c
index 201213d..9c86333 100644
--- a/runtime.c
+++ b/runtime.c
@@ -667,9 +667,10 @@ static Value loadScriptHelper(Value fname, bool checkLoaded) {
                 continue;
             }
             char *dir = VAL_TO_STRING(el)->chars;
+            size_t dirlen = strlen(dir);
+            if (dirlen == 0) continue;
             memset(pathbuf, 0, SCRIPT_PATH_MAX);
-            memcpy(pathbuf, dir, strlen(dir));
-            if (strncmp(pathbuf, ".", 1) == 0) { // "./path/to/file.lox"
+            if (dir[0] == '.') { // "./path/to"
                 if (!curdir[0] && !triedCurdir) {
                     char *cwdres = getcwd(curdir, SCRIPT_DIR_MAX);
                     triedCurdir = true;
@@ -680,9 +681,15 @@ static Value loadScriptHelper(Value fname, bool checkLoaded) {
                         continue;
                     }
                 }
-                memcpy(pathbuf, curdir, strlen(curdir));
+                strcpy(pathbuf, curdir);
+                if (dirlen > 1) strncat(pathbuf, &pathSeparator, 1);
+                // leave out the "." or "./"
+                dir += (dirlen == 1) ? 1 : (dir[1] == pathSeparator) ? 2 : 0;
             }
-            if (dir[strlen(dir)-1] != pathSeparator) { // add trailing '/'
+            // pathbuf gets "<dir>/<file>.lox.so" at most
+            if (strlen(pathbuf)+strlen(dir)+strlen(cfile)+9 > SCRIPT_PATH_MAX) continue;
+            strcat(pathbuf, dir);
+            if (pathbuf[strlen(pathbuf)-1] != pathSeparator) { // add trailing '/'
                 strncat(pathbuf, &pathSeparator, 1);
             }
             strcat(pathbuf, cfile);
-- 
2.43.0


From 21f9c55b834a22e36159bc78720fe0ee074962c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:58 +0000
Subject: [PATCH 37/53] fix: every loaded script left its file open

---
 compiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler.c b/compiler.c
index b18759f..3ccae2b 100644
--- a/compiler.c
+++ b/compiler.c
@@ -2845,6 +2845,7 @@ ObjFunction *compile_file(char *fname, CompileErr *err) {
     struct stat st;
     int res = fstat(fd, &st);
     if (res != 0) {
+        close(fd);
         *err = COMPILE_ERR_ERRNO;
         return NULL;
     }
@@ -2852,6 +2853,7 @@ ObjFunction *compile_file(char *fname, CompileErr *err) {
     char *buf = xcalloc(1, st.st_size+1);
     ASSERT_MEM(buf);
     res = (int)read(fd, buf, st.st_size);
+    close(fd);
     if (res == -1) {
         *err = COMPILE_ERR_ERRNO;
         xfree(buf);
-- 
2.43.0


From 2634f1a006c540149ee382612a85e7a00de01990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:58 +0000
Subject: [PATCH 38/53] fix: the extension of scripts wasn't added in
 directories with .lox in their name

---
 runtime.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime.c b/runtime.c
index 9c86333..c983500 100644
--- a/runtime.c
+++ b/runtime.c
@@ -699,12 +699,12 @@ static Value loadScriptHelper(Value fname, bool checkLoaded) {
 readableCheck:
             isReadable = fileReadable(pathbuf);
             if (!isReadable) {
-                if (!triedAddingLoxExt && !strstr(pathbuf, ".lox") && strlen(pathbuf)+4 < SCRIPT_PATH_MAX) {
+                if (!triedAddingLoxExt && !strstr(cfile, ".lox") && strlen(pathbuf)+4 < SCRIPT_PATH_MAX) {
                     strcat(pathbuf, ".lox");
                     triedAddingLoxExt = true;
                     goto readableCheck;
                 }
-                if (!triedAddingSOExt && !strstr(pathbuf, ".so") && strlen(pathbuf)+3 < SCRIPT_PATH_MAX) {
+                if (!triedAddingSOExt && !strstr(cfile, ".so") && strlen(pathbuf)+3 < SCRIPT_PATH_MAX) {
                   strcat(pathbuf, ".so");
                   triedAddingSOExt = true;
                   goto readableCheck;
-- 
2.43.0


From ccd736f93fe92dc7e385fb1b88be052ff34b0f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:50 +0000
Subject: [PATCH 39/53] fix: classes and constants of a script loaded (or
 autoloaded) in a method were defined under its class

---
 vm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vm.c b/vm.c
index 8fc9ae2..57ee339 100644
--- a/vm.c
+++ b/vm.c
@@ -3650,6 +3650,10 @@ InterpretResult loadScript(ObjFunction *func, char *filename) {
     VMExecContext *ectx = EC;
     EC->loadContext = true;
     EC->filename = copyString(filename, strlen(filename), NEWOBJ_FLAG_OLD);
+    // scripts define global constants and classes, wherever they're loaded
+    LxThread *th = THREAD();
+    vec_void_t outerCrefs = th->v_crefStack;
+    vec_init(&th->v_crefStack);
     VM_DEBUG(1, "%s", "Pushing initial callframe");
     CallFrame *frame = pushFrame(func);
     frame->start = 0;
@@ -3664,6 +3668,8 @@ InterpretResult loadScript(ObjFunction *func, char *filename) {
 
     ErrTag status = TAG_NONE;
     vm_protect(vm_run_protect, NULL, NULL, &status);
+    vec_deinit(&th->v_crefStack);
+    th->v_crefStack = outerCrefs;
     // `EC != ectx` if an error occured in the script, and propagated out
     // due to being caught in a calling script or never being caught.
     if (EC == ectx) pop_EC();
-- 
2.43.0


From 3c0609f8c4ef4cb38d2da5b0c7e57db1ec13cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:11 +0000
Subject: [PATCH 40/53] fix: superclasses that are constants of the enclosing
 class or module, or autoloaded, weren't found

---
 compiler.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler.c b/compiler.c
index 3ccae2b..f459460 100644
--- a/compiler.c
+++ b/compiler.c
@@ -1478,7 +1478,12 @@ static void emitClass(Node *n) {
 
     pushScope(COMPILE_SCOPE_CLASS);
     if (cComp.hasSuperclass) {
-        namedVariable(*superClassTok, VAR_GET);
+        char first = *tokStr(superClassTok);
+        if (first >= 'A' && first <= 'Z') { // looked up like any other constant
+            emitOp1(OP_GET_CONST, identifierConstant(superClassTok));
+        } else {
+            namedVariable(*superClassTok, VAR_GET);
+        }
         emitOp1(OP_SUBCLASS, nameConstant); // VM peeks the superclass and gets the class name
     } else {
         emitOp1(OP_CLASS, nameConstant); // VM gets the class name
-- 
2.43.0


From a8f8f43f3bcaeb80539dcf0f143b0c599d6793b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:06 +0000
Subject: [PATCH 41/53] fix: scripts loading themselves overflowed the C stack

---
 vm.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vm.c b/vm.c
index 57ee339..79b1097 100644
--- a/vm.c
+++ b/vm.c
@@ -3645,6 +3645,15 @@ InterpretResult loadScript(ObjFunction *func, char *filename) {
     ASSERT(func);
     Chunk *chunk = func->chunk;
     CallFrame *oldFrame = getFrame();
+    // every script has its own frames, but they share the C stack
+    VMExecContext *ctx = NULL; int ctxIdx = 0;
+    size_t numFrames = 0;
+    vec_foreach(&THREAD()->v_ecs, ctx, ctxIdx) {
+        numFrames += ctx->frameCount;
+    }
+    if (numFrames >= FRAMES_MAX) {
+        stackOverflow("Stack overflow, too many call frames");
+    }
     push_EC(true);
     resetStack();
     VMExecContext *ectx = EC;
-- 
2.43.0


From 04b526720b6ef75cc2b227c0350cfd904631634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:18 +0000
Subject: [PATCH 42/53] fix: return without a value at the top level of a
 script failed an assertion

---
 compiler.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler.c b/compiler.c
index f459460..6c4e69e 100644
--- a/compiler.c
+++ b/compiler.c
@@ -2457,6 +2457,9 @@ static void emitNode(Node *n) {
             } else {
                 if (current->type == FUN_TYPE_BLOCK) {
                     emitOp0(OP_BLOCK_CONTINUE);
+                } else if (current->type == FUN_TYPE_TOP_LEVEL) {
+                    emitOp0(OP_NIL);
+                    emitOp0(OP_RETURN);
                 } else {
                     emitReturn(current);
                 }
-- 
2.43.0


From 868b1e492e04f5f8be97574d91edda920d1f2f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:18 +0000
Subject: [PATCH 43/53] fix: autoload named the wrong argument in its error

---
 runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime.c b/runtime.c
index c983500..314c7d4 100644
--- a/runtime.c
+++ b/runtime.c
@@ -580,7 +580,7 @@ Value lxAutoload(int argCount, Value *args) {
     Value klassName = *args;
     Value path = args[1];
     CHECK_ARG_IS_A(klassName, lxStringClass, 1);
-    CHECK_ARG_IS_A(path, lxStringClass, 1);
+    CHECK_ARG_IS_A(path, lxStringClass, 2);
     Value classNameKey = OBJ_VAL(dupString(AS_STRING(klassName)));
     Value pathValue = OBJ_VAL(dupString(AS_STRING(path)));
     GC_OLD(AS_OBJ(classNameKey));
-- 
2.43.0


From e71a32820315ba128f4a2f8e13368a290a62cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:30 +0000
Subject: [PATCH 44/53] fix: only the first 4092 bytes of long strings were
 written

---
 io.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/io.c b/io.c
index e4d3b00..b2fb85a 100644
--- a/io.c
+++ b/io.c
@@ -176,16 +176,17 @@ size_t IOWrite(Value io, const void *buf, size_t count) {
         throwErrorFmt(lxErrClass, "Cannot write to stdin");
     }
     int fd = f->fd;
-    size_t chunkSz = count > WRITEBUF_SZ ? WRITEBUF_SZ : count;
     char ioWritebuf[WRITEBUF_SZ];
-    memcpy(ioWritebuf, buf, chunkSz);
     size_t written = 0;
     ssize_t res = 0;
     int last = errno;
     releaseGVL(THREAD_STOPPED);
-    while ((res = write(fd, ioWritebuf, chunkSz)) > 0 && (written += res) && written < count) {
-        chunkSz -= written;
-        memcpy(ioWritebuf, buf+written, chunkSz > WRITEBUF_SZ ? WRITEBUF_SZ : chunkSz);
+    while (written < count) {
+        size_t chunkSz = count - written > WRITEBUF_SZ ? WRITEBUF_SZ : count - written;
+        memcpy(ioWritebuf, (const char*)buf+written, chunkSz);
+        res = write(fd, ioWritebuf, chunkSz);
+        if (res <= 0) break;
+        written += res;
     }
     acquireGVL();
     if (res == -1) {
-- 
2.43.0


From 85c499608d422c30ac5072c864a485ae1556efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:30 +0000
Subject: [PATCH 45/53] fix: reading wrote one byte after its buffer

---
 io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io.c b/io.c
index b2fb85a..84f8b6d 100644
--- a/io.c
+++ b/io.c
@@ -94,7 +94,7 @@ ObjString *IOReadFd(int fd, size_t numBytes, bool untilEOF, bool nonBlock) {
     ObjString *retBuf = copyString("", 0, NEWOBJ_FLAG_NONE);
     size_t nread = 0;
     ssize_t justRead = 0;
-    char fileReadBuf[READBUF_SZ];
+    char fileReadBuf[READBUF_SZ+1];
     size_t maxRead = untilEOF ? READBUF_SZ-1 : (numBytes > (READBUF_SZ-1) ? (READBUF_SZ-1) : numBytes);
     int last = errno;
     if (nonBlock) {
-- 
2.43.0


From 4e206fe7119583271b6e3bea7d089228eaa1a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:30 +0000
Subject: [PATCH 46/53] fix: getline and getchar lost everything after the
 first line or character

---
 io.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/io.c b/io.c
index 84f8b6d..d7eec19 100644
--- a/io.c
+++ b/io.c
@@ -134,18 +134,16 @@ static ObjString *IOReadlineFd(int fd, size_t maxLen) {
     if (maxLen == 0) maxLen = READBUF_SZ;
     if (maxLen > READBUF_SZ) maxLen = READBUF_SZ;
     char fileReadBuf[READBUF_SZ];
-    FILE *file = fdopen(fd, "r");
-    ASSERT(file); // TODO: handle uncommon error, as it's already open this should not fail
-    char *line = NULL;
+    size_t nread = 0;
     int last = errno;
     releaseGVL(THREAD_STOPPED);
-    line = fgets(fileReadBuf, maxLen, file);
-    acquireGVL();
-    if (line == NULL) {
-        errno = last;
-        return copyString("", 0, NEWOBJ_FLAG_NONE);
+    // what comes after the line is left for the next read
+    while (nread < maxLen-1 && read(fd, fileReadBuf+nread, 1) == 1) {
+        if (fileReadBuf[nread++] == '\n') break;
     }
-    retBuf = copyString(line, strlen(line), NEWOBJ_FLAG_NONE);
+    acquireGVL();
+    errno = last;
+    retBuf = copyString(fileReadBuf, nread, NEWOBJ_FLAG_NONE);
     return retBuf;
 }
 
-- 
2.43.0


From 24a72e10ca13559b448473e5df5c3676fefcd067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:30 +0000
Subject: [PATCH 47/53] fix: IO::F_GETFL and IO::F_SETFL were swapped

---
 io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io.c b/io.c
index d7eec19..95fdfe9 100644
--- a/io.c
+++ b/io.c
@@ -534,8 +534,8 @@ void Init_IOClass(void) {
     addConstantUnder("FD_CLOEXEC", NUMBER_VAL(FD_CLOEXEC), ioClassVal);
 
     // get file description status flags (O_xxx flags)
-    addConstantUnder("F_GETFL", NUMBER_VAL(F_SETFL), ioClassVal);
-    addConstantUnder("F_SETFL", NUMBER_VAL(F_GETFL), ioClassVal);
+    addConstantUnder("F_GETFL", NUMBER_VAL(F_GETFL), ioClassVal);
+    addConstantUnder("F_SETFL", NUMBER_VAL(F_SETFL), ioClassVal);
     addConstantUnder("O_NONBLOCK", NUMBER_VAL(O_NONBLOCK), ioClassVal);
 
 #ifndef O_DIRECT
-- 
2.43.0


From a0f900e2b73c5c289ef22ae902aa0ba9ad76be9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:30 +0000
Subject: [PATCH 48/53] fix: writing to a closed file, reading lines from it
 and seeking in it used the file that was opened next

---
 file.c | 3 +++
 io.c   | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index d0c7cac..c995683 100644
--- a/file.c
+++ b/file.c
@@ -448,6 +448,9 @@ static Value lxFileSeek(int argCount, Value *args) {
     off_t offset = (off_t)AS_NUMBER(offsetVal);
     off_t whence = (off_t)AS_NUMBER(whenceVal);
     LxFile *f = FILE_GETHIDDEN(self);
+    if (!f->isOpen) {
+        throwErrorFmt(lxErrClass, "File '%s' is not open", f->name->chars);
+    }
     int last = errno;
     off_t pos = lseek(f->fd, offset, whence);
     if (pos == -1) {
diff --git a/io.c b/io.c
index 95fdfe9..d2d5424 100644
--- a/io.c
+++ b/io.c
@@ -163,8 +163,10 @@ static ObjString *IOReadNonBlock(Value io, size_t numBytes, bool untilEOF) {
 }
 
 static ObjString *IOReadline(Value io, size_t maxBytes) {
-    // TODO: checks
     LxFile *f = FILE_GETHIDDEN(io);
+    if (!f->isOpen) {
+        throwErrorFmt(lxErrClass, "IO error: cannot read from closed fd: %d", f->fd);
+    }
     return IOReadlineFd(f->fd, maxBytes);
 }
 
@@ -173,6 +175,9 @@ size_t IOWrite(Value io, const void *buf, size_t count) {
     if (f->fd == STDIN_FILENO) {
         throwErrorFmt(lxErrClass, "Cannot write to stdin");
     }
+    if (!f->isOpen) {
+        throwErrorFmt(lxErrClass, "IO error: cannot write to closed fd: %d", f->fd);
+    }
     int fd = f->fd;
     char ioWritebuf[WRITEBUF_SZ];
     size_t written = 0;
-- 
2.43.0


From eab8a1a8c82866f591a82c6f18300733a3750428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:30 +0000
Subject: [PATCH 49/53] fix: File.readLines read past its buffer and created
 strings without the VM lock

---
 file.c | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/file.c b/file.c
index c995683..03571d8 100644
--- a/file.c
+++ b/file.c
@@ -149,31 +149,22 @@ static Value lxFileReadLinesStatic(int argCount, Value *args) {
     bool leftoverLine = false;
     char fileReadBuf[READBUF_SZ];
     while ((nread = fread(fileReadBuf, 1, sizeof(fileReadBuf), f)) > 0) {
-        size_t nleft = nread;
+        acquireGVL();
         char *bufp = fileReadBuf;
-        char *bufpStart = bufp;
-        while (nleft > 0 && *bufp) {
-            while (*bufp != '\0' && *bufp != '\n') {
-                bufp++;
-                if (nleft == 0) break;
-            }
-            if (*bufp == '\n') bufp++;
-            size_t len = bufp - bufpStart;
+        char *bufEnd = fileReadBuf + nread;
+        while (bufp < bufEnd) {
+            char *newline = memchr(bufp, '\n', bufEnd - bufp);
+            size_t len = (newline ? newline+1 : bufEnd) - bufp;
             if (leftoverLine) {
-                pushCString(AS_STRING(line), bufpStart, len);
-                leftoverLine = false;
+                pushCString(AS_STRING(line), bufp, len);
             } else {
-                line = OBJ_VAL(copyString(bufpStart, len, NEWOBJ_FLAG_NONE));
+                line = OBJ_VAL(copyString(bufp, len, NEWOBJ_FLAG_NONE));
                 arrayPush(ary, line);
             }
-            nleft -= len;
-            if (!*bufp) {
-                ASSERT(nleft == 0);
-                leftoverLine = true;
-                break; // read more data, reached end of buffer
-            }
-            bufpStart = bufp;
+            leftoverLine = newline == NULL; // goes on in the next chunk
+            bufp += len;
         }
+        releaseGVL(THREAD_STOPPED);
     }
     acquireGVL();
     checkFerror(f, "reading", fnameStr->chars);
-- 
2.43.0


From 2172e1135d697178955ffa17f8ccb78e928df7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:30 +0000
Subject: [PATCH 50/53] fix: errors of File.create said that the file was
 opened

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 03571d8..d6f8091 100644
--- a/file.c
+++ b/file.c
@@ -43,7 +43,7 @@ static int checkOpen(const char *fname, int flags, mode_t mode) {
         int err = errno;
         errno = last;
         const char *operation = "opening";
-        if ((mode & O_CREAT) != 0) {
+        if ((flags & O_CREAT) != 0) {
             operation = "creating";
         }
         throwErrorFmt(sysErrClass(err), "Error %s File '%s': %s", operation, fname, strerror(err));
-- 
2.43.0


From 6930370a357248ff6e6ad7bb438f87880e1b89d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:30 +0000
Subject: [PATCH 51/53] fix: File.join and File.expandPath crashed when given
 something other than strings

---
 file.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index d6f8091..b3584dd 100644
--- a/file.c
+++ b/file.c
@@ -236,9 +236,10 @@ static Value lxFileStaticJoin(int argCount, Value *args) {
         lastPart = true;
       }
       Value part = args[argIdx];
+      CHECK_ARG_IS_A(part, lxStringClass, argIdx);
       char *partStr = AS_CSTRING(part);
       pushCString(pathBuf, partStr, strlen(partStr));
-      if (!lastPart && partStr[strlen(partStr)-1] != DIR_SEPARATOR_CHR) {
+      if (!lastPart && (*partStr == '\0' || partStr[strlen(partStr)-1] != DIR_SEPARATOR_CHR)) {
         pushCString(pathBuf, DIR_SEPARATOR_STR, 1);
       }
       argIdx++;
@@ -261,6 +262,7 @@ static ObjString *getcwdStr(void) {
 static Value lxFileStaticExpandPath(int argCount, Value *args) {
     CHECK_ARITY("File.expandPath", 2, 3, argCount);
     Value path = args[1];
+    CHECK_ARG_IS_A(path, lxStringClass, 1);
     char *pathStr = AS_CSTRING(path);
     ObjString *buf = emptyString();
     bool isAbs = pathStr[0] == DIR_SEPARATOR_CHR;
-- 
2.43.0


From e70f55664187feaeadd1566949dcd0e7c88172f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:30 +0000
Subject: [PATCH 52/53] fix: File#unlink left the file descriptor open

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index b3584dd..1814480 100644
--- a/file.c
+++ b/file.c
@@ -401,7 +401,7 @@ static Value lxFileUnlink(int argCount, Value *args) {
     LxFile *f = FILE_GETHIDDEN(self);
     int last = errno;
     if (unlink(f->name->chars) == 0) {
-        f->isOpen = false;
+        IOClose(self);
         return BOOL_VAL(true);
     } else {
         int err = errno;
-- 
2.43.0


From aa14eb14b774f0e84ad7db4c0c149101c99988c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:15 +0000
Subject: [PATCH 53/53] fix: File.copy used closed files' descriptors, ignored
 errors of reading and threw without the VM lock

---
 file.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/file.c b/file.c
index 1814480..2380bd9 100644
--- a/file.c
+++ b/file.c
@@ -186,6 +186,15 @@ static Value lxFileStaticIsDir(int argCount, Value *args) {
     return BOOL_VAL(S_ISDIR(st.st_mode));
 }
 
+static void checkFileWritable(LxFile *f) {
+    if (!f->isOpen) {
+        throwErrorFmt(lxErrClass, "File '%s' is not open", f->name->chars);
+    }
+    if ((f->oflags & O_RDWR) == 0 && (f->oflags & O_WRONLY) == 0) {
+        throwErrorFmt(lxErrClass, "File '%s' is not open for writing", f->name->chars);
+    }
+}
+
 static Value lxFileStaticCopy(int argCount, Value *args) {
     CHECK_ARITY("File.copy", 3, 3, argCount);
     Value src = args[1];
@@ -194,6 +203,10 @@ static Value lxFileStaticCopy(int argCount, Value *args) {
     CHECK_ARG_IS_A(dst, lxFileClass, 2);
     LxFile *srcf = FILE_GETHIDDEN(src);
     LxFile *dstf = FILE_GETHIDDEN(dst);
+    if (!srcf->isOpen) {
+        throwErrorFmt(lxErrClass, "File '%s' is not open", srcf->name->chars);
+    }
+    checkFileWritable(dstf);
     size_t chunkSz = 1024 * 16;
     ssize_t res = 0;
     ssize_t bytesCopied = 0;
@@ -202,13 +215,19 @@ static Value lxFileStaticCopy(int argCount, Value *args) {
     while ((res = read(srcf->fd, buf, chunkSz)) > 0) {
       int wres = write(dstf->fd, buf, res);
       if (wres != res) {
+        int err = errno;
+        acquireGVL();
         FREE_SIZE(chunkSz, buf);
-        throwErrorFmt(sysErrClass(errno), "Error during write: %s", strerror(errno));
+        throwErrorFmt(sysErrClass(err), "Error during write: %s", strerror(err));
       }
       bytesCopied += res;
     }
+    int err = errno;
     acquireGVL();
     FREE_SIZE(chunkSz, buf);
+    if (res < 0) {
+      throwErrorFmt(sysErrClass(err), "Error during read: %s", strerror(err));
+    }
     return NUMBER_VAL(bytesCopied);
 }
 
@@ -358,15 +377,6 @@ static Value lxFileExistsStatic(int argCount, Value *args) {
     return BOOL_VAL(fileExists(VAL_TO_STRING(fname)->chars) == 0);
 }
 
-static void checkFileWritable(LxFile *f) {
-    if (!f->isOpen) {
-        throwErrorFmt(lxErrClass, "File '%s' is not open", f->name->chars);
-    }
-    if ((f->oflags & O_RDWR) == 0 && (f->oflags & O_WRONLY) == 0) {
-        throwErrorFmt(lxErrClass, "File '%s' is not open for writing", f->name->chars);
-    }
-}
-
 static Value lxFileWrite(int argCount, Value *args) {
     CHECK_ARITY("File#write", 2, 3, argCount);
     Value self = args[0];
-- 
2.43.0

