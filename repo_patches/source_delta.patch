From 022265ca56cf624648bfc33e9a1721657830e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:21 +0000
Subject: [PATCH 01/70] fix: expect an operand after a binary operator that
 applied a pending one

Stacking an operator first applies pending operators of higher or equal
precedence, and pushing their result cleared the operand-expected mark.
A prefix operator, '*' or %binary literal after it, as in 1|2|~3, was then
taken for a binary operator and reported as a syntax error.
---
 src/exp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index 8e818e6..b9caba1 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -726,6 +726,8 @@ void doop(opfunc_t func, int pri)
     while (Opi != Opibase && Oppri[Opi-1] && pri <= Oppri[Opi-1])
         evaltop();
 
+    Lastwasop = 1;  /* evaltop() pushes a result, which clears it */
+
     if (Xdebug)
         printf("doop @ %d\n", Opi);
 
-- 
2.43.0


From 71f5b4c5df5f6e784517e2ddb189a7a1ff258611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:34 +0000
Subject: [PATCH 02/70] fix: do not take names that begin with x, y or sp for
 index registers

A name such as x_loop after a comma was read as the index register x
followed by another symbol.  On the 65C02 any branch target starting with
x or y made BBR and BBS fail with an illegal addressing mode.
---
 src/exp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index b9caba1..7263542 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -456,7 +456,7 @@ SYMBOL *eval(const char *str, int wantmode)
                 cur->addrmode = AM_INDBYTEX;
                 ++str;
             }
-            else if (cur->addrmode != AM_INDWORD && scr != 'x' && scr != 'y' && (Processor == 16502))
+            else if (cur->addrmode != AM_INDWORD && ((scr != 'x' && scr != 'y') || IsAlphaNum(str[2])) && (Processor == 16502))
             {
                 cur->addrmode = AM_BYTEREL;
                 SYMBOL *pNewSymbol = allocsymbol();
@@ -615,7 +615,8 @@ int IsAlphaNum( int c )
 {
     return ((c >= 'a' && c <= 'z')
         || (c >= 'A' && c <= 'Z')
-        || (c >= '0' && c <= '9'));
+        || (c >= '0' && c <= '9')
+        || c == '_' || c == '.' || c == '@');   /* also part of symbol names */
 }
 
 void evaltop(void)
-- 
2.43.0


From a178347a5c19abf8ddf7de32eea54a1db787a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:41 +0000
Subject: [PATCH 03/70] fix: encode only the implied NOP on the 65C02

NOP with an operand was accepted with the NMOS 6502 opcodes, which are BRA,
TSB and TRB on this processor.
---
 src/mne65c02.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mne65c02.c b/src/mne65c02.c
index 25167b1..ddee0e4 100644
--- a/src/mne65c02.c
+++ b/src/mne65c02.c
@@ -85,7 +85,7 @@ MNEMONIC Mne65c02[] = {
     { NULL, v_mnemonic, "ldx", 0, AF_IMM8|AF_BYTEADR|AF_BYTEADRY|AF_WORDADR|AF_WORDADRY, { 0xA2, 0xA6, 0xB6, 0xAE, 0xBE } },
     { NULL, v_mnemonic, "ldy", 0, AF_IMM8|AF_BYTEADR|AF_BYTEADRX|AF_WORDADR|AF_WORDADRX, { 0xA0, 0xA4, 0xB4, 0xAC, 0xBC } },
     { NULL, v_mnemonic, "lsr", 0, AF_IMP|AF_BYTEADR|AF_BYTEADRX|AF_WORDADR|AF_WORDADRX, { 0x4A, 0x46, 0x56, 0x4E, 0x5E } },
-    { NULL, v_mnemonic, "nop", 0, AF_IMP|AF_IMM8|AF_BYTEADR|AF_BYTEADRX|AF_WORDADR|AF_WORDADRX, { 0xEA, 0x80, 0x04, 0x14, 0x0c, 0x1c } },
+    { NULL, v_mnemonic, "nop", 0, AF_IMP, { 0xEA } },
     { NULL, v_mnemonic, "ora", 0, AF_IMM8|ASTD, { 0x09, 0x05, 0x15, 0x0D, 0x1D, 0x19, 0x01, 0x11, 0x12 } },
     { NULL, v_mnemonic, "pha", 0, AF_IMP, { 0x48 } },
     { NULL, v_mnemonic, "phx", 0, AF_IMP, { 0xda } },   /* PusH X */
-- 
2.43.0


From 321c2612382b59e65e34646b9a2592e70f402e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:02 +0000
Subject: [PATCH 04/70] fix: reserve a word for an unresolved stack pointer
 offset

Like every other indexed form, an SP-relative operand whose value is not
known yet now takes the word encoding where the mnemonic has one, so labels
after it no longer move between passes.
---
 src/globals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/globals.c b/src/globals.c
index 36c7bd3..5390789 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -89,7 +89,7 @@ unsigned long	 Plab, Pflags;
 
 /*unsigned int	Adrbytes[]  = { 1, 2, 3, 2, 2, 2, 3, 3, 3, 2, 2, 2, 3, 1, 1, 2, 3 };*/
 /*                              1  2  3  4  5  6  7  8  9  10 11 12 13 14 15 16 17 18 19 20 21 22*/
-unsigned int    Cvt[]       = { 0, 2, 0, 6, 7, 8, 9, 0, 0, 0, 0, 0, 0, 0, 2, 0, 4, 5, 0, 0, 0, 0 };
+unsigned int    Cvt[]       = { 0, 2, 0, 6, 7, 8, 9, 0, 0, 0, 0, 0, 0, 0, 2, 0, 4, 5, 0, 0, 21, 0 };
 unsigned int    Opsize[]    = { 0, 1, 2, 1, 1, 1, 2, 2, 2, 2, 1, 1, 1, 2, 2, 1, 0, 0, 1, 1, 1, 2 };
 
 MNEMONIC Ops[] = {
-- 
2.43.0


From efafba43e08ed463519112af5853073ef4347184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:02 +0000
Subject: [PATCH 05/70] fix: reject negative bit numbers in bit instructions

---
 src/ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 3321bb2..109c6bb 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -385,7 +385,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         if (!(symbase->flags & SYM_UNKNOWN))
         {
-            if (symbase->value > 7)
+            if (symbase->value < 0 || symbase->value > 7)
                 asmerr( ERROR_ILLEGAL_BIT_SPECIFICATION, false, str );
             else
                 Gen[0] += symbase->value << 1;
@@ -396,7 +396,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         if (!(symbase->flags & SYM_UNKNOWN))
         {
-            if (symbase->value > 7)
+            if (symbase->value < 0 || symbase->value > 7)
                 asmerr( ERROR_ILLEGAL_BIT_SPECIFICATION, false, str );
             else
                 Gen[0] += symbase->value << 1;
-- 
2.43.0


From 62d9674e2bfbde23d74b545f16245116174260d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:03 +0000
Subject: [PATCH 06/70] fix: reject indirect zero page operands below -255

Other one-byte operands already report a value that is too small.
---
 src/ops.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 109c6bb..7a596db 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -309,6 +309,9 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_BYTEADRX:
     	case AM_BYTEADRY:
     	case AM_BYTEADR_SP:
+    	case AM_INDBYTEX:
+    	case AM_INDBYTEY:
+    	case AM_INDBYTE:
     		if (sym->value < -0xFF) {	// isn't this our space ?
     			sprintf( sBuffer, "negative %s %s", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
-- 
2.43.0


From 94a17b48f11a76aa060c8bffc0b37bcff7895174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:08 +0000
Subject: [PATCH 07/70] fix: check operand ranges against the addressing mode
 finally chosen

---
 src/ops.c | 58 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 7a596db..f6f8f70 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -291,34 +291,6 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     		break;
     }
 
-    switch(addrmode) {
-    	case AM_IMM16:
-    	case AM_WORDADR:
-    	case AM_WORDADRX:
-    	case AM_WORDADRY:
-    	case AM_INDWORD:
-    	case AM_WORDADR_SP:
-    		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
-    			sprintf( sBuffer, "%s %s", mne->name, str );
-    			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
-    		}
-    		break;
-
-    	case AM_IMM8:
-    	case AM_BYTEADR:
-    	case AM_BYTEADRX:
-    	case AM_BYTEADRY:
-    	case AM_BYTEADR_SP:
-    	case AM_INDBYTEX:
-    	case AM_INDBYTEY:
-    	case AM_INDBYTE:
-    		if (sym->value < -0xFF) {	// isn't this our space ?
-    			sprintf( sBuffer, "negative %s %s", mne->name, str );
-    			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
-    		}
-    		break;
-    }
-
     while (opsize > Opsize[addrmode])
     {
         if (Cvt[addrmode] == 0 || badcode(mne,Cvt[addrmode]))
@@ -364,6 +336,36 @@ void v_mnemonic(char *str, MNEMONIC *mne)
         }
         addrmode = Cvt[addrmode];
     }
+
+    switch(addrmode) {
+    	case AM_IMM16:
+    	case AM_WORDADR:
+    	case AM_WORDADRX:
+    	case AM_WORDADRY:
+    	case AM_INDWORD:
+    	case AM_INDWORDX:
+    	case AM_WORDADR_SP:
+    		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
+    			sprintf( sBuffer, "%s %s", mne->name, str );
+    			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
+    		}
+    		break;
+
+    	case AM_IMM8:
+    	case AM_BYTEADR:
+    	case AM_BYTEADRX:
+    	case AM_BYTEADRY:
+    	case AM_BYTEADR_SP:
+    	case AM_INDBYTEX:
+    	case AM_INDBYTEY:
+    	case AM_INDBYTE:
+    		if (sym->value < -0xFF) {	// isn't this our space ?
+    			sprintf( sBuffer, "negative %s %s", mne->name, str );
+    			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
+    		}
+    		break;
+    }
+
     opcode = mne->opcode[addrmode];
     opidx = 1 + (opcode > 0xFF);
     if (opidx == 2)
-- 
2.43.0


From 7cb40f7fe49e13500d0a6ab337a5921af5226766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:23 +0000
Subject: [PATCH 08/70] fix: fail on F8 branches that stay out of range

---
 src/mnef8.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mnef8.c b/src/mnef8.c
index 5e9ae0b..eaa0cfd 100644
--- a/src/mnef8.c
+++ b/src/mnef8.c
@@ -544,6 +544,9 @@ static void generate_branch(unsigned char opcode, char *str) {
                 char buf[64];
                 sprintf(buf, "%d", (int)disp);
                 asmerr(ERROR_BRANCH_OUT_OF_RANGE, false, buf);
+                /* not fatal by itself, another pass may bring the target into range */
+                ++Redo;
+                Redo_why |= REASON_BRANCH_OUT_OF_RANGE;
         }
     } else {
         /* unknown pc, will be (hopefully) resolved in future passes */
-- 
2.43.0


From 534aca0da533689b5e7bd2be1e597602f571e965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:00 +0000
Subject: [PATCH 09/70] fix: make another pass when a REPEAT count is not yet
 resolved

---
 src/ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index f6f8f70..2f37558 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1494,6 +1494,10 @@ void v_repeat(char *str, MNEMONIC *dummy)
     programlabel();
     sym = eval(str, 0);
     if (sym->value == 0) {
+        if (sym->flags & SYM_UNKNOWN) {
+            ++Redo;
+            Redo_why |= REASON_REPEAT_NOT_RESOLVED;
+        }
         pushif(0);
         FreeSymbolList(sym);
         return;
-- 
2.43.0


From 70d560746d9a416e4105ab0aba4136892fb2b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:25 +0000
Subject: [PATCH 10/70] fix: make another pass when an ORG or RORG address is
 not yet resolved

---
 src/ops.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 2f37558..0f9c34f 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -953,8 +953,11 @@ v_org(char *str, MNEMONIC *dummy)
     sym = eval(str, 0);
     Csegment->org = sym->value;
 
-    if (sym->flags & SYM_UNKNOWN)
+    if (sym->flags & SYM_UNKNOWN) {
         Csegment->flags |= SYM_UNKNOWN;
+        ++Redo;
+        Redo_why |= REASON_OBSCURE;
+    }
     else
         Csegment->flags &= ~SYM_UNKNOWN;
 
@@ -983,8 +986,11 @@ v_rorg(char *str, MNEMONIC *dummy)
     Csegment->flags |= SF_RORG;
     if (sym->addrmode != AM_IMP) {
         Csegment->rorg = sym->value;
-        if (sym->flags & SYM_UNKNOWN)
+        if (sym->flags & SYM_UNKNOWN) {
             Csegment->rflags |= SYM_UNKNOWN;
+            ++Redo;
+            Redo_why |= REASON_OBSCURE;
+        }
         else
             Csegment->rflags &= ~SYM_UNKNOWN;
         if (Csegment->initrflags & SYM_UNKNOWN) {
-- 
2.43.0


From f2aae9d2e8b87004fa130043a23fcdcfdaf075e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:39 +0000
Subject: [PATCH 11/70] fix: skip the label and expression of IFCONST and
 IFNCONST in false conditionals

---
 src/ops.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 0f9c34f..f0eb089 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1417,6 +1417,10 @@ v_ifconst(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym;
 
+    if (!Ifstack->xtrue || !Ifstack->acctrue) {
+        pushif(0);
+        return;
+    }
     programlabel();
     sym = eval(str, 0);
     pushif(sym->flags == 0);
@@ -1428,6 +1432,10 @@ v_ifnconst(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym;
 
+    if (!Ifstack->xtrue || !Ifstack->acctrue) {
+        pushif(0);
+        return;
+    }
     programlabel();
     sym = eval(str, 0);
     pushif(sym->flags != 0);
-- 
2.43.0


From 843750a261dc365db2aa5a7d5452554f5b216d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:40 +0000
Subject: [PATCH 12/70] fix: discard conditionals and loops left open by MEXIT

---
 src/ops.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index f0eb089..cc378c8 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1399,6 +1399,12 @@ v_endm(char *str, MNEMONIC *dummy)
 
         Localdollarindex = inc->savedolidx;
 
+        /* conditionals and loops opened in the macro end with it */
+        while (Reploop && Reploop->file == inc)
+            rmnode((void **)&Reploop, sizeof(REPLOOP));
+        while (Ifstack->file == inc)
+            rmnode((void **)&Ifstack, sizeof(IFSTACK));
+
         pIncfile = inc->next;
         free(inc);
         return;
-- 
2.43.0


From 652c81e51389e8533a5c4b976409a52bd2bdb79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:10 +0000
Subject: [PATCH 13/70] fix: report ALIGN 0 instead of dividing by zero

---
 src/ops.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index cc378c8..c287c63 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1020,6 +1020,8 @@ v_align(char *str, MNEMONIC *dummy)
         Csegment->rflags |= SF_REF;
     else
         Csegment->flags |= SF_REF;
+    if (sym->value == 0 && !(sym->flags & SYM_UNKNOWN))
+        asmerr( ERROR_DIVISION_BY_0, true, NULL );
     if (sym->next) {
         if (sym->next->flags & SYM_UNKNOWN) {
             ++Redo;
-- 
2.43.0


From 1dfa92ced8565cdc9637c4d4f175da5c1327e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:10 +0000
Subject: [PATCH 14/70] fix: do not read below the operand stack when a list
 item is missing

---
 src/exp.c | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 7263542..0dc046b 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -461,15 +461,20 @@ SYMBOL *eval(const char *str, int wantmode)
                 cur->addrmode = AM_BYTEREL;
                 SYMBOL *pNewSymbol = allocsymbol();
                 cur->next = pNewSymbol;
-                --Argi;
-                cur->value = Argstack[Argi];
-                cur->flags = Argflags[Argi];
-
-                if ((cur->string = (void *)Argstring[Argi]) != NULL)
+                if (Argi == Argibase)
+                    asmerr( ERROR_SYNTAX_ERROR, false, pLine );
+                else
                 {
-                    cur->flags |= SYM_STRING;
-                    if (Xdebug)
-                        printf("STRING: %s\n", cur->string);
+                    --Argi;
+                    cur->value = Argstack[Argi];
+                    cur->flags = Argflags[Argi];
+
+                    if ((cur->string = (void *)Argstring[Argi]) != NULL)
+                    {
+                        cur->flags |= SYM_STRING;
+                        if (Xdebug)
+                            printf("STRING: %s\n", cur->string);
+                    }
                 }
                 cur = pNewSymbol;
 
@@ -515,19 +520,22 @@ SYMBOL *eval(const char *str, int wantmode)
             {
                 SYMBOL *pNewSymbol = allocsymbol();
                 cur->next = pNewSymbol;
-                --Argi;
-                if (Argi < Argibase)
+                if (Argi == Argibase)
                     asmerr( ERROR_SYNTAX_ERROR, false, pLine );
-                if (Argi > Argibase)
-                    asmerr( ERROR_SYNTAX_ERROR, false, pLine );
-                cur->value = Argstack[Argi];
-                cur->flags = Argflags[Argi];
-
-                if ((cur->string = (void *)Argstring[Argi]) != NULL)
+                else
                 {
-                    cur->flags |= SYM_STRING;
-                    if (Xdebug)
-                        printf("STRING: %s\n", cur->string);
+                    --Argi;
+                    if (Argi > Argibase)
+                        asmerr( ERROR_SYNTAX_ERROR, false, pLine );
+                    cur->value = Argstack[Argi];
+                    cur->flags = Argflags[Argi];
+
+                    if ((cur->string = (void *)Argstring[Argi]) != NULL)
+                    {
+                        cur->flags |= SYM_STRING;
+                        if (Xdebug)
+                            printf("STRING: %s\n", cur->string);
+                    }
                 }
                 cur = pNewSymbol;
             }
-- 
2.43.0


From acbfd88230d163e73ef73d2abd8886c078dec3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:11 +0000
Subject: [PATCH 15/70] fix: abort when an expression nests deeper than its
 stacks

---
 src/exp.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 0dc046b..77dd3a5 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -362,7 +362,7 @@ SYMBOL *eval(const char *str, int wantmode)
 	    } else {
 		ucasm_indexed_notation = false;
             if (Opi == MAXOPS)
-                puts("too many ops");
+                asmerr( ERROR_RECURSION_TOO_DEEP, true, "eval()" );
             else
                 Oppri[Opi++] = 0;
             ++str;
@@ -702,8 +702,7 @@ static void stackarg(long val, int flags, const char *ptr1)
     Argstring[Argi] = str;
     Argflags[Argi] = flags;
     if (++Argi == MAXARGS) {
-        puts("stackarg: maxargs stacked");
-        Argi = Argibase;
+        asmerr( ERROR_RECURSION_TOO_DEEP, true, "stackarg()" );
     }
     while (Opi != Opibase && Oppri[Opi-1] == 128)
         evaltop();
@@ -740,15 +739,15 @@ void doop(opfunc_t func, int pri)
     if (Xdebug)
         printf("doop @ %d\n", Opi);
 
+    if (Opi >= MAXOPS)
+    {
+        asmerr( ERROR_RECURSION_TOO_DEEP, true, "doop()" );
+        return;
+    }
+
     Opdis[Opi] = func;
     Oppri[Opi] = pri;
     ++Opi;
-
-    if (Opi == MAXOPS)
-    {
-        puts("doop: too many operators");
-        Opi = Opibase;
-    }
     return;
 }
 
-- 
2.43.0


From e020a8d7d309dc99be30f41e349d64763660ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:11 +0000
Subject: [PATCH 16/70] fix: report brackets without an operand as an error

---
 src/exp.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 77dd3a5..5b13b9d 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -410,15 +410,12 @@ SYMBOL *eval(const char *str, int wantmode)
                 --Opi;
             ++str;
 
-	    if (ucasm_indexed_notation) {
-		ucasm_indexed_notation = false;
-	    } else {
+            ucasm_indexed_notation = false;
             if (Argi == Argibase)
             {
-                puts("']' error, no arg on stack");
+                asmerr( ERROR_SYNTAX_ERROR, false, pLine );
                 break;
             }
-            }
 
             if (*str == 'd')
             {  /*  STRING CONVERSION   */
-- 
2.43.0


From 9dd7797966dbcea3754a2945b78cee0c6251d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:37 +0000
Subject: [PATCH 17/70] fix: do not trap when the most negative value is
 divided by -1

---
 src/exp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index 5b13b9d..72e4a84 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -791,6 +791,11 @@ void op_div(long v1, long v2, int f1, int f2)
         asmerr( ERROR_DIVISION_BY_0, true, NULL );
         stackarg(0L, 0, NULL);
     }
+    else if (v2 == -1)
+    {
+        /* the most negative value cannot be divided by -1 */
+        stackarg((long)(0UL - v1), 0, NULL);
+    }
     else
     {
         stackarg(v1 / v2, 0, NULL);
@@ -805,6 +810,8 @@ void op_mod(long v1, long v2, int f1, int f2)
     }
     if (v2 == 0)
         stackarg(v1, 0, NULL);
+    else if (v2 == -1)
+        stackarg(0L, 0, NULL);  /* the most negative value cannot be divided by -1 */
     else
         stackarg(v1 % v2, 0, NULL);
     Lastwasop = 1;
-- 
2.43.0


From 532004f98d5047ee14692f4ac07a5dbda35c78da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:37 +0000
Subject: [PATCH 18/70] fix: do not write to the list file while it is not open

---
 src/exp.c  | 2 +-
 src/main.c | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 72e4a84..30864c0 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -1017,7 +1017,7 @@ const char *pushsymbol(const char *str)
     if (ptr == str) {
         asmerr( ERROR_ILLEGAL_CHARACTER, false, str );
         printf("char = '%c' %d (-1: %d)\n", *str, *str, *(str-1));
-        if (F_listfile)
+        if (FI_listfile)
             fprintf(FI_listfile, "char = '%c' code %d\n", *str, *str);
         return str+1;
     }
diff --git a/src/main.c b/src/main.c
index b42be44..26eef6e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -721,7 +721,10 @@ nextpass:
     closegenerate();
     fclose(FI_temp);
     if (FI_listfile)
+    {
         fclose(FI_listfile);
+        FI_listfile = NULL;
+    }
 
     if (mlflag) // check if a multi-line comment is missing a terminator
         return ERROR_MISSING_COMMENT_END;
@@ -780,7 +783,7 @@ nextpass:
 
     if (nMacroClosings != nMacroDeclarations) {
         /* determine the file pointer to use */
-        FILE *error_file = (F_listfile != NULL) ? FI_listfile : stdout;
+        FILE *error_file = (FI_listfile != NULL) ? FI_listfile : stdout;
 
     	fprintf(error_file, "premature end of file, macros opened:%d  closed:%d", nMacroDeclarations, nMacroClosings);
         fprintf(error_file, "Aborting assembly\n");
@@ -1624,7 +1627,7 @@ int asmerr(int err, bool bAbort, const char *sText )
         */
 
         /* determine the file pointer to use */
-        error_file = (F_listfile != NULL) ? FI_listfile : stdout;
+        error_file = (FI_listfile != NULL) ? FI_listfile : stdout;
 
         /* print first part of message, different formats offered */
 	if (pincfile != NULL)
-- 
2.43.0


From ec2f3d9b08802a29bfe2d180ec7b5471217303a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:38 +0000
Subject: [PATCH 19/70] fix: do not crash on an error in a command line
 definition

---
 src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 26eef6e..511b376 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1598,7 +1598,8 @@ int asmerr(int err, bool bAbort, const char *sText )
     else
     {
 
-        if (sErrorDef[err].bFatal)
+        /* errors in command line definitions come before the first pass */
+        if (sErrorDef[err].bFatal && bStopAtEnd != NULL)
             bStopAtEnd[pass] = true;
 
 	pincfile = pIncfile;
-- 
2.43.0


From e00a9947a614541ac25f01bead5c39233fcc7090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:53 +0000
Subject: [PATCH 20/70] fix: size the error flags for every pass and reject
 pass limits below 1

---
 src/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 511b376..bb64ba4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -535,6 +535,8 @@ nofile:
                 /* fall through to 'p' */
             case 'p':   /*  F_passes   */
                 nMaxPasses = atoi(str);
+                if (nMaxPasses < 1)
+                    panic("-p and -P Switches require a number of passes above 0.");
                 break;
 
             case 's':   /*  F_symfile   */
@@ -573,8 +575,9 @@ nofile:
         goto fail;
     }
 
-    bStopAtEnd = malloc((nMaxPasses+1) * sizeof(bool));
-    memset(bStopAtEnd, 0, nMaxPasses+1);	// we dont count from zero ! (for fewer code changes)
+    // we dont count from zero ! (for fewer code changes)
+    // one more for the error that reports too many passes
+    bStopAtEnd = (bool *)zmalloc((nMaxPasses+2) * sizeof(bool));
 
     /*    INITIAL SEGMENT */
 
-- 
2.43.0


From 26290edddc0e089ed898d6c9c46aa73027dca9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:54 +0000
Subject: [PATCH 21/70] fix: remove the output file when assembly aborts and -R
 is given

---
 src/main.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main.c b/src/main.c
index bb64ba4..7225f04 100644
--- a/src/main.c
+++ b/src/main.c
@@ -49,6 +49,7 @@ static const char *cleanup(char *buf, bool bDisable);
 
 MNEMONIC *parse(char *buf);
 void panic(const char *str);
+static void removeoutput(void);
 MNEMONIC *findmne(char *str);
 void clearsegs(void);
 void clearrefs(void);
@@ -791,6 +792,7 @@ nextpass:
     	fprintf(error_file, "premature end of file, macros opened:%d  closed:%d", nMacroDeclarations, nMacroClosings);
         fprintf(error_file, "Aborting assembly\n");
 
+        removeoutput();
         exit(ERROR_MISSING_ENDM);
     }
     printf( "Complete. (%d)\n", nError);
@@ -1140,9 +1142,17 @@ br2:
 void panic(const char *str)
 {
     puts(str);
+    removeoutput();
     exit(1);
 }
 
+/* remove what was written so far when assembly ends early (-R) */
+static void removeoutput(void)
+{
+    if (bRemoveOutBin && FI_temp != NULL)
+        unlink(F_outfile);
+}
+
 /*
 *  .dir    direct              x
 *  .ext    extended              x
@@ -1699,6 +1709,7 @@ int asmerr(int err, bool bAbort, const char *sText )
             passbuffer_output(MSGBUF); // dump messages from this pass
             fprintf(error_file, "Aborting assembly\n");
             passbuffer_output(ERRORBUF); // time to dump the errors from this pass!
+            removeoutput();
             exit(err);
         }
     }
-- 
2.43.0


From 82e7b5f0450b4925a624b0dfdef40fd886e56e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:28 +0000
Subject: [PATCH 22/70] fix: do not finish successfully when a DV has no EQM
 label

---
 src/ops.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index c287c63..8581263 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -756,7 +756,9 @@ v_dc(char *str, MNEMONIC *mne)
         tmp = findsymbol(str, i);
         str += i;
         if (tmp == NULL) {
-            puts("EQM label not found");
+            asmerr( ERROR_SYNTAX_ERROR, false, "EQM label not found" );
+            ++Redo;
+            Redo_why |= REASON_DV_NOT_RESOLVED_PROBABLY;
             return;
         }
         if (tmp->flags & SYM_MACRO) {
@@ -764,7 +766,9 @@ v_dc(char *str, MNEMONIC *mne)
         }
         else
         {
-            puts("must specify EQM label for DV");
+            asmerr( ERROR_SYNTAX_ERROR, false, "must specify EQM label for DV" );
+            ++Redo;
+            Redo_why |= REASON_DV_NOT_RESOLVED_PROBABLY;
             return;
         }
     }
-- 
2.43.0


From 6a179a37f3618b631e16aa2258c1a451ead55084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:29 +0000
Subject: [PATCH 23/70] fix: fail when a block or brace is closed that is not
 open

---
 src/main.c | 2 +-
 src/ops.c  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7225f04..c6778e6 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1080,7 +1080,7 @@ static const char *cleanup(char *buf, bool bDisable)
                 --add;
             if (*str != '}')
             {
-                puts("end brace required");
+                asmerr( ERROR_SYNTAX_ERROR, false, "end brace required" );
                 --str;
                 break;
             }
diff --git a/src/ops.c b/src/ops.c
index 8581263..c06dd72 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1415,7 +1415,7 @@ v_endm(char *str, MNEMONIC *dummy)
         free(inc);
         return;
     }
-    puts("not within a macro");
+    asmerr( ERROR_SYNTAX_ERROR, false, "not within a macro" );
 }
 
 void
@@ -1498,7 +1498,7 @@ v_endif(char *str, MNEMONIC *dummy)
         if (ifs->acctrue)
             programlabel();
         if (ifs->file != pIncfile) {
-            puts("too many endif's");
+            asmerr( ERROR_SYNTAX_ERROR, false, "too many endif's" );
         }
         else
         {
@@ -1584,7 +1584,7 @@ v_repend(char *str, MNEMONIC *dummy)
         }
         return;
     }
-    puts("no repeat");
+    asmerr( ERROR_SYNTAX_ERROR, false, "no repeat" );
 }
 
 
-- 
2.43.0


From a648b00fba1ecf4f07a27f48154518948892ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:53:46 +0000
Subject: [PATCH 24/70] fix: do not report macro argument errors in false
 conditionals

---
 src/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index c6778e6..84d4ec9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1080,7 +1080,8 @@ static const char *cleanup(char *buf, bool bDisable)
                 --add;
             if (*str != '}')
             {
-                asmerr( ERROR_SYNTAX_ERROR, false, "end brace required" );
+                if (Ifstack->xtrue && Ifstack->acctrue)
+                    asmerr( ERROR_SYNTAX_ERROR, false, "end brace required" );
                 --str;
                 break;
             }
@@ -1124,7 +1125,8 @@ static const char *cleanup(char *buf, bool bDisable)
             }
             else
             {
-                asmerr( ERROR_NOT_ENOUGH_ARGUMENTS_PASSED_TO_MACRO, false, NULL );
+                if (Ifstack->xtrue && Ifstack->acctrue)
+                    asmerr( ERROR_NOT_ENOUGH_ARGUMENTS_PASSED_TO_MACRO, false, NULL );
                 goto br2;
             }
             break;
-- 
2.43.0


From 4934b147ba220348fb0e01b2fb8c06d961e7b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:49 +0000
Subject: [PATCH 25/70] fix: do not report repeated macros in false
 conditionals

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 84d4ec9..c1a84cb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1502,7 +1502,7 @@ void v_macro(char *str, MNEMONIC *dummy)
     }
     else {
         mac = (MACRO *)mne;
-        if( (bStrictMode) && (mac != NULL) && (mac->defpass == pass) )
+        if( (!skipit) && (bStrictMode) && (mac != NULL) && (mac->defpass == pass) )
             asmerr( ERROR_MACRO_REPEATED, true, str );
     }
     while (fgets(buf, MAXLINE, pIncfile->fi)) {
-- 
2.43.0


From 4b4b32001735cbec1b9eefb31825c6c9e546ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:09 +0000
Subject: [PATCH 26/70] fix: keep the whole composed name in SET

---
 src/ops.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index c06dd72..98c0c40 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1227,7 +1227,9 @@ void v_set(char *str, MNEMONIC *dummy)
                 i=i+2; // advance to string contents
                 while (str[i] && str[i] != '"' && str[i] != ' ' && str[i] != ',')
                 {
-                    dynamicname[j++]=str[i++];
+                    if (j < 256)
+                        dynamicname[j++]=str[i];
+                    i++;
                 }
                 if (str[i] && str[i]=='"')
                 {
@@ -1261,7 +1263,7 @@ void v_set(char *str, MNEMONIC *dummy)
                         setundefined++; // ensure the set doesn't actually happen
                     else
                     {
-                        snprintf(tempval,256,"%d",(unsigned)symarg->value);
+                        snprintf(tempval,257-j,"%d",(unsigned)symarg->value);
                         strcpy(dynamicname+j,tempval);
                         j=j+strlen(tempval);
                     }
@@ -1273,7 +1275,7 @@ void v_set(char *str, MNEMONIC *dummy)
 
             continue; // process any remaining arguments
         }
-        dynamicname[i++] = 0;
+        dynamicname[j] = 0;
         if (setundefined) // not all of the arguments are defined yet, so skip this SET
         {
             return;
-- 
2.43.0


From bb390e53bb2ea5c486a9151bbb962a7705df36ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:06 +0000
Subject: [PATCH 27/70] fix: size the line field buffers for the longest line

---
 src/globals.c | 2 +-
 src/main.c    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/globals.c b/src/globals.c
index 5390789..6d79075 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -37,7 +37,7 @@ SEGMENT *Seglist;	    /*	segment list	    */
 SEGMENT *Csegment;	    /*	current segment     */
 IFSTACK *Ifstack;	    /*	IF/ELSE/ENDIF stack */
 char	*Av[256];	    /*	up to 256 arguments */
-char	Avbuf[512];
+char	Avbuf[MAXLINE*8];
 unsigned char	MsbOrder = 1;
 int	Mnext;
 char	Inclevel;
diff --git a/src/main.c b/src/main.c
index c1a84cb..9d583a4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -841,8 +841,8 @@ static void outlistfile(const char *comment)
 {
     char xtrue;
     char c;
-    static char buf1[MAXLINE+32];
-    static char buf2[MAXLINE+32];
+    static char buf1[MAXLINE*10];
+    static char buf2[MAXLINE*10];
     const char *ptr;
     const char *dot;
     int i, j;
@@ -1428,7 +1428,7 @@ MNEMONIC *findmne(char *str)
     int i;
     char c;
     MNEMONIC *mne;
-    char buf[64];
+    char buf[MAXLINE*8];
 
 
     if (str[0] == '.') {    /* Allow .OP for OP */
-- 
2.43.0


From e70a991b3bd83efb4c48b504c7dac7baa1acb03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:07 +0000
Subject: [PATCH 28/70] fix: allocate include paths by their length

---
 src/ops.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 98c0c40..b0892c6 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1656,17 +1656,16 @@ pfopen(const char *name, const char *mode)
     if (strchr(name, ':'))
         return NULL;
 
-    buf = zmalloc(512);
-
     for (incdir = incdirlist; incdir; incdir = incdir->next) {
+        buf = zmalloc(strlen(incdir->buf) + strlen(name) + 2);
         addpart(buf, incdir->buf, name);
 
         f = fopen(buf, mode);
+        free(buf);
         if (f)
             break;
     }
 
-    free(buf);
     return f;
 }
 
-- 
2.43.0


From b7fd0702e1132dfc46f14f8a54f131819d6251c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:08 +0000
Subject: [PATCH 29/70] fix: bound the text copied into error and echo messages

---
 src/exp.c  |  4 ----
 src/main.c |  8 ++++----
 src/ops.c  | 16 ++++++++--------
 3 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 30864c0..c9d660f 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -381,8 +381,6 @@ SYMBOL *eval(const char *str, int wantmode)
 		//FIX: detect illegal opc (zp),x syntax...
                 if (cur->addrmode == AM_INDWORD && str[1] == ',' && (str[2]|0x20) == 'x')
                 {
-                   char sBuffer[128];
-                   sprintf( sBuffer, "%s", str );
                    asmerr( ERROR_ILLEGAL_ADDRESSING_MODE,false, pLine );
                    ++Redo;
                    Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
@@ -481,8 +479,6 @@ SYMBOL *eval(const char *str, int wantmode)
             //FIX: detect illegal opc (zp,y) syntax...
             else if ((cur->addrmode == AM_INDWORD && scr == 'y' && str[2]==')')&&(wantmode))
             {
-                   char sBuffer[128];
-                   sprintf( sBuffer, "%s", str );
                    asmerr( ERROR_ILLEGAL_ADDRESSING_MODE,false, pLine );
                    ++Redo;
                    Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
diff --git a/src/main.c b/src/main.c
index 9d583a4..bc089dd 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1657,7 +1657,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "%s (%lu): error: ",
                         pincfile->name, pincfile->lineno);
-                sprintf(erroradd1, "%s (%lu): error: ",
+                snprintf(erroradd1, sizeof(erroradd1), "%s (%lu): error: ",
                     pincfile->name, pincfile->lineno); // -FXQ
                 break;
             case ERRORFORMAT_DILLON:
@@ -1673,7 +1673,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "line %7ld %-10s ",
                         pincfile->lineno, pincfile->name);
-                sprintf(erroradd1, "line %7ld %-10s ",
+                snprintf(erroradd1, sizeof(erroradd1), "line %7ld %-10s ",
                     pincfile->lineno, pincfile->name); // -FXQ
                 break;
             case ERRORFORMAT_GNU:
@@ -1684,7 +1684,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "%s:%lu: error: ",
                         pincfile->name, pincfile->lineno);
-                sprintf(erroradd1, "%s:%lu: error: ",
+                snprintf(erroradd1, sizeof(erroradd1), "%s:%lu: error: ",
                     pincfile->name, pincfile->lineno); // -FXQ
                 break;
             default:
@@ -1699,7 +1699,7 @@ int asmerr(int err, bool bAbort, const char *sText )
             fprintf(error_file, str, sText ? sText : "");
             fprintf(error_file, "\n");
         }
-        sprintf(erroradd2, str, sText ? sText : "");
+        snprintf(erroradd2, sizeof(erroradd2), str, sText ? sText : "");
         sprintf(erroradd3, "\n");
 
 	passbuffer_update(ERRORBUF,erroradd1);
diff --git a/src/ops.c b/src/ops.c
index b0892c6..fb8213b 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -205,7 +205,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
     if (badcode(mne,addrmode))
     {
-        sprintf( sBuffer, "%s %s", mne->name, str );
+        snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
         asmerr( ERROR_ILLEGAL_ADDRESSING_MODE, false, sBuffer );
         FreeSymbolList(symbase);
         //FIX
@@ -285,7 +285,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_BYTEADR_SP:
     		byteRequested = true;
     		if (opsize > 1) {
-    			sprintf( sBuffer, "%s %s, user requested byte mode", mne->name, str );
+    			snprintf( sBuffer, sizeof(sBuffer), "%s %s, user requested byte mode", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
     		}
     		break;
@@ -329,7 +329,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
             }
 	    }
 
-        sprintf( sBuffer, "%s %s", mne->name, str );
+        snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
 
         asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         break;
@@ -346,7 +346,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_INDWORDX:
     	case AM_WORDADR_SP:
     		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
-    			sprintf( sBuffer, "%s %s", mne->name, str );
+    			snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
     		}
     		break;
@@ -360,7 +360,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_INDBYTEY:
     	case AM_INDBYTE:
     		if (sym->value < -0xFF) {	// isn't this our space ?
-    			sprintf( sBuffer, "negative %s %s", mne->name, str );
+    			snprintf( sBuffer, sizeof(sBuffer), "negative %s %s", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
     		}
     		break;
@@ -1175,12 +1175,12 @@ v_echo(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym = eval(str, 0);
     SYMBOL *s;
-    char buf[256];
+    char buf[MAXLINE];
 
     for (s = sym; s; s = s->next) {
         if (!(s->flags & SYM_UNKNOWN)) {
             if (s->flags & (SYM_MACRO|SYM_STRING))
-                sprintf(buf,"%s", s->string);
+                snprintf(buf, sizeof(buf), "%s", s->string);
             else
                 sprintf(buf,"$%lx", s->value);
             if (FI_listfile)
@@ -1333,7 +1333,7 @@ v_execmac(char *str, MACRO *mac)
 
     if (Mlevel == MAXMACLEVEL) {
         char errMsg[256];
-        sprintf(errMsg, " macro [%s] recursion > %d", mac->name, MAXMACLEVEL);
+        snprintf(errMsg, sizeof(errMsg), " macro [%s] recursion > %d", mac->name, MAXMACLEVEL);
         asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
         return;
     }
-- 
2.43.0


From 3a4f29fc04c5d2a26fdd1d36b3abaa0e06b56e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:27 +0000
Subject: [PATCH 30/70] fix: write long data lists out before the code buffer
 is full

---
 src/ops.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index fb8213b..1644f5f 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -709,6 +709,15 @@ v_err(char *str, MNEMONIC *dummy)
     exit(1);
 }
 
+/* output Gen[] early if there is no room left for another item */
+static void flushgen(void)
+{
+    if (Glen > (int)sizeof(Gen) - 4) {
+        generate();
+        Glen = 0;
+    }
+}
+
 void
 v_dc(char *str, MNEMONIC *mne)
 {
@@ -792,6 +801,7 @@ v_dc(char *str, MNEMONIC *mne)
                     }
                     FreeSymbolList(tmp);
                 }
+                flushgen();
                 switch(Mnext) {
                 default:
                 case AM_BYTE:
@@ -850,6 +860,7 @@ v_dc(char *str, MNEMONIC *mne)
                 }
                 FreeSymbolList(tmp);
             }
+            flushgen();
             switch(Mnext) {
             default:
             case AM_BYTE:
-- 
2.43.0


From 7cdaf69ca1692068c843cbf03a5477d20764ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:28 +0000
Subject: [PATCH 31/70] fix: count the terminator when growing the message
 buffer

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index bc089dd..253a8c7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1838,7 +1838,7 @@ void passbuffer_update(int mbindex,char *message)
     }
 
     // check if we need to grow the buffer...
-    newsizerequired=strlen(passbuffer[mbindex])+strlen(message);
+    newsizerequired=strlen(passbuffer[mbindex])+strlen(message)+1;
     if( newsizerequired > passbuffersize[mbindex])
     {
         char *tmpalloc;
-- 
2.43.0


From acc59fab9931c49d645d397fb4abc12027d6fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:29 +0000
Subject: [PATCH 32/70] fix: reject SETSYM of a symbol that is not a string

---
 src/ops.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 1644f5f..b1f35dd 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1324,8 +1324,13 @@ void v_setsym(char *symstr, MNEMONIC *dummy)
         return;
     }
 
-    if (sym->flags & SYM_STRING)
-        strcpy(str,sym->string);
+    if (!(sym->flags & SYM_STRING))
+    {
+        asmerr( ERROR_TYPE_MISMATCH, false, NULL );
+        FreeSymbolList(sym);
+        return;
+    }
+    strcpy(str,sym->string);
 
     FreeSymbolList(sym);
 
-- 
2.43.0


From d096129f1fda89be33cb213659d6cfb8dc8a264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:30 +0000
Subject: [PATCH 33/70] fix: leave out skipped INCBIN bytes in every pass

---
 src/ops.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index b1f35dd..6204b04 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -609,7 +609,9 @@ v_incbin(char *str, MNEMONIC *dummy)
         if (Redo) {
             /* optimize: don't actually read the file if not needed */
             fseek(binfile, 0, SEEK_END);
-            Glen = ftell(binfile);
+            Glen = ftell(binfile) - skip_bytes;
+            if (Glen < 0)
+                Glen = 0;
             generate();     /* does not access Gen[] if Redo is set */
         }
         else
-- 
2.43.0


From 58a46e93369b91439080e3013307682494e0ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:14:52 +0000
Subject: [PATCH 34/70] fix: write no length field when format 2 output is
 empty

---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 6204b04..e9973b9 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1805,7 +1805,7 @@ void closegenerate(void)
 {
     if (!Redo)
     {
-        if ( F_format == FORMAT_RAS )
+        if ( F_format == FORMAT_RAS && !Fisclear )
         {
             fseek(FI_temp, Seekback, 0);
             putc((Seglen & 0xFF), FI_temp);
-- 
2.43.0


From 6a431b2bba5ca513822f425a5423ed063357b8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:14:53 +0000
Subject: [PATCH 35/70] fix: start a new format 2 chunk before its length
 overflows

---
 src/ops.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index e9973b9..93b1f28 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1762,7 +1762,8 @@ generate(void)
 
             case FORMAT_RAS:
 
-                if (org != Csegment->org)
+                /* the length field of a chunk has two bytes */
+                if (org != Csegment->org || Seglen + Glen > 0xFFFF)
                 {
                     org = Csegment->org;
                     seekpos = ftell(FI_temp);
-- 
2.43.0


From bde93b548a87b795e936794259b1b6589d43c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:14:54 +0000
Subject: [PATCH 36/70] fix: stop ftohex at the end of a truncated format 2
 file

---
 src/ftohex.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ftohex.c b/src/ftohex.c
index a201983..5ccfa39 100644
--- a/src/ftohex.c
+++ b/src/ftohex.c
@@ -106,6 +106,8 @@ convert(int format, FILE *in, FILE *out)
     org = getwlh(in);
     if (format == 2) {
 	len = getwlh(in);
+	if (feof(in))
+	    len = 0;
     } else {
 	long begin = ftell(in);
 	fseek(in, 0, SEEK_END);
@@ -118,7 +120,9 @@ convert(int format, FILE *in, FILE *out)
 	    register unsigned int i;
 
 	    idx = (len > PERLINE) ? PERLINE : len;
-	    fread(buf, idx, 1, in);
+	    idx = fread(buf, 1, idx, in);
+	    if (idx == 0)
+		break;
 	    putc(':', out);
 	    puth(idx, out);
 	    puth(org >> 8, out);
@@ -141,6 +145,8 @@ convert(int format, FILE *in, FILE *out)
 	    if (feof(in))
 		break;
 	    len = getwlh(in);
+	    if (feof(in))
+		break;
 	} else {
 	    break;
 	}
-- 
2.43.0


From 4ba72d2d5bc4348af97275992fab21f87c75c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:29:25 +0000
Subject: [PATCH 37/70] fix: do not remove a file that was never written to on
 option errors

---
 src/main.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 253a8c7..2c31e5b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1803,9 +1803,7 @@ int main(int ac, char **av)
     passbuffer_cleanup();
 
     if (nError != 0) {
-    	if (bRemoveOutBin) {
-    		unlink(F_outfile);
-    	}
+    	removeoutput();
     }
     return nError;
 }
-- 
2.43.0


From fd4f85fb643090786605f82ce9de8caf4ad093ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:29:25 +0000
Subject: [PATCH 38/70] fix: report an output file that could not be written
 completely

---
 src/main.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 2c31e5b..24b649d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -723,13 +723,22 @@ nextpass:
     }
 
     closegenerate();
-    fclose(FI_temp);
+    if (ferror(FI_temp))
+        nError = ERROR_FILE_ERROR;
+    if (fclose(FI_temp) != 0)
+        nError = ERROR_FILE_ERROR;
     if (FI_listfile)
     {
         fclose(FI_listfile);
         FI_listfile = NULL;
     }
 
+    if (nError != ERROR_NONE)
+    {
+        printf("Unable to write '%s'\n", F_outfile);
+        return nError;
+    }
+
     if (mlflag) // check if a multi-line comment is missing a terminator
         return ERROR_MISSING_COMMENT_END;
 
-- 
2.43.0


From 972c476113ca276e57de3961d76bca0c817e2d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:55 +0000
Subject: [PATCH 39/70] fix: ask for another pass when an unresolved REPEAT
 count is negative

---
 src/ops.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 93b1f28..d3e1e9e 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1555,6 +1555,11 @@ void v_repeat(char *str, MNEMONIC *dummy)
 
     if ( sym->value < 0 )
     {
+        if ( sym->flags & SYM_UNKNOWN )
+        {
+            ++Redo;
+            Redo_why |= REASON_REPEAT_NOT_RESOLVED;
+        }
         pushif( 0 );
         FreeSymbolList( sym );
 
-- 
2.43.0


From c58e381fc177fc04c60493ac91a613e97835a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:05 +0000
Subject: [PATCH 40/70] fix: code in a segment without a known origin was
 written at address 0 after other output

---
 src/ops.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index d3e1e9e..4727a35 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1710,15 +1710,17 @@ generate(void)
             for (i = Glen - 1; i >= 0; --i)
                 CheckSum += Gen[i];
 
+            if (Csegment->flags & SF_UNKNOWN)
+            {
+                Fisclear = 0;
+                ++Redo;
+                Redo_why |= REASON_OBSCURE;
+                return;
+            }
+
             if (Fisclear)
             {
                 Fisclear = 0;
-                if (Csegment->flags & SF_UNKNOWN)
-                {
-                    ++Redo;
-                    Redo_why |= REASON_OBSCURE;
-                    return;
-                }
 
                 org = Csegment->org;
 
-- 
2.43.0


From 079d54b5448eaad51c831365791ae33b1fe45559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:06:50 +0000
Subject: [PATCH 41/70] fix: second and later passes started in the last
 segment of the previous pass

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 24b649d..744af95 100644
--- a/src/main.c
+++ b/src/main.c
@@ -954,6 +954,7 @@ void clearsegs(void)
     for (seg = Seglist; seg; seg = seg->next) {
         seg->flags = (seg->flags & SF_BSS) | SF_UNKNOWN;
         seg->rflags= seg->initflags = seg->initrflags = SF_UNKNOWN;
+        Csegment = seg;     /* ends at the initial segment, the last in the list */
     }
 }
 
-- 
2.43.0


From 2fe8b3aa83f0260f8463bdcb7f71578095e50b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:00 +0000
Subject: [PATCH 42/70] fix: the fill byte of an earlier pass's ORG filled gaps
 before the first ORG with a fill byte

---
 src/asm.h  | 1 +
 src/main.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/asm.h b/src/asm.h
index 1d58a8f..1ef3a7d 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -398,6 +398,7 @@ extern unsigned char    Fisclear;
 extern unsigned long    Plab, Pflags;
 extern char    Inclevel;
 extern char    ListMode;
+extern unsigned char OrgFill;
 extern unsigned long    Processor;
 
 /*extern unsigned int _fmode;*/
diff --git a/src/main.c b/src/main.c
index 744af95..156616a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -622,6 +622,7 @@ nextpass:
     /*_fmode = 0;*/
     Fisclear = 1;
     CheckSum = 0;
+    OrgFill = DEFORGFILL;
     if (FI_temp == NULL) {
         printf("Warning: Unable to [re]open '%s'\n", F_outfile);
         return ERROR_FILE_ERROR;
-- 
2.43.0


From d48eee52b419158a72daaeb2bbc7227317ae1909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:01 +0000
Subject: [PATCH 43/70] fix: LIST OFF suppressed the listing from the start of
 the following passes

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 156616a..f5a41a5 100644
--- a/src/main.c
+++ b/src/main.c
@@ -623,6 +623,7 @@ nextpass:
     Fisclear = 1;
     CheckSum = 0;
     OrgFill = DEFORGFILL;
+    ListMode = 1;
     if (FI_temp == NULL) {
         printf("Warning: Unable to [re]open '%s'\n", F_outfile);
         return ERROR_FILE_ERROR;
-- 
2.43.0


From 54a5d0be3497691db64efddefaec646d84fdb59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:16 +0000
Subject: [PATCH 44/70] fix: a listed line without code showed the bytes of an
 earlier line that was not listed

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index f5a41a5..fdcaa5c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -644,6 +644,7 @@ nextpass:
     {
         for (;;) {
             const char *comment;
+            Glen = 0;
             if ( pIncfile->flags & INF_MACRO) {
                 if ( pIncfile->strlist == NULL) {
                     Av[0] = "";
-- 
2.43.0


From 2f72105ca1946d6e63b4091382c78b1bd0cc0ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:17:17 +0000
Subject: [PATCH 45/70] fix: an unclosed bracket applied the operator of an
 earlier expression

---
 src/exp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index c9d660f..d49b432 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -364,7 +364,10 @@ SYMBOL *eval(const char *str, int wantmode)
             if (Opi == MAXOPS)
                 asmerr( ERROR_RECURSION_TOO_DEEP, true, "eval()" );
             else
+            {
+                Opdis[Opi] = NULL;  /* no operator to apply if it is never closed */
                 Oppri[Opi++] = 0;
+            }
             ++str;
 	    }
             break;
-- 
2.43.0


From 89753b36586db432cb78961bbab506c14b0cb7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:01:24 +0000
Subject: [PATCH 46/70] fix: a semicolon inside a one-line /* */ comment made
 the comment run on over the following lines

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index fdcaa5c..2e0f215 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1002,7 +1002,7 @@ static const char *cleanup(char *buf, bool bDisable)
                     *tmpc=0;
                 tmpc++;
             }
-	    snprintf(tempbuf,MAXLINE,"%s;*/%s",mlend+2,buf); // put the comment at the end of the line
+	    snprintf(tempbuf,MAXLINE,"%s;%s",mlend+2,buf); // put the comment at the end of the line
             strncpy(buf,tempbuf,MAXLINE);
             return(cleanup(buf,bDisable)); // repeat for any single-line comments that may follow
         }
@@ -1019,7 +1019,7 @@ static const char *cleanup(char *buf, bool bDisable)
             asmerr( ERROR_SPURIOUS_COMMENT_CLOSE, false, NULL );
         if (mlstart && ((!semistart) || (mlstart < semistart)))
         {
-            if (mlend && (mlstart < mlend) && ((!semistart)||(mlend < semistart))) // single line /* */
+            if (mlend && (mlstart < mlend)) // single line /* */
             {
 	        char tempbuf[MAXLINE];
                 char *tmpc;
-- 
2.43.0


From 8bfc2fbde34eec72bf2832cc437495e6ea300278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:01:25 +0000
Subject: [PATCH 47/70] fix: a line of the maximum length inside a block
 comment was moved past the end of its buffer

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 2e0f215..8f9a746 100644
--- a/src/main.c
+++ b/src/main.c
@@ -407,7 +407,7 @@ static int MainShadow(int ac, char **av, int *pSortMode )
     int nError = ERROR_NONE;
     bool bDoAllPasses = false;
 
-    char buf[MAXLINE];
+    char buf[MAXLINE+1];    /* cleanup() may add one character */
     int i;
     int argVal;
     MNEMONIC *mne;
@@ -1484,7 +1484,7 @@ void v_macro(char *str, MNEMONIC *dummy)
     MACRO *mac;    /* slp, mac: might be used uninitialised */
     MNEMONIC   *mne;
     unsigned int i;
-    char buf[MAXLINE];
+    char buf[MAXLINE+1];    /* cleanup() may add one character */
     int skipit = !(Ifstack->xtrue && Ifstack->acctrue);
 
     strlower(str);
-- 
2.43.0


From 987566c1911f522b76a3fa0428b1aa839cf118f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:22:43 +0000
Subject: [PATCH 48/70] fix: sorting symbols by value went wrong for values
 differing by 2^31 or more

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 8f9a746..dfd0fc0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -206,7 +206,7 @@ static int CompareAddress( const void *arg1, const void *arg2 )
     const SYMBOL *sym1 = *(SYMBOL * const *) arg1;
     const SYMBOL *sym2 = *(SYMBOL * const *) arg2;
 
-    return sym1->value - sym2->value;
+    return (sym1->value > sym2->value) - (sym1->value < sym2->value);
 }
 
 static int CompareOrder( const void *arg1, const void *arg2 )
-- 
2.43.0


From b491fdc8360156364455eb59f9178d348eae9669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:22:44 +0000
Subject: [PATCH 49/70] fix: the segment list showed the same address in
 several columns and left others blank

---
 src/main.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index dfd0fc0..c98bbb6 100644
--- a/src/main.c
+++ b/src/main.c
@@ -895,13 +895,11 @@ static void outlistfile(const char *comment)
 
 char *sftos(long val, int flags)
 {
-    static char buf[ MAX_SYM_LEN + 14 ];
-    static char c;
-    char *ptr = (c) ? buf : buf + sizeof(buf) / 2;
+    static char buf[4][64];     /* up to four results are used in one message */
+    static unsigned char c;
+    char *ptr = buf[c];
 
-    memset( buf, 0, sizeof( buf ) );
-
-    c = 1 - c;
+    c = (c + 1) % 4;
 
     sprintf(ptr, "%04lx ", val);
 
-- 
2.43.0


From a4c1fb7f7e66c41bdf6f0bc6203e8ed94adce8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:35:20 +0000
Subject: [PATCH 50/70] fix: the size limit given with -m was taken as bytes
 instead of kB

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c98bbb6..ba255a7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -564,7 +564,7 @@ nofile:
             	if (argVal <= 64) {
             		panic("-m Switch invalid argument, should be > 64");
             	} else {
-            		maxFileSize = argVal;
+            		maxFileSize = argVal * 1024UL;
             	}
                 break;
 
-- 
2.43.0


From 50ac372f8f49cf85204032e3e0c6a1ceaa4ee059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:43:28 +0000
Subject: [PATCH 51/70] fix: errors found while a line was prepared for
 assembly named the line before it

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index ba255a7..ce160de 100644
--- a/src/main.c
+++ b/src/main.c
@@ -663,8 +663,8 @@ nextpass:
             if (Xdebug)
                 printf("%08lx %s\n", (unsigned long) pIncfile, buf);
 
-            comment = cleanup(buf, false);
             ++pIncfile->lineno;
+            comment = cleanup(buf, false);
             mne = parse(buf);
 
             if (Av[1][0])
-- 
2.43.0


From 8bf7b2302da457f558b0020ff89aafdab0e88720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:03 +0000
Subject: [PATCH 52/70] fix: a gap beyond the size limit was written to the
 output before the limit was checked

---
 src/ops.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 4727a35..e842244 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1696,6 +1696,16 @@ pfopen(const char *name, const char *mode)
 static long Seglen;
 static long Seekback;
 
+static void checksize(void)
+{
+    if (Csegment->org > maxFileSize) {
+    	char errMsg[128];
+    	sprintf(errMsg, "code segment growing larger (%ld) than max. allowed file size (%ld)\n"
+    					,Csegment->org, maxFileSize);
+    	asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
+    }
+}
+
 void
 generate(void)
 {
@@ -1758,6 +1768,8 @@ generate(void)
                     exit(1);
                 }
 
+                checksize();    /* before filling a gap that is too large */
+
                 while (Csegment->org != org)
                 {
                     putc(OrgFill, FI_temp);
@@ -1800,13 +1812,7 @@ generate(void)
     if (Csegment->flags & SF_RORG)
         Csegment->rorg += Glen;
 
-    if (Csegment->org > maxFileSize) {
-    	char errMsg[128];
-    	sprintf(errMsg, "code segment growing larger (%ld) than max. allowed file size (%ld)\n"
-    					,Csegment->org, maxFileSize);
-    	asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
-    	return;
-    }
+    checksize();
 }
 
 void closegenerate(void)
-- 
2.43.0


From 44625f254cd5f123b3bf26e0e9baae4654c07c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:04 +0000
Subject: [PATCH 53/70] fix: an illegal character counted as an unfinished
 symbol evaluation

---
 src/exp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exp.c b/src/exp.c
index d49b432..3849b67 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -1018,6 +1018,7 @@ const char *pushsymbol(const char *str)
         printf("char = '%c' %d (-1: %d)\n", *str, *str, *(str-1));
         if (FI_listfile)
             fprintf(FI_listfile, "char = '%c' code %d\n", *str, *str);
+        symbolRecursionCount--;
         return str+1;
     }
 
-- 
2.43.0


From dc92b304bb44201710bb96549ebe8596ae64e6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:45:08 +0000
Subject: [PATCH 54/70] fix: keep SETSYM within its buffer

A string symbol defined on the command line can be longer than a source line.
---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index e842244..ca99dbf 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1332,7 +1332,7 @@ void v_setsym(char *symstr, MNEMONIC *dummy)
         FreeSymbolList(sym);
         return;
     }
-    strcpy(str,sym->string);
+    snprintf(str, sizeof(str), "%s", sym->string);
 
     FreeSymbolList(sym);
 
-- 
2.43.0


From 4870e13296c81ecb034201739d0657750476368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:45:09 +0000
Subject: [PATCH 55/70] fix: leave room for two characters added to a full line

A line that opens a comment and ends in a quote grows by two characters.
---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index ce160de..8025f71 100644
--- a/src/main.c
+++ b/src/main.c
@@ -407,7 +407,7 @@ static int MainShadow(int ac, char **av, int *pSortMode )
     int nError = ERROR_NONE;
     bool bDoAllPasses = false;
 
-    char buf[MAXLINE+1];    /* cleanup() may add one character */
+    char buf[MAXLINE+2];    /* cleanup() may add two characters */
     int i;
     int argVal;
     MNEMONIC *mne;
@@ -1482,7 +1482,7 @@ void v_macro(char *str, MNEMONIC *dummy)
     MACRO *mac;    /* slp, mac: might be used uninitialised */
     MNEMONIC   *mne;
     unsigned int i;
-    char buf[MAXLINE+1];    /* cleanup() may add one character */
+    char buf[MAXLINE+2];    /* cleanup() may add two characters */
     int skipit = !(Ifstack->xtrue && Ifstack->acctrue);
 
     strlower(str);
-- 
2.43.0


From 70a02ea3c907e9fd1ac1ca522ea8cf410fd327f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:42:32 +0000
Subject: [PATCH 56/70] fix: end a label argument at the end of the label field

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 8025f71..8a066cd 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1352,7 +1352,7 @@ MNEMONIC *parse(char *buf)
                 tempbuf[256]=0;
                 for(t=0;t<strlen(tempbuf);t++)
                 {
-                    if(tempbuf[t] == ',')
+                    if(tempbuf[t] == ',' || tempbuf[t] == ' ' || tempbuf[t] == '=' || tempbuf[t] == ':')
                         tempbuf[t]=0;
                 }
                 symarg = eval(tempbuf,0);
-- 
2.43.0


From 076e451280417ab4bdfe5aaa17d7612142b8358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:42:34 +0000
Subject: [PATCH 57/70] fix: do not evaluate label arguments on skipped lines

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 8a066cd..8e73dea 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1355,7 +1355,7 @@ MNEMONIC *parse(char *buf)
                     if(tempbuf[t] == ',' || tempbuf[t] == ' ' || tempbuf[t] == '=' || tempbuf[t] == ':')
                         tempbuf[t]=0;
                 }
-                symarg = eval(tempbuf,0);
+                symarg = (Ifstack->xtrue && Ifstack->acctrue) ? eval(tempbuf,0) : NULL; // not on skipped lines
                 if(symarg)
                 {
                     if (symarg->flags & SYM_UNKNOWN) // one of the arguments isn't defined yet
-- 
2.43.0


From 7f6f5eda4118e854ab1d3dbdd22096b957658ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:22:15 +0000
Subject: [PATCH 58/70] fix: define FLASH_END in the 68HC11 register file

---
 machines/68hc11/register.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc11/register.asm b/machines/68hc11/register.asm
index 06efb21..410226c 100644
--- a/machines/68hc11/register.asm
+++ b/machines/68hc11/register.asm
@@ -1,7 +1,7 @@
 
 
 RAM_END			.EQU    (DOWNLOAD_SIZE-1)
-FLASH_END		.EQU<-->(FLASH_START + FLASH_SIZE)
+FLASH_END		.EQU	(FLASH_START + FLASH_SIZE)
 
 
 ;~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~;
-- 
2.43.0


From da7336c868fe81fbf3e7e7bb74a2f23974fb3a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:22:17 +0000
Subject: [PATCH 59/70] fix: close the and_bits macro of the 68HC908 files

---
 machines/68hc908/macros.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc908/macros.asm b/machines/68hc908/macros.asm
index c126b10..e63d232 100644
--- a/machines/68hc908/macros.asm
+++ b/machines/68hc908/macros.asm
@@ -68,7 +68,7 @@ _bLoop$:
 		ldA.8  {1}
 		and    {2}
 		stA.8  {1}
-	.macro
+	.endm
 
 
 	.macro or_bits		; {reg_addr},{bitmask}
-- 
2.43.0


From 826e3c7fe84867e7a297278aeb6ca26f2e1a9337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:22:20 +0000
Subject: [PATCH 60/70] fix: include the register file that exists in the
 68HC908JK1 file

---
 machines/68hc908/mc68hc908jk1.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc908/mc68hc908jk1.asm b/machines/68hc908/mc68hc908jk1.asm
index c9b90eb..4ee0027 100644
--- a/machines/68hc908/mc68hc908jk1.asm
+++ b/machines/68hc908/mc68hc908jk1.asm
@@ -18,7 +18,7 @@ FLASH_START	.EQU	$F600
 FLASH_SIZE	.EQU	1536
 	.ENDIF
 
-	#include	"reg68hc908jk1.asm"
+	#include	"reg68hc908jk3.asm"
 ;
 ;  Register Section Bits FLCR
 ;
-- 
2.43.0


From 5a1fb4466c3feec96724fdb439409b9ef4cb7f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:22:22 +0000
Subject: [PATCH 61/70] fix: define COLOUR_RED in the Channel F header

---
 machines/channel-f/ves.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machines/channel-f/ves.h b/machines/channel-f/ves.h
index a836482..7b2916d 100644
--- a/machines/channel-f/ves.h
+++ b/machines/channel-f/ves.h
@@ -56,6 +56,7 @@ COLOR_BACKGROUND    = $C0
 
 ; Alternate (European) spellings...
 
+COLOUR_RED          = COLOR_RED
 COLOUR_RES          = COLOR_RED
 COLOUR_BLUE         = COLOR_BLUE
 COLOUR_GREEN        = COLOR_GREEN
-- 
2.43.0


From 0b8e016a728d629e13b671912d9ce35d3389c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:22:39 +0000
Subject: [PATCH 62/70] fix: define the Channel F macros instead of labels
 named MAC

---
 machines/channel-f/macro.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/machines/channel-f/macro.h b/machines/channel-f/macro.h
index 0c52353..326eb94 100644
--- a/machines/channel-f/macro.h
+++ b/machines/channel-f/macro.h
@@ -34,10 +34,10 @@ VERSION_MACRO	= 101
 ; then inserts the NOP that takes up the next byte, which places
 ; the Channel F at the cartridge entry point, $802.
 
-MAC CARTRIDGE_START
+	MAC CARTRIDGE_START
 CartridgeStart: db $55                 ; valid cart indicator
                 NOP                      ; unused byte
-ENDM
+	ENDM
 
 ;-------------------------
 ; PROMPTS_NO_T
@@ -46,7 +46,7 @@ ENDM
 ; but this code doesn't have a "T?" prompt, so it's useful in games that
 ; don't have time limits or settings.
 
-MAC PROMPTS_NOT
+	MAC PROMPTS_NOT
 prompts SUBROUTINE
         LR   K,P                 ; 
                 PI   pushk               ; 
@@ -71,7 +71,7 @@ prompts SUBROUTINE
                 as 4 ;add the mode to the game #
                 LR   (IS),A              ; 
                 BF   $0,.prompts2        ; 
-ENDM
+	ENDM
 
 
 
-- 
2.43.0


From 36a98db939273d9070b0f47a10e3715c8ed9c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:22:48 +0000
Subject: [PATCH 63/70] fix: enable the deprecated names of the Channel F
 header as documented

---
 machines/channel-f/ves.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/channel-f/ves.h b/machines/channel-f/ves.h
index 7b2916d..1dacd49 100644
--- a/machines/channel-f/ves.h
+++ b/machines/channel-f/ves.h
@@ -33,7 +33,7 @@ VERSION_VES		= 101
 
 
 
-INCLUDE_DEPRECATED                 ; remove to DISABLE deprecated equates
+INCLUDE_DEPRECATED  = 1             ; remove to DISABLE deprecated equates
 
 
 ;-------------------------------------------------------------------------------
-- 
2.43.0


From 001619e54c65f6323318cf21aae2690dc6b6d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:27:26 +0000
Subject: [PATCH 64/70] fix: take a string as defined in IFCONST and IFNCONST

---
 src/ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index ca99dbf..73a3aae 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1455,7 +1455,7 @@ v_ifconst(char *str, MNEMONIC *dummy)
     }
     programlabel();
     sym = eval(str, 0);
-    pushif(sym->flags == 0);
+    pushif((sym->flags & SYM_UNKNOWN) == 0);
     FreeSymbolList(sym);
 }
 
@@ -1470,7 +1470,7 @@ v_ifnconst(char *str, MNEMONIC *dummy)
     }
     programlabel();
     sym = eval(str, 0);
-    pushif(sym->flags != 0);
+    pushif((sym->flags & SYM_UNKNOWN) != 0);
     FreeSymbolList(sym);
 }
 
-- 
2.43.0


From dede14da73c27a5c26e22f2f7e26f210a853b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 14:04:59 +0000
Subject: [PATCH 65/70] fix: TRACE without operand no longer looks at the
 previous line

---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 73a3aae..e911a0f 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -506,7 +506,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
 void v_trace(char *str, MNEMONIC *dummy)
 {
-    bTrace = (str[1] == 'n');
+    bTrace = (str[0] && str[1] == 'n');
 }
 
 void v_list(char *str, MNEMONIC *dummy)
-- 
2.43.0


From 93cc1935646f0da9ae46229c1e4bf3ecd4077d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 14:05:01 +0000
Subject: [PATCH 66/70] fix: report ! without = between operands instead of
 reading past the line

---
 src/exp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index 3849b67..993c5e0 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -279,11 +279,13 @@ SYMBOL *eval(const char *str, int wantmode)
             {
                 doop((opfunc_t)op_not, 128);
             }
-            else
+            else if (str[1] == '=')
             {
                 doop((opfunc_t)op_noteq, 16);
                 ++str;
             }
+            else
+                asmerr( ERROR_SYNTAX_ERROR, false, pLine );
             ++str;
             break;
 
-- 
2.43.0


From 6acbecea9ba6d8e5f323039422de63e9ebcb44fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 14:05:02 +0000
Subject: [PATCH 67/70] fix: do not read before the expression when reporting
 an illegal character

---
 src/exp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index 993c5e0..db1d916 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -1017,7 +1017,7 @@ const char *pushsymbol(const char *str)
         );
     if (ptr == str) {
         asmerr( ERROR_ILLEGAL_CHARACTER, false, str );
-        printf("char = '%c' %d (-1: %d)\n", *str, *str, *(str-1));
+        printf("char = '%c' %d\n", *str, *str);
         if (FI_listfile)
             fprintf(FI_listfile, "char = '%c' code %d\n", *str, *str);
         symbolRecursionCount--;
-- 
2.43.0


From 20e72d650a7d9dd512d8cbfdba51a74e47ed4014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 14:05:03 +0000
Subject: [PATCH 68/70] fix: ftobin: keep track of chunks that end at $10000

---
 src/ftobin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ftobin.c b/src/ftobin.c
index 6dc889f..e8fcbb0 100644
--- a/src/ftobin.c
+++ b/src/ftobin.c
@@ -115,7 +115,7 @@ static
 void
 convert(short format, FILE *in, FILE *out)
 {
-    uword org = 0;
+    long org = 0;
     uword base = 0;
     long len;
     long maxseek = 0;
-- 
2.43.0


From 334cf7679d910d77c10285f356a3e858559e2b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 14:05:05 +0000
Subject: [PATCH 69/70] fix: ftobin: fill gaps after the last byte written so
 far

---
 src/ftobin.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ftobin.c b/src/ftobin.c
index e8fcbb0..7750f3c 100644
--- a/src/ftobin.c
+++ b/src/ftobin.c
@@ -158,8 +158,10 @@ convert(short format, FILE *in, FILE *out)
 		return;
 	    }
 	    len -= maxseek;
-	    if (len > 0)
+	    if (len > 0) {
 		memset(buf, 255, sizeof(buf));
+		fseek(out, maxseek, 0);
+	    }
 	    while (len > 0) {
 		if (len >= ((long) sizeof(buf))) {
 		    fwrite(buf, sizeof(buf), 1, out);
-- 
2.43.0


From 27f9a4142f6b7f380f019f1217adc04635f0f4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 14:05:06 +0000
Subject: [PATCH 70/70] fix: ftobin: fail if an origin lies below the first

---
 src/ftobin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ftobin.c b/src/ftobin.c
index 7750f3c..df42399 100644
--- a/src/ftobin.c
+++ b/src/ftobin.c
@@ -155,7 +155,7 @@ convert(short format, FILE *in, FILE *out)
 	    if (len < 0) {
 		puts("ERROR!  Reverse indexed to before beginning");
 		puts("*Initial* origin must be the lowest address");
-		return;
+		exit(EXIT_FAILURE);
 	    }
 	    len -= maxseek;
 	    if (len > 0) {
-- 
2.43.0

