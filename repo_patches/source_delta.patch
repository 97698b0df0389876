From 50a2a2f2f0c7b7c917615048484af5cc4ef7d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 01/77] fix: conversion parser wrote one slot past its phase
 array

Parsing stores a terminating NULL after the last phase, at index phasen+1.
---
 src/libbsdconv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 4dab01c..b6b8bfb 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -315,7 +315,7 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 		if(*t==':' || *t=='|')++i;
 	}
 	ins->phasen=i;
-	char *phase_off[i+1];
+	char *phase_off[i+2];
 
 	ins->phase=malloc(sizeof(struct bsdconv_phase) * (i+1));
 
-- 
2.43.0


From e5c03289b7299684ca13c9308b900a6ea817fb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 02/77] fix: case-insensitive table lines only folded
 upper-case input

The table compiler filled ci_table['a'] 27 times instead of 'a'..'z', so a
'!' line written with upper-case letters did not match lower-case input and
'[' / 'a' were folded onto each other; the separator symbol 256 indexed one
past the table.
---
 src/bsdconv-mktable.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 6ad1cc3..8de4414 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -75,7 +75,7 @@ struct hash{
 };
 
 char table[256]={};
-char ci_table[256]={0};
+char ci_table[257]={0};
 
 uintptr_t offset=0;
 struct m_state_st *state_r, *state_t, holder;
@@ -178,9 +178,9 @@ int main(int argc, char *argv[]){
 	}
 
 	/* case insensitive table */
-	for(i=0;i<=26;++i){
+	for(i=0;i<26;++i){
 		ci_table['A'+i]='a'+i;
-		ci_table['a']='A'+i;
+		ci_table['a'+i]='A'+i;
 	}
 
 	if(argc!=3){
-- 
2.43.0


From 9ce7be0622a5738bed7c3d48b79e58f141bc802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 03/77] fix: bytes lost when an undecodable sequence spans two
 input chunks

On a decoding error every cell before the current one was freed although only
the first byte of the failed attempt is meant to be dropped, so the bytes of
the earlier chunks vanished uncounted and the first byte of the current chunk
was skipped.
---
 src/libbsdconv.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index b6b8bfb..cdfdbe8 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -667,8 +667,12 @@ void bsdconv(struct bsdconv_instance *ins){
 									RESET(ins->phase_index);
 									this_codec=THIS_CODEC(ins);
 
-									this_phase->bak=this_phase->curr;
-									LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+									//the failed attempt may span several cells: only its first byte is dropped
+									while(this_phase->data_head->len >= prev_phase->data_head->next->len){
+										this_phase->bak=prev_phase->data_head->next->next;
+										LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+										this_phase->data_head->len=0;
+									}
 									this_phase->bak=this_phase->curr=prev_phase->data_head;
 									this_phase->i=this_phase->data_head->len=this_phase->data_head->len+1;
 									continue;
-- 
2.43.0


From 39f214972fc606ff8aca040219ea05343855b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 04/77] fix: supplementary characters encoded as unrelated BMP
 ones in GB18030

When a cell ran past a plain table state beyond a callback state, the engine
stayed on the plain state and emitted its data (U+1F600 became the code of
U+01F6) instead of going back to the callback.
---
 src/libbsdconv.c | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index cdfdbe8..ef98229 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -591,6 +591,22 @@ void bsdconv_destroy(struct bsdconv_instance *ins){
 	free(ins);
 }
 
+/*
+ * Advance in a table while walking a cell. Once a callback state was passed, a
+ * mismatch falls back to that callback, not to a plain state reached later.
+ */
+#define STEP_CELL(PHASE, CODEC, NEXT) do{	\
+	if(NEXT){	\
+		(PHASE)->state=read_state((CODEC), (NEXT));	\
+		if(!((PHASE)->flags & F_LOOPBACK) || (PHASE)->state.status==SUBROUTINE || (PHASE)->state.status==SUBMATCH_SUBROUTINE)	\
+			(PHASE)->offset=(NEXT);	\
+	}else{	\
+		if(!((PHASE)->flags & F_LOOPBACK))	\
+			(PHASE)->offset=0;	\
+		(PHASE)->state=read_state((CODEC), (PHASE)->offset);	\
+	}	\
+}while(0)
+
 void bsdconv(struct bsdconv_instance *ins){
 	struct bsdconv_instance *inso;
 	uintptr_t i;
@@ -737,12 +753,7 @@ void bsdconv(struct bsdconv_instance *ins){
 				for(this_phase->i=0;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 					c=UCP(this_phase->curr->data)[this_phase->i];
 					offset_t next = get_offset(this_codec, &this_phase->state, c);
-					if(next){
-						this_phase->offset = next;
-					}else if(!(this_phase->flags & F_LOOPBACK)){
-						this_phase->offset=0;
-					}
-					this_phase->state=read_state(this_codec, this_phase->offset);
+					STEP_CELL(this_phase, this_codec, next);
 					switch(this_phase->state.status){
 						case DEADEND:
 							goto inter_deadend;
@@ -853,12 +864,7 @@ void bsdconv(struct bsdconv_instance *ins){
 
 				}
 				offset_t next = get_offset(this_codec, &this_phase->state, 256);
-				if(next){
-					this_phase->offset = next;
-				}else if(!(this_phase->flags & F_LOOPBACK)){
-					this_phase->offset=0;
-				}
-				this_phase->state=read_state(this_codec, this_phase->offset);
+				STEP_CELL(this_phase, this_codec, next);
 				if(this_phase->state.status==DEADEND){ goto inter_deadend;}
 			}
 			break;
@@ -870,12 +876,7 @@ void bsdconv(struct bsdconv_instance *ins){
 				for(this_phase->i=0;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 					c=UCP(this_phase->curr->data)[this_phase->i];
 					offset_t next = get_offset(this_codec, &this_phase->state, c);
-					if(next){
-						this_phase->offset = next;
-					}else if(!(this_phase->flags & F_LOOPBACK)){
-						this_phase->offset=0;
-					}
-					this_phase->state=read_state(this_codec, this_phase->offset);
+					STEP_CELL(this_phase, this_codec, next);
 					switch(this_phase->state.status){
 						case DEADEND:
 							goto to_deadend;
@@ -980,12 +981,7 @@ void bsdconv(struct bsdconv_instance *ins){
 						goto phase_begin;
 				}
 				offset_t next = get_offset(this_codec, &this_phase->state, 256);
-				if(next){
-					this_phase->offset = next;
-				}else if(!(this_phase->flags & F_LOOPBACK)){
-					this_phase->offset=0;
-				}
-				this_phase->state=read_state(this_codec, this_phase->offset);
+				STEP_CELL(this_phase, this_codec, next);
 				if(this_phase->state.status==DEADEND){ goto to_deadend;}
 			}
 			break;
-- 
2.43.0


From 332916eca0353b6e883762fcf488261c01164cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 05/77] fix: EBCDIC encoders turned unmapped characters into
 other characters

The callback was taken for any cell that merely starts with a mapped one, so
U+4142 was written as the code of U+0041 instead of being reported; and a
character failing in double-byte mode was skipped without being reported or
offered to the next codec.
---
 modules/to/EBCDIC.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/modules/to/EBCDIC.c b/modules/to/EBCDIC.c
index afb2170..c649157 100644
--- a/modules/to/EBCDIC.c
+++ b/modules/to/EBCDIC.c
@@ -35,6 +35,7 @@ void cbflush(struct bsdconv_instance *ins){
 		*CP(this_phase->data_tail->data)='\x0F';
 	}
 
+	this_phase->curr=PREV_PHASE(ins)->data_head;
 	this_phase->state.status=NEXTPHASE;
 }
 
@@ -49,6 +50,19 @@ void cbconv(struct bsdconv_instance *ins){
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	struct data_st data;
 	struct data_rt *data_ptr;
+	struct state_rt state=read_state(THIS_CODEC(ins), 0);
+	offset_t next;
+	size_t i;
+
+	//the table lists whole characters, it must match the whole cell
+	for(i=0;i<this_phase->curr->len;++i){
+		next=get_offset(THIS_CODEC(ins), &state, UCP(this_phase->curr->data)[i]);
+		if(!next){
+			this_phase->state.status=DEADEND;
+			return;
+		}
+		state=read_state(THIS_CODEC(ins), next);
+	}
 
 	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 
-- 
2.43.0


From 5ad1be60ed7085ba2faea1762dd9f63f3ef9c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 06/77] fix: decoders kept the state of an abandoned sequence

A callback decoder is entered afresh (F_LOOPBACK unset) after the engine gave
up on a sequence; it must not go on from where the abandoned one stopped.
---
 modules/from/ANSI-CONTROL.c              |  6 ++++++
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c |  5 +++++
 modules/from/CP950-UDA.c                 |  5 +++++
 modules/from/ESCAPE.c                    |  5 +++++
 modules/from/UTF-16BE.c                  |  4 ++++
 modules/from/UTF-16LE.c                  |  5 +++++
 modules/from/UTF-32BE.c                  |  5 +++++
 modules/from/UTF-32LE.c                  |  5 +++++
 modules/from/_GB18030.c                  |  5 +++++
 modules/from/_JIS.c                      | 22 ++++++++++++++++++++++
 modules/from/_UTF-8.c                    |  7 +++++++
 11 files changed, 74 insertions(+)

diff --git a/modules/from/ANSI-CONTROL.c b/modules/from/ANSI-CONTROL.c
index 80f372a..849410b 100644
--- a/modules/from/ANSI-CONTROL.c
+++ b/modules/from/ANSI-CONTROL.c
@@ -35,6 +35,12 @@ void cbconv(struct bsdconv_instance *ins){
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	char d=CP(this_phase->curr->data)[this_phase->i];
 
+	//a new attempt: forget what an abandoned one left behind
+	if(!(this_phase->flags & F_LOOPBACK)){
+		t->p=t->buf;
+		t->f=0;
+	}
+
 	if(t->f){
 		*(t->p)=d;
 		t->p+=1;
diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index b4527b0..7e01d44 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -44,6 +44,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	char d;
 
+	//a new attempt: forget what an abandoned one left behind
+	if(!(this_phase->flags & F_LOOPBACK)){
+		t->status=0;
+	}
+
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		if(d==';' && t->status){
diff --git a/modules/from/CP950-UDA.c b/modules/from/CP950-UDA.c
index fcc4f89..9ddc94e 100644
--- a/modules/from/CP950-UDA.c
+++ b/modules/from/CP950-UDA.c
@@ -28,6 +28,11 @@ void cbconv(struct bsdconv_instance *ins){
 
 	unsigned char d = UCP(this_phase->curr->data)[this_phase->i];
 
+	//a new attempt: forget what an abandoned one left behind
+	if(!(this_phase->flags & F_LOOPBACK)){
+		r->h = 0;
+	}
+
 	if(r->h==0){
 		if(d>=0xFA && d<=0xFE){
 			r->h = d;
diff --git a/modules/from/ESCAPE.c b/modules/from/ESCAPE.c
index fa5b8d2..d53e8d0 100644
--- a/modules/from/ESCAPE.c
+++ b/modules/from/ESCAPE.c
@@ -41,6 +41,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct my_s *t=this_phase->codec[this_phase->index].priv;
 	char d;
 
+	//a new attempt: forget what an abandoned one left behind
+	if(!(this_phase->flags & F_LOOPBACK)){
+		t->status=0;
+	}
+
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		switch(t->status){
diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index 6e77e22..875b00a 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -30,6 +30,10 @@ void cbconv(struct bsdconv_instance *ins){
 	int i;
 	size_t l;
 
+	//a new attempt: forget what an abandoned one left behind
+	if(!(this_phase->flags & F_LOOPBACK)){
+		t->status=0;
+	}
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		switch(t->status){
diff --git a/modules/from/UTF-16LE.c b/modules/from/UTF-16LE.c
index 7bef7da..adebb55 100644
--- a/modules/from/UTF-16LE.c
+++ b/modules/from/UTF-16LE.c
@@ -29,6 +29,11 @@ void cbconv(struct bsdconv_instance *ins){
 	char d, buf[3]={0};
 	int i;
 	size_t l;
+
+	//a new attempt: forget what an abandoned one left behind
+	if(!(this_phase->flags & F_LOOPBACK)){
+		t->status=0;
+	}
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		switch(t->status){
diff --git a/modules/from/UTF-32BE.c b/modules/from/UTF-32BE.c
index 3c30195..54f1b7f 100644
--- a/modules/from/UTF-32BE.c
+++ b/modules/from/UTF-32BE.c
@@ -30,6 +30,11 @@ void cbconv(struct bsdconv_instance *ins){
 	int i;
 	size_t l;
 
+	//a new attempt: forget what an abandoned one left behind
+	if(!(this_phase->flags & F_LOOPBACK)){
+		t->status=0;
+	}
+
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		switch(t->status){
diff --git a/modules/from/UTF-32LE.c b/modules/from/UTF-32LE.c
index b2758ba..d089203 100644
--- a/modules/from/UTF-32LE.c
+++ b/modules/from/UTF-32LE.c
@@ -30,6 +30,11 @@ void cbconv(struct bsdconv_instance *ins){
 	int i;
 	size_t l;
 
+	//a new attempt: forget what an abandoned one left behind
+	if(!(this_phase->flags & F_LOOPBACK)){
+		t->status=0;
+	}
+
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		switch(t->status){
diff --git a/modules/from/_GB18030.c b/modules/from/_GB18030.c
index 5ad6a57..dfd581c 100644
--- a/modules/from/_GB18030.c
+++ b/modules/from/_GB18030.c
@@ -69,6 +69,11 @@ void cbconv(struct bsdconv_instance *ins){
 	int i;
 	ucs_t ucs;
 
+	//a new attempt: forget what an abandoned one left behind
+	if(!(this_phase->flags & F_LOOPBACK)){
+		t->status=0;
+	}
+
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=UCP(this_phase->curr->data)[this_phase->i];
 		memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 67ebb02..11749a0 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -44,6 +44,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r = THIS_CODEC(ins)->priv;
+	r->mode = MODE_ASCII;
+	r->state = 0;
+}
+
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r = THIS_CODEC(ins)->priv;
 	unloadcodec(&r->jis0201);
@@ -60,6 +66,22 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_codec *codec = NULL;
 	struct data_rt *data_ptr;
 
+	//a new attempt: forget what an abandoned one left behind
+	if(!(this_phase->flags & F_LOOPBACK)){
+		r->state = 0;
+		switch(r->mode){
+			case MODE_JIS0201:
+				r->cstate = read_state(&r->jis0201, 0);
+				break;
+			case MODE_JIS0208:
+				r->cstate = read_state(&r->jis0208, 0);
+				break;
+			case MODE_JIS0212:
+				r->cstate = read_state(&r->jis0212, 0);
+				break;
+		}
+	}
+
 	switch(r->state){
 		case 0:
 			switch(d){
diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 884ee9a..3c7646c 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -164,6 +164,13 @@ void cbconv(struct bsdconv_instance *ins){
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	unsigned char d;
 
+	//a new attempt: forget what an abandoned one left behind
+	if(!(this_phase->flags & F_LOOPBACK)){
+		t->status = 0;
+		t->lead_surrogate.ucs4 = 0;
+		t->ucs.ucs4 = 0;
+	}
+
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=UCP(this_phase->curr->data)[this_phase->i];
 		switch(t->status){
-- 
2.43.0


From 27e119344bbf6021911f07ecb451a817a45e2317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 07/77] fix: GB18030 lead byte D9 decoded as D0

---
 modules/from/_GB18030.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/_GB18030.txt b/modules/from/_GB18030.txt
index 41077d3..7ad0866 100644
--- a/modules/from/_GB18030.txt
+++ b/modules/from/_GB18030.txt
@@ -23628,7 +23628,7 @@ D8FB	014F67
 D8FC	016538
 D8FD	014F5A
 D8FE	014F5D
-D9*	?D0
+D9*	?D9
 D940	018CAE
 D941	018CAF
 D942	018CB0
-- 
2.43.0


From bc05e1f7388e4738263aa2fbf3c9c97df3fa0f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 08/77] fix: GB18030 four-byte decoding

Consume one byte per call, so that explicit four-byte mappings are found
when the whole sequence arrives at once, and check the byte ranges.
---
 modules/from/_GB18030.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/modules/from/_GB18030.c b/modules/from/_GB18030.c
index dfd581c..7b3cd00 100644
--- a/modules/from/_GB18030.c
+++ b/modules/from/_GB18030.c
@@ -74,7 +74,11 @@ void cbconv(struct bsdconv_instance *ins){
 		t->status=0;
 	}
 
-	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
+	/*
+	 * One byte per call: the table may still hold an explicit mapping
+	 * for the sequence, which the engine looks for with every byte.
+	 */
+	{
 		d=UCP(this_phase->curr->data)[this_phase->i];
 		memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 		c=UCP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
@@ -86,6 +90,9 @@ void cbconv(struct bsdconv_instance *ins){
 					t->status=1;
 					goto next;
 				}
+				if(d<0x81 || d>0xFE){
+					DEADEND();
+				}
 				t->ucs=d*10;
 				t->status=1;
 				break;
@@ -96,6 +103,9 @@ void cbconv(struct bsdconv_instance *ins){
 					t->status=2;
 					goto next;
 				}
+				if(d<0x30 || d>0x39){
+					DEADEND();
+				}
 				t->ucs+=d;
 				t->ucs*=126;
 				t->status=2;
@@ -107,6 +117,9 @@ void cbconv(struct bsdconv_instance *ins){
 					t->status=3;
 					goto next;
 				}
+				if(d<0x81 || d>0xFE){
+					DEADEND();
+				}
 				t->ucs+=d;
 				t->ucs*=10;
 				t->status=3;
@@ -117,6 +130,9 @@ void cbconv(struct bsdconv_instance *ins){
 					t->status=0;
 					goto next;
 				}
+				if(d<0x30 || d>0x39){
+					DEADEND();
+				}
 				t->ucs+=d;
 				t->status=0;
 				if (t->ucs < gb18030_table[0].beg || t->ucs > gb18030_table[max].end){
-- 
2.43.0


From 1e2dc10c637d9ad02d2cc2b1c02479bd1a39e294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 09/77] fix: from/BSDCONV freed its buffer twice and after
 handing it out

---
 modules/from/BSDCONV.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/modules/from/BSDCONV.c b/modules/from/BSDCONV.c
index efc8c03..3ca32e6 100644
--- a/modules/from/BSDCONV.c
+++ b/modules/from/BSDCONV.c
@@ -27,6 +27,7 @@ void cbinit(struct bsdconv_instance *ins){
 	t->data.len=0;
 	if(t->data.data)
 		free(t->data.data);
+	t->data.data=NULL;
 	t->data.next=NULL;
 	t->flag=F_CLEAR;
 }
@@ -41,8 +42,22 @@ void cbdestroy(struct bsdconv_instance *ins){
 
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
+	struct bsdconv_phase *prev_phase=PREV_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
-	LISTCPY(ins, this_phase->data_tail, &t->data);
+	struct data_rt *data_ptr;
+
+	DATA_MALLOC(ins, this_phase->data_tail->next);
+	this_phase->data_tail=this_phase->data_tail->next;
+	this_phase->data_tail->next=NULL;
+	this_phase->data_tail->data=t->data.data;
+	this_phase->data_tail->len=t->data.len;
+	this_phase->data_tail->flags=F_FREE;
+	t->data.data=NULL;
+	t->flag=F_CLEAR;
+
+	LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+	this_phase->curr=prev_phase->data_head;
+	this_phase->i=this_phase->data_head->len;
 }
 
 void cbconv(struct bsdconv_instance *ins){
@@ -51,6 +66,14 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *prev_phase=&ins->phase[ins->phase_index-1];
 	struct my_s *t=this_phase->codec[this_phase->index].priv;
 	char d=CP(this_phase->curr->data)[this_phase->i];
+
+	//a new attempt: forget what an abandoned one left behind
+	if(!(this_phase->flags & F_LOOPBACK)){
+		free(t->data.data);
+		t->data.data=NULL;
+		t->flag=F_CLEAR;
+	}
+
 	if(hex[(unsigned char)d]==-1){
 		if(this_phase->flags & F_MATCH){
 			this_phase->flags &= ~(F_PENDING | F_MATCH | F_LOOPBACK);
-- 
2.43.0


From 8bc4ea3825ac166d759cadb791fb79fa9c374aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 10/77] fix: UTF-16/UTF-32 decoders lost NUL

It became a cell without payload, which no encoder takes. Also set the flags
of the cell of a surrogate pair, which were left uninitialised.
---
 modules/from/UTF-16BE.c | 3 ++-
 modules/from/UTF-16LE.c | 2 +-
 modules/from/UTF-32BE.c | 2 +-
 modules/from/UTF-32LE.c | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index 875b00a..e655d71 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -51,7 +51,7 @@ void cbconv(struct bsdconv_instance *ins){
 					continue;
 				}else{
 					t->status=0;
-					for(i=0;i<2;++i){
+					for(i=0;i<1 /* instead of 2, to map NUL to 0100 */;++i){
 						if(t->buf[i]) break;
 					}
 					l=(2-i)+1;
@@ -91,6 +91,7 @@ void cbconv(struct bsdconv_instance *ins){
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
 					this_phase->data_tail->len=l;
+					this_phase->data_tail->flags=F_FREE;
 					this_phase->data_tail->data=malloc(l);
 					CP(this_phase->data_tail->data)[0]=0x01;
 					memcpy(CP(this_phase->data_tail->data)+1, &buf[i], l-1);
diff --git a/modules/from/UTF-16LE.c b/modules/from/UTF-16LE.c
index adebb55..b0e44f0 100644
--- a/modules/from/UTF-16LE.c
+++ b/modules/from/UTF-16LE.c
@@ -51,7 +51,7 @@ void cbconv(struct bsdconv_instance *ins){
 					continue;
 				}else{
 					t->status=0;
-					for(i=0;i<2;++i){
+					for(i=0;i<1 /* instead of 2, to map NUL to 0100 */;++i){
 						if(t->buf[i]) break;
 					}
 					l=(2-i)+1;
diff --git a/modules/from/UTF-32BE.c b/modules/from/UTF-32BE.c
index 54f1b7f..67a9036 100644
--- a/modules/from/UTF-32BE.c
+++ b/modules/from/UTF-32BE.c
@@ -56,7 +56,7 @@ void cbconv(struct bsdconv_instance *ins){
 			case 3:
 				t->buf[3]=d;
 				t->status=0;
-				for(i=0;i<4;++i){
+				for(i=0;i<3 /* instead of 4, to map NUL to 0100 */;++i){
 					if(t->buf[i]) break;
 				}
 				l=(4-i)+1;
diff --git a/modules/from/UTF-32LE.c b/modules/from/UTF-32LE.c
index d089203..c936924 100644
--- a/modules/from/UTF-32LE.c
+++ b/modules/from/UTF-32LE.c
@@ -56,7 +56,7 @@ void cbconv(struct bsdconv_instance *ins){
 			case 3:
 				t->buf[0]=d;
 				t->status=0;
-				for(i=0;i<4;++i){
+				for(i=0;i<3 /* instead of 4, to map NUL to 0100 */;++i){
 					if(t->buf[i]) break;
 				}
 				l=(4-i)+1;
-- 
2.43.0


From ee7348f98cec2cec48729541894b3cac9c5ad153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 11/77] fix: from/ESCAPE octal escapes above \377 wrapped,
 \u0000 lost

---
 modules/from/ESCAPE.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/from/ESCAPE.c b/modules/from/ESCAPE.c
index d53e8d0..cd44694 100644
--- a/modules/from/ESCAPE.c
+++ b/modules/from/ESCAPE.c
@@ -131,7 +131,7 @@ void cbconv(struct bsdconv_instance *ins){
 					i=t->buf[0];
 					i*=8;
 					i+=oct[(unsigned char)d];
-					if(i>377)
+					if(i>0377)
 						DEADEND();
 					t->buf[0]=i;
 					DATA_MALLOC(ins, this_phase->data_tail->next);
@@ -182,7 +182,7 @@ void cbconv(struct bsdconv_instance *ins){
 					i=0;
 					t->buf[1]*=16;
 					t->buf[1]+=hex[(unsigned char)d];
-					while(t->buf[i]==0)++i;
+					if(t->buf[i]==0)++i;
 					DATA_MALLOC(ins, this_phase->data_tail->next);
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
-- 
2.43.0


From f198697a6ba9798b0879774ea8790f1721510d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 12/77] fix: from/UTF-8 CESU surrogate pairs beyond plane 2
 decoded to wrong characters

---
 modules/from/_UTF-8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 3c7646c..a6f1540 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -90,7 +90,7 @@ void cbdestroy(struct bsdconv_instance *ins){
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
 				uint32_t cp = 0x10000;	\
-				cp |= ((be32toh(t->lead_surrogate.ucs4) - 0xD800) << 10) & bb11111111110000000000;	\
+				cp += ((be32toh(t->lead_surrogate.ucs4) - 0xD800) << 10) & bb11111111110000000000;	\
 				cp |= (ucs - 0xDC00) & bb1111111111;	\
 				t->ucs.ucs4 = htobe32(cp);	\
 				PASS(t->ucs);	\
-- 
2.43.0


From 4905c85621f63a63e0243df62fa909ca039c8357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 13/77] fix: from/UTF-8 accepted code points over U+10FFFF
 without SUPER

---
 modules/from/_UTF-8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index a6f1540..d0d06c0 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -63,7 +63,7 @@ void cbdestroy(struct bsdconv_instance *ins){
 #define COMMIT() do{	\
 	this_phase->state.status=NEXTPHASE;	\
 	t->status = 0;	\
-	uint32_t ucs = be32toh(t->ucs.ucs4);	\
+	uint32_t ucs = be32toh(t->ucs.ucs4);		if(ucs > 0x10FFFF && !t->super){			DEADEND();		}	\
 	if(ucs >= 0xD800 && ucs <= 0xDBFF){	\
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
-- 
2.43.0


From 29710510061b7a7e912c48a1f616aa64a197fd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 14/77] fix: numeric HTML entities without digits, of NUL, or
 out of range decoded to wrong cells

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index 7e01d44..d1652d4 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -53,9 +53,10 @@ void cbconv(struct bsdconv_instance *ins){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		if(d==';' && t->status){
 			//put data
+			if(t->status==1000) DEADEND(); //no digit at all
 			t->buf.i=htobe32(t->buf.i);
 			for(i=0;i<4;i++){
-				if(t->buf.c[i] || j)
+				if(t->buf.c[i] || j || i==3 /* to map NUL to 0100 */)
 					ob[j++]=t->buf.c[i];
 			}
 			DATA_MALLOC(ins, this_phase->data_tail->next);
@@ -71,10 +72,11 @@ void cbconv(struct bsdconv_instance *ins){
 			return;
 		}
 		if(t->status){
-			++t->status;
+			if(t->status==1000 || t->status==1) ++t->status;
 			if(t->tbl[(unsigned char)d]==-1) DEADEND();
 			t->buf.i*=t->b;
 			t->buf.i+=t->tbl[(unsigned char)d];
+			if(t->buf.i>0x10FFFF) DEADEND();
 		}else{
 			if(d=='x'){
 				t->status=1000;
-- 
2.43.0


From a53c72689d2f59a5da6d77df71388c95d0681084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 15/77] fix: from/CP950-UDA accepted bytes that are not Big5
 trail bytes

---
 modules/from/CP950-UDA.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/from/CP950-UDA.c b/modules/from/CP950-UDA.c
index 9ddc94e..95f72df 100644
--- a/modules/from/CP950-UDA.c
+++ b/modules/from/CP950-UDA.c
@@ -65,6 +65,9 @@ void cbconv(struct bsdconv_instance *ins){
 	}else{
 		uint32_t b = (r->h<<8)|d;
 		if(
+			((d>=0x40 && d<=0x7E) || (d>=0xA1 && d<=0xFE))
+			&&
+			(
 			(b>=0xFA40 && b<=0xFEFE)
 			||
 			(b>=0x8E40 && b<=0xA0FE)
@@ -72,6 +75,7 @@ void cbconv(struct bsdconv_instance *ins){
 			(b>=0x8140 && b<=0x8DFE)
 			||
 			(b>=0xC6A1 && b<=0xC8FE)
+			)
 		){
 			uint32_t u = r->x + (157 * (r->h - r->y)) + (d<0x80?d-0x40:d-0x62);
 			unsigned char *c;
-- 
2.43.0


From 65ef704288198aa211b5a2cbb6f2893c56137cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 16/77] fix: cells of more than four bytes overflowed buffers
 in UTF-32 and GB18030 encoders

---
 modules/to/UTF-32BE.c | 5 +++++
 modules/to/UTF-32LE.c | 5 +++++
 modules/to/_GB18030.c | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/modules/to/UTF-32BE.c b/modules/to/UTF-32BE.c
index 200a14d..8106465 100644
--- a/modules/to/UTF-32BE.c
+++ b/modules/to/UTF-32BE.c
@@ -13,6 +13,11 @@ void cbconv(struct bsdconv_instance *ins){
 	data+=1;
 	len=this_phase->curr->len-1;
 
+	if(len>4){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	DATA_MALLOC(ins, this_phase->data_tail->next);
 	this_phase->data_tail=this_phase->data_tail->next;
 	this_phase->data_tail->next=NULL;
diff --git a/modules/to/UTF-32LE.c b/modules/to/UTF-32LE.c
index ab058ba..ec63412 100644
--- a/modules/to/UTF-32LE.c
+++ b/modules/to/UTF-32LE.c
@@ -15,6 +15,11 @@ void cbconv(struct bsdconv_instance *ins){
 	data+=1;
 	len=this_phase->curr->len-1;
 
+	if(len>4){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	DATA_MALLOC(ins, this_phase->data_tail->next);
 	this_phase->data_tail=this_phase->data_tail->next;
 	this_phase->data_tail->next=NULL;
diff --git a/modules/to/_GB18030.c b/modules/to/_GB18030.c
index 457d69b..9c069e2 100644
--- a/modules/to/_GB18030.c
+++ b/modules/to/_GB18030.c
@@ -42,6 +42,11 @@ void cbconv(struct bsdconv_instance *ins){
 	data+=1;
 	len=this_phase->curr->len-1;
 
+	if(len>4){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	codepoint.num=0;
 	for(i=0;(len-i)>0;++i){
 		codepoint.byte[3-i]=data[len-i-1];
-- 
2.43.0


From d908a004d040af56ffa150b7c8dc873383d01792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 17/77] fix: UTF-16 and UTF-8 encoders turned values over
 U+10FFFF into other characters

---
 modules/to/UTF-16BE.c | 5 ++++-
 modules/to/UTF-16LE.c | 5 ++++-
 modules/to/_UTF-8.c   | 6 ++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/modules/to/UTF-16BE.c b/modules/to/UTF-16BE.c
index 8722088..30dfd04 100644
--- a/modules/to/UTF-16BE.c
+++ b/modules/to/UTF-16BE.c
@@ -10,7 +10,10 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	data+=1;
-	if(this_phase->curr->len > 3){
+	if(this_phase->curr->len > 4 || (this_phase->curr->len > 3 && *UCP(data) > 0x10)){
+		/* not representable */
+		this_phase->state.status=DEADEND;
+	}else if(this_phase->curr->len > 3){
 		this_phase->state.status=NEXTPHASE;
 
 		DATA_MALLOC(ins, this_phase->data_tail->next);
diff --git a/modules/to/UTF-16LE.c b/modules/to/UTF-16LE.c
index 09f3e17..91b4676 100644
--- a/modules/to/UTF-16LE.c
+++ b/modules/to/UTF-16LE.c
@@ -12,7 +12,10 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	data+=1;
-	if(this_phase->curr->len > 3){
+	if(this_phase->curr->len > 4 || (this_phase->curr->len > 3 && *UCP(data) > 0x10)){
+		/* not representable */
+		this_phase->state.status=DEADEND;
+	}else if(this_phase->curr->len > 3){
 		this_phase->state.status=NEXTPHASE;
 
 		DATA_MALLOC(ins, this_phase->data_tail->next);
diff --git a/modules/to/_UTF-8.c b/modules/to/_UTF-8.c
index d6e1494..914971e 100644
--- a/modules/to/_UTF-8.c
+++ b/modules/to/_UTF-8.c
@@ -20,7 +20,13 @@ void cbconv(struct bsdconv_instance *ins){
 	switch(len){
 		case 1:
 		case 2:
+			break;
 		case 3:
+			/* RFC 3629 */
+			if(*UCP(data) > 0x10){
+				this_phase->state.status=DEADEND;
+				return;
+			}
 			break;
 		default:
 			this_phase->state.status=DEADEND;
-- 
2.43.0


From 6d68943a828265a6af850111a2f40ec90f8e31f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 18/77] fix: use after free resolving an alias that was given
 arguments

---
 src/libbsdconv.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index ef98229..28a0cfc 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -390,6 +390,7 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	char *conversion=malloc(strlen(_conversion)+1);
 	int i, j;
 	char *c;
+	char *replaced=NULL;
 	const char *d;
 	char whitespace[256]={0};
 	whitespace['\r']=1;
@@ -433,11 +434,14 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 					}else{
 						if(strcmp(c, ins->phase[i].codec[j].desc)==0)
 							e=1;
-						free(ins->phase[i].codec[j].desc);
+						//argv points into the replaced description
+						replaced=ins->phase[i].codec[j].desc;
 						ins->phase[i].codec[j].desc=c;
 					}
 					free(conversion);
 					conversion=bsdconv_pack(ins);
+					free(replaced);
+					replaced=NULL;
 					for(i=1;i<=ins->phasen;++i){
 						for(j=0;j<=ins->phase[i].codecn;++j){
 							free(ins->phase[i].codec[j].desc);
-- 
2.43.0


From 697bed3c106b2331ec3d1de7510dbd7170e00bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 19/77] fix: input lists lost their tail when the next input
 arrived before they were consumed

---
 src/libbsdconv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 28a0cfc..01dd7fd 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -627,6 +627,8 @@ void bsdconv(struct bsdconv_instance *ins){
 		DATA_MALLOC(ins, ins->phase[0].data_tail->next);
 		ins->phase[0].data_tail=ins->phase[0].data_tail->next;
 		*(ins->phase[0].data_tail)=ins->input;
+		while(ins->phase[0].data_tail->next)
+			ins->phase[0].data_tail=ins->phase[0].data_tail->next;
 		ins->input.data=NULL;
 		ins->input.len=0;
 		ins->input.flags=0;
-- 
2.43.0


From 1ba5986aa87acd873a00c57f5d7d6738c0684cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 20/77] fix: cells after an unencodable one were dropped with
 it

---
 src/libbsdconv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 01dd7fd..63b1391 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -928,7 +928,8 @@ void bsdconv(struct bsdconv_instance *ins){
 							RESET(ins->phase_index);
 							this_codec=THIS_CODEC(ins);
 
-							this_phase->bak=this_phase->curr->next;
+							//the failed attempt may span several cells: only the first one is dropped
+							this_phase->bak=prev_phase->data_head->next->next;
 							LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 							this_phase->bak=this_phase->curr=prev_phase->data_head;
 
-- 
2.43.0


From d7f3579adc1a76491ffcce42505ed4a27ee0ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 21/77] fix: bsdconv_hash_get returned the value of another
 key, bsdconv_hash_del corrupted the list

---
 src/libbsdconv_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv_hash.c b/src/libbsdconv_hash.c
index b9d0a8d..d50371d 100644
--- a/src/libbsdconv_hash.c
+++ b/src/libbsdconv_hash.c
@@ -34,7 +34,7 @@ void *bsdconv_hash_get(struct bsdconv_instance *ins, const char *key){
 			p->ptr=ins->hash->ptr;
 			ins->hash->key=tk;
 			ins->hash->ptr=tp;
-			return p->ptr;
+			return tp;
 		}
 		p=p->next;
 	}
@@ -70,7 +70,7 @@ void bsdconv_hash_del(struct bsdconv_instance *ins, const char *key){
 			free(p);
 			return;
 		}
-		p=p->next;
 		q=&p->next;
+		p=p->next;
 	}
 }
-- 
2.43.0


From 0e51955bfd10f26e385d9ff5a7c2fc241699e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 22/77] fix: placeholder cells were counted as unencodable
 instead of the cell after them

---
 src/libbsdconv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 63b1391..83db5ad 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -929,7 +929,10 @@ void bsdconv(struct bsdconv_instance *ins){
 							this_codec=THIS_CODEC(ins);
 
 							//the failed attempt may span several cells: only the first one is dropped
-							this_phase->bak=prev_phase->data_head->next->next;
+							this_phase->bak=prev_phase->data_head->next;
+							while(this_phase->bak->len==0) //placeholders
+								this_phase->bak=this_phase->bak->next;
+							this_phase->bak=this_phase->bak->next;
 							LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 							this_phase->bak=this_phase->curr=prev_phase->data_head;
 
-- 
2.43.0


From 3082a92fb861c87a24fc1a1754dd8a36e3386980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 23/77] fix: conversion editing functions indexed out of bounds

---
 src/libbsdconv_util.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index 94e3bca..eb62805 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -142,6 +142,18 @@ int bsdconv_get_codec_index(struct bsdconv_instance *ins, int phasen, int codecn
 	}
 }
 
+static void free_unpacked(struct bsdconv_instance *ins){
+	int i,j;
+	for(i=1;i<=ins->phasen;++i){
+		for(j=0;j<=ins->phase[i].codecn;++j){
+			free(ins->phase[i].codec[j].desc);
+		}
+		free(ins->phase[i].codec);
+	}
+	free(ins->phase);
+	free(ins);
+}
+
 char * bsdconv_insert_phase(const char *conversion, const char *codec, int phase_type, int ophasen){
 	struct bsdconv_instance *ins;
 	int i,j;
@@ -153,6 +165,10 @@ char * bsdconv_insert_phase(const char *conversion, const char *codec, int phase
 	}
 
 	int phasen=bsdconv_get_phase_index(ins, ophasen);
+	if(phasen<1){
+		free_unpacked(ins);
+		return NULL;
+	}
 
 	ins->phasen+=1;
 	ins->phase=realloc(ins->phase, sizeof(struct bsdconv_phase) * (ins->phasen+1));
@@ -192,7 +208,15 @@ char * bsdconv_insert_codec(const char *conversion, const char *codec, int ophas
 	}
 
 	int phasen=bsdconv_get_phase_index(ins, ophasen);
+	if(phasen<1 || phasen>ins->phasen){
+		free_unpacked(ins);
+		return NULL;
+	}
 	int codecn=bsdconv_get_codec_index(ins, ophasen, ocodecn);
+	if(codecn<0){
+		free_unpacked(ins);
+		return NULL;
+	}
 
 	++ins->phase[phasen].codecn;
 	ins->phase[phasen].codec=realloc(ins->phase[phasen].codec, sizeof(struct bsdconv_codec)*(ins->phase[phasen].codecn+1));
@@ -228,6 +252,10 @@ char * bsdconv_replace_phase(const char *conversion, const char *codec, int phas
 	}
 
 	int phasen=bsdconv_get_phase_index(ins, ophasen);
+	if(phasen<1 || phasen>ins->phasen){
+		free_unpacked(ins);
+		return NULL;
+	}
 
 	for(j=0;j<=ins->phase[phasen].codecn;++j){
 		free(ins->phase[phasen].codec[j].desc);
@@ -263,7 +291,15 @@ char * bsdconv_replace_codec(const char *conversion, const char *codec, int opha
 	}
 
 	int phasen=bsdconv_get_phase_index(ins, ophasen);
+	if(phasen<1 || phasen>ins->phasen){
+		free_unpacked(ins);
+		return NULL;
+	}
 	int codecn=bsdconv_get_codec_index(ins, ophasen, ocodecn);
+	if(codecn<0 || codecn>ins->phase[phasen].codecn){
+		free_unpacked(ins);
+		return NULL;
+	}
 
 	free(ins->phase[phasen].codec[codecn].desc);
 	ins->phase[phasen].codec[codecn].desc=strdup(codec);
-- 
2.43.0


From e704c8f4925d0e58ee971fa5015762eef66e89fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 24/77] fix: hex arguments with an odd number of digits
 overflowed the buffer

---
 src/libbsdconv_util.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index eb62805..b74f7b7 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -26,7 +26,7 @@ int str2datum(const char *s, struct data_rt *d){
 	d->len=0;
 	if(!s)
 		return EINVAL;
-	d->data=malloc(strlen(s)/2);
+	d->data=malloc(strlen(s)/2+1);
 	d->flags=F_FREE;
 	d->next=NULL;
 	char f=0;
@@ -50,6 +50,11 @@ int str2datum(const char *s, struct data_rt *d){
 		}
 		s+=1;
 	}
+	if(f){ //half a byte
+		free(d->data);
+		d->data=NULL;
+		return EINVAL;
+	}
 	return 0;
 }
 
@@ -79,7 +84,7 @@ struct data_rt * str2data(const char *_s, int *r, struct bsdconv_instance *ins){
 		t->next=NULL;
 		t->len=0;
 		t->flags=F_FREE;
-		t->data=malloc(strlen(k)/2);
+		t->data=malloc(strlen(k)/2+1);
 		f=0;
 		while(*k){
 			if(hex[(unsigned char) *k]<0){
@@ -102,6 +107,12 @@ struct data_rt * str2data(const char *_s, int *r, struct bsdconv_instance *ins){
 			}
 			k+=1;
 		}
+		if(f){ //half a byte
+			DATA_FREE(ins, ph.next);
+			*r=EINVAL;
+			free(s);
+			return NULL;
+		}
 	}
 
 	free(s);
-- 
2.43.0


From ef824deebd3178efcf7f84cf8f965890e552bcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 25/77] fix: failed bsdconv_create crashed or leaked

A missing vital module ended in bsdconv_destroy() of an instance that was
not set up yet; descriptions and pooled data were not freed.
---
 src/libbsdconv.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 83db5ad..e441d13 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -338,6 +338,7 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 		ins->phase[i-1].type=TO;
 	}
 	ins->phase[0].type=_INPUT;
+	ins->phase[0].codecn=0;
 
 	for(i=1;i<=ins->phasen;++i){
 		if(*phase_off[i]){
@@ -367,8 +368,10 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 				ins->phase[i].codec[j].argv+=1;
 			}
 			if(ins->phase[i].codec[j].desc[0]==0){
-				for(;j>=0;--j){
-					free(ins->phase[i].codec[j].desc);
+				for(;i>=1;j=ins->phase[--i].codecn){
+					for(;j>=0;--j){
+						free(ins->phase[i].codec[j].desc);
+					}
 				}
 				for(i=1;i<=ins->phasen;++i){
 					free(ins->phase[i].codec);
@@ -422,9 +425,16 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 			for(j=0;j<=ins->phase[i].codecn;++j){
 				if(!bsdconv_module_check(ins->phase[i].type, ins->phase[i].codec[j].desc)){
 					if(bsdconv_module_vital(ins->phase[i].type, ins->phase[i].codec[j].desc)){
-						printf("error %s\n", ins->phase[i].codec[j].desc);
+						fprintf(stderr, "error %s\n", ins->phase[i].codec[j].desc);
 						free(conversion);
-						bsdconv_destroy(ins);
+						for(i=1;i<=ins->phasen;++i){
+							for(j=0;j<=ins->phase[i].codecn;++j){
+								free(ins->phase[i].codec[j].desc);
+							}
+							free(ins->phase[i].codec);
+						}
+						free(ins->phase);
+						free(ins);
 						SetLastError(EDOOFUS);
 						return NULL;
 					}
@@ -463,14 +473,17 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			if(!loadcodec(&ins->phase[i].codec[j], ins->phase[i].type)){
-				free(ins->phase[i].codec[j].desc);
 				j-=1;
 				for(;i>=1;j=ins->phase[--i].codecn){
 					for(;j>=0;--j){
-						free(ins->phase[i].codec[j].desc);
 						unloadcodec(&ins->phase[i].codec[j]);
 					}
 				}
+				for(i=1;i<=ins->phasen;++i){
+					for(j=0;j<=ins->phase[i].codecn;++j){
+						free(ins->phase[i].codec[j].desc);
+					}
+				}
 				goto bsdconv_create_error;
 			}
 		}
@@ -532,6 +545,11 @@ bsdconv_create_error:
 	free(ins->phase);
 
 	void *p;
+	while(ins->pool){
+		p=ins->pool->next;
+		free(ins->pool);
+		ins->pool=p;
+	}
 	while(ins->hash){
 		free(ins->hash->key);
 		p=ins->hash->next;
-- 
2.43.0


From 122f5d1ddb9b72489f90d93825b19322df34c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 26/77] fix: module arguments without the value they need
 crashed, rejected ones leaked

---
 modules/inter/INSERT.c     | 1 +
 modules/inter/PASS.c       | 2 +-
 modules/inter/REPLACE.c    | 6 ++++++
 modules/inter/SCORE.c      | 5 +++--
 modules/inter/STRINGS.c    | 6 ++++--
 modules/inter/TRIM-WIDTH.c | 5 ++++-
 modules/to/ESCAPE.c        | 4 ++--
 7 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/modules/inter/INSERT.c b/modules/inter/INSERT.c
index 6149aa2..04b08af 100644
--- a/modules/inter/INSERT.c
+++ b/modules/inter/INSERT.c
@@ -21,6 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}else if(strcasecmp(arg->key, "BEFORE")==0){
 			before=arg->ptr;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
diff --git a/modules/inter/PASS.c b/modules/inter/PASS.c
index 9cf376a..ebeceef 100644
--- a/modules/inter/PASS.c
+++ b/modules/inter/PASS.c
@@ -21,7 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		if(strcasecmp(arg->key, "FOR")==0){
 			filter=arg->ptr;
-		}else if(strcasecmp(arg->key, "LIMIT")==0 && sscanf(arg->ptr, "%d", &i)==1){
+		}else if(strcasecmp(arg->key, "LIMIT")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->limit=i;
 		}else{
 			free(r);
diff --git a/modules/inter/REPLACE.c b/modules/inter/REPLACE.c
index ebd0b64..76056d1 100644
--- a/modules/inter/REPLACE.c
+++ b/modules/inter/REPLACE.c
@@ -16,6 +16,8 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		DATA_FREE(ins, r->from);
 		DATA_FREE(ins, r->to);
+		r->from=NULL;
+		r->to=NULL;
 		r->from=str2data(arg->key, &e, ins);
 		if(e){
 			free(r);
@@ -35,6 +37,10 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}
 		arg=arg->next;
 	}
+	if(r->from==NULL){
+		free(r);
+		return EINVAL;
+	}
 	THIS_CODEC(ins)->priv=r;
 	return 0;
 }
diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index 34b5fc5..bde3916 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -22,11 +22,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char *scorer="CJK";
 	char *counter="SCORE";
 	while(arg){
-		if(strcasecmp(arg->key, "WITH")==0){
+		if(strcasecmp(arg->key, "WITH")==0 && arg->ptr){
 			scorer=arg->ptr;
-		}else if(strcasecmp(arg->key, "AS")==0){
+		}else if(strcasecmp(arg->key, "AS")==0 && arg->ptr){
 			counter=arg->ptr;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 14f0453..9e3d42b 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -23,9 +23,9 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char *after="010A";
 	char *before=NULL;
 	while(arg){
-		if(strcasecmp(arg->key, "FOR")==0){
+		if(strcasecmp(arg->key, "FOR")==0 && arg->ptr){
 			filter=arg->ptr;
-		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && sscanf(arg->ptr, "%d", &i)==1){
+		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->min_len=i;
 		}else if(strcasecmp(arg->key, "AFTER")==0){
 			after=arg->ptr;
@@ -49,6 +49,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		if(i){
 			if(r->after)
 				DATA_FREE(ins, r->after);
+			unload_filter(r->filter);
 			free(r);
 			return i;
 		}
@@ -61,6 +62,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				DATA_FREE(ins, r->after);
 			if(r->before)
 				DATA_FREE(ins, r->before);
+			unload_filter(r->filter);
 			free(r);
 			return i;
 		}
diff --git a/modules/inter/TRIM-WIDTH.c b/modules/inter/TRIM-WIDTH.c
index 0b7dc8b..2912397 100644
--- a/modules/inter/TRIM-WIDTH.c
+++ b/modules/inter/TRIM-WIDTH.c
@@ -29,13 +29,16 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 			r->width=i;
 			width_set=1;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
 	}
 
-	if(width_set==0)
+	if(width_set==0){
+		free(r);
 		return EINVAL;
+	}
 
 	r->ins=bsdconv_create("WIDTH");
 	r->full=bsdconv_counter(r->ins, "FULL");
diff --git a/modules/to/ESCAPE.c b/modules/to/ESCAPE.c
index ab6b147..a24bfcf 100644
--- a/modules/to/ESCAPE.c
+++ b/modules/to/ESCAPE.c
@@ -38,7 +38,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				free(r);
 				return e;
 			}
-		}else if(strcasecmp(arg->key, "MODE")==0){
+		}else if(strcasecmp(arg->key, "MODE")==0 && arg->ptr){
 			if(strcasecmp(arg->ptr, "HEX")==0 || strcasecmp(arg->ptr, "16")==0){
 				r->mode=16;
 			}else if(strcasecmp(arg->ptr, "DEC")==0 || strcasecmp(arg->ptr, "10")==0){
@@ -51,7 +51,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				free(r);
 				return EINVAL;
 			}
-		}else if(strcasecmp(arg->key, "FOR")==0){
+		}else if(strcasecmp(arg->key, "FOR")==0 && arg->ptr){
 			if(strcasecmp(arg->ptr, "UNICODE")==0 || strcasecmp(arg->ptr, "1")==0 || strcasecmp(arg->ptr, "01")==0){
 				r->filter=1;
 			}else if(strcasecmp(arg->ptr, "BYTE")==0 || strcasecmp(arg->ptr, "3")==0 || strcasecmp(arg->ptr, "03")==0){
-- 
2.43.0


From ea55ad19d93f8205a9490f0c0cde5f8bdd2d1383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 27/77] fix: failed bsdconv_create: keep the message where it
 was

---
 src/libbsdconv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index e441d13..93eebd5 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -425,7 +425,7 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 			for(j=0;j<=ins->phase[i].codecn;++j){
 				if(!bsdconv_module_check(ins->phase[i].type, ins->phase[i].codec[j].desc)){
 					if(bsdconv_module_vital(ins->phase[i].type, ins->phase[i].codec[j].desc)){
-						fprintf(stderr, "error %s\n", ins->phase[i].codec[j].desc);
+						printf("error %s\n", ins->phase[i].codec[j].desc);
 						free(conversion);
 						for(i=1;i<=ins->phasen;++i){
 							for(j=0;j<=ins->phase[i].codecn;++j){
-- 
2.43.0


From bd3383fc2a93abce75af1a90357b0a1ba42a9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 28/77] fix: NFC composition freed the pending starter twice

---
 modules/inter/_NFC.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index 8d5370d..3e8d97a 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -17,6 +17,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	r->map=bsdconv_create("_NFC-MAP,COUNT#ERR");
 	r->err=bsdconv_counter(r->map, "ERR");
 	r->starter=NULL;
+	r->status=0;
 	r->pending_tail=r->pending_head=malloc(sizeof(struct data_rt));
 	r->pending_head->flags=0;
 	r->pending_tail->next=NULL;
@@ -29,6 +30,7 @@ void cbinit(struct bsdconv_instance *ins){
 	struct data_rt *t;
 	if(r->starter){
 		DATUM_FREE(ins, r->starter);
+		r->starter=NULL;
 	}
 	while(r->pending_head->next){
 		t=r->pending_head->next->next;
@@ -173,7 +175,7 @@ void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
 	struct data_rt *t;
 	bsdconv_destroy(r->map);
-	if(r->status){
+	if(r->starter){
 		DATUM_FREE(ins, r->starter);
 	}
 	while(r->pending_head){
-- 
2.43.0


From e4e3e29b6ee885691fc9493e8b45d99592b9bf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 29/77] fix: canonical ordering kept cells across
 bsdconv_init() and leaked them

---
 modules/inter/_NF-ORDER.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/modules/inter/_NF-ORDER.c b/modules/inter/_NF-ORDER.c
index 0b0a120..885abc7 100644
--- a/modules/inter/_NF-ORDER.c
+++ b/modules/inter/_NF-ORDER.c
@@ -26,6 +26,19 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r=THIS_CODEC(ins)->priv;
+
+	while(r->head->next){
+		struct ll_s *next=r->head->next;
+		DATUM_FREE(ins, r->head->p);
+		free(r->head);
+		r->head=next;
+	}
+	r->head=r->tail;
+	r->head->prev=NULL;
+}
+
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *r=THIS_CODEC(ins)->priv;
@@ -122,6 +135,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
+	cbinit(ins);
 	free(r->head);
 	free(r);
 }
-- 
2.43.0


From a7852302a66b52060db47d481fb5acd6395f9e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 30/77] fix: Hangul decomposition dropped cells that are not
 Unicode

---
 modules/inter/_NF-HANGUL-DECOMPOSITION.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/inter/_NF-HANGUL-DECOMPOSITION.c b/modules/inter/_NF-HANGUL-DECOMPOSITION.c
index d882516..d584189 100644
--- a/modules/inter/_NF-HANGUL-DECOMPOSITION.c
+++ b/modules/inter/_NF-HANGUL-DECOMPOSITION.c
@@ -32,6 +32,10 @@ void cbconv(struct bsdconv_instance *ins){
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
 		}
+	}else{
+		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
+		this_phase->data_tail=this_phase->data_tail->next;
+		this_phase->data_tail->next=NULL;
 	}
 
 	this_phase->state.status=NEXTPHASE;
-- 
2.43.0


From f544c41e8811c45268a74706edd12ab61b5cebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 31/77] fix: AMBIGUOUS-UNPAD removed cells that are not padding

---
 modules/inter/AMBIGUOUS-UNPAD.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/modules/inter/AMBIGUOUS-UNPAD.c b/modules/inter/AMBIGUOUS-UNPAD.c
index 1114ee5..192eee5 100644
--- a/modules/inter/AMBIGUOUS-UNPAD.c
+++ b/modules/inter/AMBIGUOUS-UNPAD.c
@@ -46,7 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 	this_phase->state.status=NEXTPHASE;
 
 	if(this_phase->curr->len>1 && data[0]==0x1){
-		if(r->s==1 && data[1]==0xA0){
+		if(r->s==1 && this_phase->curr->len==2 && data[1]==0xA0){
 			r->s=0;
 			return;
 		}else{
@@ -69,16 +69,14 @@ void cbconv(struct bsdconv_instance *ins){
 						break;
 					}
 			}
-			if(pad && r->dopad){
-				r->s=1;
-			}
+			r->s=(pad && r->dopad);
 		}
-		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
-		this_phase->data_tail=this_phase->data_tail->next;
-		this_phase->data_tail->next=NULL;
 	}else{
 		r->s=0;
 	}
+	this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
+	this_phase->data_tail=this_phase->data_tail->next;
+	this_phase->data_tail->next=NULL;
 
 	return;
 }
-- 
2.43.0


From 34f79d792c2dbcfce58590bb3b18dd8d2c9e2478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 32/77] fix: BIG5-DEFRAG linked its output to the input list
 and lost a pending lead byte at the end

---
 modules/inter/BIG5-DEFRAG.c | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/modules/inter/BIG5-DEFRAG.c b/modules/inter/BIG5-DEFRAG.c
index 90c4454..0173b65 100644
--- a/modules/inter/BIG5-DEFRAG.c
+++ b/modules/inter/BIG5-DEFRAG.c
@@ -7,13 +7,22 @@ struct my_s{
 	char f;
 };
 
+static void drop(struct bsdconv_instance *ins, struct my_s *r){
+	if(r->p)
+		DATUM_FREE(ins, r->p);
+	DATA_FREE(ins, r->q);
+}
+
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
+	struct my_s *r=THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
+	r->p=NULL;
+	r->q=NULL;
 	return 0;
 }
 
 void cbinit(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
+	drop(ins, r);
 	r->p=NULL;
 	r->q=NULL;
 	r->r=&(r->q);
@@ -21,7 +30,26 @@ void cbinit(struct bsdconv_instance *ins){
 }
 
 void cbdestroy(struct bsdconv_instance *ins){
-	free(THIS_CODEC(ins)->priv);
+	struct my_s *r=THIS_CODEC(ins)->priv;
+	drop(ins, r);
+	free(r);
+}
+
+void cbflush(struct bsdconv_instance *ins){
+	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
+	struct my_s *r=THIS_CODEC(ins)->priv;
+
+	if(r->p){
+		this_phase->data_tail->next=r->p;
+		this_phase->data_tail=this_phase->data_tail->next;
+		this_phase->data_tail->next=r->q;
+		while(this_phase->data_tail->next){
+			this_phase->data_tail=this_phase->data_tail->next;
+		}
+	}
+	r->p=r->q=NULL;
+	r->r=&(r->q);
+	r->f=0;
 }
 
 void cbconv(struct bsdconv_instance *ins){
@@ -31,13 +59,13 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	if(r->f==0){
-		if(data[0]==0x3 && data[1]>0x7f){
+		if(data[0]==0x3 && this_phase->curr->len>1 && data[1]>0x7f){
 			r->f=1;
 			r->p=dup_data_rt(ins, this_phase->curr);
+			r->p->next=NULL;
 			this_phase->state.status=SUBMATCH;
 			return;
 		}else{
-			DATA_MALLOC(ins, this_phase->data_tail->next);
 			this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
@@ -60,6 +88,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 			this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
 			this_phase->data_tail=this_phase->data_tail->next;
+			this_phase->data_tail->next=NULL;
 
 			if(r->q){
 				this_phase->data_tail->next=r->q;
-- 
2.43.0


From 3ce9df0e8b007bab577ca3a3b0800364c726faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 33/77] fix: REPLACE resumed an abandoned match when flushed

---
 modules/inter/REPLACE.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/inter/REPLACE.c b/modules/inter/REPLACE.c
index 76056d1..f37df66 100644
--- a/modules/inter/REPLACE.c
+++ b/modules/inter/REPLACE.c
@@ -60,6 +60,11 @@ void cbinit(struct bsdconv_instance *ins){
 void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *r=THIS_CODEC(ins)->priv;
+
+	//a new attempt: forget what an abandoned one left behind
+	if(!(this_phase->flags & F_PENDING))
+		r->cursor=r->from;
+
 	unsigned char *datai=this_phase->curr->data;
 	unsigned char *datar=r->cursor->data;
 	size_t l=this_phase->curr->len;
-- 
2.43.0


From d8058f3879db8aca161956e5553e48007478d1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 34/77] fix: STRINGS freed a run shorter than MIN-LEN twice

---
 modules/inter/STRINGS.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 9e3d42b..55b0a05 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -121,6 +121,7 @@ void cbflush(struct bsdconv_instance *ins){
 				LISTCPY(ins, this_phase->data_tail, r->after);
 		}else{
 			DATA_FREE(ins, r->qh->next);
+			r->qh->next=NULL;
 			r->qt=r->qh;
 			r->acc_len=0;
 		}
-- 
2.43.0


From 9cfc531dfc875fb9dae675541792ee89b95e956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 35/77] fix: from/UTF-8#LOOSE&CESU lost an unpaired surrogate
 and what followed it

---
 modules/from/_UTF-8.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index d0d06c0..ff8b1ae 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -54,7 +54,8 @@ void cbdestroy(struct bsdconv_instance *ins){
 
 #define DEADEND() do{	\
 	t->status = 0;	\
-	t->lead_surrogate.ucs4 = 0;	\
+	if(!(this_phase->flags & F_MATCH))	/* else cbflush() passes it */	\
+		t->lead_surrogate.ucs4 = 0;	\
 	t->ucs.ucs4 = 0;	\
 	this_phase->state.status=DEADEND;	\
 	return;	\
@@ -63,7 +64,10 @@ void cbdestroy(struct bsdconv_instance *ins){
 #define COMMIT() do{	\
 	this_phase->state.status=NEXTPHASE;	\
 	t->status = 0;	\
-	uint32_t ucs = be32toh(t->ucs.ucs4);		if(ucs > 0x10FFFF && !t->super){			DEADEND();		}	\
+	uint32_t ucs = be32toh(t->ucs.ucs4);	\
+	if(ucs > 0x10FFFF && !t->super){	\
+		DEADEND();	\
+	}	\
 	if(ucs >= 0xD800 && ucs <= 0xDBFF){	\
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
@@ -152,11 +156,18 @@ void cbdestroy(struct bsdconv_instance *ins){
 
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
+	struct bsdconv_phase *prev_phase=PREV_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
+	struct data_rt *data_ptr;
 	if(t->lead_surrogate.ucs4 && t->loose){
 		PASS(t->lead_surrogate);
 		t->lead_surrogate.ucs4 = 0;
 	}
+
+	//what follows the surrogate is yet to be decoded
+	LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+	this_phase->curr=prev_phase->data_head;
+	this_phase->i=this_phase->data_head->len;
 }
 
 void cbconv(struct bsdconv_instance *ins){
-- 
2.43.0


From 92a5586206ab79f1aeb62a12acc52c6c456c54d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 36/77] fix: two WHITESPACE-DERAIL/RERAIL pairs in a conversion
 shared one queue

---
 modules/inter/WHITESPACE-DERAIL.c | 12 ++++--------
 modules/inter/WHITESPACE-RERAIL.c |  9 +++++----
 modules/inter/WHITESPACE.h        |  1 +
 3 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/modules/inter/WHITESPACE-DERAIL.c b/modules/inter/WHITESPACE-DERAIL.c
index e62cffa..cbc486b 100644
--- a/modules/inter/WHITESPACE-DERAIL.c
+++ b/modules/inter/WHITESPACE-DERAIL.c
@@ -3,14 +3,11 @@
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *t;
-	if(bsdconv_hash_has(ins, HASHKEY)){
-		t=bsdconv_hash_get(ins, HASHKEY);
-	}else{
-		t=malloc(sizeof(struct my_s));
-		bsdconv_hash_set(ins, HASHKEY, t);
-	}
+	t=malloc(sizeof(struct my_s));
 	t->queue=NULL;
 	t->rerail=NULL;
+	t->refs=1;
+	bsdconv_hash_set(ins, HASHKEY, t); //for the next WHITESPACE-RERAIL
 	THIS_CODEC(ins)->priv=t;
 	return 0;
 }
@@ -32,7 +29,7 @@ void cbinit(struct bsdconv_instance *ins){
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	struct data_rt *q;
-	if(bsdconv_hash_has(ins, HASHKEY)){
+	if(--t->refs==0){
 		while(t->queue){
 			DATUM_FREE(ins, (struct data_rt *)t->queue->data);
 			q=t->queue;
@@ -40,7 +37,6 @@ void cbdestroy(struct bsdconv_instance *ins){
 			DATUM_FREE(ins, q);
 		}
 		free(t);
-		bsdconv_hash_del(ins, HASHKEY);
 	}
 }
 
diff --git a/modules/inter/WHITESPACE-RERAIL.c b/modules/inter/WHITESPACE-RERAIL.c
index 2880b18..0963ca9 100644
--- a/modules/inter/WHITESPACE-RERAIL.c
+++ b/modules/inter/WHITESPACE-RERAIL.c
@@ -5,11 +5,13 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *t;
 	if(bsdconv_hash_has(ins, HASHKEY)){
 		t=bsdconv_hash_get(ins, HASHKEY);
+		bsdconv_hash_del(ins, HASHKEY);
+		t->refs+=1;
 	}else{
 		t=malloc(sizeof(struct my_s));
-		bsdconv_hash_set(ins, HASHKEY, t);
+		t->queue=NULL;
+		t->refs=1;
 	}
-	t->queue=NULL;
 	THIS_CODEC(ins)->priv=t;
 	return 0;
 }
@@ -32,7 +34,7 @@ void cbinit(struct bsdconv_instance *ins){
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	struct data_rt *q;
-	if(bsdconv_hash_has(ins, HASHKEY)){
+	if(--t->refs==0){
 		while(t->queue){
 			DATUM_FREE(ins, (struct data_rt *)t->queue->data);
 			q=t->queue;
@@ -40,7 +42,6 @@ void cbdestroy(struct bsdconv_instance *ins){
 			DATUM_FREE(ins, q);
 		}
 		free(t);
-		bsdconv_hash_del(ins, HASHKEY);
 	}
 }
 
diff --git a/modules/inter/WHITESPACE.h b/modules/inter/WHITESPACE.h
index 1e60824..7b56d6b 100644
--- a/modules/inter/WHITESPACE.h
+++ b/modules/inter/WHITESPACE.h
@@ -6,4 +6,5 @@ struct my_s{
 	struct bsdconv_phase *rerail;
 	size_t offsetA;
 	size_t offsetB;
+	int refs;
 };
-- 
2.43.0


From dba07e72cc799a6aad7cb601c7d493fb34b9e48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 37/77] fix: WHITESPACE-RERAIL lost whitespace still queued at
 the end

---
 modules/inter/WHITESPACE-RERAIL.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/inter/WHITESPACE-RERAIL.c b/modules/inter/WHITESPACE-RERAIL.c
index 0963ca9..71c255d 100644
--- a/modules/inter/WHITESPACE-RERAIL.c
+++ b/modules/inter/WHITESPACE-RERAIL.c
@@ -99,12 +99,8 @@ void cbconv(struct bsdconv_instance *ins){
 		t->queue=q;
 	}
 
-	if(t->queue){
-		this_phase->flags |= (F_MATCH | F_PENDING);
-	}else{
-		this_phase->flags &= ~(F_MATCH | F_PENDING);
-	}
-	this_phase->match_data=NULL;
+	if(t->queue)
+		this_phase->state.status=SUBMATCH; //cbflush() has to put the rest
 
 	return;
 }
-- 
2.43.0


From e8652e1a30eb430cf3547b1b5eec54c1e0d5996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 38/77] fix: BSDCONV-LOG crashed without a writable log file

---
 modules/from/BSDCONV-LOG.c | 8 ++++++--
 modules/to/BSDCONV-LOG.c   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/modules/from/BSDCONV-LOG.c b/modules/from/BSDCONV-LOG.c
index 1483bf8..2a45188 100644
--- a/modules/from/BSDCONV-LOG.c
+++ b/modules/from/BSDCONV-LOG.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "../../src/bsdconv.h"
@@ -5,8 +6,11 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=fopen(getenv("BSDCONV_FROM_LOG"),"a");
-	return 0;
+	char *path=getenv("BSDCONV_FROM_LOG");
+	if(path==NULL)
+		return EINVAL;
+	THIS_CODEC(ins)->priv=fopen(path,"a");
+	return THIS_CODEC(ins)->priv ? 0 : EINVAL;
 }
 
 void cbdestroy(struct bsdconv_instance *ins){
diff --git a/modules/to/BSDCONV-LOG.c b/modules/to/BSDCONV-LOG.c
index 533e5ec..cbda434 100644
--- a/modules/to/BSDCONV-LOG.c
+++ b/modules/to/BSDCONV-LOG.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "../../src/bsdconv.h"
@@ -5,8 +6,11 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=fopen(getenv("BSDCONV_TO_LOG"),"a");
-	return 0;
+	char *path=getenv("BSDCONV_TO_LOG");
+	if(path==NULL)
+		return EINVAL;
+	THIS_CODEC(ins)->priv=fopen(path,"a");
+	return THIS_CODEC(ins)->priv ? 0 : EINVAL;
 }
 
 void cbdestroy(struct bsdconv_instance *ins){
-- 
2.43.0


From 312aed0596ecf1047112ac5d51c3e39a73642422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 39/77] fix: SCORE and SCORE-TRAIN crashed when the score file
 is unavailable

---
 modules/inter/SCORE-TRAIN.c | 14 ++++++++++----
 modules/inter/SCORE.c       |  6 +++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/modules/inter/SCORE-TRAIN.c b/modules/inter/SCORE-TRAIN.c
index 714501e..44ed7e2 100644
--- a/modules/inter/SCORE-TRAIN.c
+++ b/modules/inter/SCORE-TRAIN.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -12,16 +13,21 @@ struct my_s{
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r=malloc(sizeof(struct my_s));
-	char buf[256]={0};
+	char buf[PATH_MAX+1]={0};
 	char *p=getenv("BSDCONV_SCORE");
 	if(p==NULL){
-		strcpy(buf,getenv("HOME"));
-		strcat(buf,"/.bsdconv.score");
+		p=getenv("HOME");
+		snprintf(buf,sizeof(buf),"%s/.bsdconv.score",p?p:"");
 		p=buf;
 	}
 	r->bak=fopen(p,"a"); //ensure file existence
-	fclose(r->bak);
+	if(r->bak)
+		fclose(r->bak);
 	r->bak=r->score=fopen(p,"rb+");
+	if(r->bak==NULL){
+		free(r);
+		return EINVAL;
+	}
 	r->list=NULL;
 	THIS_CODEC(ins)->priv=r;
 	return 0;
diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index bde3916..307bdb4 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -14,7 +14,7 @@ struct my_s{
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r=malloc(sizeof(struct my_s));
-	char buf[256]={0};
+	char buf[PATH_MAX+1]={0};
 	r->bak=NULL;
 	r->score=NULL;
 	r->scorer=NULL;
@@ -37,8 +37,8 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		char *p=getenv("BSDCONV_SCORE");
 		if(p==NULL){
 			//try default score file
-			strcpy(buf,getenv("HOME"));
-			strcat(buf,"/.bsdconv.score");
+			p=getenv("HOME");
+			snprintf(buf,sizeof(buf),"%s/.bsdconv.score",p?p:"");
 			p=buf;
 		}
 		r->bak=r->score=fopen(p,"rb+");
-- 
2.43.0


From 9147c54acde490d2ea5d926f98d59f3a36c03657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 40/77] fix: long cells overflowed the buffer of
 to/ASCII-HTML-UNICODE-IMG

---
 modules/to/ASCII-HTML-UNICODE-IMG.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modules/to/ASCII-HTML-UNICODE-IMG.c b/modules/to/ASCII-HTML-UNICODE-IMG.c
index 66751d8..d3b493b 100644
--- a/modules/to/ASCII-HTML-UNICODE-IMG.c
+++ b/modules/to/ASCII-HTML-UNICODE-IMG.c
@@ -6,16 +6,16 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 void cbconv(struct bsdconv_instance *ins){
-	char *data, *p, buf[128]={0};
+	char *data, *p, *buf;
 	unsigned int len, i;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
-	if(*data!=0x01){
+	if(this_phase->curr->len==0 || *data!=0x01){
 		this_phase->state.status=DEADEND;
 		return;
 	}
 	this_phase->state.status=NEXTPHASE;
-	p=buf;
+	p=buf=malloc(128+this_phase->curr->len*2);
 	i=*data;
 	data+=1;
 	len=this_phase->curr->len-1;
@@ -38,8 +38,7 @@ void cbconv(struct bsdconv_instance *ins){
 	len=p-buf;
 	this_phase->data_tail->len=len;
 	this_phase->data_tail->flags=F_FREE;
-	this_phase->data_tail->data=malloc(len);
-	memcpy(this_phase->data_tail->data, buf, len);
+	this_phase->data_tail->data=buf;
 
 	return;
 }
-- 
2.43.0


From 1a88703a87d062bbb62bdf8a0036b5b7a144f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 41/77] fix: unknown module types changed the working directory
 or crashed

---
 src/libbsdconv_module.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 2cc822b..2675342 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -126,7 +126,7 @@ int bsdconv_module_check(int type, const char *_codec){
 			break;
 	}
 
-	fp=fopen(codec, "rb");
+	fp=codec ? fopen(codec, "rb") : NULL;
 	if(fp!=NULL){
 		fclose(fp);
 		ret=1;
@@ -184,6 +184,8 @@ char ** bsdconv_modules_list(int phase_type){
 			type="scorer";
 			break;
 		default:
+			chdir(cwd);
+			free(cwd);
 			return list;
 	}
 	dir=opendir(type);
-- 
2.43.0


From 29d74a32c815937172fcb76d2ccc9d17a8b30947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 42/77] fix: table compiler dropped the continuations of an
 overridden entry

---
 src/bsdconv-mktable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 8de4414..7fe5703 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -408,6 +408,9 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 							state_t->level=todo_item->state->base[c]->level;
 							DPRINTF("%p SUBROUTINE -> MATCH: %p\n", todo_item->state->base[c], state_t);
 							todo_item->state->base[c]=state_t;
+						}else if(todo_item->state->base[c]->status==SUBMATCH || todo_item->state->base[c]->status==SUBMATCH_SUBROUTINE){
+							DPRINTF("%p %d -> SUBMATCH for %s\n", todo_item->state->base[c], todo_item->state->base[c]->status, ot);
+							todo_item->state->base[c]->status=SUBMATCH; //keep its continuations
 						}else{
 							DPRINTF("%p %d -> MATCH for %s\n", todo_item->state->base[c], todo_item->state->base[c]->status, ot);
 							todo_item->state->base[c]->status=MATCH;
-- 
2.43.0


From 88b36c26c77af1ab9ae8f1f45aeabc8b7cece465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 43/77] fix: a match with empty output left its input
 unconsumed

---
 src/libbsdconv.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 93eebd5..9be0505 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -680,13 +680,13 @@ void bsdconv(struct bsdconv_instance *ins){
 								from_deadend:
 								this_phase->flags &= ~(F_PENDING | F_LOOPBACK);
 								if(this_phase->flags & F_MATCH){
-									if(this_phase->match_data){
+									if(this_phase->match_data || !this_codec->cbflush){
 										LISTCPY_ST(ins, this_phase->data_tail, this_phase->match_data, this_codec->data_z);
 
 										LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 										this_phase->curr=prev_phase->data_head;
 										this_phase->i=this_phase->data_head->len;
-									}else if(this_codec->cbflush){
+									}else{
 										this_codec->cbflush(ins);
 									}
 									this_phase->flags &= ~F_MATCH;
@@ -797,12 +797,12 @@ void bsdconv(struct bsdconv_instance *ins){
 						inter_deadend:
 						this_phase->flags &= ~(F_PENDING | F_LOOPBACK);
 						if(this_phase->flags & F_MATCH){
-							if(this_phase->match_data){
+							if(this_phase->match_data || !this_codec->cbflush){
 								LISTCPY_ST(ins, this_phase->data_tail, this_phase->match_data, this_codec->data_z);
 
 								LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 								this_phase->curr=prev_phase->data_head;
-							}else if(this_codec->cbflush){
+							}else{
 								this_codec->cbflush(ins);
 							}
 
@@ -919,12 +919,12 @@ void bsdconv(struct bsdconv_instance *ins){
 						to_deadend:
 						this_phase->flags &= ~(F_PENDING | F_LOOPBACK);
 						if(this_phase->flags & F_MATCH){
-							if(this_phase->match_data){
+							if(this_phase->match_data || !this_codec->cbflush){
 								LISTCPY_ST(ins, this_phase->data_tail, this_phase->match_data, this_codec->data_z);
 
 								LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 								this_phase->curr=prev_phase->data_head;
-							}else if(this_codec->cbflush){
+							}else{
 								this_codec->cbflush(ins);
 							}
 
-- 
2.43.0


From 7c604c6ddb3d7854378301094be8b00c677cca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 44/77] fix: bsdconv -i lost the file when interrupted or when
 the output could not be written, reports added up files

---
 src/bsdconv.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index 74794eb..e51f90c 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -41,9 +41,10 @@ void list_modules(){
 	exit(0);
 }
 
-void bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char *filename){
+int bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char *filename){
 	char *ib;
 	bsdconv_init(ins);
+	bsdconv_counter_reset(ins, NULL);
 	do{
 		ib=bsdconv_malloc(IBUFLEN);
 		ins->input.data=ib;
@@ -70,6 +71,7 @@ void bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char
 		}
 		c=c->next;
 	}
+	return ferror(in) || fflush(out) || ferror(out);
 }
 
 int main(int argc, char *argv[]){
@@ -79,7 +81,7 @@ int main(int argc, char *argv[]){
 	struct bsdconv_instance *ins;
 	FILE *inf=NULL, *otf=stdout;
 	int inplace=0;
-	int i;
+	int i, err=0;
 
 	if(argc<2){
 		fprintf(stderr, "Usage:\n\t %s conversion|-l [-i] [file] [...]\n\t\t-i:\tsave in-place\n\t\t-l:\tlist codecs\n", argv[0]);
@@ -117,7 +119,7 @@ int main(int argc, char *argv[]){
 	}
 
 	if(i>=argc){
-		bsdconv_file(ins, stdin, stdout, NULL);
+		err=bsdconv_file(ins, stdin, stdout, NULL);
 	}else for(;i<argc;++i){
 		if(inplace){
 			inf=fopen(argv[i],"rb");
@@ -138,6 +140,7 @@ int main(int argc, char *argv[]){
 			otf=fdopen(fd, "wb");
 			if(!otf){
 				fprintf(stderr, "Unable to open output file for %s\n", argv[i]);
+				unlink(tmp);
 				bsdconv_destroy(ins);
 				exit(1);
 			}
@@ -147,11 +150,21 @@ int main(int argc, char *argv[]){
 			fchown(fileno(otf), stat.st_uid, stat.st_gid);
 			fchmod(fileno(otf), stat.st_mode);
 #endif
-			bsdconv_file(ins, inf, otf, argv[i]);
+			//the original stays until its replacement is complete
+			err=bsdconv_file(ins, inf, otf, argv[i]);
 			fclose(inf);
-			fclose(otf);
-			unlink(argv[i]);
-			rename(tmp,argv[i]);
+			err|=fclose(otf);
+#ifdef WIN32
+			if(!err)
+				unlink(argv[i]);
+#endif
+			if(err || rename(tmp,argv[i])){
+				fprintf(stderr, "Failed converting file %s.\n", argv[i]);
+				unlink(tmp);
+				free(tmp);
+				bsdconv_destroy(ins);
+				exit(1);
+			}
 			free(tmp);
 
 		}else{
@@ -161,11 +174,11 @@ int main(int argc, char *argv[]){
 				bsdconv_destroy(ins);
 				exit(1);
 			}
-			bsdconv_file(ins, inf, stdout, argv[i]);
+			err|=bsdconv_file(ins, inf, stdout, argv[i]);
 			fclose(inf);
 		}
 	}
 	bsdconv_destroy(ins);
 
-	return 0;
+	return err ? 1 : 0;
 }
-- 
2.43.0


From 6ca0997f2160aff9c08ea0645700510f9753f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 45/77] fix: GB18030 lost U+9FAD-U+A402, U+A8EF-U+B7B2 on
 decoding and 19777 four-byte characters on encoding

---
 modules/from/_GB18030.txt | 4 ++++
 modules/to/_GB18030.txt   | 1 +
 2 files changed, 5 insertions(+)

diff --git a/modules/from/_GB18030.txt b/modules/from/_GB18030.txt
index 7ad0866..547f243 100644
--- a/modules/from/_GB18030.txt
+++ b/modules/from/_GB18030.txt
@@ -6266,6 +6266,7 @@
 8234FE37	014D6D
 8234FE38	014D6E
 8234FE39	014D6F
+8235*		?8235
 82358130	014D70
 82358131	014D71
 82358132	014D72
@@ -6411,6 +6412,9 @@
 82358F31	014DFE
 82358F32	014DFF
 8236*		?8236
+8237*		?8237
+8238*		?8238
+8239*		?8239
 8240	014FA4
 8241	014FAB
 8242	014FAD
diff --git a/modules/to/_GB18030.txt b/modules/to/_GB18030.txt
index 7d7001b..3f8c556 100644
--- a/modules/to/_GB18030.txt
+++ b/modules/to/_GB18030.txt
@@ -1,4 +1,5 @@
 01*	?
+01**	?
 010100	81308B38
 010101	A8A1
 010102	81308B39
-- 
2.43.0


From 7d96e6cfbfcbb742e78d1b7573601477e0d55c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 46/77] fix: cells longer than any table entry could match a
 shorter one after a callback

---
 src/libbsdconv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 9be0505..00410d7 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -615,7 +615,8 @@ void bsdconv_destroy(struct bsdconv_instance *ins){
 
 /*
  * Advance in a table while walking a cell. Once a callback state was passed, a
- * mismatch falls back to that callback, not to a plain state reached later.
+ * mismatch falls back to that callback, not to a plain state reached later, and
+ * the rest of the cell belongs to it.
  */
 #define STEP_CELL(PHASE, CODEC, NEXT) do{	\
 	if(NEXT){	\
@@ -626,6 +627,8 @@ void bsdconv_destroy(struct bsdconv_instance *ins){
 		if(!((PHASE)->flags & F_LOOPBACK))	\
 			(PHASE)->offset=0;	\
 		(PHASE)->state=read_state((CODEC), (PHASE)->offset);	\
+		if((PHASE)->flags & F_LOOPBACK)	\
+			(PHASE)->state.beg=(PHASE)->state.end=0;	\
 	}	\
 }while(0)
 
-- 
2.43.0


From 69a55b7a5ce27743bfb295564bc6fa230225fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:35 +0000
Subject: [PATCH 47/77] fix: table compiler crashed on blank lines

---
 src/bsdconv-mktable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 7fe5703..b192157 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -237,7 +237,7 @@ int main(int argc, char *argv[]){
 	holder.base[0]=state_r;
 
 	while(fgets((char *)inbuf, 1024, fp)){
-		if(inbuf[0]=='#') continue;
+		if(inbuf[0]=='#' || inbuf[strspn(inbuf, "\t\r\n ")]=='\0') continue;
 		tmp=inbuf;
 		f=of=strsep((char **)&tmp, "\t ");
 		while(strchr("\t ",*tmp)){
-- 
2.43.0


From af2800016870d753eeeedb952adc392d48aa47d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 48/77] fix: table compiler mixed up callback entries that
 share their data

---
 src/bsdconv-mktable.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index b192157..a17860e 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -125,7 +125,7 @@ uintptr_t hash(int *p, uintptr_t l){
 }
 struct hash *callback_hash;
 
-uintptr_t hash_callback(int *p, uintptr_t l){
+uintptr_t hash_callback(int *p, uintptr_t l, int level){
 	int i;
 	struct hash *hash_q=callback_hash;
 	for(i=l-1;i>=0;--i){
@@ -142,7 +142,8 @@ uintptr_t hash_callback(int *p, uintptr_t l){
 		}
 		hash_q=hash_q->sub[p[i]];
 	}
-	if(hash_q->v==0){
+	//shared by entries with the same data, but only if they have the same level too
+	if(hash_q->v==0 || ((struct m_state_st *)hash_q->v)->level!=level){
 		state_t->n=state_new(SUBROUTINE);
 		state_t=state_t->n;
 		hash_q->v=(uintptr_t) state_t;
@@ -400,7 +401,10 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 							todo_item->state->base[c]->status=SUBMATCH;
 							DPRINTF("%p CONTINUE -> SUBMATCH\n", todo_item->state->base[c]);
 						}
-					}else if(!callback){
+					}else if(callback){
+						if(todo_item->state->base[c]->status==SUBROUTINE)
+							todo_item->state->base[c]=(struct m_state_st *) hash_callback(dat, l, level+todo_item->level);
+					}else{
 						if(todo_item->state->base[c]->status==SUBROUTINE){
 							state_t->n=state_new(MATCH);
 							state_t=state_t->n;
@@ -417,7 +421,7 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 						}
 					}
 				}else if(callback){
-					todo_item->state->base[c]=(struct m_state_st *) hash_callback(dat, l);
+					todo_item->state->base[c]=(struct m_state_st *) hash_callback(dat, l, level+todo_item->level);
 				}else{
 					todo_item->state->base[c]=state_t->n=state_new(MATCH);
 					state_t=state_t->n;
-- 
2.43.0


From 6c240c53cc620f702c97a356a06f32de15547f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 49/77] fix: INTER phases outside a pipe were packed as if they
 were piped

---
 src/libbsdconv.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 00410d7..da0ba61 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -233,6 +233,7 @@ char *bsdconv_pack(struct bsdconv_instance *ins){
 	const char *end;
 	int len=0;
 	int i, j, n;
+	int piped=0; //between the first and the last phase of a pipe
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			len+=strlen(ins->phase[i].codec[j].desc);
@@ -253,17 +254,21 @@ char *bsdconv_pack(struct bsdconv_instance *ins){
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			if(j==0){
-				if(i>1){
-					switch(ins->phase[i].type){
-						case FROM:
-							strcat(ret, "|");
-							break;
-						case INTER:
-						case TO:
-							strcat(ret, ":");
+				switch(ins->phase[i].type){
+					case FROM:
+						end="|";
+						piped=1;
+						break;
+					case INTER:
+						end=piped?":":"|";
+						break;
+					default:
+						end=":";
+						piped=0;
 						break;
-					}
 				}
+				if(i>1)
+					strcat(ret, end);
 			}else{
 				strcat(ret, ",");
 			}
-- 
2.43.0


From 6b36321455d412114065fc8932f79506c98a7abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 50/77] fix: aliases were found inside longer names

---
 src/libbsdconv_module.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 2675342..ec13b6f 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -33,6 +33,8 @@ char * bsdconv_solve_alias(int type, const char *_codec){
 	char *codec;
 	struct bsdconv_instance *ins;
 	bsdconv_counter_t *ct;
+	size_t head;
+	int early;
 	switch(type){
 		case FROM:
 			ins=bsdconv_create("ASCII:ALIAS-FROM,COUNT#ERR:ASCII");
@@ -54,19 +56,29 @@ char * bsdconv_solve_alias(int type, const char *_codec){
 	}
 	codec=strdup(_codec);
 	strtoupper(codec);
+	head=*codec?strlen(codec)-1:0;
 	bsdconv_init(ins);
+	//an alias is a whole name: nothing may come out before its last letter
+	ins->output_mode=BSDCONV_HOLD;
+	ins->input.data=codec;
+	ins->input.len=head;
+	ins->input.flags=0;
+	ins->input.next=NULL;
+	bsdconv(ins);
+	early=ins->phase[ins->phasen].data_head->next!=NULL;
 	ins->output_mode=BSDCONV_AUTOMALLOC;
 	ins->output.len=1;
-	ins->input.data=codec;
-	ins->input.len=strlen(codec);
-	ins->input.flags=F_FREE;
+	ins->input.data=codec+head;
+	ins->input.len=strlen(codec+head);
+	ins->input.flags=0;
 	ins->input.next=NULL;
 	ins->flush=1;
 	bsdconv(ins);
+	free(codec);
 	ret=ins->output.data;
 	ret[ins->output.len]=0;
 	ct=bsdconv_counter(ins, "ERR");
-	if(*ct>0){
+	if(early || *ct>0 || *ins->ierr>0){
 		free(ret);
 		ret=NULL;
 	}
-- 
2.43.0


From 57e152a035fd571b61d9bed284a9e5a400b765df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 51/77] fix: negative indices beyond the start were taken as
 the first phase or codec

---
 src/libbsdconv_util.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index b74f7b7..ad63a69 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -130,6 +130,9 @@ int bsdconv_get_phase_index(struct bsdconv_instance *ins, int phasen){
 	if(phasen /* logical */ >= ins->phasen /* len */){
 		/* real  = logical + 1 */
 		return ins->phasen + 1;
+	}else if(phasen < -ins->phasen){
+		/* no such phase */
+		return 0;
 	}else{
 		/* real  = (n + len) % (len) + 1*/
 		return (phasen + ins->phasen) % (ins->phasen) + 1;
@@ -142,11 +145,16 @@ int bsdconv_get_codec_index(struct bsdconv_instance *ins, int phasen, int codecn
 	 * real phases range is [0,len)=[0,codecn]
 	 */
 	phasen=bsdconv_get_phase_index(ins, phasen);
+	if(phasen<1 || phasen>ins->phasen)
+		return -1;
 
 	/* logical new index = len */
 	if(codecn /* logical */ >= ins->phase[phasen].codecn+1 /* len */ ){
 		/* real  = logical */
 		return ins->phase[phasen].codecn+1;
+	}else if(codecn < -(ins->phase[phasen].codecn+1)){
+		/* no such codec */
+		return -1;
 	}else{
 		/* real  = (n + len) % (len) */
 		return (codecn + ins->phase[phasen].codecn+1) % (ins->phase[phasen].codecn+1);
-- 
2.43.0


From 418a711a3f473c19586ceeee737cb3a575c510f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 52/77] fix: crash when a codec's code or inner converter could
 not be loaded

---
 modules/inter/ALIAS-FROM.c  | 3 +++
 modules/inter/ALIAS-INTER.c | 3 +++
 modules/inter/TRIM-WIDTH.c  | 4 ++++
 modules/inter/_NFC.c        | 5 +++++
 src/libbsdconv.c            | 7 +++++++
 5 files changed, 22 insertions(+)

diff --git a/modules/inter/ALIAS-FROM.c b/modules/inter/ALIAS-FROM.c
index e9c9844..b24fece 100644
--- a/modules/inter/ALIAS-FROM.c
+++ b/modules/inter/ALIAS-FROM.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
@@ -5,6 +6,8 @@
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS");
+	if(THIS_CODEC(ins)->priv==NULL)
+		return EOPNOTSUPP;
 	return 0;
 }
 
diff --git a/modules/inter/ALIAS-INTER.c b/modules/inter/ALIAS-INTER.c
index 895e8be..cb4e690 100644
--- a/modules/inter/ALIAS-INTER.c
+++ b/modules/inter/ALIAS-INTER.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
@@ -5,6 +6,8 @@
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS");
+	if(THIS_CODEC(ins)->priv==NULL)
+		return EOPNOTSUPP;
 	return 0;
 }
 
diff --git a/modules/inter/TRIM-WIDTH.c b/modules/inter/TRIM-WIDTH.c
index 2912397..4d334be 100644
--- a/modules/inter/TRIM-WIDTH.c
+++ b/modules/inter/TRIM-WIDTH.c
@@ -41,6 +41,10 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	}
 
 	r->ins=bsdconv_create("WIDTH");
+	if(r->ins==NULL){
+		free(r);
+		return EOPNOTSUPP;
+	}
 	r->full=bsdconv_counter(r->ins, "FULL");
 	r->half=bsdconv_counter(r->ins, "HALF");
 	r->ambi=bsdconv_counter(r->ins, "AMBI");
diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index 3e8d97a..39383af 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include "../../src/bsdconv.h"
 
 #include "_NF-CCC.h"
@@ -15,6 +16,10 @@ struct my_s {
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r=THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
 	r->map=bsdconv_create("_NFC-MAP,COUNT#ERR");
+	if(r->map==NULL){
+		free(r);
+		return EOPNOTSUPP;
+	}
 	r->err=bsdconv_counter(r->map, "ERR");
 	r->starter=NULL;
 	r->status=0;
diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index da0ba61..1674c5f 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -73,6 +73,8 @@ static inline int _cbcreate(struct bsdconv_instance *ins, int p, int c){
 	return r;
 }
 
+void unloadcodec(struct bsdconv_codec *cd);
+
 int _loadcodec(struct bsdconv_codec *cd, char *path){
 #ifdef WIN32
 	if ((cd->fd=CreateFile(path, GENERIC_READ, FILE_SHARE_READ, NULL, OPEN_EXISTING, FILE_ATTRIBUTE_NORMAL, NULL))==INVALID_HANDLE_VALUE){
@@ -123,6 +125,11 @@ int _loadcodec(struct bsdconv_codec *cd, char *path){
 		cd->cbinit=SHAREOBJECT_SYMBOL(cd->dl,"cbinit");
 		cd->cbctl=SHAREOBJECT_SYMBOL(cd->dl,"cbctl");
 		cd->cbdestroy=SHAREOBJECT_SYMBOL(cd->dl,"cbdestroy");
+	}else if(access(path, F_OK)==0){
+		//the table relies on code that is there but can't be loaded
+		unloadcodec(cd);
+		SetLastError(EOPNOTSUPP);
+		return 0;
 	}
 
 	return 1;
-- 
2.43.0


From fc1bce5747e54a91381386fa675d54cce0cb858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:25 +0000
Subject: [PATCH 53/77] fix: from codecs that swallow bytes left the lookup
 state looped back

---
 src/libbsdconv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 1674c5f..eb93018 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -778,6 +778,8 @@ void bsdconv(struct bsdconv_instance *ins){
 								this_phase->flags |= F_PENDING;
 								break;
 							case NOOP:
+								//a new attempt begins
+								this_phase->flags &= ~F_LOOPBACK;
 								goto phase_begin;
 						}
 						this_phase->i+=1;
-- 
2.43.0


From 1216b5f46ebf8d53096dd2db38494a1d91f46321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:25 +0000
Subject: [PATCH 54/77] fix: longest match of a from codec's own table left the
 state looped back

---
 src/libbsdconv.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index eb93018..3c250ea 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -754,6 +754,9 @@ void bsdconv(struct bsdconv_instance *ins){
 
 								this_phase->bak=this_phase->curr;
 								this_phase->data_head->len=this_phase->i+1;
+
+								//what follows is the table's matter again, not the callback's
+								if(this_phase->match_data) this_phase->flags &= ~F_LOOPBACK;
 								break;
 							case SUBROUTINE:
 							case SUBMATCH_SUBROUTINE:
-- 
2.43.0


From 89e77709412f140fc0dfcb1c3f22c0e40d65192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:25 +0000
Subject: [PATCH 55/77] fix: escape sequence of JIS X 0212 in ISO-2022-JP-1 is
 ESC $ ( D

---
 modules/from/_JIS.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 11749a0..a5d1f84 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -134,6 +134,10 @@ void cbconv(struct bsdconv_instance *ins){
 				break;
 			case 0x1B24:
 				switch(d){
+					case 0x28:
+						r->state = 0x1B2428;
+						this_phase->state.status = CONTINUE;
+						return;
 					case 0x40:
 						r->state = 0;
 						r->mode = MODE_JIS0208; //1978
@@ -153,10 +157,6 @@ void cbconv(struct bsdconv_instance *ins){
 				break;
 			case 0x1B28:
 				switch(d){
-					case 0x24:
-						r->state = 0x1B2824;
-						this_phase->state.status = CONTINUE;
-						return;
 					case 0x42:
 						r->state = 0;
 						r->mode = MODE_ASCII;
@@ -179,7 +179,7 @@ void cbconv(struct bsdconv_instance *ins){
 						return;
 				}
 				break;
-			case 0x1B2824:
+			case 0x1B2428:
 				switch(d){
 					case 0x44:
 						r->state = 0;
-- 
2.43.0


From 99ba52b2b0c3c47a45155734f435f2beb39304b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:25 +0000
Subject: [PATCH 56/77] fix: 7 bit katakana of ISO-2022-JP read as JIS X 0201
 roman

---
 modules/from/_JIS.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index a5d1f84..7edccb8 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -7,6 +7,7 @@
 enum {
 	MODE_ASCII,
 	MODE_JIS0201,
+	MODE_JIS0201_KATAKANA, //7 bit
 	MODE_JIS0208,
 	MODE_JIS0212,
 };
@@ -71,6 +72,7 @@ void cbconv(struct bsdconv_instance *ins){
 		r->state = 0;
 		switch(r->mode){
 			case MODE_JIS0201:
+			case MODE_JIS0201_KATAKANA:
 				r->cstate = read_state(&r->jis0201, 0);
 				break;
 			case MODE_JIS0208:
@@ -97,6 +99,10 @@ void cbconv(struct bsdconv_instance *ins){
 						case MODE_JIS0201:
 							codec = &r->jis0201;
 							break;
+						case MODE_JIS0201_KATAKANA:
+							codec = &r->jis0201;
+							d |= 0x80;
+							break;
 						case MODE_JIS0208:
 							codec = &r->jis0208;
 							break;
@@ -164,7 +170,7 @@ void cbconv(struct bsdconv_instance *ins){
 						return;
 					case 0x49:
 						r->state = 0;
-						r->mode = MODE_JIS0201;
+						r->mode = MODE_JIS0201_KATAKANA;
 						r->cstate = read_state(&r->jis0201, 0);
 						this_phase->state.status = NEXTPHASE;
 						return;
-- 
2.43.0


From f1abe12a6342500b489a0f2bbe317b792e1fb5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 57/77] fix: escape byte within a two byte character of
 ISO-2022-JP swallowed what preceded it

---
 modules/from/_JIS.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 7edccb8..a87a9e4 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -88,6 +88,11 @@ void cbconv(struct bsdconv_instance *ins){
 		case 0:
 			switch(d){
 				case 0x1B:
+					//no escape sequence starts within a character
+					if(this_phase->flags & F_LOOPBACK){
+						this_phase->state.status = DEADEND;
+						return;
+					}
 					r->state = 0x1B;
 					this_phase->state.status = CONTINUE;
 					return;
-- 
2.43.0


From 8aa82666f978654c7c5b88be0110f0be1456b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 58/77] fix: there exists is the entity &exist;, not &exists;

---
 modules/from/ASCII-NAMED-HTML-ENTITY.txt | 1 +
 modules/to/ASCII-NAMED-HTML-ENTITY.txt   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/from/ASCII-NAMED-HTML-ENTITY.txt b/modules/from/ASCII-NAMED-HTML-ENTITY.txt
index cfc6f1c..a7bd678 100644
--- a/modules/from/ASCII-NAMED-HTML-ENTITY.txt
+++ b/modules/from/ASCII-NAMED-HTML-ENTITY.txt
@@ -195,6 +195,7 @@
 !26666F72616C6C3B	012200
 !26706172743B	012202
 !266578697374733B	012203
+!2665786973743B	012203
 !26656D7074793B	012205
 !266E61626C613B	012207
 !266973696E3B	012208
diff --git a/modules/to/ASCII-NAMED-HTML-ENTITY.txt b/modules/to/ASCII-NAMED-HTML-ENTITY.txt
index 2207ec3..cf22fd9 100644
--- a/modules/to/ASCII-NAMED-HTML-ENTITY.txt
+++ b/modules/to/ASCII-NAMED-HTML-ENTITY.txt
@@ -194,7 +194,7 @@
 0121B5	2663726172723B
 012200	26666F72616C6C3B
 012202	26706172743B
-012203	266578697374733B
+012203	2665786973743B
 012205	26656D7074793B
 012207	266E61626C613B
 012208	266973696E3B
-- 
2.43.0


From 654db1e911685a2d42295ae890853679f1bdcb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 59/77] fix: named entities of HTML 4 missing from the tables,
 e.g. &lArr; read as &larr;

---
 modules/from/ASCII-NAMED-HTML-ENTITY.txt | 12 ++++++++++++
 modules/to/ASCII-NAMED-HTML-ENTITY.txt   | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/modules/from/ASCII-NAMED-HTML-ENTITY.txt b/modules/from/ASCII-NAMED-HTML-ENTITY.txt
index a7bd678..d2ba990 100644
--- a/modules/from/ASCII-NAMED-HTML-ENTITY.txt
+++ b/modules/from/ASCII-NAMED-HTML-ENTITY.txt
@@ -240,3 +240,15 @@
 !26636C7562733B	012663
 !266865617274733B	012665
 !266469616D733B	012666
+!26667261736C3B	012044
+!26696D6167653B	012111
+!267765696572703B	012118
+!267265616C3B	01211C
+!26616C656673796D3B	012135
+!266C4172723B	0121D0
+!26754172723B	0121D1
+!26724172723B	0121D2
+!26644172723B	0121D3
+!26684172723B	0121D4
+!266C616E673B	012329
+!2672616E673B	01232A
diff --git a/modules/to/ASCII-NAMED-HTML-ENTITY.txt b/modules/to/ASCII-NAMED-HTML-ENTITY.txt
index cf22fd9..d96425a 100644
--- a/modules/to/ASCII-NAMED-HTML-ENTITY.txt
+++ b/modules/to/ASCII-NAMED-HTML-ENTITY.txt
@@ -239,3 +239,15 @@
 012663	26636C7562733B
 012665	266865617274733B
 012666	266469616D733B
+012044	26667261736C3B
+012111	26696D6167653B
+012118	267765696572703B
+01211C	267265616C3B
+012135	26616C656673796D3B
+0121D0	266C4172723B
+0121D1	26754172723B
+0121D2	26724172723B
+0121D3	26644172723B
+0121D4	26684172723B
+012329	266C616E673B
+01232A	2672616E673B
-- 
2.43.0


From 49dc31350d36b905679baa5486fa7bf1874f31e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 60/77] fix: filter PRINT let the control character U+001F
 through

---
 modules/filter/PRINT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/filter/PRINT.c b/modules/filter/PRINT.c
index ccdb054..ff87606 100644
--- a/modules/filter/PRINT.c
+++ b/modules/filter/PRINT.c
@@ -1,7 +1,7 @@
 #include "../../src/bsdconv.h"
 
 static const struct uint32_range ranges[] = {
-	{ 0x1F, 0x7E },
+	{ 0x20, 0x7E },
 };
 
 #include "unicode_range.c"
-- 
2.43.0


From 59cd0e6407c9184bc50595e06dd0c322e5a2ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:16 +0000
Subject: [PATCH 61/77] fix: bsdconv_ctl() left the phases at the codecs it
 spoke to

---
 src/libbsdconv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 3c250ea..f5ad6cd 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -222,8 +222,9 @@ void bsdconv_init(struct bsdconv_instance *ins){
 }
 
 void bsdconv_ctl(struct bsdconv_instance *ins, int ctl, void *p, int v){
-	int i, j;
+	int i, j, index;
 	for(i=1;i<=ins->phasen;++i){
+		index=ins->phase[i].index; //of the codec the phase is at
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			if(ins->phase[i].codec[j].cbctl){
 				ins->phase_index=i;
@@ -231,6 +232,7 @@ void bsdconv_ctl(struct bsdconv_instance *ins, int ctl, void *p, int v){
 				ins->phase[i].codec[j].cbctl(ins, ctl, p, v);
 			}
 		}
+		ins->phase[i].index=index;
 	}
 }
 
-- 
2.43.0


From 0ca42537c8c35385e1dea5e006564c16a0aeb0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 62/77] fix: characters below U+0100 had a leading zero in
 tables, so nothing could match them

---
 modules/from/_CP932.txt | 16 ++++++++--------
 modules/to/_CP1253.txt  | 42 ++++++++++++++++++++---------------------
 modules/to/_CP874.txt   |  2 +-
 modules/to/_GB2312.txt  | 38 ++++++++++++++++++-------------------
 4 files changed, 49 insertions(+), 49 deletions(-)

diff --git a/modules/from/_CP932.txt b/modules/from/_CP932.txt
index 0669a23..11cc9c1 100644
--- a/modules/from/_CP932.txt
+++ b/modules/from/_CP932.txt
@@ -74,9 +74,9 @@ DF	01FF9F
 8149	01FF01
 814A	01309B
 814B	01309C
-814C	0100B4
+814C	01B4
 814D	01FF40
-814E	0100A8
+814E	01A8
 814F	01FF3E
 8150	01FFE3
 8151	01FF3F
@@ -123,9 +123,9 @@ DF	01FF9F
 817A	013011
 817B	01FF0B
 817C	01FF0D
-817D	0100B1
-817E	0100D7
-8180	0100F7
+817D	01B1
+817E	01D7
+8180	01F7
 8181	01FF1D
 8182	012260
 8183	01FF1C
@@ -136,7 +136,7 @@ DF	01FF9F
 8188	012234
 8189	012642
 818A	012640
-818B	0100B0
+818B	01B0
 818C	012032
 818D	012033
 818E	012103
@@ -149,7 +149,7 @@ DF	01FF9F
 8195	01FF06
 8196	01FF0A
 8197	01FF20
-8198	0100A7
+8198	01A7
 8199	012606
 819A	012605
 819B	0125CB
@@ -207,7 +207,7 @@ DF	01FF9F
 81F4	01266A
 81F5	012020
 81F6	012021
-81F7	0100B6
+81F7	01B6
 81FC	0125EF
 824F	01FF10
 8250	01FF11
diff --git a/modules/to/_CP1253.txt b/modules/to/_CP1253.txt
index b776acd..bd0407f 100644
--- a/modules/to/_CP1253.txt
+++ b/modules/to/_CP1253.txt
@@ -17,35 +17,35 @@
 012014	97
 012122	99
 01203A	9B
-0100A0	A0
+01A0	A0
 010385	A1
 010386	A2
-0100A3	A3
-0100A4	A4
-0100A5	A5
-0100A6	A6
-0100A7	A7
-0100A8	A8
-0100A9	A9
-0100AB	AB
-0100AC	AC
-0100AD	AD
-0100AE	AE
+01A3	A3
+01A4	A4
+01A5	A5
+01A6	A6
+01A7	A7
+01A8	A8
+01A9	A9
+01AB	AB
+01AC	AC
+01AD	AD
+01AE	AE
 012015	AF
-0100B0	B0
-0100B1	B1
-0100B2	B2
-0100B3	B3
+01B0	B0
+01B1	B1
+01B2	B2
+01B3	B3
 010384	B4
-0100B5	B5
-0100B6	B6
-0100B7	B7
+01B5	B5
+01B6	B6
+01B7	B7
 010388	B8
 010389	B9
 01038A	BA
-0100BB	BB
+01BB	BB
 01038C	BC
-0100BD	BD
+01BD	BD
 01038E	BE
 01038F	BF
 010390	C0
diff --git a/modules/to/_CP874.txt b/modules/to/_CP874.txt
index be22c7a..addafe8 100644
--- a/modules/to/_CP874.txt
+++ b/modules/to/_CP874.txt
@@ -8,7 +8,7 @@
 012022	95
 012013	96
 012014	97
-0100A0	A0
+01A0	A0
 010E01	A1
 010E02	A2
 010E03	A3
diff --git a/modules/to/_GB2312.txt b/modules/to/_GB2312.txt
index 00fab10..37e995f 100644
--- a/modules/to/_GB2312.txt
+++ b/modules/to/_GB2312.txt
@@ -5,7 +5,7 @@ source:	#data
 0130FB	2124
 0102C9	2125
 0102C7	2126
-0100A8	2127
+01A8	2127
 013003	2128
 013005	2129
 012015	212A
@@ -30,9 +30,9 @@ source:	#data
 013017	213D
 013010	213E
 013011	213F
-0100B1	2140
-0100D7	2141
-0100F7	2142
+01B1	2140
+01D7	2141
+01F7	2142
 012236	2143
 012227	2144
 012228	2145
@@ -65,16 +65,16 @@ source:	#data
 012234	2160
 012642	2161
 012640	2162
-0100B0	2163
+01B0	2163
 012032	2164
 012033	2165
 012103	2166
 01FF04	2167
-0100A4	2168
+01A4	2168
 01FFE0	2169
 01FFE1	216A
 012030	216B
-0100A7	216C
+01A7	216C
 012116	216D
 012606	216E
 012605	216F
@@ -543,31 +543,31 @@ source:	#data
 01044E	2770
 01044F	2771
 010101	2821
-0100E1	2822
+01E1	2822
 0101CE	2823
-0100E0	2824
+01E0	2824
 010113	2825
-0100E9	2826
+01E9	2826
 01011B	2827
-0100E8	2828
+01E8	2828
 01012B	2829
-0100ED	282A
+01ED	282A
 0101D0	282B
-0100EC	282C
+01EC	282C
 01014D	282D
-0100F3	282E
+01F3	282E
 0101D2	282F
-0100F2	2830
+01F2	2830
 01016B	2831
-0100FA	2832
+01FA	2832
 0101D4	2833
-0100F9	2834
+01F9	2834
 0101D6	2835
 0101D8	2836
 0101DA	2837
 0101DC	2838
-0100FC	2839
-0100EA	283A
+01FC	2839
+01EA	283A
 013105	2845
 013106	2846
 013107	2847
-- 
2.43.0


From 10cff6b83835c7eabb88428b45b71fef27b2b95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:34 +0000
Subject: [PATCH 63/77] fix: IBM tables read codes as characters that are only
 written to them

---
 modules/from/IBM-37.txt  | 96 ----------------------------------------
 modules/from/IBM-930.txt | 45 -------------------
 modules/from/IBM-933.txt |  6 ---
 modules/from/IBM-935.txt |  2 -
 modules/from/IBM-937.txt |  5 ---
 modules/from/IBM-939.txt | 45 -------------------
 6 files changed, 199 deletions(-)

diff --git a/modules/from/IBM-37.txt b/modules/from/IBM-37.txt
index f6be67c..80a2f8c 100644
--- a/modules/from/IBM-37.txt
+++ b/modules/from/IBM-37.txt
@@ -74,17 +74,11 @@
 49	01F1
 4A	01A2
 4B	012E
-4B	01FF0E
 4C	013C
-4C	01FF1C
 4D	0128
-4D	01FF08
 4E	012B
-4E	01FF0B
 4F	017C
-4F	01FF5C
 50	0126
-50	01FF06
 51	01E9
 52	01EA
 53	01EB
@@ -95,20 +89,13 @@
 58	01EC
 59	01DF
 5A	0121
-5A	01FF01
 5B	0124
-5B	01FF04
 5C	012A
-5C	01FF0A
 5D	0129
-5D	01FF09
 5E	013B
-5E	01FF1B
 5F	01AC
 60	012D
-60	01FF0D
 61	012F
-61	01FF0F
 62	01C2
 63	01C4
 64	01C0
@@ -119,15 +106,10 @@
 69	01D1
 6A	01A6
 6B	012C
-6B	01FF0C
 6C	0125
-6C	01FF05
 6D	015F
-6D	01FF3F
 6E	013E
-6E	01FF1E
 6F	013F
-6F	01FF1F
 70	01F8
 71	01C9
 72	01CA
@@ -138,38 +120,22 @@
 77	01CF
 78	01CC
 79	0160
-79	01FF40
 7A	013A
-7A	01FF1A
 7B	0123
-7B	01FF03
 7C	0140
-7C	01FF20
 7D	0127
-7D	01FF07
 7E	013D
-7E	01FF1D
 7F	0122
-7F	01FF02
 80	01D8
 81	0161
-81	01FF41
 82	0162
-82	01FF42
 83	0163
-83	01FF43
 84	0164
-84	01FF44
 85	0165
-85	01FF45
 86	0166
-86	01FF46
 87	0167
-87	01FF47
 88	0168
-88	01FF48
 89	0169
-89	01FF49
 8A	01AB
 8B	01BB
 8C	01F0
@@ -178,23 +144,14 @@
 8F	01B1
 90	01B0
 91	016A
-91	01FF4A
 92	016B
-92	01FF4B
 93	016C
-93	01FF4C
 94	016D
-94	01FF4D
 95	016E
-95	01FF4E
 96	016F
-96	01FF4F
 97	0170
-97	01FF50
 98	0171
-98	01FF51
 99	0172
-99	01FF52
 9A	01AA
 9B	01BA
 9C	01E6
@@ -203,32 +160,21 @@
 9F	01A4
 A0	01B5
 A1	017E
-A1	01FF5E
 A2	0173
-A2	01FF53
 A3	0174
-A3	01FF54
 A4	0175
-A4	01FF55
 A5	0176
-A5	01FF56
 A6	0177
-A6	01FF57
 A7	0178
-A7	01FF58
 A8	0179
-A8	01FF59
 A9	017A
-A9	01FF5A
 AA	01A1
 AB	01BF
-AC	010110
 AC	01D0
 AD	01DD
 AE	01DE
 AF	01AE
 B0	015E
-B0	01FF3E
 B1	01A3
 B2	01A5
 B3	01B7
@@ -239,34 +185,21 @@ B7	01BC
 B8	01BD
 B9	01BE
 BA	015B
-BA	01FF3B
 BB	015D
-BB	01FF3D
-BC	01203E
 BC	01AF
 BD	01A8
 BE	01B4
 BF	01D7
 C0	017B
-C0	01FF5B
 C1	0141
-C1	01FF21
 C2	0142
-C2	01FF22
 C3	0143
-C3	01FF23
 C4	0144
-C4	01FF24
 C5	0145
-C5	01FF25
 C6	0146
-C6	01FF26
 C7	0147
-C7	01FF27
 C8	0148
-C8	01FF28
 C9	0149
-C9	01FF29
 CA	01AD
 CB	01F4
 CC	01F6
@@ -274,25 +207,15 @@ CD	01F2
 CE	01F3
 CF	01F5
 D0	017D
-D0	01FF5D
 D1	014A
-D1	01FF2A
 D2	014B
-D2	01FF2B
 D3	014C
-D3	01FF2C
 D4	014D
-D4	01FF2D
 D5	014E
-D5	01FF2E
 D6	014F
-D6	01FF2F
 D7	0150
-D7	01FF30
 D8	0151
-D8	01FF31
 D9	0152
-D9	01FF32
 DA	01B9
 DB	01FB
 DC	01FC
@@ -300,24 +223,15 @@ DD	01F9
 DE	01FA
 DF	01FF
 E0	015C
-E0	01FF3C
 E1	01F7
 E2	0153
-E2	01FF33
 E3	0154
-E3	01FF34
 E4	0155
-E4	01FF35
 E5	0156
-E5	01FF36
 E6	0157
-E6	01FF37
 E7	0158
-E7	01FF38
 E8	0159
-E8	01FF39
 E9	015A
-E9	01FF3A
 EA	01B2
 EB	01D4
 EC	01D6
@@ -325,25 +239,15 @@ ED	01D2
 EE	01D3
 EF	01D5
 F0	0130
-F0	01FF10
 F1	0131
-F1	01FF11
 F2	0132
-F2	01FF12
 F3	0133
-F3	01FF13
 F4	0134
-F4	01FF14
 F5	0135
-F5	01FF15
 F6	0136
-F6	01FF16
 F7	0137
-F7	01FF17
 F8	0138
-F8	01FF18
 F9	0139
-F9	01FF19
 FA	01B3
 FB	01DB
 FC	01DC
diff --git a/modules/from/IBM-930.txt b/modules/from/IBM-930.txt
index ed3a939..9b057ec 100644
--- a/modules/from/IBM-930.txt
+++ b/modules/from/IBM-930.txt
@@ -214,10 +214,8 @@
 425E	01FF1B
 425F	01FFE2
 4260	012212
-4260	01FF0D
 4261	01FF0F
 426A	01A6
-426A	01FFE4
 426B	01FF0C
 426C	01FF05
 426D	01FF3F
@@ -387,7 +385,6 @@
 439E	0130D2
 439F	0130D5
 43A1	01301C
-43A1	01FF5E
 43A2	0130D8
 43A3	0130DB
 43A4	0130DE
@@ -476,7 +473,6 @@
 4448	013043
 4449	013045
 444A	012014
-444A	012015
 444B	01B1
 444C	012260
 444D	01221E
@@ -510,7 +506,6 @@
 446C	013012
 446D	013231
 446E	012116
-446E	01F86F
 446F	012121
 4470	01FF3E
 4471	012019
@@ -525,7 +520,6 @@
 447A	01D7
 447B	01F7
 447C	012016
-447C	012225
 447D	013013
 447E	012025
 447F	012026
@@ -2022,7 +2016,6 @@
 4C7B	0165E7
 4C7C	018D08
 4C7D	019E78
-4C7D	019E7C
 4C7E	0152E7
 4C7F	015D07
 4C80	019F62
@@ -2459,7 +2452,6 @@
 4EB1	0168C4
 4EB2	015410
 4EB3	01982C
-4EB3	019830
 4EB4	018A87
 4EB5	014E5E
 4EB6	016167
@@ -2565,7 +2557,6 @@
 4F5B	015301
 4F5C	017A6B
 4F5D	018695
-4F5E	015861
 4F5E	01586B
 4F5F	015D29
 4F60	0188C2
@@ -2791,7 +2782,6 @@
 507D	0178A9
 507E	016FE1
 507F	0191A4
-507F	0191AC
 5080	0176F2
 5081	016020
 5082	0176FE
@@ -3000,7 +2990,6 @@
 518E	018A6E
 518F	01594E
 5190	0156A2
-5190	0156CA
 5191	01819A
 5192	017947
 5193	016636
@@ -3098,7 +3087,6 @@
 51EF	01647A
 51F0	019C3A
 51F1	0167F5
-51F1	016805
 51F2	017C4F
 51F3	01685F
 51F4	019B6F
@@ -3108,7 +3096,6 @@
 51F8	014FF6
 51F9	019E92
 51FA	019197
-51FA	0191B1
 51FB	0196DB
 51FC	015BE6
 51FD	016CCC
@@ -3146,7 +3133,6 @@
 525E	016787
 525F	015E7D
 5260	018650
-5261	019EB4
 5261	019EB9
 5262	015CB1
 5263	0180CE
@@ -3212,7 +3198,6 @@
 529F	017436
 52A0	018000
 52A1	01874B
-52A1	01881F
 52A2	0155DA
 52A3	017435
 52A4	017690
@@ -3253,7 +3238,6 @@
 52C7	016DCB
 52C8	015918
 52C9	0183B1
-52C9	01840A
 52CA	015629
 52CB	019B41
 52CC	016897
@@ -3271,7 +3255,6 @@
 52D8	01797A
 52D9	0167CA
 52DA	017E4D
-52DA	017E61
 52DB	0169CD
 52DC	0151C4
 52DD	01723D
@@ -3290,7 +3273,6 @@
 52EA	015B2C
 52EB	016631
 52EC	014FA0
-52EC	014FE0
 52ED	016939
 52EE	016AFB
 52EF	015BB5
@@ -3329,7 +3311,6 @@
 5351	018823
 5352	015384
 5353	018EAF
-5353	018EC0
 5354	017280
 5355	018C6B
 5356	01788D
@@ -3362,7 +3343,6 @@
 5371	015806
 5372	0164B0
 5373	017E4B
-5373	017E6B
 5374	017D8F
 5375	0168F2
 5376	016EA5
@@ -3426,7 +3406,6 @@
 53B0	015815
 53B1	01901D
 53B2	0169B4
-53B3	018346
 53B3	01834A
 53B4	019EA9
 53B5	01976B
@@ -3467,7 +3446,6 @@
 53D8	0186CB
 53D9	014EC0
 53DA	019A28
-53DA	019A52
 53DB	015366
 53DC	018006
 53DD	017337
@@ -3482,14 +3460,12 @@
 53E6	017515
 53E7	017B18
 53E8	018749
-53E8	0187EC
 53E9	0154B3
 53EA	01704C
 53EB	018997
 53EC	016CAB
 53ED	0185FA
 53EE	017114
-53EE	017130
 53EF	01696E
 53F0	019328
 53F1	01745A
@@ -3500,7 +3476,6 @@
 53F6	018317
 53F7	0176E7
 53F8	01848B
-53F8	018523
 53F9	0185AF
 53FA	016925
 53FB	015C60
@@ -3511,7 +3486,6 @@
 5441	016E07
 5442	0182AD
 5443	015C4F
-5443	015C5B
 5444	017BED
 5445	019784
 5446	016F70
@@ -3545,7 +3519,6 @@
 5462	014F7C
 5463	0179BE
 5464	019D0E
-5464	019DD7
 5465	014ED4
 5466	0157A2
 5467	0151A5
@@ -3571,11 +3544,9 @@
 547B	018332
 547C	0154FA
 547D	01565B
-547D	015699
 547E	018FBF
 547F	015634
 5480	016760
-5481	01525D
 5481	015265
 5482	01840E
 5483	015E5F
@@ -3611,9 +3582,7 @@
 54A1	016F15
 54A2	01696B
 54A3	0163BB
-54A3	016414
 54A4	0175E9
-54A4	017626
 54A5	014E4E
 54A6	017DBB
 54A7	016934
@@ -3652,11 +3621,9 @@
 54C8	014E3C
 54C9	0167B3
 54CA	017BAA
-54CA	017C1E
 54CB	017F4D
 54CC	018A23
 54CD	0163B4
-54CD	016451
 54CE	0171E6
 54CF	0165A4
 54D0	016F09
@@ -3664,7 +3631,6 @@
 54D2	015072
 54D3	017DBA
 54D4	015516
-54D4	01555E
 54D5	017B04
 54D6	0172FD
 54D7	016CD3
@@ -3703,7 +3669,6 @@
 54F8	019041
 54F9	017FD4
 54FA	016E8C
-54FA	016F51
 54FB	018A63
 54FC	019D08
 54FD	01670F
@@ -3725,11 +3690,9 @@
 554E	016DEB
 554F	015E96
 5550	016D9C
-5550	017006
 5551	019BF0
 5552	0158BB
 5553	017977
-5553	0179B1
 5554	0160B6
 5555	01633F
 5556	015BF5
@@ -3741,7 +3704,6 @@
 555C	017953
 555D	0179BD
 555E	016C5D
-555F	019EB5
 555F	019EBA
 5560	019C48
 5561	018DA8
@@ -3840,8 +3802,6 @@
 55BE	0192F2
 55BF	019237
 55C0	015C61
-55C0	015C62
-55C1	01985A
 55C1	01985B
 55C2	0186E4
 55C3	01966A
@@ -4904,7 +4864,6 @@
 5B70	01651C
 5B71	01651D
 5B72	016505
-5B72	016522
 5B73	016524
 5B74	016523
 5B75	01652B
@@ -5045,7 +5004,6 @@
 5BFC	016863
 5BFD	016859
 5BFE	01688D
-5BFE	01688E
 5C	?012A
 5C41	016877
 5C42	01687F
@@ -5987,7 +5945,6 @@
 60EE	017E09
 60EF	017E3A
 60F0	017E46
-60F1	017E48
 60F1	017E66
 60F2	017E31
 60F3	017E3D
@@ -6115,7 +6072,6 @@
 61AE	018153
 61AF	018151
 61B0	0180FC
-61B0	018141
 61B1	018171
 61B2	01816E
 61B3	018165
@@ -7094,7 +7050,6 @@
 66C5	019824
 66C6	019821
 66C7	019837
-66C8	019839
 66C8	01983D
 66C9	01984F
 66CA	01984B
diff --git a/modules/from/IBM-933.txt b/modules/from/IBM-933.txt
index 0411062..e4c02ce 100644
--- a/modules/from/IBM-933.txt
+++ b/modules/from/IBM-933.txt
@@ -67,15 +67,12 @@
 4141	013001
 4142	013002
 4143	0130FB
-4143	01B7
 4144	012025
 4145	012026
 4146	01A8
 4147	013003
 4148	012010
-4148	01AD
 4149	012014
-4149	012015
 414A	012225
 414B	01FF3C
 414C	01FFE3
@@ -207,7 +204,6 @@
 4297	01FF50
 4298	01FF51
 4299	01FF52
-42A1	01223C
 42A1	01301C
 42A2	01FF53
 42A3	01FF54
@@ -700,7 +696,6 @@
 4952	012203
 4953	01B4
 4954	0102DC
-4954	01FF5E
 4955	0102C7
 4956	0102D8
 4957	0102DD
@@ -727,7 +722,6 @@
 496C	012665
 496D	012667
 496E	012663
-496F	012299
 496F	0125C9
 4970	0125C8
 4971	0125A3
diff --git a/modules/from/IBM-935.txt b/modules/from/IBM-935.txt
index 78de743..381bb20 100644
--- a/modules/from/IBM-935.txt
+++ b/modules/from/IBM-935.txt
@@ -299,7 +299,6 @@
 4343	01300D
 4344	013001
 4345	0130FB
-4345	01B7
 4346	0130F2
 4347	0130A1
 4348	0130A3
@@ -403,7 +402,6 @@
 4447	013041
 4448	013043
 4449	013045
-444A	012014
 444A	012015
 444B	01B1
 444C	012260
diff --git a/modules/from/IBM-937.txt b/modules/from/IBM-937.txt
index d198097..f83eaee 100644
--- a/modules/from/IBM-937.txt
+++ b/modules/from/IBM-937.txt
@@ -203,7 +203,6 @@
 424C	01FF1C
 424D	01FF08
 424E	01FF0B
-424F	012223
 424F	01FF5C
 4250	01FF06
 425A	01FF01
@@ -246,7 +245,6 @@
 4298	01FF51
 4299	01FF52
 42A1	01203E
-42A1	01AF
 42A2	01FF53
 42A3	01FF54
 42A4	01FF55
@@ -372,7 +370,6 @@
 439E	0130D2
 439F	0130D5
 43A1	01223C
-43A1	01FF5E
 43A2	0130D8
 43A3	0130DB
 43A4	0130DE
@@ -452,7 +449,6 @@
 4447	013041
 4448	013043
 4449	013045
-444A	012013
 444A	012014
 444B	01B1
 444C	012260
@@ -5817,7 +5813,6 @@
 655D	0158D9
 655E	0158D8
 655F	015B38
-6560	015F5D
 6560	015F5E
 6561	0161E3
 6562	016233
diff --git a/modules/from/IBM-939.txt b/modules/from/IBM-939.txt
index 41d5b18..97df020 100644
--- a/modules/from/IBM-939.txt
+++ b/modules/from/IBM-939.txt
@@ -213,10 +213,8 @@
 425E	01FF1B
 425F	01FFE2
 4260	012212
-4260	01FF0D
 4261	01FF0F
 426A	01A6
-426A	01FFE4
 426B	01FF0C
 426C	01FF05
 426D	01FF3F
@@ -386,7 +384,6 @@
 439E	0130D2
 439F	0130D5
 43A1	01301C
-43A1	01FF5E
 43A2	0130D8
 43A3	0130DB
 43A4	0130DE
@@ -475,7 +472,6 @@
 4448	013043
 4449	013045
 444A	012014
-444A	012015
 444B	01B1
 444C	012260
 444D	01221E
@@ -509,7 +505,6 @@
 446C	013012
 446D	013231
 446E	012116
-446E	01F86F
 446F	012121
 4470	01FF3E
 4471	012019
@@ -524,7 +519,6 @@
 447A	01D7
 447B	01F7
 447C	012016
-447C	012225
 447D	013013
 447E	012025
 447F	012026
@@ -2021,7 +2015,6 @@
 4C7B	0165E7
 4C7C	018D08
 4C7D	019E78
-4C7D	019E7C
 4C7E	0152E7
 4C7F	015D07
 4C80	019F62
@@ -2458,7 +2451,6 @@
 4EB1	0168C4
 4EB2	015410
 4EB3	01982C
-4EB3	019830
 4EB4	018A87
 4EB5	014E5E
 4EB6	016167
@@ -2564,7 +2556,6 @@
 4F5B	015301
 4F5C	017A6B
 4F5D	018695
-4F5E	015861
 4F5E	01586B
 4F5F	015D29
 4F60	0188C2
@@ -2790,7 +2781,6 @@
 507D	0178A9
 507E	016FE1
 507F	0191A4
-507F	0191AC
 5080	0176F2
 5081	016020
 5082	0176FE
@@ -2999,7 +2989,6 @@
 518E	018A6E
 518F	01594E
 5190	0156A2
-5190	0156CA
 5191	01819A
 5192	017947
 5193	016636
@@ -3097,7 +3086,6 @@
 51EF	01647A
 51F0	019C3A
 51F1	0167F5
-51F1	016805
 51F2	017C4F
 51F3	01685F
 51F4	019B6F
@@ -3107,7 +3095,6 @@
 51F8	014FF6
 51F9	019E92
 51FA	019197
-51FA	0191B1
 51FB	0196DB
 51FC	015BE6
 51FD	016CCC
@@ -3145,7 +3132,6 @@
 525E	016787
 525F	015E7D
 5260	018650
-5261	019EB4
 5261	019EB9
 5262	015CB1
 5263	0180CE
@@ -3211,7 +3197,6 @@
 529F	017436
 52A0	018000
 52A1	01874B
-52A1	01881F
 52A2	0155DA
 52A3	017435
 52A4	017690
@@ -3252,7 +3237,6 @@
 52C7	016DCB
 52C8	015918
 52C9	0183B1
-52C9	01840A
 52CA	015629
 52CB	019B41
 52CC	016897
@@ -3270,7 +3254,6 @@
 52D8	01797A
 52D9	0167CA
 52DA	017E4D
-52DA	017E61
 52DB	0169CD
 52DC	0151C4
 52DD	01723D
@@ -3289,7 +3272,6 @@
 52EA	015B2C
 52EB	016631
 52EC	014FA0
-52EC	014FE0
 52ED	016939
 52EE	016AFB
 52EF	015BB5
@@ -3328,7 +3310,6 @@
 5351	018823
 5352	015384
 5353	018EAF
-5353	018EC0
 5354	017280
 5355	018C6B
 5356	01788D
@@ -3361,7 +3342,6 @@
 5371	015806
 5372	0164B0
 5373	017E4B
-5373	017E6B
 5374	017D8F
 5375	0168F2
 5376	016EA5
@@ -3425,7 +3405,6 @@
 53B0	015815
 53B1	01901D
 53B2	0169B4
-53B3	018346
 53B3	01834A
 53B4	019EA9
 53B5	01976B
@@ -3466,7 +3445,6 @@
 53D8	0186CB
 53D9	014EC0
 53DA	019A28
-53DA	019A52
 53DB	015366
 53DC	018006
 53DD	017337
@@ -3481,14 +3459,12 @@
 53E6	017515
 53E7	017B18
 53E8	018749
-53E8	0187EC
 53E9	0154B3
 53EA	01704C
 53EB	018997
 53EC	016CAB
 53ED	0185FA
 53EE	017114
-53EE	017130
 53EF	01696E
 53F0	019328
 53F1	01745A
@@ -3499,7 +3475,6 @@
 53F6	018317
 53F7	0176E7
 53F8	01848B
-53F8	018523
 53F9	0185AF
 53FA	016925
 53FB	015C60
@@ -3510,7 +3485,6 @@
 5441	016E07
 5442	0182AD
 5443	015C4F
-5443	015C5B
 5444	017BED
 5445	019784
 5446	016F70
@@ -3544,7 +3518,6 @@
 5462	014F7C
 5463	0179BE
 5464	019D0E
-5464	019DD7
 5465	014ED4
 5466	0157A2
 5467	0151A5
@@ -3570,11 +3543,9 @@
 547B	018332
 547C	0154FA
 547D	01565B
-547D	015699
 547E	018FBF
 547F	015634
 5480	016760
-5481	01525D
 5481	015265
 5482	01840E
 5483	015E5F
@@ -3610,9 +3581,7 @@
 54A1	016F15
 54A2	01696B
 54A3	0163BB
-54A3	016414
 54A4	0175E9
-54A4	017626
 54A5	014E4E
 54A6	017DBB
 54A7	016934
@@ -3651,11 +3620,9 @@
 54C8	014E3C
 54C9	0167B3
 54CA	017BAA
-54CA	017C1E
 54CB	017F4D
 54CC	018A23
 54CD	0163B4
-54CD	016451
 54CE	0171E6
 54CF	0165A4
 54D0	016F09
@@ -3663,7 +3630,6 @@
 54D2	015072
 54D3	017DBA
 54D4	015516
-54D4	01555E
 54D5	017B04
 54D6	0172FD
 54D7	016CD3
@@ -3702,7 +3668,6 @@
 54F8	019041
 54F9	017FD4
 54FA	016E8C
-54FA	016F51
 54FB	018A63
 54FC	019D08
 54FD	01670F
@@ -3724,11 +3689,9 @@
 554E	016DEB
 554F	015E96
 5550	016D9C
-5550	017006
 5551	019BF0
 5552	0158BB
 5553	017977
-5553	0179B1
 5554	0160B6
 5555	01633F
 5556	015BF5
@@ -3740,7 +3703,6 @@
 555C	017953
 555D	0179BD
 555E	016C5D
-555F	019EB5
 555F	019EBA
 5560	019C48
 5561	018DA8
@@ -3839,8 +3801,6 @@
 55BE	0192F2
 55BF	019237
 55C0	015C61
-55C0	015C62
-55C1	01985A
 55C1	01985B
 55C2	0186E4
 55C3	01966A
@@ -4905,7 +4865,6 @@
 5B70	01651C
 5B71	01651D
 5B72	016505
-5B72	016522
 5B73	016524
 5B74	016523
 5B75	01652B
@@ -5046,7 +5005,6 @@
 5BFC	016863
 5BFD	016859
 5BFE	01688D
-5BFE	01688E
 5C	?012A
 5C41	016877
 5C42	01687F
@@ -5988,7 +5946,6 @@
 60EE	017E09
 60EF	017E3A
 60F0	017E46
-60F1	017E48
 60F1	017E66
 60F2	017E31
 60F3	017E3D
@@ -6116,7 +6073,6 @@
 61AE	018153
 61AF	018151
 61B0	0180FC
-61B0	018141
 61B1	018171
 61B2	01816E
 61B3	018165
@@ -7095,7 +7051,6 @@
 66C5	019824
 66C6	019821
 66C7	019837
-66C8	019839
 66C8	01983D
 66C9	01984F
 66CA	01984B
-- 
2.43.0


From 085b741d8a7109dd6db4c918ef09f526d697e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 64/77] fix: the full width backslash of JIS X 0208 was taken
 for the ASCII one

---
 modules/from/_JIS0208.txt   | 2 +-
 modules/from/_SHIFT-JIS.txt | 2 +-
 modules/to/_SHIFT-JIS.txt   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/from/_JIS0208.txt b/modules/from/_JIS0208.txt
index 7268321..e6fd273 100644
--- a/modules/from/_JIS0208.txt
+++ b/modules/from/_JIS0208.txt
@@ -30,7 +30,7 @@
 213D	012015
 213E	012010
 213F	01FF0F
-2140	015C
+2140	01FF3C
 2141	01301C
 2142	012016
 2143	01FF5C
diff --git a/modules/from/_SHIFT-JIS.txt b/modules/from/_SHIFT-JIS.txt
index 4f8434f..848fc83 100644
--- a/modules/from/_SHIFT-JIS.txt
+++ b/modules/from/_SHIFT-JIS.txt
@@ -33,7 +33,7 @@
 815C	012015
 815D	012010
 815E	01FF0F
-815F	015C
+815F	01FF3C
 8160	01301C
 8161	012016
 8162	01FF5C
diff --git a/modules/to/_SHIFT-JIS.txt b/modules/to/_SHIFT-JIS.txt
index 06162ba..bfd18e7 100644
--- a/modules/to/_SHIFT-JIS.txt
+++ b/modules/to/_SHIFT-JIS.txt
@@ -30,7 +30,7 @@
 012015	815C
 012010	815D
 01FF0F	815E
-015C	815F
+01FF3C	815F
 01301C	8160
 012016	8161
 01FF5C	8162
-- 
2.43.0


From bb25fe34b44660d6ae02df80fc2d11741a0c3b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 65/77] fix: GB2312 had the codes without their high bits,
 which only ASCII could match

---
 modules/from/_GB2312.txt    | 14890 +++++++++++++++++-----------------
 modules/to/GB2312-TRANS.txt | 11644 +++++++++++++-------------
 modules/to/_GB2312.txt      | 14890 +++++++++++++++++-----------------
 3 files changed, 20712 insertions(+), 20712 deletions(-)

diff --git a/modules/from/_GB2312.txt b/modules/from/_GB2312.txt
index 1c08310..da23c60 100644
--- a/modules/from/_GB2312.txt
+++ b/modules/from/_GB2312.txt
@@ -1,7446 +1,7446 @@
 #data source: http://glyph.iso10646hk.net/download/GB2312.TXT
-2121	013000
-2122	013001
-2123	013002
-2124	0130FB
-2125	0102C9
-2126	0102C7
-2127	01A8
-2128	013003
-2129	013005
-212A	012015
-212B	01FF5E
-212C	012016
-212D	012026
-212E	012018
-212F	012019
-2130	01201C
-2131	01201D
-2132	013014
-2133	013015
-2134	013008
-2135	013009
-2136	01300A
-2137	01300B
-2138	01300C
-2139	01300D
-213A	01300E
-213B	01300F
-213C	013016
-213D	013017
-213E	013010
-213F	013011
-2140	01B1
-2141	01D7
-2142	01F7
-2143	012236
-2144	012227
-2145	012228
-2146	012211
-2147	01220F
-2148	01222A
-2149	012229
-214A	012208
-214B	012237
-214C	01221A
-214D	0122A5
-214E	012225
-214F	012220
-2150	012312
-2151	012299
-2152	01222B
-2153	01222E
-2154	012261
-2155	01224C
-2156	012248
-2157	01223D
-2158	01221D
-2159	012260
-215A	01226E
-215B	01226F
-215C	012264
-215D	012265
-215E	01221E
-215F	012235
-2160	012234
-2161	012642
-2162	012640
-2163	01B0
-2164	012032
-2165	012033
-2166	012103
-2167	01FF04
-2168	01A4
-2169	01FFE0
-216A	01FFE1
-216B	012030
-216C	01A7
-216D	012116
-216E	012606
-216F	012605
-2170	0125CB
-2171	0125CF
-2172	0125CE
-2173	0125C7
-2174	0125C6
-2175	0125A1
-2176	0125A0
-2177	0125B3
-2178	0125B2
-2179	01203B
-217A	012192
-217B	012190
-217C	012191
-217D	012193
-217E	013013
-2231	012488
-2232	012489
-2233	01248A
-2234	01248B
-2235	01248C
-2236	01248D
-2237	01248E
-2238	01248F
-2239	012490
-223A	012491
-223B	012492
-223C	012493
-223D	012494
-223E	012495
-223F	012496
-2240	012497
-2241	012498
-2242	012499
-2243	01249A
-2244	01249B
-2245	012474
-2246	012475
-2247	012476
-2248	012477
-2249	012478
-224A	012479
-224B	01247A
-224C	01247B
-224D	01247C
-224E	01247D
-224F	01247E
-2250	01247F
-2251	012480
-2252	012481
-2253	012482
-2254	012483
-2255	012484
-2256	012485
-2257	012486
-2258	012487
-2259	012460
-225A	012461
-225B	012462
-225C	012463
-225D	012464
-225E	012465
-225F	012466
-2260	012467
-2261	012468
-2262	012469
-2265	013220
-2266	013221
-2267	013222
-2268	013223
-2269	013224
-226A	013225
-226B	013226
-226C	013227
-226D	013228
-226E	013229
-2271	012160
-2272	012161
-2273	012162
-2274	012163
-2275	012164
-2276	012165
-2277	012166
-2278	012167
-2279	012168
-227A	012169
-227B	01216A
-227C	01216B
-2321	01FF01
-2322	01FF02
-2323	01FF03
-2324	01FFE5
-2325	01FF05
-2326	01FF06
-2327	01FF07
-2328	01FF08
-2329	01FF09
-232A	01FF0A
-232B	01FF0B
-232C	01FF0C
-232D	01FF0D
-232E	01FF0E
-232F	01FF0F
-2330	01FF10
-2331	01FF11
-2332	01FF12
-2333	01FF13
-2334	01FF14
-2335	01FF15
-2336	01FF16
-2337	01FF17
-2338	01FF18
-2339	01FF19
-233A	01FF1A
-233B	01FF1B
-233C	01FF1C
-233D	01FF1D
-233E	01FF1E
-233F	01FF1F
-2340	01FF20
-2341	01FF21
-2342	01FF22
-2343	01FF23
-2344	01FF24
-2345	01FF25
-2346	01FF26
-2347	01FF27
-2348	01FF28
-2349	01FF29
-234A	01FF2A
-234B	01FF2B
-234C	01FF2C
-234D	01FF2D
-234E	01FF2E
-234F	01FF2F
-2350	01FF30
-2351	01FF31
-2352	01FF32
-2353	01FF33
-2354	01FF34
-2355	01FF35
-2356	01FF36
-2357	01FF37
-2358	01FF38
-2359	01FF39
-235A	01FF3A
-235B	01FF3B
-235C	01FF3C
-235D	01FF3D
-235E	01FF3E
-235F	01FF3F
-2360	01FF40
-2361	01FF41
-2362	01FF42
-2363	01FF43
-2364	01FF44
-2365	01FF45
-2366	01FF46
-2367	01FF47
-2368	01FF48
-2369	01FF49
-236A	01FF4A
-236B	01FF4B
-236C	01FF4C
-236D	01FF4D
-236E	01FF4E
-236F	01FF4F
-2370	01FF50
-2371	01FF51
-2372	01FF52
-2373	01FF53
-2374	01FF54
-2375	01FF55
-2376	01FF56
-2377	01FF57
-2378	01FF58
-2379	01FF59
-237A	01FF5A
-237B	01FF5B
-237C	01FF5C
-237D	01FF5D
-237E	01FFE3
-2421	013041
-2422	013042
-2423	013043
-2424	013044
-2425	013045
-2426	013046
-2427	013047
-2428	013048
-2429	013049
-242A	01304A
-242B	01304B
-242C	01304C
-242D	01304D
-242E	01304E
-242F	01304F
-2430	013050
-2431	013051
-2432	013052
-2433	013053
-2434	013054
-2435	013055
-2436	013056
-2437	013057
-2438	013058
-2439	013059
-243A	01305A
-243B	01305B
-243C	01305C
-243D	01305D
-243E	01305E
-243F	01305F
-2440	013060
-2441	013061
-2442	013062
-2443	013063
-2444	013064
-2445	013065
-2446	013066
-2447	013067
-2448	013068
-2449	013069
-244A	01306A
-244B	01306B
-244C	01306C
-244D	01306D
-244E	01306E
-244F	01306F
-2450	013070
-2451	013071
-2452	013072
-2453	013073
-2454	013074
-2455	013075
-2456	013076
-2457	013077
-2458	013078
-2459	013079
-245A	01307A
-245B	01307B
-245C	01307C
-245D	01307D
-245E	01307E
-245F	01307F
-2460	013080
-2461	013081
-2462	013082
-2463	013083
-2464	013084
-2465	013085
-2466	013086
-2467	013087
-2468	013088
-2469	013089
-246A	01308A
-246B	01308B
-246C	01308C
-246D	01308D
-246E	01308E
-246F	01308F
-2470	013090
-2471	013091
-2472	013092
-2473	013093
-2521	0130A1
-2522	0130A2
-2523	0130A3
-2524	0130A4
-2525	0130A5
-2526	0130A6
-2527	0130A7
-2528	0130A8
-2529	0130A9
-252A	0130AA
-252B	0130AB
-252C	0130AC
-252D	0130AD
-252E	0130AE
-252F	0130AF
-2530	0130B0
-2531	0130B1
-2532	0130B2
-2533	0130B3
-2534	0130B4
-2535	0130B5
-2536	0130B6
-2537	0130B7
-2538	0130B8
-2539	0130B9
-253A	0130BA
-253B	0130BB
-253C	0130BC
-253D	0130BD
-253E	0130BE
-253F	0130BF
-2540	0130C0
-2541	0130C1
-2542	0130C2
-2543	0130C3
-2544	0130C4
-2545	0130C5
-2546	0130C6
-2547	0130C7
-2548	0130C8
-2549	0130C9
-254A	0130CA
-254B	0130CB
-254C	0130CC
-254D	0130CD
-254E	0130CE
-254F	0130CF
-2550	0130D0
-2551	0130D1
-2552	0130D2
-2553	0130D3
-2554	0130D4
-2555	0130D5
-2556	0130D6
-2557	0130D7
-2558	0130D8
-2559	0130D9
-255A	0130DA
-255B	0130DB
-255C	0130DC
-255D	0130DD
-255E	0130DE
-255F	0130DF
-2560	0130E0
-2561	0130E1
-2562	0130E2
-2563	0130E3
-2564	0130E4
-2565	0130E5
-2566	0130E6
-2567	0130E7
-2568	0130E8
-2569	0130E9
-256A	0130EA
-256B	0130EB
-256C	0130EC
-256D	0130ED
-256E	0130EE
-256F	0130EF
-2570	0130F0
-2571	0130F1
-2572	0130F2
-2573	0130F3
-2574	0130F4
-2575	0130F5
-2576	0130F6
-2621	010391
-2622	010392
-2623	010393
-2624	010394
-2625	010395
-2626	010396
-2627	010397
-2628	010398
-2629	010399
-262A	01039A
-262B	01039B
-262C	01039C
-262D	01039D
-262E	01039E
-262F	01039F
-2630	0103A0
-2631	0103A1
-2632	0103A3
-2633	0103A4
-2634	0103A5
-2635	0103A6
-2636	0103A7
-2637	0103A8
-2638	0103A9
-2641	0103B1
-2642	0103B2
-2643	0103B3
-2644	0103B4
-2645	0103B5
-2646	0103B6
-2647	0103B7
-2648	0103B8
-2649	0103B9
-264A	0103BA
-264B	0103BB
-264C	0103BC
-264D	0103BD
-264E	0103BE
-264F	0103BF
-2650	0103C0
-2651	0103C1
-2652	0103C3
-2653	0103C4
-2654	0103C5
-2655	0103C6
-2656	0103C7
-2657	0103C8
-2658	0103C9
-2721	010410
-2722	010411
-2723	010412
-2724	010413
-2725	010414
-2726	010415
-2727	010401
-2728	010416
-2729	010417
-272A	010418
-272B	010419
-272C	01041A
-272D	01041B
-272E	01041C
-272F	01041D
-2730	01041E
-2731	01041F
-2732	010420
-2733	010421
-2734	010422
-2735	010423
-2736	010424
-2737	010425
-2738	010426
-2739	010427
-273A	010428
-273B	010429
-273C	01042A
-273D	01042B
-273E	01042C
-273F	01042D
-2740	01042E
-2741	01042F
-2751	010430
-2752	010431
-2753	010432
-2754	010433
-2755	010434
-2756	010435
-2757	010451
-2758	010436
-2759	010437
-275A	010438
-275B	010439
-275C	01043A
-275D	01043B
-275E	01043C
-275F	01043D
-2760	01043E
-2761	01043F
-2762	010440
-2763	010441
-2764	010442
-2765	010443
-2766	010444
-2767	010445
-2768	010446
-2769	010447
-276A	010448
-276B	010449
-276C	01044A
-276D	01044B
-276E	01044C
-276F	01044D
-2770	01044E
-2771	01044F
-2821	010101
-2822	01E1
-2823	0101CE
-2824	01E0
-2825	010113
-2826	01E9
-2827	01011B
-2828	01E8
-2829	01012B
-282A	01ED
-282B	0101D0
-282C	01EC
-282D	01014D
-282E	01F3
-282F	0101D2
-2830	01F2
-2831	01016B
-2832	01FA
-2833	0101D4
-2834	01F9
-2835	0101D6
-2836	0101D8
-2837	0101DA
-2838	0101DC
-2839	01FC
-283A	01EA
-2845	013105
-2846	013106
-2847	013107
-2848	013108
-2849	013109
-284A	01310A
-284B	01310B
-284C	01310C
-284D	01310D
-284E	01310E
-284F	01310F
-2850	013110
-2851	013111
-2852	013112
-2853	013113
-2854	013114
-2855	013115
-2856	013116
-2857	013117
-2858	013118
-2859	013119
-285A	01311A
-285B	01311B
-285C	01311C
-285D	01311D
-285E	01311E
-285F	01311F
-2860	013120
-2861	013121
-2862	013122
-2863	013123
-2864	013124
-2865	013125
-2866	013126
-2867	013127
-2868	013128
-2869	013129
-2924	012500
-2925	012501
-2926	012502
-2927	012503
-2928	012504
-2929	012505
-292A	012506
-292B	012507
-292C	012508
-292D	012509
-292E	01250A
-292F	01250B
-2930	01250C
-2931	01250D
-2932	01250E
-2933	01250F
-2934	012510
-2935	012511
-2936	012512
-2937	012513
-2938	012514
-2939	012515
-293A	012516
-293B	012517
-293C	012518
-293D	012519
-293E	01251A
-293F	01251B
-2940	01251C
-2941	01251D
-2942	01251E
-2943	01251F
-2944	012520
-2945	012521
-2946	012522
-2947	012523
-2948	012524
-2949	012525
-294A	012526
-294B	012527
-294C	012528
-294D	012529
-294E	01252A
-294F	01252B
-2950	01252C
-2951	01252D
-2952	01252E
-2953	01252F
-2954	012530
-2955	012531
-2956	012532
-2957	012533
-2958	012534
-2959	012535
-295A	012536
-295B	012537
-295C	012538
-295D	012539
-295E	01253A
-295F	01253B
-2960	01253C
-2961	01253D
-2962	01253E
-2963	01253F
-2964	012540
-2965	012541
-2966	012542
-2967	012543
-2968	012544
-2969	012545
-296A	012546
-296B	012547
-296C	012548
-296D	012549
-296E	01254A
-296F	01254B
-3021	01554A
-3022	01963F
-3023	0157C3
-3024	016328
-3025	0154CE
-3026	015509
-3027	0154C0
-3028	017691
-3029	01764C
-302A	01853C
-302B	0177EE
-302C	01827E
-302D	01788D
-302E	017231
-302F	019698
-3030	01978D
-3031	016C28
-3032	015B89
-3033	014FFA
-3034	016309
-3035	016697
-3036	015CB8
-3037	0180FA
-3038	016848
-3039	0180AE
-303A	016602
-303B	0176CE
-303C	0151F9
-303D	016556
-303E	0171AC
-303F	017FF1
-3040	018884
-3041	0150B2
-3042	015965
-3043	0161CA
-3044	016FB3
-3045	0182AD
-3046	01634C
-3047	016252
-3048	0153ED
-3049	015427
-304A	017B06
-304B	01516B
-304C	0175A4
-304D	015DF4
-304E	0162D4
-304F	018DCB
-3050	019776
-3051	01628A
-3052	018019
-3053	01575D
-3054	019738
-3055	017F62
-3056	017238
-3057	01767D
-3058	0167CF
-3059	01767E
-305A	016446
-305B	014F70
-305C	018D25
-305D	0162DC
-305E	017A17
-305F	016591
-3060	0173ED
-3061	01642C
-3062	016273
-3063	01822C
-3064	019881
-3065	01677F
-3066	017248
-3067	01626E
-3068	0162CC
-3069	014F34
-306A	0174E3
-306B	01534A
-306C	01529E
-306D	017ECA
-306E	0190A6
-306F	015E2E
-3070	016886
-3071	01699C
-3072	018180
-3073	017ED1
-3074	0168D2
-3075	0178C5
-3076	01868C
-3077	019551
-3078	01508D
-3079	018C24
-307A	0182DE
-307B	0180DE
-307C	015305
-307D	018912
-307E	015265
-3121	018584
-3122	0196F9
-3123	014FDD
-3124	015821
-3125	019971
-3126	015B9D
-3127	0162B1
-3128	0162A5
-3129	0166B4
-312A	018C79
-312B	019C8D
-312C	017206
-312D	01676F
-312E	017891
-312F	0160B2
-3130	015351
-3131	015317
-3132	018F88
-3133	0180CC
-3134	018D1D
-3135	0194A1
-3136	01500D
-3137	0172C8
-3138	015907
-3139	0160EB
-313A	017119
-313B	0188AB
-313C	015954
-313D	0182EF
-313E	01672C
-313F	017B28
-3140	015D29
-3141	017EF7
-3142	01752D
-3143	016CF5
-3144	018E66
-3145	018FF8
-3146	01903C
-3147	019F3B
-3148	016BD4
-3149	019119
-314A	017B14
-314B	015F7C
-314C	0178A7
-314D	0184D6
-314E	01853D
-314F	016BD5
-3150	016BD9
-3151	016BD6
-3152	015E01
-3153	015E87
-3154	0175F9
-3155	0195ED
-3156	01655D
-3157	015F0A
-3158	015FC5
-3159	018F9F
-315A	0158C1
-315B	0181C2
-315C	01907F
-315D	01965B
-315E	0197AD
-315F	018FB9
-3160	017F16
-3161	018D2C
-3162	016241
-3163	014FBF
-3164	0153D8
-3165	01535E
-3166	018FA8
-3167	018FA9
-3168	018FAB
-3169	01904D
-316A	016807
-316B	015F6A
-316C	018198
-316D	018868
-316E	019CD6
-316F	01618B
-3170	01522B
-3171	01762A
-3172	015F6C
-3173	01658C
-3174	016FD2
-3175	016EE8
-3176	015BBE
-3177	016448
-3178	015175
-3179	0151B0
-317A	0167C4
-317B	014E19
-317C	0179C9
-317D	01997C
-317E	0170B3
-3221	0175C5
-3222	015E76
-3223	0173BB
-3224	0183E0
-3225	0164AD
-3226	0162E8
-3227	0194B5
-3228	016CE2
-3229	01535A
-322A	0152C3
-322B	01640F
-322C	0194C2
-322D	017B94
-322E	014F2F
-322F	015E1B
-3230	018236
-3231	018116
-3232	01818A
-3233	016E24
-3234	016CCA
-3235	019A73
-3236	016355
-3237	01535C
-3238	0154FA
-3239	018865
-323A	0157E0
-323B	014E0D
-323C	015E03
-323D	016B65
-323E	017C3F
-323F	0190E8
-3240	016016
-3241	0164E6
-3242	01731C
-3243	0188C1
-3244	016750
-3245	01624D
-3246	018D22
-3247	01776C
-3248	018E29
-3249	0191C7
-324A	015F69
-324B	0183DC
-324C	018521
-324D	019910
-324E	0153C2
-324F	018695
-3250	016B8B
-3251	0160ED
-3252	0160E8
-3253	01707F
-3254	0182CD
-3255	018231
-3256	014ED3
-3257	016CA7
-3258	0185CF
-3259	0164CD
-325A	017CD9
-325B	0169FD
-325C	0166F9
-325D	018349
-325E	015395
-325F	017B56
-3260	014FA7
-3261	01518C
-3262	016D4B
-3263	015C42
-3264	018E6D
-3265	0163D2
-3266	0153C9
-3267	01832C
-3268	018336
-3269	0167E5
-326A	0178B4
-326B	01643D
-326C	015BDF
-326D	015C94
-326E	015DEE
-326F	018BE7
-3270	0162C6
-3271	0167F4
-3272	018C7A
-3273	016400
-3274	0163BA
-3275	018749
-3276	01998B
-3277	018C17
-3278	017F20
-3279	0194F2
-327A	014EA7
-327B	019610
-327C	0198A4
-327D	01660C
-327E	017316
-3321	01573A
-3322	015C1D
-3323	015E38
-3324	01957F
-3325	01507F
-3326	0180A0
-3327	015382
-3328	01655E
-3329	017545
-332A	015531
-332B	015021
-332C	018D85
-332D	016284
-332E	01949E
-332F	01671D
-3330	015632
-3331	016F6E
-3332	015DE2
-3333	015435
-3334	017092
-3335	018F66
-3336	01626F
-3337	0164A4
-3338	0163A3
-3339	015F7B
-333A	016F88
-333B	0190F4
-333C	0181E3
-333D	018FB0
-333E	015C18
-333F	016668
-3340	015FF1
-3341	016C89
-3342	019648
-3343	018D81
-3344	01886C
-3345	016491
-3346	0179F0
-3347	0157CE
-3348	016A59
-3349	016210
-334A	015448
-334B	014E58
-334C	017A0B
-334D	0160E9
-334E	016F84
-334F	018BDA
-3350	01627F
-3351	01901E
-3352	019A8B
-3353	0179E4
-3354	015403
-3355	0175F4
-3356	016301
-3357	015319
-3358	016C60
-3359	018FDF
-335A	015F1B
-335B	019A70
-335C	01803B
-335D	019F7F
-335E	014F88
-335F	015C3A
-3360	018D64
-3361	017FC5
-3362	0165A5
-3363	0170BD
-3364	015145
-3365	0151B2
-3366	01866B
-3367	015D07
-3368	015BA0
-3369	0162BD
-336A	01916C
-336B	017574
-336C	018E0C
-336D	017A20
-336E	016101
-336F	017B79
-3370	014EC7
-3371	017EF8
-3372	017785
-3373	014E11
-3374	0181ED
-3375	01521D
-3376	0151FA
-3377	016A71
-3378	0153A8
-3379	018E87
-337A	019504
-337B	0196CF
-337C	016EC1
-337D	019664
-337E	01695A
-3421	017840
-3422	0150A8
-3423	0177D7
-3424	016410
-3425	0189E6
-3426	015904
-3427	0163E3
-3428	015DDD
-3429	017A7F
-342A	01693D
-342B	014F20
-342C	018239
-342D	015598
-342E	014E32
-342F	0175AE
-3430	017A97
-3431	015E62
-3432	015E8A
-3433	0195EF
-3434	01521B
-3435	015439
-3436	01708A
-3437	016376
-3438	019524
-3439	015782
-343A	016625
-343B	01693F
-343C	019187
-343D	015507
-343E	016DF3
-343F	017EAF
-3440	018822
-3441	016233
-3442	017EF0
-3443	0175B5
-3444	018328
-3445	0178C1
-3446	0196CC
-3447	018F9E
-3448	016148
-3449	0174F7
-344A	018BCD
-344B	016B64
-344C	01523A
-344D	018D50
-344E	016B21
-344F	01806A
-3450	018471
-3451	0156F1
-3452	015306
-3453	014ECE
-3454	014E1B
-3455	0151D1
-3456	017C97
-3457	01918B
-3458	017C07
-3459	014FC3
-345A	018E7F
-345B	017BE1
-345C	017A9C
-345D	016467
-345E	015D14
-345F	0150AC
-3460	018106
-3461	017601
-3462	017CB9
-3463	016DEC
-3464	017FE0
-3465	016751
-3466	015B58
-3467	015BF8
-3468	0178CB
-3469	0164AE
-346A	016413
-346B	0163AA
-346C	01632B
-346D	019519
-346E	01642D
-346F	018FBE
-3470	017B54
-3471	017629
-3472	016253
-3473	015927
-3474	015446
-3475	016B79
-3476	0150A3
-3477	016234
-3478	015E26
-3479	016B86
-347A	014EE3
-347B	018D37
-347C	01888B
-347D	015F85
-347E	01902E
-3521	016020
-3522	01803D
-3523	0162C5
-3524	014E39
-3525	015355
-3526	0190F8
-3527	0163B8
-3528	0180C6
-3529	0165E6
-352A	016C2E
-352B	014F46
-352C	0160EE
-352D	016DE1
-352E	018BDE
-352F	015F39
-3530	0186CB
-3531	015F53
-3532	016321
-3533	01515A
-3534	018361
-3535	016863
-3536	015200
-3537	016363
-3538	018E48
-3539	015012
-353A	015C9B
-353B	017977
-353C	015BFC
-353D	015230
-353E	017A3B
-353F	0160BC
-3540	019053
-3541	0176D7
-3542	015FB7
-3543	015F97
-3544	017684
-3545	018E6C
-3546	01706F
-3547	01767B
-3548	017B49
-3549	0177AA
-354A	0151F3
-354B	019093
-354C	015824
-354D	014F4E
-354E	016EF4
-354F	018FEA
-3550	01654C
-3551	017B1B
-3552	0172C4
-3553	016DA4
-3554	017FDF
-3555	015AE1
-3556	0162B5
-3557	015E95
-3558	015730
-3559	018482
-355A	017B2C
-355B	015E1D
-355C	015F1F
-355D	019012
-355E	017F14
-355F	0198A0
-3560	016382
-3561	016EC7
-3562	017898
-3563	0170B9
-3564	015178
-3565	01975B
-3566	0157AB
-3567	017535
-3568	014F43
-3569	017538
-356A	015E97
-356B	0160E6
-356C	015960
-356D	016DC0
-356E	016BBF
-356F	017889
-3570	0153FC
-3571	0196D5
-3572	0151CB
-3573	015201
-3574	016389
-3575	01540A
-3576	019493
-3577	018C03
-3578	018DCC
-3579	017239
-357A	01789F
-357B	018776
-357C	018FED
-357D	018C0D
-357E	0153E0
-3621	014E01
-3622	0176EF
-3623	0153EE
-3624	019489
-3625	019876
-3626	019F0E
-3627	01952D
-3628	015B9A
-3629	018BA2
-362A	014E22
-362B	014E1C
-362C	0151AC
-362D	018463
-362E	0161C2
-362F	0152A8
-3630	01680B
-3631	014F97
-3632	01606B
-3633	0151BB
-3634	016D1E
-3635	01515C
-3636	016296
-3637	016597
-3638	019661
-3639	018C46
-363A	019017
-363B	0175D8
-363C	0190FD
-363D	017763
-363E	016BD2
-363F	01728A
-3640	0172EC
-3641	018BFB
-3642	015835
-3643	017779
-3644	018D4C
-3645	01675C
-3646	019540
-3647	01809A
-3648	015EA6
-3649	016E21
-364A	015992
-364B	017AEF
-364C	0177ED
-364D	01953B
-364E	016BB5
-364F	0165AD
-3650	017F0E
-3651	015806
-3652	015151
-3653	01961F
-3654	015BF9
-3655	0158A9
-3656	015428
-3657	018E72
-3658	016566
-3659	01987F
-365A	0156E4
-365B	01949D
-365C	0176FE
-365D	019041
-365E	016387
-365F	0154C6
-3660	01591A
-3661	01593A
-3662	01579B
-3663	018EB2
-3664	016735
-3665	018DFA
-3666	018235
-3667	015241
-3668	0160F0
-3669	015815
-366A	0186FE
-366B	015CE8
-366C	019E45
-366D	014FC4
-366E	01989D
-366F	018BB9
-3670	015A25
-3671	016076
-3672	015384
-3673	01627C
-3674	01904F
-3675	019102
-3676	01997F
-3677	016069
-3678	01800C
-3679	01513F
-367A	018033
-367B	015C14
-367C	019975
-367D	016D31
-367E	014E8C
-3721	018D30
-3722	0153D1
-3723	017F5A
-3724	017B4F
-3725	014F10
-3726	014E4F
-3727	019600
-3728	016CD5
-3729	0173D0
-372A	0185E9
-372B	015E06
-372C	01756A
-372D	017FFB
-372E	016A0A
-372F	0177FE
-3730	019492
-3731	017E41
-3732	0151E1
-3733	0170E6
-3734	0153CD
-3735	018FD4
-3736	018303
-3737	018D29
-3738	0172AF
-3739	01996D
-373A	016CDB
-373B	01574A
-373C	0182B3
-373D	0165B9
-373E	0180AA
-373F	01623F
-3740	019632
-3741	0159A8
-3742	014EFF
-3743	018BBF
-3744	017EBA
-3745	01653E
-3746	0183F2
-3747	01975E
-3748	015561
-3749	0198DE
-374A	0180A5
-374B	01532A
-374C	018BFD
-374D	015420
-374E	0180BA
-374F	015E9F
-3750	016CB8
-3751	018D39
-3752	0182AC
-3753	01915A
-3754	015429
-3755	016C1B
-3756	015206
-3757	017EB7
-3758	01575F
-3759	01711A
-375A	016C7E
-375B	017C89
-375C	01594B
-375D	014EFD
-375E	015FFF
-375F	016124
-3760	017CAA
-3761	014E30
-3762	015C01
-3763	0167AB
-3764	018702
-3765	015CF0
-3766	01950B
-3767	0198CE
-3768	0175AF
-3769	0170FD
-376A	019022
-376B	0151AF
-376C	017F1D
-376D	018BBD
-376E	015949
-376F	0151E4
-3770	014F5B
-3771	015426
-3772	01592B
-3773	016577
-3774	0180A4
-3775	015B75
-3776	016276
-3777	0162C2
-3778	018F90
-3779	015E45
-377A	016C1F
-377B	017B26
-377C	014F0F
-377D	014FD8
-377E	01670D
-3821	016D6E
-3822	016DAA
-3823	01798F
-3824	0188B1
-3825	015F17
-3826	01752B
-3827	01629A
-3828	018F85
-3829	014FEF
-382A	0191DC
-382B	0165A7
-382C	01812F
-382D	018151
-382E	015E9C
-382F	018150
-3830	018D74
-3831	01526F
-3832	018986
-3833	018D4B
-3834	01590D
-3835	015085
-3836	014ED8
-3837	01961C
-3838	017236
-3839	018179
-383A	018D1F
-383B	015BCC
-383C	018BA3
-383D	019644
-383E	015987
-383F	017F1A
-3840	015490
-3841	015676
-3842	01560E
-3843	018BE5
-3844	016539
-3845	016982
-3846	019499
-3847	0176D6
-3848	016E89
-3849	015E72
-384A	017518
-384B	016746
-384C	0167D1
-384D	017AFF
-384E	01809D
-384F	018D76
-3850	01611F
-3851	0179C6
-3852	016562
-3853	018D63
-3854	015188
-3855	01521A
-3856	0194A2
-3857	017F38
-3858	01809B
-3859	017EB2
-385A	015C97
-385B	016E2F
-385C	016760
-385D	017BD9
-385E	01768B
-385F	019AD8
-3860	01818F
-3861	017F94
-3862	017CD5
-3863	01641E
-3864	019550
-3865	017A3F
-3866	01544A
-3867	0154E5
-3868	016B4C
-3869	016401
-386A	016208
-386B	019E3D
-386C	0180F3
-386D	017599
-386E	015272
-386F	019769
-3870	01845B
-3871	01683C
-3872	0186E4
-3873	019601
-3874	019694
-3875	0194EC
-3876	014E2A
-3877	015404
-3878	017ED9
-3879	016839
-387A	018DDF
-387B	018015
-387C	0166F4
-387D	015E9A
-387E	017FB9
-3921	0157C2
-3922	01803F
-3923	016897
-3924	015DE5
-3925	01653B
-3926	01529F
-3927	01606D
-3928	019F9A
-3929	014F9B
-392A	018EAC
-392B	01516C
-392C	015BAB
-392D	015F13
-392E	015DE9
-392F	016C5E
-3930	0162F1
-3931	018D21
-3932	015171
-3933	0194A9
-3934	0152FE
-3935	016C9F
-3936	0182DF
-3937	0172D7
-3938	0157A2
-3939	016784
-393A	018D2D
-393B	01591F
-393C	018F9C
-393D	0183C7
-393E	015495
-393F	017B8D
-3940	014F30
-3941	016CBD
-3942	015B64
-3943	0159D1
-3944	019F13
-3945	0153E4
-3946	0186CA
-3947	019AA8
-3948	018C37
-3949	0180A1
-394A	016545
-394B	01987E
-394C	0156FA
-394D	0196C7
-394E	01522E
-394F	0174DC
-3950	015250
-3951	015BE1
-3952	016302
-3953	018902
-3954	014E56
-3955	0162D0
-3956	01602A
-3957	0168FA
-3958	015173
-3959	015B98
-395A	0151A0
-395B	0189C2
-395C	017BA1
-395D	019986
-395E	017F50
-395F	0160EF
-3960	01704C
-3961	018D2F
-3962	015149
-3963	015E7F
-3964	01901B
-3965	017470
-3966	0189C4
-3967	01572D
-3968	017845
-3969	015F52
-396A	019F9F
-396B	0195FA
-396C	018F68
-396D	019B3C
-396E	018BE1
-396F	017678
-3970	016842
-3971	0167DC
-3972	018DEA
-3973	018D35
-3974	01523D
-3975	018F8A
-3976	016EDA
-3977	0168CD
-3978	019505
-3979	0190ED
-397A	0156FD
-397B	01679C
-397C	0188F9
-397D	018FC7
-397E	0154C8
-3A21	019AB8
-3A22	015B69
-3A23	016D77
-3A24	016C26
-3A25	014EA5
-3A26	015BB3
-3A27	019A87
-3A28	019163
-3A29	0161A8
-3A2A	0190AF
-3A2B	0197E9
-3A2C	01542B
-3A2D	016DB5
-3A2E	015BD2
-3A2F	0151FD
-3A30	01558A
-3A31	017F55
-3A32	017FF0
-3A33	0164BC
-3A34	01634D
-3A35	0165F1
-3A36	0161BE
-3A37	01608D
-3A38	01710A
-3A39	016C57
-3A3A	016C49
-3A3B	01592F
-3A3C	01676D
-3A3D	01822A
-3A3E	0158D5
-3A3F	01568E
-3A40	018C6A
-3A41	016BEB
-3A42	0190DD
-3A43	01597D
-3A44	018017
-3A45	0153F7
-3A46	016D69
-3A47	015475
-3A48	01559D
-3A49	018377
-3A4A	0183CF
-3A4B	016838
-3A4C	0179BE
-3A4D	01548C
-3A4E	014F55
-3A4F	015408
-3A50	0176D2
-3A51	018C89
-3A52	019602
-3A53	016CB3
-3A54	016DB8
-3A55	018D6B
-3A56	018910
-3A57	019E64
-3A58	018D3A
-3A59	01563F
-3A5A	019ED1
-3A5B	0175D5
-3A5C	015F88
-3A5D	0172E0
-3A5E	016068
-3A5F	0154FC
-3A60	014EA8
-3A61	016A2A
-3A62	018861
-3A63	016052
-3A64	018F70
-3A65	0154C4
-3A66	0170D8
-3A67	018679
-3A68	019E3F
-3A69	016D2A
-3A6A	015B8F
-3A6B	015F18
-3A6C	017EA2
-3A6D	015589
-3A6E	014FAF
-3A6F	017334
-3A70	01543C
-3A71	01539A
-3A72	015019
-3A73	01540E
-3A74	01547C
-3A75	014E4E
-3A76	015FFD
-3A77	01745A
-3A78	0158F6
-3A79	01846B
-3A7A	0180E1
-3A7B	018774
-3A7C	0172D0
-3A7D	017CCA
-3A7E	016E56
-3B21	015F27
-3B22	01864E
-3B23	01552C
-3B24	0162A4
-3B25	014E92
-3B26	016CAA
-3B27	016237
-3B28	0182B1
-3B29	0154D7
-3B2A	01534E
-3B2B	01733E
-3B2C	016ED1
-3B2D	01753B
-3B2E	015212
-3B2F	015316
-3B30	018BDD
-3B31	0169D0
-3B32	015F8A
-3B33	016000
-3B34	016DEE
-3B35	01574F
-3B36	016B22
-3B37	0173AF
-3B38	016853
-3B39	018FD8
-3B3A	017F13
-3B3B	016362
-3B3C	0160A3
-3B3D	015524
-3B3E	0175EA
-3B3F	018C62
-3B40	017115
-3B41	016DA3
-3B42	015BA6
-3B43	015E7B
-3B44	018352
-3B45	01614C
-3B46	019EC4
-3B47	0178FA
-3B48	018757
-3B49	017C27
-3B4A	017687
-3B4B	0151F0
-3B4C	0160F6
-3B4D	01714C
-3B4E	016643
-3B4F	015E4C
-3B50	01604D
-3B51	018C0E
-3B52	017070
-3B53	016325
-3B54	018F89
-3B55	015FBD
-3B56	016062
-3B57	0186D4
-3B58	0156DE
-3B59	016BC1
-3B5A	016094
-3B5B	016167
-3B5C	015349
-3B5D	0160E0
-3B5E	016666
-3B5F	018D3F
-3B60	0179FD
-3B61	014F1A
-3B62	0170E9
-3B63	016C47
-3B64	018BB3
-3B65	018BF2
-3B66	017ED8
-3B67	018364
-3B68	01660F
-3B69	015A5A
-3B6A	019B42
-3B6B	016D51
-3B6C	016DF7
-3B6D	018C41
-3B6E	016D3B
-3B6F	014F19
-3B70	01706B
-3B71	0183B7
-3B72	016216
-3B73	0160D1
-3B74	01970D
-3B75	018D27
-3B76	017978
-3B77	0151FB
-3B78	01573E
-3B79	0157FA
-3B7A	01673A
-3B7B	017578
-3B7C	017A3D
-3B7D	0179EF
-3B7E	017B95
-3C21	01808C
-3C22	019965
-3C23	018FF9
-3C24	016FC0
-3C25	018BA5
-3C26	019E21
-3C27	0159EC
-3C28	017EE9
-3C29	017F09
-3C2A	015409
-3C2B	016781
-3C2C	0168D8
-3C2D	018F91
-3C2E	017C4D
-3C2F	0196C6
-3C30	0153CA
-3C31	016025
-3C32	0175BE
-3C33	016C72
-3C34	015373
-3C35	015AC9
-3C36	017EA7
-3C37	016324
-3C38	0151E0
-3C39	01810A
-3C3A	015DF1
-3C3B	0184DF
-3C3C	016280
-3C3D	015180
-3C3E	015B63
-3C3F	014F0E
-3C40	01796D
-3C41	015242
-3C42	0160B8
-3C43	016D4E
-3C44	015BC4
-3C45	015BC2
-3C46	018BA1
-3C47	018BB0
-3C48	0165E2
-3C49	015FCC
-3C4A	019645
-3C4B	015993
-3C4C	017EE7
-3C4D	017EAA
-3C4E	015609
-3C4F	0167B7
-3C50	015939
-3C51	014F73
-3C52	015BB6
-3C53	0152A0
-3C54	01835A
-3C55	01988A
-3C56	018D3E
-3C57	017532
-3C58	0194BE
-3C59	015047
-3C5A	017A3C
-3C5B	014EF7
-3C5C	0167B6
-3C5D	019A7E
-3C5E	015AC1
-3C5F	016B7C
-3C60	0176D1
-3C61	01575A
-3C62	015C16
-3C63	017B3A
-3C64	0195F4
-3C65	01714E
-3C66	01517C
-3C67	0180A9
-3C68	018270
-3C69	015978
-3C6A	017F04
-3C6B	018327
-3C6C	0168C0
-3C6D	0167EC
-3C6E	0178B1
-3C6F	017877
-3C70	0162E3
-3C71	016361
-3C72	017B80
-3C73	014FED
-3C74	01526A
-3C75	0151CF
-3C76	018350
-3C77	0169DB
-3C78	019274
-3C79	018DF5
-3C7A	018D31
-3C7B	0189C1
-3C7C	01952E
-3C7D	017BAD
-3C7E	014EF6
-3D21	015065
-3D22	018230
-3D23	015251
-3D24	01996F
-3D25	016E10
-3D26	016E85
-3D27	016DA7
-3D28	015EFA
-3D29	0150F5
-3D2A	0159DC
-3D2B	015C06
-3D2C	016D46
-3D2D	016C5F
-3D2E	017586
-3D2F	01848B
-3D30	016868
-3D31	015956
-3D32	018BB2
-3D33	015320
-3D34	019171
-3D35	01964D
-3D36	018549
-3D37	016912
-3D38	017901
-3D39	017126
-3D3A	0180F6
-3D3B	014EA4
-3D3C	0190CA
-3D3D	016D47
-3D3E	019A84
-3D3F	015A07
-3D40	0156BC
-3D41	016405
-3D42	0194F0
-3D43	0177EB
-3D44	014FA5
-3D45	01811A
-3D46	0172E1
-3D47	0189D2
-3D48	01997A
-3D49	017F34
-3D4A	017EDE
-3D4B	01527F
-3D4C	016559
-3D4D	019175
-3D4E	018F7F
-3D4F	018F83
-3D50	0153EB
-3D51	017A96
-3D52	0163ED
-3D53	0163A5
-3D54	017686
-3D55	0179F8
-3D56	018857
-3D57	019636
-3D58	01622A
-3D59	0152AB
-3D5A	018282
-3D5B	016854
-3D5C	016770
-3D5D	016377
-3D5E	01776B
-3D5F	017AED
-3D60	016D01
-3D61	017ED3
-3D62	0189E3
-3D63	0159D0
-3D64	016212
-3D65	0185C9
-3D66	0182A5
-3D67	01754C
-3D68	01501F
-3D69	014ECB
-3D6A	0175A5
-3D6B	018BEB
-3D6C	015C4A
-3D6D	015DFE
-3D6E	017B4B
-3D6F	0165A4
-3D70	0191D1
-3D71	014ECA
-3D72	016D25
-3D73	01895F
-3D74	017D27
-3D75	019526
-3D76	014EC5
-3D77	018C28
-3D78	018FDB
-3D79	019773
-3D7A	01664B
-3D7B	017981
-3D7C	018FD1
-3D7D	0170EC
-3D7E	016D78
-3E21	015C3D
-3E22	0152B2
-3E23	018346
-3E24	015162
-3E25	01830E
-3E26	01775B
-3E27	016676
-3E28	019CB8
-3E29	014EAC
-3E2A	0160CA
-3E2B	017CBE
-3E2C	017CB3
-3E2D	017ECF
-3E2E	014E95
-3E2F	018B66
-3E30	01666F
-3E31	019888
-3E32	019759
-3E33	015883
-3E34	01656C
-3E35	01955C
-3E36	015F84
-3E37	0175C9
-3E38	019756
-3E39	017ADF
-3E3A	017ADE
-3E3B	0151C0
-3E3C	0170AF
-3E3D	017A98
-3E3E	0163EA
-3E3F	017A76
-3E40	017EA0
-3E41	017396
-3E42	0197ED
-3E43	014E45
-3E44	017078
-3E45	014E5D
-3E46	019152
-3E47	0153A9
-3E48	016551
-3E49	0165E7
-3E4A	0181FC
-3E4B	018205
-3E4C	01548E
-3E4D	015C31
-3E4E	01759A
-3E4F	0197A0
-3E50	0162D8
-3E51	0172D9
-3E52	0175BD
-3E53	015C45
-3E54	019A79
-3E55	0183CA
-3E56	015C40
-3E57	015480
-3E58	0177E9
-3E59	014E3E
-3E5A	016CAE
-3E5B	01805A
-3E5C	0162D2
-3E5D	01636E
-3E5E	015DE8
-3E5F	015177
-3E60	018DDD
-3E61	018E1E
-3E62	01952F
-3E63	014FF1
-3E64	0153E5
-3E65	0160E7
-3E66	0170AC
-3E67	015267
-3E68	016350
-3E69	019E43
-3E6A	015A1F
-3E6B	015026
-3E6C	017737
-3E6D	015377
-3E6E	017EE2
-3E6F	016485
-3E70	01652B
-3E71	016289
-3E72	016398
-3E73	015014
-3E74	017235
-3E75	0189C9
-3E76	0151B3
-3E77	018BC0
-3E78	017EDD
-3E79	015747
-3E7A	0183CC
-3E7B	0194A7
-3E7C	01519B
-3E7D	01541B
-3E7E	015CFB
-3F21	014FCA
-3F22	017AE3
-3F23	016D5A
-3F24	0190E1
-3F25	019A8F
-3F26	015580
-3F27	015496
-3F28	015361
-3F29	0154AF
-3F2A	015F00
-3F2B	0163E9
-3F2C	016977
-3F2D	0151EF
-3F2E	016168
-3F2F	01520A
-3F30	01582A
-3F31	0152D8
-3F32	01574E
-3F33	01780D
-3F34	01770B
-3F35	015EB7
-3F36	016177
-3F37	017CE0
-3F38	01625B
-3F39	016297
-3F3A	014EA2
-3F3B	017095
-3F3C	018003
-3F3D	0162F7
-3F3E	0170E4
-3F3F	019760
-3F40	015777
-3F41	0182DB
-3F42	0167EF
-3F43	0168F5
-3F44	0178D5
-3F45	019897
-3F46	0179D1
-3F47	0158F3
-3F48	0154B3
-3F49	0153EF
-3F4A	016E34
-3F4B	01514B
-3F4C	01523B
-3F4D	015BA2
-3F4E	018BFE
-3F4F	0180AF
-3F50	015543
-3F51	0157A6
-3F52	016073
-3F53	015751
-3F54	01542D
-3F55	017A7A
-3F56	016050
-3F57	015B54
-3F58	0163A7
-3F59	0162A0
-3F5A	0153E3
-3F5B	016263
-3F5C	015BC7
-3F5D	0167AF
-3F5E	0154ED
-3F5F	017A9F
-3F60	0182E6
-3F61	019177
-3F62	015E93
-3F63	0188E4
-3F64	015938
-3F65	0157AE
-3F66	01630E
-3F67	018DE8
-3F68	0180EF
-3F69	015757
-3F6A	017B77
-3F6B	014FA9
-3F6C	015FEB
-3F6D	015BBD
-3F6E	016B3E
-3F6F	015321
-3F70	017B50
-3F71	0172C2
-3F72	016846
-3F73	0177FF
-3F74	017736
-3F75	0165F7
-3F76	0151B5
-3F77	014E8F
-3F78	0176D4
-3F79	015CBF
-3F7A	017AA5
-3F7B	018475
-3F7C	01594E
-3F7D	019B41
-3F7E	015080
-4021	019988
-4022	016127
-4023	016E83
-4024	015764
-4025	016606
-4026	016346
-4027	0156F0
-4028	0162EC
-4029	016269
-402A	015ED3
-402B	019614
-402C	015783
-402D	0162C9
-402E	015587
-402F	018721
-4030	01814A
-4031	018FA3
-4032	015566
-4033	0183B1
-4034	016765
-4035	018D56
-4036	0184DD
-4037	015A6A
-4038	01680F
-4039	0162E6
-403A	017BEE
-403B	019611
-403C	015170
-403D	016F9C
-403E	018C30
-403F	0163FD
-4040	0189C8
-4041	0161D2
-4042	017F06
-4043	0170C2
-4044	016EE5
-4045	017405
-4046	016994
-4047	0172FC
-4048	015ECA
-4049	0190CE
-404A	016717
-404B	016D6A
-404C	01635E
-404D	0152B3
-404E	017262
-404F	018001
-4050	014F6C
-4051	0159E5
-4052	01916A
-4053	0170D9
-4054	016D9D
-4055	0152D2
-4056	014E50
-4057	0196F7
-4058	01956D
-4059	01857E
-405A	0178CA
-405B	017D2F
-405C	015121
-405D	015792
-405E	0164C2
-405F	01808B
-4060	017C7B
-4061	016CEA
-4062	0168F1
-4063	01695E
-4064	0151B7
-4065	015398
-4066	0168A8
-4067	017281
-4068	019ECE
-4069	017BF1
-406A	0172F8
-406B	0179BB
-406C	016F13
-406D	017406
-406E	01674E
-406F	0191CC
-4070	019CA4
-4071	01793C
-4072	018389
-4073	018354
-4074	01540F
-4075	016817
-4076	014E3D
-4077	015389
-4078	0152B1
-4079	01783E
-407A	015386
-407B	015229
-407C	015088
-407D	014F8B
-407E	014FD0
-4121	0175E2
-4122	017ACB
-4123	017C92
-4124	016CA5
-4125	0196B6
-4126	01529B
-4127	017483
-4128	0154E9
-4129	014FE9
-412A	018054
-412B	0183B2
-412C	018FDE
-412D	019570
-412E	015EC9
-412F	01601C
-4130	016D9F
-4131	015E18
-4132	01655B
-4133	018138
-4134	0194FE
-4135	01604B
-4136	0170BC
-4137	017EC3
-4138	017CAE
-4139	0151C9
-413A	016881
-413B	017CB1
-413C	01826F
-413D	014E24
-413E	018F86
-413F	0191CF
-4140	01667E
-4141	014EAE
-4142	018C05
-4143	0164A9
-4144	01804A
-4145	0150DA
-4146	017597
-4147	0171CE
-4148	015BE5
-4149	018FBD
-414A	016F66
-414B	014E86
-414C	016482
-414D	019563
-414E	015ED6
-414F	016599
-4150	015217
-4151	0188C2
-4152	0170C8
-4153	0152A3
-4154	01730E
-4155	017433
-4156	016797
-4157	0178F7
-4158	019716
-4159	014E34
-415A	0190BB
-415B	019CDE
-415C	016DCB
-415D	0151DB
-415E	018D41
-415F	01541D
-4160	0162CE
-4161	0173B2
-4162	0183F1
-4163	0196F6
-4164	019F84
-4165	0194C3
-4166	014F36
-4167	017F9A
-4168	0151CC
-4169	017075
-416A	019675
-416B	015CAD
-416C	019886
-416D	0153E6
-416E	014EE4
-416F	016E9C
-4170	017409
-4171	0169B4
-4172	01786B
-4173	01998F
-4174	017559
-4175	015218
-4176	017624
-4177	016D41
-4178	0167F3
-4179	01516D
-417A	019F99
-417B	01804B
-417C	015499
-417D	017B3C
-417E	017ABF
-4221	019686
-4222	015784
-4223	0162E2
-4224	019647
-4225	01697C
-4226	015A04
-4227	016402
-4228	017BD3
-4229	016F0F
-422A	01964B
-422B	0182A6
-422C	015362
-422D	019885
-422E	015E90
-422F	017089
-4230	0163B3
-4231	015364
-4232	01864F
-4233	019C81
-4234	019E93
-4235	01788C
-4236	019732
-4237	018DEF
-4238	018D42
-4239	019E7F
-423A	016F5E
-423B	017984
-423C	015F55
-423D	019646
-423E	01622E
-423F	019A74
-4240	015415
-4241	0194DD
-4242	014FA3
-4243	0165C5
-4244	015C65
-4245	015C61
-4246	017F15
-4247	018651
-4248	016C2F
-4249	015F8B
-424A	017387
-424B	016EE4
-424C	017EFF
-424D	015CE6
-424E	01631B
-424F	015B6A
-4250	016EE6
-4251	015375
-4252	014E71
-4253	0163A0
-4254	017565
-4255	0162A1
-4256	018F6E
-4257	014F26
-4258	014ED1
-4259	016CA6
-425A	017EB6
-425B	018BBA
-425C	01841D
-425D	0187BA
-425E	017F57
-425F	01903B
-4260	019523
-4261	017BA9
-4262	019AA1
-4263	0188F8
-4264	01843D
-4265	016D1B
-4266	019A86
-4267	017EDC
-4268	015988
-4269	019EBB
-426A	01739B
-426B	017801
-426C	018682
-426D	019A6C
-426E	019A82
-426F	01561B
-4270	015417
-4271	0157CB
-4272	014E70
-4273	019EA6
-4274	015356
-4275	018FC8
-4276	018109
-4277	017792
-4278	019992
-4279	0186EE
-427A	016EE1
-427B	018513
-427C	0166FC
-427D	016162
-427E	016F2B
-4321	018C29
-4322	018292
-4323	01832B
-4324	0176F2
-4325	016C13
-4326	015FD9
-4327	0183BD
-4328	01732B
-4329	018305
-432A	01951A
-432B	016BDB
-432C	0177DB
-432D	0194C6
-432E	01536F
-432F	018302
-4330	015192
-4331	015E3D
-4332	018C8C
-4333	018D38
-4334	014E48
-4335	0173AB
-4336	01679A
-4337	016885
-4338	019176
-4339	019709
-433A	017164
-433B	016CA1
-433C	017709
-433D	015A92
-433E	019541
-433F	016BCF
-4340	017F8E
-4341	016627
-4342	015BD0
-4343	0159B9
-4344	015A9A
-4345	0195E8
-4346	0195F7
-4347	014EEC
-4348	01840C
-4349	018499
-434A	016AAC
-434B	0176DF
-434C	019530
-434D	01731B
-434E	0168A6
-434F	015B5F
-4350	01772F
-4351	01919A
-4352	019761
-4353	017CDC
-4354	018FF7
-4355	018C1C
-4356	015F25
-4357	017C73
-4358	0179D8
-4359	0189C5
-435A	016CCC
-435B	01871C
-435C	015BC6
-435D	015E42
-435E	0168C9
-435F	017720
-4360	017EF5
-4361	015195
-4362	01514D
-4363	0152C9
-4364	015A29
-4365	017F05
-4366	019762
-4367	0182D7
-4368	0163CF
-4369	017784
-436A	0185D0
-436B	0179D2
-436C	016E3A
-436D	015E99
-436E	015999
-436F	018511
-4370	01706D
-4371	016C11
-4372	0162BF
-4373	0176BF
-4374	01654F
-4375	0160AF
-4376	0195FD
-4377	01660E
-4378	01879F
-4379	019E23
-437A	0194ED
-437B	01540D
-437C	01547D
-437D	018C2C
-437E	016478
-4421	016479
-4422	018611
-4423	016A21
-4424	01819C
-4425	0178E8
-4426	016469
-4427	019B54
-4428	0162B9
-4429	01672B
-442A	0183AB
-442B	0158A8
-442C	019ED8
-442D	016CAB
-442E	016F20
-442F	015BDE
-4430	01964C
-4431	018C0B
-4432	01725F
-4433	0167D0
-4434	0162C7
-4435	017261
-4436	014EA9
-4437	0159C6
-4438	016BCD
-4439	015893
-443A	0166AE
-443B	015E55
-443C	0152DF
-443D	016155
-443E	016728
-443F	0176EE
-4440	017766
-4441	017267
-4442	017A46
-4443	0162FF
-4444	0154EA
-4445	015450
-4446	0194A0
-4447	0190A3
-4448	015A1C
-4449	017EB3
-444A	016C16
-444B	014E43
-444C	015976
-444D	018010
-444E	015948
-444F	015357
-4450	017537
-4451	0196BE
-4452	0156CA
-4453	016320
-4454	018111
-4455	01607C
-4456	0195F9
-4457	016DD6
-4458	015462
-4459	019981
-445A	015185
-445B	015AE9
-445C	0180FD
-445D	0159AE
-445E	019713
-445F	01502A
-4460	016CE5
-4461	015C3C
-4462	0162DF
-4463	014F60
-4464	01533F
-4465	01817B
-4466	019006
-4467	016EBA
-4468	01852B
-4469	0162C8
-446A	015E74
-446B	0178BE
-446C	0164B5
-446D	01637B
-446E	015FF5
-446F	015A18
-4470	01917F
-4471	019E1F
-4472	015C3F
-4473	01634F
-4474	018042
-4475	015B7D
-4476	01556E
-4477	01954A
-4478	01954D
-4479	016D85
-447A	0160A8
-447B	0167E0
-447C	0172DE
-447D	0151DD
-447E	015B81
-4521	0162E7
-4522	016CDE
-4523	01725B
-4524	01626D
-4525	0194AE
-4526	017EBD
-4527	018113
-4528	016D53
-4529	01519C
-452A	015F04
-452B	015974
-452C	0152AA
-452D	016012
-452E	015973
-452F	016696
-4530	018650
-4531	01759F
-4532	01632A
-4533	0161E6
-4534	017CEF
-4535	018BFA
-4536	0154E6
-4537	016B27
-4538	019E25
-4539	016BB4
-453A	0185D5
-453B	015455
-453C	015076
-453D	016CA4
-453E	01556A
-453F	018DB4
-4540	01722C
-4541	015E15
-4542	016015
-4543	017436
-4544	0162CD
-4545	016392
-4546	01724C
-4547	015F98
-4548	016E43
-4549	016D3E
-454A	016500
-454B	016F58
-454C	0176D8
-454D	0178D0
-454E	0176FC
-454F	017554
-4550	015224
-4551	0153DB
-4552	014E53
-4553	015E9E
-4554	0165C1
-4555	01802A
-4556	0180D6
-4557	01629B
-4558	015486
-4559	015228
-455A	0170AE
-455B	01888D
-455C	018DD1
-455D	016CE1
-455E	015478
-455F	0180DA
-4560	0157F9
-4561	0188F4
-4562	018D54
-4563	01966A
-4564	01914D
-4565	014F69
-4566	016C9B
-4567	0155B7
-4568	0176C6
-4569	017830
-456A	0162A8
-456B	0170F9
-456C	016F8E
-456D	015F6D
-456E	0184EC
-456F	0168DA
-4570	01787C
-4571	017BF7
-4572	0181A8
-4573	01670B
-4574	019E4F
-4575	016367
-4576	0178B0
-4577	01576F
-4578	017812
-4579	019739
-457A	016279
-457B	0162AB
-457C	015288
-457D	017435
-457E	016BD7
-4621	015564
-4622	01813E
-4623	0175B2
-4624	0176AE
-4625	015339
-4626	0175DE
-4627	0150FB
-4628	015C41
-4629	018B6C
-462A	017BC7
-462B	01504F
-462C	017247
-462D	019A97
-462E	0198D8
-462F	016F02
-4630	0174E2
-4631	017968
-4632	016487
-4633	0177A5
-4634	0162FC
-4635	019891
-4636	018D2B
-4637	0154C1
-4638	018058
-4639	014E52
-463A	01576A
-463B	0182F9
-463C	01840D
-463D	015E73
-463E	0151ED
-463F	0174F6
-4640	018BC4
-4641	015C4F
-4642	015761
-4643	016CFC
-4644	019887
-4645	015A46
-4646	017834
-4647	019B44
-4648	018FEB
-4649	017C95
-464A	015256
-464B	016251
-464C	0194FA
-464D	014EC6
-464E	018386
-464F	018461
-4650	0183E9
-4651	0184B2
-4652	0157D4
-4653	016734
-4654	015703
-4655	01666E
-4656	016D66
-4657	018C31
-4658	0166DD
-4659	017011
-465A	01671F
-465B	016B3A
-465C	016816
-465D	01621A
-465E	0159BB
-465F	014E03
-4660	0151C4
-4661	016F06
-4662	0167D2
-4663	016C8F
-4664	015176
-4665	0168CB
-4666	015947
-4667	016B67
-4668	017566
-4669	015D0E
-466A	018110
-466B	019F50
-466C	0165D7
-466D	017948
-466E	017941
-466F	019A91
-4670	018D77
-4671	015C82
-4672	014E5E
-4673	014F01
-4674	01542F
-4675	015951
-4676	01780C
-4677	015668
-4678	016C14
-4679	018FC4
-467A	015F03
-467B	016C7D
-467C	016CE3
-467D	018BAB
-467E	016390
-4721	016070
-4722	016D3D
-4723	017275
-4724	016266
-4725	01948E
-4726	0194C5
-4727	015343
-4728	018FC1
-4729	017B7E
-472A	014EDF
-472B	018C26
-472C	014E7E
-472D	019ED4
-472E	0194B1
-472F	0194B3
-4730	01524D
-4731	016F5C
-4732	019063
-4733	016D45
-4734	018C34
-4735	015811
-4736	015D4C
-4737	016B20
-4738	016B49
-4739	0167AA
-473A	01545B
-473B	018154
-473C	017F8C
-473D	015899
-473E	018537
-473F	015F3A
-4740	0162A2
-4741	016A47
-4742	019539
-4743	016572
-4744	016084
-4745	016865
-4746	0177A7
-4747	014E54
-4748	014FA8
-4749	015DE7
-474A	019798
-474B	0164AC
-474C	017FD8
-474D	015CED
-474E	014FCF
-474F	017A8D
-4750	015207
-4751	018304
-4752	014E14
-4753	01602F
-4754	017A83
-4755	0194A6
-4756	014FB5
-4757	014EB2
-4758	0179E6
-4759	017434
-475A	0152E4
-475B	0182B9
-475C	0164D2
-475D	0179BD
-475E	015BDD
-475F	016C81
-4760	019752
-4761	018F7B
-4762	016C22
-4763	01503E
-4764	01537F
-4765	016E05
-4766	0164CE
-4767	016674
-4768	016C30
-4769	0160C5
-476A	019877
-476B	018BF7
-476C	015E86
-476D	01743C
-476E	017A77
-476F	0179CB
-4770	014E18
-4771	0190B1
-4772	017403
-4773	016C42
-4774	0156DA
-4775	01914B
-4776	016CC5
-4777	018D8B
-4778	01533A
-4779	0186C6
-477A	0166F2
-477B	018EAF
-477C	015C48
-477D	019A71
-477E	016E20
-4821	0153D6
-4822	015A36
-4823	019F8B
-4824	018DA3
-4825	0153BB
-4826	015708
-4827	0198A7
-4828	016743
-4829	01919B
-482A	016CC9
-482B	015168
-482C	0175CA
-482D	0162F3
-482E	0172AC
-482F	015238
-4830	01529D
-4831	017F3A
-4832	017094
-4833	017638
-4834	015374
-4835	019E4A
-4836	0169B7
-4837	01786E
-4838	0196C0
-4839	0188D9
-483A	017FA4
-483B	017136
-483C	0171C3
-483D	015189
-483E	0167D3
-483F	0174E4
-4840	0158E4
-4841	016518
-4842	0156B7
-4843	018BA9
-4844	019976
-4845	016270
-4846	017ED5
-4847	0160F9
-4848	0170ED
-4849	0158EC
-484A	014EC1
-484B	014EBA
-484C	015FCD
-484D	0197E7
-484E	014EFB
-484F	018BA4
-4850	015203
-4851	01598A
-4852	017EAB
-4853	016254
-4854	014ECD
-4855	0165E5
-4856	01620E
-4857	018338
-4858	0184C9
-4859	018363
-485A	01878D
-485B	017194
-485C	016EB6
-485D	015BB9
-485E	017ED2
-485F	015197
-4860	0163C9
-4861	0167D4
-4862	018089
-4863	018339
-4864	018815
-4865	015112
-4866	015B7A
-4867	015982
-4868	018FB1
-4869	014E73
-486A	016C5D
-486B	015165
-486C	018925
-486D	018F6F
-486E	01962E
-486F	01854A
-4870	01745E
-4871	019510
-4872	0195F0
-4873	016DA6
-4874	0182E5
-4875	015F31
-4876	016492
-4877	016D12
-4878	018428
-4879	01816E
-487A	019CC3
-487B	01585E
-487C	018D5B
-487D	014E09
-487E	0153C1
-4921	014F1E
-4922	016563
-4923	016851
-4924	0155D3
-4925	014E27
-4926	016414
-4927	019A9A
-4928	01626B
-4929	015AC2
-492A	01745F
-492B	018272
-492C	016DA9
-492D	0168EE
-492E	0150E7
-492F	01838E
-4930	017802
-4931	016740
-4932	015239
-4933	016C99
-4934	017EB1
-4935	0150BB
-4936	015565
-4937	01715E
-4938	017B5B
-4939	016652
-493A	0173CA
-493B	0182EB
-493C	016749
-493D	015C71
-493E	015220
-493F	01717D
-4940	01886B
-4941	0195EA
-4942	019655
-4943	0164C5
-4944	018D61
-4945	0181B3
-4946	015584
-4947	016C55
-4948	016247
-4949	017F2E
-494A	015892
-494B	014F24
-494C	015546
-494D	018D4F
-494E	01664C
-494F	014E0A
-4950	015C1A
-4951	0188F3
-4952	0168A2
-4953	01634E
-4954	017A0D
-4955	0170E7
-4956	01828D
-4957	0152FA
-4958	0197F6
-4959	015C11
-495A	0154E8
-495B	0190B5
-495C	017ECD
-495D	015962
-495E	018D4A
-495F	0186C7
-4960	01820C
-4961	01820D
-4962	018D66
-4963	016444
-4964	015C04
-4965	016151
-4966	016D89
-4967	01793E
-4968	018BBE
-4969	017837
-496A	017533
-496B	01547B
-496C	014F38
-496D	018EAB
-496E	016DF1
-496F	015A20
-4970	017EC5
-4971	01795E
-4972	016C88
-4973	015BA1
-4974	015A76
-4975	01751A
-4976	0180BE
-4977	01614E
-4978	016E17
-4979	0158F0
-497A	01751F
-497B	017525
-497C	017272
-497D	015347
-497E	017EF3
-4A21	017701
-4A22	0176DB
-4A23	015269
-4A24	0180DC
-4A25	015723
-4A26	015E08
-4A27	015931
-4A28	0172EE
-4A29	0165BD
-4A2A	016E7F
-4A2B	018BD7
-4A2C	015C38
-4A2D	018671
-4A2E	015341
-4A2F	0177F3
-4A30	0162FE
-4A31	0165F6
-4A32	014EC0
-4A33	0198DF
-4A34	018680
-4A35	015B9E
-4A36	018BC6
-4A37	0153F2
-4A38	0177E2
-4A39	014F7F
-4A3A	015C4E
-4A3B	019A76
-4A3C	0159CB
-4A3D	015F0F
-4A3E	01793A
-4A3F	0158EB
-4A40	014E16
-4A41	0167FF
-4A42	014E8B
-4A43	0162ED
-4A44	018A93
-4A45	01901D
-4A46	0152BF
-4A47	01662F
-4A48	0155DC
-4A49	01566C
-4A4A	019002
-4A4B	014ED5
-4A4C	014F8D
-4A4D	0191CA
-4A4E	019970
-4A4F	016C0F
-4A50	015E02
-4A51	016043
-4A52	015BA4
-4A53	0189C6
-4A54	018BD5
-4A55	016536
-4A56	01624B
-4A57	019996
-4A58	015B88
-4A59	015BFF
-4A5A	016388
-4A5B	01552E
-4A5C	0153D7
-4A5D	017626
-4A5E	01517D
-4A5F	01852C
-4A60	0167A2
-4A61	0168B3
-4A62	016B8A
-4A63	016292
-4A64	018F93
-4A65	0153D4
-4A66	018212
-4A67	016DD1
-4A68	01758F
-4A69	014E66
-4A6A	018D4E
-4A6B	015B70
-4A6C	01719F
-4A6D	0185AF
-4A6E	016691
-4A6F	0166D9
-4A70	017F72
-4A71	018700
-4A72	019ECD
-4A73	019F20
-4A74	015C5E
-4A75	01672F
-4A76	018FF0
-4A77	016811
-4A78	01675F
-4A79	01620D
-4A7A	017AD6
-4A7B	015885
-4A7C	015EB6
-4A7D	016570
-4A7E	016F31
-4B21	016055
-4B22	015237
-4B23	01800D
-4B24	016454
-4B25	018870
-4B26	017529
-4B27	015E05
-4B28	016813
-4B29	0162F4
-4B2A	01971C
-4B2B	0153CC
-4B2C	01723D
-4B2D	018C01
-4B2E	016C34
-4B2F	017761
-4B30	017A0E
-4B31	01542E
-4B32	0177AC
-4B33	01987A
-4B34	01821C
-4B35	018BF4
-4B36	017855
-4B37	016714
-4B38	0170C1
-4B39	0165AF
-4B3A	016495
-4B3B	015636
-4B3C	01601D
-4B3D	0179C1
-4B3E	0153F8
-4B3F	014E1D
-4B40	016B7B
-4B41	018086
-4B42	015BFA
-4B43	0155E3
-4B44	0156DB
-4B45	014F3A
-4B46	014F3C
-4B47	019972
-4B48	015DF3
-4B49	01677E
-4B4A	018038
-4B4B	016002
-4B4C	019882
-4B4D	019001
-4B4E	015B8B
-4B4F	018BBC
-4B50	018BF5
-4B51	01641C
-4B52	018258
-4B53	0164DE
-4B54	0155FD
-4B55	0182CF
-4B56	019165
-4B57	014FD7
-4B58	017D20
-4B59	01901F
-4B5A	017C9F
-4B5B	0150F3
-4B5C	015851
-4B5D	016EAF
-4B5E	015BBF
-4B5F	018BC9
-4B60	018083
-4B61	019178
-4B62	01849C
-4B63	017B97
-4B64	01867D
-4B65	01968B
-4B66	01968F
-4B67	017EE5
-4B68	019AD3
-4B69	01788E
-4B6A	015C81
-4B6B	017A57
-4B6C	019042
-4B6D	0196A7
-4B6E	01795F
-4B6F	015B59
-4B70	01635F
-4B71	017B0B
-4B72	0184D1
-4B73	0168AD
-4B74	015506
-4B75	017F29
-4B76	017410
-4B77	017D22
-4B78	019501
-4B79	016240
-4B7A	01584C
-4B7B	014ED6
-4B7C	015B83
-4B7D	015979
-4B7E	015854
-4C21	01736D
-4C22	01631E
-4C23	018E4B
-4C24	018E0F
-4C25	0180CE
-4C26	0182D4
-4C27	0162AC
-4C28	0153F0
-4C29	016CF0
-4C2A	01915E
-4C2B	01592A
-4C2C	016001
-4C2D	016C70
-4C2E	01574D
-4C2F	01644A
-4C30	018D2A
-4C31	01762B
-4C32	016EE9
-4C33	01575B
-4C34	016A80
-4C35	0175F0
-4C36	016F6D
-4C37	018C2D
-4C38	018C08
-4C39	015766
-4C3A	016BEF
-4C3B	018892
-4C3C	0178B3
-4C3D	0163A2
-4C3E	0153F9
-4C3F	0170AD
-4C40	016C64
-4C41	015858
-4C42	01642A
-4C43	015802
-4C44	0168E0
-4C45	01819B
-4C46	015510
-4C47	017CD6
-4C48	015018
-4C49	018EBA
-4C4A	016DCC
-4C4B	018D9F
-4C4C	0170EB
-4C4D	01638F
-4C4E	016D9B
-4C4F	016ED4
-4C50	017EE6
-4C51	018404
-4C52	016843
-4C53	019003
-4C54	016DD8
-4C55	019676
-4C56	018BA8
-4C57	015957
-4C58	017279
-4C59	0185E4
-4C5A	01817E
-4C5B	0175BC
-4C5C	018A8A
-4C5D	0168AF
-4C5E	015254
-4C5F	018E22
-4C60	019511
-4C61	0163D0
-4C62	019898
-4C63	018E44
-4C64	01557C
-4C65	014F53
-4C66	0166FF
-4C67	01568F
-4C68	0160D5
-4C69	016D95
-4C6A	015243
-4C6B	015C49
-4C6C	015929
-4C6D	016DFB
-4C6E	01586B
-4C6F	017530
-4C70	01751C
-4C71	01606C
-4C72	018214
-4C73	018146
-4C74	016311
-4C75	016761
-4C76	018FE2
-4C77	01773A
-4C78	018DF3
-4C79	018D34
-4C7A	0194C1
-4C7B	015E16
-4C7C	015385
-4C7D	01542C
-4C7E	0170C3
-4D21	016C40
-4D22	015EF7
-4D23	01505C
-4D24	014EAD
-4D25	015EAD
-4D26	01633A
-4D27	018247
-4D28	01901A
-4D29	016850
-4D2A	01916E
-4D2B	0177B3
-4D2C	01540C
-4D2D	0194DC
-4D2E	015F64
-4D2F	017AE5
-4D30	016876
-4D31	016345
-4D32	017B52
-4D33	017EDF
-4D34	0175DB
-4D35	015077
-4D36	016295
-4D37	015934
-4D38	01900F
-4D39	0151F8
-4D3A	0179C3
-4D3B	017A81
-4D3C	0156FE
-4D3D	015F92
-4D3E	019014
-4D3F	016D82
-4D40	015C60
-4D41	01571F
-4D42	015410
-4D43	015154
-4D44	016E4D
-4D45	0156E2
-4D46	0163A8
-4D47	019893
-4D48	01817F
-4D49	018715
-4D4A	01892A
-4D4B	019000
-4D4C	01541E
-4D4D	015C6F
-4D4E	0181C0
-4D4F	0162D6
-4D50	016258
-4D51	018131
-4D52	019E35
-4D53	019640
-4D54	019A6E
-4D55	019A7C
-4D56	01692D
-4D57	0159A5
-4D58	0162D3
-4D59	01553E
-4D5A	016316
-4D5B	0154C7
-4D5C	0186D9
-4D5D	016D3C
-4D5E	015A03
-4D5F	0174E6
-4D60	01889C
-4D61	016B6A
-4D62	015916
-4D63	018C4C
-4D64	015F2F
-4D65	016E7E
-4D66	0173A9
-4D67	01987D
-4D68	014E38
-4D69	0170F7
-4D6A	015B8C
-4D6B	017897
-4D6C	01633D
-4D6D	01665A
-4D6E	017696
-4D6F	0160CB
-4D70	015B9B
-4D71	015A49
-4D72	014E07
-4D73	018155
-4D74	016C6A
-4D75	01738B
-4D76	014EA1
-4D77	016789
-4D78	017F51
-4D79	015F80
-4D7A	0165FA
-4D7B	01671B
-4D7C	015FD8
-4D7D	015984
-4D7E	015A01
-4E21	015DCD
-4E22	015FAE
-4E23	015371
-4E24	0197E6
-4E25	018FDD
-4E26	016845
-4E27	0156F4
-4E28	01552F
-4E29	0160DF
-4E2A	014E3A
-4E2B	016F4D
-4E2C	017EF4
-4E2D	0182C7
-4E2E	01840E
-4E2F	0159D4
-4E30	014F1F
-4E31	014F2A
-4E32	015C3E
-4E33	017EAC
-4E34	01672A
-4E35	01851A
-4E36	015473
-4E37	01754F
-4E38	0180C3
-4E39	015582
-4E3A	019B4F
-4E3B	014F4D
-4E3C	016E2D
-4E3D	018C13
-4E3E	015C09
-4E3F	016170
-4E40	01536B
-4E41	01761F
-4E42	016E29
-4E43	01868A
-4E44	016587
-4E45	0195FB
-4E46	017EB9
-4E47	01543B
-4E48	017A33
-4E49	017D0A
-4E4A	0195EE
-4E4B	0155E1
-4E4C	017FC1
-4E4D	0174EE
-4E4E	01631D
-4E4F	018717
-4E50	016DA1
-4E51	017A9D
-4E52	016211
-4E53	0165A1
-4E54	015367
-4E55	0163E1
-4E56	016C83
-4E57	015DEB
-4E58	01545C
-4E59	0194A8
-4E5A	014E4C
-4E5B	016C61
-4E5C	018BEC
-4E5D	015C4B
-4E5E	0165E0
-4E5F	01829C
-4E60	0168A7
-4E61	01543E
-4E62	015434
-4E63	016BCB
-4E64	016B66
-4E65	014E94
-4E66	016342
-4E67	015348
-4E68	01821E
-4E69	014F0D
-4E6A	014FAE
-4E6B	01575E
-4E6C	01620A
-4E6D	0196FE
-4E6E	016664
-4E6F	017269
-4E70	0152FF
-4E71	0152A1
-4E72	01609F
-4E73	018BEF
-4E74	016614
-4E75	017199
-4E76	016790
-4E77	01897F
-4E78	017852
-4E79	0177FD
-4E7A	016670
-4E7B	01563B
-4E7C	015438
-4E7D	019521
-4E7E	01727A
-4F21	017A00
-4F22	01606F
-4F23	015E0C
-4F24	016089
-4F25	01819D
-4F26	015915
-4F27	0160DC
-4F28	017184
-4F29	0170EF
-4F2A	016EAA
-4F2B	016C50
-4F2C	017280
-4F2D	016A84
-4F2E	0188AD
-4F2F	015E2D
-4F30	014E60
-4F31	015AB3
-4F32	01559C
-4F33	0194E3
-4F34	016D17
-4F35	017CFB
-4F36	019699
-4F37	01620F
-4F38	017EC6
-4F39	01778E
-4F3A	01867E
-4F3B	015323
-4F3C	01971E
-4F3D	018F96
-4F3E	016687
-4F3F	015CE1
-4F40	014FA0
-4F41	0172ED
-4F42	014E0B
-4F43	0153A6
-4F44	01590F
-4F45	015413
-4F46	016380
-4F47	019528
-4F48	015148
-4F49	014ED9
-4F4A	019C9C
-4F4B	017EA4
-4F4C	0154B8
-4F4D	018D24
-4F4E	018854
-4F4F	018237
-4F50	0195F2
-4F51	016D8E
-4F52	015F26
-4F53	015ACC
-4F54	01663E
-4F55	019669
-4F56	0173B0
-4F57	01732E
-4F58	0153BF
-4F59	01817A
-4F5A	019985
-4F5B	017FA1
-4F5C	015BAA
-4F5D	019677
-4F5E	019650
-4F5F	017EBF
-4F60	0176F8
-4F61	0153A2
-4F62	019576
-4F63	019999
-4F64	017BB1
-4F65	018944
-4F66	016E58
-4F67	014E61
-4F68	017FD4
-4F69	017965
-4F6A	018BE6
-4F6B	0160F3
-4F6C	0154CD
-4F6D	014EAB
-4F6E	019879
-4F6F	015DF7
-4F70	016A61
-4F71	0150CF
-4F72	015411
-4F73	018C61
-4F74	018427
-4F75	01785D
-4F76	019704
-4F77	01524A
-4F78	0154EE
-4F79	0156A3
-4F7A	019500
-4F7B	016D88
-4F7C	015BB5
-4F7D	016DC6
-4F7E	016653
-5021	015C0F
-5022	015B5D
-5023	016821
-5024	018096
-5025	015578
-5026	017B11
-5027	016548
-5028	016954
-5029	014E9B
-502A	016B47
-502B	01874E
-502C	01978B
-502D	01534F
-502E	01631F
-502F	01643A
-5030	0190AA
-5031	01659C
-5032	0180C1
-5033	018C10
-5034	015199
-5035	0168B0
-5036	015378
-5037	0187F9
-5038	0161C8
-5039	016CC4
-503A	016CFB
-503B	018C22
-503C	015C51
-503D	0185AA
-503E	0182AF
-503F	01950C
-5040	016B23
-5041	018F9B
-5042	0165B0
-5043	015FFB
-5044	015FC3
-5045	014FE1
-5046	018845
-5047	01661F
-5048	018165
-5049	017329
-504A	0160FA
-504B	015174
-504C	015211
-504D	01578B
-504E	015F62
-504F	0190A2
-5050	01884C
-5051	019192
-5052	015E78
-5053	01674F
-5054	016027
-5055	0159D3
-5056	015144
-5057	0151F6
-5058	0180F8
-5059	015308
-505A	016C79
-505B	0196C4
-505C	01718A
-505D	014F11
-505E	014FEE
-505F	017F9E
-5060	01673D
-5061	0155C5
-5062	019508
-5063	0179C0
-5064	018896
-5065	017EE3
-5066	01589F
-5067	01620C
-5068	019700
-5069	01865A
-506A	015618
-506B	01987B
-506C	015F90
-506D	018BB8
-506E	0184C4
-506F	019157
-5070	0153D9
-5071	0165ED
-5072	015E8F
-5073	01755C
-5074	016064
-5075	017D6E
-5076	015A7F
-5077	017EEA
-5078	017EED
-5079	018F69
-507A	0155A7
-507B	015BA3
-507C	0160AC
-507D	0165CB
-507E	017384
-5121	019009
-5122	017663
-5123	017729
-5124	017EDA
-5125	019774
-5126	01859B
-5127	015B66
-5128	017A74
-5129	0196EA
-512A	018840
-512B	0152CB
-512C	01718F
-512D	015FAA
-512E	0165EC
-512F	018BE2
-5130	015BFB
-5131	019A6F
-5132	015DE1
-5133	016B89
-5134	016C5B
-5135	018BAD
-5136	018BAF
-5137	01900A
-5138	018FC5
-5139	01538B
-513A	0162BC
-513B	019E26
-513C	019E2D
-513D	015440
-513E	014E2B
-513F	0182BD
-5140	017259
-5141	01869C
-5142	015D16
-5143	018859
-5144	016DAF
-5145	0196C5
-5146	0154D1
-5147	014E9A
-5148	018BB6
-5149	017109
-514A	0154BD
-514B	019609
-514C	0170DF
-514D	016DF9
-514E	0176D0
-514F	014E25
-5150	017814
-5151	018712
-5152	015CA9
-5153	015EF6
-5154	018A00
-5155	01989C
-5156	01960E
-5157	01708E
-5158	016CBF
-5159	015944
-515A	0163A9
-515B	01773C
-515C	01884D
-515D	016F14
-515E	018273
-515F	015830
-5160	0171D5
-5161	01538C
-5162	01781A
-5163	0196C1
-5164	015501
-5165	015F66
-5166	017130
-5167	015BB4
-5168	018C1A
-5169	019A8C
-516A	016B83
-516B	01592E
-516C	019E2F
-516D	0179E7
-516E	016768
-516F	01626C
-5170	014F6F
-5171	0175A1
-5172	017F8A
-5173	016D0B
-5174	019633
-5175	016C27
-5176	014EF0
-5177	0175D2
-5178	01517B
-5179	016837
-517A	016F3E
-517B	019080
-517C	018170
-517D	015996
-517E	017476
-5221	016447
-5222	015C27
-5223	019065
-5224	017A91
-5225	018C23
-5226	0159DA
-5227	0154AC
-5228	018200
-5229	01836F
-522A	018981
-522B	018000
-522C	016930
-522D	01564E
-522E	018036
-522F	017237
-5230	0191CE
-5231	0151B6
-5232	014E5F
-5233	019875
-5234	016396
-5235	014E1A
-5236	0153F6
-5237	0166F3
-5238	01814B
-5239	01591C
-523A	016DB2
-523B	014E00
-523C	0158F9
-523D	01533B
-523E	0163D6
-523F	0194F1
-5240	014F9D
-5241	014F0A
-5242	018863
-5243	019890
-5244	015937
-5245	019057
-5246	0179FB
-5247	014EEA
-5248	0180F0
-5249	017591
-524A	016C82
-524B	015B9C
-524C	0159E8
-524D	015F5D
-524E	016905
-524F	018681
-5250	01501A
-5251	015DF2
-5252	014E59
-5253	0177E3
-5254	014EE5
-5255	01827A
-5256	016291
-5257	016613
-5258	019091
-5259	015C79
-525A	014EBF
-525B	015F79
-525C	0181C6
-525D	019038
-525E	018084
-525F	0175AB
-5260	014EA6
-5261	0188D4
-5262	01610F
-5263	016BC5
-5264	015FC6
-5265	014E49
-5266	0176CA
-5267	016EA2
-5268	018BE3
-5269	018BAE
-526A	018C0A
-526B	018BD1
-526C	015F02
-526D	017FFC
-526E	017FCC
-526F	017ECE
-5270	018335
-5271	01836B
-5272	0156E0
-5273	016BB7
-5274	0197F3
-5275	019634
-5276	0159FB
-5277	01541F
-5278	0194F6
-5279	016DEB
-527A	015BC5
-527B	01996E
-527C	015C39
-527D	015F15
-527E	019690
-5321	015370
-5322	0182F1
-5323	016A31
-5324	015A74
-5325	019E70
-5326	015E94
-5327	017F28
-5328	0183B9
-5329	018424
-532A	018425
-532B	018367
-532C	018747
-532D	018FCE
-532E	018D62
-532F	0176C8
-5330	015F71
-5331	019896
-5332	01786C
-5333	016620
-5334	0154DF
-5335	0162E5
-5336	014F63
-5337	0181C3
-5338	0175C8
-5339	015EB8
-533A	0196CD
-533B	018E0A
-533C	0186F9
-533D	01548F
-533E	016CF3
-533F	016D8C
-5340	016C38
-5341	01607F
-5342	0152C7
-5343	017528
-5344	015E7D
-5345	014F18
-5346	0160A0
-5347	015FE7
-5348	015C24
-5349	017531
-534A	0190AE
-534B	0194C0
-534C	0172B9
-534D	016CB9
-534E	016E38
-534F	019149
-5350	016709
-5351	0153CB
-5352	0153F3
-5353	014F51
-5354	0191C9
-5355	018BF1
-5356	0153C8
-5357	015E7C
-5358	018FC2
-5359	016DE4
-535A	014E8E
-535B	0176C2
-535C	016986
-535D	01865E
-535E	01611A
-535F	018206
-5360	014F59
-5361	014FDE
-5362	01903E
-5363	019C7C
-5364	016109
-5365	016E1D
-5366	016E14
-5367	019685
-5368	014E88
-5369	015A31
-536A	0196E8
-536B	014E0E
-536C	015C7F
-536D	0179B9
-536E	015B87
-536F	018BED
-5370	017FBD
-5371	017389
-5372	0157DF
-5373	01828B
-5374	0190C1
-5375	015401
-5376	019047
-5377	0155BB
-5378	015CEA
-5379	015FA1
-537A	016108
-537B	016B32
-537C	0172F1
-537D	0180B2
-537E	018A89
-5421	016D74
-5422	015BD3
-5423	0188D5
-5424	019884
-5425	018C6B
-5426	019A6D
-5427	019E33
-5428	016E0A
-5429	0151A4
-542A	015143
-542B	0157A3
-542C	018881
-542D	01539F
-542E	0163F4
-542F	018F95
-5430	0156ED
-5431	015458
-5432	015706
-5433	01733F
-5434	016E90
-5435	017F18
-5436	018FDC
-5437	0182D1
-5438	01613F
-5439	016028
-543A	019662
-543B	0166F0
-543C	017EA6
-543D	018D8A
-543E	018DC3
-543F	0194A5
-5440	015CB3
-5441	017CA4
-5442	016708
-5443	0160A6
-5444	019605
-5445	018018
-5446	014E91
-5447	0190E7
-5448	015300
-5449	019668
-544A	015141
-544B	018FD0
-544C	018574
-544D	01915D
-544E	016655
-544F	0197F5
-5450	015B55
-5451	01531D
-5452	017838
-5453	016742
-5454	01683D
-5455	0154C9
-5456	01707E
-5457	015BB0
-5458	018F7D
-5459	01518D
-545A	015728
-545B	0154B1
-545C	016512
-545D	016682
-545E	018D5E
-545F	018D43
-5460	01810F
-5461	01846C
-5462	01906D
-5463	017CDF
-5464	0151FF
-5465	0185FB
-5466	0167A3
-5467	0165E9
-5468	016FA1
-5469	0186A4
-546A	018E81
-546B	01566A
-546C	019020
-546D	017682
-546E	017076
-546F	0171E5
-5470	018D23
-5471	0162E9
-5472	015219
-5473	016CFD
-5474	018D3C
-5475	01600E
-5476	01589E
-5477	01618E
-5478	0166FE
-5479	018D60
-547A	01624E
-547B	0155B3
-547C	016E23
-547D	01672D
-547E	018F67
-5521	0194E1
-5522	0195F8
-5523	017728
-5524	016805
-5525	0169A8
-5526	01548B
-5527	014E4D
-5528	0170B8
-5529	018BC8
-552A	016458
-552B	01658B
-552C	015B85
-552D	017A84
-552E	01503A
-552F	015BE8
-5530	0177BB
-5531	016BE1
-5532	018A79
-5533	017C98
-5534	016CBE
-5535	0176CF
-5536	0165A9
-5537	018F97
-5538	015D2D
-5539	015C55
-553A	018638
-553B	016808
-553C	015360
-553D	016218
-553E	017AD9
-553F	016E5B
-5540	017EFD
-5541	016A1F
-5542	017AE0
-5543	015F70
-5544	016F33
-5545	015F20
-5546	01638C
-5547	016DA8
-5548	016756
-5549	014E08
-554A	015E10
-554B	018D26
-554C	014ED7
-554D	0180C0
-554E	017634
-554F	01969C
-5550	0162DB
-5551	01662D
-5552	01627E
-5553	016CBC
-5554	018D75
-5555	017167
-5556	017F69
-5557	015146
-5558	018087
-5559	0153EC
-555A	01906E
-555B	016298
-555C	0154F2
-555D	0186F0
-555E	018F99
-555F	018005
-5560	019517
-5561	018517
-5562	018FD9
-5563	016D59
-5564	0173CD
-5565	01659F
-5566	01771F
-5567	017504
-5568	017827
-5569	0181FB
-556A	018D1E
-556B	019488
-556C	014FA6
-556D	016795
-556E	0175B9
-556F	018BCA
-5570	019707
-5571	01632F
-5572	019547
-5573	019635
-5574	0184B8
-5575	016323
-5576	017741
-5577	015F81
-5578	0172F0
-5579	014E89
-557A	016014
-557B	016574
-557C	0162EF
-557D	016B63
-557E	01653F
-5621	015E27
-5622	0175C7
-5623	0190D1
-5624	018BC1
-5625	01829D
-5626	01679D
-5627	01652F
-5628	015431
-5629	018718
-562A	0177E5
-562B	0180A2
-562C	018102
-562D	016C41
-562E	014E4B
-562F	017EC7
-5630	01804C
-5631	0176F4
-5632	01690D
-5633	016B96
-5634	016267
-5635	01503C
-5636	014F84
-5637	015740
-5638	016307
-5639	016B62
-563A	018DBE
-563B	0153EA
-563C	0165E8
-563D	017EB8
-563E	015FD7
-563F	01631A
-5640	0163B7
-5641	0181F3
-5642	0181F4
-5643	017F6E
-5644	015E1C
-5645	015CD9
-5646	015236
-5647	01667A
-5648	0179E9
-5649	017A1A
-564A	018D28
-564B	017099
-564C	0175D4
-564D	016EDE
-564E	016CBB
-564F	017A92
-5650	014E2D
-5651	0176C5
-5652	015FE0
-5653	01949F
-5654	018877
-5655	017EC8
-5656	0179CD
-5657	0180BF
-5658	0191CD
-5659	014EF2
-565A	014F17
-565B	01821F
-565C	015468
-565D	015DDE
-565E	016D32
-565F	018BCC
-5660	017CA5
-5661	018F74
-5662	018098
-5663	015E1A
-5664	015492
-5665	0176B1
-5666	015B99
-5667	01663C
-5668	019AA4
-5669	0173E0
-566A	01682A
-566B	0186DB
-566C	016731
-566D	01732A
-566E	018BF8
-566F	018BDB
-5670	019010
-5671	017AF9
-5672	0170DB
-5673	01716E
-5674	0162C4
-5675	0177A9
-5676	015631
-5677	014E3B
-5678	018457
-5679	0167F1
-567A	0152A9
-567B	0186C0
-567C	018D2E
-567D	0194F8
-567E	017B51
-5721	014F4F
-5722	016CE8
-5723	01795D
-5724	019A7B
-5725	016293
-5726	01722A
-5727	0162FD
-5728	014E13
-5729	017816
-572A	018F6C
-572B	0164B0
-572C	018D5A
-572D	017BC6
-572E	016869
-572F	015E84
-5730	0188C5
-5731	015986
-5732	01649E
-5733	0158EE
-5734	0172B6
-5735	01690E
-5736	019525
-5737	018FFD
-5738	018D58
-5739	015760
-573A	017F00
-573B	018C06
-573C	0151C6
-573D	016349
-573E	0162D9
-573F	015353
-5740	01684C
-5741	017422
-5742	018301
-5743	01914C
-5744	015544
-5745	017740
-5746	01707C
-5747	016D4A
-5748	015179
-5749	0154A8
-574A	018D44
-574B	0159FF
-574C	016ECB
-574D	016DC4
-574E	015B5C
-574F	017D2B
-5750	014ED4
-5751	017C7D
-5752	016ED3
-5753	015B50
-5754	0181EA
-5755	016E0D
-5756	015B57
-5757	019B03
-5758	0168D5
-5759	018E2A
-575A	015B97
-575B	017EFC
-575C	01603B
-575D	017EB5
-575E	0190B9
-575F	018D70
-5760	01594F
-5761	0163CD
-5762	0179DF
-5763	018DB3
-5764	015352
-5765	0165CF
-5766	017956
-5767	018BC5
-5768	01963B
-5769	017EC4
-576A	0194BB
-576B	017E82
-576C	015634
-576D	019189
-576E	016700
-576F	017F6A
-5770	015C0A
-5771	019075
-5772	016628
-5773	015DE6
-5774	014F50
-5775	0167DE
-5776	01505A
-5777	014F5C
-5778	015750
-5779	015EA7
-5821	014E8D
-5822	014E0C
-5823	015140
-5824	014E10
-5825	015EFF
-5826	015345
-5827	014E15
-5828	014E98
-5829	014E1E
-582A	019B32
-582B	015B6C
-582C	015669
-582D	014E28
-582E	0179BA
-582F	014E3F
-5830	015315
-5831	014E47
-5832	01592D
-5833	01723B
-5834	01536E
-5835	016C10
-5836	0156DF
-5837	0180E4
-5838	019997
-5839	016BD3
-583A	01777E
-583B	019F17
-583C	014E36
-583D	014E9F
-583E	019F10
-583F	014E5C
-5840	014E69
-5841	014E93
-5842	018288
-5843	015B5B
-5844	01556C
-5845	01560F
-5846	014EC4
-5847	01538D
-5848	01539D
-5849	0153A3
-584A	0153A5
-584B	0153AE
-584C	019765
-584D	018D5D
-584E	01531A
-584F	0153F5
-5850	015326
-5851	01532E
-5852	01533E
-5853	018D5C
-5854	015366
-5855	015363
-5856	015202
-5857	015208
-5858	01520E
-5859	01522D
-585A	015233
-585B	01523F
-585C	015240
-585D	01524C
-585E	01525E
-585F	015261
-5860	01525C
-5861	0184AF
-5862	01527D
-5863	015282
-5864	015281
-5865	015290
-5866	015293
-5867	015182
-5868	017F54
-5869	014EBB
-586A	014EC3
-586B	014EC9
-586C	014EC2
-586D	014EE8
-586E	014EE1
-586F	014EEB
-5870	014EDE
-5871	014F1B
-5872	014EF3
-5873	014F22
-5874	014F64
-5875	014EF5
-5876	014F25
-5877	014F27
-5878	014F09
-5879	014F2B
-587A	014F5E
-587B	014F67
-587C	016538
-587D	014F5A
-587E	014F5D
-5921	014F5F
-5922	014F57
-5923	014F32
-5924	014F3D
-5925	014F76
-5926	014F74
-5927	014F91
-5928	014F89
-5929	014F83
-592A	014F8F
-592B	014F7E
-592C	014F7B
-592D	014FAA
-592E	014F7C
-592F	014FAC
-5930	014F94
-5931	014FE6
-5932	014FE8
-5933	014FEA
-5934	014FC5
-5935	014FDA
-5936	014FE3
-5937	014FDC
-5938	014FD1
-5939	014FDF
-593A	014FF8
-593B	015029
-593C	01504C
-593D	014FF3
-593E	01502C
-593F	01500F
-5940	01502E
-5941	01502D
-5942	014FFE
-5943	01501C
-5944	01500C
-5945	015025
-5946	015028
-5947	01507E
-5948	015043
-5949	015055
-594A	015048
-594B	01504E
-594C	01506C
-594D	01507B
-594E	0150A5
-594F	0150A7
-5950	0150A9
-5951	0150BA
-5952	0150D6
-5953	015106
-5954	0150ED
-5955	0150EC
-5956	0150E6
-5957	0150EE
-5958	015107
-5959	01510B
-595A	014EDD
-595B	016C3D
-595C	014F58
-595D	014F65
-595E	014FCE
-595F	019FA0
-5960	016C46
-5961	017C74
-5962	01516E
-5963	015DFD
-5964	019EC9
-5965	019998
-5966	015181
-5967	015914
-5968	0152F9
-5969	01530D
-596A	018A07
-596B	015310
-596C	0151EB
-596D	015919
-596E	015155
-596F	014EA0
-5970	015156
-5971	014EB3
-5972	01886E
-5973	0188A4
-5974	014EB5
-5975	018114
-5976	0188D2
-5977	017980
-5978	015B34
-5979	018803
-597A	017FB8
-597B	0151AB
-597C	0151B1
-597D	0151BD
-597E	0151BC
-5A21	0151C7
-5A22	015196
-5A23	0151A2
-5A24	0151A5
-5A25	018BA0
-5A26	018BA6
-5A27	018BA7
-5A28	018BAA
-5A29	018BB4
-5A2A	018BB5
-5A2B	018BB7
-5A2C	018BC2
-5A2D	018BC3
-5A2E	018BCB
-5A2F	018BCF
-5A30	018BCE
-5A31	018BD2
-5A32	018BD3
-5A33	018BD4
-5A34	018BD6
-5A35	018BD8
-5A36	018BD9
-5A37	018BDC
-5A38	018BDF
-5A39	018BE0
-5A3A	018BE4
-5A3B	018BE8
-5A3C	018BE9
-5A3D	018BEE
-5A3E	018BF0
-5A3F	018BF3
-5A40	018BF6
-5A41	018BF9
-5A42	018BFC
-5A43	018BFF
-5A44	018C00
-5A45	018C02
-5A46	018C04
-5A47	018C07
-5A48	018C0C
-5A49	018C0F
-5A4A	018C11
-5A4B	018C12
-5A4C	018C14
-5A4D	018C15
-5A4E	018C16
-5A4F	018C19
-5A50	018C1B
-5A51	018C18
-5A52	018C1D
-5A53	018C1F
-5A54	018C20
-5A55	018C21
-5A56	018C25
-5A57	018C27
-5A58	018C2A
-5A59	018C2B
-5A5A	018C2E
-5A5B	018C2F
-5A5C	018C32
-5A5D	018C33
-5A5E	018C35
-5A5F	018C36
-5A60	015369
-5A61	01537A
-5A62	01961D
-5A63	019622
-5A64	019621
-5A65	019631
-5A66	01962A
-5A67	01963D
-5A68	01963C
-5A69	019642
-5A6A	019649
-5A6B	019654
-5A6C	01965F
-5A6D	019667
-5A6E	01966C
-5A6F	019672
-5A70	019674
-5A71	019688
-5A72	01968D
-5A73	019697
-5A74	0196B0
-5A75	019097
-5A76	01909B
-5A77	01909D
-5A78	019099
-5A79	0190AC
-5A7A	0190A1
-5A7B	0190B4
-5A7C	0190B3
-5A7D	0190B6
-5A7E	0190BA
-5B21	0190B8
-5B22	0190B0
-5B23	0190CF
-5B24	0190C5
-5B25	0190BE
-5B26	0190D0
-5B27	0190C4
-5B28	0190C7
-5B29	0190D3
-5B2A	0190E6
-5B2B	0190E2
-5B2C	0190DC
-5B2D	0190D7
-5B2E	0190DB
-5B2F	0190EB
-5B30	0190EF
-5B31	0190FE
-5B32	019104
-5B33	019122
-5B34	01911E
-5B35	019123
-5B36	019131
-5B37	01912F
-5B38	019139
-5B39	019143
-5B3A	019146
-5B3B	01520D
-5B3C	015942
-5B3D	0152A2
-5B3E	0152AC
-5B3F	0152AD
-5B40	0152BE
-5B41	0154FF
-5B42	0152D0
-5B43	0152D6
-5B44	0152F0
-5B45	0153DF
-5B46	0171EE
-5B47	0177CD
-5B48	015EF4
-5B49	0151F5
-5B4A	0151FC
-5B4B	019B2F
-5B4C	0153B6
-5B4D	015F01
-5B4E	01755A
-5B4F	015DEF
-5B50	01574C
-5B51	0157A9
-5B52	0157A1
-5B53	01587E
-5B54	0158BC
-5B55	0158C5
-5B56	0158D1
-5B57	015729
-5B58	01572C
-5B59	01572A
-5B5A	015733
-5B5B	015739
-5B5C	01572E
-5B5D	01572F
-5B5E	01575C
-5B5F	01573B
-5B60	015742
-5B61	015769
-5B62	015785
-5B63	01576B
-5B64	015786
-5B65	01577C
-5B66	01577B
-5B67	015768
-5B68	01576D
-5B69	015776
-5B6A	015773
-5B6B	0157AD
-5B6C	0157A4
-5B6D	01578C
-5B6E	0157B2
-5B6F	0157CF
-5B70	0157A7
-5B71	0157B4
-5B72	015793
-5B73	0157A0
-5B74	0157D5
-5B75	0157D8
-5B76	0157DA
-5B77	0157D9
-5B78	0157D2
-5B79	0157B8
-5B7A	0157F4
-5B7B	0157EF
-5B7C	0157F8
-5B7D	0157E4
-5B7E	0157DD
-5C21	01580B
-5C22	01580D
-5C23	0157FD
-5C24	0157ED
-5C25	015800
-5C26	01581E
-5C27	015819
-5C28	015844
-5C29	015820
-5C2A	015865
-5C2B	01586C
-5C2C	015881
-5C2D	015889
-5C2E	01589A
-5C2F	015880
-5C30	0199A8
-5C31	019F19
-5C32	0161FF
-5C33	018279
-5C34	01827D
-5C35	01827F
-5C36	01828F
-5C37	01828A
-5C38	0182A8
-5C39	018284
-5C3A	01828E
-5C3B	018291
-5C3C	018297
-5C3D	018299
-5C3E	0182AB
-5C3F	0182B8
-5C40	0182BE
-5C41	0182B0
-5C42	0182C8
-5C43	0182CA
-5C44	0182E3
-5C45	018298
-5C46	0182B7
-5C47	0182AE
-5C48	0182CB
-5C49	0182CC
-5C4A	0182C1
-5C4B	0182A9
-5C4C	0182B4
-5C4D	0182A1
-5C4E	0182AA
-5C4F	01829F
-5C50	0182C4
-5C51	0182CE
-5C52	0182A4
-5C53	0182E1
-5C54	018309
-5C55	0182F7
-5C56	0182E4
-5C57	01830F
-5C58	018307
-5C59	0182DC
-5C5A	0182F4
-5C5B	0182D2
-5C5C	0182D8
-5C5D	01830C
-5C5E	0182FB
-5C5F	0182D3
-5C60	018311
-5C61	01831A
-5C62	018306
-5C63	018314
-5C64	018315
-5C65	0182E0
-5C66	0182D5
-5C67	01831C
-5C68	018351
-5C69	01835B
-5C6A	01835C
-5C6B	018308
-5C6C	018392
-5C6D	01833C
-5C6E	018334
-5C6F	018331
-5C70	01839B
-5C71	01835E
-5C72	01832F
-5C73	01834F
-5C74	018347
-5C75	018343
-5C76	01835F
-5C77	018340
-5C78	018317
-5C79	018360
-5C7A	01832D
-5C7B	01833A
-5C7C	018333
-5C7D	018366
-5C7E	018365
-5D21	018368
-5D22	01831B
-5D23	018369
-5D24	01836C
-5D25	01836A
-5D26	01836D
-5D27	01836E
-5D28	0183B0
-5D29	018378
-5D2A	0183B3
-5D2B	0183B4
-5D2C	0183A0
-5D2D	0183AA
-5D2E	018393
-5D2F	01839C
-5D30	018385
-5D31	01837C
-5D32	0183B6
-5D33	0183A9
-5D34	01837D
-5D35	0183B8
-5D36	01837B
-5D37	018398
-5D38	01839E
-5D39	0183A8
-5D3A	0183BA
-5D3B	0183BC
-5D3C	0183C1
-5D3D	018401
-5D3E	0183E5
-5D3F	0183D8
-5D40	015807
-5D41	018418
-5D42	01840B
-5D43	0183DD
-5D44	0183FD
-5D45	0183D6
-5D46	01841C
-5D47	018438
-5D48	018411
-5D49	018406
-5D4A	0183D4
-5D4B	0183DF
-5D4C	01840F
-5D4D	018403
-5D4E	0183F8
-5D4F	0183F9
-5D50	0183EA
-5D51	0183C5
-5D52	0183C0
-5D53	018426
-5D54	0183F0
-5D55	0183E1
-5D56	01845C
-5D57	018451
-5D58	01845A
-5D59	018459
-5D5A	018473
-5D5B	018487
-5D5C	018488
-5D5D	01847A
-5D5E	018489
-5D5F	018478
-5D60	01843C
-5D61	018446
-5D62	018469
-5D63	018476
-5D64	01848C
-5D65	01848E
-5D66	018431
-5D67	01846D
-5D68	0184C1
-5D69	0184CD
-5D6A	0184D0
-5D6B	0184E6
-5D6C	0184BD
-5D6D	0184D3
-5D6E	0184CA
-5D6F	0184BF
-5D70	0184BA
-5D71	0184E0
-5D72	0184A1
-5D73	0184B9
-5D74	0184B4
-5D75	018497
-5D76	0184E5
-5D77	0184E3
-5D78	01850C
-5D79	01750D
-5D7A	018538
-5D7B	0184F0
-5D7C	018539
-5D7D	01851F
-5D7E	01853A
-5E21	018556
-5E22	01853B
-5E23	0184FF
-5E24	0184FC
-5E25	018559
-5E26	018548
-5E27	018568
-5E28	018564
-5E29	01855E
-5E2A	01857A
-5E2B	0177A2
-5E2C	018543
-5E2D	018572
-5E2E	01857B
-5E2F	0185A4
-5E30	0185A8
-5E31	018587
-5E32	01858F
-5E33	018579
-5E34	0185AE
-5E35	01859C
-5E36	018585
-5E37	0185B9
-5E38	0185B7
-5E39	0185B0
-5E3A	0185D3
-5E3B	0185C1
-5E3C	0185DC
-5E3D	0185FF
-5E3E	018627
-5E3F	018605
-5E40	018629
-5E41	018616
-5E42	01863C
-5E43	015EFE
-5E44	015F08
-5E45	01593C
-5E46	015941
-5E47	018037
-5E48	015955
-5E49	01595A
-5E4A	015958
-5E4B	01530F
-5E4C	015C22
-5E4D	015C25
-5E4E	015C2C
-5E4F	015C34
-5E50	01624C
-5E51	01626A
-5E52	01629F
-5E53	0162BB
-5E54	0162CA
-5E55	0162DA
-5E56	0162D7
-5E57	0162EE
-5E58	016322
-5E59	0162F6
-5E5A	016339
-5E5B	01634B
-5E5C	016343
-5E5D	0163AD
-5E5E	0163F6
-5E5F	016371
-5E60	01637A
-5E61	01638E
-5E62	0163B4
-5E63	01636D
-5E64	0163AC
-5E65	01638A
-5E66	016369
-5E67	0163AE
-5E68	0163BC
-5E69	0163F2
-5E6A	0163F8
-5E6B	0163E0
-5E6C	0163FF
-5E6D	0163C4
-5E6E	0163DE
-5E6F	0163CE
-5E70	016452
-5E71	0163C6
-5E72	0163BE
-5E73	016445
-5E74	016441
-5E75	01640B
-5E76	01641B
-5E77	016420
-5E78	01640C
-5E79	016426
-5E7A	016421
-5E7B	01645E
-5E7C	016484
-5E7D	01646D
-5E7E	016496
-5F21	01647A
-5F22	0164B7
-5F23	0164B8
-5F24	016499
-5F25	0164BA
-5F26	0164C0
-5F27	0164D0
-5F28	0164D7
-5F29	0164E4
-5F2A	0164E2
-5F2B	016509
-5F2C	016525
-5F2D	01652E
-5F2E	015F0B
-5F2F	015FD2
-5F30	017519
-5F31	015F11
-5F32	01535F
-5F33	0153F1
-5F34	0153FD
-5F35	0153E9
-5F36	0153E8
-5F37	0153FB
-5F38	015412
-5F39	015416
-5F3A	015406
-5F3B	01544B
-5F3C	015452
-5F3D	015453
-5F3E	015454
-5F3F	015456
-5F40	015443
-5F41	015421
-5F42	015457
-5F43	015459
-5F44	015423
-5F45	015432
-5F46	015482
-5F47	015494
-5F48	015477
-5F49	015471
-5F4A	015464
-5F4B	01549A
-5F4C	01549B
-5F4D	015484
-5F4E	015476
-5F4F	015466
-5F50	01549D
-5F51	0154D0
-5F52	0154AD
-5F53	0154C2
-5F54	0154B4
-5F55	0154D2
-5F56	0154A7
-5F57	0154A6
-5F58	0154D3
-5F59	0154D4
-5F5A	015472
-5F5B	0154A3
-5F5C	0154D5
-5F5D	0154BB
-5F5E	0154BF
-5F5F	0154CC
-5F60	0154D9
-5F61	0154DA
-5F62	0154DC
-5F63	0154A9
-5F64	0154AA
-5F65	0154A4
-5F66	0154DD
-5F67	0154CF
-5F68	0154DE
-5F69	01551B
-5F6A	0154E7
-5F6B	015520
-5F6C	0154FD
-5F6D	015514
-5F6E	0154F3
-5F6F	015522
-5F70	015523
-5F71	01550F
-5F72	015511
-5F73	015527
-5F74	01552A
-5F75	015567
-5F76	01558F
-5F77	0155B5
-5F78	015549
-5F79	01556D
-5F7A	015541
-5F7B	015555
-5F7C	01553F
-5F7D	015550
-5F7E	01553C
-6021	015537
-6022	015556
-6023	015575
-6024	015576
-6025	015577
-6026	015533
-6027	015530
-6028	01555C
-6029	01558B
-602A	0155D2
-602B	015583
-602C	0155B1
-602D	0155B9
-602E	015588
-602F	015581
-6030	01559F
-6031	01557E
-6032	0155D6
-6033	015591
-6034	01557B
-6035	0155DF
-6036	0155BD
-6037	0155BE
-6038	015594
-6039	015599
-603A	0155EA
-603B	0155F7
-603C	0155C9
-603D	01561F
-603E	0155D1
-603F	0155EB
-6040	0155EC
-6041	0155D4
-6042	0155E6
-6043	0155DD
-6044	0155C4
-6045	0155EF
-6046	0155E5
-6047	0155F2
-6048	0155F3
-6049	0155CC
-604A	0155CD
-604B	0155E8
-604C	0155F5
-604D	0155E4
-604E	018F94
-604F	01561E
-6050	015608
-6051	01560C
-6052	015601
-6053	015624
-6054	015623
-6055	0155FE
-6056	015600
-6057	015627
-6058	01562D
-6059	015658
-605A	015639
-605B	015657
-605C	01562C
-605D	01564D
-605E	015662
-605F	015659
-6060	01565C
-6061	01564C
-6062	015654
-6063	015686
-6064	015664
-6065	015671
-6066	01566B
-6067	01567B
-6068	01567C
-6069	015685
-606A	015693
-606B	0156AF
-606C	0156D4
-606D	0156D7
-606E	0156DD
-606F	0156E1
-6070	0156F5
-6071	0156EB
-6072	0156F9
-6073	0156FF
-6074	015704
-6075	01570A
-6076	015709
-6077	01571C
-6078	015E0F
-6079	015E19
-607A	015E14
-607B	015E11
-607C	015E31
-607D	015E3B
-607E	015E3C
-6121	015E37
-6122	015E44
-6123	015E54
-6124	015E5B
-6125	015E5E
-6126	015E61
-6127	015C8C
-6128	015C7A
-6129	015C8D
-612A	015C90
-612B	015C96
-612C	015C88
-612D	015C98
-612E	015C99
-612F	015C91
-6130	015C9A
-6131	015C9C
-6132	015CB5
-6133	015CA2
-6134	015CBD
-6135	015CAC
-6136	015CAB
-6137	015CB1
-6138	015CA3
-6139	015CC1
-613A	015CB7
-613B	015CC4
-613C	015CD2
-613D	015CE4
-613E	015CCB
-613F	015CE5
-6140	015D02
-6141	015D03
-6142	015D27
-6143	015D26
-6144	015D2E
-6145	015D24
-6146	015D1E
-6147	015D06
-6148	015D1B
-6149	015D58
-614A	015D3E
-614B	015D34
-614C	015D3D
-614D	015D6C
-614E	015D5B
-614F	015D6F
-6150	015D5D
-6151	015D6B
-6152	015D4B
-6153	015D4A
-6154	015D69
-6155	015D74
-6156	015D82
-6157	015D99
-6158	015D9D
-6159	018C73
-615A	015DB7
-615B	015DC5
-615C	015F73
-615D	015F77
-615E	015F82
-615F	015F87
-6160	015F89
-6161	015F8C
-6162	015F95
-6163	015F99
-6164	015F9C
-6165	015FA8
-6166	015FAD
-6167	015FB5
-6168	015FBC
-6169	018862
-616A	015F61
-616B	0172AD
-616C	0172B0
-616D	0172B4
-616E	0172B7
-616F	0172B8
-6170	0172C3
-6171	0172C1
-6172	0172CE
-6173	0172CD
-6174	0172D2
-6175	0172E8
-6176	0172EF
-6177	0172E9
-6178	0172F2
-6179	0172F4
-617A	0172F7
-617B	017301
-617C	0172F3
-617D	017303
-617E	0172FA
-6221	0172FB
-6222	017317
-6223	017313
-6224	017321
-6225	01730A
-6226	01731E
-6227	01731D
-6228	017315
-6229	017322
-622A	017339
-622B	017325
-622C	01732C
-622D	017338
-622E	017331
-622F	017350
-6230	01734D
-6231	017357
-6232	017360
-6233	01736C
-6234	01736F
-6235	01737E
-6236	01821B
-6237	015925
-6238	0198E7
-6239	015924
-623A	015902
-623B	019963
-623C	019967
-623D	019968
-623E	019969
-623F	01996A
-6240	01996B
-6241	01996C
-6242	019974
-6243	019977
-6244	01997D
-6245	019980
-6246	019984
-6247	019987
-6248	01998A
-6249	01998D
-624A	019990
-624B	019991
-624C	019993
-624D	019994
-624E	019995
-624F	015E80
-6250	015E91
-6251	015E8B
-6252	015E96
-6253	015EA5
-6254	015EA0
-6255	015EB9
-6256	015EB5
-6257	015EBE
-6258	015EB3
-6259	018D53
-625A	015ED2
-625B	015ED1
-625C	015EDB
-625D	015EE8
-625E	015EEA
-625F	0181BA
-6260	015FC4
-6261	015FC9
-6262	015FD6
-6263	015FCF
-6264	016003
-6265	015FEE
-6266	016004
-6267	015FE1
-6268	015FE4
-6269	015FFE
-626A	016005
-626B	016006
-626C	015FEA
-626D	015FED
-626E	015FF8
-626F	016019
-6270	016035
-6271	016026
-6272	01601B
-6273	01600F
-6274	01600D
-6275	016029
-6276	01602B
-6277	01600A
-6278	01603F
-6279	016021
-627A	016078
-627B	016079
-627C	01607B
-627D	01607A
-627E	016042
-6321	01606A
-6322	01607D
-6323	016096
-6324	01609A
-6325	0160AD
-6326	01609D
-6327	016083
-6328	016092
-6329	01608C
-632A	01609B
-632B	0160EC
-632C	0160BB
-632D	0160B1
-632E	0160DD
-632F	0160D8
-6330	0160C6
-6331	0160DA
-6332	0160B4
-6333	016120
-6334	016126
-6335	016115
-6336	016123
-6337	0160F4
-6338	016100
-6339	01610E
-633A	01612B
-633B	01614A
-633C	016175
-633D	0161AC
-633E	016194
-633F	0161A7
-6340	0161B7
-6341	0161D4
-6342	0161F5
-6343	015FDD
-6344	0196B3
-6345	0195E9
-6346	0195EB
-6347	0195F1
-6348	0195F3
-6349	0195F5
-634A	0195F6
-634B	0195FC
-634C	0195FE
-634D	019603
-634E	019604
-634F	019606
-6350	019608
-6351	01960A
-6352	01960B
-6353	01960C
-6354	01960D
-6355	01960F
-6356	019612
-6357	019615
-6358	019616
-6359	019617
-635A	019619
-635B	01961A
-635C	014E2C
-635D	01723F
-635E	016215
-635F	016C35
-6360	016C54
-6361	016C5C
-6362	016C4A
-6363	016CA3
-6364	016C85
-6365	016C90
-6366	016C94
-6367	016C8C
-6368	016C68
-6369	016C69
-636A	016C74
-636B	016C76
-636C	016C86
-636D	016CA9
-636E	016CD0
-636F	016CD4
-6370	016CAD
-6371	016CF7
-6372	016CF8
-6373	016CF1
-6374	016CD7
-6375	016CB2
-6376	016CE0
-6377	016CD6
-6378	016CFA
-6379	016CEB
-637A	016CEE
-637B	016CB1
-637C	016CD3
-637D	016CEF
-637E	016CFE
-6421	016D39
-6422	016D27
-6423	016D0C
-6424	016D43
-6425	016D48
-6426	016D07
-6427	016D04
-6428	016D19
-6429	016D0E
-642A	016D2B
-642B	016D4D
-642C	016D2E
-642D	016D35
-642E	016D1A
-642F	016D4F
-6430	016D52
-6431	016D54
-6432	016D33
-6433	016D91
-6434	016D6F
-6435	016D9E
-6436	016DA0
-6437	016D5E
-6438	016D93
-6439	016D94
-643A	016D5C
-643B	016D60
-643C	016D7C
-643D	016D63
-643E	016E1A
-643F	016DC7
-6440	016DC5
-6441	016DDE
-6442	016E0E
-6443	016DBF
-6444	016DE0
-6445	016E11
-6446	016DE6
-6447	016DDD
-6448	016DD9
-6449	016E16
-644A	016DAB
-644B	016E0C
-644C	016DAE
-644D	016E2B
-644E	016E6E
-644F	016E4E
-6450	016E6B
-6451	016EB2
-6452	016E5F
-6453	016E86
-6454	016E53
-6455	016E54
-6456	016E32
-6457	016E25
-6458	016E44
-6459	016EDF
-645A	016EB1
-645B	016E98
-645C	016EE0
-645D	016F2D
-645E	016EE2
-645F	016EA5
-6460	016EA7
-6461	016EBD
-6462	016EBB
-6463	016EB7
-6464	016ED7
-6465	016EB4
-6466	016ECF
-6467	016E8F
-6468	016EC2
-6469	016E9F
-646A	016F62
-646B	016F46
-646C	016F47
-646D	016F24
-646E	016F15
-646F	016EF9
-6470	016F2F
-6471	016F36
-6472	016F4B
-6473	016F74
-6474	016F2A
-6475	016F09
-6476	016F29
-6477	016F89
-6478	016F8D
-6479	016F8C
-647A	016F78
-647B	016F72
-647C	016F7C
-647D	016F7A
-647E	016FD1
-6521	016FC9
-6522	016FA7
-6523	016FB9
-6524	016FB6
-6525	016FC2
-6526	016FE1
-6527	016FEE
-6528	016FDE
-6529	016FE0
-652A	016FEF
-652B	01701A
-652C	017023
-652D	01701B
-652E	017039
-652F	017035
-6530	01704F
-6531	01705E
-6532	015B80
-6533	015B84
-6534	015B95
-6535	015B93
-6536	015BA5
-6537	015BB8
-6538	01752F
-6539	019A9E
-653A	016434
-653B	015BE4
-653C	015BEE
-653D	018930
-653E	015BF0
-653F	018E47
-6540	018B07
-6541	018FB6
-6542	018FD3
-6543	018FD5
-6544	018FE5
-6545	018FEE
-6546	018FE4
-6547	018FE9
-6548	018FE6
-6549	018FF3
-654A	018FE8
-654B	019005
-654C	019004
-654D	01900B
-654E	019026
-654F	019011
-6550	01900D
-6551	019016
-6552	019021
-6553	019035
-6554	019036
-6555	01902D
-6556	01902F
-6557	019044
-6558	019051
-6559	019052
-655A	019050
-655B	019068
-655C	019058
-655D	019062
-655E	01905B
-655F	0166B9
-6560	019074
-6561	01907D
-6562	019082
-6563	019088
-6564	019083
-6565	01908B
-6566	015F50
-6567	015F57
-6568	015F56
-6569	015F58
-656A	015C3B
-656B	0154AB
-656C	015C50
-656D	015C59
-656E	015B71
-656F	015C63
-6570	015C66
-6571	017FBC
-6572	015F2A
-6573	015F29
-6574	015F2D
-6575	018274
-6576	015F3C
-6577	019B3B
-6578	015C6E
-6579	015981
-657A	015983
-657B	01598D
-657C	0159A9
-657D	0159AA
-657E	0159A3
-6621	015997
-6622	0159CA
-6623	0159AB
-6624	01599E
-6625	0159A4
-6626	0159D2
-6627	0159B2
-6628	0159AF
-6629	0159D7
-662A	0159BE
-662B	015A05
-662C	015A06
-662D	0159DD
-662E	015A08
-662F	0159E3
-6630	0159D8
-6631	0159F9
-6632	015A0C
-6633	015A09
-6634	015A32
-6635	015A34
-6636	015A11
-6637	015A23
-6638	015A13
-6639	015A40
-663A	015A67
-663B	015A4A
-663C	015A55
-663D	015A3C
-663E	015A62
-663F	015A75
-6640	0180EC
-6641	015AAA
-6642	015A9B
-6643	015A77
-6644	015A7A
-6645	015ABE
-6646	015AEB
-6647	015AB2
-6648	015AD2
-6649	015AD4
-664A	015AB8
-664B	015AE0
-664C	015AE3
-664D	015AF1
-664E	015AD6
-664F	015AE6
-6650	015AD8
-6651	015ADC
-6652	015B09
-6653	015B17
-6654	015B16
-6655	015B32
-6656	015B37
-6657	015B40
-6658	015C15
-6659	015C1C
-665A	015B5A
-665B	015B65
-665C	015B73
-665D	015B51
-665E	015B53
-665F	015B62
-6660	019A75
-6661	019A77
-6662	019A78
-6663	019A7A
-6664	019A7F
-6665	019A7D
-6666	019A80
-6667	019A81
-6668	019A85
-6669	019A88
-666A	019A8A
-666B	019A90
-666C	019A92
-666D	019A93
-666E	019A96
-666F	019A98
-6670	019A9B
-6671	019A9C
-6672	019A9D
-6673	019A9F
-6674	019AA0
-6675	019AA2
-6676	019AA3
-6677	019AA5
-6678	019AA7
-6679	017E9F
-667A	017EA1
-667B	017EA3
-667C	017EA5
-667D	017EA8
-667E	017EA9
-6721	017EAD
-6722	017EB0
-6723	017EBE
-6724	017EC0
-6725	017EC1
-6726	017EC2
-6727	017EC9
-6728	017ECB
-6729	017ECC
-672A	017ED0
-672B	017ED4
-672C	017ED7
-672D	017EDB
-672E	017EE0
-672F	017EE1
-6730	017EE8
-6731	017EEB
-6732	017EEE
-6733	017EEF
-6734	017EF1
-6735	017EF2
-6736	017F0D
-6737	017EF6
-6738	017EFA
-6739	017EFB
-673A	017EFE
-673B	017F01
-673C	017F02
-673D	017F03
-673E	017F07
-673F	017F08
-6740	017F0B
-6741	017F0C
-6742	017F0F
-6743	017F11
-6744	017F12
-6745	017F17
-6746	017F19
-6747	017F1C
-6748	017F1B
-6749	017F1F
-674A	017F21
-674B	017F22
-674C	017F23
-674D	017F24
-674E	017F25
-674F	017F26
-6750	017F27
-6751	017F2A
-6752	017F2B
-6753	017F2C
-6754	017F2D
-6755	017F2F
-6756	017F30
-6757	017F31
-6758	017F32
-6759	017F33
-675A	017F35
-675B	015E7A
-675C	01757F
-675D	015DDB
-675E	01753E
-675F	019095
-6760	01738E
-6761	017391
-6762	0173AE
-6763	0173A2
-6764	01739F
-6765	0173CF
-6766	0173C2
-6767	0173D1
-6768	0173B7
-6769	0173B3
-676A	0173C0
-676B	0173C9
-676C	0173C8
-676D	0173E5
-676E	0173D9
-676F	01987C
-6770	01740A
-6771	0173E9
-6772	0173E7
-6773	0173DE
-6774	0173BA
-6775	0173F2
-6776	01740F
-6777	01742A
-6778	01745B
-6779	017426
-677A	017425
-677B	017428
-677C	017430
-677D	01742E
-677E	01742C
-6821	01741B
-6822	01741A
-6823	017441
-6824	01745C
-6825	017457
-6826	017455
-6827	017459
-6828	017477
-6829	01746D
-682A	01747E
-682B	01749C
-682C	01748E
-682D	017480
-682E	017481
-682F	017487
-6830	01748B
-6831	01749E
-6832	0174A8
-6833	0174A9
-6834	017490
-6835	0174A7
-6836	0174D2
-6837	0174BA
-6838	0197EA
-6839	0197EB
-683A	0197EC
-683B	01674C
-683C	016753
-683D	01675E
-683E	016748
-683F	016769
-6840	0167A5
-6841	016787
-6842	01676A
-6843	016773
-6844	016798
-6845	0167A7
-6846	016775
-6847	0167A8
-6848	01679E
-6849	0167AD
-684A	01678B
-684B	016777
-684C	01677C
-684D	0167F0
-684E	016809
-684F	0167D8
-6850	01680A
-6851	0167E9
-6852	0167B0
-6853	01680C
-6854	0167D9
-6855	0167B5
-6856	0167DA
-6857	0167B3
-6858	0167DD
-6859	016800
-685A	0167C3
-685B	0167B8
-685C	0167E2
-685D	01680E
-685E	0167C1
-685F	0167FD
-6860	016832
-6861	016833
-6862	016860
-6863	016861
-6864	01684E
-6865	016862
-6866	016844
-6867	016864
-6868	016883
-6869	01681D
-686A	016855
-686B	016866
-686C	016841
-686D	016867
-686E	016840
-686F	01683E
-6870	01684A
-6871	016849
-6872	016829
-6873	0168B5
-6874	01688F
-6875	016874
-6876	016877
-6877	016893
-6878	01686B
-6879	0168C2
-687A	01696E
-687B	0168FC
-687C	01691F
-687D	016920
-687E	0168F9
-6921	016924
-6922	0168F0
-6923	01690B
-6924	016901
-6925	016957
-6926	0168E3
-6927	016910
-6928	016971
-6929	016939
-692A	016960
-692B	016942
-692C	01695D
-692D	016984
-692E	01696B
-692F	016980
-6930	016998
-6931	016978
-6932	016934
-6933	0169CC
-6934	016987
-6935	016988
-6936	0169CE
-6937	016989
-6938	016966
-6939	016963
-693A	016979
-693B	01699B
-693C	0169A7
-693D	0169BB
-693E	0169AB
-693F	0169AD
-6940	0169D4
-6941	0169B1
-6942	0169C1
-6943	0169CA
-6944	0169DF
-6945	016995
-6946	0169E0
-6947	01698D
-6948	0169FF
-6949	016A2F
-694A	0169ED
-694B	016A17
-694C	016A18
-694D	016A65
-694E	0169F2
-694F	016A44
-6950	016A3E
-6951	016AA0
-6952	016A50
-6953	016A5B
-6954	016A35
-6955	016A8E
-6956	016A79
-6957	016A3D
-6958	016A28
-6959	016A58
-695A	016A7C
-695B	016A91
-695C	016A90
-695D	016AA9
-695E	016A97
-695F	016AAB
-6960	017337
-6961	017352
-6962	016B81
-6963	016B82
-6964	016B87
-6965	016B84
-6966	016B92
-6967	016B93
-6968	016B8D
-6969	016B9A
-696A	016B9B
-696B	016BA1
-696C	016BAA
-696D	018F6B
-696E	018F6D
-696F	018F71
-6970	018F72
-6971	018F73
-6972	018F75
-6973	018F76
-6974	018F78
-6975	018F77
-6976	018F79
-6977	018F7A
-6978	018F7C
-6979	018F7E
-697A	018F81
-697B	018F82
-697C	018F84
-697D	018F87
-697E	018F8B
-6A21	018F8D
-6A22	018F8E
-6A23	018F8F
-6A24	018F98
-6A25	018F9A
-6A26	018ECE
-6A27	01620B
-6A28	016217
-6A29	01621B
-6A2A	01621F
-6A2B	016222
-6A2C	016221
-6A2D	016225
-6A2E	016224
-6A2F	01622C
-6A30	0181E7
-6A31	0174EF
-6A32	0174F4
-6A33	0174FF
-6A34	01750F
-6A35	017511
-6A36	017513
-6A37	016534
-6A38	0165EE
-6A39	0165EF
-6A3A	0165F0
-6A3B	01660A
-6A3C	016619
-6A3D	016772
-6A3E	016603
-6A3F	016615
-6A40	016600
-6A41	017085
-6A42	0166F7
-6A43	01661D
-6A44	016634
-6A45	016631
-6A46	016636
-6A47	016635
-6A48	018006
-6A49	01665F
-6A4A	016654
-6A4B	016641
-6A4C	01664F
-6A4D	016656
-6A4E	016661
-6A4F	016657
-6A50	016677
-6A51	016684
-6A52	01668C
-6A53	0166A7
-6A54	01669D
-6A55	0166BE
-6A56	0166DB
-6A57	0166DC
-6A58	0166E6
-6A59	0166E9
-6A5A	018D32
-6A5B	018D33
-6A5C	018D36
-6A5D	018D3B
-6A5E	018D3D
-6A5F	018D40
-6A60	018D45
-6A61	018D46
-6A62	018D48
-6A63	018D49
-6A64	018D47
-6A65	018D4D
-6A66	018D55
-6A67	018D59
-6A68	0189C7
-6A69	0189CA
-6A6A	0189CB
-6A6B	0189CC
-6A6C	0189CE
-6A6D	0189CF
-6A6E	0189D0
-6A6F	0189D1
-6A70	01726E
-6A71	01729F
-6A72	01725D
-6A73	017266
-6A74	01726F
-6A75	01727E
-6A76	01727F
-6A77	017284
-6A78	01728B
-6A79	01728D
-6A7A	01728F
-6A7B	017292
-6A7C	016308
-6A7D	016332
-6A7E	0163B0
-6B21	01643F
-6B22	0164D8
-6B23	018004
-6B24	016BEA
-6B25	016BF3
-6B26	016BFD
-6B27	016BF5
-6B28	016BF9
-6B29	016C05
-6B2A	016C07
-6B2B	016C06
-6B2C	016C0D
-6B2D	016C15
-6B2E	016C18
-6B2F	016C19
-6B30	016C1A
-6B31	016C21
-6B32	016C29
-6B33	016C24
-6B34	016C2A
-6B35	016C32
-6B36	016535
-6B37	016555
-6B38	01656B
-6B39	01724D
-6B3A	017252
-6B3B	017256
-6B3C	017230
-6B3D	018662
-6B3E	015216
-6B3F	01809F
-6B40	01809C
-6B41	018093
-6B42	0180BC
-6B43	01670A
-6B44	0180BD
-6B45	0180B1
-6B46	0180AB
-6B47	0180AD
-6B48	0180B4
-6B49	0180B7
-6B4A	0180E7
-6B4B	0180E8
-6B4C	0180E9
-6B4D	0180EA
-6B4E	0180DB
-6B4F	0180C2
-6B50	0180C4
-6B51	0180D9
-6B52	0180CD
-6B53	0180D7
-6B54	016710
-6B55	0180DD
-6B56	0180EB
-6B57	0180F1
-6B58	0180F4
-6B59	0180ED
-6B5A	01810D
-6B5B	01810E
-6B5C	0180F2
-6B5D	0180FC
-6B5E	016715
-6B5F	018112
-6B60	018C5A
-6B61	018136
-6B62	01811E
-6B63	01812C
-6B64	018118
-6B65	018132
-6B66	018148
-6B67	01814C
-6B68	018153
-6B69	018174
-6B6A	018159
-6B6B	01815A
-6B6C	018171
-6B6D	018160
-6B6E	018169
-6B6F	01817C
-6B70	01817D
-6B71	01816D
-6B72	018167
-6B73	01584D
-6B74	015AB5
-6B75	018188
-6B76	018182
-6B77	018191
-6B78	016ED5
-6B79	0181A3
-6B7A	0181AA
-6B7B	0181CC
-6B7C	016726
-6B7D	0181CA
-6B7E	0181BB
-6C21	0181C1
-6C22	0181A6
-6C23	016B24
-6C24	016B37
-6C25	016B39
-6C26	016B43
-6C27	016B46
-6C28	016B59
-6C29	0198D1
-6C2A	0198D2
-6C2B	0198D3
-6C2C	0198D5
-6C2D	0198D9
-6C2E	0198DA
-6C2F	016BB3
-6C30	015F40
-6C31	016BC2
-6C32	0189F3
-6C33	016590
-6C34	019F51
-6C35	016593
-6C36	0165BC
-6C37	0165C6
-6C38	0165C4
-6C39	0165C3
-6C3A	0165CC
-6C3B	0165CE
-6C3C	0165D2
-6C3D	0165D6
-6C3E	017080
-6C3F	01709C
-6C40	017096
-6C41	01709D
-6C42	0170BB
-6C43	0170C0
-6C44	0170B7
-6C45	0170AB
-6C46	0170B1
-6C47	0170E8
-6C48	0170CA
-6C49	017110
-6C4A	017113
-6C4B	017116
-6C4C	01712F
-6C4D	017131
-6C4E	017173
-6C4F	01715C
-6C50	017168
-6C51	017145
-6C52	017172
-6C53	01714A
-6C54	017178
-6C55	01717A
-6C56	017198
-6C57	0171B3
-6C58	0171B5
-6C59	0171A8
-6C5A	0171A0
-6C5B	0171E0
-6C5C	0171D4
-6C5D	0171E7
-6C5E	0171F9
-6C5F	01721D
-6C60	017228
-6C61	01706C
-6C62	017118
-6C63	017166
-6C64	0171B9
-6C65	01623E
-6C66	01623D
-6C67	016243
-6C68	016248
-6C69	016249
-6C6A	01793B
-6C6B	017940
-6C6C	017946
-6C6D	017949
-6C6E	01795B
-6C6F	01795C
-6C70	017953
-6C71	01795A
-6C72	017962
-6C73	017957
-6C74	017960
-6C75	01796F
-6C76	017967
-6C77	01797A
-6C78	017985
-6C79	01798A
-6C7A	01799A
-6C7B	0179A7
-6C7C	0179B3
-6C7D	015FD1
-6C7E	015FD0
-6D21	01603C
-6D22	01605D
-6D23	01605A
-6D24	016067
-6D25	016041
-6D26	016059
-6D27	016063
-6D28	0160AB
-6D29	016106
-6D2A	01610D
-6D2B	01615D
-6D2C	0161A9
-6D2D	01619D
-6D2E	0161CB
-6D2F	0161D1
-6D30	016206
-6D31	018080
-6D32	01807F
-6D33	016C93
-6D34	016CF6
-6D35	016DFC
-6D36	0177F6
-6D37	0177F8
-6D38	017800
-6D39	017809
-6D3A	017817
-6D3B	017818
-6D3C	017811
-6D3D	0165AB
-6D3E	01782D
-6D3F	01781C
-6D40	01781D
-6D41	017839
-6D42	01783A
-6D43	01783B
-6D44	01781F
-6D45	01783C
-6D46	017825
-6D47	01782C
-6D48	017823
-6D49	017829
-6D4A	01784E
-6D4B	01786D
-6D4C	017856
-6D4D	017857
-6D4E	017826
-6D4F	017850
-6D50	017847
-6D51	01784C
-6D52	01786A
-6D53	01789B
-6D54	017893
-6D55	01789A
-6D56	017887
-6D57	01789C
-6D58	0178A1
-6D59	0178A3
-6D5A	0178B2
-6D5B	0178B9
-6D5C	0178A5
-6D5D	0178D4
-6D5E	0178D9
-6D5F	0178C9
-6D60	0178EC
-6D61	0178F2
-6D62	017905
-6D63	0178F4
-6D64	017913
-6D65	017924
-6D66	01791E
-6D67	017934
-6D68	019F9B
-6D69	019EF9
-6D6A	019EFB
-6D6B	019EFC
-6D6C	0176F1
-6D6D	017704
-6D6E	01770D
-6D6F	0176F9
-6D70	017707
-6D71	017708
-6D72	01771A
-6D73	017722
-6D74	017719
-6D75	01772D
-6D76	017726
-6D77	017735
-6D78	017738
-6D79	017750
-6D7A	017751
-6D7B	017747
-6D7C	017743
-6D7D	01775A
-6D7E	017768
-6E21	017762
-6E22	017765
-6E23	01777F
-6E24	01778D
-6E25	01777D
-6E26	017780
-6E27	01778C
-6E28	017791
-6E29	01779F
-6E2A	0177A0
-6E2B	0177B0
-6E2C	0177B5
-6E2D	0177BD
-6E2E	01753A
-6E2F	017540
-6E30	01754E
-6E31	01754B
-6E32	017548
-6E33	01755B
-6E34	017572
-6E35	017579
-6E36	017583
-6E37	017F58
-6E38	017F61
-6E39	017F5F
-6E3A	018A48
-6E3B	017F68
-6E3C	017F74
-6E3D	017F71
-6E3E	017F79
-6E3F	017F81
-6E40	017F7E
-6E41	0176CD
-6E42	0176E5
-6E43	018832
-6E44	019485
-6E45	019486
-6E46	019487
-6E47	01948B
-6E48	01948A
-6E49	01948C
-6E4A	01948D
-6E4B	01948F
-6E4C	019490
-6E4D	019494
-6E4E	019497
-6E4F	019495
-6E50	01949A
-6E51	01949B
-6E52	01949C
-6E53	0194A3
-6E54	0194A4
-6E55	0194AB
-6E56	0194AA
-6E57	0194AD
-6E58	0194AC
-6E59	0194AF
-6E5A	0194B0
-6E5B	0194B2
-6E5C	0194B4
-6E5D	0194B6
-6E5E	0194B7
-6E5F	0194B8
-6E60	0194B9
-6E61	0194BA
-6E62	0194BC
-6E63	0194BD
-6E64	0194BF
-6E65	0194C4
-6E66	0194C8
-6E67	0194C9
-6E68	0194CA
-6E69	0194CB
-6E6A	0194CC
-6E6B	0194CD
-6E6C	0194CE
-6E6D	0194D0
-6E6E	0194D1
-6E6F	0194D2
-6E70	0194D5
-6E71	0194D6
-6E72	0194D7
-6E73	0194D9
-6E74	0194D8
-6E75	0194DB
-6E76	0194DE
-6E77	0194DF
-6E78	0194E0
-6E79	0194E2
-6E7A	0194E4
-6E7B	0194E5
-6E7C	0194E7
-6E7D	0194E8
-6E7E	0194EA
-6F21	0194E9
-6F22	0194EB
-6F23	0194EE
-6F24	0194EF
-6F25	0194F3
-6F26	0194F4
-6F27	0194F5
-6F28	0194F7
-6F29	0194F9
-6F2A	0194FC
-6F2B	0194FD
-6F2C	0194FF
-6F2D	019503
-6F2E	019502
-6F2F	019506
-6F30	019507
-6F31	019509
-6F32	01950A
-6F33	01950D
-6F34	01950E
-6F35	01950F
-6F36	019512
-6F37	019513
-6F38	019514
-6F39	019515
-6F3A	019516
-6F3B	019518
-6F3C	01951B
-6F3D	01951D
-6F3E	01951E
-6F3F	01951F
-6F40	019522
-6F41	01952A
-6F42	01952B
-6F43	019529
-6F44	01952C
-6F45	019531
-6F46	019532
-6F47	019534
-6F48	019536
-6F49	019537
-6F4A	019538
-6F4B	01953C
-6F4C	01953E
-6F4D	01953F
-6F4E	019542
-6F4F	019535
-6F50	019544
-6F51	019545
-6F52	019546
-6F53	019549
-6F54	01954C
-6F55	01954E
-6F56	01954F
-6F57	019552
-6F58	019553
-6F59	019554
-6F5A	019556
-6F5B	019557
-6F5C	019558
-6F5D	019559
-6F5E	01955B
-6F5F	01955E
-6F60	01955F
-6F61	01955D
-6F62	019561
-6F63	019562
-6F64	019564
-6F65	019565
-6F66	019566
-6F67	019567
-6F68	019568
-6F69	019569
-6F6A	01956A
-6F6B	01956B
-6F6C	01956C
-6F6D	01956F
-6F6E	019571
-6F6F	019572
-6F70	019573
-6F71	01953A
-6F72	0177E7
-6F73	0177EC
-6F74	0196C9
-6F75	0179D5
-6F76	0179ED
-6F77	0179E3
-6F78	0179EB
-6F79	017A06
-6F7A	015D47
-6F7B	017A03
-6F7C	017A02
-6F7D	017A1E
-6F7E	017A14
-7021	017A39
-7022	017A37
-7023	017A51
-7024	019ECF
-7025	0199A5
-7026	017A70
-7027	017688
-7028	01768E
-7029	017693
-702A	017699
-702B	0176A4
-702C	0174DE
-702D	0174E0
-702E	01752C
-702F	019E20
-7030	019E22
-7031	019E28
-7032	019E29
-7033	019E2A
-7034	019E2B
-7035	019E2C
-7036	019E32
-7037	019E31
-7038	019E36
-7039	019E38
-703A	019E37
-703B	019E39
-703C	019E3A
-703D	019E3E
-703E	019E41
-703F	019E42
-7040	019E44
-7041	019E46
-7042	019E47
-7043	019E48
-7044	019E49
-7045	019E4B
-7046	019E4C
-7047	019E4E
-7048	019E51
-7049	019E55
-704A	019E57
-704B	019E5A
-704C	019E5B
-704D	019E5C
-704E	019E5E
-704F	019E63
-7050	019E66
-7051	019E67
-7052	019E68
-7053	019E69
-7054	019E6A
-7055	019E6B
-7056	019E6C
-7057	019E71
-7058	019E6D
-7059	019E73
-705A	017592
-705B	017594
-705C	017596
-705D	0175A0
-705E	01759D
-705F	0175AC
-7060	0175A3
-7061	0175B3
-7062	0175B4
-7063	0175B8
-7064	0175C4
-7065	0175B1
-7066	0175B0
-7067	0175C3
-7068	0175C2
-7069	0175D6
-706A	0175CD
-706B	0175E3
-706C	0175E8
-706D	0175E6
-706E	0175E4
-706F	0175EB
-7070	0175E7
-7071	017603
-7072	0175F1
-7073	0175FC
-7074	0175FF
-7075	017610
-7076	017600
-7077	017605
-7078	01760C
-7079	017617
-707A	01760A
-707B	017625
-707C	017618
-707D	017615
-707E	017619
-7121	01761B
-7122	01763C
-7123	017622
-7124	017620
-7125	017640
-7126	01762D
-7127	017630
-7128	01763F
-7129	017635
-712A	017643
-712B	01763E
-712C	017633
-712D	01764D
-712E	01765E
-712F	017654
-7130	01765C
-7131	017656
-7132	01766B
-7133	01766F
-7134	017FCA
-7135	017AE6
-7136	017A78
-7137	017A79
-7138	017A80
-7139	017A86
-713A	017A88
-713B	017A95
-713C	017AA6
-713D	017AA0
-713E	017AAC
-713F	017AA8
-7140	017AAD
-7141	017AB3
-7142	018864
-7143	018869
-7144	018872
-7145	01887D
-7146	01887F
-7147	018882
-7148	0188A2
-7149	0188C6
-714A	0188B7
-714B	0188BC
-714C	0188C9
-714D	0188E2
-714E	0188CE
-714F	0188E3
-7150	0188E5
-7151	0188F1
-7152	01891A
-7153	0188FC
-7154	0188E8
-7155	0188FE
-7156	0188F0
-7157	018921
-7158	018919
-7159	018913
-715A	01891B
-715B	01890A
-715C	018934
-715D	01892B
-715E	018936
-715F	018941
-7160	018966
-7161	01897B
-7162	01758B
-7163	0180E5
-7164	0176B2
-7165	0176B4
-7166	0177DC
-7167	018012
-7168	018014
-7169	018016
-716A	01801C
-716B	018020
-716C	018022
-716D	018025
-716E	018026
-716F	018027
-7170	018029
-7171	018028
-7172	018031
-7173	01800B
-7174	018035
-7175	018043
-7176	018046
-7177	01804D
-7178	018052
-7179	018069
-717A	018071
-717B	018983
-717C	019878
-717D	019880
-717E	019883
-7221	019889
-7222	01988C
-7223	01988D
-7224	01988F
-7225	019894
-7226	01989A
-7227	01989B
-7228	01989E
-7229	01989F
-722A	0198A1
-722B	0198A2
-722C	0198A5
-722D	0198A6
-722E	01864D
-722F	018654
-7230	01866C
-7231	01866E
-7232	01867F
-7233	01867A
-7234	01867C
-7235	01867B
-7236	0186A8
-7237	01868D
-7238	01868B
-7239	0186AC
-723A	01869D
-723B	0186A7
-723C	0186A3
-723D	0186AA
-723E	018693
-723F	0186A9
-7240	0186B6
-7241	0186C4
-7242	0186B5
-7243	0186CE
-7244	0186B0
-7245	0186BA
-7246	0186B1
-7247	0186AF
-7248	0186C9
-7249	0186CF
-724A	0186B4
-724B	0186E9
-724C	0186F1
-724D	0186F2
-724E	0186ED
-724F	0186F3
-7250	0186D0
-7251	018713
-7252	0186DE
-7253	0186F4
-7254	0186DF
-7255	0186D8
-7256	0186D1
-7257	018703
-7258	018707
-7259	0186F8
-725A	018708
-725B	01870A
-725C	01870D
-725D	018709
-725E	018723
-725F	01873B
-7260	01871E
-7261	018725
-7262	01872E
-7263	01871A
-7264	01873E
-7265	018748
-7266	018734
-7267	018731
-7268	018729
-7269	018737
-726A	01873F
-726B	018782
-726C	018722
-726D	01877D
-726E	01877E
-726F	01877B
-7270	018760
-7271	018770
-7272	01874C
-7273	01876E
-7274	01878B
-7275	018753
-7276	018763
-7277	01877C
-7278	018764
-7279	018759
-727A	018765
-727B	018793
-727C	0187AF
-727D	0187A8
-727E	0187D2
-7321	0187C6
-7322	018788
-7323	018785
-7324	0187AD
-7325	018797
-7326	018783
-7327	0187AB
-7328	0187E5
-7329	0187AC
-732A	0187B5
-732B	0187B3
-732C	0187CB
-732D	0187D3
-732E	0187BD
-732F	0187D1
-7330	0187C0
-7331	0187CA
-7332	0187DB
-7333	0187EA
-7334	0187E0
-7335	0187EE
-7336	018816
-7337	018813
-7338	0187FE
-7339	01880A
-733A	01881B
-733B	018821
-733C	018839
-733D	01883C
-733E	017F36
-733F	017F42
-7340	017F44
-7341	017F45
-7342	018210
-7343	017AFA
-7344	017AFD
-7345	017B08
-7346	017B03
-7347	017B04
-7348	017B15
-7349	017B0A
-734A	017B2B
-734B	017B0F
-734C	017B47
-734D	017B38
-734E	017B2A
-734F	017B19
-7350	017B2E
-7351	017B31
-7352	017B20
-7353	017B25
-7354	017B24
-7355	017B33
-7356	017B3E
-7357	017B1E
-7358	017B58
-7359	017B5A
-735A	017B45
-735B	017B75
-735C	017B4C
-735D	017B5D
-735E	017B60
-735F	017B6E
-7360	017B7B
-7361	017B62
-7362	017B72
-7363	017B71
-7364	017B90
-7365	017BA6
-7366	017BA7
-7367	017BB8
-7368	017BAC
-7369	017B9D
-736A	017BA8
-736B	017B85
-736C	017BAA
-736D	017B9C
-736E	017BA2
-736F	017BAB
-7370	017BB4
-7371	017BD1
-7372	017BC1
-7373	017BCC
-7374	017BDD
-7375	017BDA
-7376	017BE5
-7377	017BE6
-7378	017BEA
-7379	017C0C
-737A	017BFE
-737B	017BFC
-737C	017C0F
-737D	017C16
-737E	017C0B
-7421	017C1F
-7422	017C2A
-7423	017C26
-7424	017C38
-7425	017C41
-7426	017C40
-7427	0181FE
-7428	018201
-7429	018202
-742A	018204
-742B	0181EC
-742C	018844
-742D	018221
-742E	018222
-742F	018223
-7430	01822D
-7431	01822F
-7432	018228
-7433	01822B
-7434	018238
-7435	01823B
-7436	018233
-7437	018234
-7438	01823E
-7439	018244
-743A	018249
-743B	01824B
-743C	01824F
-743D	01825A
-743E	01825F
-743F	018268
-7440	01887E
-7441	018885
-7442	018888
-7443	0188D8
-7444	0188DF
-7445	01895E
-7446	017F9D
-7447	017F9F
-7448	017FA7
-7449	017FAF
-744A	017FB0
-744B	017FB2
-744C	017C7C
-744D	016549
-744E	017C91
-744F	017C9D
-7450	017C9C
-7451	017C9E
-7452	017CA2
-7453	017CB2
-7454	017CBC
-7455	017CBD
-7456	017CC1
-7457	017CC7
-7458	017CCC
-7459	017CCD
-745A	017CC8
-745B	017CC5
-745C	017CD7
-745D	017CE8
-745E	01826E
-745F	0166A8
-7460	017FBF
-7461	017FCE
-7462	017FD5
-7463	017FE5
-7464	017FE1
-7465	017FE6
-7466	017FE9
-7467	017FEE
-7468	017FF3
-7469	017CF8
-746A	017D77
-746B	017DA6
-746C	017DAE
-746D	017E47
-746E	017E9B
-746F	019EB8
-7470	019EB4
-7471	018D73
-7472	018D84
-7473	018D94
-7474	018D91
-7475	018DB1
-7476	018D67
-7477	018D6D
-7478	018C47
-7479	018C49
-747A	01914A
-747B	019150
-747C	01914E
-747D	01914F
-747E	019164
-7521	019162
-7522	019161
-7523	019170
-7524	019169
-7525	01916F
-7526	01917D
-7527	01917E
-7528	019172
-7529	019174
-752A	019179
-752B	01918C
-752C	019185
-752D	019190
-752E	01918D
-752F	019191
-7530	0191A2
-7531	0191A3
-7532	0191AA
-7533	0191AD
-7534	0191AE
-7535	0191AF
-7536	0191B5
-7537	0191B4
-7538	0191BA
-7539	018C55
-753A	019E7E
-753B	018DB8
-753C	018DEB
-753D	018E05
-753E	018E59
-753F	018E69
-7540	018DB5
-7541	018DBF
-7542	018DBC
-7543	018DBA
-7544	018DC4
-7545	018DD6
-7546	018DD7
-7547	018DDA
-7548	018DDE
-7549	018DCE
-754A	018DCF
-754B	018DDB
-754C	018DC6
-754D	018DEC
-754E	018DF7
-754F	018DF8
-7550	018DE3
-7551	018DF9
-7552	018DFB
-7553	018DE4
-7554	018E09
-7555	018DFD
-7556	018E14
-7557	018E1D
-7558	018E1F
-7559	018E2C
-755A	018E2E
-755B	018E23
-755C	018E2F
-755D	018E3A
-755E	018E40
-755F	018E39
-7560	018E35
-7561	018E3D
-7562	018E31
-7563	018E49
-7564	018E41
-7565	018E42
-7566	018E51
-7567	018E52
-7568	018E4A
-7569	018E70
-756A	018E76
-756B	018E7C
-756C	018E6F
-756D	018E74
-756E	018E85
-756F	018E8F
-7570	018E94
-7571	018E90
-7572	018E9C
-7573	018E9E
-7574	018C78
-7575	018C82
-7576	018C8A
-7577	018C85
-7578	018C98
-7579	018C94
-757A	01659B
-757B	0189D6
-757C	0189DE
-757D	0189DA
-757E	0189DC
-7621	0189E5
-7622	0189EB
-7623	0189EF
-7624	018A3E
-7625	018B26
-7626	019753
-7627	0196E9
-7628	0196F3
-7629	0196EF
-762A	019706
-762B	019701
-762C	019708
-762D	01970F
-762E	01970E
-762F	01972A
-7630	01972D
-7631	019730
-7632	01973E
-7633	019F80
-7634	019F83
-7635	019F85
-7636	019F86
-7637	019F87
-7638	019F88
-7639	019F89
-763A	019F8A
-763B	019F8C
-763C	019EFE
-763D	019F0B
-763E	019F0D
-763F	0196B9
-7640	0196BC
-7641	0196BD
-7642	0196CE
-7643	0196D2
-7644	0177BF
-7645	0196E0
-7646	01928E
-7647	0192AE
-7648	0192C8
-7649	01933E
-764A	01936A
-764B	0193CA
-764C	01938F
-764D	01943E
-764E	01946B
-764F	019C7F
-7650	019C82
-7651	019C85
-7652	019C86
-7653	019C87
-7654	019C88
-7655	017A23
-7656	019C8B
-7657	019C8E
-7658	019C90
-7659	019C91
-765A	019C92
-765B	019C94
-765C	019C95
-765D	019C9A
-765E	019C9B
-765F	019C9E
-7660	019C9F
-7661	019CA0
-7662	019CA1
-7663	019CA2
-7664	019CA3
-7665	019CA5
-7666	019CA6
-7667	019CA7
-7668	019CA8
-7669	019CA9
-766A	019CAB
-766B	019CAD
-766C	019CAE
-766D	019CB0
-766E	019CB1
-766F	019CB2
-7670	019CB3
-7671	019CB4
-7672	019CB5
-7673	019CB6
-7674	019CB7
-7675	019CBA
-7676	019CBB
-7677	019CBC
-7678	019CBD
-7679	019CC4
-767A	019CC5
-767B	019CC6
-767C	019CC7
-767D	019CCA
-767E	019CCB
-7721	019CCC
-7722	019CCD
-7723	019CCE
-7724	019CCF
-7725	019CD0
-7726	019CD3
-7727	019CD4
-7728	019CD5
-7729	019CD7
-772A	019CD8
-772B	019CD9
-772C	019CDC
-772D	019CDD
-772E	019CDF
-772F	019CE2
-7730	01977C
-7731	019785
-7732	019791
-7733	019792
-7734	019794
-7735	0197AF
-7736	0197AB
-7737	0197A3
-7738	0197B2
-7739	0197B4
-773A	019AB1
-773B	019AB0
-773C	019AB7
-773D	019E58
-773E	019AB6
-773F	019ABA
-7740	019ABC
-7741	019AC1
-7742	019AC0
-7743	019AC5
-7744	019AC2
-7745	019ACB
-7746	019ACC
-7747	019AD1
-7748	019B45
-7749	019B43
-774A	019B47
-774B	019B49
-774C	019B48
-774D	019B4D
-774E	019B51
-774F	0198E8
-7750	01990D
-7751	01992E
-7752	019955
-7753	019954
-7754	019ADF
-7755	019AE1
-7756	019AE6
-7757	019AEF
-7758	019AEB
-7759	019AFB
-775A	019AED
-775B	019AF9
-775C	019B08
-775D	019B0F
-775E	019B13
-775F	019B1F
-7760	019B23
-7761	019EBD
-7762	019EBE
-7763	017E3B
-7764	019E82
-7765	019E87
-7766	019E88
-7767	019E8B
-7768	019E92
-7769	0193D6
-776A	019E9D
-776B	019E9F
-776C	019EDB
-776D	019EDC
-776E	019EDD
-776F	019EE0
-7770	019EDF
-7771	019EE2
-7772	019EE9
-7773	019EE7
-7774	019EE5
-7775	019EEA
-7776	019EEF
-7777	019F22
-7778	019F2C
-7779	019F2F
-777A	019F39
-777B	019F37
-777C	019F3D
-777D	019F3E
-777E	019F44
+A1A1	013000
+A1A2	013001
+A1A3	013002
+A1A4	0130FB
+A1A5	0102C9
+A1A6	0102C7
+A1A7	01A8
+A1A8	013003
+A1A9	013005
+A1AA	012015
+A1AB	01FF5E
+A1AC	012016
+A1AD	012026
+A1AE	012018
+A1AF	012019
+A1B0	01201C
+A1B1	01201D
+A1B2	013014
+A1B3	013015
+A1B4	013008
+A1B5	013009
+A1B6	01300A
+A1B7	01300B
+A1B8	01300C
+A1B9	01300D
+A1BA	01300E
+A1BB	01300F
+A1BC	013016
+A1BD	013017
+A1BE	013010
+A1BF	013011
+A1C0	01B1
+A1C1	01D7
+A1C2	01F7
+A1C3	012236
+A1C4	012227
+A1C5	012228
+A1C6	012211
+A1C7	01220F
+A1C8	01222A
+A1C9	012229
+A1CA	012208
+A1CB	012237
+A1CC	01221A
+A1CD	0122A5
+A1CE	012225
+A1CF	012220
+A1D0	012312
+A1D1	012299
+A1D2	01222B
+A1D3	01222E
+A1D4	012261
+A1D5	01224C
+A1D6	012248
+A1D7	01223D
+A1D8	01221D
+A1D9	012260
+A1DA	01226E
+A1DB	01226F
+A1DC	012264
+A1DD	012265
+A1DE	01221E
+A1DF	012235
+A1E0	012234
+A1E1	012642
+A1E2	012640
+A1E3	01B0
+A1E4	012032
+A1E5	012033
+A1E6	012103
+A1E7	01FF04
+A1E8	01A4
+A1E9	01FFE0
+A1EA	01FFE1
+A1EB	012030
+A1EC	01A7
+A1ED	012116
+A1EE	012606
+A1EF	012605
+A1F0	0125CB
+A1F1	0125CF
+A1F2	0125CE
+A1F3	0125C7
+A1F4	0125C6
+A1F5	0125A1
+A1F6	0125A0
+A1F7	0125B3
+A1F8	0125B2
+A1F9	01203B
+A1FA	012192
+A1FB	012190
+A1FC	012191
+A1FD	012193
+A1FE	013013
+A2B1	012488
+A2B2	012489
+A2B3	01248A
+A2B4	01248B
+A2B5	01248C
+A2B6	01248D
+A2B7	01248E
+A2B8	01248F
+A2B9	012490
+A2BA	012491
+A2BB	012492
+A2BC	012493
+A2BD	012494
+A2BE	012495
+A2BF	012496
+A2C0	012497
+A2C1	012498
+A2C2	012499
+A2C3	01249A
+A2C4	01249B
+A2C5	012474
+A2C6	012475
+A2C7	012476
+A2C8	012477
+A2C9	012478
+A2CA	012479
+A2CB	01247A
+A2CC	01247B
+A2CD	01247C
+A2CE	01247D
+A2CF	01247E
+A2D0	01247F
+A2D1	012480
+A2D2	012481
+A2D3	012482
+A2D4	012483
+A2D5	012484
+A2D6	012485
+A2D7	012486
+A2D8	012487
+A2D9	012460
+A2DA	012461
+A2DB	012462
+A2DC	012463
+A2DD	012464
+A2DE	012465
+A2DF	012466
+A2E0	012467
+A2E1	012468
+A2E2	012469
+A2E5	013220
+A2E6	013221
+A2E7	013222
+A2E8	013223
+A2E9	013224
+A2EA	013225
+A2EB	013226
+A2EC	013227
+A2ED	013228
+A2EE	013229
+A2F1	012160
+A2F2	012161
+A2F3	012162
+A2F4	012163
+A2F5	012164
+A2F6	012165
+A2F7	012166
+A2F8	012167
+A2F9	012168
+A2FA	012169
+A2FB	01216A
+A2FC	01216B
+A3A1	01FF01
+A3A2	01FF02
+A3A3	01FF03
+A3A4	01FFE5
+A3A5	01FF05
+A3A6	01FF06
+A3A7	01FF07
+A3A8	01FF08
+A3A9	01FF09
+A3AA	01FF0A
+A3AB	01FF0B
+A3AC	01FF0C
+A3AD	01FF0D
+A3AE	01FF0E
+A3AF	01FF0F
+A3B0	01FF10
+A3B1	01FF11
+A3B2	01FF12
+A3B3	01FF13
+A3B4	01FF14
+A3B5	01FF15
+A3B6	01FF16
+A3B7	01FF17
+A3B8	01FF18
+A3B9	01FF19
+A3BA	01FF1A
+A3BB	01FF1B
+A3BC	01FF1C
+A3BD	01FF1D
+A3BE	01FF1E
+A3BF	01FF1F
+A3C0	01FF20
+A3C1	01FF21
+A3C2	01FF22
+A3C3	01FF23
+A3C4	01FF24
+A3C5	01FF25
+A3C6	01FF26
+A3C7	01FF27
+A3C8	01FF28
+A3C9	01FF29
+A3CA	01FF2A
+A3CB	01FF2B
+A3CC	01FF2C
+A3CD	01FF2D
+A3CE	01FF2E
+A3CF	01FF2F
+A3D0	01FF30
+A3D1	01FF31
+A3D2	01FF32
+A3D3	01FF33
+A3D4	01FF34
+A3D5	01FF35
+A3D6	01FF36
+A3D7	01FF37
+A3D8	01FF38
+A3D9	01FF39
+A3DA	01FF3A
+A3DB	01FF3B
+A3DC	01FF3C
+A3DD	01FF3D
+A3DE	01FF3E
+A3DF	01FF3F
+A3E0	01FF40
+A3E1	01FF41
+A3E2	01FF42
+A3E3	01FF43
+A3E4	01FF44
+A3E5	01FF45
+A3E6	01FF46
+A3E7	01FF47
+A3E8	01FF48
+A3E9	01FF49
+A3EA	01FF4A
+A3EB	01FF4B
+A3EC	01FF4C
+A3ED	01FF4D
+A3EE	01FF4E
+A3EF	01FF4F
+A3F0	01FF50
+A3F1	01FF51
+A3F2	01FF52
+A3F3	01FF53
+A3F4	01FF54
+A3F5	01FF55
+A3F6	01FF56
+A3F7	01FF57
+A3F8	01FF58
+A3F9	01FF59
+A3FA	01FF5A
+A3FB	01FF5B
+A3FC	01FF5C
+A3FD	01FF5D
+A3FE	01FFE3
+A4A1	013041
+A4A2	013042
+A4A3	013043
+A4A4	013044
+A4A5	013045
+A4A6	013046
+A4A7	013047
+A4A8	013048
+A4A9	013049
+A4AA	01304A
+A4AB	01304B
+A4AC	01304C
+A4AD	01304D
+A4AE	01304E
+A4AF	01304F
+A4B0	013050
+A4B1	013051
+A4B2	013052
+A4B3	013053
+A4B4	013054
+A4B5	013055
+A4B6	013056
+A4B7	013057
+A4B8	013058
+A4B9	013059
+A4BA	01305A
+A4BB	01305B
+A4BC	01305C
+A4BD	01305D
+A4BE	01305E
+A4BF	01305F
+A4C0	013060
+A4C1	013061
+A4C2	013062
+A4C3	013063
+A4C4	013064
+A4C5	013065
+A4C6	013066
+A4C7	013067
+A4C8	013068
+A4C9	013069
+A4CA	01306A
+A4CB	01306B
+A4CC	01306C
+A4CD	01306D
+A4CE	01306E
+A4CF	01306F
+A4D0	013070
+A4D1	013071
+A4D2	013072
+A4D3	013073
+A4D4	013074
+A4D5	013075
+A4D6	013076
+A4D7	013077
+A4D8	013078
+A4D9	013079
+A4DA	01307A
+A4DB	01307B
+A4DC	01307C
+A4DD	01307D
+A4DE	01307E
+A4DF	01307F
+A4E0	013080
+A4E1	013081
+A4E2	013082
+A4E3	013083
+A4E4	013084
+A4E5	013085
+A4E6	013086
+A4E7	013087
+A4E8	013088
+A4E9	013089
+A4EA	01308A
+A4EB	01308B
+A4EC	01308C
+A4ED	01308D
+A4EE	01308E
+A4EF	01308F
+A4F0	013090
+A4F1	013091
+A4F2	013092
+A4F3	013093
+A5A1	0130A1
+A5A2	0130A2
+A5A3	0130A3
+A5A4	0130A4
+A5A5	0130A5
+A5A6	0130A6
+A5A7	0130A7
+A5A8	0130A8
+A5A9	0130A9
+A5AA	0130AA
+A5AB	0130AB
+A5AC	0130AC
+A5AD	0130AD
+A5AE	0130AE
+A5AF	0130AF
+A5B0	0130B0
+A5B1	0130B1
+A5B2	0130B2
+A5B3	0130B3
+A5B4	0130B4
+A5B5	0130B5
+A5B6	0130B6
+A5B7	0130B7
+A5B8	0130B8
+A5B9	0130B9
+A5BA	0130BA
+A5BB	0130BB
+A5BC	0130BC
+A5BD	0130BD
+A5BE	0130BE
+A5BF	0130BF
+A5C0	0130C0
+A5C1	0130C1
+A5C2	0130C2
+A5C3	0130C3
+A5C4	0130C4
+A5C5	0130C5
+A5C6	0130C6
+A5C7	0130C7
+A5C8	0130C8
+A5C9	0130C9
+A5CA	0130CA
+A5CB	0130CB
+A5CC	0130CC
+A5CD	0130CD
+A5CE	0130CE
+A5CF	0130CF
+A5D0	0130D0
+A5D1	0130D1
+A5D2	0130D2
+A5D3	0130D3
+A5D4	0130D4
+A5D5	0130D5
+A5D6	0130D6
+A5D7	0130D7
+A5D8	0130D8
+A5D9	0130D9
+A5DA	0130DA
+A5DB	0130DB
+A5DC	0130DC
+A5DD	0130DD
+A5DE	0130DE
+A5DF	0130DF
+A5E0	0130E0
+A5E1	0130E1
+A5E2	0130E2
+A5E3	0130E3
+A5E4	0130E4
+A5E5	0130E5
+A5E6	0130E6
+A5E7	0130E7
+A5E8	0130E8
+A5E9	0130E9
+A5EA	0130EA
+A5EB	0130EB
+A5EC	0130EC
+A5ED	0130ED
+A5EE	0130EE
+A5EF	0130EF
+A5F0	0130F0
+A5F1	0130F1
+A5F2	0130F2
+A5F3	0130F3
+A5F4	0130F4
+A5F5	0130F5
+A5F6	0130F6
+A6A1	010391
+A6A2	010392
+A6A3	010393
+A6A4	010394
+A6A5	010395
+A6A6	010396
+A6A7	010397
+A6A8	010398
+A6A9	010399
+A6AA	01039A
+A6AB	01039B
+A6AC	01039C
+A6AD	01039D
+A6AE	01039E
+A6AF	01039F
+A6B0	0103A0
+A6B1	0103A1
+A6B2	0103A3
+A6B3	0103A4
+A6B4	0103A5
+A6B5	0103A6
+A6B6	0103A7
+A6B7	0103A8
+A6B8	0103A9
+A6C1	0103B1
+A6C2	0103B2
+A6C3	0103B3
+A6C4	0103B4
+A6C5	0103B5
+A6C6	0103B6
+A6C7	0103B7
+A6C8	0103B8
+A6C9	0103B9
+A6CA	0103BA
+A6CB	0103BB
+A6CC	0103BC
+A6CD	0103BD
+A6CE	0103BE
+A6CF	0103BF
+A6D0	0103C0
+A6D1	0103C1
+A6D2	0103C3
+A6D3	0103C4
+A6D4	0103C5
+A6D5	0103C6
+A6D6	0103C7
+A6D7	0103C8
+A6D8	0103C9
+A7A1	010410
+A7A2	010411
+A7A3	010412
+A7A4	010413
+A7A5	010414
+A7A6	010415
+A7A7	010401
+A7A8	010416
+A7A9	010417
+A7AA	010418
+A7AB	010419
+A7AC	01041A
+A7AD	01041B
+A7AE	01041C
+A7AF	01041D
+A7B0	01041E
+A7B1	01041F
+A7B2	010420
+A7B3	010421
+A7B4	010422
+A7B5	010423
+A7B6	010424
+A7B7	010425
+A7B8	010426
+A7B9	010427
+A7BA	010428
+A7BB	010429
+A7BC	01042A
+A7BD	01042B
+A7BE	01042C
+A7BF	01042D
+A7C0	01042E
+A7C1	01042F
+A7D1	010430
+A7D2	010431
+A7D3	010432
+A7D4	010433
+A7D5	010434
+A7D6	010435
+A7D7	010451
+A7D8	010436
+A7D9	010437
+A7DA	010438
+A7DB	010439
+A7DC	01043A
+A7DD	01043B
+A7DE	01043C
+A7DF	01043D
+A7E0	01043E
+A7E1	01043F
+A7E2	010440
+A7E3	010441
+A7E4	010442
+A7E5	010443
+A7E6	010444
+A7E7	010445
+A7E8	010446
+A7E9	010447
+A7EA	010448
+A7EB	010449
+A7EC	01044A
+A7ED	01044B
+A7EE	01044C
+A7EF	01044D
+A7F0	01044E
+A7F1	01044F
+A8A1	010101
+A8A2	01E1
+A8A3	0101CE
+A8A4	01E0
+A8A5	010113
+A8A6	01E9
+A8A7	01011B
+A8A8	01E8
+A8A9	01012B
+A8AA	01ED
+A8AB	0101D0
+A8AC	01EC
+A8AD	01014D
+A8AE	01F3
+A8AF	0101D2
+A8B0	01F2
+A8B1	01016B
+A8B2	01FA
+A8B3	0101D4
+A8B4	01F9
+A8B5	0101D6
+A8B6	0101D8
+A8B7	0101DA
+A8B8	0101DC
+A8B9	01FC
+A8BA	01EA
+A8C5	013105
+A8C6	013106
+A8C7	013107
+A8C8	013108
+A8C9	013109
+A8CA	01310A
+A8CB	01310B
+A8CC	01310C
+A8CD	01310D
+A8CE	01310E
+A8CF	01310F
+A8D0	013110
+A8D1	013111
+A8D2	013112
+A8D3	013113
+A8D4	013114
+A8D5	013115
+A8D6	013116
+A8D7	013117
+A8D8	013118
+A8D9	013119
+A8DA	01311A
+A8DB	01311B
+A8DC	01311C
+A8DD	01311D
+A8DE	01311E
+A8DF	01311F
+A8E0	013120
+A8E1	013121
+A8E2	013122
+A8E3	013123
+A8E4	013124
+A8E5	013125
+A8E6	013126
+A8E7	013127
+A8E8	013128
+A8E9	013129
+A9A4	012500
+A9A5	012501
+A9A6	012502
+A9A7	012503
+A9A8	012504
+A9A9	012505
+A9AA	012506
+A9AB	012507
+A9AC	012508
+A9AD	012509
+A9AE	01250A
+A9AF	01250B
+A9B0	01250C
+A9B1	01250D
+A9B2	01250E
+A9B3	01250F
+A9B4	012510
+A9B5	012511
+A9B6	012512
+A9B7	012513
+A9B8	012514
+A9B9	012515
+A9BA	012516
+A9BB	012517
+A9BC	012518
+A9BD	012519
+A9BE	01251A
+A9BF	01251B
+A9C0	01251C
+A9C1	01251D
+A9C2	01251E
+A9C3	01251F
+A9C4	012520
+A9C5	012521
+A9C6	012522
+A9C7	012523
+A9C8	012524
+A9C9	012525
+A9CA	012526
+A9CB	012527
+A9CC	012528
+A9CD	012529
+A9CE	01252A
+A9CF	01252B
+A9D0	01252C
+A9D1	01252D
+A9D2	01252E
+A9D3	01252F
+A9D4	012530
+A9D5	012531
+A9D6	012532
+A9D7	012533
+A9D8	012534
+A9D9	012535
+A9DA	012536
+A9DB	012537
+A9DC	012538
+A9DD	012539
+A9DE	01253A
+A9DF	01253B
+A9E0	01253C
+A9E1	01253D
+A9E2	01253E
+A9E3	01253F
+A9E4	012540
+A9E5	012541
+A9E6	012542
+A9E7	012543
+A9E8	012544
+A9E9	012545
+A9EA	012546
+A9EB	012547
+A9EC	012548
+A9ED	012549
+A9EE	01254A
+A9EF	01254B
+B0A1	01554A
+B0A2	01963F
+B0A3	0157C3
+B0A4	016328
+B0A5	0154CE
+B0A6	015509
+B0A7	0154C0
+B0A8	017691
+B0A9	01764C
+B0AA	01853C
+B0AB	0177EE
+B0AC	01827E
+B0AD	01788D
+B0AE	017231
+B0AF	019698
+B0B0	01978D
+B0B1	016C28
+B0B2	015B89
+B0B3	014FFA
+B0B4	016309
+B0B5	016697
+B0B6	015CB8
+B0B7	0180FA
+B0B8	016848
+B0B9	0180AE
+B0BA	016602
+B0BB	0176CE
+B0BC	0151F9
+B0BD	016556
+B0BE	0171AC
+B0BF	017FF1
+B0C0	018884
+B0C1	0150B2
+B0C2	015965
+B0C3	0161CA
+B0C4	016FB3
+B0C5	0182AD
+B0C6	01634C
+B0C7	016252
+B0C8	0153ED
+B0C9	015427
+B0CA	017B06
+B0CB	01516B
+B0CC	0175A4
+B0CD	015DF4
+B0CE	0162D4
+B0CF	018DCB
+B0D0	019776
+B0D1	01628A
+B0D2	018019
+B0D3	01575D
+B0D4	019738
+B0D5	017F62
+B0D6	017238
+B0D7	01767D
+B0D8	0167CF
+B0D9	01767E
+B0DA	016446
+B0DB	014F70
+B0DC	018D25
+B0DD	0162DC
+B0DE	017A17
+B0DF	016591
+B0E0	0173ED
+B0E1	01642C
+B0E2	016273
+B0E3	01822C
+B0E4	019881
+B0E5	01677F
+B0E6	017248
+B0E7	01626E
+B0E8	0162CC
+B0E9	014F34
+B0EA	0174E3
+B0EB	01534A
+B0EC	01529E
+B0ED	017ECA
+B0EE	0190A6
+B0EF	015E2E
+B0F0	016886
+B0F1	01699C
+B0F2	018180
+B0F3	017ED1
+B0F4	0168D2
+B0F5	0178C5
+B0F6	01868C
+B0F7	019551
+B0F8	01508D
+B0F9	018C24
+B0FA	0182DE
+B0FB	0180DE
+B0FC	015305
+B0FD	018912
+B0FE	015265
+B1A1	018584
+B1A2	0196F9
+B1A3	014FDD
+B1A4	015821
+B1A5	019971
+B1A6	015B9D
+B1A7	0162B1
+B1A8	0162A5
+B1A9	0166B4
+B1AA	018C79
+B1AB	019C8D
+B1AC	017206
+B1AD	01676F
+B1AE	017891
+B1AF	0160B2
+B1B0	015351
+B1B1	015317
+B1B2	018F88
+B1B3	0180CC
+B1B4	018D1D
+B1B5	0194A1
+B1B6	01500D
+B1B7	0172C8
+B1B8	015907
+B1B9	0160EB
+B1BA	017119
+B1BB	0188AB
+B1BC	015954
+B1BD	0182EF
+B1BE	01672C
+B1BF	017B28
+B1C0	015D29
+B1C1	017EF7
+B1C2	01752D
+B1C3	016CF5
+B1C4	018E66
+B1C5	018FF8
+B1C6	01903C
+B1C7	019F3B
+B1C8	016BD4
+B1C9	019119
+B1CA	017B14
+B1CB	015F7C
+B1CC	0178A7
+B1CD	0184D6
+B1CE	01853D
+B1CF	016BD5
+B1D0	016BD9
+B1D1	016BD6
+B1D2	015E01
+B1D3	015E87
+B1D4	0175F9
+B1D5	0195ED
+B1D6	01655D
+B1D7	015F0A
+B1D8	015FC5
+B1D9	018F9F
+B1DA	0158C1
+B1DB	0181C2
+B1DC	01907F
+B1DD	01965B
+B1DE	0197AD
+B1DF	018FB9
+B1E0	017F16
+B1E1	018D2C
+B1E2	016241
+B1E3	014FBF
+B1E4	0153D8
+B1E5	01535E
+B1E6	018FA8
+B1E7	018FA9
+B1E8	018FAB
+B1E9	01904D
+B1EA	016807
+B1EB	015F6A
+B1EC	018198
+B1ED	018868
+B1EE	019CD6
+B1EF	01618B
+B1F0	01522B
+B1F1	01762A
+B1F2	015F6C
+B1F3	01658C
+B1F4	016FD2
+B1F5	016EE8
+B1F6	015BBE
+B1F7	016448
+B1F8	015175
+B1F9	0151B0
+B1FA	0167C4
+B1FB	014E19
+B1FC	0179C9
+B1FD	01997C
+B1FE	0170B3
+B2A1	0175C5
+B2A2	015E76
+B2A3	0173BB
+B2A4	0183E0
+B2A5	0164AD
+B2A6	0162E8
+B2A7	0194B5
+B2A8	016CE2
+B2A9	01535A
+B2AA	0152C3
+B2AB	01640F
+B2AC	0194C2
+B2AD	017B94
+B2AE	014F2F
+B2AF	015E1B
+B2B0	018236
+B2B1	018116
+B2B2	01818A
+B2B3	016E24
+B2B4	016CCA
+B2B5	019A73
+B2B6	016355
+B2B7	01535C
+B2B8	0154FA
+B2B9	018865
+B2BA	0157E0
+B2BB	014E0D
+B2BC	015E03
+B2BD	016B65
+B2BE	017C3F
+B2BF	0190E8
+B2C0	016016
+B2C1	0164E6
+B2C2	01731C
+B2C3	0188C1
+B2C4	016750
+B2C5	01624D
+B2C6	018D22
+B2C7	01776C
+B2C8	018E29
+B2C9	0191C7
+B2CA	015F69
+B2CB	0183DC
+B2CC	018521
+B2CD	019910
+B2CE	0153C2
+B2CF	018695
+B2D0	016B8B
+B2D1	0160ED
+B2D2	0160E8
+B2D3	01707F
+B2D4	0182CD
+B2D5	018231
+B2D6	014ED3
+B2D7	016CA7
+B2D8	0185CF
+B2D9	0164CD
+B2DA	017CD9
+B2DB	0169FD
+B2DC	0166F9
+B2DD	018349
+B2DE	015395
+B2DF	017B56
+B2E0	014FA7
+B2E1	01518C
+B2E2	016D4B
+B2E3	015C42
+B2E4	018E6D
+B2E5	0163D2
+B2E6	0153C9
+B2E7	01832C
+B2E8	018336
+B2E9	0167E5
+B2EA	0178B4
+B2EB	01643D
+B2EC	015BDF
+B2ED	015C94
+B2EE	015DEE
+B2EF	018BE7
+B2F0	0162C6
+B2F1	0167F4
+B2F2	018C7A
+B2F3	016400
+B2F4	0163BA
+B2F5	018749
+B2F6	01998B
+B2F7	018C17
+B2F8	017F20
+B2F9	0194F2
+B2FA	014EA7
+B2FB	019610
+B2FC	0198A4
+B2FD	01660C
+B2FE	017316
+B3A1	01573A
+B3A2	015C1D
+B3A3	015E38
+B3A4	01957F
+B3A5	01507F
+B3A6	0180A0
+B3A7	015382
+B3A8	01655E
+B3A9	017545
+B3AA	015531
+B3AB	015021
+B3AC	018D85
+B3AD	016284
+B3AE	01949E
+B3AF	01671D
+B3B0	015632
+B3B1	016F6E
+B3B2	015DE2
+B3B3	015435
+B3B4	017092
+B3B5	018F66
+B3B6	01626F
+B3B7	0164A4
+B3B8	0163A3
+B3B9	015F7B
+B3BA	016F88
+B3BB	0190F4
+B3BC	0181E3
+B3BD	018FB0
+B3BE	015C18
+B3BF	016668
+B3C0	015FF1
+B3C1	016C89
+B3C2	019648
+B3C3	018D81
+B3C4	01886C
+B3C5	016491
+B3C6	0179F0
+B3C7	0157CE
+B3C8	016A59
+B3C9	016210
+B3CA	015448
+B3CB	014E58
+B3CC	017A0B
+B3CD	0160E9
+B3CE	016F84
+B3CF	018BDA
+B3D0	01627F
+B3D1	01901E
+B3D2	019A8B
+B3D3	0179E4
+B3D4	015403
+B3D5	0175F4
+B3D6	016301
+B3D7	015319
+B3D8	016C60
+B3D9	018FDF
+B3DA	015F1B
+B3DB	019A70
+B3DC	01803B
+B3DD	019F7F
+B3DE	014F88
+B3DF	015C3A
+B3E0	018D64
+B3E1	017FC5
+B3E2	0165A5
+B3E3	0170BD
+B3E4	015145
+B3E5	0151B2
+B3E6	01866B
+B3E7	015D07
+B3E8	015BA0
+B3E9	0162BD
+B3EA	01916C
+B3EB	017574
+B3EC	018E0C
+B3ED	017A20
+B3EE	016101
+B3EF	017B79
+B3F0	014EC7
+B3F1	017EF8
+B3F2	017785
+B3F3	014E11
+B3F4	0181ED
+B3F5	01521D
+B3F6	0151FA
+B3F7	016A71
+B3F8	0153A8
+B3F9	018E87
+B3FA	019504
+B3FB	0196CF
+B3FC	016EC1
+B3FD	019664
+B3FE	01695A
+B4A1	017840
+B4A2	0150A8
+B4A3	0177D7
+B4A4	016410
+B4A5	0189E6
+B4A6	015904
+B4A7	0163E3
+B4A8	015DDD
+B4A9	017A7F
+B4AA	01693D
+B4AB	014F20
+B4AC	018239
+B4AD	015598
+B4AE	014E32
+B4AF	0175AE
+B4B0	017A97
+B4B1	015E62
+B4B2	015E8A
+B4B3	0195EF
+B4B4	01521B
+B4B5	015439
+B4B6	01708A
+B4B7	016376
+B4B8	019524
+B4B9	015782
+B4BA	016625
+B4BB	01693F
+B4BC	019187
+B4BD	015507
+B4BE	016DF3
+B4BF	017EAF
+B4C0	018822
+B4C1	016233
+B4C2	017EF0
+B4C3	0175B5
+B4C4	018328
+B4C5	0178C1
+B4C6	0196CC
+B4C7	018F9E
+B4C8	016148
+B4C9	0174F7
+B4CA	018BCD
+B4CB	016B64
+B4CC	01523A
+B4CD	018D50
+B4CE	016B21
+B4CF	01806A
+B4D0	018471
+B4D1	0156F1
+B4D2	015306
+B4D3	014ECE
+B4D4	014E1B
+B4D5	0151D1
+B4D6	017C97
+B4D7	01918B
+B4D8	017C07
+B4D9	014FC3
+B4DA	018E7F
+B4DB	017BE1
+B4DC	017A9C
+B4DD	016467
+B4DE	015D14
+B4DF	0150AC
+B4E0	018106
+B4E1	017601
+B4E2	017CB9
+B4E3	016DEC
+B4E4	017FE0
+B4E5	016751
+B4E6	015B58
+B4E7	015BF8
+B4E8	0178CB
+B4E9	0164AE
+B4EA	016413
+B4EB	0163AA
+B4EC	01632B
+B4ED	019519
+B4EE	01642D
+B4EF	018FBE
+B4F0	017B54
+B4F1	017629
+B4F2	016253
+B4F3	015927
+B4F4	015446
+B4F5	016B79
+B4F6	0150A3
+B4F7	016234
+B4F8	015E26
+B4F9	016B86
+B4FA	014EE3
+B4FB	018D37
+B4FC	01888B
+B4FD	015F85
+B4FE	01902E
+B5A1	016020
+B5A2	01803D
+B5A3	0162C5
+B5A4	014E39
+B5A5	015355
+B5A6	0190F8
+B5A7	0163B8
+B5A8	0180C6
+B5A9	0165E6
+B5AA	016C2E
+B5AB	014F46
+B5AC	0160EE
+B5AD	016DE1
+B5AE	018BDE
+B5AF	015F39
+B5B0	0186CB
+B5B1	015F53
+B5B2	016321
+B5B3	01515A
+B5B4	018361
+B5B5	016863
+B5B6	015200
+B5B7	016363
+B5B8	018E48
+B5B9	015012
+B5BA	015C9B
+B5BB	017977
+B5BC	015BFC
+B5BD	015230
+B5BE	017A3B
+B5BF	0160BC
+B5C0	019053
+B5C1	0176D7
+B5C2	015FB7
+B5C3	015F97
+B5C4	017684
+B5C5	018E6C
+B5C6	01706F
+B5C7	01767B
+B5C8	017B49
+B5C9	0177AA
+B5CA	0151F3
+B5CB	019093
+B5CC	015824
+B5CD	014F4E
+B5CE	016EF4
+B5CF	018FEA
+B5D0	01654C
+B5D1	017B1B
+B5D2	0172C4
+B5D3	016DA4
+B5D4	017FDF
+B5D5	015AE1
+B5D6	0162B5
+B5D7	015E95
+B5D8	015730
+B5D9	018482
+B5DA	017B2C
+B5DB	015E1D
+B5DC	015F1F
+B5DD	019012
+B5DE	017F14
+B5DF	0198A0
+B5E0	016382
+B5E1	016EC7
+B5E2	017898
+B5E3	0170B9
+B5E4	015178
+B5E5	01975B
+B5E6	0157AB
+B5E7	017535
+B5E8	014F43
+B5E9	017538
+B5EA	015E97
+B5EB	0160E6
+B5EC	015960
+B5ED	016DC0
+B5EE	016BBF
+B5EF	017889
+B5F0	0153FC
+B5F1	0196D5
+B5F2	0151CB
+B5F3	015201
+B5F4	016389
+B5F5	01540A
+B5F6	019493
+B5F7	018C03
+B5F8	018DCC
+B5F9	017239
+B5FA	01789F
+B5FB	018776
+B5FC	018FED
+B5FD	018C0D
+B5FE	0153E0
+B6A1	014E01
+B6A2	0176EF
+B6A3	0153EE
+B6A4	019489
+B6A5	019876
+B6A6	019F0E
+B6A7	01952D
+B6A8	015B9A
+B6A9	018BA2
+B6AA	014E22
+B6AB	014E1C
+B6AC	0151AC
+B6AD	018463
+B6AE	0161C2
+B6AF	0152A8
+B6B0	01680B
+B6B1	014F97
+B6B2	01606B
+B6B3	0151BB
+B6B4	016D1E
+B6B5	01515C
+B6B6	016296
+B6B7	016597
+B6B8	019661
+B6B9	018C46
+B6BA	019017
+B6BB	0175D8
+B6BC	0190FD
+B6BD	017763
+B6BE	016BD2
+B6BF	01728A
+B6C0	0172EC
+B6C1	018BFB
+B6C2	015835
+B6C3	017779
+B6C4	018D4C
+B6C5	01675C
+B6C6	019540
+B6C7	01809A
+B6C8	015EA6
+B6C9	016E21
+B6CA	015992
+B6CB	017AEF
+B6CC	0177ED
+B6CD	01953B
+B6CE	016BB5
+B6CF	0165AD
+B6D0	017F0E
+B6D1	015806
+B6D2	015151
+B6D3	01961F
+B6D4	015BF9
+B6D5	0158A9
+B6D6	015428
+B6D7	018E72
+B6D8	016566
+B6D9	01987F
+B6DA	0156E4
+B6DB	01949D
+B6DC	0176FE
+B6DD	019041
+B6DE	016387
+B6DF	0154C6
+B6E0	01591A
+B6E1	01593A
+B6E2	01579B
+B6E3	018EB2
+B6E4	016735
+B6E5	018DFA
+B6E6	018235
+B6E7	015241
+B6E8	0160F0
+B6E9	015815
+B6EA	0186FE
+B6EB	015CE8
+B6EC	019E45
+B6ED	014FC4
+B6EE	01989D
+B6EF	018BB9
+B6F0	015A25
+B6F1	016076
+B6F2	015384
+B6F3	01627C
+B6F4	01904F
+B6F5	019102
+B6F6	01997F
+B6F7	016069
+B6F8	01800C
+B6F9	01513F
+B6FA	018033
+B6FB	015C14
+B6FC	019975
+B6FD	016D31
+B6FE	014E8C
+B7A1	018D30
+B7A2	0153D1
+B7A3	017F5A
+B7A4	017B4F
+B7A5	014F10
+B7A6	014E4F
+B7A7	019600
+B7A8	016CD5
+B7A9	0173D0
+B7AA	0185E9
+B7AB	015E06
+B7AC	01756A
+B7AD	017FFB
+B7AE	016A0A
+B7AF	0177FE
+B7B0	019492
+B7B1	017E41
+B7B2	0151E1
+B7B3	0170E6
+B7B4	0153CD
+B7B5	018FD4
+B7B6	018303
+B7B7	018D29
+B7B8	0172AF
+B7B9	01996D
+B7BA	016CDB
+B7BB	01574A
+B7BC	0182B3
+B7BD	0165B9
+B7BE	0180AA
+B7BF	01623F
+B7C0	019632
+B7C1	0159A8
+B7C2	014EFF
+B7C3	018BBF
+B7C4	017EBA
+B7C5	01653E
+B7C6	0183F2
+B7C7	01975E
+B7C8	015561
+B7C9	0198DE
+B7CA	0180A5
+B7CB	01532A
+B7CC	018BFD
+B7CD	015420
+B7CE	0180BA
+B7CF	015E9F
+B7D0	016CB8
+B7D1	018D39
+B7D2	0182AC
+B7D3	01915A
+B7D4	015429
+B7D5	016C1B
+B7D6	015206
+B7D7	017EB7
+B7D8	01575F
+B7D9	01711A
+B7DA	016C7E
+B7DB	017C89
+B7DC	01594B
+B7DD	014EFD
+B7DE	015FFF
+B7DF	016124
+B7E0	017CAA
+B7E1	014E30
+B7E2	015C01
+B7E3	0167AB
+B7E4	018702
+B7E5	015CF0
+B7E6	01950B
+B7E7	0198CE
+B7E8	0175AF
+B7E9	0170FD
+B7EA	019022
+B7EB	0151AF
+B7EC	017F1D
+B7ED	018BBD
+B7EE	015949
+B7EF	0151E4
+B7F0	014F5B
+B7F1	015426
+B7F2	01592B
+B7F3	016577
+B7F4	0180A4
+B7F5	015B75
+B7F6	016276
+B7F7	0162C2
+B7F8	018F90
+B7F9	015E45
+B7FA	016C1F
+B7FB	017B26
+B7FC	014F0F
+B7FD	014FD8
+B7FE	01670D
+B8A1	016D6E
+B8A2	016DAA
+B8A3	01798F
+B8A4	0188B1
+B8A5	015F17
+B8A6	01752B
+B8A7	01629A
+B8A8	018F85
+B8A9	014FEF
+B8AA	0191DC
+B8AB	0165A7
+B8AC	01812F
+B8AD	018151
+B8AE	015E9C
+B8AF	018150
+B8B0	018D74
+B8B1	01526F
+B8B2	018986
+B8B3	018D4B
+B8B4	01590D
+B8B5	015085
+B8B6	014ED8
+B8B7	01961C
+B8B8	017236
+B8B9	018179
+B8BA	018D1F
+B8BB	015BCC
+B8BC	018BA3
+B8BD	019644
+B8BE	015987
+B8BF	017F1A
+B8C0	015490
+B8C1	015676
+B8C2	01560E
+B8C3	018BE5
+B8C4	016539
+B8C5	016982
+B8C6	019499
+B8C7	0176D6
+B8C8	016E89
+B8C9	015E72
+B8CA	017518
+B8CB	016746
+B8CC	0167D1
+B8CD	017AFF
+B8CE	01809D
+B8CF	018D76
+B8D0	01611F
+B8D1	0179C6
+B8D2	016562
+B8D3	018D63
+B8D4	015188
+B8D5	01521A
+B8D6	0194A2
+B8D7	017F38
+B8D8	01809B
+B8D9	017EB2
+B8DA	015C97
+B8DB	016E2F
+B8DC	016760
+B8DD	017BD9
+B8DE	01768B
+B8DF	019AD8
+B8E0	01818F
+B8E1	017F94
+B8E2	017CD5
+B8E3	01641E
+B8E4	019550
+B8E5	017A3F
+B8E6	01544A
+B8E7	0154E5
+B8E8	016B4C
+B8E9	016401
+B8EA	016208
+B8EB	019E3D
+B8EC	0180F3
+B8ED	017599
+B8EE	015272
+B8EF	019769
+B8F0	01845B
+B8F1	01683C
+B8F2	0186E4
+B8F3	019601
+B8F4	019694
+B8F5	0194EC
+B8F6	014E2A
+B8F7	015404
+B8F8	017ED9
+B8F9	016839
+B8FA	018DDF
+B8FB	018015
+B8FC	0166F4
+B8FD	015E9A
+B8FE	017FB9
+B9A1	0157C2
+B9A2	01803F
+B9A3	016897
+B9A4	015DE5
+B9A5	01653B
+B9A6	01529F
+B9A7	01606D
+B9A8	019F9A
+B9A9	014F9B
+B9AA	018EAC
+B9AB	01516C
+B9AC	015BAB
+B9AD	015F13
+B9AE	015DE9
+B9AF	016C5E
+B9B0	0162F1
+B9B1	018D21
+B9B2	015171
+B9B3	0194A9
+B9B4	0152FE
+B9B5	016C9F
+B9B6	0182DF
+B9B7	0172D7
+B9B8	0157A2
+B9B9	016784
+B9BA	018D2D
+B9BB	01591F
+B9BC	018F9C
+B9BD	0183C7
+B9BE	015495
+B9BF	017B8D
+B9C0	014F30
+B9C1	016CBD
+B9C2	015B64
+B9C3	0159D1
+B9C4	019F13
+B9C5	0153E4
+B9C6	0186CA
+B9C7	019AA8
+B9C8	018C37
+B9C9	0180A1
+B9CA	016545
+B9CB	01987E
+B9CC	0156FA
+B9CD	0196C7
+B9CE	01522E
+B9CF	0174DC
+B9D0	015250
+B9D1	015BE1
+B9D2	016302
+B9D3	018902
+B9D4	014E56
+B9D5	0162D0
+B9D6	01602A
+B9D7	0168FA
+B9D8	015173
+B9D9	015B98
+B9DA	0151A0
+B9DB	0189C2
+B9DC	017BA1
+B9DD	019986
+B9DE	017F50
+B9DF	0160EF
+B9E0	01704C
+B9E1	018D2F
+B9E2	015149
+B9E3	015E7F
+B9E4	01901B
+B9E5	017470
+B9E6	0189C4
+B9E7	01572D
+B9E8	017845
+B9E9	015F52
+B9EA	019F9F
+B9EB	0195FA
+B9EC	018F68
+B9ED	019B3C
+B9EE	018BE1
+B9EF	017678
+B9F0	016842
+B9F1	0167DC
+B9F2	018DEA
+B9F3	018D35
+B9F4	01523D
+B9F5	018F8A
+B9F6	016EDA
+B9F7	0168CD
+B9F8	019505
+B9F9	0190ED
+B9FA	0156FD
+B9FB	01679C
+B9FC	0188F9
+B9FD	018FC7
+B9FE	0154C8
+BAA1	019AB8
+BAA2	015B69
+BAA3	016D77
+BAA4	016C26
+BAA5	014EA5
+BAA6	015BB3
+BAA7	019A87
+BAA8	019163
+BAA9	0161A8
+BAAA	0190AF
+BAAB	0197E9
+BAAC	01542B
+BAAD	016DB5
+BAAE	015BD2
+BAAF	0151FD
+BAB0	01558A
+BAB1	017F55
+BAB2	017FF0
+BAB3	0164BC
+BAB4	01634D
+BAB5	0165F1
+BAB6	0161BE
+BAB7	01608D
+BAB8	01710A
+BAB9	016C57
+BABA	016C49
+BABB	01592F
+BABC	01676D
+BABD	01822A
+BABE	0158D5
+BABF	01568E
+BAC0	018C6A
+BAC1	016BEB
+BAC2	0190DD
+BAC3	01597D
+BAC4	018017
+BAC5	0153F7
+BAC6	016D69
+BAC7	015475
+BAC8	01559D
+BAC9	018377
+BACA	0183CF
+BACB	016838
+BACC	0179BE
+BACD	01548C
+BACE	014F55
+BACF	015408
+BAD0	0176D2
+BAD1	018C89
+BAD2	019602
+BAD3	016CB3
+BAD4	016DB8
+BAD5	018D6B
+BAD6	018910
+BAD7	019E64
+BAD8	018D3A
+BAD9	01563F
+BADA	019ED1
+BADB	0175D5
+BADC	015F88
+BADD	0172E0
+BADE	016068
+BADF	0154FC
+BAE0	014EA8
+BAE1	016A2A
+BAE2	018861
+BAE3	016052
+BAE4	018F70
+BAE5	0154C4
+BAE6	0170D8
+BAE7	018679
+BAE8	019E3F
+BAE9	016D2A
+BAEA	015B8F
+BAEB	015F18
+BAEC	017EA2
+BAED	015589
+BAEE	014FAF
+BAEF	017334
+BAF0	01543C
+BAF1	01539A
+BAF2	015019
+BAF3	01540E
+BAF4	01547C
+BAF5	014E4E
+BAF6	015FFD
+BAF7	01745A
+BAF8	0158F6
+BAF9	01846B
+BAFA	0180E1
+BAFB	018774
+BAFC	0172D0
+BAFD	017CCA
+BAFE	016E56
+BBA1	015F27
+BBA2	01864E
+BBA3	01552C
+BBA4	0162A4
+BBA5	014E92
+BBA6	016CAA
+BBA7	016237
+BBA8	0182B1
+BBA9	0154D7
+BBAA	01534E
+BBAB	01733E
+BBAC	016ED1
+BBAD	01753B
+BBAE	015212
+BBAF	015316
+BBB0	018BDD
+BBB1	0169D0
+BBB2	015F8A
+BBB3	016000
+BBB4	016DEE
+BBB5	01574F
+BBB6	016B22
+BBB7	0173AF
+BBB8	016853
+BBB9	018FD8
+BBBA	017F13
+BBBB	016362
+BBBC	0160A3
+BBBD	015524
+BBBE	0175EA
+BBBF	018C62
+BBC0	017115
+BBC1	016DA3
+BBC2	015BA6
+BBC3	015E7B
+BBC4	018352
+BBC5	01614C
+BBC6	019EC4
+BBC7	0178FA
+BBC8	018757
+BBC9	017C27
+BBCA	017687
+BBCB	0151F0
+BBCC	0160F6
+BBCD	01714C
+BBCE	016643
+BBCF	015E4C
+BBD0	01604D
+BBD1	018C0E
+BBD2	017070
+BBD3	016325
+BBD4	018F89
+BBD5	015FBD
+BBD6	016062
+BBD7	0186D4
+BBD8	0156DE
+BBD9	016BC1
+BBDA	016094
+BBDB	016167
+BBDC	015349
+BBDD	0160E0
+BBDE	016666
+BBDF	018D3F
+BBE0	0179FD
+BBE1	014F1A
+BBE2	0170E9
+BBE3	016C47
+BBE4	018BB3
+BBE5	018BF2
+BBE6	017ED8
+BBE7	018364
+BBE8	01660F
+BBE9	015A5A
+BBEA	019B42
+BBEB	016D51
+BBEC	016DF7
+BBED	018C41
+BBEE	016D3B
+BBEF	014F19
+BBF0	01706B
+BBF1	0183B7
+BBF2	016216
+BBF3	0160D1
+BBF4	01970D
+BBF5	018D27
+BBF6	017978
+BBF7	0151FB
+BBF8	01573E
+BBF9	0157FA
+BBFA	01673A
+BBFB	017578
+BBFC	017A3D
+BBFD	0179EF
+BBFE	017B95
+BCA1	01808C
+BCA2	019965
+BCA3	018FF9
+BCA4	016FC0
+BCA5	018BA5
+BCA6	019E21
+BCA7	0159EC
+BCA8	017EE9
+BCA9	017F09
+BCAA	015409
+BCAB	016781
+BCAC	0168D8
+BCAD	018F91
+BCAE	017C4D
+BCAF	0196C6
+BCB0	0153CA
+BCB1	016025
+BCB2	0175BE
+BCB3	016C72
+BCB4	015373
+BCB5	015AC9
+BCB6	017EA7
+BCB7	016324
+BCB8	0151E0
+BCB9	01810A
+BCBA	015DF1
+BCBB	0184DF
+BCBC	016280
+BCBD	015180
+BCBE	015B63
+BCBF	014F0E
+BCC0	01796D
+BCC1	015242
+BCC2	0160B8
+BCC3	016D4E
+BCC4	015BC4
+BCC5	015BC2
+BCC6	018BA1
+BCC7	018BB0
+BCC8	0165E2
+BCC9	015FCC
+BCCA	019645
+BCCB	015993
+BCCC	017EE7
+BCCD	017EAA
+BCCE	015609
+BCCF	0167B7
+BCD0	015939
+BCD1	014F73
+BCD2	015BB6
+BCD3	0152A0
+BCD4	01835A
+BCD5	01988A
+BCD6	018D3E
+BCD7	017532
+BCD8	0194BE
+BCD9	015047
+BCDA	017A3C
+BCDB	014EF7
+BCDC	0167B6
+BCDD	019A7E
+BCDE	015AC1
+BCDF	016B7C
+BCE0	0176D1
+BCE1	01575A
+BCE2	015C16
+BCE3	017B3A
+BCE4	0195F4
+BCE5	01714E
+BCE6	01517C
+BCE7	0180A9
+BCE8	018270
+BCE9	015978
+BCEA	017F04
+BCEB	018327
+BCEC	0168C0
+BCED	0167EC
+BCEE	0178B1
+BCEF	017877
+BCF0	0162E3
+BCF1	016361
+BCF2	017B80
+BCF3	014FED
+BCF4	01526A
+BCF5	0151CF
+BCF6	018350
+BCF7	0169DB
+BCF8	019274
+BCF9	018DF5
+BCFA	018D31
+BCFB	0189C1
+BCFC	01952E
+BCFD	017BAD
+BCFE	014EF6
+BDA1	015065
+BDA2	018230
+BDA3	015251
+BDA4	01996F
+BDA5	016E10
+BDA6	016E85
+BDA7	016DA7
+BDA8	015EFA
+BDA9	0150F5
+BDAA	0159DC
+BDAB	015C06
+BDAC	016D46
+BDAD	016C5F
+BDAE	017586
+BDAF	01848B
+BDB0	016868
+BDB1	015956
+BDB2	018BB2
+BDB3	015320
+BDB4	019171
+BDB5	01964D
+BDB6	018549
+BDB7	016912
+BDB8	017901
+BDB9	017126
+BDBA	0180F6
+BDBB	014EA4
+BDBC	0190CA
+BDBD	016D47
+BDBE	019A84
+BDBF	015A07
+BDC0	0156BC
+BDC1	016405
+BDC2	0194F0
+BDC3	0177EB
+BDC4	014FA5
+BDC5	01811A
+BDC6	0172E1
+BDC7	0189D2
+BDC8	01997A
+BDC9	017F34
+BDCA	017EDE
+BDCB	01527F
+BDCC	016559
+BDCD	019175
+BDCE	018F7F
+BDCF	018F83
+BDD0	0153EB
+BDD1	017A96
+BDD2	0163ED
+BDD3	0163A5
+BDD4	017686
+BDD5	0179F8
+BDD6	018857
+BDD7	019636
+BDD8	01622A
+BDD9	0152AB
+BDDA	018282
+BDDB	016854
+BDDC	016770
+BDDD	016377
+BDDE	01776B
+BDDF	017AED
+BDE0	016D01
+BDE1	017ED3
+BDE2	0189E3
+BDE3	0159D0
+BDE4	016212
+BDE5	0185C9
+BDE6	0182A5
+BDE7	01754C
+BDE8	01501F
+BDE9	014ECB
+BDEA	0175A5
+BDEB	018BEB
+BDEC	015C4A
+BDED	015DFE
+BDEE	017B4B
+BDEF	0165A4
+BDF0	0191D1
+BDF1	014ECA
+BDF2	016D25
+BDF3	01895F
+BDF4	017D27
+BDF5	019526
+BDF6	014EC5
+BDF7	018C28
+BDF8	018FDB
+BDF9	019773
+BDFA	01664B
+BDFB	017981
+BDFC	018FD1
+BDFD	0170EC
+BDFE	016D78
+BEA1	015C3D
+BEA2	0152B2
+BEA3	018346
+BEA4	015162
+BEA5	01830E
+BEA6	01775B
+BEA7	016676
+BEA8	019CB8
+BEA9	014EAC
+BEAA	0160CA
+BEAB	017CBE
+BEAC	017CB3
+BEAD	017ECF
+BEAE	014E95
+BEAF	018B66
+BEB0	01666F
+BEB1	019888
+BEB2	019759
+BEB3	015883
+BEB4	01656C
+BEB5	01955C
+BEB6	015F84
+BEB7	0175C9
+BEB8	019756
+BEB9	017ADF
+BEBA	017ADE
+BEBB	0151C0
+BEBC	0170AF
+BEBD	017A98
+BEBE	0163EA
+BEBF	017A76
+BEC0	017EA0
+BEC1	017396
+BEC2	0197ED
+BEC3	014E45
+BEC4	017078
+BEC5	014E5D
+BEC6	019152
+BEC7	0153A9
+BEC8	016551
+BEC9	0165E7
+BECA	0181FC
+BECB	018205
+BECC	01548E
+BECD	015C31
+BECE	01759A
+BECF	0197A0
+BED0	0162D8
+BED1	0172D9
+BED2	0175BD
+BED3	015C45
+BED4	019A79
+BED5	0183CA
+BED6	015C40
+BED7	015480
+BED8	0177E9
+BED9	014E3E
+BEDA	016CAE
+BEDB	01805A
+BEDC	0162D2
+BEDD	01636E
+BEDE	015DE8
+BEDF	015177
+BEE0	018DDD
+BEE1	018E1E
+BEE2	01952F
+BEE3	014FF1
+BEE4	0153E5
+BEE5	0160E7
+BEE6	0170AC
+BEE7	015267
+BEE8	016350
+BEE9	019E43
+BEEA	015A1F
+BEEB	015026
+BEEC	017737
+BEED	015377
+BEEE	017EE2
+BEEF	016485
+BEF0	01652B
+BEF1	016289
+BEF2	016398
+BEF3	015014
+BEF4	017235
+BEF5	0189C9
+BEF6	0151B3
+BEF7	018BC0
+BEF8	017EDD
+BEF9	015747
+BEFA	0183CC
+BEFB	0194A7
+BEFC	01519B
+BEFD	01541B
+BEFE	015CFB
+BFA1	014FCA
+BFA2	017AE3
+BFA3	016D5A
+BFA4	0190E1
+BFA5	019A8F
+BFA6	015580
+BFA7	015496
+BFA8	015361
+BFA9	0154AF
+BFAA	015F00
+BFAB	0163E9
+BFAC	016977
+BFAD	0151EF
+BFAE	016168
+BFAF	01520A
+BFB0	01582A
+BFB1	0152D8
+BFB2	01574E
+BFB3	01780D
+BFB4	01770B
+BFB5	015EB7
+BFB6	016177
+BFB7	017CE0
+BFB8	01625B
+BFB9	016297
+BFBA	014EA2
+BFBB	017095
+BFBC	018003
+BFBD	0162F7
+BFBE	0170E4
+BFBF	019760
+BFC0	015777
+BFC1	0182DB
+BFC2	0167EF
+BFC3	0168F5
+BFC4	0178D5
+BFC5	019897
+BFC6	0179D1
+BFC7	0158F3
+BFC8	0154B3
+BFC9	0153EF
+BFCA	016E34
+BFCB	01514B
+BFCC	01523B
+BFCD	015BA2
+BFCE	018BFE
+BFCF	0180AF
+BFD0	015543
+BFD1	0157A6
+BFD2	016073
+BFD3	015751
+BFD4	01542D
+BFD5	017A7A
+BFD6	016050
+BFD7	015B54
+BFD8	0163A7
+BFD9	0162A0
+BFDA	0153E3
+BFDB	016263
+BFDC	015BC7
+BFDD	0167AF
+BFDE	0154ED
+BFDF	017A9F
+BFE0	0182E6
+BFE1	019177
+BFE2	015E93
+BFE3	0188E4
+BFE4	015938
+BFE5	0157AE
+BFE6	01630E
+BFE7	018DE8
+BFE8	0180EF
+BFE9	015757
+BFEA	017B77
+BFEB	014FA9
+BFEC	015FEB
+BFED	015BBD
+BFEE	016B3E
+BFEF	015321
+BFF0	017B50
+BFF1	0172C2
+BFF2	016846
+BFF3	0177FF
+BFF4	017736
+BFF5	0165F7
+BFF6	0151B5
+BFF7	014E8F
+BFF8	0176D4
+BFF9	015CBF
+BFFA	017AA5
+BFFB	018475
+BFFC	01594E
+BFFD	019B41
+BFFE	015080
+C0A1	019988
+C0A2	016127
+C0A3	016E83
+C0A4	015764
+C0A5	016606
+C0A6	016346
+C0A7	0156F0
+C0A8	0162EC
+C0A9	016269
+C0AA	015ED3
+C0AB	019614
+C0AC	015783
+C0AD	0162C9
+C0AE	015587
+C0AF	018721
+C0B0	01814A
+C0B1	018FA3
+C0B2	015566
+C0B3	0183B1
+C0B4	016765
+C0B5	018D56
+C0B6	0184DD
+C0B7	015A6A
+C0B8	01680F
+C0B9	0162E6
+C0BA	017BEE
+C0BB	019611
+C0BC	015170
+C0BD	016F9C
+C0BE	018C30
+C0BF	0163FD
+C0C0	0189C8
+C0C1	0161D2
+C0C2	017F06
+C0C3	0170C2
+C0C4	016EE5
+C0C5	017405
+C0C6	016994
+C0C7	0172FC
+C0C8	015ECA
+C0C9	0190CE
+C0CA	016717
+C0CB	016D6A
+C0CC	01635E
+C0CD	0152B3
+C0CE	017262
+C0CF	018001
+C0D0	014F6C
+C0D1	0159E5
+C0D2	01916A
+C0D3	0170D9
+C0D4	016D9D
+C0D5	0152D2
+C0D6	014E50
+C0D7	0196F7
+C0D8	01956D
+C0D9	01857E
+C0DA	0178CA
+C0DB	017D2F
+C0DC	015121
+C0DD	015792
+C0DE	0164C2
+C0DF	01808B
+C0E0	017C7B
+C0E1	016CEA
+C0E2	0168F1
+C0E3	01695E
+C0E4	0151B7
+C0E5	015398
+C0E6	0168A8
+C0E7	017281
+C0E8	019ECE
+C0E9	017BF1
+C0EA	0172F8
+C0EB	0179BB
+C0EC	016F13
+C0ED	017406
+C0EE	01674E
+C0EF	0191CC
+C0F0	019CA4
+C0F1	01793C
+C0F2	018389
+C0F3	018354
+C0F4	01540F
+C0F5	016817
+C0F6	014E3D
+C0F7	015389
+C0F8	0152B1
+C0F9	01783E
+C0FA	015386
+C0FB	015229
+C0FC	015088
+C0FD	014F8B
+C0FE	014FD0
+C1A1	0175E2
+C1A2	017ACB
+C1A3	017C92
+C1A4	016CA5
+C1A5	0196B6
+C1A6	01529B
+C1A7	017483
+C1A8	0154E9
+C1A9	014FE9
+C1AA	018054
+C1AB	0183B2
+C1AC	018FDE
+C1AD	019570
+C1AE	015EC9
+C1AF	01601C
+C1B0	016D9F
+C1B1	015E18
+C1B2	01655B
+C1B3	018138
+C1B4	0194FE
+C1B5	01604B
+C1B6	0170BC
+C1B7	017EC3
+C1B8	017CAE
+C1B9	0151C9
+C1BA	016881
+C1BB	017CB1
+C1BC	01826F
+C1BD	014E24
+C1BE	018F86
+C1BF	0191CF
+C1C0	01667E
+C1C1	014EAE
+C1C2	018C05
+C1C3	0164A9
+C1C4	01804A
+C1C5	0150DA
+C1C6	017597
+C1C7	0171CE
+C1C8	015BE5
+C1C9	018FBD
+C1CA	016F66
+C1CB	014E86
+C1CC	016482
+C1CD	019563
+C1CE	015ED6
+C1CF	016599
+C1D0	015217
+C1D1	0188C2
+C1D2	0170C8
+C1D3	0152A3
+C1D4	01730E
+C1D5	017433
+C1D6	016797
+C1D7	0178F7
+C1D8	019716
+C1D9	014E34
+C1DA	0190BB
+C1DB	019CDE
+C1DC	016DCB
+C1DD	0151DB
+C1DE	018D41
+C1DF	01541D
+C1E0	0162CE
+C1E1	0173B2
+C1E2	0183F1
+C1E3	0196F6
+C1E4	019F84
+C1E5	0194C3
+C1E6	014F36
+C1E7	017F9A
+C1E8	0151CC
+C1E9	017075
+C1EA	019675
+C1EB	015CAD
+C1EC	019886
+C1ED	0153E6
+C1EE	014EE4
+C1EF	016E9C
+C1F0	017409
+C1F1	0169B4
+C1F2	01786B
+C1F3	01998F
+C1F4	017559
+C1F5	015218
+C1F6	017624
+C1F7	016D41
+C1F8	0167F3
+C1F9	01516D
+C1FA	019F99
+C1FB	01804B
+C1FC	015499
+C1FD	017B3C
+C1FE	017ABF
+C2A1	019686
+C2A2	015784
+C2A3	0162E2
+C2A4	019647
+C2A5	01697C
+C2A6	015A04
+C2A7	016402
+C2A8	017BD3
+C2A9	016F0F
+C2AA	01964B
+C2AB	0182A6
+C2AC	015362
+C2AD	019885
+C2AE	015E90
+C2AF	017089
+C2B0	0163B3
+C2B1	015364
+C2B2	01864F
+C2B3	019C81
+C2B4	019E93
+C2B5	01788C
+C2B6	019732
+C2B7	018DEF
+C2B8	018D42
+C2B9	019E7F
+C2BA	016F5E
+C2BB	017984
+C2BC	015F55
+C2BD	019646
+C2BE	01622E
+C2BF	019A74
+C2C0	015415
+C2C1	0194DD
+C2C2	014FA3
+C2C3	0165C5
+C2C4	015C65
+C2C5	015C61
+C2C6	017F15
+C2C7	018651
+C2C8	016C2F
+C2C9	015F8B
+C2CA	017387
+C2CB	016EE4
+C2CC	017EFF
+C2CD	015CE6
+C2CE	01631B
+C2CF	015B6A
+C2D0	016EE6
+C2D1	015375
+C2D2	014E71
+C2D3	0163A0
+C2D4	017565
+C2D5	0162A1
+C2D6	018F6E
+C2D7	014F26
+C2D8	014ED1
+C2D9	016CA6
+C2DA	017EB6
+C2DB	018BBA
+C2DC	01841D
+C2DD	0187BA
+C2DE	017F57
+C2DF	01903B
+C2E0	019523
+C2E1	017BA9
+C2E2	019AA1
+C2E3	0188F8
+C2E4	01843D
+C2E5	016D1B
+C2E6	019A86
+C2E7	017EDC
+C2E8	015988
+C2E9	019EBB
+C2EA	01739B
+C2EB	017801
+C2EC	018682
+C2ED	019A6C
+C2EE	019A82
+C2EF	01561B
+C2F0	015417
+C2F1	0157CB
+C2F2	014E70
+C2F3	019EA6
+C2F4	015356
+C2F5	018FC8
+C2F6	018109
+C2F7	017792
+C2F8	019992
+C2F9	0186EE
+C2FA	016EE1
+C2FB	018513
+C2FC	0166FC
+C2FD	016162
+C2FE	016F2B
+C3A1	018C29
+C3A2	018292
+C3A3	01832B
+C3A4	0176F2
+C3A5	016C13
+C3A6	015FD9
+C3A7	0183BD
+C3A8	01732B
+C3A9	018305
+C3AA	01951A
+C3AB	016BDB
+C3AC	0177DB
+C3AD	0194C6
+C3AE	01536F
+C3AF	018302
+C3B0	015192
+C3B1	015E3D
+C3B2	018C8C
+C3B3	018D38
+C3B4	014E48
+C3B5	0173AB
+C3B6	01679A
+C3B7	016885
+C3B8	019176
+C3B9	019709
+C3BA	017164
+C3BB	016CA1
+C3BC	017709
+C3BD	015A92
+C3BE	019541
+C3BF	016BCF
+C3C0	017F8E
+C3C1	016627
+C3C2	015BD0
+C3C3	0159B9
+C3C4	015A9A
+C3C5	0195E8
+C3C6	0195F7
+C3C7	014EEC
+C3C8	01840C
+C3C9	018499
+C3CA	016AAC
+C3CB	0176DF
+C3CC	019530
+C3CD	01731B
+C3CE	0168A6
+C3CF	015B5F
+C3D0	01772F
+C3D1	01919A
+C3D2	019761
+C3D3	017CDC
+C3D4	018FF7
+C3D5	018C1C
+C3D6	015F25
+C3D7	017C73
+C3D8	0179D8
+C3D9	0189C5
+C3DA	016CCC
+C3DB	01871C
+C3DC	015BC6
+C3DD	015E42
+C3DE	0168C9
+C3DF	017720
+C3E0	017EF5
+C3E1	015195
+C3E2	01514D
+C3E3	0152C9
+C3E4	015A29
+C3E5	017F05
+C3E6	019762
+C3E7	0182D7
+C3E8	0163CF
+C3E9	017784
+C3EA	0185D0
+C3EB	0179D2
+C3EC	016E3A
+C3ED	015E99
+C3EE	015999
+C3EF	018511
+C3F0	01706D
+C3F1	016C11
+C3F2	0162BF
+C3F3	0176BF
+C3F4	01654F
+C3F5	0160AF
+C3F6	0195FD
+C3F7	01660E
+C3F8	01879F
+C3F9	019E23
+C3FA	0194ED
+C3FB	01540D
+C3FC	01547D
+C3FD	018C2C
+C3FE	016478
+C4A1	016479
+C4A2	018611
+C4A3	016A21
+C4A4	01819C
+C4A5	0178E8
+C4A6	016469
+C4A7	019B54
+C4A8	0162B9
+C4A9	01672B
+C4AA	0183AB
+C4AB	0158A8
+C4AC	019ED8
+C4AD	016CAB
+C4AE	016F20
+C4AF	015BDE
+C4B0	01964C
+C4B1	018C0B
+C4B2	01725F
+C4B3	0167D0
+C4B4	0162C7
+C4B5	017261
+C4B6	014EA9
+C4B7	0159C6
+C4B8	016BCD
+C4B9	015893
+C4BA	0166AE
+C4BB	015E55
+C4BC	0152DF
+C4BD	016155
+C4BE	016728
+C4BF	0176EE
+C4C0	017766
+C4C1	017267
+C4C2	017A46
+C4C3	0162FF
+C4C4	0154EA
+C4C5	015450
+C4C6	0194A0
+C4C7	0190A3
+C4C8	015A1C
+C4C9	017EB3
+C4CA	016C16
+C4CB	014E43
+C4CC	015976
+C4CD	018010
+C4CE	015948
+C4CF	015357
+C4D0	017537
+C4D1	0196BE
+C4D2	0156CA
+C4D3	016320
+C4D4	018111
+C4D5	01607C
+C4D6	0195F9
+C4D7	016DD6
+C4D8	015462
+C4D9	019981
+C4DA	015185
+C4DB	015AE9
+C4DC	0180FD
+C4DD	0159AE
+C4DE	019713
+C4DF	01502A
+C4E0	016CE5
+C4E1	015C3C
+C4E2	0162DF
+C4E3	014F60
+C4E4	01533F
+C4E5	01817B
+C4E6	019006
+C4E7	016EBA
+C4E8	01852B
+C4E9	0162C8
+C4EA	015E74
+C4EB	0178BE
+C4EC	0164B5
+C4ED	01637B
+C4EE	015FF5
+C4EF	015A18
+C4F0	01917F
+C4F1	019E1F
+C4F2	015C3F
+C4F3	01634F
+C4F4	018042
+C4F5	015B7D
+C4F6	01556E
+C4F7	01954A
+C4F8	01954D
+C4F9	016D85
+C4FA	0160A8
+C4FB	0167E0
+C4FC	0172DE
+C4FD	0151DD
+C4FE	015B81
+C5A1	0162E7
+C5A2	016CDE
+C5A3	01725B
+C5A4	01626D
+C5A5	0194AE
+C5A6	017EBD
+C5A7	018113
+C5A8	016D53
+C5A9	01519C
+C5AA	015F04
+C5AB	015974
+C5AC	0152AA
+C5AD	016012
+C5AE	015973
+C5AF	016696
+C5B0	018650
+C5B1	01759F
+C5B2	01632A
+C5B3	0161E6
+C5B4	017CEF
+C5B5	018BFA
+C5B6	0154E6
+C5B7	016B27
+C5B8	019E25
+C5B9	016BB4
+C5BA	0185D5
+C5BB	015455
+C5BC	015076
+C5BD	016CA4
+C5BE	01556A
+C5BF	018DB4
+C5C0	01722C
+C5C1	015E15
+C5C2	016015
+C5C3	017436
+C5C4	0162CD
+C5C5	016392
+C5C6	01724C
+C5C7	015F98
+C5C8	016E43
+C5C9	016D3E
+C5CA	016500
+C5CB	016F58
+C5CC	0176D8
+C5CD	0178D0
+C5CE	0176FC
+C5CF	017554
+C5D0	015224
+C5D1	0153DB
+C5D2	014E53
+C5D3	015E9E
+C5D4	0165C1
+C5D5	01802A
+C5D6	0180D6
+C5D7	01629B
+C5D8	015486
+C5D9	015228
+C5DA	0170AE
+C5DB	01888D
+C5DC	018DD1
+C5DD	016CE1
+C5DE	015478
+C5DF	0180DA
+C5E0	0157F9
+C5E1	0188F4
+C5E2	018D54
+C5E3	01966A
+C5E4	01914D
+C5E5	014F69
+C5E6	016C9B
+C5E7	0155B7
+C5E8	0176C6
+C5E9	017830
+C5EA	0162A8
+C5EB	0170F9
+C5EC	016F8E
+C5ED	015F6D
+C5EE	0184EC
+C5EF	0168DA
+C5F0	01787C
+C5F1	017BF7
+C5F2	0181A8
+C5F3	01670B
+C5F4	019E4F
+C5F5	016367
+C5F6	0178B0
+C5F7	01576F
+C5F8	017812
+C5F9	019739
+C5FA	016279
+C5FB	0162AB
+C5FC	015288
+C5FD	017435
+C5FE	016BD7
+C6A1	015564
+C6A2	01813E
+C6A3	0175B2
+C6A4	0176AE
+C6A5	015339
+C6A6	0175DE
+C6A7	0150FB
+C6A8	015C41
+C6A9	018B6C
+C6AA	017BC7
+C6AB	01504F
+C6AC	017247
+C6AD	019A97
+C6AE	0198D8
+C6AF	016F02
+C6B0	0174E2
+C6B1	017968
+C6B2	016487
+C6B3	0177A5
+C6B4	0162FC
+C6B5	019891
+C6B6	018D2B
+C6B7	0154C1
+C6B8	018058
+C6B9	014E52
+C6BA	01576A
+C6BB	0182F9
+C6BC	01840D
+C6BD	015E73
+C6BE	0151ED
+C6BF	0174F6
+C6C0	018BC4
+C6C1	015C4F
+C6C2	015761
+C6C3	016CFC
+C6C4	019887
+C6C5	015A46
+C6C6	017834
+C6C7	019B44
+C6C8	018FEB
+C6C9	017C95
+C6CA	015256
+C6CB	016251
+C6CC	0194FA
+C6CD	014EC6
+C6CE	018386
+C6CF	018461
+C6D0	0183E9
+C6D1	0184B2
+C6D2	0157D4
+C6D3	016734
+C6D4	015703
+C6D5	01666E
+C6D6	016D66
+C6D7	018C31
+C6D8	0166DD
+C6D9	017011
+C6DA	01671F
+C6DB	016B3A
+C6DC	016816
+C6DD	01621A
+C6DE	0159BB
+C6DF	014E03
+C6E0	0151C4
+C6E1	016F06
+C6E2	0167D2
+C6E3	016C8F
+C6E4	015176
+C6E5	0168CB
+C6E6	015947
+C6E7	016B67
+C6E8	017566
+C6E9	015D0E
+C6EA	018110
+C6EB	019F50
+C6EC	0165D7
+C6ED	017948
+C6EE	017941
+C6EF	019A91
+C6F0	018D77
+C6F1	015C82
+C6F2	014E5E
+C6F3	014F01
+C6F4	01542F
+C6F5	015951
+C6F6	01780C
+C6F7	015668
+C6F8	016C14
+C6F9	018FC4
+C6FA	015F03
+C6FB	016C7D
+C6FC	016CE3
+C6FD	018BAB
+C6FE	016390
+C7A1	016070
+C7A2	016D3D
+C7A3	017275
+C7A4	016266
+C7A5	01948E
+C7A6	0194C5
+C7A7	015343
+C7A8	018FC1
+C7A9	017B7E
+C7AA	014EDF
+C7AB	018C26
+C7AC	014E7E
+C7AD	019ED4
+C7AE	0194B1
+C7AF	0194B3
+C7B0	01524D
+C7B1	016F5C
+C7B2	019063
+C7B3	016D45
+C7B4	018C34
+C7B5	015811
+C7B6	015D4C
+C7B7	016B20
+C7B8	016B49
+C7B9	0167AA
+C7BA	01545B
+C7BB	018154
+C7BC	017F8C
+C7BD	015899
+C7BE	018537
+C7BF	015F3A
+C7C0	0162A2
+C7C1	016A47
+C7C2	019539
+C7C3	016572
+C7C4	016084
+C7C5	016865
+C7C6	0177A7
+C7C7	014E54
+C7C8	014FA8
+C7C9	015DE7
+C7CA	019798
+C7CB	0164AC
+C7CC	017FD8
+C7CD	015CED
+C7CE	014FCF
+C7CF	017A8D
+C7D0	015207
+C7D1	018304
+C7D2	014E14
+C7D3	01602F
+C7D4	017A83
+C7D5	0194A6
+C7D6	014FB5
+C7D7	014EB2
+C7D8	0179E6
+C7D9	017434
+C7DA	0152E4
+C7DB	0182B9
+C7DC	0164D2
+C7DD	0179BD
+C7DE	015BDD
+C7DF	016C81
+C7E0	019752
+C7E1	018F7B
+C7E2	016C22
+C7E3	01503E
+C7E4	01537F
+C7E5	016E05
+C7E6	0164CE
+C7E7	016674
+C7E8	016C30
+C7E9	0160C5
+C7EA	019877
+C7EB	018BF7
+C7EC	015E86
+C7ED	01743C
+C7EE	017A77
+C7EF	0179CB
+C7F0	014E18
+C7F1	0190B1
+C7F2	017403
+C7F3	016C42
+C7F4	0156DA
+C7F5	01914B
+C7F6	016CC5
+C7F7	018D8B
+C7F8	01533A
+C7F9	0186C6
+C7FA	0166F2
+C7FB	018EAF
+C7FC	015C48
+C7FD	019A71
+C7FE	016E20
+C8A1	0153D6
+C8A2	015A36
+C8A3	019F8B
+C8A4	018DA3
+C8A5	0153BB
+C8A6	015708
+C8A7	0198A7
+C8A8	016743
+C8A9	01919B
+C8AA	016CC9
+C8AB	015168
+C8AC	0175CA
+C8AD	0162F3
+C8AE	0172AC
+C8AF	015238
+C8B0	01529D
+C8B1	017F3A
+C8B2	017094
+C8B3	017638
+C8B4	015374
+C8B5	019E4A
+C8B6	0169B7
+C8B7	01786E
+C8B8	0196C0
+C8B9	0188D9
+C8BA	017FA4
+C8BB	017136
+C8BC	0171C3
+C8BD	015189
+C8BE	0167D3
+C8BF	0174E4
+C8C0	0158E4
+C8C1	016518
+C8C2	0156B7
+C8C3	018BA9
+C8C4	019976
+C8C5	016270
+C8C6	017ED5
+C8C7	0160F9
+C8C8	0170ED
+C8C9	0158EC
+C8CA	014EC1
+C8CB	014EBA
+C8CC	015FCD
+C8CD	0197E7
+C8CE	014EFB
+C8CF	018BA4
+C8D0	015203
+C8D1	01598A
+C8D2	017EAB
+C8D3	016254
+C8D4	014ECD
+C8D5	0165E5
+C8D6	01620E
+C8D7	018338
+C8D8	0184C9
+C8D9	018363
+C8DA	01878D
+C8DB	017194
+C8DC	016EB6
+C8DD	015BB9
+C8DE	017ED2
+C8DF	015197
+C8E0	0163C9
+C8E1	0167D4
+C8E2	018089
+C8E3	018339
+C8E4	018815
+C8E5	015112
+C8E6	015B7A
+C8E7	015982
+C8E8	018FB1
+C8E9	014E73
+C8EA	016C5D
+C8EB	015165
+C8EC	018925
+C8ED	018F6F
+C8EE	01962E
+C8EF	01854A
+C8F0	01745E
+C8F1	019510
+C8F2	0195F0
+C8F3	016DA6
+C8F4	0182E5
+C8F5	015F31
+C8F6	016492
+C8F7	016D12
+C8F8	018428
+C8F9	01816E
+C8FA	019CC3
+C8FB	01585E
+C8FC	018D5B
+C8FD	014E09
+C8FE	0153C1
+C9A1	014F1E
+C9A2	016563
+C9A3	016851
+C9A4	0155D3
+C9A5	014E27
+C9A6	016414
+C9A7	019A9A
+C9A8	01626B
+C9A9	015AC2
+C9AA	01745F
+C9AB	018272
+C9AC	016DA9
+C9AD	0168EE
+C9AE	0150E7
+C9AF	01838E
+C9B0	017802
+C9B1	016740
+C9B2	015239
+C9B3	016C99
+C9B4	017EB1
+C9B5	0150BB
+C9B6	015565
+C9B7	01715E
+C9B8	017B5B
+C9B9	016652
+C9BA	0173CA
+C9BB	0182EB
+C9BC	016749
+C9BD	015C71
+C9BE	015220
+C9BF	01717D
+C9C0	01886B
+C9C1	0195EA
+C9C2	019655
+C9C3	0164C5
+C9C4	018D61
+C9C5	0181B3
+C9C6	015584
+C9C7	016C55
+C9C8	016247
+C9C9	017F2E
+C9CA	015892
+C9CB	014F24
+C9CC	015546
+C9CD	018D4F
+C9CE	01664C
+C9CF	014E0A
+C9D0	015C1A
+C9D1	0188F3
+C9D2	0168A2
+C9D3	01634E
+C9D4	017A0D
+C9D5	0170E7
+C9D6	01828D
+C9D7	0152FA
+C9D8	0197F6
+C9D9	015C11
+C9DA	0154E8
+C9DB	0190B5
+C9DC	017ECD
+C9DD	015962
+C9DE	018D4A
+C9DF	0186C7
+C9E0	01820C
+C9E1	01820D
+C9E2	018D66
+C9E3	016444
+C9E4	015C04
+C9E5	016151
+C9E6	016D89
+C9E7	01793E
+C9E8	018BBE
+C9E9	017837
+C9EA	017533
+C9EB	01547B
+C9EC	014F38
+C9ED	018EAB
+C9EE	016DF1
+C9EF	015A20
+C9F0	017EC5
+C9F1	01795E
+C9F2	016C88
+C9F3	015BA1
+C9F4	015A76
+C9F5	01751A
+C9F6	0180BE
+C9F7	01614E
+C9F8	016E17
+C9F9	0158F0
+C9FA	01751F
+C9FB	017525
+C9FC	017272
+C9FD	015347
+C9FE	017EF3
+CAA1	017701
+CAA2	0176DB
+CAA3	015269
+CAA4	0180DC
+CAA5	015723
+CAA6	015E08
+CAA7	015931
+CAA8	0172EE
+CAA9	0165BD
+CAAA	016E7F
+CAAB	018BD7
+CAAC	015C38
+CAAD	018671
+CAAE	015341
+CAAF	0177F3
+CAB0	0162FE
+CAB1	0165F6
+CAB2	014EC0
+CAB3	0198DF
+CAB4	018680
+CAB5	015B9E
+CAB6	018BC6
+CAB7	0153F2
+CAB8	0177E2
+CAB9	014F7F
+CABA	015C4E
+CABB	019A76
+CABC	0159CB
+CABD	015F0F
+CABE	01793A
+CABF	0158EB
+CAC0	014E16
+CAC1	0167FF
+CAC2	014E8B
+CAC3	0162ED
+CAC4	018A93
+CAC5	01901D
+CAC6	0152BF
+CAC7	01662F
+CAC8	0155DC
+CAC9	01566C
+CACA	019002
+CACB	014ED5
+CACC	014F8D
+CACD	0191CA
+CACE	019970
+CACF	016C0F
+CAD0	015E02
+CAD1	016043
+CAD2	015BA4
+CAD3	0189C6
+CAD4	018BD5
+CAD5	016536
+CAD6	01624B
+CAD7	019996
+CAD8	015B88
+CAD9	015BFF
+CADA	016388
+CADB	01552E
+CADC	0153D7
+CADD	017626
+CADE	01517D
+CADF	01852C
+CAE0	0167A2
+CAE1	0168B3
+CAE2	016B8A
+CAE3	016292
+CAE4	018F93
+CAE5	0153D4
+CAE6	018212
+CAE7	016DD1
+CAE8	01758F
+CAE9	014E66
+CAEA	018D4E
+CAEB	015B70
+CAEC	01719F
+CAED	0185AF
+CAEE	016691
+CAEF	0166D9
+CAF0	017F72
+CAF1	018700
+CAF2	019ECD
+CAF3	019F20
+CAF4	015C5E
+CAF5	01672F
+CAF6	018FF0
+CAF7	016811
+CAF8	01675F
+CAF9	01620D
+CAFA	017AD6
+CAFB	015885
+CAFC	015EB6
+CAFD	016570
+CAFE	016F31
+CBA1	016055
+CBA2	015237
+CBA3	01800D
+CBA4	016454
+CBA5	018870
+CBA6	017529
+CBA7	015E05
+CBA8	016813
+CBA9	0162F4
+CBAA	01971C
+CBAB	0153CC
+CBAC	01723D
+CBAD	018C01
+CBAE	016C34
+CBAF	017761
+CBB0	017A0E
+CBB1	01542E
+CBB2	0177AC
+CBB3	01987A
+CBB4	01821C
+CBB5	018BF4
+CBB6	017855
+CBB7	016714
+CBB8	0170C1
+CBB9	0165AF
+CBBA	016495
+CBBB	015636
+CBBC	01601D
+CBBD	0179C1
+CBBE	0153F8
+CBBF	014E1D
+CBC0	016B7B
+CBC1	018086
+CBC2	015BFA
+CBC3	0155E3
+CBC4	0156DB
+CBC5	014F3A
+CBC6	014F3C
+CBC7	019972
+CBC8	015DF3
+CBC9	01677E
+CBCA	018038
+CBCB	016002
+CBCC	019882
+CBCD	019001
+CBCE	015B8B
+CBCF	018BBC
+CBD0	018BF5
+CBD1	01641C
+CBD2	018258
+CBD3	0164DE
+CBD4	0155FD
+CBD5	0182CF
+CBD6	019165
+CBD7	014FD7
+CBD8	017D20
+CBD9	01901F
+CBDA	017C9F
+CBDB	0150F3
+CBDC	015851
+CBDD	016EAF
+CBDE	015BBF
+CBDF	018BC9
+CBE0	018083
+CBE1	019178
+CBE2	01849C
+CBE3	017B97
+CBE4	01867D
+CBE5	01968B
+CBE6	01968F
+CBE7	017EE5
+CBE8	019AD3
+CBE9	01788E
+CBEA	015C81
+CBEB	017A57
+CBEC	019042
+CBED	0196A7
+CBEE	01795F
+CBEF	015B59
+CBF0	01635F
+CBF1	017B0B
+CBF2	0184D1
+CBF3	0168AD
+CBF4	015506
+CBF5	017F29
+CBF6	017410
+CBF7	017D22
+CBF8	019501
+CBF9	016240
+CBFA	01584C
+CBFB	014ED6
+CBFC	015B83
+CBFD	015979
+CBFE	015854
+CCA1	01736D
+CCA2	01631E
+CCA3	018E4B
+CCA4	018E0F
+CCA5	0180CE
+CCA6	0182D4
+CCA7	0162AC
+CCA8	0153F0
+CCA9	016CF0
+CCAA	01915E
+CCAB	01592A
+CCAC	016001
+CCAD	016C70
+CCAE	01574D
+CCAF	01644A
+CCB0	018D2A
+CCB1	01762B
+CCB2	016EE9
+CCB3	01575B
+CCB4	016A80
+CCB5	0175F0
+CCB6	016F6D
+CCB7	018C2D
+CCB8	018C08
+CCB9	015766
+CCBA	016BEF
+CCBB	018892
+CCBC	0178B3
+CCBD	0163A2
+CCBE	0153F9
+CCBF	0170AD
+CCC0	016C64
+CCC1	015858
+CCC2	01642A
+CCC3	015802
+CCC4	0168E0
+CCC5	01819B
+CCC6	015510
+CCC7	017CD6
+CCC8	015018
+CCC9	018EBA
+CCCA	016DCC
+CCCB	018D9F
+CCCC	0170EB
+CCCD	01638F
+CCCE	016D9B
+CCCF	016ED4
+CCD0	017EE6
+CCD1	018404
+CCD2	016843
+CCD3	019003
+CCD4	016DD8
+CCD5	019676
+CCD6	018BA8
+CCD7	015957
+CCD8	017279
+CCD9	0185E4
+CCDA	01817E
+CCDB	0175BC
+CCDC	018A8A
+CCDD	0168AF
+CCDE	015254
+CCDF	018E22
+CCE0	019511
+CCE1	0163D0
+CCE2	019898
+CCE3	018E44
+CCE4	01557C
+CCE5	014F53
+CCE6	0166FF
+CCE7	01568F
+CCE8	0160D5
+CCE9	016D95
+CCEA	015243
+CCEB	015C49
+CCEC	015929
+CCED	016DFB
+CCEE	01586B
+CCEF	017530
+CCF0	01751C
+CCF1	01606C
+CCF2	018214
+CCF3	018146
+CCF4	016311
+CCF5	016761
+CCF6	018FE2
+CCF7	01773A
+CCF8	018DF3
+CCF9	018D34
+CCFA	0194C1
+CCFB	015E16
+CCFC	015385
+CCFD	01542C
+CCFE	0170C3
+CDA1	016C40
+CDA2	015EF7
+CDA3	01505C
+CDA4	014EAD
+CDA5	015EAD
+CDA6	01633A
+CDA7	018247
+CDA8	01901A
+CDA9	016850
+CDAA	01916E
+CDAB	0177B3
+CDAC	01540C
+CDAD	0194DC
+CDAE	015F64
+CDAF	017AE5
+CDB0	016876
+CDB1	016345
+CDB2	017B52
+CDB3	017EDF
+CDB4	0175DB
+CDB5	015077
+CDB6	016295
+CDB7	015934
+CDB8	01900F
+CDB9	0151F8
+CDBA	0179C3
+CDBB	017A81
+CDBC	0156FE
+CDBD	015F92
+CDBE	019014
+CDBF	016D82
+CDC0	015C60
+CDC1	01571F
+CDC2	015410
+CDC3	015154
+CDC4	016E4D
+CDC5	0156E2
+CDC6	0163A8
+CDC7	019893
+CDC8	01817F
+CDC9	018715
+CDCA	01892A
+CDCB	019000
+CDCC	01541E
+CDCD	015C6F
+CDCE	0181C0
+CDCF	0162D6
+CDD0	016258
+CDD1	018131
+CDD2	019E35
+CDD3	019640
+CDD4	019A6E
+CDD5	019A7C
+CDD6	01692D
+CDD7	0159A5
+CDD8	0162D3
+CDD9	01553E
+CDDA	016316
+CDDB	0154C7
+CDDC	0186D9
+CDDD	016D3C
+CDDE	015A03
+CDDF	0174E6
+CDE0	01889C
+CDE1	016B6A
+CDE2	015916
+CDE3	018C4C
+CDE4	015F2F
+CDE5	016E7E
+CDE6	0173A9
+CDE7	01987D
+CDE8	014E38
+CDE9	0170F7
+CDEA	015B8C
+CDEB	017897
+CDEC	01633D
+CDED	01665A
+CDEE	017696
+CDEF	0160CB
+CDF0	015B9B
+CDF1	015A49
+CDF2	014E07
+CDF3	018155
+CDF4	016C6A
+CDF5	01738B
+CDF6	014EA1
+CDF7	016789
+CDF8	017F51
+CDF9	015F80
+CDFA	0165FA
+CDFB	01671B
+CDFC	015FD8
+CDFD	015984
+CDFE	015A01
+CEA1	015DCD
+CEA2	015FAE
+CEA3	015371
+CEA4	0197E6
+CEA5	018FDD
+CEA6	016845
+CEA7	0156F4
+CEA8	01552F
+CEA9	0160DF
+CEAA	014E3A
+CEAB	016F4D
+CEAC	017EF4
+CEAD	0182C7
+CEAE	01840E
+CEAF	0159D4
+CEB0	014F1F
+CEB1	014F2A
+CEB2	015C3E
+CEB3	017EAC
+CEB4	01672A
+CEB5	01851A
+CEB6	015473
+CEB7	01754F
+CEB8	0180C3
+CEB9	015582
+CEBA	019B4F
+CEBB	014F4D
+CEBC	016E2D
+CEBD	018C13
+CEBE	015C09
+CEBF	016170
+CEC0	01536B
+CEC1	01761F
+CEC2	016E29
+CEC3	01868A
+CEC4	016587
+CEC5	0195FB
+CEC6	017EB9
+CEC7	01543B
+CEC8	017A33
+CEC9	017D0A
+CECA	0195EE
+CECB	0155E1
+CECC	017FC1
+CECD	0174EE
+CECE	01631D
+CECF	018717
+CED0	016DA1
+CED1	017A9D
+CED2	016211
+CED3	0165A1
+CED4	015367
+CED5	0163E1
+CED6	016C83
+CED7	015DEB
+CED8	01545C
+CED9	0194A8
+CEDA	014E4C
+CEDB	016C61
+CEDC	018BEC
+CEDD	015C4B
+CEDE	0165E0
+CEDF	01829C
+CEE0	0168A7
+CEE1	01543E
+CEE2	015434
+CEE3	016BCB
+CEE4	016B66
+CEE5	014E94
+CEE6	016342
+CEE7	015348
+CEE8	01821E
+CEE9	014F0D
+CEEA	014FAE
+CEEB	01575E
+CEEC	01620A
+CEED	0196FE
+CEEE	016664
+CEEF	017269
+CEF0	0152FF
+CEF1	0152A1
+CEF2	01609F
+CEF3	018BEF
+CEF4	016614
+CEF5	017199
+CEF6	016790
+CEF7	01897F
+CEF8	017852
+CEF9	0177FD
+CEFA	016670
+CEFB	01563B
+CEFC	015438
+CEFD	019521
+CEFE	01727A
+CFA1	017A00
+CFA2	01606F
+CFA3	015E0C
+CFA4	016089
+CFA5	01819D
+CFA6	015915
+CFA7	0160DC
+CFA8	017184
+CFA9	0170EF
+CFAA	016EAA
+CFAB	016C50
+CFAC	017280
+CFAD	016A84
+CFAE	0188AD
+CFAF	015E2D
+CFB0	014E60
+CFB1	015AB3
+CFB2	01559C
+CFB3	0194E3
+CFB4	016D17
+CFB5	017CFB
+CFB6	019699
+CFB7	01620F
+CFB8	017EC6
+CFB9	01778E
+CFBA	01867E
+CFBB	015323
+CFBC	01971E
+CFBD	018F96
+CFBE	016687
+CFBF	015CE1
+CFC0	014FA0
+CFC1	0172ED
+CFC2	014E0B
+CFC3	0153A6
+CFC4	01590F
+CFC5	015413
+CFC6	016380
+CFC7	019528
+CFC8	015148
+CFC9	014ED9
+CFCA	019C9C
+CFCB	017EA4
+CFCC	0154B8
+CFCD	018D24
+CFCE	018854
+CFCF	018237
+CFD0	0195F2
+CFD1	016D8E
+CFD2	015F26
+CFD3	015ACC
+CFD4	01663E
+CFD5	019669
+CFD6	0173B0
+CFD7	01732E
+CFD8	0153BF
+CFD9	01817A
+CFDA	019985
+CFDB	017FA1
+CFDC	015BAA
+CFDD	019677
+CFDE	019650
+CFDF	017EBF
+CFE0	0176F8
+CFE1	0153A2
+CFE2	019576
+CFE3	019999
+CFE4	017BB1
+CFE5	018944
+CFE6	016E58
+CFE7	014E61
+CFE8	017FD4
+CFE9	017965
+CFEA	018BE6
+CFEB	0160F3
+CFEC	0154CD
+CFED	014EAB
+CFEE	019879
+CFEF	015DF7
+CFF0	016A61
+CFF1	0150CF
+CFF2	015411
+CFF3	018C61
+CFF4	018427
+CFF5	01785D
+CFF6	019704
+CFF7	01524A
+CFF8	0154EE
+CFF9	0156A3
+CFFA	019500
+CFFB	016D88
+CFFC	015BB5
+CFFD	016DC6
+CFFE	016653
+D0A1	015C0F
+D0A2	015B5D
+D0A3	016821
+D0A4	018096
+D0A5	015578
+D0A6	017B11
+D0A7	016548
+D0A8	016954
+D0A9	014E9B
+D0AA	016B47
+D0AB	01874E
+D0AC	01978B
+D0AD	01534F
+D0AE	01631F
+D0AF	01643A
+D0B0	0190AA
+D0B1	01659C
+D0B2	0180C1
+D0B3	018C10
+D0B4	015199
+D0B5	0168B0
+D0B6	015378
+D0B7	0187F9
+D0B8	0161C8
+D0B9	016CC4
+D0BA	016CFB
+D0BB	018C22
+D0BC	015C51
+D0BD	0185AA
+D0BE	0182AF
+D0BF	01950C
+D0C0	016B23
+D0C1	018F9B
+D0C2	0165B0
+D0C3	015FFB
+D0C4	015FC3
+D0C5	014FE1
+D0C6	018845
+D0C7	01661F
+D0C8	018165
+D0C9	017329
+D0CA	0160FA
+D0CB	015174
+D0CC	015211
+D0CD	01578B
+D0CE	015F62
+D0CF	0190A2
+D0D0	01884C
+D0D1	019192
+D0D2	015E78
+D0D3	01674F
+D0D4	016027
+D0D5	0159D3
+D0D6	015144
+D0D7	0151F6
+D0D8	0180F8
+D0D9	015308
+D0DA	016C79
+D0DB	0196C4
+D0DC	01718A
+D0DD	014F11
+D0DE	014FEE
+D0DF	017F9E
+D0E0	01673D
+D0E1	0155C5
+D0E2	019508
+D0E3	0179C0
+D0E4	018896
+D0E5	017EE3
+D0E6	01589F
+D0E7	01620C
+D0E8	019700
+D0E9	01865A
+D0EA	015618
+D0EB	01987B
+D0EC	015F90
+D0ED	018BB8
+D0EE	0184C4
+D0EF	019157
+D0F0	0153D9
+D0F1	0165ED
+D0F2	015E8F
+D0F3	01755C
+D0F4	016064
+D0F5	017D6E
+D0F6	015A7F
+D0F7	017EEA
+D0F8	017EED
+D0F9	018F69
+D0FA	0155A7
+D0FB	015BA3
+D0FC	0160AC
+D0FD	0165CB
+D0FE	017384
+D1A1	019009
+D1A2	017663
+D1A3	017729
+D1A4	017EDA
+D1A5	019774
+D1A6	01859B
+D1A7	015B66
+D1A8	017A74
+D1A9	0196EA
+D1AA	018840
+D1AB	0152CB
+D1AC	01718F
+D1AD	015FAA
+D1AE	0165EC
+D1AF	018BE2
+D1B0	015BFB
+D1B1	019A6F
+D1B2	015DE1
+D1B3	016B89
+D1B4	016C5B
+D1B5	018BAD
+D1B6	018BAF
+D1B7	01900A
+D1B8	018FC5
+D1B9	01538B
+D1BA	0162BC
+D1BB	019E26
+D1BC	019E2D
+D1BD	015440
+D1BE	014E2B
+D1BF	0182BD
+D1C0	017259
+D1C1	01869C
+D1C2	015D16
+D1C3	018859
+D1C4	016DAF
+D1C5	0196C5
+D1C6	0154D1
+D1C7	014E9A
+D1C8	018BB6
+D1C9	017109
+D1CA	0154BD
+D1CB	019609
+D1CC	0170DF
+D1CD	016DF9
+D1CE	0176D0
+D1CF	014E25
+D1D0	017814
+D1D1	018712
+D1D2	015CA9
+D1D3	015EF6
+D1D4	018A00
+D1D5	01989C
+D1D6	01960E
+D1D7	01708E
+D1D8	016CBF
+D1D9	015944
+D1DA	0163A9
+D1DB	01773C
+D1DC	01884D
+D1DD	016F14
+D1DE	018273
+D1DF	015830
+D1E0	0171D5
+D1E1	01538C
+D1E2	01781A
+D1E3	0196C1
+D1E4	015501
+D1E5	015F66
+D1E6	017130
+D1E7	015BB4
+D1E8	018C1A
+D1E9	019A8C
+D1EA	016B83
+D1EB	01592E
+D1EC	019E2F
+D1ED	0179E7
+D1EE	016768
+D1EF	01626C
+D1F0	014F6F
+D1F1	0175A1
+D1F2	017F8A
+D1F3	016D0B
+D1F4	019633
+D1F5	016C27
+D1F6	014EF0
+D1F7	0175D2
+D1F8	01517B
+D1F9	016837
+D1FA	016F3E
+D1FB	019080
+D1FC	018170
+D1FD	015996
+D1FE	017476
+D2A1	016447
+D2A2	015C27
+D2A3	019065
+D2A4	017A91
+D2A5	018C23
+D2A6	0159DA
+D2A7	0154AC
+D2A8	018200
+D2A9	01836F
+D2AA	018981
+D2AB	018000
+D2AC	016930
+D2AD	01564E
+D2AE	018036
+D2AF	017237
+D2B0	0191CE
+D2B1	0151B6
+D2B2	014E5F
+D2B3	019875
+D2B4	016396
+D2B5	014E1A
+D2B6	0153F6
+D2B7	0166F3
+D2B8	01814B
+D2B9	01591C
+D2BA	016DB2
+D2BB	014E00
+D2BC	0158F9
+D2BD	01533B
+D2BE	0163D6
+D2BF	0194F1
+D2C0	014F9D
+D2C1	014F0A
+D2C2	018863
+D2C3	019890
+D2C4	015937
+D2C5	019057
+D2C6	0179FB
+D2C7	014EEA
+D2C8	0180F0
+D2C9	017591
+D2CA	016C82
+D2CB	015B9C
+D2CC	0159E8
+D2CD	015F5D
+D2CE	016905
+D2CF	018681
+D2D0	01501A
+D2D1	015DF2
+D2D2	014E59
+D2D3	0177E3
+D2D4	014EE5
+D2D5	01827A
+D2D6	016291
+D2D7	016613
+D2D8	019091
+D2D9	015C79
+D2DA	014EBF
+D2DB	015F79
+D2DC	0181C6
+D2DD	019038
+D2DE	018084
+D2DF	0175AB
+D2E0	014EA6
+D2E1	0188D4
+D2E2	01610F
+D2E3	016BC5
+D2E4	015FC6
+D2E5	014E49
+D2E6	0176CA
+D2E7	016EA2
+D2E8	018BE3
+D2E9	018BAE
+D2EA	018C0A
+D2EB	018BD1
+D2EC	015F02
+D2ED	017FFC
+D2EE	017FCC
+D2EF	017ECE
+D2F0	018335
+D2F1	01836B
+D2F2	0156E0
+D2F3	016BB7
+D2F4	0197F3
+D2F5	019634
+D2F6	0159FB
+D2F7	01541F
+D2F8	0194F6
+D2F9	016DEB
+D2FA	015BC5
+D2FB	01996E
+D2FC	015C39
+D2FD	015F15
+D2FE	019690
+D3A1	015370
+D3A2	0182F1
+D3A3	016A31
+D3A4	015A74
+D3A5	019E70
+D3A6	015E94
+D3A7	017F28
+D3A8	0183B9
+D3A9	018424
+D3AA	018425
+D3AB	018367
+D3AC	018747
+D3AD	018FCE
+D3AE	018D62
+D3AF	0176C8
+D3B0	015F71
+D3B1	019896
+D3B2	01786C
+D3B3	016620
+D3B4	0154DF
+D3B5	0162E5
+D3B6	014F63
+D3B7	0181C3
+D3B8	0175C8
+D3B9	015EB8
+D3BA	0196CD
+D3BB	018E0A
+D3BC	0186F9
+D3BD	01548F
+D3BE	016CF3
+D3BF	016D8C
+D3C0	016C38
+D3C1	01607F
+D3C2	0152C7
+D3C3	017528
+D3C4	015E7D
+D3C5	014F18
+D3C6	0160A0
+D3C7	015FE7
+D3C8	015C24
+D3C9	017531
+D3CA	0190AE
+D3CB	0194C0
+D3CC	0172B9
+D3CD	016CB9
+D3CE	016E38
+D3CF	019149
+D3D0	016709
+D3D1	0153CB
+D3D2	0153F3
+D3D3	014F51
+D3D4	0191C9
+D3D5	018BF1
+D3D6	0153C8
+D3D7	015E7C
+D3D8	018FC2
+D3D9	016DE4
+D3DA	014E8E
+D3DB	0176C2
+D3DC	016986
+D3DD	01865E
+D3DE	01611A
+D3DF	018206
+D3E0	014F59
+D3E1	014FDE
+D3E2	01903E
+D3E3	019C7C
+D3E4	016109
+D3E5	016E1D
+D3E6	016E14
+D3E7	019685
+D3E8	014E88
+D3E9	015A31
+D3EA	0196E8
+D3EB	014E0E
+D3EC	015C7F
+D3ED	0179B9
+D3EE	015B87
+D3EF	018BED
+D3F0	017FBD
+D3F1	017389
+D3F2	0157DF
+D3F3	01828B
+D3F4	0190C1
+D3F5	015401
+D3F6	019047
+D3F7	0155BB
+D3F8	015CEA
+D3F9	015FA1
+D3FA	016108
+D3FB	016B32
+D3FC	0172F1
+D3FD	0180B2
+D3FE	018A89
+D4A1	016D74
+D4A2	015BD3
+D4A3	0188D5
+D4A4	019884
+D4A5	018C6B
+D4A6	019A6D
+D4A7	019E33
+D4A8	016E0A
+D4A9	0151A4
+D4AA	015143
+D4AB	0157A3
+D4AC	018881
+D4AD	01539F
+D4AE	0163F4
+D4AF	018F95
+D4B0	0156ED
+D4B1	015458
+D4B2	015706
+D4B3	01733F
+D4B4	016E90
+D4B5	017F18
+D4B6	018FDC
+D4B7	0182D1
+D4B8	01613F
+D4B9	016028
+D4BA	019662
+D4BB	0166F0
+D4BC	017EA6
+D4BD	018D8A
+D4BE	018DC3
+D4BF	0194A5
+D4C0	015CB3
+D4C1	017CA4
+D4C2	016708
+D4C3	0160A6
+D4C4	019605
+D4C5	018018
+D4C6	014E91
+D4C7	0190E7
+D4C8	015300
+D4C9	019668
+D4CA	015141
+D4CB	018FD0
+D4CC	018574
+D4CD	01915D
+D4CE	016655
+D4CF	0197F5
+D4D0	015B55
+D4D1	01531D
+D4D2	017838
+D4D3	016742
+D4D4	01683D
+D4D5	0154C9
+D4D6	01707E
+D4D7	015BB0
+D4D8	018F7D
+D4D9	01518D
+D4DA	015728
+D4DB	0154B1
+D4DC	016512
+D4DD	016682
+D4DE	018D5E
+D4DF	018D43
+D4E0	01810F
+D4E1	01846C
+D4E2	01906D
+D4E3	017CDF
+D4E4	0151FF
+D4E5	0185FB
+D4E6	0167A3
+D4E7	0165E9
+D4E8	016FA1
+D4E9	0186A4
+D4EA	018E81
+D4EB	01566A
+D4EC	019020
+D4ED	017682
+D4EE	017076
+D4EF	0171E5
+D4F0	018D23
+D4F1	0162E9
+D4F2	015219
+D4F3	016CFD
+D4F4	018D3C
+D4F5	01600E
+D4F6	01589E
+D4F7	01618E
+D4F8	0166FE
+D4F9	018D60
+D4FA	01624E
+D4FB	0155B3
+D4FC	016E23
+D4FD	01672D
+D4FE	018F67
+D5A1	0194E1
+D5A2	0195F8
+D5A3	017728
+D5A4	016805
+D5A5	0169A8
+D5A6	01548B
+D5A7	014E4D
+D5A8	0170B8
+D5A9	018BC8
+D5AA	016458
+D5AB	01658B
+D5AC	015B85
+D5AD	017A84
+D5AE	01503A
+D5AF	015BE8
+D5B0	0177BB
+D5B1	016BE1
+D5B2	018A79
+D5B3	017C98
+D5B4	016CBE
+D5B5	0176CF
+D5B6	0165A9
+D5B7	018F97
+D5B8	015D2D
+D5B9	015C55
+D5BA	018638
+D5BB	016808
+D5BC	015360
+D5BD	016218
+D5BE	017AD9
+D5BF	016E5B
+D5C0	017EFD
+D5C1	016A1F
+D5C2	017AE0
+D5C3	015F70
+D5C4	016F33
+D5C5	015F20
+D5C6	01638C
+D5C7	016DA8
+D5C8	016756
+D5C9	014E08
+D5CA	015E10
+D5CB	018D26
+D5CC	014ED7
+D5CD	0180C0
+D5CE	017634
+D5CF	01969C
+D5D0	0162DB
+D5D1	01662D
+D5D2	01627E
+D5D3	016CBC
+D5D4	018D75
+D5D5	017167
+D5D6	017F69
+D5D7	015146
+D5D8	018087
+D5D9	0153EC
+D5DA	01906E
+D5DB	016298
+D5DC	0154F2
+D5DD	0186F0
+D5DE	018F99
+D5DF	018005
+D5E0	019517
+D5E1	018517
+D5E2	018FD9
+D5E3	016D59
+D5E4	0173CD
+D5E5	01659F
+D5E6	01771F
+D5E7	017504
+D5E8	017827
+D5E9	0181FB
+D5EA	018D1E
+D5EB	019488
+D5EC	014FA6
+D5ED	016795
+D5EE	0175B9
+D5EF	018BCA
+D5F0	019707
+D5F1	01632F
+D5F2	019547
+D5F3	019635
+D5F4	0184B8
+D5F5	016323
+D5F6	017741
+D5F7	015F81
+D5F8	0172F0
+D5F9	014E89
+D5FA	016014
+D5FB	016574
+D5FC	0162EF
+D5FD	016B63
+D5FE	01653F
+D6A1	015E27
+D6A2	0175C7
+D6A3	0190D1
+D6A4	018BC1
+D6A5	01829D
+D6A6	01679D
+D6A7	01652F
+D6A8	015431
+D6A9	018718
+D6AA	0177E5
+D6AB	0180A2
+D6AC	018102
+D6AD	016C41
+D6AE	014E4B
+D6AF	017EC7
+D6B0	01804C
+D6B1	0176F4
+D6B2	01690D
+D6B3	016B96
+D6B4	016267
+D6B5	01503C
+D6B6	014F84
+D6B7	015740
+D6B8	016307
+D6B9	016B62
+D6BA	018DBE
+D6BB	0153EA
+D6BC	0165E8
+D6BD	017EB8
+D6BE	015FD7
+D6BF	01631A
+D6C0	0163B7
+D6C1	0181F3
+D6C2	0181F4
+D6C3	017F6E
+D6C4	015E1C
+D6C5	015CD9
+D6C6	015236
+D6C7	01667A
+D6C8	0179E9
+D6C9	017A1A
+D6CA	018D28
+D6CB	017099
+D6CC	0175D4
+D6CD	016EDE
+D6CE	016CBB
+D6CF	017A92
+D6D0	014E2D
+D6D1	0176C5
+D6D2	015FE0
+D6D3	01949F
+D6D4	018877
+D6D5	017EC8
+D6D6	0179CD
+D6D7	0180BF
+D6D8	0191CD
+D6D9	014EF2
+D6DA	014F17
+D6DB	01821F
+D6DC	015468
+D6DD	015DDE
+D6DE	016D32
+D6DF	018BCC
+D6E0	017CA5
+D6E1	018F74
+D6E2	018098
+D6E3	015E1A
+D6E4	015492
+D6E5	0176B1
+D6E6	015B99
+D6E7	01663C
+D6E8	019AA4
+D6E9	0173E0
+D6EA	01682A
+D6EB	0186DB
+D6EC	016731
+D6ED	01732A
+D6EE	018BF8
+D6EF	018BDB
+D6F0	019010
+D6F1	017AF9
+D6F2	0170DB
+D6F3	01716E
+D6F4	0162C4
+D6F5	0177A9
+D6F6	015631
+D6F7	014E3B
+D6F8	018457
+D6F9	0167F1
+D6FA	0152A9
+D6FB	0186C0
+D6FC	018D2E
+D6FD	0194F8
+D6FE	017B51
+D7A1	014F4F
+D7A2	016CE8
+D7A3	01795D
+D7A4	019A7B
+D7A5	016293
+D7A6	01722A
+D7A7	0162FD
+D7A8	014E13
+D7A9	017816
+D7AA	018F6C
+D7AB	0164B0
+D7AC	018D5A
+D7AD	017BC6
+D7AE	016869
+D7AF	015E84
+D7B0	0188C5
+D7B1	015986
+D7B2	01649E
+D7B3	0158EE
+D7B4	0172B6
+D7B5	01690E
+D7B6	019525
+D7B7	018FFD
+D7B8	018D58
+D7B9	015760
+D7BA	017F00
+D7BB	018C06
+D7BC	0151C6
+D7BD	016349
+D7BE	0162D9
+D7BF	015353
+D7C0	01684C
+D7C1	017422
+D7C2	018301
+D7C3	01914C
+D7C4	015544
+D7C5	017740
+D7C6	01707C
+D7C7	016D4A
+D7C8	015179
+D7C9	0154A8
+D7CA	018D44
+D7CB	0159FF
+D7CC	016ECB
+D7CD	016DC4
+D7CE	015B5C
+D7CF	017D2B
+D7D0	014ED4
+D7D1	017C7D
+D7D2	016ED3
+D7D3	015B50
+D7D4	0181EA
+D7D5	016E0D
+D7D6	015B57
+D7D7	019B03
+D7D8	0168D5
+D7D9	018E2A
+D7DA	015B97
+D7DB	017EFC
+D7DC	01603B
+D7DD	017EB5
+D7DE	0190B9
+D7DF	018D70
+D7E0	01594F
+D7E1	0163CD
+D7E2	0179DF
+D7E3	018DB3
+D7E4	015352
+D7E5	0165CF
+D7E6	017956
+D7E7	018BC5
+D7E8	01963B
+D7E9	017EC4
+D7EA	0194BB
+D7EB	017E82
+D7EC	015634
+D7ED	019189
+D7EE	016700
+D7EF	017F6A
+D7F0	015C0A
+D7F1	019075
+D7F2	016628
+D7F3	015DE6
+D7F4	014F50
+D7F5	0167DE
+D7F6	01505A
+D7F7	014F5C
+D7F8	015750
+D7F9	015EA7
+D8A1	014E8D
+D8A2	014E0C
+D8A3	015140
+D8A4	014E10
+D8A5	015EFF
+D8A6	015345
+D8A7	014E15
+D8A8	014E98
+D8A9	014E1E
+D8AA	019B32
+D8AB	015B6C
+D8AC	015669
+D8AD	014E28
+D8AE	0179BA
+D8AF	014E3F
+D8B0	015315
+D8B1	014E47
+D8B2	01592D
+D8B3	01723B
+D8B4	01536E
+D8B5	016C10
+D8B6	0156DF
+D8B7	0180E4
+D8B8	019997
+D8B9	016BD3
+D8BA	01777E
+D8BB	019F17
+D8BC	014E36
+D8BD	014E9F
+D8BE	019F10
+D8BF	014E5C
+D8C0	014E69
+D8C1	014E93
+D8C2	018288
+D8C3	015B5B
+D8C4	01556C
+D8C5	01560F
+D8C6	014EC4
+D8C7	01538D
+D8C8	01539D
+D8C9	0153A3
+D8CA	0153A5
+D8CB	0153AE
+D8CC	019765
+D8CD	018D5D
+D8CE	01531A
+D8CF	0153F5
+D8D0	015326
+D8D1	01532E
+D8D2	01533E
+D8D3	018D5C
+D8D4	015366
+D8D5	015363
+D8D6	015202
+D8D7	015208
+D8D8	01520E
+D8D9	01522D
+D8DA	015233
+D8DB	01523F
+D8DC	015240
+D8DD	01524C
+D8DE	01525E
+D8DF	015261
+D8E0	01525C
+D8E1	0184AF
+D8E2	01527D
+D8E3	015282
+D8E4	015281
+D8E5	015290
+D8E6	015293
+D8E7	015182
+D8E8	017F54
+D8E9	014EBB
+D8EA	014EC3
+D8EB	014EC9
+D8EC	014EC2
+D8ED	014EE8
+D8EE	014EE1
+D8EF	014EEB
+D8F0	014EDE
+D8F1	014F1B
+D8F2	014EF3
+D8F3	014F22
+D8F4	014F64
+D8F5	014EF5
+D8F6	014F25
+D8F7	014F27
+D8F8	014F09
+D8F9	014F2B
+D8FA	014F5E
+D8FB	014F67
+D8FC	016538
+D8FD	014F5A
+D8FE	014F5D
+D9A1	014F5F
+D9A2	014F57
+D9A3	014F32
+D9A4	014F3D
+D9A5	014F76
+D9A6	014F74
+D9A7	014F91
+D9A8	014F89
+D9A9	014F83
+D9AA	014F8F
+D9AB	014F7E
+D9AC	014F7B
+D9AD	014FAA
+D9AE	014F7C
+D9AF	014FAC
+D9B0	014F94
+D9B1	014FE6
+D9B2	014FE8
+D9B3	014FEA
+D9B4	014FC5
+D9B5	014FDA
+D9B6	014FE3
+D9B7	014FDC
+D9B8	014FD1
+D9B9	014FDF
+D9BA	014FF8
+D9BB	015029
+D9BC	01504C
+D9BD	014FF3
+D9BE	01502C
+D9BF	01500F
+D9C0	01502E
+D9C1	01502D
+D9C2	014FFE
+D9C3	01501C
+D9C4	01500C
+D9C5	015025
+D9C6	015028
+D9C7	01507E
+D9C8	015043
+D9C9	015055
+D9CA	015048
+D9CB	01504E
+D9CC	01506C
+D9CD	01507B
+D9CE	0150A5
+D9CF	0150A7
+D9D0	0150A9
+D9D1	0150BA
+D9D2	0150D6
+D9D3	015106
+D9D4	0150ED
+D9D5	0150EC
+D9D6	0150E6
+D9D7	0150EE
+D9D8	015107
+D9D9	01510B
+D9DA	014EDD
+D9DB	016C3D
+D9DC	014F58
+D9DD	014F65
+D9DE	014FCE
+D9DF	019FA0
+D9E0	016C46
+D9E1	017C74
+D9E2	01516E
+D9E3	015DFD
+D9E4	019EC9
+D9E5	019998
+D9E6	015181
+D9E7	015914
+D9E8	0152F9
+D9E9	01530D
+D9EA	018A07
+D9EB	015310
+D9EC	0151EB
+D9ED	015919
+D9EE	015155
+D9EF	014EA0
+D9F0	015156
+D9F1	014EB3
+D9F2	01886E
+D9F3	0188A4
+D9F4	014EB5
+D9F5	018114
+D9F6	0188D2
+D9F7	017980
+D9F8	015B34
+D9F9	018803
+D9FA	017FB8
+D9FB	0151AB
+D9FC	0151B1
+D9FD	0151BD
+D9FE	0151BC
+DAA1	0151C7
+DAA2	015196
+DAA3	0151A2
+DAA4	0151A5
+DAA5	018BA0
+DAA6	018BA6
+DAA7	018BA7
+DAA8	018BAA
+DAA9	018BB4
+DAAA	018BB5
+DAAB	018BB7
+DAAC	018BC2
+DAAD	018BC3
+DAAE	018BCB
+DAAF	018BCF
+DAB0	018BCE
+DAB1	018BD2
+DAB2	018BD3
+DAB3	018BD4
+DAB4	018BD6
+DAB5	018BD8
+DAB6	018BD9
+DAB7	018BDC
+DAB8	018BDF
+DAB9	018BE0
+DABA	018BE4
+DABB	018BE8
+DABC	018BE9
+DABD	018BEE
+DABE	018BF0
+DABF	018BF3
+DAC0	018BF6
+DAC1	018BF9
+DAC2	018BFC
+DAC3	018BFF
+DAC4	018C00
+DAC5	018C02
+DAC6	018C04
+DAC7	018C07
+DAC8	018C0C
+DAC9	018C0F
+DACA	018C11
+DACB	018C12
+DACC	018C14
+DACD	018C15
+DACE	018C16
+DACF	018C19
+DAD0	018C1B
+DAD1	018C18
+DAD2	018C1D
+DAD3	018C1F
+DAD4	018C20
+DAD5	018C21
+DAD6	018C25
+DAD7	018C27
+DAD8	018C2A
+DAD9	018C2B
+DADA	018C2E
+DADB	018C2F
+DADC	018C32
+DADD	018C33
+DADE	018C35
+DADF	018C36
+DAE0	015369
+DAE1	01537A
+DAE2	01961D
+DAE3	019622
+DAE4	019621
+DAE5	019631
+DAE6	01962A
+DAE7	01963D
+DAE8	01963C
+DAE9	019642
+DAEA	019649
+DAEB	019654
+DAEC	01965F
+DAED	019667
+DAEE	01966C
+DAEF	019672
+DAF0	019674
+DAF1	019688
+DAF2	01968D
+DAF3	019697
+DAF4	0196B0
+DAF5	019097
+DAF6	01909B
+DAF7	01909D
+DAF8	019099
+DAF9	0190AC
+DAFA	0190A1
+DAFB	0190B4
+DAFC	0190B3
+DAFD	0190B6
+DAFE	0190BA
+DBA1	0190B8
+DBA2	0190B0
+DBA3	0190CF
+DBA4	0190C5
+DBA5	0190BE
+DBA6	0190D0
+DBA7	0190C4
+DBA8	0190C7
+DBA9	0190D3
+DBAA	0190E6
+DBAB	0190E2
+DBAC	0190DC
+DBAD	0190D7
+DBAE	0190DB
+DBAF	0190EB
+DBB0	0190EF
+DBB1	0190FE
+DBB2	019104
+DBB3	019122
+DBB4	01911E
+DBB5	019123
+DBB6	019131
+DBB7	01912F
+DBB8	019139
+DBB9	019143
+DBBA	019146
+DBBB	01520D
+DBBC	015942
+DBBD	0152A2
+DBBE	0152AC
+DBBF	0152AD
+DBC0	0152BE
+DBC1	0154FF
+DBC2	0152D0
+DBC3	0152D6
+DBC4	0152F0
+DBC5	0153DF
+DBC6	0171EE
+DBC7	0177CD
+DBC8	015EF4
+DBC9	0151F5
+DBCA	0151FC
+DBCB	019B2F
+DBCC	0153B6
+DBCD	015F01
+DBCE	01755A
+DBCF	015DEF
+DBD0	01574C
+DBD1	0157A9
+DBD2	0157A1
+DBD3	01587E
+DBD4	0158BC
+DBD5	0158C5
+DBD6	0158D1
+DBD7	015729
+DBD8	01572C
+DBD9	01572A
+DBDA	015733
+DBDB	015739
+DBDC	01572E
+DBDD	01572F
+DBDE	01575C
+DBDF	01573B
+DBE0	015742
+DBE1	015769
+DBE2	015785
+DBE3	01576B
+DBE4	015786
+DBE5	01577C
+DBE6	01577B
+DBE7	015768
+DBE8	01576D
+DBE9	015776
+DBEA	015773
+DBEB	0157AD
+DBEC	0157A4
+DBED	01578C
+DBEE	0157B2
+DBEF	0157CF
+DBF0	0157A7
+DBF1	0157B4
+DBF2	015793
+DBF3	0157A0
+DBF4	0157D5
+DBF5	0157D8
+DBF6	0157DA
+DBF7	0157D9
+DBF8	0157D2
+DBF9	0157B8
+DBFA	0157F4
+DBFB	0157EF
+DBFC	0157F8
+DBFD	0157E4
+DBFE	0157DD
+DCA1	01580B
+DCA2	01580D
+DCA3	0157FD
+DCA4	0157ED
+DCA5	015800
+DCA6	01581E
+DCA7	015819
+DCA8	015844
+DCA9	015820
+DCAA	015865
+DCAB	01586C
+DCAC	015881
+DCAD	015889
+DCAE	01589A
+DCAF	015880
+DCB0	0199A8
+DCB1	019F19
+DCB2	0161FF
+DCB3	018279
+DCB4	01827D
+DCB5	01827F
+DCB6	01828F
+DCB7	01828A
+DCB8	0182A8
+DCB9	018284
+DCBA	01828E
+DCBB	018291
+DCBC	018297
+DCBD	018299
+DCBE	0182AB
+DCBF	0182B8
+DCC0	0182BE
+DCC1	0182B0
+DCC2	0182C8
+DCC3	0182CA
+DCC4	0182E3
+DCC5	018298
+DCC6	0182B7
+DCC7	0182AE
+DCC8	0182CB
+DCC9	0182CC
+DCCA	0182C1
+DCCB	0182A9
+DCCC	0182B4
+DCCD	0182A1
+DCCE	0182AA
+DCCF	01829F
+DCD0	0182C4
+DCD1	0182CE
+DCD2	0182A4
+DCD3	0182E1
+DCD4	018309
+DCD5	0182F7
+DCD6	0182E4
+DCD7	01830F
+DCD8	018307
+DCD9	0182DC
+DCDA	0182F4
+DCDB	0182D2
+DCDC	0182D8
+DCDD	01830C
+DCDE	0182FB
+DCDF	0182D3
+DCE0	018311
+DCE1	01831A
+DCE2	018306
+DCE3	018314
+DCE4	018315
+DCE5	0182E0
+DCE6	0182D5
+DCE7	01831C
+DCE8	018351
+DCE9	01835B
+DCEA	01835C
+DCEB	018308
+DCEC	018392
+DCED	01833C
+DCEE	018334
+DCEF	018331
+DCF0	01839B
+DCF1	01835E
+DCF2	01832F
+DCF3	01834F
+DCF4	018347
+DCF5	018343
+DCF6	01835F
+DCF7	018340
+DCF8	018317
+DCF9	018360
+DCFA	01832D
+DCFB	01833A
+DCFC	018333
+DCFD	018366
+DCFE	018365
+DDA1	018368
+DDA2	01831B
+DDA3	018369
+DDA4	01836C
+DDA5	01836A
+DDA6	01836D
+DDA7	01836E
+DDA8	0183B0
+DDA9	018378
+DDAA	0183B3
+DDAB	0183B4
+DDAC	0183A0
+DDAD	0183AA
+DDAE	018393
+DDAF	01839C
+DDB0	018385
+DDB1	01837C
+DDB2	0183B6
+DDB3	0183A9
+DDB4	01837D
+DDB5	0183B8
+DDB6	01837B
+DDB7	018398
+DDB8	01839E
+DDB9	0183A8
+DDBA	0183BA
+DDBB	0183BC
+DDBC	0183C1
+DDBD	018401
+DDBE	0183E5
+DDBF	0183D8
+DDC0	015807
+DDC1	018418
+DDC2	01840B
+DDC3	0183DD
+DDC4	0183FD
+DDC5	0183D6
+DDC6	01841C
+DDC7	018438
+DDC8	018411
+DDC9	018406
+DDCA	0183D4
+DDCB	0183DF
+DDCC	01840F
+DDCD	018403
+DDCE	0183F8
+DDCF	0183F9
+DDD0	0183EA
+DDD1	0183C5
+DDD2	0183C0
+DDD3	018426
+DDD4	0183F0
+DDD5	0183E1
+DDD6	01845C
+DDD7	018451
+DDD8	01845A
+DDD9	018459
+DDDA	018473
+DDDB	018487
+DDDC	018488
+DDDD	01847A
+DDDE	018489
+DDDF	018478
+DDE0	01843C
+DDE1	018446
+DDE2	018469
+DDE3	018476
+DDE4	01848C
+DDE5	01848E
+DDE6	018431
+DDE7	01846D
+DDE8	0184C1
+DDE9	0184CD
+DDEA	0184D0
+DDEB	0184E6
+DDEC	0184BD
+DDED	0184D3
+DDEE	0184CA
+DDEF	0184BF
+DDF0	0184BA
+DDF1	0184E0
+DDF2	0184A1
+DDF3	0184B9
+DDF4	0184B4
+DDF5	018497
+DDF6	0184E5
+DDF7	0184E3
+DDF8	01850C
+DDF9	01750D
+DDFA	018538
+DDFB	0184F0
+DDFC	018539
+DDFD	01851F
+DDFE	01853A
+DEA1	018556
+DEA2	01853B
+DEA3	0184FF
+DEA4	0184FC
+DEA5	018559
+DEA6	018548
+DEA7	018568
+DEA8	018564
+DEA9	01855E
+DEAA	01857A
+DEAB	0177A2
+DEAC	018543
+DEAD	018572
+DEAE	01857B
+DEAF	0185A4
+DEB0	0185A8
+DEB1	018587
+DEB2	01858F
+DEB3	018579
+DEB4	0185AE
+DEB5	01859C
+DEB6	018585
+DEB7	0185B9
+DEB8	0185B7
+DEB9	0185B0
+DEBA	0185D3
+DEBB	0185C1
+DEBC	0185DC
+DEBD	0185FF
+DEBE	018627
+DEBF	018605
+DEC0	018629
+DEC1	018616
+DEC2	01863C
+DEC3	015EFE
+DEC4	015F08
+DEC5	01593C
+DEC6	015941
+DEC7	018037
+DEC8	015955
+DEC9	01595A
+DECA	015958
+DECB	01530F
+DECC	015C22
+DECD	015C25
+DECE	015C2C
+DECF	015C34
+DED0	01624C
+DED1	01626A
+DED2	01629F
+DED3	0162BB
+DED4	0162CA
+DED5	0162DA
+DED6	0162D7
+DED7	0162EE
+DED8	016322
+DED9	0162F6
+DEDA	016339
+DEDB	01634B
+DEDC	016343
+DEDD	0163AD
+DEDE	0163F6
+DEDF	016371
+DEE0	01637A
+DEE1	01638E
+DEE2	0163B4
+DEE3	01636D
+DEE4	0163AC
+DEE5	01638A
+DEE6	016369
+DEE7	0163AE
+DEE8	0163BC
+DEE9	0163F2
+DEEA	0163F8
+DEEB	0163E0
+DEEC	0163FF
+DEED	0163C4
+DEEE	0163DE
+DEEF	0163CE
+DEF0	016452
+DEF1	0163C6
+DEF2	0163BE
+DEF3	016445
+DEF4	016441
+DEF5	01640B
+DEF6	01641B
+DEF7	016420
+DEF8	01640C
+DEF9	016426
+DEFA	016421
+DEFB	01645E
+DEFC	016484
+DEFD	01646D
+DEFE	016496
+DFA1	01647A
+DFA2	0164B7
+DFA3	0164B8
+DFA4	016499
+DFA5	0164BA
+DFA6	0164C0
+DFA7	0164D0
+DFA8	0164D7
+DFA9	0164E4
+DFAA	0164E2
+DFAB	016509
+DFAC	016525
+DFAD	01652E
+DFAE	015F0B
+DFAF	015FD2
+DFB0	017519
+DFB1	015F11
+DFB2	01535F
+DFB3	0153F1
+DFB4	0153FD
+DFB5	0153E9
+DFB6	0153E8
+DFB7	0153FB
+DFB8	015412
+DFB9	015416
+DFBA	015406
+DFBB	01544B
+DFBC	015452
+DFBD	015453
+DFBE	015454
+DFBF	015456
+DFC0	015443
+DFC1	015421
+DFC2	015457
+DFC3	015459
+DFC4	015423
+DFC5	015432
+DFC6	015482
+DFC7	015494
+DFC8	015477
+DFC9	015471
+DFCA	015464
+DFCB	01549A
+DFCC	01549B
+DFCD	015484
+DFCE	015476
+DFCF	015466
+DFD0	01549D
+DFD1	0154D0
+DFD2	0154AD
+DFD3	0154C2
+DFD4	0154B4
+DFD5	0154D2
+DFD6	0154A7
+DFD7	0154A6
+DFD8	0154D3
+DFD9	0154D4
+DFDA	015472
+DFDB	0154A3
+DFDC	0154D5
+DFDD	0154BB
+DFDE	0154BF
+DFDF	0154CC
+DFE0	0154D9
+DFE1	0154DA
+DFE2	0154DC
+DFE3	0154A9
+DFE4	0154AA
+DFE5	0154A4
+DFE6	0154DD
+DFE7	0154CF
+DFE8	0154DE
+DFE9	01551B
+DFEA	0154E7
+DFEB	015520
+DFEC	0154FD
+DFED	015514
+DFEE	0154F3
+DFEF	015522
+DFF0	015523
+DFF1	01550F
+DFF2	015511
+DFF3	015527
+DFF4	01552A
+DFF5	015567
+DFF6	01558F
+DFF7	0155B5
+DFF8	015549
+DFF9	01556D
+DFFA	015541
+DFFB	015555
+DFFC	01553F
+DFFD	015550
+DFFE	01553C
+E0A1	015537
+E0A2	015556
+E0A3	015575
+E0A4	015576
+E0A5	015577
+E0A6	015533
+E0A7	015530
+E0A8	01555C
+E0A9	01558B
+E0AA	0155D2
+E0AB	015583
+E0AC	0155B1
+E0AD	0155B9
+E0AE	015588
+E0AF	015581
+E0B0	01559F
+E0B1	01557E
+E0B2	0155D6
+E0B3	015591
+E0B4	01557B
+E0B5	0155DF
+E0B6	0155BD
+E0B7	0155BE
+E0B8	015594
+E0B9	015599
+E0BA	0155EA
+E0BB	0155F7
+E0BC	0155C9
+E0BD	01561F
+E0BE	0155D1
+E0BF	0155EB
+E0C0	0155EC
+E0C1	0155D4
+E0C2	0155E6
+E0C3	0155DD
+E0C4	0155C4
+E0C5	0155EF
+E0C6	0155E5
+E0C7	0155F2
+E0C8	0155F3
+E0C9	0155CC
+E0CA	0155CD
+E0CB	0155E8
+E0CC	0155F5
+E0CD	0155E4
+E0CE	018F94
+E0CF	01561E
+E0D0	015608
+E0D1	01560C
+E0D2	015601
+E0D3	015624
+E0D4	015623
+E0D5	0155FE
+E0D6	015600
+E0D7	015627
+E0D8	01562D
+E0D9	015658
+E0DA	015639
+E0DB	015657
+E0DC	01562C
+E0DD	01564D
+E0DE	015662
+E0DF	015659
+E0E0	01565C
+E0E1	01564C
+E0E2	015654
+E0E3	015686
+E0E4	015664
+E0E5	015671
+E0E6	01566B
+E0E7	01567B
+E0E8	01567C
+E0E9	015685
+E0EA	015693
+E0EB	0156AF
+E0EC	0156D4
+E0ED	0156D7
+E0EE	0156DD
+E0EF	0156E1
+E0F0	0156F5
+E0F1	0156EB
+E0F2	0156F9
+E0F3	0156FF
+E0F4	015704
+E0F5	01570A
+E0F6	015709
+E0F7	01571C
+E0F8	015E0F
+E0F9	015E19
+E0FA	015E14
+E0FB	015E11
+E0FC	015E31
+E0FD	015E3B
+E0FE	015E3C
+E1A1	015E37
+E1A2	015E44
+E1A3	015E54
+E1A4	015E5B
+E1A5	015E5E
+E1A6	015E61
+E1A7	015C8C
+E1A8	015C7A
+E1A9	015C8D
+E1AA	015C90
+E1AB	015C96
+E1AC	015C88
+E1AD	015C98
+E1AE	015C99
+E1AF	015C91
+E1B0	015C9A
+E1B1	015C9C
+E1B2	015CB5
+E1B3	015CA2
+E1B4	015CBD
+E1B5	015CAC
+E1B6	015CAB
+E1B7	015CB1
+E1B8	015CA3
+E1B9	015CC1
+E1BA	015CB7
+E1BB	015CC4
+E1BC	015CD2
+E1BD	015CE4
+E1BE	015CCB
+E1BF	015CE5
+E1C0	015D02
+E1C1	015D03
+E1C2	015D27
+E1C3	015D26
+E1C4	015D2E
+E1C5	015D24
+E1C6	015D1E
+E1C7	015D06
+E1C8	015D1B
+E1C9	015D58
+E1CA	015D3E
+E1CB	015D34
+E1CC	015D3D
+E1CD	015D6C
+E1CE	015D5B
+E1CF	015D6F
+E1D0	015D5D
+E1D1	015D6B
+E1D2	015D4B
+E1D3	015D4A
+E1D4	015D69
+E1D5	015D74
+E1D6	015D82
+E1D7	015D99
+E1D8	015D9D
+E1D9	018C73
+E1DA	015DB7
+E1DB	015DC5
+E1DC	015F73
+E1DD	015F77
+E1DE	015F82
+E1DF	015F87
+E1E0	015F89
+E1E1	015F8C
+E1E2	015F95
+E1E3	015F99
+E1E4	015F9C
+E1E5	015FA8
+E1E6	015FAD
+E1E7	015FB5
+E1E8	015FBC
+E1E9	018862
+E1EA	015F61
+E1EB	0172AD
+E1EC	0172B0
+E1ED	0172B4
+E1EE	0172B7
+E1EF	0172B8
+E1F0	0172C3
+E1F1	0172C1
+E1F2	0172CE
+E1F3	0172CD
+E1F4	0172D2
+E1F5	0172E8
+E1F6	0172EF
+E1F7	0172E9
+E1F8	0172F2
+E1F9	0172F4
+E1FA	0172F7
+E1FB	017301
+E1FC	0172F3
+E1FD	017303
+E1FE	0172FA
+E2A1	0172FB
+E2A2	017317
+E2A3	017313
+E2A4	017321
+E2A5	01730A
+E2A6	01731E
+E2A7	01731D
+E2A8	017315
+E2A9	017322
+E2AA	017339
+E2AB	017325
+E2AC	01732C
+E2AD	017338
+E2AE	017331
+E2AF	017350
+E2B0	01734D
+E2B1	017357
+E2B2	017360
+E2B3	01736C
+E2B4	01736F
+E2B5	01737E
+E2B6	01821B
+E2B7	015925
+E2B8	0198E7
+E2B9	015924
+E2BA	015902
+E2BB	019963
+E2BC	019967
+E2BD	019968
+E2BE	019969
+E2BF	01996A
+E2C0	01996B
+E2C1	01996C
+E2C2	019974
+E2C3	019977
+E2C4	01997D
+E2C5	019980
+E2C6	019984
+E2C7	019987
+E2C8	01998A
+E2C9	01998D
+E2CA	019990
+E2CB	019991
+E2CC	019993
+E2CD	019994
+E2CE	019995
+E2CF	015E80
+E2D0	015E91
+E2D1	015E8B
+E2D2	015E96
+E2D3	015EA5
+E2D4	015EA0
+E2D5	015EB9
+E2D6	015EB5
+E2D7	015EBE
+E2D8	015EB3
+E2D9	018D53
+E2DA	015ED2
+E2DB	015ED1
+E2DC	015EDB
+E2DD	015EE8
+E2DE	015EEA
+E2DF	0181BA
+E2E0	015FC4
+E2E1	015FC9
+E2E2	015FD6
+E2E3	015FCF
+E2E4	016003
+E2E5	015FEE
+E2E6	016004
+E2E7	015FE1
+E2E8	015FE4
+E2E9	015FFE
+E2EA	016005
+E2EB	016006
+E2EC	015FEA
+E2ED	015FED
+E2EE	015FF8
+E2EF	016019
+E2F0	016035
+E2F1	016026
+E2F2	01601B
+E2F3	01600F
+E2F4	01600D
+E2F5	016029
+E2F6	01602B
+E2F7	01600A
+E2F8	01603F
+E2F9	016021
+E2FA	016078
+E2FB	016079
+E2FC	01607B
+E2FD	01607A
+E2FE	016042
+E3A1	01606A
+E3A2	01607D
+E3A3	016096
+E3A4	01609A
+E3A5	0160AD
+E3A6	01609D
+E3A7	016083
+E3A8	016092
+E3A9	01608C
+E3AA	01609B
+E3AB	0160EC
+E3AC	0160BB
+E3AD	0160B1
+E3AE	0160DD
+E3AF	0160D8
+E3B0	0160C6
+E3B1	0160DA
+E3B2	0160B4
+E3B3	016120
+E3B4	016126
+E3B5	016115
+E3B6	016123
+E3B7	0160F4
+E3B8	016100
+E3B9	01610E
+E3BA	01612B
+E3BB	01614A
+E3BC	016175
+E3BD	0161AC
+E3BE	016194
+E3BF	0161A7
+E3C0	0161B7
+E3C1	0161D4
+E3C2	0161F5
+E3C3	015FDD
+E3C4	0196B3
+E3C5	0195E9
+E3C6	0195EB
+E3C7	0195F1
+E3C8	0195F3
+E3C9	0195F5
+E3CA	0195F6
+E3CB	0195FC
+E3CC	0195FE
+E3CD	019603
+E3CE	019604
+E3CF	019606
+E3D0	019608
+E3D1	01960A
+E3D2	01960B
+E3D3	01960C
+E3D4	01960D
+E3D5	01960F
+E3D6	019612
+E3D7	019615
+E3D8	019616
+E3D9	019617
+E3DA	019619
+E3DB	01961A
+E3DC	014E2C
+E3DD	01723F
+E3DE	016215
+E3DF	016C35
+E3E0	016C54
+E3E1	016C5C
+E3E2	016C4A
+E3E3	016CA3
+E3E4	016C85
+E3E5	016C90
+E3E6	016C94
+E3E7	016C8C
+E3E8	016C68
+E3E9	016C69
+E3EA	016C74
+E3EB	016C76
+E3EC	016C86
+E3ED	016CA9
+E3EE	016CD0
+E3EF	016CD4
+E3F0	016CAD
+E3F1	016CF7
+E3F2	016CF8
+E3F3	016CF1
+E3F4	016CD7
+E3F5	016CB2
+E3F6	016CE0
+E3F7	016CD6
+E3F8	016CFA
+E3F9	016CEB
+E3FA	016CEE
+E3FB	016CB1
+E3FC	016CD3
+E3FD	016CEF
+E3FE	016CFE
+E4A1	016D39
+E4A2	016D27
+E4A3	016D0C
+E4A4	016D43
+E4A5	016D48
+E4A6	016D07
+E4A7	016D04
+E4A8	016D19
+E4A9	016D0E
+E4AA	016D2B
+E4AB	016D4D
+E4AC	016D2E
+E4AD	016D35
+E4AE	016D1A
+E4AF	016D4F
+E4B0	016D52
+E4B1	016D54
+E4B2	016D33
+E4B3	016D91
+E4B4	016D6F
+E4B5	016D9E
+E4B6	016DA0
+E4B7	016D5E
+E4B8	016D93
+E4B9	016D94
+E4BA	016D5C
+E4BB	016D60
+E4BC	016D7C
+E4BD	016D63
+E4BE	016E1A
+E4BF	016DC7
+E4C0	016DC5
+E4C1	016DDE
+E4C2	016E0E
+E4C3	016DBF
+E4C4	016DE0
+E4C5	016E11
+E4C6	016DE6
+E4C7	016DDD
+E4C8	016DD9
+E4C9	016E16
+E4CA	016DAB
+E4CB	016E0C
+E4CC	016DAE
+E4CD	016E2B
+E4CE	016E6E
+E4CF	016E4E
+E4D0	016E6B
+E4D1	016EB2
+E4D2	016E5F
+E4D3	016E86
+E4D4	016E53
+E4D5	016E54
+E4D6	016E32
+E4D7	016E25
+E4D8	016E44
+E4D9	016EDF
+E4DA	016EB1
+E4DB	016E98
+E4DC	016EE0
+E4DD	016F2D
+E4DE	016EE2
+E4DF	016EA5
+E4E0	016EA7
+E4E1	016EBD
+E4E2	016EBB
+E4E3	016EB7
+E4E4	016ED7
+E4E5	016EB4
+E4E6	016ECF
+E4E7	016E8F
+E4E8	016EC2
+E4E9	016E9F
+E4EA	016F62
+E4EB	016F46
+E4EC	016F47
+E4ED	016F24
+E4EE	016F15
+E4EF	016EF9
+E4F0	016F2F
+E4F1	016F36
+E4F2	016F4B
+E4F3	016F74
+E4F4	016F2A
+E4F5	016F09
+E4F6	016F29
+E4F7	016F89
+E4F8	016F8D
+E4F9	016F8C
+E4FA	016F78
+E4FB	016F72
+E4FC	016F7C
+E4FD	016F7A
+E4FE	016FD1
+E5A1	016FC9
+E5A2	016FA7
+E5A3	016FB9
+E5A4	016FB6
+E5A5	016FC2
+E5A6	016FE1
+E5A7	016FEE
+E5A8	016FDE
+E5A9	016FE0
+E5AA	016FEF
+E5AB	01701A
+E5AC	017023
+E5AD	01701B
+E5AE	017039
+E5AF	017035
+E5B0	01704F
+E5B1	01705E
+E5B2	015B80
+E5B3	015B84
+E5B4	015B95
+E5B5	015B93
+E5B6	015BA5
+E5B7	015BB8
+E5B8	01752F
+E5B9	019A9E
+E5BA	016434
+E5BB	015BE4
+E5BC	015BEE
+E5BD	018930
+E5BE	015BF0
+E5BF	018E47
+E5C0	018B07
+E5C1	018FB6
+E5C2	018FD3
+E5C3	018FD5
+E5C4	018FE5
+E5C5	018FEE
+E5C6	018FE4
+E5C7	018FE9
+E5C8	018FE6
+E5C9	018FF3
+E5CA	018FE8
+E5CB	019005
+E5CC	019004
+E5CD	01900B
+E5CE	019026
+E5CF	019011
+E5D0	01900D
+E5D1	019016
+E5D2	019021
+E5D3	019035
+E5D4	019036
+E5D5	01902D
+E5D6	01902F
+E5D7	019044
+E5D8	019051
+E5D9	019052
+E5DA	019050
+E5DB	019068
+E5DC	019058
+E5DD	019062
+E5DE	01905B
+E5DF	0166B9
+E5E0	019074
+E5E1	01907D
+E5E2	019082
+E5E3	019088
+E5E4	019083
+E5E5	01908B
+E5E6	015F50
+E5E7	015F57
+E5E8	015F56
+E5E9	015F58
+E5EA	015C3B
+E5EB	0154AB
+E5EC	015C50
+E5ED	015C59
+E5EE	015B71
+E5EF	015C63
+E5F0	015C66
+E5F1	017FBC
+E5F2	015F2A
+E5F3	015F29
+E5F4	015F2D
+E5F5	018274
+E5F6	015F3C
+E5F7	019B3B
+E5F8	015C6E
+E5F9	015981
+E5FA	015983
+E5FB	01598D
+E5FC	0159A9
+E5FD	0159AA
+E5FE	0159A3
+E6A1	015997
+E6A2	0159CA
+E6A3	0159AB
+E6A4	01599E
+E6A5	0159A4
+E6A6	0159D2
+E6A7	0159B2
+E6A8	0159AF
+E6A9	0159D7
+E6AA	0159BE
+E6AB	015A05
+E6AC	015A06
+E6AD	0159DD
+E6AE	015A08
+E6AF	0159E3
+E6B0	0159D8
+E6B1	0159F9
+E6B2	015A0C
+E6B3	015A09
+E6B4	015A32
+E6B5	015A34
+E6B6	015A11
+E6B7	015A23
+E6B8	015A13
+E6B9	015A40
+E6BA	015A67
+E6BB	015A4A
+E6BC	015A55
+E6BD	015A3C
+E6BE	015A62
+E6BF	015A75
+E6C0	0180EC
+E6C1	015AAA
+E6C2	015A9B
+E6C3	015A77
+E6C4	015A7A
+E6C5	015ABE
+E6C6	015AEB
+E6C7	015AB2
+E6C8	015AD2
+E6C9	015AD4
+E6CA	015AB8
+E6CB	015AE0
+E6CC	015AE3
+E6CD	015AF1
+E6CE	015AD6
+E6CF	015AE6
+E6D0	015AD8
+E6D1	015ADC
+E6D2	015B09
+E6D3	015B17
+E6D4	015B16
+E6D5	015B32
+E6D6	015B37
+E6D7	015B40
+E6D8	015C15
+E6D9	015C1C
+E6DA	015B5A
+E6DB	015B65
+E6DC	015B73
+E6DD	015B51
+E6DE	015B53
+E6DF	015B62
+E6E0	019A75
+E6E1	019A77
+E6E2	019A78
+E6E3	019A7A
+E6E4	019A7F
+E6E5	019A7D
+E6E6	019A80
+E6E7	019A81
+E6E8	019A85
+E6E9	019A88
+E6EA	019A8A
+E6EB	019A90
+E6EC	019A92
+E6ED	019A93
+E6EE	019A96
+E6EF	019A98
+E6F0	019A9B
+E6F1	019A9C
+E6F2	019A9D
+E6F3	019A9F
+E6F4	019AA0
+E6F5	019AA2
+E6F6	019AA3
+E6F7	019AA5
+E6F8	019AA7
+E6F9	017E9F
+E6FA	017EA1
+E6FB	017EA3
+E6FC	017EA5
+E6FD	017EA8
+E6FE	017EA9
+E7A1	017EAD
+E7A2	017EB0
+E7A3	017EBE
+E7A4	017EC0
+E7A5	017EC1
+E7A6	017EC2
+E7A7	017EC9
+E7A8	017ECB
+E7A9	017ECC
+E7AA	017ED0
+E7AB	017ED4
+E7AC	017ED7
+E7AD	017EDB
+E7AE	017EE0
+E7AF	017EE1
+E7B0	017EE8
+E7B1	017EEB
+E7B2	017EEE
+E7B3	017EEF
+E7B4	017EF1
+E7B5	017EF2
+E7B6	017F0D
+E7B7	017EF6
+E7B8	017EFA
+E7B9	017EFB
+E7BA	017EFE
+E7BB	017F01
+E7BC	017F02
+E7BD	017F03
+E7BE	017F07
+E7BF	017F08
+E7C0	017F0B
+E7C1	017F0C
+E7C2	017F0F
+E7C3	017F11
+E7C4	017F12
+E7C5	017F17
+E7C6	017F19
+E7C7	017F1C
+E7C8	017F1B
+E7C9	017F1F
+E7CA	017F21
+E7CB	017F22
+E7CC	017F23
+E7CD	017F24
+E7CE	017F25
+E7CF	017F26
+E7D0	017F27
+E7D1	017F2A
+E7D2	017F2B
+E7D3	017F2C
+E7D4	017F2D
+E7D5	017F2F
+E7D6	017F30
+E7D7	017F31
+E7D8	017F32
+E7D9	017F33
+E7DA	017F35
+E7DB	015E7A
+E7DC	01757F
+E7DD	015DDB
+E7DE	01753E
+E7DF	019095
+E7E0	01738E
+E7E1	017391
+E7E2	0173AE
+E7E3	0173A2
+E7E4	01739F
+E7E5	0173CF
+E7E6	0173C2
+E7E7	0173D1
+E7E8	0173B7
+E7E9	0173B3
+E7EA	0173C0
+E7EB	0173C9
+E7EC	0173C8
+E7ED	0173E5
+E7EE	0173D9
+E7EF	01987C
+E7F0	01740A
+E7F1	0173E9
+E7F2	0173E7
+E7F3	0173DE
+E7F4	0173BA
+E7F5	0173F2
+E7F6	01740F
+E7F7	01742A
+E7F8	01745B
+E7F9	017426
+E7FA	017425
+E7FB	017428
+E7FC	017430
+E7FD	01742E
+E7FE	01742C
+E8A1	01741B
+E8A2	01741A
+E8A3	017441
+E8A4	01745C
+E8A5	017457
+E8A6	017455
+E8A7	017459
+E8A8	017477
+E8A9	01746D
+E8AA	01747E
+E8AB	01749C
+E8AC	01748E
+E8AD	017480
+E8AE	017481
+E8AF	017487
+E8B0	01748B
+E8B1	01749E
+E8B2	0174A8
+E8B3	0174A9
+E8B4	017490
+E8B5	0174A7
+E8B6	0174D2
+E8B7	0174BA
+E8B8	0197EA
+E8B9	0197EB
+E8BA	0197EC
+E8BB	01674C
+E8BC	016753
+E8BD	01675E
+E8BE	016748
+E8BF	016769
+E8C0	0167A5
+E8C1	016787
+E8C2	01676A
+E8C3	016773
+E8C4	016798
+E8C5	0167A7
+E8C6	016775
+E8C7	0167A8
+E8C8	01679E
+E8C9	0167AD
+E8CA	01678B
+E8CB	016777
+E8CC	01677C
+E8CD	0167F0
+E8CE	016809
+E8CF	0167D8
+E8D0	01680A
+E8D1	0167E9
+E8D2	0167B0
+E8D3	01680C
+E8D4	0167D9
+E8D5	0167B5
+E8D6	0167DA
+E8D7	0167B3
+E8D8	0167DD
+E8D9	016800
+E8DA	0167C3
+E8DB	0167B8
+E8DC	0167E2
+E8DD	01680E
+E8DE	0167C1
+E8DF	0167FD
+E8E0	016832
+E8E1	016833
+E8E2	016860
+E8E3	016861
+E8E4	01684E
+E8E5	016862
+E8E6	016844
+E8E7	016864
+E8E8	016883
+E8E9	01681D
+E8EA	016855
+E8EB	016866
+E8EC	016841
+E8ED	016867
+E8EE	016840
+E8EF	01683E
+E8F0	01684A
+E8F1	016849
+E8F2	016829
+E8F3	0168B5
+E8F4	01688F
+E8F5	016874
+E8F6	016877
+E8F7	016893
+E8F8	01686B
+E8F9	0168C2
+E8FA	01696E
+E8FB	0168FC
+E8FC	01691F
+E8FD	016920
+E8FE	0168F9
+E9A1	016924
+E9A2	0168F0
+E9A3	01690B
+E9A4	016901
+E9A5	016957
+E9A6	0168E3
+E9A7	016910
+E9A8	016971
+E9A9	016939
+E9AA	016960
+E9AB	016942
+E9AC	01695D
+E9AD	016984
+E9AE	01696B
+E9AF	016980
+E9B0	016998
+E9B1	016978
+E9B2	016934
+E9B3	0169CC
+E9B4	016987
+E9B5	016988
+E9B6	0169CE
+E9B7	016989
+E9B8	016966
+E9B9	016963
+E9BA	016979
+E9BB	01699B
+E9BC	0169A7
+E9BD	0169BB
+E9BE	0169AB
+E9BF	0169AD
+E9C0	0169D4
+E9C1	0169B1
+E9C2	0169C1
+E9C3	0169CA
+E9C4	0169DF
+E9C5	016995
+E9C6	0169E0
+E9C7	01698D
+E9C8	0169FF
+E9C9	016A2F
+E9CA	0169ED
+E9CB	016A17
+E9CC	016A18
+E9CD	016A65
+E9CE	0169F2
+E9CF	016A44
+E9D0	016A3E
+E9D1	016AA0
+E9D2	016A50
+E9D3	016A5B
+E9D4	016A35
+E9D5	016A8E
+E9D6	016A79
+E9D7	016A3D
+E9D8	016A28
+E9D9	016A58
+E9DA	016A7C
+E9DB	016A91
+E9DC	016A90
+E9DD	016AA9
+E9DE	016A97
+E9DF	016AAB
+E9E0	017337
+E9E1	017352
+E9E2	016B81
+E9E3	016B82
+E9E4	016B87
+E9E5	016B84
+E9E6	016B92
+E9E7	016B93
+E9E8	016B8D
+E9E9	016B9A
+E9EA	016B9B
+E9EB	016BA1
+E9EC	016BAA
+E9ED	018F6B
+E9EE	018F6D
+E9EF	018F71
+E9F0	018F72
+E9F1	018F73
+E9F2	018F75
+E9F3	018F76
+E9F4	018F78
+E9F5	018F77
+E9F6	018F79
+E9F7	018F7A
+E9F8	018F7C
+E9F9	018F7E
+E9FA	018F81
+E9FB	018F82
+E9FC	018F84
+E9FD	018F87
+E9FE	018F8B
+EAA1	018F8D
+EAA2	018F8E
+EAA3	018F8F
+EAA4	018F98
+EAA5	018F9A
+EAA6	018ECE
+EAA7	01620B
+EAA8	016217
+EAA9	01621B
+EAAA	01621F
+EAAB	016222
+EAAC	016221
+EAAD	016225
+EAAE	016224
+EAAF	01622C
+EAB0	0181E7
+EAB1	0174EF
+EAB2	0174F4
+EAB3	0174FF
+EAB4	01750F
+EAB5	017511
+EAB6	017513
+EAB7	016534
+EAB8	0165EE
+EAB9	0165EF
+EABA	0165F0
+EABB	01660A
+EABC	016619
+EABD	016772
+EABE	016603
+EABF	016615
+EAC0	016600
+EAC1	017085
+EAC2	0166F7
+EAC3	01661D
+EAC4	016634
+EAC5	016631
+EAC6	016636
+EAC7	016635
+EAC8	018006
+EAC9	01665F
+EACA	016654
+EACB	016641
+EACC	01664F
+EACD	016656
+EACE	016661
+EACF	016657
+EAD0	016677
+EAD1	016684
+EAD2	01668C
+EAD3	0166A7
+EAD4	01669D
+EAD5	0166BE
+EAD6	0166DB
+EAD7	0166DC
+EAD8	0166E6
+EAD9	0166E9
+EADA	018D32
+EADB	018D33
+EADC	018D36
+EADD	018D3B
+EADE	018D3D
+EADF	018D40
+EAE0	018D45
+EAE1	018D46
+EAE2	018D48
+EAE3	018D49
+EAE4	018D47
+EAE5	018D4D
+EAE6	018D55
+EAE7	018D59
+EAE8	0189C7
+EAE9	0189CA
+EAEA	0189CB
+EAEB	0189CC
+EAEC	0189CE
+EAED	0189CF
+EAEE	0189D0
+EAEF	0189D1
+EAF0	01726E
+EAF1	01729F
+EAF2	01725D
+EAF3	017266
+EAF4	01726F
+EAF5	01727E
+EAF6	01727F
+EAF7	017284
+EAF8	01728B
+EAF9	01728D
+EAFA	01728F
+EAFB	017292
+EAFC	016308
+EAFD	016332
+EAFE	0163B0
+EBA1	01643F
+EBA2	0164D8
+EBA3	018004
+EBA4	016BEA
+EBA5	016BF3
+EBA6	016BFD
+EBA7	016BF5
+EBA8	016BF9
+EBA9	016C05
+EBAA	016C07
+EBAB	016C06
+EBAC	016C0D
+EBAD	016C15
+EBAE	016C18
+EBAF	016C19
+EBB0	016C1A
+EBB1	016C21
+EBB2	016C29
+EBB3	016C24
+EBB4	016C2A
+EBB5	016C32
+EBB6	016535
+EBB7	016555
+EBB8	01656B
+EBB9	01724D
+EBBA	017252
+EBBB	017256
+EBBC	017230
+EBBD	018662
+EBBE	015216
+EBBF	01809F
+EBC0	01809C
+EBC1	018093
+EBC2	0180BC
+EBC3	01670A
+EBC4	0180BD
+EBC5	0180B1
+EBC6	0180AB
+EBC7	0180AD
+EBC8	0180B4
+EBC9	0180B7
+EBCA	0180E7
+EBCB	0180E8
+EBCC	0180E9
+EBCD	0180EA
+EBCE	0180DB
+EBCF	0180C2
+EBD0	0180C4
+EBD1	0180D9
+EBD2	0180CD
+EBD3	0180D7
+EBD4	016710
+EBD5	0180DD
+EBD6	0180EB
+EBD7	0180F1
+EBD8	0180F4
+EBD9	0180ED
+EBDA	01810D
+EBDB	01810E
+EBDC	0180F2
+EBDD	0180FC
+EBDE	016715
+EBDF	018112
+EBE0	018C5A
+EBE1	018136
+EBE2	01811E
+EBE3	01812C
+EBE4	018118
+EBE5	018132
+EBE6	018148
+EBE7	01814C
+EBE8	018153
+EBE9	018174
+EBEA	018159
+EBEB	01815A
+EBEC	018171
+EBED	018160
+EBEE	018169
+EBEF	01817C
+EBF0	01817D
+EBF1	01816D
+EBF2	018167
+EBF3	01584D
+EBF4	015AB5
+EBF5	018188
+EBF6	018182
+EBF7	018191
+EBF8	016ED5
+EBF9	0181A3
+EBFA	0181AA
+EBFB	0181CC
+EBFC	016726
+EBFD	0181CA
+EBFE	0181BB
+ECA1	0181C1
+ECA2	0181A6
+ECA3	016B24
+ECA4	016B37
+ECA5	016B39
+ECA6	016B43
+ECA7	016B46
+ECA8	016B59
+ECA9	0198D1
+ECAA	0198D2
+ECAB	0198D3
+ECAC	0198D5
+ECAD	0198D9
+ECAE	0198DA
+ECAF	016BB3
+ECB0	015F40
+ECB1	016BC2
+ECB2	0189F3
+ECB3	016590
+ECB4	019F51
+ECB5	016593
+ECB6	0165BC
+ECB7	0165C6
+ECB8	0165C4
+ECB9	0165C3
+ECBA	0165CC
+ECBB	0165CE
+ECBC	0165D2
+ECBD	0165D6
+ECBE	017080
+ECBF	01709C
+ECC0	017096
+ECC1	01709D
+ECC2	0170BB
+ECC3	0170C0
+ECC4	0170B7
+ECC5	0170AB
+ECC6	0170B1
+ECC7	0170E8
+ECC8	0170CA
+ECC9	017110
+ECCA	017113
+ECCB	017116
+ECCC	01712F
+ECCD	017131
+ECCE	017173
+ECCF	01715C
+ECD0	017168
+ECD1	017145
+ECD2	017172
+ECD3	01714A
+ECD4	017178
+ECD5	01717A
+ECD6	017198
+ECD7	0171B3
+ECD8	0171B5
+ECD9	0171A8
+ECDA	0171A0
+ECDB	0171E0
+ECDC	0171D4
+ECDD	0171E7
+ECDE	0171F9
+ECDF	01721D
+ECE0	017228
+ECE1	01706C
+ECE2	017118
+ECE3	017166
+ECE4	0171B9
+ECE5	01623E
+ECE6	01623D
+ECE7	016243
+ECE8	016248
+ECE9	016249
+ECEA	01793B
+ECEB	017940
+ECEC	017946
+ECED	017949
+ECEE	01795B
+ECEF	01795C
+ECF0	017953
+ECF1	01795A
+ECF2	017962
+ECF3	017957
+ECF4	017960
+ECF5	01796F
+ECF6	017967
+ECF7	01797A
+ECF8	017985
+ECF9	01798A
+ECFA	01799A
+ECFB	0179A7
+ECFC	0179B3
+ECFD	015FD1
+ECFE	015FD0
+EDA1	01603C
+EDA2	01605D
+EDA3	01605A
+EDA4	016067
+EDA5	016041
+EDA6	016059
+EDA7	016063
+EDA8	0160AB
+EDA9	016106
+EDAA	01610D
+EDAB	01615D
+EDAC	0161A9
+EDAD	01619D
+EDAE	0161CB
+EDAF	0161D1
+EDB0	016206
+EDB1	018080
+EDB2	01807F
+EDB3	016C93
+EDB4	016CF6
+EDB5	016DFC
+EDB6	0177F6
+EDB7	0177F8
+EDB8	017800
+EDB9	017809
+EDBA	017817
+EDBB	017818
+EDBC	017811
+EDBD	0165AB
+EDBE	01782D
+EDBF	01781C
+EDC0	01781D
+EDC1	017839
+EDC2	01783A
+EDC3	01783B
+EDC4	01781F
+EDC5	01783C
+EDC6	017825
+EDC7	01782C
+EDC8	017823
+EDC9	017829
+EDCA	01784E
+EDCB	01786D
+EDCC	017856
+EDCD	017857
+EDCE	017826
+EDCF	017850
+EDD0	017847
+EDD1	01784C
+EDD2	01786A
+EDD3	01789B
+EDD4	017893
+EDD5	01789A
+EDD6	017887
+EDD7	01789C
+EDD8	0178A1
+EDD9	0178A3
+EDDA	0178B2
+EDDB	0178B9
+EDDC	0178A5
+EDDD	0178D4
+EDDE	0178D9
+EDDF	0178C9
+EDE0	0178EC
+EDE1	0178F2
+EDE2	017905
+EDE3	0178F4
+EDE4	017913
+EDE5	017924
+EDE6	01791E
+EDE7	017934
+EDE8	019F9B
+EDE9	019EF9
+EDEA	019EFB
+EDEB	019EFC
+EDEC	0176F1
+EDED	017704
+EDEE	01770D
+EDEF	0176F9
+EDF0	017707
+EDF1	017708
+EDF2	01771A
+EDF3	017722
+EDF4	017719
+EDF5	01772D
+EDF6	017726
+EDF7	017735
+EDF8	017738
+EDF9	017750
+EDFA	017751
+EDFB	017747
+EDFC	017743
+EDFD	01775A
+EDFE	017768
+EEA1	017762
+EEA2	017765
+EEA3	01777F
+EEA4	01778D
+EEA5	01777D
+EEA6	017780
+EEA7	01778C
+EEA8	017791
+EEA9	01779F
+EEAA	0177A0
+EEAB	0177B0
+EEAC	0177B5
+EEAD	0177BD
+EEAE	01753A
+EEAF	017540
+EEB0	01754E
+EEB1	01754B
+EEB2	017548
+EEB3	01755B
+EEB4	017572
+EEB5	017579
+EEB6	017583
+EEB7	017F58
+EEB8	017F61
+EEB9	017F5F
+EEBA	018A48
+EEBB	017F68
+EEBC	017F74
+EEBD	017F71
+EEBE	017F79
+EEBF	017F81
+EEC0	017F7E
+EEC1	0176CD
+EEC2	0176E5
+EEC3	018832
+EEC4	019485
+EEC5	019486
+EEC6	019487
+EEC7	01948B
+EEC8	01948A
+EEC9	01948C
+EECA	01948D
+EECB	01948F
+EECC	019490
+EECD	019494
+EECE	019497
+EECF	019495
+EED0	01949A
+EED1	01949B
+EED2	01949C
+EED3	0194A3
+EED4	0194A4
+EED5	0194AB
+EED6	0194AA
+EED7	0194AD
+EED8	0194AC
+EED9	0194AF
+EEDA	0194B0
+EEDB	0194B2
+EEDC	0194B4
+EEDD	0194B6
+EEDE	0194B7
+EEDF	0194B8
+EEE0	0194B9
+EEE1	0194BA
+EEE2	0194BC
+EEE3	0194BD
+EEE4	0194BF
+EEE5	0194C4
+EEE6	0194C8
+EEE7	0194C9
+EEE8	0194CA
+EEE9	0194CB
+EEEA	0194CC
+EEEB	0194CD
+EEEC	0194CE
+EEED	0194D0
+EEEE	0194D1
+EEEF	0194D2
+EEF0	0194D5
+EEF1	0194D6
+EEF2	0194D7
+EEF3	0194D9
+EEF4	0194D8
+EEF5	0194DB
+EEF6	0194DE
+EEF7	0194DF
+EEF8	0194E0
+EEF9	0194E2
+EEFA	0194E4
+EEFB	0194E5
+EEFC	0194E7
+EEFD	0194E8
+EEFE	0194EA
+EFA1	0194E9
+EFA2	0194EB
+EFA3	0194EE
+EFA4	0194EF
+EFA5	0194F3
+EFA6	0194F4
+EFA7	0194F5
+EFA8	0194F7
+EFA9	0194F9
+EFAA	0194FC
+EFAB	0194FD
+EFAC	0194FF
+EFAD	019503
+EFAE	019502
+EFAF	019506
+EFB0	019507
+EFB1	019509
+EFB2	01950A
+EFB3	01950D
+EFB4	01950E
+EFB5	01950F
+EFB6	019512
+EFB7	019513
+EFB8	019514
+EFB9	019515
+EFBA	019516
+EFBB	019518
+EFBC	01951B
+EFBD	01951D
+EFBE	01951E
+EFBF	01951F
+EFC0	019522
+EFC1	01952A
+EFC2	01952B
+EFC3	019529
+EFC4	01952C
+EFC5	019531
+EFC6	019532
+EFC7	019534
+EFC8	019536
+EFC9	019537
+EFCA	019538
+EFCB	01953C
+EFCC	01953E
+EFCD	01953F
+EFCE	019542
+EFCF	019535
+EFD0	019544
+EFD1	019545
+EFD2	019546
+EFD3	019549
+EFD4	01954C
+EFD5	01954E
+EFD6	01954F
+EFD7	019552
+EFD8	019553
+EFD9	019554
+EFDA	019556
+EFDB	019557
+EFDC	019558
+EFDD	019559
+EFDE	01955B
+EFDF	01955E
+EFE0	01955F
+EFE1	01955D
+EFE2	019561
+EFE3	019562
+EFE4	019564
+EFE5	019565
+EFE6	019566
+EFE7	019567
+EFE8	019568
+EFE9	019569
+EFEA	01956A
+EFEB	01956B
+EFEC	01956C
+EFED	01956F
+EFEE	019571
+EFEF	019572
+EFF0	019573
+EFF1	01953A
+EFF2	0177E7
+EFF3	0177EC
+EFF4	0196C9
+EFF5	0179D5
+EFF6	0179ED
+EFF7	0179E3
+EFF8	0179EB
+EFF9	017A06
+EFFA	015D47
+EFFB	017A03
+EFFC	017A02
+EFFD	017A1E
+EFFE	017A14
+F0A1	017A39
+F0A2	017A37
+F0A3	017A51
+F0A4	019ECF
+F0A5	0199A5
+F0A6	017A70
+F0A7	017688
+F0A8	01768E
+F0A9	017693
+F0AA	017699
+F0AB	0176A4
+F0AC	0174DE
+F0AD	0174E0
+F0AE	01752C
+F0AF	019E20
+F0B0	019E22
+F0B1	019E28
+F0B2	019E29
+F0B3	019E2A
+F0B4	019E2B
+F0B5	019E2C
+F0B6	019E32
+F0B7	019E31
+F0B8	019E36
+F0B9	019E38
+F0BA	019E37
+F0BB	019E39
+F0BC	019E3A
+F0BD	019E3E
+F0BE	019E41
+F0BF	019E42
+F0C0	019E44
+F0C1	019E46
+F0C2	019E47
+F0C3	019E48
+F0C4	019E49
+F0C5	019E4B
+F0C6	019E4C
+F0C7	019E4E
+F0C8	019E51
+F0C9	019E55
+F0CA	019E57
+F0CB	019E5A
+F0CC	019E5B
+F0CD	019E5C
+F0CE	019E5E
+F0CF	019E63
+F0D0	019E66
+F0D1	019E67
+F0D2	019E68
+F0D3	019E69
+F0D4	019E6A
+F0D5	019E6B
+F0D6	019E6C
+F0D7	019E71
+F0D8	019E6D
+F0D9	019E73
+F0DA	017592
+F0DB	017594
+F0DC	017596
+F0DD	0175A0
+F0DE	01759D
+F0DF	0175AC
+F0E0	0175A3
+F0E1	0175B3
+F0E2	0175B4
+F0E3	0175B8
+F0E4	0175C4
+F0E5	0175B1
+F0E6	0175B0
+F0E7	0175C3
+F0E8	0175C2
+F0E9	0175D6
+F0EA	0175CD
+F0EB	0175E3
+F0EC	0175E8
+F0ED	0175E6
+F0EE	0175E4
+F0EF	0175EB
+F0F0	0175E7
+F0F1	017603
+F0F2	0175F1
+F0F3	0175FC
+F0F4	0175FF
+F0F5	017610
+F0F6	017600
+F0F7	017605
+F0F8	01760C
+F0F9	017617
+F0FA	01760A
+F0FB	017625
+F0FC	017618
+F0FD	017615
+F0FE	017619
+F1A1	01761B
+F1A2	01763C
+F1A3	017622
+F1A4	017620
+F1A5	017640
+F1A6	01762D
+F1A7	017630
+F1A8	01763F
+F1A9	017635
+F1AA	017643
+F1AB	01763E
+F1AC	017633
+F1AD	01764D
+F1AE	01765E
+F1AF	017654
+F1B0	01765C
+F1B1	017656
+F1B2	01766B
+F1B3	01766F
+F1B4	017FCA
+F1B5	017AE6
+F1B6	017A78
+F1B7	017A79
+F1B8	017A80
+F1B9	017A86
+F1BA	017A88
+F1BB	017A95
+F1BC	017AA6
+F1BD	017AA0
+F1BE	017AAC
+F1BF	017AA8
+F1C0	017AAD
+F1C1	017AB3
+F1C2	018864
+F1C3	018869
+F1C4	018872
+F1C5	01887D
+F1C6	01887F
+F1C7	018882
+F1C8	0188A2
+F1C9	0188C6
+F1CA	0188B7
+F1CB	0188BC
+F1CC	0188C9
+F1CD	0188E2
+F1CE	0188CE
+F1CF	0188E3
+F1D0	0188E5
+F1D1	0188F1
+F1D2	01891A
+F1D3	0188FC
+F1D4	0188E8
+F1D5	0188FE
+F1D6	0188F0
+F1D7	018921
+F1D8	018919
+F1D9	018913
+F1DA	01891B
+F1DB	01890A
+F1DC	018934
+F1DD	01892B
+F1DE	018936
+F1DF	018941
+F1E0	018966
+F1E1	01897B
+F1E2	01758B
+F1E3	0180E5
+F1E4	0176B2
+F1E5	0176B4
+F1E6	0177DC
+F1E7	018012
+F1E8	018014
+F1E9	018016
+F1EA	01801C
+F1EB	018020
+F1EC	018022
+F1ED	018025
+F1EE	018026
+F1EF	018027
+F1F0	018029
+F1F1	018028
+F1F2	018031
+F1F3	01800B
+F1F4	018035
+F1F5	018043
+F1F6	018046
+F1F7	01804D
+F1F8	018052
+F1F9	018069
+F1FA	018071
+F1FB	018983
+F1FC	019878
+F1FD	019880
+F1FE	019883
+F2A1	019889
+F2A2	01988C
+F2A3	01988D
+F2A4	01988F
+F2A5	019894
+F2A6	01989A
+F2A7	01989B
+F2A8	01989E
+F2A9	01989F
+F2AA	0198A1
+F2AB	0198A2
+F2AC	0198A5
+F2AD	0198A6
+F2AE	01864D
+F2AF	018654
+F2B0	01866C
+F2B1	01866E
+F2B2	01867F
+F2B3	01867A
+F2B4	01867C
+F2B5	01867B
+F2B6	0186A8
+F2B7	01868D
+F2B8	01868B
+F2B9	0186AC
+F2BA	01869D
+F2BB	0186A7
+F2BC	0186A3
+F2BD	0186AA
+F2BE	018693
+F2BF	0186A9
+F2C0	0186B6
+F2C1	0186C4
+F2C2	0186B5
+F2C3	0186CE
+F2C4	0186B0
+F2C5	0186BA
+F2C6	0186B1
+F2C7	0186AF
+F2C8	0186C9
+F2C9	0186CF
+F2CA	0186B4
+F2CB	0186E9
+F2CC	0186F1
+F2CD	0186F2
+F2CE	0186ED
+F2CF	0186F3
+F2D0	0186D0
+F2D1	018713
+F2D2	0186DE
+F2D3	0186F4
+F2D4	0186DF
+F2D5	0186D8
+F2D6	0186D1
+F2D7	018703
+F2D8	018707
+F2D9	0186F8
+F2DA	018708
+F2DB	01870A
+F2DC	01870D
+F2DD	018709
+F2DE	018723
+F2DF	01873B
+F2E0	01871E
+F2E1	018725
+F2E2	01872E
+F2E3	01871A
+F2E4	01873E
+F2E5	018748
+F2E6	018734
+F2E7	018731
+F2E8	018729
+F2E9	018737
+F2EA	01873F
+F2EB	018782
+F2EC	018722
+F2ED	01877D
+F2EE	01877E
+F2EF	01877B
+F2F0	018760
+F2F1	018770
+F2F2	01874C
+F2F3	01876E
+F2F4	01878B
+F2F5	018753
+F2F6	018763
+F2F7	01877C
+F2F8	018764
+F2F9	018759
+F2FA	018765
+F2FB	018793
+F2FC	0187AF
+F2FD	0187A8
+F2FE	0187D2
+F3A1	0187C6
+F3A2	018788
+F3A3	018785
+F3A4	0187AD
+F3A5	018797
+F3A6	018783
+F3A7	0187AB
+F3A8	0187E5
+F3A9	0187AC
+F3AA	0187B5
+F3AB	0187B3
+F3AC	0187CB
+F3AD	0187D3
+F3AE	0187BD
+F3AF	0187D1
+F3B0	0187C0
+F3B1	0187CA
+F3B2	0187DB
+F3B3	0187EA
+F3B4	0187E0
+F3B5	0187EE
+F3B6	018816
+F3B7	018813
+F3B8	0187FE
+F3B9	01880A
+F3BA	01881B
+F3BB	018821
+F3BC	018839
+F3BD	01883C
+F3BE	017F36
+F3BF	017F42
+F3C0	017F44
+F3C1	017F45
+F3C2	018210
+F3C3	017AFA
+F3C4	017AFD
+F3C5	017B08
+F3C6	017B03
+F3C7	017B04
+F3C8	017B15
+F3C9	017B0A
+F3CA	017B2B
+F3CB	017B0F
+F3CC	017B47
+F3CD	017B38
+F3CE	017B2A
+F3CF	017B19
+F3D0	017B2E
+F3D1	017B31
+F3D2	017B20
+F3D3	017B25
+F3D4	017B24
+F3D5	017B33
+F3D6	017B3E
+F3D7	017B1E
+F3D8	017B58
+F3D9	017B5A
+F3DA	017B45
+F3DB	017B75
+F3DC	017B4C
+F3DD	017B5D
+F3DE	017B60
+F3DF	017B6E
+F3E0	017B7B
+F3E1	017B62
+F3E2	017B72
+F3E3	017B71
+F3E4	017B90
+F3E5	017BA6
+F3E6	017BA7
+F3E7	017BB8
+F3E8	017BAC
+F3E9	017B9D
+F3EA	017BA8
+F3EB	017B85
+F3EC	017BAA
+F3ED	017B9C
+F3EE	017BA2
+F3EF	017BAB
+F3F0	017BB4
+F3F1	017BD1
+F3F2	017BC1
+F3F3	017BCC
+F3F4	017BDD
+F3F5	017BDA
+F3F6	017BE5
+F3F7	017BE6
+F3F8	017BEA
+F3F9	017C0C
+F3FA	017BFE
+F3FB	017BFC
+F3FC	017C0F
+F3FD	017C16
+F3FE	017C0B
+F4A1	017C1F
+F4A2	017C2A
+F4A3	017C26
+F4A4	017C38
+F4A5	017C41
+F4A6	017C40
+F4A7	0181FE
+F4A8	018201
+F4A9	018202
+F4AA	018204
+F4AB	0181EC
+F4AC	018844
+F4AD	018221
+F4AE	018222
+F4AF	018223
+F4B0	01822D
+F4B1	01822F
+F4B2	018228
+F4B3	01822B
+F4B4	018238
+F4B5	01823B
+F4B6	018233
+F4B7	018234
+F4B8	01823E
+F4B9	018244
+F4BA	018249
+F4BB	01824B
+F4BC	01824F
+F4BD	01825A
+F4BE	01825F
+F4BF	018268
+F4C0	01887E
+F4C1	018885
+F4C2	018888
+F4C3	0188D8
+F4C4	0188DF
+F4C5	01895E
+F4C6	017F9D
+F4C7	017F9F
+F4C8	017FA7
+F4C9	017FAF
+F4CA	017FB0
+F4CB	017FB2
+F4CC	017C7C
+F4CD	016549
+F4CE	017C91
+F4CF	017C9D
+F4D0	017C9C
+F4D1	017C9E
+F4D2	017CA2
+F4D3	017CB2
+F4D4	017CBC
+F4D5	017CBD
+F4D6	017CC1
+F4D7	017CC7
+F4D8	017CCC
+F4D9	017CCD
+F4DA	017CC8
+F4DB	017CC5
+F4DC	017CD7
+F4DD	017CE8
+F4DE	01826E
+F4DF	0166A8
+F4E0	017FBF
+F4E1	017FCE
+F4E2	017FD5
+F4E3	017FE5
+F4E4	017FE1
+F4E5	017FE6
+F4E6	017FE9
+F4E7	017FEE
+F4E8	017FF3
+F4E9	017CF8
+F4EA	017D77
+F4EB	017DA6
+F4EC	017DAE
+F4ED	017E47
+F4EE	017E9B
+F4EF	019EB8
+F4F0	019EB4
+F4F1	018D73
+F4F2	018D84
+F4F3	018D94
+F4F4	018D91
+F4F5	018DB1
+F4F6	018D67
+F4F7	018D6D
+F4F8	018C47
+F4F9	018C49
+F4FA	01914A
+F4FB	019150
+F4FC	01914E
+F4FD	01914F
+F4FE	019164
+F5A1	019162
+F5A2	019161
+F5A3	019170
+F5A4	019169
+F5A5	01916F
+F5A6	01917D
+F5A7	01917E
+F5A8	019172
+F5A9	019174
+F5AA	019179
+F5AB	01918C
+F5AC	019185
+F5AD	019190
+F5AE	01918D
+F5AF	019191
+F5B0	0191A2
+F5B1	0191A3
+F5B2	0191AA
+F5B3	0191AD
+F5B4	0191AE
+F5B5	0191AF
+F5B6	0191B5
+F5B7	0191B4
+F5B8	0191BA
+F5B9	018C55
+F5BA	019E7E
+F5BB	018DB8
+F5BC	018DEB
+F5BD	018E05
+F5BE	018E59
+F5BF	018E69
+F5C0	018DB5
+F5C1	018DBF
+F5C2	018DBC
+F5C3	018DBA
+F5C4	018DC4
+F5C5	018DD6
+F5C6	018DD7
+F5C7	018DDA
+F5C8	018DDE
+F5C9	018DCE
+F5CA	018DCF
+F5CB	018DDB
+F5CC	018DC6
+F5CD	018DEC
+F5CE	018DF7
+F5CF	018DF8
+F5D0	018DE3
+F5D1	018DF9
+F5D2	018DFB
+F5D3	018DE4
+F5D4	018E09
+F5D5	018DFD
+F5D6	018E14
+F5D7	018E1D
+F5D8	018E1F
+F5D9	018E2C
+F5DA	018E2E
+F5DB	018E23
+F5DC	018E2F
+F5DD	018E3A
+F5DE	018E40
+F5DF	018E39
+F5E0	018E35
+F5E1	018E3D
+F5E2	018E31
+F5E3	018E49
+F5E4	018E41
+F5E5	018E42
+F5E6	018E51
+F5E7	018E52
+F5E8	018E4A
+F5E9	018E70
+F5EA	018E76
+F5EB	018E7C
+F5EC	018E6F
+F5ED	018E74
+F5EE	018E85
+F5EF	018E8F
+F5F0	018E94
+F5F1	018E90
+F5F2	018E9C
+F5F3	018E9E
+F5F4	018C78
+F5F5	018C82
+F5F6	018C8A
+F5F7	018C85
+F5F8	018C98
+F5F9	018C94
+F5FA	01659B
+F5FB	0189D6
+F5FC	0189DE
+F5FD	0189DA
+F5FE	0189DC
+F6A1	0189E5
+F6A2	0189EB
+F6A3	0189EF
+F6A4	018A3E
+F6A5	018B26
+F6A6	019753
+F6A7	0196E9
+F6A8	0196F3
+F6A9	0196EF
+F6AA	019706
+F6AB	019701
+F6AC	019708
+F6AD	01970F
+F6AE	01970E
+F6AF	01972A
+F6B0	01972D
+F6B1	019730
+F6B2	01973E
+F6B3	019F80
+F6B4	019F83
+F6B5	019F85
+F6B6	019F86
+F6B7	019F87
+F6B8	019F88
+F6B9	019F89
+F6BA	019F8A
+F6BB	019F8C
+F6BC	019EFE
+F6BD	019F0B
+F6BE	019F0D
+F6BF	0196B9
+F6C0	0196BC
+F6C1	0196BD
+F6C2	0196CE
+F6C3	0196D2
+F6C4	0177BF
+F6C5	0196E0
+F6C6	01928E
+F6C7	0192AE
+F6C8	0192C8
+F6C9	01933E
+F6CA	01936A
+F6CB	0193CA
+F6CC	01938F
+F6CD	01943E
+F6CE	01946B
+F6CF	019C7F
+F6D0	019C82
+F6D1	019C85
+F6D2	019C86
+F6D3	019C87
+F6D4	019C88
+F6D5	017A23
+F6D6	019C8B
+F6D7	019C8E
+F6D8	019C90
+F6D9	019C91
+F6DA	019C92
+F6DB	019C94
+F6DC	019C95
+F6DD	019C9A
+F6DE	019C9B
+F6DF	019C9E
+F6E0	019C9F
+F6E1	019CA0
+F6E2	019CA1
+F6E3	019CA2
+F6E4	019CA3
+F6E5	019CA5
+F6E6	019CA6
+F6E7	019CA7
+F6E8	019CA8
+F6E9	019CA9
+F6EA	019CAB
+F6EB	019CAD
+F6EC	019CAE
+F6ED	019CB0
+F6EE	019CB1
+F6EF	019CB2
+F6F0	019CB3
+F6F1	019CB4
+F6F2	019CB5
+F6F3	019CB6
+F6F4	019CB7
+F6F5	019CBA
+F6F6	019CBB
+F6F7	019CBC
+F6F8	019CBD
+F6F9	019CC4
+F6FA	019CC5
+F6FB	019CC6
+F6FC	019CC7
+F6FD	019CCA
+F6FE	019CCB
+F7A1	019CCC
+F7A2	019CCD
+F7A3	019CCE
+F7A4	019CCF
+F7A5	019CD0
+F7A6	019CD3
+F7A7	019CD4
+F7A8	019CD5
+F7A9	019CD7
+F7AA	019CD8
+F7AB	019CD9
+F7AC	019CDC
+F7AD	019CDD
+F7AE	019CDF
+F7AF	019CE2
+F7B0	01977C
+F7B1	019785
+F7B2	019791
+F7B3	019792
+F7B4	019794
+F7B5	0197AF
+F7B6	0197AB
+F7B7	0197A3
+F7B8	0197B2
+F7B9	0197B4
+F7BA	019AB1
+F7BB	019AB0
+F7BC	019AB7
+F7BD	019E58
+F7BE	019AB6
+F7BF	019ABA
+F7C0	019ABC
+F7C1	019AC1
+F7C2	019AC0
+F7C3	019AC5
+F7C4	019AC2
+F7C5	019ACB
+F7C6	019ACC
+F7C7	019AD1
+F7C8	019B45
+F7C9	019B43
+F7CA	019B47
+F7CB	019B49
+F7CC	019B48
+F7CD	019B4D
+F7CE	019B51
+F7CF	0198E8
+F7D0	01990D
+F7D1	01992E
+F7D2	019955
+F7D3	019954
+F7D4	019ADF
+F7D5	019AE1
+F7D6	019AE6
+F7D7	019AEF
+F7D8	019AEB
+F7D9	019AFB
+F7DA	019AED
+F7DB	019AF9
+F7DC	019B08
+F7DD	019B0F
+F7DE	019B13
+F7DF	019B1F
+F7E0	019B23
+F7E1	019EBD
+F7E2	019EBE
+F7E3	017E3B
+F7E4	019E82
+F7E5	019E87
+F7E6	019E88
+F7E7	019E8B
+F7E8	019E92
+F7E9	0193D6
+F7EA	019E9D
+F7EB	019E9F
+F7EC	019EDB
+F7ED	019EDC
+F7EE	019EDD
+F7EF	019EE0
+F7F0	019EDF
+F7F1	019EE2
+F7F2	019EE9
+F7F3	019EE7
+F7F4	019EE5
+F7F5	019EEA
+F7F6	019EEF
+F7F7	019F22
+F7F8	019F2C
+F7F9	019F2F
+F7FA	019F39
+F7FB	019F37
+F7FC	019F3D
+F7FD	019F3E
+F7FE	019F44
diff --git a/modules/to/GB2312-TRANS.txt b/modules/to/GB2312-TRANS.txt
index b391508..13e892b 100644
--- a/modules/to/GB2312-TRANS.txt
+++ b/modules/to/GB2312-TRANS.txt
@@ -1,5822 +1,5822 @@
-01020003	4752
-0102000B	5549
-01020019	4076
-0102001A	323B
-01020024	3222
-01020029	4D21
-01020066	5650
-010200DE	4071
-01020107	4052
-01020121	4E65
-01020162	5971
-01020169	4A6B
-01020187	3042
-0102018C	5339
-010201B0	586B
-010201DA	3C57
-010201FE	505D
-0102020E	335E
-01020213	4129
-01020223	404F
-01020255	4A39
-01020256	5930
-0102026E	3E6B
-01020293	3078
-01020296	407D
-010202B1	3A72
-010202B3	3163
-010202B6	6B74
-010202BE	6E25
-010202D2	437C
-010202E3	5250
-010202FC	5936
-0102033C	525A
-0102035F	3F49
-0102036C	593E
-0102037B	5931
-010203D7	4145
-010203EC	5937
-0102041A	5933
-0102041B	5958
-0102043F	5E30
-01020472	595D
-0102047D	3364
-01020486	3679
-010204B0	6655
-010204B1	4627
-01020540	5868
-01020545	5459
-01020549	5128
-0102054B	3261
-0102054D	3959
-01020575	3F3A
-010205A0	3945
-01020615	4E75
-01020621	415D
-01020624	4064
-01020632	3473
-01020636	3771
-01020675	3F5A
-01020678	384A
-01020692	335D
-010206D2	585A
-010206EC	504C
-01020707	3F4C
-01020713	4C5E
-01020728	5B40
-01020738	3C41
-0102073A	4150
-0102073E	5863
-010207AB	3F4C
-01020832	4126
-010208C1	404D
-010208D9	512E
-010208DE	3E7C
-010208E9	543C
-010208F5	596B
-0102092C	584E
-01020971	5442
-01020983	5826
-01020984	3B5C
-01020987	3A25
-01020993	5827
-010209B6	386F
-010209DE	5557
-010209E8	3E4C
-010209E9	3B5A
-010209EA	5855
-01020A0D	4764
-01020A1E	4764
-01020A2E	5846
-01020A30	452E
-01020A5F	333D
-01020A6F	3466
-01020A9E	5848
-01020AA5	542D
-01020AEA	4179
-01020B3B	376E
-01020B56	3852
-01020BA2	5352
-01020BA6	5559
-01020BAF	4C28
-01020BB7	3C2A
-01020BC1	5763
-01020BD2	3B2F
-01020C69	3E7D
-01020C6F	5778
-01020C8B	757E
-01020C8E	374D
-01020CC5	4E4A
-01020D1F	5F63
-01020D2A	6027
-01020D2E	4567
-01020D40	4A26
-01020D41	7645
-01020D42	5F78
-01020D52	5F7D
-01020D70	5F58
-01020D72	5B41
-01020DBA	5F6C
-01020DC3	6032
-01020DD5	3435
-01020DF8	602F
-01020ED4	6065
-01020EDB	6055
-01020EEF	5F6E
-01020F15	5F42
-01020F6C	4458
-01020F7F	5F49
-01020F85	522A
-01020F96	4677
-01020FC8	6031
-01021050	6049
-0102113A	6051
-01021170	6050
-010211A1	4670
-010211C3	5258
-010211CA	4654
-010211E1	443F
-010211EA	3D51
-01021215	4826
-0102122D	537C
-01021239	6073
-01021243	5B5E
-01021248	545A
-0102125B	5B59
-0102125D	3B79
-0102125F	5733
-0102126C	5B66
-010212AE	542C
-010212BA	5173
-010212F2	5778
-01021369	5B65
-010213A9	3921
-010213B0	5C2F
-0102145F	4E51
-01021462	5C26
-01021501	405D
-0102151B	4849
-01021578	5967
-0102157F	5967
-01021582	5967
-01021584	4D62
-01021589	4251
-0102158A	596D
-01021596	4764
-0102159F	7324
-010215B7	6239
-010215D5	5260
-010215DA	4456
-010215DD	5244
-010215E0	445A
-01021608	3F5E
-0102162B	4E48
-01021637	4C57
-0102165C	3661
-0102168C	3D61
-010216A7	657E
-010216B6	4D7D
-010216BE	662D
-01021769	517D
-010217E6	4448
-01021810	663F
-0102181C	6646
-0102187F	3555
-01021893	6634
-010218C6	657C
-010218F0	664D
-0102191A	664E
-0102192F	6650
-0102193E	4B6F
-0102193F	3F57
-01021946	3A43
-01021947	5843
-0102195B	4A62
-0102195C	5756
-01021997	4866
-010219CB	4636
-010219EA	552C
-010219EB	6533
-010219F1	3A26
-01021A09	3A41
-01021A1A	5429
-01021A1C	3C45
-01021A20	4E48
-01021A48	4367
-01021B2A	444D
-01021B3D	5862
-01021B5D	4357
-01021B5E	3C62
-01021B74	4F36
-01021B90	5021
-01021C29	413C
-01021C2C	496D
-01021C38	656C
-01021C46	4A74
-01021C52	356E
-01021C5D	4F2C
-01021C91	4A3A
-01021CA0	4646
-01021CA9	4628
-01021CEC	422E
-01021D41	4E23
-01021D7C	4C3F
-01021D8F	6148
-01021D93	5440
-01021E20	323A
-01021E35	613F
-01021EA1	532F
-01021F14	6147
-01021F9C	3B74
-01021FC1	4E21
-01021FE7	5456
-01021FF7	675F
-0102200E	3A53
-01022012	3C3A
-0102201A	3924
-0102203D	4670
-01022053	7539
-0102205B	4931
-01022087	355B
-01022091	4A43
-010220B4	5644
-010220C1	3878
-010220F7	4432
-01022116	526C
-010221D7	4F43
-010221EF	382E
-0102220E	3963
-01022256	4239
-01022259	4A7C
-010222BB	4149
-010222DB	3147
-01022313	402A
-01022338	5E44
-01022342	3147
-01022345	5B3C
-0102234E	5A3E
-01022357	5154
-0102235C	5770
-0102236E	4E57
-01022376	424E
-01022381	4E64
-01022387	5456
-010223AE	5835
-010223BA	4F52
-010223D8	7460
-010223F1	6574
-01022405	4875
-01022413	6F4F
-01022472	524D
-01022495	566E
-0102249B	3164
-010224C9	3735
-010224CA	6163
-010224D8	5921
-010224DD	592C
-010224ED	6552
-010224F6	4D28
-01022500	4756
-0102250D	592B
-0102257E	315C
-010225B9	4744
-010225CC	4542
-010225CD	563E
-01022617	333C
-01022625	4A51
-0102263B	4F24
-01022649	4455
-0102264A	6D27
-01022656	4C71
-01022662	3F56
-01022683	4153
-01022687	3F71
-01022689	3A5E
-01022690	5346
-010226B0	4455
-010226C2	353F
-010226C7	7645
-010226E7	4E29
-0102272A	4847
-0102273A	3027
-01022754	627C
-01022772	336E
-01022836	3B3C
-01022846	3F52
-01022865	4375
-0102287D	4F27
-010228A7	7645
-010228F6	412F
-01022903	6D2B
-010229A1	3850
-010229A9	3349
-010229D0	553D
-010229F5	3D58
-010229F7	5E62
-010229FE	3363
-01022A37	4B79
-01022A4C	3C67
-01022AB4	5E55
-01022ABB	3350
-01022ABF	393C
-01022AE6	4544
-01022AFD	5256
-01022AFE	5638
-01022B0C	304E
-01022B34	4963
-01022B38	4028
-01022B40	507D
-01022B43	364C
-01022B4D	3427
-01022BC7	523E
-01022BEA	3270
-01022C07	3024
-01022C4A	4253
-01022C73	3B53
-01022C8E	3061
-01022C95	5E71
-01022C9C	693E
-01022CB8	4230
-01022CBB	3469
-01022CC0	4426
-01022D23	5476
-01022D3F	3574
-01022D44	346B
-01022DFC	346A
-01022E05	454A
-01022E06	4421
-01022E6C	5335
-01022EF3	3776
-01022F1C	4962
-01022F86	3F2B
-01022F8D	303D
-01022F99	516F
-01022FB0	3B55
-0102301A	5967
-0102308A	6C59
-01023095	4B39
-010230A2	364F
-010230A6	585E
-010230BA	5042
-010230E6	4E70
-01023101	4A5C
-01023103	466C
-01023133	4E68
-01023140	563C
-0102314A	327D
-0102314E	4E6E
-0102315C	3D54
-0102316F	5667
-0102317C	5467
-0102319C	4341
-01023206	3D7A
-0102320D	357E
-010232A3	742A
-0102335D	565B
-0102339C	5450
-010233C2	4931
-010233D0	683C
-010233DD	556D
-010233F9	5456
-010233FD	4336
-0102340C	4A61
-01023431	4861
-01023436	3955
-01023437	3955
-0102346D	5524
-0102346F	4C52
-01023471	483E
-0102348F	3D37
-010234C0	693B
-01023580	3923
-010235F3	4A77
-0102361C	7357
-01023694	742A
-01023698	4E7E
-010236D8	693F
-01023725	4F2D
-01023726	353C
-010237B5	5D58
-010237F4	6345
-01023898	496B
-0102389C	5F4F
-010238B8	3F6E
-010238D3	4737
-010238FD	4755
-01023948	3B61
-01023949	656B
-0102394D	3D7C
-01023957	4959
-0102399E	5967
-010239A1	3379
-010239B8	4B40
-010239C0	3A6B
-010239E9	5655
-01023A0F	6962
-01023A44	645B
-01023A46	5A24
-01023A47	382F
-01023A85	4539
-01023A86	4931
-01023A96	4931
-01023AA9	4931
-01023AED	433F
-01023AF9	6769
-01023C5C	6B33
-01023C6E	4762
-01023C75	5340
-01023C83	6367
-01023C94	467C
-01023CA0	4F2B
-01023CB4	3750
-01023CDA	433B
-01023CE5	3649
-01023D11	4177
-01023D26	637C
-01023D29	643A
-01023D32	5421
-01023D34	3A23
-01023D5E	485C
-01023D7D	4E56
-01023D7F	4F51
-01023D81	6440
-01023D83	3331
-01023DDD	3D3D
-01023DEA	4D74
-01023E15	4B2E
-01023E6B	3B6B
-01023E8C	436C
-01023EAF	4A2A
-01023F1C	514D
-01023F45	3B6E
-01023F48	6526
-01023F85	6455
-01023FD1	385B
-0102404A	3B41
-0102404C	3044
-01024084	3262
-01024109	642F
-0102414C	4528
-0102414D	646E
-0102418C	5157
-0102418D	3360
-0102418E	5456
-01024190	3E44
-010241B2	5456
-010241E1	507E
-010241F4	4E75
-0102422E	5456
-01024263	5456
-010242B7	313A
-010242EE	4E75
-010242F0	567A
-010243B9	4E75
-010243C1	4E75
-010243D0	4043
-01024424	4E75
-0102442B	4631
-0102447E	6C5D
-010244C8	4B38
-01024522	4926
-01024553	522F
-01024555	3056
-0102457A	3C32
-010245B2	3F5D
-010245CA	6B3A
-010245CB	4546
-010245F1	6B3B
-01024604	6B39
-01024608	5140
-01024625	6A72
-01024634	4441
-01024657	373D
-01024668	4A78
-0102468C	4F2C
-010246B4	4435
-01024733	4A28
-01024751	3738
-010247C4	473B
-010247CB	3D46
-010247D4	626A
-010247D7	5433
-010247E7	5D5F
-01024815	5073
-0102489A	4A5E
-0102489C	3640
-010248CA	616E
-010248F5	3E41
-01024908	3A77
-010249A6	3060
-010249B3	6775
-010249F0	457D
-010249F2	4543
-01024A14	3B37
-01024A40	493A
-01024AE9	4161
-01024B17	702D
-01024B21	4630
-01024B2E	463F
-01024B79	303B
-01024B9B	5B54
-01024BD3	497A
-01024BD4	484B
-01024BDB	734F
-01024C06	5343
-01024C1E	3130
-01024C34	4D7E
-01024C35	4E37
-01024C36	496A
-01024C65	6E33
-01024C71	5458
-01024C99	5B4E
-01024C9C	314F
-01024DC2	7072
-01024DD0	4324
-01024DE0	7076
-01024E06	7074
-01024E0B	3D6A
-01024E1F	564C
-01024E8A	4B3B
-01024EE8	3B3E
-01024EF2	4146
-01024F29	396F
-01024F2A	3547
-01024F37	3547
-01024F50	4648
-01025039	7542
-01025044	535B
-01025049	6E42
-0102506A	434F
-01025070	434B
-010250AF	5D4F
-010250E9	515B
-010250F3	6D6C
-01025122	4F60
-0102516D	4A53
-01025171	4A21
-010252BC	6E2A
-010252CD	4B2F
-01025312	6E2D
-0102531D	6E29
-0102536F	6F54
-0102537F	365C
-01025384	4739
-010253BF	562A
-010253F5	4176
-01025417	6D3E
-0102543A	6D46
-0102544A	446B
-010254CB	5150
-010254CF	5C24
-010254D3	312E
-01025510	3F44
-01025553	442E
-0102555A	5C7D
-01025566	6D5E
-01025571	4570
-01025574	4079
-010255F7	5537
-01025614	5456
-01025616	4D37
-0102564A	3C40
-0102564D	4971
-010256DC	5766
-01025731	4B6E
-01025750	317C
-01025757	5C3B
-01025762	407B
-01025777	387B
-010257AB	4A72
-0102583C	4758
-01025877	4E48
-01025893	4A5A
-0102592F	3E3F
-0102593E	474F
-01025949	6136
-01025963	542B
-0102598E	3176
-0102599C	5C21
-010259CA	5C25
-010259E8	3176
-01025A12	345C
-01025A50	713C
-01025A60	553E
-01025A73	347D
-01025AE1	7344
-01025B16	4624
-01025B30	3261
-01025B8F	3564
-01025BD2	5454
-01025CE6	4B71
-01025D8E	5D4F
-01025DDF	5D4F
-01025E6A	7456
-01025E9E	5660
-01025EC6	4B5A
-01025ED5	7456
-01025F3E	7456
-01025F86	3E40
-01025F91	343F
-01025FA0	4852
-01025FA1	5124
-01025FA8	667C
-01025FBA	575D
-01025FC9	4D60
-01025FD1	425A
-01025FD3	3C4D
-01025FF3	4F38
-01026007	3E2D
-0102601F	4934
-01026065	6D69
-010260B2	6D69
-010260B3	3D74
-010260B5	575D
-010260B6	6732
-010260C5	4267
-010260E7	314C
-010260F0	497E
-01026132	4B75
-0102614D	6750
-01026167	6D69
-01026196	6754
-010261AB	3073
-010261C4	405C
-010261DA	524D
-010261FB	3B3A
-01026247	463F
-010262DA	5556
-010262E7	4A70
-01026310	6E3E
-01026334	425E
-0102633F	7527
-0102638B	7574
-010263A4	7737
-010263C1	744B
-010263E0	3861
-010263F2	5370
-0102641C	3464
-0102642C	7462
-0102644A	6C3A
-0102648B	3A32
-010264A1	303F
-010264A2	303F
-010264B1	3F3C
-010264BF	6A48
-010264D4	5068
-0102657C	4144
-010265F7	717A
-0102661F	5558
-0102663B	6B41
-0102665B	6B46
-01026669	6B48
-0102666D	4C5B
-01026675	4D73
-01026676	3949
-010266C1	4454
-01026709	4622
-01026721	564B
-01026736	3072
-01026769	4E38
-0102676B	517C
-0102676D	4060
-010267A4	5836
-010267A7	4176
-010267AC	6B6C
-010267B5	3B29
-010267DD	3C39
-010267E6	4424
-010267EF	405F
-010267F3	7536
-0102681D	4176
-010268DE	5243
-010268EE	3942
-010268FA	3057
-01026900	3374
-01026903	3B4A
-0102690C	745F
-01026913	3147
-01026933	5641
-0102693F	4E5D
-01026946	4E55
-01026947	5569
-01026959	5237
-0102695D	5228
-01026967	3161
-0102699A	527A
-010269B6	4840
-010269CA	4B31
-01026A31	3D72
-01026A85	4D27
-01026B0A	5C3B
-01026B21	5D4D
-01026B42	5D51
-01026B82	5D69
-01026B8F	344E
-01026BD3	5D4F
-01026BED	3671
-01026BF1	3671
-01026BF8	5C3B
-01026C52	5C59
-01026C54	314D
-01026C64	442A
-01026CAD	5D5D
-01026CCB	466A
-01026CCE	5D4F
-01026CF3	5D68
-01026D2D	436A
-01026D54	5D4F
-01026D9C	3671
-01026E06	5C3B
-01026E0E	5D2A
-01026E2F	5D37
-01026E32	453A
-01026E33	5D6A
-01026E88	5D25
-01026EB3	5E32
-01026EC3	5D48
-01026EE5	3746
-01026EE6	4C51
-01026F0D	5D38
-01026F2C	5D4F
-01026F48	5D35
-01026F67	5D2C
-01026F69	4860
-01026F94	3E49
-01026FAA	5967
-01026FB1	332D
-01026FB4	5E40
-01026FB7	5E24
-01026FD8	5D4F
-01027009	5465
-0102703D	5D4F
-0102704E	5967
-01027084	5D4C
-01027087	5D21
-0102708A	5E2F
-01027090	3B7D
-0102709A	5D4F
-010270B0	5D23
-010270B1	5E27
-010270B2	3E55
-010270C8	3E55
-010270CD	5967
-010270D3	3E55
-010270F0	5967
-01027117	5D4F
-0102714F	5E3C
-01027191	5E3D
-010271C1	722E
-0102720B	5D4B
-01027220	5469
-01027227	4B64
-0102722C	3A67
-01027265	3131
-010272A1	724B
-010272A4	7266
-010272A7	3872
-01027312	7262
-01027332	5629
-01027353	7330
-01027358	724A
-0102735B	533C
-0102737F	7251
-01027380	7261
-01027381	723B
-01027382	4F3A
-01027397	7272
-010273C5	7327
-010273CD	724F
-010273CF	4779
-01027409	5629
-0102741B	7273
-01027463	724D
-010274A6	555D
-010274C9	7253
-010274CC	5329
-010274D2	723E
-010274DB	7328
-010274F3	724E
-01027508	6E43
-01027550	7329
-01027573	5979
-01027599	7239
-0102759A	725D
-010275CE	5D4F
-010275D7	742C
-010275D8	5D4F
-0102762D	7440
-01027669	4151
-0102768C	5730
-0102768D	7443
-0102769C	715D
-0102769D	3243
-010276E2	6D69
-01027744	7160
-01027749	6D69
-0102777A	5973
-010277F6	3054
-0102789A	6A6E
-010278B1	5054
-01027973	4A2B
-01027976	5A3F
-01027977	467D
-0102797A	596A
-0102797E	4A36
-01027992	5A2E
-010279AB	5A31
-010279BD	556F
-010279BE	3E77
-010279CF	5F76
-010279E1	4B4F
-010279E7	6E3A
-010279FF	3D4C
-01027A0F	526A
-01027A23	5A2B
-01027A28	5A57
-01027A2D	3C60
-01027A42	3079
-01027A5B	512F
-01027A60	376D
-01027A7B	5A41
-01027A7D	573B
-01027AE7	5A4F
-01027AEA	5A4A
-01027B04	503B
-01027B0D	5A58
-01027B2F	6540
-01027B33	526B
-01027B58	4657
-01027BAE	5A64
-01027BE1	4D63
-01027BFF	5C31
-01027CB2	3A7C
-01027CC7	3A51
-01027D39	6A5B
-01027D47	3F36
-01027D4E	3C56
-01027D69	5470
-01027D6A	5474
-01027D6E	6A5C
-01027D85	3B5F
-01027D99	3133
-01027D9B	6A63
-01027DA1	6535
-01027DB4	3644
-01027DB6	3737
-01027DBB	4333
-01027DBD	344D
-01027DD5	574A
-01027DE4	5853
-01027E03	5245
-01027E06	5738
-01027E0A	393A
-01027E11	5479
-01027E16	572C
-01027E1A	4238
-01027E2F	5245
-01027E3D	5245
-01027E52	4272
-01027E5E	7476
-01027E79	3363
-01027E87	7471
-01027EAB	4670
-01027F62	322B
-01027FA2	5363
-01027FC1	6B3E
-01027FD6	753C
-01027FDB	5759
-01027FF6	7549
-01028013	455C
-0102801F	7562
-0102807B	755E
-010280DF	7567
-010280E1	7555
-01028103	756E
-01028175	4C24
-01028176	546A
-0102818D	7571
-010281AF	756B
-010281B2	4E48
-010281E5	653F
-010281F1	7564
-010281F3	756D
-0102822C	477B
-01028235	754B
-0102823B	5754
-01028246	3460
-01028247	5456
-01028289	3460
-010282BE	697E
-010282CF	6974
-010282FC	4E53
-01028307	5661
-01028373	6977
-0102837B	697D
-0102838A	3975
-010283B2	697B
-010283CF	6A25
-010283D1	6979
-010283D4	6A24
-010283E3	555E
-0102840C	5041
-0102842B	4629
-0102844D	396C
-01028450	4679
-01028453	4670
-01028454	4670
-01028456	4670
-01028466	506C
-01028477	5138
-0102848E	6557
-010284A6	532D
-010284B2	4354
-010284C6	4D4B
-010284CC	5456
-010284DC	525D
-010284E7	5223
-010284F5	4B4D
-0102852A	544B
-0102855D	654D
-01028589	6560
-0102859D	762A
-010285A5	555A
-010285BD	5245
-010285D2	762A
-010285D4	5245
-010285D5	5771
-010285E0	762A
-010285ED	5245
-010285EE	5245
-010285EF	655B
-010285F9	3551
-01028611	412C
-01028624	5245
-0102862B	6553
-01028636	654E
-01028637	6563
-01028655	6555
-0102865A	4275
-0102867C	5B2B
-0102868F	5B21
-010286A0	3A2A
-010286AC	4771
-010286C4	575E
-010286E6	3F24
-010286EB	4068
-010286F7	363C
-01028725	5B2A
-0102872E	4764
-01028741	5B28
-01028765	4049
-0102876E	5B38
-01028784	534A
-01028787	5B30
-01028789	5B32
-0102878F	3526
-01028796	5B39
-010287A1	5B26
-010287B3	5866
-010287C0	4068
-010287F7	752C
-010287FB	3D34
-01028802	752D
-0102880F	752E
-01028820	5051
-0102882A	576D
-01028845	4351
-01028860	752F
-01028880	3D4D
-010288A9	757C
-010288AC	7529
-010288AD	4B56
-010288BD	4B61
-010288CB	3457
-01028913	3E6C
-0102894D	7646
-0102894F	382A
-01028969	6E54
-0102899F	3766
-010289AD	6F29
-01028A90	6E57
-01028AD8	6F49
-01028AFC	764B
-01028AFD	6E7C
-01028B10	6F63
-01028B5C	6F5C
-01028B5D	6F21
-01028B7C	414D
-01028B93	6F64
-01028BDF	6F6C
-01028C24	6E65
-01028D01	327B
-01028D41	5156
-01028D77	6351
-01028D9D	5B53
-01028DF7	4376
-01028E0F	3837
-01028E18	486E
-01028E1D	4A4F
-01028E4E	4F5E
-01028E5F	422A
-01028EA8	3675
-01028EB5	3653
-01028EF6	4F36
-01028F80	4125
-01028FA5	7044
-01028FF3	5325
-0102900C	406B
-01029015	7645
-01029018	704E
-01029021	4451
-01029050	7058
-010290EC	5275
-0102911F	3028
-0102912B	762A
-01029145	6468
-0102915F	3122
-01029186	762A
-01029242	584C
-0102927C	4970
-010292A6	6177
-010292B3	392E
-010292BF	742A
-010292CE	3E73
-010292F0	667B
-0102933B	315E
-01029346	742A
-0102940A	6C34
-0102942D	5A45
-0102944B	5233
-0102947C	4644
-01029486	3625
-01029491	3F74
-0102949B	465D
-010294B5	476A
-010294CB	4035
-01029516	4060
-0102951A	4E4C
-0102951C	4B4C
-01029530	4F54
-0102953A	422D
-01029553	5424
-0102958E	5E30
-01029593	722D
-010295CB	372B
-010295D7	6C2B
-0102964E	5950
-01029681	4A33
-0102968A	623D
-0102968E	3C22
-0102968F	6238
-010296B7	4123
-010296CA	3125
-010296DD	752A
-0102970B	6243
-01029719	4844
-0102972F	6248
-01029759	4A48
-010297B9	7750
-01029810	4A57
-0102982E	5967
-01029851	7025
-0102991D	6670
-010299BC	4266
-010299D9	6674
-010299E2	3352
-01029A23	373E
-01029A3A	3039
-01029A8B	727C
-01029AA0	625F
-01029AEB	5A70
-01029C6C	415C
-01029D4B	5363
-01029EB4	7729
-01029F06	4070
-01029F1E	4070
-01029FC7	394D
-0102A057	513C
-0102A069	6F74
-0102A0A1	4574
-0102A1BE	7048
-0102A2A8	7764
-0102A2E7	776A
-0102A301	4322
-0102A311	303E
-0102A369	4278
-0102A396	4353
-0102A424	764F
-0102A4A0	7776
-0102A4F3	5629
-0102A505	5431
-0102A5A6	4C69
-0102A5C7	466A
-0102A5C9	7452
-0102A600	4D45
-0102A68F	4D45
-0102F800	4076
-0102F801	4D68
-0102F804	4463
-0102F805	4E6A
-0102F808	545B
-0102F809	3138
-0102F80A	492E
-0102F80B	4F71
-0102F80C	3F21
-0102F80E	4362
-0102F80F	4D43
-0102F814	445A
-0102F815	5459
-0102F816	3261
-0102F817	485F
-0102F818	5429
-0102F819	3179
-0102F81A	362C
-0102F81B	3F76
-0102F81D	5B49
-0102F81E	4850
-0102F820	3F4C
-0102F822	386E
-0102F825	5342
-0102F826	4363
-0102F827	475A
-0102F828	4957
-0102F829	307C
-0102F82A	3452
-0102F82B	3131
-0102F82C	3B5C
-0102F82D	3130
-0102F82E	3229
-0102F82F	3C34
-0102F830	3C34
-0102F831	4764
-0102F832	4764
-0102F833	4764
-0102F835	3B52
-0102F836	3C30
-0102F837	5B45
-0102F839	3D50
-0102F83A	5F33
-0102F83B	5F3A
-0102F83D	4E7C
-0102F83E	334A
-0102F83F	565C
-0102F842	4C46
-0102F843	4674
-0102F845	4946
-0102F846	4946
-0102F847	6039
-0102F849	547B
-0102F84B	4D3C
-0102F84C	4C3E
-0102F84F	4567
-0102F850	4750
-0102F851	5733
-0102F852	3347
-0102F853	5B7A
-0102F854	5C22
-0102F855	504D
-0102F857	3128
-0102F85A	4274
-0102F85B	3A78
-0102F85D	3660
-0102F85E	434E
-0102F85F	495D
-0102F862	3C27
-0102F863	5369
-0102F865	6630
-0102F866	383E
-0102F867	4929
-0102F869	662C
-0102F86A	4041
-0102F86B	4041
-0102F86D	5429
-0102F86F	447E
-0102F870	3126
-0102F872	4A59
-0102F873	3D2B
-0102F874	3531
-0102F875	5E4C
-0102F877	4D40
-0102F87A	6129
-0102F87F	6151
-0102F881	5132
-0102F882	3332
-0102F884	5963
-0102F886	4331
-0102F88C	6258
-0102F88D	4A7C
-0102F88E	4048
-0102F890	5E43
-0102F893	7428
-0102F898	524D
-0102F899	504E
-0102F89D	484C
-0102F89E	563E
-0102F8A1	3B45
-0102F8A3	3B5A
-0102F8A6	3448
-0102F8A7	3B45
-0102F8A8	4977
-0102F8A9	3B45
-0102F8AB	5477
-0102F8AC	4F5C
-0102F8AD	375F
-0102F8B0	334D
-0102F8B1	4041
-0102F8B2	3349
-0102F8B3	6A29
-0102F8B5	3127
-0102F8B6	304E
-0102F8B7	3E68
-0102F8B8	304E
-0102F8B9	4D6C
-0102F8BA	4634
-0102F8BC	4928
-0102F8C1	515A
-0102F8C3	4426
-0102F8C6	332D
-0102F8C8	4374
-0102F8C9	3E34
-0102F8CB	3C48
-0102F8CC	4A69
-0102F8CD	3D7A
-0102F8CF	4A6E
-0102F8D2	4330
-0102F8D3	4361
-0102F8D4	576E
-0102F8D5	4655
-0102F8D6	6B47
-0102F8D8	404A
-0102F8D9	4D7B
-0102F8DB	683D
-0102F8DC	683C
-0102F8DF	3955
-0102F8E1	4923
-0102F8E2	4337
-0102F8E3	5524
-0102F8E8	692B
-0102F8EA	3845
-0102F8ED	684E
-0102F8EF	344E
-0102F8F3	4B6A
-0102F8F5	4931
-0102F8F6	3F47
-0102F8FC	5158
-0102F8FF	4E39
-0102F900	4549
-0102F901	3A23
-0102F902	4177
-0102F903	3A46
-0102F904	3D7E
-0102F905	4479
-0102F907	555C
-0102F908	385B
-0102F909	644E
-0102F90B	574C
-0102F90C	3561
-0102F90E	514D
-0102F90F	3331
-0102F913	652E
-0102F915	652D
-0102F918	5456
-0102F91A	4C3F
-0102F91C	6C51
-0102F91D	5456
-0102F920	6C60
-0102F921	3E74
-0102F922	5522
-0102F923	5140
-0102F924	4F2C
-0102F928	4C21
-0102F929	4D75
-0102F92E	6769
-0102F92F	6824
-0102F932	476D
-0102F934	5E28
-0102F935	496A
-0102F936	675E
-0102F938	526C
-0102F93A	7075
-0102F93D	535B
-0102F940	5631
-0102F941	6D6C
-0102F945	5566
-0102F946	5566
-0102F947	5566
-0102F94C	4A2F
-0102F94E	6D4A
-0102F94F	4235
-0102F953	5766
-0102F956	3823
-0102F957	6F78
-0102F95B	4E48
-0102F962	572D
-0102F968	745D
-0102F969	7456
-0102F96A	3C4D
-0102F96B	3E40
-0102F96E	673B
-0102F96F	575C
-0102F970	6752
-0102F973	463F
-0102F979	303F
-0102F97A	555F
-0102F97F	344F
-0102F981	623F
-0102F982	537D
-0102F983	3460
-0102F985	4622
-0102F986	6B74
-0102F987	4176
-0102F988	3B29
-0102F98A	5450
-0102F98B	7428
-0102F98C	742A
-0102F98D	3447
-0102F98F	5C3B
-0102F990	5373
-0102F991	5625
-0102F992	404D
-0102F993	3B28
-0102F994	373C
-0102F995	513F
-0102F996	3F60
-0102F998	4874
-0102F999	3671
-0102F99A	4859
-0102F99B	3D5A
-0102F99D	4327
-0102F99F	5745
-0102F9A1	3E55
-0102F9A2	3E7A
-0102F9A3	324B
-0102F9A7	4A5F
-0102F9AC	5E28
-0102F9AD	5D4F
-0102F9B0	332D
-0102F9B2	5967
-0102F9B3	4530
-0102F9B4	4232
-0102F9B5	3F77
-0102F9B7	723F
-0102F9BC	357B
-0102F9BD	725C
-0102F9C4	5242
-0102F9CF	334F
-0102F9D0	5A4D
-0102F9D1	3164
-0102F9D2	7539
-0102F9D4	3961
-0102F9D5	6A5A
-0102F9D6	3853
-0102F9D7	4670
-0102F9DA	304F
-0102F9DB	7542
-0102F9DD	3E7C
-0102F9DE	696D
-0102F9DF	4A64
-0102F9E0	762A
-0102F9E1	5245
-0102F9E3	3531
-0102F9E5	4764
-0102F9E7	6E60
-0102F9EB	6F6A
-0102F9EE	3F2A
-0102F9F0	4931
-0102F9F1	6351
-0102F9F6	6468
-0102F9FB	6C34
-0102F9FE	394B
-0102F9FF	394B
-0102FA02	3C22
-0102FA15	4269
-0102FA17	6D69
-0102FA18	763C
-0102FA19	5629
-0102FA1C	3147
-0102FA1D	4D45
-013405	4E65
-013421	4533
-013430	5045
-013433	5823
-013439	586E
-013442	3742
-013444	4E6A
-01345E	6B74
-013474	4756
-013477	4C2C
-01347A	3F21
-01349A	4E48
-01349E	3F21
-0134A4	4965
-0134A8	4F49
-0134B2	3246
-0134B3	413D
-0134B6	392B
-0134C2	3F5C
-0134CA	3634
-0134D5	4370
-0134DB	3926
-0134DC	5357
-0134DD	504C
-0134F6	6F46
-013503	3E78
-013518	776D
-01351C	322A
-01352D	3357
-01353A	4A40
-01353D	5855
-013547	6D47
-013551	3378
-013555	3B43
-013556	4B58
-01355A	5726
-01355B	5351
-01355C	4A37
-01355E	4B22
-013560	4B2B
-013565	5254
-013581	415F
-0135A0	4447
-0135C6	6043
-0135CB	3A6D
-0135D0	603E
-0135D6	6022
-0135E4	6052
-0135FD	4F6C
-01362B	3E33
-01362F	3321
-013631	4C2E
-013634	5778
-013637	302C
-013641	5B69
-013662	5C2C
-013672	5B55
-01367C	405D
-01368C	6237
-013690	4C57
-0136A2	452B
-0136A3	662F
-0136B6	6626
-0136DB	496F
-0136E9	6628
-0136EE	4929
-0136F0	3B69
-0136FD	6629
-013711	4645
-01373B	662E
-01373D	5753
-01373E	3A22
-013740	3A43
-013748	424F
-013749	507B
-01374A	4A58
-01374B	4148
-01374C	3E4E
-01374D	5034
-013756	524B
-013759	527A
-01375B	4B5E
-013761	576E
-013762	536E
-013767	4E48
-01376F	4748
-013777	5130
-013791	4E32
-013795	503C
-0137A1	5539
-0137A2	562E
-0137AF	6128
-0137B6	613A
-0137B9	6133
-0137C1	3036
-0137E9	613A
-0137ED	613A
-0137FA	6150
-013800	353A
-013810	613D
-01381C	615A
-01382D	5539
-013836	372B
-013860	5621
-013873	3557
-01387F	3362
-013898	412E
-0138AE	335A
-0138B4	4E77
-0138BD	367C
-0138CB	3524
-0138E6	6554
-0138EB	362F
-0138F2	4E22
-0138FC	484C
-013900	4D7C
-013901	6343
-013902	3C31
-013903	3741
-013905	302E
-013907	3043
-013913	313F
-013919	3677
-01391B	6D25
-01391F	3F56
-013929	6321
-01392A	5439
-01392C	6D23
-013930	6274
-01393A	3B45
-013943	4346
-01395E	6564
-013964	7166
-013966	632B
-013967	4B33
-013971	632D
-01398D	6335
-013994	627B
-013996	6D2F
-0139A0	6D21
-0139A4	5C32
-0139AF	3B72
-0139B8	6A2A
-0139BF	3B27
-0139D6	3673
-0139F1	4443
-013A08	3C37
-013A14	3A33
-013A17	3D5D
-013A23	5335
-013A2F	4029
-013A41	4836
-013A55	4160
-013A57	502F
-013A66	502F
-013A70	332D
-013A85	387C
-013A9D	3C70
-013A9F	3658
-013AA3	4743
-013AC1	364F
-013AC4	4554
-013AC5	466C
-013ACB	6C39
-013AD1	563C
-013AD4	745E
-013AE7	3129
-013AEA	343A
-013AF3	333F
-013AFA	4E74
-013B0C	3E30
-013B0D	4658
-013B1C	3D7A
-013B20	4939
-013B25	3129
-013B27	3129
-013B31	4C66
-013B4A	4E76
-013B4B	3074
-013B4D	4662
-013B71	4F3B
-013B7B	4C44
-013B84	3071
-013B8C	435E
-013B8E	312D
-013BA3	3845
-013BAE	3D5B
-013BCD	3D30
-013BD0	4D56
-013BD3	693D
-013BDF	4234
-013BE6	4665
-013BEA	6879
-013C09	693B
-013C0F	385D
-013C10	4D56
-013C16	692D
-013C1E	604D
-013C4F	557D
-013C55	3969
-013C58	774A
-013C68	6967
-013C7F	3F47
-013C87	5F4B
-013C88	4958
-013C9C	4C3A
-013CAD	4C3A
-013CB6	4248
-013CB7	352A
-013CBE	536A
-013CC2	5158
-013CC3	3463
-013CC5	4177
-013CC8	4566
-013CD1	5267
-013CD2	3728
-013CD9	6438
-013CED	4F51
-013D05	4F7B
-013D06	3D7E
-013D09	3C43
-013D1E	4C4F
-013D34	553F
-013D3E	3233
-013D4E	3D27
-013D55	5468
-013D71	462F
-013D78	652E
-013DA4	3334
-013DAB	4147
-013DB3	3D7D
-013DBB	3769
-013DC7	3B56
-013DCA	3759
-013DD4	5166
-013DD6	5555
-013DD9	3C65
-013DE9	4E75
-013DF1	505C
-013DFB	4E5E
-013E00	6C46
-013E02	6C5D
-013E09	5B46
-013E15	3E70
-013E18	4D72
-013E27	7638
-013E60	6B60
-013E64	4753
-013E83	3937
-013E85	3A6F
-013E9A	4C21
-013EB2	4525
-013EB3	4335
-013ECE	492A
-013EEE	6832
-013F04	6761
-013F4D	5B61
-013F52	497B
-013F56	4174
-013F57	4436
-013F5C	6E35
-013F5E	4174
-013F6C	3778
-013F6F	4668
-013F8A	7124
-013F8C	5122
-013FCB	707E
-013FE2	522B
-013FF7	325A
-014006	3E21
-01400B	514E
-01400E	6D6D
-014018	6B76
-01405E	4A21
-014066	6A6F
-014079	6E22
-014093	3966
-014096	4A2F
-0140A1	6D46
-0140B2	6D40
-0140BB	6F2D
-0140CD	5739
-0140E0	6D5B
-0140E9	6D50
-0140FA	4425
-014100	3B76
-014112	6F7E
-014115	4967
-014122	466B
-01412B	5C3B
-01412C	5246
-01412D	446A
-01413D	744C
-014147	4B5A
-014192	3E3F
-014197	713A
-0141A0	3B42
-0141A9	5A24
-0141BB	474F
-014230	4952
-01427C	414F
-01428F	7456
-0142B7	673B
-0142C1	672E
-0142C4	4D78
-0142DC	746C
-0142DE	4D78
-0142E0	3239
-0142EF	746C
-0142F2	497E
-0142F3	7158
-0142F9	3779
-014304	672E
-014307	4B77
-014309	3859
-01430A	746D
-014313	3731
-014315	7763
-01431B	746D
-01432B	4042
-014348	463F
-014369	5178
-0143A3	716A
-0143B9	4E45
-0143CA	417B
-0143CB	4B60
-0143D2	4556
-0143D4	5662
-0143D5	623F
-0143EF	706B
-0143FB	445C
-01440C	4C73
-014417	3647
-014421	466A
-014452	353D
-014455	4A73
-01445B	7342
-01445E	4B34
-014482	3D30
-014483	546C
-0144A3	5C5B
-0144AC	442A
-0144AD	3548
-0144B1	5574
-0144B6	4C6C
-0144C1	3548
-0144C5	475B
-0144D2	466A
-0144E6	3564
-0144F7	5C74
-0144FA	5E42
-0144FF	5D55
-014509	4B62
-01450B	492F
-01450D	7346
-014512	5D6D
-014525	4F74
-01452B	4A5F
-014543	5271
-01454F	5D2D
-014556	5D25
-01455A	5D5E
-014564	5E2D
-014568	4C59
-01456B	5967
-01456E	3E55
-014582	4E65
-01458B	4530
-01458D	722F
-01458F	3426
-0145A0	7322
-0145A3	5469
-0145A4	726A
-0145AB	3076
-0145B8	366A
-0145B9	7255
-0145BD	725B
-0145BF	725B
-0145CB	7256
-0145CF	7274
-0145EB	7321
-0145F6	402F
-0145FE	7239
-014607	4E43
-01460A	733A
-014610	742C
-014614	3F26
-014619	4E40
-01461A	5764
-01461C	3D6D
-01462E	4925
-014631	5423
-014640	3141
-014656	3141
-01465D	5974
-01466A	7161
-01466D	653D
-01467A	4F4E
-01469E	3475
-01469F	3475
-0146B1	5045
-0146B2	5A28
-0146D0	344A
-0146D1	5A57
-0146D2	3167
-0146D5	5A44
-0146DC	5136
-0146E1	3B30
-0146E6	4B4F
-0146E7	4355
-0146FA	3D6B
-014718	3E2F
-01471B	3277
-01471F	5A5F
-014735	7479
-01473B	7479
-01473F	4A7A
-014742	4A7A
-014757	7577
-014758	5263
-014768	4F4D
-01477E	3833
-01477F	3973
-0147AC	4D38
-0147BC	345C
-0147C6	754F
-0147CC	5363
-0147CE	7475
-0147D6	563A
-0147E6	304F
-014801	7552
-014802	337E
-01480E	763B
-014825	753F
-01482E	4C5A
-014832	7176
-014836	4964
-014839	3A21
-014856	4761
-014879	6979
-014889	4529
-01489C	3969
-01489F	5349
-0148A0	4B4D
-0148A4	4A76
-0148A6	4B27
-0148AA	4741
-0148AB	4B66
-0148AF	6560
-0148B5	5447
-0148B7	4447
-0148CC	5B21
-0148DE	3675
-0148E8	343C
-0148F4	506F
-01491C	365B
-014931	4A44
-014939	6F4B
-014945	4759
-014946	4759
-01494A	6F3A
-014950	764A
-014956	6E64
-01495A	3375
-014976	6F53
-014977	5521
-014987	7759
-014999	4B42
-01499E	4872
-01499F	4E48
-0149A7	6352
-0149A8	403B
-0149B7	4E48
-0149CD	4F36
-0149D5	5372
-0149D9	416A
-0149DC	4C41
-0149E1	5C2D
-0149F8	7033
-0149FB	386B
-0149FC	7040
-0149FF	4835
-014A05	7053
-014A07	4B2B
-014A09	7050
-014A13	4057
-014A14	3122
-014A16	762B
-014A19	762F
-014A20	7630
-014A29	4169
-014A2A	7632
-014A2D	4F76
-014A2E	5129
-014A37	7631
-014A84	3B4D
-014AA0	6C34
-014AA1	6C34
-014AA2	6C34
-014AD9	722A
-014ADD	7025
-014AEB	7743
-014AF1	722C
-014AF7	7226
-014B03	6C2A
-014B2E	6242
-014B3B	3D24
-014B4B	3125
-014B4C	5764
-014B6B	3B7C
-014B6C	3B7C
-014B76	666B
-014B7C	666B
-014B7E	4D54
-014B81	6669
-014B83	477D
-014B88	335B
-014B9B	6662
-014BBF	6539
-014BC1	4262
-014BD0	3A21
-014BD7	7742
-014BDD	4B68
-014C1B	582A
-014C1C	582A
-014C1F	3B6A
-014C23	774D
-014C28	7748
-014C7D	7670
-014C84	772A
-014CA5	702F
-014CA8	3A68
-014CAB	702F
-014CB4	7032
-014CB5	4838
-014CB7	6849
-014CCC	3E69
-014CD2	7030
-014CD8	366C
-014CE8	3B4B
-014CFC	4538
-014CFD	3A57
-014D21	4076
-014D5E	7774
-014D79	5629
-014D87	7778
-014D9A	4823
-014E04	494F
-014E05	4F42
-014E17	4A40
-014E1F	362A
-014E20	3C3D
-014E21	413D
-014E23	534F
-014E26	3222
-014E3C	3E2E
-014E46	3E43
-014E55	3B22
-014E57	334B
-014E68	4A3C
-014E79	472C
-014E7F	564E
-014E80	396A
-014E81	472C
-014E82	4252
-014E8A	4A42
-014E97	4B6A
-014E9C	5147
-014E9D	466B
-014E9E	5147
-014EAF	4F6D
-014EB0	3E29
-014EB1	5239
-014EBE	4D76
-014ECC	3179
-014ECF	3770
-014EED	5870
-014EEE	3C59
-014EFE	354D
-014F02	4566
-014F03	6625
-014F16	607B
-014F1D	342B
-014F29	5045
-014F2E	452C
-014F40	4B46
-014F44	3A28
-014F47	5879
-014F4B	5551
-014F72	7524
-014F86	4034
-014F8C	5275
-014F96	4258
-014FA1	3C5B
-014FAB	587A
-014FB6	4242
-014FBD	4450
-014FC1	5936
-014FD6	3136
-014FE0	4F40
-014FFB	3138
-015000	5876
-015006	4129
-015009	3256
-01500B	3876
-015010	593F
-015011	4347
-015023	3742
-015024	5635
-01502B	4257
-015036	3E63
-015039	3C73
-015040	5322
-015041	3346
-015045	5957
-015049	4E30
-015058	5929
-015069	383A
-01506A	3146
-015074	3260
-015075	556C
-015079	3138
-01507A	545B
-01507D	4E31
-015093	493F
-015096	5877
-015098	4921
-015099	3138
-0150AF	594C
-0150B3	342B
-0150B4	5871
-0150B5	552E
-0150B7	494B
-0150BE	4763
-0150C2	594D
-0150C5	3D76
-0150C9	595D
-0150D1	4748
-0150DE	4E31
-0150E5	3D44
-0150E8	5947
-0150F2	4F49
-0150F9	3C5B
-015100	5247
-015101	3F21
-015102	592F
-015104	525A
-015108	3F6B
-015109	3C73
-01510C	3D44
-01510D	4935
-015110	594F
-015114	5931
-015115	592D
-01511F	3325
-01512A	5345
-01512B	3A40
-015132	3422
-015137	5933
-01513A	5950
-01513B	594E
-01513C	5932
-015142	7422
-01514A	3652
-01514C	3652
-01514E	4D43
-015150	3679
-015152	3679
-015157	5970
-015166	4D76
-015167	445A
-015169	413D
-01516A	5361
-01517E	3C3D
-01517F	5255
-015183	4331
-015184	483D
-015186	5432
-01518A	3261
-015190	4330
-01519D	524B
-0151A1	4349
-0151A3	576E
-0151A6	3F5C
-0151A8	383B
-0151A9	5034
-0151AA	5A22
-0151BA	637D
-0151BE	4722
-0151CD	3633
-0151DC	415D
-0151DE	4E75
-0151E6	3426
-0151E8	3767
-0151F1	3F2D
-015204	4850
-015225	3170
-015226	3D59
-015227	3D59
-01522A	493E
-015234	3667
-01523C	3D59
-015244	5859
-015247	5472
-01524E	4932
-01525B	3855
-01525D	307E
-015263	3D23
-015264	3C41
-01526E	3950
-015270	4A23
-015274	585C
-015275	3434
-015283	3B2E
-015287	3E67
-015289	4175
-01528A	3974
-01528B	3D4B
-01528C	585B
-01528D	3D23
-015291	3C41
-0152B4	404D
-0152B9	5027
-0152C1	3E22
-0152C4	4374
-0152C5	6B37
-0152C8	5342
-0152D5	362F
-0152D9	4E71
-0152DB	512B
-0152DD	4A24
-0152DE	404D
-0152E2	4A46
-0152E3	3C28
-0152E6	3D4B
-0152E7	4830
-0152F2	512B
-0152F3	512B
-0152F5	4078
-0152F8	4830
-0152FB	5448
-015304	5824
-015307	3452
-01531E	3D33
-01531F	3F3B
-015329	3F6F
-01532D	5850
-01532F	3B63
-015331	5851
-015338	3745
-015340	4778
-015346	5764
-01534B	4A40
-015354	502D
-015358	3525
-015365	4E77
-01536D	5A76
-01537B	4834
-01537D	3C34
-015380	4F25
-015397	4C60
-015399	5847
-01539B	4C7C
-0153A0	325E
-0153AD	5161
-0153B2	4077
-0153B3	514F
-0153B4	5849
-0153B5	5434
-0153BA	4825
-0153C3	324E
-0153CE	4A55
-0153D3	4A42
-0153DC	5B45
-0153E2	3454
-015407	5F73
-015422	5F44
-015433	4E62
-01543D	3A70
-01543F	3866
-015445	4E47
-015449	4E62
-01544C	3D50
-015451	4D4C
-01545D	5F40
-015463	4431
-01546A	5664
-01548A	3A4D
-0154AE	6069
-0154B2	5026
-0154B6	7342
-0154BC	5F43
-0154E1	5431
-0154F0	5F6B
-015504	5F42
-015516	5146
-015519	6056
-01554F	4E4A
-015552	5F7C
-015553	4674
-015554	4674
-015557	6022
-01555E	5146
-01555F	4674
-015568	4769
-01557A	4C46
-015585	6021
-01559A	3B3D
-01559E	5F73
-0155A9	5377
-0155AA	4925
-0155AC	4747
-0155AE	3525
-0155B2	5334
-0155B6	532A
-0155C6	473A
-0155C7	5844
-0155CE	4270
-0155DA	4E58
-0155E2	3A4F
-0155E9	5F6F
-0155F6	5F59
-0155F8	603B
-015606	4C3E
-01560D	6036
-015614	453B
-015616	5F75
-015617	3322
-01561C	5F69
-015620	3842
-015628	5025
-015629	3B29
-01562B	483B
-01562E	5F6B
-01562F	5025
-015630	5F34
-015635	5F58
-015637	6046
-015638	5F3C
-01564F	4E7C
-015650	4677
-015653	506A
-015656	5277
-01565D	5F50
-015660	5F55
-015661	5A5E
-015665	5F66
-015666	5F5C
-01566F	6048
-015672	5F60
-015674	4567
-015678	3656
-01567E	6033
-015680	5F4C
-015687	4F45
-015689	5F4D
-015695	6060
-015699	4476
-0156A0	642F
-0156A2	4452
-0156A6	5F3F
-0156A8	417C
-0156B3	6037
-0156B4	514F
-0156B6	6053
-0156BB	4F79
-0156C0	5F79
-0156C1	603F
-0156C2	4F79
-0156C5	5966
-0156C8	5F3D
-0156CC	4B55
-0156CF	3C68
-0156D1	5676
-0156D8	3B58
-0156D9	5272
-0156E3	4D45
-0156F2	4E27
-0156F3	4D3C
-0156F8	4855
-0156FC	4C25
-015707	6070
-01570B	397A
-01570D	4E27
-01570F	4826
-015712	5430
-015713	5432
-015716	4D3C
-015718	4D45
-015721	4D41
-015727	5139
-015735	4840
-01574B	5B50
-015753	504D
-015754	3558
-015778	3938
-01577F	383D
-015796	3651
-01579C	3662
-0157BA	5B2E
-0157BE	3036
-0157C0	3439
-0157C1	612F
-0157C5	3740
-0157C8	3E7E
-0157D3	5B78
-0157DC	5230
-0157E1	5B6B
-0157F0	3249
-0157F7	5634
-015805	3C61
-01580A	5B51
-01581D	5B76
-015822	3124
-015826	3D57
-01582F	5222
-015831	3128
-015834	3321
-015841	405D
-01584A	3F69
-01584B	5C63
-01584F	5B6E
-015850	4B5C
-015852	5B75
-015857	4D3F
-01585A	5A23
-015861	4C6E
-015862	4E6B
-015864	5B77
-015866	5573
-015869	514E
-015872	3321
-015875	333E
-015879	4735
-01587C	5729
-01588A	3566
-015895	515F
-015896	4B7E
-015897	5476
-01589C	5739
-0158A5	6E36
-0158AA	3655
-0158AB	6957
-0158AE	3669
-0158B0	4C33
-0158B3	3758
-0158BB	473D
-0158BE	3F51
-0158C3	3D2E
-0158C7	4C33
-0158CA	3B35
-0158CC	4840
-0158CD	4735
-0158D0	6774
-0158D3	5139
-0158D8	405D
-0158D9	5B5B
-0158DA	5B64
-0158DC	4C33
-0158DE	3B35
-0158DF	4222
-0158E0	4222
-0158E2	5B5E
-0158E9	3053
-0158EF	5733
-0158F1	523C
-0158F2	4274
-0158F7	3A78
-0158FA	3A78
-0158FB	5076
-0158FD	4A59
-015900	4A59
-015905	3D35
-015909	3164
-015918	432E
-01591B	3660
-01591D	4767
-015920	393B
-015922	434E
-015923	434E
-015936	3148
-01593E	3C50
-01594C	3563
-015950	5B3C
-015953	495D
-01595C	6C33
-01595E	3F7C
-015967	3042
-015968	3D31
-015969	5E46
-01596A	3661
-01596C	3D31
-01596E	375C
-01597C	6631
-01599B	664A
-01599D	5731
-0159AC	364A
-0159B4	4D71
-0159C9	6622
-0159CD	6629
-0159D9	4851
-0159E2	3E6A
-0159E7	3C69
-0159EB	3C27
-0159F8	657B
-015A12	4437
-015A1B	5369
-015A24	5731
-015A26	6649
-015A2F	5369
-015A3F	6639
-015A41	4226
-015A4F	4364
-015A59	663A
-015A5E	632C
-015A63	5276
-015A66	383E
-015A6D	662B
-015A87	4757
-015A8D	383E
-015AA7	6634
-015AAF	6623
-015ABD	4268
-015AD7	657D
-015AF0	445B
-015AF5	657C
-015AFB	6635
-015B00	6623
-015B08	662C
-015B0B	663F
-015B0C	3D3F
-015B19	664D
-015B21	6648
-015B28	4F72
-015B2A	6649
-015B30	5324
-015B38	4974
-015B3E	4041
-015B46	5324
-015B4C	662E
-015B60	4B43
-015B61	4C25
-015B6B	4B6F
-015B78	5127
-015B7E	5324
-015B7F	424F
-015B82	485F
-015B86	7137
-015B8D	4862
-015B9F	4A35
-015BB2	4A35
-015BBB	435C
-015BBC	3F5C
-015BC3	5429
-015BCF	543A
-015BD1	475E
-015BDB	3F6D
-015BDC	447E
-015BE2	475E
-015BE6	4A35
-015BE7	447E
-015BE9	4973
-015BEB	5034
-015BEC	3F6D
-015BF3	3126
-015BF5	3368
-015BF6	3126
-015BFE	3654
-015C02	5728
-015C07	3D2B
-015C08	5728
-015C0B	5130
-015C0D	3654
-015C0E	353C
-015C19	4950
-015C1E	4147
-015C28	417A
-015C2D	5222
-015C37	5E4F
-015C46	3D6C
-015C5B	4641
-015C5C	4C6B
-015C62	4245
-015C64	3263
-015C68	6570
-015C6C	4A74
-015C8B	6127
-015CA1	3854
-015CB4	612B
-015CDD	613C
-015CEF	3765
-015CF4	612D
-015CF6	353A
-015CFD	4F3F
-015D08	3367
-015D0D	6141
-015D17	385A
-015D22	613F
-015D2C	6134
-015D50	6130
-015D57	4B6A
-015D5C	4669
-015D73	614F
-015D81	6150
-015D84	5538
-015D87	612B
-015D8B	353A
-015D8C	353A
-015D97	6140
-015DA0	613D
-015DA7	613B
-015DB8	6149
-015DBA	416B
-015DBC	536C
-015DCB	3F79
-015DD2	424D
-015DD3	615B
-015DD4	615B
-015DE3	3332
-015DF0	5B4F
-015DFA	5963
-015DFB	3E6D
-015E00	5451
-015E0A	4541
-015E0B	563D
-015E12	347C
-015E25	4B27
-015E2B	4A26
-015E2C	4839
-015E2F	3478
-015E30	3969
-015E33	554A
-015E36	3478
-015E40	5621
-015E43	6078
-015E47	306F
-015E48	4641
-015E51	3B55
-015E57	607E
-015E58	607D
-015E5F	5644
-015E63	3152
-015E64	3152
-015E6B	306F
-015E6C	607C
-015E77	3222
-015E81	4C7C
-015E83	3963
-015E92	572F
-015EAB	3F62
-015EBB	4A7C
-015EBD	5422
-015EBF	436D
-015EC1	325E
-015EC2	4F61
-015EC3	374F
-015EC8	4F43
-015EDA	3378
-015EDF	436D
-015EE0	3327
-015EE1	6250
-015EE2	374F
-015EE3	3963
-015EEC	422E
-015EF0	4C7C
-015EF3	4C7C
-015EF5	5132
-015F09	5E4A
-015F0D	3721
-015F10	3721
-015F12	5F31
-015F33	6572
-015F35	5545
-015F37	473F
-015F3E	352F
-015F48	352F
-015F4A	473F
-015F4C	4356
-015F4E	4D64
-015F5B	524D
-015F5C	524D
-015F5E	524D
-015F65	5165
-015F83	4D79
-015F8F	5A6C
-015F91	3E36
-015F93	3453
-015F9E	3453
-015FA0	6162
-015FB3	3542
-015FB4	6167
-015FB9	3339
-015FC8	484A
-015FCE	484A
-015FDC	5326
-015FE2	4E72
-015FF0	6332
-015FFC	3F36
-016018	394C
-016023	5348
-016031	3452
-016033	3B50
-016046	3A63
-016056	4B3C
-016060	3956
-016061	415F
-016065	335C
-016071	5443
-016075	3B5D
-016085	5443
-01608B	415F
-016090	4C68
-016091	3240
-0160A4	3452
-0160A9	4455
-0160AA	3671
-0160B3	3542
-0160B5	626A
-0160B6	4346
-0160D6	4C68
-0160E1	3671
-0160E3	575C
-0160EA	3542
-0160F1	4455
-0160F2	6322
-0160F7	3440
-0160FB	627C
-016119	6321
-01611B	302E
-01611C	632B
-016128	6D28
-01612C	4B5F
-01612F	6324
-016133	3E65
-016134	626B
-016137	627D
-016138	557B
-01613B	5137
-01613C	4977
-01613D	3229
-01613E	6269
-016142	5341
-01614B	4C2C
-01614D	6333
-016158	3252
-016159	3251
-01615A	3251
-01615F	627A
-016163	395F
-016164	6D28
-01616A	6266
-01616B	4B4B
-01616E	4247
-016173	6325
-016176	476C
-016182	5347
-016185	627A
-016187	6D2C
-01618A	3139
-016190	412F
-016191	463E
-016192	6334
-016198	4F32
-016199	4F32
-01619A	352C
-0161A4	375F
-0161AB	4375
-0161AE	6264
-0161B2	4F5C
-0161B6	5264
-0161C3	475A
-0161C7	3F52
-0161C9	5326
-0161CC	6278
-0161D0	3B33
-0161D5	627B
-0161DC	6342
-0161DF	6D21
-0161E3	6D2F
-0161E8	627B
-0161F2	334D
-0161F4	6263
-0161F6	4041
-0161F7	3B33
-0161F8	507C
-0161FA	6263
-0161FC	3E65
-0161FE	4965
-016200	4135
-016207	6D30
-016214	6A27
-01621D	5474
-01621E	6A29
-016220	5B7A
-016226	553D
-016227	6A28
-016229	6A2F
-01622F	4F37
-016230	553D
-016232	4F37
-016236	3B27
-016238	3B27
-01623B	6C65
-016255	3777
-01625E	3A34
-016272	475C
-01627B	4B70
-016283	5E55
-016285	3E50
-01628D	557C
-01629C	304E
-01629D	5E56
-01629E	5471
-0162B8	502E
-0162CB	4557
-0162CF	4443
-0162DD	305D
-0162E1	4029
-016304	4029
-01630D	5023
-016314	4243
-016315	4963
-016319	3E59
-016331	6A7D
-016335	452A
-01633E	502E
-01633F	3265
-016340	4575
-016341	3D41
-016344	3E48
-01635C	4B51
-01636B	5E51
-016374	575C
-01637F	465C
-016383	4928
-016384	4255
-01638B	3556
-016399	5575
-01639B	3952
-0163B2	3D52
-0163BB	4926
-0163C0	3C70
-0163C8	5E64
-0163DA	516F
-0163DB	3B3B
-0163EE	3B53
-0163F7	3265
-0163F9	3133
-016403	575C
-01640D	4B70
-016417	3537
-01642F	4C4D
-016436	4740
-01643C	482D
-01643E	5525
-016442	4963
-01644F	7429
-016451	5E62
-01645C	5E68
-01645F	4227
-016464	4740
-01646F	563F
-016473	3F59
-016476	5E52
-016477	332D
-01647B	3274
-016483	3B77
-016486	4632
-016488	404C
-016490	3345
-016493	4453
-01649F	5E58
-0164A3	3527
-0164A5	3226
-0164A6	3336
-0164AB	3827
-0164B2	464B
-0164B3	5E6C
-0164B9	3D41
-0164BB	4C22
-0164BE	4E4E
-0164BF	3C71
-0164C1	5335
-0164C4	4230
-0164C7	5471
-0164CA	3B77
-0164CB	3532
-0164D1	3D53
-0164D4	3523
-0164E0	3C37
-0164E1	4C27
-0164E5	403F
-0164E7	3E59
-0164EC	4462
-0164EF	3177
-0164F0	4521
-0164F1	3869
-0164F2	5640
-0164F4	4029
-0164F7	5F22
-0164F9	4C2F
-0164FA	305A
-0164FB	4B53
-0164FC	5F23
-0164FE	4845
-0164FF	552A
-016502	405E
-016504	5E73
-016506	446C
-016508	5E5C
-01650F	4223
-016514	4039
-016516	5E7C
-016519	3273
-01651B	5F25
-01651C	502F
-01651D	4963
-01651F	5E5C
-016522	545C
-016523	424E
-016524	4C2F
-016529	3532
-01652A	3D41
-01652C	403F
-016537	3F3C
-01653D	3064
-016542	5F35
-01654D	5070
-01654E	3D4C
-016557	305C
-016558	5070
-016575	3550
-016578	4A7D
-016582	4132
-016583	3150
-016588	5127
-016589	466B
-01658D	3E75
-01658E	552B
-016595	6C35
-0165AC	5536
-0165B7	364F
-0165C9	3773
-0165D1	6C3D
-0165E3	3C48
-0165F3	3544
-0165F8	4163
-0165FD	6A55
-0165FE	343A
-016618	3743
-01661A	4977
-01661C	5174
-01661E	317E
-01662C	3B68
-01663B	303A
-016642	4A31
-016644	3B4E
-016648	7028
-016649	3D7A
-016658	3A35
-01665D	5667
-016665	4D6E
-016669	4D6D
-016673	4E7A
-01667B	3035
-016681	4F7E
-016688	544E
-01668E	5333
-016692	4767
-016698	4163
-01669C	4655
-0166A0	7029
-0166A2	3329
-0166AB	545D
-0166C1	745F
-0166C4	6A4A
-0166C5	6A4A
-0166C7	6A3C
-0166C9	4F7E
-0166D0	5047
-0166D6	6A53
-0166E0	3F75
-0166EC	4939
-0166F5	5237
-0166F8	4A69
-0166FA	325C
-0166FD	5478
-016703	3B61
-016712	6B47
-016716	404A
-01671E	465A
-016722	4D7B
-016727	6B4A
-016736	3664
-016771	362B
-016780	4B49
-016788	6841
-01678F	692A
-0167A0	686B
-0167B4	3955
-0167F5	5524
-0167F9	4A41
-0167FA	3955
-0167FB	3269
-0167FE	6851
-016801	4178
-016804	4859
-016814	4675
-016822	3058
-016852	4923
-01685C	5323
-01685F	553B
-01686E	312D
-01686F	693A
-01687A	4178
-016894	6859
-016896	3134
-016898	6845
-01689D	4C75
-01689F	6849
-0168B9	6944
-0168C3	4066
-0168C4	467A
-0168CA	4665
-0168D6	6847
-0168D7	5466
-0168DF	3630
-0168E5	372E
-0168E7	553B
-0168EC	6870
-0168F2	465C
-0168F7	5E34
-016918	337E
-01691C	3C6C
-016936	5758
-01694A	516E
-016953	3763
-016955	4D56
-016961	535C
-016965	6938
-016968	6865
-01696D	5235
-016973	4337
-016975	3C2B
-01697D	4056
-0169A1	4B58
-0169A2	3C5C
-0169AE	4859
-0169BF	6867
-0169CB	3939
-0169CD	4739
-0169D7	4745
-0169D8	5179
-0169DE	6850
-0169E7	687D
-0169E8	6924
-0169EA	3845
-0169F3	3D30
-016A01	572E
-016A02	4056
-016A05	6848
-016A13	4225
-016A19	316A
-016A1E	4A60
-016A22	5C60
-016A23	5179
-016A29	4828
-016A39	4A77
-016A3A	686B
-016A45	4423
-016A48	6863
-016A4A	4171
-016A4B	4745
-016A5F	3B7A
-016A62	4D56
-016A64	486F
-016A66	3431
-016A6B	3A61
-016A70	6940
-016A81	695D
-016A89	685F
-016A92	3763
-016A94	3535
-016A9A	337E
-016A9C	686D
-016A9D	692E
-016AA2	3C6C
-016AA3	6949
-016AB3	6944
-016AB4	686B
-016AB8	447B
-016ABB	3C77
-016AC3	3971
-016AD3	6956
-016ADA	6935
-016ADB	684E
-016ADD	687C
-016ADE	695A
-016ADF	685D
-016AE5	3377
-016AE7	6946
-016AE8	6853
-016AEA	6840
-016AEC	6934
-016AF3	6850
-016AF5	6954
-016AF8	6937
-016AFA	6879
-016AFB	5323
-016B04	4038
-016B05	6937
-016B0A	4828
-016B0F	6921
-016B12	686F
-016B16	692D
-016B1B	684B
-016B1E	6879
-016B2C	3F48
-016B35	3F6E
-016B38	5A40
-016B3D	4755
-016B42	342D
-016B4D	4E58
-016B50	4537
-016B53	3B36
-016B57	5025
-016B5B	4132
-016B5F	6C23
-016B60	6028
-016B61	3B36
-016B68	323D
-016B69	323D
-016B6B	3E60
-016B6C	4730
-016B6F	335D
-016B71	7560
-016B72	4B6A
-016B73	4B6A
-016B78	3969
-016B7A	3475
-016B7E	5858
-016B7F	6962
-016B98	3250
-016B9E	6966
-016BA4	6964
-016BAB	6969
-016BAE	6967
-016BAF	696B
-016BB1	3C5F
-016BB2	3C5F
-016BBA	4931
-016BBB	3F47
-016BBC	3F47
-016BBD	4F7D
-016BC0	3B59
-016BC6	4539
-016BC9	523D
-016BCE	433F
-016BD1	3D63
-016BD8	457E
-016BFF	6B27
-016C02	6A73
-016C08	5531
-016C0A	5531
-016C0C	6B2A
-016C17	4678
-016C23	4678
-016C2B	4762
-016C2C	6B32
-016C31	5175
-016C33	6B35
-016C37	3179
-016C3B	636E
-016C53	4776
-016C59	4E5B
-016C5A	4E5B
-016C73	636A
-016C78	6468
-016C7A	3E76
-016C92	433B
-016C96	3365
-016C97	4C6D
-016CA2	5473
-016CC1	3F76
-016CF2	3C43
-016D02	523A
-016D13	5755
-016D16	4E39
-016D1F	4C69
-016D24	482A
-016D2F	3D60
-016D34	555C
-016D36	505A
-016D79	6424
-016D87	637E
-016D99	4061
-016DB1	5547
-016DBC	4139
-016DC8	6368
-016DDA	4061
-016DDB	5563
-016DDC	376B
-016DEA	4259
-016DF5	5428
-016DF6	6435
-016DF8	4765
-016DFA	4733
-016E01	5428
-016E07	3F4A
-016E08	3C43
-016E09	4966
-016E0B	492C
-016E13	4F2A
-016E15	5428
-016E19	3B41
-016E1B	3C75
-016E26	4E50
-016E2C	3262
-016E3E	3B6B
-016E57	5D57
-016E5E	6425
-016E6F	4C40
-016E7B	343E
-016E7C	4479
-016E7D	574D
-016E80	427A
-016E88	636D
-016E9D	3935
-016EA4	376B
-016EAB	4E42
-016EBC	4A2A
-016EC4	3257
-016EC5	4370
-016ECC	3553
-016ECE	5C7E
-016ED9	3B63
-016EDB	5279
-016EDD	6371
-016EEC	3B26
-016EEF	564D
-016EF2	4978
-016EF3	354E
-016EF8	6430
-016EFE	3976
-016EFF	427A
-016F01	5366
-016F11	3848
-016F19	4D44
-016F1A	453D
-016F22	3A3A
-016F23	4130
-016F2C	5755
-016F32	5547
-016F35	6453
-016F38	3D25
-016F3F	3D2C
-016F41	7223
-016F44	4A7E
-016F45	3960
-016F51	4643
-016F54	3D60
-016F59	636D
-016F5B	4731
-016F64	4873
-016F6C	4C32
-016F6F	6431
-016F70	4023
-016F77	6464
-016F79	647D
-016F7F	6436
-016F80	492C
-016F81	492C
-016F82	334E
-016F86	3D3D
-016F87	4054
-016F91	416F
-016F97	3D27
-016FA0	6445
-016FA3	643D
-016FA4	5473
-016FAB	453A
-016FAE	642B
-016FB0	6472
-016FB1	356D
-016FC1	5747
-016FC3	4528
-016FD5	4A2A
-016FD8	4522
-016FDF	3C43
-016FE4	4C4E
-016FE8	574C
-016FEB	4044
-016FF0	4E2B
-016FF1	643A
-016FF3	4731
-016FF5	643A
-016FF6	402B
-016FFA	3D26
-016FFC	6378
-016FFE	424B
-017001	517A
-017006	6442
-017009	503A
-01700F	642F
-017013	334E
-017015	3174
-017018	6372
-01701D	4124
-01701F	646C
-017026	6473
-017027	6371
-017028	647E
-01702C	647E
-017032	6472
-01703E	403D
-017043	6363
-017044	645C
-017051	4877
-017055	406C
-017058	4C32
-01705D	6530
-017061	403D
-017063	4D65
-017064	4250
-017067	6459
-01706E	3962
-017074	3A66
-01707D	5456
-01708D	4551
-017097	3962
-0170A4	5555
-0170B2	6C46
-0170BA	4E2A
-0170CF	4E5A
-0170D6	5456
-0170EE	4152
-0170F1	3E3C
-0170F4	4C7E
-017103	3A55
-017108	4E75
-01710F	583D
-017121	4E5E
-017134	6C4F
-01713C	4955
-017149	4136
-017151	5673
-017152	6C3F
-017155	4E75
-017159	514C
-017161	3D7D
-017162	5C64
-017165	3B40
-017169	3733
-01716C	6C3E
-01717C	3334
-017188	4E75
-017192	532B
-017197	6C41
-0171B1	4848
-0171BE	3363
-0171C1	6C47
-0171C8	3546
-0171C9	6C40
-0171CC	3759
-0171D2	4955
-0171D9	4C4C
-0171DC	6C4B
-0171DF	532A
-0171E6	3253
-0171ED	5672
-0171F4	3B62
-0171FC	3D7D
-0171FD	6C62
-0171FE	6C62
-0171FF	522B
-01720D	4B38
-017210	422F
-017213	5166
-017215	5B46
-01721B	4043
-017224	4043
-017225	5672
-01722D	5579
-017232	4E2A
-01723A	522F
-01723C	595E
-01723E	367B
-017240	3432
-017250	5522
-017258	6B39
-01727D	4723
-017282	4067
-017286	4C58
-017287	313C
-017296	5C7D
-01729B	6A73
-0172A0	4E7E
-0172A2	363F
-0172A7	4E7E
-0172B2	3272
-0172B3	312A
-0172C0	5734
-0172CC	5049
-0172E2	3A51
-0172E5	615F
-0172F9	4F41
-0172FD	3137
-017302	3A37
-017312	5161
-017319	5578
-01731F	4154
-017328	5433
-017336	534C
-01733B	6178
-017341	616F
-017343	3474
-017344	537C
-017345	4A28
-01734E	3D31
-017363	4A5E
-017367	617A
-017368	3640
-01736A	6176
-01736B	617D
-017370	447C
-017372	3B71
-017375	4154
-017377	616E
-017378	4A5E
-01737A	4C21
-01737B	4F57
-01737C	6228
-017380	6224
-017385	436E
-0173A8	6765
-0173AA	4155
-0173E1	4759
-0173E4	3126
-0173FE	4F56
-017416	5535
-017439	4759
-01743F	6775
-017447	6769
-01744B	6762
-017458	6770
-017463	4B76
-017464	517E
-017469	5328
-01746A	426A
-01746C	6C3C
-017474	6765
-017489	6776
-01749D	3965
-0174A3	6761
-0174A6	6828
-0174B0	3B37
-0174BD	6774
-0174C8	4127
-0174CA	476D
-0174CF	6767
-0174D4	682C
-0174DA	6836
-0174E1	5634
-0174EB	4568
-017501	463F
-017506	3449
-01750C	6A31
-017515	4E4D
-01751B	4C70
-01751E	3322
-017522	327A
-017523	327A
-017524	5E28
-017542	4436
-017544	4174
-017546	4436
-01755D	4436
-017562	314F
-017563	3470
-01756B	3B2D
-01756C	6E34
-01756D	6E34
-01756E	4436
-017570	526C
-017573	357E
-017575	3B2D
-017576	3531
-01757B	6B73
-017587	336B
-01758A	357E
-01758E	4A68
-017598	3858
-0175A9	3461
-0175D9	3E37
-0175E9	4A5D
-0175F5	3C42
-0175FE	7062
-017609	537A
-01760B	3768
-01760D	5171
-017613	3B3E
-01761E	7079
-017621	342F
-017627	4531
-01762C	554D
-01763A	707C
-01763B	707C
-017642	4146
-017645	4176
-017646	706C
-017647	706F
-017649	7077
-017651	4527
-017652	537A
-017658	705D
-01765F	3171
-017661	3355
-017662	5177
-017664	705C
-017667	705F
-017669	712E
-01766C	5122
-01766D	7128
-01766E	712B
-017670	5338
-017671	4C31
-017672	7132
-017690	385E
-01769A	3028
-0176B7	3944
-0176B8	7164
-0176B9	7164
-0176BA	5665
-0176BC	3944
-0176C7	6E41
-0176CB	3227
-0176DC	3541
-0176DE	5535
-0176E1	3E21
-0176E3	3C60
-0176E4	454C
-0176E7	422C
-0176FB	454E
-01770C	4F58
-01770E	4A3E
-017718	4977
-01771E	5566
-017725	6D76
-01773E	565A
-017742	433C
-01775C	5576
-01775E	6D79
-017764	6E22
-017798	6D6E
-01779E	4277
-0177A4	4B32
-0177B9	6A53
-0177BC	6D7A
-0177C1	3372
-0177D9	6E2B
-0177DA	5675
-0177DE	5A5C
-0177DF	6943
-0177E6	3A6E
-0177EF	3D43
-0177F4	6D56
-017815	4B69
-017836	676A
-017842	6E7D
-01784B	302D
-01784F	5150
-017864	6D4C
-017868	6D3A
-01786F	5162
-0178A9	4B36
-0178AA	5568
-0178AD	6D38
-0178AF	6827
-0178B8	6D3F
-0178BA	4837
-0178BB	4837
-0178BC	426B
-0178C2	4172
-0178DA	5729
-0178E3	6D57
-0178E5	405A
-0178E7	6D53
-0178EF	6D36
-0178F8	6D56
-0178FD	6D4D
-01790E	3421
-017919	302D
-017920	3445
-017926	3F73
-01792A	6D42
-01792B	4079
-01792C	372F
-017931	6D43
-01797F	423B
-01798D	3B76
-01798E	6C75
-0179A5	6C77
-0179A9	6C6B
-0179AA	6C78
-0179AE	4071
-0179B0	6C72
-0179B1	353B
-0179B8	7565
-0179C8	744C
-0179CA	446A
-0179CC	476F
-0179CF	3A44
-0179D0	5445
-0179D7	6240
-0179F6	7452
-017A09	3E2C
-017A2B	3823
-017A2D	3D55
-017A2E	5656
-017A31	3346
-017A32	353E
-017A38	506E
-017A3E	3865
-017A42	4B6B
-017A4C	7655
-017A4D	3B7D
-017A4E	5331
-017A4F	4E48
-017A5C	5656
-017A61	7023
-017A62	3B60
-017A63	7026
-017A64	4534
-017A69	4E48
-017A6D	6F79
-017A6F	7023
-017A82	404E
-017AA9	4E51
-017AAA	4D5D
-017AAE	476E
-017AB4	4C6E
-017AB6	7140
-017ABA	3F7A
-017ABB	3430
-017AC2	653C
-017AC3	546E
-017AC4	345C
-017AC5	474F
-017AC6	476E
-017AC7	713C
-017AC8	546E
-017ACA	4754
-017AD2	4666
-017ADA	5879
-017ADC	417A
-017ADD	3222
-017AE2	5939
-017AEA	4A7A
-017AF6	3E3A
-017AF8	3E3A
-017AFC	4571
-017AFE	7378
-017B27	3261
-017B42	7378
-017B46	314A
-017B4D	4B71
-017B5E	325F
-017B66	395C
-017B67	7348
-017B6D	4B63
-017B6F	7367
-017B7A	3F70
-017B8B	3C63
-017BC0	3D5A
-017BCB	7366
-017BE4	7346
-017BE9	4938
-017BED	417D
-017BF2	6567
-017BF3	7359
-017C00	7365
-017C02	607E
-017C0D	4228
-017C12	345B
-017C18	736F
-017C1E	736C
-017C21	3C72
-017C23	7371
-017C2B	736F
-017C3D	4729
-017C3E	4131
-017C43	403A
-017C44	7371
-017C4C	336F
-017C56	3222
-017C5C	736A
-017C5F	7425
-017C60	417D
-017C64	3222
-017C69	7356
-017C6A	737D
-017C6C	4069
-017C6E	4261
-017C8B	3462
-017C93	636F
-017C9B	4B60
-017CA7	5731
-017CC2	7456
-017CC9	7455
-017CDB	4C47
-017CDD	7456
-017CDE	3760
-017CE3	7456
-017CE7	4138
-017CF2	744F
-017CF4	5961
-017CF6	7450
-017CF9	6679
-017CFA	3E40
-017CFE	3E40
-017D00	3C4D
-017D02	667B
-017D04	543C
-017D05	3A6C
-017D06	667A
-017D07	667C
-017D08	667D
-017D09	4852
-017D0B	4E46
-017D0D	4449
-017D10	4526
-017D13	6723
-017D14	343F
-017D15	6722
-017D17	4934
-017D19	563D
-017D1A	3C36
-017D1B	3757
-017D1C	6721
-017D21	3744
-017D28	383F
-017D30	4F38
-017D31	6726
-017D32	6725
-017D33	4970
-017D39	495C
-017D3A	6724
-017D3C	6728
-017D3F	672A
-017D40	6729
-017D42	5655
-017D43	4F52
-017D44	5769
-017D46	306D
-017D4B	667E
-017D4C	3E2D
-017D4E	672C
-017D50	3D61
-017D55	3E78
-017D56	667E
-017D5D	672B
-017D5E	3D4A
-017D61	4267
-017D62	5124
-017D64	4F5F
-017D66	3878
-017D68	485E
-017D71	4D33
-017D72	4B3F
-017D73	672D
-017D75	3B66
-017D76	3E78
-017D79	3E6E
-017D81	3073
-017D82	4D33
-017D83	672F
-017D86	672E
-017D88	6730
-017D89	5065
-017D8D	6728
-017D8F	4B67
-017D93	3E2D
-017D95	562F
-017D98	376C
-017D99	3C4C
-017D9A	5078
-017D9C	575B
-017DA0	424C
-017DA2	3371
-017DA3	6739
-017DA4	495C
-017DAB	4F5F
-017DAC	6737
-017DAD	4E2C
-017DB0	673A
-017DB1	3859
-017DB2	4D78
-017DB3	3141
-017DB8	425A
-017DB9	6738
-017DBA	6732
-017DBB	5540
-017DBD	3442
-017DBE	6731
-017DBF	4360
-017DC4	6735
-017DC7	673B
-017DCA	3D74
-017DCB	6733
-017DCF	575C
-017DD0	3731
-017DD1	424C
-017DD2	5077
-017DD6	5077
-017DD7	673D
-017DD8	3C6A
-017DD9	673C
-017DDA	4F5F
-017DDC	4360
-017DDD	3C29
-017DDE	3650
-017DDF	5658
-017DE0	355E
-017DE1	6745
-017DE3	5435
-017DE6	6741
-017DE8	3160
-017DE9	3B3A
-017DEC	4365
-017DEF	4E33
-017DF1	6743
-017DF2	673F
-017DF4	4137
-017DF9	673E
-017DFE	3278
-017E01	5435
-017E02	575C
-017E04	497E
-017E08	5D53
-017E09	6746
-017E0A	674B
-017E0B	6744
-017E10	6727
-017E11	674C
-017E1B	383F
-017E1D	6747
-017E1E	6749
-017E1F	6748
-017E23	4F58
-017E26	575D
-017E27	4C50
-017E2B	376C
-017E2D	674A
-017E2E	4B75
-017E31	575D
-017E32	6750
-017E35	674F
-017E36	746A
-017E37	4246
-017E39	674E
-017E3D	575C
-017E3E	3C28
-017E43	3141
-017E45	6752
-017E46	6751
-017E52	6755
-017E54	562F
-017E55	4949
-017E56	4921
-017E59	372D
-017E5A	6754
-017E5B	3442
-017E5E	4846
-017E69	497E
-017E6A	3B66
-017E6D	3C6B
-017E6E	6756
-017E6F	6759
-017E70	6758
-017E73	3D49
-017E79	526F
-017E7C	3C4C
-017E7D	674D
-017E7E	6757
-017E88	6753
-017E89	675A
-017E8A	667E
-017E8C	5078
-017E8F	3278
-017E92	3278
-017E93	5327
-017E98	675A
-017E9C	4042
-017F37	5036
-017F3D	3227
-017F3E	463F
-017F47	6957
-017F4C	733F
-017F53	5868
-017F66	6E37
-017F70	3723
-017F75	426E
-017F77	3055
-017F78	3723
-017F83	5A22
-017F85	425E
-017F86	6E3C
-017F88	6E3F
-017F91	5355
-017F97	473C
-017F99	4340
-017FA3	483A
-017FA5	7447
-017FA8	4F5B
-017FA9	5265
-017FAE	387E
-017FC4	3361
-017FC6	3464
-017FCD	457B
-017FD2	4F30
-017FF6	303F
-017FF9	474C
-017FFA	303F
-018011	364B
-018021	337A
-01802C	716F
-01802E	716C
-018040	5630
-018056	4A25
-01805E	4E45
-01805F	5076
-018061	344F
-018066	344F
-018068	412A
-01806B	412A
-01806E	412A
-01806F	412A
-018070	344F
-018072	4979
-018073	4B4A
-018074	4C7D
-018075	7179
-018076	4474
-018077	5630
-018079	7177
-01807D	4C7D
-01807E	417B
-018085	4B60
-018088	5558
-01808E	3F4F
-0180AC	7060
-0180BB	3F4F
-0180DF	4434
-0180F7	5058
-018103	3460
-01811B	6B56
-01812B	4D51
-018133	4454
-018134	4626
-018139	554D
-01814E	4976
-018156	6B4B
-018161	6B61
-018166	4454
-01816B	5657
-018173	3D45
-018178	3326
-018181	6B49
-018183	6B70
-018193	3326
-01819A	3774
-0181A0	3D3A
-0181A9	4465
-0181AC	3460
-0181B8	4B68
-0181BD	3528
-0181BE	6B5A
-0181BF	4527
-0181C8	4030
-0181C9	4133
-0181CD	466A
-0181CF	6B77
-0181D3	5460
-0181D5	316C
-0181D8	4030
-0181DA	6B4D
-0181DF	5460
-0181E0	5975
-0181E5	4E54
-0181E8	4159
-0181F0	3374
-018203	742A
-018207	536B
-018208	504B
-018209	3E59
-01820A	3E49
-01820B	5046
-01820E	4961
-018216	464C
-018217	464C
-018218	395D
-018229	342C
-018241	546C
-01824A	3230
-018259	3255
-018265	692E
-018266	3D22
-01826B	7435
-018271	3C68
-018276	515E
-018277	515E
-01828C	5373
-018294	3B5C
-0182BB	5B3B
-0182D0	355A
-0182E9	5D62
-018318	4073
-01831D	3671
-01831F	314A
-018330	5D47
-018332	5748
-018345	3470
-018358	572F
-01838A	572F
-01838F	492F
-018391	456E
-018396	3E25
-0183A2	3C54
-0183A7	5C48
-0183AD	3D5A
-0183BE	4327
-0183C4	362B
-0183D3	397B
-0183ED	4C26
-0183EF	3B2A
-0183F7	5663
-01840A	4033
-018415	5C79
-018420	4348
-01842C	4D72
-018432	5D66
-018435	5D2B
-018441	3D2A
-018445	5D4F
-018449	5236
-018452	5D26
-018462	3847
-018464	5D27
-018466	4E2D
-01846A	3C3B
-01846F	5229
-018477	3B67
-018483	572D
-018493	5D3B
-018494	5D2A
-0184AD	5B3B
-0184BC	3254
-0184C0	5D25
-0184CB	3847
-0184EE	412B
-0184EF	5C4A
-0184F4	5D3B
-0184FD	5C6A
-018512	3B67
-018515	3559
-01851E	5D64
-018523	3D2F
-018526	5C60
-01852D	5271
-018535	3258
-018541	5D21
-018545	427E
-018546	5D5B
-01854B	486F
-01854E	5C71
-018552	5D24
-018555	5D35
-018558	5C69
-01855A	5D60
-018562	5D5E
-018569	3534
-01856A	4E5F
-01856B	362D
-01856D	4F74
-018577	5D77
-018588	5C76
-01858A	3C3B
-01858C	5C3C
-018594	473E
-0185A6	3C76
-0185A9	4878
-0185AB	5E39
-0185AC	5229
-0185BA	5C79
-0185BB	5465
-0185CD	4036
-0185CE	5D23
-0185DD	5255
-0185E1	5D36
-0185E5	5229
-0185EA	5E34
-0185F4	544C
-0185F6	5C42
-0185F9	302A
-0185FA	5D7E
-018602	486F
-018604	5E2D
-018606	422B
-018607	4B55
-01860A	544C
-01860B	463B
-01860D	5E39
-018613	4B55
-01861A	5E3A
-01861C	3E55
-01861D	5D7C
-01861E	5D7C
-018622	5C57
-01862D	403C
-018637	5967
-01863F	425C
-018640	6C34
-018641	5967
-01864A	4E65
-018655	3426
-01865B	5069
-01865C	4232
-01865D	3B22
-01865F	3A45
-018667	3F77
-01866F	7230
-018689	4E43
-018698	3B57
-0186A6	7245
-0186CD	5329
-0186E5	7252
-0186FA	724C
-018706	7239
-01870B	726B
-018716	3B57
-01871D	7260
-018728	357B
-018739	7238
-01873A	445E
-018750	6823
-018755	4A34
-01875F	622C
-018766	4F3A
-01876B	725C
-018778	4E4F
-01877F	532C
-018784	724F
-01878E	485A
-01879E	426C
-0187A1	4E43
-0187A2	5329
-0187BB	7277
-0187BE	723E
-0187C1	4E43
-0187C4	555D
-0187C7	7321
-0187C8	7265
-0187CE	727D
-0187DA	7332
-0187E3	7231
-0187EC	3275
-0187EF	724D
-0187F6	7249
-0187F8	733B
-0187FB	524F
-018805	532C
-018806	7232
-01880F	5037
-018810	7253
-018811	726E
-018814	723A
-01881F	402F
-018823	7243
-018829	725C
-018831	3946
-018836	324F
-01883B	4279
-018842	742C
-018846	565A
-018849	3F26
-018853	4A75
-018858	4F4E
-01885B	4E40
-01885E	4E40
-01889E	5972
-0188B5	7145
-0188BF	3953
-0188CA	7441
-0188CC	714A
-0188DC	3239
-0188DD	5730
-0188E0	4839
-0188ED	715D
-0188F5	4561
-018901	397C
-018903	714C
-018932	3F63
-018933	714D
-018938	715A
-01893B	5974
-018943	307D
-018947	7150
-01894D	5453
-018956	3040
-01895D	714F
-018960	7149
-018962	4C3B
-018964	715C
-01896A	4D60
-01896F	3344
-018972	4F2E
-018987	3054
-018988	3A4B
-01898A	6E3F
-01898B	3C7B
-01898F	3966
-018993	4359
-018996	4A53
-018997	4B45
-018998	6A68
-01899A	3E75
-01899C	4C77
-01899D	4F4E
-0189A1	6A6A
-0189A6	6A6C
-0189A7	4040
-0189AA	4757
-0189AC	6A69
-0189AF	6A6D
-0189B2	6A6E
-0189B3	395B
-0189B6	403E
-0189B7	6A6F
-0189BA	3E75
-0189BB	6A6F
-0189BC	403E
-0189BD	4040
-0189BF	6A6B
-0189C0	395B
-0189E7	3D62
-0189F4	757C
-0189F5	7621
-0189F8	3425
-018A02	3629
-018A03	383C
-018A08	3C46
-018A0A	5136
-018A0C	5A27
-018A0E	4C56
-018A10	5A26
-018A13	5135
-018A15	5A28
-018A16	467D
-018A18	3C47
-018A1B	366F
-018A1D	5148
-018A1F	4B4F
-018A23	3E77
-018A25	5A2B
-018A2A	3743
-018A2B	5045
-018A2D	4968
-018A31	506D
-018A33	526B
-018A34	4B5F
-018A36	5A2D
-018A3A	556F
-018A3C	5624
-018A3D	5A38
-018A41	5A2C
-018A46	5A2E
-018A4E	5A2A
-018A50	5529
-018A52	5A31
-018A54	5A2F
-018A55	4640
-018A58	5A30
-018A5B	5767
-018A5E	344A
-018A60	533D
-018A61	5A3C
-018A62	512F
-018A63	5268
-018A64	3B51
-018A66	4A54
-018A69	4A2B
-018A6B	326F
-018A6C	5A38
-018A6D	396E
-018A6E	5A39
-018A70	5A35
-018A71	3B30
-018A72	3843
-018A73	4F6A
-018A76	336A
-018A78	4355
-018A7A	437A
-018A7B	3F29
-018A7C	5A36
-018A7F	5A34
-018A84	5A33
-018A85	566F
-018A86	5A32
-018A87	3F64
-018A88	4E5C
-018A8D	484F
-018A90	4536
-018A91	5A3F
-018A92	5A40
-018A95	352E
-018A98	5355
-018A9A	5A3D
-018A9E	536F
-018AA0	334F
-018AA1	3D6B
-018AA3	4E5C
-018AA4	4E73
-018AA5	5A3E
-018AA6	4B50
-018AA8	3B65
-018AAA	4B35
-018AAC	4B35
-018AAD	3641
-018AB0	4B2D
-018AB2	3F4E
-018AB3	5A30
-018AB6	5A47
-018AB9	374C
-018ABC	526A
-018ABF	3577
-018AC2	5A46
-018AC4	573B
-018AC7	4C38
-018AC9	5A43
-018ACB	476B
-018ACD	5A3A
-018ACF	5A41
-018AD1	5A42
-018AD2	4142
-018AD6	425B
-018AD7	5A45
-018ADB	5A44
-018ADC	357D
-018ADE	5A52
-018AE2	5A3B
-018AE4	5A4C
-018AE6	5A50
-018AE7	5033
-018AE9	4657
-018AEB	5A49
-018AED	5A4D
-018AEE	5A51
-018AF1	3B64
-018AF3	5A4F
-018AF6	5A48
-018AF7	376D
-018AF8	566E
-018AFA	5168
-018AFC	5A4E
-018AFE	4535
-018B00	4431
-018B01	5A4B
-018B02	4E3D
-018B04	4C5C
-018B05	565F
-018B09	396E
-018B0A	3B51
-018B0E	4355
-018B10	5A57
-018B14	5A4A
-018B16	5A55
-018B17	3079
-018B19	472B
-018B1A	5A56
-018B1B	3D32
-018B1D	503B
-018B20	5225
-018B21	5225
-018B28	5A53
-018B2B	5A58
-018B2C	437D
-018B2D	5A59
-018B2E	5F75
-018B33	5A29
-018B39	3D77
-018B3E	4321
-018B3F	3330
-018B49	5624
-018B4B	403E
-018B4D	5326
-018B4E	5A5C
-018B4F	3C25
-018B52	3225
-018B56	5A5A
-018B58	4A36
-018B59	5A5B
-018B5A	4C37
-018B5C	4657
-018B61	5A54
-018B68	5F66
-018B6B	5A5E
-018B6F	526B
-018B70	5269
-018B71	4946
-018B72	4843
-018B74	4734
-018B77	3B24
-018B7D	537E
-018B7E	5A59
-018B80	3641
-018B87	5A46
-018B8A	3164
-018B8D	5A4C
-018B8E	7645
-018B90	7645
-018B92	3277
-018B93	4843
-018B95	403E
-018B96	5A5F
-018B9B	5F3D
-018B9C	5A54
-018B9E	5A5D
-018C48	4671
-018C4A	4071
-018C4E	4A7A
-018C50	3761
-018C53	515E
-018C54	515E
-018C6C	566D
-018C7B	616D
-018C7C	7579
-018C8E	6225
-018C93	4328
-018C9D	3134
-018C9E	556A
-018C9F	5431
-018CA0	383A
-018CA1	3246
-018CA2	3931
-018CA3	347B
-018CA7	4636
-018CA8	3B75
-018CA9	3737
-018CAA	4C30
-018CAB	3961
-018CAC	5470
-018CAD	564A
-018CAE	3721
-018CAF	567C
-018CB0	6A5B
-018CB3	3721
-018CB4	3973
-018CB6	3161
-018CB7	4272
-018CB8	347B
-018CBA	6A5C
-018CBB	3751
-018CBC	4C79
-018CBD	6A5D
-018CBE	3F36
-018CBF	4333
-018CC0	3A58
-018CC1	6A5A
-018CC2	4238
-018CC3	415E
-018CC4	3B5F
-018CC5	6A60
-018CC7	574A
-018CC8	3C56
-018CCA	5474
-018CCD	545F
-018CCE	3C7A
-018CD1	6A62
-018CD2	495E
-018CD3	3176
-018CD6	495E
-018CDA	6A63
-018CDB	545E
-018CDC	344D
-018CDE	494D
-018CE0	4562
-018CE1	6259
-018CE2	4F4D
-018CE3	4274
-018CE4	3C7A
-018CE6	3833
-018CE7	6A66
-018CEA	564A
-018CEB	6A65
-018CEC	554B
-018CED	3644
-018CF4	4035
-018CFA	572C
-018CFB	6A67
-018CFC	393A
-018CFD	487C
-018CFE	5853
-018D01	305C
-018D04	6A5E
-018D05	5738
-018D08	5479
-018D0A	545E
-018D0B	584D
-018D0D	4944
-018D0F	532E
-018D10	6A61
-018D11	3853
-018D12	4F4D
-018D13	545F
-018D16	4A6A
-018D17	584D
-018D1B	3853
-018D1C	545F
-018D95	384F
-018D99	5554
-018DA8	4777
-018DAB	332C
-018DB2	7475
-018DE1	3C23
-018DE5	3665
-018DF4	3248
-018E08	4A68
-018E10	3C79
-018E28	5759
-018E32	365D
-018E34	533B
-018E36	7558
-018E46	4D48
-018E4C	7544
-018E4F	4C63
-018E55	754F
-018E5D	656F
-018E5E	754D
-018E63	7567
-018E64	5759
-018E6E	7551
-018E77	756A
-018E7A	754E
-018E89	753B
-018E8A	336C
-018E8B	7552
-018E8D	543E
-018E91	755C
-018E93	7559
-018E9A	7551
-018EA1	7566
-018EA5	345A
-018EA6	7572
-018EA7	656F
-018EAA	756F
-018EAD	3522
-018EB0	4C65
-018EB1	3663
-018EB7	302B
-018EC0	477B
-018EC1	594D
-018EC4	5630
-018EC6	4C65
-018ECA	3335
-018ECB	547E
-018ECC	396C
-018ECD	3E7C
-018ED2	5079
-018ED4	696D
-018EDB	696E
-018EDF	486D
-018EE2	572A
-018EE4	6975
-018EEB	6974
-018EF0	3132
-018EF2	696F
-018EF6	696E
-018EF8	5661
-018EFA	6977
-018EFB	6970
-018EFC	6973
-018EFD	4761
-018EFE	6978
-018F03	3D4F
-018F05	697B
-018F09	5458
-018F0A	6979
-018F12	697C
-018F14	3828
-018F15	4761
-018F19	697C
-018F1B	413E
-018F1C	6A22
-018F1D	3B54
-018F1E	697E
-018F1F	6A21
-018F25	3975
-018F26	697D
-018F29	3132
-018F2A	4256
-018F2D	486D
-018F2F	3C2D
-018F33	6A23
-018F38	4A64
-018F3A	6A22
-018F3B	3778
-018F3E	5537
-018F3F	535F
-018F42	6C31
-018F44	4F3D
-018F45	542F
-018F46	6A24
-018F49	572A
-018F4D	555E
-018F4E	3D4E
-018F54	6A25
-018F5F	3A64
-018F61	604E
-018F62	6976
-018F64	6971
-018F9D	3447
-018FA2	4031
-018FA4	3447
-018FA5	5126
-018FA6	306C
-018FAC	305F
-018FAD	3447
-018FAE	3168
-018FAF	3167
-018FB2	4529
-018FBA	315F
-018FCA	532D
-018FE0	3D28
-018FEC	4D79
-018FEF	4C53
-019008	6544
-01900E	6559
-019013	355D
-019019	5562
-019023	412C
-019024	6636
-019029	313C
-01902C	3145
-019032	3D78
-019037	6551
-01903A	5436
-019040	4B66
-019045	3359
-019049	556C
-01904B	544B
-01904C	6543
-01904E	397D
-019054	346F
-019055	4E25
-019059	5223
-01905C	5137
-01905E	355D
-019060	5436
-019061	4B5D
-019069	4A4A
-019072	3359
-019077	4728
-019078	5121
-01907A	5245
-01907C	4149
-019081	4275
-019084	3B39
-019087	6547
-019089	315F
-01908A	315F
-01908F	425F
-019090	654E
-0190A8	3465
-0190DE	4049
-0190DF	5B23
-0190F0	5A6E
-0190F1	3531
-0190F5	534A
-0190F7	4F67
-019106	5B29
-019109	4F67
-01910A	4F67
-019112	575E
-019114	5A79
-019115	4F67
-019116	5447
-019127	354B
-01912D	5623
-019130	415A
-019132	3526
-019134	5A7E
-019136	5B26
-01913A	5A77
-019148	5B2A
-019154	576D
-019159	5565
-019167	336A
-01917C	7530
-019196	544D
-01919E	544D
-0191A4	3D34
-0191AB	523D
-0191AC	3D34
-0191B8	4470
-0191BB	336A
-0191C0	4470
-0191C1	5046
-0191C3	7527
-0191C5	7526
-0191C8	4A4D
-0191CB	4A4D
-0191D2	6E44
-0191D3	6E45
-0191D4	6E46
-0191D5	6E49
-0191D7	6E48
-0191D8	3624
-0191D9	6E47
-0191DD	556B
-0191E1	382A
-0191E3	3576
-0191E4	6E4C
-0191E7	6E4B
-0191E9	3730
-0191F5	6E4E
-0191F7	6E4A
-0191F9	6E4F
-0191FA	4725
-019200	6E59
-019201	6E55
-019203	3E21
-019204	6E57
-019206	4726
-019207	382B
-019208	6E50
-019209	4446
-01920D	365B
-01920E	3933
-019210	6E54
-019214	332E
-019215	4525
-01921B	3978
-01921E	3E7B
-01921F	3576
-019223	3846
-019225	6E58
-019226	6E51
-019227	6E56
-01922E	6E6A
-019230	6E66
-019233	6E5D
-019234	4165
-019237	6E5C
-019238	6E60
-019239	6E6B
-01923A	6E5A
-01923D	6E5F
-01923E	534B
-01923F	6E64
-019240	3C58
-019244	4C7A
-019248	6E68
-019249	6E67
-01924D	6E69
-019251	322C
-019255	6E5E
-019257	472F
-01925A	432D
-01925B	4726
-01925C	6F42
-01925E	6E61
-01925F	6E6B
-019262	3227
-019264	3933
-019266	6E5B
-01926C	6E62
-01926D	6E63
-019278	3D42
-01927A	6E6F
-01927B	3875
-01927F	6E7E
-019280	5278
-019281	3E7B
-019283	6F25
-019285	4D2D
-019291	4F33
-019292	3E21
-019293	6E7D
-019296	6E79
-019298	437A
-01929A	6F22
-01929C	4F4E
-01929E	3E7B
-0192A0	6E6E
-0192A3	6F28
-0192A5	523F
-0192A6	6E77
-0192A8	6F27
-0192A9	6E7B
-0192AA	6E70
-0192AB	6F24
-0192AC	6E6D
-0192AD	472E
-0192B1	6E76
-0192B3	4871
-0192B5	6F2C
-0192B7	4F7A
-0192B9	5062
-0192BB	4C60
-0192BC	6F31
-0192C1	4241
-0192C3	6F36
-0192C5	503F
-0192C7	3135
-0192CC	6E7A
-0192CF	6E72
-0192D1	6F54
-0192D2	3766
-0192DF	6F37
-0192E4	337A
-0192E5	6F2D
-0192E6	6F38
-0192E8	6F30
-0192EA	464C
-0192ED	4871
-0192EF	6F2F
-0192F0	6F2E
-0192F1	6F2B
-0192F3	567D
-0192F8	3E62
-0192FC	3856
-019301	6F3E
-019304	423C
-019306	6F3A
-019307	6F42
-019308	6F43
-019310	5736
-019312	6F39
-019315	6F3F
-019318	3438
-019319	6F45
-01931A	6F23
-01931B	6F3C
-019320	3627
-019322	472E
-019326	3D75
-019328	432A
-01932B	4E7D
-01932E	6F40
-01932F	346D
-019332	423C
-019333	434C
-019338	6F2A
-019340	6F3D
-019341	4F47
-019346	6E4D
-019347	6F47
-01934B	3978
-01934D	3646
-019354	6F49
-019358	5521
-01935B	6C51
-019364	6F4A
-019365	6F46
-019369	6F3B
-01936B	4742
-01936C	4742
-019370	6F4C
-019375	3C7C
-019376	6F48
-01937A	5560
-01937F	6F45
-019382	433E
-019384	6F4D
-019387	6F51
-01938A	3077
-019392	7171
-019396	4B78
-019398	6F53
-019399	6943
-01939A	3438
-01939C	454C
-0193A0	3856
-0193A2	4E59
-0193A3	5D76
-0193A6	6F56
-0193A7	6E78
-0193A9	6F21
-0193AA	6F4B
-0193AC	3864
-0193AD	5572
-0193AE	5572
-0193B0	6F57
-0193B3	4478
-0193B5	6F58
-0193B8	6F54
-0193BB	4B78
-0193BF	6F55
-0193C3	6F5F
-0193C8	4134
-0193C9	6F4B
-0193D1	6F61
-0193D7	6F2C
-0193D8	6F4F
-0193DC	6F5B
-0193DD	6F5C
-0193DE	6F5E
-0193DF	3279
-0193E0	3766
-0193E1	3E35
-0193E2	6F5A
-0193E4	6F4E
-0193E8	7649
-0193E9	7649
-0193EC	7341
-0193F3	6F23
-0193F5	6E7C
-0193F7	6F64
-0193F9	6F6A
-019403	6E73
-019410	414D
-019412	6F29
-019413	6F66
-019419	6F6B
-01941D	6F63
-01941E	7171
-019420	6F68
-019426	6F34
-019427	6F35
-019428	6F50
-01942B	6F54
-01942E	412D
-019432	6F6D
-019433	4058
-019435	4C7A
-019438	6E6C
-01943A	6E75
-01943F	6F6E
-019443	6F22
-019444	567D
-019449	3C58
-01944A	6F6C
-01944C	6F59
-019452	3C78
-019454	6F6F
-01945A	576A
-019460	6E65
-019463	6F70
-019465	6F65
-01946D	6F67
-019470	543F
-019472	4F62
-019473	3C7C
-019475	395E
-019477	4477
-019479	6F69
-01947C	4260
-01947D	576A
-01947E	7647
-01947F	5464
-019498	3E21
-019577	3324
-019578	3324
-019580	4345
-019582	6345
-019583	4941
-019586	5156
-019587	3155
-019589	3155
-01958B	3F2A
-01958F	4872
-019591	4F50
-019593	3C64
-019594	6349
-019598	5522
-019599	4456
-01959E	3958
-0195A1	3A52
-0195A2	3958
-0195A3	3873
-0195A5	3727
-0195A8	396B
-0195A9	4376
-0195AB	634D
-0195AC	634F
-0195AD	634C
-0195B1	5444
-0195B2	5444
-0195B6	6351
-0195B7	4931
-0195B9	514B
-0195BB	5156
-0195BC	6355
-0195BD	6354
-0195BE	6350
-0195BF	6353
-0195C3	6356
-0195C8	6347
-0195CA	402B
-0195CB	6357
-0195CC	403B
-0195D0	6359
-0195D4	6358
-0195D5	635A
-0195D6	3433
-0195D7	3958
-0195D8	3637
-0195DC	3958
-0195DE	635B
-0195E1	327B
-0195E5	634B
-019623	5259
-019627	3638
-019641	4D53
-01964F	4B65
-019657	474D
-019658	5A6A
-01965D	4942
-019663	5573
-019665	4F5D
-019670	5275
-019673	3342
-019678	423D
-01967A	4F55
-01967D	5174
-01967F	4F41
-019684	354C
-019689	5A6D
-01968A	3653
-01968E	3D57
-019695	5449
-01969B	3C4A
-01969F	4F36
-0196A0	527E
-0196A3	415A
-0196A8	4B66
-0196AA	4F55
-0196B1	527E
-0196B4	4224
-0196B7	4125
-0196B8	4125
-0196BA	3A57
-0196CB	7641
-0196D1	5453
-0196D6	4B64
-0196D9	4B2B
-0196DB	337B
-0196DC	5453
-0196DD	533A
-0196DE	3C26
-0196E2	406B
-0196E3	4451
-0196E7	3C2F
-0196F0	3755
-0196FA	4E6D
-0196FB	3567
-01970A	4169
-019711	5534
-019717	4163
-01971A	4E6D
-01971B	4169
-019727	4E6D
-019736	6468
-01973D	762B
-019742	7628
-019744	7630
-019748	4169
-019751	4760
-01975A	7626
-01975C	3E32
-019768	584C
-019775	4526
-01977D	306D
-01978C	3030
-01978F	392E
-019795	5332
-0197A9	474A
-0197B5	502C
-0197BD	7733
-0197BE	5125
-0197C1	6756
-0197C3	7732
-0197C8	4D60
-0197C9	7735
-0197CB	4E24
-0197CC	484D
-0197D3	3A2B
-0197D9	6838
-0197DB	7739
-0197DC	683A
-0197DE	6839
-0197E4	4D60
-0197EE	3E42
-0197F2	6C34
-0197FB	544F
-0197FF	4F6C
-019801	5233
-019802	3625
-019803	476A
-019805	4F6E
-019806	4B33
-019807	717C
-019808	506B
-01980A	676F
-01980B	394B
-01980C	4B4C
-01980E	717D
-01980F	717E
-019810	5424
-019811	4D67
-019812	3064
-019813	3659
-019817	4644
-019818	416C
-01981A	3E31
-01981C	7222
-01981F	366E
-019821	7221
-019824	5243
-019826	7224
-01982D	4D37
-019830	3C55
-019834	5331
-019837	7225
-019838	3E31
-019839	4D47
-01983B	4635
-01983C	4035
-01983D	4D47
-01983F	775A
-019846	3F45
-019847	6332
-01984C	4C62
-01984D	366E
-01984E	7226
-01984F	5155
-019850	5A3B
-019853	7227
-019854	5155
-019855	4F54
-019859	722A
-01985A	355F
-01985B	355F
-01985E	4060
-019862	7229
-019865	722B
-019866	633E
-019867	394B
-01986B	327C
-01986C	722C
-01986F	4F54
-019870	722D
-019871	422D
-019873	7228
-019874	4827
-0198A8	3767
-0198AF	6C2A
-0198B6	6C2B
-0198BC	6C2C
-0198C4	462E
-0198C6	6C2D
-0198C7	6C2D
-0198C8	6C2D
-0198DB	3749
-0198DC	372D
-0198E2	3C22
-0198E9	623D
-0198EA	623F
-0198EB	6240
-0198EC	5178
-0198ED	6241
-0198EE	527B
-0198EF	3739
-0198F0	3739
-0198F2	527B
-0198F4	6242
-0198FC	4B47
-0198FD	3125
-0198FE	4A4E
-019901	623F
-019903	3D48
-019905	317D
-019908	7452
-019909	6243
-01990A	5178
-01990C	367C
-019911	6244
-019912	4459
-019913	3676
-01991A	6B48
-01991B	6246
-01991D	4A4E
-01991E	3D24
-019920	317D
-019921	4F5A
-019928	395D
-01992B	6246
-01992C	5764
-019931	7457
-019933	623C
-019937	6247
-019939	4C47
-01993B	3862
-01993C	623E
-01993E	4173
-01993F	6248
-019943	6249
-019945	4278
-019948	624A
-019949	624B
-01994A	624C
-01994B	4021
-01994C	624D
-019951	3C22
-019952	4844
-019957	774F
-01995C	7750
-01995E	3276
-01995F	624E
-0199AC	426D
-0199AD	5426
-0199AE	376B
-0199B1	4D54
-0199B3	335B
-0199B4	5131
-0199C1	3235
-0199C4	4D54
-0199C5	6664
-0199C6	477D
-0199C8	477D
-0199D0	5724
-0199D1	6665
-0199D2	3E54
-0199D4	6660
-0199D5	3C5D
-0199D8	6666
-0199D9	6662
-0199DB	4A3B
-0199DD	4D55
-0199DE	4D55
-0199DF	6661
-0199E1	426E
-0199E2	6669
-0199E6	4C5A
-0199ED	3A27
-0199EE	3235
-0199F1	4266
-0199F4	3A27
-0199FF	3F25
-019A01	3352
-019A05	666D
-019A08	6669
-019A0C	5757
-019A0D	666C
-019A0E	466F
-019A0F	666B
-019A10	5169
-019A12	4927
-019A13	5169
-019A16	6670
-019A17	462D
-019A19	462D
-019A23	5757
-019A2B	6539
-019A2D	666F
-019A2E	6672
-019A30	4C5A
-019A36	6663
-019A37	4927
-019A38	6673
-019A3E	4262
-019A40	5D6B
-019A41	6671
-019A42	666E
-019A43	6674
-019A44	6675
-019A45	477D
-019A4A	6668
-019A4D	6667
-019A55	3D3E
-019A57	5169
-019A58	4262
-019A5A	3E2A
-019A5B	6664
-019A5F	5668
-019A62	423F
-019A64	6678
-019A65	6677
-019A6A	666A
-019A94	5757
-019AAF	3039
-019AC4	4B68
-019ACF	7743
-019AD4	4C65
-019AD5	7746
-019AD6	7745
-019AD9	385F
-019AE0	7755
-019AE3	3742
-019B00	4C6A
-019B02	775E
-019B04	4C6A
-019B22	775E
-019B25	3637
-019B27	4456
-019B29	6352
-019B2A	3637
-019B2D	3637
-019B2E	634E
-019B4E	774B
-019B58	774A
-019B5A	5363
-019B6F	4233
-019B72	7654
-019B74	7650
-019B77	764F
-019B81	7651
-019B83	7652
-019B89	7674
-019B8E	7653
-019B90	7658
-019B91	312B
-019B92	7656
-019B9A	765A
-019B9D	765F
-019BAA	765B
-019BAB	765E
-019BAD	7659
-019BAE	4F4A
-019BC0	7667
-019BC1	7661
-019BC7	7669
-019BC9	4070
-019BCA	7668
-019BCB	7668
-019BD4	7676
-019BD6	766B
-019BD7	765F
-019BDB	7674
-019BE1	766E
-019BE2	7672
-019BE4	766F
-019BE7	7670
-019BE8	3E28
-019BEA	766C
-019BEB	766D
-019BF0	7673
-019BFD	766A
-019BFF	767D
-019C00	7669
-019C08	7678
-019C09	767C
-019C0D	767A
-019C10	7679
-019C12	767B
-019C13	487A
-019C15	4F3A
-019C23	7665
-019C25	7724
-019C28	7723
-019C2D	7722
-019C31	7663
-019C32	7721
-019C33	7726
-019C35	772A
-019C37	7666
-019C39	7664
-019C3B	7729
-019C3E	7727
-019C45	772B
-019C48	7728
-019C49	316E
-019C51	767C
-019C52	772E
-019C54	772D
-019C56	772C
-019C57	415B
-019C58	7660
-019C5F	7657
-019C65	772C
-019C67	772F
-019C6D	765D
-019C76	765F
-019C77	7679
-019C78	7654
-019C7A	7662
-019CE5	4471
-019CE7	596C
-019CE9	702F
-019CEB	5163
-019CEC	596C
-019CF3	376F
-019CF4	4379
-019CF6	7030
-019D06	7032
-019D07	7031
-019D08	5163
-019D09	513B
-019D15	4D52
-019D1B	5427
-019D1D	7036
-019D1F	7037
-019D23	7033
-019D26	516C
-019D28	513C
-019D2C	5D3A
-019D2F	7039
-019D30	703B
-019D39	4F68
-019D3B	3A68
-019D3F	386B
-019D42	703C
-019D44	7037
-019D49	703D
-019D51	3E69
-019D52	7041
-019D53	703E
-019D5C	7043
-019D5D	366C
-019D5E	366C
-019D60	7040
-019D61	7044
-019D6A	7046
-019D6C	4574
-019D72	4835
-019D87	7034
-019D89	7048
-019D8F	3C26
-019D93	7045
-019D98	7049
-019D9A	704A
-019DA5	704C
-019DA9	704D
-019DAF	5D3A
-019DB4	3A57
-019DB5	337B
-019DBB	773D
-019DBC	704F
-019DC0	704B
-019DC2	704E
-019DC4	3C26
-019DD3	7051
-019DD7	4538
-019DD9	703A
-019DDA	7052
-019DE5	7038
-019DE6	7054
-019DEF	7053
-019DF2	7055
-019DF3	7042
-019DF8	7056
-019DF9	5325
-019DFA	7058
-019E15	7035
-019E16	3A57
-019E1A	7050
-019E1B	7059
-019E1D	703F
-019E1E	703D
-019E75	4231
-019E78	3C6F
-019E7A	753A
-019E7C	3C6F
-019E7D	514E
-019E90	776B
-019E97	4076
-019EA2	4167
-019EA5	4273
-019EA9	746F
-019EB1	746F
-019EC3	3B46
-019ECC	5964
-019ED2	3A5A
-019ED9	442C
-019EDE	3563
-019EE8	3533
-019EF1	776C
-019EF7	7772
-019EFD	763C
-019EFF	763D
-019F05	5629
-019F08	316E
-019F09	763E
-019F11	3626
-019F14	3944
-019F15	5F4B
-019F21	4A73
-019F26	7575
-019F45	5061
-019F47	777E
-019F4A	466B
-019F4B	552B
-019F4F	6C34
-019F52	335D
-019F54	7633
-019F59	7635
-019F5C	7637
-019F5F	7634
-019F60	7636
-019F61	4164
-019F62	4164
-019F66	7638
-019F6A	763A
-019F6C	7639
-019F72	4823
-019F76	6B71
-019F77	763B
-019F8D	417A
-019F90	4553
-019F94	3928
-019F95	6D68
-019F9C	396A
-01F900	4671
-01F901	387C
-01F902	3335
-01F903	3C56
-01F904	3B2C
-01F905	342E
-01F906	3E64
-01F907	396A
-01F908	396A
-01F909	4675
-01F90A	3D70
-01F90B	402E
-01F90C	444E
-01F90D	4041
-01F90E	712E
-01F90F	425E
-01F910	425C
-01F911	425D
-01F912	4263
-01F913	425F
-01F914	4056
-01F915	4265
-01F916	4053
-01F917	6773
-01F918	4264
-01F919	4052
-01F91A	4266
-01F91B	4252
-01F91C	4251
-01F91D	4038
-01F91E	4043
-01F91F	403C
-01F920	703D
-01F921	6130
-01F922	4044
-01F923	4036
-01F924	715C
-01F925	402D
-01F926	4030
-01F927	402F
-01F928	4048
-01F929	404A
-01F92A	404B
-01F92B	4047
-01F92C	4049
-01F92D	4034
-01F92E	4064
-01F92F	404D
-01F930	4230
-01F931	6956
-01F932	422F
-01F933	422C
-01F934	404F
-01F935	422B
-01F936	4232
-01F937	4237
-01F938	4236
-01F939	4233
-01F93A	7058
-01F93B	4235
-01F93C	423B
-01F93D	424C
-01F93F	423C
-01F940	4239
-01F941	425B
-01F942	4222
-01F943	452A
-01F944	417D
-01F945	417B
-01F946	404E
-01F947	405A
-01F948	4238
-01F949	4057
-01F94A	405D
-01F94B	4245
-01F94C	4225
-01F94D	4061
-01F94E	4229
-01F94F	405B
-01F950	4246
-01F951	422A
-01F952	4055
-01F953	405F
-01F954	415D
-01F955	4168
-01F957	6731
-01F958	4162
-01F959	416A
-01F95A	3641
-01F95B	4443
-01F95C	4056
-01F95D	4535
-01F95E	3524
-01F95F	447E
-01F960	452D
-01F961	424A
-01F962	526C
-01F963	3131
-01F965	3163
-01F967	323B
-01F968	435A
-01F969	4A7D
-01F96A	4B77
-01F96B	324E
-01F96C	487B
-01F96D	4A21
-01F96E	5236
-01F96F	4B35
-01F970	4931
-01F971	333D
-01F972	4972
-01F973	4A30
-01F974	4874
-01F975	4253
-01F976	4254
-01F977	4141
-01F978	413D
-01F979	4139
-01F97A	413A
-01F97B	4138
-01F97C	413C
-01F97D	4142
-01F97E	413F
-01F97F	4078
-01F981	452E
-01F982	422E
-01F983	4243
-01F984	424B
-01F985	6D42
-01F986	634C
-01F987	666A
-01F988	4076
-01F989	4068
-01F98A	4126
-01F98D	6976
-01F98E	446A
-01F98F	412F
-01F990	4135
-01F992	4130
-01F993	4136
-01F994	6776
-01F995	446A
-01F996	4137
-01F997	412A
-01F998	697D
-01F999	412B
-01F99A	412C
-01F99C	4150
-01F99D	4153
-01F99E	514A
-01F99F	4152
-01F9A0	4151
-01F9A1	4B35
-01F9A2	412E
-01F9A3	446E
-01F9A4	446D
-01F9A5	6967
-01F9A6	4131
-01F9A7	4154
-01F9A8	416E
-01F9A9	6072
-01F9AA	447E
-01F9AB	416B
-01F9AC	412F
-01F9AD	4161
-01F9AE	5328
-01F9AF	4167
-01F9B0	7176
-01F9B1	4165
-01F9B2	4163
-01F9B3	4169
-01F9B4	416C
-01F9B5	407D
-01F9B6	4071
-01F9B7	7537
-01F9B8	4125
-01F9B9	3671
-01F9BA	414B
-01F9BB	4145
-01F9BC	653C
-01F9BD	4472
-01F9BE	414F
-01F9BF	4056
-01F9C0	4147
-01F9C1	4146
-01F9C2	5E24
-01F9C3	4149
-01F9C4	417A
-01F9C5	544E
-01F9C6	486E
-01F9C7	4175
-01F9C9	4178
-01F9CA	4177
-01F9CB	416F
-01F9CC	4170
-01F9CD	4174
-01F9CE	4172
-01F9CF	4526
-01F9D0	4060
-01F9D1	4179
-01F9D2	423E
-01F9D3	423D
-01F9D4	4257
-01F9D6	4259
-01F9D7	4256
-01F9D8	4249
-01F9DA	4075
-01F9DB	424A
-01F9DC	4221
-01F9DD	407B
-01F9DE	4074
-01F9DF	4244
-01F9E0	5257
-01F9E1	406E
-01F9E2	4066
-01F9E3	4460
-01F9E4	406D
-01F9E5	4121
-01F9E6	6E3E
-01F9E9	406F
-01F9EA	406B
-01F9EB	4464
-01F9EC	4467
-01F9ED	415F
-01F9F0	5D7E
-01F9F1	415A
-01F9F2	415B
-01F9F3	776B
-01F9F4	4156
-01F9F5	415C
-01F9F6	4159
-01F9F7	4122
-01F9F8	7352
-01F9F9	4123
-01F9FA	5734
-01F9FB	564B
-01F9FC	4A36
-01F9FD	4A32
-01F9FE	3268
-01F9FF	344C
-01FA00	4750
-01FA01	3648
-01FA02	4D58
-01FA03	4C47
-01FA04	552C
-01FA05	3634
-01FA06	3129
-01FA07	3778
-01FA08	5050
-01FA09	3D35
-01FA0A	3C7B
-01FA0B	402A
-01FA0C	5823
-01FA10	5A23
-01FA11	4669
-01FA12	4767
-01FA15	4E75
-01FA16	566D
-01FA17	5266
-01FA18	4071
-01FA19	4971
-01FA1A	4F69
-01FA1B	3823
-01FA1C	3E38
-01FA1D	3E2B
-01FA1E	5370
-01FA22	566E
-01FA25	525D
-01FA26	363C
-01FA2A	3739
-01FA2B	4B47
-01FA2C	395D
-01FA2D	3A57
-01FA2E	4049
-01FA2F	4125
-01FA30	4E6A
-01FA31	492E
-01FA32	4362
-01FA33	4363
-01FA34	475A
-01FA35	3130
-01FA36	3A48
-01FA37	4C3E
-01FA38	4677
-01FA3A	442B
-01FA3B	3263
-01FA3D	3B5A
-01FA3E	3F2E
-01FA3F	5477
-01FA40	334D
-01FA41	4374
-01FA42	3C48
-01FA43	4A6E
-01FA44	4337
-01FA45	3A23
-01FA46	643E
-01FA47	3A3A
-01FA48	5673
-01FA4A	5741
-01FA4B	312E
-01FA4C	4967
-01FA4D	6C6D
-01FA4E	466D
-01FA50	5766
-01FA51	5723
-01FA52	3B76
-01FA53	6C75
-01FA55	4D3B
-01FA56	3D5A
-01FA57	4137
-01FA58	6746
-01FA59	3731
-01FA5A	4A70
-01FA5B	555F
-01FA5C	3374
-01FA5D	5C33
-01FA5E	5C33
-01FA5F	5745
-01FA60	3A56
-01FA61	4A53
-01FA62	5A4B
-01FA63	3D77
-01FA64	3176
-01FA65	5479
-01FA66	6541
-01FA67	525D
-01FA68	4451
-01FA69	4F6C
-01FA6A	4635
-01FA6B	3B5D
-01FA6C	4E75
-01FA6D	395D
-01FA70	3222
-01FA71	3F76
-01FA72	482B
-01FA74	3364
-01FA75	3C3D
-01FA76	5342
-01FA77	4957
-01FA78	3A48
-01FA79	5F7B
-01FA7A	6039
-01FA7B	3A4F
-01FA7C	5A23
-01FA7D	3758
-01FA7E	5159
-01FA7F	313C
-01FA80	663E
-01FA81	4F72
-01FA82	625A
-01FA84	324A
-01FA85	6166
-01FA86	632F
-01FA87	4977
-01FA88	537A
-01FA89	5477
-01FA8B	334D
-01FA8C	3477
-01FA8D	5E6D
-01FA8E	4B51
-01FA8F	5E70
-01FA90	303D
-01FA91	4767
-01FA92	404A
-01FA93	4D7B
-01FA94	5548
-01FA95	3475
-01FA96	4931
-01FA97	4177
-01FA98	5279
-01FA99	574C
-01FA9A	3A3A
-01FA9C	5673
-01FA9D	4746
-01FA9E	3E74
-01FA9F	3738
-01FAA0	566D
-01FAA2	3449
-01FAA3	3B2D
-01FAA5	4E41
-01FAA6	5266
-01FAA7	4A22
-01FAA8	5631
-01FAAA	5745
-01FAAD	3D5A
-01FAAE	4060
-01FAB0	4137
-01FAB1	463F
-01FAB2	555F
-01FAB3	3B44
-01FAB4	3B2A
-01FAB6	715F
-01FAB7	3832
-01FAB8	4A53
-01FAB9	3577
-01FABA	566E
-01FABB	476B
-01FABC	5A4B
-01FABD	4535
-01FABE	5A4D
-01FABF	3D77
-01FAC0	3164
-01FAC1	5479
-01FAC2	4A64
-01FAC3	3359
-01FAC7	4451
-01FAC8	3E38
-01FAC9	7739
-01FACA	4F6C
-01FACB	394B
-01FACC	4635
-01FACE	396A
-01FAD3	6B76
+01020003	C7D2
+0102000B	D5C9
+01020019	C0F6
+0102001A	B2BB
+01020024	B2A2
+01020029	CDA1
+01020066	D6D0
+010200DE	C0F1
+01020107	C0D2
+01020121	CEE5
+01020162	D9F1
+01020169	CAEB
+01020187	B0C2
+0102018C	D3B9
+010201B0	D8EB
+010201DA	BCD7
+010201FE	D0DD
+0102020E	B3DE
+01020213	C1A9
+01020223	C0CF
+01020255	CAB9
+01020256	D9B0
+0102026E	BEEB
+01020293	B0F8
+01020296	C0FD
+010202B1	BAF2
+010202B3	B1E3
+010202B6	EBF4
+010202BE	EEA5
+010202D2	C3FC
+010202E3	D2D0
+010202FC	D9B6
+0102033C	D2DA
+0102035F	BFC9
+0102036C	D9BE
+0102037B	D9B1
+010203D7	C1C5
+010203EC	D9B7
+0102041A	D9B3
+0102041B	D9D8
+0102043F	DEB0
+01020472	D9DD
+0102047D	B3E4
+01020486	B6F9
+010204B0	E6D5
+010204B1	C6A7
+01020540	D8E8
+01020545	D4D9
+01020549	D1A8
+0102054B	B2E1
+0102054D	B9D9
+01020575	BFBA
+010205A0	B9C5
+01020615	CEF5
+01020621	C1DD
+01020624	C0E4
+01020632	B4F3
+01020636	B7F1
+01020675	BFDA
+01020678	B8CA
+01020692	B3DD
+010206D2	D8DA
+010206EC	D0CC
+01020707	BFCC
+01020713	CCDE
+01020728	DBC0
+01020738	BCC1
+0102073A	C1D0
+0102073E	D8E3
+010207AB	BFCC
+01020832	C1A6
+010208C1	C0CD
+010208D9	D1AE
+010208DE	BEFC
+010208E9	D4BC
+010208F5	D9EB
+0102092C	D8CE
+01020971	D4C2
+01020983	D8A6
+01020984	BBDC
+01020987	BAA5
+01020993	D8A7
+010209B6	B8EF
+010209DE	D5D7
+010209E8	BECC
+010209E9	BBDA
+010209EA	D8D5
+01020A0D	C7E4
+01020A1E	C7E4
+01020A2E	D8C6
+01020A30	C5AE
+01020A5F	B3BD
+01020A6F	B4E6
+01020A9E	D8C8
+01020AA5	D4AD
+01020AEA	C1F9
+01020B3B	B7EE
+01020B56	B8D2
+01020BA2	D3D2
+01020BA6	D5D9
+01020BAF	CCA8
+01020BB7	BCAA
+01020BC1	D7E3
+01020BD2	BBAF
+01020C69	BEFD
+01020C6F	D7F8
+01020C8B	F5FE
+01020C8E	B7CD
+01020CC5	CECA
+01020D1F	DFE3
+01020D2A	E0A7
+01020D2E	C5E7
+01020D40	CAA6
+01020D41	F6C5
+01020D42	DFF8
+01020D52	DFFD
+01020D70	DFD8
+01020D72	DBC1
+01020DBA	DFEC
+01020DC3	E0B2
+01020DD5	B4B5
+01020DF8	E0AF
+01020ED4	E0E5
+01020EDB	E0D5
+01020EEF	DFEE
+01020F15	DFC2
+01020F6C	C4D8
+01020F7F	DFC9
+01020F85	D2AA
+01020F96	C6F7
+01020FC8	E0B1
+01021050	E0C9
+0102113A	E0D1
+01021170	E0D0
+010211A1	C6F0
+010211C3	D2D8
+010211CA	C6D4
+010211E1	C4BF
+010211EA	BDD1
+01021215	C8A6
+0102122D	D3FC
+01021239	E0F3
+01021243	DBDE
+01021248	D4DA
+0102125B	DBD9
+0102125D	BBF9
+0102125F	D7B3
+0102126C	DBE6
+010212AE	D4AC
+010212BA	D1F3
+010212F2	D7F8
+01021369	DBE5
+010213A9	B9A1
+010213B0	DCAF
+0102145F	CED1
+01021462	DCA6
+01021501	C0DD
+0102151B	C8C9
+01021578	D9E7
+0102157F	D9E7
+01021582	D9E7
+01021584	CDE2
+01021589	C2D1
+0102158A	D9ED
+01021596	C7E4
+0102159F	F3A4
+010215B7	E2B9
+010215D5	D2E0
+010215DA	C4D6
+010215DD	D2C4
+010215E0	C4DA
+01021608	BFDE
+0102162B	CEC8
+01021637	CCD7
+0102165C	B6E1
+0102168C	BDE1
+010216A7	E5FE
+010216B6	CDFD
+010216BE	E6AD
+01021769	D1FD
+010217E6	C4C8
+01021810	E6BF
+0102181C	E6C6
+0102187F	B5D5
+01021893	E6B4
+010218C6	E5FC
+010218F0	E6CD
+0102191A	E6CE
+0102192F	E6D0
+0102193E	CBEF
+0102193F	BFD7
+01021946	BAC3
+01021947	D8C3
+0102195B	CAE2
+0102195C	D7D6
+01021997	C8E6
+010219CB	C6B6
+010219EA	D5AC
+010219EB	E5B3
+010219F1	BAA6
+01021A09	BAC1
+01021A1A	D4A9
+01021A1C	BCC5
+01021A20	CEC8
+01021A48	C3E7
+01021B2A	C4CD
+01021B3D	D8E2
+01021B5D	C3D7
+01021B5E	BCE2
+01021B74	CFB6
+01021B90	D0A1
+01021C29	C1BC
+01021C2C	C9ED
+01021C38	E5EC
+01021C46	CAF4
+01021C52	B5EE
+01021C5D	CFAC
+01021C91	CABA
+01021CA0	C6C6
+01021CA9	C6A8
+01021CEC	C2AE
+01021D41	CEA3
+01021D7C	CCBF
+01021D8F	E1C8
+01021D93	D4C0
+01021E20	B2BA
+01021E35	E1BF
+01021EA1	D3AF
+01021F14	E1C7
+01021F9C	BBF4
+01021FC1	CEA1
+01021FE7	D4D6
+01021FF7	E7DF
+0102200E	BAD3
+01022012	BCBA
+0102201A	B9A4
+0102203D	C6F0
+01022053	F5B9
+0102205B	C9B1
+01022087	B5DB
+01022091	CAC3
+010220B4	D6C4
+010220C1	B8F8
+010220F7	C4B2
+01022116	D2EC
+010221D7	CFC3
+010221EF	B8AE
+0102220E	B9E3
+01022256	C2B9
+01022259	CAFC
+010222BB	C1C9
+010222DB	B1C7
+01022313	C0AA
+01022338	DEC4
+01022342	B1C7
+01022345	DBBC
+0102234E	DABE
+01022357	D1D4
+0102235C	D7F0
+0102236E	CED7
+01022376	C2CE
+01022381	CEE4
+01022387	D4D6
+010223AE	D8B5
+010223BA	CFD2
+010223D8	F4E0
+010223F1	E5F4
+01022405	C8F5
+01022413	EFCF
+01022472	D2CD
+01022495	D6EE
+0102249B	B1E4
+010224C9	B7B5
+010224CA	E1E3
+010224D8	D9A1
+010224DD	D9AC
+010224ED	E5D2
+010224F6	CDA8
+01022500	C7D6
+0102250D	D9AB
+0102257E	B1DC
+010225B9	C7C4
+010225CC	C5C2
+010225CD	D6BE
+01022617	B3BC
+01022625	CAD1
+0102263B	CFA4
+01022649	C4D5
+0102264A	EDA7
+01022656	CCF1
+01022662	BFD6
+01022683	C1D3
+01022687	BFF1
+01022689	BADE
+01022690	D3C6
+010226B0	C4D5
+010226C2	B5BF
+010226C7	F6C5
+010226E7	CEA9
+0102272A	C8C7
+0102273A	B0A7
+01022754	E2FC
+01022772	B3EE
+01022836	BBBC
+01022846	BFD2
+01022865	C3F5
+0102287D	CFA7
+010228A7	F6C5
+010228F6	C1AF
+01022903	EDAB
+010229A1	B8D0
+010229A9	B3C9
+010229D0	D5BD
+010229F5	BDD8
+010229F7	DEE2
+010229FE	B3E3
+01022A37	CBF9
+01022A4C	BCE7
+01022AB4	DED5
+01022ABB	B3D0
+01022ABF	B9BC
+01022AE6	C5C4
+01022AFD	D2D6
+01022AFE	D6B8
+01022B0C	B0CE
+01022B34	C9E3
+01022B38	C0A8
+01022B40	D0FD
+01022B43	B6CC
+01022B4D	B4A7
+01022BC7	D2BE
+01022BEA	B2F0
+01022C07	B0A4
+01022C4A	C2D3
+01022C73	BBD3
+01022C8E	B0E1
+01022C95	DEF1
+01022C9C	E9BE
+01022CB8	C2B0
+01022CBB	B4E9
+01022CC0	C4A6
+01022D23	D4F6
+01022D3F	B5F4
+01022D44	B4EB
+01022DFC	B4EA
+01022E05	C5CA
+01022E06	C4A1
+01022E6C	D3B5
+01022EF3	B7F6
+01022F1C	C9E2
+01022F86	BFAB
+01022F8D	B0BD
+01022F99	D1EF
+01022FB0	BBD5
+0102301A	D9E7
+0102308A	ECD9
+01023095	CBB9
+010230A2	B6CF
+010230A6	D8DE
+010230BA	D0C2
+010230E6	CEF0
+01023101	CADC
+01023103	C6EC
+01023133	CEE8
+01023140	D6BC
+0102314A	B2FD
+0102314E	CEEE
+0102315C	BDD4
+0102316F	D6E7
+0102317C	D4E7
+0102319C	C3C1
+01023206	BDFA
+0102320D	B5FE
+010232A3	F4AA
+0102335D	D6DB
+0102339C	D4D0
+010233C2	C9B1
+010233D0	E8BC
+010233DD	D5ED
+010233F9	D4D6
+010233FD	C3B6
+0102340C	CAE1
+01023431	C8E1
+01023436	B9D5
+01023437	B9D5
+0102346D	D5A4
+0102346F	CCD2
+01023471	C8BE
+0102348F	BDB7
+010234C0	E9BB
+01023580	B9A3
+010235F3	CAF7
+0102361C	F3D7
+01023694	F4AA
+01023698	CEFE
+010236D8	E9BF
+01023725	CFAD
+01023726	B5BC
+010237B5	DDD8
+010237F4	E3C5
+01023898	C9EB
+0102389C	DFCF
+010238B8	BFEE
+010238D3	C7B7
+010238FD	C7D5
+01023948	BBE1
+01023949	E5EB
+0102394D	BDFC
+01023957	C9D9
+0102399E	D9E7
+010239A1	B3F9
+010239B8	CBC0
+010239C0	BAEB
+010239E9	D6D5
+01023A0F	E9E2
+01023A44	E4DB
+01023A46	DAA4
+01023A47	B8AF
+01023A85	C5B9
+01023A86	C9B1
+01023A96	C9B1
+01023AA9	C9B1
+01023AED	C3BF
+01023AF9	E7E9
+01023C5C	EBB3
+01023C6E	C7E2
+01023C75	D3C0
+01023C83	E3E7
+01023C94	C6FC
+01023CA0	CFAB
+01023CB4	B7D0
+01023CDA	C3BB
+01023CE5	B6C9
+01023D11	C1F7
+01023D26	E3FC
+01023D29	E4BA
+01023D32	D4A1
+01023D34	BAA3
+01023D5E	C8DC
+01023D7D	CED6
+01023D7F	CFD1
+01023D81	E4C0
+01023D83	B3B1
+01023DDD	BDBD
+01023DEA	CDF4
+01023E15	CBAE
+01023E6B	BBEB
+01023E8C	C3EC
+01023EAF	CAAA
+01023F1C	D1CD
+01023F45	BBEE
+01023F48	E5A6
+01023F85	E4D5
+01023FD1	B8DB
+0102404A	BBC1
+0102404C	B0C4
+01024084	B2E2
+01024109	E4AF
+0102414C	C5A8
+0102414D	E4EE
+0102418C	D1D7
+0102418D	B3E0
+0102418E	D4D6
+01024190	BEC4
+010241B2	D4D6
+010241E1	D0FE
+010241F4	CEF5
+0102422E	D4D6
+01024263	D4D6
+010242B7	B1BA
+010242EE	CEF5
+010242F0	D6FA
+010243B9	CEF5
+010243C1	CEF5
+010243D0	C0C3
+01024424	CEF5
+0102442B	C6B1
+0102447E	ECDD
+010244C8	CBB8
+01024522	C9A6
+01024553	D2AF
+01024555	B0D6
+0102457A	BCB2
+010245B2	BFDD
+010245CA	EBBA
+010245CB	C5C6
+010245F1	EBBB
+01024604	EBB9
+01024608	D1C0
+01024625	EAF2
+01024634	C4C1
+01024657	B7BD
+01024668	CAF8
+0102468C	CFAC
+010246B4	C4B5
+01024733	CAA8
+01024751	B7B8
+010247C4	C7BB
+010247CB	BDC6
+010247D4	E2EA
+010247D7	D4B3
+010247E7	DDDF
+01024815	D0F3
+0102489A	CADE
+0102489C	B6C0
+010248CA	E1EE
+010248F5	BEC1
+01024908	BAF7
+010249A6	B0E0
+010249B3	E7F5
+010249F0	C5FD
+010249F2	C5C3
+01024A14	BBB7
+01024A40	C9BA
+01024AE9	C1E1
+01024B17	F0AD
+01024B21	C6B0
+01024B2E	C6BF
+01024B79	B0BB
+01024B9B	DBD4
+01024BD3	C9FA
+01024BD4	C8CB
+01024BDB	F3CF
+01024C06	D3C3
+01024C1E	B1B0
+01024C34	CDFE
+01024C35	CEB7
+01024C36	C9EA
+01024C65	EEB3
+01024C71	D4D8
+01024C99	DBCE
+01024C9C	B1CF
+01024DC2	F0F2
+01024DD0	C3A4
+01024DE0	F0F6
+01024E06	F0F4
+01024E0B	BDEA
+01024E1F	D6CC
+01024E8A	CBBB
+01024EE8	BBBE
+01024EF2	C1C6
+01024F29	B9EF
+01024F2A	B5C7
+01024F37	B5C7
+01024F50	C6C8
+01025039	F5C2
+01025044	D3DB
+01025049	EEC2
+0102506A	C3CF
+01025070	C3CB
+010250AF	DDCF
+010250E9	D1DB
+010250F3	EDEC
+01025122	CFE0
+0102516D	CAD3
+01025171	CAA1
+010252BC	EEAA
+010252CD	CBAF
+01025312	EEAD
+0102531D	EEA9
+0102536F	EFD4
+0102537F	B6DC
+01025384	C7B9
+010253BF	D6AA
+010253F5	C1F6
+01025417	EDBE
+0102543A	EDC6
+0102544A	C4EB
+010254CB	D1D0
+010254CF	DCA4
+010254D3	B1AE
+01025510	BFC4
+01025553	C4AE
+0102555A	DCFD
+01025566	EDDE
+01025571	C5F0
+01025574	C0F9
+010255F7	D5B7
+01025614	D4D6
+01025616	CDB7
+0102564A	BCC0
+0102564D	C9F1
+010256DC	D7E6
+01025731	CBEE
+01025750	B1FC
+01025757	DCBB
+01025762	C0FB
+01025777	B8FB
+010257AB	CAF2
+0102583C	C7D8
+01025877	CEC8
+01025893	CADA
+0102592F	BEBF
+0102593E	C7CF
+01025949	E1B6
+01025963	D4AB
+0102598E	B1F6
+0102599C	DCA1
+010259CA	DCA5
+010259E8	B1F6
+01025A12	B4DC
+01025A50	F1BC
+01025A60	D5BE
+01025A73	B4FD
+01025AE1	F3C4
+01025B16	C6A4
+01025B30	B2E1
+01025B8F	B5E4
+01025BD2	D4D4
+01025CE6	CBF1
+01025D8E	DDCF
+01025DDF	DDCF
+01025E6A	F4D6
+01025E9E	D6E0
+01025EC6	CBDA
+01025ED5	F4D6
+01025F3E	F4D6
+01025F86	BEC0
+01025F91	B4BF
+01025FA0	C8D2
+01025FA1	D1A4
+01025FA8	E6FC
+01025FBA	D7DD
+01025FC9	CDE0
+01025FD1	C2DA
+01025FD3	BCCD
+01025FF3	CFB8
+01026007	BEAD
+0102601F	C9B4
+01026065	EDE9
+010260B2	EDE9
+010260B3	BDF4
+010260B5	D7DD
+010260B6	E7B2
+010260C5	C2E7
+010260E7	B1CC
+010260F0	C9FE
+01026132	CBF5
+0102614D	E7D0
+01026167	EDE9
+01026196	E7D4
+010261AB	B0F3
+010261C4	C0DC
+010261DA	D2CD
+010261FB	BBBA
+01026247	C6BF
+010262DA	D5D6
+010262E7	CAF0
+01026310	EEBE
+01026334	C2DE
+0102633F	F5A7
+0102638B	F5F4
+010263A4	F7B7
+010263C1	F4CB
+010263E0	B8E1
+010263F2	D3F0
+0102641C	B4E4
+0102642C	F4E2
+0102644A	ECBA
+0102648B	BAB2
+010264A1	B0BF
+010264A2	B0BF
+010264B1	BFBC
+010264BF	EAC8
+010264D4	D0E8
+0102657C	C1C4
+010265F7	F1FA
+0102661F	D5D8
+0102663B	EBC1
+0102665B	EBC6
+01026669	EBC8
+0102666D	CCDB
+01026675	CDF3
+01026676	B9C9
+010266C1	C4D4
+01026709	C6A2
+01026721	D6CB
+01026736	B0F2
+01026769	CEB8
+0102676B	D1FC
+0102676D	C0E0
+010267A4	D8B6
+010267A7	C1F6
+010267AC	EBEC
+010267B5	BBA9
+010267DD	BCB9
+010267E6	C4A4
+010267EF	C0DF
+010267F3	F5B6
+0102681D	C1F6
+010268DE	D2C3
+010268EE	B9C2
+010268FA	B0D7
+01026900	B3F4
+01026903	BBCA
+0102690C	F4DF
+01026913	B1C7
+01026933	D6C1
+0102693F	CEDD
+01026946	CED5
+01026947	D5E9
+01026959	D2B7
+0102695D	D2A8
+01026967	B1E1
+0102699A	D2FA
+010269B6	C8C0
+010269CA	CBB1
+01026A31	BDF2
+01026A85	CDA7
+01026B0A	DCBB
+01026B21	DDCD
+01026B42	DDD1
+01026B82	DDE9
+01026B8F	B4CE
+01026BD3	DDCF
+01026BED	B6F1
+01026BF1	B6F1
+01026BF8	DCBB
+01026C52	DCD9
+01026C54	B1CD
+01026C64	C4AA
+01026CAD	DDDD
+01026CCB	C6EA
+01026CCE	DDCF
+01026CF3	DDE8
+01026D2D	C3EA
+01026D54	DDCF
+01026D9C	B6F1
+01026E06	DCBB
+01026E0E	DDAA
+01026E2F	DDB7
+01026E32	C5BA
+01026E33	DDEA
+01026E88	DDA5
+01026EB3	DEB2
+01026EC3	DDC8
+01026EE5	B7C6
+01026EE6	CCD1
+01026F0D	DDB8
+01026F2C	DDCF
+01026F48	DDB5
+01026F67	DDAC
+01026F69	C8E0
+01026F94	BEC9
+01026FAA	D9E7
+01026FB1	B3AD
+01026FB4	DEC0
+01026FB7	DEA4
+01026FD8	DDCF
+01027009	D4E5
+0102703D	DDCF
+0102704E	D9E7
+01027084	DDCC
+01027087	DDA1
+0102708A	DEAF
+01027090	BBFD
+0102709A	DDCF
+010270B0	DDA3
+010270B1	DEA7
+010270B2	BED5
+010270C8	BED5
+010270CD	D9E7
+010270D3	BED5
+010270F0	D9E7
+01027117	DDCF
+0102714F	DEBC
+01027191	DEBD
+010271C1	F2AE
+0102720B	DDCB
+01027220	D4E9
+01027227	CBE4
+0102722C	BAE7
+01027265	B1B1
+010272A1	F2CB
+010272A4	F2E6
+010272A7	B8F2
+01027312	F2E2
+01027332	D6A9
+01027353	F3B0
+01027358	F2CA
+0102735B	D3BC
+0102737F	F2D1
+01027380	F2E1
+01027381	F2BB
+01027382	CFBA
+01027397	F2F2
+010273C5	F3A7
+010273CD	F2CF
+010273CF	C7F9
+01027409	D6A9
+0102741B	F2F3
+01027463	F2CD
+010274A6	D5DD
+010274C9	F2D3
+010274CC	D3A9
+010274D2	F2BE
+010274DB	F3A8
+010274F3	F2CE
+01027508	EEC3
+01027550	F3A9
+01027573	D9F9
+01027599	F2B9
+0102759A	F2DD
+010275CE	DDCF
+010275D7	F4AC
+010275D8	DDCF
+0102762D	F4C0
+01027669	C1D1
+0102768C	D7B0
+0102768D	F4C3
+0102769C	F1DD
+0102769D	B2C3
+010276E2	EDE9
+01027744	F1E0
+01027749	EDE9
+0102777A	D9F3
+010277F6	B0D4
+0102789A	EAEE
+010278B1	D0D4
+01027973	CAAB
+01027976	DABF
+01027977	C6FD
+0102797A	D9EA
+0102797E	CAB6
+01027992	DAAE
+010279AB	DAB1
+010279BD	D5EF
+010279BE	BEF7
+010279CF	DFF6
+010279E1	CBCF
+010279E7	EEBA
+010279FF	BDCC
+01027A0F	D2EA
+01027A23	DAAB
+01027A28	DAD7
+01027A2D	BCE0
+01027A42	B0F9
+01027A5B	D1AF
+01027A60	B7ED
+01027A7B	DAC1
+01027A7D	D7BB
+01027AE7	DACF
+01027AEA	DACA
+01027B04	D0BB
+01027B0D	DAD8
+01027B2F	E5C0
+01027B33	D2EB
+01027B58	C6D7
+01027BAE	DAE4
+01027BE1	CDE3
+01027BFF	DCB1
+01027CB2	BAFC
+01027CC7	BAD1
+01027D39	EADB
+01027D47	BFB6
+01027D4E	BCD6
+01027D69	D4F0
+01027D6A	D4F4
+01027D6E	EADC
+01027D85	BBDF
+01027D99	B1B3
+01027D9B	EAE3
+01027DA1	E5B5
+01027DB4	B6C4
+01027DB6	B7B7
+01027DBB	C3B3
+01027DBD	B4CD
+01027DD5	D7CA
+01027DE4	D8D3
+01027E03	D2C5
+01027E06	D7B8
+01027E0A	B9BA
+01027E11	D4F9
+01027E16	D7AC
+01027E1A	C2B8
+01027E2F	D2C5
+01027E3D	D2C5
+01027E52	C2F2
+01027E5E	F4F6
+01027E79	B3E3
+01027E87	F4F1
+01027EAB	C6F0
+01027F62	B2AB
+01027FA2	D3E3
+01027FC1	EBBE
+01027FD6	F5BC
+01027FDB	D7D9
+01027FF6	F5C9
+01028013	C5DC
+0102801F	F5E2
+0102807B	F5DE
+010280DF	F5E7
+010280E1	F5D5
+01028103	F5EE
+01028175	CCA4
+01028176	D4EA
+0102818D	F5F1
+010281AF	F5EB
+010281B2	CEC8
+010281E5	E5BF
+010281F1	F5E4
+010281F3	F5ED
+0102822C	C7FB
+01028235	F5CB
+0102823B	D7D4
+01028246	B4E0
+01028247	D4D6
+01028289	B4E0
+010282BE	E9FE
+010282CF	E9F4
+010282FC	CED3
+01028307	D6E1
+01028373	E9F7
+0102837B	E9FD
+0102838A	B9F5
+010283B2	E9FB
+010283CF	EAA5
+010283D1	E9F9
+010283D4	EAA4
+010283E3	D5DE
+0102840C	D0C1
+0102842B	C6A9
+0102844D	B9EC
+01028450	C6F9
+01028453	C6F0
+01028454	C6F0
+01028456	C6F0
+01028466	D0EC
+01028477	D1B8
+0102848E	E5D7
+010284A6	D3AD
+010284B2	C3D4
+010284C6	CDCB
+010284CC	D4D6
+010284DC	D2DD
+010284E7	D2A3
+010284F5	CBCD
+0102852A	D4CB
+0102855D	E5CD
+01028589	E5E0
+0102859D	F6AA
+010285A5	D5DA
+010285BD	D2C5
+010285D2	F6AA
+010285D4	D2C5
+010285D5	D7F1
+010285E0	F6AA
+010285ED	D2C5
+010285EE	D2C5
+010285EF	E5DB
+010285F9	B5D1
+01028611	C1AC
+01028624	D2C5
+0102862B	E5D3
+01028636	E5CE
+01028637	E5E3
+01028655	E5D5
+0102865A	C2F5
+0102867C	DBAB
+0102868F	DBA1
+010286A0	BAAA
+010286AC	C7F1
+010286C4	D7DE
+010286E6	BFA4
+010286EB	C0E8
+010286F7	B6BC
+01028725	DBAA
+0102872E	C7E4
+01028741	DBA8
+01028765	C0C9
+0102876E	DBB8
+01028784	D3CA
+01028787	DBB0
+01028789	DBB2
+0102878F	B5A6
+01028796	DBB9
+010287A1	DBA6
+010287B3	D8E6
+010287C0	C0E8
+010287F7	F5AC
+010287FB	BDB4
+01028802	F5AD
+0102880F	F5AE
+01028820	D0D1
+0102882A	D7ED
+01028845	C3D1
+01028860	F5AF
+01028880	BDCD
+010288A9	F5FC
+010288AC	F5A9
+010288AD	CBD6
+010288BD	CBE1
+010288CB	B4D7
+01028913	BEEC
+0102894D	F6C6
+0102894F	B8AA
+01028969	EED4
+0102899F	B7E6
+010289AD	EFA9
+01028A90	EED7
+01028AD8	EFC9
+01028AFC	F6CB
+01028AFD	EEFC
+01028B10	EFE3
+01028B5C	EFDC
+01028B5D	EFA1
+01028B7C	C1CD
+01028B93	EFE4
+01028BDF	EFEC
+01028C24	EEE5
+01028D01	B2FB
+01028D41	D1D6
+01028D77	E3D1
+01028D9D	DBD3
+01028DF7	C3F6
+01028E0F	B8B7
+01028E18	C8EE
+01028E1D	CACF
+01028E4E	CFDE
+01028E5F	C2AA
+01028EA8	B6F5
+01028EB5	B6D3
+01028EF6	CFB6
+01028F80	C1A5
+01028FA5	F0C4
+01028FF3	D3A5
+0102900C	C0EB
+01029015	F6C5
+01029018	F0CE
+01029021	C4D1
+01029050	F0D8
+010290EC	D2F5
+0102911F	B0A8
+0102912B	F6AA
+01029145	E4E8
+0102915F	B1A2
+01029186	F6AA
+01029242	D8CC
+0102927C	C9F0
+010292A6	E1F7
+010292B3	B9AE
+010292BF	F4AA
+010292CE	BEF3
+010292F0	E6FB
+0102933B	B1DE
+01029346	F4AA
+0102940A	ECB4
+0102942D	DAC5
+0102944B	D2B3
+0102947C	C6C4
+01029486	B6A5
+01029491	BFF4
+0102949B	C6DD
+010294B5	C7EA
+010294CB	C0B5
+01029516	C0E0
+0102951A	CECC
+0102951C	CBCC
+01029530	CFD4
+0102953A	C2AD
+01029553	D4A4
+0102958E	DEB0
+01029593	F2AD
+010295CB	B7AB
+010295D7	ECAB
+0102964E	D9D0
+01029681	CAB3
+0102968A	E2BD
+0102968E	BCA2
+0102968F	E2B8
+010296B7	C1A3
+010296CA	B1A5
+010296DD	F5AA
+0102970B	E2C3
+01029719	C8C4
+0102972F	E2C8
+01029759	CAC8
+010297B9	F7D0
+01029810	CAD7
+0102982E	D9E7
+01029851	F0A5
+0102991D	E6F0
+010299BC	C2E6
+010299D9	E6F4
+010299E2	B3D2
+01029A23	B7BE
+01029A3A	B0B9
+01029A8B	F2FC
+01029AA0	E2DF
+01029AEB	DAF0
+01029C6C	C1DC
+01029D4B	D3E3
+01029EB4	F7A9
+01029F06	C0F0
+01029F1E	C0F0
+01029FC7	B9CD
+0102A057	D1BC
+0102A069	EFF4
+0102A0A1	C5F4
+0102A1BE	F0C8
+0102A2A8	F7E4
+0102A2E7	F7EA
+0102A301	C3A2
+0102A311	B0BE
+0102A369	C2F8
+0102A396	C3D3
+0102A424	F6CF
+0102A4A0	F7F6
+0102A4F3	D6A9
+0102A505	D4B1
+0102A5A6	CCE9
+0102A5C7	C6EA
+0102A5C9	F4D2
+0102A600	CDC5
+0102A68F	CDC5
+0102F800	C0F6
+0102F801	CDE8
+0102F804	C4E3
+0102F805	CEEA
+0102F808	D4DB
+0102F809	B1B8
+0102F80A	C9AE
+0102F80B	CFF1
+0102F80C	BFA1
+0102F80E	C3E2
+0102F80F	CDC3
+0102F814	C4DA
+0102F815	D4D9
+0102F816	B2E1
+0102F817	C8DF
+0102F818	D4A9
+0102F819	B1F9
+0102F81A	B6AC
+0102F81B	BFF6
+0102F81D	DBC9
+0102F81E	C8D0
+0102F820	BFCC
+0102F822	B8EE
+0102F825	D3C2
+0102F826	C3E3
+0102F827	C7DA
+0102F828	C9D7
+0102F829	B0FC
+0102F82A	B4D2
+0102F82B	B1B1
+0102F82C	BBDC
+0102F82D	B1B0
+0102F82E	B2A9
+0102F82F	BCB4
+0102F830	BCB4
+0102F831	C7E4
+0102F832	C7E4
+0102F833	C7E4
+0102F835	BBD2
+0102F836	BCB0
+0102F837	DBC5
+0102F839	BDD0
+0102F83A	DFB3
+0102F83B	DFBA
+0102F83D	CEFC
+0102F83E	B3CA
+0102F83F	D6DC
+0102F842	CCC6
+0102F843	C6F4
+0102F845	C9C6
+0102F846	C9C6
+0102F847	E0B9
+0102F849	D4FB
+0102F84B	CDBC
+0102F84C	CCBE
+0102F84F	C5E7
+0102F850	C7D0
+0102F851	D7B3
+0102F852	B3C7
+0102F853	DBFA
+0102F854	DCA2
+0102F855	D0CD
+0102F857	B1A8
+0102F85A	C2F4
+0102F85B	BAF8
+0102F85D	B6E0
+0102F85E	C3CE
+0102F85F	C9DD
+0102F862	BCA7
+0102F863	D3E9
+0102F865	E6B0
+0102F866	B8BE
+0102F867	C9A9
+0102F869	E6AC
+0102F86A	C0C1
+0102F86B	C0C1
+0102F86D	D4A9
+0102F86F	C4FE
+0102F870	B1A6
+0102F872	CAD9
+0102F873	BDAB
+0102F874	B5B1
+0102F875	DECC
+0102F877	CDC0
+0102F87A	E1A9
+0102F87F	E1D1
+0102F881	D1B2
+0102F882	B3B2
+0102F884	D9E3
+0102F886	C3B1
+0102F88C	E2D8
+0102F88D	CAFC
+0102F88E	C0C8
+0102F890	DEC3
+0102F893	F4A8
+0102F898	D2CD
+0102F899	D0CE
+0102F89D	C8CC
+0102F89E	D6BE
+0102F8A1	BBC5
+0102F8A3	BBDA
+0102F8A6	B4C8
+0102F8A7	BBC5
+0102F8A8	C9F7
+0102F8A9	BBC5
+0102F8AB	D4F7
+0102F8AC	CFDC
+0102F8AD	B7DF
+0102F8B0	B3CD
+0102F8B1	C0C1
+0102F8B2	B3C9
+0102F8B3	EAA9
+0102F8B5	B1A7
+0102F8B6	B0CE
+0102F8B7	BEE8
+0102F8B8	B0CE
+0102F8B9	CDEC
+0102F8BA	C6B4
+0102F8BC	C9A8
+0102F8C1	D1DA
+0102F8C3	C4A6
+0102F8C6	B3AD
+0102F8C8	C3F4
+0102F8C9	BEB4
+0102F8CB	BCC8
+0102F8CC	CAE9
+0102F8CD	BDFA
+0102F8CF	CAEE
+0102F8D2	C3B0
+0102F8D3	C3E1
+0102F8D4	D7EE
+0102F8D5	C6D5
+0102F8D6	EBC7
+0102F8D8	C0CA
+0102F8D9	CDFB
+0102F8DB	E8BD
+0102F8DC	E8BC
+0102F8DF	B9D5
+0102F8E1	C9A3
+0102F8E2	C3B7
+0102F8E3	D5A4
+0102F8E8	E9AB
+0102F8EA	B8C5
+0102F8ED	E8CE
+0102F8EF	B4CE
+0102F8F3	CBEA
+0102F8F5	C9B1
+0102F8F6	BFC7
+0102F8FC	D1D8
+0102F8FF	CEB9
+0102F900	C5C9
+0102F901	BAA3
+0102F902	C1F7
+0102F903	BAC6
+0102F904	BDFE
+0102F905	C4F9
+0102F907	D5DC
+0102F908	B8DB
+0102F909	E4CE
+0102F90B	D7CC
+0102F90C	B5E1
+0102F90E	D1CD
+0102F90F	B3B1
+0102F913	E5AE
+0102F915	E5AD
+0102F918	D4D6
+0102F91A	CCBF
+0102F91C	ECD1
+0102F91D	D4D6
+0102F920	ECE0
+0102F921	BEF4
+0102F922	D5A2
+0102F923	D1C0
+0102F924	CFAC
+0102F928	CCA1
+0102F929	CDF5
+0102F92E	E7E9
+0102F92F	E8A4
+0102F932	C7ED
+0102F934	DEA8
+0102F935	C9EA
+0102F936	E7DE
+0102F938	D2EC
+0102F93A	F0F5
+0102F93D	D3DB
+0102F940	D6B1
+0102F941	EDEC
+0102F945	D5E6
+0102F946	D5E6
+0102F947	D5E6
+0102F94C	CAAF
+0102F94E	EDCA
+0102F94F	C2B5
+0102F953	D7E6
+0102F956	B8A3
+0102F957	EFF8
+0102F95B	CEC8
+0102F962	D7AD
+0102F968	F4DD
+0102F969	F4D6
+0102F96A	BCCD
+0102F96B	BEC0
+0102F96E	E7BB
+0102F96F	D7DC
+0102F970	E7D2
+0102F973	C6BF
+0102F979	B0BF
+0102F97A	D5DF
+0102F97F	B4CF
+0102F981	E2BF
+0102F982	D3FD
+0102F983	B4E0
+0102F985	C6A2
+0102F986	EBF4
+0102F987	C1F6
+0102F988	BBA9
+0102F98A	D4D0
+0102F98B	F4A8
+0102F98C	F4AA
+0102F98D	B4C7
+0102F98F	DCBB
+0102F990	D3F3
+0102F991	D6A5
+0102F992	C0CD
+0102F993	BBA8
+0102F994	B7BC
+0102F995	D1BF
+0102F996	BFE0
+0102F998	C8F4
+0102F999	B6F1
+0102F99A	C8D9
+0102F99B	BDDA
+0102F99D	C3A7
+0102F99F	D7C5
+0102F9A1	BED5
+0102F9A2	BEFA
+0102F9A3	B2CB
+0102F9A7	CADF
+0102F9AC	DEA8
+0102F9AD	DDCF
+0102F9B0	B3AD
+0102F9B2	D9E7
+0102F9B3	C5B0
+0102F9B4	C2B2
+0102F9B5	BFF7
+0102F9B7	F2BF
+0102F9BC	B5FB
+0102F9BD	F2DC
+0102F9C4	D2C2
+0102F9CF	B3CF
+0102F9D0	DACD
+0102F9D1	B1E4
+0102F9D2	F5B9
+0102F9D4	B9E1
+0102F9D5	EADA
+0102F9D6	B8D3
+0102F9D7	C6F0
+0102F9DA	B0CF
+0102F9DB	F5C2
+0102F9DD	BEFC
+0102F9DE	E9ED
+0102F9DF	CAE4
+0102F9E0	F6AA
+0102F9E1	D2C5
+0102F9E3	B5B1
+0102F9E5	C7E4
+0102F9E7	EEE0
+0102F9EB	EFEA
+0102F9EE	BFAA
+0102F9F0	C9B1
+0102F9F1	E3D1
+0102F9F6	E4E8
+0102F9FB	ECB4
+0102F9FE	B9CB
+0102F9FF	B9CB
+0102FA02	BCA2
+0102FA15	C2E9
+0102FA17	EDE9
+0102FA18	F6BC
+0102FA19	D6A9
+0102FA1C	B1C7
+0102FA1D	CDC5
+013405	CEE5
+013421	C5B3
+013430	D0C5
+013433	D8A3
+013439	D8EE
+013442	B7C2
+013444	CEEA
+01345E	EBF4
+013474	C7D6
+013477	CCAC
+01347A	BFA1
+01349A	CEC8
+01349E	BFA1
+0134A4	C9E5
+0134A8	CFC9
+0134B2	B2C6
+0134B3	C1BD
+0134B6	B9AB
+0134C2	BFDC
+0134CA	B6B4
+0134D5	C3F0
+0134DB	B9A6
+0134DC	D3D7
+0134DD	D0CC
+0134F6	EFC6
+013503	BEF8
+013518	F7ED
+01351C	B2AA
+01352D	B3D7
+01353A	CAC0
+01353D	D8D5
+013547	EDC7
+013551	B3F8
+013555	BBC3
+013556	CBD8
+01355A	D7A6
+01355B	D3D1
+01355C	CAB7
+01355E	CBA2
+013560	CBAB
+013565	D2D4
+013581	C1DF
+0135A0	C4C7
+0135C6	E0C3
+0135CB	BAED
+0135D0	E0BE
+0135D6	E0A2
+0135E4	E0D2
+0135FD	CFEC
+01362B	BEB3
+01362F	B3A1
+013631	CCAE
+013634	D7F8
+013637	B0AC
+013641	DBE9
+013662	DCAC
+013672	DBD5
+01367C	C0DD
+01368C	E2B7
+013690	CCD7
+0136A2	C5AB
+0136A3	E6AF
+0136B6	E6A6
+0136DB	C9EF
+0136E9	E6A8
+0136EE	C9A9
+0136F0	BBE9
+0136FD	E6A9
+013711	C6C5
+01373B	E6AE
+01373D	D7D3
+01373E	BAA2
+013740	BAC3
+013748	C2CF
+013749	D0FB
+01374A	CAD8
+01374B	C1C8
+01374C	BECE
+01374D	D0B4
+013756	D2CB
+013759	D2FA
+01375B	CBDE
+013761	D7EE
+013762	D3EE
+013767	CEC8
+01376F	C7C8
+013777	D1B0
+013791	CEB2
+013795	D0BC
+0137A1	D5B9
+0137A2	D6AE
+0137AF	E1A8
+0137B6	E1BA
+0137B9	E1B3
+0137C1	B0B6
+0137E9	E1BA
+0137ED	E1BA
+0137FA	E1D0
+013800	B5BA
+013810	E1BD
+01381C	E1DA
+01382D	D5B9
+013836	B7AB
+013860	D6A1
+013873	B5D7
+01387F	B3E2
+013898	C1AE
+0138AE	B3DA
+0138B4	CEF7
+0138BD	B6FC
+0138CB	B5A4
+0138E6	E5D4
+0138EB	B6AF
+0138F2	CEA2
+0138FC	C8CC
+013900	CDFC
+013901	E3C3
+013902	BCB1
+013903	B7C1
+013905	B0AE
+013907	B0C3
+013913	B1BF
+013919	B6F7
+01391B	EDA5
+01391F	BFD6
+013929	E3A1
+01392A	D4B9
+01392C	EDA3
+013930	E2F4
+01393A	BBC5
+013943	C3C6
+01395E	E5E4
+013964	F1E6
+013966	E3AB
+013967	CBB3
+013971	E3AD
+01398D	E3B5
+013994	E2FB
+013996	EDAF
+0139A0	EDA1
+0139A4	DCB2
+0139AF	BBF2
+0139B8	EAAA
+0139BF	BBA7
+0139D6	B6F3
+0139F1	C4C3
+013A08	BCB7
+013A14	BAB3
+013A17	BDDD
+013A23	D3B5
+013A2F	C0A9
+013A41	C8B6
+013A55	C1E0
+013A57	D0AF
+013A66	D0AF
+013A70	B3AD
+013A85	B8FC
+013A9D	BCF0
+013A9F	B6D8
+013AA3	C7C3
+013AC1	B6CF
+013AC4	C5D4
+013AC5	C6EC
+013ACB	ECB9
+013AD1	D6BC
+013AD4	F4DE
+013AE7	B1A9
+013AEA	B4BA
+013AF3	B3BF
+013AFA	CEF4
+013B0C	BEB0
+013B0D	C6D8
+013B1C	BDFA
+013B20	C9B9
+013B25	B1A9
+013B27	B1A9
+013B31	CCE6
+013B4A	CEF6
+013B4B	B0F4
+013B4D	C6E2
+013B71	CFBB
+013B7B	CCC4
+013B84	B0F1
+013B8C	C3DE
+013B8E	B1AD
+013BA3	B8C5
+013BAE	BDDB
+013BCD	BDB0
+013BD0	CDD6
+013BD3	E9BD
+013BDF	C2B4
+013BE6	C6E5
+013BEA	E8F9
+013C09	E9BB
+013C0F	B8DD
+013C10	CDD6
+013C16	E9AD
+013C1E	E0CD
+013C4F	D5FD
+013C55	B9E9
+013C58	F7CA
+013C68	E9E7
+013C7F	BFC7
+013C87	DFCB
+013C88	C9D8
+013C9C	CCBA
+013CAD	CCBA
+013CB6	C2C8
+013CB7	B5AA
+013CBE	D3EA
+013CC2	D1D8
+013CC3	B4E3
+013CC5	C1F7
+013CC8	C5E6
+013CD1	D2E7
+013CD2	B7A8
+013CD9	E4B8
+013CED	CFD1
+013D05	CFFB
+013D06	BDFE
+013D09	BCC3
+013D1E	CCCF
+013D34	D5BF
+013D3E	B2B3
+013D4E	BDA7
+013D55	D4E8
+013D71	C6AF
+013D78	E5AE
+013DA4	B3B4
+013DAB	C1C7
+013DB3	BDFD
+013DBB	B7E9
+013DC7	BBD6
+013DCA	B7D9
+013DD4	D1E6
+013DD6	D5D5
+013DD9	BCE5
+013DE9	CEF5
+013DF1	D0DC
+013DFB	CEDE
+013E00	ECC6
+013E02	ECDD
+013E09	DBC6
+013E15	BEF0
+013E18	CDF2
+013E27	F6B8
+013E60	EBE0
+013E64	C7D3
+013E83	B9B7
+013E85	BAEF
+013E9A	CCA1
+013EB2	C5A5
+013EB3	C3B5
+013ECE	C9AA
+013EEE	E8B2
+013F04	E7E1
+013F4D	DBE1
+013F52	C9FB
+013F56	C1F4
+013F57	C4B6
+013F5C	EEB5
+013F5E	C1F4
+013F6C	B7F8
+013F6F	C6E8
+013F8A	F1A4
+013F8C	D1A2
+013FCB	F0FE
+013FE2	D2AB
+013FF7	B2DA
+014006	BEA1
+01400B	D1CE
+01400E	EDED
+014018	EBF6
+01405E	CAA1
+014066	EAEF
+014079	EEA2
+014093	B9E6
+014096	CAAF
+0140A1	EDC6
+0140B2	EDC0
+0140BB	EFAD
+0140CD	D7B9
+0140E0	EDDB
+0140E9	EDD0
+0140FA	C4A5
+014100	BBF6
+014112	EFFE
+014115	C9E7
+014122	C6EB
+01412B	DCBB
+01412C	D2C6
+01412D	C4EA
+01413D	F4CC
+014147	CBDA
+014192	BEBF
+014197	F1BA
+0141A0	BBC2
+0141A9	DAA4
+0141BB	C7CF
+014230	C9D2
+01427C	C1CF
+01428F	F4D6
+0142B7	E7BB
+0142C1	E7AE
+0142C4	CDF8
+0142DC	F4EC
+0142DE	CDF8
+0142E0	B2B9
+0142EF	F4EC
+0142F2	C9FE
+0142F3	F1D8
+0142F9	B7F9
+014304	E7AE
+014307	CBF7
+014309	B8D9
+01430A	F4ED
+014313	B7B1
+014315	F7E3
+01431B	F4ED
+01432B	C0C2
+014348	C6BF
+014369	D1F8
+0143A3	F1EA
+0143B9	CEC5
+0143CA	C1FB
+0143CB	CBE0
+0143D2	C5D6
+0143D4	D6E2
+0143D5	E2BF
+0143EF	F0EB
+0143FB	C4DC
+01440C	CCF3
+014417	B6C7
+014421	C6EA
+014452	B5BD
+014455	CAF3
+01445B	F3C2
+01445E	CBB4
+014482	BDB0
+014483	D4EC
+0144A3	DCDB
+0144AC	C4AA
+0144AD	B5C8
+0144B1	D5F4
+0144B6	CCEC
+0144C1	B5C8
+0144C5	C7DB
+0144D2	C6EA
+0144E6	B5E4
+0144F7	DCF4
+0144FA	DEC2
+0144FF	DDD5
+014509	CBE2
+01450B	C9AF
+01450D	F3C6
+014512	DDED
+014525	CFF4
+01452B	CADF
+014543	D2F1
+01454F	DDAD
+014556	DDA5
+01455A	DDDE
+014564	DEAD
+014568	CCD9
+01456B	D9E7
+01456E	BED5
+014582	CEE5
+01458B	C5B0
+01458D	F2AF
+01458F	B4A6
+0145A0	F3A2
+0145A3	D4E9
+0145A4	F2EA
+0145AB	B0F6
+0145B8	B6EA
+0145B9	F2D5
+0145BD	F2DB
+0145BF	F2DB
+0145CB	F2D6
+0145CF	F2F4
+0145EB	F3A1
+0145F6	C0AF
+0145FE	F2B9
+014607	CEC3
+01460A	F3BA
+014610	F4AC
+014614	BFA6
+014619	CEC0
+01461A	D7E4
+01461C	BDED
+01462E	C9A5
+014631	D4A3
+014640	B1C1
+014656	B1C1
+01465D	D9F4
+01466A	F1E1
+01466D	E5BD
+01467A	CFCE
+01469E	B4F5
+01469F	B4F5
+0146B1	D0C5
+0146B2	DAA8
+0146D0	B4CA
+0146D1	DAD7
+0146D2	B1E7
+0146D5	DAC4
+0146DC	D1B6
+0146E1	BBB0
+0146E6	CBCF
+0146E7	C3D5
+0146FA	BDEB
+014718	BEAF
+01471B	B2F7
+01471F	DADF
+014735	F4F9
+01473B	F4F9
+01473F	CAFA
+014742	CAFA
+014757	F5F7
+014758	D2E3
+014768	CFCD
+01477E	B8B3
+01477F	B9F3
+0147AC	CDB8
+0147BC	B4DC
+0147C6	F5CF
+0147CC	D3E3
+0147CE	F4F5
+0147D6	D6BA
+0147E6	B0CF
+014801	F5D2
+014802	B3FE
+01480E	F6BB
+014825	F5BF
+01482E	CCDA
+014832	F1F6
+014836	C9E4
+014839	BAA1
+014856	C7E1
+014879	E9F9
+014889	C5A9
+01489C	B9E9
+01489F	D3C9
+0148A0	CBCD
+0148A4	CAF6
+0148A6	CBA7
+0148AA	C7C1
+0148AB	CBE6
+0148AF	E5E0
+0148B5	D4C7
+0148B7	C4C7
+0148CC	DBA1
+0148DE	B6F5
+0148E8	B4BC
+0148F4	D0EF
+01491C	B6DB
+014931	CAC4
+014939	EFCB
+014945	C7D9
+014946	C7D9
+01494A	EFBA
+014950	F6CA
+014956	EEE4
+01495A	B3F5
+014976	EFD3
+014977	D5A1
+014987	F7D9
+014999	CBC2
+01499E	C8F2
+01499F	CEC8
+0149A7	E3D2
+0149A8	C0BB
+0149B7	CEC8
+0149CD	CFB6
+0149D5	D3F2
+0149D9	C1EA
+0149DC	CCC1
+0149E1	DCAD
+0149F8	F0B3
+0149FB	B8EB
+0149FC	F0C0
+0149FF	C8B5
+014A05	F0D3
+014A07	CBAB
+014A09	F0D0
+014A13	C0D7
+014A14	B1A2
+014A16	F6AB
+014A19	F6AF
+014A20	F6B0
+014A29	C1E9
+014A2A	F6B2
+014A2D	CFF6
+014A2E	D1A9
+014A37	F6B1
+014A84	BBCD
+014AA0	ECB4
+014AA1	ECB4
+014AA2	ECB4
+014AD9	F2AA
+014ADD	F0A5
+014AEB	F7C3
+014AF1	F2AC
+014AF7	F2A6
+014B03	ECAA
+014B2E	E2C2
+014B3B	BDA4
+014B4B	B1A5
+014B4C	D7E4
+014B6B	BBFC
+014B6C	BBFC
+014B76	E6EB
+014B7C	E6EB
+014B7E	CDD4
+014B81	E6E9
+014B83	C7FD
+014B88	B3DB
+014B9B	E6E2
+014BBF	E5B9
+014BC1	C2E2
+014BD0	BAA1
+014BD7	F7C2
+014BDD	CBE8
+014C1B	D8AA
+014C1C	D8AA
+014C1F	BBEA
+014C23	F7CD
+014C28	F7C8
+014C7D	F6F0
+014C84	F7AA
+014CA5	F0AF
+014CA8	BAE8
+014CAB	F0AF
+014CB4	F0B2
+014CB5	C8B8
+014CB7	E8C9
+014CCC	BEE9
+014CD2	F0B0
+014CD8	B6EC
+014CE8	BBCB
+014CFC	C5B8
+014CFD	BAD7
+014D21	C0F6
+014D5E	F7F4
+014D79	D6A9
+014D87	F7F8
+014D9A	C8A3
+014E04	C9CF
+014E05	CFC2
+014E17	CAC0
+014E1F	B6AA
+014E20	BCBD
+014E21	C1BD
+014E23	D3CF
+014E26	B2A2
+014E3C	BEAE
+014E46	BEC3
+014E55	BBA2
+014E57	B3CB
+014E68	CABC
+014E79	C7AC
+014E7F	D6CE
+014E80	B9EA
+014E81	C7AC
+014E82	C2D2
+014E8A	CAC2
+014E97	CBEA
+014E9C	D1C7
+014E9D	C6EB
+014E9E	D1C7
+014EAF	CFED
+014EB0	BEA9
+014EB1	D2B9
+014EBE	CDF6
+014ECC	B1F9
+014ECF	B7F0
+014EED	D8F0
+014EEE	BCD9
+014EFE	B5CD
+014F02	C5E6
+014F03	E6A5
+014F16	E0FB
+014F1D	B4AB
+014F29	D0C5
+014F2E	C5AC
+014F40	CBC6
+014F44	BAA8
+014F47	D8F9
+014F4B	D5D1
+014F72	F5A4
+014F86	C0B4
+014F8C	D2F5
+014F96	C2D8
+014FA1	BCDB
+014FAB	D8FA
+014FB6	C2C2
+014FBD	C4D0
+014FC1	D9B6
+014FD6	B1B6
+014FE0	CFC0
+014FFB	B1B8
+015000	D8F6
+015006	C1A9
+015009	B2D6
+01500B	B8F6
+015010	D9BF
+015011	C3C7
+015023	B7C2
+015024	D6B5
+01502B	C2D7
+015036	BEE3
+015039	BCF3
+015040	D3A2
+015041	B3C6
+015045	D9D7
+015049	CEB0
+015058	D9A9
+015069	B8BA
+01506A	B1C6
+015074	B2E0
+015075	D5EC
+015079	B1B8
+01507A	D4DB
+01507D	CEB1
+015093	C9BF
+015096	D8F7
+015098	C9A1
+015099	B1B8
+0150AF	D9CC
+0150B3	B4AB
+0150B4	D8F1
+0150B5	D5AE
+0150B7	C9CB
+0150BE	C7E3
+0150C2	D9CD
+0150C5	BDF6
+0150C9	D9DD
+0150D1	C7C8
+0150DE	CEB1
+0150E5	BDC4
+0150E8	D9C7
+0150F2	CFC9
+0150F9	BCDB
+015100	D2C7
+015101	BFA1
+015102	D9AF
+015104	D2DA
+015108	BFEB
+015109	BCF3
+01510C	BDC4
+01510D	C9B5
+015110	D9CF
+015114	D9B1
+015115	D9AD
+01511F	B3A5
+01512A	D3C5
+01512B	BAC0
+015132	B4A2
+015137	D9B3
+01513A	D9D0
+01513B	D9CE
+01513C	D9B2
+015142	F4A2
+01514A	B6D2
+01514C	B6D2
+01514E	CDC3
+015150	B6F9
+015152	B6F9
+015157	D9F0
+015166	CDF6
+015167	C4DA
+015169	C1BD
+01516A	D3E1
+01517E	BCBD
+01517F	D2D5
+015183	C3B1
+015184	C8BD
+015186	D4B2
+01518A	B2E1
+015190	C3B0
+01519D	D2CB
+0151A1	C3C9
+0151A3	D7EE
+0151A6	BFDC
+0151A8	B8BB
+0151A9	D0B4
+0151AA	DAA2
+0151BA	E3FD
+0151BE	C7A2
+0151CD	B6B3
+0151DC	C1DD
+0151DE	CEF5
+0151E6	B4A6
+0151E8	B7E7
+0151F1	BFAD
+015204	C8D0
+015225	B1F0
+015226	BDD9
+015227	BDD9
+01522A	C9BE
+015234	B6E7
+01523C	BDD9
+015244	D8D9
+015247	D4F2
+01524E	C9B2
+01525B	B8D5
+01525D	B0FE
+015263	BDA3
+015264	BCC1
+01526E	B9D0
+015270	CAA3
+015274	D8DC
+015275	B4B4
+015283	BBAE
+015287	BEE7
+015289	C1F5
+01528A	B9F4
+01528B	BDCB
+01528C	D8DB
+01528D	BDA3
+015291	BCC1
+0152B4	C0CD
+0152B9	D0A7
+0152C1	BEA2
+0152C4	C3F4
+0152C5	EBB7
+0152C8	D3C2
+0152D5	B6AF
+0152D9	CEF1
+0152DB	D1AB
+0152DD	CAA4
+0152DE	C0CD
+0152E2	CAC6
+0152E3	BCA8
+0152E6	BDCB
+0152E7	C8B0
+0152F2	D1AB
+0152F3	D1AB
+0152F5	C0F8
+0152F8	C8B0
+0152FB	D4C8
+015304	D8A4
+015307	B4D2
+01531E	BDB3
+01531F	BFBB
+015329	BFEF
+01532D	D8D0
+01532F	BBE3
+015331	D8D1
+015338	B7C5
+015340	C7F8
+015346	D7E4
+01534B	CAC0
+015354	D0AD
+015358	B5A5
+015365	CEF7
+01536D	DAF6
+01537B	C8B4
+01537D	BCB4
+015380	CFA5
+015397	CCE0
+015399	D8C7
+01539B	CCFC
+0153A0	B2DE
+0153AD	D1E1
+0153B2	C0F7
+0153B3	D1CF
+0153B4	D8C9
+0153B5	D4B4
+0153BA	C8A5
+0153C3	B2CE
+0153CE	CAD5
+0153D3	CAC2
+0153DC	DBC5
+0153E2	B4D4
+015407	DFF3
+015422	DFC4
+015433	CEE2
+01543D	BAF0
+01543F	B8E6
+015445	CEC7
+015449	CEE2
+01544C	BDD0
+015451	CDCC
+01545D	DFC0
+015463	C4B1
+01546A	D6E4
+01548A	BACD
+0154AE	E0E9
+0154B2	D0A6
+0154B6	F3C2
+0154BC	DFC3
+0154E1	D4B1
+0154F0	DFEB
+015504	DFC2
+015516	D1C6
+015519	E0D6
+01554F	CECA
+015552	DFFC
+015553	C6F4
+015554	C6F4
+015557	E0A2
+01555E	D1C6
+01555F	C6F4
+015568	C7E9
+01557A	CCC6
+015585	E0A1
+01559A	BBBD
+01559E	DFF3
+0155A9	D3F7
+0155AA	C9A5
+0155AC	C7C7
+0155AE	B5A5
+0155B2	D3B4
+0155B6	D3AA
+0155C6	C7BA
+0155C7	D8C4
+0155CE	C2F0
+0155DA	CED8
+0155E2	BACF
+0155E9	DFEF
+0155F6	DFD9
+0155F8	E0BB
+015606	CCBE
+01560D	E0B6
+015614	C5BB
+015616	DFF5
+015617	B3A2
+01561C	DFE9
+015620	B8C2
+015628	D0A5
+015629	BBA9
+01562B	C8BB
+01562E	DFEB
+01562F	D0A5
+015630	DFB4
+015635	DFD8
+015637	E0C6
+015638	DFBC
+01564F	CEFC
+015650	C6F7
+015653	D0EA
+015656	D2F7
+01565D	DFD0
+015660	DFD5
+015661	DADE
+015665	DFE6
+015666	DFDC
+01566F	E0C8
+015672	DFE0
+015674	C5E7
+015678	B6D6
+01567E	E0B3
+015680	DFCC
+015687	CFC5
+015689	DFCD
+015695	E0E0
+015699	C4F6
+0156A0	E4AF
+0156A2	C4D2
+0156A6	DFBF
+0156A8	C1FC
+0156B3	E0B7
+0156B4	D1CF
+0156B6	E0D3
+0156BB	CFF9
+0156C0	DFF9
+0156C1	E0BF
+0156C2	CFF9
+0156C5	D9E6
+0156C8	DFBD
+0156CC	CBD5
+0156CF	BCE8
+0156D1	D6F6
+0156D8	BBD8
+0156D9	D2F2
+0156E3	CDC5
+0156F2	CEA7
+0156F3	CDBC
+0156F8	C8D5
+0156FC	CCA5
+015707	E0F0
+01570B	B9FA
+01570D	CEA7
+01570F	C8A6
+015712	D4B0
+015713	D4B2
+015716	CDBC
+015718	CDC5
+015721	CDC1
+015727	D1B9
+015735	C8C0
+01574B	DBD0
+015753	D0CD
+015754	B5D8
+015778	B9B8
+01577F	B8BD
+015796	B6D1
+01579C	B6E2
+0157BA	DBAE
+0157BE	B0B6
+0157C0	B4B9
+0157C1	E1AF
+0157C5	B7C0
+0157C8	BEFE
+0157D3	DBF8
+0157DC	D2B0
+0157E1	DBEB
+0157F0	B2C9
+0157F7	D6B4
+015805	BCE1
+01580A	DBD1
+01581D	DBF6
+015822	B1A4
+015826	BDD7
+01582F	D2A2
+015831	B1A8
+015834	B3A1
+015841	C0DD
+01584A	BFE9
+01584B	DCE3
+01584F	DBEE
+015850	CBDC
+015852	DBF5
+015857	CDBF
+01585A	DAA3
+015861	CCEE
+015862	CEEB
+015864	DBF7
+015866	D5F3
+015869	D1CE
+015872	B3A1
+015875	B3BE
+015879	C7B5
+01587C	D7A9
+01588A	B5E6
+015895	D1DF
+015896	CBFE
+015897	D4F6
+01589C	D7B9
+0158A5	EEB6
+0158AA	B6D5
+0158AB	E9D7
+0158AE	B6E9
+0158B0	CCB3
+0158B3	B7D8
+0158BB	C7BD
+0158BE	BFD1
+0158C3	BDAE
+0158C7	CCB3
+0158CA	BBB5
+0158CC	C8C0
+0158CD	C7B5
+0158D0	E7F4
+0158D3	D1B9
+0158D8	C0DD
+0158D9	DBDB
+0158DA	DBE4
+0158DC	CCB3
+0158DE	BBB5
+0158DF	C2A2
+0158E0	C2A2
+0158E2	DBDE
+0158E9	B0D3
+0158EF	D7B3
+0158F1	D2BC
+0158F2	C2F4
+0158F7	BAF8
+0158FA	BAF8
+0158FB	D0F6
+0158FD	CAD9
+015900	CAD9
+015905	BDB5
+015909	B1E4
+015918	C3AE
+01591B	B6E0
+01591D	C7E7
+015920	B9BB
+015922	C3CE
+015923	C3CE
+015936	B1C8
+01593E	BCD0
+01594C	B5E3
+015950	DBBC
+015953	C9DD
+01595C	ECB3
+01595E	BFFC
+015967	B0C2
+015968	BDB1
+015969	DEC6
+01596A	B6E1
+01596C	BDB1
+01596E	B7DC
+01597C	E6B1
+01599B	E6CA
+01599D	D7B1
+0159AC	B6CA
+0159B4	CDF1
+0159C9	E6A2
+0159CD	E6A9
+0159D9	C8D1
+0159E2	BEEA
+0159E7	BCE9
+0159EB	BCA7
+0159F8	E5FB
+015A12	C4B7
+015A1B	D3E9
+015A24	D7B1
+015A26	E6C9
+015A2F	D3E9
+015A3F	E6B9
+015A41	C2A6
+015A4F	C3E4
+015A59	E6BA
+015A5E	E3AC
+015A63	D2F6
+015A66	B8BE
+015A6D	E6AB
+015A87	C7D7
+015A8D	B8BE
+015AA7	E6B4
+015AAF	E6A3
+015ABD	C2E8
+015AD7	E5FD
+015AF0	C4DB
+015AF5	E5FC
+015AFB	E6B5
+015B00	E6A3
+015B08	E6AC
+015B0B	E6BF
+015B0C	BDBF
+015B19	E6CD
+015B21	E6C8
+015B28	CFF2
+015B2A	E6C9
+015B30	D3A4
+015B38	C9F4
+015B3E	C0C1
+015B46	D3A4
+015B4C	E6AE
+015B60	CBC3
+015B61	CCA5
+015B6B	CBEF
+015B78	D1A7
+015B7E	D3A4
+015B7F	C2CF
+015B82	C8DF
+015B86	F1B7
+015B8D	C8E2
+015B9F	CAB5
+015BB2	CAB5
+015BBB	C3DC
+015BBC	BFDC
+015BC3	D4A9
+015BCF	D4BA
+015BD1	C7DE
+015BDB	BFED
+015BDC	C4FE
+015BE2	C7DE
+015BE6	CAB5
+015BE7	C4FE
+015BE9	C9F3
+015BEB	D0B4
+015BEC	BFED
+015BF3	B1A6
+015BF5	B3E8
+015BF6	B1A6
+015BFE	B6D4
+015C02	D7A8
+015C07	BDAB
+015C08	D7A8
+015C0B	D1B0
+015C0D	B6D4
+015C0E	B5BC
+015C19	C9D0
+015C1E	C1C7
+015C28	C1FA
+015C2D	D2A2
+015C37	DECF
+015C46	BDEC
+015C5B	C6C1
+015C5C	CCEB
+015C62	C2C5
+015C64	B2E3
+015C68	E5F0
+015C6C	CAF4
+015C8B	E1A7
+015CA1	B8D4
+015CB4	E1AB
+015CDD	E1BC
+015CEF	B7E5
+015CF4	E1AD
+015CF6	B5BA
+015CFD	CFBF
+015D08	B3E7
+015D0D	E1C1
+015D17	B8DA
+015D22	E1BF
+015D2C	E1B4
+015D50	E1B0
+015D57	CBEA
+015D5C	C6E9
+015D73	E1CF
+015D81	E1D0
+015D84	D5B8
+015D87	E1AB
+015D8B	B5BA
+015D8C	B5BA
+015D97	E1C0
+015DA0	E1BD
+015DA7	E1BB
+015DB8	E1C9
+015DBA	C1EB
+015DBC	D3EC
+015DCB	BFF9
+015DD2	C2CD
+015DD3	E1DB
+015DD4	E1DB
+015DE3	B3B2
+015DF0	DBCF
+015DFA	D9E3
+015DFB	BEED
+015E00	D4D1
+015E0A	C5C1
+015E0B	D6BD
+015E12	B4FC
+015E25	CBA7
+015E2B	CAA6
+015E2C	C8B9
+015E2F	B4F8
+015E30	B9E9
+015E33	D5CA
+015E36	B4F8
+015E40	D6A1
+015E43	E0F8
+015E47	B0EF
+015E48	C6C1
+015E51	BBD5
+015E57	E0FE
+015E58	E0FD
+015E5F	D6C4
+015E63	B1D2
+015E64	B1D2
+015E6B	B0EF
+015E6C	E0FC
+015E77	B2A2
+015E81	CCFC
+015E83	B9E3
+015E92	D7AF
+015EAB	BFE2
+015EBB	CAFC
+015EBD	D4A2
+015EBF	C3ED
+015EC1	B2DE
+015EC2	CFE1
+015EC3	B7CF
+015EC8	CFC3
+015EDA	B3F8
+015EDF	C3ED
+015EE0	B3A7
+015EE1	E2D0
+015EE2	B7CF
+015EE3	B9E3
+015EEC	C2AE
+015EF0	CCFC
+015EF3	CCFC
+015EF5	D1B2
+015F09	DECA
+015F0D	B7A1
+015F10	B7A1
+015F12	DFB1
+015F33	E5F2
+015F35	D5C5
+015F37	C7BF
+015F3E	B5AF
+015F48	B5AF
+015F4A	C7BF
+015F4C	C3D6
+015F4E	CDE4
+015F5B	D2CD
+015F5C	D2CD
+015F5E	D2CD
+015F65	D1E5
+015F83	CDF9
+015F8F	DAEC
+015F91	BEB6
+015F93	B4D3
+015F9E	B4D3
+015FA0	E1E2
+015FB3	B5C2
+015FB4	E1E7
+015FB9	B3B9
+015FC8	C8CA
+015FCE	C8CA
+015FDC	D3A6
+015FE2	CEF2
+015FF0	E3B2
+015FFC	BFB6
+016018	B9CC
+016023	D3C8
+016031	B4D2
+016033	BBD0
+016046	BAE3
+016056	CBBC
+016060	B9D6
+016061	C1DF
+016065	B3DC
+016071	D4C3
+016075	BBDD
+016085	D4C3
+01608B	C1DF
+016090	CCE8
+016091	B2C0
+0160A4	B4D2
+0160A9	C4D5
+0160AA	B6F1
+0160B3	B5C2
+0160B5	E2EA
+0160B6	C3C6
+0160D6	CCE8
+0160E1	B6F1
+0160E3	D7DC
+0160EA	B5C2
+0160F1	C4D5
+0160F2	E3A2
+0160F7	B4C0
+0160FB	E2FC
+016119	E3A1
+01611B	B0AE
+01611C	E3AB
+016128	EDA8
+01612C	CBDF
+01612F	E3A4
+016133	BEE5
+016134	E2EB
+016137	E2FD
+016138	D5FB
+01613B	D1B7
+01613C	C9F7
+01613D	B2A9
+01613E	E2E9
+016142	D3C1
+01614B	CCAC
+01614D	E3B3
+016158	B2D2
+016159	B2D1
+01615A	B2D1
+01615F	E2FA
+016163	B9DF
+016164	EDA8
+01616A	E2E6
+01616B	CBCB
+01616E	C2C7
+016173	E3A5
+016176	C7EC
+016182	D3C7
+016185	E2FA
+016187	EDAC
+01618A	B1B9
+016190	C1AF
+016191	C6BE
+016192	E3B4
+016198	CFB2
+016199	CFB2
+01619A	B5AC
+0161A4	B7DF
+0161AB	C3F5
+0161AE	E2E4
+0161B2	CFDC
+0161B6	D2E4
+0161C3	C7DA
+0161C7	BFD2
+0161C9	D3A6
+0161CC	E2F8
+0161D0	BBB3
+0161D5	E2FB
+0161DC	E3C2
+0161DF	EDA1
+0161E3	EDAF
+0161E8	E2FB
+0161F2	B3CD
+0161F4	E2E3
+0161F6	C0C1
+0161F7	BBB3
+0161F8	D0FC
+0161FA	E2E3
+0161FC	BEE5
+0161FE	C9E5
+016200	C1B5
+016207	EDB0
+016214	EAA7
+01621D	D4F4
+01621E	EAA9
+016220	DBFA
+016226	D5BD
+016227	EAA8
+016229	EAAF
+01622F	CFB7
+016230	D5BD
+016232	CFB7
+016236	BBA7
+016238	BBA7
+01623B	ECE5
+016255	B7F7
+01625E	BAB4
+016272	C7DC
+01627B	CBF0
+016283	DED5
+016285	BED0
+01628D	D5FC
+01629C	B0CE
+01629D	DED6
+01629E	D4F1
+0162B8	D0AE
+0162CB	C5D7
+0162CF	C4C3
+0162DD	B0DD
+0162E1	C0A9
+016304	C0A9
+01630D	D0A3
+016314	C2C3
+016315	C9E3
+016319	BED9
+016331	EAFD
+016335	C5AA
+01633E	D0AE
+01633F	B2E5
+016340	C5F5
+016341	BDC1
+016344	BEC8
+01635C	CBD1
+01636B	DED1
+016374	D7DC
+01637F	C6DC
+016383	C9A8
+016384	C2D5
+01638B	B5D6
+016399	D5F5
+01639B	B9D2
+0163B2	BDD2
+0163BB	C9A6
+0163C0	BCF0
+0163C8	DEE4
+0163DA	D1EF
+0163DB	BBBB
+0163EE	BBD3
+0163F7	B2E5
+0163F9	B1B3
+016403	D7DC
+01640D	CBF0
+016417	B5B7
+01642F	CCCD
+016436	C7C0
+01643C	C8AD
+01643E	D5A5
+016442	C9E3
+01644F	F4A9
+016451	DEE2
+01645C	DEE8
+01645F	C2A7
+016464	C7C0
+01646F	D6BF
+016473	BFD9
+016476	DED2
+016477	B3AD
+01647B	B2F4
+016483	BBF7
+016486	C6B2
+016488	C0CC
+016490	B3C5
+016493	C4D3
+01649F	DED8
+0164A3	B5A7
+0164A5	B2A6
+0164A6	B3B6
+0164AB	B8A7
+0164B2	C6CB
+0164B3	DEEC
+0164B9	BDC1
+0164BB	CCA2
+0164BE	CECE
+0164BF	BCF1
+0164C1	D3B5
+0164C4	C2B0
+0164C7	D4F1
+0164CA	BBF7
+0164CB	B5B2
+0164D1	BDD3
+0164D4	B5A3
+0164E0	BCB7
+0164E1	CCA7
+0164E5	C0BF
+0164E7	BED9
+0164EC	C4E2
+0164EF	B1F7
+0164F0	C5A1
+0164F1	B8E9
+0164F2	D6C0
+0164F4	C0A9
+0164F7	DFA2
+0164F9	CCAF
+0164FA	B0DA
+0164FB	CBD3
+0164FC	DFA3
+0164FE	C8C5
+0164FF	D5AA
+016502	C0DE
+016504	DEF3
+016506	C4EC
+016508	DEDC
+01650F	C2A3
+016514	C0B9
+016516	DEFC
+016519	B2F3
+01651B	DFA5
+01651C	D0AF
+01651D	C9E3
+01651F	DEDC
+016522	D4DC
+016523	C2CE
+016524	CCAF
+016529	B5B2
+01652A	BDC1
+01652C	C0BF
+016537	BFBC
+01653D	B0E4
+016542	DFB5
+01654D	D0F0
+01654E	BDCC
+016557	B0DC
+016558	D0F0
+016575	B5D0
+016578	CAFD
+016582	C1B2
+016583	B1D0
+016588	D1A7
+016589	C6EB
+01658D	BEF5
+01658E	D5AB
+016595	ECB5
+0165AC	D5B6
+0165B7	B6CF
+0165C9	B7F3
+0165D1	ECBD
+0165E3	BCC8
+0165F3	B5C4
+0165F8	C1E3
+0165FD	EAD5
+0165FE	B4BA
+016618	B7C3
+01661A	C9F7
+01661C	D1F4
+01661E	B1FE
+01662C	BBE8
+01663B	B0BA
+016642	CAB1
+016644	BBCE
+016648	F0A8
+016649	BDFA
+016658	BAB5
+01665D	D6E7
+016665	CDEE
+016669	CDED
+016673	CEFA
+01667B	B0B5
+016681	CFFE
+016688	D4CE
+01668E	D3B3
+016692	C7E7
+016698	C1E3
+01669C	C6D5
+0166A0	F0A9
+0166A2	B3A9
+0166AB	D4DD
+0166C1	F4DF
+0166C4	EACA
+0166C5	EACA
+0166C7	EABC
+0166C9	CFFE
+0166D0	D0C7
+0166D6	EAD3
+0166E0	BFF5
+0166EC	C9B9
+0166F5	D2B7
+0166F8	CAE9
+0166FA	B2DC
+0166FD	D4F8
+016703	BBE1
+016712	EBC7
+016716	C0CA
+01671E	C6DA
+016722	CDFB
+016727	EBCA
+016736	B6E4
+016771	B6AB
+016780	CBC9
+016788	E8C1
+01678F	E9AA
+0167A0	E8EB
+0167B4	B9D5
+0167F5	D5A4
+0167F9	CAC1
+0167FA	B9D5
+0167FB	B2E9
+0167FE	E8D1
+016801	C1F8
+016804	C8D9
+016814	C6F5
+016822	B0D8
+016852	C9A3
+01685C	D3A3
+01685F	D5BB
+01686E	B1AD
+01686F	E9BA
+01687A	C1F8
+016894	E8D9
+016896	B1B4
+016898	E8C5
+01689D	CCF5
+01689F	E8C9
+0168B9	E9C4
+0168C3	C0E6
+0168C4	C6FA
+0168CA	C6E5
+0168D6	E8C7
+0168D7	D4E6
+0168DF	B6B0
+0168E5	B7AE
+0168E7	D5BB
+0168EC	E8F0
+0168F2	C6DC
+0168F7	DEB4
+016918	B3FE
+01691C	BCEC
+016936	D7D8
+01694A	D1EE
+016953	B7E3
+016955	CDD6
+016961	D3DC
+016965	E9B8
+016968	E8E5
+01696D	D2B5
+016973	C3B7
+016975	BCAB
+01697D	C0D6
+0169A1	CBD8
+0169A2	BCDC
+0169AE	C8D9
+0169BF	E8E7
+0169CB	B9B9
+0169CD	C7B9
+0169D7	C7C5
+0169D8	D1F9
+0169DE	E8D0
+0169E7	E8FD
+0169E8	E9A4
+0169EA	B8C5
+0169F3	BDB0
+016A01	D7AE
+016A02	C0D6
+016A05	E8C8
+016A13	C2A5
+016A19	B1EA
+016A1E	CAE0
+016A22	DCE0
+016A23	D1F9
+016A29	C8A8
+016A39	CAF7
+016A3A	E8EB
+016A45	C4A3
+016A48	E8E3
+016A4A	C1F1
+016A4B	C7C5
+016A5F	BBFA
+016A62	CDD6
+016A64	C8EF
+016A66	B4B1
+016A6B	BAE1
+016A70	E9C0
+016A81	E9DD
+016A89	E8DF
+016A92	B7E3
+016A94	B5B5
+016A9A	B3FE
+016A9C	E8ED
+016A9D	E9AE
+016AA2	BCEC
+016AA3	E9C9
+016AB3	E9C4
+016AB4	E8EB
+016AB8	C4FB
+016ABB	BCF7
+016AC3	B9F1
+016AD3	E9D6
+016ADA	E9B5
+016ADB	E8CE
+016ADD	E8FC
+016ADE	E9DA
+016ADF	E8DD
+016AE5	B3F7
+016AE7	E9C6
+016AE8	E8D3
+016AEA	E8C0
+016AEC	E9B4
+016AF3	E8D0
+016AF5	E9D4
+016AF8	E9B7
+016AFA	E8F9
+016AFB	D3A3
+016B04	C0B8
+016B05	E9B7
+016B0A	C8A8
+016B0F	E9A1
+016B12	E8EF
+016B16	E9AD
+016B1B	E8CB
+016B1E	E8F9
+016B2C	BFC8
+016B35	BFEE
+016B38	DAC0
+016B3D	C7D5
+016B42	B4AD
+016B4D	CED8
+016B50	C5B7
+016B53	BBB6
+016B57	D0A5
+016B5B	C1B2
+016B5F	ECA3
+016B60	E0A8
+016B61	BBB6
+016B68	B2BD
+016B69	B2BD
+016B6B	BEE0
+016B6C	C7B0
+016B6F	B3DD
+016B71	F5E0
+016B72	CBEA
+016B73	CBEA
+016B78	B9E9
+016B7A	B4F5
+016B7E	D8D8
+016B7F	E9E2
+016B98	B2D0
+016B9E	E9E6
+016BA4	E9E4
+016BAB	E9E9
+016BAE	E9E7
+016BAF	E9EB
+016BB1	BCDF
+016BB2	BCDF
+016BBA	C9B1
+016BBB	BFC7
+016BBC	BFC7
+016BBD	CFFD
+016BC0	BBD9
+016BC6	C5B9
+016BC9	D2BD
+016BCE	C3BF
+016BD1	BDE3
+016BD8	C5FE
+016BFF	EBA7
+016C02	EAF3
+016C08	D5B1
+016C0A	D5B1
+016C0C	EBAA
+016C17	C6F8
+016C23	C6F8
+016C2B	C7E2
+016C2C	EBB2
+016C31	D1F5
+016C33	EBB5
+016C37	B1F9
+016C3B	E3EE
+016C53	C7F6
+016C59	CEDB
+016C5A	CEDB
+016C73	E3EA
+016C78	E4E8
+016C7A	BEF6
+016C92	C3BB
+016C96	B3E5
+016C97	CCED
+016CA2	D4F3
+016CC1	BFF6
+016CF2	BCC3
+016D02	D2BA
+016D13	D7D5
+016D16	CEB9
+016D1F	CCE9
+016D24	C8AA
+016D2F	BDE0
+016D34	D5DC
+016D36	D0DA
+016D79	E4A4
+016D87	E3FE
+016D99	C0E1
+016DB1	D5C7
+016DBC	C1B9
+016DC8	E3E8
+016DDA	C0E1
+016DDB	D5E3
+016DDC	B7EB
+016DEA	C2D9
+016DF5	D4A8
+016DF6	E4B5
+016DF8	C7E5
+016DFA	C7B3
+016E01	D4A8
+016E07	BFCA
+016E08	BCC3
+016E09	C9E6
+016E0B	C9AC
+016E13	CFAA
+016E15	D4A8
+016E19	BBC1
+016E1B	BCF5
+016E26	CED0
+016E2C	B2E2
+016E3E	BBEB
+016E57	DDD7
+016E5E	E4A5
+016E6F	CCC0
+016E7B	B4BE
+016E7C	C4F9
+016E7D	D7CD
+016E80	C2FA
+016E88	E3ED
+016E9D	B9B5
+016EA4	B7EB
+016EAB	CEC2
+016EBC	CAAA
+016EC4	B2D7
+016EC5	C3F0
+016ECC	B5D3
+016ECE	DCFE
+016ED9	BBE3
+016EDB	D2F9
+016EDD	E3F1
+016EEC	BBA6
+016EEF	D6CD
+016EF2	C9F8
+016EF3	B5CE
+016EF8	E4B0
+016EFE	B9F6
+016EFF	C2FA
+016F01	D3E6
+016F11	B8C8
+016F19	CDC4
+016F1A	C5BD
+016F22	BABA
+016F23	C1B0
+016F2C	D7D5
+016F32	D5C7
+016F35	E4D3
+016F38	BDA5
+016F3F	BDAC
+016F41	F2A3
+016F44	CAFE
+016F45	B9E0
+016F51	C6C3
+016F54	BDE0
+016F59	E3ED
+016F5B	C7B1
+016F64	C8F3
+016F6C	CCB2
+016F6F	E4B1
+016F70	C0A3
+016F77	E4E4
+016F79	E4FD
+016F7F	E4B6
+016F80	C9AC
+016F81	C9AC
+016F82	B3CE
+016F86	BDBD
+016F87	C0D4
+016F91	C1EF
+016F97	BDA7
+016FA0	E4C5
+016FA3	E4BD
+016FA4	D4F3
+016FAB	C5BA
+016FAE	E4AB
+016FB0	E4F2
+016FB1	B5ED
+016FC1	D7C7
+016FC3	C5A8
+016FD5	CAAA
+016FD8	C5A2
+016FDF	BCC3
+016FE4	CCCE
+016FE8	D7CC
+016FEB	C0C4
+016FF0	CEAB
+016FF1	E4BA
+016FF3	C7B1
+016FF5	E4BA
+016FF6	C0AB
+016FFA	BDA6
+016FFC	E3F8
+016FFE	C2CB
+017001	D1FA
+017006	E4C2
+017009	D0BA
+01700F	E4AF
+017013	B3CE
+017015	B1F4
+017018	E3F2
+01701D	C1A4
+01701F	E4EC
+017026	E4F3
+017027	E3F1
+017028	E4FE
+01702C	E4FE
+017032	E4F2
+01703E	C0BD
+017043	E3E3
+017044	E4DC
+017051	C8F7
+017055	C0EC
+017058	CCB2
+01705D	E5B0
+017061	C0BD
+017063	CDE5
+017064	C2D0
+017067	E4D9
+01706E	B9E2
+017074	BAE6
+01707D	D4D6
+01708D	C5D1
+017097	B9E2
+0170A4	D5D5
+0170B2	ECC6
+0170BA	CEAA
+0170CF	CEDA
+0170D6	D4D6
+0170EE	C1D2
+0170F1	BEBC
+0170F4	CCFE
+017103	BAD5
+017108	CEF5
+01710F	D8BD
+017121	CEDE
+017134	ECCF
+01713C	C9D5
+017149	C1B6
+017151	D6F3
+017152	ECBF
+017155	CEF5
+017159	D1CC
+017161	BDFD
+017162	DCE4
+017165	BBC0
+017169	B7B3
+01716C	ECBE
+01717C	B3B4
+017188	CEF5
+017192	D3AB
+017197	ECC1
+0171B1	C8C8
+0171BE	B3E3
+0171C1	ECC7
+0171C8	B5C6
+0171C9	ECC0
+0171CC	B7D9
+0171D2	C9D5
+0171D9	CCCC
+0171DC	ECCB
+0171DF	D3AA
+0171E6	B2D3
+0171ED	D6F2
+0171F4	BBE2
+0171FC	BDFD
+0171FD	ECE2
+0171FE	ECE2
+0171FF	D2AB
+01720D	CBB8
+017210	C2AF
+017213	D1E6
+017215	DBC6
+01721B	C0C3
+017224	C0C3
+017225	D6F2
+01722D	D5F9
+017232	CEAA
+01723A	D2AF
+01723C	D9DE
+01723E	B6FB
+017240	B4B2
+017250	D5A2
+017258	EBB9
+01727D	C7A3
+017282	C0E7
+017286	CCD8
+017287	B1BC
+017296	DCFD
+01729B	EAF3
+0172A0	CEFE
+0172A2	B6BF
+0172A7	CEFE
+0172B2	B2F2
+0172B3	B1AA
+0172C0	D7B4
+0172CC	D0C9
+0172E2	BAD1
+0172E5	E1DF
+0172F9	CFC1
+0172FD	B1B7
+017302	BAB7
+017312	D1E1
+017319	D5F8
+01731F	C1D4
+017328	D4B3
+017336	D3CC
+01733B	E1F8
+017341	E1EF
+017343	B4F4
+017344	D3FC
+017345	CAA8
+01734E	BDB1
+017363	CADE
+017367	E1FA
+017368	B6C0
+01736A	E1F6
+01736B	E1FD
+017370	C4FC
+017372	BBF1
+017375	C1D4
+017377	E1EE
+017378	CADE
+01737A	CCA1
+01737B	CFD7
+01737C	E2A8
+017380	E2A4
+017385	C3EE
+0173A8	E7E5
+0173AA	C1D5
+0173E1	C7D9
+0173E4	B1A6
+0173FE	CFD6
+017416	D5B5
+017439	C7D9
+01743F	E7F5
+017447	E7E9
+01744B	E7E2
+017458	E7F0
+017463	CBF6
+017464	D1FE
+017469	D3A8
+01746A	C2EA
+01746C	ECBC
+017474	E7E5
+017489	E7F6
+01749D	B9E5
+0174A3	E7E1
+0174A6	E8A8
+0174B0	BBB7
+0174BD	E7F4
+0174C8	C1A7
+0174CA	C7ED
+0174CF	E7E7
+0174D4	E8AC
+0174DA	E8B6
+0174E1	D6B4
+0174EB	C5E8
+017501	C6BF
+017506	B4C9
+01750C	EAB1
+017515	CECD
+01751B	CCF0
+01751E	B3A2
+017522	B2FA
+017523	B2FA
+017524	DEA8
+017542	C4B6
+017544	C1F4
+017546	C4B6
+01755D	C4B6
+017562	B1CF
+017563	B4F0
+01756B	BBAD
+01756C	EEB4
+01756D	EEB4
+01756E	C4B6
+017570	D2EC
+017573	B5FE
+017575	BBAD
+017576	B5B1
+01757B	EBF3
+017587	B3EB
+01758A	B5FE
+01758E	CAE8
+017598	B8D8
+0175A9	B4E1
+0175D9	BEB7
+0175E9	CADD
+0175F5	BCC2
+0175FE	F0E2
+017609	D3FA
+01760B	B7E8
+01760D	D1F1
+017613	BBBE
+01761E	F0F9
+017621	B4AF
+017627	C5B1
+01762C	D5CD
+01763A	F0FC
+01763B	F0FC
+017642	C1C6
+017645	C1F6
+017646	F0EC
+017647	F0EF
+017649	F0F7
+017651	C5A7
+017652	D3FA
+017658	F0DD
+01765F	B1F1
+017661	B3D5
+017662	D1F7
+017664	F0DC
+017667	F0DF
+017669	F1AE
+01766C	D1A2
+01766D	F1A8
+01766E	F1AB
+017670	D3B8
+017671	CCB1
+017672	F1B2
+017690	B8DE
+01769A	B0A8
+0176B7	B9C4
+0176B8	F1E4
+0176B9	F1E4
+0176BA	D6E5
+0176BC	B9C4
+0176C7	EEC1
+0176CB	B2A7
+0176DC	B5C1
+0176DE	D5B5
+0176E1	BEA1
+0176E3	BCE0
+0176E4	C5CC
+0176E7	C2AC
+0176FB	C5CE
+01770C	CFD8
+01770E	CABE
+017718	C9F7
+01771E	D5E6
+017725	EDF6
+01773E	D6DA
+017742	C3BC
+01775C	D5F6
+01775E	EDF9
+017764	EEA2
+017798	EDEE
+01779E	C2F7
+0177A4	CBB2
+0177B9	EAD3
+0177BC	EDFA
+0177C1	B3F2
+0177D9	EEAB
+0177DA	D6F5
+0177DE	DADC
+0177DF	E9C3
+0177E6	BAEE
+0177EF	BDC3
+0177F4	EDD6
+017815	CBE9
+017836	E7EA
+017842	EEFD
+01784B	B0AD
+01784F	D1D0
+017864	EDCC
+017868	EDBA
+01786F	D1E2
+0178A9	CBB6
+0178AA	D5E8
+0178AD	EDB8
+0178AF	E8A7
+0178B8	EDBF
+0178BA	C8B7
+0178BB	C8B7
+0178BC	C2EB
+0178C2	C1F2
+0178DA	D7A9
+0178E3	EDD7
+0178E5	C0DA
+0178E7	EDD3
+0178EF	EDB6
+0178F8	EDD6
+0178FD	EDCD
+01790E	B4A1
+017919	B0AD
+017920	B4C5
+017926	BFF3
+01792A	EDC2
+01792B	C0F9
+01792C	B7AF
+017931	EDC3
+01797F	C2BB
+01798D	BBF6
+01798E	ECF5
+0179A5	ECF7
+0179A9	ECEB
+0179AA	ECF8
+0179AE	C0F1
+0179B0	ECF2
+0179B1	B5BB
+0179B8	F5E5
+0179C8	F4CC
+0179CA	C4EA
+0179CC	C7EF
+0179CF	BAC4
+0179D0	D4C5
+0179D7	E2C0
+0179F6	F4D2
+017A09	BEAC
+017A2B	B8A3
+017A2D	BDD5
+017A2E	D6D6
+017A31	B3C6
+017A32	B5BE
+017A38	D0EE
+017A3E	B8E5
+017A42	CBEB
+017A4C	F6D5
+017A4D	BBFD
+017A4E	D3B1
+017A4F	CEC8
+017A5C	D6D6
+017A61	F0A3
+017A62	BBE0
+017A63	F0A6
+017A64	C5B4
+017A69	CEC8
+017A6D	EFF9
+017A6F	F0A3
+017A82	C0CE
+017AA9	CED1
+017AAA	CDDD
+017AAE	C7EE
+017AB4	CCEE
+017AB6	F1C0
+017ABA	BFFA
+017ABB	B4B0
+017AC2	E5BC
+017AC3	D4EE
+017AC4	B4DC
+017AC5	C7CF
+017AC6	C7EE
+017AC7	F1BC
+017AC8	D4EE
+017ACA	C7D4
+017AD2	C6E6
+017ADA	D8F9
+017ADC	C1FA
+017ADD	B2A2
+017AE2	D9B9
+017AEA	CAFA
+017AF6	BEBA
+017AF8	BEBA
+017AFC	C5F1
+017AFE	F3F8
+017B27	B2E1
+017B42	F3F8
+017B46	B1CA
+017B4D	CBF1
+017B5E	B2DF
+017B66	B9DC
+017B67	F3C8
+017B6D	CBE3
+017B6F	F3E7
+017B7A	BFF0
+017B8B	BCE3
+017BC0	BDDA
+017BCB	F3E6
+017BE4	F3C6
+017BE9	C9B8
+017BED	C1FD
+017BF2	E5E7
+017BF3	F3D9
+017C00	F3E5
+017C02	E0FE
+017C0D	C2A8
+017C12	B4DB
+017C18	F3EF
+017C1E	F3EC
+017C21	BCF2
+017C23	F3F1
+017C2B	F3EF
+017C3D	C7A9
+017C3E	C1B1
+017C43	C0BA
+017C44	F3F1
+017C4C	B3EF
+017C56	B2A2
+017C5C	F3EA
+017C5F	F4A5
+017C60	C1FD
+017C64	B2A2
+017C69	F3D6
+017C6A	F3FD
+017C6C	C0E9
+017C6E	C2E1
+017C8B	B4E2
+017C93	E3EF
+017C9B	CBE0
+017CA7	D7B1
+017CC2	F4D6
+017CC9	F4D5
+017CDB	CCC7
+017CDD	F4D6
+017CDE	B7E0
+017CE3	F4D6
+017CE7	C1B8
+017CF2	F4CF
+017CF4	D9E1
+017CF6	F4D0
+017CF9	E6F9
+017CFA	BEC0
+017CFE	BEC0
+017D00	BCCD
+017D02	E6FB
+017D04	D4BC
+017D05	BAEC
+017D06	E6FA
+017D07	E6FC
+017D08	E6FD
+017D09	C8D2
+017D0B	CEC6
+017D0D	C4C9
+017D10	C5A6
+017D13	E7A3
+017D14	B4BF
+017D15	E7A2
+017D17	C9B4
+017D19	D6BD
+017D1A	BCB6
+017D1B	B7D7
+017D1C	E7A1
+017D21	B7C4
+017D28	B8BF
+017D30	CFB8
+017D31	E7A6
+017D32	E7A5
+017D33	C9F0
+017D39	C9DC
+017D3A	E7A4
+017D3C	E7A8
+017D3F	E7AA
+017D40	E7A9
+017D42	D6D5
+017D43	CFD2
+017D44	D7E9
+017D46	B0ED
+017D4B	E6FE
+017D4C	BEAD
+017D4E	E7AC
+017D50	BDE1
+017D55	BEF8
+017D56	E6FE
+017D5D	E7AB
+017D5E	BDCA
+017D61	C2E7
+017D62	D1A4
+017D64	CFDF
+017D66	B8F8
+017D68	C8DE
+017D71	CDB3
+017D72	CBBF
+017D73	E7AD
+017D75	BBE6
+017D76	BEF8
+017D79	BEEE
+017D81	B0F3
+017D82	CDB3
+017D83	E7AF
+017D86	E7AE
+017D88	E7B0
+017D89	D0E5
+017D8D	E7A8
+017D8F	CBE7
+017D93	BEAD
+017D95	D6AF
+017D98	B7EC
+017D99	BCCC
+017D9A	D0F8
+017D9C	D7DB
+017DA0	C2CC
+017DA2	B3F1
+017DA3	E7B9
+017DA4	C9DC
+017DAB	CFDF
+017DAC	E7B7
+017DAD	CEAC
+017DB0	E7BA
+017DB1	B8D9
+017DB2	CDF8
+017DB3	B1C1
+017DB8	C2DA
+017DB9	E7B8
+017DBA	E7B2
+017DBB	D5C0
+017DBD	B4C2
+017DBE	E7B1
+017DBF	C3E0
+017DC4	E7B5
+017DC7	E7BB
+017DCA	BDF4
+017DCB	E7B3
+017DCF	D7DC
+017DD0	B7B1
+017DD1	C2CC
+017DD2	D0F7
+017DD6	D0F7
+017DD7	E7BD
+017DD8	BCEA
+017DD9	E7BC
+017DDA	CFDF
+017DDC	C3E0
+017DDD	BCA9
+017DDE	B6D0
+017DDF	D6D8
+017DE0	B5DE
+017DE1	E7C5
+017DE3	D4B5
+017DE6	E7C1
+017DE8	B1E0
+017DE9	BBBA
+017DEC	C3E5
+017DEF	CEB3
+017DF1	E7C3
+017DF2	E7BF
+017DF4	C1B7
+017DF9	E7BE
+017DFE	B2F8
+017E01	D4B5
+017E02	D7DC
+017E04	C9FE
+017E08	DDD3
+017E09	E7C6
+017E0A	E7CB
+017E0B	E7C4
+017E10	E7A7
+017E11	E7CC
+017E1B	B8BF
+017E1D	E7C7
+017E1E	E7C9
+017E1F	E7C8
+017E23	CFD8
+017E26	D7DD
+017E27	CCD0
+017E2B	B7EC
+017E2D	E7CA
+017E2E	CBF5
+017E31	D7DD
+017E32	E7D0
+017E35	E7CF
+017E36	F4EA
+017E37	C2C6
+017E39	E7CE
+017E3D	D7DC
+017E3E	BCA8
+017E43	B1C1
+017E45	E7D2
+017E46	E7D1
+017E52	E7D5
+017E54	D6AF
+017E55	C9C9
+017E56	C9A1
+017E59	B7AD
+017E5A	E7D4
+017E5B	B4C2
+017E5E	C8C6
+017E69	C9FE
+017E6A	BBE6
+017E6D	BCEB
+017E6E	E7D6
+017E6F	E7D9
+017E70	E7D8
+017E73	BDC9
+017E79	D2EF
+017E7C	BCCC
+017E7D	E7CD
+017E7E	E7D7
+017E88	E7D3
+017E89	E7DA
+017E8A	E6FE
+017E8C	D0F8
+017E8F	B2F8
+017E92	B2F8
+017E93	D3A7
+017E98	E7DA
+017E9C	C0C2
+017F37	D0B6
+017F3D	B2A7
+017F3E	C6BF
+017F47	E9D7
+017F4C	F3BF
+017F53	D8E8
+017F66	EEB7
+017F70	B7A3
+017F75	C2EE
+017F77	B0D5
+017F78	B7A3
+017F83	DAA2
+017F85	C2DE
+017F86	EEBC
+017F88	EEBF
+017F91	D3D5
+017F97	C7BC
+017F99	C3C0
+017FA3	C8BA
+017FA5	F4C7
+017FA8	CFDB
+017FA9	D2E5
+017FAE	B8FE
+017FC4	B3E1
+017FC6	B4E4
+017FCD	C5FB
+017FD2	CFB0
+017FF6	B0BF
+017FF9	C7CC
+017FFA	B0BF
+018011	B6CB
+018021	B3FA
+01802C	F1EF
+01802E	F1EC
+018040	D6B0
+018056	CAA5
+01805E	CEC5
+01805F	D0F6
+018061	B4CF
+018066	B4CF
+018068	C1AA
+01806B	C1AA
+01806E	C1AA
+01806F	C1AA
+018070	B4CF
+018072	C9F9
+018073	CBCA
+018074	CCFD
+018075	F1F9
+018076	C4F4
+018077	D6B0
+018079	F1F7
+01807D	CCFD
+01807E	C1FB
+018085	CBE0
+018088	D5D8
+01808E	BFCF
+0180AC	F0E0
+0180BB	BFCF
+0180DF	C4B4
+0180F7	D0D8
+018103	B4E0
+01811B	EBD6
+01812B	CDD1
+018133	C4D4
+018134	C6A6
+018139	D5CD
+01814E	C9F6
+018156	EBCB
+018161	EBE1
+018166	C4D4
+01816B	D6D7
+018173	BDC5
+018178	B3A6
+018181	EBC9
+018183	EBF0
+018193	B3A6
+01819A	B7F4
+0181A0	BDBA
+0181A9	C4E5
+0181AC	B4E0
+0181B8	CBE8
+0181BD	B5A8
+0181BE	EBDA
+0181BF	C5A7
+0181C8	C0B0
+0181C9	C1B3
+0181CD	C6EA
+0181CF	EBF7
+0181D3	D4E0
+0181D5	B1EC
+0181D8	C0B0
+0181DA	EBCD
+0181DF	D4E0
+0181E0	D9F5
+0181E5	CED4
+0181E8	C1D9
+0181F0	B3F4
+018203	F4AA
+018207	D3EB
+018208	D0CB
+018209	BED9
+01820A	BEC9
+01820B	D0C6
+01820E	C9E1
+018216	C6CC
+018217	C6CC
+018218	B9DD
+018229	B4AC
+018241	D4EC
+01824A	B2B0
+018259	B2D5
+018265	E9AE
+018266	BDA2
+01826B	F4B5
+018271	BCE8
+018276	D1DE
+018277	D1DE
+01828C	D3F3
+018294	BBDC
+0182BB	DBBB
+0182D0	B5DA
+0182E9	DDE2
+018318	C0F3
+01831D	B6F1
+01831F	B1CA
+018330	DDC7
+018332	D7C8
+018345	B4F0
+018358	D7AF
+01838A	D7AF
+01838F	C9AF
+018391	C5EE
+018396	BEA5
+0183A2	BCD4
+0183A7	DCC8
+0183AD	BDDA
+0183BE	C3A7
+0183C4	B6AB
+0183D3	B9FB
+0183ED	CCA6
+0183EF	BBAA
+0183F7	D6E3
+01840A	C0B3
+018415	DCF9
+018420	C3C8
+01842C	CDF2
+018432	DDE6
+018435	DDAB
+018441	BDAA
+018445	DDCF
+018449	D2B6
+018452	DDA6
+018462	B8C7
+018464	DDA7
+018466	CEAD
+01846A	BCBB
+01846F	D2A9
+018477	BBE7
+018483	D7AD
+018493	DDBB
+018494	DDAA
+0184AD	DBBB
+0184BC	B2D4
+0184C0	DDA5
+0184CB	B8C7
+0184EE	C1AB
+0184EF	DCCA
+0184F4	DDBB
+0184FD	DCEA
+018512	BBE7
+018515	B5D9
+01851E	DDE4
+018523	BDAF
+018526	DCE0
+01852D	D2F1
+018535	B2D8
+018541	DDA1
+018545	C2FE
+018546	DDDB
+01854B	C8EF
+01854E	DCF1
+018552	DDA4
+018555	DDB5
+018558	DCE9
+01855A	DDE0
+018562	DDDE
+018569	B5B4
+01856A	CEDF
+01856B	B6AD
+01856D	CFF4
+018577	DDF7
+018588	DCF6
+01858A	BCBB
+01858C	DCBC
+018594	C7BE
+0185A6	BCF6
+0185A9	C8F8
+0185AB	DEB9
+0185AC	D2A9
+0185BA	DCF9
+0185BB	D4E5
+0185CD	C0B6
+0185CE	DDA3
+0185DD	D2D5
+0185E1	DDB6
+0185E5	D2A9
+0185EA	DEB4
+0185F4	D4CC
+0185F6	DCC2
+0185F9	B0AA
+0185FA	DDFE
+018602	C8EF
+018604	DEAD
+018606	C2AB
+018607	CBD5
+01860A	D4CC
+01860B	C6BB
+01860D	DEB9
+018613	CBD5
+01861A	DEBA
+01861C	BED5
+01861D	DDFC
+01861E	DDFC
+018622	DCD7
+01862D	C0BC
+018637	D9E7
+01863F	C2DC
+018640	ECB4
+018641	D9E7
+01864A	CEE5
+018655	B4A6
+01865B	D0E9
+01865C	C2B2
+01865D	BBA2
+01865F	BAC5
+018667	BFF7
+01866F	F2B0
+018689	CEC3
+018698	BBD7
+0186A6	F2C5
+0186CD	D3A9
+0186E5	F2D2
+0186FA	F2CC
+018706	F2B9
+01870B	F2EB
+018716	BBD7
+01871D	F2E0
+018728	B5FB
+018739	F2B8
+01873A	C4DE
+018750	E8A3
+018755	CAB4
+01875F	E2AC
+018766	CFBA
+01876B	F2DC
+018778	CECF
+01877F	D3AC
+018784	F2CF
+01878E	C8DA
+01879E	C2EC
+0187A1	CEC3
+0187A2	D3A9
+0187BB	F2F7
+0187BE	F2BE
+0187C1	CEC3
+0187C4	D5DD
+0187C7	F3A1
+0187C8	F2E5
+0187CE	F2FD
+0187DA	F3B2
+0187E3	F2B1
+0187EC	B2F5
+0187EF	F2CD
+0187F6	F2C9
+0187F8	F3BB
+0187FB	D2CF
+018805	D3AC
+018806	F2B2
+01880F	D0B7
+018810	F2D3
+018811	F2EE
+018814	F2BA
+01881F	C0AF
+018823	F2C3
+018829	F2DC
+018831	B9C6
+018836	B2CF
+01883B	C2F9
+018842	F4AC
+018846	D6DA
+018849	BFA6
+018853	CAF5
+018858	CFCE
+01885B	CEC0
+01885E	CEC0
+01889E	D9F2
+0188B5	F1C5
+0188BF	B9D3
+0188CA	F4C1
+0188CC	F1CA
+0188DC	B2B9
+0188DD	D7B0
+0188E0	C8B9
+0188ED	F1DD
+0188F5	C5E1
+018901	B9FC
+018903	F1CC
+018932	BFE3
+018933	F1CD
+018938	F1DA
+01893B	D9F4
+018943	B0FD
+018947	F1D0
+01894D	D4D3
+018956	B0C0
+01895D	F1CF
+018960	F1C9
+018962	CCBB
+018964	F1DC
+01896A	CDE0
+01896F	B3C4
+018972	CFAE
+018987	B0D4
+018988	BACB
+01898A	EEBF
+01898B	BCFB
+01898F	B9E6
+018993	C3D9
+018996	CAD3
+018997	CBC5
+018998	EAE8
+01899A	BEF5
+01899C	CCF7
+01899D	CFCE
+0189A1	EAEA
+0189A6	EAEC
+0189A7	C0C0
+0189AA	C7D7
+0189AC	EAE9
+0189AF	EAED
+0189B2	EAEE
+0189B3	B9DB
+0189B6	C0BE
+0189B7	EAEF
+0189BA	BEF5
+0189BB	EAEF
+0189BC	C0BE
+0189BD	C0C0
+0189BF	EAEB
+0189C0	B9DB
+0189E7	BDE2
+0189F4	F5FC
+0189F5	F6A1
+0189F8	B4A5
+018A02	B6A9
+018A03	B8BC
+018A08	BCC6
+018A0A	D1B6
+018A0C	DAA7
+018A0E	CCD6
+018A10	DAA6
+018A13	D1B5
+018A15	DAA8
+018A16	C6FD
+018A18	BCC7
+018A1B	B6EF
+018A1D	D1C8
+018A1F	CBCF
+018A23	BEF7
+018A25	DAAB
+018A2A	B7C3
+018A2B	D0C5
+018A2D	C9E8
+018A31	D0ED
+018A33	D2EB
+018A34	CBDF
+018A36	DAAD
+018A3A	D5EF
+018A3C	D6A4
+018A3D	DAB8
+018A41	DAAC
+018A46	DAAE
+018A4E	DAAA
+018A50	D5A9
+018A52	DAB1
+018A54	DAAF
+018A55	C6C0
+018A58	DAB0
+018A5B	D7E7
+018A5E	B4CA
+018A60	D3BD
+018A61	DABC
+018A62	D1AF
+018A63	D2E8
+018A64	BBD1
+018A66	CAD4
+018A69	CAAB
+018A6B	B2EF
+018A6C	DAB8
+018A6D	B9EE
+018A6E	DAB9
+018A70	DAB5
+018A71	BBB0
+018A72	B8C3
+018A73	CFEA
+018A76	B3EA
+018A78	C3D5
+018A7A	C3FA
+018A7B	BFA9
+018A7C	DAB6
+018A7F	DAB4
+018A84	DAB3
+018A85	D6EF
+018A86	DAB2
+018A87	BFE4
+018A88	CEDC
+018A8D	C8CF
+018A90	C5B6
+018A91	DABF
+018A92	DAC0
+018A95	B5AE
+018A98	D3D5
+018A9A	DABD
+018A9E	D3EF
+018AA0	B3CF
+018AA1	BDEB
+018AA3	CEDC
+018AA4	CEF3
+018AA5	DABE
+018AA6	CBD0
+018AA8	BBE5
+018AAA	CBB5
+018AAC	CBB5
+018AAD	B6C1
+018AB0	CBAD
+018AB2	BFCE
+018AB3	DAB0
+018AB6	DAC7
+018AB9	B7CC
+018ABC	D2EA
+018ABF	B5F7
+018AC2	DAC6
+018AC4	D7BB
+018AC7	CCB8
+018AC9	DAC3
+018ACB	C7EB
+018ACD	DABA
+018ACF	DAC1
+018AD1	DAC2
+018AD2	C1C2
+018AD6	C2DB
+018AD7	DAC5
+018ADB	DAC4
+018ADC	B5FD
+018ADE	DAD2
+018AE2	DABB
+018AE4	DACC
+018AE6	DAD0
+018AE7	D0B3
+018AE9	C6D7
+018AEB	DAC9
+018AED	DACD
+018AEE	DAD1
+018AF1	BBE4
+018AF3	DACF
+018AF6	DAC8
+018AF7	B7ED
+018AF8	D6EE
+018AFA	D1E8
+018AFC	DACE
+018AFE	C5B5
+018B00	C4B1
+018B01	DACB
+018B02	CEBD
+018B04	CCDC
+018B05	D6DF
+018B09	B9EE
+018B0A	BBD1
+018B0E	C3D5
+018B10	DAD7
+018B14	DACA
+018B16	DAD5
+018B17	B0F9
+018B19	C7AB
+018B1A	DAD6
+018B1B	BDB2
+018B1D	D0BB
+018B20	D2A5
+018B21	D2A5
+018B28	DAD3
+018B2B	DAD8
+018B2C	C3FD
+018B2D	DAD9
+018B2E	DFF5
+018B33	DAA9
+018B39	BDF7
+018B3E	C3A1
+018B3F	B3B0
+018B49	D6A4
+018B4B	C0BE
+018B4D	D3A6
+018B4E	DADC
+018B4F	BCA5
+018B52	B2A5
+018B56	DADA
+018B58	CAB6
+018B59	DADB
+018B5A	CCB7
+018B5C	C6D7
+018B61	DAD4
+018B68	DFE6
+018B6B	DADE
+018B6F	D2EB
+018B70	D2E9
+018B71	C9C6
+018B72	C8C3
+018B74	C7B4
+018B77	BBA4
+018B7D	D3FE
+018B7E	DAD9
+018B80	B6C1
+018B87	DAC6
+018B8A	B1E4
+018B8D	DACC
+018B8E	F6C5
+018B90	F6C5
+018B92	B2F7
+018B93	C8C3
+018B95	C0BE
+018B96	DADF
+018B9B	DFBD
+018B9C	DAD4
+018B9E	DADD
+018C48	C6F1
+018C4A	C0F1
+018C4E	CAFA
+018C50	B7E1
+018C53	D1DE
+018C54	D1DE
+018C6C	D6ED
+018C7B	E1ED
+018C7C	F5F9
+018C8E	E2A5
+018C93	C3A8
+018C9D	B1B4
+018C9E	D5EA
+018C9F	D4B1
+018CA0	B8BA
+018CA1	B2C6
+018CA2	B9B1
+018CA3	B4FB
+018CA7	C6B6
+018CA8	BBF5
+018CA9	B7B7
+018CAA	CCB0
+018CAB	B9E1
+018CAC	D4F0
+018CAD	D6CA
+018CAE	B7A1
+018CAF	D6FC
+018CB0	EADB
+018CB3	B7A1
+018CB4	B9F3
+018CB6	B1E1
+018CB7	C2F2
+018CB8	B4FB
+018CBA	EADC
+018CBB	B7D1
+018CBC	CCF9
+018CBD	EADD
+018CBE	BFB6
+018CBF	C3B3
+018CC0	BAD8
+018CC1	EADA
+018CC2	C2B8
+018CC3	C1DE
+018CC4	BBDF
+018CC5	EAE0
+018CC7	D7CA
+018CC8	BCD6
+018CCA	D4F4
+018CCD	D4DF
+018CCE	BCFA
+018CD1	EAE2
+018CD2	C9DE
+018CD3	B1F6
+018CD6	C9DE
+018CDA	EAE3
+018CDB	D4DE
+018CDC	B4CD
+018CDE	C9CD
+018CE0	C5E2
+018CE1	E2D9
+018CE2	CFCD
+018CE3	C2F4
+018CE4	BCFA
+018CE6	B8B3
+018CE7	EAE6
+018CEA	D6CA
+018CEB	EAE5
+018CEC	D5CB
+018CED	B6C4
+018CF4	C0B5
+018CFA	D7AC
+018CFB	EAE7
+018CFC	B9BA
+018CFD	C8FC
+018CFE	D8D3
+018D01	B0DC
+018D04	EADE
+018D05	D7B8
+018D08	D4F9
+018D0A	D4DE
+018D0B	D8CD
+018D0D	C9C4
+018D0F	D3AE
+018D10	EAE1
+018D11	B8D3
+018D12	CFCD
+018D13	D4DF
+018D16	CAEA
+018D17	D8CD
+018D1B	B8D3
+018D1C	D4DF
+018D95	B8CF
+018D99	D5D4
+018DA8	C7F7
+018DAB	B3AC
+018DB2	F4F5
+018DE1	BCA3
+018DE5	B6E5
+018DF4	B2C8
+018E08	CAE8
+018E10	BCF9
+018E28	D7D9
+018E32	B6DD
+018E34	D3BB
+018E36	F5D8
+018E46	CDC8
+018E4C	F5C4
+018E4F	CCE3
+018E55	F5CF
+018E5D	E5EF
+018E5E	F5CD
+018E63	F5E7
+018E64	D7D9
+018E6E	F5D1
+018E77	F5EA
+018E7A	F5CE
+018E89	F5BB
+018E8A	B3EC
+018E8B	F5D2
+018E8D	D4BE
+018E91	F5DC
+018E93	F5D9
+018E9A	F5D1
+018EA1	F5E6
+018EA5	B4DA
+018EA6	F5F2
+018EA7	E5EF
+018EAA	F5EF
+018EAD	B5A2
+018EB0	CCE5
+018EB1	B6E3
+018EB7	B0AB
+018EC0	C7FB
+018EC1	D9CD
+018EC4	D6B0
+018EC6	CCE5
+018ECA	B3B5
+018ECB	D4FE
+018ECC	B9EC
+018ECD	BEFC
+018ED2	D0F9
+018ED4	E9ED
+018EDB	E9EE
+018EDF	C8ED
+018EE2	D7AA
+018EE4	E9F5
+018EEB	E9F4
+018EF0	B1B2
+018EF2	E9EF
+018EF6	E9EE
+018EF8	D6E1
+018EFA	E9F7
+018EFB	E9F0
+018EFC	E9F3
+018EFD	C7E1
+018EFE	E9F8
+018F03	BDCF
+018F05	E9FB
+018F09	D4D8
+018F0A	E9F9
+018F12	E9FC
+018F14	B8A8
+018F15	C7E1
+018F19	E9FC
+018F1B	C1BE
+018F1C	EAA2
+018F1D	BBD4
+018F1E	E9FE
+018F1F	EAA1
+018F25	B9F5
+018F26	E9FD
+018F29	B1B2
+018F2A	C2D6
+018F2D	C8ED
+018F2F	BCAD
+018F33	EAA3
+018F38	CAE4
+018F3A	EAA2
+018F3B	B7F8
+018F3E	D5B7
+018F3F	D3DF
+018F42	ECB1
+018F44	CFBD
+018F45	D4AF
+018F46	EAA4
+018F49	D7AA
+018F4D	D5DE
+018F4E	BDCE
+018F54	EAA5
+018F5F	BAE4
+018F61	E0CE
+018F62	E9F6
+018F64	E9F1
+018F9D	B4C7
+018FA2	C0B1
+018FA4	B4C7
+018FA5	D1A6
+018FA6	B0EC
+018FAC	B0DF
+018FAD	B4C7
+018FAE	B1E8
+018FAF	B1E7
+018FB2	C5A9
+018FBA	B1DF
+018FCA	D3AD
+018FE0	BDA8
+018FEC	CDF9
+018FEF	CCD3
+019008	E5C4
+01900E	E5D9
+019013	B5DD
+019019	D5E2
+019023	C1AC
+019024	E6B6
+019029	B1BC
+01902C	B1C5
+019032	BDF8
+019037	E5D1
+01903A	D4B6
+019040	CBE6
+019045	B3D9
+019049	D5EC
+01904B	D4CB
+01904C	E5C3
+01904E	B9FD
+019054	B4EF
+019055	CEA5
+019059	D2A3
+01905C	D1B7
+01905E	B5DD
+019060	D4B6
+019061	CBDD
+019069	CACA
+019072	B3D9
+019077	C7A8
+019078	D1A1
+01907A	D2C5
+01907C	C1C9
+019081	C2F5
+019084	BBB9
+019087	E5C7
+019089	B1DF
+01908A	B1DF
+01908F	C2DF
+019090	E5CE
+0190A8	B4E5
+0190DE	C0C9
+0190DF	DBA3
+0190F0	DAEE
+0190F1	B5B1
+0190F5	D3CA
+0190F7	CFE7
+019106	DBA9
+019109	CFE7
+01910A	CFE7
+019112	D7DE
+019114	DAF9
+019115	CFE7
+019116	D4C7
+019127	B5CB
+01912D	D6A3
+019130	C1DA
+019132	B5A6
+019134	DAFE
+019136	DBA6
+01913A	DAF7
+019148	DBAA
+019154	D7ED
+019159	D5E5
+019167	B3EA
+01917C	F5B0
+019196	D4CD
+01919E	D4CD
+0191A4	BDB4
+0191AB	D2BD
+0191AC	BDB4
+0191B8	C4F0
+0191BB	B3EA
+0191C0	C4F0
+0191C1	D0C6
+0191C3	F5A7
+0191C5	F5A6
+0191C8	CACD
+0191CB	CACD
+0191D2	EEC4
+0191D3	EEC5
+0191D4	EEC6
+0191D5	EEC9
+0191D7	EEC8
+0191D8	B6A4
+0191D9	EEC7
+0191DD	D5EB
+0191E1	B8AA
+0191E3	B5F6
+0191E4	EECC
+0191E7	EECB
+0191E9	B7B0
+0191F5	EECE
+0191F7	EECA
+0191F9	EECF
+0191FA	C7A5
+019200	EED9
+019201	EED5
+019203	BEA1
+019204	EED7
+019206	C7A6
+019207	B8AB
+019208	EED0
+019209	C4C6
+01920D	B6DB
+01920E	B9B3
+019210	EED4
+019214	B3AE
+019215	C5A5
+01921B	B9F8
+01921E	BEFB
+01921F	B5F6
+019223	B8C6
+019225	EED8
+019226	EED1
+019227	EED6
+01922E	EEEA
+019230	EEE6
+019233	EEDD
+019234	C1E5
+019237	EEDC
+019238	EEE0
+019239	EEEB
+01923A	EEDA
+01923D	EEDF
+01923E	D3CB
+01923F	EEE4
+019240	BCD8
+019244	CCFA
+019248	EEE8
+019249	EEE7
+01924D	EEE9
+019251	B2AC
+019255	EEDE
+019257	C7AF
+01925A	C3AD
+01925B	C7A6
+01925C	EFC2
+01925E	EEE1
+01925F	EEEB
+019262	B2A7
+019264	B9B3
+019266	EEDB
+01926C	EEE2
+01926D	EEE3
+019278	BDC2
+01927A	EEEF
+01927B	B8F5
+01927F	EEFE
+019280	D2F8
+019281	BEFB
+019283	EFA5
+019285	CDAD
+019291	CFB3
+019292	BEA1
+019293	EEFD
+019296	EEF9
+019298	C3FA
+01929A	EFA2
+01929C	CFCE
+01929E	BEFB
+0192A0	EEEE
+0192A3	EFA8
+0192A5	D2BF
+0192A6	EEF7
+0192A8	EFA7
+0192A9	EEFB
+0192AA	EEF0
+0192AB	EFA4
+0192AC	EEED
+0192AD	C7AE
+0192B1	EEF6
+0192B3	C8F1
+0192B5	EFAC
+0192B7	CFFA
+0192B9	D0E2
+0192BB	CCE0
+0192BC	EFB1
+0192C1	C2C1
+0192C3	EFB6
+0192C5	D0BF
+0192C7	B1B5
+0192CC	EEFA
+0192CF	EEF2
+0192D1	EFD4
+0192D2	B7E6
+0192DF	EFB7
+0192E4	B3FA
+0192E5	EFAD
+0192E6	EFB8
+0192E8	EFB0
+0192EA	C6CC
+0192ED	C8F1
+0192EF	EFAF
+0192F0	EFAE
+0192F1	EFAB
+0192F3	D6FD
+0192F8	BEE2
+0192FC	B8D6
+019301	EFBE
+019304	C2BC
+019306	EFBA
+019307	EFC2
+019308	EFC3
+019310	D7B6
+019312	EFB9
+019315	EFBF
+019318	B4B8
+019319	EFC5
+01931A	EFA3
+01931B	EFBC
+019320	B6A7
+019322	C7AE
+019326	BDF5
+019328	C3AA
+01932B	CEFD
+01932E	EFC0
+01932F	B4ED
+019332	C2BC
+019333	C3CC
+019338	EFAA
+019340	EFBD
+019341	CFC7
+019346	EECD
+019347	EFC7
+01934B	B9F8
+01934D	B6C6
+019354	EFC9
+019358	D5A1
+01935B	ECD1
+019364	EFCA
+019365	EFC6
+019369	EFBB
+01936B	C7C2
+01936C	C7C2
+019370	EFCC
+019375	BCFC
+019376	EFC8
+01937A	D5E0
+01937F	EFC5
+019382	C3BE
+019384	EFCD
+019387	EFD1
+01938A	B0F7
+019392	F1F1
+019396	CBF8
+019398	EFD3
+019399	E9C3
+01939A	B4B8
+01939C	C5CC
+0193A0	B8D6
+0193A2	CED9
+0193A3	DDF6
+0193A6	EFD6
+0193A7	EEF8
+0193A9	EFA1
+0193AA	EFCB
+0193AC	B8E4
+0193AD	D5F2
+0193AE	D5F2
+0193B0	EFD7
+0193B3	C4F8
+0193B5	EFD8
+0193B8	EFD4
+0193BB	CBF8
+0193BF	EFD5
+0193C3	EFDF
+0193C8	C1B4
+0193C9	EFCB
+0193D1	EFE1
+0193D7	EFAC
+0193D8	EFCF
+0193DC	EFDB
+0193DD	EFDC
+0193DE	EFDE
+0193DF	B2F9
+0193E0	B7E6
+0193E1	BEB5
+0193E2	EFDA
+0193E4	EFCE
+0193E8	F6C9
+0193E9	F6C9
+0193EC	F3C1
+0193F3	EFA3
+0193F5	EEFC
+0193F7	EFE4
+0193F9	EFEA
+019403	EEF3
+019410	C1CD
+019412	EFA9
+019413	EFE6
+019419	EFEB
+01941D	EFE3
+01941E	F1F1
+019420	EFE8
+019426	EFB4
+019427	EFB5
+019428	EFD0
+01942B	EFD4
+01942E	C1AD
+019432	EFED
+019433	C0D8
+019435	CCFA
+019438	EEEC
+01943A	EEF5
+01943F	EFEE
+019443	EFA2
+019444	D6FD
+019449	BCD8
+01944A	EFEC
+01944C	EFD9
+019452	BCF8
+019454	EFEF
+01945A	D7EA
+019460	EEE5
+019463	EFF0
+019465	EFE5
+01946D	EFE7
+019470	D4BF
+019472	CFE2
+019473	BCFC
+019475	B9DE
+019477	C4F7
+019479	EFE9
+01947C	C2E0
+01947D	D7EA
+01947E	F6C7
+01947F	D4E4
+019498	BEA1
+019577	B3A4
+019578	B3A4
+019580	C3C5
+019582	E3C5
+019583	C9C1
+019586	D1D6
+019587	B1D5
+019589	B1D5
+01958B	BFAA
+01958F	C8F2
+019591	CFD0
+019593	BCE4
+019594	E3C9
+019598	D5A2
+019599	C4D6
+01959E	B9D8
+0195A1	BAD2
+0195A2	B9D8
+0195A3	B8F3
+0195A5	B7A7
+0195A8	B9EB
+0195A9	C3F6
+0195AB	E3CD
+0195AC	E3CF
+0195AD	E3CC
+0195B1	D4C4
+0195B2	D4C4
+0195B6	E3D1
+0195B7	C9B1
+0195B9	D1CB
+0195BB	D1D6
+0195BC	E3D5
+0195BD	E3D4
+0195BE	E3D0
+0195BF	E3D3
+0195C3	E3D6
+0195C8	E3C7
+0195CA	C0AB
+0195CB	E3D7
+0195CC	C0BB
+0195D0	E3D9
+0195D4	E3D8
+0195D5	E3DA
+0195D6	B4B3
+0195D7	B9D8
+0195D8	B6B7
+0195DC	B9D8
+0195DE	E3DB
+0195E1	B2FB
+0195E5	E3CB
+019623	D2D9
+019627	B6B8
+019641	CDD3
+01964F	CBE5
+019657	C7CD
+019658	DAEA
+01965D	C9C2
+019663	D5F3
+019665	CFDD
+019670	D2F5
+019673	B3C2
+019678	C2BD
+01967A	CFD5
+01967D	D1F4
+01967F	CFC1
+019684	B5CC
+019689	DAED
+01968A	B6D3
+01968E	BDD7
+019695	D4C9
+01969B	BCCA
+01969F	CFB6
+0196A0	D2FE
+0196A3	C1DA
+0196A8	CBE6
+0196AA	CFD5
+0196B1	D2FE
+0196B4	C2A4
+0196B7	C1A5
+0196B8	C1A5
+0196BA	BAD7
+0196CB	F6C1
+0196D1	D4D3
+0196D6	CBE4
+0196D9	CBAB
+0196DB	B3FB
+0196DC	D4D3
+0196DD	D3BA
+0196DE	BCA6
+0196E2	C0EB
+0196E3	C4D1
+0196E7	BCAF
+0196F0	B7D5
+0196FA	CEED
+0196FB	B5E7
+01970A	C1E9
+019711	D5B4
+019717	C1E3
+01971A	CEED
+01971B	C1E9
+019727	CEED
+019736	E4E8
+01973D	F6AB
+019742	F6A8
+019744	F6B0
+019748	C1E9
+019751	C7E0
+01975A	F6A6
+01975C	BEB2
+019768	D8CC
+019775	C5A6
+01977D	B0ED
+01978C	B0B0
+01978F	B9AE
+019795	D3B2
+0197A9	C7CA
+0197B5	D0AC
+0197BD	F7B3
+0197BE	D1A5
+0197C1	E7D6
+0197C3	F7B2
+0197C8	CDE0
+0197C9	F7B5
+0197CB	CEA4
+0197CC	C8CD
+0197D3	BAAB
+0197D9	E8B8
+0197DB	F7B9
+0197DC	E8BA
+0197DE	E8B9
+0197E4	CDE0
+0197EE	BEC2
+0197F2	ECB4
+0197FB	D4CF
+0197FF	CFEC
+019801	D2B3
+019802	B6A5
+019803	C7EA
+019805	CFEE
+019806	CBB3
+019807	F1FC
+019808	D0EB
+01980A	E7EF
+01980B	B9CB
+01980C	CBCC
+01980E	F1FD
+01980F	F1FE
+019810	D4A4
+019811	CDE7
+019812	B0E4
+019813	B6D9
+019817	C6C4
+019818	C1EC
+01981A	BEB1
+01981C	F2A2
+01981F	B6EE
+019821	F2A1
+019824	D2C3
+019826	F2A4
+01982D	CDB7
+019830	BCD5
+019834	D3B1
+019837	F2A5
+019838	BEB1
+019839	CDC7
+01983B	C6B5
+01983C	C0B5
+01983D	CDC7
+01983F	F7DA
+019846	BFC5
+019847	E3B2
+01984C	CCE2
+01984D	B6EE
+01984E	F2A6
+01984F	D1D5
+019850	DABB
+019853	F2A7
+019854	D1D5
+019855	CFD4
+019859	F2AA
+01985A	B5DF
+01985B	B5DF
+01985E	C0E0
+019862	F2A9
+019865	F2AB
+019866	E3BE
+019867	B9CB
+01986B	B2FC
+01986C	F2AC
+01986F	CFD4
+019870	F2AD
+019871	C2AD
+019873	F2A8
+019874	C8A7
+0198A8	B7E7
+0198AF	ECAA
+0198B6	ECAB
+0198BC	ECAC
+0198C4	C6AE
+0198C6	ECAD
+0198C7	ECAD
+0198C8	ECAD
+0198DB	B7C9
+0198DC	B7AD
+0198E2	BCA2
+0198E9	E2BD
+0198EA	E2BF
+0198EB	E2C0
+0198EC	D1F8
+0198ED	E2C1
+0198EE	D2FB
+0198EF	B7B9
+0198F0	B7B9
+0198F2	D2FB
+0198F4	E2C2
+0198FC	CBC7
+0198FD	B1A5
+0198FE	CACE
+019901	E2BF
+019903	BDC8
+019905	B1FD
+019908	F4D2
+019909	E2C3
+01990A	D1F8
+01990C	B6FC
+019911	E2C4
+019912	C4D9
+019913	B6F6
+01991A	EBC8
+01991B	E2C6
+01991D	CACE
+01991E	BDA4
+019920	B1FD
+019921	CFDA
+019928	B9DD
+01992B	E2C6
+01992C	D7E4
+019931	F4D7
+019933	E2BC
+019937	E2C7
+019939	CCC7
+01993B	B8E2
+01993C	E2BE
+01993E	C1F3
+01993F	E2C8
+019943	E2C9
+019945	C2F8
+019948	E2CA
+019949	E2CB
+01994A	E2CC
+01994B	C0A1
+01994C	E2CD
+019951	BCA2
+019952	C8C4
+019957	F7CF
+01995C	F7D0
+01995E	B2F6
+01995F	E2CE
+0199AC	C2ED
+0199AD	D4A6
+0199AE	B7EB
+0199B1	CDD4
+0199B3	B3DB
+0199B4	D1B1
+0199C1	B2B5
+0199C4	CDD4
+0199C5	E6E4
+0199C6	C7FD
+0199C8	C7FD
+0199D0	D7A4
+0199D1	E6E5
+0199D2	BED4
+0199D4	E6E0
+0199D5	BCDD
+0199D8	E6E6
+0199D9	E6E2
+0199DB	CABB
+0199DD	CDD5
+0199DE	CDD5
+0199DF	E6E1
+0199E1	C2EE
+0199E2	E6E9
+0199E6	CCDA
+0199ED	BAA7
+0199EE	B2B5
+0199F1	C2E6
+0199F4	BAA7
+0199FF	BFA5
+019A01	B3D2
+019A05	E6ED
+019A08	E6E9
+019A0C	D7D7
+019A0D	E6EC
+019A0E	C6EF
+019A0F	E6EB
+019A10	D1E9
+019A12	C9A7
+019A13	D1E9
+019A16	E6F0
+019A17	C6AD
+019A19	C6AD
+019A23	D7D7
+019A2B	E5B9
+019A2D	E6EF
+019A2E	E6F2
+019A30	CCDA
+019A36	E6E3
+019A37	C9A7
+019A38	E6F3
+019A3E	C2E2
+019A40	DDEB
+019A41	E6F1
+019A42	E6EE
+019A43	E6F4
+019A44	E6F5
+019A45	C7FD
+019A4A	E6E8
+019A4D	E6E7
+019A55	BDBE
+019A57	D1E9
+019A58	C2E2
+019A5A	BEAA
+019A5B	E6E4
+019A5F	D6E8
+019A62	C2BF
+019A64	E6F8
+019A65	E6F7
+019A6A	E6EA
+019A94	D7D7
+019AAF	B0B9
+019AC4	CBE8
+019ACF	F7C3
+019AD4	CCE5
+019AD5	F7C6
+019AD6	F7C5
+019AD9	B8DF
+019AE0	F7D5
+019AE3	B7C2
+019B00	CCEA
+019B02	F7DE
+019B04	CCEA
+019B22	F7DE
+019B25	B6B7
+019B27	C4D6
+019B29	E3D2
+019B2A	B6B7
+019B2D	B6B7
+019B2E	E3CE
+019B4E	F7CB
+019B58	F7CA
+019B5A	D3E3
+019B6F	C2B3
+019B72	F6D4
+019B74	F6D0
+019B77	F6CF
+019B81	F6D1
+019B83	F6D2
+019B89	F6F4
+019B8E	F6D3
+019B90	F6D8
+019B91	B1AB
+019B92	F6D6
+019B9A	F6DA
+019B9D	F6DF
+019BAA	F6DB
+019BAB	F6DE
+019BAD	F6D9
+019BAE	CFCA
+019BC0	F6E7
+019BC1	F6E1
+019BC7	F6E9
+019BC9	C0F0
+019BCA	F6E8
+019BCB	F6E8
+019BD4	F6F6
+019BD6	F6EB
+019BD7	F6DF
+019BDB	F6F4
+019BE1	F6EE
+019BE2	F6F2
+019BE4	F6EF
+019BE7	F6F0
+019BE8	BEA8
+019BEA	F6EC
+019BEB	F6ED
+019BF0	F6F3
+019BFD	F6EA
+019BFF	F6FD
+019C00	F6E9
+019C08	F6F8
+019C09	F6FC
+019C0D	F6FA
+019C10	F6F9
+019C12	F6FB
+019C13	C8FA
+019C15	CFBA
+019C23	F6E5
+019C25	F7A4
+019C28	F7A3
+019C2D	F7A2
+019C31	F6E3
+019C32	F7A1
+019C33	F7A6
+019C35	F7AA
+019C37	F6E6
+019C39	F6E4
+019C3B	F7A9
+019C3E	F7A7
+019C45	F7AB
+019C48	F7A8
+019C49	B1EE
+019C51	F6FC
+019C52	F7AE
+019C54	F7AD
+019C56	F7AC
+019C57	C1DB
+019C58	F6E0
+019C5F	F6D7
+019C65	F7AC
+019C67	F7AF
+019C6D	F6DD
+019C76	F6DF
+019C77	F6F9
+019C78	F6D4
+019C7A	F6E2
+019CE5	C4F1
+019CE7	D9EC
+019CE9	F0AF
+019CEB	D1E3
+019CEC	D9EC
+019CF3	B7EF
+019CF4	C3F9
+019CF6	F0B0
+019D06	F0B2
+019D07	F0B1
+019D08	D1E3
+019D09	D1BB
+019D15	CDD2
+019D1B	D4A7
+019D1D	F0B6
+019D1F	F0B7
+019D23	F0B3
+019D26	D1EC
+019D28	D1BC
+019D2C	DDBA
+019D2F	F0B9
+019D30	F0BB
+019D39	CFE8
+019D3B	BAE8
+019D3F	B8EB
+019D42	F0BC
+019D44	F0B7
+019D49	F0BD
+019D51	BEE9
+019D52	F0C1
+019D53	F0BE
+019D5C	F0C3
+019D5D	B6EC
+019D5E	B6EC
+019D60	F0C0
+019D61	F0C4
+019D6A	F0C6
+019D6C	C5F4
+019D72	C8B5
+019D87	F0B4
+019D89	F0C8
+019D8F	BCA6
+019D93	F0C5
+019D98	F0C9
+019D9A	F0CA
+019DA5	F0CC
+019DA9	F0CD
+019DAF	DDBA
+019DB4	BAD7
+019DB5	B3FB
+019DBB	F7BD
+019DBC	F0CF
+019DC0	F0CB
+019DC2	F0CE
+019DC4	BCA6
+019DD3	F0D1
+019DD7	C5B8
+019DD9	F0BA
+019DDA	F0D2
+019DE5	F0B8
+019DE6	F0D4
+019DEF	F0D3
+019DF2	F0D5
+019DF3	F0C2
+019DF8	F0D6
+019DF9	D3A5
+019DFA	F0D8
+019E15	F0B5
+019E16	BAD7
+019E1A	F0D0
+019E1B	F0D9
+019E1D	F0BF
+019E1E	F0BD
+019E75	C2B1
+019E78	BCEF
+019E7A	F5BA
+019E7C	BCEF
+019E7D	D1CE
+019E90	F7EB
+019E97	C0F6
+019EA2	C1E7
+019EA5	C2F3
+019EA9	F4EF
+019EB1	F4EF
+019EC3	BBC6
+019ECC	D9E4
+019ED2	BADA
+019ED9	C4AC
+019EDE	B5E3
+019EE8	B5B3
+019EF1	F7EC
+019EF7	F7F2
+019EFD	F6BC
+019EFF	F6BD
+019F05	D6A9
+019F08	B1EE
+019F09	F6BE
+019F11	B6A6
+019F14	B9C4
+019F15	DFCB
+019F21	CAF3
+019F26	F5F5
+019F45	D0E1
+019F47	F7FE
+019F4A	C6EB
+019F4B	D5AB
+019F4F	ECB4
+019F52	B3DD
+019F54	F6B3
+019F59	F6B5
+019F5C	F6B7
+019F5F	F6B4
+019F60	F6B6
+019F61	C1E4
+019F62	C1E4
+019F66	F6B8
+019F6A	F6BA
+019F6C	F6B9
+019F72	C8A3
+019F76	EBF1
+019F77	F6BB
+019F8D	C1FA
+019F90	C5D3
+019F94	B9A8
+019F95	EDE8
+019F9C	B9EA
+01F900	C6F1
+01F901	B8FC
+01F902	B3B5
+01F903	BCD6
+01F904	BBAC
+01F905	B4AE
+01F906	BEE4
+01F907	B9EA
+01F908	B9EA
+01F909	C6F5
+01F90A	BDF0
+01F90B	C0AE
+01F90C	C4CE
+01F90D	C0C1
+01F90E	F1AE
+01F90F	C2DE
+01F910	C2DC
+01F911	C2DD
+01F912	C2E3
+01F913	C2DF
+01F914	C0D6
+01F915	C2E5
+01F916	C0D3
+01F917	E7F3
+01F918	C2E4
+01F919	C0D2
+01F91A	C2E6
+01F91B	C2D2
+01F91C	C2D1
+01F91D	C0B8
+01F91E	C0C3
+01F91F	C0BC
+01F920	F0BD
+01F921	E1B0
+01F922	C0C4
+01F923	C0B6
+01F924	F1DC
+01F925	C0AD
+01F926	C0B0
+01F927	C0AF
+01F928	C0C8
+01F929	C0CA
+01F92A	C0CB
+01F92B	C0C7
+01F92C	C0C9
+01F92D	C0B4
+01F92E	C0E4
+01F92F	C0CD
+01F930	C2B0
+01F931	E9D6
+01F932	C2AF
+01F933	C2AC
+01F934	C0CF
+01F935	C2AB
+01F936	C2B2
+01F937	C2B7
+01F938	C2B6
+01F939	C2B3
+01F93A	F0D8
+01F93B	C2B5
+01F93C	C2BB
+01F93D	C2CC
+01F93F	C2BC
+01F940	C2B9
+01F941	C2DB
+01F942	C2A2
+01F943	C5AA
+01F944	C1FD
+01F945	C1FB
+01F946	C0CE
+01F947	C0DA
+01F948	C2B8
+01F949	C0D7
+01F94A	C0DD
+01F94B	C2C5
+01F94C	C2A5
+01F94D	C0E1
+01F94E	C2A9
+01F94F	C0DB
+01F950	C2C6
+01F951	C2AA
+01F952	C0D5
+01F953	C0DF
+01F954	C1DD
+01F955	C1E8
+01F957	E7B1
+01F958	C1E2
+01F959	C1EA
+01F95A	B6C1
+01F95B	C4C3
+01F95C	C0D6
+01F95D	C5B5
+01F95E	B5A4
+01F95F	C4FE
+01F960	C5AD
+01F961	C2CA
+01F962	D2EC
+01F963	B1B1
+01F965	B1E3
+01F967	B2BB
+01F968	C3DA
+01F969	CAFD
+01F96A	CBF7
+01F96B	B2CE
+01F96C	C8FB
+01F96D	CAA1
+01F96E	D2B6
+01F96F	CBB5
+01F970	C9B1
+01F971	B3BD
+01F972	C9F2
+01F973	CAB0
+01F974	C8F4
+01F975	C2D3
+01F976	C2D4
+01F977	C1C1
+01F978	C1BD
+01F979	C1B9
+01F97A	C1BA
+01F97B	C1B8
+01F97C	C1BC
+01F97D	C1C2
+01F97E	C1BF
+01F97F	C0F8
+01F981	C5AE
+01F982	C2AE
+01F983	C2C3
+01F984	C2CB
+01F985	EDC2
+01F986	E3CC
+01F987	E6EA
+01F988	C0F6
+01F989	C0E8
+01F98A	C1A6
+01F98D	E9F6
+01F98E	C4EA
+01F98F	C1AF
+01F990	C1B5
+01F992	C1B0
+01F993	C1B6
+01F994	E7F6
+01F995	C4EA
+01F996	C1B7
+01F997	C1AA
+01F998	E9FD
+01F999	C1AB
+01F99A	C1AC
+01F99C	C1D0
+01F99D	C1D3
+01F99E	D1CA
+01F99F	C1D2
+01F9A0	C1D1
+01F9A1	CBB5
+01F9A2	C1AE
+01F9A3	C4EE
+01F9A4	C4ED
+01F9A5	E9E7
+01F9A6	C1B1
+01F9A7	C1D4
+01F9A8	C1EE
+01F9A9	E0F2
+01F9AA	C4FE
+01F9AB	C1EB
+01F9AC	C1AF
+01F9AD	C1E1
+01F9AE	D3A8
+01F9AF	C1E7
+01F9B0	F1F6
+01F9B1	C1E5
+01F9B2	C1E3
+01F9B3	C1E9
+01F9B4	C1EC
+01F9B5	C0FD
+01F9B6	C0F1
+01F9B7	F5B7
+01F9B8	C1A5
+01F9B9	B6F1
+01F9BA	C1CB
+01F9BB	C1C5
+01F9BC	E5BC
+01F9BD	C4F2
+01F9BE	C1CF
+01F9BF	C0D6
+01F9C0	C1C7
+01F9C1	C1C6
+01F9C2	DEA4
+01F9C3	C1C9
+01F9C4	C1FA
+01F9C5	D4CE
+01F9C6	C8EE
+01F9C7	C1F5
+01F9C9	C1F8
+01F9CA	C1F7
+01F9CB	C1EF
+01F9CC	C1F0
+01F9CD	C1F4
+01F9CE	C1F2
+01F9CF	C5A6
+01F9D0	C0E0
+01F9D1	C1F9
+01F9D2	C2BE
+01F9D3	C2BD
+01F9D4	C2D7
+01F9D6	C2D9
+01F9D7	C2D6
+01F9D8	C2C9
+01F9DA	C0F5
+01F9DB	C2CA
+01F9DC	C2A1
+01F9DD	C0FB
+01F9DE	C0F4
+01F9DF	C2C4
+01F9E0	D2D7
+01F9E1	C0EE
+01F9E2	C0E6
+01F9E3	C4E0
+01F9E4	C0ED
+01F9E5	C1A1
+01F9E6	EEBE
+01F9E9	C0EF
+01F9EA	C0EB
+01F9EB	C4E4
+01F9EC	C4E7
+01F9ED	C1DF
+01F9F0	DDFE
+01F9F1	C1DA
+01F9F2	C1DB
+01F9F3	F7EB
+01F9F4	C1D6
+01F9F5	C1DC
+01F9F6	C1D9
+01F9F7	C1A2
+01F9F8	F3D2
+01F9F9	C1A3
+01F9FA	D7B4
+01F9FB	D6CB
+01F9FC	CAB6
+01F9FD	CAB2
+01F9FE	B2E8
+01F9FF	B4CC
+01FA00	C7D0
+01FA01	B6C8
+01FA02	CDD8
+01FA03	CCC7
+01FA04	D5AC
+01FA05	B6B4
+01FA06	B1A9
+01FA07	B7F8
+01FA08	D0D0
+01FA09	BDB5
+01FA0A	BCFB
+01FA0B	C0AA
+01FA0C	D8A3
+01FA10	DAA3
+01FA11	C6E9
+01FA12	C7E7
+01FA15	CEF5
+01FA16	D6ED
+01FA17	D2E6
+01FA18	C0F1
+01FA19	C9F1
+01FA1A	CFE9
+01FA1B	B8A3
+01FA1C	BEB8
+01FA1D	BEAB
+01FA1E	D3F0
+01FA22	D6EE
+01FA25	D2DD
+01FA26	B6BC
+01FA2A	B7B9
+01FA2B	CBC7
+01FA2C	B9DD
+01FA2D	BAD7
+01FA2E	C0C9
+01FA2F	C1A5
+01FA30	CEEA
+01FA31	C9AE
+01FA32	C3E2
+01FA33	C3E3
+01FA34	C7DA
+01FA35	B1B0
+01FA36	BAC8
+01FA37	CCBE
+01FA38	C6F7
+01FA3A	C4AB
+01FA3B	B2E3
+01FA3D	BBDA
+01FA3E	BFAE
+01FA3F	D4F7
+01FA40	B3CD
+01FA41	C3F4
+01FA42	BCC8
+01FA43	CAEE
+01FA44	C3B7
+01FA45	BAA3
+01FA46	E4BE
+01FA47	BABA
+01FA48	D6F3
+01FA4A	D7C1
+01FA4B	B1AE
+01FA4C	C9E7
+01FA4D	ECED
+01FA4E	C6ED
+01FA50	D7E6
+01FA51	D7A3
+01FA52	BBF6
+01FA53	ECF5
+01FA55	CDBB
+01FA56	BDDA
+01FA57	C1B7
+01FA58	E7C6
+01FA59	B7B1
+01FA5A	CAF0
+01FA5B	D5DF
+01FA5C	B3F4
+01FA5D	DCB3
+01FA5E	DCB3
+01FA5F	D7C5
+01FA60	BAD6
+01FA61	CAD3
+01FA62	DACB
+01FA63	BDF7
+01FA64	B1F6
+01FA65	D4F9
+01FA66	E5C1
+01FA67	D2DD
+01FA68	C4D1
+01FA69	CFEC
+01FA6A	C6B5
+01FA6B	BBDD
+01FA6C	CEF5
+01FA6D	B9DD
+01FA70	B2A2
+01FA71	BFF6
+01FA72	C8AB
+01FA74	B3E4
+01FA75	BCBD
+01FA76	D3C2
+01FA77	C9D7
+01FA78	BAC8
+01FA79	DFFB
+01FA7A	E0B9
+01FA7B	BACF
+01FA7C	DAA3
+01FA7D	B7D8
+01FA7E	D1D9
+01FA7F	B1BC
+01FA80	E6BE
+01FA81	CFF2
+01FA82	E2DA
+01FA84	B2CA
+01FA85	E1E6
+01FA86	E3AF
+01FA87	C9F7
+01FA88	D3FA
+01FA89	D4F7
+01FA8B	B3CD
+01FA8C	B4F7
+01FA8D	DEED
+01FA8E	CBD1
+01FA8F	DEF0
+01FA90	B0BD
+01FA91	C7E7
+01FA92	C0CA
+01FA93	CDFB
+01FA94	D5C8
+01FA95	B4F5
+01FA96	C9B1
+01FA97	C1F7
+01FA98	D2F9
+01FA99	D7CC
+01FA9A	BABA
+01FA9C	D6F3
+01FA9D	C7C6
+01FA9E	BEF4
+01FA9F	B7B8
+01FAA0	D6ED
+01FAA2	B4C9
+01FAA3	BBAD
+01FAA5	CEC1
+01FAA6	D2E6
+01FAA7	CAA2
+01FAA8	D6B1
+01FAAA	D7C5
+01FAAD	BDDA
+01FAAE	C0E0
+01FAB0	C1B7
+01FAB1	C6BF
+01FAB2	D5DF
+01FAB3	BBC4
+01FAB4	BBAA
+01FAB6	F1DF
+01FAB7	B8B2
+01FAB8	CAD3
+01FAB9	B5F7
+01FABA	D6EE
+01FABB	C7EB
+01FABC	DACB
+01FABD	C5B5
+01FABE	DACD
+01FABF	BDF7
+01FAC0	B1E4
+01FAC1	D4F9
+01FAC2	CAE4
+01FAC3	B3D9
+01FAC7	C4D1
+01FAC8	BEB8
+01FAC9	F7B9
+01FACA	CFEC
+01FACB	B9CB
+01FACC	C6B5
+01FACE	B9EA
+01FAD3	EBF6
diff --git a/modules/to/_GB2312.txt b/modules/to/_GB2312.txt
index 37e995f..a387ec5 100644
--- a/modules/to/_GB2312.txt
+++ b/modules/to/_GB2312.txt
@@ -1,7446 +1,7446 @@
 source:	#data
-013000	2121
-013001	2122
-013002	2123
-0130FB	2124
-0102C9	2125
-0102C7	2126
-01A8	2127
-013003	2128
-013005	2129
-012015	212A
-01FF5E	212B
-012016	212C
-012026	212D
-012018	212E
-012019	212F
-01201C	2130
-01201D	2131
-013014	2132
-013015	2133
-013008	2134
-013009	2135
-01300A	2136
-01300B	2137
-01300C	2138
-01300D	2139
-01300E	213A
-01300F	213B
-013016	213C
-013017	213D
-013010	213E
-013011	213F
-01B1	2140
-01D7	2141
-01F7	2142
-012236	2143
-012227	2144
-012228	2145
-012211	2146
-01220F	2147
-01222A	2148
-012229	2149
-012208	214A
-012237	214B
-01221A	214C
-0122A5	214D
-012225	214E
-012220	214F
-012312	2150
-012299	2151
-01222B	2152
-01222E	2153
-012261	2154
-01224C	2155
-012248	2156
-01223D	2157
-01221D	2158
-012260	2159
-01226E	215A
-01226F	215B
-012264	215C
-012265	215D
-01221E	215E
-012235	215F
-012234	2160
-012642	2161
-012640	2162
-01B0	2163
-012032	2164
-012033	2165
-012103	2166
-01FF04	2167
-01A4	2168
-01FFE0	2169
-01FFE1	216A
-012030	216B
-01A7	216C
-012116	216D
-012606	216E
-012605	216F
-0125CB	2170
-0125CF	2171
-0125CE	2172
-0125C7	2173
-0125C6	2174
-0125A1	2175
-0125A0	2176
-0125B3	2177
-0125B2	2178
-01203B	2179
-012192	217A
-012190	217B
-012191	217C
-012193	217D
-013013	217E
-012488	2231
-012489	2232
-01248A	2233
-01248B	2234
-01248C	2235
-01248D	2236
-01248E	2237
-01248F	2238
-012490	2239
-012491	223A
-012492	223B
-012493	223C
-012494	223D
-012495	223E
-012496	223F
-012497	2240
-012498	2241
-012499	2242
-01249A	2243
-01249B	2244
-012474	2245
-012475	2246
-012476	2247
-012477	2248
-012478	2249
-012479	224A
-01247A	224B
-01247B	224C
-01247C	224D
-01247D	224E
-01247E	224F
-01247F	2250
-012480	2251
-012481	2252
-012482	2253
-012483	2254
-012484	2255
-012485	2256
-012486	2257
-012487	2258
-012460	2259
-012461	225A
-012462	225B
-012463	225C
-012464	225D
-012465	225E
-012466	225F
-012467	2260
-012468	2261
-012469	2262
-013220	2265
-013221	2266
-013222	2267
-013223	2268
-013224	2269
-013225	226A
-013226	226B
-013227	226C
-013228	226D
-013229	226E
-012160	2271
-012161	2272
-012162	2273
-012163	2274
-012164	2275
-012165	2276
-012166	2277
-012167	2278
-012168	2279
-012169	227A
-01216A	227B
-01216B	227C
-01FF01	2321
-01FF02	2322
-01FF03	2323
-01FFE5	2324
-01FF05	2325
-01FF06	2326
-01FF07	2327
-01FF08	2328
-01FF09	2329
-01FF0A	232A
-01FF0B	232B
-01FF0C	232C
-01FF0D	232D
-01FF0E	232E
-01FF0F	232F
-01FF10	2330
-01FF11	2331
-01FF12	2332
-01FF13	2333
-01FF14	2334
-01FF15	2335
-01FF16	2336
-01FF17	2337
-01FF18	2338
-01FF19	2339
-01FF1A	233A
-01FF1B	233B
-01FF1C	233C
-01FF1D	233D
-01FF1E	233E
-01FF1F	233F
-01FF20	2340
-01FF21	2341
-01FF22	2342
-01FF23	2343
-01FF24	2344
-01FF25	2345
-01FF26	2346
-01FF27	2347
-01FF28	2348
-01FF29	2349
-01FF2A	234A
-01FF2B	234B
-01FF2C	234C
-01FF2D	234D
-01FF2E	234E
-01FF2F	234F
-01FF30	2350
-01FF31	2351
-01FF32	2352
-01FF33	2353
-01FF34	2354
-01FF35	2355
-01FF36	2356
-01FF37	2357
-01FF38	2358
-01FF39	2359
-01FF3A	235A
-01FF3B	235B
-01FF3C	235C
-01FF3D	235D
-01FF3E	235E
-01FF3F	235F
-01FF40	2360
-01FF41	2361
-01FF42	2362
-01FF43	2363
-01FF44	2364
-01FF45	2365
-01FF46	2366
-01FF47	2367
-01FF48	2368
-01FF49	2369
-01FF4A	236A
-01FF4B	236B
-01FF4C	236C
-01FF4D	236D
-01FF4E	236E
-01FF4F	236F
-01FF50	2370
-01FF51	2371
-01FF52	2372
-01FF53	2373
-01FF54	2374
-01FF55	2375
-01FF56	2376
-01FF57	2377
-01FF58	2378
-01FF59	2379
-01FF5A	237A
-01FF5B	237B
-01FF5C	237C
-01FF5D	237D
-01FFE3	237E
-013041	2421
-013042	2422
-013043	2423
-013044	2424
-013045	2425
-013046	2426
-013047	2427
-013048	2428
-013049	2429
-01304A	242A
-01304B	242B
-01304C	242C
-01304D	242D
-01304E	242E
-01304F	242F
-013050	2430
-013051	2431
-013052	2432
-013053	2433
-013054	2434
-013055	2435
-013056	2436
-013057	2437
-013058	2438
-013059	2439
-01305A	243A
-01305B	243B
-01305C	243C
-01305D	243D
-01305E	243E
-01305F	243F
-013060	2440
-013061	2441
-013062	2442
-013063	2443
-013064	2444
-013065	2445
-013066	2446
-013067	2447
-013068	2448
-013069	2449
-01306A	244A
-01306B	244B
-01306C	244C
-01306D	244D
-01306E	244E
-01306F	244F
-013070	2450
-013071	2451
-013072	2452
-013073	2453
-013074	2454
-013075	2455
-013076	2456
-013077	2457
-013078	2458
-013079	2459
-01307A	245A
-01307B	245B
-01307C	245C
-01307D	245D
-01307E	245E
-01307F	245F
-013080	2460
-013081	2461
-013082	2462
-013083	2463
-013084	2464
-013085	2465
-013086	2466
-013087	2467
-013088	2468
-013089	2469
-01308A	246A
-01308B	246B
-01308C	246C
-01308D	246D
-01308E	246E
-01308F	246F
-013090	2470
-013091	2471
-013092	2472
-013093	2473
-0130A1	2521
-0130A2	2522
-0130A3	2523
-0130A4	2524
-0130A5	2525
-0130A6	2526
-0130A7	2527
-0130A8	2528
-0130A9	2529
-0130AA	252A
-0130AB	252B
-0130AC	252C
-0130AD	252D
-0130AE	252E
-0130AF	252F
-0130B0	2530
-0130B1	2531
-0130B2	2532
-0130B3	2533
-0130B4	2534
-0130B5	2535
-0130B6	2536
-0130B7	2537
-0130B8	2538
-0130B9	2539
-0130BA	253A
-0130BB	253B
-0130BC	253C
-0130BD	253D
-0130BE	253E
-0130BF	253F
-0130C0	2540
-0130C1	2541
-0130C2	2542
-0130C3	2543
-0130C4	2544
-0130C5	2545
-0130C6	2546
-0130C7	2547
-0130C8	2548
-0130C9	2549
-0130CA	254A
-0130CB	254B
-0130CC	254C
-0130CD	254D
-0130CE	254E
-0130CF	254F
-0130D0	2550
-0130D1	2551
-0130D2	2552
-0130D3	2553
-0130D4	2554
-0130D5	2555
-0130D6	2556
-0130D7	2557
-0130D8	2558
-0130D9	2559
-0130DA	255A
-0130DB	255B
-0130DC	255C
-0130DD	255D
-0130DE	255E
-0130DF	255F
-0130E0	2560
-0130E1	2561
-0130E2	2562
-0130E3	2563
-0130E4	2564
-0130E5	2565
-0130E6	2566
-0130E7	2567
-0130E8	2568
-0130E9	2569
-0130EA	256A
-0130EB	256B
-0130EC	256C
-0130ED	256D
-0130EE	256E
-0130EF	256F
-0130F0	2570
-0130F1	2571
-0130F2	2572
-0130F3	2573
-0130F4	2574
-0130F5	2575
-0130F6	2576
-010391	2621
-010392	2622
-010393	2623
-010394	2624
-010395	2625
-010396	2626
-010397	2627
-010398	2628
-010399	2629
-01039A	262A
-01039B	262B
-01039C	262C
-01039D	262D
-01039E	262E
-01039F	262F
-0103A0	2630
-0103A1	2631
-0103A3	2632
-0103A4	2633
-0103A5	2634
-0103A6	2635
-0103A7	2636
-0103A8	2637
-0103A9	2638
-0103B1	2641
-0103B2	2642
-0103B3	2643
-0103B4	2644
-0103B5	2645
-0103B6	2646
-0103B7	2647
-0103B8	2648
-0103B9	2649
-0103BA	264A
-0103BB	264B
-0103BC	264C
-0103BD	264D
-0103BE	264E
-0103BF	264F
-0103C0	2650
-0103C1	2651
-0103C3	2652
-0103C4	2653
-0103C5	2654
-0103C6	2655
-0103C7	2656
-0103C8	2657
-0103C9	2658
-010410	2721
-010411	2722
-010412	2723
-010413	2724
-010414	2725
-010415	2726
-010401	2727
-010416	2728
-010417	2729
-010418	272A
-010419	272B
-01041A	272C
-01041B	272D
-01041C	272E
-01041D	272F
-01041E	2730
-01041F	2731
-010420	2732
-010421	2733
-010422	2734
-010423	2735
-010424	2736
-010425	2737
-010426	2738
-010427	2739
-010428	273A
-010429	273B
-01042A	273C
-01042B	273D
-01042C	273E
-01042D	273F
-01042E	2740
-01042F	2741
-010430	2751
-010431	2752
-010432	2753
-010433	2754
-010434	2755
-010435	2756
-010451	2757
-010436	2758
-010437	2759
-010438	275A
-010439	275B
-01043A	275C
-01043B	275D
-01043C	275E
-01043D	275F
-01043E	2760
-01043F	2761
-010440	2762
-010441	2763
-010442	2764
-010443	2765
-010444	2766
-010445	2767
-010446	2768
-010447	2769
-010448	276A
-010449	276B
-01044A	276C
-01044B	276D
-01044C	276E
-01044D	276F
-01044E	2770
-01044F	2771
-010101	2821
-01E1	2822
-0101CE	2823
-01E0	2824
-010113	2825
-01E9	2826
-01011B	2827
-01E8	2828
-01012B	2829
-01ED	282A
-0101D0	282B
-01EC	282C
-01014D	282D
-01F3	282E
-0101D2	282F
-01F2	2830
-01016B	2831
-01FA	2832
-0101D4	2833
-01F9	2834
-0101D6	2835
-0101D8	2836
-0101DA	2837
-0101DC	2838
-01FC	2839
-01EA	283A
-013105	2845
-013106	2846
-013107	2847
-013108	2848
-013109	2849
-01310A	284A
-01310B	284B
-01310C	284C
-01310D	284D
-01310E	284E
-01310F	284F
-013110	2850
-013111	2851
-013112	2852
-013113	2853
-013114	2854
-013115	2855
-013116	2856
-013117	2857
-013118	2858
-013119	2859
-01311A	285A
-01311B	285B
-01311C	285C
-01311D	285D
-01311E	285E
-01311F	285F
-013120	2860
-013121	2861
-013122	2862
-013123	2863
-013124	2864
-013125	2865
-013126	2866
-013127	2867
-013128	2868
-013129	2869
-012500	2924
-012501	2925
-012502	2926
-012503	2927
-012504	2928
-012505	2929
-012506	292A
-012507	292B
-012508	292C
-012509	292D
-01250A	292E
-01250B	292F
-01250C	2930
-01250D	2931
-01250E	2932
-01250F	2933
-012510	2934
-012511	2935
-012512	2936
-012513	2937
-012514	2938
-012515	2939
-012516	293A
-012517	293B
-012518	293C
-012519	293D
-01251A	293E
-01251B	293F
-01251C	2940
-01251D	2941
-01251E	2942
-01251F	2943
-012520	2944
-012521	2945
-012522	2946
-012523	2947
-012524	2948
-012525	2949
-012526	294A
-012527	294B
-012528	294C
-012529	294D
-01252A	294E
-01252B	294F
-01252C	2950
-01252D	2951
-01252E	2952
-01252F	2953
-012530	2954
-012531	2955
-012532	2956
-012533	2957
-012534	2958
-012535	2959
-012536	295A
-012537	295B
-012538	295C
-012539	295D
-01253A	295E
-01253B	295F
-01253C	2960
-01253D	2961
-01253E	2962
-01253F	2963
-012540	2964
-012541	2965
-012542	2966
-012543	2967
-012544	2968
-012545	2969
-012546	296A
-012547	296B
-012548	296C
-012549	296D
-01254A	296E
-01254B	296F
-01554A	3021
-01963F	3022
-0157C3	3023
-016328	3024
-0154CE	3025
-015509	3026
-0154C0	3027
-017691	3028
-01764C	3029
-01853C	302A
-0177EE	302B
-01827E	302C
-01788D	302D
-017231	302E
-019698	302F
-01978D	3030
-016C28	3031
-015B89	3032
-014FFA	3033
-016309	3034
-016697	3035
-015CB8	3036
-0180FA	3037
-016848	3038
-0180AE	3039
-016602	303A
-0176CE	303B
-0151F9	303C
-016556	303D
-0171AC	303E
-017FF1	303F
-018884	3040
-0150B2	3041
-015965	3042
-0161CA	3043
-016FB3	3044
-0182AD	3045
-01634C	3046
-016252	3047
-0153ED	3048
-015427	3049
-017B06	304A
-01516B	304B
-0175A4	304C
-015DF4	304D
-0162D4	304E
-018DCB	304F
-019776	3050
-01628A	3051
-018019	3052
-01575D	3053
-019738	3054
-017F62	3055
-017238	3056
-01767D	3057
-0167CF	3058
-01767E	3059
-016446	305A
-014F70	305B
-018D25	305C
-0162DC	305D
-017A17	305E
-016591	305F
-0173ED	3060
-01642C	3061
-016273	3062
-01822C	3063
-019881	3064
-01677F	3065
-017248	3066
-01626E	3067
-0162CC	3068
-014F34	3069
-0174E3	306A
-01534A	306B
-01529E	306C
-017ECA	306D
-0190A6	306E
-015E2E	306F
-016886	3070
-01699C	3071
-018180	3072
-017ED1	3073
-0168D2	3074
-0178C5	3075
-01868C	3076
-019551	3077
-01508D	3078
-018C24	3079
-0182DE	307A
-0180DE	307B
-015305	307C
-018912	307D
-015265	307E
-018584	3121
-0196F9	3122
-014FDD	3123
-015821	3124
-019971	3125
-015B9D	3126
-0162B1	3127
-0162A5	3128
-0166B4	3129
-018C79	312A
-019C8D	312B
-017206	312C
-01676F	312D
-017891	312E
-0160B2	312F
-015351	3130
-015317	3131
-018F88	3132
-0180CC	3133
-018D1D	3134
-0194A1	3135
-01500D	3136
-0172C8	3137
-015907	3138
-0160EB	3139
-017119	313A
-0188AB	313B
-015954	313C
-0182EF	313D
-01672C	313E
-017B28	313F
-015D29	3140
-017EF7	3141
-01752D	3142
-016CF5	3143
-018E66	3144
-018FF8	3145
-01903C	3146
-019F3B	3147
-016BD4	3148
-019119	3149
-017B14	314A
-015F7C	314B
-0178A7	314C
-0184D6	314D
-01853D	314E
-016BD5	314F
-016BD9	3150
-016BD6	3151
-015E01	3152
-015E87	3153
-0175F9	3154
-0195ED	3155
-01655D	3156
-015F0A	3157
-015FC5	3158
-018F9F	3159
-0158C1	315A
-0181C2	315B
-01907F	315C
-01965B	315D
-0197AD	315E
-018FB9	315F
-017F16	3160
-018D2C	3161
-016241	3162
-014FBF	3163
-0153D8	3164
-01535E	3165
-018FA8	3166
-018FA9	3167
-018FAB	3168
-01904D	3169
-016807	316A
-015F6A	316B
-018198	316C
-018868	316D
-019CD6	316E
-01618B	316F
-01522B	3170
-01762A	3171
-015F6C	3172
-01658C	3173
-016FD2	3174
-016EE8	3175
-015BBE	3176
-016448	3177
-015175	3178
-0151B0	3179
-0167C4	317A
-014E19	317B
-0179C9	317C
-01997C	317D
-0170B3	317E
-0175C5	3221
-015E76	3222
-0173BB	3223
-0183E0	3224
-0164AD	3225
-0162E8	3226
-0194B5	3227
-016CE2	3228
-01535A	3229
-0152C3	322A
-01640F	322B
-0194C2	322C
-017B94	322D
-014F2F	322E
-015E1B	322F
-018236	3230
-018116	3231
-01818A	3232
-016E24	3233
-016CCA	3234
-019A73	3235
-016355	3236
-01535C	3237
-0154FA	3238
-018865	3239
-0157E0	323A
-014E0D	323B
-015E03	323C
-016B65	323D
-017C3F	323E
-0190E8	323F
-016016	3240
-0164E6	3241
-01731C	3242
-0188C1	3243
-016750	3244
-01624D	3245
-018D22	3246
-01776C	3247
-018E29	3248
-0191C7	3249
-015F69	324A
-0183DC	324B
-018521	324C
-019910	324D
-0153C2	324E
-018695	324F
-016B8B	3250
-0160ED	3251
-0160E8	3252
-01707F	3253
-0182CD	3254
-018231	3255
-014ED3	3256
-016CA7	3257
-0185CF	3258
-0164CD	3259
-017CD9	325A
-0169FD	325B
-0166F9	325C
-018349	325D
-015395	325E
-017B56	325F
-014FA7	3260
-01518C	3261
-016D4B	3262
-015C42	3263
-018E6D	3264
-0163D2	3265
-0153C9	3266
-01832C	3267
-018336	3268
-0167E5	3269
-0178B4	326A
-01643D	326B
-015BDF	326C
-015C94	326D
-015DEE	326E
-018BE7	326F
-0162C6	3270
-0167F4	3271
-018C7A	3272
-016400	3273
-0163BA	3274
-018749	3275
-01998B	3276
-018C17	3277
-017F20	3278
-0194F2	3279
-014EA7	327A
-019610	327B
-0198A4	327C
-01660C	327D
-017316	327E
-01573A	3321
-015C1D	3322
-015E38	3323
-01957F	3324
-01507F	3325
-0180A0	3326
-015382	3327
-01655E	3328
-017545	3329
-015531	332A
-015021	332B
-018D85	332C
-016284	332D
-01949E	332E
-01671D	332F
-015632	3330
-016F6E	3331
-015DE2	3332
-015435	3333
-017092	3334
-018F66	3335
-01626F	3336
-0164A4	3337
-0163A3	3338
-015F7B	3339
-016F88	333A
-0190F4	333B
-0181E3	333C
-018FB0	333D
-015C18	333E
-016668	333F
-015FF1	3340
-016C89	3341
-019648	3342
-018D81	3343
-01886C	3344
-016491	3345
-0179F0	3346
-0157CE	3347
-016A59	3348
-016210	3349
-015448	334A
-014E58	334B
-017A0B	334C
-0160E9	334D
-016F84	334E
-018BDA	334F
-01627F	3350
-01901E	3351
-019A8B	3352
-0179E4	3353
-015403	3354
-0175F4	3355
-016301	3356
-015319	3357
-016C60	3358
-018FDF	3359
-015F1B	335A
-019A70	335B
-01803B	335C
-019F7F	335D
-014F88	335E
-015C3A	335F
-018D64	3360
-017FC5	3361
-0165A5	3362
-0170BD	3363
-015145	3364
-0151B2	3365
-01866B	3366
-015D07	3367
-015BA0	3368
-0162BD	3369
-01916C	336A
-017574	336B
-018E0C	336C
-017A20	336D
-016101	336E
-017B79	336F
-014EC7	3370
-017EF8	3371
-017785	3372
-014E11	3373
-0181ED	3374
-01521D	3375
-0151FA	3376
-016A71	3377
-0153A8	3378
-018E87	3379
-019504	337A
-0196CF	337B
-016EC1	337C
-019664	337D
-01695A	337E
-017840	3421
-0150A8	3422
-0177D7	3423
-016410	3424
-0189E6	3425
-015904	3426
-0163E3	3427
-015DDD	3428
-017A7F	3429
-01693D	342A
-014F20	342B
-018239	342C
-015598	342D
-014E32	342E
-0175AE	342F
-017A97	3430
-015E62	3431
-015E8A	3432
-0195EF	3433
-01521B	3434
-015439	3435
-01708A	3436
-016376	3437
-019524	3438
-015782	3439
-016625	343A
-01693F	343B
-019187	343C
-015507	343D
-016DF3	343E
-017EAF	343F
-018822	3440
-016233	3441
-017EF0	3442
-0175B5	3443
-018328	3444
-0178C1	3445
-0196CC	3446
-018F9E	3447
-016148	3448
-0174F7	3449
-018BCD	344A
-016B64	344B
-01523A	344C
-018D50	344D
-016B21	344E
-01806A	344F
-018471	3450
-0156F1	3451
-015306	3452
-014ECE	3453
-014E1B	3454
-0151D1	3455
-017C97	3456
-01918B	3457
-017C07	3458
-014FC3	3459
-018E7F	345A
-017BE1	345B
-017A9C	345C
-016467	345D
-015D14	345E
-0150AC	345F
-018106	3460
-017601	3461
-017CB9	3462
-016DEC	3463
-017FE0	3464
-016751	3465
-015B58	3466
-015BF8	3467
-0178CB	3468
-0164AE	3469
-016413	346A
-0163AA	346B
-01632B	346C
-019519	346D
-01642D	346E
-018FBE	346F
-017B54	3470
-017629	3471
-016253	3472
-015927	3473
-015446	3474
-016B79	3475
-0150A3	3476
-016234	3477
-015E26	3478
-016B86	3479
-014EE3	347A
-018D37	347B
-01888B	347C
-015F85	347D
-01902E	347E
-016020	3521
-01803D	3522
-0162C5	3523
-014E39	3524
-015355	3525
-0190F8	3526
-0163B8	3527
-0180C6	3528
-0165E6	3529
-016C2E	352A
-014F46	352B
-0160EE	352C
-016DE1	352D
-018BDE	352E
-015F39	352F
-0186CB	3530
-015F53	3531
-016321	3532
-01515A	3533
-018361	3534
-016863	3535
-015200	3536
-016363	3537
-018E48	3538
-015012	3539
-015C9B	353A
-017977	353B
-015BFC	353C
-015230	353D
-017A3B	353E
-0160BC	353F
-019053	3540
-0176D7	3541
-015FB7	3542
-015F97	3543
-017684	3544
-018E6C	3545
-01706F	3546
-01767B	3547
-017B49	3548
-0177AA	3549
-0151F3	354A
-019093	354B
-015824	354C
-014F4E	354D
-016EF4	354E
-018FEA	354F
-01654C	3550
-017B1B	3551
-0172C4	3552
-016DA4	3553
-017FDF	3554
-015AE1	3555
-0162B5	3556
-015E95	3557
-015730	3558
-018482	3559
-017B2C	355A
-015E1D	355B
-015F1F	355C
-019012	355D
-017F14	355E
-0198A0	355F
-016382	3560
-016EC7	3561
-017898	3562
-0170B9	3563
-015178	3564
-01975B	3565
-0157AB	3566
-017535	3567
-014F43	3568
-017538	3569
-015E97	356A
-0160E6	356B
-015960	356C
-016DC0	356D
-016BBF	356E
-017889	356F
-0153FC	3570
-0196D5	3571
-0151CB	3572
-015201	3573
-016389	3574
-01540A	3575
-019493	3576
-018C03	3577
-018DCC	3578
-017239	3579
-01789F	357A
-018776	357B
-018FED	357C
-018C0D	357D
-0153E0	357E
-014E01	3621
-0176EF	3622
-0153EE	3623
-019489	3624
-019876	3625
-019F0E	3626
-01952D	3627
-015B9A	3628
-018BA2	3629
-014E22	362A
-014E1C	362B
-0151AC	362C
-018463	362D
-0161C2	362E
-0152A8	362F
-01680B	3630
-014F97	3631
-01606B	3632
-0151BB	3633
-016D1E	3634
-01515C	3635
-016296	3636
-016597	3637
-019661	3638
-018C46	3639
-019017	363A
-0175D8	363B
-0190FD	363C
-017763	363D
-016BD2	363E
-01728A	363F
-0172EC	3640
-018BFB	3641
-015835	3642
-017779	3643
-018D4C	3644
-01675C	3645
-019540	3646
-01809A	3647
-015EA6	3648
-016E21	3649
-015992	364A
-017AEF	364B
-0177ED	364C
-01953B	364D
-016BB5	364E
-0165AD	364F
-017F0E	3650
-015806	3651
-015151	3652
-01961F	3653
-015BF9	3654
-0158A9	3655
-015428	3656
-018E72	3657
-016566	3658
-01987F	3659
-0156E4	365A
-01949D	365B
-0176FE	365C
-019041	365D
-016387	365E
-0154C6	365F
-01591A	3660
-01593A	3661
-01579B	3662
-018EB2	3663
-016735	3664
-018DFA	3665
-018235	3666
-015241	3667
-0160F0	3668
-015815	3669
-0186FE	366A
-015CE8	366B
-019E45	366C
-014FC4	366D
-01989D	366E
-018BB9	366F
-015A25	3670
-016076	3671
-015384	3672
-01627C	3673
-01904F	3674
-019102	3675
-01997F	3676
-016069	3677
-01800C	3678
-01513F	3679
-018033	367A
-015C14	367B
-019975	367C
-016D31	367D
-014E8C	367E
-018D30	3721
-0153D1	3722
-017F5A	3723
-017B4F	3724
-014F10	3725
-014E4F	3726
-019600	3727
-016CD5	3728
-0173D0	3729
-0185E9	372A
-015E06	372B
-01756A	372C
-017FFB	372D
-016A0A	372E
-0177FE	372F
-019492	3730
-017E41	3731
-0151E1	3732
-0170E6	3733
-0153CD	3734
-018FD4	3735
-018303	3736
-018D29	3737
-0172AF	3738
-01996D	3739
-016CDB	373A
-01574A	373B
-0182B3	373C
-0165B9	373D
-0180AA	373E
-01623F	373F
-019632	3740
-0159A8	3741
-014EFF	3742
-018BBF	3743
-017EBA	3744
-01653E	3745
-0183F2	3746
-01975E	3747
-015561	3748
-0198DE	3749
-0180A5	374A
-01532A	374B
-018BFD	374C
-015420	374D
-0180BA	374E
-015E9F	374F
-016CB8	3750
-018D39	3751
-0182AC	3752
-01915A	3753
-015429	3754
-016C1B	3755
-015206	3756
-017EB7	3757
-01575F	3758
-01711A	3759
-016C7E	375A
-017C89	375B
-01594B	375C
-014EFD	375D
-015FFF	375E
-016124	375F
-017CAA	3760
-014E30	3761
-015C01	3762
-0167AB	3763
-018702	3764
-015CF0	3765
-01950B	3766
-0198CE	3767
-0175AF	3768
-0170FD	3769
-019022	376A
-0151AF	376B
-017F1D	376C
-018BBD	376D
-015949	376E
-0151E4	376F
-014F5B	3770
-015426	3771
-01592B	3772
-016577	3773
-0180A4	3774
-015B75	3775
-016276	3776
-0162C2	3777
-018F90	3778
-015E45	3779
-016C1F	377A
-017B26	377B
-014F0F	377C
-014FD8	377D
-01670D	377E
-016D6E	3821
-016DAA	3822
-01798F	3823
-0188B1	3824
-015F17	3825
-01752B	3826
-01629A	3827
-018F85	3828
-014FEF	3829
-0191DC	382A
-0165A7	382B
-01812F	382C
-018151	382D
-015E9C	382E
-018150	382F
-018D74	3830
-01526F	3831
-018986	3832
-018D4B	3833
-01590D	3834
-015085	3835
-014ED8	3836
-01961C	3837
-017236	3838
-018179	3839
-018D1F	383A
-015BCC	383B
-018BA3	383C
-019644	383D
-015987	383E
-017F1A	383F
-015490	3840
-015676	3841
-01560E	3842
-018BE5	3843
-016539	3844
-016982	3845
-019499	3846
-0176D6	3847
-016E89	3848
-015E72	3849
-017518	384A
-016746	384B
-0167D1	384C
-017AFF	384D
-01809D	384E
-018D76	384F
-01611F	3850
-0179C6	3851
-016562	3852
-018D63	3853
-015188	3854
-01521A	3855
-0194A2	3856
-017F38	3857
-01809B	3858
-017EB2	3859
-015C97	385A
-016E2F	385B
-016760	385C
-017BD9	385D
-01768B	385E
-019AD8	385F
-01818F	3860
-017F94	3861
-017CD5	3862
-01641E	3863
-019550	3864
-017A3F	3865
-01544A	3866
-0154E5	3867
-016B4C	3868
-016401	3869
-016208	386A
-019E3D	386B
-0180F3	386C
-017599	386D
-015272	386E
-019769	386F
-01845B	3870
-01683C	3871
-0186E4	3872
-019601	3873
-019694	3874
-0194EC	3875
-014E2A	3876
-015404	3877
-017ED9	3878
-016839	3879
-018DDF	387A
-018015	387B
-0166F4	387C
-015E9A	387D
-017FB9	387E
-0157C2	3921
-01803F	3922
-016897	3923
-015DE5	3924
-01653B	3925
-01529F	3926
-01606D	3927
-019F9A	3928
-014F9B	3929
-018EAC	392A
-01516C	392B
-015BAB	392C
-015F13	392D
-015DE9	392E
-016C5E	392F
-0162F1	3930
-018D21	3931
-015171	3932
-0194A9	3933
-0152FE	3934
-016C9F	3935
-0182DF	3936
-0172D7	3937
-0157A2	3938
-016784	3939
-018D2D	393A
-01591F	393B
-018F9C	393C
-0183C7	393D
-015495	393E
-017B8D	393F
-014F30	3940
-016CBD	3941
-015B64	3942
-0159D1	3943
-019F13	3944
-0153E4	3945
-0186CA	3946
-019AA8	3947
-018C37	3948
-0180A1	3949
-016545	394A
-01987E	394B
-0156FA	394C
-0196C7	394D
-01522E	394E
-0174DC	394F
-015250	3950
-015BE1	3951
-016302	3952
-018902	3953
-014E56	3954
-0162D0	3955
-01602A	3956
-0168FA	3957
-015173	3958
-015B98	3959
-0151A0	395A
-0189C2	395B
-017BA1	395C
-019986	395D
-017F50	395E
-0160EF	395F
-01704C	3960
-018D2F	3961
-015149	3962
-015E7F	3963
-01901B	3964
-017470	3965
-0189C4	3966
-01572D	3967
-017845	3968
-015F52	3969
-019F9F	396A
-0195FA	396B
-018F68	396C
-019B3C	396D
-018BE1	396E
-017678	396F
-016842	3970
-0167DC	3971
-018DEA	3972
-018D35	3973
-01523D	3974
-018F8A	3975
-016EDA	3976
-0168CD	3977
-019505	3978
-0190ED	3979
-0156FD	397A
-01679C	397B
-0188F9	397C
-018FC7	397D
-0154C8	397E
-019AB8	3A21
-015B69	3A22
-016D77	3A23
-016C26	3A24
-014EA5	3A25
-015BB3	3A26
-019A87	3A27
-019163	3A28
-0161A8	3A29
-0190AF	3A2A
-0197E9	3A2B
-01542B	3A2C
-016DB5	3A2D
-015BD2	3A2E
-0151FD	3A2F
-01558A	3A30
-017F55	3A31
-017FF0	3A32
-0164BC	3A33
-01634D	3A34
-0165F1	3A35
-0161BE	3A36
-01608D	3A37
-01710A	3A38
-016C57	3A39
-016C49	3A3A
-01592F	3A3B
-01676D	3A3C
-01822A	3A3D
-0158D5	3A3E
-01568E	3A3F
-018C6A	3A40
-016BEB	3A41
-0190DD	3A42
-01597D	3A43
-018017	3A44
-0153F7	3A45
-016D69	3A46
-015475	3A47
-01559D	3A48
-018377	3A49
-0183CF	3A4A
-016838	3A4B
-0179BE	3A4C
-01548C	3A4D
-014F55	3A4E
-015408	3A4F
-0176D2	3A50
-018C89	3A51
-019602	3A52
-016CB3	3A53
-016DB8	3A54
-018D6B	3A55
-018910	3A56
-019E64	3A57
-018D3A	3A58
-01563F	3A59
-019ED1	3A5A
-0175D5	3A5B
-015F88	3A5C
-0172E0	3A5D
-016068	3A5E
-0154FC	3A5F
-014EA8	3A60
-016A2A	3A61
-018861	3A62
-016052	3A63
-018F70	3A64
-0154C4	3A65
-0170D8	3A66
-018679	3A67
-019E3F	3A68
-016D2A	3A69
-015B8F	3A6A
-015F18	3A6B
-017EA2	3A6C
-015589	3A6D
-014FAF	3A6E
-017334	3A6F
-01543C	3A70
-01539A	3A71
-015019	3A72
-01540E	3A73
-01547C	3A74
-014E4E	3A75
-015FFD	3A76
-01745A	3A77
-0158F6	3A78
-01846B	3A79
-0180E1	3A7A
-018774	3A7B
-0172D0	3A7C
-017CCA	3A7D
-016E56	3A7E
-015F27	3B21
-01864E	3B22
-01552C	3B23
-0162A4	3B24
-014E92	3B25
-016CAA	3B26
-016237	3B27
-0182B1	3B28
-0154D7	3B29
-01534E	3B2A
-01733E	3B2B
-016ED1	3B2C
-01753B	3B2D
-015212	3B2E
-015316	3B2F
-018BDD	3B30
-0169D0	3B31
-015F8A	3B32
-016000	3B33
-016DEE	3B34
-01574F	3B35
-016B22	3B36
-0173AF	3B37
-016853	3B38
-018FD8	3B39
-017F13	3B3A
-016362	3B3B
-0160A3	3B3C
-015524	3B3D
-0175EA	3B3E
-018C62	3B3F
-017115	3B40
-016DA3	3B41
-015BA6	3B42
-015E7B	3B43
-018352	3B44
-01614C	3B45
-019EC4	3B46
-0178FA	3B47
-018757	3B48
-017C27	3B49
-017687	3B4A
-0151F0	3B4B
-0160F6	3B4C
-01714C	3B4D
-016643	3B4E
-015E4C	3B4F
-01604D	3B50
-018C0E	3B51
-017070	3B52
-016325	3B53
-018F89	3B54
-015FBD	3B55
-016062	3B56
-0186D4	3B57
-0156DE	3B58
-016BC1	3B59
-016094	3B5A
-016167	3B5B
-015349	3B5C
-0160E0	3B5D
-016666	3B5E
-018D3F	3B5F
-0179FD	3B60
-014F1A	3B61
-0170E9	3B62
-016C47	3B63
-018BB3	3B64
-018BF2	3B65
-017ED8	3B66
-018364	3B67
-01660F	3B68
-015A5A	3B69
-019B42	3B6A
-016D51	3B6B
-016DF7	3B6C
-018C41	3B6D
-016D3B	3B6E
-014F19	3B6F
-01706B	3B70
-0183B7	3B71
-016216	3B72
-0160D1	3B73
-01970D	3B74
-018D27	3B75
-017978	3B76
-0151FB	3B77
-01573E	3B78
-0157FA	3B79
-01673A	3B7A
-017578	3B7B
-017A3D	3B7C
-0179EF	3B7D
-017B95	3B7E
-01808C	3C21
-019965	3C22
-018FF9	3C23
-016FC0	3C24
-018BA5	3C25
-019E21	3C26
-0159EC	3C27
-017EE9	3C28
-017F09	3C29
-015409	3C2A
-016781	3C2B
-0168D8	3C2C
-018F91	3C2D
-017C4D	3C2E
-0196C6	3C2F
-0153CA	3C30
-016025	3C31
-0175BE	3C32
-016C72	3C33
-015373	3C34
-015AC9	3C35
-017EA7	3C36
-016324	3C37
-0151E0	3C38
-01810A	3C39
-015DF1	3C3A
-0184DF	3C3B
-016280	3C3C
-015180	3C3D
-015B63	3C3E
-014F0E	3C3F
-01796D	3C40
-015242	3C41
-0160B8	3C42
-016D4E	3C43
-015BC4	3C44
-015BC2	3C45
-018BA1	3C46
-018BB0	3C47
-0165E2	3C48
-015FCC	3C49
-019645	3C4A
-015993	3C4B
-017EE7	3C4C
-017EAA	3C4D
-015609	3C4E
-0167B7	3C4F
-015939	3C50
-014F73	3C51
-015BB6	3C52
-0152A0	3C53
-01835A	3C54
-01988A	3C55
-018D3E	3C56
-017532	3C57
-0194BE	3C58
-015047	3C59
-017A3C	3C5A
-014EF7	3C5B
-0167B6	3C5C
-019A7E	3C5D
-015AC1	3C5E
-016B7C	3C5F
-0176D1	3C60
-01575A	3C61
-015C16	3C62
-017B3A	3C63
-0195F4	3C64
-01714E	3C65
-01517C	3C66
-0180A9	3C67
-018270	3C68
-015978	3C69
-017F04	3C6A
-018327	3C6B
-0168C0	3C6C
-0167EC	3C6D
-0178B1	3C6E
-017877	3C6F
-0162E3	3C70
-016361	3C71
-017B80	3C72
-014FED	3C73
-01526A	3C74
-0151CF	3C75
-018350	3C76
-0169DB	3C77
-019274	3C78
-018DF5	3C79
-018D31	3C7A
-0189C1	3C7B
-01952E	3C7C
-017BAD	3C7D
-014EF6	3C7E
-015065	3D21
-018230	3D22
-015251	3D23
-01996F	3D24
-016E10	3D25
-016E85	3D26
-016DA7	3D27
-015EFA	3D28
-0150F5	3D29
-0159DC	3D2A
-015C06	3D2B
-016D46	3D2C
-016C5F	3D2D
-017586	3D2E
-01848B	3D2F
-016868	3D30
-015956	3D31
-018BB2	3D32
-015320	3D33
-019171	3D34
-01964D	3D35
-018549	3D36
-016912	3D37
-017901	3D38
-017126	3D39
-0180F6	3D3A
-014EA4	3D3B
-0190CA	3D3C
-016D47	3D3D
-019A84	3D3E
-015A07	3D3F
-0156BC	3D40
-016405	3D41
-0194F0	3D42
-0177EB	3D43
-014FA5	3D44
-01811A	3D45
-0172E1	3D46
-0189D2	3D47
-01997A	3D48
-017F34	3D49
-017EDE	3D4A
-01527F	3D4B
-016559	3D4C
-019175	3D4D
-018F7F	3D4E
-018F83	3D4F
-0153EB	3D50
-017A96	3D51
-0163ED	3D52
-0163A5	3D53
-017686	3D54
-0179F8	3D55
-018857	3D56
-019636	3D57
-01622A	3D58
-0152AB	3D59
-018282	3D5A
-016854	3D5B
-016770	3D5C
-016377	3D5D
-01776B	3D5E
-017AED	3D5F
-016D01	3D60
-017ED3	3D61
-0189E3	3D62
-0159D0	3D63
-016212	3D64
-0185C9	3D65
-0182A5	3D66
-01754C	3D67
-01501F	3D68
-014ECB	3D69
-0175A5	3D6A
-018BEB	3D6B
-015C4A	3D6C
-015DFE	3D6D
-017B4B	3D6E
-0165A4	3D6F
-0191D1	3D70
-014ECA	3D71
-016D25	3D72
-01895F	3D73
-017D27	3D74
-019526	3D75
-014EC5	3D76
-018C28	3D77
-018FDB	3D78
-019773	3D79
-01664B	3D7A
-017981	3D7B
-018FD1	3D7C
-0170EC	3D7D
-016D78	3D7E
-015C3D	3E21
-0152B2	3E22
-018346	3E23
-015162	3E24
-01830E	3E25
-01775B	3E26
-016676	3E27
-019CB8	3E28
-014EAC	3E29
-0160CA	3E2A
-017CBE	3E2B
-017CB3	3E2C
-017ECF	3E2D
-014E95	3E2E
-018B66	3E2F
-01666F	3E30
-019888	3E31
-019759	3E32
-015883	3E33
-01656C	3E34
-01955C	3E35
-015F84	3E36
-0175C9	3E37
-019756	3E38
-017ADF	3E39
-017ADE	3E3A
-0151C0	3E3B
-0170AF	3E3C
-017A98	3E3D
-0163EA	3E3E
-017A76	3E3F
-017EA0	3E40
-017396	3E41
-0197ED	3E42
-014E45	3E43
-017078	3E44
-014E5D	3E45
-019152	3E46
-0153A9	3E47
-016551	3E48
-0165E7	3E49
-0181FC	3E4A
-018205	3E4B
-01548E	3E4C
-015C31	3E4D
-01759A	3E4E
-0197A0	3E4F
-0162D8	3E50
-0172D9	3E51
-0175BD	3E52
-015C45	3E53
-019A79	3E54
-0183CA	3E55
-015C40	3E56
-015480	3E57
-0177E9	3E58
-014E3E	3E59
-016CAE	3E5A
-01805A	3E5B
-0162D2	3E5C
-01636E	3E5D
-015DE8	3E5E
-015177	3E5F
-018DDD	3E60
-018E1E	3E61
-01952F	3E62
-014FF1	3E63
-0153E5	3E64
-0160E7	3E65
-0170AC	3E66
-015267	3E67
-016350	3E68
-019E43	3E69
-015A1F	3E6A
-015026	3E6B
-017737	3E6C
-015377	3E6D
-017EE2	3E6E
-016485	3E6F
-01652B	3E70
-016289	3E71
-016398	3E72
-015014	3E73
-017235	3E74
-0189C9	3E75
-0151B3	3E76
-018BC0	3E77
-017EDD	3E78
-015747	3E79
-0183CC	3E7A
-0194A7	3E7B
-01519B	3E7C
-01541B	3E7D
-015CFB	3E7E
-014FCA	3F21
-017AE3	3F22
-016D5A	3F23
-0190E1	3F24
-019A8F	3F25
-015580	3F26
-015496	3F27
-015361	3F28
-0154AF	3F29
-015F00	3F2A
-0163E9	3F2B
-016977	3F2C
-0151EF	3F2D
-016168	3F2E
-01520A	3F2F
-01582A	3F30
-0152D8	3F31
-01574E	3F32
-01780D	3F33
-01770B	3F34
-015EB7	3F35
-016177	3F36
-017CE0	3F37
-01625B	3F38
-016297	3F39
-014EA2	3F3A
-017095	3F3B
-018003	3F3C
-0162F7	3F3D
-0170E4	3F3E
-019760	3F3F
-015777	3F40
-0182DB	3F41
-0167EF	3F42
-0168F5	3F43
-0178D5	3F44
-019897	3F45
-0179D1	3F46
-0158F3	3F47
-0154B3	3F48
-0153EF	3F49
-016E34	3F4A
-01514B	3F4B
-01523B	3F4C
-015BA2	3F4D
-018BFE	3F4E
-0180AF	3F4F
-015543	3F50
-0157A6	3F51
-016073	3F52
-015751	3F53
-01542D	3F54
-017A7A	3F55
-016050	3F56
-015B54	3F57
-0163A7	3F58
-0162A0	3F59
-0153E3	3F5A
-016263	3F5B
-015BC7	3F5C
-0167AF	3F5D
-0154ED	3F5E
-017A9F	3F5F
-0182E6	3F60
-019177	3F61
-015E93	3F62
-0188E4	3F63
-015938	3F64
-0157AE	3F65
-01630E	3F66
-018DE8	3F67
-0180EF	3F68
-015757	3F69
-017B77	3F6A
-014FA9	3F6B
-015FEB	3F6C
-015BBD	3F6D
-016B3E	3F6E
-015321	3F6F
-017B50	3F70
-0172C2	3F71
-016846	3F72
-0177FF	3F73
-017736	3F74
-0165F7	3F75
-0151B5	3F76
-014E8F	3F77
-0176D4	3F78
-015CBF	3F79
-017AA5	3F7A
-018475	3F7B
-01594E	3F7C
-019B41	3F7D
-015080	3F7E
-019988	4021
-016127	4022
-016E83	4023
-015764	4024
-016606	4025
-016346	4026
-0156F0	4027
-0162EC	4028
-016269	4029
-015ED3	402A
-019614	402B
-015783	402C
-0162C9	402D
-015587	402E
-018721	402F
-01814A	4030
-018FA3	4031
-015566	4032
-0183B1	4033
-016765	4034
-018D56	4035
-0184DD	4036
-015A6A	4037
-01680F	4038
-0162E6	4039
-017BEE	403A
-019611	403B
-015170	403C
-016F9C	403D
-018C30	403E
-0163FD	403F
-0189C8	4040
-0161D2	4041
-017F06	4042
-0170C2	4043
-016EE5	4044
-017405	4045
-016994	4046
-0172FC	4047
-015ECA	4048
-0190CE	4049
-016717	404A
-016D6A	404B
-01635E	404C
-0152B3	404D
-017262	404E
-018001	404F
-014F6C	4050
-0159E5	4051
-01916A	4052
-0170D9	4053
-016D9D	4054
-0152D2	4055
-014E50	4056
-0196F7	4057
-01956D	4058
-01857E	4059
-0178CA	405A
-017D2F	405B
-015121	405C
-015792	405D
-0164C2	405E
-01808B	405F
-017C7B	4060
-016CEA	4061
-0168F1	4062
-01695E	4063
-0151B7	4064
-015398	4065
-0168A8	4066
-017281	4067
-019ECE	4068
-017BF1	4069
-0172F8	406A
-0179BB	406B
-016F13	406C
-017406	406D
-01674E	406E
-0191CC	406F
-019CA4	4070
-01793C	4071
-018389	4072
-018354	4073
-01540F	4074
-016817	4075
-014E3D	4076
-015389	4077
-0152B1	4078
-01783E	4079
-015386	407A
-015229	407B
-015088	407C
-014F8B	407D
-014FD0	407E
-0175E2	4121
-017ACB	4122
-017C92	4123
-016CA5	4124
-0196B6	4125
-01529B	4126
-017483	4127
-0154E9	4128
-014FE9	4129
-018054	412A
-0183B2	412B
-018FDE	412C
-019570	412D
-015EC9	412E
-01601C	412F
-016D9F	4130
-015E18	4131
-01655B	4132
-018138	4133
-0194FE	4134
-01604B	4135
-0170BC	4136
-017EC3	4137
-017CAE	4138
-0151C9	4139
-016881	413A
-017CB1	413B
-01826F	413C
-014E24	413D
-018F86	413E
-0191CF	413F
-01667E	4140
-014EAE	4141
-018C05	4142
-0164A9	4143
-01804A	4144
-0150DA	4145
-017597	4146
-0171CE	4147
-015BE5	4148
-018FBD	4149
-016F66	414A
-014E86	414B
-016482	414C
-019563	414D
-015ED6	414E
-016599	414F
-015217	4150
-0188C2	4151
-0170C8	4152
-0152A3	4153
-01730E	4154
-017433	4155
-016797	4156
-0178F7	4157
-019716	4158
-014E34	4159
-0190BB	415A
-019CDE	415B
-016DCB	415C
-0151DB	415D
-018D41	415E
-01541D	415F
-0162CE	4160
-0173B2	4161
-0183F1	4162
-0196F6	4163
-019F84	4164
-0194C3	4165
-014F36	4166
-017F9A	4167
-0151CC	4168
-017075	4169
-019675	416A
-015CAD	416B
-019886	416C
-0153E6	416D
-014EE4	416E
-016E9C	416F
-017409	4170
-0169B4	4171
-01786B	4172
-01998F	4173
-017559	4174
-015218	4175
-017624	4176
-016D41	4177
-0167F3	4178
-01516D	4179
-019F99	417A
-01804B	417B
-015499	417C
-017B3C	417D
-017ABF	417E
-019686	4221
-015784	4222
-0162E2	4223
-019647	4224
-01697C	4225
-015A04	4226
-016402	4227
-017BD3	4228
-016F0F	4229
-01964B	422A
-0182A6	422B
-015362	422C
-019885	422D
-015E90	422E
-017089	422F
-0163B3	4230
-015364	4231
-01864F	4232
-019C81	4233
-019E93	4234
-01788C	4235
-019732	4236
-018DEF	4237
-018D42	4238
-019E7F	4239
-016F5E	423A
-017984	423B
-015F55	423C
-019646	423D
-01622E	423E
-019A74	423F
-015415	4240
-0194DD	4241
-014FA3	4242
-0165C5	4243
-015C65	4244
-015C61	4245
-017F15	4246
-018651	4247
-016C2F	4248
-015F8B	4249
-017387	424A
-016EE4	424B
-017EFF	424C
-015CE6	424D
-01631B	424E
-015B6A	424F
-016EE6	4250
-015375	4251
-014E71	4252
-0163A0	4253
-017565	4254
-0162A1	4255
-018F6E	4256
-014F26	4257
-014ED1	4258
-016CA6	4259
-017EB6	425A
-018BBA	425B
-01841D	425C
-0187BA	425D
-017F57	425E
-01903B	425F
-019523	4260
-017BA9	4261
-019AA1	4262
-0188F8	4263
-01843D	4264
-016D1B	4265
-019A86	4266
-017EDC	4267
-015988	4268
-019EBB	4269
-01739B	426A
-017801	426B
-018682	426C
-019A6C	426D
-019A82	426E
-01561B	426F
-015417	4270
-0157CB	4271
-014E70	4272
-019EA6	4273
-015356	4274
-018FC8	4275
-018109	4276
-017792	4277
-019992	4278
-0186EE	4279
-016EE1	427A
-018513	427B
-0166FC	427C
-016162	427D
-016F2B	427E
-018C29	4321
-018292	4322
-01832B	4323
-0176F2	4324
-016C13	4325
-015FD9	4326
-0183BD	4327
-01732B	4328
-018305	4329
-01951A	432A
-016BDB	432B
-0177DB	432C
-0194C6	432D
-01536F	432E
-018302	432F
-015192	4330
-015E3D	4331
-018C8C	4332
-018D38	4333
-014E48	4334
-0173AB	4335
-01679A	4336
-016885	4337
-019176	4338
-019709	4339
-017164	433A
-016CA1	433B
-017709	433C
-015A92	433D
-019541	433E
-016BCF	433F
-017F8E	4340
-016627	4341
-015BD0	4342
-0159B9	4343
-015A9A	4344
-0195E8	4345
-0195F7	4346
-014EEC	4347
-01840C	4348
-018499	4349
-016AAC	434A
-0176DF	434B
-019530	434C
-01731B	434D
-0168A6	434E
-015B5F	434F
-01772F	4350
-01919A	4351
-019761	4352
-017CDC	4353
-018FF7	4354
-018C1C	4355
-015F25	4356
-017C73	4357
-0179D8	4358
-0189C5	4359
-016CCC	435A
-01871C	435B
-015BC6	435C
-015E42	435D
-0168C9	435E
-017720	435F
-017EF5	4360
-015195	4361
-01514D	4362
-0152C9	4363
-015A29	4364
-017F05	4365
-019762	4366
-0182D7	4367
-0163CF	4368
-017784	4369
-0185D0	436A
-0179D2	436B
-016E3A	436C
-015E99	436D
-015999	436E
-018511	436F
-01706D	4370
-016C11	4371
-0162BF	4372
-0176BF	4373
-01654F	4374
-0160AF	4375
-0195FD	4376
-01660E	4377
-01879F	4378
-019E23	4379
-0194ED	437A
-01540D	437B
-01547D	437C
-018C2C	437D
-016478	437E
-016479	4421
-018611	4422
-016A21	4423
-01819C	4424
-0178E8	4425
-016469	4426
-019B54	4427
-0162B9	4428
-01672B	4429
-0183AB	442A
-0158A8	442B
-019ED8	442C
-016CAB	442D
-016F20	442E
-015BDE	442F
-01964C	4430
-018C0B	4431
-01725F	4432
-0167D0	4433
-0162C7	4434
-017261	4435
-014EA9	4436
-0159C6	4437
-016BCD	4438
-015893	4439
-0166AE	443A
-015E55	443B
-0152DF	443C
-016155	443D
-016728	443E
-0176EE	443F
-017766	4440
-017267	4441
-017A46	4442
-0162FF	4443
-0154EA	4444
-015450	4445
-0194A0	4446
-0190A3	4447
-015A1C	4448
-017EB3	4449
-016C16	444A
-014E43	444B
-015976	444C
-018010	444D
-015948	444E
-015357	444F
-017537	4450
-0196BE	4451
-0156CA	4452
-016320	4453
-018111	4454
-01607C	4455
-0195F9	4456
-016DD6	4457
-015462	4458
-019981	4459
-015185	445A
-015AE9	445B
-0180FD	445C
-0159AE	445D
-019713	445E
-01502A	445F
-016CE5	4460
-015C3C	4461
-0162DF	4462
-014F60	4463
-01533F	4464
-01817B	4465
-019006	4466
-016EBA	4467
-01852B	4468
-0162C8	4469
-015E74	446A
-0178BE	446B
-0164B5	446C
-01637B	446D
-015FF5	446E
-015A18	446F
-01917F	4470
-019E1F	4471
-015C3F	4472
-01634F	4473
-018042	4474
-015B7D	4475
-01556E	4476
-01954A	4477
-01954D	4478
-016D85	4479
-0160A8	447A
-0167E0	447B
-0172DE	447C
-0151DD	447D
-015B81	447E
-0162E7	4521
-016CDE	4522
-01725B	4523
-01626D	4524
-0194AE	4525
-017EBD	4526
-018113	4527
-016D53	4528
-01519C	4529
-015F04	452A
-015974	452B
-0152AA	452C
-016012	452D
-015973	452E
-016696	452F
-018650	4530
-01759F	4531
-01632A	4532
-0161E6	4533
-017CEF	4534
-018BFA	4535
-0154E6	4536
-016B27	4537
-019E25	4538
-016BB4	4539
-0185D5	453A
-015455	453B
-015076	453C
-016CA4	453D
-01556A	453E
-018DB4	453F
-01722C	4540
-015E15	4541
-016015	4542
-017436	4543
-0162CD	4544
-016392	4545
-01724C	4546
-015F98	4547
-016E43	4548
-016D3E	4549
-016500	454A
-016F58	454B
-0176D8	454C
-0178D0	454D
-0176FC	454E
-017554	454F
-015224	4550
-0153DB	4551
-014E53	4552
-015E9E	4553
-0165C1	4554
-01802A	4555
-0180D6	4556
-01629B	4557
-015486	4558
-015228	4559
-0170AE	455A
-01888D	455B
-018DD1	455C
-016CE1	455D
-015478	455E
-0180DA	455F
-0157F9	4560
-0188F4	4561
-018D54	4562
-01966A	4563
-01914D	4564
-014F69	4565
-016C9B	4566
-0155B7	4567
-0176C6	4568
-017830	4569
-0162A8	456A
-0170F9	456B
-016F8E	456C
-015F6D	456D
-0184EC	456E
-0168DA	456F
-01787C	4570
-017BF7	4571
-0181A8	4572
-01670B	4573
-019E4F	4574
-016367	4575
-0178B0	4576
-01576F	4577
-017812	4578
-019739	4579
-016279	457A
-0162AB	457B
-015288	457C
-017435	457D
-016BD7	457E
-015564	4621
-01813E	4622
-0175B2	4623
-0176AE	4624
-015339	4625
-0175DE	4626
-0150FB	4627
-015C41	4628
-018B6C	4629
-017BC7	462A
-01504F	462B
-017247	462C
-019A97	462D
-0198D8	462E
-016F02	462F
-0174E2	4630
-017968	4631
-016487	4632
-0177A5	4633
-0162FC	4634
-019891	4635
-018D2B	4636
-0154C1	4637
-018058	4638
-014E52	4639
-01576A	463A
-0182F9	463B
-01840D	463C
-015E73	463D
-0151ED	463E
-0174F6	463F
-018BC4	4640
-015C4F	4641
-015761	4642
-016CFC	4643
-019887	4644
-015A46	4645
-017834	4646
-019B44	4647
-018FEB	4648
-017C95	4649
-015256	464A
-016251	464B
-0194FA	464C
-014EC6	464D
-018386	464E
-018461	464F
-0183E9	4650
-0184B2	4651
-0157D4	4652
-016734	4653
-015703	4654
-01666E	4655
-016D66	4656
-018C31	4657
-0166DD	4658
-017011	4659
-01671F	465A
-016B3A	465B
-016816	465C
-01621A	465D
-0159BB	465E
-014E03	465F
-0151C4	4660
-016F06	4661
-0167D2	4662
-016C8F	4663
-015176	4664
-0168CB	4665
-015947	4666
-016B67	4667
-017566	4668
-015D0E	4669
-018110	466A
-019F50	466B
-0165D7	466C
-017948	466D
-017941	466E
-019A91	466F
-018D77	4670
-015C82	4671
-014E5E	4672
-014F01	4673
-01542F	4674
-015951	4675
-01780C	4676
-015668	4677
-016C14	4678
-018FC4	4679
-015F03	467A
-016C7D	467B
-016CE3	467C
-018BAB	467D
-016390	467E
-016070	4721
-016D3D	4722
-017275	4723
-016266	4724
-01948E	4725
-0194C5	4726
-015343	4727
-018FC1	4728
-017B7E	4729
-014EDF	472A
-018C26	472B
-014E7E	472C
-019ED4	472D
-0194B1	472E
-0194B3	472F
-01524D	4730
-016F5C	4731
-019063	4732
-016D45	4733
-018C34	4734
-015811	4735
-015D4C	4736
-016B20	4737
-016B49	4738
-0167AA	4739
-01545B	473A
-018154	473B
-017F8C	473C
-015899	473D
-018537	473E
-015F3A	473F
-0162A2	4740
-016A47	4741
-019539	4742
-016572	4743
-016084	4744
-016865	4745
-0177A7	4746
-014E54	4747
-014FA8	4748
-015DE7	4749
-019798	474A
-0164AC	474B
-017FD8	474C
-015CED	474D
-014FCF	474E
-017A8D	474F
-015207	4750
-018304	4751
-014E14	4752
-01602F	4753
-017A83	4754
-0194A6	4755
-014FB5	4756
-014EB2	4757
-0179E6	4758
-017434	4759
-0152E4	475A
-0182B9	475B
-0164D2	475C
-0179BD	475D
-015BDD	475E
-016C81	475F
-019752	4760
-018F7B	4761
-016C22	4762
-01503E	4763
-01537F	4764
-016E05	4765
-0164CE	4766
-016674	4767
-016C30	4768
-0160C5	4769
-019877	476A
-018BF7	476B
-015E86	476C
-01743C	476D
-017A77	476E
-0179CB	476F
-014E18	4770
-0190B1	4771
-017403	4772
-016C42	4773
-0156DA	4774
-01914B	4775
-016CC5	4776
-018D8B	4777
-01533A	4778
-0186C6	4779
-0166F2	477A
-018EAF	477B
-015C48	477C
-019A71	477D
-016E20	477E
-0153D6	4821
-015A36	4822
-019F8B	4823
-018DA3	4824
-0153BB	4825
-015708	4826
-0198A7	4827
-016743	4828
-01919B	4829
-016CC9	482A
-015168	482B
-0175CA	482C
-0162F3	482D
-0172AC	482E
-015238	482F
-01529D	4830
-017F3A	4831
-017094	4832
-017638	4833
-015374	4834
-019E4A	4835
-0169B7	4836
-01786E	4837
-0196C0	4838
-0188D9	4839
-017FA4	483A
-017136	483B
-0171C3	483C
-015189	483D
-0167D3	483E
-0174E4	483F
-0158E4	4840
-016518	4841
-0156B7	4842
-018BA9	4843
-019976	4844
-016270	4845
-017ED5	4846
-0160F9	4847
-0170ED	4848
-0158EC	4849
-014EC1	484A
-014EBA	484B
-015FCD	484C
-0197E7	484D
-014EFB	484E
-018BA4	484F
-015203	4850
-01598A	4851
-017EAB	4852
-016254	4853
-014ECD	4854
-0165E5	4855
-01620E	4856
-018338	4857
-0184C9	4858
-018363	4859
-01878D	485A
-017194	485B
-016EB6	485C
-015BB9	485D
-017ED2	485E
-015197	485F
-0163C9	4860
-0167D4	4861
-018089	4862
-018339	4863
-018815	4864
-015112	4865
-015B7A	4866
-015982	4867
-018FB1	4868
-014E73	4869
-016C5D	486A
-015165	486B
-018925	486C
-018F6F	486D
-01962E	486E
-01854A	486F
-01745E	4870
-019510	4871
-0195F0	4872
-016DA6	4873
-0182E5	4874
-015F31	4875
-016492	4876
-016D12	4877
-018428	4878
-01816E	4879
-019CC3	487A
-01585E	487B
-018D5B	487C
-014E09	487D
-0153C1	487E
-014F1E	4921
-016563	4922
-016851	4923
-0155D3	4924
-014E27	4925
-016414	4926
-019A9A	4927
-01626B	4928
-015AC2	4929
-01745F	492A
-018272	492B
-016DA9	492C
-0168EE	492D
-0150E7	492E
-01838E	492F
-017802	4930
-016740	4931
-015239	4932
-016C99	4933
-017EB1	4934
-0150BB	4935
-015565	4936
-01715E	4937
-017B5B	4938
-016652	4939
-0173CA	493A
-0182EB	493B
-016749	493C
-015C71	493D
-015220	493E
-01717D	493F
-01886B	4940
-0195EA	4941
-019655	4942
-0164C5	4943
-018D61	4944
-0181B3	4945
-015584	4946
-016C55	4947
-016247	4948
-017F2E	4949
-015892	494A
-014F24	494B
-015546	494C
-018D4F	494D
-01664C	494E
-014E0A	494F
-015C1A	4950
-0188F3	4951
-0168A2	4952
-01634E	4953
-017A0D	4954
-0170E7	4955
-01828D	4956
-0152FA	4957
-0197F6	4958
-015C11	4959
-0154E8	495A
-0190B5	495B
-017ECD	495C
-015962	495D
-018D4A	495E
-0186C7	495F
-01820C	4960
-01820D	4961
-018D66	4962
-016444	4963
-015C04	4964
-016151	4965
-016D89	4966
-01793E	4967
-018BBE	4968
-017837	4969
-017533	496A
-01547B	496B
-014F38	496C
-018EAB	496D
-016DF1	496E
-015A20	496F
-017EC5	4970
-01795E	4971
-016C88	4972
-015BA1	4973
-015A76	4974
-01751A	4975
-0180BE	4976
-01614E	4977
-016E17	4978
-0158F0	4979
-01751F	497A
-017525	497B
-017272	497C
-015347	497D
-017EF3	497E
-017701	4A21
-0176DB	4A22
-015269	4A23
-0180DC	4A24
-015723	4A25
-015E08	4A26
-015931	4A27
-0172EE	4A28
-0165BD	4A29
-016E7F	4A2A
-018BD7	4A2B
-015C38	4A2C
-018671	4A2D
-015341	4A2E
-0177F3	4A2F
-0162FE	4A30
-0165F6	4A31
-014EC0	4A32
-0198DF	4A33
-018680	4A34
-015B9E	4A35
-018BC6	4A36
-0153F2	4A37
-0177E2	4A38
-014F7F	4A39
-015C4E	4A3A
-019A76	4A3B
-0159CB	4A3C
-015F0F	4A3D
-01793A	4A3E
-0158EB	4A3F
-014E16	4A40
-0167FF	4A41
-014E8B	4A42
-0162ED	4A43
-018A93	4A44
-01901D	4A45
-0152BF	4A46
-01662F	4A47
-0155DC	4A48
-01566C	4A49
-019002	4A4A
-014ED5	4A4B
-014F8D	4A4C
-0191CA	4A4D
-019970	4A4E
-016C0F	4A4F
-015E02	4A50
-016043	4A51
-015BA4	4A52
-0189C6	4A53
-018BD5	4A54
-016536	4A55
-01624B	4A56
-019996	4A57
-015B88	4A58
-015BFF	4A59
-016388	4A5A
-01552E	4A5B
-0153D7	4A5C
-017626	4A5D
-01517D	4A5E
-01852C	4A5F
-0167A2	4A60
-0168B3	4A61
-016B8A	4A62
-016292	4A63
-018F93	4A64
-0153D4	4A65
-018212	4A66
-016DD1	4A67
-01758F	4A68
-014E66	4A69
-018D4E	4A6A
-015B70	4A6B
-01719F	4A6C
-0185AF	4A6D
-016691	4A6E
-0166D9	4A6F
-017F72	4A70
-018700	4A71
-019ECD	4A72
-019F20	4A73
-015C5E	4A74
-01672F	4A75
-018FF0	4A76
-016811	4A77
-01675F	4A78
-01620D	4A79
-017AD6	4A7A
-015885	4A7B
-015EB6	4A7C
-016570	4A7D
-016F31	4A7E
-016055	4B21
-015237	4B22
-01800D	4B23
-016454	4B24
-018870	4B25
-017529	4B26
-015E05	4B27
-016813	4B28
-0162F4	4B29
-01971C	4B2A
-0153CC	4B2B
-01723D	4B2C
-018C01	4B2D
-016C34	4B2E
-017761	4B2F
-017A0E	4B30
-01542E	4B31
-0177AC	4B32
-01987A	4B33
-01821C	4B34
-018BF4	4B35
-017855	4B36
-016714	4B37
-0170C1	4B38
-0165AF	4B39
-016495	4B3A
-015636	4B3B
-01601D	4B3C
-0179C1	4B3D
-0153F8	4B3E
-014E1D	4B3F
-016B7B	4B40
-018086	4B41
-015BFA	4B42
-0155E3	4B43
-0156DB	4B44
-014F3A	4B45
-014F3C	4B46
-019972	4B47
-015DF3	4B48
-01677E	4B49
-018038	4B4A
-016002	4B4B
-019882	4B4C
-019001	4B4D
-015B8B	4B4E
-018BBC	4B4F
-018BF5	4B50
-01641C	4B51
-018258	4B52
-0164DE	4B53
-0155FD	4B54
-0182CF	4B55
-019165	4B56
-014FD7	4B57
-017D20	4B58
-01901F	4B59
-017C9F	4B5A
-0150F3	4B5B
-015851	4B5C
-016EAF	4B5D
-015BBF	4B5E
-018BC9	4B5F
-018083	4B60
-019178	4B61
-01849C	4B62
-017B97	4B63
-01867D	4B64
-01968B	4B65
-01968F	4B66
-017EE5	4B67
-019AD3	4B68
-01788E	4B69
-015C81	4B6A
-017A57	4B6B
-019042	4B6C
-0196A7	4B6D
-01795F	4B6E
-015B59	4B6F
-01635F	4B70
-017B0B	4B71
-0184D1	4B72
-0168AD	4B73
-015506	4B74
-017F29	4B75
-017410	4B76
-017D22	4B77
-019501	4B78
-016240	4B79
-01584C	4B7A
-014ED6	4B7B
-015B83	4B7C
-015979	4B7D
-015854	4B7E
-01736D	4C21
-01631E	4C22
-018E4B	4C23
-018E0F	4C24
-0180CE	4C25
-0182D4	4C26
-0162AC	4C27
-0153F0	4C28
-016CF0	4C29
-01915E	4C2A
-01592A	4C2B
-016001	4C2C
-016C70	4C2D
-01574D	4C2E
-01644A	4C2F
-018D2A	4C30
-01762B	4C31
-016EE9	4C32
-01575B	4C33
-016A80	4C34
-0175F0	4C35
-016F6D	4C36
-018C2D	4C37
-018C08	4C38
-015766	4C39
-016BEF	4C3A
-018892	4C3B
-0178B3	4C3C
-0163A2	4C3D
-0153F9	4C3E
-0170AD	4C3F
-016C64	4C40
-015858	4C41
-01642A	4C42
-015802	4C43
-0168E0	4C44
-01819B	4C45
-015510	4C46
-017CD6	4C47
-015018	4C48
-018EBA	4C49
-016DCC	4C4A
-018D9F	4C4B
-0170EB	4C4C
-01638F	4C4D
-016D9B	4C4E
-016ED4	4C4F
-017EE6	4C50
-018404	4C51
-016843	4C52
-019003	4C53
-016DD8	4C54
-019676	4C55
-018BA8	4C56
-015957	4C57
-017279	4C58
-0185E4	4C59
-01817E	4C5A
-0175BC	4C5B
-018A8A	4C5C
-0168AF	4C5D
-015254	4C5E
-018E22	4C5F
-019511	4C60
-0163D0	4C61
-019898	4C62
-018E44	4C63
-01557C	4C64
-014F53	4C65
-0166FF	4C66
-01568F	4C67
-0160D5	4C68
-016D95	4C69
-015243	4C6A
-015C49	4C6B
-015929	4C6C
-016DFB	4C6D
-01586B	4C6E
-017530	4C6F
-01751C	4C70
-01606C	4C71
-018214	4C72
-018146	4C73
-016311	4C74
-016761	4C75
-018FE2	4C76
-01773A	4C77
-018DF3	4C78
-018D34	4C79
-0194C1	4C7A
-015E16	4C7B
-015385	4C7C
-01542C	4C7D
-0170C3	4C7E
-016C40	4D21
-015EF7	4D22
-01505C	4D23
-014EAD	4D24
-015EAD	4D25
-01633A	4D26
-018247	4D27
-01901A	4D28
-016850	4D29
-01916E	4D2A
-0177B3	4D2B
-01540C	4D2C
-0194DC	4D2D
-015F64	4D2E
-017AE5	4D2F
-016876	4D30
-016345	4D31
-017B52	4D32
-017EDF	4D33
-0175DB	4D34
-015077	4D35
-016295	4D36
-015934	4D37
-01900F	4D38
-0151F8	4D39
-0179C3	4D3A
-017A81	4D3B
-0156FE	4D3C
-015F92	4D3D
-019014	4D3E
-016D82	4D3F
-015C60	4D40
-01571F	4D41
-015410	4D42
-015154	4D43
-016E4D	4D44
-0156E2	4D45
-0163A8	4D46
-019893	4D47
-01817F	4D48
-018715	4D49
-01892A	4D4A
-019000	4D4B
-01541E	4D4C
-015C6F	4D4D
-0181C0	4D4E
-0162D6	4D4F
-016258	4D50
-018131	4D51
-019E35	4D52
-019640	4D53
-019A6E	4D54
-019A7C	4D55
-01692D	4D56
-0159A5	4D57
-0162D3	4D58
-01553E	4D59
-016316	4D5A
-0154C7	4D5B
-0186D9	4D5C
-016D3C	4D5D
-015A03	4D5E
-0174E6	4D5F
-01889C	4D60
-016B6A	4D61
-015916	4D62
-018C4C	4D63
-015F2F	4D64
-016E7E	4D65
-0173A9	4D66
-01987D	4D67
-014E38	4D68
-0170F7	4D69
-015B8C	4D6A
-017897	4D6B
-01633D	4D6C
-01665A	4D6D
-017696	4D6E
-0160CB	4D6F
-015B9B	4D70
-015A49	4D71
-014E07	4D72
-018155	4D73
-016C6A	4D74
-01738B	4D75
-014EA1	4D76
-016789	4D77
-017F51	4D78
-015F80	4D79
-0165FA	4D7A
-01671B	4D7B
-015FD8	4D7C
-015984	4D7D
-015A01	4D7E
-015DCD	4E21
-015FAE	4E22
-015371	4E23
-0197E6	4E24
-018FDD	4E25
-016845	4E26
-0156F4	4E27
-01552F	4E28
-0160DF	4E29
-014E3A	4E2A
-016F4D	4E2B
-017EF4	4E2C
-0182C7	4E2D
-01840E	4E2E
-0159D4	4E2F
-014F1F	4E30
-014F2A	4E31
-015C3E	4E32
-017EAC	4E33
-01672A	4E34
-01851A	4E35
-015473	4E36
-01754F	4E37
-0180C3	4E38
-015582	4E39
-019B4F	4E3A
-014F4D	4E3B
-016E2D	4E3C
-018C13	4E3D
-015C09	4E3E
-016170	4E3F
-01536B	4E40
-01761F	4E41
-016E29	4E42
-01868A	4E43
-016587	4E44
-0195FB	4E45
-017EB9	4E46
-01543B	4E47
-017A33	4E48
-017D0A	4E49
-0195EE	4E4A
-0155E1	4E4B
-017FC1	4E4C
-0174EE	4E4D
-01631D	4E4E
-018717	4E4F
-016DA1	4E50
-017A9D	4E51
-016211	4E52
-0165A1	4E53
-015367	4E54
-0163E1	4E55
-016C83	4E56
-015DEB	4E57
-01545C	4E58
-0194A8	4E59
-014E4C	4E5A
-016C61	4E5B
-018BEC	4E5C
-015C4B	4E5D
-0165E0	4E5E
-01829C	4E5F
-0168A7	4E60
-01543E	4E61
-015434	4E62
-016BCB	4E63
-016B66	4E64
-014E94	4E65
-016342	4E66
-015348	4E67
-01821E	4E68
-014F0D	4E69
-014FAE	4E6A
-01575E	4E6B
-01620A	4E6C
-0196FE	4E6D
-016664	4E6E
-017269	4E6F
-0152FF	4E70
-0152A1	4E71
-01609F	4E72
-018BEF	4E73
-016614	4E74
-017199	4E75
-016790	4E76
-01897F	4E77
-017852	4E78
-0177FD	4E79
-016670	4E7A
-01563B	4E7B
-015438	4E7C
-019521	4E7D
-01727A	4E7E
-017A00	4F21
-01606F	4F22
-015E0C	4F23
-016089	4F24
-01819D	4F25
-015915	4F26
-0160DC	4F27
-017184	4F28
-0170EF	4F29
-016EAA	4F2A
-016C50	4F2B
-017280	4F2C
-016A84	4F2D
-0188AD	4F2E
-015E2D	4F2F
-014E60	4F30
-015AB3	4F31
-01559C	4F32
-0194E3	4F33
-016D17	4F34
-017CFB	4F35
-019699	4F36
-01620F	4F37
-017EC6	4F38
-01778E	4F39
-01867E	4F3A
-015323	4F3B
-01971E	4F3C
-018F96	4F3D
-016687	4F3E
-015CE1	4F3F
-014FA0	4F40
-0172ED	4F41
-014E0B	4F42
-0153A6	4F43
-01590F	4F44
-015413	4F45
-016380	4F46
-019528	4F47
-015148	4F48
-014ED9	4F49
-019C9C	4F4A
-017EA4	4F4B
-0154B8	4F4C
-018D24	4F4D
-018854	4F4E
-018237	4F4F
-0195F2	4F50
-016D8E	4F51
-015F26	4F52
-015ACC	4F53
-01663E	4F54
-019669	4F55
-0173B0	4F56
-01732E	4F57
-0153BF	4F58
-01817A	4F59
-019985	4F5A
-017FA1	4F5B
-015BAA	4F5C
-019677	4F5D
-019650	4F5E
-017EBF	4F5F
-0176F8	4F60
-0153A2	4F61
-019576	4F62
-019999	4F63
-017BB1	4F64
-018944	4F65
-016E58	4F66
-014E61	4F67
-017FD4	4F68
-017965	4F69
-018BE6	4F6A
-0160F3	4F6B
-0154CD	4F6C
-014EAB	4F6D
-019879	4F6E
-015DF7	4F6F
-016A61	4F70
-0150CF	4F71
-015411	4F72
-018C61	4F73
-018427	4F74
-01785D	4F75
-019704	4F76
-01524A	4F77
-0154EE	4F78
-0156A3	4F79
-019500	4F7A
-016D88	4F7B
-015BB5	4F7C
-016DC6	4F7D
-016653	4F7E
-015C0F	5021
-015B5D	5022
-016821	5023
-018096	5024
-015578	5025
-017B11	5026
-016548	5027
-016954	5028
-014E9B	5029
-016B47	502A
-01874E	502B
-01978B	502C
-01534F	502D
-01631F	502E
-01643A	502F
-0190AA	5030
-01659C	5031
-0180C1	5032
-018C10	5033
-015199	5034
-0168B0	5035
-015378	5036
-0187F9	5037
-0161C8	5038
-016CC4	5039
-016CFB	503A
-018C22	503B
-015C51	503C
-0185AA	503D
-0182AF	503E
-01950C	503F
-016B23	5040
-018F9B	5041
-0165B0	5042
-015FFB	5043
-015FC3	5044
-014FE1	5045
-018845	5046
-01661F	5047
-018165	5048
-017329	5049
-0160FA	504A
-015174	504B
-015211	504C
-01578B	504D
-015F62	504E
-0190A2	504F
-01884C	5050
-019192	5051
-015E78	5052
-01674F	5053
-016027	5054
-0159D3	5055
-015144	5056
-0151F6	5057
-0180F8	5058
-015308	5059
-016C79	505A
-0196C4	505B
-01718A	505C
-014F11	505D
-014FEE	505E
-017F9E	505F
-01673D	5060
-0155C5	5061
-019508	5062
-0179C0	5063
-018896	5064
-017EE3	5065
-01589F	5066
-01620C	5067
-019700	5068
-01865A	5069
-015618	506A
-01987B	506B
-015F90	506C
-018BB8	506D
-0184C4	506E
-019157	506F
-0153D9	5070
-0165ED	5071
-015E8F	5072
-01755C	5073
-016064	5074
-017D6E	5075
-015A7F	5076
-017EEA	5077
-017EED	5078
-018F69	5079
-0155A7	507A
-015BA3	507B
-0160AC	507C
-0165CB	507D
-017384	507E
-019009	5121
-017663	5122
-017729	5123
-017EDA	5124
-019774	5125
-01859B	5126
-015B66	5127
-017A74	5128
-0196EA	5129
-018840	512A
-0152CB	512B
-01718F	512C
-015FAA	512D
-0165EC	512E
-018BE2	512F
-015BFB	5130
-019A6F	5131
-015DE1	5132
-016B89	5133
-016C5B	5134
-018BAD	5135
-018BAF	5136
-01900A	5137
-018FC5	5138
-01538B	5139
-0162BC	513A
-019E26	513B
-019E2D	513C
-015440	513D
-014E2B	513E
-0182BD	513F
-017259	5140
-01869C	5141
-015D16	5142
-018859	5143
-016DAF	5144
-0196C5	5145
-0154D1	5146
-014E9A	5147
-018BB6	5148
-017109	5149
-0154BD	514A
-019609	514B
-0170DF	514C
-016DF9	514D
-0176D0	514E
-014E25	514F
-017814	5150
-018712	5151
-015CA9	5152
-015EF6	5153
-018A00	5154
-01989C	5155
-01960E	5156
-01708E	5157
-016CBF	5158
-015944	5159
-0163A9	515A
-01773C	515B
-01884D	515C
-016F14	515D
-018273	515E
-015830	515F
-0171D5	5160
-01538C	5161
-01781A	5162
-0196C1	5163
-015501	5164
-015F66	5165
-017130	5166
-015BB4	5167
-018C1A	5168
-019A8C	5169
-016B83	516A
-01592E	516B
-019E2F	516C
-0179E7	516D
-016768	516E
-01626C	516F
-014F6F	5170
-0175A1	5171
-017F8A	5172
-016D0B	5173
-019633	5174
-016C27	5175
-014EF0	5176
-0175D2	5177
-01517B	5178
-016837	5179
-016F3E	517A
-019080	517B
-018170	517C
-015996	517D
-017476	517E
-016447	5221
-015C27	5222
-019065	5223
-017A91	5224
-018C23	5225
-0159DA	5226
-0154AC	5227
-018200	5228
-01836F	5229
-018981	522A
-018000	522B
-016930	522C
-01564E	522D
-018036	522E
-017237	522F
-0191CE	5230
-0151B6	5231
-014E5F	5232
-019875	5233
-016396	5234
-014E1A	5235
-0153F6	5236
-0166F3	5237
-01814B	5238
-01591C	5239
-016DB2	523A
-014E00	523B
-0158F9	523C
-01533B	523D
-0163D6	523E
-0194F1	523F
-014F9D	5240
-014F0A	5241
-018863	5242
-019890	5243
-015937	5244
-019057	5245
-0179FB	5246
-014EEA	5247
-0180F0	5248
-017591	5249
-016C82	524A
-015B9C	524B
-0159E8	524C
-015F5D	524D
-016905	524E
-018681	524F
-01501A	5250
-015DF2	5251
-014E59	5252
-0177E3	5253
-014EE5	5254
-01827A	5255
-016291	5256
-016613	5257
-019091	5258
-015C79	5259
-014EBF	525A
-015F79	525B
-0181C6	525C
-019038	525D
-018084	525E
-0175AB	525F
-014EA6	5260
-0188D4	5261
-01610F	5262
-016BC5	5263
-015FC6	5264
-014E49	5265
-0176CA	5266
-016EA2	5267
-018BE3	5268
-018BAE	5269
-018C0A	526A
-018BD1	526B
-015F02	526C
-017FFC	526D
-017FCC	526E
-017ECE	526F
-018335	5270
-01836B	5271
-0156E0	5272
-016BB7	5273
-0197F3	5274
-019634	5275
-0159FB	5276
-01541F	5277
-0194F6	5278
-016DEB	5279
-015BC5	527A
-01996E	527B
-015C39	527C
-015F15	527D
-019690	527E
-015370	5321
-0182F1	5322
-016A31	5323
-015A74	5324
-019E70	5325
-015E94	5326
-017F28	5327
-0183B9	5328
-018424	5329
-018425	532A
-018367	532B
-018747	532C
-018FCE	532D
-018D62	532E
-0176C8	532F
-015F71	5330
-019896	5331
-01786C	5332
-016620	5333
-0154DF	5334
-0162E5	5335
-014F63	5336
-0181C3	5337
-0175C8	5338
-015EB8	5339
-0196CD	533A
-018E0A	533B
-0186F9	533C
-01548F	533D
-016CF3	533E
-016D8C	533F
-016C38	5340
-01607F	5341
-0152C7	5342
-017528	5343
-015E7D	5344
-014F18	5345
-0160A0	5346
-015FE7	5347
-015C24	5348
-017531	5349
-0190AE	534A
-0194C0	534B
-0172B9	534C
-016CB9	534D
-016E38	534E
-019149	534F
-016709	5350
-0153CB	5351
-0153F3	5352
-014F51	5353
-0191C9	5354
-018BF1	5355
-0153C8	5356
-015E7C	5357
-018FC2	5358
-016DE4	5359
-014E8E	535A
-0176C2	535B
-016986	535C
-01865E	535D
-01611A	535E
-018206	535F
-014F59	5360
-014FDE	5361
-01903E	5362
-019C7C	5363
-016109	5364
-016E1D	5365
-016E14	5366
-019685	5367
-014E88	5368
-015A31	5369
-0196E8	536A
-014E0E	536B
-015C7F	536C
-0179B9	536D
-015B87	536E
-018BED	536F
-017FBD	5370
-017389	5371
-0157DF	5372
-01828B	5373
-0190C1	5374
-015401	5375
-019047	5376
-0155BB	5377
-015CEA	5378
-015FA1	5379
-016108	537A
-016B32	537B
-0172F1	537C
-0180B2	537D
-018A89	537E
-016D74	5421
-015BD3	5422
-0188D5	5423
-019884	5424
-018C6B	5425
-019A6D	5426
-019E33	5427
-016E0A	5428
-0151A4	5429
-015143	542A
-0157A3	542B
-018881	542C
-01539F	542D
-0163F4	542E
-018F95	542F
-0156ED	5430
-015458	5431
-015706	5432
-01733F	5433
-016E90	5434
-017F18	5435
-018FDC	5436
-0182D1	5437
-01613F	5438
-016028	5439
-019662	543A
-0166F0	543B
-017EA6	543C
-018D8A	543D
-018DC3	543E
-0194A5	543F
-015CB3	5440
-017CA4	5441
-016708	5442
-0160A6	5443
-019605	5444
-018018	5445
-014E91	5446
-0190E7	5447
-015300	5448
-019668	5449
-015141	544A
-018FD0	544B
-018574	544C
-01915D	544D
-016655	544E
-0197F5	544F
-015B55	5450
-01531D	5451
-017838	5452
-016742	5453
-01683D	5454
-0154C9	5455
-01707E	5456
-015BB0	5457
-018F7D	5458
-01518D	5459
-015728	545A
-0154B1	545B
-016512	545C
-016682	545D
-018D5E	545E
-018D43	545F
-01810F	5460
-01846C	5461
-01906D	5462
-017CDF	5463
-0151FF	5464
-0185FB	5465
-0167A3	5466
-0165E9	5467
-016FA1	5468
-0186A4	5469
-018E81	546A
-01566A	546B
-019020	546C
-017682	546D
-017076	546E
-0171E5	546F
-018D23	5470
-0162E9	5471
-015219	5472
-016CFD	5473
-018D3C	5474
-01600E	5475
-01589E	5476
-01618E	5477
-0166FE	5478
-018D60	5479
-01624E	547A
-0155B3	547B
-016E23	547C
-01672D	547D
-018F67	547E
-0194E1	5521
-0195F8	5522
-017728	5523
-016805	5524
-0169A8	5525
-01548B	5526
-014E4D	5527
-0170B8	5528
-018BC8	5529
-016458	552A
-01658B	552B
-015B85	552C
-017A84	552D
-01503A	552E
-015BE8	552F
-0177BB	5530
-016BE1	5531
-018A79	5532
-017C98	5533
-016CBE	5534
-0176CF	5535
-0165A9	5536
-018F97	5537
-015D2D	5538
-015C55	5539
-018638	553A
-016808	553B
-015360	553C
-016218	553D
-017AD9	553E
-016E5B	553F
-017EFD	5540
-016A1F	5541
-017AE0	5542
-015F70	5543
-016F33	5544
-015F20	5545
-01638C	5546
-016DA8	5547
-016756	5548
-014E08	5549
-015E10	554A
-018D26	554B
-014ED7	554C
-0180C0	554D
-017634	554E
-01969C	554F
-0162DB	5550
-01662D	5551
-01627E	5552
-016CBC	5553
-018D75	5554
-017167	5555
-017F69	5556
-015146	5557
-018087	5558
-0153EC	5559
-01906E	555A
-016298	555B
-0154F2	555C
-0186F0	555D
-018F99	555E
-018005	555F
-019517	5560
-018517	5561
-018FD9	5562
-016D59	5563
-0173CD	5564
-01659F	5565
-01771F	5566
-017504	5567
-017827	5568
-0181FB	5569
-018D1E	556A
-019488	556B
-014FA6	556C
-016795	556D
-0175B9	556E
-018BCA	556F
-019707	5570
-01632F	5571
-019547	5572
-019635	5573
-0184B8	5574
-016323	5575
-017741	5576
-015F81	5577
-0172F0	5578
-014E89	5579
-016014	557A
-016574	557B
-0162EF	557C
-016B63	557D
-01653F	557E
-015E27	5621
-0175C7	5622
-0190D1	5623
-018BC1	5624
-01829D	5625
-01679D	5626
-01652F	5627
-015431	5628
-018718	5629
-0177E5	562A
-0180A2	562B
-018102	562C
-016C41	562D
-014E4B	562E
-017EC7	562F
-01804C	5630
-0176F4	5631
-01690D	5632
-016B96	5633
-016267	5634
-01503C	5635
-014F84	5636
-015740	5637
-016307	5638
-016B62	5639
-018DBE	563A
-0153EA	563B
-0165E8	563C
-017EB8	563D
-015FD7	563E
-01631A	563F
-0163B7	5640
-0181F3	5641
-0181F4	5642
-017F6E	5643
-015E1C	5644
-015CD9	5645
-015236	5646
-01667A	5647
-0179E9	5648
-017A1A	5649
-018D28	564A
-017099	564B
-0175D4	564C
-016EDE	564D
-016CBB	564E
-017A92	564F
-014E2D	5650
-0176C5	5651
-015FE0	5652
-01949F	5653
-018877	5654
-017EC8	5655
-0179CD	5656
-0180BF	5657
-0191CD	5658
-014EF2	5659
-014F17	565A
-01821F	565B
-015468	565C
-015DDE	565D
-016D32	565E
-018BCC	565F
-017CA5	5660
-018F74	5661
-018098	5662
-015E1A	5663
-015492	5664
-0176B1	5665
-015B99	5666
-01663C	5667
-019AA4	5668
-0173E0	5669
-01682A	566A
-0186DB	566B
-016731	566C
-01732A	566D
-018BF8	566E
-018BDB	566F
-019010	5670
-017AF9	5671
-0170DB	5672
-01716E	5673
-0162C4	5674
-0177A9	5675
-015631	5676
-014E3B	5677
-018457	5678
-0167F1	5679
-0152A9	567A
-0186C0	567B
-018D2E	567C
-0194F8	567D
-017B51	567E
-014F4F	5721
-016CE8	5722
-01795D	5723
-019A7B	5724
-016293	5725
-01722A	5726
-0162FD	5727
-014E13	5728
-017816	5729
-018F6C	572A
-0164B0	572B
-018D5A	572C
-017BC6	572D
-016869	572E
-015E84	572F
-0188C5	5730
-015986	5731
-01649E	5732
-0158EE	5733
-0172B6	5734
-01690E	5735
-019525	5736
-018FFD	5737
-018D58	5738
-015760	5739
-017F00	573A
-018C06	573B
-0151C6	573C
-016349	573D
-0162D9	573E
-015353	573F
-01684C	5740
-017422	5741
-018301	5742
-01914C	5743
-015544	5744
-017740	5745
-01707C	5746
-016D4A	5747
-015179	5748
-0154A8	5749
-018D44	574A
-0159FF	574B
-016ECB	574C
-016DC4	574D
-015B5C	574E
-017D2B	574F
-014ED4	5750
-017C7D	5751
-016ED3	5752
-015B50	5753
-0181EA	5754
-016E0D	5755
-015B57	5756
-019B03	5757
-0168D5	5758
-018E2A	5759
-015B97	575A
-017EFC	575B
-01603B	575C
-017EB5	575D
-0190B9	575E
-018D70	575F
-01594F	5760
-0163CD	5761
-0179DF	5762
-018DB3	5763
-015352	5764
-0165CF	5765
-017956	5766
-018BC5	5767
-01963B	5768
-017EC4	5769
-0194BB	576A
-017E82	576B
-015634	576C
-019189	576D
-016700	576E
-017F6A	576F
-015C0A	5770
-019075	5771
-016628	5772
-015DE6	5773
-014F50	5774
-0167DE	5775
-01505A	5776
-014F5C	5777
-015750	5778
-015EA7	5779
-014E8D	5821
-014E0C	5822
-015140	5823
-014E10	5824
-015EFF	5825
-015345	5826
-014E15	5827
-014E98	5828
-014E1E	5829
-019B32	582A
-015B6C	582B
-015669	582C
-014E28	582D
-0179BA	582E
-014E3F	582F
-015315	5830
-014E47	5831
-01592D	5832
-01723B	5833
-01536E	5834
-016C10	5835
-0156DF	5836
-0180E4	5837
-019997	5838
-016BD3	5839
-01777E	583A
-019F17	583B
-014E36	583C
-014E9F	583D
-019F10	583E
-014E5C	583F
-014E69	5840
-014E93	5841
-018288	5842
-015B5B	5843
-01556C	5844
-01560F	5845
-014EC4	5846
-01538D	5847
-01539D	5848
-0153A3	5849
-0153A5	584A
-0153AE	584B
-019765	584C
-018D5D	584D
-01531A	584E
-0153F5	584F
-015326	5850
-01532E	5851
-01533E	5852
-018D5C	5853
-015366	5854
-015363	5855
-015202	5856
-015208	5857
-01520E	5858
-01522D	5859
-015233	585A
-01523F	585B
-015240	585C
-01524C	585D
-01525E	585E
-015261	585F
-01525C	5860
-0184AF	5861
-01527D	5862
-015282	5863
-015281	5864
-015290	5865
-015293	5866
-015182	5867
-017F54	5868
-014EBB	5869
-014EC3	586A
-014EC9	586B
-014EC2	586C
-014EE8	586D
-014EE1	586E
-014EEB	586F
-014EDE	5870
-014F1B	5871
-014EF3	5872
-014F22	5873
-014F64	5874
-014EF5	5875
-014F25	5876
-014F27	5877
-014F09	5878
-014F2B	5879
-014F5E	587A
-014F67	587B
-016538	587C
-014F5A	587D
-014F5D	587E
-014F5F	5921
-014F57	5922
-014F32	5923
-014F3D	5924
-014F76	5925
-014F74	5926
-014F91	5927
-014F89	5928
-014F83	5929
-014F8F	592A
-014F7E	592B
-014F7B	592C
-014FAA	592D
-014F7C	592E
-014FAC	592F
-014F94	5930
-014FE6	5931
-014FE8	5932
-014FEA	5933
-014FC5	5934
-014FDA	5935
-014FE3	5936
-014FDC	5937
-014FD1	5938
-014FDF	5939
-014FF8	593A
-015029	593B
-01504C	593C
-014FF3	593D
-01502C	593E
-01500F	593F
-01502E	5940
-01502D	5941
-014FFE	5942
-01501C	5943
-01500C	5944
-015025	5945
-015028	5946
-01507E	5947
-015043	5948
-015055	5949
-015048	594A
-01504E	594B
-01506C	594C
-01507B	594D
-0150A5	594E
-0150A7	594F
-0150A9	5950
-0150BA	5951
-0150D6	5952
-015106	5953
-0150ED	5954
-0150EC	5955
-0150E6	5956
-0150EE	5957
-015107	5958
-01510B	5959
-014EDD	595A
-016C3D	595B
-014F58	595C
-014F65	595D
-014FCE	595E
-019FA0	595F
-016C46	5960
-017C74	5961
-01516E	5962
-015DFD	5963
-019EC9	5964
-019998	5965
-015181	5966
-015914	5967
-0152F9	5968
-01530D	5969
-018A07	596A
-015310	596B
-0151EB	596C
-015919	596D
-015155	596E
-014EA0	596F
-015156	5970
-014EB3	5971
-01886E	5972
-0188A4	5973
-014EB5	5974
-018114	5975
-0188D2	5976
-017980	5977
-015B34	5978
-018803	5979
-017FB8	597A
-0151AB	597B
-0151B1	597C
-0151BD	597D
-0151BC	597E
-0151C7	5A21
-015196	5A22
-0151A2	5A23
-0151A5	5A24
-018BA0	5A25
-018BA6	5A26
-018BA7	5A27
-018BAA	5A28
-018BB4	5A29
-018BB5	5A2A
-018BB7	5A2B
-018BC2	5A2C
-018BC3	5A2D
-018BCB	5A2E
-018BCF	5A2F
-018BCE	5A30
-018BD2	5A31
-018BD3	5A32
-018BD4	5A33
-018BD6	5A34
-018BD8	5A35
-018BD9	5A36
-018BDC	5A37
-018BDF	5A38
-018BE0	5A39
-018BE4	5A3A
-018BE8	5A3B
-018BE9	5A3C
-018BEE	5A3D
-018BF0	5A3E
-018BF3	5A3F
-018BF6	5A40
-018BF9	5A41
-018BFC	5A42
-018BFF	5A43
-018C00	5A44
-018C02	5A45
-018C04	5A46
-018C07	5A47
-018C0C	5A48
-018C0F	5A49
-018C11	5A4A
-018C12	5A4B
-018C14	5A4C
-018C15	5A4D
-018C16	5A4E
-018C19	5A4F
-018C1B	5A50
-018C18	5A51
-018C1D	5A52
-018C1F	5A53
-018C20	5A54
-018C21	5A55
-018C25	5A56
-018C27	5A57
-018C2A	5A58
-018C2B	5A59
-018C2E	5A5A
-018C2F	5A5B
-018C32	5A5C
-018C33	5A5D
-018C35	5A5E
-018C36	5A5F
-015369	5A60
-01537A	5A61
-01961D	5A62
-019622	5A63
-019621	5A64
-019631	5A65
-01962A	5A66
-01963D	5A67
-01963C	5A68
-019642	5A69
-019649	5A6A
-019654	5A6B
-01965F	5A6C
-019667	5A6D
-01966C	5A6E
-019672	5A6F
-019674	5A70
-019688	5A71
-01968D	5A72
-019697	5A73
-0196B0	5A74
-019097	5A75
-01909B	5A76
-01909D	5A77
-019099	5A78
-0190AC	5A79
-0190A1	5A7A
-0190B4	5A7B
-0190B3	5A7C
-0190B6	5A7D
-0190BA	5A7E
-0190B8	5B21
-0190B0	5B22
-0190CF	5B23
-0190C5	5B24
-0190BE	5B25
-0190D0	5B26
-0190C4	5B27
-0190C7	5B28
-0190D3	5B29
-0190E6	5B2A
-0190E2	5B2B
-0190DC	5B2C
-0190D7	5B2D
-0190DB	5B2E
-0190EB	5B2F
-0190EF	5B30
-0190FE	5B31
-019104	5B32
-019122	5B33
-01911E	5B34
-019123	5B35
-019131	5B36
-01912F	5B37
-019139	5B38
-019143	5B39
-019146	5B3A
-01520D	5B3B
-015942	5B3C
-0152A2	5B3D
-0152AC	5B3E
-0152AD	5B3F
-0152BE	5B40
-0154FF	5B41
-0152D0	5B42
-0152D6	5B43
-0152F0	5B44
-0153DF	5B45
-0171EE	5B46
-0177CD	5B47
-015EF4	5B48
-0151F5	5B49
-0151FC	5B4A
-019B2F	5B4B
-0153B6	5B4C
-015F01	5B4D
-01755A	5B4E
-015DEF	5B4F
-01574C	5B50
-0157A9	5B51
-0157A1	5B52
-01587E	5B53
-0158BC	5B54
-0158C5	5B55
-0158D1	5B56
-015729	5B57
-01572C	5B58
-01572A	5B59
-015733	5B5A
-015739	5B5B
-01572E	5B5C
-01572F	5B5D
-01575C	5B5E
-01573B	5B5F
-015742	5B60
-015769	5B61
-015785	5B62
-01576B	5B63
-015786	5B64
-01577C	5B65
-01577B	5B66
-015768	5B67
-01576D	5B68
-015776	5B69
-015773	5B6A
-0157AD	5B6B
-0157A4	5B6C
-01578C	5B6D
-0157B2	5B6E
-0157CF	5B6F
-0157A7	5B70
-0157B4	5B71
-015793	5B72
-0157A0	5B73
-0157D5	5B74
-0157D8	5B75
-0157DA	5B76
-0157D9	5B77
-0157D2	5B78
-0157B8	5B79
-0157F4	5B7A
-0157EF	5B7B
-0157F8	5B7C
-0157E4	5B7D
-0157DD	5B7E
-01580B	5C21
-01580D	5C22
-0157FD	5C23
-0157ED	5C24
-015800	5C25
-01581E	5C26
-015819	5C27
-015844	5C28
-015820	5C29
-015865	5C2A
-01586C	5C2B
-015881	5C2C
-015889	5C2D
-01589A	5C2E
-015880	5C2F
-0199A8	5C30
-019F19	5C31
-0161FF	5C32
-018279	5C33
-01827D	5C34
-01827F	5C35
-01828F	5C36
-01828A	5C37
-0182A8	5C38
-018284	5C39
-01828E	5C3A
-018291	5C3B
-018297	5C3C
-018299	5C3D
-0182AB	5C3E
-0182B8	5C3F
-0182BE	5C40
-0182B0	5C41
-0182C8	5C42
-0182CA	5C43
-0182E3	5C44
-018298	5C45
-0182B7	5C46
-0182AE	5C47
-0182CB	5C48
-0182CC	5C49
-0182C1	5C4A
-0182A9	5C4B
-0182B4	5C4C
-0182A1	5C4D
-0182AA	5C4E
-01829F	5C4F
-0182C4	5C50
-0182CE	5C51
-0182A4	5C52
-0182E1	5C53
-018309	5C54
-0182F7	5C55
-0182E4	5C56
-01830F	5C57
-018307	5C58
-0182DC	5C59
-0182F4	5C5A
-0182D2	5C5B
-0182D8	5C5C
-01830C	5C5D
-0182FB	5C5E
-0182D3	5C5F
-018311	5C60
-01831A	5C61
-018306	5C62
-018314	5C63
-018315	5C64
-0182E0	5C65
-0182D5	5C66
-01831C	5C67
-018351	5C68
-01835B	5C69
-01835C	5C6A
-018308	5C6B
-018392	5C6C
-01833C	5C6D
-018334	5C6E
-018331	5C6F
-01839B	5C70
-01835E	5C71
-01832F	5C72
-01834F	5C73
-018347	5C74
-018343	5C75
-01835F	5C76
-018340	5C77
-018317	5C78
-018360	5C79
-01832D	5C7A
-01833A	5C7B
-018333	5C7C
-018366	5C7D
-018365	5C7E
-018368	5D21
-01831B	5D22
-018369	5D23
-01836C	5D24
-01836A	5D25
-01836D	5D26
-01836E	5D27
-0183B0	5D28
-018378	5D29
-0183B3	5D2A
-0183B4	5D2B
-0183A0	5D2C
-0183AA	5D2D
-018393	5D2E
-01839C	5D2F
-018385	5D30
-01837C	5D31
-0183B6	5D32
-0183A9	5D33
-01837D	5D34
-0183B8	5D35
-01837B	5D36
-018398	5D37
-01839E	5D38
-0183A8	5D39
-0183BA	5D3A
-0183BC	5D3B
-0183C1	5D3C
-018401	5D3D
-0183E5	5D3E
-0183D8	5D3F
-015807	5D40
-018418	5D41
-01840B	5D42
-0183DD	5D43
-0183FD	5D44
-0183D6	5D45
-01841C	5D46
-018438	5D47
-018411	5D48
-018406	5D49
-0183D4	5D4A
-0183DF	5D4B
-01840F	5D4C
-018403	5D4D
-0183F8	5D4E
-0183F9	5D4F
-0183EA	5D50
-0183C5	5D51
-0183C0	5D52
-018426	5D53
-0183F0	5D54
-0183E1	5D55
-01845C	5D56
-018451	5D57
-01845A	5D58
-018459	5D59
-018473	5D5A
-018487	5D5B
-018488	5D5C
-01847A	5D5D
-018489	5D5E
-018478	5D5F
-01843C	5D60
-018446	5D61
-018469	5D62
-018476	5D63
-01848C	5D64
-01848E	5D65
-018431	5D66
-01846D	5D67
-0184C1	5D68
-0184CD	5D69
-0184D0	5D6A
-0184E6	5D6B
-0184BD	5D6C
-0184D3	5D6D
-0184CA	5D6E
-0184BF	5D6F
-0184BA	5D70
-0184E0	5D71
-0184A1	5D72
-0184B9	5D73
-0184B4	5D74
-018497	5D75
-0184E5	5D76
-0184E3	5D77
-01850C	5D78
-01750D	5D79
-018538	5D7A
-0184F0	5D7B
-018539	5D7C
-01851F	5D7D
-01853A	5D7E
-018556	5E21
-01853B	5E22
-0184FF	5E23
-0184FC	5E24
-018559	5E25
-018548	5E26
-018568	5E27
-018564	5E28
-01855E	5E29
-01857A	5E2A
-0177A2	5E2B
-018543	5E2C
-018572	5E2D
-01857B	5E2E
-0185A4	5E2F
-0185A8	5E30
-018587	5E31
-01858F	5E32
-018579	5E33
-0185AE	5E34
-01859C	5E35
-018585	5E36
-0185B9	5E37
-0185B7	5E38
-0185B0	5E39
-0185D3	5E3A
-0185C1	5E3B
-0185DC	5E3C
-0185FF	5E3D
-018627	5E3E
-018605	5E3F
-018629	5E40
-018616	5E41
-01863C	5E42
-015EFE	5E43
-015F08	5E44
-01593C	5E45
-015941	5E46
-018037	5E47
-015955	5E48
-01595A	5E49
-015958	5E4A
-01530F	5E4B
-015C22	5E4C
-015C25	5E4D
-015C2C	5E4E
-015C34	5E4F
-01624C	5E50
-01626A	5E51
-01629F	5E52
-0162BB	5E53
-0162CA	5E54
-0162DA	5E55
-0162D7	5E56
-0162EE	5E57
-016322	5E58
-0162F6	5E59
-016339	5E5A
-01634B	5E5B
-016343	5E5C
-0163AD	5E5D
-0163F6	5E5E
-016371	5E5F
-01637A	5E60
-01638E	5E61
-0163B4	5E62
-01636D	5E63
-0163AC	5E64
-01638A	5E65
-016369	5E66
-0163AE	5E67
-0163BC	5E68
-0163F2	5E69
-0163F8	5E6A
-0163E0	5E6B
-0163FF	5E6C
-0163C4	5E6D
-0163DE	5E6E
-0163CE	5E6F
-016452	5E70
-0163C6	5E71
-0163BE	5E72
-016445	5E73
-016441	5E74
-01640B	5E75
-01641B	5E76
-016420	5E77
-01640C	5E78
-016426	5E79
-016421	5E7A
-01645E	5E7B
-016484	5E7C
-01646D	5E7D
-016496	5E7E
-01647A	5F21
-0164B7	5F22
-0164B8	5F23
-016499	5F24
-0164BA	5F25
-0164C0	5F26
-0164D0	5F27
-0164D7	5F28
-0164E4	5F29
-0164E2	5F2A
-016509	5F2B
-016525	5F2C
-01652E	5F2D
-015F0B	5F2E
-015FD2	5F2F
-017519	5F30
-015F11	5F31
-01535F	5F32
-0153F1	5F33
-0153FD	5F34
-0153E9	5F35
-0153E8	5F36
-0153FB	5F37
-015412	5F38
-015416	5F39
-015406	5F3A
-01544B	5F3B
-015452	5F3C
-015453	5F3D
-015454	5F3E
-015456	5F3F
-015443	5F40
-015421	5F41
-015457	5F42
-015459	5F43
-015423	5F44
-015432	5F45
-015482	5F46
-015494	5F47
-015477	5F48
-015471	5F49
-015464	5F4A
-01549A	5F4B
-01549B	5F4C
-015484	5F4D
-015476	5F4E
-015466	5F4F
-01549D	5F50
-0154D0	5F51
-0154AD	5F52
-0154C2	5F53
-0154B4	5F54
-0154D2	5F55
-0154A7	5F56
-0154A6	5F57
-0154D3	5F58
-0154D4	5F59
-015472	5F5A
-0154A3	5F5B
-0154D5	5F5C
-0154BB	5F5D
-0154BF	5F5E
-0154CC	5F5F
-0154D9	5F60
-0154DA	5F61
-0154DC	5F62
-0154A9	5F63
-0154AA	5F64
-0154A4	5F65
-0154DD	5F66
-0154CF	5F67
-0154DE	5F68
-01551B	5F69
-0154E7	5F6A
-015520	5F6B
-0154FD	5F6C
-015514	5F6D
-0154F3	5F6E
-015522	5F6F
-015523	5F70
-01550F	5F71
-015511	5F72
-015527	5F73
-01552A	5F74
-015567	5F75
-01558F	5F76
-0155B5	5F77
-015549	5F78
-01556D	5F79
-015541	5F7A
-015555	5F7B
-01553F	5F7C
-015550	5F7D
-01553C	5F7E
-015537	6021
-015556	6022
-015575	6023
-015576	6024
-015577	6025
-015533	6026
-015530	6027
-01555C	6028
-01558B	6029
-0155D2	602A
-015583	602B
-0155B1	602C
-0155B9	602D
-015588	602E
-015581	602F
-01559F	6030
-01557E	6031
-0155D6	6032
-015591	6033
-01557B	6034
-0155DF	6035
-0155BD	6036
-0155BE	6037
-015594	6038
-015599	6039
-0155EA	603A
-0155F7	603B
-0155C9	603C
-01561F	603D
-0155D1	603E
-0155EB	603F
-0155EC	6040
-0155D4	6041
-0155E6	6042
-0155DD	6043
-0155C4	6044
-0155EF	6045
-0155E5	6046
-0155F2	6047
-0155F3	6048
-0155CC	6049
-0155CD	604A
-0155E8	604B
-0155F5	604C
-0155E4	604D
-018F94	604E
-01561E	604F
-015608	6050
-01560C	6051
-015601	6052
-015624	6053
-015623	6054
-0155FE	6055
-015600	6056
-015627	6057
-01562D	6058
-015658	6059
-015639	605A
-015657	605B
-01562C	605C
-01564D	605D
-015662	605E
-015659	605F
-01565C	6060
-01564C	6061
-015654	6062
-015686	6063
-015664	6064
-015671	6065
-01566B	6066
-01567B	6067
-01567C	6068
-015685	6069
-015693	606A
-0156AF	606B
-0156D4	606C
-0156D7	606D
-0156DD	606E
-0156E1	606F
-0156F5	6070
-0156EB	6071
-0156F9	6072
-0156FF	6073
-015704	6074
-01570A	6075
-015709	6076
-01571C	6077
-015E0F	6078
-015E19	6079
-015E14	607A
-015E11	607B
-015E31	607C
-015E3B	607D
-015E3C	607E
-015E37	6121
-015E44	6122
-015E54	6123
-015E5B	6124
-015E5E	6125
-015E61	6126
-015C8C	6127
-015C7A	6128
-015C8D	6129
-015C90	612A
-015C96	612B
-015C88	612C
-015C98	612D
-015C99	612E
-015C91	612F
-015C9A	6130
-015C9C	6131
-015CB5	6132
-015CA2	6133
-015CBD	6134
-015CAC	6135
-015CAB	6136
-015CB1	6137
-015CA3	6138
-015CC1	6139
-015CB7	613A
-015CC4	613B
-015CD2	613C
-015CE4	613D
-015CCB	613E
-015CE5	613F
-015D02	6140
-015D03	6141
-015D27	6142
-015D26	6143
-015D2E	6144
-015D24	6145
-015D1E	6146
-015D06	6147
-015D1B	6148
-015D58	6149
-015D3E	614A
-015D34	614B
-015D3D	614C
-015D6C	614D
-015D5B	614E
-015D6F	614F
-015D5D	6150
-015D6B	6151
-015D4B	6152
-015D4A	6153
-015D69	6154
-015D74	6155
-015D82	6156
-015D99	6157
-015D9D	6158
-018C73	6159
-015DB7	615A
-015DC5	615B
-015F73	615C
-015F77	615D
-015F82	615E
-015F87	615F
-015F89	6160
-015F8C	6161
-015F95	6162
-015F99	6163
-015F9C	6164
-015FA8	6165
-015FAD	6166
-015FB5	6167
-015FBC	6168
-018862	6169
-015F61	616A
-0172AD	616B
-0172B0	616C
-0172B4	616D
-0172B7	616E
-0172B8	616F
-0172C3	6170
-0172C1	6171
-0172CE	6172
-0172CD	6173
-0172D2	6174
-0172E8	6175
-0172EF	6176
-0172E9	6177
-0172F2	6178
-0172F4	6179
-0172F7	617A
-017301	617B
-0172F3	617C
-017303	617D
-0172FA	617E
-0172FB	6221
-017317	6222
-017313	6223
-017321	6224
-01730A	6225
-01731E	6226
-01731D	6227
-017315	6228
-017322	6229
-017339	622A
-017325	622B
-01732C	622C
-017338	622D
-017331	622E
-017350	622F
-01734D	6230
-017357	6231
-017360	6232
-01736C	6233
-01736F	6234
-01737E	6235
-01821B	6236
-015925	6237
-0198E7	6238
-015924	6239
-015902	623A
-019963	623B
-019967	623C
-019968	623D
-019969	623E
-01996A	623F
-01996B	6240
-01996C	6241
-019974	6242
-019977	6243
-01997D	6244
-019980	6245
-019984	6246
-019987	6247
-01998A	6248
-01998D	6249
-019990	624A
-019991	624B
-019993	624C
-019994	624D
-019995	624E
-015E80	624F
-015E91	6250
-015E8B	6251
-015E96	6252
-015EA5	6253
-015EA0	6254
-015EB9	6255
-015EB5	6256
-015EBE	6257
-015EB3	6258
-018D53	6259
-015ED2	625A
-015ED1	625B
-015EDB	625C
-015EE8	625D
-015EEA	625E
-0181BA	625F
-015FC4	6260
-015FC9	6261
-015FD6	6262
-015FCF	6263
-016003	6264
-015FEE	6265
-016004	6266
-015FE1	6267
-015FE4	6268
-015FFE	6269
-016005	626A
-016006	626B
-015FEA	626C
-015FED	626D
-015FF8	626E
-016019	626F
-016035	6270
-016026	6271
-01601B	6272
-01600F	6273
-01600D	6274
-016029	6275
-01602B	6276
-01600A	6277
-01603F	6278
-016021	6279
-016078	627A
-016079	627B
-01607B	627C
-01607A	627D
-016042	627E
-01606A	6321
-01607D	6322
-016096	6323
-01609A	6324
-0160AD	6325
-01609D	6326
-016083	6327
-016092	6328
-01608C	6329
-01609B	632A
-0160EC	632B
-0160BB	632C
-0160B1	632D
-0160DD	632E
-0160D8	632F
-0160C6	6330
-0160DA	6331
-0160B4	6332
-016120	6333
-016126	6334
-016115	6335
-016123	6336
-0160F4	6337
-016100	6338
-01610E	6339
-01612B	633A
-01614A	633B
-016175	633C
-0161AC	633D
-016194	633E
-0161A7	633F
-0161B7	6340
-0161D4	6341
-0161F5	6342
-015FDD	6343
-0196B3	6344
-0195E9	6345
-0195EB	6346
-0195F1	6347
-0195F3	6348
-0195F5	6349
-0195F6	634A
-0195FC	634B
-0195FE	634C
-019603	634D
-019604	634E
-019606	634F
-019608	6350
-01960A	6351
-01960B	6352
-01960C	6353
-01960D	6354
-01960F	6355
-019612	6356
-019615	6357
-019616	6358
-019617	6359
-019619	635A
-01961A	635B
-014E2C	635C
-01723F	635D
-016215	635E
-016C35	635F
-016C54	6360
-016C5C	6361
-016C4A	6362
-016CA3	6363
-016C85	6364
-016C90	6365
-016C94	6366
-016C8C	6367
-016C68	6368
-016C69	6369
-016C74	636A
-016C76	636B
-016C86	636C
-016CA9	636D
-016CD0	636E
-016CD4	636F
-016CAD	6370
-016CF7	6371
-016CF8	6372
-016CF1	6373
-016CD7	6374
-016CB2	6375
-016CE0	6376
-016CD6	6377
-016CFA	6378
-016CEB	6379
-016CEE	637A
-016CB1	637B
-016CD3	637C
-016CEF	637D
-016CFE	637E
-016D39	6421
-016D27	6422
-016D0C	6423
-016D43	6424
-016D48	6425
-016D07	6426
-016D04	6427
-016D19	6428
-016D0E	6429
-016D2B	642A
-016D4D	642B
-016D2E	642C
-016D35	642D
-016D1A	642E
-016D4F	642F
-016D52	6430
-016D54	6431
-016D33	6432
-016D91	6433
-016D6F	6434
-016D9E	6435
-016DA0	6436
-016D5E	6437
-016D93	6438
-016D94	6439
-016D5C	643A
-016D60	643B
-016D7C	643C
-016D63	643D
-016E1A	643E
-016DC7	643F
-016DC5	6440
-016DDE	6441
-016E0E	6442
-016DBF	6443
-016DE0	6444
-016E11	6445
-016DE6	6446
-016DDD	6447
-016DD9	6448
-016E16	6449
-016DAB	644A
-016E0C	644B
-016DAE	644C
-016E2B	644D
-016E6E	644E
-016E4E	644F
-016E6B	6450
-016EB2	6451
-016E5F	6452
-016E86	6453
-016E53	6454
-016E54	6455
-016E32	6456
-016E25	6457
-016E44	6458
-016EDF	6459
-016EB1	645A
-016E98	645B
-016EE0	645C
-016F2D	645D
-016EE2	645E
-016EA5	645F
-016EA7	6460
-016EBD	6461
-016EBB	6462
-016EB7	6463
-016ED7	6464
-016EB4	6465
-016ECF	6466
-016E8F	6467
-016EC2	6468
-016E9F	6469
-016F62	646A
-016F46	646B
-016F47	646C
-016F24	646D
-016F15	646E
-016EF9	646F
-016F2F	6470
-016F36	6471
-016F4B	6472
-016F74	6473
-016F2A	6474
-016F09	6475
-016F29	6476
-016F89	6477
-016F8D	6478
-016F8C	6479
-016F78	647A
-016F72	647B
-016F7C	647C
-016F7A	647D
-016FD1	647E
-016FC9	6521
-016FA7	6522
-016FB9	6523
-016FB6	6524
-016FC2	6525
-016FE1	6526
-016FEE	6527
-016FDE	6528
-016FE0	6529
-016FEF	652A
-01701A	652B
-017023	652C
-01701B	652D
-017039	652E
-017035	652F
-01704F	6530
-01705E	6531
-015B80	6532
-015B84	6533
-015B95	6534
-015B93	6535
-015BA5	6536
-015BB8	6537
-01752F	6538
-019A9E	6539
-016434	653A
-015BE4	653B
-015BEE	653C
-018930	653D
-015BF0	653E
-018E47	653F
-018B07	6540
-018FB6	6541
-018FD3	6542
-018FD5	6543
-018FE5	6544
-018FEE	6545
-018FE4	6546
-018FE9	6547
-018FE6	6548
-018FF3	6549
-018FE8	654A
-019005	654B
-019004	654C
-01900B	654D
-019026	654E
-019011	654F
-01900D	6550
-019016	6551
-019021	6552
-019035	6553
-019036	6554
-01902D	6555
-01902F	6556
-019044	6557
-019051	6558
-019052	6559
-019050	655A
-019068	655B
-019058	655C
-019062	655D
-01905B	655E
-0166B9	655F
-019074	6560
-01907D	6561
-019082	6562
-019088	6563
-019083	6564
-01908B	6565
-015F50	6566
-015F57	6567
-015F56	6568
-015F58	6569
-015C3B	656A
-0154AB	656B
-015C50	656C
-015C59	656D
-015B71	656E
-015C63	656F
-015C66	6570
-017FBC	6571
-015F2A	6572
-015F29	6573
-015F2D	6574
-018274	6575
-015F3C	6576
-019B3B	6577
-015C6E	6578
-015981	6579
-015983	657A
-01598D	657B
-0159A9	657C
-0159AA	657D
-0159A3	657E
-015997	6621
-0159CA	6622
-0159AB	6623
-01599E	6624
-0159A4	6625
-0159D2	6626
-0159B2	6627
-0159AF	6628
-0159D7	6629
-0159BE	662A
-015A05	662B
-015A06	662C
-0159DD	662D
-015A08	662E
-0159E3	662F
-0159D8	6630
-0159F9	6631
-015A0C	6632
-015A09	6633
-015A32	6634
-015A34	6635
-015A11	6636
-015A23	6637
-015A13	6638
-015A40	6639
-015A67	663A
-015A4A	663B
-015A55	663C
-015A3C	663D
-015A62	663E
-015A75	663F
-0180EC	6640
-015AAA	6641
-015A9B	6642
-015A77	6643
-015A7A	6644
-015ABE	6645
-015AEB	6646
-015AB2	6647
-015AD2	6648
-015AD4	6649
-015AB8	664A
-015AE0	664B
-015AE3	664C
-015AF1	664D
-015AD6	664E
-015AE6	664F
-015AD8	6650
-015ADC	6651
-015B09	6652
-015B17	6653
-015B16	6654
-015B32	6655
-015B37	6656
-015B40	6657
-015C15	6658
-015C1C	6659
-015B5A	665A
-015B65	665B
-015B73	665C
-015B51	665D
-015B53	665E
-015B62	665F
-019A75	6660
-019A77	6661
-019A78	6662
-019A7A	6663
-019A7F	6664
-019A7D	6665
-019A80	6666
-019A81	6667
-019A85	6668
-019A88	6669
-019A8A	666A
-019A90	666B
-019A92	666C
-019A93	666D
-019A96	666E
-019A98	666F
-019A9B	6670
-019A9C	6671
-019A9D	6672
-019A9F	6673
-019AA0	6674
-019AA2	6675
-019AA3	6676
-019AA5	6677
-019AA7	6678
-017E9F	6679
-017EA1	667A
-017EA3	667B
-017EA5	667C
-017EA8	667D
-017EA9	667E
-017EAD	6721
-017EB0	6722
-017EBE	6723
-017EC0	6724
-017EC1	6725
-017EC2	6726
-017EC9	6727
-017ECB	6728
-017ECC	6729
-017ED0	672A
-017ED4	672B
-017ED7	672C
-017EDB	672D
-017EE0	672E
-017EE1	672F
-017EE8	6730
-017EEB	6731
-017EEE	6732
-017EEF	6733
-017EF1	6734
-017EF2	6735
-017F0D	6736
-017EF6	6737
-017EFA	6738
-017EFB	6739
-017EFE	673A
-017F01	673B
-017F02	673C
-017F03	673D
-017F07	673E
-017F08	673F
-017F0B	6740
-017F0C	6741
-017F0F	6742
-017F11	6743
-017F12	6744
-017F17	6745
-017F19	6746
-017F1C	6747
-017F1B	6748
-017F1F	6749
-017F21	674A
-017F22	674B
-017F23	674C
-017F24	674D
-017F25	674E
-017F26	674F
-017F27	6750
-017F2A	6751
-017F2B	6752
-017F2C	6753
-017F2D	6754
-017F2F	6755
-017F30	6756
-017F31	6757
-017F32	6758
-017F33	6759
-017F35	675A
-015E7A	675B
-01757F	675C
-015DDB	675D
-01753E	675E
-019095	675F
-01738E	6760
-017391	6761
-0173AE	6762
-0173A2	6763
-01739F	6764
-0173CF	6765
-0173C2	6766
-0173D1	6767
-0173B7	6768
-0173B3	6769
-0173C0	676A
-0173C9	676B
-0173C8	676C
-0173E5	676D
-0173D9	676E
-01987C	676F
-01740A	6770
-0173E9	6771
-0173E7	6772
-0173DE	6773
-0173BA	6774
-0173F2	6775
-01740F	6776
-01742A	6777
-01745B	6778
-017426	6779
-017425	677A
-017428	677B
-017430	677C
-01742E	677D
-01742C	677E
-01741B	6821
-01741A	6822
-017441	6823
-01745C	6824
-017457	6825
-017455	6826
-017459	6827
-017477	6828
-01746D	6829
-01747E	682A
-01749C	682B
-01748E	682C
-017480	682D
-017481	682E
-017487	682F
-01748B	6830
-01749E	6831
-0174A8	6832
-0174A9	6833
-017490	6834
-0174A7	6835
-0174D2	6836
-0174BA	6837
-0197EA	6838
-0197EB	6839
-0197EC	683A
-01674C	683B
-016753	683C
-01675E	683D
-016748	683E
-016769	683F
-0167A5	6840
-016787	6841
-01676A	6842
-016773	6843
-016798	6844
-0167A7	6845
-016775	6846
-0167A8	6847
-01679E	6848
-0167AD	6849
-01678B	684A
-016777	684B
-01677C	684C
-0167F0	684D
-016809	684E
-0167D8	684F
-01680A	6850
-0167E9	6851
-0167B0	6852
-01680C	6853
-0167D9	6854
-0167B5	6855
-0167DA	6856
-0167B3	6857
-0167DD	6858
-016800	6859
-0167C3	685A
-0167B8	685B
-0167E2	685C
-01680E	685D
-0167C1	685E
-0167FD	685F
-016832	6860
-016833	6861
-016860	6862
-016861	6863
-01684E	6864
-016862	6865
-016844	6866
-016864	6867
-016883	6868
-01681D	6869
-016855	686A
-016866	686B
-016841	686C
-016867	686D
-016840	686E
-01683E	686F
-01684A	6870
-016849	6871
-016829	6872
-0168B5	6873
-01688F	6874
-016874	6875
-016877	6876
-016893	6877
-01686B	6878
-0168C2	6879
-01696E	687A
-0168FC	687B
-01691F	687C
-016920	687D
-0168F9	687E
-016924	6921
-0168F0	6922
-01690B	6923
-016901	6924
-016957	6925
-0168E3	6926
-016910	6927
-016971	6928
-016939	6929
-016960	692A
-016942	692B
-01695D	692C
-016984	692D
-01696B	692E
-016980	692F
-016998	6930
-016978	6931
-016934	6932
-0169CC	6933
-016987	6934
-016988	6935
-0169CE	6936
-016989	6937
-016966	6938
-016963	6939
-016979	693A
-01699B	693B
-0169A7	693C
-0169BB	693D
-0169AB	693E
-0169AD	693F
-0169D4	6940
-0169B1	6941
-0169C1	6942
-0169CA	6943
-0169DF	6944
-016995	6945
-0169E0	6946
-01698D	6947
-0169FF	6948
-016A2F	6949
-0169ED	694A
-016A17	694B
-016A18	694C
-016A65	694D
-0169F2	694E
-016A44	694F
-016A3E	6950
-016AA0	6951
-016A50	6952
-016A5B	6953
-016A35	6954
-016A8E	6955
-016A79	6956
-016A3D	6957
-016A28	6958
-016A58	6959
-016A7C	695A
-016A91	695B
-016A90	695C
-016AA9	695D
-016A97	695E
-016AAB	695F
-017337	6960
-017352	6961
-016B81	6962
-016B82	6963
-016B87	6964
-016B84	6965
-016B92	6966
-016B93	6967
-016B8D	6968
-016B9A	6969
-016B9B	696A
-016BA1	696B
-016BAA	696C
-018F6B	696D
-018F6D	696E
-018F71	696F
-018F72	6970
-018F73	6971
-018F75	6972
-018F76	6973
-018F78	6974
-018F77	6975
-018F79	6976
-018F7A	6977
-018F7C	6978
-018F7E	6979
-018F81	697A
-018F82	697B
-018F84	697C
-018F87	697D
-018F8B	697E
-018F8D	6A21
-018F8E	6A22
-018F8F	6A23
-018F98	6A24
-018F9A	6A25
-018ECE	6A26
-01620B	6A27
-016217	6A28
-01621B	6A29
-01621F	6A2A
-016222	6A2B
-016221	6A2C
-016225	6A2D
-016224	6A2E
-01622C	6A2F
-0181E7	6A30
-0174EF	6A31
-0174F4	6A32
-0174FF	6A33
-01750F	6A34
-017511	6A35
-017513	6A36
-016534	6A37
-0165EE	6A38
-0165EF	6A39
-0165F0	6A3A
-01660A	6A3B
-016619	6A3C
-016772	6A3D
-016603	6A3E
-016615	6A3F
-016600	6A40
-017085	6A41
-0166F7	6A42
-01661D	6A43
-016634	6A44
-016631	6A45
-016636	6A46
-016635	6A47
-018006	6A48
-01665F	6A49
-016654	6A4A
-016641	6A4B
-01664F	6A4C
-016656	6A4D
-016661	6A4E
-016657	6A4F
-016677	6A50
-016684	6A51
-01668C	6A52
-0166A7	6A53
-01669D	6A54
-0166BE	6A55
-0166DB	6A56
-0166DC	6A57
-0166E6	6A58
-0166E9	6A59
-018D32	6A5A
-018D33	6A5B
-018D36	6A5C
-018D3B	6A5D
-018D3D	6A5E
-018D40	6A5F
-018D45	6A60
-018D46	6A61
-018D48	6A62
-018D49	6A63
-018D47	6A64
-018D4D	6A65
-018D55	6A66
-018D59	6A67
-0189C7	6A68
-0189CA	6A69
-0189CB	6A6A
-0189CC	6A6B
-0189CE	6A6C
-0189CF	6A6D
-0189D0	6A6E
-0189D1	6A6F
-01726E	6A70
-01729F	6A71
-01725D	6A72
-017266	6A73
-01726F	6A74
-01727E	6A75
-01727F	6A76
-017284	6A77
-01728B	6A78
-01728D	6A79
-01728F	6A7A
-017292	6A7B
-016308	6A7C
-016332	6A7D
-0163B0	6A7E
-01643F	6B21
-0164D8	6B22
-018004	6B23
-016BEA	6B24
-016BF3	6B25
-016BFD	6B26
-016BF5	6B27
-016BF9	6B28
-016C05	6B29
-016C07	6B2A
-016C06	6B2B
-016C0D	6B2C
-016C15	6B2D
-016C18	6B2E
-016C19	6B2F
-016C1A	6B30
-016C21	6B31
-016C29	6B32
-016C24	6B33
-016C2A	6B34
-016C32	6B35
-016535	6B36
-016555	6B37
-01656B	6B38
-01724D	6B39
-017252	6B3A
-017256	6B3B
-017230	6B3C
-018662	6B3D
-015216	6B3E
-01809F	6B3F
-01809C	6B40
-018093	6B41
-0180BC	6B42
-01670A	6B43
-0180BD	6B44
-0180B1	6B45
-0180AB	6B46
-0180AD	6B47
-0180B4	6B48
-0180B7	6B49
-0180E7	6B4A
-0180E8	6B4B
-0180E9	6B4C
-0180EA	6B4D
-0180DB	6B4E
-0180C2	6B4F
-0180C4	6B50
-0180D9	6B51
-0180CD	6B52
-0180D7	6B53
-016710	6B54
-0180DD	6B55
-0180EB	6B56
-0180F1	6B57
-0180F4	6B58
-0180ED	6B59
-01810D	6B5A
-01810E	6B5B
-0180F2	6B5C
-0180FC	6B5D
-016715	6B5E
-018112	6B5F
-018C5A	6B60
-018136	6B61
-01811E	6B62
-01812C	6B63
-018118	6B64
-018132	6B65
-018148	6B66
-01814C	6B67
-018153	6B68
-018174	6B69
-018159	6B6A
-01815A	6B6B
-018171	6B6C
-018160	6B6D
-018169	6B6E
-01817C	6B6F
-01817D	6B70
-01816D	6B71
-018167	6B72
-01584D	6B73
-015AB5	6B74
-018188	6B75
-018182	6B76
-018191	6B77
-016ED5	6B78
-0181A3	6B79
-0181AA	6B7A
-0181CC	6B7B
-016726	6B7C
-0181CA	6B7D
-0181BB	6B7E
-0181C1	6C21
-0181A6	6C22
-016B24	6C23
-016B37	6C24
-016B39	6C25
-016B43	6C26
-016B46	6C27
-016B59	6C28
-0198D1	6C29
-0198D2	6C2A
-0198D3	6C2B
-0198D5	6C2C
-0198D9	6C2D
-0198DA	6C2E
-016BB3	6C2F
-015F40	6C30
-016BC2	6C31
-0189F3	6C32
-016590	6C33
-019F51	6C34
-016593	6C35
-0165BC	6C36
-0165C6	6C37
-0165C4	6C38
-0165C3	6C39
-0165CC	6C3A
-0165CE	6C3B
-0165D2	6C3C
-0165D6	6C3D
-017080	6C3E
-01709C	6C3F
-017096	6C40
-01709D	6C41
-0170BB	6C42
-0170C0	6C43
-0170B7	6C44
-0170AB	6C45
-0170B1	6C46
-0170E8	6C47
-0170CA	6C48
-017110	6C49
-017113	6C4A
-017116	6C4B
-01712F	6C4C
-017131	6C4D
-017173	6C4E
-01715C	6C4F
-017168	6C50
-017145	6C51
-017172	6C52
-01714A	6C53
-017178	6C54
-01717A	6C55
-017198	6C56
-0171B3	6C57
-0171B5	6C58
-0171A8	6C59
-0171A0	6C5A
-0171E0	6C5B
-0171D4	6C5C
-0171E7	6C5D
-0171F9	6C5E
-01721D	6C5F
-017228	6C60
-01706C	6C61
-017118	6C62
-017166	6C63
-0171B9	6C64
-01623E	6C65
-01623D	6C66
-016243	6C67
-016248	6C68
-016249	6C69
-01793B	6C6A
-017940	6C6B
-017946	6C6C
-017949	6C6D
-01795B	6C6E
-01795C	6C6F
-017953	6C70
-01795A	6C71
-017962	6C72
-017957	6C73
-017960	6C74
-01796F	6C75
-017967	6C76
-01797A	6C77
-017985	6C78
-01798A	6C79
-01799A	6C7A
-0179A7	6C7B
-0179B3	6C7C
-015FD1	6C7D
-015FD0	6C7E
-01603C	6D21
-01605D	6D22
-01605A	6D23
-016067	6D24
-016041	6D25
-016059	6D26
-016063	6D27
-0160AB	6D28
-016106	6D29
-01610D	6D2A
-01615D	6D2B
-0161A9	6D2C
-01619D	6D2D
-0161CB	6D2E
-0161D1	6D2F
-016206	6D30
-018080	6D31
-01807F	6D32
-016C93	6D33
-016CF6	6D34
-016DFC	6D35
-0177F6	6D36
-0177F8	6D37
-017800	6D38
-017809	6D39
-017817	6D3A
-017818	6D3B
-017811	6D3C
-0165AB	6D3D
-01782D	6D3E
-01781C	6D3F
-01781D	6D40
-017839	6D41
-01783A	6D42
-01783B	6D43
-01781F	6D44
-01783C	6D45
-017825	6D46
-01782C	6D47
-017823	6D48
-017829	6D49
-01784E	6D4A
-01786D	6D4B
-017856	6D4C
-017857	6D4D
-017826	6D4E
-017850	6D4F
-017847	6D50
-01784C	6D51
-01786A	6D52
-01789B	6D53
-017893	6D54
-01789A	6D55
-017887	6D56
-01789C	6D57
-0178A1	6D58
-0178A3	6D59
-0178B2	6D5A
-0178B9	6D5B
-0178A5	6D5C
-0178D4	6D5D
-0178D9	6D5E
-0178C9	6D5F
-0178EC	6D60
-0178F2	6D61
-017905	6D62
-0178F4	6D63
-017913	6D64
-017924	6D65
-01791E	6D66
-017934	6D67
-019F9B	6D68
-019EF9	6D69
-019EFB	6D6A
-019EFC	6D6B
-0176F1	6D6C
-017704	6D6D
-01770D	6D6E
-0176F9	6D6F
-017707	6D70
-017708	6D71
-01771A	6D72
-017722	6D73
-017719	6D74
-01772D	6D75
-017726	6D76
-017735	6D77
-017738	6D78
-017750	6D79
-017751	6D7A
-017747	6D7B
-017743	6D7C
-01775A	6D7D
-017768	6D7E
-017762	6E21
-017765	6E22
-01777F	6E23
-01778D	6E24
-01777D	6E25
-017780	6E26
-01778C	6E27
-017791	6E28
-01779F	6E29
-0177A0	6E2A
-0177B0	6E2B
-0177B5	6E2C
-0177BD	6E2D
-01753A	6E2E
-017540	6E2F
-01754E	6E30
-01754B	6E31
-017548	6E32
-01755B	6E33
-017572	6E34
-017579	6E35
-017583	6E36
-017F58	6E37
-017F61	6E38
-017F5F	6E39
-018A48	6E3A
-017F68	6E3B
-017F74	6E3C
-017F71	6E3D
-017F79	6E3E
-017F81	6E3F
-017F7E	6E40
-0176CD	6E41
-0176E5	6E42
-018832	6E43
-019485	6E44
-019486	6E45
-019487	6E46
-01948B	6E47
-01948A	6E48
-01948C	6E49
-01948D	6E4A
-01948F	6E4B
-019490	6E4C
-019494	6E4D
-019497	6E4E
-019495	6E4F
-01949A	6E50
-01949B	6E51
-01949C	6E52
-0194A3	6E53
-0194A4	6E54
-0194AB	6E55
-0194AA	6E56
-0194AD	6E57
-0194AC	6E58
-0194AF	6E59
-0194B0	6E5A
-0194B2	6E5B
-0194B4	6E5C
-0194B6	6E5D
-0194B7	6E5E
-0194B8	6E5F
-0194B9	6E60
-0194BA	6E61
-0194BC	6E62
-0194BD	6E63
-0194BF	6E64
-0194C4	6E65
-0194C8	6E66
-0194C9	6E67
-0194CA	6E68
-0194CB	6E69
-0194CC	6E6A
-0194CD	6E6B
-0194CE	6E6C
-0194D0	6E6D
-0194D1	6E6E
-0194D2	6E6F
-0194D5	6E70
-0194D6	6E71
-0194D7	6E72
-0194D9	6E73
-0194D8	6E74
-0194DB	6E75
-0194DE	6E76
-0194DF	6E77
-0194E0	6E78
-0194E2	6E79
-0194E4	6E7A
-0194E5	6E7B
-0194E7	6E7C
-0194E8	6E7D
-0194EA	6E7E
-0194E9	6F21
-0194EB	6F22
-0194EE	6F23
-0194EF	6F24
-0194F3	6F25
-0194F4	6F26
-0194F5	6F27
-0194F7	6F28
-0194F9	6F29
-0194FC	6F2A
-0194FD	6F2B
-0194FF	6F2C
-019503	6F2D
-019502	6F2E
-019506	6F2F
-019507	6F30
-019509	6F31
-01950A	6F32
-01950D	6F33
-01950E	6F34
-01950F	6F35
-019512	6F36
-019513	6F37
-019514	6F38
-019515	6F39
-019516	6F3A
-019518	6F3B
-01951B	6F3C
-01951D	6F3D
-01951E	6F3E
-01951F	6F3F
-019522	6F40
-01952A	6F41
-01952B	6F42
-019529	6F43
-01952C	6F44
-019531	6F45
-019532	6F46
-019534	6F47
-019536	6F48
-019537	6F49
-019538	6F4A
-01953C	6F4B
-01953E	6F4C
-01953F	6F4D
-019542	6F4E
-019535	6F4F
-019544	6F50
-019545	6F51
-019546	6F52
-019549	6F53
-01954C	6F54
-01954E	6F55
-01954F	6F56
-019552	6F57
-019553	6F58
-019554	6F59
-019556	6F5A
-019557	6F5B
-019558	6F5C
-019559	6F5D
-01955B	6F5E
-01955E	6F5F
-01955F	6F60
-01955D	6F61
-019561	6F62
-019562	6F63
-019564	6F64
-019565	6F65
-019566	6F66
-019567	6F67
-019568	6F68
-019569	6F69
-01956A	6F6A
-01956B	6F6B
-01956C	6F6C
-01956F	6F6D
-019571	6F6E
-019572	6F6F
-019573	6F70
-01953A	6F71
-0177E7	6F72
-0177EC	6F73
-0196C9	6F74
-0179D5	6F75
-0179ED	6F76
-0179E3	6F77
-0179EB	6F78
-017A06	6F79
-015D47	6F7A
-017A03	6F7B
-017A02	6F7C
-017A1E	6F7D
-017A14	6F7E
-017A39	7021
-017A37	7022
-017A51	7023
-019ECF	7024
-0199A5	7025
-017A70	7026
-017688	7027
-01768E	7028
-017693	7029
-017699	702A
-0176A4	702B
-0174DE	702C
-0174E0	702D
-01752C	702E
-019E20	702F
-019E22	7030
-019E28	7031
-019E29	7032
-019E2A	7033
-019E2B	7034
-019E2C	7035
-019E32	7036
-019E31	7037
-019E36	7038
-019E38	7039
-019E37	703A
-019E39	703B
-019E3A	703C
-019E3E	703D
-019E41	703E
-019E42	703F
-019E44	7040
-019E46	7041
-019E47	7042
-019E48	7043
-019E49	7044
-019E4B	7045
-019E4C	7046
-019E4E	7047
-019E51	7048
-019E55	7049
-019E57	704A
-019E5A	704B
-019E5B	704C
-019E5C	704D
-019E5E	704E
-019E63	704F
-019E66	7050
-019E67	7051
-019E68	7052
-019E69	7053
-019E6A	7054
-019E6B	7055
-019E6C	7056
-019E71	7057
-019E6D	7058
-019E73	7059
-017592	705A
-017594	705B
-017596	705C
-0175A0	705D
-01759D	705E
-0175AC	705F
-0175A3	7060
-0175B3	7061
-0175B4	7062
-0175B8	7063
-0175C4	7064
-0175B1	7065
-0175B0	7066
-0175C3	7067
-0175C2	7068
-0175D6	7069
-0175CD	706A
-0175E3	706B
-0175E8	706C
-0175E6	706D
-0175E4	706E
-0175EB	706F
-0175E7	7070
-017603	7071
-0175F1	7072
-0175FC	7073
-0175FF	7074
-017610	7075
-017600	7076
-017605	7077
-01760C	7078
-017617	7079
-01760A	707A
-017625	707B
-017618	707C
-017615	707D
-017619	707E
-01761B	7121
-01763C	7122
-017622	7123
-017620	7124
-017640	7125
-01762D	7126
-017630	7127
-01763F	7128
-017635	7129
-017643	712A
-01763E	712B
-017633	712C
-01764D	712D
-01765E	712E
-017654	712F
-01765C	7130
-017656	7131
-01766B	7132
-01766F	7133
-017FCA	7134
-017AE6	7135
-017A78	7136
-017A79	7137
-017A80	7138
-017A86	7139
-017A88	713A
-017A95	713B
-017AA6	713C
-017AA0	713D
-017AAC	713E
-017AA8	713F
-017AAD	7140
-017AB3	7141
-018864	7142
-018869	7143
-018872	7144
-01887D	7145
-01887F	7146
-018882	7147
-0188A2	7148
-0188C6	7149
-0188B7	714A
-0188BC	714B
-0188C9	714C
-0188E2	714D
-0188CE	714E
-0188E3	714F
-0188E5	7150
-0188F1	7151
-01891A	7152
-0188FC	7153
-0188E8	7154
-0188FE	7155
-0188F0	7156
-018921	7157
-018919	7158
-018913	7159
-01891B	715A
-01890A	715B
-018934	715C
-01892B	715D
-018936	715E
-018941	715F
-018966	7160
-01897B	7161
-01758B	7162
-0180E5	7163
-0176B2	7164
-0176B4	7165
-0177DC	7166
-018012	7167
-018014	7168
-018016	7169
-01801C	716A
-018020	716B
-018022	716C
-018025	716D
-018026	716E
-018027	716F
-018029	7170
-018028	7171
-018031	7172
-01800B	7173
-018035	7174
-018043	7175
-018046	7176
-01804D	7177
-018052	7178
-018069	7179
-018071	717A
-018983	717B
-019878	717C
-019880	717D
-019883	717E
-019889	7221
-01988C	7222
-01988D	7223
-01988F	7224
-019894	7225
-01989A	7226
-01989B	7227
-01989E	7228
-01989F	7229
-0198A1	722A
-0198A2	722B
-0198A5	722C
-0198A6	722D
-01864D	722E
-018654	722F
-01866C	7230
-01866E	7231
-01867F	7232
-01867A	7233
-01867C	7234
-01867B	7235
-0186A8	7236
-01868D	7237
-01868B	7238
-0186AC	7239
-01869D	723A
-0186A7	723B
-0186A3	723C
-0186AA	723D
-018693	723E
-0186A9	723F
-0186B6	7240
-0186C4	7241
-0186B5	7242
-0186CE	7243
-0186B0	7244
-0186BA	7245
-0186B1	7246
-0186AF	7247
-0186C9	7248
-0186CF	7249
-0186B4	724A
-0186E9	724B
-0186F1	724C
-0186F2	724D
-0186ED	724E
-0186F3	724F
-0186D0	7250
-018713	7251
-0186DE	7252
-0186F4	7253
-0186DF	7254
-0186D8	7255
-0186D1	7256
-018703	7257
-018707	7258
-0186F8	7259
-018708	725A
-01870A	725B
-01870D	725C
-018709	725D
-018723	725E
-01873B	725F
-01871E	7260
-018725	7261
-01872E	7262
-01871A	7263
-01873E	7264
-018748	7265
-018734	7266
-018731	7267
-018729	7268
-018737	7269
-01873F	726A
-018782	726B
-018722	726C
-01877D	726D
-01877E	726E
-01877B	726F
-018760	7270
-018770	7271
-01874C	7272
-01876E	7273
-01878B	7274
-018753	7275
-018763	7276
-01877C	7277
-018764	7278
-018759	7279
-018765	727A
-018793	727B
-0187AF	727C
-0187A8	727D
-0187D2	727E
-0187C6	7321
-018788	7322
-018785	7323
-0187AD	7324
-018797	7325
-018783	7326
-0187AB	7327
-0187E5	7328
-0187AC	7329
-0187B5	732A
-0187B3	732B
-0187CB	732C
-0187D3	732D
-0187BD	732E
-0187D1	732F
-0187C0	7330
-0187CA	7331
-0187DB	7332
-0187EA	7333
-0187E0	7334
-0187EE	7335
-018816	7336
-018813	7337
-0187FE	7338
-01880A	7339
-01881B	733A
-018821	733B
-018839	733C
-01883C	733D
-017F36	733E
-017F42	733F
-017F44	7340
-017F45	7341
-018210	7342
-017AFA	7343
-017AFD	7344
-017B08	7345
-017B03	7346
-017B04	7347
-017B15	7348
-017B0A	7349
-017B2B	734A
-017B0F	734B
-017B47	734C
-017B38	734D
-017B2A	734E
-017B19	734F
-017B2E	7350
-017B31	7351
-017B20	7352
-017B25	7353
-017B24	7354
-017B33	7355
-017B3E	7356
-017B1E	7357
-017B58	7358
-017B5A	7359
-017B45	735A
-017B75	735B
-017B4C	735C
-017B5D	735D
-017B60	735E
-017B6E	735F
-017B7B	7360
-017B62	7361
-017B72	7362
-017B71	7363
-017B90	7364
-017BA6	7365
-017BA7	7366
-017BB8	7367
-017BAC	7368
-017B9D	7369
-017BA8	736A
-017B85	736B
-017BAA	736C
-017B9C	736D
-017BA2	736E
-017BAB	736F
-017BB4	7370
-017BD1	7371
-017BC1	7372
-017BCC	7373
-017BDD	7374
-017BDA	7375
-017BE5	7376
-017BE6	7377
-017BEA	7378
-017C0C	7379
-017BFE	737A
-017BFC	737B
-017C0F	737C
-017C16	737D
-017C0B	737E
-017C1F	7421
-017C2A	7422
-017C26	7423
-017C38	7424
-017C41	7425
-017C40	7426
-0181FE	7427
-018201	7428
-018202	7429
-018204	742A
-0181EC	742B
-018844	742C
-018221	742D
-018222	742E
-018223	742F
-01822D	7430
-01822F	7431
-018228	7432
-01822B	7433
-018238	7434
-01823B	7435
-018233	7436
-018234	7437
-01823E	7438
-018244	7439
-018249	743A
-01824B	743B
-01824F	743C
-01825A	743D
-01825F	743E
-018268	743F
-01887E	7440
-018885	7441
-018888	7442
-0188D8	7443
-0188DF	7444
-01895E	7445
-017F9D	7446
-017F9F	7447
-017FA7	7448
-017FAF	7449
-017FB0	744A
-017FB2	744B
-017C7C	744C
-016549	744D
-017C91	744E
-017C9D	744F
-017C9C	7450
-017C9E	7451
-017CA2	7452
-017CB2	7453
-017CBC	7454
-017CBD	7455
-017CC1	7456
-017CC7	7457
-017CCC	7458
-017CCD	7459
-017CC8	745A
-017CC5	745B
-017CD7	745C
-017CE8	745D
-01826E	745E
-0166A8	745F
-017FBF	7460
-017FCE	7461
-017FD5	7462
-017FE5	7463
-017FE1	7464
-017FE6	7465
-017FE9	7466
-017FEE	7467
-017FF3	7468
-017CF8	7469
-017D77	746A
-017DA6	746B
-017DAE	746C
-017E47	746D
-017E9B	746E
-019EB8	746F
-019EB4	7470
-018D73	7471
-018D84	7472
-018D94	7473
-018D91	7474
-018DB1	7475
-018D67	7476
-018D6D	7477
-018C47	7478
-018C49	7479
-01914A	747A
-019150	747B
-01914E	747C
-01914F	747D
-019164	747E
-019162	7521
-019161	7522
-019170	7523
-019169	7524
-01916F	7525
-01917D	7526
-01917E	7527
-019172	7528
-019174	7529
-019179	752A
-01918C	752B
-019185	752C
-019190	752D
-01918D	752E
-019191	752F
-0191A2	7530
-0191A3	7531
-0191AA	7532
-0191AD	7533
-0191AE	7534
-0191AF	7535
-0191B5	7536
-0191B4	7537
-0191BA	7538
-018C55	7539
-019E7E	753A
-018DB8	753B
-018DEB	753C
-018E05	753D
-018E59	753E
-018E69	753F
-018DB5	7540
-018DBF	7541
-018DBC	7542
-018DBA	7543
-018DC4	7544
-018DD6	7545
-018DD7	7546
-018DDA	7547
-018DDE	7548
-018DCE	7549
-018DCF	754A
-018DDB	754B
-018DC6	754C
-018DEC	754D
-018DF7	754E
-018DF8	754F
-018DE3	7550
-018DF9	7551
-018DFB	7552
-018DE4	7553
-018E09	7554
-018DFD	7555
-018E14	7556
-018E1D	7557
-018E1F	7558
-018E2C	7559
-018E2E	755A
-018E23	755B
-018E2F	755C
-018E3A	755D
-018E40	755E
-018E39	755F
-018E35	7560
-018E3D	7561
-018E31	7562
-018E49	7563
-018E41	7564
-018E42	7565
-018E51	7566
-018E52	7567
-018E4A	7568
-018E70	7569
-018E76	756A
-018E7C	756B
-018E6F	756C
-018E74	756D
-018E85	756E
-018E8F	756F
-018E94	7570
-018E90	7571
-018E9C	7572
-018E9E	7573
-018C78	7574
-018C82	7575
-018C8A	7576
-018C85	7577
-018C98	7578
-018C94	7579
-01659B	757A
-0189D6	757B
-0189DE	757C
-0189DA	757D
-0189DC	757E
-0189E5	7621
-0189EB	7622
-0189EF	7623
-018A3E	7624
-018B26	7625
-019753	7626
-0196E9	7627
-0196F3	7628
-0196EF	7629
-019706	762A
-019701	762B
-019708	762C
-01970F	762D
-01970E	762E
-01972A	762F
-01972D	7630
-019730	7631
-01973E	7632
-019F80	7633
-019F83	7634
-019F85	7635
-019F86	7636
-019F87	7637
-019F88	7638
-019F89	7639
-019F8A	763A
-019F8C	763B
-019EFE	763C
-019F0B	763D
-019F0D	763E
-0196B9	763F
-0196BC	7640
-0196BD	7641
-0196CE	7642
-0196D2	7643
-0177BF	7644
-0196E0	7645
-01928E	7646
-0192AE	7647
-0192C8	7648
-01933E	7649
-01936A	764A
-0193CA	764B
-01938F	764C
-01943E	764D
-01946B	764E
-019C7F	764F
-019C82	7650
-019C85	7651
-019C86	7652
-019C87	7653
-019C88	7654
-017A23	7655
-019C8B	7656
-019C8E	7657
-019C90	7658
-019C91	7659
-019C92	765A
-019C94	765B
-019C95	765C
-019C9A	765D
-019C9B	765E
-019C9E	765F
-019C9F	7660
-019CA0	7661
-019CA1	7662
-019CA2	7663
-019CA3	7664
-019CA5	7665
-019CA6	7666
-019CA7	7667
-019CA8	7668
-019CA9	7669
-019CAB	766A
-019CAD	766B
-019CAE	766C
-019CB0	766D
-019CB1	766E
-019CB2	766F
-019CB3	7670
-019CB4	7671
-019CB5	7672
-019CB6	7673
-019CB7	7674
-019CBA	7675
-019CBB	7676
-019CBC	7677
-019CBD	7678
-019CC4	7679
-019CC5	767A
-019CC6	767B
-019CC7	767C
-019CCA	767D
-019CCB	767E
-019CCC	7721
-019CCD	7722
-019CCE	7723
-019CCF	7724
-019CD0	7725
-019CD3	7726
-019CD4	7727
-019CD5	7728
-019CD7	7729
-019CD8	772A
-019CD9	772B
-019CDC	772C
-019CDD	772D
-019CDF	772E
-019CE2	772F
-01977C	7730
-019785	7731
-019791	7732
-019792	7733
-019794	7734
-0197AF	7735
-0197AB	7736
-0197A3	7737
-0197B2	7738
-0197B4	7739
-019AB1	773A
-019AB0	773B
-019AB7	773C
-019E58	773D
-019AB6	773E
-019ABA	773F
-019ABC	7740
-019AC1	7741
-019AC0	7742
-019AC5	7743
-019AC2	7744
-019ACB	7745
-019ACC	7746
-019AD1	7747
-019B45	7748
-019B43	7749
-019B47	774A
-019B49	774B
-019B48	774C
-019B4D	774D
-019B51	774E
-0198E8	774F
-01990D	7750
-01992E	7751
-019955	7752
-019954	7753
-019ADF	7754
-019AE1	7755
-019AE6	7756
-019AEF	7757
-019AEB	7758
-019AFB	7759
-019AED	775A
-019AF9	775B
-019B08	775C
-019B0F	775D
-019B13	775E
-019B1F	775F
-019B23	7760
-019EBD	7761
-019EBE	7762
-017E3B	7763
-019E82	7764
-019E87	7765
-019E88	7766
-019E8B	7767
-019E92	7768
-0193D6	7769
-019E9D	776A
-019E9F	776B
-019EDB	776C
-019EDC	776D
-019EDD	776E
-019EE0	776F
-019EDF	7770
-019EE2	7771
-019EE9	7772
-019EE7	7773
-019EE5	7774
-019EEA	7775
-019EEF	7776
-019F22	7777
-019F2C	7778
-019F2F	7779
-019F39	777A
-019F37	777B
-019F3D	777C
-019F3E	777D
-019F44	777E
+013000	A1A1
+013001	A1A2
+013002	A1A3
+0130FB	A1A4
+0102C9	A1A5
+0102C7	A1A6
+01A8	A1A7
+013003	A1A8
+013005	A1A9
+012015	A1AA
+01FF5E	A1AB
+012016	A1AC
+012026	A1AD
+012018	A1AE
+012019	A1AF
+01201C	A1B0
+01201D	A1B1
+013014	A1B2
+013015	A1B3
+013008	A1B4
+013009	A1B5
+01300A	A1B6
+01300B	A1B7
+01300C	A1B8
+01300D	A1B9
+01300E	A1BA
+01300F	A1BB
+013016	A1BC
+013017	A1BD
+013010	A1BE
+013011	A1BF
+01B1	A1C0
+01D7	A1C1
+01F7	A1C2
+012236	A1C3
+012227	A1C4
+012228	A1C5
+012211	A1C6
+01220F	A1C7
+01222A	A1C8
+012229	A1C9
+012208	A1CA
+012237	A1CB
+01221A	A1CC
+0122A5	A1CD
+012225	A1CE
+012220	A1CF
+012312	A1D0
+012299	A1D1
+01222B	A1D2
+01222E	A1D3
+012261	A1D4
+01224C	A1D5
+012248	A1D6
+01223D	A1D7
+01221D	A1D8
+012260	A1D9
+01226E	A1DA
+01226F	A1DB
+012264	A1DC
+012265	A1DD
+01221E	A1DE
+012235	A1DF
+012234	A1E0
+012642	A1E1
+012640	A1E2
+01B0	A1E3
+012032	A1E4
+012033	A1E5
+012103	A1E6
+01FF04	A1E7
+01A4	A1E8
+01FFE0	A1E9
+01FFE1	A1EA
+012030	A1EB
+01A7	A1EC
+012116	A1ED
+012606	A1EE
+012605	A1EF
+0125CB	A1F0
+0125CF	A1F1
+0125CE	A1F2
+0125C7	A1F3
+0125C6	A1F4
+0125A1	A1F5
+0125A0	A1F6
+0125B3	A1F7
+0125B2	A1F8
+01203B	A1F9
+012192	A1FA
+012190	A1FB
+012191	A1FC
+012193	A1FD
+013013	A1FE
+012488	A2B1
+012489	A2B2
+01248A	A2B3
+01248B	A2B4
+01248C	A2B5
+01248D	A2B6
+01248E	A2B7
+01248F	A2B8
+012490	A2B9
+012491	A2BA
+012492	A2BB
+012493	A2BC
+012494	A2BD
+012495	A2BE
+012496	A2BF
+012497	A2C0
+012498	A2C1
+012499	A2C2
+01249A	A2C3
+01249B	A2C4
+012474	A2C5
+012475	A2C6
+012476	A2C7
+012477	A2C8
+012478	A2C9
+012479	A2CA
+01247A	A2CB
+01247B	A2CC
+01247C	A2CD
+01247D	A2CE
+01247E	A2CF
+01247F	A2D0
+012480	A2D1
+012481	A2D2
+012482	A2D3
+012483	A2D4
+012484	A2D5
+012485	A2D6
+012486	A2D7
+012487	A2D8
+012460	A2D9
+012461	A2DA
+012462	A2DB
+012463	A2DC
+012464	A2DD
+012465	A2DE
+012466	A2DF
+012467	A2E0
+012468	A2E1
+012469	A2E2
+013220	A2E5
+013221	A2E6
+013222	A2E7
+013223	A2E8
+013224	A2E9
+013225	A2EA
+013226	A2EB
+013227	A2EC
+013228	A2ED
+013229	A2EE
+012160	A2F1
+012161	A2F2
+012162	A2F3
+012163	A2F4
+012164	A2F5
+012165	A2F6
+012166	A2F7
+012167	A2F8
+012168	A2F9
+012169	A2FA
+01216A	A2FB
+01216B	A2FC
+01FF01	A3A1
+01FF02	A3A2
+01FF03	A3A3
+01FFE5	A3A4
+01FF05	A3A5
+01FF06	A3A6
+01FF07	A3A7
+01FF08	A3A8
+01FF09	A3A9
+01FF0A	A3AA
+01FF0B	A3AB
+01FF0C	A3AC
+01FF0D	A3AD
+01FF0E	A3AE
+01FF0F	A3AF
+01FF10	A3B0
+01FF11	A3B1
+01FF12	A3B2
+01FF13	A3B3
+01FF14	A3B4
+01FF15	A3B5
+01FF16	A3B6
+01FF17	A3B7
+01FF18	A3B8
+01FF19	A3B9
+01FF1A	A3BA
+01FF1B	A3BB
+01FF1C	A3BC
+01FF1D	A3BD
+01FF1E	A3BE
+01FF1F	A3BF
+01FF20	A3C0
+01FF21	A3C1
+01FF22	A3C2
+01FF23	A3C3
+01FF24	A3C4
+01FF25	A3C5
+01FF26	A3C6
+01FF27	A3C7
+01FF28	A3C8
+01FF29	A3C9
+01FF2A	A3CA
+01FF2B	A3CB
+01FF2C	A3CC
+01FF2D	A3CD
+01FF2E	A3CE
+01FF2F	A3CF
+01FF30	A3D0
+01FF31	A3D1
+01FF32	A3D2
+01FF33	A3D3
+01FF34	A3D4
+01FF35	A3D5
+01FF36	A3D6
+01FF37	A3D7
+01FF38	A3D8
+01FF39	A3D9
+01FF3A	A3DA
+01FF3B	A3DB
+01FF3C	A3DC
+01FF3D	A3DD
+01FF3E	A3DE
+01FF3F	A3DF
+01FF40	A3E0
+01FF41	A3E1
+01FF42	A3E2
+01FF43	A3E3
+01FF44	A3E4
+01FF45	A3E5
+01FF46	A3E6
+01FF47	A3E7
+01FF48	A3E8
+01FF49	A3E9
+01FF4A	A3EA
+01FF4B	A3EB
+01FF4C	A3EC
+01FF4D	A3ED
+01FF4E	A3EE
+01FF4F	A3EF
+01FF50	A3F0
+01FF51	A3F1
+01FF52	A3F2
+01FF53	A3F3
+01FF54	A3F4
+01FF55	A3F5
+01FF56	A3F6
+01FF57	A3F7
+01FF58	A3F8
+01FF59	A3F9
+01FF5A	A3FA
+01FF5B	A3FB
+01FF5C	A3FC
+01FF5D	A3FD
+01FFE3	A3FE
+013041	A4A1
+013042	A4A2
+013043	A4A3
+013044	A4A4
+013045	A4A5
+013046	A4A6
+013047	A4A7
+013048	A4A8
+013049	A4A9
+01304A	A4AA
+01304B	A4AB
+01304C	A4AC
+01304D	A4AD
+01304E	A4AE
+01304F	A4AF
+013050	A4B0
+013051	A4B1
+013052	A4B2
+013053	A4B3
+013054	A4B4
+013055	A4B5
+013056	A4B6
+013057	A4B7
+013058	A4B8
+013059	A4B9
+01305A	A4BA
+01305B	A4BB
+01305C	A4BC
+01305D	A4BD
+01305E	A4BE
+01305F	A4BF
+013060	A4C0
+013061	A4C1
+013062	A4C2
+013063	A4C3
+013064	A4C4
+013065	A4C5
+013066	A4C6
+013067	A4C7
+013068	A4C8
+013069	A4C9
+01306A	A4CA
+01306B	A4CB
+01306C	A4CC
+01306D	A4CD
+01306E	A4CE
+01306F	A4CF
+013070	A4D0
+013071	A4D1
+013072	A4D2
+013073	A4D3
+013074	A4D4
+013075	A4D5
+013076	A4D6
+013077	A4D7
+013078	A4D8
+013079	A4D9
+01307A	A4DA
+01307B	A4DB
+01307C	A4DC
+01307D	A4DD
+01307E	A4DE
+01307F	A4DF
+013080	A4E0
+013081	A4E1
+013082	A4E2
+013083	A4E3
+013084	A4E4
+013085	A4E5
+013086	A4E6
+013087	A4E7
+013088	A4E8
+013089	A4E9
+01308A	A4EA
+01308B	A4EB
+01308C	A4EC
+01308D	A4ED
+01308E	A4EE
+01308F	A4EF
+013090	A4F0
+013091	A4F1
+013092	A4F2
+013093	A4F3
+0130A1	A5A1
+0130A2	A5A2
+0130A3	A5A3
+0130A4	A5A4
+0130A5	A5A5
+0130A6	A5A6
+0130A7	A5A7
+0130A8	A5A8
+0130A9	A5A9
+0130AA	A5AA
+0130AB	A5AB
+0130AC	A5AC
+0130AD	A5AD
+0130AE	A5AE
+0130AF	A5AF
+0130B0	A5B0
+0130B1	A5B1
+0130B2	A5B2
+0130B3	A5B3
+0130B4	A5B4
+0130B5	A5B5
+0130B6	A5B6
+0130B7	A5B7
+0130B8	A5B8
+0130B9	A5B9
+0130BA	A5BA
+0130BB	A5BB
+0130BC	A5BC
+0130BD	A5BD
+0130BE	A5BE
+0130BF	A5BF
+0130C0	A5C0
+0130C1	A5C1
+0130C2	A5C2
+0130C3	A5C3
+0130C4	A5C4
+0130C5	A5C5
+0130C6	A5C6
+0130C7	A5C7
+0130C8	A5C8
+0130C9	A5C9
+0130CA	A5CA
+0130CB	A5CB
+0130CC	A5CC
+0130CD	A5CD
+0130CE	A5CE
+0130CF	A5CF
+0130D0	A5D0
+0130D1	A5D1
+0130D2	A5D2
+0130D3	A5D3
+0130D4	A5D4
+0130D5	A5D5
+0130D6	A5D6
+0130D7	A5D7
+0130D8	A5D8
+0130D9	A5D9
+0130DA	A5DA
+0130DB	A5DB
+0130DC	A5DC
+0130DD	A5DD
+0130DE	A5DE
+0130DF	A5DF
+0130E0	A5E0
+0130E1	A5E1
+0130E2	A5E2
+0130E3	A5E3
+0130E4	A5E4
+0130E5	A5E5
+0130E6	A5E6
+0130E7	A5E7
+0130E8	A5E8
+0130E9	A5E9
+0130EA	A5EA
+0130EB	A5EB
+0130EC	A5EC
+0130ED	A5ED
+0130EE	A5EE
+0130EF	A5EF
+0130F0	A5F0
+0130F1	A5F1
+0130F2	A5F2
+0130F3	A5F3
+0130F4	A5F4
+0130F5	A5F5
+0130F6	A5F6
+010391	A6A1
+010392	A6A2
+010393	A6A3
+010394	A6A4
+010395	A6A5
+010396	A6A6
+010397	A6A7
+010398	A6A8
+010399	A6A9
+01039A	A6AA
+01039B	A6AB
+01039C	A6AC
+01039D	A6AD
+01039E	A6AE
+01039F	A6AF
+0103A0	A6B0
+0103A1	A6B1
+0103A3	A6B2
+0103A4	A6B3
+0103A5	A6B4
+0103A6	A6B5
+0103A7	A6B6
+0103A8	A6B7
+0103A9	A6B8
+0103B1	A6C1
+0103B2	A6C2
+0103B3	A6C3
+0103B4	A6C4
+0103B5	A6C5
+0103B6	A6C6
+0103B7	A6C7
+0103B8	A6C8
+0103B9	A6C9
+0103BA	A6CA
+0103BB	A6CB
+0103BC	A6CC
+0103BD	A6CD
+0103BE	A6CE
+0103BF	A6CF
+0103C0	A6D0
+0103C1	A6D1
+0103C3	A6D2
+0103C4	A6D3
+0103C5	A6D4
+0103C6	A6D5
+0103C7	A6D6
+0103C8	A6D7
+0103C9	A6D8
+010410	A7A1
+010411	A7A2
+010412	A7A3
+010413	A7A4
+010414	A7A5
+010415	A7A6
+010401	A7A7
+010416	A7A8
+010417	A7A9
+010418	A7AA
+010419	A7AB
+01041A	A7AC
+01041B	A7AD
+01041C	A7AE
+01041D	A7AF
+01041E	A7B0
+01041F	A7B1
+010420	A7B2
+010421	A7B3
+010422	A7B4
+010423	A7B5
+010424	A7B6
+010425	A7B7
+010426	A7B8
+010427	A7B9
+010428	A7BA
+010429	A7BB
+01042A	A7BC
+01042B	A7BD
+01042C	A7BE
+01042D	A7BF
+01042E	A7C0
+01042F	A7C1
+010430	A7D1
+010431	A7D2
+010432	A7D3
+010433	A7D4
+010434	A7D5
+010435	A7D6
+010451	A7D7
+010436	A7D8
+010437	A7D9
+010438	A7DA
+010439	A7DB
+01043A	A7DC
+01043B	A7DD
+01043C	A7DE
+01043D	A7DF
+01043E	A7E0
+01043F	A7E1
+010440	A7E2
+010441	A7E3
+010442	A7E4
+010443	A7E5
+010444	A7E6
+010445	A7E7
+010446	A7E8
+010447	A7E9
+010448	A7EA
+010449	A7EB
+01044A	A7EC
+01044B	A7ED
+01044C	A7EE
+01044D	A7EF
+01044E	A7F0
+01044F	A7F1
+010101	A8A1
+01E1	A8A2
+0101CE	A8A3
+01E0	A8A4
+010113	A8A5
+01E9	A8A6
+01011B	A8A7
+01E8	A8A8
+01012B	A8A9
+01ED	A8AA
+0101D0	A8AB
+01EC	A8AC
+01014D	A8AD
+01F3	A8AE
+0101D2	A8AF
+01F2	A8B0
+01016B	A8B1
+01FA	A8B2
+0101D4	A8B3
+01F9	A8B4
+0101D6	A8B5
+0101D8	A8B6
+0101DA	A8B7
+0101DC	A8B8
+01FC	A8B9
+01EA	A8BA
+013105	A8C5
+013106	A8C6
+013107	A8C7
+013108	A8C8
+013109	A8C9
+01310A	A8CA
+01310B	A8CB
+01310C	A8CC
+01310D	A8CD
+01310E	A8CE
+01310F	A8CF
+013110	A8D0
+013111	A8D1
+013112	A8D2
+013113	A8D3
+013114	A8D4
+013115	A8D5
+013116	A8D6
+013117	A8D7
+013118	A8D8
+013119	A8D9
+01311A	A8DA
+01311B	A8DB
+01311C	A8DC
+01311D	A8DD
+01311E	A8DE
+01311F	A8DF
+013120	A8E0
+013121	A8E1
+013122	A8E2
+013123	A8E3
+013124	A8E4
+013125	A8E5
+013126	A8E6
+013127	A8E7
+013128	A8E8
+013129	A8E9
+012500	A9A4
+012501	A9A5
+012502	A9A6
+012503	A9A7
+012504	A9A8
+012505	A9A9
+012506	A9AA
+012507	A9AB
+012508	A9AC
+012509	A9AD
+01250A	A9AE
+01250B	A9AF
+01250C	A9B0
+01250D	A9B1
+01250E	A9B2
+01250F	A9B3
+012510	A9B4
+012511	A9B5
+012512	A9B6
+012513	A9B7
+012514	A9B8
+012515	A9B9
+012516	A9BA
+012517	A9BB
+012518	A9BC
+012519	A9BD
+01251A	A9BE
+01251B	A9BF
+01251C	A9C0
+01251D	A9C1
+01251E	A9C2
+01251F	A9C3
+012520	A9C4
+012521	A9C5
+012522	A9C6
+012523	A9C7
+012524	A9C8
+012525	A9C9
+012526	A9CA
+012527	A9CB
+012528	A9CC
+012529	A9CD
+01252A	A9CE
+01252B	A9CF
+01252C	A9D0
+01252D	A9D1
+01252E	A9D2
+01252F	A9D3
+012530	A9D4
+012531	A9D5
+012532	A9D6
+012533	A9D7
+012534	A9D8
+012535	A9D9
+012536	A9DA
+012537	A9DB
+012538	A9DC
+012539	A9DD
+01253A	A9DE
+01253B	A9DF
+01253C	A9E0
+01253D	A9E1
+01253E	A9E2
+01253F	A9E3
+012540	A9E4
+012541	A9E5
+012542	A9E6
+012543	A9E7
+012544	A9E8
+012545	A9E9
+012546	A9EA
+012547	A9EB
+012548	A9EC
+012549	A9ED
+01254A	A9EE
+01254B	A9EF
+01554A	B0A1
+01963F	B0A2
+0157C3	B0A3
+016328	B0A4
+0154CE	B0A5
+015509	B0A6
+0154C0	B0A7
+017691	B0A8
+01764C	B0A9
+01853C	B0AA
+0177EE	B0AB
+01827E	B0AC
+01788D	B0AD
+017231	B0AE
+019698	B0AF
+01978D	B0B0
+016C28	B0B1
+015B89	B0B2
+014FFA	B0B3
+016309	B0B4
+016697	B0B5
+015CB8	B0B6
+0180FA	B0B7
+016848	B0B8
+0180AE	B0B9
+016602	B0BA
+0176CE	B0BB
+0151F9	B0BC
+016556	B0BD
+0171AC	B0BE
+017FF1	B0BF
+018884	B0C0
+0150B2	B0C1
+015965	B0C2
+0161CA	B0C3
+016FB3	B0C4
+0182AD	B0C5
+01634C	B0C6
+016252	B0C7
+0153ED	B0C8
+015427	B0C9
+017B06	B0CA
+01516B	B0CB
+0175A4	B0CC
+015DF4	B0CD
+0162D4	B0CE
+018DCB	B0CF
+019776	B0D0
+01628A	B0D1
+018019	B0D2
+01575D	B0D3
+019738	B0D4
+017F62	B0D5
+017238	B0D6
+01767D	B0D7
+0167CF	B0D8
+01767E	B0D9
+016446	B0DA
+014F70	B0DB
+018D25	B0DC
+0162DC	B0DD
+017A17	B0DE
+016591	B0DF
+0173ED	B0E0
+01642C	B0E1
+016273	B0E2
+01822C	B0E3
+019881	B0E4
+01677F	B0E5
+017248	B0E6
+01626E	B0E7
+0162CC	B0E8
+014F34	B0E9
+0174E3	B0EA
+01534A	B0EB
+01529E	B0EC
+017ECA	B0ED
+0190A6	B0EE
+015E2E	B0EF
+016886	B0F0
+01699C	B0F1
+018180	B0F2
+017ED1	B0F3
+0168D2	B0F4
+0178C5	B0F5
+01868C	B0F6
+019551	B0F7
+01508D	B0F8
+018C24	B0F9
+0182DE	B0FA
+0180DE	B0FB
+015305	B0FC
+018912	B0FD
+015265	B0FE
+018584	B1A1
+0196F9	B1A2
+014FDD	B1A3
+015821	B1A4
+019971	B1A5
+015B9D	B1A6
+0162B1	B1A7
+0162A5	B1A8
+0166B4	B1A9
+018C79	B1AA
+019C8D	B1AB
+017206	B1AC
+01676F	B1AD
+017891	B1AE
+0160B2	B1AF
+015351	B1B0
+015317	B1B1
+018F88	B1B2
+0180CC	B1B3
+018D1D	B1B4
+0194A1	B1B5
+01500D	B1B6
+0172C8	B1B7
+015907	B1B8
+0160EB	B1B9
+017119	B1BA
+0188AB	B1BB
+015954	B1BC
+0182EF	B1BD
+01672C	B1BE
+017B28	B1BF
+015D29	B1C0
+017EF7	B1C1
+01752D	B1C2
+016CF5	B1C3
+018E66	B1C4
+018FF8	B1C5
+01903C	B1C6
+019F3B	B1C7
+016BD4	B1C8
+019119	B1C9
+017B14	B1CA
+015F7C	B1CB
+0178A7	B1CC
+0184D6	B1CD
+01853D	B1CE
+016BD5	B1CF
+016BD9	B1D0
+016BD6	B1D1
+015E01	B1D2
+015E87	B1D3
+0175F9	B1D4
+0195ED	B1D5
+01655D	B1D6
+015F0A	B1D7
+015FC5	B1D8
+018F9F	B1D9
+0158C1	B1DA
+0181C2	B1DB
+01907F	B1DC
+01965B	B1DD
+0197AD	B1DE
+018FB9	B1DF
+017F16	B1E0
+018D2C	B1E1
+016241	B1E2
+014FBF	B1E3
+0153D8	B1E4
+01535E	B1E5
+018FA8	B1E6
+018FA9	B1E7
+018FAB	B1E8
+01904D	B1E9
+016807	B1EA
+015F6A	B1EB
+018198	B1EC
+018868	B1ED
+019CD6	B1EE
+01618B	B1EF
+01522B	B1F0
+01762A	B1F1
+015F6C	B1F2
+01658C	B1F3
+016FD2	B1F4
+016EE8	B1F5
+015BBE	B1F6
+016448	B1F7
+015175	B1F8
+0151B0	B1F9
+0167C4	B1FA
+014E19	B1FB
+0179C9	B1FC
+01997C	B1FD
+0170B3	B1FE
+0175C5	B2A1
+015E76	B2A2
+0173BB	B2A3
+0183E0	B2A4
+0164AD	B2A5
+0162E8	B2A6
+0194B5	B2A7
+016CE2	B2A8
+01535A	B2A9
+0152C3	B2AA
+01640F	B2AB
+0194C2	B2AC
+017B94	B2AD
+014F2F	B2AE
+015E1B	B2AF
+018236	B2B0
+018116	B2B1
+01818A	B2B2
+016E24	B2B3
+016CCA	B2B4
+019A73	B2B5
+016355	B2B6
+01535C	B2B7
+0154FA	B2B8
+018865	B2B9
+0157E0	B2BA
+014E0D	B2BB
+015E03	B2BC
+016B65	B2BD
+017C3F	B2BE
+0190E8	B2BF
+016016	B2C0
+0164E6	B2C1
+01731C	B2C2
+0188C1	B2C3
+016750	B2C4
+01624D	B2C5
+018D22	B2C6
+01776C	B2C7
+018E29	B2C8
+0191C7	B2C9
+015F69	B2CA
+0183DC	B2CB
+018521	B2CC
+019910	B2CD
+0153C2	B2CE
+018695	B2CF
+016B8B	B2D0
+0160ED	B2D1
+0160E8	B2D2
+01707F	B2D3
+0182CD	B2D4
+018231	B2D5
+014ED3	B2D6
+016CA7	B2D7
+0185CF	B2D8
+0164CD	B2D9
+017CD9	B2DA
+0169FD	B2DB
+0166F9	B2DC
+018349	B2DD
+015395	B2DE
+017B56	B2DF
+014FA7	B2E0
+01518C	B2E1
+016D4B	B2E2
+015C42	B2E3
+018E6D	B2E4
+0163D2	B2E5
+0153C9	B2E6
+01832C	B2E7
+018336	B2E8
+0167E5	B2E9
+0178B4	B2EA
+01643D	B2EB
+015BDF	B2EC
+015C94	B2ED
+015DEE	B2EE
+018BE7	B2EF
+0162C6	B2F0
+0167F4	B2F1
+018C7A	B2F2
+016400	B2F3
+0163BA	B2F4
+018749	B2F5
+01998B	B2F6
+018C17	B2F7
+017F20	B2F8
+0194F2	B2F9
+014EA7	B2FA
+019610	B2FB
+0198A4	B2FC
+01660C	B2FD
+017316	B2FE
+01573A	B3A1
+015C1D	B3A2
+015E38	B3A3
+01957F	B3A4
+01507F	B3A5
+0180A0	B3A6
+015382	B3A7
+01655E	B3A8
+017545	B3A9
+015531	B3AA
+015021	B3AB
+018D85	B3AC
+016284	B3AD
+01949E	B3AE
+01671D	B3AF
+015632	B3B0
+016F6E	B3B1
+015DE2	B3B2
+015435	B3B3
+017092	B3B4
+018F66	B3B5
+01626F	B3B6
+0164A4	B3B7
+0163A3	B3B8
+015F7B	B3B9
+016F88	B3BA
+0190F4	B3BB
+0181E3	B3BC
+018FB0	B3BD
+015C18	B3BE
+016668	B3BF
+015FF1	B3C0
+016C89	B3C1
+019648	B3C2
+018D81	B3C3
+01886C	B3C4
+016491	B3C5
+0179F0	B3C6
+0157CE	B3C7
+016A59	B3C8
+016210	B3C9
+015448	B3CA
+014E58	B3CB
+017A0B	B3CC
+0160E9	B3CD
+016F84	B3CE
+018BDA	B3CF
+01627F	B3D0
+01901E	B3D1
+019A8B	B3D2
+0179E4	B3D3
+015403	B3D4
+0175F4	B3D5
+016301	B3D6
+015319	B3D7
+016C60	B3D8
+018FDF	B3D9
+015F1B	B3DA
+019A70	B3DB
+01803B	B3DC
+019F7F	B3DD
+014F88	B3DE
+015C3A	B3DF
+018D64	B3E0
+017FC5	B3E1
+0165A5	B3E2
+0170BD	B3E3
+015145	B3E4
+0151B2	B3E5
+01866B	B3E6
+015D07	B3E7
+015BA0	B3E8
+0162BD	B3E9
+01916C	B3EA
+017574	B3EB
+018E0C	B3EC
+017A20	B3ED
+016101	B3EE
+017B79	B3EF
+014EC7	B3F0
+017EF8	B3F1
+017785	B3F2
+014E11	B3F3
+0181ED	B3F4
+01521D	B3F5
+0151FA	B3F6
+016A71	B3F7
+0153A8	B3F8
+018E87	B3F9
+019504	B3FA
+0196CF	B3FB
+016EC1	B3FC
+019664	B3FD
+01695A	B3FE
+017840	B4A1
+0150A8	B4A2
+0177D7	B4A3
+016410	B4A4
+0189E6	B4A5
+015904	B4A6
+0163E3	B4A7
+015DDD	B4A8
+017A7F	B4A9
+01693D	B4AA
+014F20	B4AB
+018239	B4AC
+015598	B4AD
+014E32	B4AE
+0175AE	B4AF
+017A97	B4B0
+015E62	B4B1
+015E8A	B4B2
+0195EF	B4B3
+01521B	B4B4
+015439	B4B5
+01708A	B4B6
+016376	B4B7
+019524	B4B8
+015782	B4B9
+016625	B4BA
+01693F	B4BB
+019187	B4BC
+015507	B4BD
+016DF3	B4BE
+017EAF	B4BF
+018822	B4C0
+016233	B4C1
+017EF0	B4C2
+0175B5	B4C3
+018328	B4C4
+0178C1	B4C5
+0196CC	B4C6
+018F9E	B4C7
+016148	B4C8
+0174F7	B4C9
+018BCD	B4CA
+016B64	B4CB
+01523A	B4CC
+018D50	B4CD
+016B21	B4CE
+01806A	B4CF
+018471	B4D0
+0156F1	B4D1
+015306	B4D2
+014ECE	B4D3
+014E1B	B4D4
+0151D1	B4D5
+017C97	B4D6
+01918B	B4D7
+017C07	B4D8
+014FC3	B4D9
+018E7F	B4DA
+017BE1	B4DB
+017A9C	B4DC
+016467	B4DD
+015D14	B4DE
+0150AC	B4DF
+018106	B4E0
+017601	B4E1
+017CB9	B4E2
+016DEC	B4E3
+017FE0	B4E4
+016751	B4E5
+015B58	B4E6
+015BF8	B4E7
+0178CB	B4E8
+0164AE	B4E9
+016413	B4EA
+0163AA	B4EB
+01632B	B4EC
+019519	B4ED
+01642D	B4EE
+018FBE	B4EF
+017B54	B4F0
+017629	B4F1
+016253	B4F2
+015927	B4F3
+015446	B4F4
+016B79	B4F5
+0150A3	B4F6
+016234	B4F7
+015E26	B4F8
+016B86	B4F9
+014EE3	B4FA
+018D37	B4FB
+01888B	B4FC
+015F85	B4FD
+01902E	B4FE
+016020	B5A1
+01803D	B5A2
+0162C5	B5A3
+014E39	B5A4
+015355	B5A5
+0190F8	B5A6
+0163B8	B5A7
+0180C6	B5A8
+0165E6	B5A9
+016C2E	B5AA
+014F46	B5AB
+0160EE	B5AC
+016DE1	B5AD
+018BDE	B5AE
+015F39	B5AF
+0186CB	B5B0
+015F53	B5B1
+016321	B5B2
+01515A	B5B3
+018361	B5B4
+016863	B5B5
+015200	B5B6
+016363	B5B7
+018E48	B5B8
+015012	B5B9
+015C9B	B5BA
+017977	B5BB
+015BFC	B5BC
+015230	B5BD
+017A3B	B5BE
+0160BC	B5BF
+019053	B5C0
+0176D7	B5C1
+015FB7	B5C2
+015F97	B5C3
+017684	B5C4
+018E6C	B5C5
+01706F	B5C6
+01767B	B5C7
+017B49	B5C8
+0177AA	B5C9
+0151F3	B5CA
+019093	B5CB
+015824	B5CC
+014F4E	B5CD
+016EF4	B5CE
+018FEA	B5CF
+01654C	B5D0
+017B1B	B5D1
+0172C4	B5D2
+016DA4	B5D3
+017FDF	B5D4
+015AE1	B5D5
+0162B5	B5D6
+015E95	B5D7
+015730	B5D8
+018482	B5D9
+017B2C	B5DA
+015E1D	B5DB
+015F1F	B5DC
+019012	B5DD
+017F14	B5DE
+0198A0	B5DF
+016382	B5E0
+016EC7	B5E1
+017898	B5E2
+0170B9	B5E3
+015178	B5E4
+01975B	B5E5
+0157AB	B5E6
+017535	B5E7
+014F43	B5E8
+017538	B5E9
+015E97	B5EA
+0160E6	B5EB
+015960	B5EC
+016DC0	B5ED
+016BBF	B5EE
+017889	B5EF
+0153FC	B5F0
+0196D5	B5F1
+0151CB	B5F2
+015201	B5F3
+016389	B5F4
+01540A	B5F5
+019493	B5F6
+018C03	B5F7
+018DCC	B5F8
+017239	B5F9
+01789F	B5FA
+018776	B5FB
+018FED	B5FC
+018C0D	B5FD
+0153E0	B5FE
+014E01	B6A1
+0176EF	B6A2
+0153EE	B6A3
+019489	B6A4
+019876	B6A5
+019F0E	B6A6
+01952D	B6A7
+015B9A	B6A8
+018BA2	B6A9
+014E22	B6AA
+014E1C	B6AB
+0151AC	B6AC
+018463	B6AD
+0161C2	B6AE
+0152A8	B6AF
+01680B	B6B0
+014F97	B6B1
+01606B	B6B2
+0151BB	B6B3
+016D1E	B6B4
+01515C	B6B5
+016296	B6B6
+016597	B6B7
+019661	B6B8
+018C46	B6B9
+019017	B6BA
+0175D8	B6BB
+0190FD	B6BC
+017763	B6BD
+016BD2	B6BE
+01728A	B6BF
+0172EC	B6C0
+018BFB	B6C1
+015835	B6C2
+017779	B6C3
+018D4C	B6C4
+01675C	B6C5
+019540	B6C6
+01809A	B6C7
+015EA6	B6C8
+016E21	B6C9
+015992	B6CA
+017AEF	B6CB
+0177ED	B6CC
+01953B	B6CD
+016BB5	B6CE
+0165AD	B6CF
+017F0E	B6D0
+015806	B6D1
+015151	B6D2
+01961F	B6D3
+015BF9	B6D4
+0158A9	B6D5
+015428	B6D6
+018E72	B6D7
+016566	B6D8
+01987F	B6D9
+0156E4	B6DA
+01949D	B6DB
+0176FE	B6DC
+019041	B6DD
+016387	B6DE
+0154C6	B6DF
+01591A	B6E0
+01593A	B6E1
+01579B	B6E2
+018EB2	B6E3
+016735	B6E4
+018DFA	B6E5
+018235	B6E6
+015241	B6E7
+0160F0	B6E8
+015815	B6E9
+0186FE	B6EA
+015CE8	B6EB
+019E45	B6EC
+014FC4	B6ED
+01989D	B6EE
+018BB9	B6EF
+015A25	B6F0
+016076	B6F1
+015384	B6F2
+01627C	B6F3
+01904F	B6F4
+019102	B6F5
+01997F	B6F6
+016069	B6F7
+01800C	B6F8
+01513F	B6F9
+018033	B6FA
+015C14	B6FB
+019975	B6FC
+016D31	B6FD
+014E8C	B6FE
+018D30	B7A1
+0153D1	B7A2
+017F5A	B7A3
+017B4F	B7A4
+014F10	B7A5
+014E4F	B7A6
+019600	B7A7
+016CD5	B7A8
+0173D0	B7A9
+0185E9	B7AA
+015E06	B7AB
+01756A	B7AC
+017FFB	B7AD
+016A0A	B7AE
+0177FE	B7AF
+019492	B7B0
+017E41	B7B1
+0151E1	B7B2
+0170E6	B7B3
+0153CD	B7B4
+018FD4	B7B5
+018303	B7B6
+018D29	B7B7
+0172AF	B7B8
+01996D	B7B9
+016CDB	B7BA
+01574A	B7BB
+0182B3	B7BC
+0165B9	B7BD
+0180AA	B7BE
+01623F	B7BF
+019632	B7C0
+0159A8	B7C1
+014EFF	B7C2
+018BBF	B7C3
+017EBA	B7C4
+01653E	B7C5
+0183F2	B7C6
+01975E	B7C7
+015561	B7C8
+0198DE	B7C9
+0180A5	B7CA
+01532A	B7CB
+018BFD	B7CC
+015420	B7CD
+0180BA	B7CE
+015E9F	B7CF
+016CB8	B7D0
+018D39	B7D1
+0182AC	B7D2
+01915A	B7D3
+015429	B7D4
+016C1B	B7D5
+015206	B7D6
+017EB7	B7D7
+01575F	B7D8
+01711A	B7D9
+016C7E	B7DA
+017C89	B7DB
+01594B	B7DC
+014EFD	B7DD
+015FFF	B7DE
+016124	B7DF
+017CAA	B7E0
+014E30	B7E1
+015C01	B7E2
+0167AB	B7E3
+018702	B7E4
+015CF0	B7E5
+01950B	B7E6
+0198CE	B7E7
+0175AF	B7E8
+0170FD	B7E9
+019022	B7EA
+0151AF	B7EB
+017F1D	B7EC
+018BBD	B7ED
+015949	B7EE
+0151E4	B7EF
+014F5B	B7F0
+015426	B7F1
+01592B	B7F2
+016577	B7F3
+0180A4	B7F4
+015B75	B7F5
+016276	B7F6
+0162C2	B7F7
+018F90	B7F8
+015E45	B7F9
+016C1F	B7FA
+017B26	B7FB
+014F0F	B7FC
+014FD8	B7FD
+01670D	B7FE
+016D6E	B8A1
+016DAA	B8A2
+01798F	B8A3
+0188B1	B8A4
+015F17	B8A5
+01752B	B8A6
+01629A	B8A7
+018F85	B8A8
+014FEF	B8A9
+0191DC	B8AA
+0165A7	B8AB
+01812F	B8AC
+018151	B8AD
+015E9C	B8AE
+018150	B8AF
+018D74	B8B0
+01526F	B8B1
+018986	B8B2
+018D4B	B8B3
+01590D	B8B4
+015085	B8B5
+014ED8	B8B6
+01961C	B8B7
+017236	B8B8
+018179	B8B9
+018D1F	B8BA
+015BCC	B8BB
+018BA3	B8BC
+019644	B8BD
+015987	B8BE
+017F1A	B8BF
+015490	B8C0
+015676	B8C1
+01560E	B8C2
+018BE5	B8C3
+016539	B8C4
+016982	B8C5
+019499	B8C6
+0176D6	B8C7
+016E89	B8C8
+015E72	B8C9
+017518	B8CA
+016746	B8CB
+0167D1	B8CC
+017AFF	B8CD
+01809D	B8CE
+018D76	B8CF
+01611F	B8D0
+0179C6	B8D1
+016562	B8D2
+018D63	B8D3
+015188	B8D4
+01521A	B8D5
+0194A2	B8D6
+017F38	B8D7
+01809B	B8D8
+017EB2	B8D9
+015C97	B8DA
+016E2F	B8DB
+016760	B8DC
+017BD9	B8DD
+01768B	B8DE
+019AD8	B8DF
+01818F	B8E0
+017F94	B8E1
+017CD5	B8E2
+01641E	B8E3
+019550	B8E4
+017A3F	B8E5
+01544A	B8E6
+0154E5	B8E7
+016B4C	B8E8
+016401	B8E9
+016208	B8EA
+019E3D	B8EB
+0180F3	B8EC
+017599	B8ED
+015272	B8EE
+019769	B8EF
+01845B	B8F0
+01683C	B8F1
+0186E4	B8F2
+019601	B8F3
+019694	B8F4
+0194EC	B8F5
+014E2A	B8F6
+015404	B8F7
+017ED9	B8F8
+016839	B8F9
+018DDF	B8FA
+018015	B8FB
+0166F4	B8FC
+015E9A	B8FD
+017FB9	B8FE
+0157C2	B9A1
+01803F	B9A2
+016897	B9A3
+015DE5	B9A4
+01653B	B9A5
+01529F	B9A6
+01606D	B9A7
+019F9A	B9A8
+014F9B	B9A9
+018EAC	B9AA
+01516C	B9AB
+015BAB	B9AC
+015F13	B9AD
+015DE9	B9AE
+016C5E	B9AF
+0162F1	B9B0
+018D21	B9B1
+015171	B9B2
+0194A9	B9B3
+0152FE	B9B4
+016C9F	B9B5
+0182DF	B9B6
+0172D7	B9B7
+0157A2	B9B8
+016784	B9B9
+018D2D	B9BA
+01591F	B9BB
+018F9C	B9BC
+0183C7	B9BD
+015495	B9BE
+017B8D	B9BF
+014F30	B9C0
+016CBD	B9C1
+015B64	B9C2
+0159D1	B9C3
+019F13	B9C4
+0153E4	B9C5
+0186CA	B9C6
+019AA8	B9C7
+018C37	B9C8
+0180A1	B9C9
+016545	B9CA
+01987E	B9CB
+0156FA	B9CC
+0196C7	B9CD
+01522E	B9CE
+0174DC	B9CF
+015250	B9D0
+015BE1	B9D1
+016302	B9D2
+018902	B9D3
+014E56	B9D4
+0162D0	B9D5
+01602A	B9D6
+0168FA	B9D7
+015173	B9D8
+015B98	B9D9
+0151A0	B9DA
+0189C2	B9DB
+017BA1	B9DC
+019986	B9DD
+017F50	B9DE
+0160EF	B9DF
+01704C	B9E0
+018D2F	B9E1
+015149	B9E2
+015E7F	B9E3
+01901B	B9E4
+017470	B9E5
+0189C4	B9E6
+01572D	B9E7
+017845	B9E8
+015F52	B9E9
+019F9F	B9EA
+0195FA	B9EB
+018F68	B9EC
+019B3C	B9ED
+018BE1	B9EE
+017678	B9EF
+016842	B9F0
+0167DC	B9F1
+018DEA	B9F2
+018D35	B9F3
+01523D	B9F4
+018F8A	B9F5
+016EDA	B9F6
+0168CD	B9F7
+019505	B9F8
+0190ED	B9F9
+0156FD	B9FA
+01679C	B9FB
+0188F9	B9FC
+018FC7	B9FD
+0154C8	B9FE
+019AB8	BAA1
+015B69	BAA2
+016D77	BAA3
+016C26	BAA4
+014EA5	BAA5
+015BB3	BAA6
+019A87	BAA7
+019163	BAA8
+0161A8	BAA9
+0190AF	BAAA
+0197E9	BAAB
+01542B	BAAC
+016DB5	BAAD
+015BD2	BAAE
+0151FD	BAAF
+01558A	BAB0
+017F55	BAB1
+017FF0	BAB2
+0164BC	BAB3
+01634D	BAB4
+0165F1	BAB5
+0161BE	BAB6
+01608D	BAB7
+01710A	BAB8
+016C57	BAB9
+016C49	BABA
+01592F	BABB
+01676D	BABC
+01822A	BABD
+0158D5	BABE
+01568E	BABF
+018C6A	BAC0
+016BEB	BAC1
+0190DD	BAC2
+01597D	BAC3
+018017	BAC4
+0153F7	BAC5
+016D69	BAC6
+015475	BAC7
+01559D	BAC8
+018377	BAC9
+0183CF	BACA
+016838	BACB
+0179BE	BACC
+01548C	BACD
+014F55	BACE
+015408	BACF
+0176D2	BAD0
+018C89	BAD1
+019602	BAD2
+016CB3	BAD3
+016DB8	BAD4
+018D6B	BAD5
+018910	BAD6
+019E64	BAD7
+018D3A	BAD8
+01563F	BAD9
+019ED1	BADA
+0175D5	BADB
+015F88	BADC
+0172E0	BADD
+016068	BADE
+0154FC	BADF
+014EA8	BAE0
+016A2A	BAE1
+018861	BAE2
+016052	BAE3
+018F70	BAE4
+0154C4	BAE5
+0170D8	BAE6
+018679	BAE7
+019E3F	BAE8
+016D2A	BAE9
+015B8F	BAEA
+015F18	BAEB
+017EA2	BAEC
+015589	BAED
+014FAF	BAEE
+017334	BAEF
+01543C	BAF0
+01539A	BAF1
+015019	BAF2
+01540E	BAF3
+01547C	BAF4
+014E4E	BAF5
+015FFD	BAF6
+01745A	BAF7
+0158F6	BAF8
+01846B	BAF9
+0180E1	BAFA
+018774	BAFB
+0172D0	BAFC
+017CCA	BAFD
+016E56	BAFE
+015F27	BBA1
+01864E	BBA2
+01552C	BBA3
+0162A4	BBA4
+014E92	BBA5
+016CAA	BBA6
+016237	BBA7
+0182B1	BBA8
+0154D7	BBA9
+01534E	BBAA
+01733E	BBAB
+016ED1	BBAC
+01753B	BBAD
+015212	BBAE
+015316	BBAF
+018BDD	BBB0
+0169D0	BBB1
+015F8A	BBB2
+016000	BBB3
+016DEE	BBB4
+01574F	BBB5
+016B22	BBB6
+0173AF	BBB7
+016853	BBB8
+018FD8	BBB9
+017F13	BBBA
+016362	BBBB
+0160A3	BBBC
+015524	BBBD
+0175EA	BBBE
+018C62	BBBF
+017115	BBC0
+016DA3	BBC1
+015BA6	BBC2
+015E7B	BBC3
+018352	BBC4
+01614C	BBC5
+019EC4	BBC6
+0178FA	BBC7
+018757	BBC8
+017C27	BBC9
+017687	BBCA
+0151F0	BBCB
+0160F6	BBCC
+01714C	BBCD
+016643	BBCE
+015E4C	BBCF
+01604D	BBD0
+018C0E	BBD1
+017070	BBD2
+016325	BBD3
+018F89	BBD4
+015FBD	BBD5
+016062	BBD6
+0186D4	BBD7
+0156DE	BBD8
+016BC1	BBD9
+016094	BBDA
+016167	BBDB
+015349	BBDC
+0160E0	BBDD
+016666	BBDE
+018D3F	BBDF
+0179FD	BBE0
+014F1A	BBE1
+0170E9	BBE2
+016C47	BBE3
+018BB3	BBE4
+018BF2	BBE5
+017ED8	BBE6
+018364	BBE7
+01660F	BBE8
+015A5A	BBE9
+019B42	BBEA
+016D51	BBEB
+016DF7	BBEC
+018C41	BBED
+016D3B	BBEE
+014F19	BBEF
+01706B	BBF0
+0183B7	BBF1
+016216	BBF2
+0160D1	BBF3
+01970D	BBF4
+018D27	BBF5
+017978	BBF6
+0151FB	BBF7
+01573E	BBF8
+0157FA	BBF9
+01673A	BBFA
+017578	BBFB
+017A3D	BBFC
+0179EF	BBFD
+017B95	BBFE
+01808C	BCA1
+019965	BCA2
+018FF9	BCA3
+016FC0	BCA4
+018BA5	BCA5
+019E21	BCA6
+0159EC	BCA7
+017EE9	BCA8
+017F09	BCA9
+015409	BCAA
+016781	BCAB
+0168D8	BCAC
+018F91	BCAD
+017C4D	BCAE
+0196C6	BCAF
+0153CA	BCB0
+016025	BCB1
+0175BE	BCB2
+016C72	BCB3
+015373	BCB4
+015AC9	BCB5
+017EA7	BCB6
+016324	BCB7
+0151E0	BCB8
+01810A	BCB9
+015DF1	BCBA
+0184DF	BCBB
+016280	BCBC
+015180	BCBD
+015B63	BCBE
+014F0E	BCBF
+01796D	BCC0
+015242	BCC1
+0160B8	BCC2
+016D4E	BCC3
+015BC4	BCC4
+015BC2	BCC5
+018BA1	BCC6
+018BB0	BCC7
+0165E2	BCC8
+015FCC	BCC9
+019645	BCCA
+015993	BCCB
+017EE7	BCCC
+017EAA	BCCD
+015609	BCCE
+0167B7	BCCF
+015939	BCD0
+014F73	BCD1
+015BB6	BCD2
+0152A0	BCD3
+01835A	BCD4
+01988A	BCD5
+018D3E	BCD6
+017532	BCD7
+0194BE	BCD8
+015047	BCD9
+017A3C	BCDA
+014EF7	BCDB
+0167B6	BCDC
+019A7E	BCDD
+015AC1	BCDE
+016B7C	BCDF
+0176D1	BCE0
+01575A	BCE1
+015C16	BCE2
+017B3A	BCE3
+0195F4	BCE4
+01714E	BCE5
+01517C	BCE6
+0180A9	BCE7
+018270	BCE8
+015978	BCE9
+017F04	BCEA
+018327	BCEB
+0168C0	BCEC
+0167EC	BCED
+0178B1	BCEE
+017877	BCEF
+0162E3	BCF0
+016361	BCF1
+017B80	BCF2
+014FED	BCF3
+01526A	BCF4
+0151CF	BCF5
+018350	BCF6
+0169DB	BCF7
+019274	BCF8
+018DF5	BCF9
+018D31	BCFA
+0189C1	BCFB
+01952E	BCFC
+017BAD	BCFD
+014EF6	BCFE
+015065	BDA1
+018230	BDA2
+015251	BDA3
+01996F	BDA4
+016E10	BDA5
+016E85	BDA6
+016DA7	BDA7
+015EFA	BDA8
+0150F5	BDA9
+0159DC	BDAA
+015C06	BDAB
+016D46	BDAC
+016C5F	BDAD
+017586	BDAE
+01848B	BDAF
+016868	BDB0
+015956	BDB1
+018BB2	BDB2
+015320	BDB3
+019171	BDB4
+01964D	BDB5
+018549	BDB6
+016912	BDB7
+017901	BDB8
+017126	BDB9
+0180F6	BDBA
+014EA4	BDBB
+0190CA	BDBC
+016D47	BDBD
+019A84	BDBE
+015A07	BDBF
+0156BC	BDC0
+016405	BDC1
+0194F0	BDC2
+0177EB	BDC3
+014FA5	BDC4
+01811A	BDC5
+0172E1	BDC6
+0189D2	BDC7
+01997A	BDC8
+017F34	BDC9
+017EDE	BDCA
+01527F	BDCB
+016559	BDCC
+019175	BDCD
+018F7F	BDCE
+018F83	BDCF
+0153EB	BDD0
+017A96	BDD1
+0163ED	BDD2
+0163A5	BDD3
+017686	BDD4
+0179F8	BDD5
+018857	BDD6
+019636	BDD7
+01622A	BDD8
+0152AB	BDD9
+018282	BDDA
+016854	BDDB
+016770	BDDC
+016377	BDDD
+01776B	BDDE
+017AED	BDDF
+016D01	BDE0
+017ED3	BDE1
+0189E3	BDE2
+0159D0	BDE3
+016212	BDE4
+0185C9	BDE5
+0182A5	BDE6
+01754C	BDE7
+01501F	BDE8
+014ECB	BDE9
+0175A5	BDEA
+018BEB	BDEB
+015C4A	BDEC
+015DFE	BDED
+017B4B	BDEE
+0165A4	BDEF
+0191D1	BDF0
+014ECA	BDF1
+016D25	BDF2
+01895F	BDF3
+017D27	BDF4
+019526	BDF5
+014EC5	BDF6
+018C28	BDF7
+018FDB	BDF8
+019773	BDF9
+01664B	BDFA
+017981	BDFB
+018FD1	BDFC
+0170EC	BDFD
+016D78	BDFE
+015C3D	BEA1
+0152B2	BEA2
+018346	BEA3
+015162	BEA4
+01830E	BEA5
+01775B	BEA6
+016676	BEA7
+019CB8	BEA8
+014EAC	BEA9
+0160CA	BEAA
+017CBE	BEAB
+017CB3	BEAC
+017ECF	BEAD
+014E95	BEAE
+018B66	BEAF
+01666F	BEB0
+019888	BEB1
+019759	BEB2
+015883	BEB3
+01656C	BEB4
+01955C	BEB5
+015F84	BEB6
+0175C9	BEB7
+019756	BEB8
+017ADF	BEB9
+017ADE	BEBA
+0151C0	BEBB
+0170AF	BEBC
+017A98	BEBD
+0163EA	BEBE
+017A76	BEBF
+017EA0	BEC0
+017396	BEC1
+0197ED	BEC2
+014E45	BEC3
+017078	BEC4
+014E5D	BEC5
+019152	BEC6
+0153A9	BEC7
+016551	BEC8
+0165E7	BEC9
+0181FC	BECA
+018205	BECB
+01548E	BECC
+015C31	BECD
+01759A	BECE
+0197A0	BECF
+0162D8	BED0
+0172D9	BED1
+0175BD	BED2
+015C45	BED3
+019A79	BED4
+0183CA	BED5
+015C40	BED6
+015480	BED7
+0177E9	BED8
+014E3E	BED9
+016CAE	BEDA
+01805A	BEDB
+0162D2	BEDC
+01636E	BEDD
+015DE8	BEDE
+015177	BEDF
+018DDD	BEE0
+018E1E	BEE1
+01952F	BEE2
+014FF1	BEE3
+0153E5	BEE4
+0160E7	BEE5
+0170AC	BEE6
+015267	BEE7
+016350	BEE8
+019E43	BEE9
+015A1F	BEEA
+015026	BEEB
+017737	BEEC
+015377	BEED
+017EE2	BEEE
+016485	BEEF
+01652B	BEF0
+016289	BEF1
+016398	BEF2
+015014	BEF3
+017235	BEF4
+0189C9	BEF5
+0151B3	BEF6
+018BC0	BEF7
+017EDD	BEF8
+015747	BEF9
+0183CC	BEFA
+0194A7	BEFB
+01519B	BEFC
+01541B	BEFD
+015CFB	BEFE
+014FCA	BFA1
+017AE3	BFA2
+016D5A	BFA3
+0190E1	BFA4
+019A8F	BFA5
+015580	BFA6
+015496	BFA7
+015361	BFA8
+0154AF	BFA9
+015F00	BFAA
+0163E9	BFAB
+016977	BFAC
+0151EF	BFAD
+016168	BFAE
+01520A	BFAF
+01582A	BFB0
+0152D8	BFB1
+01574E	BFB2
+01780D	BFB3
+01770B	BFB4
+015EB7	BFB5
+016177	BFB6
+017CE0	BFB7
+01625B	BFB8
+016297	BFB9
+014EA2	BFBA
+017095	BFBB
+018003	BFBC
+0162F7	BFBD
+0170E4	BFBE
+019760	BFBF
+015777	BFC0
+0182DB	BFC1
+0167EF	BFC2
+0168F5	BFC3
+0178D5	BFC4
+019897	BFC5
+0179D1	BFC6
+0158F3	BFC7
+0154B3	BFC8
+0153EF	BFC9
+016E34	BFCA
+01514B	BFCB
+01523B	BFCC
+015BA2	BFCD
+018BFE	BFCE
+0180AF	BFCF
+015543	BFD0
+0157A6	BFD1
+016073	BFD2
+015751	BFD3
+01542D	BFD4
+017A7A	BFD5
+016050	BFD6
+015B54	BFD7
+0163A7	BFD8
+0162A0	BFD9
+0153E3	BFDA
+016263	BFDB
+015BC7	BFDC
+0167AF	BFDD
+0154ED	BFDE
+017A9F	BFDF
+0182E6	BFE0
+019177	BFE1
+015E93	BFE2
+0188E4	BFE3
+015938	BFE4
+0157AE	BFE5
+01630E	BFE6
+018DE8	BFE7
+0180EF	BFE8
+015757	BFE9
+017B77	BFEA
+014FA9	BFEB
+015FEB	BFEC
+015BBD	BFED
+016B3E	BFEE
+015321	BFEF
+017B50	BFF0
+0172C2	BFF1
+016846	BFF2
+0177FF	BFF3
+017736	BFF4
+0165F7	BFF5
+0151B5	BFF6
+014E8F	BFF7
+0176D4	BFF8
+015CBF	BFF9
+017AA5	BFFA
+018475	BFFB
+01594E	BFFC
+019B41	BFFD
+015080	BFFE
+019988	C0A1
+016127	C0A2
+016E83	C0A3
+015764	C0A4
+016606	C0A5
+016346	C0A6
+0156F0	C0A7
+0162EC	C0A8
+016269	C0A9
+015ED3	C0AA
+019614	C0AB
+015783	C0AC
+0162C9	C0AD
+015587	C0AE
+018721	C0AF
+01814A	C0B0
+018FA3	C0B1
+015566	C0B2
+0183B1	C0B3
+016765	C0B4
+018D56	C0B5
+0184DD	C0B6
+015A6A	C0B7
+01680F	C0B8
+0162E6	C0B9
+017BEE	C0BA
+019611	C0BB
+015170	C0BC
+016F9C	C0BD
+018C30	C0BE
+0163FD	C0BF
+0189C8	C0C0
+0161D2	C0C1
+017F06	C0C2
+0170C2	C0C3
+016EE5	C0C4
+017405	C0C5
+016994	C0C6
+0172FC	C0C7
+015ECA	C0C8
+0190CE	C0C9
+016717	C0CA
+016D6A	C0CB
+01635E	C0CC
+0152B3	C0CD
+017262	C0CE
+018001	C0CF
+014F6C	C0D0
+0159E5	C0D1
+01916A	C0D2
+0170D9	C0D3
+016D9D	C0D4
+0152D2	C0D5
+014E50	C0D6
+0196F7	C0D7
+01956D	C0D8
+01857E	C0D9
+0178CA	C0DA
+017D2F	C0DB
+015121	C0DC
+015792	C0DD
+0164C2	C0DE
+01808B	C0DF
+017C7B	C0E0
+016CEA	C0E1
+0168F1	C0E2
+01695E	C0E3
+0151B7	C0E4
+015398	C0E5
+0168A8	C0E6
+017281	C0E7
+019ECE	C0E8
+017BF1	C0E9
+0172F8	C0EA
+0179BB	C0EB
+016F13	C0EC
+017406	C0ED
+01674E	C0EE
+0191CC	C0EF
+019CA4	C0F0
+01793C	C0F1
+018389	C0F2
+018354	C0F3
+01540F	C0F4
+016817	C0F5
+014E3D	C0F6
+015389	C0F7
+0152B1	C0F8
+01783E	C0F9
+015386	C0FA
+015229	C0FB
+015088	C0FC
+014F8B	C0FD
+014FD0	C0FE
+0175E2	C1A1
+017ACB	C1A2
+017C92	C1A3
+016CA5	C1A4
+0196B6	C1A5
+01529B	C1A6
+017483	C1A7
+0154E9	C1A8
+014FE9	C1A9
+018054	C1AA
+0183B2	C1AB
+018FDE	C1AC
+019570	C1AD
+015EC9	C1AE
+01601C	C1AF
+016D9F	C1B0
+015E18	C1B1
+01655B	C1B2
+018138	C1B3
+0194FE	C1B4
+01604B	C1B5
+0170BC	C1B6
+017EC3	C1B7
+017CAE	C1B8
+0151C9	C1B9
+016881	C1BA
+017CB1	C1BB
+01826F	C1BC
+014E24	C1BD
+018F86	C1BE
+0191CF	C1BF
+01667E	C1C0
+014EAE	C1C1
+018C05	C1C2
+0164A9	C1C3
+01804A	C1C4
+0150DA	C1C5
+017597	C1C6
+0171CE	C1C7
+015BE5	C1C8
+018FBD	C1C9
+016F66	C1CA
+014E86	C1CB
+016482	C1CC
+019563	C1CD
+015ED6	C1CE
+016599	C1CF
+015217	C1D0
+0188C2	C1D1
+0170C8	C1D2
+0152A3	C1D3
+01730E	C1D4
+017433	C1D5
+016797	C1D6
+0178F7	C1D7
+019716	C1D8
+014E34	C1D9
+0190BB	C1DA
+019CDE	C1DB
+016DCB	C1DC
+0151DB	C1DD
+018D41	C1DE
+01541D	C1DF
+0162CE	C1E0
+0173B2	C1E1
+0183F1	C1E2
+0196F6	C1E3
+019F84	C1E4
+0194C3	C1E5
+014F36	C1E6
+017F9A	C1E7
+0151CC	C1E8
+017075	C1E9
+019675	C1EA
+015CAD	C1EB
+019886	C1EC
+0153E6	C1ED
+014EE4	C1EE
+016E9C	C1EF
+017409	C1F0
+0169B4	C1F1
+01786B	C1F2
+01998F	C1F3
+017559	C1F4
+015218	C1F5
+017624	C1F6
+016D41	C1F7
+0167F3	C1F8
+01516D	C1F9
+019F99	C1FA
+01804B	C1FB
+015499	C1FC
+017B3C	C1FD
+017ABF	C1FE
+019686	C2A1
+015784	C2A2
+0162E2	C2A3
+019647	C2A4
+01697C	C2A5
+015A04	C2A6
+016402	C2A7
+017BD3	C2A8
+016F0F	C2A9
+01964B	C2AA
+0182A6	C2AB
+015362	C2AC
+019885	C2AD
+015E90	C2AE
+017089	C2AF
+0163B3	C2B0
+015364	C2B1
+01864F	C2B2
+019C81	C2B3
+019E93	C2B4
+01788C	C2B5
+019732	C2B6
+018DEF	C2B7
+018D42	C2B8
+019E7F	C2B9
+016F5E	C2BA
+017984	C2BB
+015F55	C2BC
+019646	C2BD
+01622E	C2BE
+019A74	C2BF
+015415	C2C0
+0194DD	C2C1
+014FA3	C2C2
+0165C5	C2C3
+015C65	C2C4
+015C61	C2C5
+017F15	C2C6
+018651	C2C7
+016C2F	C2C8
+015F8B	C2C9
+017387	C2CA
+016EE4	C2CB
+017EFF	C2CC
+015CE6	C2CD
+01631B	C2CE
+015B6A	C2CF
+016EE6	C2D0
+015375	C2D1
+014E71	C2D2
+0163A0	C2D3
+017565	C2D4
+0162A1	C2D5
+018F6E	C2D6
+014F26	C2D7
+014ED1	C2D8
+016CA6	C2D9
+017EB6	C2DA
+018BBA	C2DB
+01841D	C2DC
+0187BA	C2DD
+017F57	C2DE
+01903B	C2DF
+019523	C2E0
+017BA9	C2E1
+019AA1	C2E2
+0188F8	C2E3
+01843D	C2E4
+016D1B	C2E5
+019A86	C2E6
+017EDC	C2E7
+015988	C2E8
+019EBB	C2E9
+01739B	C2EA
+017801	C2EB
+018682	C2EC
+019A6C	C2ED
+019A82	C2EE
+01561B	C2EF
+015417	C2F0
+0157CB	C2F1
+014E70	C2F2
+019EA6	C2F3
+015356	C2F4
+018FC8	C2F5
+018109	C2F6
+017792	C2F7
+019992	C2F8
+0186EE	C2F9
+016EE1	C2FA
+018513	C2FB
+0166FC	C2FC
+016162	C2FD
+016F2B	C2FE
+018C29	C3A1
+018292	C3A2
+01832B	C3A3
+0176F2	C3A4
+016C13	C3A5
+015FD9	C3A6
+0183BD	C3A7
+01732B	C3A8
+018305	C3A9
+01951A	C3AA
+016BDB	C3AB
+0177DB	C3AC
+0194C6	C3AD
+01536F	C3AE
+018302	C3AF
+015192	C3B0
+015E3D	C3B1
+018C8C	C3B2
+018D38	C3B3
+014E48	C3B4
+0173AB	C3B5
+01679A	C3B6
+016885	C3B7
+019176	C3B8
+019709	C3B9
+017164	C3BA
+016CA1	C3BB
+017709	C3BC
+015A92	C3BD
+019541	C3BE
+016BCF	C3BF
+017F8E	C3C0
+016627	C3C1
+015BD0	C3C2
+0159B9	C3C3
+015A9A	C3C4
+0195E8	C3C5
+0195F7	C3C6
+014EEC	C3C7
+01840C	C3C8
+018499	C3C9
+016AAC	C3CA
+0176DF	C3CB
+019530	C3CC
+01731B	C3CD
+0168A6	C3CE
+015B5F	C3CF
+01772F	C3D0
+01919A	C3D1
+019761	C3D2
+017CDC	C3D3
+018FF7	C3D4
+018C1C	C3D5
+015F25	C3D6
+017C73	C3D7
+0179D8	C3D8
+0189C5	C3D9
+016CCC	C3DA
+01871C	C3DB
+015BC6	C3DC
+015E42	C3DD
+0168C9	C3DE
+017720	C3DF
+017EF5	C3E0
+015195	C3E1
+01514D	C3E2
+0152C9	C3E3
+015A29	C3E4
+017F05	C3E5
+019762	C3E6
+0182D7	C3E7
+0163CF	C3E8
+017784	C3E9
+0185D0	C3EA
+0179D2	C3EB
+016E3A	C3EC
+015E99	C3ED
+015999	C3EE
+018511	C3EF
+01706D	C3F0
+016C11	C3F1
+0162BF	C3F2
+0176BF	C3F3
+01654F	C3F4
+0160AF	C3F5
+0195FD	C3F6
+01660E	C3F7
+01879F	C3F8
+019E23	C3F9
+0194ED	C3FA
+01540D	C3FB
+01547D	C3FC
+018C2C	C3FD
+016478	C3FE
+016479	C4A1
+018611	C4A2
+016A21	C4A3
+01819C	C4A4
+0178E8	C4A5
+016469	C4A6
+019B54	C4A7
+0162B9	C4A8
+01672B	C4A9
+0183AB	C4AA
+0158A8	C4AB
+019ED8	C4AC
+016CAB	C4AD
+016F20	C4AE
+015BDE	C4AF
+01964C	C4B0
+018C0B	C4B1
+01725F	C4B2
+0167D0	C4B3
+0162C7	C4B4
+017261	C4B5
+014EA9	C4B6
+0159C6	C4B7
+016BCD	C4B8
+015893	C4B9
+0166AE	C4BA
+015E55	C4BB
+0152DF	C4BC
+016155	C4BD
+016728	C4BE
+0176EE	C4BF
+017766	C4C0
+017267	C4C1
+017A46	C4C2
+0162FF	C4C3
+0154EA	C4C4
+015450	C4C5
+0194A0	C4C6
+0190A3	C4C7
+015A1C	C4C8
+017EB3	C4C9
+016C16	C4CA
+014E43	C4CB
+015976	C4CC
+018010	C4CD
+015948	C4CE
+015357	C4CF
+017537	C4D0
+0196BE	C4D1
+0156CA	C4D2
+016320	C4D3
+018111	C4D4
+01607C	C4D5
+0195F9	C4D6
+016DD6	C4D7
+015462	C4D8
+019981	C4D9
+015185	C4DA
+015AE9	C4DB
+0180FD	C4DC
+0159AE	C4DD
+019713	C4DE
+01502A	C4DF
+016CE5	C4E0
+015C3C	C4E1
+0162DF	C4E2
+014F60	C4E3
+01533F	C4E4
+01817B	C4E5
+019006	C4E6
+016EBA	C4E7
+01852B	C4E8
+0162C8	C4E9
+015E74	C4EA
+0178BE	C4EB
+0164B5	C4EC
+01637B	C4ED
+015FF5	C4EE
+015A18	C4EF
+01917F	C4F0
+019E1F	C4F1
+015C3F	C4F2
+01634F	C4F3
+018042	C4F4
+015B7D	C4F5
+01556E	C4F6
+01954A	C4F7
+01954D	C4F8
+016D85	C4F9
+0160A8	C4FA
+0167E0	C4FB
+0172DE	C4FC
+0151DD	C4FD
+015B81	C4FE
+0162E7	C5A1
+016CDE	C5A2
+01725B	C5A3
+01626D	C5A4
+0194AE	C5A5
+017EBD	C5A6
+018113	C5A7
+016D53	C5A8
+01519C	C5A9
+015F04	C5AA
+015974	C5AB
+0152AA	C5AC
+016012	C5AD
+015973	C5AE
+016696	C5AF
+018650	C5B0
+01759F	C5B1
+01632A	C5B2
+0161E6	C5B3
+017CEF	C5B4
+018BFA	C5B5
+0154E6	C5B6
+016B27	C5B7
+019E25	C5B8
+016BB4	C5B9
+0185D5	C5BA
+015455	C5BB
+015076	C5BC
+016CA4	C5BD
+01556A	C5BE
+018DB4	C5BF
+01722C	C5C0
+015E15	C5C1
+016015	C5C2
+017436	C5C3
+0162CD	C5C4
+016392	C5C5
+01724C	C5C6
+015F98	C5C7
+016E43	C5C8
+016D3E	C5C9
+016500	C5CA
+016F58	C5CB
+0176D8	C5CC
+0178D0	C5CD
+0176FC	C5CE
+017554	C5CF
+015224	C5D0
+0153DB	C5D1
+014E53	C5D2
+015E9E	C5D3
+0165C1	C5D4
+01802A	C5D5
+0180D6	C5D6
+01629B	C5D7
+015486	C5D8
+015228	C5D9
+0170AE	C5DA
+01888D	C5DB
+018DD1	C5DC
+016CE1	C5DD
+015478	C5DE
+0180DA	C5DF
+0157F9	C5E0
+0188F4	C5E1
+018D54	C5E2
+01966A	C5E3
+01914D	C5E4
+014F69	C5E5
+016C9B	C5E6
+0155B7	C5E7
+0176C6	C5E8
+017830	C5E9
+0162A8	C5EA
+0170F9	C5EB
+016F8E	C5EC
+015F6D	C5ED
+0184EC	C5EE
+0168DA	C5EF
+01787C	C5F0
+017BF7	C5F1
+0181A8	C5F2
+01670B	C5F3
+019E4F	C5F4
+016367	C5F5
+0178B0	C5F6
+01576F	C5F7
+017812	C5F8
+019739	C5F9
+016279	C5FA
+0162AB	C5FB
+015288	C5FC
+017435	C5FD
+016BD7	C5FE
+015564	C6A1
+01813E	C6A2
+0175B2	C6A3
+0176AE	C6A4
+015339	C6A5
+0175DE	C6A6
+0150FB	C6A7
+015C41	C6A8
+018B6C	C6A9
+017BC7	C6AA
+01504F	C6AB
+017247	C6AC
+019A97	C6AD
+0198D8	C6AE
+016F02	C6AF
+0174E2	C6B0
+017968	C6B1
+016487	C6B2
+0177A5	C6B3
+0162FC	C6B4
+019891	C6B5
+018D2B	C6B6
+0154C1	C6B7
+018058	C6B8
+014E52	C6B9
+01576A	C6BA
+0182F9	C6BB
+01840D	C6BC
+015E73	C6BD
+0151ED	C6BE
+0174F6	C6BF
+018BC4	C6C0
+015C4F	C6C1
+015761	C6C2
+016CFC	C6C3
+019887	C6C4
+015A46	C6C5
+017834	C6C6
+019B44	C6C7
+018FEB	C6C8
+017C95	C6C9
+015256	C6CA
+016251	C6CB
+0194FA	C6CC
+014EC6	C6CD
+018386	C6CE
+018461	C6CF
+0183E9	C6D0
+0184B2	C6D1
+0157D4	C6D2
+016734	C6D3
+015703	C6D4
+01666E	C6D5
+016D66	C6D6
+018C31	C6D7
+0166DD	C6D8
+017011	C6D9
+01671F	C6DA
+016B3A	C6DB
+016816	C6DC
+01621A	C6DD
+0159BB	C6DE
+014E03	C6DF
+0151C4	C6E0
+016F06	C6E1
+0167D2	C6E2
+016C8F	C6E3
+015176	C6E4
+0168CB	C6E5
+015947	C6E6
+016B67	C6E7
+017566	C6E8
+015D0E	C6E9
+018110	C6EA
+019F50	C6EB
+0165D7	C6EC
+017948	C6ED
+017941	C6EE
+019A91	C6EF
+018D77	C6F0
+015C82	C6F1
+014E5E	C6F2
+014F01	C6F3
+01542F	C6F4
+015951	C6F5
+01780C	C6F6
+015668	C6F7
+016C14	C6F8
+018FC4	C6F9
+015F03	C6FA
+016C7D	C6FB
+016CE3	C6FC
+018BAB	C6FD
+016390	C6FE
+016070	C7A1
+016D3D	C7A2
+017275	C7A3
+016266	C7A4
+01948E	C7A5
+0194C5	C7A6
+015343	C7A7
+018FC1	C7A8
+017B7E	C7A9
+014EDF	C7AA
+018C26	C7AB
+014E7E	C7AC
+019ED4	C7AD
+0194B1	C7AE
+0194B3	C7AF
+01524D	C7B0
+016F5C	C7B1
+019063	C7B2
+016D45	C7B3
+018C34	C7B4
+015811	C7B5
+015D4C	C7B6
+016B20	C7B7
+016B49	C7B8
+0167AA	C7B9
+01545B	C7BA
+018154	C7BB
+017F8C	C7BC
+015899	C7BD
+018537	C7BE
+015F3A	C7BF
+0162A2	C7C0
+016A47	C7C1
+019539	C7C2
+016572	C7C3
+016084	C7C4
+016865	C7C5
+0177A7	C7C6
+014E54	C7C7
+014FA8	C7C8
+015DE7	C7C9
+019798	C7CA
+0164AC	C7CB
+017FD8	C7CC
+015CED	C7CD
+014FCF	C7CE
+017A8D	C7CF
+015207	C7D0
+018304	C7D1
+014E14	C7D2
+01602F	C7D3
+017A83	C7D4
+0194A6	C7D5
+014FB5	C7D6
+014EB2	C7D7
+0179E6	C7D8
+017434	C7D9
+0152E4	C7DA
+0182B9	C7DB
+0164D2	C7DC
+0179BD	C7DD
+015BDD	C7DE
+016C81	C7DF
+019752	C7E0
+018F7B	C7E1
+016C22	C7E2
+01503E	C7E3
+01537F	C7E4
+016E05	C7E5
+0164CE	C7E6
+016674	C7E7
+016C30	C7E8
+0160C5	C7E9
+019877	C7EA
+018BF7	C7EB
+015E86	C7EC
+01743C	C7ED
+017A77	C7EE
+0179CB	C7EF
+014E18	C7F0
+0190B1	C7F1
+017403	C7F2
+016C42	C7F3
+0156DA	C7F4
+01914B	C7F5
+016CC5	C7F6
+018D8B	C7F7
+01533A	C7F8
+0186C6	C7F9
+0166F2	C7FA
+018EAF	C7FB
+015C48	C7FC
+019A71	C7FD
+016E20	C7FE
+0153D6	C8A1
+015A36	C8A2
+019F8B	C8A3
+018DA3	C8A4
+0153BB	C8A5
+015708	C8A6
+0198A7	C8A7
+016743	C8A8
+01919B	C8A9
+016CC9	C8AA
+015168	C8AB
+0175CA	C8AC
+0162F3	C8AD
+0172AC	C8AE
+015238	C8AF
+01529D	C8B0
+017F3A	C8B1
+017094	C8B2
+017638	C8B3
+015374	C8B4
+019E4A	C8B5
+0169B7	C8B6
+01786E	C8B7
+0196C0	C8B8
+0188D9	C8B9
+017FA4	C8BA
+017136	C8BB
+0171C3	C8BC
+015189	C8BD
+0167D3	C8BE
+0174E4	C8BF
+0158E4	C8C0
+016518	C8C1
+0156B7	C8C2
+018BA9	C8C3
+019976	C8C4
+016270	C8C5
+017ED5	C8C6
+0160F9	C8C7
+0170ED	C8C8
+0158EC	C8C9
+014EC1	C8CA
+014EBA	C8CB
+015FCD	C8CC
+0197E7	C8CD
+014EFB	C8CE
+018BA4	C8CF
+015203	C8D0
+01598A	C8D1
+017EAB	C8D2
+016254	C8D3
+014ECD	C8D4
+0165E5	C8D5
+01620E	C8D6
+018338	C8D7
+0184C9	C8D8
+018363	C8D9
+01878D	C8DA
+017194	C8DB
+016EB6	C8DC
+015BB9	C8DD
+017ED2	C8DE
+015197	C8DF
+0163C9	C8E0
+0167D4	C8E1
+018089	C8E2
+018339	C8E3
+018815	C8E4
+015112	C8E5
+015B7A	C8E6
+015982	C8E7
+018FB1	C8E8
+014E73	C8E9
+016C5D	C8EA
+015165	C8EB
+018925	C8EC
+018F6F	C8ED
+01962E	C8EE
+01854A	C8EF
+01745E	C8F0
+019510	C8F1
+0195F0	C8F2
+016DA6	C8F3
+0182E5	C8F4
+015F31	C8F5
+016492	C8F6
+016D12	C8F7
+018428	C8F8
+01816E	C8F9
+019CC3	C8FA
+01585E	C8FB
+018D5B	C8FC
+014E09	C8FD
+0153C1	C8FE
+014F1E	C9A1
+016563	C9A2
+016851	C9A3
+0155D3	C9A4
+014E27	C9A5
+016414	C9A6
+019A9A	C9A7
+01626B	C9A8
+015AC2	C9A9
+01745F	C9AA
+018272	C9AB
+016DA9	C9AC
+0168EE	C9AD
+0150E7	C9AE
+01838E	C9AF
+017802	C9B0
+016740	C9B1
+015239	C9B2
+016C99	C9B3
+017EB1	C9B4
+0150BB	C9B5
+015565	C9B6
+01715E	C9B7
+017B5B	C9B8
+016652	C9B9
+0173CA	C9BA
+0182EB	C9BB
+016749	C9BC
+015C71	C9BD
+015220	C9BE
+01717D	C9BF
+01886B	C9C0
+0195EA	C9C1
+019655	C9C2
+0164C5	C9C3
+018D61	C9C4
+0181B3	C9C5
+015584	C9C6
+016C55	C9C7
+016247	C9C8
+017F2E	C9C9
+015892	C9CA
+014F24	C9CB
+015546	C9CC
+018D4F	C9CD
+01664C	C9CE
+014E0A	C9CF
+015C1A	C9D0
+0188F3	C9D1
+0168A2	C9D2
+01634E	C9D3
+017A0D	C9D4
+0170E7	C9D5
+01828D	C9D6
+0152FA	C9D7
+0197F6	C9D8
+015C11	C9D9
+0154E8	C9DA
+0190B5	C9DB
+017ECD	C9DC
+015962	C9DD
+018D4A	C9DE
+0186C7	C9DF
+01820C	C9E0
+01820D	C9E1
+018D66	C9E2
+016444	C9E3
+015C04	C9E4
+016151	C9E5
+016D89	C9E6
+01793E	C9E7
+018BBE	C9E8
+017837	C9E9
+017533	C9EA
+01547B	C9EB
+014F38	C9EC
+018EAB	C9ED
+016DF1	C9EE
+015A20	C9EF
+017EC5	C9F0
+01795E	C9F1
+016C88	C9F2
+015BA1	C9F3
+015A76	C9F4
+01751A	C9F5
+0180BE	C9F6
+01614E	C9F7
+016E17	C9F8
+0158F0	C9F9
+01751F	C9FA
+017525	C9FB
+017272	C9FC
+015347	C9FD
+017EF3	C9FE
+017701	CAA1
+0176DB	CAA2
+015269	CAA3
+0180DC	CAA4
+015723	CAA5
+015E08	CAA6
+015931	CAA7
+0172EE	CAA8
+0165BD	CAA9
+016E7F	CAAA
+018BD7	CAAB
+015C38	CAAC
+018671	CAAD
+015341	CAAE
+0177F3	CAAF
+0162FE	CAB0
+0165F6	CAB1
+014EC0	CAB2
+0198DF	CAB3
+018680	CAB4
+015B9E	CAB5
+018BC6	CAB6
+0153F2	CAB7
+0177E2	CAB8
+014F7F	CAB9
+015C4E	CABA
+019A76	CABB
+0159CB	CABC
+015F0F	CABD
+01793A	CABE
+0158EB	CABF
+014E16	CAC0
+0167FF	CAC1
+014E8B	CAC2
+0162ED	CAC3
+018A93	CAC4
+01901D	CAC5
+0152BF	CAC6
+01662F	CAC7
+0155DC	CAC8
+01566C	CAC9
+019002	CACA
+014ED5	CACB
+014F8D	CACC
+0191CA	CACD
+019970	CACE
+016C0F	CACF
+015E02	CAD0
+016043	CAD1
+015BA4	CAD2
+0189C6	CAD3
+018BD5	CAD4
+016536	CAD5
+01624B	CAD6
+019996	CAD7
+015B88	CAD8
+015BFF	CAD9
+016388	CADA
+01552E	CADB
+0153D7	CADC
+017626	CADD
+01517D	CADE
+01852C	CADF
+0167A2	CAE0
+0168B3	CAE1
+016B8A	CAE2
+016292	CAE3
+018F93	CAE4
+0153D4	CAE5
+018212	CAE6
+016DD1	CAE7
+01758F	CAE8
+014E66	CAE9
+018D4E	CAEA
+015B70	CAEB
+01719F	CAEC
+0185AF	CAED
+016691	CAEE
+0166D9	CAEF
+017F72	CAF0
+018700	CAF1
+019ECD	CAF2
+019F20	CAF3
+015C5E	CAF4
+01672F	CAF5
+018FF0	CAF6
+016811	CAF7
+01675F	CAF8
+01620D	CAF9
+017AD6	CAFA
+015885	CAFB
+015EB6	CAFC
+016570	CAFD
+016F31	CAFE
+016055	CBA1
+015237	CBA2
+01800D	CBA3
+016454	CBA4
+018870	CBA5
+017529	CBA6
+015E05	CBA7
+016813	CBA8
+0162F4	CBA9
+01971C	CBAA
+0153CC	CBAB
+01723D	CBAC
+018C01	CBAD
+016C34	CBAE
+017761	CBAF
+017A0E	CBB0
+01542E	CBB1
+0177AC	CBB2
+01987A	CBB3
+01821C	CBB4
+018BF4	CBB5
+017855	CBB6
+016714	CBB7
+0170C1	CBB8
+0165AF	CBB9
+016495	CBBA
+015636	CBBB
+01601D	CBBC
+0179C1	CBBD
+0153F8	CBBE
+014E1D	CBBF
+016B7B	CBC0
+018086	CBC1
+015BFA	CBC2
+0155E3	CBC3
+0156DB	CBC4
+014F3A	CBC5
+014F3C	CBC6
+019972	CBC7
+015DF3	CBC8
+01677E	CBC9
+018038	CBCA
+016002	CBCB
+019882	CBCC
+019001	CBCD
+015B8B	CBCE
+018BBC	CBCF
+018BF5	CBD0
+01641C	CBD1
+018258	CBD2
+0164DE	CBD3
+0155FD	CBD4
+0182CF	CBD5
+019165	CBD6
+014FD7	CBD7
+017D20	CBD8
+01901F	CBD9
+017C9F	CBDA
+0150F3	CBDB
+015851	CBDC
+016EAF	CBDD
+015BBF	CBDE
+018BC9	CBDF
+018083	CBE0
+019178	CBE1
+01849C	CBE2
+017B97	CBE3
+01867D	CBE4
+01968B	CBE5
+01968F	CBE6
+017EE5	CBE7
+019AD3	CBE8
+01788E	CBE9
+015C81	CBEA
+017A57	CBEB
+019042	CBEC
+0196A7	CBED
+01795F	CBEE
+015B59	CBEF
+01635F	CBF0
+017B0B	CBF1
+0184D1	CBF2
+0168AD	CBF3
+015506	CBF4
+017F29	CBF5
+017410	CBF6
+017D22	CBF7
+019501	CBF8
+016240	CBF9
+01584C	CBFA
+014ED6	CBFB
+015B83	CBFC
+015979	CBFD
+015854	CBFE
+01736D	CCA1
+01631E	CCA2
+018E4B	CCA3
+018E0F	CCA4
+0180CE	CCA5
+0182D4	CCA6
+0162AC	CCA7
+0153F0	CCA8
+016CF0	CCA9
+01915E	CCAA
+01592A	CCAB
+016001	CCAC
+016C70	CCAD
+01574D	CCAE
+01644A	CCAF
+018D2A	CCB0
+01762B	CCB1
+016EE9	CCB2
+01575B	CCB3
+016A80	CCB4
+0175F0	CCB5
+016F6D	CCB6
+018C2D	CCB7
+018C08	CCB8
+015766	CCB9
+016BEF	CCBA
+018892	CCBB
+0178B3	CCBC
+0163A2	CCBD
+0153F9	CCBE
+0170AD	CCBF
+016C64	CCC0
+015858	CCC1
+01642A	CCC2
+015802	CCC3
+0168E0	CCC4
+01819B	CCC5
+015510	CCC6
+017CD6	CCC7
+015018	CCC8
+018EBA	CCC9
+016DCC	CCCA
+018D9F	CCCB
+0170EB	CCCC
+01638F	CCCD
+016D9B	CCCE
+016ED4	CCCF
+017EE6	CCD0
+018404	CCD1
+016843	CCD2
+019003	CCD3
+016DD8	CCD4
+019676	CCD5
+018BA8	CCD6
+015957	CCD7
+017279	CCD8
+0185E4	CCD9
+01817E	CCDA
+0175BC	CCDB
+018A8A	CCDC
+0168AF	CCDD
+015254	CCDE
+018E22	CCDF
+019511	CCE0
+0163D0	CCE1
+019898	CCE2
+018E44	CCE3
+01557C	CCE4
+014F53	CCE5
+0166FF	CCE6
+01568F	CCE7
+0160D5	CCE8
+016D95	CCE9
+015243	CCEA
+015C49	CCEB
+015929	CCEC
+016DFB	CCED
+01586B	CCEE
+017530	CCEF
+01751C	CCF0
+01606C	CCF1
+018214	CCF2
+018146	CCF3
+016311	CCF4
+016761	CCF5
+018FE2	CCF6
+01773A	CCF7
+018DF3	CCF8
+018D34	CCF9
+0194C1	CCFA
+015E16	CCFB
+015385	CCFC
+01542C	CCFD
+0170C3	CCFE
+016C40	CDA1
+015EF7	CDA2
+01505C	CDA3
+014EAD	CDA4
+015EAD	CDA5
+01633A	CDA6
+018247	CDA7
+01901A	CDA8
+016850	CDA9
+01916E	CDAA
+0177B3	CDAB
+01540C	CDAC
+0194DC	CDAD
+015F64	CDAE
+017AE5	CDAF
+016876	CDB0
+016345	CDB1
+017B52	CDB2
+017EDF	CDB3
+0175DB	CDB4
+015077	CDB5
+016295	CDB6
+015934	CDB7
+01900F	CDB8
+0151F8	CDB9
+0179C3	CDBA
+017A81	CDBB
+0156FE	CDBC
+015F92	CDBD
+019014	CDBE
+016D82	CDBF
+015C60	CDC0
+01571F	CDC1
+015410	CDC2
+015154	CDC3
+016E4D	CDC4
+0156E2	CDC5
+0163A8	CDC6
+019893	CDC7
+01817F	CDC8
+018715	CDC9
+01892A	CDCA
+019000	CDCB
+01541E	CDCC
+015C6F	CDCD
+0181C0	CDCE
+0162D6	CDCF
+016258	CDD0
+018131	CDD1
+019E35	CDD2
+019640	CDD3
+019A6E	CDD4
+019A7C	CDD5
+01692D	CDD6
+0159A5	CDD7
+0162D3	CDD8
+01553E	CDD9
+016316	CDDA
+0154C7	CDDB
+0186D9	CDDC
+016D3C	CDDD
+015A03	CDDE
+0174E6	CDDF
+01889C	CDE0
+016B6A	CDE1
+015916	CDE2
+018C4C	CDE3
+015F2F	CDE4
+016E7E	CDE5
+0173A9	CDE6
+01987D	CDE7
+014E38	CDE8
+0170F7	CDE9
+015B8C	CDEA
+017897	CDEB
+01633D	CDEC
+01665A	CDED
+017696	CDEE
+0160CB	CDEF
+015B9B	CDF0
+015A49	CDF1
+014E07	CDF2
+018155	CDF3
+016C6A	CDF4
+01738B	CDF5
+014EA1	CDF6
+016789	CDF7
+017F51	CDF8
+015F80	CDF9
+0165FA	CDFA
+01671B	CDFB
+015FD8	CDFC
+015984	CDFD
+015A01	CDFE
+015DCD	CEA1
+015FAE	CEA2
+015371	CEA3
+0197E6	CEA4
+018FDD	CEA5
+016845	CEA6
+0156F4	CEA7
+01552F	CEA8
+0160DF	CEA9
+014E3A	CEAA
+016F4D	CEAB
+017EF4	CEAC
+0182C7	CEAD
+01840E	CEAE
+0159D4	CEAF
+014F1F	CEB0
+014F2A	CEB1
+015C3E	CEB2
+017EAC	CEB3
+01672A	CEB4
+01851A	CEB5
+015473	CEB6
+01754F	CEB7
+0180C3	CEB8
+015582	CEB9
+019B4F	CEBA
+014F4D	CEBB
+016E2D	CEBC
+018C13	CEBD
+015C09	CEBE
+016170	CEBF
+01536B	CEC0
+01761F	CEC1
+016E29	CEC2
+01868A	CEC3
+016587	CEC4
+0195FB	CEC5
+017EB9	CEC6
+01543B	CEC7
+017A33	CEC8
+017D0A	CEC9
+0195EE	CECA
+0155E1	CECB
+017FC1	CECC
+0174EE	CECD
+01631D	CECE
+018717	CECF
+016DA1	CED0
+017A9D	CED1
+016211	CED2
+0165A1	CED3
+015367	CED4
+0163E1	CED5
+016C83	CED6
+015DEB	CED7
+01545C	CED8
+0194A8	CED9
+014E4C	CEDA
+016C61	CEDB
+018BEC	CEDC
+015C4B	CEDD
+0165E0	CEDE
+01829C	CEDF
+0168A7	CEE0
+01543E	CEE1
+015434	CEE2
+016BCB	CEE3
+016B66	CEE4
+014E94	CEE5
+016342	CEE6
+015348	CEE7
+01821E	CEE8
+014F0D	CEE9
+014FAE	CEEA
+01575E	CEEB
+01620A	CEEC
+0196FE	CEED
+016664	CEEE
+017269	CEEF
+0152FF	CEF0
+0152A1	CEF1
+01609F	CEF2
+018BEF	CEF3
+016614	CEF4
+017199	CEF5
+016790	CEF6
+01897F	CEF7
+017852	CEF8
+0177FD	CEF9
+016670	CEFA
+01563B	CEFB
+015438	CEFC
+019521	CEFD
+01727A	CEFE
+017A00	CFA1
+01606F	CFA2
+015E0C	CFA3
+016089	CFA4
+01819D	CFA5
+015915	CFA6
+0160DC	CFA7
+017184	CFA8
+0170EF	CFA9
+016EAA	CFAA
+016C50	CFAB
+017280	CFAC
+016A84	CFAD
+0188AD	CFAE
+015E2D	CFAF
+014E60	CFB0
+015AB3	CFB1
+01559C	CFB2
+0194E3	CFB3
+016D17	CFB4
+017CFB	CFB5
+019699	CFB6
+01620F	CFB7
+017EC6	CFB8
+01778E	CFB9
+01867E	CFBA
+015323	CFBB
+01971E	CFBC
+018F96	CFBD
+016687	CFBE
+015CE1	CFBF
+014FA0	CFC0
+0172ED	CFC1
+014E0B	CFC2
+0153A6	CFC3
+01590F	CFC4
+015413	CFC5
+016380	CFC6
+019528	CFC7
+015148	CFC8
+014ED9	CFC9
+019C9C	CFCA
+017EA4	CFCB
+0154B8	CFCC
+018D24	CFCD
+018854	CFCE
+018237	CFCF
+0195F2	CFD0
+016D8E	CFD1
+015F26	CFD2
+015ACC	CFD3
+01663E	CFD4
+019669	CFD5
+0173B0	CFD6
+01732E	CFD7
+0153BF	CFD8
+01817A	CFD9
+019985	CFDA
+017FA1	CFDB
+015BAA	CFDC
+019677	CFDD
+019650	CFDE
+017EBF	CFDF
+0176F8	CFE0
+0153A2	CFE1
+019576	CFE2
+019999	CFE3
+017BB1	CFE4
+018944	CFE5
+016E58	CFE6
+014E61	CFE7
+017FD4	CFE8
+017965	CFE9
+018BE6	CFEA
+0160F3	CFEB
+0154CD	CFEC
+014EAB	CFED
+019879	CFEE
+015DF7	CFEF
+016A61	CFF0
+0150CF	CFF1
+015411	CFF2
+018C61	CFF3
+018427	CFF4
+01785D	CFF5
+019704	CFF6
+01524A	CFF7
+0154EE	CFF8
+0156A3	CFF9
+019500	CFFA
+016D88	CFFB
+015BB5	CFFC
+016DC6	CFFD
+016653	CFFE
+015C0F	D0A1
+015B5D	D0A2
+016821	D0A3
+018096	D0A4
+015578	D0A5
+017B11	D0A6
+016548	D0A7
+016954	D0A8
+014E9B	D0A9
+016B47	D0AA
+01874E	D0AB
+01978B	D0AC
+01534F	D0AD
+01631F	D0AE
+01643A	D0AF
+0190AA	D0B0
+01659C	D0B1
+0180C1	D0B2
+018C10	D0B3
+015199	D0B4
+0168B0	D0B5
+015378	D0B6
+0187F9	D0B7
+0161C8	D0B8
+016CC4	D0B9
+016CFB	D0BA
+018C22	D0BB
+015C51	D0BC
+0185AA	D0BD
+0182AF	D0BE
+01950C	D0BF
+016B23	D0C0
+018F9B	D0C1
+0165B0	D0C2
+015FFB	D0C3
+015FC3	D0C4
+014FE1	D0C5
+018845	D0C6
+01661F	D0C7
+018165	D0C8
+017329	D0C9
+0160FA	D0CA
+015174	D0CB
+015211	D0CC
+01578B	D0CD
+015F62	D0CE
+0190A2	D0CF
+01884C	D0D0
+019192	D0D1
+015E78	D0D2
+01674F	D0D3
+016027	D0D4
+0159D3	D0D5
+015144	D0D6
+0151F6	D0D7
+0180F8	D0D8
+015308	D0D9
+016C79	D0DA
+0196C4	D0DB
+01718A	D0DC
+014F11	D0DD
+014FEE	D0DE
+017F9E	D0DF
+01673D	D0E0
+0155C5	D0E1
+019508	D0E2
+0179C0	D0E3
+018896	D0E4
+017EE3	D0E5
+01589F	D0E6
+01620C	D0E7
+019700	D0E8
+01865A	D0E9
+015618	D0EA
+01987B	D0EB
+015F90	D0EC
+018BB8	D0ED
+0184C4	D0EE
+019157	D0EF
+0153D9	D0F0
+0165ED	D0F1
+015E8F	D0F2
+01755C	D0F3
+016064	D0F4
+017D6E	D0F5
+015A7F	D0F6
+017EEA	D0F7
+017EED	D0F8
+018F69	D0F9
+0155A7	D0FA
+015BA3	D0FB
+0160AC	D0FC
+0165CB	D0FD
+017384	D0FE
+019009	D1A1
+017663	D1A2
+017729	D1A3
+017EDA	D1A4
+019774	D1A5
+01859B	D1A6
+015B66	D1A7
+017A74	D1A8
+0196EA	D1A9
+018840	D1AA
+0152CB	D1AB
+01718F	D1AC
+015FAA	D1AD
+0165EC	D1AE
+018BE2	D1AF
+015BFB	D1B0
+019A6F	D1B1
+015DE1	D1B2
+016B89	D1B3
+016C5B	D1B4
+018BAD	D1B5
+018BAF	D1B6
+01900A	D1B7
+018FC5	D1B8
+01538B	D1B9
+0162BC	D1BA
+019E26	D1BB
+019E2D	D1BC
+015440	D1BD
+014E2B	D1BE
+0182BD	D1BF
+017259	D1C0
+01869C	D1C1
+015D16	D1C2
+018859	D1C3
+016DAF	D1C4
+0196C5	D1C5
+0154D1	D1C6
+014E9A	D1C7
+018BB6	D1C8
+017109	D1C9
+0154BD	D1CA
+019609	D1CB
+0170DF	D1CC
+016DF9	D1CD
+0176D0	D1CE
+014E25	D1CF
+017814	D1D0
+018712	D1D1
+015CA9	D1D2
+015EF6	D1D3
+018A00	D1D4
+01989C	D1D5
+01960E	D1D6
+01708E	D1D7
+016CBF	D1D8
+015944	D1D9
+0163A9	D1DA
+01773C	D1DB
+01884D	D1DC
+016F14	D1DD
+018273	D1DE
+015830	D1DF
+0171D5	D1E0
+01538C	D1E1
+01781A	D1E2
+0196C1	D1E3
+015501	D1E4
+015F66	D1E5
+017130	D1E6
+015BB4	D1E7
+018C1A	D1E8
+019A8C	D1E9
+016B83	D1EA
+01592E	D1EB
+019E2F	D1EC
+0179E7	D1ED
+016768	D1EE
+01626C	D1EF
+014F6F	D1F0
+0175A1	D1F1
+017F8A	D1F2
+016D0B	D1F3
+019633	D1F4
+016C27	D1F5
+014EF0	D1F6
+0175D2	D1F7
+01517B	D1F8
+016837	D1F9
+016F3E	D1FA
+019080	D1FB
+018170	D1FC
+015996	D1FD
+017476	D1FE
+016447	D2A1
+015C27	D2A2
+019065	D2A3
+017A91	D2A4
+018C23	D2A5
+0159DA	D2A6
+0154AC	D2A7
+018200	D2A8
+01836F	D2A9
+018981	D2AA
+018000	D2AB
+016930	D2AC
+01564E	D2AD
+018036	D2AE
+017237	D2AF
+0191CE	D2B0
+0151B6	D2B1
+014E5F	D2B2
+019875	D2B3
+016396	D2B4
+014E1A	D2B5
+0153F6	D2B6
+0166F3	D2B7
+01814B	D2B8
+01591C	D2B9
+016DB2	D2BA
+014E00	D2BB
+0158F9	D2BC
+01533B	D2BD
+0163D6	D2BE
+0194F1	D2BF
+014F9D	D2C0
+014F0A	D2C1
+018863	D2C2
+019890	D2C3
+015937	D2C4
+019057	D2C5
+0179FB	D2C6
+014EEA	D2C7
+0180F0	D2C8
+017591	D2C9
+016C82	D2CA
+015B9C	D2CB
+0159E8	D2CC
+015F5D	D2CD
+016905	D2CE
+018681	D2CF
+01501A	D2D0
+015DF2	D2D1
+014E59	D2D2
+0177E3	D2D3
+014EE5	D2D4
+01827A	D2D5
+016291	D2D6
+016613	D2D7
+019091	D2D8
+015C79	D2D9
+014EBF	D2DA
+015F79	D2DB
+0181C6	D2DC
+019038	D2DD
+018084	D2DE
+0175AB	D2DF
+014EA6	D2E0
+0188D4	D2E1
+01610F	D2E2
+016BC5	D2E3
+015FC6	D2E4
+014E49	D2E5
+0176CA	D2E6
+016EA2	D2E7
+018BE3	D2E8
+018BAE	D2E9
+018C0A	D2EA
+018BD1	D2EB
+015F02	D2EC
+017FFC	D2ED
+017FCC	D2EE
+017ECE	D2EF
+018335	D2F0
+01836B	D2F1
+0156E0	D2F2
+016BB7	D2F3
+0197F3	D2F4
+019634	D2F5
+0159FB	D2F6
+01541F	D2F7
+0194F6	D2F8
+016DEB	D2F9
+015BC5	D2FA
+01996E	D2FB
+015C39	D2FC
+015F15	D2FD
+019690	D2FE
+015370	D3A1
+0182F1	D3A2
+016A31	D3A3
+015A74	D3A4
+019E70	D3A5
+015E94	D3A6
+017F28	D3A7
+0183B9	D3A8
+018424	D3A9
+018425	D3AA
+018367	D3AB
+018747	D3AC
+018FCE	D3AD
+018D62	D3AE
+0176C8	D3AF
+015F71	D3B0
+019896	D3B1
+01786C	D3B2
+016620	D3B3
+0154DF	D3B4
+0162E5	D3B5
+014F63	D3B6
+0181C3	D3B7
+0175C8	D3B8
+015EB8	D3B9
+0196CD	D3BA
+018E0A	D3BB
+0186F9	D3BC
+01548F	D3BD
+016CF3	D3BE
+016D8C	D3BF
+016C38	D3C0
+01607F	D3C1
+0152C7	D3C2
+017528	D3C3
+015E7D	D3C4
+014F18	D3C5
+0160A0	D3C6
+015FE7	D3C7
+015C24	D3C8
+017531	D3C9
+0190AE	D3CA
+0194C0	D3CB
+0172B9	D3CC
+016CB9	D3CD
+016E38	D3CE
+019149	D3CF
+016709	D3D0
+0153CB	D3D1
+0153F3	D3D2
+014F51	D3D3
+0191C9	D3D4
+018BF1	D3D5
+0153C8	D3D6
+015E7C	D3D7
+018FC2	D3D8
+016DE4	D3D9
+014E8E	D3DA
+0176C2	D3DB
+016986	D3DC
+01865E	D3DD
+01611A	D3DE
+018206	D3DF
+014F59	D3E0
+014FDE	D3E1
+01903E	D3E2
+019C7C	D3E3
+016109	D3E4
+016E1D	D3E5
+016E14	D3E6
+019685	D3E7
+014E88	D3E8
+015A31	D3E9
+0196E8	D3EA
+014E0E	D3EB
+015C7F	D3EC
+0179B9	D3ED
+015B87	D3EE
+018BED	D3EF
+017FBD	D3F0
+017389	D3F1
+0157DF	D3F2
+01828B	D3F3
+0190C1	D3F4
+015401	D3F5
+019047	D3F6
+0155BB	D3F7
+015CEA	D3F8
+015FA1	D3F9
+016108	D3FA
+016B32	D3FB
+0172F1	D3FC
+0180B2	D3FD
+018A89	D3FE
+016D74	D4A1
+015BD3	D4A2
+0188D5	D4A3
+019884	D4A4
+018C6B	D4A5
+019A6D	D4A6
+019E33	D4A7
+016E0A	D4A8
+0151A4	D4A9
+015143	D4AA
+0157A3	D4AB
+018881	D4AC
+01539F	D4AD
+0163F4	D4AE
+018F95	D4AF
+0156ED	D4B0
+015458	D4B1
+015706	D4B2
+01733F	D4B3
+016E90	D4B4
+017F18	D4B5
+018FDC	D4B6
+0182D1	D4B7
+01613F	D4B8
+016028	D4B9
+019662	D4BA
+0166F0	D4BB
+017EA6	D4BC
+018D8A	D4BD
+018DC3	D4BE
+0194A5	D4BF
+015CB3	D4C0
+017CA4	D4C1
+016708	D4C2
+0160A6	D4C3
+019605	D4C4
+018018	D4C5
+014E91	D4C6
+0190E7	D4C7
+015300	D4C8
+019668	D4C9
+015141	D4CA
+018FD0	D4CB
+018574	D4CC
+01915D	D4CD
+016655	D4CE
+0197F5	D4CF
+015B55	D4D0
+01531D	D4D1
+017838	D4D2
+016742	D4D3
+01683D	D4D4
+0154C9	D4D5
+01707E	D4D6
+015BB0	D4D7
+018F7D	D4D8
+01518D	D4D9
+015728	D4DA
+0154B1	D4DB
+016512	D4DC
+016682	D4DD
+018D5E	D4DE
+018D43	D4DF
+01810F	D4E0
+01846C	D4E1
+01906D	D4E2
+017CDF	D4E3
+0151FF	D4E4
+0185FB	D4E5
+0167A3	D4E6
+0165E9	D4E7
+016FA1	D4E8
+0186A4	D4E9
+018E81	D4EA
+01566A	D4EB
+019020	D4EC
+017682	D4ED
+017076	D4EE
+0171E5	D4EF
+018D23	D4F0
+0162E9	D4F1
+015219	D4F2
+016CFD	D4F3
+018D3C	D4F4
+01600E	D4F5
+01589E	D4F6
+01618E	D4F7
+0166FE	D4F8
+018D60	D4F9
+01624E	D4FA
+0155B3	D4FB
+016E23	D4FC
+01672D	D4FD
+018F67	D4FE
+0194E1	D5A1
+0195F8	D5A2
+017728	D5A3
+016805	D5A4
+0169A8	D5A5
+01548B	D5A6
+014E4D	D5A7
+0170B8	D5A8
+018BC8	D5A9
+016458	D5AA
+01658B	D5AB
+015B85	D5AC
+017A84	D5AD
+01503A	D5AE
+015BE8	D5AF
+0177BB	D5B0
+016BE1	D5B1
+018A79	D5B2
+017C98	D5B3
+016CBE	D5B4
+0176CF	D5B5
+0165A9	D5B6
+018F97	D5B7
+015D2D	D5B8
+015C55	D5B9
+018638	D5BA
+016808	D5BB
+015360	D5BC
+016218	D5BD
+017AD9	D5BE
+016E5B	D5BF
+017EFD	D5C0
+016A1F	D5C1
+017AE0	D5C2
+015F70	D5C3
+016F33	D5C4
+015F20	D5C5
+01638C	D5C6
+016DA8	D5C7
+016756	D5C8
+014E08	D5C9
+015E10	D5CA
+018D26	D5CB
+014ED7	D5CC
+0180C0	D5CD
+017634	D5CE
+01969C	D5CF
+0162DB	D5D0
+01662D	D5D1
+01627E	D5D2
+016CBC	D5D3
+018D75	D5D4
+017167	D5D5
+017F69	D5D6
+015146	D5D7
+018087	D5D8
+0153EC	D5D9
+01906E	D5DA
+016298	D5DB
+0154F2	D5DC
+0186F0	D5DD
+018F99	D5DE
+018005	D5DF
+019517	D5E0
+018517	D5E1
+018FD9	D5E2
+016D59	D5E3
+0173CD	D5E4
+01659F	D5E5
+01771F	D5E6
+017504	D5E7
+017827	D5E8
+0181FB	D5E9
+018D1E	D5EA
+019488	D5EB
+014FA6	D5EC
+016795	D5ED
+0175B9	D5EE
+018BCA	D5EF
+019707	D5F0
+01632F	D5F1
+019547	D5F2
+019635	D5F3
+0184B8	D5F4
+016323	D5F5
+017741	D5F6
+015F81	D5F7
+0172F0	D5F8
+014E89	D5F9
+016014	D5FA
+016574	D5FB
+0162EF	D5FC
+016B63	D5FD
+01653F	D5FE
+015E27	D6A1
+0175C7	D6A2
+0190D1	D6A3
+018BC1	D6A4
+01829D	D6A5
+01679D	D6A6
+01652F	D6A7
+015431	D6A8
+018718	D6A9
+0177E5	D6AA
+0180A2	D6AB
+018102	D6AC
+016C41	D6AD
+014E4B	D6AE
+017EC7	D6AF
+01804C	D6B0
+0176F4	D6B1
+01690D	D6B2
+016B96	D6B3
+016267	D6B4
+01503C	D6B5
+014F84	D6B6
+015740	D6B7
+016307	D6B8
+016B62	D6B9
+018DBE	D6BA
+0153EA	D6BB
+0165E8	D6BC
+017EB8	D6BD
+015FD7	D6BE
+01631A	D6BF
+0163B7	D6C0
+0181F3	D6C1
+0181F4	D6C2
+017F6E	D6C3
+015E1C	D6C4
+015CD9	D6C5
+015236	D6C6
+01667A	D6C7
+0179E9	D6C8
+017A1A	D6C9
+018D28	D6CA
+017099	D6CB
+0175D4	D6CC
+016EDE	D6CD
+016CBB	D6CE
+017A92	D6CF
+014E2D	D6D0
+0176C5	D6D1
+015FE0	D6D2
+01949F	D6D3
+018877	D6D4
+017EC8	D6D5
+0179CD	D6D6
+0180BF	D6D7
+0191CD	D6D8
+014EF2	D6D9
+014F17	D6DA
+01821F	D6DB
+015468	D6DC
+015DDE	D6DD
+016D32	D6DE
+018BCC	D6DF
+017CA5	D6E0
+018F74	D6E1
+018098	D6E2
+015E1A	D6E3
+015492	D6E4
+0176B1	D6E5
+015B99	D6E6
+01663C	D6E7
+019AA4	D6E8
+0173E0	D6E9
+01682A	D6EA
+0186DB	D6EB
+016731	D6EC
+01732A	D6ED
+018BF8	D6EE
+018BDB	D6EF
+019010	D6F0
+017AF9	D6F1
+0170DB	D6F2
+01716E	D6F3
+0162C4	D6F4
+0177A9	D6F5
+015631	D6F6
+014E3B	D6F7
+018457	D6F8
+0167F1	D6F9
+0152A9	D6FA
+0186C0	D6FB
+018D2E	D6FC
+0194F8	D6FD
+017B51	D6FE
+014F4F	D7A1
+016CE8	D7A2
+01795D	D7A3
+019A7B	D7A4
+016293	D7A5
+01722A	D7A6
+0162FD	D7A7
+014E13	D7A8
+017816	D7A9
+018F6C	D7AA
+0164B0	D7AB
+018D5A	D7AC
+017BC6	D7AD
+016869	D7AE
+015E84	D7AF
+0188C5	D7B0
+015986	D7B1
+01649E	D7B2
+0158EE	D7B3
+0172B6	D7B4
+01690E	D7B5
+019525	D7B6
+018FFD	D7B7
+018D58	D7B8
+015760	D7B9
+017F00	D7BA
+018C06	D7BB
+0151C6	D7BC
+016349	D7BD
+0162D9	D7BE
+015353	D7BF
+01684C	D7C0
+017422	D7C1
+018301	D7C2
+01914C	D7C3
+015544	D7C4
+017740	D7C5
+01707C	D7C6
+016D4A	D7C7
+015179	D7C8
+0154A8	D7C9
+018D44	D7CA
+0159FF	D7CB
+016ECB	D7CC
+016DC4	D7CD
+015B5C	D7CE
+017D2B	D7CF
+014ED4	D7D0
+017C7D	D7D1
+016ED3	D7D2
+015B50	D7D3
+0181EA	D7D4
+016E0D	D7D5
+015B57	D7D6
+019B03	D7D7
+0168D5	D7D8
+018E2A	D7D9
+015B97	D7DA
+017EFC	D7DB
+01603B	D7DC
+017EB5	D7DD
+0190B9	D7DE
+018D70	D7DF
+01594F	D7E0
+0163CD	D7E1
+0179DF	D7E2
+018DB3	D7E3
+015352	D7E4
+0165CF	D7E5
+017956	D7E6
+018BC5	D7E7
+01963B	D7E8
+017EC4	D7E9
+0194BB	D7EA
+017E82	D7EB
+015634	D7EC
+019189	D7ED
+016700	D7EE
+017F6A	D7EF
+015C0A	D7F0
+019075	D7F1
+016628	D7F2
+015DE6	D7F3
+014F50	D7F4
+0167DE	D7F5
+01505A	D7F6
+014F5C	D7F7
+015750	D7F8
+015EA7	D7F9
+014E8D	D8A1
+014E0C	D8A2
+015140	D8A3
+014E10	D8A4
+015EFF	D8A5
+015345	D8A6
+014E15	D8A7
+014E98	D8A8
+014E1E	D8A9
+019B32	D8AA
+015B6C	D8AB
+015669	D8AC
+014E28	D8AD
+0179BA	D8AE
+014E3F	D8AF
+015315	D8B0
+014E47	D8B1
+01592D	D8B2
+01723B	D8B3
+01536E	D8B4
+016C10	D8B5
+0156DF	D8B6
+0180E4	D8B7
+019997	D8B8
+016BD3	D8B9
+01777E	D8BA
+019F17	D8BB
+014E36	D8BC
+014E9F	D8BD
+019F10	D8BE
+014E5C	D8BF
+014E69	D8C0
+014E93	D8C1
+018288	D8C2
+015B5B	D8C3
+01556C	D8C4
+01560F	D8C5
+014EC4	D8C6
+01538D	D8C7
+01539D	D8C8
+0153A3	D8C9
+0153A5	D8CA
+0153AE	D8CB
+019765	D8CC
+018D5D	D8CD
+01531A	D8CE
+0153F5	D8CF
+015326	D8D0
+01532E	D8D1
+01533E	D8D2
+018D5C	D8D3
+015366	D8D4
+015363	D8D5
+015202	D8D6
+015208	D8D7
+01520E	D8D8
+01522D	D8D9
+015233	D8DA
+01523F	D8DB
+015240	D8DC
+01524C	D8DD
+01525E	D8DE
+015261	D8DF
+01525C	D8E0
+0184AF	D8E1
+01527D	D8E2
+015282	D8E3
+015281	D8E4
+015290	D8E5
+015293	D8E6
+015182	D8E7
+017F54	D8E8
+014EBB	D8E9
+014EC3	D8EA
+014EC9	D8EB
+014EC2	D8EC
+014EE8	D8ED
+014EE1	D8EE
+014EEB	D8EF
+014EDE	D8F0
+014F1B	D8F1
+014EF3	D8F2
+014F22	D8F3
+014F64	D8F4
+014EF5	D8F5
+014F25	D8F6
+014F27	D8F7
+014F09	D8F8
+014F2B	D8F9
+014F5E	D8FA
+014F67	D8FB
+016538	D8FC
+014F5A	D8FD
+014F5D	D8FE
+014F5F	D9A1
+014F57	D9A2
+014F32	D9A3
+014F3D	D9A4
+014F76	D9A5
+014F74	D9A6
+014F91	D9A7
+014F89	D9A8
+014F83	D9A9
+014F8F	D9AA
+014F7E	D9AB
+014F7B	D9AC
+014FAA	D9AD
+014F7C	D9AE
+014FAC	D9AF
+014F94	D9B0
+014FE6	D9B1
+014FE8	D9B2
+014FEA	D9B3
+014FC5	D9B4
+014FDA	D9B5
+014FE3	D9B6
+014FDC	D9B7
+014FD1	D9B8
+014FDF	D9B9
+014FF8	D9BA
+015029	D9BB
+01504C	D9BC
+014FF3	D9BD
+01502C	D9BE
+01500F	D9BF
+01502E	D9C0
+01502D	D9C1
+014FFE	D9C2
+01501C	D9C3
+01500C	D9C4
+015025	D9C5
+015028	D9C6
+01507E	D9C7
+015043	D9C8
+015055	D9C9
+015048	D9CA
+01504E	D9CB
+01506C	D9CC
+01507B	D9CD
+0150A5	D9CE
+0150A7	D9CF
+0150A9	D9D0
+0150BA	D9D1
+0150D6	D9D2
+015106	D9D3
+0150ED	D9D4
+0150EC	D9D5
+0150E6	D9D6
+0150EE	D9D7
+015107	D9D8
+01510B	D9D9
+014EDD	D9DA
+016C3D	D9DB
+014F58	D9DC
+014F65	D9DD
+014FCE	D9DE
+019FA0	D9DF
+016C46	D9E0
+017C74	D9E1
+01516E	D9E2
+015DFD	D9E3
+019EC9	D9E4
+019998	D9E5
+015181	D9E6
+015914	D9E7
+0152F9	D9E8
+01530D	D9E9
+018A07	D9EA
+015310	D9EB
+0151EB	D9EC
+015919	D9ED
+015155	D9EE
+014EA0	D9EF
+015156	D9F0
+014EB3	D9F1
+01886E	D9F2
+0188A4	D9F3
+014EB5	D9F4
+018114	D9F5
+0188D2	D9F6
+017980	D9F7
+015B34	D9F8
+018803	D9F9
+017FB8	D9FA
+0151AB	D9FB
+0151B1	D9FC
+0151BD	D9FD
+0151BC	D9FE
+0151C7	DAA1
+015196	DAA2
+0151A2	DAA3
+0151A5	DAA4
+018BA0	DAA5
+018BA6	DAA6
+018BA7	DAA7
+018BAA	DAA8
+018BB4	DAA9
+018BB5	DAAA
+018BB7	DAAB
+018BC2	DAAC
+018BC3	DAAD
+018BCB	DAAE
+018BCF	DAAF
+018BCE	DAB0
+018BD2	DAB1
+018BD3	DAB2
+018BD4	DAB3
+018BD6	DAB4
+018BD8	DAB5
+018BD9	DAB6
+018BDC	DAB7
+018BDF	DAB8
+018BE0	DAB9
+018BE4	DABA
+018BE8	DABB
+018BE9	DABC
+018BEE	DABD
+018BF0	DABE
+018BF3	DABF
+018BF6	DAC0
+018BF9	DAC1
+018BFC	DAC2
+018BFF	DAC3
+018C00	DAC4
+018C02	DAC5
+018C04	DAC6
+018C07	DAC7
+018C0C	DAC8
+018C0F	DAC9
+018C11	DACA
+018C12	DACB
+018C14	DACC
+018C15	DACD
+018C16	DACE
+018C19	DACF
+018C1B	DAD0
+018C18	DAD1
+018C1D	DAD2
+018C1F	DAD3
+018C20	DAD4
+018C21	DAD5
+018C25	DAD6
+018C27	DAD7
+018C2A	DAD8
+018C2B	DAD9
+018C2E	DADA
+018C2F	DADB
+018C32	DADC
+018C33	DADD
+018C35	DADE
+018C36	DADF
+015369	DAE0
+01537A	DAE1
+01961D	DAE2
+019622	DAE3
+019621	DAE4
+019631	DAE5
+01962A	DAE6
+01963D	DAE7
+01963C	DAE8
+019642	DAE9
+019649	DAEA
+019654	DAEB
+01965F	DAEC
+019667	DAED
+01966C	DAEE
+019672	DAEF
+019674	DAF0
+019688	DAF1
+01968D	DAF2
+019697	DAF3
+0196B0	DAF4
+019097	DAF5
+01909B	DAF6
+01909D	DAF7
+019099	DAF8
+0190AC	DAF9
+0190A1	DAFA
+0190B4	DAFB
+0190B3	DAFC
+0190B6	DAFD
+0190BA	DAFE
+0190B8	DBA1
+0190B0	DBA2
+0190CF	DBA3
+0190C5	DBA4
+0190BE	DBA5
+0190D0	DBA6
+0190C4	DBA7
+0190C7	DBA8
+0190D3	DBA9
+0190E6	DBAA
+0190E2	DBAB
+0190DC	DBAC
+0190D7	DBAD
+0190DB	DBAE
+0190EB	DBAF
+0190EF	DBB0
+0190FE	DBB1
+019104	DBB2
+019122	DBB3
+01911E	DBB4
+019123	DBB5
+019131	DBB6
+01912F	DBB7
+019139	DBB8
+019143	DBB9
+019146	DBBA
+01520D	DBBB
+015942	DBBC
+0152A2	DBBD
+0152AC	DBBE
+0152AD	DBBF
+0152BE	DBC0
+0154FF	DBC1
+0152D0	DBC2
+0152D6	DBC3
+0152F0	DBC4
+0153DF	DBC5
+0171EE	DBC6
+0177CD	DBC7
+015EF4	DBC8
+0151F5	DBC9
+0151FC	DBCA
+019B2F	DBCB
+0153B6	DBCC
+015F01	DBCD
+01755A	DBCE
+015DEF	DBCF
+01574C	DBD0
+0157A9	DBD1
+0157A1	DBD2
+01587E	DBD3
+0158BC	DBD4
+0158C5	DBD5
+0158D1	DBD6
+015729	DBD7
+01572C	DBD8
+01572A	DBD9
+015733	DBDA
+015739	DBDB
+01572E	DBDC
+01572F	DBDD
+01575C	DBDE
+01573B	DBDF
+015742	DBE0
+015769	DBE1
+015785	DBE2
+01576B	DBE3
+015786	DBE4
+01577C	DBE5
+01577B	DBE6
+015768	DBE7
+01576D	DBE8
+015776	DBE9
+015773	DBEA
+0157AD	DBEB
+0157A4	DBEC
+01578C	DBED
+0157B2	DBEE
+0157CF	DBEF
+0157A7	DBF0
+0157B4	DBF1
+015793	DBF2
+0157A0	DBF3
+0157D5	DBF4
+0157D8	DBF5
+0157DA	DBF6
+0157D9	DBF7
+0157D2	DBF8
+0157B8	DBF9
+0157F4	DBFA
+0157EF	DBFB
+0157F8	DBFC
+0157E4	DBFD
+0157DD	DBFE
+01580B	DCA1
+01580D	DCA2
+0157FD	DCA3
+0157ED	DCA4
+015800	DCA5
+01581E	DCA6
+015819	DCA7
+015844	DCA8
+015820	DCA9
+015865	DCAA
+01586C	DCAB
+015881	DCAC
+015889	DCAD
+01589A	DCAE
+015880	DCAF
+0199A8	DCB0
+019F19	DCB1
+0161FF	DCB2
+018279	DCB3
+01827D	DCB4
+01827F	DCB5
+01828F	DCB6
+01828A	DCB7
+0182A8	DCB8
+018284	DCB9
+01828E	DCBA
+018291	DCBB
+018297	DCBC
+018299	DCBD
+0182AB	DCBE
+0182B8	DCBF
+0182BE	DCC0
+0182B0	DCC1
+0182C8	DCC2
+0182CA	DCC3
+0182E3	DCC4
+018298	DCC5
+0182B7	DCC6
+0182AE	DCC7
+0182CB	DCC8
+0182CC	DCC9
+0182C1	DCCA
+0182A9	DCCB
+0182B4	DCCC
+0182A1	DCCD
+0182AA	DCCE
+01829F	DCCF
+0182C4	DCD0
+0182CE	DCD1
+0182A4	DCD2
+0182E1	DCD3
+018309	DCD4
+0182F7	DCD5
+0182E4	DCD6
+01830F	DCD7
+018307	DCD8
+0182DC	DCD9
+0182F4	DCDA
+0182D2	DCDB
+0182D8	DCDC
+01830C	DCDD
+0182FB	DCDE
+0182D3	DCDF
+018311	DCE0
+01831A	DCE1
+018306	DCE2
+018314	DCE3
+018315	DCE4
+0182E0	DCE5
+0182D5	DCE6
+01831C	DCE7
+018351	DCE8
+01835B	DCE9
+01835C	DCEA
+018308	DCEB
+018392	DCEC
+01833C	DCED
+018334	DCEE
+018331	DCEF
+01839B	DCF0
+01835E	DCF1
+01832F	DCF2
+01834F	DCF3
+018347	DCF4
+018343	DCF5
+01835F	DCF6
+018340	DCF7
+018317	DCF8
+018360	DCF9
+01832D	DCFA
+01833A	DCFB
+018333	DCFC
+018366	DCFD
+018365	DCFE
+018368	DDA1
+01831B	DDA2
+018369	DDA3
+01836C	DDA4
+01836A	DDA5
+01836D	DDA6
+01836E	DDA7
+0183B0	DDA8
+018378	DDA9
+0183B3	DDAA
+0183B4	DDAB
+0183A0	DDAC
+0183AA	DDAD
+018393	DDAE
+01839C	DDAF
+018385	DDB0
+01837C	DDB1
+0183B6	DDB2
+0183A9	DDB3
+01837D	DDB4
+0183B8	DDB5
+01837B	DDB6
+018398	DDB7
+01839E	DDB8
+0183A8	DDB9
+0183BA	DDBA
+0183BC	DDBB
+0183C1	DDBC
+018401	DDBD
+0183E5	DDBE
+0183D8	DDBF
+015807	DDC0
+018418	DDC1
+01840B	DDC2
+0183DD	DDC3
+0183FD	DDC4
+0183D6	DDC5
+01841C	DDC6
+018438	DDC7
+018411	DDC8
+018406	DDC9
+0183D4	DDCA
+0183DF	DDCB
+01840F	DDCC
+018403	DDCD
+0183F8	DDCE
+0183F9	DDCF
+0183EA	DDD0
+0183C5	DDD1
+0183C0	DDD2
+018426	DDD3
+0183F0	DDD4
+0183E1	DDD5
+01845C	DDD6
+018451	DDD7
+01845A	DDD8
+018459	DDD9
+018473	DDDA
+018487	DDDB
+018488	DDDC
+01847A	DDDD
+018489	DDDE
+018478	DDDF
+01843C	DDE0
+018446	DDE1
+018469	DDE2
+018476	DDE3
+01848C	DDE4
+01848E	DDE5
+018431	DDE6
+01846D	DDE7
+0184C1	DDE8
+0184CD	DDE9
+0184D0	DDEA
+0184E6	DDEB
+0184BD	DDEC
+0184D3	DDED
+0184CA	DDEE
+0184BF	DDEF
+0184BA	DDF0
+0184E0	DDF1
+0184A1	DDF2
+0184B9	DDF3
+0184B4	DDF4
+018497	DDF5
+0184E5	DDF6
+0184E3	DDF7
+01850C	DDF8
+01750D	DDF9
+018538	DDFA
+0184F0	DDFB
+018539	DDFC
+01851F	DDFD
+01853A	DDFE
+018556	DEA1
+01853B	DEA2
+0184FF	DEA3
+0184FC	DEA4
+018559	DEA5
+018548	DEA6
+018568	DEA7
+018564	DEA8
+01855E	DEA9
+01857A	DEAA
+0177A2	DEAB
+018543	DEAC
+018572	DEAD
+01857B	DEAE
+0185A4	DEAF
+0185A8	DEB0
+018587	DEB1
+01858F	DEB2
+018579	DEB3
+0185AE	DEB4
+01859C	DEB5
+018585	DEB6
+0185B9	DEB7
+0185B7	DEB8
+0185B0	DEB9
+0185D3	DEBA
+0185C1	DEBB
+0185DC	DEBC
+0185FF	DEBD
+018627	DEBE
+018605	DEBF
+018629	DEC0
+018616	DEC1
+01863C	DEC2
+015EFE	DEC3
+015F08	DEC4
+01593C	DEC5
+015941	DEC6
+018037	DEC7
+015955	DEC8
+01595A	DEC9
+015958	DECA
+01530F	DECB
+015C22	DECC
+015C25	DECD
+015C2C	DECE
+015C34	DECF
+01624C	DED0
+01626A	DED1
+01629F	DED2
+0162BB	DED3
+0162CA	DED4
+0162DA	DED5
+0162D7	DED6
+0162EE	DED7
+016322	DED8
+0162F6	DED9
+016339	DEDA
+01634B	DEDB
+016343	DEDC
+0163AD	DEDD
+0163F6	DEDE
+016371	DEDF
+01637A	DEE0
+01638E	DEE1
+0163B4	DEE2
+01636D	DEE3
+0163AC	DEE4
+01638A	DEE5
+016369	DEE6
+0163AE	DEE7
+0163BC	DEE8
+0163F2	DEE9
+0163F8	DEEA
+0163E0	DEEB
+0163FF	DEEC
+0163C4	DEED
+0163DE	DEEE
+0163CE	DEEF
+016452	DEF0
+0163C6	DEF1
+0163BE	DEF2
+016445	DEF3
+016441	DEF4
+01640B	DEF5
+01641B	DEF6
+016420	DEF7
+01640C	DEF8
+016426	DEF9
+016421	DEFA
+01645E	DEFB
+016484	DEFC
+01646D	DEFD
+016496	DEFE
+01647A	DFA1
+0164B7	DFA2
+0164B8	DFA3
+016499	DFA4
+0164BA	DFA5
+0164C0	DFA6
+0164D0	DFA7
+0164D7	DFA8
+0164E4	DFA9
+0164E2	DFAA
+016509	DFAB
+016525	DFAC
+01652E	DFAD
+015F0B	DFAE
+015FD2	DFAF
+017519	DFB0
+015F11	DFB1
+01535F	DFB2
+0153F1	DFB3
+0153FD	DFB4
+0153E9	DFB5
+0153E8	DFB6
+0153FB	DFB7
+015412	DFB8
+015416	DFB9
+015406	DFBA
+01544B	DFBB
+015452	DFBC
+015453	DFBD
+015454	DFBE
+015456	DFBF
+015443	DFC0
+015421	DFC1
+015457	DFC2
+015459	DFC3
+015423	DFC4
+015432	DFC5
+015482	DFC6
+015494	DFC7
+015477	DFC8
+015471	DFC9
+015464	DFCA
+01549A	DFCB
+01549B	DFCC
+015484	DFCD
+015476	DFCE
+015466	DFCF
+01549D	DFD0
+0154D0	DFD1
+0154AD	DFD2
+0154C2	DFD3
+0154B4	DFD4
+0154D2	DFD5
+0154A7	DFD6
+0154A6	DFD7
+0154D3	DFD8
+0154D4	DFD9
+015472	DFDA
+0154A3	DFDB
+0154D5	DFDC
+0154BB	DFDD
+0154BF	DFDE
+0154CC	DFDF
+0154D9	DFE0
+0154DA	DFE1
+0154DC	DFE2
+0154A9	DFE3
+0154AA	DFE4
+0154A4	DFE5
+0154DD	DFE6
+0154CF	DFE7
+0154DE	DFE8
+01551B	DFE9
+0154E7	DFEA
+015520	DFEB
+0154FD	DFEC
+015514	DFED
+0154F3	DFEE
+015522	DFEF
+015523	DFF0
+01550F	DFF1
+015511	DFF2
+015527	DFF3
+01552A	DFF4
+015567	DFF5
+01558F	DFF6
+0155B5	DFF7
+015549	DFF8
+01556D	DFF9
+015541	DFFA
+015555	DFFB
+01553F	DFFC
+015550	DFFD
+01553C	DFFE
+015537	E0A1
+015556	E0A2
+015575	E0A3
+015576	E0A4
+015577	E0A5
+015533	E0A6
+015530	E0A7
+01555C	E0A8
+01558B	E0A9
+0155D2	E0AA
+015583	E0AB
+0155B1	E0AC
+0155B9	E0AD
+015588	E0AE
+015581	E0AF
+01559F	E0B0
+01557E	E0B1
+0155D6	E0B2
+015591	E0B3
+01557B	E0B4
+0155DF	E0B5
+0155BD	E0B6
+0155BE	E0B7
+015594	E0B8
+015599	E0B9
+0155EA	E0BA
+0155F7	E0BB
+0155C9	E0BC
+01561F	E0BD
+0155D1	E0BE
+0155EB	E0BF
+0155EC	E0C0
+0155D4	E0C1
+0155E6	E0C2
+0155DD	E0C3
+0155C4	E0C4
+0155EF	E0C5
+0155E5	E0C6
+0155F2	E0C7
+0155F3	E0C8
+0155CC	E0C9
+0155CD	E0CA
+0155E8	E0CB
+0155F5	E0CC
+0155E4	E0CD
+018F94	E0CE
+01561E	E0CF
+015608	E0D0
+01560C	E0D1
+015601	E0D2
+015624	E0D3
+015623	E0D4
+0155FE	E0D5
+015600	E0D6
+015627	E0D7
+01562D	E0D8
+015658	E0D9
+015639	E0DA
+015657	E0DB
+01562C	E0DC
+01564D	E0DD
+015662	E0DE
+015659	E0DF
+01565C	E0E0
+01564C	E0E1
+015654	E0E2
+015686	E0E3
+015664	E0E4
+015671	E0E5
+01566B	E0E6
+01567B	E0E7
+01567C	E0E8
+015685	E0E9
+015693	E0EA
+0156AF	E0EB
+0156D4	E0EC
+0156D7	E0ED
+0156DD	E0EE
+0156E1	E0EF
+0156F5	E0F0
+0156EB	E0F1
+0156F9	E0F2
+0156FF	E0F3
+015704	E0F4
+01570A	E0F5
+015709	E0F6
+01571C	E0F7
+015E0F	E0F8
+015E19	E0F9
+015E14	E0FA
+015E11	E0FB
+015E31	E0FC
+015E3B	E0FD
+015E3C	E0FE
+015E37	E1A1
+015E44	E1A2
+015E54	E1A3
+015E5B	E1A4
+015E5E	E1A5
+015E61	E1A6
+015C8C	E1A7
+015C7A	E1A8
+015C8D	E1A9
+015C90	E1AA
+015C96	E1AB
+015C88	E1AC
+015C98	E1AD
+015C99	E1AE
+015C91	E1AF
+015C9A	E1B0
+015C9C	E1B1
+015CB5	E1B2
+015CA2	E1B3
+015CBD	E1B4
+015CAC	E1B5
+015CAB	E1B6
+015CB1	E1B7
+015CA3	E1B8
+015CC1	E1B9
+015CB7	E1BA
+015CC4	E1BB
+015CD2	E1BC
+015CE4	E1BD
+015CCB	E1BE
+015CE5	E1BF
+015D02	E1C0
+015D03	E1C1
+015D27	E1C2
+015D26	E1C3
+015D2E	E1C4
+015D24	E1C5
+015D1E	E1C6
+015D06	E1C7
+015D1B	E1C8
+015D58	E1C9
+015D3E	E1CA
+015D34	E1CB
+015D3D	E1CC
+015D6C	E1CD
+015D5B	E1CE
+015D6F	E1CF
+015D5D	E1D0
+015D6B	E1D1
+015D4B	E1D2
+015D4A	E1D3
+015D69	E1D4
+015D74	E1D5
+015D82	E1D6
+015D99	E1D7
+015D9D	E1D8
+018C73	E1D9
+015DB7	E1DA
+015DC5	E1DB
+015F73	E1DC
+015F77	E1DD
+015F82	E1DE
+015F87	E1DF
+015F89	E1E0
+015F8C	E1E1
+015F95	E1E2
+015F99	E1E3
+015F9C	E1E4
+015FA8	E1E5
+015FAD	E1E6
+015FB5	E1E7
+015FBC	E1E8
+018862	E1E9
+015F61	E1EA
+0172AD	E1EB
+0172B0	E1EC
+0172B4	E1ED
+0172B7	E1EE
+0172B8	E1EF
+0172C3	E1F0
+0172C1	E1F1
+0172CE	E1F2
+0172CD	E1F3
+0172D2	E1F4
+0172E8	E1F5
+0172EF	E1F6
+0172E9	E1F7
+0172F2	E1F8
+0172F4	E1F9
+0172F7	E1FA
+017301	E1FB
+0172F3	E1FC
+017303	E1FD
+0172FA	E1FE
+0172FB	E2A1
+017317	E2A2
+017313	E2A3
+017321	E2A4
+01730A	E2A5
+01731E	E2A6
+01731D	E2A7
+017315	E2A8
+017322	E2A9
+017339	E2AA
+017325	E2AB
+01732C	E2AC
+017338	E2AD
+017331	E2AE
+017350	E2AF
+01734D	E2B0
+017357	E2B1
+017360	E2B2
+01736C	E2B3
+01736F	E2B4
+01737E	E2B5
+01821B	E2B6
+015925	E2B7
+0198E7	E2B8
+015924	E2B9
+015902	E2BA
+019963	E2BB
+019967	E2BC
+019968	E2BD
+019969	E2BE
+01996A	E2BF
+01996B	E2C0
+01996C	E2C1
+019974	E2C2
+019977	E2C3
+01997D	E2C4
+019980	E2C5
+019984	E2C6
+019987	E2C7
+01998A	E2C8
+01998D	E2C9
+019990	E2CA
+019991	E2CB
+019993	E2CC
+019994	E2CD
+019995	E2CE
+015E80	E2CF
+015E91	E2D0
+015E8B	E2D1
+015E96	E2D2
+015EA5	E2D3
+015EA0	E2D4
+015EB9	E2D5
+015EB5	E2D6
+015EBE	E2D7
+015EB3	E2D8
+018D53	E2D9
+015ED2	E2DA
+015ED1	E2DB
+015EDB	E2DC
+015EE8	E2DD
+015EEA	E2DE
+0181BA	E2DF
+015FC4	E2E0
+015FC9	E2E1
+015FD6	E2E2
+015FCF	E2E3
+016003	E2E4
+015FEE	E2E5
+016004	E2E6
+015FE1	E2E7
+015FE4	E2E8
+015FFE	E2E9
+016005	E2EA
+016006	E2EB
+015FEA	E2EC
+015FED	E2ED
+015FF8	E2EE
+016019	E2EF
+016035	E2F0
+016026	E2F1
+01601B	E2F2
+01600F	E2F3
+01600D	E2F4
+016029	E2F5
+01602B	E2F6
+01600A	E2F7
+01603F	E2F8
+016021	E2F9
+016078	E2FA
+016079	E2FB
+01607B	E2FC
+01607A	E2FD
+016042	E2FE
+01606A	E3A1
+01607D	E3A2
+016096	E3A3
+01609A	E3A4
+0160AD	E3A5
+01609D	E3A6
+016083	E3A7
+016092	E3A8
+01608C	E3A9
+01609B	E3AA
+0160EC	E3AB
+0160BB	E3AC
+0160B1	E3AD
+0160DD	E3AE
+0160D8	E3AF
+0160C6	E3B0
+0160DA	E3B1
+0160B4	E3B2
+016120	E3B3
+016126	E3B4
+016115	E3B5
+016123	E3B6
+0160F4	E3B7
+016100	E3B8
+01610E	E3B9
+01612B	E3BA
+01614A	E3BB
+016175	E3BC
+0161AC	E3BD
+016194	E3BE
+0161A7	E3BF
+0161B7	E3C0
+0161D4	E3C1
+0161F5	E3C2
+015FDD	E3C3
+0196B3	E3C4
+0195E9	E3C5
+0195EB	E3C6
+0195F1	E3C7
+0195F3	E3C8
+0195F5	E3C9
+0195F6	E3CA
+0195FC	E3CB
+0195FE	E3CC
+019603	E3CD
+019604	E3CE
+019606	E3CF
+019608	E3D0
+01960A	E3D1
+01960B	E3D2
+01960C	E3D3
+01960D	E3D4
+01960F	E3D5
+019612	E3D6
+019615	E3D7
+019616	E3D8
+019617	E3D9
+019619	E3DA
+01961A	E3DB
+014E2C	E3DC
+01723F	E3DD
+016215	E3DE
+016C35	E3DF
+016C54	E3E0
+016C5C	E3E1
+016C4A	E3E2
+016CA3	E3E3
+016C85	E3E4
+016C90	E3E5
+016C94	E3E6
+016C8C	E3E7
+016C68	E3E8
+016C69	E3E9
+016C74	E3EA
+016C76	E3EB
+016C86	E3EC
+016CA9	E3ED
+016CD0	E3EE
+016CD4	E3EF
+016CAD	E3F0
+016CF7	E3F1
+016CF8	E3F2
+016CF1	E3F3
+016CD7	E3F4
+016CB2	E3F5
+016CE0	E3F6
+016CD6	E3F7
+016CFA	E3F8
+016CEB	E3F9
+016CEE	E3FA
+016CB1	E3FB
+016CD3	E3FC
+016CEF	E3FD
+016CFE	E3FE
+016D39	E4A1
+016D27	E4A2
+016D0C	E4A3
+016D43	E4A4
+016D48	E4A5
+016D07	E4A6
+016D04	E4A7
+016D19	E4A8
+016D0E	E4A9
+016D2B	E4AA
+016D4D	E4AB
+016D2E	E4AC
+016D35	E4AD
+016D1A	E4AE
+016D4F	E4AF
+016D52	E4B0
+016D54	E4B1
+016D33	E4B2
+016D91	E4B3
+016D6F	E4B4
+016D9E	E4B5
+016DA0	E4B6
+016D5E	E4B7
+016D93	E4B8
+016D94	E4B9
+016D5C	E4BA
+016D60	E4BB
+016D7C	E4BC
+016D63	E4BD
+016E1A	E4BE
+016DC7	E4BF
+016DC5	E4C0
+016DDE	E4C1
+016E0E	E4C2
+016DBF	E4C3
+016DE0	E4C4
+016E11	E4C5
+016DE6	E4C6
+016DDD	E4C7
+016DD9	E4C8
+016E16	E4C9
+016DAB	E4CA
+016E0C	E4CB
+016DAE	E4CC
+016E2B	E4CD
+016E6E	E4CE
+016E4E	E4CF
+016E6B	E4D0
+016EB2	E4D1
+016E5F	E4D2
+016E86	E4D3
+016E53	E4D4
+016E54	E4D5
+016E32	E4D6
+016E25	E4D7
+016E44	E4D8
+016EDF	E4D9
+016EB1	E4DA
+016E98	E4DB
+016EE0	E4DC
+016F2D	E4DD
+016EE2	E4DE
+016EA5	E4DF
+016EA7	E4E0
+016EBD	E4E1
+016EBB	E4E2
+016EB7	E4E3
+016ED7	E4E4
+016EB4	E4E5
+016ECF	E4E6
+016E8F	E4E7
+016EC2	E4E8
+016E9F	E4E9
+016F62	E4EA
+016F46	E4EB
+016F47	E4EC
+016F24	E4ED
+016F15	E4EE
+016EF9	E4EF
+016F2F	E4F0
+016F36	E4F1
+016F4B	E4F2
+016F74	E4F3
+016F2A	E4F4
+016F09	E4F5
+016F29	E4F6
+016F89	E4F7
+016F8D	E4F8
+016F8C	E4F9
+016F78	E4FA
+016F72	E4FB
+016F7C	E4FC
+016F7A	E4FD
+016FD1	E4FE
+016FC9	E5A1
+016FA7	E5A2
+016FB9	E5A3
+016FB6	E5A4
+016FC2	E5A5
+016FE1	E5A6
+016FEE	E5A7
+016FDE	E5A8
+016FE0	E5A9
+016FEF	E5AA
+01701A	E5AB
+017023	E5AC
+01701B	E5AD
+017039	E5AE
+017035	E5AF
+01704F	E5B0
+01705E	E5B1
+015B80	E5B2
+015B84	E5B3
+015B95	E5B4
+015B93	E5B5
+015BA5	E5B6
+015BB8	E5B7
+01752F	E5B8
+019A9E	E5B9
+016434	E5BA
+015BE4	E5BB
+015BEE	E5BC
+018930	E5BD
+015BF0	E5BE
+018E47	E5BF
+018B07	E5C0
+018FB6	E5C1
+018FD3	E5C2
+018FD5	E5C3
+018FE5	E5C4
+018FEE	E5C5
+018FE4	E5C6
+018FE9	E5C7
+018FE6	E5C8
+018FF3	E5C9
+018FE8	E5CA
+019005	E5CB
+019004	E5CC
+01900B	E5CD
+019026	E5CE
+019011	E5CF
+01900D	E5D0
+019016	E5D1
+019021	E5D2
+019035	E5D3
+019036	E5D4
+01902D	E5D5
+01902F	E5D6
+019044	E5D7
+019051	E5D8
+019052	E5D9
+019050	E5DA
+019068	E5DB
+019058	E5DC
+019062	E5DD
+01905B	E5DE
+0166B9	E5DF
+019074	E5E0
+01907D	E5E1
+019082	E5E2
+019088	E5E3
+019083	E5E4
+01908B	E5E5
+015F50	E5E6
+015F57	E5E7
+015F56	E5E8
+015F58	E5E9
+015C3B	E5EA
+0154AB	E5EB
+015C50	E5EC
+015C59	E5ED
+015B71	E5EE
+015C63	E5EF
+015C66	E5F0
+017FBC	E5F1
+015F2A	E5F2
+015F29	E5F3
+015F2D	E5F4
+018274	E5F5
+015F3C	E5F6
+019B3B	E5F7
+015C6E	E5F8
+015981	E5F9
+015983	E5FA
+01598D	E5FB
+0159A9	E5FC
+0159AA	E5FD
+0159A3	E5FE
+015997	E6A1
+0159CA	E6A2
+0159AB	E6A3
+01599E	E6A4
+0159A4	E6A5
+0159D2	E6A6
+0159B2	E6A7
+0159AF	E6A8
+0159D7	E6A9
+0159BE	E6AA
+015A05	E6AB
+015A06	E6AC
+0159DD	E6AD
+015A08	E6AE
+0159E3	E6AF
+0159D8	E6B0
+0159F9	E6B1
+015A0C	E6B2
+015A09	E6B3
+015A32	E6B4
+015A34	E6B5
+015A11	E6B6
+015A23	E6B7
+015A13	E6B8
+015A40	E6B9
+015A67	E6BA
+015A4A	E6BB
+015A55	E6BC
+015A3C	E6BD
+015A62	E6BE
+015A75	E6BF
+0180EC	E6C0
+015AAA	E6C1
+015A9B	E6C2
+015A77	E6C3
+015A7A	E6C4
+015ABE	E6C5
+015AEB	E6C6
+015AB2	E6C7
+015AD2	E6C8
+015AD4	E6C9
+015AB8	E6CA
+015AE0	E6CB
+015AE3	E6CC
+015AF1	E6CD
+015AD6	E6CE
+015AE6	E6CF
+015AD8	E6D0
+015ADC	E6D1
+015B09	E6D2
+015B17	E6D3
+015B16	E6D4
+015B32	E6D5
+015B37	E6D6
+015B40	E6D7
+015C15	E6D8
+015C1C	E6D9
+015B5A	E6DA
+015B65	E6DB
+015B73	E6DC
+015B51	E6DD
+015B53	E6DE
+015B62	E6DF
+019A75	E6E0
+019A77	E6E1
+019A78	E6E2
+019A7A	E6E3
+019A7F	E6E4
+019A7D	E6E5
+019A80	E6E6
+019A81	E6E7
+019A85	E6E8
+019A88	E6E9
+019A8A	E6EA
+019A90	E6EB
+019A92	E6EC
+019A93	E6ED
+019A96	E6EE
+019A98	E6EF
+019A9B	E6F0
+019A9C	E6F1
+019A9D	E6F2
+019A9F	E6F3
+019AA0	E6F4
+019AA2	E6F5
+019AA3	E6F6
+019AA5	E6F7
+019AA7	E6F8
+017E9F	E6F9
+017EA1	E6FA
+017EA3	E6FB
+017EA5	E6FC
+017EA8	E6FD
+017EA9	E6FE
+017EAD	E7A1
+017EB0	E7A2
+017EBE	E7A3
+017EC0	E7A4
+017EC1	E7A5
+017EC2	E7A6
+017EC9	E7A7
+017ECB	E7A8
+017ECC	E7A9
+017ED0	E7AA
+017ED4	E7AB
+017ED7	E7AC
+017EDB	E7AD
+017EE0	E7AE
+017EE1	E7AF
+017EE8	E7B0
+017EEB	E7B1
+017EEE	E7B2
+017EEF	E7B3
+017EF1	E7B4
+017EF2	E7B5
+017F0D	E7B6
+017EF6	E7B7
+017EFA	E7B8
+017EFB	E7B9
+017EFE	E7BA
+017F01	E7BB
+017F02	E7BC
+017F03	E7BD
+017F07	E7BE
+017F08	E7BF
+017F0B	E7C0
+017F0C	E7C1
+017F0F	E7C2
+017F11	E7C3
+017F12	E7C4
+017F17	E7C5
+017F19	E7C6
+017F1C	E7C7
+017F1B	E7C8
+017F1F	E7C9
+017F21	E7CA
+017F22	E7CB
+017F23	E7CC
+017F24	E7CD
+017F25	E7CE
+017F26	E7CF
+017F27	E7D0
+017F2A	E7D1
+017F2B	E7D2
+017F2C	E7D3
+017F2D	E7D4
+017F2F	E7D5
+017F30	E7D6
+017F31	E7D7
+017F32	E7D8
+017F33	E7D9
+017F35	E7DA
+015E7A	E7DB
+01757F	E7DC
+015DDB	E7DD
+01753E	E7DE
+019095	E7DF
+01738E	E7E0
+017391	E7E1
+0173AE	E7E2
+0173A2	E7E3
+01739F	E7E4
+0173CF	E7E5
+0173C2	E7E6
+0173D1	E7E7
+0173B7	E7E8
+0173B3	E7E9
+0173C0	E7EA
+0173C9	E7EB
+0173C8	E7EC
+0173E5	E7ED
+0173D9	E7EE
+01987C	E7EF
+01740A	E7F0
+0173E9	E7F1
+0173E7	E7F2
+0173DE	E7F3
+0173BA	E7F4
+0173F2	E7F5
+01740F	E7F6
+01742A	E7F7
+01745B	E7F8
+017426	E7F9
+017425	E7FA
+017428	E7FB
+017430	E7FC
+01742E	E7FD
+01742C	E7FE
+01741B	E8A1
+01741A	E8A2
+017441	E8A3
+01745C	E8A4
+017457	E8A5
+017455	E8A6
+017459	E8A7
+017477	E8A8
+01746D	E8A9
+01747E	E8AA
+01749C	E8AB
+01748E	E8AC
+017480	E8AD
+017481	E8AE
+017487	E8AF
+01748B	E8B0
+01749E	E8B1
+0174A8	E8B2
+0174A9	E8B3
+017490	E8B4
+0174A7	E8B5
+0174D2	E8B6
+0174BA	E8B7
+0197EA	E8B8
+0197EB	E8B9
+0197EC	E8BA
+01674C	E8BB
+016753	E8BC
+01675E	E8BD
+016748	E8BE
+016769	E8BF
+0167A5	E8C0
+016787	E8C1
+01676A	E8C2
+016773	E8C3
+016798	E8C4
+0167A7	E8C5
+016775	E8C6
+0167A8	E8C7
+01679E	E8C8
+0167AD	E8C9
+01678B	E8CA
+016777	E8CB
+01677C	E8CC
+0167F0	E8CD
+016809	E8CE
+0167D8	E8CF
+01680A	E8D0
+0167E9	E8D1
+0167B0	E8D2
+01680C	E8D3
+0167D9	E8D4
+0167B5	E8D5
+0167DA	E8D6
+0167B3	E8D7
+0167DD	E8D8
+016800	E8D9
+0167C3	E8DA
+0167B8	E8DB
+0167E2	E8DC
+01680E	E8DD
+0167C1	E8DE
+0167FD	E8DF
+016832	E8E0
+016833	E8E1
+016860	E8E2
+016861	E8E3
+01684E	E8E4
+016862	E8E5
+016844	E8E6
+016864	E8E7
+016883	E8E8
+01681D	E8E9
+016855	E8EA
+016866	E8EB
+016841	E8EC
+016867	E8ED
+016840	E8EE
+01683E	E8EF
+01684A	E8F0
+016849	E8F1
+016829	E8F2
+0168B5	E8F3
+01688F	E8F4
+016874	E8F5
+016877	E8F6
+016893	E8F7
+01686B	E8F8
+0168C2	E8F9
+01696E	E8FA
+0168FC	E8FB
+01691F	E8FC
+016920	E8FD
+0168F9	E8FE
+016924	E9A1
+0168F0	E9A2
+01690B	E9A3
+016901	E9A4
+016957	E9A5
+0168E3	E9A6
+016910	E9A7
+016971	E9A8
+016939	E9A9
+016960	E9AA
+016942	E9AB
+01695D	E9AC
+016984	E9AD
+01696B	E9AE
+016980	E9AF
+016998	E9B0
+016978	E9B1
+016934	E9B2
+0169CC	E9B3
+016987	E9B4
+016988	E9B5
+0169CE	E9B6
+016989	E9B7
+016966	E9B8
+016963	E9B9
+016979	E9BA
+01699B	E9BB
+0169A7	E9BC
+0169BB	E9BD
+0169AB	E9BE
+0169AD	E9BF
+0169D4	E9C0
+0169B1	E9C1
+0169C1	E9C2
+0169CA	E9C3
+0169DF	E9C4
+016995	E9C5
+0169E0	E9C6
+01698D	E9C7
+0169FF	E9C8
+016A2F	E9C9
+0169ED	E9CA
+016A17	E9CB
+016A18	E9CC
+016A65	E9CD
+0169F2	E9CE
+016A44	E9CF
+016A3E	E9D0
+016AA0	E9D1
+016A50	E9D2
+016A5B	E9D3
+016A35	E9D4
+016A8E	E9D5
+016A79	E9D6
+016A3D	E9D7
+016A28	E9D8
+016A58	E9D9
+016A7C	E9DA
+016A91	E9DB
+016A90	E9DC
+016AA9	E9DD
+016A97	E9DE
+016AAB	E9DF
+017337	E9E0
+017352	E9E1
+016B81	E9E2
+016B82	E9E3
+016B87	E9E4
+016B84	E9E5
+016B92	E9E6
+016B93	E9E7
+016B8D	E9E8
+016B9A	E9E9
+016B9B	E9EA
+016BA1	E9EB
+016BAA	E9EC
+018F6B	E9ED
+018F6D	E9EE
+018F71	E9EF
+018F72	E9F0
+018F73	E9F1
+018F75	E9F2
+018F76	E9F3
+018F78	E9F4
+018F77	E9F5
+018F79	E9F6
+018F7A	E9F7
+018F7C	E9F8
+018F7E	E9F9
+018F81	E9FA
+018F82	E9FB
+018F84	E9FC
+018F87	E9FD
+018F8B	E9FE
+018F8D	EAA1
+018F8E	EAA2
+018F8F	EAA3
+018F98	EAA4
+018F9A	EAA5
+018ECE	EAA6
+01620B	EAA7
+016217	EAA8
+01621B	EAA9
+01621F	EAAA
+016222	EAAB
+016221	EAAC
+016225	EAAD
+016224	EAAE
+01622C	EAAF
+0181E7	EAB0
+0174EF	EAB1
+0174F4	EAB2
+0174FF	EAB3
+01750F	EAB4
+017511	EAB5
+017513	EAB6
+016534	EAB7
+0165EE	EAB8
+0165EF	EAB9
+0165F0	EABA
+01660A	EABB
+016619	EABC
+016772	EABD
+016603	EABE
+016615	EABF
+016600	EAC0
+017085	EAC1
+0166F7	EAC2
+01661D	EAC3
+016634	EAC4
+016631	EAC5
+016636	EAC6
+016635	EAC7
+018006	EAC8
+01665F	EAC9
+016654	EACA
+016641	EACB
+01664F	EACC
+016656	EACD
+016661	EACE
+016657	EACF
+016677	EAD0
+016684	EAD1
+01668C	EAD2
+0166A7	EAD3
+01669D	EAD4
+0166BE	EAD5
+0166DB	EAD6
+0166DC	EAD7
+0166E6	EAD8
+0166E9	EAD9
+018D32	EADA
+018D33	EADB
+018D36	EADC
+018D3B	EADD
+018D3D	EADE
+018D40	EADF
+018D45	EAE0
+018D46	EAE1
+018D48	EAE2
+018D49	EAE3
+018D47	EAE4
+018D4D	EAE5
+018D55	EAE6
+018D59	EAE7
+0189C7	EAE8
+0189CA	EAE9
+0189CB	EAEA
+0189CC	EAEB
+0189CE	EAEC
+0189CF	EAED
+0189D0	EAEE
+0189D1	EAEF
+01726E	EAF0
+01729F	EAF1
+01725D	EAF2
+017266	EAF3
+01726F	EAF4
+01727E	EAF5
+01727F	EAF6
+017284	EAF7
+01728B	EAF8
+01728D	EAF9
+01728F	EAFA
+017292	EAFB
+016308	EAFC
+016332	EAFD
+0163B0	EAFE
+01643F	EBA1
+0164D8	EBA2
+018004	EBA3
+016BEA	EBA4
+016BF3	EBA5
+016BFD	EBA6
+016BF5	EBA7
+016BF9	EBA8
+016C05	EBA9
+016C07	EBAA
+016C06	EBAB
+016C0D	EBAC
+016C15	EBAD
+016C18	EBAE
+016C19	EBAF
+016C1A	EBB0
+016C21	EBB1
+016C29	EBB2
+016C24	EBB3
+016C2A	EBB4
+016C32	EBB5
+016535	EBB6
+016555	EBB7
+01656B	EBB8
+01724D	EBB9
+017252	EBBA
+017256	EBBB
+017230	EBBC
+018662	EBBD
+015216	EBBE
+01809F	EBBF
+01809C	EBC0
+018093	EBC1
+0180BC	EBC2
+01670A	EBC3
+0180BD	EBC4
+0180B1	EBC5
+0180AB	EBC6
+0180AD	EBC7
+0180B4	EBC8
+0180B7	EBC9
+0180E7	EBCA
+0180E8	EBCB
+0180E9	EBCC
+0180EA	EBCD
+0180DB	EBCE
+0180C2	EBCF
+0180C4	EBD0
+0180D9	EBD1
+0180CD	EBD2
+0180D7	EBD3
+016710	EBD4
+0180DD	EBD5
+0180EB	EBD6
+0180F1	EBD7
+0180F4	EBD8
+0180ED	EBD9
+01810D	EBDA
+01810E	EBDB
+0180F2	EBDC
+0180FC	EBDD
+016715	EBDE
+018112	EBDF
+018C5A	EBE0
+018136	EBE1
+01811E	EBE2
+01812C	EBE3
+018118	EBE4
+018132	EBE5
+018148	EBE6
+01814C	EBE7
+018153	EBE8
+018174	EBE9
+018159	EBEA
+01815A	EBEB
+018171	EBEC
+018160	EBED
+018169	EBEE
+01817C	EBEF
+01817D	EBF0
+01816D	EBF1
+018167	EBF2
+01584D	EBF3
+015AB5	EBF4
+018188	EBF5
+018182	EBF6
+018191	EBF7
+016ED5	EBF8
+0181A3	EBF9
+0181AA	EBFA
+0181CC	EBFB
+016726	EBFC
+0181CA	EBFD
+0181BB	EBFE
+0181C1	ECA1
+0181A6	ECA2
+016B24	ECA3
+016B37	ECA4
+016B39	ECA5
+016B43	ECA6
+016B46	ECA7
+016B59	ECA8
+0198D1	ECA9
+0198D2	ECAA
+0198D3	ECAB
+0198D5	ECAC
+0198D9	ECAD
+0198DA	ECAE
+016BB3	ECAF
+015F40	ECB0
+016BC2	ECB1
+0189F3	ECB2
+016590	ECB3
+019F51	ECB4
+016593	ECB5
+0165BC	ECB6
+0165C6	ECB7
+0165C4	ECB8
+0165C3	ECB9
+0165CC	ECBA
+0165CE	ECBB
+0165D2	ECBC
+0165D6	ECBD
+017080	ECBE
+01709C	ECBF
+017096	ECC0
+01709D	ECC1
+0170BB	ECC2
+0170C0	ECC3
+0170B7	ECC4
+0170AB	ECC5
+0170B1	ECC6
+0170E8	ECC7
+0170CA	ECC8
+017110	ECC9
+017113	ECCA
+017116	ECCB
+01712F	ECCC
+017131	ECCD
+017173	ECCE
+01715C	ECCF
+017168	ECD0
+017145	ECD1
+017172	ECD2
+01714A	ECD3
+017178	ECD4
+01717A	ECD5
+017198	ECD6
+0171B3	ECD7
+0171B5	ECD8
+0171A8	ECD9
+0171A0	ECDA
+0171E0	ECDB
+0171D4	ECDC
+0171E7	ECDD
+0171F9	ECDE
+01721D	ECDF
+017228	ECE0
+01706C	ECE1
+017118	ECE2
+017166	ECE3
+0171B9	ECE4
+01623E	ECE5
+01623D	ECE6
+016243	ECE7
+016248	ECE8
+016249	ECE9
+01793B	ECEA
+017940	ECEB
+017946	ECEC
+017949	ECED
+01795B	ECEE
+01795C	ECEF
+017953	ECF0
+01795A	ECF1
+017962	ECF2
+017957	ECF3
+017960	ECF4
+01796F	ECF5
+017967	ECF6
+01797A	ECF7
+017985	ECF8
+01798A	ECF9
+01799A	ECFA
+0179A7	ECFB
+0179B3	ECFC
+015FD1	ECFD
+015FD0	ECFE
+01603C	EDA1
+01605D	EDA2
+01605A	EDA3
+016067	EDA4
+016041	EDA5
+016059	EDA6
+016063	EDA7
+0160AB	EDA8
+016106	EDA9
+01610D	EDAA
+01615D	EDAB
+0161A9	EDAC
+01619D	EDAD
+0161CB	EDAE
+0161D1	EDAF
+016206	EDB0
+018080	EDB1
+01807F	EDB2
+016C93	EDB3
+016CF6	EDB4
+016DFC	EDB5
+0177F6	EDB6
+0177F8	EDB7
+017800	EDB8
+017809	EDB9
+017817	EDBA
+017818	EDBB
+017811	EDBC
+0165AB	EDBD
+01782D	EDBE
+01781C	EDBF
+01781D	EDC0
+017839	EDC1
+01783A	EDC2
+01783B	EDC3
+01781F	EDC4
+01783C	EDC5
+017825	EDC6
+01782C	EDC7
+017823	EDC8
+017829	EDC9
+01784E	EDCA
+01786D	EDCB
+017856	EDCC
+017857	EDCD
+017826	EDCE
+017850	EDCF
+017847	EDD0
+01784C	EDD1
+01786A	EDD2
+01789B	EDD3
+017893	EDD4
+01789A	EDD5
+017887	EDD6
+01789C	EDD7
+0178A1	EDD8
+0178A3	EDD9
+0178B2	EDDA
+0178B9	EDDB
+0178A5	EDDC
+0178D4	EDDD
+0178D9	EDDE
+0178C9	EDDF
+0178EC	EDE0
+0178F2	EDE1
+017905	EDE2
+0178F4	EDE3
+017913	EDE4
+017924	EDE5
+01791E	EDE6
+017934	EDE7
+019F9B	EDE8
+019EF9	EDE9
+019EFB	EDEA
+019EFC	EDEB
+0176F1	EDEC
+017704	EDED
+01770D	EDEE
+0176F9	EDEF
+017707	EDF0
+017708	EDF1
+01771A	EDF2
+017722	EDF3
+017719	EDF4
+01772D	EDF5
+017726	EDF6
+017735	EDF7
+017738	EDF8
+017750	EDF9
+017751	EDFA
+017747	EDFB
+017743	EDFC
+01775A	EDFD
+017768	EDFE
+017762	EEA1
+017765	EEA2
+01777F	EEA3
+01778D	EEA4
+01777D	EEA5
+017780	EEA6
+01778C	EEA7
+017791	EEA8
+01779F	EEA9
+0177A0	EEAA
+0177B0	EEAB
+0177B5	EEAC
+0177BD	EEAD
+01753A	EEAE
+017540	EEAF
+01754E	EEB0
+01754B	EEB1
+017548	EEB2
+01755B	EEB3
+017572	EEB4
+017579	EEB5
+017583	EEB6
+017F58	EEB7
+017F61	EEB8
+017F5F	EEB9
+018A48	EEBA
+017F68	EEBB
+017F74	EEBC
+017F71	EEBD
+017F79	EEBE
+017F81	EEBF
+017F7E	EEC0
+0176CD	EEC1
+0176E5	EEC2
+018832	EEC3
+019485	EEC4
+019486	EEC5
+019487	EEC6
+01948B	EEC7
+01948A	EEC8
+01948C	EEC9
+01948D	EECA
+01948F	EECB
+019490	EECC
+019494	EECD
+019497	EECE
+019495	EECF
+01949A	EED0
+01949B	EED1
+01949C	EED2
+0194A3	EED3
+0194A4	EED4
+0194AB	EED5
+0194AA	EED6
+0194AD	EED7
+0194AC	EED8
+0194AF	EED9
+0194B0	EEDA
+0194B2	EEDB
+0194B4	EEDC
+0194B6	EEDD
+0194B7	EEDE
+0194B8	EEDF
+0194B9	EEE0
+0194BA	EEE1
+0194BC	EEE2
+0194BD	EEE3
+0194BF	EEE4
+0194C4	EEE5
+0194C8	EEE6
+0194C9	EEE7
+0194CA	EEE8
+0194CB	EEE9
+0194CC	EEEA
+0194CD	EEEB
+0194CE	EEEC
+0194D0	EEED
+0194D1	EEEE
+0194D2	EEEF
+0194D5	EEF0
+0194D6	EEF1
+0194D7	EEF2
+0194D9	EEF3
+0194D8	EEF4
+0194DB	EEF5
+0194DE	EEF6
+0194DF	EEF7
+0194E0	EEF8
+0194E2	EEF9
+0194E4	EEFA
+0194E5	EEFB
+0194E7	EEFC
+0194E8	EEFD
+0194EA	EEFE
+0194E9	EFA1
+0194EB	EFA2
+0194EE	EFA3
+0194EF	EFA4
+0194F3	EFA5
+0194F4	EFA6
+0194F5	EFA7
+0194F7	EFA8
+0194F9	EFA9
+0194FC	EFAA
+0194FD	EFAB
+0194FF	EFAC
+019503	EFAD
+019502	EFAE
+019506	EFAF
+019507	EFB0
+019509	EFB1
+01950A	EFB2
+01950D	EFB3
+01950E	EFB4
+01950F	EFB5
+019512	EFB6
+019513	EFB7
+019514	EFB8
+019515	EFB9
+019516	EFBA
+019518	EFBB
+01951B	EFBC
+01951D	EFBD
+01951E	EFBE
+01951F	EFBF
+019522	EFC0
+01952A	EFC1
+01952B	EFC2
+019529	EFC3
+01952C	EFC4
+019531	EFC5
+019532	EFC6
+019534	EFC7
+019536	EFC8
+019537	EFC9
+019538	EFCA
+01953C	EFCB
+01953E	EFCC
+01953F	EFCD
+019542	EFCE
+019535	EFCF
+019544	EFD0
+019545	EFD1
+019546	EFD2
+019549	EFD3
+01954C	EFD4
+01954E	EFD5
+01954F	EFD6
+019552	EFD7
+019553	EFD8
+019554	EFD9
+019556	EFDA
+019557	EFDB
+019558	EFDC
+019559	EFDD
+01955B	EFDE
+01955E	EFDF
+01955F	EFE0
+01955D	EFE1
+019561	EFE2
+019562	EFE3
+019564	EFE4
+019565	EFE5
+019566	EFE6
+019567	EFE7
+019568	EFE8
+019569	EFE9
+01956A	EFEA
+01956B	EFEB
+01956C	EFEC
+01956F	EFED
+019571	EFEE
+019572	EFEF
+019573	EFF0
+01953A	EFF1
+0177E7	EFF2
+0177EC	EFF3
+0196C9	EFF4
+0179D5	EFF5
+0179ED	EFF6
+0179E3	EFF7
+0179EB	EFF8
+017A06	EFF9
+015D47	EFFA
+017A03	EFFB
+017A02	EFFC
+017A1E	EFFD
+017A14	EFFE
+017A39	F0A1
+017A37	F0A2
+017A51	F0A3
+019ECF	F0A4
+0199A5	F0A5
+017A70	F0A6
+017688	F0A7
+01768E	F0A8
+017693	F0A9
+017699	F0AA
+0176A4	F0AB
+0174DE	F0AC
+0174E0	F0AD
+01752C	F0AE
+019E20	F0AF
+019E22	F0B0
+019E28	F0B1
+019E29	F0B2
+019E2A	F0B3
+019E2B	F0B4
+019E2C	F0B5
+019E32	F0B6
+019E31	F0B7
+019E36	F0B8
+019E38	F0B9
+019E37	F0BA
+019E39	F0BB
+019E3A	F0BC
+019E3E	F0BD
+019E41	F0BE
+019E42	F0BF
+019E44	F0C0
+019E46	F0C1
+019E47	F0C2
+019E48	F0C3
+019E49	F0C4
+019E4B	F0C5
+019E4C	F0C6
+019E4E	F0C7
+019E51	F0C8
+019E55	F0C9
+019E57	F0CA
+019E5A	F0CB
+019E5B	F0CC
+019E5C	F0CD
+019E5E	F0CE
+019E63	F0CF
+019E66	F0D0
+019E67	F0D1
+019E68	F0D2
+019E69	F0D3
+019E6A	F0D4
+019E6B	F0D5
+019E6C	F0D6
+019E71	F0D7
+019E6D	F0D8
+019E73	F0D9
+017592	F0DA
+017594	F0DB
+017596	F0DC
+0175A0	F0DD
+01759D	F0DE
+0175AC	F0DF
+0175A3	F0E0
+0175B3	F0E1
+0175B4	F0E2
+0175B8	F0E3
+0175C4	F0E4
+0175B1	F0E5
+0175B0	F0E6
+0175C3	F0E7
+0175C2	F0E8
+0175D6	F0E9
+0175CD	F0EA
+0175E3	F0EB
+0175E8	F0EC
+0175E6	F0ED
+0175E4	F0EE
+0175EB	F0EF
+0175E7	F0F0
+017603	F0F1
+0175F1	F0F2
+0175FC	F0F3
+0175FF	F0F4
+017610	F0F5
+017600	F0F6
+017605	F0F7
+01760C	F0F8
+017617	F0F9
+01760A	F0FA
+017625	F0FB
+017618	F0FC
+017615	F0FD
+017619	F0FE
+01761B	F1A1
+01763C	F1A2
+017622	F1A3
+017620	F1A4
+017640	F1A5
+01762D	F1A6
+017630	F1A7
+01763F	F1A8
+017635	F1A9
+017643	F1AA
+01763E	F1AB
+017633	F1AC
+01764D	F1AD
+01765E	F1AE
+017654	F1AF
+01765C	F1B0
+017656	F1B1
+01766B	F1B2
+01766F	F1B3
+017FCA	F1B4
+017AE6	F1B5
+017A78	F1B6
+017A79	F1B7
+017A80	F1B8
+017A86	F1B9
+017A88	F1BA
+017A95	F1BB
+017AA6	F1BC
+017AA0	F1BD
+017AAC	F1BE
+017AA8	F1BF
+017AAD	F1C0
+017AB3	F1C1
+018864	F1C2
+018869	F1C3
+018872	F1C4
+01887D	F1C5
+01887F	F1C6
+018882	F1C7
+0188A2	F1C8
+0188C6	F1C9
+0188B7	F1CA
+0188BC	F1CB
+0188C9	F1CC
+0188E2	F1CD
+0188CE	F1CE
+0188E3	F1CF
+0188E5	F1D0
+0188F1	F1D1
+01891A	F1D2
+0188FC	F1D3
+0188E8	F1D4
+0188FE	F1D5
+0188F0	F1D6
+018921	F1D7
+018919	F1D8
+018913	F1D9
+01891B	F1DA
+01890A	F1DB
+018934	F1DC
+01892B	F1DD
+018936	F1DE
+018941	F1DF
+018966	F1E0
+01897B	F1E1
+01758B	F1E2
+0180E5	F1E3
+0176B2	F1E4
+0176B4	F1E5
+0177DC	F1E6
+018012	F1E7
+018014	F1E8
+018016	F1E9
+01801C	F1EA
+018020	F1EB
+018022	F1EC
+018025	F1ED
+018026	F1EE
+018027	F1EF
+018029	F1F0
+018028	F1F1
+018031	F1F2
+01800B	F1F3
+018035	F1F4
+018043	F1F5
+018046	F1F6
+01804D	F1F7
+018052	F1F8
+018069	F1F9
+018071	F1FA
+018983	F1FB
+019878	F1FC
+019880	F1FD
+019883	F1FE
+019889	F2A1
+01988C	F2A2
+01988D	F2A3
+01988F	F2A4
+019894	F2A5
+01989A	F2A6
+01989B	F2A7
+01989E	F2A8
+01989F	F2A9
+0198A1	F2AA
+0198A2	F2AB
+0198A5	F2AC
+0198A6	F2AD
+01864D	F2AE
+018654	F2AF
+01866C	F2B0
+01866E	F2B1
+01867F	F2B2
+01867A	F2B3
+01867C	F2B4
+01867B	F2B5
+0186A8	F2B6
+01868D	F2B7
+01868B	F2B8
+0186AC	F2B9
+01869D	F2BA
+0186A7	F2BB
+0186A3	F2BC
+0186AA	F2BD
+018693	F2BE
+0186A9	F2BF
+0186B6	F2C0
+0186C4	F2C1
+0186B5	F2C2
+0186CE	F2C3
+0186B0	F2C4
+0186BA	F2C5
+0186B1	F2C6
+0186AF	F2C7
+0186C9	F2C8
+0186CF	F2C9
+0186B4	F2CA
+0186E9	F2CB
+0186F1	F2CC
+0186F2	F2CD
+0186ED	F2CE
+0186F3	F2CF
+0186D0	F2D0
+018713	F2D1
+0186DE	F2D2
+0186F4	F2D3
+0186DF	F2D4
+0186D8	F2D5
+0186D1	F2D6
+018703	F2D7
+018707	F2D8
+0186F8	F2D9
+018708	F2DA
+01870A	F2DB
+01870D	F2DC
+018709	F2DD
+018723	F2DE
+01873B	F2DF
+01871E	F2E0
+018725	F2E1
+01872E	F2E2
+01871A	F2E3
+01873E	F2E4
+018748	F2E5
+018734	F2E6
+018731	F2E7
+018729	F2E8
+018737	F2E9
+01873F	F2EA
+018782	F2EB
+018722	F2EC
+01877D	F2ED
+01877E	F2EE
+01877B	F2EF
+018760	F2F0
+018770	F2F1
+01874C	F2F2
+01876E	F2F3
+01878B	F2F4
+018753	F2F5
+018763	F2F6
+01877C	F2F7
+018764	F2F8
+018759	F2F9
+018765	F2FA
+018793	F2FB
+0187AF	F2FC
+0187A8	F2FD
+0187D2	F2FE
+0187C6	F3A1
+018788	F3A2
+018785	F3A3
+0187AD	F3A4
+018797	F3A5
+018783	F3A6
+0187AB	F3A7
+0187E5	F3A8
+0187AC	F3A9
+0187B5	F3AA
+0187B3	F3AB
+0187CB	F3AC
+0187D3	F3AD
+0187BD	F3AE
+0187D1	F3AF
+0187C0	F3B0
+0187CA	F3B1
+0187DB	F3B2
+0187EA	F3B3
+0187E0	F3B4
+0187EE	F3B5
+018816	F3B6
+018813	F3B7
+0187FE	F3B8
+01880A	F3B9
+01881B	F3BA
+018821	F3BB
+018839	F3BC
+01883C	F3BD
+017F36	F3BE
+017F42	F3BF
+017F44	F3C0
+017F45	F3C1
+018210	F3C2
+017AFA	F3C3
+017AFD	F3C4
+017B08	F3C5
+017B03	F3C6
+017B04	F3C7
+017B15	F3C8
+017B0A	F3C9
+017B2B	F3CA
+017B0F	F3CB
+017B47	F3CC
+017B38	F3CD
+017B2A	F3CE
+017B19	F3CF
+017B2E	F3D0
+017B31	F3D1
+017B20	F3D2
+017B25	F3D3
+017B24	F3D4
+017B33	F3D5
+017B3E	F3D6
+017B1E	F3D7
+017B58	F3D8
+017B5A	F3D9
+017B45	F3DA
+017B75	F3DB
+017B4C	F3DC
+017B5D	F3DD
+017B60	F3DE
+017B6E	F3DF
+017B7B	F3E0
+017B62	F3E1
+017B72	F3E2
+017B71	F3E3
+017B90	F3E4
+017BA6	F3E5
+017BA7	F3E6
+017BB8	F3E7
+017BAC	F3E8
+017B9D	F3E9
+017BA8	F3EA
+017B85	F3EB
+017BAA	F3EC
+017B9C	F3ED
+017BA2	F3EE
+017BAB	F3EF
+017BB4	F3F0
+017BD1	F3F1
+017BC1	F3F2
+017BCC	F3F3
+017BDD	F3F4
+017BDA	F3F5
+017BE5	F3F6
+017BE6	F3F7
+017BEA	F3F8
+017C0C	F3F9
+017BFE	F3FA
+017BFC	F3FB
+017C0F	F3FC
+017C16	F3FD
+017C0B	F3FE
+017C1F	F4A1
+017C2A	F4A2
+017C26	F4A3
+017C38	F4A4
+017C41	F4A5
+017C40	F4A6
+0181FE	F4A7
+018201	F4A8
+018202	F4A9
+018204	F4AA
+0181EC	F4AB
+018844	F4AC
+018221	F4AD
+018222	F4AE
+018223	F4AF
+01822D	F4B0
+01822F	F4B1
+018228	F4B2
+01822B	F4B3
+018238	F4B4
+01823B	F4B5
+018233	F4B6
+018234	F4B7
+01823E	F4B8
+018244	F4B9
+018249	F4BA
+01824B	F4BB
+01824F	F4BC
+01825A	F4BD
+01825F	F4BE
+018268	F4BF
+01887E	F4C0
+018885	F4C1
+018888	F4C2
+0188D8	F4C3
+0188DF	F4C4
+01895E	F4C5
+017F9D	F4C6
+017F9F	F4C7
+017FA7	F4C8
+017FAF	F4C9
+017FB0	F4CA
+017FB2	F4CB
+017C7C	F4CC
+016549	F4CD
+017C91	F4CE
+017C9D	F4CF
+017C9C	F4D0
+017C9E	F4D1
+017CA2	F4D2
+017CB2	F4D3
+017CBC	F4D4
+017CBD	F4D5
+017CC1	F4D6
+017CC7	F4D7
+017CCC	F4D8
+017CCD	F4D9
+017CC8	F4DA
+017CC5	F4DB
+017CD7	F4DC
+017CE8	F4DD
+01826E	F4DE
+0166A8	F4DF
+017FBF	F4E0
+017FCE	F4E1
+017FD5	F4E2
+017FE5	F4E3
+017FE1	F4E4
+017FE6	F4E5
+017FE9	F4E6
+017FEE	F4E7
+017FF3	F4E8
+017CF8	F4E9
+017D77	F4EA
+017DA6	F4EB
+017DAE	F4EC
+017E47	F4ED
+017E9B	F4EE
+019EB8	F4EF
+019EB4	F4F0
+018D73	F4F1
+018D84	F4F2
+018D94	F4F3
+018D91	F4F4
+018DB1	F4F5
+018D67	F4F6
+018D6D	F4F7
+018C47	F4F8
+018C49	F4F9
+01914A	F4FA
+019150	F4FB
+01914E	F4FC
+01914F	F4FD
+019164	F4FE
+019162	F5A1
+019161	F5A2
+019170	F5A3
+019169	F5A4
+01916F	F5A5
+01917D	F5A6
+01917E	F5A7
+019172	F5A8
+019174	F5A9
+019179	F5AA
+01918C	F5AB
+019185	F5AC
+019190	F5AD
+01918D	F5AE
+019191	F5AF
+0191A2	F5B0
+0191A3	F5B1
+0191AA	F5B2
+0191AD	F5B3
+0191AE	F5B4
+0191AF	F5B5
+0191B5	F5B6
+0191B4	F5B7
+0191BA	F5B8
+018C55	F5B9
+019E7E	F5BA
+018DB8	F5BB
+018DEB	F5BC
+018E05	F5BD
+018E59	F5BE
+018E69	F5BF
+018DB5	F5C0
+018DBF	F5C1
+018DBC	F5C2
+018DBA	F5C3
+018DC4	F5C4
+018DD6	F5C5
+018DD7	F5C6
+018DDA	F5C7
+018DDE	F5C8
+018DCE	F5C9
+018DCF	F5CA
+018DDB	F5CB
+018DC6	F5CC
+018DEC	F5CD
+018DF7	F5CE
+018DF8	F5CF
+018DE3	F5D0
+018DF9	F5D1
+018DFB	F5D2
+018DE4	F5D3
+018E09	F5D4
+018DFD	F5D5
+018E14	F5D6
+018E1D	F5D7
+018E1F	F5D8
+018E2C	F5D9
+018E2E	F5DA
+018E23	F5DB
+018E2F	F5DC
+018E3A	F5DD
+018E40	F5DE
+018E39	F5DF
+018E35	F5E0
+018E3D	F5E1
+018E31	F5E2
+018E49	F5E3
+018E41	F5E4
+018E42	F5E5
+018E51	F5E6
+018E52	F5E7
+018E4A	F5E8
+018E70	F5E9
+018E76	F5EA
+018E7C	F5EB
+018E6F	F5EC
+018E74	F5ED
+018E85	F5EE
+018E8F	F5EF
+018E94	F5F0
+018E90	F5F1
+018E9C	F5F2
+018E9E	F5F3
+018C78	F5F4
+018C82	F5F5
+018C8A	F5F6
+018C85	F5F7
+018C98	F5F8
+018C94	F5F9
+01659B	F5FA
+0189D6	F5FB
+0189DE	F5FC
+0189DA	F5FD
+0189DC	F5FE
+0189E5	F6A1
+0189EB	F6A2
+0189EF	F6A3
+018A3E	F6A4
+018B26	F6A5
+019753	F6A6
+0196E9	F6A7
+0196F3	F6A8
+0196EF	F6A9
+019706	F6AA
+019701	F6AB
+019708	F6AC
+01970F	F6AD
+01970E	F6AE
+01972A	F6AF
+01972D	F6B0
+019730	F6B1
+01973E	F6B2
+019F80	F6B3
+019F83	F6B4
+019F85	F6B5
+019F86	F6B6
+019F87	F6B7
+019F88	F6B8
+019F89	F6B9
+019F8A	F6BA
+019F8C	F6BB
+019EFE	F6BC
+019F0B	F6BD
+019F0D	F6BE
+0196B9	F6BF
+0196BC	F6C0
+0196BD	F6C1
+0196CE	F6C2
+0196D2	F6C3
+0177BF	F6C4
+0196E0	F6C5
+01928E	F6C6
+0192AE	F6C7
+0192C8	F6C8
+01933E	F6C9
+01936A	F6CA
+0193CA	F6CB
+01938F	F6CC
+01943E	F6CD
+01946B	F6CE
+019C7F	F6CF
+019C82	F6D0
+019C85	F6D1
+019C86	F6D2
+019C87	F6D3
+019C88	F6D4
+017A23	F6D5
+019C8B	F6D6
+019C8E	F6D7
+019C90	F6D8
+019C91	F6D9
+019C92	F6DA
+019C94	F6DB
+019C95	F6DC
+019C9A	F6DD
+019C9B	F6DE
+019C9E	F6DF
+019C9F	F6E0
+019CA0	F6E1
+019CA1	F6E2
+019CA2	F6E3
+019CA3	F6E4
+019CA5	F6E5
+019CA6	F6E6
+019CA7	F6E7
+019CA8	F6E8
+019CA9	F6E9
+019CAB	F6EA
+019CAD	F6EB
+019CAE	F6EC
+019CB0	F6ED
+019CB1	F6EE
+019CB2	F6EF
+019CB3	F6F0
+019CB4	F6F1
+019CB5	F6F2
+019CB6	F6F3
+019CB7	F6F4
+019CBA	F6F5
+019CBB	F6F6
+019CBC	F6F7
+019CBD	F6F8
+019CC4	F6F9
+019CC5	F6FA
+019CC6	F6FB
+019CC7	F6FC
+019CCA	F6FD
+019CCB	F6FE
+019CCC	F7A1
+019CCD	F7A2
+019CCE	F7A3
+019CCF	F7A4
+019CD0	F7A5
+019CD3	F7A6
+019CD4	F7A7
+019CD5	F7A8
+019CD7	F7A9
+019CD8	F7AA
+019CD9	F7AB
+019CDC	F7AC
+019CDD	F7AD
+019CDF	F7AE
+019CE2	F7AF
+01977C	F7B0
+019785	F7B1
+019791	F7B2
+019792	F7B3
+019794	F7B4
+0197AF	F7B5
+0197AB	F7B6
+0197A3	F7B7
+0197B2	F7B8
+0197B4	F7B9
+019AB1	F7BA
+019AB0	F7BB
+019AB7	F7BC
+019E58	F7BD
+019AB6	F7BE
+019ABA	F7BF
+019ABC	F7C0
+019AC1	F7C1
+019AC0	F7C2
+019AC5	F7C3
+019AC2	F7C4
+019ACB	F7C5
+019ACC	F7C6
+019AD1	F7C7
+019B45	F7C8
+019B43	F7C9
+019B47	F7CA
+019B49	F7CB
+019B48	F7CC
+019B4D	F7CD
+019B51	F7CE
+0198E8	F7CF
+01990D	F7D0
+01992E	F7D1
+019955	F7D2
+019954	F7D3
+019ADF	F7D4
+019AE1	F7D5
+019AE6	F7D6
+019AEF	F7D7
+019AEB	F7D8
+019AFB	F7D9
+019AED	F7DA
+019AF9	F7DB
+019B08	F7DC
+019B0F	F7DD
+019B13	F7DE
+019B1F	F7DF
+019B23	F7E0
+019EBD	F7E1
+019EBE	F7E2
+017E3B	F7E3
+019E82	F7E4
+019E87	F7E5
+019E88	F7E6
+019E8B	F7E7
+019E92	F7E8
+0193D6	F7E9
+019E9D	F7EA
+019E9F	F7EB
+019EDB	F7EC
+019EDC	F7ED
+019EDD	F7EE
+019EE0	F7EF
+019EDF	F7F0
+019EE2	F7F1
+019EE9	F7F2
+019EE7	F7F3
+019EE5	F7F4
+019EEA	F7F5
+019EEF	F7F6
+019F22	F7F7
+019F2C	F7F8
+019F2F	F7F9
+019F39	F7FA
+019F37	F7FB
+019F3D	F7FC
+019F3E	F7FD
+019F44	F7FE
-- 
2.43.0


From 5fd8cf48095ddb052e1b1b38ea503d54ab8fbb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 66/77] fix: CP936 could read the euro sign but not write it

---
 modules/to/_CP936.txt | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/to/_CP936.txt b/modules/to/_CP936.txt
index f3eb772..58bad96 100644
--- a/modules/to/_CP936.txt
+++ b/modules/to/_CP936.txt
@@ -1,4 +1,5 @@
 # transpose from from/cp936
+0120AC	80
 014E02	8140
 014E04	8141
 014E05	8142
-- 
2.43.0


From 9381db323f72d0e28d26a26e7f9d22a72d94e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 67/77] fix: release what JIS set up when one of its tables
 cannot be opened

---
 modules/from/_JIS.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index a87a9e4..5f0242d 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
@@ -30,16 +31,19 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	r->jis0208.desc="_JIS0208";
 	r->jis0212.desc="_JIS0212";
 	if(!loadcodec(&r->jis0201, FROM)){
-		return 1;
+		free(r);
+		return EOPNOTSUPP;
 	}
 	if(!loadcodec(&r->jis0208, FROM)){
 		unloadcodec(&r->jis0201);
-		return 1;
+		free(r);
+		return EOPNOTSUPP;
 	}
 	if(!loadcodec(&r->jis0212, FROM)){
 		unloadcodec(&r->jis0201);
 		unloadcodec(&r->jis0208);
-		return 1;
+		free(r);
+		return EOPNOTSUPP;
 	}
 
 	return 0;
-- 
2.43.0


From 78b7123c703e72aef566726fc54d808079085b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:29 +0000
Subject: [PATCH 68/77] fix: characters beyond the end of a score file got the
 previous one's score

The byte read was left as it was when there was none to be read.
---
 modules/inter/SCORE.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index 307bdb4..4707567 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -97,6 +97,7 @@ void cbconv(struct bsdconv_instance *ins){
 			ucs|=data[i];
 		}
 		fseek(fp, ucs*sizeof(unsigned char), SEEK_SET);
+		v=0;	//beyond the end of file
 		fread(&v, sizeof(unsigned char), 1, fp);
 		*(r->counter)+=v;
 	}
-- 
2.43.0


From 1f31f1657ea80fb9d1a596e97f7412763ffb3260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:29 +0000
Subject: [PATCH 69/77] fix: bonus phrases took longer last characters for
 their own

A callback's key is matched by prefix; the last character has to be as long as the phrase's.
---
 modules/inter/BONUS.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/inter/BONUS.c b/modules/inter/BONUS.c
index b307c64..d5509b9 100644
--- a/modules/inter/BONUS.c
+++ b/modules/inter/BONUS.c
@@ -11,10 +11,18 @@ void cbconv(struct bsdconv_instance *ins){
 	bsdconv_counter_t *counter=THIS_CODEC(ins)->priv;
 	unsigned char *data;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
-	struct data_st data_st;
+	struct data_st data_st, last;
 	memcpy(&data_st, (char *)((this_phase->codec[this_phase->index].data_z)+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 	data=UCP((THIS_CODEC(ins)->data_z)+(uintptr_t)de_offset(data_st.data));
 
+	//the last cell has to be the whole one, not just to start the same
+	for(last=data_st;last.next;)
+		memcpy(&last, (char *)((THIS_CODEC(ins)->data_z)+(uintptr_t)de_offset(last.next)), sizeof(struct data_st));
+	if(this_phase->curr->len!=last.len){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	*counter += *data;
 
 	LISTCPY_ST(ins, this_phase->data_tail, (void *)(uintptr_t)de_offset(data_st.next), THIS_CODEC(ins)->data_z);
-- 
2.43.0


From 933fb4195b088205eef0d6d6fd1f6a80961fd2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:29 +0000
Subject: [PATCH 70/77] fix: completion of an empty word read before its
 beginning

strlen(arg)-1 is -1 for it.
---
 src/bsdconv-completion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bsdconv-completion.c b/src/bsdconv-completion.c
index 8a3aaee..e24606f 100644
--- a/src/bsdconv-completion.c
+++ b/src/bsdconv-completion.c
@@ -32,7 +32,7 @@ int main(int argc, char *argv[]){
 		arg+=1;
 	}
 	i=strlen(arg)-1;
-	if(arg[i]=='\'' || arg[i]=='"'){
+	if(i>=0 && (arg[i]=='\'' || arg[i]=='"')){
 		arg[i]=0;
 	}
 
-- 
2.43.0


From 513a4ecf42a48a0da700e79948ac4781162f973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:29 +0000
Subject: [PATCH 71/77] fix: CNS 11643 planes from 0x80 on overflowed the
 buffer of to/ASCII-HTML-INFO

They were printed as negative numbers, of eight digits.
---
 modules/to/ASCII-HTML-INFO.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/to/ASCII-HTML-INFO.c b/modules/to/ASCII-HTML-INFO.c
index ef3ade9..ee3bde7 100644
--- a/modules/to/ASCII-HTML-INFO.c
+++ b/modules/to/ASCII-HTML-INFO.c
@@ -93,7 +93,7 @@ void cbconv(struct bsdconv_instance *ins){
 			sprintf(p,"<a href=\"http://www.cns11643.gov.tw/AIDB/query_general_view.do?page=");
 			TAILIZE(p);
 			if(0<len){
-				sprintf(p,"%X",data[0]);
+				sprintf(p,"%X",(unsigned char)data[0]);
 				TAILIZE(p);
 			}
 			sprintf(p,"&code=");
@@ -105,7 +105,7 @@ void cbconv(struct bsdconv_instance *ins){
 			sprintf(p,"\"><img src=\"http://www.cns11643.gov.tw/AIDB/png.do?page=");
 			TAILIZE(p);
 			if(0<len){
-				sprintf(p,"%X",data[0]);
+				sprintf(p,"%X",(unsigned char)data[0]);
 				TAILIZE(p);
 			}
 			sprintf(p,"&code=");
-- 
2.43.0


From 176a3d56186f364b73a69d3abaf08284f9e076f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:29 +0000
Subject: [PATCH 72/77] fix: rests of long lines and blank lines of alias files
 were listed as modules

Only lines with a tab are aliases (tools/mkalias.py), and a line longer than the buffer is still one.
---
 src/libbsdconv_module.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index ec13b6f..ab569e2 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -169,6 +169,8 @@ char ** bsdconv_modules_list(int phase_type){
 	struct dirent *d;
 	FILE *fp;
 	char buf[256];
+	int more=0;
+	int rest;
 	const char *type;
 	cwd=getcwd(NULL, 0);
 
@@ -233,7 +235,10 @@ char ** bsdconv_modules_list(int phase_type){
 	fp=fopen("alias","rb");
 	if(fp!=NULL){
 		while(fgets(buf, sizeof(buf), fp)!=NULL){
-			if(buf[0]=='#')
+			rest=more;
+			more=strchr(buf, '\n')==NULL;
+			//only lines with a tab are aliases, the rest of a long line is none
+			if(rest || buf[0]=='#' || strchr(buf, '\t')==NULL)
 				continue;
 			if(length>=size){
 				size+=8;
-- 
2.43.0


From 1ce6a1b444100a47c4363d00309a2e95005c9fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 73/77] fix: bsdconv-man freed what it had not allocated for
 unknown phase types

codec points into phase.
---
 src/bsdconv-man.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bsdconv-man.c b/src/bsdconv-man.c
index 9028ad0..0c13279 100644
--- a/src/bsdconv-man.c
+++ b/src/bsdconv-man.c
@@ -42,7 +42,6 @@ static int man(char *pc){
 		phase_dir="filter";
 	}else{
 		free(phase);
-		free(codec);
 		return 1;
 	}
 
-- 
2.43.0


From c0433f9451dd86325dc43a401eaaa68ba09919cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 74/77] fix: bsdconv-man took empty pages for redirections

fscanf() returns EOF where there is nothing to be read.
---
 src/bsdconv-man.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bsdconv-man.c b/src/bsdconv-man.c
index 0c13279..6bfb82f 100644
--- a/src/bsdconv-man.c
+++ b/src/bsdconv-man.c
@@ -53,7 +53,7 @@ static int man(char *pc){
 	sprintf(codec_filename, "%s.man", codec);
 	fp=fopen(codec_filename, "rb");
 	if(fp){
-		if(fscanf(fp, ".redirect %s", buf)){
+		if(fscanf(fp, ".redirect %s", buf)==1){
 			fclose(fp);
 			free(codec_filename);
 			free(phase);
-- 
2.43.0


From a8b8fc8e601072fd56aff010a36e98766180096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:52 +0000
Subject: [PATCH 75/77] fix: output to a descriptor lost what an interrupted or
 partial write did not take

---
 src/libbsdconv.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index f5ad6cd..022e325 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -9,12 +9,12 @@
 #include <string.h>
 #include <ctype.h>
 #include <dirent.h>
+#include <errno.h>
 #include "bsdconv.h"
 #ifdef WIN32
 #include <windows.h>
 #else
 #include <fcntl.h>
-#include <errno.h>
 #include <sys/stat.h>
 #include <sys/mman.h>
 #endif
@@ -653,6 +653,8 @@ void bsdconv(struct bsdconv_instance *ins){
 	char *ptr;
 	FILE *fp;
 	int fd;
+	size_t data_len;
+	ssize_t written;
 	unsigned char c;
 	struct bsdconv_phase *prev_phase;
 	struct bsdconv_phase *this_phase;
@@ -1128,7 +1130,15 @@ void bsdconv(struct bsdconv_instance *ins){
 			fd=(intptr_t)ins->output.data;
 			while(last_phase->data_head->next){
 				data_ptr=last_phase->data_head->next;
-				write(fd, data_ptr->data, data_ptr->len);
+				//a write may be interrupted, or take a part only
+				data_len=0;
+				while(data_len < data_ptr->len){
+					written=write(fd, (char *)data_ptr->data+data_len, data_ptr->len-data_len);
+					if(written > 0)
+						data_len+=written;
+					else if(written==0 || errno!=EINTR)
+						break;
+				}
 				last_phase->data_head->next=last_phase->data_head->next->next;
 				DATUM_FREE(ins, data_ptr);
 			}
-- 
2.43.0


From dfd1ad6380d626b0ba0cef9c6a20cb683dfe6ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:52 +0000
Subject: [PATCH 76/77] fix: long lines and unfinished last lines of table
 sources were misread

---
 src/bsdconv-mktable.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index a17860e..567d031 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -154,8 +154,9 @@ uintptr_t hash_callback(int *p, uintptr_t l, int level){
 int main(int argc, char *argv[]){
 	int i, j, k, c=0, cu, cl, case_insensitive, level;
 	FILE *fp;
-	char inbuf[1024], *f, *t, *tmp, *of, *ot;
-	int dat[1024];
+	char *inbuf, *f, *t, *tmp, *of, *ot;
+	size_t inbuf_size=1024, inlen;
+	int *dat;
 	offset_t sub[257];
 	uintptr_t l;
 	struct m_data_st *data_r=NULL, *data_p=NULL, *data_q=NULL, *data_t=NULL;
@@ -237,17 +238,29 @@ int main(int argc, char *argv[]){
 	holder.base=calloc(257, sizeof(struct m_state_st *));
 	holder.base[0]=state_r;
 
-	while(fgets((char *)inbuf, 1024, fp)){
+	inbuf=malloc(inbuf_size);
+	dat=malloc(sizeof(int)*inbuf_size);
+	while(fgets(inbuf, inbuf_size, fp)){
+		//lines may be of any length
+		inlen=strlen(inbuf);
+		while(inlen==inbuf_size-1 && inbuf[inlen-1]!='\n'){
+			inbuf_size*=2;
+			inbuf=realloc(inbuf, inbuf_size);
+			dat=realloc(dat, sizeof(int)*inbuf_size);
+			if(!fgets(inbuf+inlen, inbuf_size-inlen, fp))
+				break;
+			inlen+=strlen(inbuf+inlen);
+		}
 		if(inbuf[0]=='#' || inbuf[strspn(inbuf, "\t\r\n ")]=='\0') continue;
 		tmp=inbuf;
 		f=of=strsep((char **)&tmp, "\t ");
-		while(strchr("\t ",*tmp)){
+		while(tmp && *tmp && strchr("\t ",*tmp)){
 			++tmp;
 		}
-		if(*tmp){
+		if(tmp && *tmp){
 			t=ot=strsep((char **)&tmp, "\t\r\n# ");
 		}else{
-			t=ot=NULL;
+			t=ot="";
 		}
 
 		todo=malloc(sizeof(struct states));
@@ -435,6 +448,8 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 		todo=NULL;
 	}
 	free(newtodo);
+	free(inbuf);
+	free(dat);
 	fclose(fp);
 	free(holder.base);
 
-- 
2.43.0


From 25f9341f55681ffa677bef91ec3e9c03ea0feecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:52 +0000
Subject: [PATCH 77/77] fix: a callback took the data of a plain entry of the
 same key

---
 src/bsdconv-mktable.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 567d031..decbc82 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -402,7 +402,20 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 							)
 						)
 						&&
-						(level+todo_item->level) <= todo_item->state->base[c]->level
+						(
+							(level+todo_item->level) <= todo_item->state->base[c]->level
+							||
+							(
+								//plain entries take precedence
+								callback
+								&&
+								(
+								todo_item->state->base[c]->status==MATCH
+								||
+								todo_item->state->base[c]->status==SUBMATCH
+								)
+							)
+						)
 					){
 						DPRINTF("Already has data at %p for %s, dropping %s\n", todo_item->state->base[c], of, ot);
 						continue;
-- 
2.43.0

