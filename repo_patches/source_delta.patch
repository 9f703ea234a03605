From 02ed31005c4aaf7aeae87a60189af53b19b87a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 01/28] fix: block recreate with a new round count reads the
 descriptor after freeing the state

---
 lib/block/anubis.c    | 4 +++-
 lib/block/aria.c      | 4 +++-
 lib/block/blowfish.c  | 4 +++-
 lib/block/gost.c      | 4 +++-
 lib/block/idea.c      | 4 +++-
 lib/block/khazad.c    | 4 +++-
 lib/block/lea.c       | 4 +++-
 lib/block/rc5.c       | 4 +++-
 lib/block/rc6.c       | 4 +++-
 lib/block/rectangle.c | 4 +++-
 lib/block/rijndael.c  | 8 ++++++--
 lib/block/safer.c     | 8 ++++++--
 lib/block/saferpp.c   | 4 +++-
 lib/block/seed.c      | 4 +++-
 lib/block/serpent.c   | 4 +++-
 lib/block/shacal2.c   | 4 +++-
 lib/block/simon128.c  | 4 +++-
 lib/block/simon32.c   | 4 +++-
 lib/block/simon64.c   | 4 +++-
 lib/block/sm4.c       | 4 +++-
 lib/block/speck128.c  | 4 +++-
 lib/block/speck32.c   | 4 +++-
 lib/block/speck64.c   | 4 +++-
 lib/block/trax_l.c    | 4 +++-
 lib/block/trax_m.c    | 4 +++-
 lib/block/twofish.c   | 4 +++-
 lib/block/xtea.c      | 4 +++-
 27 files changed, 87 insertions(+), 29 deletions(-)

diff --git a/lib/block/anubis.c b/lib/block/anubis.c
index 78dd58b..79a37a9 100644
--- a/lib/block/anubis.c
+++ b/lib/block/anubis.c
@@ -770,8 +770,10 @@ static kripto_block *anubis_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		anubis_destroy(s);
-		s = anubis_create(s->desc, r, key, key_len);
+		s = anubis_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/aria.c b/lib/block/aria.c
index fd6c724..b735d98 100644
--- a/lib/block/aria.c
+++ b/lib/block/aria.c
@@ -705,8 +705,10 @@ static kripto_block *aria_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		aria_destroy(s);
-		s = aria_create(s->desc, r, key, key_len);
+		s = aria_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/blowfish.c b/lib/block/blowfish.c
index 3a8f000..9c280ee 100644
--- a/lib/block/blowfish.c
+++ b/lib/block/blowfish.c
@@ -519,8 +519,10 @@ static kripto_block *blowfish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		blowfish_destroy(s);
-		s = blowfish_create(s->desc, r, key, key_len);
+		s = blowfish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/gost.c b/lib/block/gost.c
index 6e172dc..00c1be2 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -190,8 +190,10 @@ static kripto_block *gost_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		gost_destroy(s);
-		s = gost_create(s->desc, r, key, key_len);
+		s = gost_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/idea.c b/lib/block/idea.c
index bea4387..e33ea90 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -212,8 +212,10 @@ static kripto_block *idea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		idea_destroy(s);
-		s = idea_create(s->desc, r, key, key_len);
+		s = idea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/khazad.c b/lib/block/khazad.c
index 52cc321..5189f88 100644
--- a/lib/block/khazad.c
+++ b/lib/block/khazad.c
@@ -747,8 +747,10 @@ static kripto_block *khazad_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		khazad_destroy(s);
-		s = khazad_create(s->desc, r, key, key_len);
+		s = khazad_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/lea.c b/lib/block/lea.c
index 7c5ce68..ebb0ef3 100644
--- a/lib/block/lea.c
+++ b/lib/block/lea.c
@@ -249,8 +249,10 @@ static kripto_block *lea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		lea_destroy(s);
-		s = lea_create(s->desc, r, key, key_len);
+		s = lea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc5.c b/lib/block/rc5.c
index 650ab37..cd1d4ca 100644
--- a/lib/block/rc5.c
+++ b/lib/block/rc5.c
@@ -156,8 +156,10 @@ static kripto_block *rc5_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rc5_destroy(s);
-		s = rc5_create(s->desc, r, key, key_len);
+		s = rc5_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc6.c b/lib/block/rc6.c
index dccc223..8920a8e 100644
--- a/lib/block/rc6.c
+++ b/lib/block/rc6.c
@@ -197,8 +197,10 @@ static kripto_block *rc6_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rc6_destroy(s);
-		s = rc6_create(s->desc, r, key, key_len);
+		s = rc6_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rectangle.c b/lib/block/rectangle.c
index 03eb04f..821d437 100644
--- a/lib/block/rectangle.c
+++ b/lib/block/rectangle.c
@@ -286,8 +286,10 @@ static kripto_block *rectangle_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rectangle_destroy(s);
-		s = rectangle_create(s->desc, r, key, key_len);
+		s = rectangle_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 4e0e8e6..70aea61 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -934,8 +934,10 @@ static kripto_block *rijndael128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rijndael128_destroy(s);
-		s = rijndael128_create(s->desc, r, key, key_len);
+		s = rijndael128_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -1167,8 +1169,10 @@ static kripto_block *rijndael256_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rijndael256_destroy(s);
-		s = rijndael256_create(s->desc, r, key, key_len);
+		s = rijndael256_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/safer.c b/lib/block/safer.c
index 9ab2013..f47ba54 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -348,8 +348,10 @@ static kripto_block *safer_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		safer_destroy(s);
-		s = safer_create(s->desc, r, key, key_len);
+		s = safer_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -401,8 +403,10 @@ static kripto_block *safer_sk_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		safer_destroy(s);
-		s = safer_sk_create(s->desc, r, key, key_len);
+		s = safer_sk_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index 86d6978..a8825a0 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -410,8 +410,10 @@ static kripto_block *saferpp_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		saferpp_destroy(s);
-		s = saferpp_create(s->desc, r, key, key_len);
+		s = saferpp_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/seed.c b/lib/block/seed.c
index 91f0c23..0bc3e20 100644
--- a/lib/block/seed.c
+++ b/lib/block/seed.c
@@ -457,8 +457,10 @@ static kripto_block *seed_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		seed_destroy(s);
-		s = seed_create(s->desc, r, key, key_len);
+		s = seed_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/serpent.c b/lib/block/serpent.c
index 9e1396d..63ec683 100644
--- a/lib/block/serpent.c
+++ b/lib/block/serpent.c
@@ -707,8 +707,10 @@ static kripto_block *serpent_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		serpent_destroy(s);
-		s = serpent_create(s->desc, r, key, key_len);
+		s = serpent_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/shacal2.c b/lib/block/shacal2.c
index 9d436de..6bd6b51 100644
--- a/lib/block/shacal2.c
+++ b/lib/block/shacal2.c
@@ -234,8 +234,10 @@ static kripto_block *shacal2_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		shacal2_destroy(s);
-		s = shacal2_create(s->desc, r, key, key_len);
+		s = shacal2_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon128.c b/lib/block/simon128.c
index 8259e95..87d3460 100644
--- a/lib/block/simon128.c
+++ b/lib/block/simon128.c
@@ -182,8 +182,10 @@ static kripto_block *simon128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon128_destroy(s);
-		s = simon128_create(s->desc, r, key, key_len);
+		s = simon128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon32.c b/lib/block/simon32.c
index 94d071f..45d955d 100644
--- a/lib/block/simon32.c
+++ b/lib/block/simon32.c
@@ -154,8 +154,10 @@ static kripto_block *simon32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon32_destroy(s);
-		s = simon32_create(s->desc, r, key, key_len);
+		s = simon32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon64.c b/lib/block/simon64.c
index 0caf667..4797fac 100644
--- a/lib/block/simon64.c
+++ b/lib/block/simon64.c
@@ -165,8 +165,10 @@ static kripto_block *simon64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon64_destroy(s);
-		s = simon64_create(s->desc, r, key, key_len);
+		s = simon64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/sm4.c b/lib/block/sm4.c
index 142173a..079b9db 100644
--- a/lib/block/sm4.c
+++ b/lib/block/sm4.c
@@ -222,8 +222,10 @@ static kripto_block *sm4_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		sm4_destroy(s);
-		s = sm4_create(s->desc, r, key, key_len);
+		s = sm4_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 1dfaf86..70cd0de 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -144,8 +144,10 @@ static kripto_block *speck128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck128_destroy(s);
-		s = speck128_create(s->desc, r, key, key_len);
+		s = speck128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index e85af4d..bbf563f 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -144,8 +144,10 @@ static kripto_block *speck32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck32_destroy(s);
-		s = speck32_create(s->desc, r, key, key_len);
+		s = speck32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index f495424..a20ecce 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -144,8 +144,10 @@ static kripto_block *speck64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck64_destroy(s);
-		s = speck64_create(s->desc, r, key, key_len);
+		s = speck64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_l.c b/lib/block/trax_l.c
index d447c42..d7b118d 100644
--- a/lib/block/trax_l.c
+++ b/lib/block/trax_l.c
@@ -287,8 +287,10 @@ static kripto_block *trax_l_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		trax_l_destroy(s);
-		s = trax_l_create(s->desc, r, key, key_len);
+		s = trax_l_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_m.c b/lib/block/trax_m.c
index 1611466..f324407 100644
--- a/lib/block/trax_m.c
+++ b/lib/block/trax_m.c
@@ -219,8 +219,10 @@ static kripto_block *trax_m_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		trax_m_destroy(s);
-		s = trax_m_create(s->desc, r, key, key_len);
+		s = trax_m_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/twofish.c b/lib/block/twofish.c
index 676aa5f..c128761 100644
--- a/lib/block/twofish.c
+++ b/lib/block/twofish.c
@@ -1224,8 +1224,10 @@ static kripto_block *twofish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		twofish_destroy(s);
-		s = twofish_create(s->desc, r, key, key_len);
+		s = twofish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index b050337..713c9cf 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -142,8 +142,10 @@ static kripto_block *xtea_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		xtea_destroy(s);
-		s = xtea_create(s->desc, r, key, key_len);
+		s = xtea_create(desc, r, key, key_len);
 	}
 	else
 	{
-- 
2.43.0


From 51233cd830014c5008cda237d198069b95be7286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 02/28] fix: CTR counter never carries into its most
 significant byte

---
 lib/stream/ctr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/stream/ctr.c b/lib/stream/ctr.c
index d3a833c..f4ff81c 100644
--- a/lib/stream/ctr.c
+++ b/lib/stream/ctr.c
@@ -54,7 +54,7 @@ static void ctr_crypt
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize - 1; n; n--)
+			for(n = s->blocksize; n--;)
 				if(++s->x[n]) break;
 		}
 
@@ -79,7 +79,7 @@ static void ctr_prng
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize - 1; n; n--)
+			for(n = s->blocksize; n--;)
 				if(++s->x[n]) break;
 		}
 
-- 
2.43.0


From 7d324c2c07d99d712e926efcc11695364a8e5eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:41 +0000
Subject: [PATCH 03/28] fix: BLAKE, BLAKE2 and Skein process the final block
 with the right counter and flag

BLAKE: the counter is zero when the last block holds no message bits.
BLAKE2, Skein: a full buffered block must not be processed before it is
known whether it is the last one.
---
 lib/hash/blake256.c  | 6 ++++--
 lib/hash/blake2b.c   | 4 ++--
 lib/hash/blake2s.c   | 4 ++--
 lib/hash/blake512.c  | 6 ++++--
 lib/hash/skein1024.c | 4 ++--
 lib/hash/skein256.c  | 4 ++--
 lib/hash/skein512.c  | 4 ++--
 lib/mac/skein1024.c  | 4 ++--
 lib/mac/skein256.c   | 4 ++--
 lib/mac/skein512.c   | 4 ++--
 10 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/lib/hash/blake256.c b/lib/hash/blake256.c
index ded9fe2..55c1662 100644
--- a/lib/hash/blake256.c
+++ b/lib/hash/blake256.c
@@ -212,6 +212,8 @@ static void blake256_input
 
 static void blake256_finish(kripto_hash *s)
 {
+	unsigned int n = s->i; /* message bytes in the last block */
+
 	s->len[0] += s->i << 3;
 	if(s->len[0] < (s->i << 3))
 	{
@@ -226,7 +228,7 @@ static void blake256_finish(kripto_hash *s)
 	{
 		while(s->i < 64) s->buf[s->i++] = 0;
 		blake256_process(s, s->buf);
-		s->i = 0;
+		n = s->i = 0;
 	}
 
 	while(s->i < 56) s->buf[s->i++] = 0;
@@ -237,7 +239,7 @@ static void blake256_finish(kripto_hash *s)
 	STORE32B(s->len[1], s->buf + 56);
 	STORE32B(s->len[0], s->buf + 60);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	if(!n) s->len[0] = s->len[1] = 0;
 
 	blake256_process(s, s->buf);
 
diff --git a/lib/hash/blake2b.c b/lib/hash/blake2b.c
index 8451628..6a4ab46 100644
--- a/lib/hash/blake2b.c
+++ b/lib/hash/blake2b.c
@@ -177,8 +177,6 @@ static void blake2b_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 128)
 		{
 			s->len[0] += 128;
@@ -191,6 +189,8 @@ static void blake2b_input
 			blake2b_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/blake2s.c b/lib/hash/blake2s.c
index 881bac0..7988125 100644
--- a/lib/hash/blake2s.c
+++ b/lib/hash/blake2s.c
@@ -175,8 +175,6 @@ static void blake2s_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 64)
 		{
 			s->len[0] += 64;
@@ -189,6 +187,8 @@ static void blake2s_input
 			blake2s_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/blake512.c b/lib/hash/blake512.c
index 0c64c32..aef827e 100644
--- a/lib/hash/blake512.c
+++ b/lib/hash/blake512.c
@@ -217,6 +217,8 @@ static void blake512_input
 
 static void blake512_finish(kripto_hash *s)
 {
+	unsigned int n = s->i; /* message bytes in the last block */
+
 	s->len[0] += s->i << 3;
 	if(s->len[0] < (s->i << 3))
 	{
@@ -231,7 +233,7 @@ static void blake512_finish(kripto_hash *s)
 	{
 		while(s->i < 128) s->buf[s->i++] = 0;
 		blake512_process(s, s->buf);
-		s->i = 0;
+		n = s->i = 0;
 	}
 
 	while(s->i < 112) s->buf[s->i++] = 0;
@@ -242,7 +244,7 @@ static void blake512_finish(kripto_hash *s)
 	STORE64B(s->len[1], s->buf + 112);
 	STORE64B(s->len[0], s->buf + 120);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	if(!n) s->len[0] = s->len[1] = 0;
 
 	blake512_process(s, s->buf);
 
diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index 25708cd..dbfc4b2 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -145,8 +145,6 @@ static void skein1024_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -154,6 +152,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index de6f2dd..603aa73 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -145,8 +145,6 @@ static void skein256_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -154,6 +152,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index e0fbeaa..6111c14 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -145,8 +145,6 @@ static void skein512_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -154,6 +152,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein1024.c b/lib/mac/skein1024.c
index 405ae55..887214d 100644
--- a/lib/mac/skein1024.c
+++ b/lib/mac/skein1024.c
@@ -147,8 +147,6 @@ static void skein1024_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -156,6 +154,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein256.c b/lib/mac/skein256.c
index ea4b813..fd5ef08 100644
--- a/lib/mac/skein256.c
+++ b/lib/mac/skein256.c
@@ -147,8 +147,6 @@ static void skein256_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -156,6 +154,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein512.c b/lib/mac/skein512.c
index ae114ac..e8b0c32 100644
--- a/lib/mac/skein512.c
+++ b/lib/mac/skein512.c
@@ -147,8 +147,6 @@ static void skein512_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -156,6 +154,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
-- 
2.43.0


From 8f77551f535190b7abdb6c6948602f82dbd960a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:00 +0000
Subject: [PATCH 04/28] fix: Skein multi-block key and nonce, output blocks,
 lengths and key stream start

The second and later blocks of a key or nonce reused the first, a partial
block was overwritten with zeros, more than one output block was chained
instead of counted, and the first key stream block exposed the buffered IV.
---
 lib/hash/skein1024.c   | 24 +++++++++++++++---------
 lib/hash/skein256.c    | 24 +++++++++++++++---------
 lib/hash/skein512.c    | 24 +++++++++++++++---------
 lib/mac/skein1024.c    |  6 ++++--
 lib/mac/skein256.c     |  6 ++++--
 lib/mac/skein512.c     |  6 ++++--
 lib/stream/skein1024.c |  8 +++++---
 lib/stream/skein256.c  |  8 +++++---
 lib/stream/skein512.c  |  8 +++++---
 9 files changed, 72 insertions(+), 42 deletions(-)

diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index dbfc4b2..3252717 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -91,7 +91,7 @@ static kripto_hash *skein1024_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,10 +117,11 @@ static kripto_hash *skein1024_recreate
 		unsigned int len = salt_len > 128 ? 128 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 128 - len);
+		memset(s->buf + len, 0, 128 - len);
 
 		POS_ADD(s->tweak, len);
 		salt_len -= len;
+		salt = CU8(salt) + len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
 
@@ -170,23 +171,28 @@ static void skein1024_output(kripto_hash *s, void *out, size_t len)
 		memset(s->buf, 0, 128);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 128);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 128)
 		{
-			s->out_len -= 128;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein1024_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 128);
+			kripto_block_encrypt(s->block, s->buf, s->h);
+			for(s->i = 0; s->i < 8; s->i++) s->h[s->i] ^= s->buf[s->i];
+
+			/* next output block */
+			for(s->i = 0; s->i < 8; s->i++)
+				if(++s->buf[s->i]) break;
+
 			s->i = 0;
 		}
-		
+
 		U8(out)[i] = s->h[s->i++];
 	}
 }
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index 603aa73..a8b2903 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -91,7 +91,7 @@ static kripto_hash *skein256_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,10 +117,11 @@ static kripto_hash *skein256_recreate
 		unsigned int len = salt_len > 32 ? 32 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 32 - len);
+		memset(s->buf + len, 0, 32 - len);
 
 		POS_ADD(s->tweak, len);
 		salt_len -= len;
+		salt = CU8(salt) + len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
 
@@ -170,23 +171,28 @@ static void skein256_output(kripto_hash *s, void *out, size_t len)
 		memset(s->buf, 0, 32);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 32);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 32)
 		{
-			s->out_len -= 32;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein256_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 32);
+			kripto_block_encrypt(s->block, s->buf, s->h);
+			for(s->i = 0; s->i < 8; s->i++) s->h[s->i] ^= s->buf[s->i];
+
+			/* next output block */
+			for(s->i = 0; s->i < 8; s->i++)
+				if(++s->buf[s->i]) break;
+
 			s->i = 0;
 		}
-		
+
 		U8(out)[i] = s->h[s->i++];
 	}
 }
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index 6111c14..8a4a516 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -91,7 +91,7 @@ static kripto_hash *skein512_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,10 +117,11 @@ static kripto_hash *skein512_recreate
 		unsigned int len = salt_len > 64 ? 64 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 64 - len);
+		memset(s->buf + len, 0, 64 - len);
 
 		POS_ADD(s->tweak, len);
 		salt_len -= len;
+		salt = CU8(salt) + len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
 
@@ -170,23 +171,28 @@ static void skein512_output(kripto_hash *s, void *out, size_t len)
 		memset(s->buf, 0, 64);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 64);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 64)
 		{
-			s->out_len -= 64;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein512_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 64);
+			kripto_block_encrypt(s->block, s->buf, s->h);
+			for(s->i = 0; s->i < 8; s->i++) s->h[s->i] ^= s->buf[s->i];
+
+			/* next output block */
+			for(s->i = 0; s->i < 8; s->i++)
+				if(++s->buf[s->i]) break;
+
 			s->i = 0;
 		}
-		
+
 		U8(out)[i] = s->h[s->i++];
 	}
 }
diff --git a/lib/mac/skein1024.c b/lib/mac/skein1024.c
index 887214d..9fa43ae 100644
--- a/lib/mac/skein1024.c
+++ b/lib/mac/skein1024.c
@@ -90,7 +90,7 @@ static kripto_mac *skein1024_recreate
 	memset(s->h, 0, 128);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,11 +101,12 @@ static kripto_mac *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(s->tweak, block);
 
 		key_len -= block;
+		key = CU8(key) + block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
 
@@ -125,6 +126,7 @@ static kripto_mac *skein1024_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 112);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein1024_process(s);
diff --git a/lib/mac/skein256.c b/lib/mac/skein256.c
index fd5ef08..c5b4c94 100644
--- a/lib/mac/skein256.c
+++ b/lib/mac/skein256.c
@@ -90,7 +90,7 @@ static kripto_mac *skein256_recreate
 	memset(s->h, 0, 32);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,11 +101,12 @@ static kripto_mac *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(s->tweak, block);
 
 		key_len -= block;
+		key = CU8(key) + block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
 
@@ -125,6 +126,7 @@ static kripto_mac *skein256_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 16);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein256_process(s);
diff --git a/lib/mac/skein512.c b/lib/mac/skein512.c
index e8b0c32..b233cc4 100644
--- a/lib/mac/skein512.c
+++ b/lib/mac/skein512.c
@@ -90,7 +90,7 @@ static kripto_mac *skein512_recreate
 	memset(s->h, 0, 64);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,11 +101,12 @@ static kripto_mac *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(s->tweak, block);
 
 		key_len -= block;
+		key = CU8(key) + block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
 
@@ -125,6 +126,7 @@ static kripto_mac *skein512_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 48);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein512_process(s);
diff --git a/lib/stream/skein1024.c b/lib/stream/skein1024.c
index f722ae9..91fbe19 100644
--- a/lib/stream/skein1024.c
+++ b/lib/stream/skein1024.c
@@ -76,7 +76,7 @@ static kripto_stream *skein1024_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 128; /* no key stream yet */
 	memset(k, 0, 128);
 	memset(s->ctr, 0, 128);
 
@@ -90,11 +90,12 @@ static kripto_stream *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(tweak, block);
 
 		key_len -= block;
+		key = CU8(key) + block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
 
@@ -138,11 +139,12 @@ static kripto_stream *skein1024_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(tweak, block);
 
 		iv_len -= block;
+		iv = CU8(iv) + block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
 
diff --git a/lib/stream/skein256.c b/lib/stream/skein256.c
index 847ec10..e6ba5ed 100644
--- a/lib/stream/skein256.c
+++ b/lib/stream/skein256.c
@@ -76,7 +76,7 @@ static kripto_stream *skein256_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 32; /* no key stream yet */
 	memset(k, 0, 32);
 	memset(s->ctr, 0, 32);
 
@@ -90,11 +90,12 @@ static kripto_stream *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(tweak, block);
 
 		key_len -= block;
+		key = CU8(key) + block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
 
@@ -138,11 +139,12 @@ static kripto_stream *skein256_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(tweak, block);
 
 		iv_len -= block;
+		iv = CU8(iv) + block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
 
diff --git a/lib/stream/skein512.c b/lib/stream/skein512.c
index 231a56d..47428c4 100644
--- a/lib/stream/skein512.c
+++ b/lib/stream/skein512.c
@@ -76,7 +76,7 @@ static kripto_stream *skein512_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 64; /* no key stream yet */
 	memset(k, 0, 64);
 	memset(s->ctr, 0, 64);
 
@@ -90,11 +90,12 @@ static kripto_stream *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(tweak, block);
 
 		key_len -= block;
+		key = CU8(key) + block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
 
@@ -138,11 +139,12 @@ static kripto_stream *skein512_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(tweak, block);
 
 		iv_len -= block;
+		iv = CU8(iv) + block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
 
-- 
2.43.0


From 26137833a6a09cd203aba1cc6b0e290e1d41b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:04 +0000
Subject: [PATCH 05/28] fix: CFB decryption kept its key stream in the caller's
 output buffer

---
 lib/stream/cfb.c | 402 ++++++++++++++++++++++++-----------------------
 1 file changed, 202 insertions(+), 200 deletions(-)

diff --git a/lib/stream/cfb.c b/lib/stream/cfb.c
index 373ec5e..4dbf890 100644
--- a/lib/stream/cfb.c
+++ b/lib/stream/cfb.c
@@ -1,200 +1,202 @@
-/*
- * Copyright (C) 2013 by Gregor Pintar <grpintar@gmail.com>
- *
- * Permission to use, copy, modify, and/or distribute this software for any
- * purpose with or without fee is hereby granted.
- *
- * THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES
- * WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF
- * MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR
- * ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES
- * WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN
- * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
- * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
- */
-
-#include <stdint.h>
-#include <string.h>
-#include <stdlib.h>
-
-#include <kripto/cast.h>
-#include <kripto/memory.h>
-#include <kripto/block.h>
-#include <kripto/stream.h>
-#include <kripto/desc/stream.h>
-
-#include <kripto/stream/cfb.h>
-
-struct kripto_stream
-{
-	const kripto_desc_stream *desc;
-	unsigned int multof;
-	kripto_block *block;
-	uint8_t *prev;
-	unsigned int blocksize;
-	unsigned int used;
-};
-
-static void cfb_encrypt
-(
-	kripto_stream *s,
-	const void *pt,
-	void *ct,
-	size_t len
-)
-{
-	size_t i;
-
-	for(i = 0; i < len; i++)
-	{
-		if(s->used == s->blocksize)
-		{
-			kripto_block_encrypt(s->block, s->prev, s->prev);
-			s->used = 0;
-		}
-
-		U8(ct)[i] = s->prev[s->used++] ^= CU8(pt)[i];
-	}
-}
-
-static void cfb_decrypt
-(
-	kripto_stream *s,
-	const void *ct,
-	void *pt,
-	size_t len
-)
-{
-	size_t i;
-
-	for(i = 0; i < len; i++)
-	{
-		if(s->used == s->blocksize)
-		{
-			kripto_block_encrypt(s->block, s->prev, pt);
-			s->used = 0;
-		}
-
-		U8(pt)[i] ^= CU8(ct)[i];
-		s->prev[s->used++] = CU8(ct)[i];
-	}
-}
-
-static void cfb_prng
-(
-	kripto_stream *s,
-	void *out,
-	size_t len
-)
-{
-	size_t i;
-
-	for(i = 0; i < len; i++)
-	{
-		if(s->used == s->blocksize)
-		{
-			kripto_block_encrypt(s->block, s->prev, s->prev);
-			s->used = 0;
-		}
-
-		U8(out)[i] = s->prev[s->used++];
-	}
-}
-
-static void cfb_destroy(kripto_stream *s)
-{
-	kripto_block_destroy(s->block);
-	kripto_memory_wipe(s, sizeof(kripto_stream) + s->blocksize);
-	free(s);
-}
-
-struct ext
-{
-	kripto_desc_stream desc;
-	const kripto_desc_block *block;
-};
-
-#define EXT(X) ((const struct ext *)(X))
-
-static kripto_stream *cfb_create
-(
-	const kripto_desc_stream *desc,
-	unsigned int rounds,
-	const void *key,
-	unsigned int key_len,
-	const void *iv,
-	unsigned int iv_len
-)
-{
-	kripto_stream *s = (kripto_stream *)malloc(sizeof(kripto_stream) + desc->maxiv);
-	if(!s) return 0;
-
-	s->desc = desc;
-	s->multof = 1;
-
-	s->used = s->blocksize = desc->maxiv;
-
-	s->prev = (uint8_t *)s + sizeof(kripto_stream);
-
-	/* block cipher */
-	s->block = kripto_block_create(EXT(desc)->block, rounds, key, key_len);
-	if(!s->block)
-	{
-		kripto_memory_wipe(s, sizeof(kripto_stream) + s->blocksize);
-		free(s);
-		return 0;
-	}
-
-	/* IV */
-	if(iv_len) memcpy(s->prev, iv, iv_len);
-	memset(s->prev + iv_len, 0, s->blocksize - iv_len);
-
-	return s;
-}
-
-static kripto_stream *cfb_recreate
-(
-	kripto_stream *s,
-	unsigned int rounds,
-	const void *key,
-	unsigned int key_len,
-	const void *iv,
-	unsigned int iv_len
-)
-{
-	/* block cipher */
-	s->block = kripto_block_recreate(s->block, rounds, key, key_len);
-	if(!s->block)
-	{
-		kripto_memory_wipe(s, sizeof(kripto_stream) + s->blocksize);
-		free(s);
-		return 0;
-	}
-
-	/* IV */
-	if(iv_len) memcpy(s->prev, iv, iv_len);
-	memset(s->prev + iv_len, 0, s->blocksize - iv_len);
-
-	s->used = s->blocksize;
-
-	return s;
-}
-
-kripto_desc_stream *kripto_stream_cfb(const kripto_desc_block *block)
-{
-	struct ext *s = (struct ext *)malloc(sizeof(struct ext));
-	if(!s) return 0;
-
-	s->block = block;
-
-	s->desc.create = &cfb_create;
-	s->desc.recreate = &cfb_recreate;
-	s->desc.encrypt = &cfb_encrypt;
-	s->desc.decrypt = &cfb_decrypt;
-	s->desc.prng = &cfb_prng;
-	s->desc.destroy = &cfb_destroy;
-	s->desc.maxkey = kripto_block_maxkey(block);
-	s->desc.maxiv = kripto_block_size(block);
-
-	return (kripto_desc_stream *)s;
-}
+/*
+ * Copyright (C) 2013 by Gregor Pintar <grpintar@gmail.com>
+ *
+ * Permission to use, copy, modify, and/or distribute this software for any
+ * purpose with or without fee is hereby granted.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES
+ * WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF
+ * MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR
+ * ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES
+ * WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN
+ * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
+ * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
+ */
+
+#include <stdint.h>
+#include <string.h>
+#include <stdlib.h>
+
+#include <kripto/cast.h>
+#include <kripto/memory.h>
+#include <kripto/block.h>
+#include <kripto/stream.h>
+#include <kripto/desc/stream.h>
+
+#include <kripto/stream/cfb.h>
+
+struct kripto_stream
+{
+	const kripto_desc_stream *desc;
+	unsigned int multof;
+	kripto_block *block;
+	uint8_t *prev;
+	unsigned int blocksize;
+	unsigned int used;
+};
+
+static void cfb_encrypt
+(
+	kripto_stream *s,
+	const void *pt,
+	void *ct,
+	size_t len
+)
+{
+	size_t i;
+
+	for(i = 0; i < len; i++)
+	{
+		if(s->used == s->blocksize)
+		{
+			kripto_block_encrypt(s->block, s->prev, s->prev);
+			s->used = 0;
+		}
+
+		U8(ct)[i] = s->prev[s->used++] ^= CU8(pt)[i];
+	}
+}
+
+static void cfb_decrypt
+(
+	kripto_stream *s,
+	const void *ct,
+	void *pt,
+	size_t len
+)
+{
+	size_t i;
+	uint8_t c;
+
+	for(i = 0; i < len; i++)
+	{
+		if(s->used == s->blocksize)
+		{
+			kripto_block_encrypt(s->block, s->prev, s->prev);
+			s->used = 0;
+		}
+
+		c = CU8(ct)[i];
+		U8(pt)[i] = c ^ s->prev[s->used];
+		s->prev[s->used++] = c;
+	}
+}
+
+static void cfb_prng
+(
+	kripto_stream *s,
+	void *out,
+	size_t len
+)
+{
+	size_t i;
+
+	for(i = 0; i < len; i++)
+	{
+		if(s->used == s->blocksize)
+		{
+			kripto_block_encrypt(s->block, s->prev, s->prev);
+			s->used = 0;
+		}
+
+		U8(out)[i] = s->prev[s->used++];
+	}
+}
+
+static void cfb_destroy(kripto_stream *s)
+{
+	kripto_block_destroy(s->block);
+	kripto_memory_wipe(s, sizeof(kripto_stream) + s->blocksize);
+	free(s);
+}
+
+struct ext
+{
+	kripto_desc_stream desc;
+	const kripto_desc_block *block;
+};
+
+#define EXT(X) ((const struct ext *)(X))
+
+static kripto_stream *cfb_create
+(
+	const kripto_desc_stream *desc,
+	unsigned int rounds,
+	const void *key,
+	unsigned int key_len,
+	const void *iv,
+	unsigned int iv_len
+)
+{
+	kripto_stream *s = (kripto_stream *)malloc(sizeof(kripto_stream) + desc->maxiv);
+	if(!s) return 0;
+
+	s->desc = desc;
+	s->multof = 1;
+
+	s->used = s->blocksize = desc->maxiv;
+
+	s->prev = (uint8_t *)s + sizeof(kripto_stream);
+
+	/* block cipher */
+	s->block = kripto_block_create(EXT(desc)->block, rounds, key, key_len);
+	if(!s->block)
+	{
+		kripto_memory_wipe(s, sizeof(kripto_stream) + s->blocksize);
+		free(s);
+		return 0;
+	}
+
+	/* IV */
+	if(iv_len) memcpy(s->prev, iv, iv_len);
+	memset(s->prev + iv_len, 0, s->blocksize - iv_len);
+
+	return s;
+}
+
+static kripto_stream *cfb_recreate
+(
+	kripto_stream *s,
+	unsigned int rounds,
+	const void *key,
+	unsigned int key_len,
+	const void *iv,
+	unsigned int iv_len
+)
+{
+	/* block cipher */
+	s->block = kripto_block_recreate(s->block, rounds, key, key_len);
+	if(!s->block)
+	{
+		kripto_memory_wipe(s, sizeof(kripto_stream) + s->blocksize);
+		free(s);
+		return 0;
+	}
+
+	/* IV */
+	if(iv_len) memcpy(s->prev, iv, iv_len);
+	memset(s->prev + iv_len, 0, s->blocksize - iv_len);
+
+	s->used = s->blocksize;
+
+	return s;
+}
+
+kripto_desc_stream *kripto_stream_cfb(const kripto_desc_block *block)
+{
+	struct ext *s = (struct ext *)malloc(sizeof(struct ext));
+	if(!s) return 0;
+
+	s->block = block;
+
+	s->desc.create = &cfb_create;
+	s->desc.recreate = &cfb_recreate;
+	s->desc.encrypt = &cfb_encrypt;
+	s->desc.decrypt = &cfb_decrypt;
+	s->desc.prng = &cfb_prng;
+	s->desc.destroy = &cfb_destroy;
+	s->desc.maxkey = kripto_block_maxkey(block);
+	s->desc.maxiv = kripto_block_size(block);
+
+	return (kripto_desc_stream *)s;
+}
-- 
2.43.0


From 17b908d139fb312e7bd036fa1f1cf7e574614e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:04 +0000
Subject: [PATCH 06/28] fix: PKCS7 padding for block sizes that are no power of
 two and for full padding blocks

---
 lib/pkcs7.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pkcs7.c b/lib/pkcs7.c
index f615557..5092b3f 100644
--- a/lib/pkcs7.c
+++ b/lib/pkcs7.c
@@ -30,7 +30,7 @@ size_t kripto_pkcs7_add
 {
 	unsigned int i;
 
-	pad = pad - (len & (pad - 1));
+	pad = pad - (len % pad);
 
 	if(pad + len > maxlen) return 0;
 
@@ -42,7 +42,7 @@ size_t kripto_pkcs7_add
 
 size_t kripto_pkcs7_rem(void *buf, size_t len)
 {
-	if(U8(buf)[len - 1] < len)
+	if(U8(buf)[len - 1] <= len)
 		return (len - U8(buf)[len - 1]);
 	else
 		return len;
-- 
2.43.0


From d5ec49747e1a56312adc8610a25e394bb56cc548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:04 +0000
Subject: [PATCH 07/28] fix: PBKDF2 truncated the PRF for short outputs and
 missed a failed recreate

---
 lib/pbkdf2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pbkdf2.c b/lib/pbkdf2.c
index c456fb0..95e8294 100644
--- a/lib/pbkdf2.c
+++ b/lib/pbkdf2.c
@@ -49,7 +49,7 @@ int kripto_pbkdf2
 	assert(iter);
 
 	x = kripto_mac_maxtag(mac);
-	if(out_len < x) x = out_len;
+	if(!x) x = out_len;
 
 	buf0 = (uint8_t *)malloc(x << 1);
 	if(!buf0) return -1;
@@ -75,7 +75,7 @@ int kripto_pbkdf2
 		for(i = 1; i < iter; i++)
 		{
 			m = kripto_mac_recreate(m, mac_rounds, pass, pass_len, x);
-			if(!mac) goto err;
+			if(!m) goto err;
 
 			kripto_mac_input(m, buf0, x);
 			kripto_mac_tag(m, buf0, x);
-- 
2.43.0


From 1f3be026ad2d00ebdb06e50af4e19b2d82ce86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:04 +0000
Subject: [PATCH 08/28] fix: scrypt working blocks overlapped the lookup table

---
 lib/scrypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index 71541c8..c920d67 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -222,7 +222,7 @@ int kripto_scrypt
 	if(!b) return -1;
 
 	t0 = (uint32_t *)(void *)(b + (r << 7) * p);
-	t1 = t0 + (r << 5);
+	t1 = t0 + (r << 5) * n;
 	t2 = t1 + (r << 5);
 
 	if(kripto_pbkdf2
-- 
2.43.0


From 26b4dea5b32704bcdc4f5b21a47e73980998d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:04 +0000
Subject: [PATCH 09/28] fix: scrypt allocation size overflowed for large
 parameters

---
 lib/scrypt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index c920d67..a804a2a 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -218,6 +218,11 @@ int kripto_scrypt
 	uint32_t *t2;
 	uint32_t i;
 
+	/* sizes have to be representable */
+	if(!r || r > (UINT32_MAX >> 8)) return -1;
+	if(!p || p > UINT32_MAX / (r << 7)) return -1;
+	if(n > (SIZE_MAX >> 1) / (r << 7)) return -1;
+
 	b = (uint8_t *)malloc((r << 7) * p + (r << 7) * n + (r << 8));
 	if(!b) return -1;
 
-- 
2.43.0


From f1a07e2bb6eea04d0db1af7dcaefb53edc6441b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:04 +0000
Subject: [PATCH 10/28] fix: HMAC wrote the hashed key past its buffer for tags
 longer than a block

---
 lib/mac/hmac.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mac/hmac.c b/lib/mac/hmac.c
index 5bd432e..b8e18d7 100644
--- a/lib/mac/hmac.c
+++ b/lib/mac/hmac.c
@@ -50,6 +50,8 @@ static int hmac_init
 
 	if(key_len > s->blocksize)
 	{
+		i = tag_len < s->blocksize ? tag_len : s->blocksize;
+
 		if(kripto_hash_all(
 			hash,
 			s->r,
@@ -58,10 +60,8 @@ static int hmac_init
 			key,
 			key_len,
 			s->key,
-			tag_len)
+			i)
 		) return -1;
-
-		i = tag_len;
 	}
 	else
 	{
-- 
2.43.0


From be82724e8861f3ff5c0a00630011d87d68105ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:04 +0000
Subject: [PATCH 11/28] fix: GOST descriptor allocation was not checked

---
 lib/block/gost.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/block/gost.c b/lib/block/gost.c
index 00c1be2..ca45e2f 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -206,6 +206,7 @@ static kripto_block *gost_recreate
 kripto_desc_block *kripto_block_gost(const unsigned char (*sboxes)[16])
 {
 	kripto_desc_block *desc = (kripto_desc_block *)malloc(sizeof(kripto_desc_block) + sizeof(struct gost));
+	if(!desc) return 0;
 
 	desc->create = &gost_create;
 	desc->recreate = &gost_recreate;
-- 
2.43.0


From 14b546cbc2b4c1b3b8985573a8b47c7c9b3a6ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:04 +0000
Subject: [PATCH 12/28] fix: Keccak rate underflowed for requested outputs of
 half the state or more

---
 lib/hash/keccak1600.c | 2 ++
 lib/hash/keccak800.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/hash/keccak1600.c b/lib/hash/keccak1600.c
index 0a95af7..195e0c2 100644
--- a/lib/hash/keccak1600.c
+++ b/lib/hash/keccak1600.c
@@ -304,6 +304,8 @@ static kripto_hash *keccak1600_recreate
 	s->r = r;
 	if(!s->r) s->r = 24;
 
+	/* the capacity has to leave some rate */
+	if(out_len > 99) out_len = 99;
 	s->rate = 200 - (out_len << 1);
 
 	memset(s->s, 0, 200);
diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index 8b9ce0d..c168c8f 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -289,6 +289,8 @@ static kripto_hash *keccak800_recreate
 	s->r = r;
 	if(!s->r) s->r = 20;
 
+	/* the capacity has to leave some rate */
+	if(out_len > 49) out_len = 49;
 	s->rate = 100 - (out_len << 1);
 
 	memset(s->s, 0, 100);
-- 
2.43.0


From 03e1b7971182e46d6093ba1ef1e2fe6d54f624b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:59 +0000
Subject: [PATCH 13/28] fix: IDEA multiplication overflowed a signed int

---
 lib/block/idea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/block/idea.c b/lib/block/idea.c
index e33ea90..0248fd1 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -39,7 +39,7 @@ struct kripto_block
 
 static inline uint16_t MUL(uint16_t a, uint16_t b)
 {
-	uint32_t p = a * b;
+	uint32_t p = (uint32_t)a * b;
 
 	if(p)
 	{
-- 
2.43.0


From 0e2e054c07fa9d0d32994b6f5ee93fb17d22b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:59 +0000
Subject: [PATCH 14/28] fix: XCBC freed derived keys without wiping them when
 the block cipher could not be rekeyed

---
 lib/mac/xcbc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mac/xcbc.c b/lib/mac/xcbc.c
index f421b13..aec7a58 100644
--- a/lib/mac/xcbc.c
+++ b/lib/mac/xcbc.c
@@ -160,6 +160,7 @@ static kripto_mac *xcbc_create
 
 	if(xcbc_init(s, r))
 	{
+		kripto_memory_wipe(s, sizeof(kripto_mac) + s->len * 3);
 		free(s);
 		return 0;
 	}
-- 
2.43.0


From 55faf1400795795797b47e05545381cef59d2705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:59 +0000
Subject: [PATCH 15/28] fix: EAX tags and key streams depended on uninitialised
 memory for nonces shorter than a block

---
 lib/ae/eax.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax.c b/lib/ae/eax.c
index a03af41..6d3a870 100644
--- a/lib/ae/eax.c
+++ b/lib/ae/eax.c
@@ -159,7 +159,7 @@ static kripto_ae *eax_create
 	memset(buf, 0, len);
 	kripto_mac_input(s->omac, buf, len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, len);
@@ -168,7 +168,7 @@ static kripto_ae *eax_create
 	kripto_mac_input(s->omac, buf, len);
 
 	/* create CTR */
-	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, len);
 	if(!s->ctr) goto err6;
 
 	/* create OMAC for header */
@@ -215,7 +215,7 @@ static kripto_ae *eax_recreate
 	memset(buf, 0, s->len);
 	kripto_mac_input(s->omac, buf, s->len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, s->len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, s->len);
@@ -224,7 +224,7 @@ static kripto_ae *eax_recreate
 	kripto_mac_input(s->omac, buf, s->len);
 
 	/* recreate CTR */
-	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, s->len);
 	if(!s->ctr) goto err2;
 
 	/* recreate OMAC for header */
-- 
2.43.0


From e128fb455d1d0850d0fdfd4ab24c33cdba91c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:59 +0000
Subject: [PATCH 16/28] fix: EAX2 wrote past or left uninitialised its nonce
 MAC unless nonce and tag had equal lengths

---
 lib/ae/eax2.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 16ddbe0..6119375 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -123,6 +123,7 @@ static kripto_ae *eax2_create
 	kripto_ae *s;
 	uint8_t *buf;
 	unsigned int mac_key; /* K1 */
+	unsigned int nonce_len; /* stream cipher IV */
 	unsigned int stream_key; /* K2 */
 
 	buf = (uint8_t *)malloc(tag_len);
@@ -141,13 +142,17 @@ static kripto_ae *eax2_create
 		stream_key = kripto_stream_maxkey(EXT(desc)->stream);
 	mac_key = key_len - stream_key;
 
+	nonce_len = tag_len;
+	if(nonce_len > kripto_stream_maxiv(EXT(desc)->stream))
+		nonce_len = kripto_stream_maxiv(EXT(desc)->stream);
+
 	/* MAC IV */
 	s->mac = kripto_mac_create(EXT(desc)->mac, rounds, key, mac_key, tag_len);
 	if(!s->mac) goto err2;
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, tag_len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
@@ -160,7 +165,7 @@ static kripto_ae *eax2_create
 	(
 		EXT(desc)->stream, rounds,
 		(const uint8_t *)key + mac_key, stream_key,
-		s->iv, iv_len
+		s->iv, nonce_len
 	);
 	if(!s->stream) goto err4;
 
@@ -197,6 +202,7 @@ static kripto_ae *eax2_recreate
 {
 	uint8_t *buf;
 	unsigned int mac_key; /* K1 */
+	unsigned int nonce_len; /* stream cipher IV */
 	unsigned int stream_key; /* K2 */
 	const kripto_desc_ae *desc;
 
@@ -221,13 +227,17 @@ static kripto_ae *eax2_recreate
 		stream_key = kripto_stream_maxkey(EXT(s->desc)->stream);
 	mac_key = key_len - stream_key;
 
+	nonce_len = tag_len;
+	if(nonce_len > kripto_stream_maxiv(EXT(s->desc)->stream))
+		nonce_len = kripto_stream_maxiv(EXT(s->desc)->stream);
+
 	/* MAC IV */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
 	if(!s->mac) goto err1;
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, tag_len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
@@ -240,7 +250,7 @@ static kripto_ae *eax2_recreate
 	(
 		s->stream, rounds,
 		(const uint8_t *)key + mac_key, stream_key,
-		s->iv, iv_len
+		s->iv, nonce_len
 	);
 	if(!s->stream) goto err2;
 
-- 
2.43.0


From 728e50bfed2b032a9a48d161d52e5b141e335062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:59 +0000
Subject: [PATCH 17/28] fix: EAX and EAX2 recreate leaked their parts when an
 allocation failed

---
 lib/ae/eax.c  | 21 +++++++++++++++++----
 lib/ae/eax2.c | 21 +++++++++++++++++----
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/lib/ae/eax.c b/lib/ae/eax.c
index 6d3a870..f740b37 100644
--- a/lib/ae/eax.c
+++ b/lib/ae/eax.c
@@ -207,7 +207,11 @@ static kripto_ae *eax_recreate
 	(void)tag_len;
 
 	buf = (uint8_t *)malloc(s->len);
-	if(!buf) goto err0;
+	if(!buf)
+	{
+		eax_destroy(s);
+		return 0;
+	}
 
 	/* OMAC IV (nonce) */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, s->len);
@@ -237,10 +241,19 @@ static kripto_ae *eax_recreate
 
 	return s;
 
-err3: kripto_stream_destroy(s->ctr);
-err2: kripto_mac_destroy(s->omac);
-err1: free(buf);
+err3:
+	kripto_stream_destroy(s->ctr);
+	kripto_mac_destroy(s->omac);
+	goto err0;
+err2:
+	kripto_mac_destroy(s->omac);
+	kripto_mac_destroy(s->header);
+	goto err0;
+err1:
+	kripto_stream_destroy(s->ctr);
+	kripto_mac_destroy(s->header);
 err0:
+	free(buf);
 	free(s->ctr_desc);
 	free(s->omac_desc);
 	kripto_memory_wipe(s->iv, s->len);
diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 6119375..11ddfdd 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -219,7 +219,11 @@ static kripto_ae *eax2_recreate
 	s->len = tag_len;
 
 	buf = (uint8_t *)malloc(tag_len);
-	if(!buf) goto err0;
+	if(!buf)
+	{
+		eax2_destroy(s);
+		return 0;
+	}
 
 	/* split key */
 	stream_key = (key_len + 1) >> 1;
@@ -266,10 +270,19 @@ static kripto_ae *eax2_recreate
 
 	return s;
 
-err3: kripto_stream_destroy(s->stream);
-err2: kripto_mac_destroy(s->mac);
-err1: free(buf);
+err3:
+	kripto_stream_destroy(s->stream);
+	kripto_mac_destroy(s->mac);
+	goto err0;
+err2:
+	kripto_mac_destroy(s->mac);
+	kripto_mac_destroy(s->header);
+	goto err0;
+err1:
+	kripto_stream_destroy(s->stream);
+	kripto_mac_destroy(s->header);
 err0:
+	free(buf);
 	kripto_memory_wipe(s->iv, tag_len);
 	free(s);
 	return 0;
-- 
2.43.0


From e93f4b74f17ca1bdb6ae1d8424ab8f518153cc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:59 +0000
Subject: [PATCH 18/28] fix: EAX2 maximal key length wrapped around for MACs
 with unlimited keys

---
 lib/ae/eax2.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 11ddfdd..2f5a1ea 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -16,6 +16,7 @@
 #include <stdint.h>
 #include <string.h>
 #include <stdlib.h>
+#include <limits.h>
 
 #include <kripto/cast.h>
 #include <kripto/memory.h>
@@ -308,6 +309,7 @@ kripto_desc_ae *kripto_ae_eax2
 	s->desc.tag = &eax2_tag;
 	s->desc.destroy = &eax2_destroy;
 	s->desc.maxkey = kripto_stream_maxkey(stream) + kripto_mac_maxkey(mac);
+	if(s->desc.maxkey < kripto_mac_maxkey(mac)) s->desc.maxkey = UINT_MAX;
 	s->desc.maxiv = kripto_stream_maxiv(stream);
 	s->desc.maxtag = kripto_mac_maxtag(mac);
 
-- 
2.43.0


From 2d231557bf405f779dec0eab223a2e03301290bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:24 +0000
Subject: [PATCH 19/28] fix: OMAC applied the high bytes of long reduction
 polynomials at the wrong place

---
 lib/mac/omac.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index 5ed42fd..6bbc77f 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -323,9 +323,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu[s->len - 4] ^= poly[s->len][0];
-			s->lu[s->len - 3] ^= poly[s->len][1];
-			s->lu[s->len - 2] ^= poly[s->len][2];
+			s->lu[s->len - 6] ^= poly[s->len][0];
+			s->lu[s->len - 5] ^= poly[s->len][1];
+			s->lu[s->len - 4] ^= poly[s->len][2];
 			s->lu[s->len - 3] ^= poly[s->len][3];
 			s->lu[s->len - 2] ^= poly[s->len][4];
 		}
@@ -346,9 +346,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu2[s->len - 4] ^= poly[s->len][0];
-			s->lu2[s->len - 3] ^= poly[s->len][1];
-			s->lu2[s->len - 2] ^= poly[s->len][2];
+			s->lu2[s->len - 6] ^= poly[s->len][0];
+			s->lu2[s->len - 5] ^= poly[s->len][1];
+			s->lu2[s->len - 4] ^= poly[s->len][2];
 			s->lu2[s->len - 3] ^= poly[s->len][3];
 			s->lu2[s->len - 2] ^= poly[s->len][4];
 		}
-- 
2.43.0


From c1e25a27523cc3767067c9eb6ffa63b442f79575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:24 +0000
Subject: [PATCH 20/28] fix: tag verification left the correct tag on the stack

---
 lib/ae.c  | 393 +++++++++++++++++++++++++++---------------------------
 lib/mac.c |   7 +-
 2 files changed, 205 insertions(+), 195 deletions(-)

diff --git a/lib/ae.c b/lib/ae.c
index f2ba46a..a6cddf8 100644
--- a/lib/ae.c
+++ b/lib/ae.c
@@ -1,194 +1,199 @@
-/*
- * Copyright (C) 2013 by Gregor Pintar <grpintar@gmail.com>
- *
- * Permission to use, copy, modify, and/or distribute this software for any
- * purpose with or without fee is hereby granted.
- *
- * THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES
- * WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF
- * MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR
- * ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES
- * WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN
- * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
- * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
- */
-
-#include <assert.h>
-
-#include <kripto/memory.h>
-#include <kripto/ae.h>
-#include <kripto/desc/ae.h>
-
-struct kripto_ae
-{
-	const kripto_desc_ae *desc;
-	unsigned int multof;
-};
-
-kripto_ae *kripto_ae_create
-(
-	const kripto_desc_ae *desc,
-	unsigned int rounds,
-	const void *key,
-	unsigned int key_len,
-	const void *iv,
-	unsigned int iv_len,
-	unsigned int tag_len
-)
-{
-	assert(desc);
-	assert(desc->create);
-
-	assert(key);
-	assert(key_len);
-	assert(key_len <= kripto_ae_maxkey(desc));
-	assert(iv_len <= kripto_ae_maxiv(desc));
-	if(iv_len) assert(iv);
-	assert(tag_len <= kripto_ae_maxtag(desc));
-
-	return desc->create(desc, rounds, key, key_len, iv, iv_len, tag_len);
-}
-
-kripto_ae *kripto_ae_recreate
-(
-	kripto_ae *s,
-	unsigned int rounds,
-	const void *key,
-	unsigned int key_len,
-	const void *iv,
-	unsigned int iv_len,
-	unsigned int tag_len
-)
-{
-	assert(s);
-	assert(s->desc);
-	assert(s->desc->recreate);
-
-	assert(key);
-	assert(key_len);
-	assert(key_len <= kripto_ae_maxkey(s->desc));
-	assert(iv_len <= kripto_ae_maxiv(s->desc));
-	if(iv_len) assert(iv);
-	assert(tag_len <= kripto_ae_maxtag(s->desc));
-
-	return s->desc->recreate(s, rounds, key, key_len, iv, iv_len, tag_len);
-}
-
-void kripto_ae_encrypt
-(
-	kripto_ae *s,
-	const void *pt,
-	void *ct,
-	size_t len
-)
-{
-	assert(s);
-	assert(s->desc);
-	assert(s->desc->encrypt);
-	assert(len % kripto_ae_multof(s) == 0);
-
-	s->desc->encrypt(s, pt, ct, len);
-}
-
-void kripto_ae_decrypt
-(
-	kripto_ae *s,
-	const void *ct,
-	void *pt,
-	size_t len
-)
-{
-	assert(s);
-	assert(s->desc);
-	assert(s->desc->decrypt);
-	assert(len % kripto_ae_multof(s) == 0);
-
-	s->desc->decrypt(s, ct, pt, len);
-}
-
-void kripto_ae_header
-(
-	kripto_ae *s,
-	const void *header,
-	size_t len
-)
-{
-	assert(s);
-	assert(s->desc);
-	assert(s->desc->header);
-
-	s->desc->header(s, header, len);
-}
-
-void kripto_ae_tag
-(
-	kripto_ae *s,
-	void *tag,
-	unsigned int len
-)
-{
-	assert(s);
-	assert(s->desc);
-	assert(s->desc->tag);
-
-	s->desc->tag(s, tag, len);
-}
-
-int kripto_ae_verify
-(
-	kripto_ae *s,
-	const void *tag,
-	unsigned int len
-)
-{
-	char t[len];
-	s->desc->tag(s, t, len);
-	return kripto_memory_equals(t, tag, len);
-}
-
-void kripto_ae_destroy(kripto_ae *s)
-{
-	assert(s);
-	assert(s->desc);
-	assert(s->desc->destroy);
-
-	s->desc->destroy(s);
-}
-
-unsigned int kripto_ae_multof(const kripto_ae *s)
-{
-	assert(s);
-	assert(s->multof);
-
-	return s->multof;
-}
-
-const kripto_desc_ae *kripto_ae_getdesc(const kripto_ae *s)
-{
-	assert(s);
-	assert(s->desc);
-
-	return s->desc;
-}
-
-unsigned int kripto_ae_maxkey(const kripto_desc_ae *desc)
-{
-	assert(desc);
-	assert(desc->maxkey);
-
-	return desc->maxkey;
-}
-
-unsigned int kripto_ae_maxiv(const kripto_desc_ae *desc)
-{
-	assert(desc);
-
-	return desc->maxiv;
-}
-
-unsigned int kripto_ae_maxtag(const kripto_desc_ae *desc)
-{
-	assert(desc);
-
-	return desc->maxtag;
-}
+/*
+ * Copyright (C) 2013 by Gregor Pintar <grpintar@gmail.com>
+ *
+ * Permission to use, copy, modify, and/or distribute this software for any
+ * purpose with or without fee is hereby granted.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES
+ * WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF
+ * MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR
+ * ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES
+ * WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN
+ * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
+ * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
+ */
+
+#include <assert.h>
+
+#include <kripto/memory.h>
+#include <kripto/ae.h>
+#include <kripto/desc/ae.h>
+
+struct kripto_ae
+{
+	const kripto_desc_ae *desc;
+	unsigned int multof;
+};
+
+kripto_ae *kripto_ae_create
+(
+	const kripto_desc_ae *desc,
+	unsigned int rounds,
+	const void *key,
+	unsigned int key_len,
+	const void *iv,
+	unsigned int iv_len,
+	unsigned int tag_len
+)
+{
+	assert(desc);
+	assert(desc->create);
+
+	assert(key);
+	assert(key_len);
+	assert(key_len <= kripto_ae_maxkey(desc));
+	assert(iv_len <= kripto_ae_maxiv(desc));
+	if(iv_len) assert(iv);
+	assert(tag_len <= kripto_ae_maxtag(desc));
+
+	return desc->create(desc, rounds, key, key_len, iv, iv_len, tag_len);
+}
+
+kripto_ae *kripto_ae_recreate
+(
+	kripto_ae *s,
+	unsigned int rounds,
+	const void *key,
+	unsigned int key_len,
+	const void *iv,
+	unsigned int iv_len,
+	unsigned int tag_len
+)
+{
+	assert(s);
+	assert(s->desc);
+	assert(s->desc->recreate);
+
+	assert(key);
+	assert(key_len);
+	assert(key_len <= kripto_ae_maxkey(s->desc));
+	assert(iv_len <= kripto_ae_maxiv(s->desc));
+	if(iv_len) assert(iv);
+	assert(tag_len <= kripto_ae_maxtag(s->desc));
+
+	return s->desc->recreate(s, rounds, key, key_len, iv, iv_len, tag_len);
+}
+
+void kripto_ae_encrypt
+(
+	kripto_ae *s,
+	const void *pt,
+	void *ct,
+	size_t len
+)
+{
+	assert(s);
+	assert(s->desc);
+	assert(s->desc->encrypt);
+	assert(len % kripto_ae_multof(s) == 0);
+
+	s->desc->encrypt(s, pt, ct, len);
+}
+
+void kripto_ae_decrypt
+(
+	kripto_ae *s,
+	const void *ct,
+	void *pt,
+	size_t len
+)
+{
+	assert(s);
+	assert(s->desc);
+	assert(s->desc->decrypt);
+	assert(len % kripto_ae_multof(s) == 0);
+
+	s->desc->decrypt(s, ct, pt, len);
+}
+
+void kripto_ae_header
+(
+	kripto_ae *s,
+	const void *header,
+	size_t len
+)
+{
+	assert(s);
+	assert(s->desc);
+	assert(s->desc->header);
+
+	s->desc->header(s, header, len);
+}
+
+void kripto_ae_tag
+(
+	kripto_ae *s,
+	void *tag,
+	unsigned int len
+)
+{
+	assert(s);
+	assert(s->desc);
+	assert(s->desc->tag);
+
+	s->desc->tag(s, tag, len);
+}
+
+int kripto_ae_verify
+(
+	kripto_ae *s,
+	const void *tag,
+	unsigned int len
+)
+{
+	char t[len];
+	int r;
+
+	s->desc->tag(s, t, len);
+	r = kripto_memory_equals(t, tag, len);
+	kripto_memory_wipe(t, len);
+
+	return r;
+}
+
+void kripto_ae_destroy(kripto_ae *s)
+{
+	assert(s);
+	assert(s->desc);
+	assert(s->desc->destroy);
+
+	s->desc->destroy(s);
+}
+
+unsigned int kripto_ae_multof(const kripto_ae *s)
+{
+	assert(s);
+	assert(s->multof);
+
+	return s->multof;
+}
+
+const kripto_desc_ae *kripto_ae_getdesc(const kripto_ae *s)
+{
+	assert(s);
+	assert(s->desc);
+
+	return s->desc;
+}
+
+unsigned int kripto_ae_maxkey(const kripto_desc_ae *desc)
+{
+	assert(desc);
+	assert(desc->maxkey);
+
+	return desc->maxkey;
+}
+
+unsigned int kripto_ae_maxiv(const kripto_desc_ae *desc)
+{
+	assert(desc);
+
+	return desc->maxiv;
+}
+
+unsigned int kripto_ae_maxtag(const kripto_desc_ae *desc)
+{
+	assert(desc);
+
+	return desc->maxtag;
+}
diff --git a/lib/mac.c b/lib/mac.c
index de9d3bc..116d6e1 100644
--- a/lib/mac.c
+++ b/lib/mac.c
@@ -86,8 +86,13 @@ int kripto_mac_verify(kripto_mac *s, const void *tag, unsigned int len)
 	assert(s->desc->tag);
 
 	char t[len];
+	int r;
+
 	s->desc->tag(s, t, len);
-	return kripto_memory_equals(t, tag, len);
+	r = kripto_memory_equals(t, tag, len);
+	kripto_memory_wipe(t, len);
+
+	return r;
 }
 
 void kripto_mac_destroy(kripto_mac *s)
-- 
2.43.0


From 563a85c049f6df3204531d9363c5e512467c883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:12 +0000
Subject: [PATCH 21/28] fix: 3-Way decryption used the wrong round constants
 for reduced rounds

---
 lib/block/3way.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/block/3way.c b/lib/block/3way.c
index ce3159d..9fadf0f 100644
--- a/lib/block/3way.c
+++ b/lib/block/3way.c
@@ -147,6 +147,7 @@ static void threeway_decrypt
 {
 	uint32_t x[3];
 	unsigned int i;
+	const uint16_t *rc = rc_d + 11 - s->r;
 
 	x[0] = LOAD32L(CU8(ct));
 	x[1] = LOAD32L(CU8(ct) + 4);
@@ -155,15 +156,15 @@ static void threeway_decrypt
 	MU(x);
 	for(i = 0; i < s->r; i++)
 	{
-		x[0] ^= s->dk[0] ^ (rc_d[i] << 16);
+		x[0] ^= s->dk[0] ^ (rc[i] << 16);
 		x[1] ^= s->dk[1];
-		x[2] ^= s->dk[2] ^ rc_d[i];
+		x[2] ^= s->dk[2] ^ rc[i];
 		THETA(x);
 		PI_GAMMA_PI(x);
 	}
-	x[0] ^= s->dk[0] ^ (rc_d[i] << 16);
+	x[0] ^= s->dk[0] ^ (rc[i] << 16);
 	x[1] ^= s->dk[1];
-	x[2] ^= s->dk[2] ^ rc_d[i];
+	x[2] ^= s->dk[2] ^ rc[i];
 	THETA(x);
 	MU(x);
 
-- 
2.43.0


From 969f49df57fdba7777e4e6e5098fbafe815b62a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:12 +0000
Subject: [PATCH 22/28] fix: Speck divided by zero for keys of at most one word

---
 lib/block/speck128.c | 2 ++
 lib/block/speck32.c  | 2 ++
 lib/block/speck64.c  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 70cd0de..2dbc2e6 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -88,6 +88,8 @@ static void speck128_setup
 	uint64_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 7) >> 3) - 1;
 
+	if(!m) m = 1; /* at least two key words */
+
 	LOAD64L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index bbf563f..5a9bcfd 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -88,6 +88,8 @@ static void speck32_setup
 	uint16_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 1) >> 1) - 1;
 
+	if(!m) m = 1; /* at least two key words */
+
 	LOAD16L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index a20ecce..2953824 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -88,6 +88,8 @@ static void speck64_setup
 	uint32_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 3) >> 2) - 1;
 
+	if(!m) m = 1; /* at least two key words */
+
 	LOAD32L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
-- 
2.43.0


From d8dd4b792a27a134275db6fbf86c2e7e349f4d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:12 +0000
Subject: [PATCH 23/28] fix: Rijndael-256 read past the round constants for
 keys of at most 8 bytes

---
 lib/block/rijndael.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 70aea61..fba4919 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -741,6 +741,8 @@ static void rijndael_setup
 			(te4[t & 0xFF] << 8) |
 			te4[t >> 24]) ^ rcon[x++];
 
+		if(x == 51) x = 0; /* the constants repeat */
+
 		if(n <= 6)
 		{
 			for(i = 1; i < n && i + j < len; i++)
-- 
2.43.0


From 0d8cdc61edea3a998780b5d42075d9abf13b7d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:26 +0000
Subject: [PATCH 24/28] fix: SAFER and SAFER++ read past keys shorter than 8
 and 16 bytes

---
 lib/block/safer.c   | 7 +++++++
 lib/block/saferpp.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/block/safer.c b/lib/block/safer.c
index f47ba54..8b5289e 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -262,6 +262,12 @@ static void safer_setup
 	uint8_t *k = s->k;
 	uint8_t ka[9];
 	uint8_t kb[9];
+	uint8_t kx[16];
+
+	/* zero pad the key */
+	memset(kx, 0, 16);
+	memcpy(kx, key, len);
+	key = kx;
 
 	kb[8] = ka[8] = 0;
 
@@ -297,6 +303,7 @@ static void safer_setup
 
 	kripto_memory_wipe(ka, 9);
 	kripto_memory_wipe(kb, 9);
+	kripto_memory_wipe(kx, 16);
 }
 
 static void safer_destroy(kripto_block *s)
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index a8825a0..7c578d9 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -311,6 +311,12 @@ static void saferpp_setup
 	uint8_t *k = s->k;
 	uint8_t ka[17];
 	uint8_t kb[17];
+	uint8_t kx[32];
+
+	/* zero pad the key */
+	memset(kx, 0, 32);
+	memcpy(kx, key, len);
+	key = kx;
 
 	kb[16] = ka[16] = 0;
 
@@ -358,6 +364,7 @@ static void saferpp_setup
 
 	kripto_memory_wipe(ka, 17);
 	kripto_memory_wipe(kb, 17);
+	kripto_memory_wipe(kx, 32);
 }
 
 static void saferpp_destroy(kripto_block *s)
-- 
2.43.0


From a59ddbc6178e870d33a6c00d363c6ffbf704b537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:41 +0000
Subject: [PATCH 25/28] fix: GOST key schedule wrote past its buffer when
 rounds were fewer than twice the key words

---
 lib/block/gost.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/block/gost.c b/lib/block/gost.c
index ca45e2f..108003e 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -119,7 +119,7 @@ static void gost_setup
 
 	key_len = (key_len + 3) >> 2;
 
-	for(i = key_len, j = 0; s->r - i > key_len; i++)
+	for(i = key_len, j = 0; i + key_len < s->r; i++)
 	{
 		s->k[i] = s->k[j];
 
@@ -127,7 +127,7 @@ static void gost_setup
 	}
 
 	/* reversed */
-	for(j = key_len; j; i++)
+	for(j = key_len; j && i < s->r; i++)
 	{
 		s->k[i] = s->k[--j];
 	}
-- 
2.43.0


From 6919ef39dd12318cd4c334c728fed4717cdca7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:02 +0000
Subject: [PATCH 26/28] fix: OMAC polynomials for blocks of 33 and 207 bytes
 were reducible

---
 lib/mac/omac.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index 6bbc77f..1a5532f 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -78,7 +78,7 @@ static const uint8_t poly[256][6] =
 	{0x00, 0x00, 0x00, 0x00, 0x01, 0x29}, /*  30 */
 	{0x00, 0x00, 0x00, 0x00, 0xC4, 0x01}, /*  31 */
 	{0x00, 0x00, 0x00, 0x00, 0x04, 0x25}, /*  32 */
-	{0x00, 0x00, 0x00, 0x00, 0x09, 0x45}, /*  33 */
+	{0x00, 0x00, 0x00, 0x00, 0x02, 0x45}, /*  33 */
 	{0x00, 0x00, 0x00, 0x00, 0x02, 0x0D}, /*  34 */
 	{0x00, 0x00, 0x00, 0x00, 0x02, 0x25}, /*  35 */
 	{0x00, 0x00, 0x00, 0x00, 0x0C, 0x03}, /*  36 */
@@ -252,7 +252,7 @@ static const uint8_t poly[256][6] =
 	{0x00, 0x00, 0x00, 0x02, 0x80, 0x09}, /* 204 */
 	{0x00, 0x00, 0x00, 0x00, 0x00, 0xA3}, /* 205 */
 	{0x00, 0x00, 0x00, 0x04, 0x20, 0x03}, /* 206 */
-	{0x00, 0x00, 0x00, 0x08, 0x81, 0x01}, /* 207 */
+	{0x00, 0x00, 0x00, 0x08, 0x84, 0x01}, /* 207 */
 	{0x00, 0x00, 0x00, 0x02, 0x02, 0x41}, /* 208 */
 	{0x00, 0x00, 0x00, 0x00, 0x00, 0x39}, /* 209 */
 	{0x00, 0x00, 0x00, 0x00, 0x08, 0x45}, /* 210 */
-- 
2.43.0


From 2ac77791b96dcb81dde96095cef00f52797266c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:21 +0000
Subject: [PATCH 27/28] fix: restore the CRLF line endings two earlier fixes
 removed

---
 lib/ae.c         | 398 +++++++++++++++++++++++-----------------------
 lib/stream/cfb.c | 404 +++++++++++++++++++++++------------------------
 2 files changed, 401 insertions(+), 401 deletions(-)

diff --git a/lib/ae.c b/lib/ae.c
index a6cddf8..bc1dc1f 100644
--- a/lib/ae.c
+++ b/lib/ae.c
@@ -1,199 +1,199 @@
-/*
- * Copyright (C) 2013 by Gregor Pintar <grpintar@gmail.com>
- *
- * Permission to use, copy, modify, and/or distribute this software for any
- * purpose with or without fee is hereby granted.
- *
- * THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES
- * WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF
- * MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR
- * ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES
- * WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN
- * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
- * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
- */
-
-#include <assert.h>
-
-#include <kripto/memory.h>
-#include <kripto/ae.h>
-#include <kripto/desc/ae.h>
-
-struct kripto_ae
-{
-	const kripto_desc_ae *desc;
-	unsigned int multof;
-};
-
-kripto_ae *kripto_ae_create
-(
-	const kripto_desc_ae *desc,
-	unsigned int rounds,
-	const void *key,
-	unsigned int key_len,
-	const void *iv,
-	unsigned int iv_len,
-	unsigned int tag_len
-)
-{
-	assert(desc);
-	assert(desc->create);
-
-	assert(key);
-	assert(key_len);
-	assert(key_len <= kripto_ae_maxkey(desc));
-	assert(iv_len <= kripto_ae_maxiv(desc));
-	if(iv_len) assert(iv);
-	assert(tag_len <= kripto_ae_maxtag(desc));
-
-	return desc->create(desc, rounds, key, key_len, iv, iv_len, tag_len);
-}
-
-kripto_ae *kripto_ae_recreate
-(
-	kripto_ae *s,
-	unsigned int rounds,
-	const void *key,
-	unsigned int key_len,
-	const void *iv,
-	unsigned int iv_len,
-	unsigned int tag_len
-)
-{
-	assert(s);
-	assert(s->desc);
-	assert(s->desc->recreate);
-
-	assert(key);
-	assert(key_len);
-	assert(key_len <= kripto_ae_maxkey(s->desc));
-	assert(iv_len <= kripto_ae_maxiv(s->desc));
-	if(iv_len) assert(iv);
-	assert(tag_len <= kripto_ae_maxtag(s->desc));
-
-	return s->desc->recreate(s, rounds, key, key_len, iv, iv_len, tag_len);
-}
-
-void kripto_ae_encrypt
-(
-	kripto_ae *s,
-	const void *pt,
-	void *ct,
-	size_t len
-)
-{
-	assert(s);
-	assert(s->desc);
-	assert(s->desc->encrypt);
-	assert(len % kripto_ae_multof(s) == 0);
-
-	s->desc->encrypt(s, pt, ct, len);
-}
-
-void kripto_ae_decrypt
-(
-	kripto_ae *s,
-	const void *ct,
-	void *pt,
-	size_t len
-)
-{
-	assert(s);
-	assert(s->desc);
-	assert(s->desc->decrypt);
-	assert(len % kripto_ae_multof(s) == 0);
-
-	s->desc->decrypt(s, ct, pt, len);
-}
-
-void kripto_ae_header
-(
-	kripto_ae *s,
-	const void *header,
-	size_t len
-)
-{
-	assert(s);
-	assert(s->desc);
-	assert(s->desc->header);
-
-	s->desc->header(s, header, len);
-}
-
-void kripto_ae_tag
-(
-	kripto_ae *s,
-	void *tag,
-	unsigned int len
-)
-{
-	assert(s);
-	assert(s->desc);
-	assert(s->desc->tag);
-
-	s->desc->tag(s, tag, len);
-}
-
-int kripto_ae_verify
-(
-	kripto_ae *s,
-	const void *tag,
-	unsigned int len
-)
-{
-	char t[len];
-	int r;
-
-	s->desc->tag(s, t, len);
-	r = kripto_memory_equals(t, tag, len);
-	kripto_memory_wipe(t, len);
-
-	return r;
-}
-
-void kripto_ae_destroy(kripto_ae *s)
-{
-	assert(s);
-	assert(s->desc);
-	assert(s->desc->destroy);
-
-	s->desc->destroy(s);
-}
-
-unsigned int kripto_ae_multof(const kripto_ae *s)
-{
-	assert(s);
-	assert(s->multof);
-
-	return s->multof;
-}
-
-const kripto_desc_ae *kripto_ae_getdesc(const kripto_ae *s)
-{
-	assert(s);
-	assert(s->desc);
-
-	return s->desc;
-}
-
-unsigned int kripto_ae_maxkey(const kripto_desc_ae *desc)
-{
-	assert(desc);
-	assert(desc->maxkey);
-
-	return desc->maxkey;
-}
-
-unsigned int kripto_ae_maxiv(const kripto_desc_ae *desc)
-{
-	assert(desc);
-
-	return desc->maxiv;
-}
-
-unsigned int kripto_ae_maxtag(const kripto_desc_ae *desc)
-{
-	assert(desc);
-
-	return desc->maxtag;
-}
+/*
+ * Copyright (C) 2013 by Gregor Pintar <grpintar@gmail.com>
+ *
+ * Permission to use, copy, modify, and/or distribute this software for any
+ * purpose with or without fee is hereby granted.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES
+ * WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF
+ * MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR
+ * ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES
+ * WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN
+ * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
+ * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
+ */
+
+#include <assert.h>
+
+#include <kripto/memory.h>
+#include <kripto/ae.h>
+#include <kripto/desc/ae.h>
+
+struct kripto_ae
+{
+	const kripto_desc_ae *desc;
+	unsigned int multof;
+};
+
+kripto_ae *kripto_ae_create
+(
+	const kripto_desc_ae *desc,
+	unsigned int rounds,
+	const void *key,
+	unsigned int key_len,
+	const void *iv,
+	unsigned int iv_len,
+	unsigned int tag_len
+)
+{
+	assert(desc);
+	assert(desc->create);
+
+	assert(key);
+	assert(key_len);
+	assert(key_len <= kripto_ae_maxkey(desc));
+	assert(iv_len <= kripto_ae_maxiv(desc));
+	if(iv_len) assert(iv);
+	assert(tag_len <= kripto_ae_maxtag(desc));
+
+	return desc->create(desc, rounds, key, key_len, iv, iv_len, tag_len);
+}
+
+kripto_ae *kripto_ae_recreate
+(
+	kripto_ae *s,
+	unsigned int rounds,
+	const void *key,
+	unsigned int key_len,
+	const void *iv,
+	unsigned int iv_len,
+	unsigned int tag_len
+)
+{
+	assert(s);
+	assert(s->desc);
+	assert(s->desc->recreate);
+
+	assert(key);
+	assert(key_len);
+	assert(key_len <= kripto_ae_maxkey(s->desc));
+	assert(iv_len <= kripto_ae_maxiv(s->desc));
+	if(iv_len) assert(iv);
+	assert(tag_len <= kripto_ae_maxtag(s->desc));
+
+	return s->desc->recreate(s, rounds, key, key_len, iv, iv_len, tag_len);
+}
+
+void kripto_ae_encrypt
+(
+	kripto_ae *s,
+	const void *pt,
+	void *ct,
+	size_t len
+)
+{
+	assert(s);
+	assert(s->desc);
+	assert(s->desc->encrypt);
+	assert(len % kripto_ae_multof(s) == 0);
+
+	s->desc->encrypt(s, pt, ct, len);
+}
+
+void kripto_ae_decrypt
+(
+	kripto_ae *s,
+	const void *ct,
+	void *pt,
+	size_t len
+)
+{
+	assert(s);
+	assert(s->desc);
+	assert(s->desc->decrypt);
+	assert(len % kripto_ae_multof(s) == 0);
+
+	s->desc->decrypt(s, ct, pt, len);
+}
+
+void kripto_ae_header
+(
+	kripto_ae *s,
+	const void *header,
+	size_t len
+)
+{
+	assert(s);
+	assert(s->desc);
+	assert(s->desc->header);
+
+	s->desc->header(s, header, len);
+}
+
+void kripto_ae_tag
+(
+	kripto_ae *s,
+	void *tag,
+	unsigned int len
+)
+{
+	assert(s);
+	assert(s->desc);
+	assert(s->desc->tag);
+
+	s->desc->tag(s, tag, len);
+}
+
+int kripto_ae_verify
+(
+	kripto_ae *s,
+	const void *tag,
+	unsigned int len
+)
+{
+	char t[len];
+	int r;
+
+	s->desc->tag(s, t, len);
+	r = kripto_memory_equals(t, tag, len);
+	kripto_memory_wipe(t, len);
+
+	return r;
+}
+
+void kripto_ae_destroy(kripto_ae *s)
+{
+	assert(s);
+	assert(s->desc);
+	assert(s->desc->destroy);
+
+	s->desc->destroy(s);
+}
+
+unsigned int kripto_ae_multof(const kripto_ae *s)
+{
+	assert(s);
+	assert(s->multof);
+
+	return s->multof;
+}
+
+const kripto_desc_ae *kripto_ae_getdesc(const kripto_ae *s)
+{
+	assert(s);
+	assert(s->desc);
+
+	return s->desc;
+}
+
+unsigned int kripto_ae_maxkey(const kripto_desc_ae *desc)
+{
+	assert(desc);
+	assert(desc->maxkey);
+
+	return desc->maxkey;
+}
+
+unsigned int kripto_ae_maxiv(const kripto_desc_ae *desc)
+{
+	assert(desc);
+
+	return desc->maxiv;
+}
+
+unsigned int kripto_ae_maxtag(const kripto_desc_ae *desc)
+{
+	assert(desc);
+
+	return desc->maxtag;
+}
diff --git a/lib/stream/cfb.c b/lib/stream/cfb.c
index 4dbf890..c88f8ff 100644
--- a/lib/stream/cfb.c
+++ b/lib/stream/cfb.c
@@ -1,202 +1,202 @@
-/*
- * Copyright (C) 2013 by Gregor Pintar <grpintar@gmail.com>
- *
- * Permission to use, copy, modify, and/or distribute this software for any
- * purpose with or without fee is hereby granted.
- *
- * THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES
- * WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF
- * MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR
- * ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES
- * WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN
- * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
- * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
- */
-
-#include <stdint.h>
-#include <string.h>
-#include <stdlib.h>
-
-#include <kripto/cast.h>
-#include <kripto/memory.h>
-#include <kripto/block.h>
-#include <kripto/stream.h>
-#include <kripto/desc/stream.h>
-
-#include <kripto/stream/cfb.h>
-
-struct kripto_stream
-{
-	const kripto_desc_stream *desc;
-	unsigned int multof;
-	kripto_block *block;
-	uint8_t *prev;
-	unsigned int blocksize;
-	unsigned int used;
-};
-
-static void cfb_encrypt
-(
-	kripto_stream *s,
-	const void *pt,
-	void *ct,
-	size_t len
-)
-{
-	size_t i;
-
-	for(i = 0; i < len; i++)
-	{
-		if(s->used == s->blocksize)
-		{
-			kripto_block_encrypt(s->block, s->prev, s->prev);
-			s->used = 0;
-		}
-
-		U8(ct)[i] = s->prev[s->used++] ^= CU8(pt)[i];
-	}
-}
-
-static void cfb_decrypt
-(
-	kripto_stream *s,
-	const void *ct,
-	void *pt,
-	size_t len
-)
-{
-	size_t i;
-	uint8_t c;
-
-	for(i = 0; i < len; i++)
-	{
-		if(s->used == s->blocksize)
-		{
-			kripto_block_encrypt(s->block, s->prev, s->prev);
-			s->used = 0;
-		}
-
-		c = CU8(ct)[i];
-		U8(pt)[i] = c ^ s->prev[s->used];
-		s->prev[s->used++] = c;
-	}
-}
-
-static void cfb_prng
-(
-	kripto_stream *s,
-	void *out,
-	size_t len
-)
-{
-	size_t i;
-
-	for(i = 0; i < len; i++)
-	{
-		if(s->used == s->blocksize)
-		{
-			kripto_block_encrypt(s->block, s->prev, s->prev);
-			s->used = 0;
-		}
-
-		U8(out)[i] = s->prev[s->used++];
-	}
-}
-
-static void cfb_destroy(kripto_stream *s)
-{
-	kripto_block_destroy(s->block);
-	kripto_memory_wipe(s, sizeof(kripto_stream) + s->blocksize);
-	free(s);
-}
-
-struct ext
-{
-	kripto_desc_stream desc;
-	const kripto_desc_block *block;
-};
-
-#define EXT(X) ((const struct ext *)(X))
-
-static kripto_stream *cfb_create
-(
-	const kripto_desc_stream *desc,
-	unsigned int rounds,
-	const void *key,
-	unsigned int key_len,
-	const void *iv,
-	unsigned int iv_len
-)
-{
-	kripto_stream *s = (kripto_stream *)malloc(sizeof(kripto_stream) + desc->maxiv);
-	if(!s) return 0;
-
-	s->desc = desc;
-	s->multof = 1;
-
-	s->used = s->blocksize = desc->maxiv;
-
-	s->prev = (uint8_t *)s + sizeof(kripto_stream);
-
-	/* block cipher */
-	s->block = kripto_block_create(EXT(desc)->block, rounds, key, key_len);
-	if(!s->block)
-	{
-		kripto_memory_wipe(s, sizeof(kripto_stream) + s->blocksize);
-		free(s);
-		return 0;
-	}
-
-	/* IV */
-	if(iv_len) memcpy(s->prev, iv, iv_len);
-	memset(s->prev + iv_len, 0, s->blocksize - iv_len);
-
-	return s;
-}
-
-static kripto_stream *cfb_recreate
-(
-	kripto_stream *s,
-	unsigned int rounds,
-	const void *key,
-	unsigned int key_len,
-	const void *iv,
-	unsigned int iv_len
-)
-{
-	/* block cipher */
-	s->block = kripto_block_recreate(s->block, rounds, key, key_len);
-	if(!s->block)
-	{
-		kripto_memory_wipe(s, sizeof(kripto_stream) + s->blocksize);
-		free(s);
-		return 0;
-	}
-
-	/* IV */
-	if(iv_len) memcpy(s->prev, iv, iv_len);
-	memset(s->prev + iv_len, 0, s->blocksize - iv_len);
-
-	s->used = s->blocksize;
-
-	return s;
-}
-
-kripto_desc_stream *kripto_stream_cfb(const kripto_desc_block *block)
-{
-	struct ext *s = (struct ext *)malloc(sizeof(struct ext));
-	if(!s) return 0;
-
-	s->block = block;
-
-	s->desc.create = &cfb_create;
-	s->desc.recreate = &cfb_recreate;
-	s->desc.encrypt = &cfb_encrypt;
-	s->desc.decrypt = &cfb_decrypt;
-	s->desc.prng = &cfb_prng;
-	s->desc.destroy = &cfb_destroy;
-	s->desc.maxkey = kripto_block_maxkey(block);
-	s->desc.maxiv = kripto_block_size(block);
-
-	return (kripto_desc_stream *)s;
-}
+/*
+ * Copyright (C) 2013 by Gregor Pintar <grpintar@gmail.com>
+ *
+ * Permission to use, copy, modify, and/or distribute this software for any
+ * purpose with or without fee is hereby granted.
+ *
+ * THE SOFTWARE IS PROVIDED "AS IS" AND THE AUTHOR DISCLAIMS ALL WARRANTIES
+ * WITH REGARD TO THIS SOFTWARE INCLUDING ALL IMPLIED WARRANTIES OF
+ * MERCHANTABILITY AND FITNESS. IN NO EVENT SHALL THE AUTHOR BE LIABLE FOR
+ * ANY SPECIAL, DIRECT, INDIRECT, OR CONSEQUENTIAL DAMAGES OR ANY DAMAGES
+ * WHATSOEVER RESULTING FROM LOSS OF USE, DATA OR PROFITS, WHETHER IN AN
+ * ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF
+ * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
+ */
+
+#include <stdint.h>
+#include <string.h>
+#include <stdlib.h>
+
+#include <kripto/cast.h>
+#include <kripto/memory.h>
+#include <kripto/block.h>
+#include <kripto/stream.h>
+#include <kripto/desc/stream.h>
+
+#include <kripto/stream/cfb.h>
+
+struct kripto_stream
+{
+	const kripto_desc_stream *desc;
+	unsigned int multof;
+	kripto_block *block;
+	uint8_t *prev;
+	unsigned int blocksize;
+	unsigned int used;
+};
+
+static void cfb_encrypt
+(
+	kripto_stream *s,
+	const void *pt,
+	void *ct,
+	size_t len
+)
+{
+	size_t i;
+
+	for(i = 0; i < len; i++)
+	{
+		if(s->used == s->blocksize)
+		{
+			kripto_block_encrypt(s->block, s->prev, s->prev);
+			s->used = 0;
+		}
+
+		U8(ct)[i] = s->prev[s->used++] ^= CU8(pt)[i];
+	}
+}
+
+static void cfb_decrypt
+(
+	kripto_stream *s,
+	const void *ct,
+	void *pt,
+	size_t len
+)
+{
+	size_t i;
+	uint8_t c;
+
+	for(i = 0; i < len; i++)
+	{
+		if(s->used == s->blocksize)
+		{
+			kripto_block_encrypt(s->block, s->prev, s->prev);
+			s->used = 0;
+		}
+
+		c = CU8(ct)[i];
+		U8(pt)[i] = c ^ s->prev[s->used];
+		s->prev[s->used++] = c;
+	}
+}
+
+static void cfb_prng
+(
+	kripto_stream *s,
+	void *out,
+	size_t len
+)
+{
+	size_t i;
+
+	for(i = 0; i < len; i++)
+	{
+		if(s->used == s->blocksize)
+		{
+			kripto_block_encrypt(s->block, s->prev, s->prev);
+			s->used = 0;
+		}
+
+		U8(out)[i] = s->prev[s->used++];
+	}
+}
+
+static void cfb_destroy(kripto_stream *s)
+{
+	kripto_block_destroy(s->block);
+	kripto_memory_wipe(s, sizeof(kripto_stream) + s->blocksize);
+	free(s);
+}
+
+struct ext
+{
+	kripto_desc_stream desc;
+	const kripto_desc_block *block;
+};
+
+#define EXT(X) ((const struct ext *)(X))
+
+static kripto_stream *cfb_create
+(
+	const kripto_desc_stream *desc,
+	unsigned int rounds,
+	const void *key,
+	unsigned int key_len,
+	const void *iv,
+	unsigned int iv_len
+)
+{
+	kripto_stream *s = (kripto_stream *)malloc(sizeof(kripto_stream) + desc->maxiv);
+	if(!s) return 0;
+
+	s->desc = desc;
+	s->multof = 1;
+
+	s->used = s->blocksize = desc->maxiv;
+
+	s->prev = (uint8_t *)s + sizeof(kripto_stream);
+
+	/* block cipher */
+	s->block = kripto_block_create(EXT(desc)->block, rounds, key, key_len);
+	if(!s->block)
+	{
+		kripto_memory_wipe(s, sizeof(kripto_stream) + s->blocksize);
+		free(s);
+		return 0;
+	}
+
+	/* IV */
+	if(iv_len) memcpy(s->prev, iv, iv_len);
+	memset(s->prev + iv_len, 0, s->blocksize - iv_len);
+
+	return s;
+}
+
+static kripto_stream *cfb_recreate
+(
+	kripto_stream *s,
+	unsigned int rounds,
+	const void *key,
+	unsigned int key_len,
+	const void *iv,
+	unsigned int iv_len
+)
+{
+	/* block cipher */
+	s->block = kripto_block_recreate(s->block, rounds, key, key_len);
+	if(!s->block)
+	{
+		kripto_memory_wipe(s, sizeof(kripto_stream) + s->blocksize);
+		free(s);
+		return 0;
+	}
+
+	/* IV */
+	if(iv_len) memcpy(s->prev, iv, iv_len);
+	memset(s->prev + iv_len, 0, s->blocksize - iv_len);
+
+	s->used = s->blocksize;
+
+	return s;
+}
+
+kripto_desc_stream *kripto_stream_cfb(const kripto_desc_block *block)
+{
+	struct ext *s = (struct ext *)malloc(sizeof(struct ext));
+	if(!s) return 0;
+
+	s->block = block;
+
+	s->desc.create = &cfb_create;
+	s->desc.recreate = &cfb_recreate;
+	s->desc.encrypt = &cfb_encrypt;
+	s->desc.decrypt = &cfb_decrypt;
+	s->desc.prng = &cfb_prng;
+	s->desc.destroy = &cfb_destroy;
+	s->desc.maxkey = kripto_block_maxkey(block);
+	s->desc.maxiv = kripto_block_size(block);
+
+	return (kripto_desc_stream *)s;
+}
-- 
2.43.0


From 9e60f9d16b726e543f15a68760667e493b46bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:49 +0000
Subject: [PATCH 28/28] fix: keccak800: round constants of Keccak-f[800] are
 the low halves, and it has 22 rounds

---
 lib/hash/keccak800.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index c168c8f..9c558d1 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -39,16 +39,16 @@ struct kripto_hash
 
 static const uint32_t rc[40] = 
 {
-	0x00000001, 0x00008082, 0x8000808A, 0x00008000,
-	0x0000808B, 0x80000001, 0x00008081, 0x80008009,
+	0x00000001, 0x00008082, 0x0000808A, 0x80008000,
+	0x0000808B, 0x80000001, 0x80008081, 0x00008009,
 	0x0000008A, 0x00000088, 0x80008009, 0x8000000A,
-	0x8000808B, 0x8000008B, 0x80008089, 0x80008003,
-	0x80008002, 0x80000080, 0x0000800A, 0x0000000A,
-	0x00008081, 0x80008080, 0x80000001, 0x00008008,
-	0x00008082, 0x0000800A, 0x80000003, 0x00000009,
-	0x80008082, 0x00008009, 0x80000080, 0x00008083,
-	0x80000081, 0x00000001, 0x0000800B, 0x00008001,
-	0x00000080, 0x80008000, 0x00008001, 0x00000009
+	0x8000808B, 0x0000008B, 0x00008089, 0x00008003,
+	0x00008002, 0x00000080, 0x0000800A, 0x8000000A,
+	0x80008081, 0x00008080, 0x80000001, 0x80008008,
+	0x80008082, 0x8000800A, 0x00000003, 0x80000009,
+	0x00008082, 0x00008009, 0x00000080, 0x00008083,
+	0x00000081, 0x00000001, 0x0000800B, 0x80008001,
+	0x00000080, 0x00008000, 0x80008001, 0x00000009
 };
 
 static void keccak800_F(kripto_hash *s)
@@ -287,7 +287,7 @@ static kripto_hash *keccak800_recreate
 	s->o = s->i = 0;
 
 	s->r = r;
-	if(!s->r) s->r = 20;
+	if(!s->r) s->r = 22;
 
 	/* the capacity has to leave some rate */
 	if(out_len > 49) out_len = 49;
-- 
2.43.0

