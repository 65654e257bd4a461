From ad09f0cd29d0f27b24aa214338d2f3ecf8e2ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:00 +0000
Subject: [PATCH 01/42] fix: block recreate read the descriptor from the freed
 context

When the round count changes, *_recreate destroys (wipes and frees) the
context and then passed s->desc of the freed block to *_create.
---
 lib/block/anubis.c    | 4 +++-
 lib/block/aria.c      | 4 +++-
 lib/block/blowfish.c  | 4 +++-
 lib/block/gost.c      | 4 +++-
 lib/block/idea.c      | 4 +++-
 lib/block/khazad.c    | 4 +++-
 lib/block/lea.c       | 4 +++-
 lib/block/rc5.c       | 4 +++-
 lib/block/rc6.c       | 4 +++-
 lib/block/rectangle.c | 4 +++-
 lib/block/rijndael.c  | 8 ++++++--
 lib/block/safer.c     | 8 ++++++--
 lib/block/saferpp.c   | 4 +++-
 lib/block/seed.c      | 4 +++-
 lib/block/serpent.c   | 4 +++-
 lib/block/shacal2.c   | 4 +++-
 lib/block/simon128.c  | 4 +++-
 lib/block/simon32.c   | 4 +++-
 lib/block/simon64.c   | 4 +++-
 lib/block/sm4.c       | 4 +++-
 lib/block/speck128.c  | 4 +++-
 lib/block/speck32.c   | 4 +++-
 lib/block/speck64.c   | 4 +++-
 lib/block/trax_l.c    | 4 +++-
 lib/block/trax_m.c    | 4 +++-
 lib/block/twofish.c   | 4 +++-
 lib/block/xtea.c      | 4 +++-
 27 files changed, 87 insertions(+), 29 deletions(-)

diff --git a/lib/block/anubis.c b/lib/block/anubis.c
index 78dd58b..65fbbe6 100644
--- a/lib/block/anubis.c
+++ b/lib/block/anubis.c
@@ -770,8 +770,10 @@ static kripto_block *anubis_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		anubis_destroy(s);
-		s = anubis_create(s->desc, r, key, key_len);
+		s = anubis_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/aria.c b/lib/block/aria.c
index fd6c724..31906a0 100644
--- a/lib/block/aria.c
+++ b/lib/block/aria.c
@@ -705,8 +705,10 @@ static kripto_block *aria_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		aria_destroy(s);
-		s = aria_create(s->desc, r, key, key_len);
+		s = aria_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/blowfish.c b/lib/block/blowfish.c
index 3a8f000..6af09a1 100644
--- a/lib/block/blowfish.c
+++ b/lib/block/blowfish.c
@@ -519,8 +519,10 @@ static kripto_block *blowfish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		blowfish_destroy(s);
-		s = blowfish_create(s->desc, r, key, key_len);
+		s = blowfish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/gost.c b/lib/block/gost.c
index 6e172dc..dfe907d 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -190,8 +190,10 @@ static kripto_block *gost_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		gost_destroy(s);
-		s = gost_create(s->desc, r, key, key_len);
+		s = gost_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/idea.c b/lib/block/idea.c
index bea4387..1b0b6c5 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -212,8 +212,10 @@ static kripto_block *idea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		idea_destroy(s);
-		s = idea_create(s->desc, r, key, key_len);
+		s = idea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/khazad.c b/lib/block/khazad.c
index 52cc321..46d9c06 100644
--- a/lib/block/khazad.c
+++ b/lib/block/khazad.c
@@ -747,8 +747,10 @@ static kripto_block *khazad_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		khazad_destroy(s);
-		s = khazad_create(s->desc, r, key, key_len);
+		s = khazad_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/lea.c b/lib/block/lea.c
index 7c5ce68..8c8047a 100644
--- a/lib/block/lea.c
+++ b/lib/block/lea.c
@@ -249,8 +249,10 @@ static kripto_block *lea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		lea_destroy(s);
-		s = lea_create(s->desc, r, key, key_len);
+		s = lea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc5.c b/lib/block/rc5.c
index 650ab37..54bfb87 100644
--- a/lib/block/rc5.c
+++ b/lib/block/rc5.c
@@ -156,8 +156,10 @@ static kripto_block *rc5_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		rc5_destroy(s);
-		s = rc5_create(s->desc, r, key, key_len);
+		s = rc5_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc6.c b/lib/block/rc6.c
index dccc223..632d873 100644
--- a/lib/block/rc6.c
+++ b/lib/block/rc6.c
@@ -197,8 +197,10 @@ static kripto_block *rc6_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		rc6_destroy(s);
-		s = rc6_create(s->desc, r, key, key_len);
+		s = rc6_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rectangle.c b/lib/block/rectangle.c
index 03eb04f..0f02889 100644
--- a/lib/block/rectangle.c
+++ b/lib/block/rectangle.c
@@ -286,8 +286,10 @@ static kripto_block *rectangle_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		rectangle_destroy(s);
-		s = rectangle_create(s->desc, r, key, key_len);
+		s = rectangle_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 4e0e8e6..8192a15 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -934,8 +934,10 @@ static kripto_block *rijndael128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		rijndael128_destroy(s);
-		s = rijndael128_create(s->desc, r, key, key_len);
+		s = rijndael128_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -1167,8 +1169,10 @@ static kripto_block *rijndael256_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		rijndael256_destroy(s);
-		s = rijndael256_create(s->desc, r, key, key_len);
+		s = rijndael256_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/safer.c b/lib/block/safer.c
index 9ab2013..04d0fd7 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -348,8 +348,10 @@ static kripto_block *safer_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		safer_destroy(s);
-		s = safer_create(s->desc, r, key, key_len);
+		s = safer_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -401,8 +403,10 @@ static kripto_block *safer_sk_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		safer_destroy(s);
-		s = safer_sk_create(s->desc, r, key, key_len);
+		s = safer_sk_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index 86d6978..bfa367a 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -410,8 +410,10 @@ static kripto_block *saferpp_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		saferpp_destroy(s);
-		s = saferpp_create(s->desc, r, key, key_len);
+		s = saferpp_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/seed.c b/lib/block/seed.c
index 91f0c23..6ee5e34 100644
--- a/lib/block/seed.c
+++ b/lib/block/seed.c
@@ -457,8 +457,10 @@ static kripto_block *seed_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		seed_destroy(s);
-		s = seed_create(s->desc, r, key, key_len);
+		s = seed_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/serpent.c b/lib/block/serpent.c
index 9e1396d..6a00416 100644
--- a/lib/block/serpent.c
+++ b/lib/block/serpent.c
@@ -707,8 +707,10 @@ static kripto_block *serpent_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		serpent_destroy(s);
-		s = serpent_create(s->desc, r, key, key_len);
+		s = serpent_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/shacal2.c b/lib/block/shacal2.c
index 9d436de..3ee9f92 100644
--- a/lib/block/shacal2.c
+++ b/lib/block/shacal2.c
@@ -234,8 +234,10 @@ static kripto_block *shacal2_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		shacal2_destroy(s);
-		s = shacal2_create(s->desc, r, key, key_len);
+		s = shacal2_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon128.c b/lib/block/simon128.c
index 8259e95..63c5ba6 100644
--- a/lib/block/simon128.c
+++ b/lib/block/simon128.c
@@ -182,8 +182,10 @@ static kripto_block *simon128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		simon128_destroy(s);
-		s = simon128_create(s->desc, r, key, key_len);
+		s = simon128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon32.c b/lib/block/simon32.c
index 94d071f..fb7f4e8 100644
--- a/lib/block/simon32.c
+++ b/lib/block/simon32.c
@@ -154,8 +154,10 @@ static kripto_block *simon32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		simon32_destroy(s);
-		s = simon32_create(s->desc, r, key, key_len);
+		s = simon32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon64.c b/lib/block/simon64.c
index 0caf667..b0f6839 100644
--- a/lib/block/simon64.c
+++ b/lib/block/simon64.c
@@ -165,8 +165,10 @@ static kripto_block *simon64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		simon64_destroy(s);
-		s = simon64_create(s->desc, r, key, key_len);
+		s = simon64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/sm4.c b/lib/block/sm4.c
index 142173a..7810104 100644
--- a/lib/block/sm4.c
+++ b/lib/block/sm4.c
@@ -222,8 +222,10 @@ static kripto_block *sm4_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		sm4_destroy(s);
-		s = sm4_create(s->desc, r, key, key_len);
+		s = sm4_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 1dfaf86..290b17d 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -144,8 +144,10 @@ static kripto_block *speck128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		speck128_destroy(s);
-		s = speck128_create(s->desc, r, key, key_len);
+		s = speck128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index e85af4d..0af5a29 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -144,8 +144,10 @@ static kripto_block *speck32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		speck32_destroy(s);
-		s = speck32_create(s->desc, r, key, key_len);
+		s = speck32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index f495424..9347fb2 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -144,8 +144,10 @@ static kripto_block *speck64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		speck64_destroy(s);
-		s = speck64_create(s->desc, r, key, key_len);
+		s = speck64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_l.c b/lib/block/trax_l.c
index d447c42..70ca1e4 100644
--- a/lib/block/trax_l.c
+++ b/lib/block/trax_l.c
@@ -287,8 +287,10 @@ static kripto_block *trax_l_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		trax_l_destroy(s);
-		s = trax_l_create(s->desc, r, key, key_len);
+		s = trax_l_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_m.c b/lib/block/trax_m.c
index 1611466..5c807f5 100644
--- a/lib/block/trax_m.c
+++ b/lib/block/trax_m.c
@@ -219,8 +219,10 @@ static kripto_block *trax_m_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		trax_m_destroy(s);
-		s = trax_m_create(s->desc, r, key, key_len);
+		s = trax_m_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/twofish.c b/lib/block/twofish.c
index 676aa5f..32b0bfe 100644
--- a/lib/block/twofish.c
+++ b/lib/block/twofish.c
@@ -1224,8 +1224,10 @@ static kripto_block *twofish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		twofish_destroy(s);
-		s = twofish_create(s->desc, r, key, key_len);
+		s = twofish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index b050337..44d19b9 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -142,8 +142,10 @@ static kripto_block *xtea_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *const desc = s->desc;
+
 		xtea_destroy(s);
-		s = xtea_create(s->desc, r, key, key_len);
+		s = xtea_create(desc, r, key, key_len);
 	}
 	else
 	{
-- 
2.43.0


From c7b05248e533979a546ab052a08a359cfffd32ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 02/42] fix: CFB decryption wrote whole blocks over the start
 of the output

The keystream block was encrypted into pt (always the first block of the
buffer, past its end for short buffers) instead of into the feedback
register, so only single full-block out-of-place calls decrypted.
---
 lib/stream/cfb.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/stream/cfb.c b/lib/stream/cfb.c
index 373ec5e..ff9dbcf 100644
--- a/lib/stream/cfb.c
+++ b/lib/stream/cfb.c
@@ -66,17 +66,19 @@ static void cfb_decrypt
 )
 {
 	size_t i;
+	uint8_t c;
 
 	for(i = 0; i < len; i++)
 	{
 		if(s->used == s->blocksize)
 		{
-			kripto_block_encrypt(s->block, s->prev, pt);
+			kripto_block_encrypt(s->block, s->prev, s->prev);
 			s->used = 0;
 		}
 
-		U8(pt)[i] ^= CU8(ct)[i];
-		s->prev[s->used++] = CU8(ct)[i];
+		c = CU8(ct)[i];
+		U8(pt)[i] = s->prev[s->used] ^ c;
+		s->prev[s->used++] = c;
 	}
 }
 
-- 
2.43.0


From 749483b1522ff6575e811dcbc46bf36b6adf3532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 03/42] fix: CTR counter never carried into its first byte

The keystream repeated when the low bytes of the counter wrapped.
---
 lib/stream/ctr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/stream/ctr.c b/lib/stream/ctr.c
index d3a833c..f4ff81c 100644
--- a/lib/stream/ctr.c
+++ b/lib/stream/ctr.c
@@ -54,7 +54,7 @@ static void ctr_crypt
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize - 1; n; n--)
+			for(n = s->blocksize; n--;)
 				if(++s->x[n]) break;
 		}
 
@@ -79,7 +79,7 @@ static void ctr_prng
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize - 1; n; n--)
+			for(n = s->blocksize; n--;)
 				if(++s->x[n]) break;
 		}
 
-- 
2.43.0


From d6108481e04233349f47c80cc4096a8b9540a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 04/42] fix: XTEA decryption with an odd number of rounds

It undid the half-rounds in the wrong order and read before the key array.
---
 lib/block/xtea.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index 44d19b9..b80361e 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -87,12 +87,11 @@ static void xtea_decrypt(const kripto_block *s, const void *ct, void *pt)
 	uint32_t x1 = LOAD32B(CU8(ct) + 4);
 	unsigned int i = s->rounds;
 
+	if(i & 1) x0 -= F(x1) ^ s->k[--i];
+
 	while(i)
 	{
 		x1 -= F(x0) ^ s->k[--i];
-
-		if(i == UINT_MAX) break;
-
 		x0 -= F(x1) ^ s->k[--i];
 	}
 
-- 
2.43.0


From c4130563ae354e02242a96bfc1ae963381a5f182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:03 +0000
Subject: [PATCH 05/42] fix: Speck key schedule divided by zero for keys of at
 most one word

---
 lib/block/speck128.c | 2 ++
 lib/block/speck32.c  | 2 ++
 lib/block/speck64.c  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 290b17d..93f7e80 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -88,6 +88,8 @@ static void speck128_setup
 	uint64_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 7) >> 3) - 1;
 
+	if(!m) m = 1;
+
 	LOAD64L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index 0af5a29..66a9c78 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -88,6 +88,8 @@ static void speck32_setup
 	uint16_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 1) >> 1) - 1;
 
+	if(!m) m = 1;
+
 	LOAD16L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index 9347fb2..b393da0 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -88,6 +88,8 @@ static void speck64_setup
 	uint32_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 3) >> 2) - 1;
 
+	if(!m) m = 1;
+
 	LOAD32L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
-- 
2.43.0


From 54676d3e7c709ac8c36afb729c9e108bd85d2f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:03 +0000
Subject: [PATCH 06/42] fix: kripto_block_gost dereferenced a failed allocation

---
 lib/block/gost.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/block/gost.c b/lib/block/gost.c
index dfe907d..f86125e 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -206,6 +206,7 @@ static kripto_block *gost_recreate
 kripto_desc_block *kripto_block_gost(const unsigned char (*sboxes)[16])
 {
 	kripto_desc_block *desc = (kripto_desc_block *)malloc(sizeof(kripto_desc_block) + sizeof(struct gost));
+	if(!desc) return 0;
 
 	desc->create = &gost_create;
 	desc->recreate = &gost_recreate;
-- 
2.43.0


From f817a5ae5e11152d00ead6ba20345b988a0d0e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:03 +0000
Subject: [PATCH 07/42] fix: signed overflow in the IDEA multiplication and the
 SM4 S-box

---
 lib/block/idea.c | 2 +-
 lib/block/sm4.c  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/block/idea.c b/lib/block/idea.c
index 1b0b6c5..ea3b6e2 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -39,7 +39,7 @@ struct kripto_block
 
 static inline uint16_t MUL(uint16_t a, uint16_t b)
 {
-	uint32_t p = a * b;
+	uint32_t p = (uint32_t)a * b;
 
 	if(p)
 	{
diff --git a/lib/block/sm4.c b/lib/block/sm4.c
index 7810104..f4f7642 100644
--- a/lib/block/sm4.c
+++ b/lib/block/sm4.c
@@ -83,8 +83,8 @@ static const uint32_t CK[32] =
 
 #define TAU(X)					\
 (						\
-	(S[(uint8_t)((X) >> 24)] << 24) |	\
-	(S[(uint8_t)((X) >> 16)] << 16) |	\
+	((uint32_t)S[(uint8_t)((X) >> 24)] << 24) |	\
+	((uint32_t)S[(uint8_t)((X) >> 16)] << 16) |\
 	(S[(uint8_t)((X) >>  8)] <<  8) |	\
 	(S[(uint8_t)((X)      )]      )		\
 )
@@ -169,7 +169,7 @@ static void sm4_setup
 
 	for(unsigned int i = 0; i < key_len; i++)
 	{
-		k[i >> 2] ^= CU8(key)[i] << (24 - ((i & 3) << 3));
+		k[i >> 2] ^= (uint32_t)CU8(key)[i] << (24 - ((i & 3) << 3));
 	}
 
 	for(unsigned int i = 0; i < s->r;)
-- 
2.43.0


From ae97ac828714b7307cec18b4ead4cf6fb59b27ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:28 +0000
Subject: [PATCH 08/42] fix: SAFER and SAFER++ read past the end of short keys

Keys that are not exactly one or two words long are zero-padded, as in
the other ciphers.
---
 lib/block/safer.c   | 6 ++++++
 lib/block/saferpp.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/lib/block/safer.c b/lib/block/safer.c
index 04d0fd7..15fa015 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -260,11 +260,16 @@ static void safer_setup
 {
 	const uint8_t *key2;
 	uint8_t *k = s->k;
+	uint8_t pad[16] = {0};
 	uint8_t ka[9];
 	uint8_t kb[9];
 
 	kb[8] = ka[8] = 0;
 
+	/* zero-pad short keys */
+	memcpy(pad, key, len);
+	key = pad;
+
 	if(len > 8) key2 = key + 8; /* 128-bit */
 	else key2 = key; /* 64-bit */
 
@@ -297,6 +302,7 @@ static void safer_setup
 
 	kripto_memory_wipe(ka, 9);
 	kripto_memory_wipe(kb, 9);
+	kripto_memory_wipe(pad, 16);
 }
 
 static void safer_destroy(kripto_block *s)
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index bfa367a..2176289 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -309,11 +309,16 @@ static void saferpp_setup
 {
 	const uint8_t *key2;
 	uint8_t *k = s->k;
+	uint8_t pad[32] = {0};
 	uint8_t ka[17];
 	uint8_t kb[17];
 
 	kb[16] = ka[16] = 0;
 
+	/* zero-pad short keys */
+	memcpy(pad, key, len);
+	key = pad;
+
 	if(len > 16) key2 = key + 16; /* 256-bit */
 	else key2 = key; /* 128-bit */
 
@@ -358,6 +363,7 @@ static void saferpp_setup
 
 	kripto_memory_wipe(ka, 17);
 	kripto_memory_wipe(kb, 17);
+	kripto_memory_wipe(pad, 32);
 }
 
 static void saferpp_destroy(kripto_block *s)
-- 
2.43.0


From 2cd8f875a1231ec1874ee59db204ca6a9ac4f814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:13 +0000
Subject: [PATCH 09/42] fix: Rijndael-256 round constants ran out for keys of
 at most 8 bytes

The key schedule read past the 52-entry table; compute the constants.
---
 lib/block/rijndael.c | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 8192a15..ecd4436 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -662,23 +662,6 @@ static const uint8_t td4[256] =
 	0xE1, 0x69, 0x14, 0x63, 0x55, 0x21, 0x0C, 0x7D
 };
 
-static const uint32_t rcon[52] =
-{
-	0x01000000, 0x02000000, 0x04000000, 0x08000000,
-	0x10000000, 0x20000000, 0x40000000, 0x80000000,
-	0x1B000000, 0x36000000, 0x6C000000, 0xD8000000,
-	0xAB000000, 0x4D000000, 0x9A000000, 0x2F000000,
-	0x5E000000, 0xBC000000, 0x63000000, 0xC6000000,
-	0x97000000, 0x35000000, 0x6A000000, 0xD4000000,
-	0xB3000000, 0x7D000000, 0xFA000000, 0xEF000000,
-	0xC5000000, 0x91000000, 0x39000000, 0x72000000,
-	0xE4000000, 0xD3000000, 0xBD000000, 0x61000000,
-	0xC2000000, 0x9F000000, 0x25000000, 0x4A000000,
-	0x94000000, 0x33000000, 0x66000000, 0xCC000000,
-	0x83000000, 0x1D000000, 0x3A000000, 0x74000000,
-	0xE8000000, 0xCB000000, 0x8D000000
-};
-
 #define E(X0, X1, X2, X3)		\
 (					\
 	te0[(X0) >> 24] ^		\
@@ -724,6 +707,7 @@ static void rijndael_setup
 	unsigned int x;
 	unsigned int len;
 	uint32_t t;
+	uint32_t rc = 0x01000000;
 	const unsigned int n = ((key_len + 3) >> 2);
 
 	bs >>= 2;
@@ -732,14 +716,17 @@ static void rijndael_setup
 	for(i = 0; i < n; i++) s->k[i] = 0;
 	LOAD32B_ARRAY(key, s->k, key_len);
 
-	for(j = n, x = 0; j < len; j += n)
+	for(j = n; j < len; j += n)
 	{
 		t = s->k[j - 1];
 		s->k[j] = s->k[j - n] ^
 			((te4[(t >> 16) & 0xFF] << 24) |
 			(te4[(t >> 8) & 0xFF] << 16) |
 			(te4[t & 0xFF] << 8) |
-			te4[t >> 24]) ^ rcon[x++];
+			te4[t >> 24]) ^ rc;
+
+		/* next round constant */
+		rc = (rc << 1) ^ ((rc >> 31) * 0x1B000000);
 
 		if(n <= 6)
 		{
-- 
2.43.0


From 7900053c99b3094654a4b780265c607debf3e754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:51 +0000
Subject: [PATCH 10/42] fix: signed shift overflow in Rijndael and 3-Way

---
 lib/block/3way.c     | 8 ++++----
 lib/block/rijndael.c | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/block/3way.c b/lib/block/3way.c
index ce3159d..a120858 100644
--- a/lib/block/3way.c
+++ b/lib/block/3way.c
@@ -122,13 +122,13 @@ static void threeway_encrypt
 
 	for(i = 0; i < s->r; i++)
 	{
-		x[0] ^= s->k[0] ^ (rc_e[i] << 16);
+		x[0] ^= s->k[0] ^ ((uint32_t)rc_e[i] << 16);
 		x[1] ^= s->k[1];
 		x[2] ^= s->k[2] ^ rc_e[i];
 		THETA(x);
 		PI_GAMMA_PI(x);
 	}
-	x[0] ^= s->k[0] ^ (rc_e[i] << 16);
+	x[0] ^= s->k[0] ^ ((uint32_t)rc_e[i] << 16);
 	x[1] ^= s->k[1];
 	x[2] ^= s->k[2] ^ rc_e[i];
 	THETA(x);
@@ -155,13 +155,13 @@ static void threeway_decrypt
 	MU(x);
 	for(i = 0; i < s->r; i++)
 	{
-		x[0] ^= s->dk[0] ^ (rc_d[i] << 16);
+		x[0] ^= s->dk[0] ^ ((uint32_t)rc_d[i] << 16);
 		x[1] ^= s->dk[1];
 		x[2] ^= s->dk[2] ^ rc_d[i];
 		THETA(x);
 		PI_GAMMA_PI(x);
 	}
-	x[0] ^= s->dk[0] ^ (rc_d[i] << 16);
+	x[0] ^= s->dk[0] ^ ((uint32_t)rc_d[i] << 16);
 	x[1] ^= s->dk[1];
 	x[2] ^= s->dk[2] ^ rc_d[i];
 	THETA(x);
diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index ecd4436..4079a87 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -672,7 +672,7 @@ static const uint8_t td4[256] =
 
 #define EL(X0, X1, X2, X3)			\
 (						\
-	(te4[(X0) >> 24] << 24) |		\
+	((uint32_t)te4[(X0) >> 24] << 24) |		\
 	(te4[(uint8_t)((X1) >> 16)] << 16) |	\
 	(te4[(uint8_t)((X2) >> 8)] << 8) |	\
 	te4[(uint8_t)(X3)]			\
@@ -688,7 +688,7 @@ static const uint8_t td4[256] =
 
 #define DL(X0, X1, X2, X3)			\
 (						\
-	(td4[(X0) >> 24] << 24) |		\
+	((uint32_t)td4[(X0) >> 24] << 24) |		\
 	(td4[(uint8_t)((X1) >> 16)] << 16) |	\
 	(td4[(uint8_t)((X2) >> 8)] << 8) |	\
 	td4[(uint8_t)(X3)]			\
@@ -720,7 +720,7 @@ static void rijndael_setup
 	{
 		t = s->k[j - 1];
 		s->k[j] = s->k[j - n] ^
-			((te4[(t >> 16) & 0xFF] << 24) |
+			(((uint32_t)te4[(t >> 16) & 0xFF] << 24) |
 			(te4[(t >> 8) & 0xFF] << 16) |
 			(te4[t & 0xFF] << 8) |
 			te4[t >> 24]) ^ rc;
-- 
2.43.0


From 94d666d4ebda3dadfe73d10e27c86522b3ab0202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:00 +0000
Subject: [PATCH 11/42] fix: 3-Way decryption with fewer than 11 rounds

---
 lib/block/3way.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/block/3way.c b/lib/block/3way.c
index a120858..3cef2ec 100644
--- a/lib/block/3way.c
+++ b/lib/block/3way.c
@@ -153,7 +153,8 @@ static void threeway_decrypt
 	x[2] = LOAD32L(CU8(ct) + 8);
 
 	MU(x);
-	for(i = 0; i < s->r; i++)
+	/* inverse round constants are for 11 rounds */
+	for(i = 11 - s->r; i < 11; i++)
 	{
 		x[0] ^= s->dk[0] ^ ((uint32_t)rc_d[i] << 16);
 		x[1] ^= s->dk[1];
-- 
2.43.0


From 4fb2f5d557b43190114e6fad1f1fd25bb9dbb075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:07 +0000
Subject: [PATCH 12/42] fix: BLAKE counter of a final block without message
 bits

---
 lib/hash/blake256.c | 5 ++++-
 lib/hash/blake512.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/hash/blake256.c b/lib/hash/blake256.c
index ded9fe2..716221a 100644
--- a/lib/hash/blake256.c
+++ b/lib/hash/blake256.c
@@ -212,6 +212,8 @@ static void blake256_input
 
 static void blake256_finish(kripto_hash *s)
 {
+	int z = !s->i; /* last block without message bits */
+
 	s->len[0] += s->i << 3;
 	if(s->len[0] < (s->i << 3))
 	{
@@ -227,6 +229,7 @@ static void blake256_finish(kripto_hash *s)
 		while(s->i < 64) s->buf[s->i++] = 0;
 		blake256_process(s, s->buf);
 		s->i = 0;
+		z = -1;
 	}
 
 	while(s->i < 56) s->buf[s->i++] = 0;
@@ -237,7 +240,7 @@ static void blake256_finish(kripto_hash *s)
 	STORE32B(s->len[1], s->buf + 56);
 	STORE32B(s->len[0], s->buf + 60);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	if(z) s->len[0] = s->len[1] = 0;
 
 	blake256_process(s, s->buf);
 
diff --git a/lib/hash/blake512.c b/lib/hash/blake512.c
index 0c64c32..031c07f 100644
--- a/lib/hash/blake512.c
+++ b/lib/hash/blake512.c
@@ -217,6 +217,8 @@ static void blake512_input
 
 static void blake512_finish(kripto_hash *s)
 {
+	int z = !s->i; /* last block without message bits */
+
 	s->len[0] += s->i << 3;
 	if(s->len[0] < (s->i << 3))
 	{
@@ -232,6 +234,7 @@ static void blake512_finish(kripto_hash *s)
 		while(s->i < 128) s->buf[s->i++] = 0;
 		blake512_process(s, s->buf);
 		s->i = 0;
+		z = -1;
 	}
 
 	while(s->i < 112) s->buf[s->i++] = 0;
@@ -242,7 +245,7 @@ static void blake512_finish(kripto_hash *s)
 	STORE64B(s->len[1], s->buf + 112);
 	STORE64B(s->len[0], s->buf + 120);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	if(z) s->len[0] = s->len[1] = 0;
 
 	blake512_process(s, s->buf);
 
-- 
2.43.0


From f0dfbae1d12c1c8e21d11f2344a377b45e5f52ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:13 +0000
Subject: [PATCH 13/42] fix: BLAKE2 digest of messages that are a multiple of
 the block size

---
 lib/hash/blake2b.c | 5 +++--
 lib/hash/blake2s.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/hash/blake2b.c b/lib/hash/blake2b.c
index 8451628..5acb416 100644
--- a/lib/hash/blake2b.c
+++ b/lib/hash/blake2b.c
@@ -177,8 +177,7 @@ static void blake2b_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed in finish */
 		if(s->i == 128)
 		{
 			s->len[0] += 128;
@@ -191,6 +190,8 @@ static void blake2b_input
 			blake2b_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/blake2s.c b/lib/hash/blake2s.c
index 881bac0..54f2f4e 100644
--- a/lib/hash/blake2s.c
+++ b/lib/hash/blake2s.c
@@ -175,8 +175,7 @@ static void blake2s_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed in finish */
 		if(s->i == 64)
 		{
 			s->len[0] += 64;
@@ -189,6 +188,8 @@ static void blake2s_input
 			blake2s_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
-- 
2.43.0


From a9b6b1ce22b7b04c797a5c23938f4f23b6dba7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:38 +0000
Subject: [PATCH 14/42] fix: Skein hash of salts, full last blocks and long
 outputs

---
 lib/hash/skein1024.c | 32 ++++++++++++++++++++------------
 lib/hash/skein256.c  | 32 ++++++++++++++++++++------------
 lib/hash/skein512.c  | 32 ++++++++++++++++++++------------
 3 files changed, 60 insertions(+), 36 deletions(-)

diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index 25708cd..2853ead 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -39,6 +39,7 @@ struct kripto_hash
 	int f;
 	uint8_t h[128];
 	uint8_t buf[128];
+	uint8_t out[128];
 	uint8_t tweak[16];
 };
 
@@ -91,7 +92,7 @@ static kripto_hash *skein1024_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,9 +118,10 @@ static kripto_hash *skein1024_recreate
 		unsigned int len = salt_len > 128 ? 128 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 128 - len);
+		memset(s->buf + len, 0, 128 - len);
 
 		POS_ADD(s->tweak, len);
+		salt = CU8(salt) + len;
 		salt_len -= len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
@@ -145,8 +147,7 @@ static void skein1024_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed in output */
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -154,6 +155,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -170,24 +173,29 @@ static void skein1024_output(kripto_hash *s, void *out, size_t len)
 		memset(s->buf, 0, 128);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 128);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 128)
 		{
-			s->out_len -= 128;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein1024_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 128);
+			kripto_block_encrypt(s->block, s->buf, s->out);
+			for(s->i = 0; s->i < 128; s->i++)
+				s->out[s->i] ^= s->buf[s->i];
+
+			/* increment counter */
+			for(s->i = 0; s->i < 8 && !++s->buf[s->i]; s->i++);
+
 			s->i = 0;
 		}
-		
-		U8(out)[i] = s->h[s->i++];
+
+		U8(out)[i] = s->out[s->i++];
 	}
 }
 
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index de6f2dd..0435570 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -39,6 +39,7 @@ struct kripto_hash
 	int f;
 	uint8_t h[32];
 	uint8_t buf[32];
+	uint8_t out[32];
 	uint8_t tweak[16];
 };
 
@@ -91,7 +92,7 @@ static kripto_hash *skein256_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,9 +118,10 @@ static kripto_hash *skein256_recreate
 		unsigned int len = salt_len > 32 ? 32 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 32 - len);
+		memset(s->buf + len, 0, 32 - len);
 
 		POS_ADD(s->tweak, len);
+		salt = CU8(salt) + len;
 		salt_len -= len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
@@ -145,8 +147,7 @@ static void skein256_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed in output */
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -154,6 +155,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -170,24 +173,29 @@ static void skein256_output(kripto_hash *s, void *out, size_t len)
 		memset(s->buf, 0, 32);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 32);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 32)
 		{
-			s->out_len -= 32;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein256_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 32);
+			kripto_block_encrypt(s->block, s->buf, s->out);
+			for(s->i = 0; s->i < 32; s->i++)
+				s->out[s->i] ^= s->buf[s->i];
+
+			/* increment counter */
+			for(s->i = 0; s->i < 8 && !++s->buf[s->i]; s->i++);
+
 			s->i = 0;
 		}
-		
-		U8(out)[i] = s->h[s->i++];
+
+		U8(out)[i] = s->out[s->i++];
 	}
 }
 
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index e0fbeaa..e33c303 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -39,6 +39,7 @@ struct kripto_hash
 	int f;
 	uint8_t h[64];
 	uint8_t buf[64];
+	uint8_t out[64];
 	uint8_t tweak[16];
 };
 
@@ -91,7 +92,7 @@ static kripto_hash *skein512_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,9 +118,10 @@ static kripto_hash *skein512_recreate
 		unsigned int len = salt_len > 64 ? 64 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 64 - len);
+		memset(s->buf + len, 0, 64 - len);
 
 		POS_ADD(s->tweak, len);
+		salt = CU8(salt) + len;
 		salt_len -= len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
@@ -145,8 +147,7 @@ static void skein512_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed in output */
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -154,6 +155,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -170,24 +173,29 @@ static void skein512_output(kripto_hash *s, void *out, size_t len)
 		memset(s->buf, 0, 64);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 64);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 64)
 		{
-			s->out_len -= 64;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein512_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 64);
+			kripto_block_encrypt(s->block, s->buf, s->out);
+			for(s->i = 0; s->i < 64; s->i++)
+				s->out[s->i] ^= s->buf[s->i];
+
+			/* increment counter */
+			for(s->i = 0; s->i < 8 && !++s->buf[s->i]; s->i++);
+
 			s->i = 0;
 		}
-		
-		U8(out)[i] = s->h[s->i++];
+
+		U8(out)[i] = s->out[s->i++];
 	}
 }
 
-- 
2.43.0


From 757314ebcff1408b5a51bdb6d591cb9739c05096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:38 +0000
Subject: [PATCH 15/42] fix: Skein MAC of short and long keys and full last
 blocks

---
 lib/mac/skein1024.c | 9 ++++++---
 lib/mac/skein256.c  | 9 ++++++---
 lib/mac/skein512.c  | 9 ++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/mac/skein1024.c b/lib/mac/skein1024.c
index 405ae55..4275108 100644
--- a/lib/mac/skein1024.c
+++ b/lib/mac/skein1024.c
@@ -101,10 +101,11 @@ static kripto_mac *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(s->tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
@@ -125,6 +126,7 @@ static kripto_mac *skein1024_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 112);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein1024_process(s);
@@ -147,8 +149,7 @@ static void skein1024_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed in finish */
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -156,6 +157,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein256.c b/lib/mac/skein256.c
index ea4b813..8328f04 100644
--- a/lib/mac/skein256.c
+++ b/lib/mac/skein256.c
@@ -101,10 +101,11 @@ static kripto_mac *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(s->tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
@@ -125,6 +126,7 @@ static kripto_mac *skein256_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 16);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein256_process(s);
@@ -147,8 +149,7 @@ static void skein256_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed in finish */
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -156,6 +157,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein512.c b/lib/mac/skein512.c
index ae114ac..de0f205 100644
--- a/lib/mac/skein512.c
+++ b/lib/mac/skein512.c
@@ -101,10 +101,11 @@ static kripto_mac *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(s->tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
@@ -125,6 +126,7 @@ static kripto_mac *skein512_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 48);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein512_process(s);
@@ -147,8 +149,7 @@ static void skein512_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
+		/* last block is processed in finish */
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -156,6 +157,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
-- 
2.43.0


From 7a25813aae71b1f4256fc63defa049e269e63bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:38 +0000
Subject: [PATCH 16/42] fix: Skein stream leaked its configuration block and
 mangled key and nonce

---
 lib/stream/skein1024.c | 8 +++++---
 lib/stream/skein256.c  | 8 +++++---
 lib/stream/skein512.c  | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/stream/skein1024.c b/lib/stream/skein1024.c
index f722ae9..59adfa6 100644
--- a/lib/stream/skein1024.c
+++ b/lib/stream/skein1024.c
@@ -76,7 +76,7 @@ static kripto_stream *skein1024_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 128;
 	memset(k, 0, 128);
 	memset(s->ctr, 0, 128);
 
@@ -90,10 +90,11 @@ static kripto_stream *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
@@ -138,10 +139,11 @@ static kripto_stream *skein1024_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(tweak, block);
 
+		iv = CU8(iv) + block;
 		iv_len -= block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
diff --git a/lib/stream/skein256.c b/lib/stream/skein256.c
index 847ec10..790b40d 100644
--- a/lib/stream/skein256.c
+++ b/lib/stream/skein256.c
@@ -76,7 +76,7 @@ static kripto_stream *skein256_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 32;
 	memset(k, 0, 32);
 	memset(s->ctr, 0, 32);
 
@@ -90,10 +90,11 @@ static kripto_stream *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
@@ -138,10 +139,11 @@ static kripto_stream *skein256_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(tweak, block);
 
+		iv = CU8(iv) + block;
 		iv_len -= block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
diff --git a/lib/stream/skein512.c b/lib/stream/skein512.c
index 231a56d..ea40049 100644
--- a/lib/stream/skein512.c
+++ b/lib/stream/skein512.c
@@ -76,7 +76,7 @@ static kripto_stream *skein512_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 64;
 	memset(k, 0, 64);
 	memset(s->ctr, 0, 64);
 
@@ -90,10 +90,11 @@ static kripto_stream *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
@@ -138,10 +139,11 @@ static kripto_stream *skein512_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(tweak, block);
 
+		iv = CU8(iv) + block;
 		iv_len -= block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
-- 
2.43.0


From 530cad29161d88921df7f5c5be03b7f32543ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:58 +0000
Subject: [PATCH 17/42] fix: PKCS7 padding of empty data and for sizes other
 than powers of two

---
 lib/pkcs7.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pkcs7.c b/lib/pkcs7.c
index f615557..ba3192f 100644
--- a/lib/pkcs7.c
+++ b/lib/pkcs7.c
@@ -30,7 +30,7 @@ size_t kripto_pkcs7_add
 {
 	unsigned int i;
 
-	pad = pad - (len & (pad - 1));
+	pad = pad - len % pad;
 
 	if(pad + len > maxlen) return 0;
 
@@ -42,7 +42,7 @@ size_t kripto_pkcs7_add
 
 size_t kripto_pkcs7_rem(void *buf, size_t len)
 {
-	if(U8(buf)[len - 1] < len)
+	if(U8(buf)[len - 1] <= len)
 		return (len - U8(buf)[len - 1]);
 	else
 		return len;
-- 
2.43.0


From 3cb5b3ee136acafa43fa2b3acd470b14960cc099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:18 +0000
Subject: [PATCH 18/42] fix: Keccak wrote past its state when set up for
 outputs of half the state or more

---
 lib/hash/keccak1600.c | 2 ++
 lib/hash/keccak800.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lib/hash/keccak1600.c b/lib/hash/keccak1600.c
index 0a95af7..e7dfaaa 100644
--- a/lib/hash/keccak1600.c
+++ b/lib/hash/keccak1600.c
@@ -304,6 +304,8 @@ static kripto_hash *keccak1600_recreate
 	s->r = r;
 	if(!s->r) s->r = 24;
 
+	/* capacity is limited by state size */
+	if(out_len > 99) out_len = 99;
 	s->rate = 200 - (out_len << 1);
 
 	memset(s->s, 0, 200);
diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index 8b9ce0d..b9ace11 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -289,6 +289,8 @@ static kripto_hash *keccak800_recreate
 	s->r = r;
 	if(!s->r) s->r = 20;
 
+	/* capacity is limited by state size */
+	if(out_len > 49) out_len = 49;
 	s->rate = 100 - (out_len << 1);
 
 	memset(s->s, 0, 100);
-- 
2.43.0


From d8f282ba7d17380976828ca53addc4f181a1bfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:25 +0000
Subject: [PATCH 19/42] fix: HMAC wrote past its key buffer for tags longer
 than the hash block

---
 lib/mac/hmac.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/mac/hmac.c b/lib/mac/hmac.c
index 5bd432e..c5a12ab 100644
--- a/lib/mac/hmac.c
+++ b/lib/mac/hmac.c
@@ -50,6 +50,9 @@ static int hmac_init
 
 	if(key_len > s->blocksize)
 	{
+		i = tag_len;
+		if(i > s->blocksize) i = s->blocksize;
+
 		if(kripto_hash_all(
 			hash,
 			s->r,
@@ -58,10 +61,8 @@ static int hmac_init
 			key,
 			key_len,
 			s->key,
-			tag_len)
+			i)
 		) return -1;
-
-		i = tag_len;
 	}
 	else
 	{
-- 
2.43.0


From c7ff2bd6585d23061d549147e44ea7e7aa23c78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:32 +0000
Subject: [PATCH 20/42] fix: PBKDF2 used a freed MAC after a failed recreate

---
 lib/pbkdf2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pbkdf2.c b/lib/pbkdf2.c
index c456fb0..8c3ed56 100644
--- a/lib/pbkdf2.c
+++ b/lib/pbkdf2.c
@@ -75,7 +75,7 @@ int kripto_pbkdf2
 		for(i = 1; i < iter; i++)
 		{
 			m = kripto_mac_recreate(m, mac_rounds, pass, pass_len, x);
-			if(!mac) goto err;
+			if(!m) goto err;
 
 			kripto_mac_input(m, buf0, x);
 			kripto_mac_tag(m, buf0, x);
-- 
2.43.0


From 9a0984e9cc8b90b12d939fffda17a5ec1737a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:03 +0000
Subject: [PATCH 21/42] fix: PBKDF2 truncated the tags inside the iteration for
 short outputs

---
 lib/pbkdf2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/pbkdf2.c b/lib/pbkdf2.c
index 8c3ed56..227a848 100644
--- a/lib/pbkdf2.c
+++ b/lib/pbkdf2.c
@@ -48,8 +48,9 @@ int kripto_pbkdf2
 	assert(mac);
 	assert(iter);
 
+	/* always use whole tags, only the output is truncated */
 	x = kripto_mac_maxtag(mac);
-	if(out_len < x) x = out_len;
+	if(!x) x = 64; /* MAC has no maximum tag length */
 
 	buf0 = (uint8_t *)malloc(x << 1);
 	if(!buf0) return -1;
-- 
2.43.0


From d2dc9366b8b28299e272ce101ecf61af60828666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:10 +0000
Subject: [PATCH 22/42] fix: scrypt working blocks overlapped its lookup table

---
 lib/scrypt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index 71541c8..6ab639b 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -222,8 +222,8 @@ int kripto_scrypt
 	if(!b) return -1;
 
 	t0 = (uint32_t *)(void *)(b + (r << 7) * p);
-	t1 = t0 + (r << 5);
-	t2 = t1 + (r << 5);
+	t1 = t0 + ((size_t)r << 5) * n;
+	t2 = t1 + ((size_t)r << 5);
 
 	if(kripto_pbkdf2
 	(
-- 
2.43.0


From b442d1ccea4fe68b9333d88a01d48b43cb3af096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:39 +0000
Subject: [PATCH 23/42] fix: scrypt buffer size overflowed for large parameters

---
 lib/scrypt.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index 6ab639b..a699719 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -16,6 +16,7 @@
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
+#include <limits.h>
 #include <assert.h>
 
 #include <kripto/memory.h>
@@ -217,11 +218,20 @@ int kripto_scrypt
 	uint32_t *t1;
 	uint32_t *t2;
 	uint32_t i;
+	size_t block;
+	size_t size;
 
-	b = (uint8_t *)malloc((r << 7) * p + (r << 7) * n + (r << 8));
+	/* block is an unsigned int salt for PBKDF2 below */
+	if(!r || p > UINT_MAX / 128 / r) return -1;
+
+	block = (size_t)r << 7;
+	if(n > (SIZE_MAX / block) - p - 2) return -1;
+	size = block * p + block * n + (block << 1);
+
+	b = (uint8_t *)malloc(size);
 	if(!b) return -1;
 
-	t0 = (uint32_t *)(void *)(b + (r << 7) * p);
+	t0 = (uint32_t *)(void *)(b + block * p);
 	t1 = t0 + ((size_t)r << 5) * n;
 	t2 = t1 + ((size_t)r << 5);
 
@@ -235,11 +245,11 @@ int kripto_scrypt
 		salt,
 		salt_len,
 		b,
-		p * (r << 7)
+		block * p
 	)) goto err;
 
 	for(i = 0; i < p; i++)
-		smix(b + (r << 7) * i, r, n, t0, t1, t2);
+		smix(b + block * i, r, n, t0, t1, t2);
 
 	if(kripto_pbkdf2
 	(
@@ -249,18 +259,18 @@ int kripto_scrypt
 		pass,
 		pass_len,
 		b,
-		p * (r << 7),
+		block * p,
 		out,
 		out_len
 	)) goto err;
 
-	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + (r << 8));
+	kripto_memory_wipe(b, size);
 	free(b);
 
 	return 0;
 
 err:
-	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + (r << 8));
+	kripto_memory_wipe(b, size);
 	free(b);
 
 	return -1;
-- 
2.43.0


From 7fe40b8a633ba6ffa2766d9b7c10b1e577486375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:01 +0000
Subject: [PATCH 24/42] fix: EAX used truncated nonce MAC for nonces shorter
 than the block

---
 lib/ae/eax.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax.c b/lib/ae/eax.c
index a03af41..6d3a870 100644
--- a/lib/ae/eax.c
+++ b/lib/ae/eax.c
@@ -159,7 +159,7 @@ static kripto_ae *eax_create
 	memset(buf, 0, len);
 	kripto_mac_input(s->omac, buf, len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, len);
@@ -168,7 +168,7 @@ static kripto_ae *eax_create
 	kripto_mac_input(s->omac, buf, len);
 
 	/* create CTR */
-	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, len);
 	if(!s->ctr) goto err6;
 
 	/* create OMAC for header */
@@ -215,7 +215,7 @@ static kripto_ae *eax_recreate
 	memset(buf, 0, s->len);
 	kripto_mac_input(s->omac, buf, s->len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, s->len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, s->len);
@@ -224,7 +224,7 @@ static kripto_ae *eax_recreate
 	kripto_mac_input(s->omac, buf, s->len);
 
 	/* recreate CTR */
-	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, s->len);
 	if(!s->ctr) goto err2;
 
 	/* recreate OMAC for header */
-- 
2.43.0


From 821c35938264dcb95e40c0161bd6ccca4fa55e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:30 +0000
Subject: [PATCH 25/42] fix: EAX and EAX2 leaked their parts when recreate
 failed

---
 lib/ae/eax.c  | 24 +++++++++++++++++++-----
 lib/ae/eax2.c | 24 +++++++++++++++++++-----
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/lib/ae/eax.c b/lib/ae/eax.c
index 6d3a870..5ea5fca 100644
--- a/lib/ae/eax.c
+++ b/lib/ae/eax.c
@@ -207,7 +207,11 @@ static kripto_ae *eax_recreate
 	(void)tag_len;
 
 	buf = (uint8_t *)malloc(s->len);
-	if(!buf) goto err0;
+	if(!buf)
+	{
+		eax_destroy(s);
+		return 0;
+	}
 
 	/* OMAC IV (nonce) */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, s->len);
@@ -237,10 +241,20 @@ static kripto_ae *eax_recreate
 
 	return s;
 
-err3: kripto_stream_destroy(s->ctr);
-err2: kripto_mac_destroy(s->omac);
-err1: free(buf);
-err0:
+	/* failed recreate has already destroyed its own object */
+err3:
+	kripto_stream_destroy(s->ctr);
+	kripto_mac_destroy(s->omac);
+	goto err;
+err2:
+	kripto_mac_destroy(s->omac);
+	kripto_mac_destroy(s->header);
+	goto err;
+err1:
+	kripto_stream_destroy(s->ctr);
+	kripto_mac_destroy(s->header);
+err:
+	free(buf);
 	free(s->ctr_desc);
 	free(s->omac_desc);
 	kripto_memory_wipe(s->iv, s->len);
diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 16ddbe0..698a664 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -213,7 +213,11 @@ static kripto_ae *eax2_recreate
 	s->len = tag_len;
 
 	buf = (uint8_t *)malloc(tag_len);
-	if(!buf) goto err0;
+	if(!buf)
+	{
+		eax2_destroy(s);
+		return 0;
+	}
 
 	/* split key */
 	stream_key = (key_len + 1) >> 1;
@@ -256,10 +260,20 @@ static kripto_ae *eax2_recreate
 
 	return s;
 
-err3: kripto_stream_destroy(s->stream);
-err2: kripto_mac_destroy(s->mac);
-err1: free(buf);
-err0:
+	/* failed recreate has already destroyed its own object */
+err3:
+	kripto_stream_destroy(s->stream);
+	kripto_mac_destroy(s->mac);
+	goto err;
+err2:
+	kripto_mac_destroy(s->mac);
+	kripto_mac_destroy(s->header);
+	goto err;
+err1:
+	kripto_stream_destroy(s->stream);
+	kripto_mac_destroy(s->header);
+err:
+	free(buf);
 	kripto_memory_wipe(s->iv, tag_len);
 	free(s);
 	return 0;
-- 
2.43.0


From 7d31f28f832003c57d0d1f30b906bbb8acbaf885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:38 +0000
Subject: [PATCH 26/42] fix: EAX2 wrote past its nonce MAC and mixed
 uninitialised bytes into tags

---
 lib/ae/eax2.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 698a664..7ebc562 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -124,6 +124,7 @@ static kripto_ae *eax2_create
 	uint8_t *buf;
 	unsigned int mac_key; /* K1 */
 	unsigned int stream_key; /* K2 */
+	unsigned int stream_iv;
 
 	buf = (uint8_t *)malloc(tag_len);
 	if(!buf) goto err0;
@@ -147,7 +148,7 @@ static kripto_ae *eax2_create
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, tag_len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
@@ -155,12 +156,17 @@ static kripto_ae *eax2_create
 	buf[tag_len - 1] = 2;
 	kripto_mac_input(s->mac, buf, tag_len);
 
+	/* MAC of nonce is the stream cipher IV */
+	stream_iv = tag_len;
+	if(stream_iv > kripto_stream_maxiv(EXT(desc)->stream))
+		stream_iv = kripto_stream_maxiv(EXT(desc)->stream);
+
 	/* create stream cipher */
 	s->stream = kripto_stream_create
 	(
 		EXT(desc)->stream, rounds,
 		(const uint8_t *)key + mac_key, stream_key,
-		s->iv, iv_len
+		s->iv, stream_iv
 	);
 	if(!s->stream) goto err4;
 
@@ -198,6 +204,7 @@ static kripto_ae *eax2_recreate
 	uint8_t *buf;
 	unsigned int mac_key; /* K1 */
 	unsigned int stream_key; /* K2 */
+	unsigned int stream_iv;
 	const kripto_desc_ae *desc;
 
 	if(tag_len > s->len)
@@ -231,7 +238,7 @@ static kripto_ae *eax2_recreate
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, tag_len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
@@ -239,12 +246,17 @@ static kripto_ae *eax2_recreate
 	buf[s->len - 1] = 2;
 	kripto_mac_input(s->mac, buf, tag_len);
 
+	/* MAC of nonce is the stream cipher IV */
+	stream_iv = tag_len;
+	if(stream_iv > kripto_stream_maxiv(EXT(s->desc)->stream))
+		stream_iv = kripto_stream_maxiv(EXT(s->desc)->stream);
+
 	/* recreate stream cipher */
 	s->stream = kripto_stream_recreate
 	(
 		s->stream, rounds,
 		(const uint8_t *)key + mac_key, stream_key,
-		s->iv, iv_len
+		s->iv, stream_iv
 	);
 	if(!s->stream) goto err2;
 
-- 
2.43.0


From 38074f787318ff678795d58ab4de3e4fc7bb57d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:44 +0000
Subject: [PATCH 27/42] fix: EAX2 maximum key length overflowed

---
 lib/ae/eax2.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 7ebc562..c2715eb 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -16,6 +16,7 @@
 #include <stdint.h>
 #include <string.h>
 #include <stdlib.h>
+#include <limits.h>
 
 #include <kripto/cast.h>
 #include <kripto/memory.h>
@@ -310,7 +311,11 @@ kripto_desc_ae *kripto_ae_eax2
 	s->desc.header = &eax2_header;
 	s->desc.tag = &eax2_tag;
 	s->desc.destroy = &eax2_destroy;
-	s->desc.maxkey = kripto_stream_maxkey(stream) + kripto_mac_maxkey(mac);
+	s->desc.maxkey = kripto_stream_maxkey(stream);
+	if(s->desc.maxkey > UINT_MAX - kripto_mac_maxkey(mac))
+		s->desc.maxkey = UINT_MAX;
+	else
+		s->desc.maxkey += kripto_mac_maxkey(mac);
 	s->desc.maxiv = kripto_stream_maxiv(stream);
 	s->desc.maxtag = kripto_mac_maxtag(mac);
 
-- 
2.43.0


From a0d599fb79ceacf9e67a5fe00652ab826b46b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:07 +0000
Subject: [PATCH 28/42] fix: XCBC left derived keys in memory when create
 failed

---
 lib/mac/xcbc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mac/xcbc.c b/lib/mac/xcbc.c
index f421b13..aec7a58 100644
--- a/lib/mac/xcbc.c
+++ b/lib/mac/xcbc.c
@@ -160,6 +160,7 @@ static kripto_mac *xcbc_create
 
 	if(xcbc_init(s, r))
 	{
+		kripto_memory_wipe(s, sizeof(kripto_mac) + s->len * 3);
 		free(s);
 		return 0;
 	}
-- 
2.43.0


From eb06aaaadfd92999e2122864332c14edb00f383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:46 +0000
Subject: [PATCH 29/42] fix: random_test rejected every source

---
 lib/random.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 49f750b..92c3d19 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -416,8 +416,8 @@ int kripto_random_test(kripto_random *s)
 
 		/* distances */
 		if(prev == sample[i]) dist_zero++;
-		dist[sample[i]] += 4096 - dist_prev[sample[i]];
-		dist_prev[sample[i]] = 4096;
+		dist[sample[i]] += i - dist_prev[sample[i]];
+		dist_prev[sample[i]] = i;
 
 		/* serial correlation */
 		corr1 += prev * sample[i];
@@ -430,7 +430,7 @@ int kripto_random_test(kripto_random *s)
 	for(i = 0; i < 256; i++)
 	{
 		/* chi square */
-		t = count[i] - 16;
+		t = count[i] - 16.0;
 		chi += t * t;
 
 		/* entropy */
@@ -445,6 +445,7 @@ int kripto_random_test(kripto_random *s)
 	}
 	chi /= 16;
 	avg /= 4096;
+	avg_null /= 256;
 
 	/* serial correlation */
 	corr2 = corr2 * corr2;
-- 
2.43.0


From 3ce95dbdf6cfdbb7440166ebe31c786c58cb925e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:57 +0000
Subject: [PATCH 30/42] fix: CAST5 used 16 rounds for 48 to 80 bit keys

RFC 2144 specifies 12 rounds for keys up to and including 80 bits; the
threshold compared the length in bytes with 5.
---
 lib/block/cast5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/block/cast5.c b/lib/block/cast5.c
index 3d79bb2..8355349 100644
--- a/lib/block/cast5.c
+++ b/lib/block/cast5.c
@@ -703,7 +703,7 @@ static kripto_block *cast5_recreate
 
 	if(!r)
 	{
-		if(key_len <= 5) s->r = 12;
+		if(key_len <= 10) s->r = 12;
 		else s->r = 16;
 	}
 	else s->r = r;
-- 
2.43.0


From 26db7c1cf92fa20e501953888126a7bcf07723cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:13 +0000
Subject: [PATCH 31/42] fix: random source delivered the same bytes to parent
 and child after fork

stdio kept a buffer of unread random bytes, which a forked child inherits.
---
 lib/random.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 92c3d19..3f6acc1 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -182,7 +182,7 @@ kripto_random *kripto_random_create(void)
 	#if defined(KRIPTO_DEV_RANDOM)
 
 	const char *dev_random;
-	/*FILE *fp;*/
+	FILE *fp;
 
 	dev_random = getenv("KRIPTO_RANDOM");
 	if(!dev_random)
@@ -192,7 +192,12 @@ kripto_random *kripto_random_create(void)
 		return create();
 		#endif
 
-	return (kripto_random *)fopen(dev_random, "rb");
+	fp = fopen(dev_random, "rb");
+
+	/* Buffered bytes would be delivered again after fork. */
+	if(fp) (void)setvbuf(fp, NULL, _IONBF, 0);
+
+	return (kripto_random *)fp;
 
 	/*fp = fopen(dev_random, "rb");
 	if(fp) return (kripto_random *)fp;
-- 
2.43.0


From ecbcd9180e86d4af2d9d964bbdd009897836cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:17 +0000
Subject: [PATCH 32/42] fix: OMAC puts the high terms of the polynomial in
 their places

---
 lib/mac/omac.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index 5ed42fd..6bbc77f 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -323,9 +323,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu[s->len - 4] ^= poly[s->len][0];
-			s->lu[s->len - 3] ^= poly[s->len][1];
-			s->lu[s->len - 2] ^= poly[s->len][2];
+			s->lu[s->len - 6] ^= poly[s->len][0];
+			s->lu[s->len - 5] ^= poly[s->len][1];
+			s->lu[s->len - 4] ^= poly[s->len][2];
 			s->lu[s->len - 3] ^= poly[s->len][3];
 			s->lu[s->len - 2] ^= poly[s->len][4];
 		}
@@ -346,9 +346,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu2[s->len - 4] ^= poly[s->len][0];
-			s->lu2[s->len - 3] ^= poly[s->len][1];
-			s->lu2[s->len - 2] ^= poly[s->len][2];
+			s->lu2[s->len - 6] ^= poly[s->len][0];
+			s->lu2[s->len - 5] ^= poly[s->len][1];
+			s->lu2[s->len - 4] ^= poly[s->len][2];
 			s->lu2[s->len - 3] ^= poly[s->len][3];
 			s->lu2[s->len - 2] ^= poly[s->len][4];
 		}
-- 
2.43.0


From f57753ac64f91ae0fecdbac0d9e1057f399fbe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:31 +0000
Subject: [PATCH 33/42] fix: OMAC polynomials for blocks of 33 and 207 bytes
 are irreducible

---
 lib/mac/omac.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index 6bbc77f..1a5532f 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -78,7 +78,7 @@ static const uint8_t poly[256][6] =
 	{0x00, 0x00, 0x00, 0x00, 0x01, 0x29}, /*  30 */
 	{0x00, 0x00, 0x00, 0x00, 0xC4, 0x01}, /*  31 */
 	{0x00, 0x00, 0x00, 0x00, 0x04, 0x25}, /*  32 */
-	{0x00, 0x00, 0x00, 0x00, 0x09, 0x45}, /*  33 */
+	{0x00, 0x00, 0x00, 0x00, 0x02, 0x45}, /*  33 */
 	{0x00, 0x00, 0x00, 0x00, 0x02, 0x0D}, /*  34 */
 	{0x00, 0x00, 0x00, 0x00, 0x02, 0x25}, /*  35 */
 	{0x00, 0x00, 0x00, 0x00, 0x0C, 0x03}, /*  36 */
@@ -252,7 +252,7 @@ static const uint8_t poly[256][6] =
 	{0x00, 0x00, 0x00, 0x02, 0x80, 0x09}, /* 204 */
 	{0x00, 0x00, 0x00, 0x00, 0x00, 0xA3}, /* 205 */
 	{0x00, 0x00, 0x00, 0x04, 0x20, 0x03}, /* 206 */
-	{0x00, 0x00, 0x00, 0x08, 0x81, 0x01}, /* 207 */
+	{0x00, 0x00, 0x00, 0x08, 0x84, 0x01}, /* 207 */
 	{0x00, 0x00, 0x00, 0x02, 0x02, 0x41}, /* 208 */
 	{0x00, 0x00, 0x00, 0x00, 0x00, 0x39}, /* 209 */
 	{0x00, 0x00, 0x00, 0x00, 0x08, 0x45}, /* 210 */
-- 
2.43.0


From 3fc5aab321c445b66c437757afe9ce9aa2160ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:53 +0000
Subject: [PATCH 34/42] fix: portable rotation by zero shifted by the whole
 width

---
 include/kripto/rotate.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kripto/rotate.h b/include/kripto/rotate.h
index 0b4c6cb..45dc16f 100644
--- a/include/kripto/rotate.h
+++ b/include/kripto/rotate.h
@@ -118,7 +118,7 @@ static inline uint32_t ROL32(uint32_t x, unsigned int r)
 #else
 
 	r &= 31;
-	return (x << r) | (x >> (32 - r));
+	return (x << r) | (x >> (-r & 31));
 
 #endif
 }
@@ -139,7 +139,7 @@ static inline uint32_t ROR32(uint32_t x, unsigned int r)
 #else
 
 	r &= 31;
-	return (x >> r) | (x << (32 - r));
+	return (x >> r) | (x << (-r & 31));
 
 #endif
 }
@@ -160,7 +160,7 @@ static inline uint64_t ROL64(uint64_t x, unsigned int r)
 #else
 
 	r &= 63;
-	return (x << r) | (x >> (64 - r));
+	return (x << r) | (x >> (-r & 63));
 
 #endif
 }
@@ -181,7 +181,7 @@ static inline uint64_t ROR64(uint64_t x, unsigned int r)
 #else
 
 	r &= 63;
-	return (x >> r) | (x << (64 - r));
+	return (x >> r) | (x << (-r & 63));
 
 #endif
 }
-- 
2.43.0


From b5c1a515d6c881096e45816adebdc94cf6d6ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:53 +0000
Subject: [PATCH 35/42] fix: BLAKE and BLAKE2 without salt copied from a null
 pointer

---
 lib/hash/blake256.c | 2 +-
 lib/hash/blake2b.c  | 2 +-
 lib/hash/blake2s.c  | 2 +-
 lib/hash/blake512.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/hash/blake256.c b/lib/hash/blake256.c
index 716221a..de26091 100644
--- a/lib/hash/blake256.c
+++ b/lib/hash/blake256.c
@@ -102,7 +102,7 @@ static kripto_hash *blake256_recreate
 	}
 
 	s->s[0] = s->s[1] = s->s[2] = s->s[3] = 0;
-	LOAD32B_ARRAY(salt, s->s, salt_len);
+	if(salt_len) LOAD32B_ARRAY(salt, s->s, salt_len);
 
 	return s;
 }
diff --git a/lib/hash/blake2b.c b/lib/hash/blake2b.c
index 5acb416..f83e17a 100644
--- a/lib/hash/blake2b.c
+++ b/lib/hash/blake2b.c
@@ -76,7 +76,7 @@ static kripto_hash *blake2b_recreate
 
 	s->f = s->len[0] = s->len[1] = s->i = 0;
 
-	LOAD64L_ARRAY(salt, sw, salt_len);
+	if(salt_len) LOAD64L_ARRAY(salt, sw, salt_len);
 
 	/* s->h[0] = IV[0] ^ 0x0000000001010040; */
 	s->h[0] = IV[0] ^ 0x0000000001010000 ^ out_len;
diff --git a/lib/hash/blake2s.c b/lib/hash/blake2s.c
index 54f2f4e..b1a4bb6 100644
--- a/lib/hash/blake2s.c
+++ b/lib/hash/blake2s.c
@@ -74,7 +74,7 @@ static kripto_hash *blake2s_recreate
 
 	s->f = s->len[0] = s->len[1] = s->i = 0;
 
-	LOAD32L_ARRAY(salt, sw, salt_len);
+	if(salt_len) LOAD32L_ARRAY(salt, sw, salt_len);
 
 	/* s->h[0] = IV[0] ^ 0x01010020; */
 	s->h[0] = IV[0] ^ 0x01010000 ^ out_len;
diff --git a/lib/hash/blake512.c b/lib/hash/blake512.c
index 031c07f..651f9c5 100644
--- a/lib/hash/blake512.c
+++ b/lib/hash/blake512.c
@@ -107,7 +107,7 @@ static kripto_hash *blake512_recreate
 	}
 
 	s->s[0] = s->s[1] = s->s[2] = s->s[3] = 0;
-	LOAD64B_ARRAY(salt, s->s, salt_len);
+	if(salt_len) LOAD64B_ARRAY(salt, s->s, salt_len);
 
 	return s;
 }
-- 
2.43.0


From faaba7ab0f00093c6f39067131e3a6dafe0e2ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:56 +0000
Subject: [PATCH 36/42] fix: portable ROR16 by zero overflowed int

---
 include/kripto/rotate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kripto/rotate.h b/include/kripto/rotate.h
index 45dc16f..a903f6d 100644
--- a/include/kripto/rotate.h
+++ b/include/kripto/rotate.h
@@ -97,7 +97,7 @@ static inline uint16_t ROR16(uint16_t x, unsigned int r)
 #else
 
 	r &= 15;
-	return (x >> r) | (x << (16 - r));
+	return (x >> r) | (x << (-r & 15));
 
 #endif
 }
-- 
2.43.0


From b8340f83a18ba8898e6db89e129a0b602041b240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 37/42] fix: built-in random generator leaked its MAC and freed
 itself on a failed seed

---
 lib/random.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 3f6acc1..07b0e4a 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -103,7 +103,7 @@ static int seed(kripto_random *s, uint8_t *out, unsigned int len)
 		uint8_t unassigned[4];
 	} entropy;
 
-	s->mac = kripto_mac_hmac(kripto_hash_blake2s);
+	if(!s->mac) s->mac = kripto_mac_hmac(kripto_hash_blake2s);
 	if(!s->mac) return -1;
 
 	#if defined(KRIPTO_UNIX)
@@ -158,6 +158,8 @@ static kripto_random *create(void)
 	kripto_random *s = (kripto_random *)malloc(sizeof(kripto_random));
 	if(!s) return 0;
 
+	s->mac = 0;
+
 	if(seed(s, buf, 32)) goto err;
 
 	s->stream = kripto_stream_create
@@ -171,6 +173,7 @@ static kripto_random *create(void)
 	return s;
 
 err:
+	free(s->mac);
 	free(s);
 	return 0;
 }
@@ -284,7 +287,7 @@ size_t kripto_random_gen(kripto_random *s, void *out, size_t len)
 	{
 		kripto_stream_prng(s->stream, iv, 8);
 
-		if(seed(s, buf, 32)) goto err;
+		if(seed(s, buf, 32)) return 0;
 
 		s->stream = kripto_stream_recreate
 		(
@@ -292,18 +295,13 @@ size_t kripto_random_gen(kripto_random *s, void *out, size_t len)
 			buf, 32,
 			iv, 8
 		);
-		if(!s->stream) goto err;
+		if(!s->stream) return 0;
 	}
 
 	kripto_stream_prng(s->stream, out, len);
 
 	return len;
 
-err:
-	kripto_memory_wipe(s, sizeof(kripto_random));
-	free(s);
-	return 0;
-
 	#endif
 }
 
-- 
2.43.0


From 57cc35d1ef3858554507b47d4437399e01ddeb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 38/42] fix: random source of Windows (RtlGenRandom) was never
 freed

---
 lib/random.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/random.c b/lib/random.c
index 07b0e4a..7d5acaf 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -317,6 +317,7 @@ void kripto_random_destroy(kripto_random *s)
 
 	assert(s->lib);
 	FreeLibrary(s->lib);
+	free(s);
 
 	#elif defined(KRIPTO_CRYPTGENRANDOM)
 
-- 
2.43.0


From dd6971ed4813dad6e3130090fdf47bd7f972fe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 39/42] fix: random source did not compile with
 KRIPTO_CRYPTGENRANDOM

---
 lib/random.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 7d5acaf..939a358 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -42,6 +42,9 @@ struct kripto_random
 };
 #elif defined(KRIPTO_CRYPTGENRANDOM)
 #include <wincrypt.h>
+
+/* does not compile if a pointer can not hold HCRYPTPROV */
+typedef char kripto_prov_fits[sizeof(void *) < sizeof(HCRYPTPROV) ? -1 : 1];
 #endif
 
 #else
@@ -229,9 +232,6 @@ kripto_random *kripto_random_create(void)
 	return s;
 
 	#elif defined(KRIPTO_CRYPTGENRANDOM)
-	#if sizeof(kripto_random *) < sizeof(HCRYPTPROV)
-	#error sizeof(kripto_random *) < sizeof(HCRYPTPROV)
-	#endif
 
 	HCRYPTPROV prov = 0;
 
-- 
2.43.0


From 465e79c5041197bdee00e6d3aac0ce36d0a1f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 40/42] fix: random source of Windows claimed bytes beyond 4
 GiB it did not fill

---
 lib/random.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 939a358..2d73bf3 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -87,6 +87,8 @@ struct kripto_random
 #include <string.h>
 #include <math.h>
 
+#include <kripto/cast.h>
+
 #include <kripto/random.h>
 
 #if !defined(KRIPTO_WINDOWS) && !defined(KRIPTO_UNIX)
@@ -263,14 +265,33 @@ size_t kripto_random_gen(kripto_random *s, void *out, size_t len)
 
 	#elif defined(KRIPTO_RTLGENRANDOM)
 
+	/* Windows takes 32 bit lengths */
+	size_t i;
+	size_t n;
+
 	assert(s->rtlgenrandom);
-	if(s->rtlgenrandom(out, len) == TRUE) return len;
-	return 0;
-	
+
+	for(i = 0; i < len; i += n)
+	{
+		n = len - i < 0x80000000 ? len - i : 0x80000000;
+		if(s->rtlgenrandom(U8(out) + i, (ULONG)n) != TRUE) break;
+	}
+
+	return i;
+
 	#elif defined(KRIPTO_CRYPTGENRANDOM)
 
-	if(CryptGenRandom((HCRYPTPROV)s, len, out)) return len;
-	return 0;
+	/* Windows takes 32 bit lengths */
+	size_t i;
+	size_t n;
+
+	for(i = 0; i < len; i += n)
+	{
+		n = len - i < 0x80000000 ? len - i : 0x80000000;
+		if(!CryptGenRandom((HCRYPTPROV)s, (DWORD)n, U8(out) + i)) break;
+	}
+
+	return i;
 
 	#else
 
-- 
2.43.0


From a82e75eff1e66c23b144388f3432214e677e0ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:09 +0000
Subject: [PATCH 41/42] fix: do not declare Threefish tweak functions that do
 not exist

---
 include/kripto/block/threefish1024.h | 2 --
 include/kripto/block/threefish256.h  | 2 --
 include/kripto/block/threefish512.h  | 2 --
 3 files changed, 6 deletions(-)

diff --git a/include/kripto/block/threefish1024.h b/include/kripto/block/threefish1024.h
index 5b7d466..76f02f1 100644
--- a/include/kripto/block/threefish1024.h
+++ b/include/kripto/block/threefish1024.h
@@ -3,6 +3,4 @@
 
 extern const kripto_desc_block *const kripto_block_threefish1024;
 
-extern void kripto_block_threefish1024_tweak(kripto_block *s, const void *tweak);
-
 #endif
diff --git a/include/kripto/block/threefish256.h b/include/kripto/block/threefish256.h
index 674c588..8f2f3d5 100644
--- a/include/kripto/block/threefish256.h
+++ b/include/kripto/block/threefish256.h
@@ -3,6 +3,4 @@
 
 extern const kripto_desc_block *const kripto_block_threefish256;
 
-extern void kripto_block_threefish256_tweak(kripto_block *s, const void *tweak);
-
 #endif
diff --git a/include/kripto/block/threefish512.h b/include/kripto/block/threefish512.h
index da0d1ff..e4c188e 100644
--- a/include/kripto/block/threefish512.h
+++ b/include/kripto/block/threefish512.h
@@ -3,6 +3,4 @@
 
 extern const kripto_desc_block *const kripto_block_threefish512;
 
-extern void kripto_block_threefish512_tweak(kripto_block *s, const void *tweak);
-
 #endif
-- 
2.43.0


From 05156c9e1656d80f4c3db6cefc9f60018a8f8805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:51 +0000
Subject: [PATCH 42/42] fix: byte registers for the 8-bit rotations, so that
 they assemble on i386

---
 include/kripto/rotate.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/kripto/rotate.h b/include/kripto/rotate.h
index a903f6d..6b96a19 100644
--- a/include/kripto/rotate.h
+++ b/include/kripto/rotate.h
@@ -26,7 +26,7 @@ static inline uint8_t ROL8(uint8_t x, unsigned int r)
 	__asm__
 	(
 		"rolb %%cl, %0"
-		: "=r" (x)
+		: "=q" (x)
 		: "0" (x), "c" (r)
 	);
 	return x;
@@ -47,7 +47,7 @@ static inline uint8_t ROR8(uint8_t x, unsigned int r)
 	__asm__
 	(
 		"rorb %%cl, %0"
-		: "=r" (x)
+		: "=q" (x)
 		: "0" (x), "c" (r)
 	);
 	return x;
@@ -194,7 +194,7 @@ static inline uint8_t ROL8_1(uint8_t x)
 	__asm__
 	(
 		"rolb $1, %0"
-		: "=r" (x)
+		: "=q" (x)
 		: "0" (x)
 	);
 	return x;
@@ -214,7 +214,7 @@ static inline uint8_t ROL8_2(uint8_t x)
 	__asm__
 	(
 		"rolb $2, %0"
-		: "=r" (x)
+		: "=q" (x)
 		: "0" (x)
 	);
 	return x;
@@ -234,7 +234,7 @@ static inline uint8_t ROL8_3(uint8_t x)
 	__asm__
 	(
 		"rolb $3, %0"
-		: "=r" (x)
+		: "=q" (x)
 		: "0" (x)
 	);
 	return x;
@@ -254,7 +254,7 @@ static inline uint8_t ROL8_4(uint8_t x)
 	__asm__
 	(
 		"rolb $4, %0"
-		: "=r" (x)
+		: "=q" (x)
 		: "0" (x)
 	);
 	return x;
@@ -274,7 +274,7 @@ static inline uint8_t ROL8_5(uint8_t x)
 	__asm__
 	(
 		"rolb $5, %0"
-		: "=r" (x)
+		: "=q" (x)
 		: "0" (x)
 	);
 	return x;
@@ -294,7 +294,7 @@ static inline uint8_t ROL8_6(uint8_t x)
 	__asm__
 	(
 		"rolb $6, %0"
-		: "=r" (x)
+		: "=q" (x)
 		: "0" (x)
 	);
 	return x;
@@ -314,7 +314,7 @@ static inline uint8_t ROL8_7(uint8_t x)
 	__asm__
 	(
 		"rolb $7, %0"
-		: "=r" (x)
+		: "=q" (x)
 		: "0" (x)
 	);
 	return x;
-- 
2.43.0

