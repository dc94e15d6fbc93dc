From b75c6392a5a660602cf0da5bb06b8a1788e1648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 01/11] fix: make a decoding error in the third character of a
 group final

An invalid character in that position left the stream open, so a later
block was accepted as if nothing had happened.
---
 lib/arch/generic/dec_tail.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/arch/generic/dec_tail.c b/lib/arch/generic/dec_tail.c
index e64f724..0c8adef 100644
--- a/lib/arch/generic/dec_tail.c
+++ b/lib/arch/generic/dec_tail.c
@@ -55,6 +55,7 @@
 				}
 			}
 			// If we get here, there was an error:
+			st.eof = BASE64_EOF;
 			break;
 		}
 		*o++ = st.carry | (q >> 2);
-- 
2.43.0


From ba56a62272de229f3b5ddf15089631c16d79d2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 02/11] fix: honour BASE64_FORCE_AVX512 when initialising an
 encoder

---
 lib/lib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lib.c b/lib/lib.c
index 053931a..72c4949 100644
--- a/lib/lib.c
+++ b/lib/lib.c
@@ -18,7 +18,7 @@ void
 base64_stream_encode_init (struct base64_state *state, int flags)
 {
 	// If any of the codec flags are set, redo choice:
-	if (codec.enc == NULL || flags & 0xFF) {
+	if (codec.enc == NULL || flags & 0xFFFF) {
 		codec_choose(&codec, flags);
 	}
 	state->eof = 0;
-- 
2.43.0


From dfaf489ae08d7a665a2f4cd4d9c6f67b24419e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 03/11] fix: set the output length when the forced decoder is
 not compiled in

---
 lib/codecs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/codecs.h b/lib/codecs.h
index f6af0e7..e5bb9d1 100644
--- a/lib/codecs.h
+++ b/lib/codecs.h
@@ -40,7 +40,8 @@ base64_dec_stub BASE64_DEC_PARAMS
 	(void) src;
 	(void) srclen;
 	(void) out;
-	(void) outlen;
+
+	*outlen = 0;
 
 	return -1;
 }
-- 
2.43.0


From 66ef9a8f44d9055b201493e2ea9d0c4f4d727f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 04/11] fix: declare the NEON64 encoder's round counter as
 modified by its asm

---
 lib/arch/neon64/enc_loop_asm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/arch/neon64/enc_loop_asm.c b/lib/arch/neon64/enc_loop_asm.c
index 182e9cd..0dc9809 100644
--- a/lib/arch/neon64/enc_loop_asm.c
+++ b/lib/arch/neon64/enc_loop_asm.c
@@ -144,7 +144,8 @@ enc_loop_neon64 (const uint8_t **s, size_t *slen, uint8_t **o, size_t *olen)
 		"0:  \n\t"
 
 		// Outputs (modified).
-		: [loops] "+r"  (loops),
+		: [rounds] "+r" (rounds),
+		  [loops] "+r"  (loops),
 		  [src]   "+r"  (*s),
 		  [dst]   "+r"  (*o),
 		  [t0]    "=&w" (tmp0),
@@ -153,8 +154,7 @@ enc_loop_neon64 (const uint8_t **s, size_t *slen, uint8_t **o, size_t *olen)
 		  [t3]    "=&w" (tmp3)
 
 		// Inputs (not modified).
-		: [rounds] "r" (rounds),
-		  [tbl]    "r" (base64_table_enc_6bit),
+		: [tbl]    "r" (base64_table_enc_6bit),
 		  [n63]    "w" (vdupq_n_u8(63))
 
 		// Clobbers.
-- 
2.43.0


From 24ce9f0161afd6753d563e66effe6812470ad6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 05/11] fix: treat '=' and not '"' as base64 data when ignoring
 garbage

---
 bin/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/base64.c b/bin/base64.c
index 02dcd1e..34f983d 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -376,7 +376,7 @@ find_garbage (const char *p, const size_t avail)
 		['z'] = 1,
 		['0'] = 1, ['1'] = 1, ['2'] = 1, ['3'] = 1, ['4'] = 1,
 		['5'] = 1, ['6'] = 1, ['7'] = 1, ['8'] = 1, ['9'] = 1,
-		['+'] = 1, ['/'] = 1, ['"'] = 1,
+		['+'] = 1, ['/'] = 1, ['='] = 1,
 	};
 
 	for (size_t len = 0; len < avail; len++) {
-- 
2.43.0


From 45d3efb604ab393688a884539bf1932efef7c18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 06/11] fix: report truncated base64 input as a decoding error

---
 bin/base64.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/base64.c b/bin/base64.c
index 34f983d..b34f528 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -478,6 +478,13 @@ decode (const struct config *config, struct buffer *buf)
 		return false;
 	}
 
+	// The input must not end inside a group of four characters.
+	if (state.bytes != 0) {
+		fprintf(stderr, "%s: %s: decoding error\n",
+		        config->name, config->file);
+		return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From 866f284fa2c1618131e5247c2139fca8ee3ac9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 07/11] fix: set the output length when OpenMP decoding fails

---
 lib/lib_openmp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index 6b87c52..3727247 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -125,12 +125,14 @@ base64_decode_openmp
 	// If `result' equals `-num_threads', then all threads returned -1,
 	// indicating that the requested codec is not available:
 	if (result == -num_threads) {
+		*outlen = 0;
 		return -1;
 	}
 
 	// If `result' does not equal `num_threads', then at least one of the
 	// threads hit a decode error:
 	if (result != num_threads) {
+		*outlen = 0;
 		return 0;
 	}
 
-- 
2.43.0


From b54b1dcecda6757e2d437336f1b06644965a5c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 08/11] fix: reject padding inside the input when decoding with
 OpenMP

---
 lib/lib_openmp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index 3727247..bf33378 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -117,6 +117,11 @@ base64_decode_openmp
 
 			// Feed each part of the string to the stream reader:
 			this_result = base64_stream_decode(&state, src + i * len, len, out + i * len * 3 / 4, &s);
+
+			// Padding is valid only at the very end of the input:
+			if (state.eof && (i < num_threads - 1 || last_len > 0)) {
+				this_result = 0;
+			}
 			sum += s;
 			result += this_result;
 		}
-- 
2.43.0


From 9a44b3466a078b1b0a2d9a85f78bdffdba74964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 09/11] fix: avoid overflow of OpenMP output offsets on 32-bit
 systems

---
 lib/lib_openmp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index bf33378..e394e59 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -53,7 +53,7 @@ base64_encode_openmp
 		for (i = 0; i < num_threads; i++)
 		{
 			// Feed each part of the string to the stream reader:
-			base64_stream_encode(&state, src + i * len, len, out + i * len * 4 / 3, &s);
+			base64_stream_encode(&state, src + i * len, len, out + i * (len / 3) * 4, &s);
 			sum += s;
 		}
 	}
@@ -63,10 +63,10 @@ base64_encode_openmp
 	state = initial_state;
 
 	// Encode the remaining bytes:
-	base64_stream_encode(&state, src + num_threads * len, last_len, out + num_threads * len * 4 / 3, &s);
+	base64_stream_encode(&state, src + num_threads * len, last_len, out + num_threads * (len / 3) * 4, &s);
 
 	// Finalize the stream by writing trailer if any:
-	base64_stream_encode_final(&state, out + num_threads * len * 4 / 3 + s, &t);
+	base64_stream_encode_final(&state, out + num_threads * (len / 3) * 4 + s, &t);
 
 	// Final output length is stream length plus tail:
 	sum += s + t;
@@ -116,7 +116,7 @@ base64_decode_openmp
 			int this_result;
 
 			// Feed each part of the string to the stream reader:
-			this_result = base64_stream_decode(&state, src + i * len, len, out + i * len * 3 / 4, &s);
+			this_result = base64_stream_decode(&state, src + i * len, len, out + i * (len / 4) * 3, &s);
 
 			// Padding is valid only at the very end of the input:
 			if (state.eof && (i < num_threads - 1 || last_len > 0)) {
@@ -144,7 +144,7 @@ base64_decode_openmp
 	// So far so good, now decode whatever remains in the buffer. Reuse the
 	// initial state, since we are at a 4-byte boundary:
 	state = initial_state;
-	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * len * 3 / 4, &s);
+	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * (len / 4) * 3, &s);
 	sum += s;
 	*outlen = sum;
 
-- 
2.43.0


From 1613d21c20c589b68d961c7d6cec1889be67fb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 10/11] fix: reject wrap widths that are out of range

---
 bin/base64.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bin/base64.c b/bin/base64.c
index b34f528..c05e842 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -522,8 +522,14 @@ get_wrap (struct config *config, const char *str)
 	}
 
 	// Convert the input string to a signed long.
+	errno = 0;
 	const long wrap = strtol(str, &eptr, 10);
 
+	// Reject numbers that are out of range.
+	if (errno == ERANGE) {
+		return false;
+	}
+
 	// Reject negative numbers.
 	if (wrap < 0) {
 		return false;
-- 
2.43.0


From ae11a4c4f51c6bfdd2080fc944532210405f33d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 11/11] fix: report a failure to print the help text

---
 bin/base64.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/base64.c b/bin/base64.c
index c05e842..18923e5 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -654,7 +654,9 @@ main (int argc, char **argv)
 	// Return early if the user just wanted the help text.
 	if (config.print_help) {
 		usage(stdout, &config);
-		return 0;
+
+		// Fail if the text could not be written.
+		return (fflush(stdout) == 0 && !ferror(stdout)) ? 0 : 1;
 	}
 
 	// Allocate buffers.
-- 
2.43.0

