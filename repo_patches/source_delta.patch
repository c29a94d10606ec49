From bfb0316e9604be517ac90b4e6f6903b3ee5103cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 01/12] fix: end the decode stream on an invalid third
 character

A decode error at the third character of a quad returned 0 without marking
the stream as ended, unlike an error at any of the other positions. A next
call would resume decoding past the invalid character and report success.
---
 lib/arch/generic/dec_tail.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/arch/generic/dec_tail.c b/lib/arch/generic/dec_tail.c
index e64f724..0c8adef 100644
--- a/lib/arch/generic/dec_tail.c
+++ b/lib/arch/generic/dec_tail.c
@@ -55,6 +55,7 @@
 				}
 			}
 			// If we get here, there was an error:
+			st.eof = BASE64_EOF;
 			break;
 		}
 		*o++ = st.carry | (q >> 2);
-- 
2.43.0


From 3ae1f1c7cd5a6981127b36adc55d30cb530f8f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 02/12] fix: do not treat '=' as garbage and '"' as base64 in
 the utility

The lookup table for --ignore-garbage listed the double quote where the
padding character was meant, so that padding was stripped as garbage and a
double quote in the input caused a decoding error.
---
 bin/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/base64.c b/bin/base64.c
index 02dcd1e..34f983d 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -376,7 +376,7 @@ find_garbage (const char *p, const size_t avail)
 		['z'] = 1,
 		['0'] = 1, ['1'] = 1, ['2'] = 1, ['3'] = 1, ['4'] = 1,
 		['5'] = 1, ['6'] = 1, ['7'] = 1, ['8'] = 1, ['9'] = 1,
-		['+'] = 1, ['/'] = 1, ['"'] = 1,
+		['+'] = 1, ['/'] = 1, ['='] = 1,
 	};
 
 	for (size_t len = 0; len < avail; len++) {
-- 
2.43.0


From a89b49dc406614d594ae1ab1580e6877d73f9baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 03/12] fix: fail when the utility decodes a truncated input

An input that stops in the middle of a group of four characters was decoded
as far as possible and then reported as success.
---
 bin/base64.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bin/base64.c b/bin/base64.c
index 34f983d..1b2572b 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -478,6 +478,13 @@ decode (const struct config *config, struct buffer *buf)
 		return false;
 	}
 
+	// The input must not end in the middle of a group of four characters.
+	if (state.bytes != 0) {
+		fprintf(stderr, "%s: %s: decoding error\n",
+		        config->name, config->file);
+		return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From 702a33758795ba204267427589443203bb212ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 04/12] fix: set outlen when a decoder is not compiled in

A call to decode with a codec that is not compiled in returned -1 and left
the output length uninitialized.
---
 lib/codecs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/codecs.h b/lib/codecs.h
index f6af0e7..4de3f42 100644
--- a/lib/codecs.h
+++ b/lib/codecs.h
@@ -40,8 +40,8 @@ base64_dec_stub BASE64_DEC_PARAMS
 	(void) src;
 	(void) srclen;
 	(void) out;
-	(void) outlen;
 
+	*outlen = 0;
 	return -1;
 }
 
-- 
2.43.0


From 06baa7edb8129961b67ccff9dbeb58417181d017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 05/12] fix: let the codec flags apply only to the stream they
 are given to

A codec that was forced with a flag replaced the library's default codec, so
that it was also used by all other streams, in all threads, and by all later
calls with a flags argument of zero. If that codec was not compiled in, the
later calls would even silently encode to nothing. Encoding also ignored the
flag for AVX512 once a codec had been chosen.
---
 lib/lib.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/lib/lib.c b/lib/lib.c
index 053931a..82df423 100644
--- a/lib/lib.c
+++ b/lib/lib.c
@@ -12,14 +12,19 @@
 // These static function pointers are initialized once when the library is
 // first used, and remain in use for the remaining lifetime of the program.
 // The idea being that CPU features don't change at runtime.
+// This is the default codec only: a stream that was initialized with any of the
+// codec flags uses the codec that it asked for, and does not affect others.
 static struct codec codec = { NULL, NULL };
 
+// The flags that select a specific codec:
+#define CODEC_FLAGS 0xFFFF
+
 void
 base64_stream_encode_init (struct base64_state *state, int flags)
 {
-	// If any of the codec flags are set, redo choice:
-	if (codec.enc == NULL || flags & 0xFF) {
-		codec_choose(&codec, flags);
+	// Choose the default codec on first use:
+	if (codec.enc == NULL) {
+		codec_choose(&codec, 0);
 	}
 	state->eof = 0;
 	state->bytes = 0;
@@ -36,6 +41,14 @@ base64_stream_encode
 	, size_t		*outlen
 	)
 {
+	// If any of the codec flags are set, use that codec for this stream:
+	if (state->flags & CODEC_FLAGS) {
+		struct codec forced;
+
+		codec_choose(&forced, state->flags);
+		forced.enc(state, src, srclen, out, outlen);
+		return;
+	}
 	codec.enc(state, src, srclen, out, outlen);
 }
 
@@ -67,9 +80,9 @@ base64_stream_encode_final
 void
 base64_stream_decode_init (struct base64_state *state, int flags)
 {
-	// If any of the codec flags are set, redo choice:
-	if (codec.dec == NULL || flags & 0xFFFF) {
-		codec_choose(&codec, flags);
+	// Choose the default codec on first use:
+	if (codec.dec == NULL) {
+		codec_choose(&codec, 0);
 	}
 	state->eof = 0;
 	state->bytes = 0;
@@ -86,6 +99,13 @@ base64_stream_decode
 	, size_t		*outlen
 	)
 {
+	// If any of the codec flags are set, use that codec for this stream:
+	if (state->flags & CODEC_FLAGS) {
+		struct codec forced;
+
+		codec_choose(&forced, state->flags);
+		return forced.dec(state, src, srclen, out, outlen);
+	}
 	return codec.dec(state, src, srclen, out, outlen);
 }
 
-- 
2.43.0


From 60c2df83d51a10103f62cd98557cc5e2959cc909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 06/12] fix: avoid overflow in the output offsets of the OpenMP
 codecs

Multiplying before dividing overflows a 32-bit size_t for inputs larger than
a gigabyte, so that parts of the output were written to the wrong place.
---
 lib/lib_openmp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index 6b87c52..12e20e9 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -53,7 +53,7 @@ base64_encode_openmp
 		for (i = 0; i < num_threads; i++)
 		{
 			// Feed each part of the string to the stream reader:
-			base64_stream_encode(&state, src + i * len, len, out + i * len * 4 / 3, &s);
+			base64_stream_encode(&state, src + i * len, len, out + i * (len / 3 * 4), &s);
 			sum += s;
 		}
 	}
@@ -63,10 +63,10 @@ base64_encode_openmp
 	state = initial_state;
 
 	// Encode the remaining bytes:
-	base64_stream_encode(&state, src + num_threads * len, last_len, out + num_threads * len * 4 / 3, &s);
+	base64_stream_encode(&state, src + num_threads * len, last_len, out + num_threads * (len / 3 * 4), &s);
 
 	// Finalize the stream by writing trailer if any:
-	base64_stream_encode_final(&state, out + num_threads * len * 4 / 3 + s, &t);
+	base64_stream_encode_final(&state, out + num_threads * (len / 3 * 4) + s, &t);
 
 	// Final output length is stream length plus tail:
 	sum += s + t;
@@ -116,7 +116,7 @@ base64_decode_openmp
 			int this_result;
 
 			// Feed each part of the string to the stream reader:
-			this_result = base64_stream_decode(&state, src + i * len, len, out + i * len * 3 / 4, &s);
+			this_result = base64_stream_decode(&state, src + i * len, len, out + i * (len / 4 * 3), &s);
 			sum += s;
 			result += this_result;
 		}
@@ -137,7 +137,7 @@ base64_decode_openmp
 	// So far so good, now decode whatever remains in the buffer. Reuse the
 	// initial state, since we are at a 4-byte boundary:
 	state = initial_state;
-	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * len * 3 / 4, &s);
+	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * (len / 4 * 3), &s);
 	sum += s;
 	*outlen = sum;
 
-- 
2.43.0


From e46e9fcb6f69dc49078646a4216429648cee6da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 07/12] fix: reject padding inside the input of the OpenMP
 decoder

Padding characters that happened to end the part of a thread were accepted as
the end of the stream, although more input followed. Also, the output length
was not set if there was an error.
---
 lib/lib_openmp.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index 12e20e9..839b428 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -117,6 +117,11 @@ base64_decode_openmp
 
 			// Feed each part of the string to the stream reader:
 			this_result = base64_stream_decode(&state, src + i * len, len, out + i * (len / 4 * 3), &s);
+			// Padding ends the stream, so it is an error if it is
+			// not at the very end of the input:
+			if (this_result == 1 && state.eof && (i + 1) * len != srclen) {
+				this_result = 0;
+			}
 			sum += s;
 			result += this_result;
 		}
@@ -125,13 +130,17 @@ base64_decode_openmp
 	// If `result' equals `-num_threads', then all threads returned -1,
 	// indicating that the requested codec is not available:
 	if (result == -num_threads) {
+		*outlen = 0;
 		return -1;
 	}
 
 	// If `result' does not equal `num_threads', then at least one of the
-	// threads hit a decode error:
+	// threads hit a decode error. Decode again without splitting the input
+	// to get the same output as the single-threaded decoder:
 	if (result != num_threads) {
-		return 0;
+		num_threads = 0;
+		last_len = srclen;
+		sum = 0;
 	}
 
 	// So far so good, now decode whatever remains in the buffer. Reuse the
-- 
2.43.0


From 683d7679aa185e591829e3a4aa603be5ea204b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 08/12] hook: let BASE64_VERIF_RAW_SIZE set the buffer size of
 the utility

---
 bin/base64.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bin/base64.c b/bin/base64.c
index 1b2572b..a4bf1de 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -37,8 +37,13 @@
 
 #include "../include/libbase64.h"
 
-// Size of the buffer for the "raw" (not base64-encoded) data in bytes.
-#define BUFFER_RAW_SIZE (1024 * 1024)
+// Size of the buffer for the "raw" (not base64-encoded) data in bytes. The
+// verification harness can make it small.
+#ifdef BASE64_VERIF_RAW_SIZE
+#  define BUFFER_RAW_SIZE BASE64_VERIF_RAW_SIZE
+#else
+#  define BUFFER_RAW_SIZE (1024 * 1024)
+#endif
 
 // Size of the buffer for the base64-encoded data in bytes. The base64-encoded
 // data is 4/3 the size of the input, with some margin to be sure.
-- 
2.43.0


From ca282042057949c4c5f9a6c9bc76aaaa18ff126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 09/12] fix: emulated writev() loses what was written before an
 error

The emulation returned -1 if a later vector failed, so that the caller wrote
the earlier vectors again when it retried after an EINTR. Like the real
writev(2), report the bytes that were written and let the next call fail.
---
 bin/base64.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bin/base64.c b/bin/base64.c
index a4bf1de..6ec2f65 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -115,12 +115,11 @@ writev (const int fd, const struct iovec *iov, int iovcnt)
 
 	while (iovcnt-- > 0) {
 
-		// Write the vector; propagate errors back to the caller. Note
-		// that this loses information about how much vectors have been
-		// successfully written, but that also seems to be the case
-		// with the real function. The API is somewhat flawed.
+		// Write the vector. Like the real function, report an error
+		// only if nothing has been written; the caller would write
+		// everything again when it retries after an EINTR otherwise.
 		if ((r = write(fd, iov->iov_base, iov->iov_len)) < 0) {
-			return r;
+			return nwrite > 0 ? nwrite : r;
 		}
 
 		// Update the total write count.
-- 
2.43.0


From ee2d36ea2f7b1382912562ec68e53b2ebd5c3a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 10/12] fix: do not shift a bit into the sign of an int

bit_AVX512vl is bit 31 of a register. (1 << 31) is undefined behaviour in C99
(6.5.7, paragraph 4) and makes a build with -fsanitize=undefined stop in every
call that detects the CPU.
---
 lib/codec_choose.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/codec_choose.c b/lib/codec_choose.c
index a98b947..b5b7f0c 100644
--- a/lib/codec_choose.c
+++ b/lib/codec_choose.c
@@ -47,7 +47,7 @@
 #endif
 
 #ifndef bit_AVX512vl
-#define bit_AVX512vl (1 << 31)
+#define bit_AVX512vl (1U << 31)
 #endif
 #ifndef bit_AVX512vbmi
 #define bit_AVX512vbmi (1 << 1)
-- 
2.43.0


From 82b01948259b05178beda780e29194f6da030bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:03 +0000
Subject: [PATCH 11/12] fix: read files of 2 GiB and more on 32-bit platforms

---
 bin/base64.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bin/base64.c b/bin/base64.c
index 6ec2f65..7d461d7 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -1,3 +1,8 @@
+// Allow files of 2 GB and more on 32-bit platforms.
+#ifndef _FILE_OFFSET_BITS
+#  define _FILE_OFFSET_BITS 64
+#endif
+
 // Test for MinGW.
 #if defined(__MINGW32__) || defined(__MINGW64__)
 #  define MINGW
-- 
2.43.0


From e3ab7ae217bbd39278841ea8704497bdf7da2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:23 +0000
Subject: [PATCH 12/12] fix: Makefile: i686: do not localize the PC thunks of
 position-independent code

On i686, GCC puts the __x86.get_pc_thunk.* helpers of position-independent
code in COMDAT groups. Once objcopy has made these symbols local, a link with
any other object that has the same group (bin/base64.o, for one) discards the
group in libbase64.o and fails: 'defined in discarded section'. Keep them
global (they are hidden and stay within the linked image). On other targets
the names do not occur, and have no effect.
---
 lib/exports.txt | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/exports.txt b/lib/exports.txt
index 67d4558..6db0251 100644
--- a/lib/exports.txt
+++ b/lib/exports.txt
@@ -5,3 +5,10 @@ base64_stream_encode_final
 base64_decode
 base64_stream_decode
 base64_stream_decode_init
+__x86.get_pc_thunk.ax
+__x86.get_pc_thunk.bx
+__x86.get_pc_thunk.cx
+__x86.get_pc_thunk.dx
+__x86.get_pc_thunk.si
+__x86.get_pc_thunk.di
+__x86.get_pc_thunk.bp
-- 
2.43.0

