From 6e98ce684f2d94879f6db314dc195def3306330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 001/143] fix: serialise c, C, u and U atoms from their own
 union member; don't fall through for short buffers

---
 osc_atom_u.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index d07407b..d4cd3bd 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1355,7 +1355,15 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 		if(!buf){
 			return 4;
 		}else if(n >= 4){
-			int32_t i = a->w.i;
+			int32_t i;
+			switch(osc_atom_u_getTypetag(a)){
+			// only part of the union is written for the small integer types
+			case 'c': i = a->w.c; break;
+			case 'C': i = a->w.C; break;
+			case 'u': i = a->w.u; break;
+			case 'U': i = a->w.U; break;
+			default: i = a->w.i; break;
+			}
 			*((int32_t *)buf) = hton32(i);
 			return 4;
 		}
@@ -1401,6 +1409,7 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 				return osc_bundle_u_nserialize(buf + 4, len, a->w.bndl) + 4;
 			}
 		}
+		break;
 	case OSC_TIMETAG_TYPETAG:
 		if(!buf){
 			return OSC_TIMETAG_SIZEOF;
-- 
2.43.0


From cc7e412a4e46da5cba82b2dc547e4974b937d317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:06 +0000
Subject: [PATCH 002/143] fix: refuse negative argument indexes

---
 osc_message_s.c | 4 ++--
 osc_message_u.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index 049e69d..66ccce8 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -214,7 +214,7 @@ char *osc_message_s_getPtr(t_osc_msg_s *m){
 char osc_message_s_getTypetag(t_osc_msg_s *m, int n){
 #ifdef OSC_MESSAGE_S_CAREFUL
 	int nn = osc_message_s_getArgCount(m);
-	if(nn <= n){
+	if(n < 0 || nn <= n){
 		return 0;
 	}
 #endif
@@ -224,7 +224,7 @@ char osc_message_s_getTypetag(t_osc_msg_s *m, int n){
 void osc_message_s_getArg(t_osc_msg_s *m, int n, t_osc_atom_s **atom){
 #ifdef OSC_MESSAGE_S_CAREFUL
 	int nn = osc_message_s_getArgCount(m);
-	if(nn <= n){
+	if(n < 0 || nn <= n){
 		return;
 	}
 #endif
diff --git a/osc_message_u.c b/osc_message_u.c
index 15994ac..cf2adb3 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -215,7 +215,7 @@ t_osc_atom_u *osc_message_u_getArg(t_osc_msg_u *m, int n)
 		return NULL;
 	}
 	int nn = osc_message_u_getArgCount(m);
-	if(nn <= n){
+	if(n < 0 || nn <= n){
 		return NULL;
 	}
 	if(n == 0){
-- 
2.43.0


From a069860444b65fc9c54d43c6bcb4db665883b0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:15 +0000
Subject: [PATCH 003/143] fix: wrapping new bytes invalidates the data pointer
 and cached offsets of a message

---
 osc_message_s.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/osc_message_s.c b/osc_message_s.c
index 66ccce8..db957e0 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -93,6 +93,8 @@ t_osc_err osc_message_s_wrap(t_osc_msg_s *m, char *bytes)
 	}
 	int32_t len = ntoh32(*((int32_t *)bytes));
 	m->size = bytes;
+	m->data = NULL;
+	m->cache_size = 0; // offsets cached for other bytes are no longer valid
 	char *address = m->address = bytes + 4;
 	/*
 	if(!(m->address)){
@@ -254,6 +256,12 @@ void osc_message_s_getArg(t_osc_msg_s *m, int n, t_osc_atom_s **atom){
 t_osc_err osc_message_s_cacheDataOffsets(t_osc_msg_s *m)
 {
 	int n = osc_message_s_getArgCount(m);
+	if(m->data_offset_cache){
+		osc_mem_free(m->data_offset_cache);
+	}
+	if(m->data_size_cache){
+		osc_mem_free(m->data_size_cache);
+	}
 	m->data_offset_cache = (int *)osc_mem_alloc(n * sizeof(int));
 	m->data_size_cache = (int *)osc_mem_alloc(n * sizeof(int));
 	m->cache_buf_size = n;
-- 
2.43.0


From b238fccc48076308948141f3df8c564e3fbdf80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 004/143] fix: don't leak the iterator when a bundle does not
 fit its header

---
 osc_bundle_u.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 3234705..7aa9c35 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -626,6 +626,7 @@ size_t osc_bundle_u_nserialize(char *buf, size_t n, t_osc_bndl_u *b)
 		}
 	}else{
 		if(n < OSC_HEADER_SIZE){
+			osc_bndl_it_u_destroy(it);
 			return 0;
 		}
 		memcpy(buf, OSC_EMPTY_HEADER, OSC_HEADER_SIZE);
-- 
2.43.0


From d0b8af6007809ff09d3da7c253f2b64493627005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 005/143] fix: re-used, copied and array-held atoms release
 their string and blob contents

---
 osc_atom_array_u.c | 4 ++++
 osc_atom_u.c       | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index f4f1adc..8064ca7 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -52,6 +52,10 @@ void osc_atom_array_u_free(t_osc_atom_ar_u *ar)
 				if(a->w.bndl){
 					osc_bundle_u_free(a->w.bndl);
 				}
+			}else if(a->alloc && a->typetag == 'b'){
+				if(a->w.b){
+					osc_mem_free(a->w.b);
+				}
 			}
 		}
 		osc_array_free(ar);
diff --git a/osc_atom_u.c b/osc_atom_u.c
index d4cd3bd..d77825d 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -81,9 +81,10 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
 	}
 	aa->next = aa->prev = NULL;
 	aa->typetag = src->typetag;
-	aa->alloc = src->alloc;
+	aa->alloc = 0;
 	switch(aa->typetag){
         case 's':
+            aa->alloc = 1;
             aa->w.s = osc_mem_alloc(strlen(src->w.s) + 1);
             strcpy(aa->w.s, src->w.s);
         break;
@@ -97,6 +98,7 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
         int32_t size = osc_util_getPaddingForNBytes(len);
         aa->w.s = osc_mem_alloc(size + 4);
         memcpy(aa->w.b, src->w.b, len + 4);
+        aa->alloc = 1;
     }
         break;
         default:
@@ -134,7 +136,7 @@ void osc_atom_u_clear(t_osc_atom_u *a)
 		osc_bundle_u_free(a->w.bndl);
 		a->w.bndl = NULL;
 	}else if(a->alloc && a->typetag == 'b' && a->w.b){
-        osc_bundle_u_free(a->w.b);
+        osc_mem_free(a->w.b);
         a->w.b = NULL;
     }
 	a->alloc = 0;
@@ -1118,9 +1120,11 @@ void osc_atom_u_setString(t_osc_atom_u *a, const char *v)
 			a->w.s = osc_mem_resize(a->w.s, len);
 			strncpy(a->w.s, v, len);
 		}else{
+			osc_mem_free(a->w.s);
 			a->w.s = NULL;
 		}
 	}else{
+		osc_atom_u_clear(a);
 		if(v){
 			a->w.s = osc_mem_alloc(strlen(v) + 1);
 			strcpy(a->w.s, v);
@@ -1237,6 +1241,7 @@ void osc_atom_u_setBlob(t_osc_atom_u *a, char *blob)
 	memcpy(copy, blob, l + 4);
 	a->w.b = copy;
 	a->typetag = 'b';
+	a->alloc = 1;
 }
 
 void osc_atom_u_setBlobPtr(t_osc_atom_u *a, char *blob)
-- 
2.43.0


From 2eedd5d6106b0f0c6b8b128d86219f55ad1a427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:35 +0000
Subject: [PATCH 006/143] fix: serialised integer getters sign-extend and read
 c, C, u and U as 4-byte integers

---
 osc_atom_s.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index f6c2cfb..a58760a 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -230,7 +230,7 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return ntoh32(*((int32_t *)(a->data)));
+		return (int64_t)((int32_t)ntoh32(*((int32_t *)(a->data))));
 	case 'd': // 64-bit IEEE 754 double
 		{
 			uint64_t i = ntoh64(*((uint64_t *)(a->data)));
@@ -241,10 +241,10 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
 			return (int64_t)(*((float *)&i));
 		}
-	case 'I': // unsigned 32-bit int
-		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'C':
 	case 'U':
+	case 'I': // unsigned 32-bit int
+		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'H': // unsigned 64-bit int
 		return (int64_t)(ntoh64(*((uint64_t *)(a->data))));
 	case 's': // string
@@ -325,7 +325,7 @@ uint64_t osc_atom_s_getUInt64(t_osc_atom_s *a){
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return (uint64_t)(ntoh32(*((int32_t *)(a->data))));
+		return (uint64_t)((int32_t)ntoh32(*((int32_t *)(a->data))));
 	case 'h': // signed 64-bit int
 		return (uint64_t)(ntoh64(*((int64_t *)(a->data))));
 	case 'C':
@@ -363,10 +363,10 @@ int osc_atom_s_getInt(t_osc_atom_s *a)
 		return 0;
 	}
 	switch(a->typetag){
-	case 'i': // signed 32-bit int
-		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'c':
 	case 'u':
+	case 'i': // signed 32-bit int
+		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'f': // 32-bit IEEE 754 float
 		{
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
-- 
2.43.0


From d427d95aaa49c188a19acfc0c0d9ebef13050353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:12 +0000
Subject: [PATCH 007/143] fix: blob copies read and write only the bytes that
 are there

---
 osc_atom_s.c | 9 +++++++--
 osc_atom_u.c | 8 +++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index a58760a..6ba8833 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -697,13 +697,18 @@ t_osc_err osc_atom_s_getBlobCopy(char **blob, int32_t *buflen, t_osc_atom_s *a)
 		*buflen += 4;
 		*blob = osc_mem_alloc(*buflen);
 	}
+	memset(*blob, '\0', *buflen);
 	switch(osc_atom_s_getTypetag(a)){
 	case 'b':
-		memcpy(*blob, a->data, *buflen);
+		if(a->data){
+			memcpy(*blob, a->data, *buflen < bloblen + 4 ? *buflen : bloblen + 4);
+		}
 		break;
 	default:
 		*((int32_t *)(*blob)) = hton32(bloblen);
-		memcpy((*blob) + 4, a->data, *buflen);
+		if(a->data){
+			memcpy((*blob) + 4, a->data, *buflen - 4 < bloblen ? *buflen - 4 : bloblen);
+		}
 	}
 	return OSC_ERR_NONE;
 }
diff --git a/osc_atom_u.c b/osc_atom_u.c
index d77825d..64ed404 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -943,7 +943,9 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	memset(*blob, '\0', *buflen);
 	switch(osc_atom_u_getTypetag(a)){
 	case 'b':
-		memcpy(*blob, a->w.b, *buflen);
+		if(a->w.b){
+			memcpy(*blob, a->w.b, *buflen < bloblen + 4 ? *buflen : bloblen + 4);
+		}
 		break;
 	case 'c':
 	case 'C':
@@ -963,7 +965,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	case 'h':
 	case 'H':
 		{
-			int64_t i = a->w.i;
+			int64_t i = a->w.h;
 			*((int32_t *)(*blob)) = hton32(8);
 			*((int64_t *)((*blob) + 4)) = hton64(i);
 		}
@@ -986,7 +988,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 		{
 			*((int32_t *)(*blob)) = hton32(*buflen - 4);
 			char *p = (*blob) + 4;
-			osc_atom_u_getString(a, *buflen, &p);
+			osc_atom_u_getString(a, *buflen - 4, &p);
 		}
 		break;
 	case OSC_BUNDLE_TYPETAG:
-- 
2.43.0


From 579f2171a14edf21e935a8053787ff98b1c085e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:52 +0000
Subject: [PATCH 008/143] fix: an 8-byte blob read as UInt64 uses all eight
 bytes

---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 64ed404..311b622 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -646,7 +646,7 @@ uint64_t osc_atom_u_getUInt64(t_osc_atom_u *a){
 			char *blob = a->w.b;
 			int32_t len = ntoh32(*((int32_t *)blob));
 			if(len == 8){
-				return ntoh32(*((uint32_t *)(blob + 4)));
+				return ntoh64(*((uint64_t *)(blob + 4)));
 			}
 		}
 	}
-- 
2.43.0


From 89d3d8665a72c76f6628d04891dbebbdd2304871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 009/143] fix: the bundle sanity check stays inside its buffer
 and does not overflow on large sizes

---
 osc_error.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/osc_error.c b/osc_error.c
index 0d0df92..e62406d 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -149,11 +149,14 @@ t_osc_err osc_error_bundleSanityCheck(int len, char *bundle)
 	int cumsize = OSC_HEADER_SIZE;
 	while((ptr - bundle) < len){
 		cumsize += 4; // msg size
-		int size = ntoh32(*((uint32_t *)ptr));
-		cumsize += size;
 		if(cumsize > len){
 			return OSC_ERR_MSGTOOLARGE;
 		}
+		int size = ntoh32(*((uint32_t *)ptr));
+		if(size > len - cumsize){
+			return OSC_ERR_MSGTOOLARGE;
+		}
+		cumsize += size;
 		int ret;
 		if((ret = osc_error_msgSanityCheck(ptr))){
 			return ret;
-- 
2.43.0


From 5479d78c023ac2f3cfc66f7e98f5bdff6a6ee637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 010/143] fix: error text is not used as a format and stays
 inside its buffer

---
 osc_error.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/osc_error.c b/osc_error.c
index e62406d..82048ee 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -51,29 +51,32 @@ int osc_error_handler(void *context,
         
 		int buflen = MAX_ERR_STRING_LEN;
 		char buf[buflen];
-		char *pos = buf;
+		int pos = 0;
+		buf[0] = '\0';
+		// snprintf() returns the untruncated length, so pos can run past the end of buf
+#define OSC_ERROR_LEFT (pos < buflen ? buflen - pos : 0)
+#define OSC_ERROR_POS (buf + (pos < buflen ? pos : buflen - 1))
 		if(filename){
-			pos += snprintf(pos, buflen, "%s:\n", filename);
+			pos += snprintf(OSC_ERROR_POS, OSC_ERROR_LEFT, "%s:\n", filename);
 		}
 		if(functionname){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%s(): ", functionname);
+			pos += snprintf(OSC_ERROR_POS, OSC_ERROR_LEFT, "%s(): ", functionname);
 		}
 		if(linenum > 0){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%d: ", linenum);
+			pos += snprintf(OSC_ERROR_POS, OSC_ERROR_LEFT, "%d: ", linenum);
 		}
 		if(errorcode){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%s: \n", osc_error_string(errorcode));
+			pos += snprintf(OSC_ERROR_POS, OSC_ERROR_LEFT, "%s: \n", osc_error_string(errorcode));
 		}
 		if(moreinfo_fmt){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%s", moreinfo_fmt);
+			va_list ap;
+			va_start(ap, moreinfo_fmt);
+			pos += vsnprintf(OSC_ERROR_POS, OSC_ERROR_LEFT, moreinfo_fmt, ap);
+			va_end(ap);
 		}
-		va_list ap;
-		va_start(ap, moreinfo_fmt);
-		char newbuf[buflen];
-		pos = newbuf;
-		pos += vsnprintf(newbuf, (buflen - (pos - newbuf)), buf, ap);
-		va_end(ap);
-		return _osc_error_handler(context, newbuf);
+#undef OSC_ERROR_LEFT
+#undef OSC_ERROR_POS
+		return _osc_error_handler(context, buf);
 	}
 	return 0;
 }
-- 
2.43.0


From 22045c2fee251eaedc78099f540d7225ee34f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:42 +0000
Subject: [PATCH 011/143] fix: the message sanity check requires a terminated
 address and terminated typetags

---
 osc_error.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/osc_error.c b/osc_error.c
index 82048ee..62fbba6 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -28,6 +28,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_mem.h"
 #include "osc_bundle_s.h"
 #include "osc_byteorder.h"
+#include "osc_util.h"
 
 int osc_error_defaultHandler(void *context, const char * const errorstr)
 {
@@ -178,6 +179,16 @@ t_osc_err osc_error_msgSanityCheck(char *msg)
 	if(*(msg + 4) != '/'){
 		return OSC_ERR_MALFORMEDADDRESS;
 	}
+	// the address and the typetags have to end inside the message
+	char *end = msg + 4 + size;
+	char *ptr = memchr(msg + 4, '\0', size);
+	if(!ptr){
+		return OSC_ERR_MALFORMEDADDRESS;
+	}
+	ptr = msg + 4 + osc_util_getPaddingForNBytes(ptr - (msg + 4));
+	if(ptr < end && !memchr(ptr, '\0', end - ptr)){
+		return OSC_ERR_MALFORMEDMSG;
+	}
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From 447ce05112dbacfda8c0e42ddf40cd51c594c9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 012/143] fix: negative array indexes are out of range

---
 osc_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_array.c b/osc_array.c
index 65dce79..3b74547 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -72,7 +72,7 @@ void *osc_array_get(t_osc_array *ar, long idx){
 	if(!ar){
 		return NULL;
 	}
-	if(ar->len <= idx){
+	if(idx < 0 || ar->len <= idx){
 		return NULL;
 	}
 	return ar->ar + (idx * ar->membersize);
-- 
2.43.0


From d569d1fe43c7b5c629c1beff0f4612001688c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 013/143] fix: copying into an array grows the destination when
 it is too short

---
 osc_array.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/osc_array.c b/osc_array.c
index 3b74547..3be8079 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -105,14 +105,13 @@ t_osc_err osc_array_copyInto(t_osc_array **dest, t_osc_array *src, long offset)
 	long srcsize = src->membersize;
 	long srclen_bytes = srclen * srcsize;
 	long destlen = srclen + offset;
-	long destlen_bytes = destlen * srcsize;
 	if(!(*dest)){
 		*dest = osc_array_allocWithSize(destlen, srcsize);
 	}else{
-		if(destlen_bytes < srclen_bytes){
-			(*dest)->ar = osc_mem_resize((*dest)->ar, destlen_bytes);
-			if(!((*dest)->ar)){
-				return OSC_ERR_OUTOFMEM;
+		if((*dest)->len < destlen){
+			t_osc_err e = osc_array_resize(*dest, destlen);
+			if(e){
+				return e;
 			}
 		}
 	}
-- 
2.43.0


From ebdf1b652664c880caed80f9c6b502a3ae7925a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 014/143] fix: shrinking an array to nothing is not an error

---
 osc_array.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/osc_array.c b/osc_array.c
index 3be8079..64a665f 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -124,6 +124,13 @@ t_osc_err osc_array_resize(t_osc_array *array, int newlen)
 	if(!array){
 		return OSC_ERR_INVAL;
 	}
+	if(newlen <= 0){
+		// realloc() may return NULL for 0 bytes
+		osc_mem_free(array->ar);
+		array->ar = NULL;
+		array->len = 0;
+		return OSC_ERR_NONE;
+	}
 	array->ar = osc_mem_resize(array->ar, newlen * array->membersize);
 	if(array->ar){
 #ifdef OSC_ARRAY_CLEAR_ON_ALLOC
-- 
2.43.0


From 72d9c482de2e971aa0bc3636f995cdfde39fb7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 015/143] fix: joining an atom array leaves room for separators
 and the terminator

---
 osc_atom_array_u.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index 8064ca7..850dda1 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -169,9 +169,9 @@ t_osc_err osc_atom_array_u_getStringArray(t_osc_atom_ar_u *array, long *len, cha
 	int i;
 	for(i = 0; i < arlen; i++){
 		int n = osc_atom_u_getStringLen(osc_atom_array_u_get(array, i));
-		if((buflen - (ptr - *out)) < n){
+		if((buflen - (ptr - *out)) < n + seplen + 1){
 			long offset = ptr - *out;
-			int nbytes = n * (arlen - i) + 1; // assume the rest of the atoms are the same size
+			int nbytes = (n + seplen) * (arlen - i) + 1; // assume the rest of the atoms are the same size
 			char *tmp = osc_mem_resize(*out, buflen + nbytes);
 			if(tmp){
 				*out = tmp;
-- 
2.43.0


From 96cbfe89a2502c00f757250242570fd7beaad906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 016/143] fix: an empty bundle starts from an initialised
 struct and has room for its timetag

---
 osc_bundle_s.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 26173cc..faca4c6 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -54,7 +54,7 @@ t_osc_bndl_s *osc_bundle_s_alloc(long len, char *ptr)
 
 t_osc_bndl_s *osc_bundle_s_allocEmptyBundle(void)
 {
-	t_osc_bndl_s *b = osc_mem_alloc(sizeof(t_osc_bndl_s));
+	t_osc_bndl_s *b = osc_bundle_s_alloc(0, NULL);
 	osc_bundle_s_setBundleID_b(b);
 	return b;
 }
@@ -499,7 +499,7 @@ t_osc_err osc_bundle_s_setBundleID_b(t_osc_bndl_s *bndl)
 		return OSC_ERR_NOBUNDLE;
 	}
 	if(!(bndl->ptr)){
-		bndl->ptr = osc_mem_alloc(OSC_IDENTIFIER_SIZE);
+		bndl->ptr = osc_mem_alloc(OSC_HEADER_SIZE);
 		if(!(bndl->ptr)){
 			return OSC_ERR_OUTOFMEM;
 		}
-- 
2.43.0


From b85301929e64ef22c5991cfeadab4d0cdc672630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 017/143] fix: new bundles made by wrapping and set operations
 have a cleared timetag

---
 osc_bundle_s.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index faca4c6..1ee4a3a 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -339,6 +339,7 @@ t_osc_err osc_bundle_s_wrapMessage(long len, char *msg, long *bndllen, char **bn
 		}
 		*alloc = 1;
 	}
+	memset((*bndl) + OSC_IDENTIFIER_SIZE, '\0', OSC_TIMETAG_SIZEOF); // clear timetag
 	osc_bundle_s_setBundleID(*bndl);
 	*((int32_t *)((*bndl) + OSC_HEADER_SIZE)) = hton32(len);
 	memcpy((*bndl) + OSC_HEADER_SIZE + 4, msg, len);
@@ -699,6 +700,7 @@ t_osc_bndl_s *osc_bundle_s_union(t_osc_bndl_s *lhs, t_osc_bndl_s *rhs)
 	t_osc_bndl_s *b = NULL;
 	if((len1 == 0 && len2 == 0) || (len1 == OSC_HEADER_SIZE && len2 == OSC_HEADER_SIZE)){
 		bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
+		memset(bndl_out, '\0', OSC_HEADER_SIZE);
 		osc_bundle_s_setBundleID(bndl_out);
 		len_out = OSC_HEADER_SIZE;
 		goto out;
@@ -756,6 +758,7 @@ t_osc_err osc_bundle_s_intersection(long len1, char *bndl1, long len2, char *bnd
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
 		}
+		memset(*bndl_out, '\0', OSC_HEADER_SIZE);
 		osc_bundle_s_setBundleID(*bndl_out);
 		*len_out = OSC_HEADER_SIZE;
 		return OSC_ERR_NONE;
@@ -801,6 +804,7 @@ t_osc_err osc_bundle_s_difference(long len1, char *bndl1, long len2, char *bndl2
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
 		}
+		memset(*bndl_out, '\0', OSC_HEADER_SIZE);
 		osc_bundle_s_setBundleID(*bndl_out);
 		*len_out = OSC_HEADER_SIZE;
 		return OSC_ERR_NONE;
-- 
2.43.0


From 977e6109a7c4f99c67e3b01ed875a0c31ef6117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 018/143] fix: addressIsBound looks for typetags after the
 address of the message, not of the query

---
 osc_bundle_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 1ee4a3a..2970966 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -196,7 +196,7 @@ t_osc_err osc_bundle_s_addressIsBound(long len, char *buf, char *address, int fu
 			}
 		}
 		//if(osc_message_s_getArgCount(m) > 0){
-		char *tt = msg_address + osc_util_getPaddedStringLen(address);
+		char *tt = msg_address + osc_util_getPaddedStringLen(msg_address);
 		if(tt - msg < size + 4 && tt[1] != 0){
 			*res = 1;
 			break;
-- 
2.43.0


From 6dbf512b0c523e31025f4051ebf9cc7307f072d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 019/143] fix: addressIsBound looks at every matching message

---
 osc_bundle_u.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 7aa9c35..e459f10 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -180,8 +180,10 @@ t_osc_err osc_bundle_u_addressIsBound(t_osc_bndl_u *bndl, char *address, int ful
                 continue;
             }
         }
-        *res = (osc_message_u_getArgCount(m) > 0);
-        break;
+        if(osc_message_u_getArgCount(m) > 0){
+            *res = 1;
+            break;
+        }
     }
     osc_bndl_it_u_destroy(it);
     return OSC_ERR_NONE;
-- 
2.43.0


From 2ee310dd5327faaae26292b6f6f36e3c50992980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 020/143] fix: removing a message from an unserialised bundle
 updates its message count

---
 osc_bundle_u.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index e459f10..3027fcc 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -265,7 +265,6 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
 				if(messageaddr && !strcmp(address, messageaddr)){
 					osc_bundle_u_removeMsg(bndl, m);
 					osc_message_u_free(m);
-					bndl->msgcount--;
 				}
 				m = next;
 			}
@@ -412,6 +411,7 @@ t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
 	if(m == bndl->msgtail){
 		bndl->msgtail = m->prev;
 	}
+	bndl->msgcount--;
 	return OSC_ERR_NONE;
 }
 
@@ -424,7 +424,6 @@ void osc_bundle_u_removeMessage(t_osc_bndl_u * bndl, const char *address)
             if(!strcmp(address, osc_message_u_getAddress(m))){
                 osc_bundle_u_removeMsg(bndl, m);
                 osc_message_u_free(m);
-                bndl->msgcount--;
             }
             m = next;
         }
-- 
2.43.0


From 435b98fd496d9d1ce940e9107050afd59fdf0f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 021/143] fix: a malformed pattern is not a partial match

---
 osc_bundle_s.c | 6 +++---
 osc_bundle_u.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 2970966..a89d7ea 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -190,7 +190,7 @@ t_osc_err osc_bundle_s_addressIsBound(long len, char *buf, char *address, int fu
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r > (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				msg += 4 + size;
 				continue;
 			}
@@ -225,7 +225,7 @@ t_osc_err osc_bundle_s_addressExists(long len, char *buf, char *address, int ful
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r > (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				msg += 4 + ntoh32(*((int32_t *)msg));
 				continue;
 			}
@@ -256,7 +256,7 @@ t_osc_msg_ar_s *osc_bundle_s_lookupAddress(long len, char *buf, const char *addr
 				goto cont;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r > (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				goto cont;
 			}
 		}
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 3027fcc..281e5f8 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -148,7 +148,7 @@ t_osc_err osc_bundle_u_addressExists(t_osc_bndl_u *bndl, char *address, int full
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r > (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				continue;
 			}
 		}
@@ -176,7 +176,7 @@ t_osc_err osc_bundle_u_addressIsBound(t_osc_bndl_u *bndl, char *address, int ful
                 continue;
             }
         }else{
-            if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+            if(r == 0 || r > (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
                 continue;
             }
         }
@@ -236,7 +236,7 @@ t_osc_msg_ar_u *osc_bundle_u_lookupAddress(t_osc_bndl_u *bndl, const char *addre
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || r > (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				continue;
 			}
 		}
-- 
2.43.0


From 8cf631e8fb74ebcc8f337df6d658cddf63ff72bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:02 +0000
Subject: [PATCH 022/143] fix: renaming a message without typetags copies no
 data

---
 osc_message_s.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index db957e0..b27f260 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -152,7 +152,9 @@ int32_t osc_message_s_renameCopy(char *dest, t_osc_msg_s *src, int32_t new_addre
 	while((ptr - dest) % 4){
 		*ptr++ = '\0';
 	}
-	memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	if(src->typetags){
+		memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	}
 	return newlen;
 }
 
-- 
2.43.0


From 96428269220300c62fb645d3d9f9de0314961357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:41 +0000
Subject: [PATCH 023/143] fix: a copied message does not share its source cache
 of offsets

---
 osc_message_s.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_message_s.c b/osc_message_s.c
index b27f260..739212a 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -84,6 +84,10 @@ void osc_message_s_copy(t_osc_msg_s **dest, t_osc_msg_s *src)
 		*dest = osc_message_s_alloc();
 	}
 	**dest = *src;
+	// the cached offsets belong to src
+	(*dest)->data_offset_cache = NULL;
+	(*dest)->data_size_cache = NULL;
+	(*dest)->cache_size = 0;
 }
 
 t_osc_err osc_message_s_wrap(t_osc_msg_s *m, char *bytes)
-- 
2.43.0


From c67b17430b58789dfb3c9e9343d5ff4035746be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 024/143] fix: replacing a message of an unserialised bundle
 releases its old address

---
 osc_bundle_u.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 281e5f8..4620d60 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -284,6 +284,8 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
                     t_osc_msg_u * prev = m->prev;
                     
                     osc_message_u_clearArgs(m);
+                    osc_mem_free(m->address); // deepCopy makes a copy of the address of msg
+                    m->address = NULL;
                     osc_message_u_deepCopy(&m, msg);
                     
                     m->next = next;
-- 
2.43.0


From d4b0a1d06680ba936d6f55e1f6922899e4e85322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 025/143] fix: messages without an address match nothing when
 replacing, removing and looking up

---
 osc_bundle_u.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 4620d60..394ba5d 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -230,6 +230,9 @@ t_osc_msg_ar_u *osc_bundle_u_lookupAddress(t_osc_bndl_u *bndl, const char *addre
 		}
 		t_osc_msg_u *current_message = osc_bndl_it_u_next(it);
 		int po, ao;
+		if(!osc_message_u_getAddress(current_message)){
+			continue;
+		}
 		int r = osc_match(address, osc_message_u_getAddress(current_message), &po, &ao);
 		if(fullmatch){
 			if(r != (OSC_MATCH_ADDRESS_COMPLETE | OSC_MATCH_PATTERN_COMPLETE)){
@@ -277,7 +280,8 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
             t_osc_msg_u *m = bndl->msghead;
             while(m){
                 t_osc_msg_u *next = m->next;
-                if(!strcmp(address, osc_message_u_getAddress(m))){
+                const char * const messageaddr = osc_message_u_getAddress(m);
+                if(messageaddr && !strcmp(address, messageaddr)){
                     // later maybe try to maintain memmory location if the value is a bundle?
                     // in that case we might not clear first, but copy the new value into the bundle at this message
                     t_osc_msg_u * next = m->next;
@@ -423,7 +427,8 @@ void osc_bundle_u_removeMessage(t_osc_bndl_u * bndl, const char *address)
         t_osc_msg_u *m = bndl->msghead;
         while(m){
             t_osc_msg_u *next = m->next;
-            if(!strcmp(address, osc_message_u_getAddress(m))){
+            const char * const messageaddr = osc_message_u_getAddress(m);
+            if(messageaddr && !strcmp(address, messageaddr)){
                 osc_bundle_u_removeMsg(bndl, m);
                 osc_message_u_free(m);
             }
-- 
2.43.0


From 1b9f095aa4db1432e98761cc674b0e6b833d3510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 026/143] fix: osc_serial decodes all four bytes of the size of
 a message

---
 osc_serial.c | 35 +++++++++++++++++++----------------
 osc_serial.h |  3 +++
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/osc_serial.c b/osc_serial.c
index 3359f60..712eed5 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -269,33 +269,35 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 			case 6:
 				OSC_SERIAL_RETURN(s + 1);
 			case 7:
-				// do negative size check
-				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 24));
+				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((uint32_t)b & 0xff) << 24));
 			}
 		}
 	case OSC_SERIAL_BUNDLE_MESSAGE:
 		switch(state){
 		case OSC_SERIAL_MESSAGE_SIZE:
 			{
-				int32_t c = count & 0xff;
-				switch(c){
-				case 0:
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 16) | (c + 1));
-				case 1:
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 8) | (c + 1));
-				case 2:
-					// negative size check
-					//count = ntoh32(count | b);
-					count = count | b;
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (count - 2));
-				default:
-					//count = ntoh32(count);
+				if(micro == OSC_SERIAL_MESSAGE_SIZE_COMPLETE){
+					// count is the size of the message
 					if(b == '/'){
 						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count - 1));
 					}else{
 						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_ERROR_NOLEADINGSLASH);
 					}
 				}
+				uint32_t c = count & 0xff;
+				uint32_t size = count & 0xffffff00; // the bytes of the size that we've seen so far
+				switch(c){
+				case 0:
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | size | (((uint32_t)b & 0xff) << 16) | (c + 1));
+				case 1:
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | size | (((uint32_t)b & 0xff) << 8) | (c + 1));
+				default:
+					size |= ((uint32_t)b & 0xff);
+					if(size & 0x80000000){
+						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | OSC_SERIAL_ERROR_NEGATIVESIZE);
+					}
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | OSC_SERIAL_MESSAGE_SIZE_COMPLETE | size);
+				}
 			}
 		case OSC_SERIAL_MESSAGE_ADDRESS:
 			switch(micro){
@@ -418,7 +420,8 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 			}
 		case OSC_SERIAL_MESSAGE_DATA:
 			if(count <= 0){
-				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE);
+				// first byte of the size of the next message
+				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((uint32_t)b & 0xff) << 24));
 			}else{
 				OSC_SERIAL_RETURN(s - 1);
 			}
diff --git a/osc_serial.h b/osc_serial.h
index 8bd03ea..8e07bad 100644
--- a/osc_serial.h
+++ b/osc_serial.h
@@ -57,6 +57,9 @@ gone off the end of the buffer or started a new message.
 #define OSC_SERIAL_MESSAGE_TYPETAGS 0x0004000000000000ull
 #define OSC_SERIAL_MESSAGE_DATA 0x0008000000000000ull
 
+// size micro states
+#define OSC_SERIAL_MESSAGE_SIZE_COMPLETE 0x0000010000000000ull
+
 // address micro states
 #define OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS 0x0000010000000000ull
 #define OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS_COMMA 0x0000020000000000ull
-- 
2.43.0


From 1aaf9ce119eec4e464d9afdd82225b7aaac5372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 027/143] fix: osc_serial finds the next message after one
 without data

---
 osc_serial.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_serial.c b/osc_serial.c
index 712eed5..ee8cd08 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -408,7 +408,10 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNSUPPORTEDTYPETAG);
 				}
 			case OSC_SERIAL_MESSAGE_TYPETAGS_NULLPADDING:
-				if(ctrm4 == 0){
+				if(count == 0){
+					// there's no data, so this is the first byte of the size of the next message
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((uint32_t)b & 0xff) << 24));
+				}else if(ctrm4 == 0){
 					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_DATA | (count - 1));
 				}else{
 					if(b == '\0'){
-- 
2.43.0


From 22d1ed5a99fcbe5a470e8b459b23cff0677de7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 028/143] fix: osc_serial accepts blob typetags

---
 osc_serial.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index ee8cd08..9442036 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -399,6 +399,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case 'T':
 				case 'F':
 				case 'N':
+				case 'b':
 				case OSC_TIMETAG_TYPETAG:
 				case OSC_BUNDLE_TYPETAG:
 					OSC_SERIAL_RETURN(s - 1);
@@ -523,6 +524,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case 'T':
 				case 'F':
 				case 'N':
+				case 'b':
 				case OSC_TIMETAG_TYPETAG:
 				case OSC_BUNDLE_TYPETAG:
 					OSC_SERIAL_RETURN(s + 1);
-- 
2.43.0


From a896fd2590f994b1a2ab7375dedac1caaa595b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 029/143] fix: osc_serial only reports commas and dashes that
 follow each other directly

---
 osc_serial.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_serial.c b/osc_serial.c
index 9442036..778952a 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -338,7 +338,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case '\0':
 					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTCURLYBRACE);
 				default:
-					OSC_SERIAL_RETURN(s - 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS | (count - 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH:
 				switch(b){
@@ -362,7 +362,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case '\0':
 					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTSQUAREBRACKET);
 				default:
-					OSC_SERIAL_RETURN(s - 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS | (count - 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING:
 				if(ctrm4 == 0){
@@ -465,7 +465,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case '}':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
 				default:
-					OSC_SERIAL_RETURN(s + 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS | (count + 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH:
 				switch(b){
@@ -487,7 +487,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case ']':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
 				default:
-					OSC_SERIAL_RETURN(s + 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS | (count + 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING:
 				if(ctrm4 == 3){
-- 
2.43.0


From b0df337545d76bc6bbdf6fe9454e13b817cf5500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 030/143] fix: very large hash tables use the largest prime in
 the table

---
 osc_hashtab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index b69f9b1..25098c1 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -87,7 +87,7 @@ static uint32_t osc_hashtab_getPrime(uint32_t n){
 			return primes[i];
 		}
 	}
-	return primes[i];
+	return primes[i - 1]; // the largest one there is
 }
 
 static void osc_hashtab_rehash(t_osc_hashtab *ht)
-- 
2.43.0


From 856bcdfc422d050193c49c2db1f8b736fa77bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 031/143] fix: osc_hashtab_storeSafe releases the element it
 doesn't store

---
 osc_hashtab.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index 25098c1..cbe84b5 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -170,6 +170,7 @@ static void osc_hashtab_store_elem_safe(t_osc_hashtab *ht,
 	while(ee){
 		if(!strcmp(ee->key, key)){
 			// this is not a hash collision, this is a duplicate key
+			osc_mem_free(e);
 			return;
 		}else{
 			ee = ee->next;
-- 
2.43.0


From bfe777c0d527a054391f79f35b1ff26db96ab827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 032/143] fix: typetags outside of ASCII don't index before the
 typetag tables

---
 osc_typetag.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_typetag.c b/osc_typetag.c
index c4e88d0..bcb2828 100644
--- a/osc_typetag.c
+++ b/osc_typetag.c
@@ -33,6 +33,9 @@ static char osc_typetag_indexes[] __attribute__((unused)) = {0, 0, 0, 0, 0, 0, 0
 
 char *osc_typetag_str(int8_t tt)
 {
+	if(tt < 0){
+		return "unknown type";
+	}
 	return osc_typetag_strings[tt];
 }
 
@@ -40,7 +43,7 @@ int osc_typetag_compare(char tt1, char tt2)
 {
 	if(tt1 == tt2){
 		return 0;
-	}else if(osc_typetag_indexes[(int)tt1] < osc_typetag_indexes[(int)tt2]){
+	}else if(osc_typetag_indexes[tt1 & 0x7f] < osc_typetag_indexes[tt2 & 0x7f]){
 		return -1;
 	}else{
 		return 1;
-- 
2.43.0


From 6093f6fdd676d783444309b5383b6271f103e517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 033/143] fix: subtracting a later timetag borrows from the
 seconds

---
 osc_timetag.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index ba4e9f3..8a1ca70 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -77,8 +77,9 @@ t_osc_timetag osc_timetag_subtract(t_osc_timetag t1, t_osc_timetag t2)
 		}
 	}else{
 		r.sec = t2_ntp.sec - t1_ntp.sec;
-		if(t1_ntp.frac_sec >= t2_ntp.frac_sec){
-			r.frac_sec = t1_ntp.frac_sec - t2_ntp.frac_sec;
+		if(t1_ntp.frac_sec > t2_ntp.frac_sec){
+			r.sec--;
+			r.frac_sec = t2_ntp.frac_sec - t1_ntp.frac_sec;
 		}else{
 			r.frac_sec = t2_ntp.frac_sec - t1_ntp.frac_sec;
 		}
-- 
2.43.0


From 806b75b65b06ff6df12959717e131f145155d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 034/143] fix: the ISO 8601 form of a timetag uses the leap
 years of the calendar

---
 osc_timetag.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index 8a1ca70..794331f 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -323,14 +323,13 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
     
 	//secs=-2208988800;//SNTPGetUTCSeconds();
 	//secs = abs(secs);
-	for(year = 0; secs >= SEC_PER_YEAR; year++){ //determine # years elapse since epoch
-		secs -= SEC_PER_YEAR;
-		if(osc_timetag_isleap(year)){
-			secs -= SEC_PER_DAY;
+	for(year = 1900; ; year++){ //determine # years elapse since 1/1/1900, 00:00, the ntp epoch
+		DWORD secs_in_year = SEC_PER_YEAR + (osc_timetag_isleap(year) ? SEC_PER_DAY : 0);
+		if(secs < secs_in_year){
+			break;
 		}
+		secs -= secs_in_year;
 	}
-	//year+=1970;  //1/1/1970, 00:00 is epoch
-	year += 1900;  //1/1/1900, 00:00 is ntp epoch
 	//for (yrcount=1970;yrcount<year;yrcount++) //scroll from 1970 to last year to find leap yrs.
 	/*
 	for(yrcount = 1900; yrcount < year; yrcount++){
-- 
2.43.0


From 1098bcbf6e8b9ccedee1a76c2fa902117b317fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:08 +0000
Subject: [PATCH 035/143] fix: typetags outside of ASCII rank with the unknown
 types

---
 osc_typetag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_typetag.c b/osc_typetag.c
index bcb2828..8c7fbbe 100644
--- a/osc_typetag.c
+++ b/osc_typetag.c
@@ -43,7 +43,7 @@ int osc_typetag_compare(char tt1, char tt2)
 {
 	if(tt1 == tt2){
 		return 0;
-	}else if(osc_typetag_indexes[tt1 & 0x7f] < osc_typetag_indexes[tt2 & 0x7f]){
+	}else if(osc_typetag_indexes[tt1 < 0 ? 0 : (int)tt1] < osc_typetag_indexes[tt2 < 0 ? 0 : (int)tt2]){
 		return -1;
 	}else{
 		return 1;
-- 
2.43.0


From f39e168c74bd1a5e852178c690fd4e2eb22f95d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:08 +0000
Subject: [PATCH 036/143] fix: a timetag without fractional seconds does not
 read an uninitialised value

---
 osc_timetag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index 794331f..804e88a 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -464,7 +464,7 @@ void osc_timetag_fromISO8601(char *s, t_osc_timetag *timetag)
 #if OSC_TIMETAG_FORMAT == OSC_TIMETAG_NTP  
 	struct tm t;
 	memset(&t, '\0', sizeof(struct tm));
-	double fsec;
+	double fsec = 0.;
 	//char s1[];
 	//memset(s1, '\0', sizeof(s1));
     
-- 
2.43.0


From 19a68d0d6a00969f9ad827b83238606714d87e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:17 +0000
Subject: [PATCH 037/143] fix: copying atoms over atoms releases the content
 they had

---
 osc_atom_array_u.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index 850dda1..a13a32c 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -228,6 +228,10 @@ t_osc_err osc_atom_array_u_copyInto(t_osc_atom_array_u **dest, t_osc_atom_array_
 	for(i = 0; i < srclen; i++){
 		t_osc_atom_u *s = osc_atom_array_u_get(src, i);
 		t_osc_atom_u *d = osc_atom_array_u_get(*dest, i + offset);
+		if(d == s){
+			continue;
+		}
+		osc_atom_u_clear(d); // release what is overwritten; new elements are zeroed
 		osc_atom_u_copyInto(&d, s);
 	}
 	return OSC_ERR_NONE;
-- 
2.43.0


From d80c0bf41602b0bdd6e3ee668caff09593b59e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:38 +0000
Subject: [PATCH 038/143] fix: inserting at a negative position or re-inserting
 an atom keeps the list intact

---
 osc_message_u.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index cf2adb3..bf133ca 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -279,10 +279,11 @@ t_osc_err osc_message_u_insertAtom(t_osc_msg_u *m, t_osc_atom_u *a, int pos)
 			m->argtail->next = a;
 		}
 		a->prev = m->argtail;
+		a->next = NULL;
 		m->argtail = a;
 		goto out;
 	}
-	if(pos == 0){
+	if(pos <= 0){
 		a->next = m->arghead;
 		if(m->arghead){
 			m->arghead->prev = a;
-- 
2.43.0


From c4b036194be151379611c6767d86f766495e9b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:38 +0000
Subject: [PATCH 039/143] fix: prepending or inserting a string does not leak a
 copy of it

---
 osc_message_u.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index bf133ca..0b5d01d 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -596,10 +596,7 @@ t_osc_atom_u *osc_message_u_prependStringPtr(t_osc_msg_u *m, char *v)
 t_osc_atom_u *osc_message_u_prependString(t_osc_msg_u *m, char *v)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_prependAtom(m, a);
 	return a;
 }
@@ -765,10 +762,7 @@ t_osc_atom_u *osc_message_u_insertStringPtr(t_osc_msg_u *m, char *v, int pos)
 t_osc_atom_u *osc_message_u_insertString(t_osc_msg_u *m, char *v, int pos)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_insertAtom(m, a, pos);
 	return a;
 }
-- 
2.43.0


From c1aaa0d27cc0eadce5dfdb3204b3f8b52ecd0de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:38 +0000
Subject: [PATCH 040/143] fix: setting an atom to a bundle releases what it
 held

---
 osc_atom_u.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 311b622..400d69b 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1213,6 +1213,12 @@ void osc_atom_u_setBndl_s(t_osc_atom_u *a, long len, char *ptr)
 
 void osc_atom_u_setBndl_u(t_osc_atom_u *a, t_osc_bndl_u *b)
 {
+	if(!a){
+		return;
+	}
+	if(a->typetag != OSC_BUNDLE_TYPETAG || a->w.bndl != b){
+		osc_atom_u_clear(a);
+	}
 	a->w.bndl = b;
 	a->typetag = OSC_BUNDLE_TYPETAG;
 }
-- 
2.43.0


From 8a8e7caeab4160a87fba7e65493809e741b98cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:49 +0000
Subject: [PATCH 041/143] fix: deep copying into a message releases its
 previous content

---
 osc_message_u.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 0b5d01d..e646fec 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -108,10 +108,13 @@ t_osc_err osc_message_u_deepCopy(t_osc_msg_u **dest, t_osc_msg_u *src)
 	if(!(*dest)){
 		*dest = osc_message_u_alloc();
 	}
+	if(*dest == src){
+		return OSC_ERR_NONE;
+	}
 	(*dest)->size = src->size;
-	(*dest)->argc = 0;
-	(*dest)->arghead = NULL;
-	(*dest)->argtail = NULL;
+	osc_message_u_clearArgs(*dest);
+	osc_mem_free((*dest)->address);
+	(*dest)->address = NULL;
 	if(src->address){
 		char *address = NULL;
 		osc_util_strdup(&address, src->address);
-- 
2.43.0


From 862f064eb1bc7096b838fd02e99db3db9f5515d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:56 +0000
Subject: [PATCH 042/143] fix: flattening a bundle does not use an atom after
 freeing it

---
 osc_bundle_u.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 394ba5d..7b7583e 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -458,8 +458,11 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 		osc_message_u_deepCopy(&mcopy, m);
 		if((level < maxlevel) || (maxlevel <= 0)){
 			t_osc_msg_it_u *mit = osc_msg_it_u_get(mcopy);
-			while(osc_msg_it_u_hasNext(mit)){
-				t_osc_atom_u *a = osc_msg_it_u_next(mit);
+			t_osc_atom_u *nexta = osc_msg_it_u_next(mit);
+			while(nexta){
+				// advance first, since a may be removed and freed below
+				t_osc_atom_u *a = nexta;
+				nexta = osc_msg_it_u_next(mit);
 				if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
 					osc_message_u_removeAtom(mcopy, a);
 					t_osc_bndl_u *bu = osc_atom_u_getBndl(a);
-- 
2.43.0


From dc5fef2c56db6f9e83fa3d854228f995ec7b3b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:56 +0000
Subject: [PATCH 043/143] fix: exploding with a separator other than a slash
 terminates

---
 osc_message_u.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index e646fec..4345473 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -905,8 +905,8 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 				if(a[i + 1] == '/'){
 					strncpy(a2, a + i + 1, (alen - i));
 				}else{
-					a2[0] = '/';
-					strncpy(a2 + 1, a + i, (alen - i) + 1);
+					a2[0] = '/'; // skip the separator
+					strncpy(a2 + 1, a + i + 1, alen - i);
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
@@ -940,8 +940,8 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 				if(a[i + 1] == '/'){
 					strncpy(a2, a + i + 1, (alen - i));
 				}else{
-					a2[0] = '/';
-					strncpy(a2 + 1, a + i, (alen - i) + 1);
+					a2[0] = '/'; // skip the separator
+					strncpy(a2 + 1, a + i + 1, alen - i);
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
-- 
2.43.0


From 91aa390304fabdf2b07f1a0a466057104a1785f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:39 +0000
Subject: [PATCH 044/143] fix: a partial match whose remaining address is
 invalid is not stripped

---
 osc_query.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/osc_query.c b/osc_query.c
index c149d31..5ebd3dc 100644
--- a/osc_query.c
+++ b/osc_query.c
@@ -117,13 +117,17 @@ int osc_query_select_impl(int nselectors,
 				if(strip_matched_portion_of_address){
 					char buf[osc_message_s_getSize(msg) + 4];
 					char *address = osc_message_s_getAddress(msg);
-					osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po);
-					char msg_s[osc_message_s_getStructSize()];
-					osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
-					//osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
-					osc_rset_addPartialMatch(*rset,
-								 rec_selector ? rec_selector : selector,
-								 (t_osc_msg_s *)msg_s);
+					if(osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po)){
+						char msg_s[osc_message_s_getStructSize()];
+						osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
+						//osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
+						osc_rset_addPartialMatch(*rset,
+									 rec_selector ? rec_selector : selector,
+									 (t_osc_msg_s *)msg_s);
+					}else{
+						// the rest is not a valid address, for example "/" for /foo/ and /foo
+						osc_rset_addPartialMatch(*rset, rec_selector ? rec_selector : selector, msg);
+					}
 				}else{
 					//osc_bundle_s_appendMessage_b(partial_match, msg);
 					osc_rset_addPartialMatch(*rset, rec_selector ? rec_selector : selector, msg);
-- 
2.43.0


From c5cdbf5783cf79d73c08553f2c7dd0c9b763c198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:37 +0000
Subject: [PATCH 045/143] fix: bounded formatters stay inside their buffer when
 the text does not fit

---
 osc_bundle_s.c  |  9 +++++----
 osc_bundle_u.c  | 13 +++++++------
 osc_message_s.c | 17 +++++++++--------
 osc_message_u.c | 13 +++++++------
 osc_strfmt.c    | 35 ++++++++++++++++++++---------------
 osc_strfmt.h    |  3 +++
 6 files changed, 51 insertions(+), 39 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index a89d7ea..5f2e152 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -38,6 +38,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_bundle_s.h"
 #include "osc_bundle_iterator_s.h"
 #include "osc_atom_s.h"
+#include "osc_strfmt.h"
 #include "osc_util.h"
 #include "osc_array.h"
 
@@ -651,9 +652,9 @@ long osc_bundle_s_nformat(char *buf, long n, long bndllen, char *bndl, int ninde
 	}else{
 		while(osc_bndl_it_s_hasNext(it)){
 			t_osc_msg_s *m = osc_bndl_it_s_next(it);
-			offset += osc_message_s_nformat(buf + offset, n - offset, m, nindent);
+			offset += osc_message_s_nformat(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), m, nindent);
 			if(osc_bndl_it_s_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ",\n");
+				offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), ",\n");
 			}
 		}
 	}
@@ -678,8 +679,8 @@ long osc_bundle_s_nformatNestedBndl(char *buf, long n, long bndllen, char *bndl,
 		offset += osc_bundle_s_nformat(NULL, 0, bndllen, bndl, nindent);
 		offset += snprintf(NULL, 0, "\n%s}", tabs);
 	}else{
-		offset += osc_bundle_s_nformat(buf + offset, n - offset, bndllen, bndl, nindent);
-		offset += snprintf(buf + offset, n - offset, "\n%s}", tabs);
+		offset += osc_bundle_s_nformat(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), bndllen, bndl, nindent);
+		offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), "\n%s}", tabs);
 	}
 	return offset;
 }
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 7b7583e..cc3ac91 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -36,6 +36,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_bundle_u.h"
 #include "osc_bundle_u.r"
 #include "osc_bundle_iterator_u.h"
+#include "osc_strfmt.h"
 #include "osc_array.h"
 
 t_osc_bndl_u *osc_bundle_u_alloc(void)
@@ -683,11 +684,11 @@ long osc_bundle_u_nformat(char *buf, long n, t_osc_bndl_u *bndl, int nindent)
 			}
 		}
 	}else{
-		while(osc_bndl_it_u_hasNext(it) && offset < n){
+		while(osc_bndl_it_u_hasNext(it)){
 			t_osc_msg_u *m = osc_bndl_it_u_next(it);
-			offset += osc_message_u_nformat(buf + offset, n - offset, m, nindent);
+			offset += osc_message_u_nformat(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), m, nindent);
 			if(osc_bndl_it_u_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ",\n");
+				offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), ",\n");
 			}
 		}
 	}
@@ -712,9 +713,9 @@ long osc_bundle_u_nformatNestedBndl(char *buf, long n, t_osc_bndl_u *bndl, int n
 		offset += osc_bundle_u_nformat(NULL, 0, bndl, nindent);
 		offset += snprintf(NULL, 0, "\n%s}", tabs);
 	}else{
-		offset += snprintf(buf + offset, n - offset, "{\n");
-		offset += osc_bundle_u_nformat(buf + offset, n - offset, bndl, nindent);
-		offset += snprintf(buf + offset, n - offset, "\n%s}", tabs);
+		offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), "{\n");
+		offset += osc_bundle_u_nformat(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), bndl, nindent);
+		offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), "\n%s}", tabs);
 
 	}
 	return offset;
diff --git a/osc_message_s.c b/osc_message_s.c
index 739212a..9ea3421 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -29,6 +29,7 @@
 #include "osc_message_s.h"
 #include "osc_message_iterator_s.h"
 #include "osc_message_u.h"
+#include "osc_strfmt.h"
 #include "osc_array.h"
 #include "osc_mem.h"
 #include "osc_util.h"
@@ -356,29 +357,29 @@ long osc_message_s_nformat(char *buf, long n, t_osc_msg_s *m, int nindent)
 	}else{
 		if(numargs){
 			if(numargs > 1){
-				offset += snprintf(buf + offset, n - offset, "%s%s : [", tabs, osc_message_s_getAddress(m));
+				offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), "%s%s : [", tabs, osc_message_s_getAddress(m));
 			}else{
-				offset += snprintf(buf + offset, n - offset, "%s%s : ", tabs, osc_message_s_getAddress(m));
+				offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), "%s%s : ", tabs, osc_message_s_getAddress(m));
 			}
 		}else{
-			offset += snprintf(buf + offset, n - offset, "%s%s", tabs, osc_message_s_getAddress(m));
+			offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), "%s%s", tabs, osc_message_s_getAddress(m));
 		}
 		while(osc_msg_it_s_hasNext(it)){
 			//offset += snprintf(NULL, 0, " ");
 			t_osc_atom_s *a = osc_msg_it_s_next(it);
-			offset += osc_atom_s_nformat(buf + offset, n - offset, a, nindent);
+			offset += osc_atom_s_nformat(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), a, nindent);
 			if(osc_msg_it_s_hasNext(it)){
 				//if(osc_atom_s_getTypetag(a) == OSC_BUNDLE_TYPETAG){
-				//offset += snprintf(buf + offset, n - offset, ",\n");
+				//offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), ",\n");
 				//}else{
-					offset += snprintf(buf + offset, n - offset, ", ");
+					offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), ", ");
 					//}
 			}
 		}		
 		if(numargs > 1){
-			offset += snprintf(buf + offset, n - offset, "]");
+			offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), "]");
 		}
-		//offset += snprintf(buf + offset, n - offset, "\n");
+		//offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), "\n");
 	}
 	osc_msg_it_s_destroy(it);
 	return offset;
diff --git a/osc_message_u.c b/osc_message_u.c
index 4345473..ae3d625 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -32,6 +32,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_message_iterator_u.h"
 #include "osc_mem.h"
 #include "osc_byteorder.h"
+#include "osc_strfmt.h"
 #include "osc_util.h"
 
 t_osc_msg_u *osc_message_u_alloc()
@@ -1093,22 +1094,22 @@ long osc_message_u_nformat(char *buf, long n, t_osc_msg_u *m, int nindent)
 	}else{
 		if(numargs){
 			if(numargs > 1){
-				offset += snprintf(buf + offset, n - offset, "%s%s : [", tabs, osc_message_u_getAddress(m));
+				offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), "%s%s : [", tabs, osc_message_u_getAddress(m));
 			}else{
-				offset += snprintf(buf + offset, n - offset, "%s%s : ", tabs, osc_message_u_getAddress(m));
+				offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), "%s%s : ", tabs, osc_message_u_getAddress(m));
 			}
 		}else{
-			offset += snprintf(buf + offset, n - offset, "%s%s", tabs, osc_message_u_getAddress(m));
+			offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), "%s%s", tabs, osc_message_u_getAddress(m));
 		}
 		while(osc_msg_it_u_hasNext(it)){
 			t_osc_atom_u *a = osc_msg_it_u_next(it);
-			offset += osc_atom_u_nformat(buf + offset, n - offset, a, nindent);
+			offset += osc_atom_u_nformat(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), a, nindent);
 			if(osc_msg_it_u_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ", ");
+				offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), ", ");
 			}
 		}		
 		if(numargs > 1){
-			offset += snprintf(buf + offset, n - offset, "]");
+			offset += snprintf(buf + osc_strfmt_fit(offset, n), n - osc_strfmt_fit(offset, n), "]");
 		}
 	}
 	osc_msg_it_u_destroy(it);
diff --git a/osc_strfmt.c b/osc_strfmt.c
index 952dfc4..c29d42c 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -36,6 +36,11 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 
 int osc_strfmt_precision(double d);
 
+long osc_strfmt_fit(long offset, long n)
+{
+	return offset < n ? offset : n;
+}
+
 int osc_strfmt_int8(char *buf, size_t n, int8_t i)
 {
 	return snprintf(buf, n, "'%c'", i);
@@ -128,15 +133,15 @@ int osc_strfmt_blob(char *buf, size_t n, char *blob)
 	int32_t len = ntoh32(*((int32_t *)blob));
 	int c = 0;
 	if(buf){
-		c = snprintf(buf, n, "blob(%d", *ptr++);
-		for(int i = 1; i < len; i++){
-			c += snprintf(buf + c, n - c, ", %d", *ptr++);
+		c = snprintf(buf, n, "blob(");
+		for(int i = 0; i < len; i++){
+			c += snprintf(buf + osc_strfmt_fit(c, n), n - osc_strfmt_fit(c, n), i ? ", %d" : "%d", *ptr++);
 		}
-		c += snprintf(buf + c, n - c, ")");
+		c += snprintf(buf + osc_strfmt_fit(c, n), n - osc_strfmt_fit(c, n), ")");
 	}else{
-		c = snprintf(NULL, 0, "blob(%d", *ptr++);
-		for(int i = 1; i < len; i++){
-			c += snprintf(NULL, 0, ", %d", *ptr++);
+		c = snprintf(NULL, 0, "blob(");
+		for(int i = 0; i < len; i++){
+			c += snprintf(NULL, 0, i ? ", %d" : "%d", *ptr++);
 		}
 		c += snprintf(NULL, 0, ")");
 	}
@@ -177,8 +182,8 @@ int osc_strfmt_stringWithQuotedMeta(char *buf, size_t n, char *str)
 		}
 		if(i < n){
 			buf[i] = '\0';
-		}else{
-			buf[i - 1] = '\0';
+		}else if(n > 0){
+			buf[n - 1] = '\0';
 		}
 		return i;
 	}
@@ -192,10 +197,10 @@ int osc_strfmt_quotedStringWithQuotedMeta(char *buf, size_t n, char *str)
 	if(!buf){
 		return osc_strfmt_stringWithQuotedMeta(buf, n, str) + 2;
 	}else{
-		char tmp[n];
-		int nn = osc_strfmt_stringWithQuotedMeta(tmp, n, str);
-		osc_strfmt_quotedString(buf, n, tmp);
-		return nn + 2;
+		int nn = snprintf(buf, n, "\"");
+		nn += osc_strfmt_stringWithQuotedMeta(buf + osc_strfmt_fit(nn, n), n - osc_strfmt_fit(nn, n), str);
+		nn += snprintf(buf + osc_strfmt_fit(nn, n), n - osc_strfmt_fit(nn, n), "\"");
+		return nn;
 	}
 }
 
@@ -213,7 +218,7 @@ int osc_strfmt_addQuotes(int len, char *buf, char **out)
 	}
 	strncpy((*out) + i, buf, len);
 	i += len;
-	if(buf[len - 1] != '\"'){
+	if(len < 1 || buf[len - 1] != '\"'){
 		(*out)[i++] = '\"';
 	}
 	(*out)[i] = '\0';
@@ -250,7 +255,7 @@ int osc_strfmt_addQuotesAndQuoteMeta(int len, char *buf, char **out)
 	}
 	int n = len + 2 + osc_strfmt_countMeta(len, buf);
 	if(!(*out)){
-		*out = osc_mem_alloc(n);
+		*out = osc_mem_alloc(n + 1);
 	}
 	int i = 0;
 	if(1){//buf[0] != '\"'){
diff --git a/osc_strfmt.h b/osc_strfmt.h
index 37fe9b2..2eb8555 100644
--- a/osc_strfmt.h
+++ b/osc_strfmt.h
@@ -72,6 +72,9 @@ OSC_DEPRECATED(int osc_strfmt_addQuotesAndQuoteMeta(int len, char *buf, char **o
 
 int osc_strfmt_strlenPadded(char *str);
 
+// the part of the first offset bytes of a text that fits in a buffer of n bytes
+long osc_strfmt_fit(long offset, long n);
+
 #ifdef __cplusplus
 }
 #endif
-- 
2.43.0


From 0c67c409891a401ed39be60cc73b51f594801936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:37 +0000
Subject: [PATCH 046/143] fix: the string length of an unsigned char is that of
 its string

---
 osc_atom_s.c | 2 +-
 osc_atom_u.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 6ba8833..bedc790 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -433,7 +433,7 @@ int osc_atom_s_getStringLen(t_osc_atom_s *a)
 	case 'C': // unsigned 8-bit int
 		{
 			uint8_t i = (uint8_t)ntoh32(*((int32_t *)(a->data)));
-			return osc_strfmt_uint32(NULL, 0, i);
+			return osc_strfmt_uint8(NULL, 0, i);
 		}
 	case 'u': // signed 16-bit int
 		{
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 400d69b..14b7058 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -740,7 +740,7 @@ int osc_atom_u_getStringLen(t_osc_atom_u *a)
 	case 'c': // signed 8-bit int
 		return osc_strfmt_int8(NULL, 0, a->w.c);
 	case 'C': // unsigned 8-bit int
-		return osc_strfmt_uint32(NULL, 0, a->w.C);
+		return osc_strfmt_uint8(NULL, 0, a->w.C);
 	case 'u': // signed 16-bit int
 		return osc_strfmt_int16(NULL, 0, a->w.u);
 	case 'U': // unsigned 16-bit int
-- 
2.43.0


From e4bb4ca9be5aa42f4351b79236c65f71b203da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:37 +0000
Subject: [PATCH 047/143] fix: the text of something that has none is an empty
 string

---
 osc_atom_s.c   | 4 ++++
 osc_atom_u.c   | 4 ++++
 osc_bundle_s.c | 3 +++
 osc_bundle_u.c | 3 +++
 4 files changed, 14 insertions(+)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index bedc790..3f6d8e0 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -571,6 +571,10 @@ int osc_atom_s_getString(t_osc_atom_s *a, size_t n, char **out)
 	case 'b': // blob
 		stringlen = osc_strfmt_blob(*out, nn, a->data);
 		break;
+	default:
+		if(nn > 0){
+			(*out)[0] = '\0';
+		}
 	}
 	return stringlen;
 }
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 14b7058..06d666a 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -822,6 +822,10 @@ int osc_atom_u_getString(t_osc_atom_u *a, size_t n, char **out)
 	case 'b': // blob
 		stringlen = osc_strfmt_blob(*out, nn, a->w.b);
 		break;
+	default:
+		if(nn > 0){
+			(*out)[0] = '\0';
+		}
 	}
 	return stringlen;
 }
diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 5f2e152..8a7973c 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -628,6 +628,9 @@ char *osc_bundle_s_pformat(t_osc_bundle_s *bndl)
 
 long osc_bundle_s_nformat(char *buf, long n, long bndllen, char *bndl, int nindent)
 {
+	if(buf && n > 0){
+		buf[0] = '\0';
+	}
 	if(!bndl){
 		return 0;
 	}
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index cc3ac91..5c8d745 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -670,6 +670,9 @@ char *osc_bundle_u_format(t_osc_bndl_u *bndl)
 
 long osc_bundle_u_nformat(char *buf, long n, t_osc_bndl_u *bndl, int nindent)
 {
+	if(buf && n > 0){
+		buf[0] = '\0';
+	}
 	if(!bndl || osc_bundle_u_getMsgCount(bndl) == 0){
 		return 0;
 	}
-- 
2.43.0


From dac6d730df6a67d7be89cd157653cb5d1bc26347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:37 +0000
Subject: [PATCH 048/143] fix: the length announced for the text of a timetag
 is its length

---
 osc_timetag.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index 804e88a..edc03b6 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -310,7 +310,8 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
 #if OSC_TIMETAG_FORMAT == OSC_TIMETAG_NTP  
 	char s1[20];
 	if(!buf){
-		return 19 + snprintf(NULL, 0, "%05fZ", fmod(osc_timetag_ntp_to_float(timetag), 1.0));//osc_strfmt_float64(NULL, 0, fmod(osc_timetag_ntp_to_float(timetag), 1.0));
+		// the text has the fraction without its leading zero
+		return 19 + snprintf(NULL, 0, "%05fZ", fmod(osc_timetag_ntp_to_float(timetag), 1.0)) - 1;//osc_strfmt_float64(NULL, 0, fmod(osc_timetag_ntp_to_float(timetag), 1.0));
 	}
 	uint32_t secs = osc_timetag_ntp_getSeconds(timetag);
 	unsigned short int year, month, day, hour, minute, yrcount, leap = 0;
-- 
2.43.0


From 2c2cf2dee1c9a33a93be0deca0818a84f1f24cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 049/143] fix: subtracting integers keeps the wider type, as
 the other operators do

---
 osc_expr.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index a65e306..591937d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2432,7 +2432,33 @@ int osc_expr_subtract(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 		if(OSC_TYPETAG_ISFLOAT(tt1) || OSC_TYPETAG_ISFLOAT(tt2)){
 			osc_atom_u_setDouble(*result, osc_atom_u_getDouble(f1) - osc_atom_u_getDouble(f2));
 		}else{
-			osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
+			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
+			switch(tt){
+			case 'i':
+				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
+				break;
+			case 'I':
+				osc_atom_u_setUInt32(*result, osc_atom_u_getUInt32(f1) - osc_atom_u_getUInt32(f2));
+				break;
+			case 'h':
+				osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) - osc_atom_u_getInt64(f2));
+				break;
+			case 'H':
+				osc_atom_u_setUInt64(*result, osc_atom_u_getUInt64(f1) - osc_atom_u_getUInt64(f2));
+				break;
+			case 'u':
+				osc_atom_u_setInt16(*result, osc_atom_u_getInt16(f1) - osc_atom_u_getInt16(f2));
+				break;
+			case 'U':
+				osc_atom_u_setUInt16(*result, osc_atom_u_getUInt16(f1) - osc_atom_u_getUInt16(f2));
+				break;
+			case 'c':
+				osc_atom_u_setInt8(*result, osc_atom_u_getInt8(f1) - osc_atom_u_getInt8(f2));
+				break;
+			case 'C':
+				osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) - osc_atom_u_getUInt8(f2));
+				break;
+			}
 		}
 	}else if(tt1 == OSC_TIMETAG_TYPETAG || tt2 == OSC_TIMETAG_TYPETAG){
 		t_osc_timetag timetag1, timetag2;
-- 
2.43.0


From 80721c252146e83f1f7a9bd52b000fbb59a358d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 050/143] fix: dividing the smallest integer by -1 does not
 trap

---
 osc_expr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 591937d..9fc607b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2579,7 +2579,9 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) / i2);
+						// dividing the smallest integer by -1 overflows (and traps)
+						int32_t i1 = osc_atom_u_getInt32(f1);
+						osc_atom_u_setInt32(*result, i2 == -1 ? (int32_t)(0 - (uint32_t)i1) : i1 / i2);
 					}
 				}
 				break;
@@ -2599,7 +2601,8 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) / i2);
+						int64_t i1 = osc_atom_u_getInt64(f1);
+						osc_atom_u_setInt64(*result, i2 == -1 ? (int64_t)(0 - (uint64_t)i1) : i1 / i2);
 					}
 				}
 				break;
-- 
2.43.0


From c165b3df94ab1f93c1f270c27d5e75ab3322d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 051/143] fix: unsigned chars are divided as unsigned numbers

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 9fc607b..784006a 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2648,11 +2648,11 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 				break;
 			case 'C':
 				{
-					int8_t i2 = osc_atom_u_getInt8(f2);
+					uint8_t i2 = osc_atom_u_getUInt8(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt8(*result, osc_atom_u_getInt8(f1) / i2);
+						osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) / i2);
 					}
 				}
 				break;
-- 
2.43.0


From 1becd2b9f4148e4aef627eb4191cb72082fe25f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:53 +0000
Subject: [PATCH 052/143] fix: ++ and -- keep the value and type of every kind
 of integer

---
 osc_expr.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 784006a..32b69ae 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3181,15 +3181,27 @@ int osc_expr_plus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		case 'd':
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) + 1);
 			break;
-		case 'h':
+		case 'I':
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) + 1);
 			break;
-		case 'I':
+		case 'h':
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) + 1);
 			break;
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) + 1);
 			break;
+		case 'c':
+			osc_atom_u_setInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getInt8(a) + 1);
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt8(a) + 1);
+			break;
+		case 'u':
+			osc_atom_u_setInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getInt16(a) + 1);
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) + 1);
+			break;
 		}
 	}
 	return 0;
@@ -3214,15 +3226,27 @@ int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		case 'd':
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) - 1);
 			break;
-		case 'h':
+		case 'I':
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) - 1);
 			break;
-		case 'I':
+		case 'h':
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) - 1);
 			break;
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) - 1);
 			break;
+		case 'c':
+			osc_atom_u_setInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getInt8(a) - 1);
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt8(a) - 1);
+			break;
+		case 'u':
+			osc_atom_u_setInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getInt16(a) - 1);
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) - 1);
+			break;
 		}
 	}
 	return 0;
-- 
2.43.0


From d70fe86ef85e4634d2394750235bc7d0e166853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 053/143] fix: integers are compared exactly, not as doubles

---
 osc_expr.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 32b69ae..571eef4 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2688,6 +2688,19 @@ int osc_expr_compareTimetag(t_osc_atom_u *f1, t_osc_atom_u *f2)
 	return osc_timetag_compare(timetag1, timetag2);
 }
 
+// compares two integers of any type exactly (a double can't hold every 64-bit integer)
+static int osc_expr_compareInts(t_osc_atom_u *f1, t_osc_atom_u *f2)
+{
+	int big1 = osc_atom_u_getTypetag(f1) == 'H' && osc_atom_u_getUInt64(f1) > INT64_MAX;
+	int big2 = osc_atom_u_getTypetag(f2) == 'H' && osc_atom_u_getUInt64(f2) > INT64_MAX;
+	if(big1 != big2){
+		return big1 ? 1 : -1;
+	}
+	// if both are big, the sign bit is set in both and the order is the same
+	int64_t i1 = osc_atom_u_getInt64(f1), i2 = osc_atom_u_getInt64(f2);
+	return (i1 > i2) - (i1 < i2);
+}
+
 int osc_expr_lt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void* context)
 {
 	if(!f1 || !f2){
@@ -2702,6 +2715,8 @@ int osc_expr_lt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		osc_atom_u_setFalse(*result);
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setTrue(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) < 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) < osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2732,6 +2747,8 @@ int osc_expr_le(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		osc_atom_u_setFalse(*result);
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setTrue(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) <= 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) <= osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2762,6 +2779,8 @@ int osc_expr_gt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		osc_atom_u_setTrue(*result);
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setFalse(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) > 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) > osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2792,6 +2811,8 @@ int osc_expr_gte(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		osc_atom_u_setTrue(*result);
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setFalse(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) >= 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) >= osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2820,6 +2841,8 @@ int osc_expr_eq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		osc_atom_u_setBool(*result, ret == 0);
 		//}else if((tt1 == 's') || (tt2 == 's')){
 		//osc_atom_u_setFalse(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) == 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) == osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2867,6 +2890,8 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		osc_atom_u_setBool(*result, ret != 0);
 		//}else if((tt1 == 's') || (tt2 == 's')){
 		//osc_atom_u_setTrue(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) != 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) != osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
-- 
2.43.0


From affccabaf5740313eb8f87429276c992ad8f1281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 054/143] fix: != knows nil, as == does

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 571eef4..6b3b7c3 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2897,6 +2897,10 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
 		 (tt2 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt2))){
 		osc_atom_u_setBool(*result, osc_expr_compareTimetag(f1, f2) != 0);
+	}else if(tt1 == 'N' && tt2 == 'N'){
+		osc_atom_u_setBool(*result, 0);
+	}else if(tt1 == 'N' || tt2 == 'N'){
+		osc_atom_u_setBool(*result, 1);
 	}else if(tt1 == OSC_BUNDLE_TYPETAG && tt2 == OSC_BUNDLE_TYPETAG){
 		t_osc_bndl_u *b1 = osc_atom_u_getBndl(f1);
 		t_osc_bndl_u *b2 = osc_atom_u_getBndl(f2);
-- 
2.43.0


From 4affdc2a7b652b260ca579662ed1d6113c585971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:34 +0000
Subject: [PATCH 055/143] fix: ! looks at the whole of every kind of integer

---
 osc_expr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 6b3b7c3..95a9063 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4166,12 +4166,15 @@ int osc_expr_not(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		switch(osc_atom_u_getTypetag(osc_atom_array_u_get(*argv, i))){
-			// lazy...
 		case 'i':
 		case 'I':
 		case 'h':
 		case 'H':
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), !(osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i))));
+		case 'c':
+		case 'C':
+		case 'u':
+		case 'U':
+			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), !(osc_atom_u_getBool(osc_atom_array_u_get(*argv, i))));
 			break;
 		case 'f':
 		case 'd':
-- 
2.43.0


From 970450055664b039f8491bd6069620ab165f6fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:45 +0000
Subject: [PATCH 056/143] fix: the text quoted in a syntax error is terminated

---
 osc_expr_parser.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 524347a..d4232cf 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -253,7 +253,7 @@ void osc_expr_error_formatLocation(YYLTYPE *llocp, char *input_string, char **bu
 	int len = strlen(input_string);
 	if(llocp->first_column >= len || llocp->last_column >= len){
 		*buf = osc_mem_alloc(len + 1);
-		strncpy(*buf, input_string, len );
+		memcpy(*buf, input_string, len + 1);
 		return;
 	}
 	char s1[len * 2];
-- 
2.43.0


From f8ae67c854d534f665d9c65081f3daf999aca4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:30 +0000
Subject: [PATCH 057/143] fix: the ^ operator names a function that exists

---
 osc_expr_parser.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index d4232cf..71a2b89 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -1261,7 +1261,7 @@ expr:
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "%", $1, $3);
  	}
 	| arg '^' arg {
-		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "^", $1, $3);
+		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "pow", $1, $3);
  	}
 	| arg OSC_EXPR_EQ arg {
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "==", $1, $3);
@@ -1309,7 +1309,7 @@ expr:
 		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "%", $1, $3);
  	}
 	| arg OSC_EXPR_POWEQ arg {
-		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "^", $1, $3);
+		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "pow", $1, $3);
  	}
 	| OSC_EXPR_OSCADDRESS '.' OSC_EXPR_OSCADDRESS {
 		t_osc_expr_arg *a1 = osc_expr_arg_alloc();
-- 
2.43.0


From 9daf3eb478c44e3d8aea636843e2e2383b3783e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:45 +0000
Subject: [PATCH 058/143] fix: assigning to an index looks the message up after
 its operands were evaluated

---
 osc_expr.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 95a9063..96eb261 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -929,9 +929,8 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
 		return 1;
 	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-	t_osc_msg_ar_s *msg_ar = osc_bundle_s_lookupAddress(*len, *oscbndl, f_argv->arg.osc_address, 1);
-	if(!msg_ar){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index =");
+	if(osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_OSCADDRESS){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument of assign_to_index() must be an OSC address.");
 		return 1;
 	}
 
@@ -1015,7 +1014,9 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
             osc_message_u_appendAtom(mm, cpy);
         }
 
+        // evaluating the indexes and the data may have changed the bundle, so the message is looked up now
         t_osc_msg_s *osc_msg_s = osc_message_u_serialize(mm);
+        t_osc_msg_ar_s *msg_ar = osc_bundle_s_lookupAddress(*len, *oscbndl, f_argv->arg.osc_address, 1);
         if(msg_ar){
             osc_bundle_s_replaceMessage(len, len, oscbndl, osc_message_array_s_get(msg_ar, 0), osc_msg_s);
             osc_message_array_s_free(msg_ar);
-- 
2.43.0


From bb0e42669c91d4af2beed39de677219242b342d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:45 +0000
Subject: [PATCH 059/143] fix: the token ??= is not a trigraph

---
 osc_expr.c   | 2 +-
 osc_expr_u.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 96eb261..d5e55af 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2050,7 +2050,7 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			st = "+=";
 			break;
 		case OSC_EXPR_DBLQMARKEQ:
-			st = "??=";
+			st = "?\?=";
 			break;
 		case OSC_EXPR_DBLQMARK:
 			st = "??";
diff --git a/osc_expr_u.c b/osc_expr_u.c
index 1429264..dfb858a 100644
--- a/osc_expr_u.c
+++ b/osc_expr_u.c
@@ -1993,7 +1993,7 @@ t_osc_err osc_expr_u_lex(char *str, t_osc_atom_array_u **ar)
                 st = "+=";
                 break;
             case OSC_EXPR_DBLQMARKEQ:
-                st = "??=";
+                st = "?\?=";
                 break;
             case OSC_EXPR_DBLQMARK:
                 st = "??";
-- 
2.43.0


From b6fb818acb14134557ed5cea6313f24e827d49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:09 +0000
Subject: [PATCH 060/143] fix: sums, products and ranges outside int32 keep
 their value

---
 osc_expr.c | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index d5e55af..012120e 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3433,6 +3433,22 @@ int osc_expr_assign_to_index(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_
 	return 0;
 }
 
+// sets an atom to an integral value using the smallest of the types int32, uint32, int64, and uint64 that can hold it
+static void osc_expr_setInteger(t_osc_atom_u *a, double val)
+{
+	if(val >= -2147483648. && val <= 2147483647.){
+		osc_atom_u_setInt32(a, val);
+	}else if(val > 0 && val <= 4294967295.){
+		osc_atom_u_setUInt32(a, val);
+	}else if(val >= -9223372036854775808. && val < 9223372036854775808.){
+		osc_atom_u_setInt64(a, val);
+	}else if(val > 0 && val < 18446744073709551616.){
+		osc_atom_u_setUInt64(a, val);
+	}else{
+		osc_atom_u_setDouble(a, val);
+	}
+}
+
 int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
 	*out = osc_atom_array_u_alloc(1);
@@ -3455,17 +3471,7 @@ int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	if(doubleup){
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
 	}else{
-		if(val <= 0x7fffffff){
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= ((uint32_t)0xffffffff)){
-			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0x7fffffffffffffff){
-			osc_atom_u_setInt64(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0xffffffffffffffff){
-			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, 0), val);
-		}else{
-			osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
-		}
+		osc_expr_setInteger(osc_atom_array_u_get(*out, 0), val);
 	}
 	return 0;
 }
@@ -3496,17 +3502,7 @@ int osc_expr_sum(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	if(doubleup){
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
 	}else{
-		if(val <= 0x7fffffff){
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= ((uint32_t)0xffffffff)){
-			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0x7fffffffffffffff){
-			osc_atom_u_setInt64(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0xffffffffffffffff){
-			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, 0), val);
-		}else{
-			osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
-		}
+		osc_expr_setInteger(osc_atom_array_u_get(*out, 0), val);
 	}
 	return 0;
 }
@@ -4760,7 +4756,7 @@ int osc_expr_range(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	if(ttmin == 'f' || ttmin == 'd' || ttmax == 'f' || ttmax == 'd'){
 		osc_atom_u_setDouble(r, max - min);
 	}else{
-		osc_atom_u_setInt32(r, max - min);
+		osc_expr_setInteger(r, max - min);
 	}
 	return 0;
 }
-- 
2.43.0


From 6f1e85bfe020abb2e9f84317f40140fe6de1d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:09 +0000
Subject: [PATCH 061/143] fix: the product of floats is a float, as their sum
 is

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 012120e..62b9bf7 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3465,6 +3465,10 @@ int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 		}
 		int i;
 		for(i = 0; i < len; i++){
+			char tt = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[j], i));
+			if(OSC_TYPETAG_ISFLOAT(tt)){
+				doubleup = 1;
+			}
 			val *= osc_atom_u_getDouble(osc_atom_array_u_get(argv[j], i));
 		}
 	}
-- 
2.43.0


From ad43f151665e8b214db397523c2efc00788734d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:09 +0000
Subject: [PATCH 062/143] fix: the least, greatest and median element of an
 empty list is no value

---
 osc_expr.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 62b9bf7..1a26405 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3793,9 +3793,12 @@ int comp(const void *val1, const void *val2){
 
 int osc_expr_median(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
+	long len = osc_atom_array_u_getLen(*argv);
+	if(len == 0){
+		return 0;
+	}
 	*out = osc_atom_array_u_alloc(1);
 
-	long len = osc_atom_array_u_getLen(*argv);
 	double *tmp = NULL;
 	osc_atom_array_u_getDoubleArray(*argv, &tmp);
 	qsort((void *)(tmp), len, sizeof(double), comp);
@@ -4664,7 +4667,7 @@ int osc_expr_quickhull(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 }
 
 int osc_expr_min(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context){
-	if(argc == 0){
+	if(argc == 0 || osc_atom_array_u_getLen(*argv) == 0){
 		return 0;
 	}
 	*out = osc_atom_array_u_alloc(1);
@@ -4685,7 +4688,7 @@ int osc_expr_min(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 }
 
 int osc_expr_max(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context){
-	if(argc == 0){
+	if(argc == 0 || osc_atom_array_u_getLen(*argv) == 0){
 		return 0;
 	}
 	*out = osc_atom_array_u_alloc(1);
@@ -4706,7 +4709,7 @@ int osc_expr_max(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 }
 
 int osc_expr_extrema(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context){
-	if(argc == 0){
+	if(argc == 0 || osc_atom_array_u_getLen(*argv) == 0){
 		return 0;
 	}
 	*out = osc_atom_array_u_alloc(2);
@@ -4733,7 +4736,7 @@ int osc_expr_extrema(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 }
 
 int osc_expr_range(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context){
-	if(argc == 0){
+	if(argc == 0 || osc_atom_array_u_getLen(*argv) == 0){
 		return 0;
 	}
 	*out = osc_atom_array_u_alloc(1);
-- 
2.43.0


From eef3e601fd46a7eef64ca30b8cf3a5d95561e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:09 +0000
Subject: [PATCH 063/143] fix: infinity can be the least or greatest element

---
 osc_expr.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 1a26405..9b626d7 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4673,7 +4673,7 @@ int osc_expr_min(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double min = DBL_MAX;
+	double min = HUGE_VAL;
 	t_osc_atom_u *a = NULL;
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
@@ -4694,7 +4694,7 @@ int osc_expr_max(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double max = -DBL_MAX;
+	double max = -HUGE_VAL;
 	t_osc_atom_u *a = NULL;
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
@@ -4715,7 +4715,7 @@ int osc_expr_extrema(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	*out = osc_atom_array_u_alloc(2);
 
 	int i;
-	double min = DBL_MAX, max = -DBL_MAX;
+	double min = HUGE_VAL, max = -HUGE_VAL;
 	t_osc_atom_u *amin = NULL, *amax = NULL;
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
@@ -4742,7 +4742,7 @@ int osc_expr_range(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double min = DBL_MAX, max = -DBL_MAX;
+	double min = HUGE_VAL, max = -HUGE_VAL;
 	char ttmin = 'i';
 	char ttmax = 'i';
 	//t_osc_atom_u *amin = NULL, *amax = NULL;
-- 
2.43.0


From c1c8c55ac559fb4f8cad750b556dfe56fcedd2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:09 +0000
Subject: [PATCH 064/143] fix: sortidx releases its copies of strings

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 9b626d7..6e9ac8e 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3929,7 +3929,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     for( int i = 0; i < n; i++ )
     {
         osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), sort_ar[i].index);
-        osc_mem_free(sort_ar[i].a);
+        osc_atom_u_free(sort_ar[i].a);
     }
     
     return 0;
-- 
2.43.0


From 6e52e632b8327cdee5a22928f5f06157f5d6359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:23 +0000
Subject: [PATCH 065/143] fix: the least or greatest of elements that are all
 NaN is an atom with a type

---
 osc_expr.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 6e9ac8e..d1aa4d8 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4683,7 +4683,8 @@ int osc_expr_min(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 		}
 	}
 	t_osc_atom_u *o = osc_atom_array_u_get(*out, 0);
-	osc_atom_u_copyInto(&o, a);
+	// no element compares with anything if they are all NaN
+	osc_atom_u_copyInto(&o, a ? a : osc_atom_array_u_get(*argv, 0));
 	return 0;
 }
 
@@ -4704,7 +4705,8 @@ int osc_expr_max(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 		}
 	}
 	t_osc_atom_u *o = osc_atom_array_u_get(*out, 0);
-	osc_atom_u_copyInto(&o, a);
+	// no element compares with anything if they are all NaN
+	osc_atom_u_copyInto(&o, a ? a : osc_atom_array_u_get(*argv, 0));
 	return 0;
 }
 
@@ -4730,8 +4732,8 @@ int osc_expr_extrema(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	}
 	t_osc_atom_u *omin = osc_atom_array_u_get(*out, 0);
 	t_osc_atom_u *osc = osc_atom_array_u_get(*out, 1);
-	osc_atom_u_copyInto(&omin, amin);
-	osc_atom_u_copyInto(&osc, amax);
+	osc_atom_u_copyInto(&omin, amin ? amin : osc_atom_array_u_get(*argv, 0));
+	osc_atom_u_copyInto(&osc, amax ? amax : osc_atom_array_u_get(*argv, 0));
 	return 0;
 }
 
-- 
2.43.0


From 14b103f0f906b36ea35b347b2109073a8e5ebee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:16 +0000
Subject: [PATCH 066/143] fix: nonzero and sortidx of an empty list declared
 arrays of no elements

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index d1aa4d8..8f6c761 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3914,7 +3914,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     long n = osc_atom_array_u_getLen(argv[0]);
     
     *out = osc_atom_array_u_alloc(n);
-    t_sortIndexStruct sort_ar[n];
+    t_sortIndexStruct sort_ar[n + 1];
     
     for(int i = 0; i < n; i++)
     {
@@ -3938,7 +3938,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 int osc_expr_nonzero(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
 	long n = osc_atom_array_u_getLen(argv[0]);
-	long idxs[n];
+	long idxs[n + 1];
 	long idxcount = 0;
 	for(int i = 0; i < n; i++){
 		t_osc_atom_u *a = osc_atom_array_u_get(argv[0], i);
-- 
2.43.0


From e62f7bd83a32cb65fa7c9d7717f41d95612791a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:43 +0000
Subject: [PATCH 067/143] fix: the expression parser releases the text of
 addresses it has copied

---
 osc_expr_parser.y | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 71a2b89..fdd3ee8 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -579,6 +579,7 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 		char *buf = osc_mem_alloc(len);
 		memcpy(buf, st, len);
 		osc_expr_arg_setOSCAddress(a, buf);
+		osc_atom_u_free(value);
 	}else{
 		osc_expr_arg_setOSCAtom(a, value);
 	}
@@ -1321,8 +1322,8 @@ expr:
 		osc_atom_u_getString($3, 0, &ptr);
 		osc_expr_arg_setOSCAddress(a2, ptr);
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, ".", a1, a2);
-		osc_mem_free($1);
-		osc_mem_free($3);
+		osc_atom_u_free($1);
+		osc_atom_u_free($3);
 	}
 	| OSC_EXPR_STRING '.' OSC_EXPR_OSCADDRESS {
 		t_osc_expr_arg *a1 = osc_expr_arg_alloc();
@@ -1336,7 +1337,7 @@ expr:
 		osc_expr_arg_setOSCAddress(a2, ptr);
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, ".", a1, a2);
 		//osc_mem_free($1);
-		osc_mem_free($3);
+		osc_atom_u_free($3);
 	}
 	/* | OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS arg CLOSE_DBL_BRKTS '.' OSC_EXPR_OSCADDRESS{ */
 	/* 	printf("here\n"); */
@@ -1463,8 +1464,8 @@ expr:
 		osc_expr_arg_append(a1, a2);
 		osc_expr_arg_append(a1, $5);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "assigntobundlemember", a1);
-		osc_mem_free($1);
-		osc_mem_free($3);
+		osc_atom_u_free($1);
+		osc_atom_u_free($3);
 	}
 	| OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS arg ':' arg CLOSE_DBL_BRKTS '=' arg{
 		char *ptr = NULL;
-- 
2.43.0


From dace31edef6e9cccb727c90610485adfa95530dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:43 +0000
Subject: [PATCH 068/143] fix: an address between backticks is a copy, not a
 pointer into an atom that leaks

---
 osc_expr_parser.y | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index fdd3ee8..ab73b60 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -1618,8 +1618,11 @@ expr:
 	}
 	| '`' OSC_EXPR_OSCADDRESS '`' {
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
-		osc_expr_arg_setOSCAddress(arg, osc_atom_u_getStringPtr($2));
+		char *ptr = NULL;
+		osc_atom_u_getString($2, 0, &ptr);
+		osc_expr_arg_setOSCAddress(arg, ptr);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "value", arg);
+		osc_atom_u_free($2);
 	}
 // invalid constructs that result in errors
 	| OSC_EXPR_STRING OSC_EXPR_INC '=' arg {
-- 
2.43.0


From ec91739559ddc794ff18074af4ec34eeac049572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:43 +0000
Subject: [PATCH 069/143] fix: a lambda keeps the expressions that follow one
 that is not a call

---
 osc_expr_parser.y | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index ab73b60..246e6c0 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -857,8 +857,10 @@ function:
 			}else{
 				t_osc_expr *e = osc_expr_alloc();
 				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
+				t_osc_expr_arg *next = osc_expr_arg_next(aaa);
+				osc_expr_arg_setNext(aaa, NULL);
 				osc_expr_prependArg(e, aaa);
-				aaa = osc_expr_arg_next(aaa);
+				aaa = next;
 				osc_expr_appendExpr(exprlist, e);
 			}
 			/*
-- 
2.43.0


From d4ea7b25381817950dcdab2af5e8ca3817c611a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:43 +0000
Subject: [PATCH 070/143] fix: the scanner releases the buffer of a string with
 escaped quotes

---
 osc_expr_scanner.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index cfa5e41..14ee7f4 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -200,11 +200,11 @@ quote[[:space:]]*\( {
 <quote>\" {
 	BEGIN(0);
 	if(*buf){
-		t_osc_atom_u *a = osc_atom_u_alloc();
 		//osc_atom_u_setStringPtr(a, *buf);
 		//osc_atom_u_setShouldFreePtr(a, 1);
 		yylval->atom = osc_atom_u_allocWithString(*buf);
 		//yylval->string = *buf;
+		osc_mem_free(*buf);
 		*buf = NULL;
 		*buflen = 0;
 		return OSC_EXPR_STRING;
-- 
2.43.0


From 4497d24b9dfcbe5afc216527a9f4e6483d355d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:39 +0000
Subject: [PATCH 071/143] fix: a lambda releases the arguments it has copied

---
 osc_expr_parser.y | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 246e6c0..bf70120 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -832,7 +832,6 @@ function:
 			t_osc_expr_arg *aaacpy = NULL;
 			osc_expr_arg_copy(&aaacpy, aaa);
 			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
 			t_osc_expr_arg *old = aaa;
 			aaa = osc_expr_arg_next(aaa);
 			osc_expr_arg_free(old);
@@ -953,7 +952,6 @@ function:
 			t_osc_expr_arg *aaacpy = NULL;
 			osc_expr_arg_copy(&aaacpy, aaa);
 			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
 			t_osc_expr_arg *old = aaa;
 			aaa = osc_expr_arg_next(aaa);
 			osc_expr_arg_free(old);
@@ -980,7 +978,6 @@ function:
 				t_osc_expr_arg *aaacpy = NULL;
 				osc_expr_arg_copy(&aaacpy, aaa);
 				osc_expr_prependArg(e, aaacpy);
-				osc_expr_arg_setExpr(aaa, NULL);
 				t_osc_expr_arg *old = aaa;
 				aaa = osc_expr_arg_next(aaa);
 				osc_expr_arg_free(old);
@@ -1055,7 +1052,6 @@ function:
 			t_osc_expr_arg *aaacpy = NULL;
 			osc_expr_arg_copy(&aaacpy, aaa);
 			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
 			t_osc_expr_arg *old = aaa;
 			aaa = osc_expr_arg_next(aaa);
 			osc_expr_arg_free(old);
@@ -1082,7 +1078,6 @@ function:
 				t_osc_expr_arg *aaacpy = NULL;
 				osc_expr_arg_copy(&aaacpy, aaa);
 				osc_expr_prependArg(e, aaacpy);
-				osc_expr_arg_setExpr(aaa, NULL);
 				t_osc_expr_arg *old = aaa;
 				aaa = osc_expr_arg_next(aaa);
 				osc_expr_arg_free(old);
-- 
2.43.0


From 1a2905636ecf2a81035185be8e0fb35866c1a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 072/143] fix: the text of an expression that does not parse is
 not used as a format

---
 osc_expr_parser.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index bf70120..c8878a8 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -309,7 +309,7 @@ void osc_expr_error(void *context, YYLTYPE *llocp,
 				  NULL,
 				  -1,
 				  errorcode,
-				  buf);
+				  "%s", buf);
 	}else{
 	  osc_error_handler(context,
 					__FILE__,//basename(__FILE__),
@@ -387,7 +387,7 @@ int osc_expr_parser_checkArity(void* context, YYLTYPE *llocp, char *input_string
  void yyerror(YYLTYPE *llocp, t_osc_expr **exprstack, t_osc_expr **tmp_exprstack, t_osc_expr_rec **rec, void *scanner, char *input_string, long *buflen, char **buf, int startcond, int *started, void *context, char const *e)
 {
 //	printf("(yyerror) %s context %p\n", __func__, context);
-	osc_expr_error(context, llocp, input_string, OSC_ERR_EXPPARSE, e);
+	osc_expr_error(context, llocp, input_string, OSC_ERR_EXPPARSE, "%s", e);
 }
 
 void osc_expr_parser_reportUnknownFunctionError(void *context, YYLTYPE *llocp,
-- 
2.43.0


From fa921e7eb45acacaf8734cf06cd94beb5684c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 073/143] fix: the expression parser releases the buffer of an
 unterminated string

---
 osc_expr_parser.y | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index c8878a8..cf4927e 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -193,6 +193,10 @@ t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context)
 	t_osc_err ret = osc_expr_parser_parse(&exprstack, &tmp_exprstack, NULL, scanner, ptr, &buflen, &buf, startcond, &started, context);
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
+	if(buf){
+		// a string with escaped quotes that does not end
+		osc_mem_free(buf);
+	}
 	if(tmp_exprstack){
 		if(exprstack){
 			osc_expr_appendExpr(exprstack, tmp_exprstack);
@@ -237,6 +241,9 @@ t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *con
 
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
+	if(buf){
+		osc_mem_free(buf);
+	}
 	return ret;
 }
 
-- 
2.43.0


From 5e1b59140e4ee265ce2f31e4a26dd793482d8c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:37 +0000
Subject: [PATCH 074/143] fix: a call without arguments declared an array of no
 elements

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 8f6c761..2f22c3b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -176,7 +176,7 @@ int osc_expr_evalInLexEnv(t_osc_expr *f,
         // printf("function call \n" );
 		long f_argc = osc_expr_getArgCount(f);
 		t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-		t_osc_atom_ar_u *argv[f_argc];
+		t_osc_atom_ar_u *argv[f_argc + 1]; // f_argc may be 0
 		memset(argv, '\0', sizeof(argv));
 		int ret = 0;
 		int i = 0;
-- 
2.43.0


From 2f6adb96aa3e9f9380fa53df4857d359a6496868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:37 +0000
Subject: [PATCH 075/143] fix: if() with an empty list as its test wrote past
 an array of no elements

---
 osc_expr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 2f22c3b..aaaab18 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1082,7 +1082,8 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
 		return err;
 	}
 
-	int test_result_len = osc_atom_array_u_getLen(argv);
+	// only the first element of the test is used, and there may be none
+	int test_result_len = 1;
 	t_osc_atom_ar_u *boolvec[test_result_len];
 	memset(boolvec, '\0', test_result_len * sizeof(t_osc_atom_ar_u *));
 	int outlen = 0;
-- 
2.43.0


From e641c68b93690a879ef6a512134166a41731c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:58 +0000
Subject: [PATCH 076/143] fix: an argument of another kind is not read as an
 address, atom, expression or function

---
 osc_expr.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index aaaab18..78785d2 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6856,7 +6856,7 @@ inline int osc_expr_arg_getType(t_osc_expr_arg *a)
 
 inline t_osc_atom_u *osc_expr_arg_getOSCAtom(t_osc_expr_arg *a)
 {
-	if(a){
+	if(a && a->type == OSC_EXPR_ARG_TYPE_ATOM){
 		return a->arg.atom;
 	}
 	return NULL;
@@ -6864,7 +6864,7 @@ inline t_osc_atom_u *osc_expr_arg_getOSCAtom(t_osc_expr_arg *a)
 
 inline t_osc_expr *osc_expr_arg_getExpr(t_osc_expr_arg *a)
 {
-	if(a){
+	if(a && a->type == OSC_EXPR_ARG_TYPE_EXPR){
 		return a->arg.expr;
 	}
 	return NULL;
@@ -6872,7 +6872,7 @@ inline t_osc_expr *osc_expr_arg_getExpr(t_osc_expr_arg *a)
 
 inline char *osc_expr_arg_getOSCAddress(t_osc_expr_arg *a)
 {
-	if(a){
+	if(a && a->type == OSC_EXPR_ARG_TYPE_OSCADDRESS){
 		return a->arg.osc_address;
 	}
 	return NULL;
@@ -6880,7 +6880,7 @@ inline char *osc_expr_arg_getOSCAddress(t_osc_expr_arg *a)
 
 inline t_osc_expr_rec *osc_expr_arg_getFunction(t_osc_expr_arg *a)
 {
-	if(a){
+	if(a && a->type == OSC_EXPR_ARG_TYPE_FUNCTION){
 		return a->arg.func;
 	}
 	return NULL;
@@ -7319,7 +7319,8 @@ static void osc_expr_err_badInfixArg(void *context, char *func, char typetag, in
 
 static void osc_expr_err_unbound(void *context, char *address, char *func)
 {
-	osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s: address %s is unbound", func, address);
+	// an expression that contains an unbound address has no address of its own
+	osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s: address %s is unbound", func, address ? address : "in argument");
 }
 
 static void osc_expr_err_argnum(void *context, unsigned int expected, unsigned int found, unsigned int optional_args_allowed, char *func)
-- 
2.43.0


From 952cbe5aa4189036f9ce2226c218c8b5775d6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:58 +0000
Subject: [PATCH 077/143] fix: apply() checks the number of arguments, handles
 errors in them and leaves its expression as it was

---
 osc_expr.c | 64 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 78785d2..3446ce7 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -336,6 +336,20 @@ t_osc_err osc_expr_evalArgInLexEnv(t_osc_expr_arg *arg,
 // Special functions
 //////////////////////////////////////////////////
 
+// the parser checks the number of arguments of the calls it sees, but not of those made by apply()
+static int osc_expr_checkArgCount(t_osc_expr *f, void *context)
+{
+	t_osc_expr_rec *r = osc_expr_getRec(f);
+	long n = osc_expr_getArgCount(f);
+	long required = osc_expr_rec_getNumRequiredArgs(r);
+	long optional = osc_expr_rec_getNumOptionalArgs(r);
+	if(n < required || (optional >= 0 && n > required + optional)){
+		osc_expr_err_argnum(context, required, n, optional != 0, osc_expr_rec_getName(r));
+		return 1;
+	}
+	return 0;
+}
+
 static int osc_expr_specFunc_apply(t_osc_expr *f,
 			    t_osc_expr_lexenv *lexenv,
 			    long *len,
@@ -380,9 +394,15 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		for(int i = 0; (i < nparams) && arg; i++){
 			t_osc_atom_ar_u *atoms = NULL;
 			t_osc_err e = osc_expr_evalArgInLexEnv(arg, lexenv, len, oscbndl, &atoms, context);
-			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(arg), "apply");
-				return e;
+			if(e || !atoms){
+				if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
+					osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(arg), "apply");
+				}
+				if(atoms){
+					osc_atom_array_u_free(atoms);
+				}
+				osc_expr_destroyLexenv(lexenv_copy);
+				return e ? e : 1;
 			}
 			osc_expr_bindVarInLexenv(lexenv_copy, params[i], atoms);
 			arg = arg->next;
@@ -390,7 +410,7 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		t_osc_expr *e = (t_osc_expr *)osc_expr_rec_getExtra(r);
 		while(e){
 			int ret =  osc_expr_evalInLexEnv(e, lexenv_copy, len, oscbndl, out, context);
-			if(e->next){
+			if(e->next && *out){
 				osc_atom_array_u_free(*out);
 				*out = NULL;
 			}
@@ -423,14 +443,18 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 				t_osc_atom_ar_u *xx = osc_expr_lookupBindingInLexenv(lexenv, osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)));
 				if(osc_atom_u_getTypetag(osc_atom_array_u_get(xx, 0)) == 'r'){
 					r = osc_atom_u_getRec(osc_atom_array_u_get(xx, 0));
+					// the function and the other arguments still belong to the bindings and to f
+					t_osc_expr *e = osc_expr_alloc();
 					t_osc_expr_arg *a = osc_expr_arg_alloc();
 					osc_expr_arg_setFunction(a, r);
 					osc_expr_arg_setNext(a, f_argv->next);
-					osc_expr_setArg(f, a);
-					int ret = osc_expr_specFunc_apply(f, lexenv, len, oscbndl, out, context);
-					//osc_expr_setArg(f, f_argv);
-					//osc_expr_arg_setNext(a, NULL);
-					//osc_expr_arg_free(a);
+					osc_expr_setRec(e, osc_expr_getRec(f));
+					osc_expr_setArg(e, a);
+					int ret = osc_expr_specFunc_apply(e, lexenv, len, oscbndl, out, context);
+					e->argc = 0;
+					e->argv = NULL;
+					osc_expr_free(e);
+					osc_mem_free(a);
 					return ret;
 				}
 				//osc_atom_array_u_free(xx);
@@ -440,19 +464,14 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 			t_osc_err e = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
 			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
 				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "apply");
-				return e;
 			}
-			if(!ar){
+			if(e || !ar || osc_atom_array_u_getLen(ar) != 1 ||
+			   osc_atom_u_getTypetag(osc_atom_array_u_get(ar, 0)) != 's'){
 				//error
-				return 1;
-			}
-			if(osc_atom_array_u_getLen(ar) != 1){
-				//error
-				return 1;
-			}
-			if(osc_atom_u_getTypetag(osc_atom_array_u_get(ar, 0)) != 's'){
-				//error
-				return 1;
+				if(ar){
+					osc_atom_array_u_free(ar);
+				}
+				return e ? e : 1;
 			}
 			char *stp = osc_atom_u_getStringPtr(osc_atom_array_u_get(ar, 0));
 			r = osc_expr_lookupFunction(stp);
@@ -502,7 +521,10 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		t_osc_expr *e = osc_expr_alloc();
 		osc_expr_setRec(e, r);
 		osc_expr_setArg(e, f_argv->next);
-		int ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, out, context);
+		int ret = osc_expr_checkArgCount(e, context);
+		if(!ret){
+			ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, out, context);
+		}
 		e->argc = 0;
 		e->argv = NULL;
 		osc_expr_free(e);
-- 
2.43.0


From ade29bfc75ea1e6872bed0d8c32d1329ad0fb698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:19 +0000
Subject: [PATCH 078/143] fix: map() of an empty list declared an array of no
 elements, and errors in its calls were ignored

---
 osc_expr.c | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 3446ce7..0ca21bd 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -556,15 +556,17 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 	int ac = f_argc - 1;
 	t_osc_atom_ar_u *args[ac];
 	memset(args, '\0', ac * sizeof(t_osc_atom_ar_u *));
-	uint32_t min = ~0;
+	int min = 0;
 	int i = 0;
 	t_osc_expr_arg *a = f_argv->next;
 	while(a){
 		t_osc_err err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, args + i, context);
-		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), "map");
-			// assume whoever generated this will post an error
-			for(int j = 0; j < i; j++){
+		if(err){
+			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), "map");
+			}
+			// otherwise assume whoever generated this will post an error
+			for(int j = 0; j <= i; j++){
 				if(args[j]){
 					osc_atom_array_u_free(args[j]);
 				}
@@ -574,8 +576,8 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 			osc_expr_free(e);
 			return err;
 		}
-		int count = osc_atom_array_u_getLen(args[i]);
-		if(count < min){
+		int count = args[i] ? osc_atom_array_u_getLen(args[i]) : 0;
+		if(i == 0 || count < min){
 			min = count;
 		}
 		i++;
@@ -591,22 +593,29 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 		osc_expr_appendArg(e, func_args[i]);
 	}
 
-	t_osc_atom_ar_u *output[min];
-	memset(output, '\0', min * sizeof(t_osc_atom_ar_u *));
+	t_osc_atom_ar_u *output[min + 1]; // min may be 0
+	memset(output, '\0', sizeof(output));
+	int ret = 0;
 	int outcount = 0;
-	for(i = 0; i < min; i++){
+	for(i = 0; i < min && !ret; i++){
 		int j;
 		for(j = 0; j < ac; j++){
 			osc_expr_arg_setOSCAtom(func_args[j + 1], osc_atom_array_u_get(args[j], i));
 		}
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, output + i, context);
-		outcount += osc_atom_array_u_getLen(output[i]);
+		ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, output + i, context);
+		if(output[i]){
+			outcount += osc_atom_array_u_getLen(output[i]);
+		}
 	}
-	*out = osc_atom_array_u_alloc(outcount);
-	int pos = 0;
-	for(i = 0; i < min; i++){
-		osc_atom_array_u_copyInto(out, output[i], pos);
-		pos += osc_atom_array_u_getLen(output[i]);
+	if(!ret){
+		*out = osc_atom_array_u_alloc(outcount);
+		int pos = 0;
+		for(i = 0; i < min; i++){
+			if(output[i]){
+				osc_atom_array_u_copyInto(out, output[i], pos);
+				pos += osc_atom_array_u_getLen(output[i]);
+			}
+		}
 	}
 	e->argv = NULL;
 	e->argc = 0;
@@ -631,7 +640,7 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 			osc_atom_array_u_free(output[i]);
 		}
 	}
-	return 0;
+	return ret;
 }
 
 static int osc_expr_specFunc_reduce(t_osc_expr *f,
-- 
2.43.0


From 3ce153c0a9df43d1b052de87fe7775c30c4775bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:19 +0000
Subject: [PATCH 079/143] fix: lreduce and rreduce handle the empty list, an
 initial value and errors in their calls

---
 osc_expr.c | 139 ++++++++++++++++++++++-------------------------------
 1 file changed, 57 insertions(+), 82 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 0ca21bd..898ff2f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -670,106 +670,81 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 		osc_expr_appendArg(e, func_args[i]);
 	}
 
+	const char *name = f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce";
 	t_osc_atom_ar_u *args = NULL;
+	t_osc_atom_ar_u *output = NULL;
+	t_osc_atom_u *acc = NULL; // the value accumulated so far
 	t_osc_expr_arg *a = f_argv->next;
-	int err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &args, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
-				     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
-		if(args){
-			osc_atom_array_u_free(args);
-		}
-		for(int i = 0; i < ac; i++){
-			if(func_args[i]){
-				osc_expr_arg_free(func_args[i]);
-			}
+	int ret = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &args, context);
+	if(ret){
+		if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND){
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), (char *)name);
 		}
-		e->argv = NULL;
-		e->argc = 0;
-		osc_expr_free(e);
-		return err;
+		goto cleanup;
 	}
-	int count = osc_atom_array_u_getLen(args);
+	// the value of an empty list may be no array at all
+	int count = args ? osc_atom_array_u_getLen(args) : 0;
 
 	int arg0 = 1;
 	int arg1 = 2;
 	int delta = 1;
-	int start = 0;
+	int pos = 0;
 	if(f->rec->func == osc_expr_rreduce){
 		arg0 = 2;
 		arg1 = 1;
 		delta = -1;
-		start = count - 1;
+		pos = count - 1;
 	}
 
-	if(count == 0){
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, out, context);
-		if(args){
-			osc_atom_array_u_free(args);
+	if(f_argc > 2){
+		// the initial value
+		a = f_argv->next->next;
+		ret = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &output, context);
+		if(ret || !output || osc_atom_array_u_getLen(output) == 0){
+			if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), (char *)name);
+			}
+			ret = ret ? ret : 1;
+			goto cleanup;
 		}
-	}else if(count == 1 && f_argc == 2){
-		*out = args;
+	}else if(count == 0){
+		// call the function without arguments
+		osc_expr_arg_setNext(func_args[0], NULL);
+		e->argc = 1;
+		ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
 	}else{
-		t_osc_atom_ar_u *output = NULL;
-		if(f_argc == 3){
-			t_osc_atom_ar_u *sc = NULL;
-			t_osc_err err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &sc, context);
-			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
-						     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
-				if(args){
-					osc_atom_array_u_free(args);
-				}
-				for(int i = 0; i < ac; i++){
-					if(func_args[i]){
-						osc_expr_arg_free(func_args[i]);
-					}
-				}
-				e->argv = NULL;
-				e->argc = 0;
-				osc_expr_free(e);
-				return err;
-			}
-			if(sc){
-				t_osc_atom_u *acopy = NULL;
-				osc_atom_u_copyInto(&acopy, osc_atom_array_u_get(sc, 0));
-				osc_expr_arg_setOSCAtom(func_args[arg0], acopy);
-				if(sc){
-					osc_atom_array_u_free(sc);
-				}
-			}else{
-				//error
-				return 1;
-			}
-			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, start));
-			start += delta;
-		}else{
-			osc_expr_arg_setOSCAtom(func_args[arg0], osc_atom_array_u_get(args, start));
-			start += delta;
-			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, start));
-			start += delta;
-		}
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
-
-		for(int i = start; delta > 0 ? i < count : i >= 0; i += delta){
-			t_osc_atom_u *copy1 = NULL;
-			t_osc_atom_u *copy2 = NULL;
-			osc_atom_u_copyInto(&copy1, osc_atom_array_u_get(output, 0));
-			osc_atom_u_copyInto(&copy2, osc_atom_array_u_get(args, i));
-			osc_expr_arg_setOSCAtom(func_args[arg0], copy1);
-			osc_expr_arg_setOSCAtom(func_args[arg1], copy2);
+		output = osc_atom_array_u_alloc(1);
+		t_osc_atom_u *first = osc_atom_array_u_get(output, 0);
+		osc_atom_u_copyInto(&first, osc_atom_array_u_get(args, pos));
+		pos += delta;
+	}
+
+	for(; pos >= 0 && pos < count; pos += delta){
+		osc_atom_u_copyInto(&acc, osc_atom_array_u_get(output, 0));
+		osc_atom_array_u_free(output);
+		output = NULL;
+		osc_expr_arg_setOSCAtom(func_args[arg0], acc);
+		osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, pos));
+		ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
+		osc_atom_u_free(acc);
+		acc = NULL;
+		if(ret || !output || osc_atom_array_u_getLen(output) == 0){
+			ret = ret ? ret : 1;
+			goto cleanup;
+		}
+	}
+
+cleanup:
+	if(ret){
+		if(output){
 			osc_atom_array_u_free(output);
-			output = NULL;
-			osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
-			osc_expr_arg_clear(func_args[arg0]);
-			osc_expr_arg_clear(func_args[arg1]);
 		}
+	}else{
 		*out = output;
-		if(args){
-			osc_atom_array_u_free(args);
-		}
 	}
-
+	if(args){
+		osc_atom_array_u_free(args);
+	}
 	e->argv = NULL;
 	e->argc = 0;
 	osc_expr_free(e);
@@ -781,11 +756,11 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 		if(func_args[i]){
 			// it looks like a bug to free a t_osc_expr_arg with osc_mem_free,
 			// but we don't want to free the underlying t_osc_atom_u because
-			// it will be freed when args is freed.
+			// it does not belong to the argument.
 			osc_mem_free(func_args[i]);
 		}
 	}
-	return 0;
+	return ret;
 }
 
 static int osc_expr_specFunc_assign(t_osc_expr *f,
-- 
2.43.0


From 85649a90d06af3fa0791821622cb738d847b141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:08 +0000
Subject: [PATCH 080/143] fix: the value of an expression has no elements
 without a type

---
 osc_expr.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 898ff2f..3b7278f 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -202,6 +202,18 @@ int osc_expr_evalInLexEnv(t_osc_expr *f,
 			i++;
 		}
 	        ret = f->rec->func(f, f_argc, argv, out, context);
+		if(!ret){
+			// a function that does not know what to do with an argument leaves its result unset
+			for(i = 0; i < osc_atom_array_u_getLen(*out); i++){
+				if(!osc_atom_u_getTypetag(osc_atom_array_u_get(*out, i))){
+					osc_error(context, OSC_ERR_EXPR_ARGCHK, "%s: argument of a wrong type", osc_expr_rec_getName(osc_expr_getRec(f)));
+					osc_atom_array_u_free(*out);
+					*out = NULL;
+					ret = 1;
+					break;
+				}
+			}
+		}
 		for(i = 0; i < f_argc; i++){
 			if(argv[i]){
 				osc_atom_array_u_free(argv[i]);
-- 
2.43.0


From b18a8d0b8b131799ccc2b49944c92f7bcb5aac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:08 +0000
Subject: [PATCH 081/143] fix: strcmp of an empty list is an error, not a null
 pointer

---
 osc_expr.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 3b7278f..5c075be 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5178,6 +5178,16 @@ int osc_expr_strcmp(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 	char *st1 = NULL, *st2 = NULL;
 	osc_atom_u_getString(osc_atom_array_u_get(*argv, 0), 0, &st1);
 	osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &st2);
+	if(!st1 || !st2){
+		if(st1){
+			osc_mem_free(st1);
+		}
+		if(st2){
+			osc_mem_free(st2);
+		}
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "strcmp: expected two strings");
+		return 1;
+	}
 	int ret = 0;
 	if(argc == 3){
 		int n = osc_atom_u_getInt(osc_atom_array_u_get(argv[2], 0));
-- 
2.43.0


From 0531d6d7fe4d1d8515a4812bab992140f5f00283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:08 +0000
Subject: [PATCH 082/143] fix: strfind and split release their copies of the
 strings on every path

---
 osc_expr.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 5c075be..13b70c9 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5272,6 +5272,12 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &str);
     osc_atom_u_getString(osc_atom_array_u_get(argv[0], 0), 0, &substr);
     if(!substr || !str){
+        if(substr){
+            osc_mem_free(substr);
+        }
+        if(str){
+            osc_mem_free(str);
+        }
         return 1;
     }
     // strfind( "/foo", "/foo/bar" )
@@ -5280,6 +5286,8 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     long substrlen = strlen(substr);
     if(substrlen == 0)
     {
+        osc_mem_free(substr);
+        osc_mem_free(str);
         return 0;
     }
     
@@ -5317,6 +5325,12 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &str);
 	osc_atom_u_getString(osc_atom_array_u_get(argv[0], 0), 0, &sep);
 	if(!sep || !str){
+		if(sep){
+			osc_mem_free(sep);
+		}
+		if(str){
+			osc_mem_free(str);
+		}
 		return 1;
 	}
 	if(strlen(sep) == 0){
@@ -5326,6 +5340,8 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			t_osc_atom_u *a = osc_atom_array_u_get(*out, i);
 			osc_atom_u_setInt8(a, str[i]);
 		}
+		osc_mem_free(sep);
+		osc_mem_free(str);
 		return 0;
 	}
 	int n = 16;
-- 
2.43.0


From ef0067c577a40773a2e6df0222a853e0dd3140ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:08 +0000
Subject: [PATCH 083/143] fix: join of nothing, with an empty list as separator
 or of characters that do not print

---
 osc_expr.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 13b70c9..5b926fc 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5381,14 +5381,12 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 	int seplen = 0;
 	if(sep){
 		seplen = strlen(sep);
-	}else{
-		sep = "";
 	}
 	int n = 0;
 	for(int i = 1; i < argc; i++){
 		n += osc_atom_array_u_getLen(argv[i]);
 	}
-	char *ptrs[n];
+	char *ptrs[n + 1]; // n may be 0
 	int len = 0;
 	n = 0;
 	for(int i = 1; i < argc; i++){
@@ -5398,7 +5396,8 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 			osc_atom_u_getString(a, 0, &ptr);
 			char tt = osc_atom_u_getTypetag(a);
 			if(tt == 'c' || tt == 'C'){
-				ptr[0] = ptr[1];
+				// the text of a character is at least one character long
+				ptr[0] = osc_atom_u_getInt8(a);
 				ptr[1] = 0;
 			}
 			ptrs[n++] = ptr;
@@ -5410,12 +5409,13 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 	len++;
 	char *buf = (char *)osc_mem_alloc(len);
 	char *bufptr = buf;
+	*buf = '\0';
 	for(int i = 0; i < n; i++){
 		if(ptrs[i]){
 			if(i == n - 1){
 				bufptr += sprintf(bufptr, "%s", ptrs[i]);
 			}else{
-				bufptr += sprintf(bufptr, "%s%s", ptrs[i], sep);
+				bufptr += sprintf(bufptr, "%s%s", ptrs[i], sep ? sep : "");
 			}
 			osc_mem_free(ptrs[i]);
 		}
-- 
2.43.0


From ab40eff0bc7b872e7af3aa171a4e11f2f07b02fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:47 +0000
Subject: [PATCH 084/143] fix: nextafter takes two arguments

---
 osc_expr_func.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/osc_expr_func.h b/osc_expr_func.h
index 524b4fc..514155f 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -1249,16 +1249,16 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (void *)logb},
 	//////////////////////////////////////////////////
 	{"nextafter",
-	 "/result = nextafter($1)",
-	 1,
+	 "/result = nextafter($1, $2)",
+	 2,
 	 0,
-	 (char *[]){"x"},
-	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
+	 (char *[]){"x", "y"},
+	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR, OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
 	 (char *[]){NULL},
 	 (int []){},
 	 (char *[]){"/math/constant", NULL},
-	 "Next representable double-precision floating-point number",
-	 osc_expr_1arg_dbl,
+	 "Next representable double-precision floating-point number after x in the direction of y",
+	 osc_expr_2arg_dbl_dbl,
 	 (void *)nextafter},
 	//////////////////////////////////////////////////
 	{"remainder",
-- 
2.43.0


From b6fcdcc758c153c3af79752b186c2b5f658eaebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:47 +0000
Subject: [PATCH 085/143] fix: exists() and bound() release the address they
 have evaluated

---
 osc_expr.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 5b926fc..ec1128b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1275,7 +1275,9 @@ static int osc_expr_specFunc_existsorbound(t_osc_expr *f,
 						osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
 					}
 				}
-				osc_atom_array_u_free(ar);
+				if(ar){
+					osc_atom_array_u_free(ar);
+				}
 				return 0;
 			}else{
 				t_osc_atom_ar_u *ar = NULL;
@@ -1299,10 +1301,13 @@ static int osc_expr_specFunc_existsorbound(t_osc_expr *f,
 						osc_atom_array_u_free(ar);
 						goto err;
 					}
+					osc_atom_array_u_free(ar);
 					if(address[0] != '/'){
-						osc_atom_array_u_free(ar);
+						osc_mem_free(address);
 						goto err;
 					}
+				}else if(ar){
+					osc_atom_array_u_free(ar);
 				}
 			}
 		}
-- 
2.43.0


From 46876c910f47a940db9fcb3bc1a757086a843552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:47 +0000
Subject: [PATCH 086/143] fix: delete() releases its copy of the address

---
 osc_expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_expr.c b/osc_expr.c
index ec1128b..76dc931 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1429,6 +1429,7 @@ static int osc_expr_specFunc_delete(t_osc_expr *f,
 				char *st = NULL;
 				osc_atom_u_getString(a, 0, &st);
 				osc_bundle_s_removeMessage(st, len, *oscbndl, 1);
+				osc_mem_free(st);
 			}
 		}
 		f_argv = f_argv->next;
-- 
2.43.0


From e6c4e3e8a9caed5103cac40c472214543ee85ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:47 +0000
Subject: [PATCH 087/143] fix: emptybundle() releases its argument and passes
 on errors in it

---
 osc_expr.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 76dc931..9380c45 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1182,17 +1182,24 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 	if(!len || !oscbndl){
 		return 1;
 	}
-	*out = osc_atom_array_u_alloc(1);
-	
 	int f_argc = osc_expr_getArgCount(f);
+	if(!f_argc){
+		*out = osc_atom_array_u_alloc(1);
+	}
 	if(f_argc){
 		t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 		t_osc_atom_ar_u *ar = NULL;
 		t_osc_err r = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
 		if(r == OSC_ERR_EXPR_ADDRESSUNBOUND){
 			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), osc_expr_rec_getName(osc_expr_getRec(f)));
+		}
+		if(r){
+			if(ar){
+				osc_atom_array_u_free(ar);
+			}
 			return r;
 		}
+		*out = osc_atom_array_u_alloc(1);
 		if(ar && osc_atom_array_u_getLen(ar) > 0){
 			t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
 			if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
@@ -1207,6 +1214,9 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 		}else{
 			osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
 		}
+		if(ar){
+			osc_atom_array_u_free(ar);
+		}
 	}else{
 		if(*len == OSC_HEADER_SIZE){
 			osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
-- 
2.43.0


From 5971c01b7be6d2a6882217c977f3ced6c625b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:47 +0000
Subject: [PATCH 088/143] fix: getaddresses() passes on errors in its argument

---
 osc_expr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 9380c45..e11430c 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1371,7 +1371,13 @@ static int osc_expr_specFunc_getaddresses(t_osc_expr *f,
 	if(osc_expr_getArgCount(f)){
 		t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 		t_osc_atom_ar_u *ar = NULL;
-		osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
+		t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
+		if(err){
+			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "getaddresses");
+			}
+			return err;
+		}
 		if(ar){
 			t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
 			if(osc_atom_u_getTypetag(a) != OSC_BUNDLE_TYPETAG){
-- 
2.43.0


From 78af09066f99a56c10c9e04ad211a14a89ce692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 089/143] fix: value() and eval() pass on errors in their
 argument

---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index e11430c..c76a385 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1492,6 +1492,9 @@ static int osc_expr_specFunc_value(t_osc_expr *f,
 		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "value");
 		return err;
 	}
+	if(err){
+		return err;
+	}
 	if(arg){
 		char *address = NULL;
 		if(f_argv->type == OSC_EXPR_ARG_TYPE_OSCADDRESS){
@@ -1572,6 +1575,9 @@ static int osc_expr_specFunc_eval(t_osc_expr *f,
 		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "eval");
 		return err;
 	}
+	if(err){
+		return err;
+	}
 	if(arg){
 		if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg, 0)) == 's' && osc_atom_array_u_getLen(arg) == 1){
 			char *expr = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg, 0));
-- 
2.43.0


From 2202097a02a50b5fa8a10e0a9d2f4d0700d8f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 090/143] fix: tokenize() releases its argument and the text of
 each token

---
 osc_expr.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index c76a385..0637104 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1672,18 +1672,28 @@ int osc_expr_specFunc_tokenize(t_osc_expr *f,
 		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "tokenize");
 		return err;
 	}
+	if(err){
+		return err;
+	}
 	if(arg){
+		char *buf = NULL;
+		t_osc_err e = OSC_ERR_NONE;
 		if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg, 0)) == 's' && osc_atom_array_u_getLen(arg) == 1){
 			expr = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg, 0));
 		}else{
 			long buflen = 0;
-			osc_atom_array_u_getStringArray(arg, &buflen, &expr, " ");
+			osc_atom_array_u_getStringArray(arg, &buflen, &buf, " ");
+			expr = buf;
 		}
 		if(expr){
-			t_osc_err e = osc_expr_lex(expr, out);
-			if(e){
-				return e;
-			}
+			e = osc_expr_lex(expr, out);
+		}
+		if(buf){
+			osc_mem_free(buf);
+		}
+		osc_atom_array_u_free(arg);
+		if(e){
+			return e;
 		}
 	}
 	return 0;
@@ -2145,10 +2155,6 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			//osc_atom_u_setString((t_osc_atom_u *)(((long)out) + (i * atomsize)), st);
 			osc_atom_u_setString(osc_atom_array_u_get(*ar, i), st);
 		}
-		long len = osc_atom_u_nformat(NULL, 0, osc_atom_array_u_get(*ar, i), 0);
-		char *fmt = osc_mem_alloc(len + 1);
-		osc_atom_u_nformat(fmt, len + 1, osc_atom_array_u_get(*ar, i), 0);
-		//osc_atom_u_format(osc_atom_array_u_get(*ar, i), &len, &fmt);
 		i++;
 		//yylval_param.atom = (t_osc_atom_u *)(((long)out) + (i * atomsize));
 	cont:
-- 
2.43.0


From b101540daffdc161767e3e8685653717e4ae5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 091/143] fix: tokenize() had no room for every 65th token

---
 osc_expr.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 0637104..8f907d5 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2072,10 +2072,6 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 	int startcond = START_EXPNS, started = 0;
 	int ret = osc_expr_scanner_lex(&yylval_param, &llocp, scanner, 0, &buflen, &buf, startcond, &started);
 	while(ret){
-		if(i == n){
-			n += 64;
-			osc_array_resize(*ar, n);
-		}
 		char *st = NULL;
 		switch(ret){
 		case START_EXPNS:
@@ -2158,6 +2154,11 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 		i++;
 		//yylval_param.atom = (t_osc_atom_u *)(((long)out) + (i * atomsize));
 	cont:
+		if(i == n){
+			// the scanner puts the next token into the array
+			n += 64;
+			osc_array_resize(*ar, n);
+		}
 		yylval_param.atom = osc_atom_array_u_get(*ar, i);
 		ret = osc_expr_scanner_lex(&yylval_param, &llocp, scanner, 0, &buflen, &buf, startcond, &started);
 	}
-- 
2.43.0


From 78ac8117a0155ebfa1c1f4006c6bbf25c5d79d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 092/143] fix: tokenize() turned == into =

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 8f907d5..c3804e2 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2118,7 +2118,7 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			st = "!=";
 			break;
 		case OSC_EXPR_EQ:
-			st = "=";
+			st = "==";
 			break;
 		case OSC_EXPR_GTE:
 			st = ">=";
-- 
2.43.0


From 1b21e1b941801fb58af9de09bf5efa14c31186da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 093/143] fix: tokenize() lost strings with escaped quotes

---
 osc_expr_scanner.l | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index 14ee7f4..bb15722 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -202,7 +202,10 @@ quote[[:space:]]*\( {
 	if(*buf){
 		//osc_atom_u_setStringPtr(a, *buf);
 		//osc_atom_u_setShouldFreePtr(a, 1);
-		yylval->atom = osc_atom_u_allocWithString(*buf);
+		if(alloc_atom){
+			yylval->atom = osc_atom_u_alloc();
+		}
+		osc_atom_u_setString(yylval->atom, *buf);
 		//yylval->string = *buf;
 		osc_mem_free(*buf);
 		*buf = NULL;
-- 
2.43.0


From 79e2b17689679e9c8bbbb4f2417251d1b9f429c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 094/143] fix: compile() stores the expression it is given and
 releases the name if there is none

---
 osc_expr.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index c3804e2..cb5e6bd 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1726,6 +1726,10 @@ static int osc_expr_specFunc_compile(t_osc_expr *f,
 			osc_mem_free(key);
 			return err;
 		}
+		if(err || !arg){
+			osc_mem_free(key);
+			return err ? err : 1;
+		}
 		if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg, 0)) == 's' &&
 		   osc_atom_array_u_getLen(arg) == 1){
 			osc_atom_u_getString(osc_atom_array_u_get(arg, 0), 0, &expression);
@@ -1738,9 +1742,9 @@ static int osc_expr_specFunc_compile(t_osc_expr *f,
 		osc_atom_array_u_free(arg);
 	}else if(arg2type == OSC_EXPR_ARG_TYPE_EXPR){
 		// 2nd arg is an expr
-		osc_expr_copy(&f, osc_expr_arg_getExpr(f_argv->next));
+		osc_expr_copy(&thisf, osc_expr_arg_getExpr(f_argv->next));
 	}else{
-		// free mem here
+		osc_mem_free(key);
 		return 1;
 	}
 	if(thisf){
@@ -1748,6 +1752,8 @@ static int osc_expr_specFunc_compile(t_osc_expr *f,
 			osc_expr_funcobj_ht = osc_hashtab_new(-1, osc_expr_funcobj_dtor);
 		}
 		osc_hashtab_store(osc_expr_funcobj_ht, keylen, key, thisf);
+	}else{
+		osc_mem_free(key);
 	}
 	if(expression){
 		osc_mem_free(expression);
-- 
2.43.0


From 3184ff118ab88bac6a48ec8f765265c4e802bfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 095/143] fix: settimetag() leaked its argument and, like
 gettimetag(), needs a bundle

---
 osc_expr.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index cb5e6bd..265fc0d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1768,6 +1768,9 @@ static int osc_expr_specFunc_gettimetag(t_osc_expr *f,
 			    t_osc_atom_ar_u **out,
 					void *context)
 {
+	if(!len || !oscbndl){
+		return 1;
+	}
 	*out = osc_atom_array_u_alloc(1);
 	t_osc_atom_u *a = osc_atom_array_u_get(*out, 0);
 	osc_atom_u_setTimetag(a, osc_bundle_s_getTimetag(*len, *oscbndl));
@@ -1783,21 +1786,26 @@ static int osc_expr_specFunc_settimetag(t_osc_expr *f,
 {
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
+	if(!len || !oscbndl){
+		return 1;
+	}
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
 	if(err){
 		return 1;
 	}
+	int ret = 1;
 	if(arg){
 		if(osc_atom_array_u_getLen(arg) > 0){
 			t_osc_atom_u *a = osc_atom_array_u_get(arg, 0);
 			if(a){
 				t_osc_timetag t = osc_atom_u_getTimetag(a);
 				osc_bundle_s_setTimetag(*len, *oscbndl, t);
-				return 0;
+				ret = 0;
 			}
 		}
+		osc_atom_array_u_free(arg);
 	}
-	return 1;
+	return ret;
 }
 
 static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
-- 
2.43.0


From a31f7d4d4ad715781e344f725c88a930130591cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 096/143] fix: assign() leaked an address that is not valid

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 265fc0d..62eee43 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -847,6 +847,9 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
     t_osc_err err;
 	if((err = osc_error_validateAddress(address))){
 		osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument of assign() must be an OSC address.");		
+		if(address){
+			osc_mem_free(address);
+		}
 		return err;
 	}
 
-- 
2.43.0


From fa57eb2f4a5a9c31df7c0eafb8f13b01500b85a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:43 +0000
Subject: [PATCH 097/143] fix: assign_to_index() went on after an error in its
 arguments

---
 osc_expr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 62eee43..12ec0c2 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -969,6 +969,9 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
             osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index");
             goto bail;
         }
+        if(err){
+            goto bail;
+        }
         int outlen = osc_atom_array_u_getLen(*out);
 
         // get index(es)
@@ -978,6 +981,9 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
             // osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next), "assign to index 2");
             goto bail;
         }
+        if(err){
+            goto bail;
+        }
         int nindexes = osc_atom_array_u_getLen(indexes);
         // get data
         err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &data, context);
@@ -987,6 +993,9 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
 
             goto bail;
         }
+        if(err){
+            goto bail;
+        }
         int ndata = osc_atom_array_u_getLen(data);
         if(nindexes == 0 || ndata == 0){
             err = 1;
-- 
2.43.0


From a830eb6b3a3dac004c82c383caef1a3ac5de484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:08 +0000
Subject: [PATCH 098/143] fix: getbundlemember() leaked and read addresses that
 are not there

---
 osc_expr.c | 53 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 12ec0c2..59b162d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1829,9 +1829,12 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 {
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg1 = NULL;
-	osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
-	if(!arg1){
-		return 1;
+	int ret = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
+	if(ret || !arg1){
+		if(arg1){
+			osc_atom_array_u_free(arg1);
+		}
+		return ret ? ret : 1;
 	}
 	long bndl_len_s = 0;
 	char *bndl_s = NULL;
@@ -1844,13 +1847,18 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 			osc_message_s_getArg(m, 0, &a);
 			//char tmp[osc_bundle_s_getStructSize()];
 			//t_osc_bndl_s *b = (t_osc_bndl_s *)tmp;
-			t_osc_bndl_s *b = osc_atom_s_getBndlCopy(a);
-			bndl_len_s = osc_bundle_s_getLen(b);
-			bndl_s = osc_bundle_s_getPtr(b);
-			osc_atom_s_free(a);
-			osc_bundle_s_free(b);
+			t_osc_bndl_s *b = a ? osc_atom_s_getBndlCopy(a) : NULL;
+			if(b){
+				bndl_len_s = osc_bundle_s_getLen(b);
+				bndl_s = osc_bundle_s_getPtr(b);
+				osc_bundle_s_free(b);
+			}
+			if(a){
+				osc_atom_s_free(a);
+			}
 			osc_message_array_s_free(msgar);
 		}else{
+			osc_atom_array_u_free(arg1);
 			return OSC_ERR_EXPR_ADDRESSUNBOUND;
 		}
 	}else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == OSC_BUNDLE_TYPETAG){
@@ -1860,7 +1868,7 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 		osc_bundle_u_nserialize(bndl_s, bndl_len_s, b);
 	}//else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) ==
 
-	int ret = 0;
+	ret = 1;
 	if(bndl_len_s && bndl_s){
 	/* if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == OSC_BUNDLE_TYPETAG){ */
 	/* 	t_osc_bndl_u *b = osc_atom_u_getBndl(osc_atom_array_u_get(arg1, 0)); */
@@ -1882,12 +1890,14 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 				t_osc_expr_arg *arg = osc_expr_arg_alloc();
 				char *st = NULL;
 				osc_atom_u_getString(osc_atom_array_u_get(a, 0), 0, &st);
-				osc_expr_arg_setOSCAddress(arg, st);
-				ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
+				if(st){
+					osc_expr_arg_setOSCAddress(arg, st);
+					ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
+				}else{
+					ret = 1;
+				}
 				osc_atom_array_u_free(a);
 				osc_expr_arg_free(arg);
-			}else{
-				return ret;
 			}
 		}else if(osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_STRING ||
 			 osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_ATOM){
@@ -1898,21 +1908,24 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 				t_osc_expr_arg *arg = osc_expr_arg_alloc();
 				char *st = NULL;
 				osc_atom_u_getString(osc_atom_array_u_get(a, 0), 0, &st);
-				osc_expr_arg_setOSCAddress(arg, st);
-				ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
+				if(st){
+					osc_expr_arg_setOSCAddress(arg, st);
+					ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
+				}else{
+					ret = 1;
+				}
 				osc_atom_array_u_free(a);
 				osc_expr_arg_free(arg);
-			}else{
-				return ret;
 			}
 		}else{
 			ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, &bndl_len_s, &bndl_s, out, context);
 		}
+	}
+	if(bndl_s){
 		osc_mem_free(bndl_s);
-		osc_atom_array_u_free(arg1);
-				return ret;
 	}
-	return 1;
+	osc_atom_array_u_free(arg1);
+	return ret;
 }
 
 static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
-- 
2.43.0


From 559a6d31e1eb4d38a2fa478c835b76718dbc8fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:38 +0000
Subject: [PATCH 099/143] fix: assigntobundlemember() leaked and ignored an
 error in the value

---
 osc_expr.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 59b162d..1656ffc 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -716,7 +716,6 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 			if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND){
 				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), (char *)name);
 			}
-			ret = ret ? ret : 1;
 			goto cleanup;
 		}
 	}else if(count == 0){
@@ -741,7 +740,6 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 		osc_atom_u_free(acc);
 		acc = NULL;
 		if(ret || !output || osc_atom_array_u_getLen(output) == 0){
-			ret = ret ? ret : 1;
 			goto cleanup;
 		}
 	}
@@ -1938,6 +1936,9 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg1 = NULL;
 
+	if(!len || !oscbndl){
+		return 1;
+	}
 	t_osc_err error = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
 	if(!arg1){
 		// if arg1 is unbound, create a bundle with message arg2 : arg3
@@ -1947,9 +1948,12 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 			t_osc_bundle_u * b = osc_bundle_u_alloc();
 			osc_message_u_appendBndl_u(m, b);
             
-			osc_bundle_s_appendMessage(len, oscbndl, osc_message_u_serialize(m) );
+			t_osc_msg_s *ms = osc_message_u_serialize(m);
+			osc_bundle_s_appendMessage(len, oscbndl, ms);
+			osc_message_s_deepFree(ms);
             
 			arg1 = osc_message_u_getArgArrayCopy(m);
+			osc_message_u_free(m);
             
 		}else{
 			return 1;
@@ -1967,11 +1971,15 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 			osc_message_s_getArg(m, 0, &a);
 			//char tmp[osc_bundle_s_getStructSize()];
 			//t_osc_bndl_s *b = (t_osc_bndl_s *)tmp;
-			t_osc_bndl_s *b = osc_atom_s_getBndlCopy(a);
-			bndl_len_s = osc_bundle_s_getLen(b);
-			bndl_s = osc_bundle_s_getPtr(b);
-			osc_atom_s_free(a);
-			osc_bundle_s_free(b);
+			t_osc_bndl_s *b = a ? osc_atom_s_getBndlCopy(a) : NULL;
+			if(b){
+				bndl_len_s = osc_bundle_s_getLen(b);
+				bndl_s = osc_bundle_s_getPtr(b);
+				osc_bundle_s_free(b);
+			}
+			if(a){
+				osc_atom_s_free(a);
+			}
 			osc_message_array_s_free(msgar);
 		}
 	}else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == OSC_BUNDLE_TYPETAG){
@@ -1987,9 +1995,11 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 		osc_expr_setRec(assign, r);
 
 		t_osc_atom_array_u *ar = NULL;
-		osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &ar, context);
-		int ret = 0;
-		if(!ar){
+		int ret = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &ar, context);
+		if(ret || !ar){
+			if(ar){
+				osc_atom_array_u_free(ar);
+			}
 			goto cleanup;
 		}
 		t_osc_expr_arg *target = NULL;
@@ -2085,6 +2095,10 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 		return ret;
 	}
 
+	if(bndl_s){
+		osc_mem_free(bndl_s);
+	}
+	osc_atom_array_u_free(arg1);
 	return 1;
 }
 
-- 
2.43.0


From e52366e154a3325fd83a047bfbcb1a74da4f8deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 100/143] fix: blob() of a bundle leaked a copy

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 1656ffc..f4405ce 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6100,7 +6100,7 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 				if(!b){
 					return 1;
 				}
-				osc_atom_u_setBlob(osc_atom_array_u_get(*out, 0), b);
+				osc_atom_u_setBlobPtr(osc_atom_array_u_get(*out, 0), b);
 			}else{
 				char *blob = osc_mem_alloc(n + 4);
 				for(int i = 0; i < n; i++){
-- 
2.43.0


From 30802c87cbccff6ffe3f4ecd10b204e02114658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 101/143] fix: string() of a blob read past the end of it

---
 osc_expr.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index f4405ce..d4dc67d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6200,8 +6200,17 @@ int osc_expr_explicitCast_string(t_osc_atom_u *dest, t_osc_atom_u *src)
 {
 	char *s = NULL;
 	if(osc_atom_u_getTypetag(src) == 'b'){
+		// the bytes of a blob need not end with a zero
 		char *b = osc_atom_u_getBlob(src);
-		osc_atom_u_setString(dest, b + 4);
+		if(!b){
+			return 1;
+		}
+		int32_t l = ntoh32(*((int32_t *)b));
+		char *copy = osc_mem_alloc(l + 1);
+		memcpy(copy, b + 4, l);
+		copy[l] = '\0';
+		osc_atom_u_setString(dest, copy);
+		osc_mem_free(copy);
 		return 0;
 	}else{
 		if(osc_atom_u_getTypetag(src) == 'c'){
-- 
2.43.0


From 3797ce14c7af0ad8075d4e45a427627a561bbe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 102/143] fix: string() of a char below -99 lost its last digit

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index d4dc67d..7aa5849 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6220,7 +6220,7 @@ int osc_expr_explicitCast_string(t_osc_atom_u *dest, t_osc_atom_u *src)
 				buf[0] = c;
 				buf[1] = 0;
 			}else{
-				snprintf(buf, 4, "%d", c);
+				snprintf(buf, sizeof(buf), "%d", c);
 			}
 			osc_atom_u_setString(dest, buf);
 			return 0;
@@ -6231,7 +6231,7 @@ int osc_expr_explicitCast_string(t_osc_atom_u *dest, t_osc_atom_u *src)
 				buf[0] = c;
 				buf[1] = 0;
 			}else{
-				snprintf(buf, 4, "%u", c);
+				snprintf(buf, sizeof(buf), "%u", c);
 			}
 			osc_atom_u_setString(dest, buf);
 			return 0;
-- 
2.43.0


From 934d363df6d7d56821232f86cf4a37cc5e7541f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 103/143] fix: cast() of a value without bytes to a blob set a
 blob without data

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 7aa5849..f423023 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6253,6 +6253,9 @@ int osc_expr_explicitCast_blob(t_osc_atom_u *dest, t_osc_atom_u *src)
 	int32_t l = 0;
 	char *blob = NULL;
 	osc_atom_u_getBlobCopy(src, &l, &blob);
+	if(!blob){
+		return 1;
+	}
 	osc_atom_u_setBlobPtr(dest, blob);
 	return 0;
 }
-- 
2.43.0


From c08762b2d1f1e6cbe97fd799c86cb42c7b2987f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 104/143] fix: growing a vtable left its hash table pointing to
 the old entries

---
 osc_vtable.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/osc_vtable.c b/osc_vtable.c
index 050333b..5e683ad 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -85,6 +85,11 @@ t_osc_err osc_vtable_addEntry(t_osc_vtable *vtab,
 		if(!(vtab->entries)){
 			return OSC_ERR_OUTOFMEM;
 		}
+		// the entries may have moved
+		for(int i = 0; i < vtab->num_entries; i++){
+			t_osc_vtable_entry *e = vtab->entries + i;
+			osc_hashtab_store(vtab->hashtab, strlen(e->selector), e->selector, e);
+		}
 	}
 	t_osc_vtable_entry *entry = osc_vtable_getEntryBySelector(vtab, selector);
 	if(entry){
-- 
2.43.0


From ca90751f3b86131fe676013dfcdf88671ff1358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 105/143] fix: osc_vtable_free() did not free the table itself

---
 osc_vtable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_vtable.c b/osc_vtable.c
index 5e683ad..893707c 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -65,6 +65,7 @@ void osc_vtable_free(t_osc_vtable *vtab){
 	if(vtab->hashtab){
 		osc_hashtab_destroy(vtab->hashtab);
 	}
+	osc_mem_free(vtab);
 }
 
 void osc_vtable_setDelegationMethod(t_osc_vtable *vtab,
-- 
2.43.0


From 23d5376541f52f18f4b65d833c77089be517f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 106/143] fix: renaming a vtable entry kept the caller's string
 as the key

---
 osc_vtable.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index 893707c..af380a6 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -183,14 +183,14 @@ t_osc_err osc_vtable_renameEntry(t_osc_vtable *vtab, char *old_selector, char *n
 	if(!e){
 		return OSC_ERR_INVAL;
 	}
-	int oldlen = strlen(old_selector);
 	int newlen = strlen(new_selector);
-	if(newlen > oldlen){
-		e->selector = osc_mem_resize(e->selector, newlen + 1);
-	}
-	strncpy(e->selector, new_selector, newlen + 1);
-	osc_hashtab_remove(vtab->hashtab, oldlen, old_selector, NULL);
-	osc_hashtab_store(vtab->hashtab, newlen, new_selector, (void *)e);
+	// the hash table does not copy its keys, and either selector may be the entry's own
+	char *selector = osc_mem_alloc(newlen + 1);
+	strncpy(selector, new_selector, newlen + 1);
+	osc_hashtab_remove(vtab->hashtab, strlen(old_selector), old_selector, NULL);
+	osc_mem_free(e->selector);
+	e->selector = selector;
+	osc_hashtab_store(vtab->hashtab, newlen, e->selector, (void *)e);
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From d28c2a2a8688b77ac12d1d4689eab90ebdc8fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 107/143] fix: dispatching without a delegation method called a
 null pointer

---
 osc_vtable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_vtable.c b/osc_vtable.c
index af380a6..a0dacd5 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -220,6 +220,9 @@ int osc_vtable_call(t_osc_vtable *vtab,
 }
 
 int osc_vtable_delegate(t_osc_vtable *vtab, long bndllen, char *bndl, t_osc_bndl_s *unmatched){
+	if(!(vtab->delegation_method)){
+		return 1;
+	}
 	vtab->delegation_method(bndllen, bndl, unmatched, vtab->delegation_context);
 	return 0;
 }
-- 
2.43.0


From 631f8b821494c5c00244413ba54ff132f85e7fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 108/143] fix: a negative index of a vtable entry was read

---
 osc_vtable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index a0dacd5..a1e021f 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -129,7 +129,7 @@ int osc_vtable_getNumSlots(t_osc_vtable *vtab){
 }
 
 t_osc_vtable_entry *osc_vtable_getEntryByIndex(t_osc_vtable *vtab, int index){
-	if(index >= vtab->num_entries){
+	if(index < 0 || index >= vtab->num_entries){
 		return NULL;
 	}
 	return &(vtab->entries[index]);
-- 
2.43.0


From 19e193dbaa21d5ec8b38ff6bf792626a3f0b4802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 109/143] fix: dispatch stripped the matched part of an address
 by the length of the selector

---
 osc_dispatch.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index 21ad226..55e2a75 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -112,10 +112,15 @@ int osc_dispatch_msg(t_osc_msg_s *msg,
 		if(strip_matched_portion_of_address){
 			char buf[osc_message_s_getSize(msg) + 4];
 			char *address = osc_message_s_getAddress(msg);
-			osc_message_s_renameCopy(buf, msg, strlen(address) - ao, address + ao);
-			char msg_s[osc_message_s_getStructSize()];
-			osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
-			osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
+			// the address of the message is the pattern
+			if(osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po)){
+				char msg_s[osc_message_s_getStructSize()];
+				osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
+				osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
+			}else{
+				// the rest is not a valid address
+				osc_bundle_s_appendMessage_b(partial_match, msg);
+			}
 			//int msglen = osc_message_s_getLen(msg) + 4;
 			//char buf[msglen];
 
-- 
2.43.0


From 3670ea14f1344e06f65dabac802cf54a870d5af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 110/143] fix: dispatching with an empty vtable declared arrays
 of no elements

---
 osc_dispatch.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index 55e2a75..0bce033 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -204,8 +204,8 @@ t_osc_err osc_dispatch(t_osc_vtable *vtab,
 		return OSC_ERR_NONE;
 	}
 	int nentries = osc_vtable_getNumEntries(vtab);
-	t_osc_bndl_s *partial_matches[nentries];
-	t_osc_bndl_s *complete_matches[nentries];
+	t_osc_bndl_s *partial_matches[nentries + 1];
+	t_osc_bndl_s *complete_matches[nentries + 1];
 	t_osc_bndl_s *unmatched = NULL;//osc_bundle_s_alloc(0, NULL);
 	//osc_bundle_s_setBundleID_b(unmatched);
 	memset(partial_matches, '\0', nentries * sizeof(t_osc_bndl_s *));
@@ -259,8 +259,8 @@ t_osc_err osc_dispatch_selectors(t_osc_vtable *vtab,
 		return OSC_ERR_NONE;
 	}
 	int nentries = osc_vtable_getNumEntries(vtab);
-	t_osc_bndl_s *partial_matches[nentries];
-	t_osc_bndl_s *complete_matches[nentries];
+	t_osc_bndl_s *partial_matches[nentries + 1];
+	t_osc_bndl_s *complete_matches[nentries + 1];
 	t_osc_bndl_s *unmatched = NULL;//osc_bundle_s_alloc(0, NULL);
 	//osc_bundle_s_setBundleID_b(unmatched);
 	memset(partial_matches, '\0', nentries * sizeof(t_osc_bndl_s *));
-- 
2.43.0


From 396637a1c09b531451d9af2da17e80a578213560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:51 +0000
Subject: [PATCH 111/143] fix: the bundle parser leaked the buffer of a string
 with escaped quotes

---
 osc_parser.y  | 4 ++++
 osc_scanner.l | 1 +
 2 files changed, 5 insertions(+)

diff --git a/osc_parser.y b/osc_parser.y
index 78e80de..31bd945 100644
--- a/osc_parser.y
+++ b/osc_parser.y
@@ -121,6 +121,10 @@ t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl)
 	int ret = osc_parser_parse(bndl, scanner, &buflen, &buf);
 	osc_scanner__delete_buffer(buf_state, scanner);
 	osc_scanner_lex_destroy(scanner);
+	if(buf){
+		// a string with escaped characters and no closing quote
+		osc_mem_free(buf);
+	}
 	/*
 	if(!ret){
 		*bndl = bl->bndl;
diff --git a/osc_scanner.l b/osc_scanner.l
index 78d7a87..9673b05 100644
--- a/osc_scanner.l
+++ b/osc_scanner.l
@@ -84,6 +84,7 @@ quoted_string [^\"\\]
 	BEGIN(0);
 	if(*buf){
 		yylval->atom = osc_atom_u_allocWithString(*buf);
+		osc_mem_free(*buf);
 		*buf = NULL;
 		*buflen = 0;
 		return OSCVALUE;
-- 
2.43.0


From a1e2d92958bd213d08f53e7572bb52823f5cd518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:51 +0000
Subject: [PATCH 112/143] fix: the bundle parser truncated integers to 32 bits

---
 osc_scanner.l | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/osc_scanner.l b/osc_scanner.l
index 9673b05..0d05ce6 100644
--- a/osc_scanner.l
+++ b/osc_scanner.l
@@ -152,9 +152,17 @@ nil					{
 }
 
 (-?([[:digit:]]{-}[0])[[:digit:]]*|0) 	{
+						// the smallest integer type that holds the value
 						char *endp = NULL;
-					        long i = strtol(yytext, &endp, 10);
-						yylval->atom = osc_atom_u_allocWithInt32(i);
+						int64_t i = strtoll(yytext, &endp, 10);
+						yylval->atom = osc_atom_u_alloc();
+						if(i >= INT32_MIN && i <= INT32_MAX){
+							osc_atom_u_setInt32(yylval->atom, i);
+						}else if(i == INT64_MAX && strtoull(yytext, &endp, 10) > INT64_MAX){
+							osc_atom_u_setUInt64(yylval->atom, strtoull(yytext, &endp, 10));
+						}else{
+							osc_atom_u_setInt64(yylval->atom, i);
+						}
 						return OSCVALUE;
 					}
 0[xX][[:digit:]abcdefABCDEF]+ 	{
-- 
2.43.0


From 1dd8079a19456cf3720dc287b0bcb78f4370bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:18 +0000
Subject: [PATCH 113/143] fix: assign_to_index() leaked the strings and blobs
 it replaces

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index f423023..a34e1ba 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1006,6 +1006,7 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
                 goto bail;
             }
             t_osc_atom_u *dest = osc_atom_array_u_get(*out, idx);
+            osc_atom_u_clear(dest);
             osc_atom_u_copyInto(&dest, osc_atom_array_u_get(data, 0));
         }else if(nindexes > 1 && ndata == 1){
             int i, idx;
@@ -1017,6 +1018,7 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
                     continue;
                 }
                 t_osc_atom_u *dest = osc_atom_array_u_get(*out, idx);
+                osc_atom_u_clear(dest);
                 osc_atom_u_copyInto(&dest, a);
             }
         }else{
@@ -1032,6 +1034,7 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
                     continue;
                 }
                 t_osc_atom_u *dest = osc_atom_array_u_get(*out, idx);
+                osc_atom_u_clear(dest);
                 osc_atom_u_copyInto(&dest, osc_atom_array_u_get(data, i));
             }
         }
-- 
2.43.0


From 0a35ace359fdec42b3daf073aee42f65b5b4bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:18 +0000
Subject: [PATCH 114/143] fix: bundle() of a blob leaked a copy and read the
 size of the blob as part of the bundle

---
 osc_expr.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index a34e1ba..400d76c 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6633,10 +6633,11 @@ int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		if(n == 1){
 			t_osc_atom_u *a = osc_atom_array_u_get(*argv, 0);
 			if(osc_atom_u_getTypetag(a) == 'b'){
-				int32_t len = 0;
-				char *ptr = NULL;
-				osc_atom_u_getBlobCopy(a, &len, &ptr);
-				len -= 4;
+				int32_t len = osc_atom_u_getBlobLen(a);
+				char *ptr = osc_atom_u_getBlob(a) + 4; // after the size
+				if(osc_error_bundleSanityCheck(len, ptr)){
+					return 1;
+				}
 				osc_atom_u_setBndl(aout, len, ptr);
 				return 0;
 			}else if(osc_atom_u_getTypetag(a) == 's'){
-- 
2.43.0


From 69a2665df4241660f5dc75c2f18dafb8b68703e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:18 +0000
Subject: [PATCH 115/143] fix: bundle() of bytes that are not a bundle, or of
 none

---
 osc_expr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 400d76c..f036075 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6647,7 +6647,7 @@ int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 				osc_atom_u_setBndl_u(aout, b);
 				return 0;
 			}
-		}else{
+		}else if(n > 1){
 			int np = n;
 			while(np % 4){
 				np++;
@@ -6657,6 +6657,9 @@ int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			for(int i = 0; i < n; i++){
 				buf[i] = osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i));
 			}
+			if(osc_error_bundleSanityCheck(np, buf)){
+				return 1;
+			}
 			osc_atom_u_setBndl(aout, np, buf);
 			return 0;
 		}
-- 
2.43.0


From 286453402500bf96fa05a92cb8a6b156d1ee5a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:37 +0000
Subject: [PATCH 116/143] fix: blob() and cast() to a blob leaked the blob

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index f036075..e1c3dd3 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6104,6 +6104,7 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 					return 1;
 				}
 				osc_atom_u_setBlobPtr(osc_atom_array_u_get(*out, 0), b);
+				osc_atom_u_setShouldFreePtr(osc_atom_array_u_get(*out, 0), 1);
 			}else{
 				char *blob = osc_mem_alloc(n + 4);
 				for(int i = 0; i < n; i++){
@@ -6112,6 +6113,7 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 				*((int32_t *)blob) = hton32(n);
 				*out = osc_atom_array_u_alloc(1);
 				osc_atom_u_setBlobPtr(osc_atom_array_u_get(*out, 0), blob);
+				osc_atom_u_setShouldFreePtr(osc_atom_array_u_get(*out, 0), 1);
 			}
 		}else{
 			int n = osc_atom_array_u_getLen(*argv);
@@ -6260,6 +6262,7 @@ int osc_expr_explicitCast_blob(t_osc_atom_u *dest, t_osc_atom_u *src)
 		return 1;
 	}
 	osc_atom_u_setBlobPtr(dest, blob);
+	osc_atom_u_setShouldFreePtr(dest, 1);
 	return 0;
 }
 
-- 
2.43.0


From e86e5ec859bd3cd8594368da590428040bd46d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:50 +0000
Subject: [PATCH 117/143] fix: match() of no addresses declared an array of no
 elements

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index e1c3dd3..3bdeaeb 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6540,7 +6540,7 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		t_osc_msg_u *full = osc_message_u_allocWithAddress("/full");
 		t_osc_msg_u *partial = osc_message_u_allocWithAddress("/partial");
 		t_osc_msg_u *unmatched = osc_message_u_allocWithAddress("/unmatched");
-		int matches[naddresses];
+		int matches[naddresses > 0 ? naddresses : 1];
 		memset(matches, 0, sizeof(int) * naddresses);
 		for(int j = 0; j < naddresses; j++){
 			t_osc_atom_u *address = osc_atom_array_u_get(argv[1], j);
-- 
2.43.0


From 917cdc6b03dbb220f36b409f1361a0ca507e5c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:55 +0000
Subject: [PATCH 118/143] fix: an array whose memory could not be allocated was
 written to

---
 osc_array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_array.c b/osc_array.c
index 64a665f..35854f4 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -43,6 +43,10 @@ t_osc_array *osc_array_allocWithSize(long len, size_t membersize)
 		ar->ar = NULL;
 	}else{
 		ar->ar = osc_mem_alloc(len * membersize);
+		if(!(ar->ar)){
+			osc_mem_free(ar);
+			return NULL;
+		}
 	}
 	ar->len = len;
 	ar->membersize = membersize;
-- 
2.43.0


From 18b64a1547d17e0e7e9df2cdca243f1c1eddaeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:08 +0000
Subject: [PATCH 119/143] fix: the number of elements aseq() and nfill() make
 was converted out of range

---
 osc_expr.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 3bdeaeb..3a40288 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4095,8 +4095,16 @@ int osc_expr_nfill(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	}
 	//t_osc_atom_u *val = NULL;
 
-	int outlen = n * osc_atom_array_u_getLen(argv[1]);
+	long outlen = (long)n * osc_atom_array_u_getLen(argv[1]);
+	if(outlen > INT32_MAX){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK,
+			  "nfill: too many elements");
+		return 1;
+	}
 	*out = osc_atom_array_u_alloc(outlen);
+	if(!(*out)){
+		return 1;
+	}
 	int j = 0;
 	for(int i = 0; i < n; i++){
 		osc_atom_array_u_copyInto(out, argv[1], j);
@@ -4178,8 +4186,17 @@ int osc_expr_aseq(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		max = tmp;
 	}
 	int i = 0;
-	int n = (int)(((max - min) / abs_step)) + 1;
+	double count = (max - min) / abs_step;
+	if(!(count < INT32_MAX)){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK,
+			  "aseq: too many elements");
+		return 1;
+	}
+	int n = (int)count + 1;
 	*out = osc_atom_array_u_alloc(n);
+	if(!(*out)){
+		return 1;
+	}
 
 	if(dblup){
 		for(i = 0; i < n; i++){
-- 
2.43.0


From 889d3dbccdd60190f0c63fcddccc4df29cc76818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:28 +0000
Subject: [PATCH 120/143] fix: the remainder of integers outside int32 was
 converted out of range

---
 osc_expr.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 3a40288..464e4de 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3231,6 +3231,22 @@ static int osc_expr_specFunc_bundle(t_osc_expr *f,
 	return 0;
 }
 
+// sets an atom to an integral value using the smallest of the types int32, uint32, int64, and uint64 that can hold it
+static void osc_expr_setInteger(t_osc_atom_u *a, double val)
+{
+	if(val >= -2147483648. && val <= 2147483647.){
+		osc_atom_u_setInt32(a, val);
+	}else if(val > 0 && val <= 4294967295.){
+		osc_atom_u_setUInt32(a, val);
+	}else if(val >= -9223372036854775808. && val < 9223372036854775808.){
+		osc_atom_u_setInt64(a, val);
+	}else if(val > 0 && val < 18446744073709551616.){
+		osc_atom_u_setUInt64(a, val);
+	}else{
+		osc_atom_u_setDouble(a, val);
+	}
+}
+
 double _osc_expr_fmod(double x, double m)
 {
 	return x - m * _osc_expr_sign(m) * floor(x / fabs(m));
@@ -3278,7 +3294,7 @@ int osc_expr_mod(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 			osc_atom_u_copyInto(result, f1);
 			return 0;
 		}
-		osc_atom_u_setInt32(*result, (int32_t)m);
+		osc_expr_setInteger(*result, m);
 	}
 	return 0;
 }
@@ -3543,22 +3559,6 @@ int osc_expr_assign_to_index(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_
 	return 0;
 }
 
-// sets an atom to an integral value using the smallest of the types int32, uint32, int64, and uint64 that can hold it
-static void osc_expr_setInteger(t_osc_atom_u *a, double val)
-{
-	if(val >= -2147483648. && val <= 2147483647.){
-		osc_atom_u_setInt32(a, val);
-	}else if(val > 0 && val <= 4294967295.){
-		osc_atom_u_setUInt32(a, val);
-	}else if(val >= -9223372036854775808. && val < 9223372036854775808.){
-		osc_atom_u_setInt64(a, val);
-	}else if(val > 0 && val < 18446744073709551616.){
-		osc_atom_u_setUInt64(a, val);
-	}else{
-		osc_atom_u_setDouble(a, val);
-	}
-}
-
 int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
 	*out = osc_atom_array_u_alloc(1);
-- 
2.43.0


From 646619f704c4205fdde6bed99f9d4a8ea3375289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:28 +0000
Subject: [PATCH 121/143] fix: clip() and scale() of integers outside int32
 were converted out of range

---
 osc_expr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 464e4de..1d14c15 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4939,7 +4939,7 @@ int osc_expr_clip(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		if(type == 'f' || type == 'd' || fl){
 			osc_atom_u_setDouble(osc_atom_array_u_get(result, i), val);
 		}else{
-			osc_atom_u_setInt32(osc_atom_array_u_get(result, i), (int32_t)val);
+			osc_expr_setInteger(osc_atom_array_u_get(result, i), trunc(val));
 		}
 	}
 	return 0;
@@ -4987,7 +4987,7 @@ int osc_expr_scale(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			if(fl || type == 'd' || type == 'f'){
 				osc_atom_u_setDouble(osc_atom_array_u_get(result, i), min_out);
 			}else{
-				osc_atom_u_setInt32(osc_atom_array_u_get(result, i), min_out);
+				osc_expr_setInteger(osc_atom_array_u_get(result, i), min_out);
 			}
 		}
 		return 0;
@@ -5008,7 +5008,7 @@ int osc_expr_scale(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		if(fl || type == 'd' || type == 'f'){
 			osc_atom_u_setDouble(osc_atom_array_u_get(result, i), val);
 		}else{
-			osc_atom_u_setInt32(osc_atom_array_u_get(result, i), (int32_t)val);
+			osc_expr_setInteger(osc_atom_array_u_get(result, i), trunc(val));
 		}
 	}
 	return 0;
-- 
2.43.0


From 5d279650dccd67b09b5827bb7438e6c696b3016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:28 +0000
Subject: [PATCH 122/143] fix: bitand() and bitor() of unsigned chars gave a
 signed one

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 1d14c15..0477a39 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5601,7 +5601,7 @@ int osc_expr_bitand(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		{
 			uint8_t i1 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[0], 0));
 			uint8_t i2 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[1], 0));
-			osc_atom_u_setInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
 		}
 		break;
 	}
@@ -5672,7 +5672,7 @@ int osc_expr_bitor(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		{
 			uint8_t i1 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[0], 0));
 			uint8_t i2 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[1], 0));
-			osc_atom_u_setInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
 		}
 		break;
 	}
-- 
2.43.0


From 3fce966dd62c9c6c22f32c5ef1a0a1f7b8c53622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:28 +0000
Subject: [PATCH 123/143] fix: the determinant of a singular matrix of four or
 more rows was not a number

---
 osc_expr.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 0477a39..2fb8426 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4555,7 +4555,7 @@ int LUPDecompose(double **A, int N, double Tol, int *P) {
 				imax = k;
 			}
 
-		if (maxA < Tol) return 0; //failure, matrix is degenerate
+		if (maxA <= Tol) return 0; //failure, matrix is degenerate
 
 		if (imax != i) {
 			//pivoting P
@@ -4651,8 +4651,10 @@ int osc_expr_det(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 		}
 		int P[argc + 1];
 		memset(P, 0, sizeof(int) * (argc + 1));
-		LUPDecompose(cells, argc, 0, P);
-		double d = LUPDeterminant(cells, P, argc);
+		double d = 0;
+		if(LUPDecompose(cells, argc, 0, P)){
+			d = LUPDeterminant(cells, P, argc);
+		}
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), d);
 		for(int j = 0; j < argc; j++){
 			if(cells[j]){
-- 
2.43.0


From 623578c1b5189f73b559629f4e5d474d46c32c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:28 +0000
Subject: [PATCH 124/143] fix: degtorad() and radtodeg() had six digits

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 2fb8426..33c040a 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6017,7 +6017,7 @@ int osc_expr_degtorad(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_ato
 {
 	*out = osc_atom_array_u_alloc(1);
 
-	osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), 0.017453);
+	osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), 0.01745329251994329577);
 	return 0;
 }
 
@@ -6025,7 +6025,7 @@ int osc_expr_radtodeg(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_ato
 {
 	*out = osc_atom_array_u_alloc(1);
 
-	osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), 57.29578);
+	osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), 57.29577951308232087680);
 	return 0;
 }
 
-- 
2.43.0


From c1ec2302c0d558417a0dea117d369a76b60558b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:13 +0000
Subject: [PATCH 125/143] fix: osc_serial did not check for unmatched brackets
 in a message outside of a bundle

---
 osc_serial.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/osc_serial.c b/osc_serial.c
index 778952a..c8b29aa 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -442,6 +442,10 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN((s | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS) + 1);
 				case '\0':
 					OSC_SERIAL_RETURN((s | OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING) + 1);
+				case ']':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDRIGHTSQUAREBRACKET);
+				case '}':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDRIGHTCURLYBRACE);
 				default:
 					OSC_SERIAL_RETURN(s + 1);
 				}
@@ -464,6 +468,8 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS_COMMA | (count + 1));
 				case '}':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
+				case '\0':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDLEFTCURLYBRACE);
 				default:
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS | (count + 1));
 				}
@@ -486,6 +492,8 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH | (count + 1));
 				case ']':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
+				case '\0':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDLEFTSQUAREBRACKET);
 				default:
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS | (count + 1));
 				}
-- 
2.43.0


From 411427384e5983e60a192bc98363c9c7d5c14661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:13 +0000
Subject: [PATCH 126/143] fix: the names of the states of osc_serial were read
 past the end of their tables

---
 osc_serial.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/osc_serial.c b/osc_serial.c
index c8b29aa..1d114ca 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -99,10 +99,21 @@ static char *_osc_serial_typetagMicroStr[] = {
 
 #define OSC_SERIAL_NULLSTATE ""
 
+// index of the highest bit that is set, or UINT32_MAX if there is none
+static uint32_t osc_serial_bit(uint64_t v)
+{
+	uint32_t n = UINT32_MAX;
+	while(v){
+		v >>= 1;
+		n++;
+	}
+	return n;
+}
+
 char *osc_serial_macroStr(uint64_t s)
 {
-	uint32_t state = (uint32_t)log2f((float)((s & 0xff00000000000000) >> 56));
-	if(state <= sizeof(_osc_serial_macroStr) / sizeof(char *)){
+	uint32_t state = osc_serial_bit((s & 0xff00000000000000) >> 56);
+	if(state < sizeof(_osc_serial_macroStr) / sizeof(char *)){
 		return _osc_serial_macroStr[state];
 	}else{
 		return OSC_SERIAL_NULLSTATE;
@@ -112,7 +123,7 @@ char *osc_serial_macroStr(uint64_t s)
 char *osc_serial_stateStr(uint64_t s)
 {
 	uint64_t macro = (uint64_t)(s & 0xff00000000000000);
-	uint32_t state = (uint32_t)log2f((float)((s & 0x00ff000000000000) >> 48));
+	uint32_t state = osc_serial_bit((s & 0x00ff000000000000) >> 48);
 	switch(macro){
 	case OSC_SERIAL_BUNDLE_HEADER:
 		if(state < sizeof(_osc_serial_headerStateStr) / sizeof(char *)){
@@ -138,7 +149,7 @@ char *osc_serial_microStr(uint64_t s)
 {
 	uint64_t macro = (uint64_t)(s & 0xff00000000000000);
 	uint64_t state = (uint64_t)(s & 0x00ff000000000000);
-	uint32_t micro = (uint32_t)log2f((float)((s & 0x00ff000000000000) >> 40));
+	uint32_t micro = osc_serial_bit((s & 0x0000ff0000000000) >> 40);
 	switch(macro){
 	case OSC_SERIAL_BUNDLE_MESSAGE:
 	case OSC_SERIAL_MESSAGE:
-- 
2.43.0


From 9d359e26bc81cb444b49a47549a163241e627507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:52 +0000
Subject: [PATCH 127/143] fix: the documentation of nth() was read past the end
 of its table of types

---
 osc_expr_func.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr_func.h b/osc_expr_func.h
index 514155f..e0a49f3 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -1294,7 +1294,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (char *[]){"argument (list)", "index"},
 	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR, OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
 	 (char *[]){"additional indexes"},
-	 (int []){},
+	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
 	 (char *[]){"/vector", NULL},
 	 "Get an element of a list (same as [[ ]])",
 	 osc_expr_nth,
-- 
2.43.0


From 9d0ce666efaf13bb3fa4182a80b124ca5e0f2b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:41 +0000
Subject: [PATCH 128/143] fix: osc_expr_format wrote past the end of its buffer
 when an expression was long, and left the parameter list of a lambda without
 parameters open

---
 osc_expr.c | 89 +++++++++++++++++++++++++++---------------------------
 1 file changed, 44 insertions(+), 45 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 33c040a..99dfcbe 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -7129,92 +7129,91 @@ void osc_expr_funcobj_dtor(char *key, void *val)
 	}
 }
 
-int osc_expr_format_r(t_osc_expr *fg, char *buf)
+// appends str to buf at pos, or only counts its characters if buf is NULL
+static long osc_expr_format_str(char *buf, long n, long pos, char *str)
+{
+	return pos + snprintf(buf ? buf + pos : NULL, buf ? n - pos : 0, "%s ", str);
+}
+
+static long osc_expr_format_atom(char *buf, long n, long pos, t_osc_atom_u *a)
+{
+	long len = osc_atom_u_nformat(NULL, 0, a, 0);
+	char str[len + 1];
+	osc_atom_u_nformat(str, len + 1, a, 0);
+	return osc_expr_format_str(buf, n, pos, str);
+}
+
+static long osc_expr_format_r(t_osc_expr *fg, char *buf, long n, long pos)
 {
 	if(!fg){
-		return 0;
+		return pos;
 	}
-	char *ptr = buf;
-	ptr += sprintf(ptr, "(%s ", fg->rec->name);
+	pos += snprintf(buf ? buf + pos : NULL, buf ? n - pos : 0, "(%s ", fg->rec->name);
 	t_osc_expr_arg *f_argv = fg->argv;
 	while(f_argv){
 		switch(f_argv->type){
 		case OSC_EXPR_ARG_TYPE_ATOM:
-			{
-				t_osc_atom_u *a = f_argv->arg.atom;
-				long buflen = osc_atom_u_nformat(NULL, 0, a, 0);
-				char buf[buflen + 1];
-				osc_atom_u_nformat(buf, buflen + 1, a, 0);
-				ptr += sprintf(ptr, "%s ", buf);
-			}
+			pos = osc_expr_format_atom(buf, n, pos, f_argv->arg.atom);
 			break;
 		case OSC_EXPR_ARG_TYPE_LIST:
 			{
 				t_osc_atom_ar_u *ar = f_argv->arg.list;
 				for(int i = 0; i < osc_atom_array_u_getLen(ar); i++){
-					t_osc_atom_u *a = osc_atom_array_u_get(ar, i);
-					long buflen = osc_atom_u_nformat(NULL, 0, a, 0);
-					char buf[buflen + 1];
-					osc_atom_u_nformat(buf, buflen + 1, a, 0);
-					ptr += sprintf(ptr, "%s ", buf);
+					pos = osc_expr_format_atom(buf, n, pos, osc_atom_array_u_get(ar, i));
 				}
 			}
 			break;
 		case OSC_EXPR_ARG_TYPE_OSCADDRESS:
-			ptr += sprintf(ptr, "%s ", f_argv->arg.osc_address);
+			pos = osc_expr_format_str(buf, n, pos, f_argv->arg.osc_address);
 			break;
 		case OSC_EXPR_ARG_TYPE_EXPR:
-			ptr += osc_expr_format_r(f_argv->arg.expr, ptr);
+			pos = osc_expr_format_r(f_argv->arg.expr, buf, n, pos);
 			break;
  		case OSC_EXPR_ARG_TYPE_FUNCTION:
 			{
 				t_osc_expr_rec *r = f_argv->arg.func;
-				ptr += sprintf(ptr, "(lambda (");
+				pos += snprintf(buf ? buf + pos : NULL, buf ? n - pos : 0, "(lambda (");
 				int numparams = osc_expr_rec_getNumRequiredArgs(r);
 				char **paramnames = osc_expr_rec_getRequiredArgsNames(r);
 				for(int i = 0; i < numparams; i++){
-					if(i < numparams - 1){
-						ptr += sprintf(ptr, "%s, ", paramnames[i]);
-					}else{
-						ptr += sprintf(ptr, "%s) ", paramnames[i]);
-					}
+					pos += snprintf(buf ? buf + pos : NULL, buf ? n - pos : 0, i < numparams - 1 ? "%s, " : "%s", paramnames[i]);
 				}
+				pos = osc_expr_format_str(buf, n, pos, ")");
 				t_osc_expr *e = (t_osc_expr *)osc_expr_rec_getExtra(r);
 				while(e){
-					ptr += osc_expr_format_r(e, ptr);
+					pos = osc_expr_format_r(e, buf, n, pos);
 					e = osc_expr_next(e);
 				}
-				ptr += sprintf(ptr, ") ");
+				pos = osc_expr_format_str(buf, n, pos, ")");
 			}
 			break;
 		}
 		f_argv = f_argv->next;
 	}
-	ptr--;
-	ptr += sprintf(ptr, ") ");
-	return ptr - buf;
+	// write over the last space
+	return osc_expr_format_str(buf, n, pos - 1, ")");
+}
+
+static long osc_expr_nformat(t_osc_expr *fg, char *buf, long n)
+{
+	long pos = 0;
+	for(t_osc_expr *f = fg; f; f = f->next){
+		pos = osc_expr_format_r(f, buf, n, pos);
+		pos += snprintf(buf ? buf + pos : NULL, buf ? n - pos : 0, "\n");
+	}
+	return pos;
 }
 
 void osc_expr_format(t_osc_expr *fg, long *buflen, char **fmt)
 {
+	long len = osc_expr_nformat(fg, NULL, 0);
+	*fmt = osc_mem_resize(*fmt, len + 1);
 	if(!(*fmt)){
-		*fmt = osc_mem_alloc(512);
-	}
-	long bufsize = 512, bufpos = 0;
-	t_osc_expr *f = fg;
-	while(f){
-		if(bufpos < 256){
-			*fmt = osc_mem_resize(*fmt, bufsize + 256);
-		}
-		if(!(*fmt)){
-			return;
-		}
-		bufsize += 256;
-		bufpos += osc_expr_format_r(f, (*fmt) + bufpos);
-		bufpos += sprintf((*fmt) + bufpos, "\n");
-		f = f->next;
+		*buflen = 0;
+		return;
 	}
-	*buflen = bufpos;
+	**fmt = '\0';
+	*buflen = osc_expr_nformat(fg, *fmt, len + 1);
 }
 
 void osc_expr_makeFunctionBundle(void)
-- 
2.43.0


From 3f9f46f6f9fe22335b0018ab2b820de8f4f8f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:00 +0000
Subject: [PATCH 129/143] fix: osc_expr_getFunctionsForCategory overflowed a
 buffer when the category was long, and set nothing when there were no
 functions

---
 osc_expr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 99dfcbe..ea055b1 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -7295,7 +7295,9 @@ t_osc_err osc_expr_getFunctionsForCategory(char *cat, long *len, char **ptr)
 	if(!osc_expr_functionBundle){
 		osc_expr_makeFunctionBundle();
 	}
-	char buf[128];
+	*len = 0;
+	*ptr = NULL;
+	char buf[strlen("/doc/category") + strlen(cat) + 1];
 	if(strncmp(cat, "/doc/category", 13)){
 		sprintf(buf, "/doc/category%s", cat);
 	}else{
-- 
2.43.0


From 8e88abb923f718dd9d72441d4918fc872d685b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:00 +0000
Subject: [PATCH 130/143] fix: the types of an argument were documented without
 timetags, in a buffer too small for all of them and not set when there were
 none

---
 osc_expr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index ea055b1..45a398a 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -65,7 +65,7 @@
 //i hope i don't have to add any more ;)
 char *osc_expr_typestrings[] = {"", "number", "list", "", "string", "", "", "", "atom", "", "", "", "", "", "", "", "expression", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "OSC address", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "boolean", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "function", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "", "timetag"};
 
-#define OSC_EXPR_MAX_TYPESTRING_LEN strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_NUMBER]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_LIST]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_STRING]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_ATOM]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_EXPR]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_OSCADDRESS]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_BOOLEAN]) + 1 + 12 // commas, spaces, and null byte
+#define OSC_EXPR_MAX_TYPESTRING_LEN strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_NUMBER]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_LIST]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_STRING]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_ATOM]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_EXPR]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_OSCADDRESS]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_BOOLEAN]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_FUNCTION]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_TIMETAG]) + 1 + 16 // commas, spaces, and null byte
 
 char *osc_expr_categories[] = {"/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/arithmetic", "/math/trigonometric", "/math/power", "/math/conversion", "/math/specialfunction", "/math/constant", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core"};
 
@@ -7417,6 +7417,7 @@ void osc_expr_formatTypes(int types, char *str)
 	}
 	char *ptr = str;
 	char *fmt = "%s";
+	*str = '\0';
 	if(types & OSC_EXPR_ARG_TYPE_NUMBER){
 		ptr += sprintf(ptr, fmt, osc_expr_typestrings[types & OSC_EXPR_ARG_TYPE_NUMBER]);
 		fmt = ", %s";
@@ -7449,6 +7450,10 @@ void osc_expr_formatTypes(int types, char *str)
 		ptr += sprintf(ptr, fmt, osc_expr_typestrings[types & OSC_EXPR_ARG_TYPE_FUNCTION]);
 		fmt = ", %s";
 	}
+	if(types & OSC_EXPR_ARG_TYPE_TIMETAG){
+		ptr += sprintf(ptr, fmt, osc_expr_typestrings[types & OSC_EXPR_ARG_TYPE_TIMETAG]);
+		fmt = ", %s";
+	}
 }
 
 // these are for the global hashtab of compiled expressions.  may be removed or changed
-- 
2.43.0


From 57c410090fd32ef5d477c293a860655264d4e13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:00 +0000
Subject: [PATCH 131/143] fix: the category of the bitwise functions was
 missing from the list of categories

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 45a398a..35afe23 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -67,7 +67,7 @@ char *osc_expr_typestrings[] = {"", "number", "list", "", "string", "", "", "",
 
 #define OSC_EXPR_MAX_TYPESTRING_LEN strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_NUMBER]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_LIST]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_STRING]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_ATOM]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_EXPR]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_OSCADDRESS]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_BOOLEAN]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_FUNCTION]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_TIMETAG]) + 1 + 16 // commas, spaces, and null byte
 
-char *osc_expr_categories[] = {"/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/arithmetic", "/math/trigonometric", "/math/power", "/math/conversion", "/math/specialfunction", "/math/constant", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core"};
+char *osc_expr_categories[] = {"/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/bitwise", "/math/arithmetic", "/math/trigonometric", "/math/power", "/math/conversion", "/math/specialfunction", "/math/constant", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core"};
 
 // this gets created the first time it's needed and then it's never freed
 t_osc_bndl_u *osc_expr_functionBundle = NULL;
-- 
2.43.0


From ab08530602568421e86bcf9d3b5149418e4238a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:10 +0000
Subject: [PATCH 132/143] fix: adding several arguments at once to an
 expression without any counted only one

---
 osc_expr.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 35afe23..4f45f57 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -6888,8 +6888,7 @@ void osc_expr_prependArg(t_osc_expr *e, t_osc_expr_arg *a)
 {
 	if(e){
 		if(!(e->argv)){
-			e->argv = a;
-			e->argc = 1;
+			osc_expr_setArg(e, a);
 		}else{
 			t_osc_expr_arg *aa = a;
 			t_osc_expr_arg *last = aa;
@@ -6912,8 +6911,7 @@ void osc_expr_appendArg(t_osc_expr *e, t_osc_expr_arg *a)
 {
 	if(e){
 		if(!(e->argv)){
-			e->argv = a;
-			e->argc = 1;
+			osc_expr_setArg(e, a);
 		}else{
 			t_osc_expr_arg *aa = e->argv;
 			t_osc_expr_arg *last = aa;
-- 
2.43.0


From aba874f610f60dfc1fff121d63cb493d7bd21efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:23 +0000
Subject: [PATCH 133/143] fix: a copy of an expression argument that is a list
 had no list

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 4f45f57..1984b03 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -7075,6 +7075,9 @@ t_osc_err osc_expr_arg_copy(t_osc_expr_arg **dest, t_osc_expr_arg *src)
 	case OSC_EXPR_ARG_TYPE_EXPR:
 		osc_expr_copy(&(copy->arg.expr), src->arg.expr);
 		break;
+	case OSC_EXPR_ARG_TYPE_LIST:
+		copy->arg.list = osc_atom_array_u_copy(src->arg.list);
+		break;
 	case OSC_EXPR_ARG_TYPE_OSCADDRESS:
 		{
 			int len = strlen(src->arg.osc_address) + 1;
-- 
2.43.0


From 2166fa5cfa1f760b8ac3112dea7106d307b5ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:30 +0000
Subject: [PATCH 134/143] fix: osc_message_u_insertStringPtr copied its string,
 where the functions that append and prepend one take it

---
 osc_message_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index ae3d625..14e86aa 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -758,7 +758,7 @@ t_osc_atom_u *osc_message_u_insertDouble(t_osc_msg_u *m, double v, int pos)
 t_osc_atom_u *osc_message_u_insertStringPtr(t_osc_msg_u *m, char *v, int pos)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	osc_atom_u_setString(a, v);
+	osc_atom_u_setStringPtr(a, v);
 	osc_message_u_insertAtom(m, a, pos);
 	return a;
 }
-- 
2.43.0


From 87efb8a7d9d9aeb3891f9e29f2792c008524e7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:46 +0000
Subject: [PATCH 135/143] fix: an escaped character in an unquoted word of the
 legacy parser read and wrote outside the buffer

---
 osc_legacy_scanner.l | 48 +++++++++++---------------------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/osc_legacy_scanner.l b/osc_legacy_scanner.l
index 7969ebf..1b33044 100644
--- a/osc_legacy_scanner.l
+++ b/osc_legacy_scanner.l
@@ -29,7 +29,7 @@ c99_floating_point_constant  ({dfc}|{hfc})
 string [^ \t\"\n\\:\[\],\{\}]+
 quoted_string [^\"\\]
 
-%x quote escape
+%x quote
 
 %option reentrant
 %option bison-bridge
@@ -143,45 +143,21 @@ quoted_string [^\"\\]
 }
 
 	/*{string}|$0	{*/
-{string}	{
-				int len = strlen(yytext) + 1;
-				char *copy = osc_mem_alloc(len);
-				memcpy(copy, yytext, len);
+({string}|\\.)+	{
+				// a backslash stands for the character that follows it
+				char *copy = osc_mem_alloc(yyleng + 1);
+				int len = 0;
+				for(int i = 0; i < yyleng; i++){
+					if(yytext[i] == '\\'){
+						i++;
+					}
+					copy[len++] = yytext[i];
+				}
+				copy[len] = '\0';
 				yylval->string = copy;
 				return STRING;
 			}
 
-{string}*\\.	{
-			if(*buf){
-				*buflen += yyleng + 1; // make room for the escaped char
-				*buf = osc_mem_resize(*buf, *buflen);
-				strcat(*buf, yytext);
-				(*buf)[*buflen - 1] = '\0';
-			}else{
-				*buf = osc_mem_alloc(yyleng + 1);
-				memcpy(*buf, yytext, yyleng);
-				*buflen = yyleng;
-				//(*buf)[*buflen - 2] = (*buf)[*buflen - 1];
-				(*buf)[*buflen - 1] = '\0';
-			}
-			BEGIN(escape);
-			yyless(1);
-		}
-
-<escape>.	{
-			if(*buf){
-				(*buf)[*buflen - 1] = *yytext;
-			}else{
-				//this is bad news
-			}
-			BEGIN(0);
-			yylval->string = *buf;
-			*buf = NULL;
-			*buflen = 0;
-			return STRING;
-		}
-
-
 [ \t]+
 
 . {return *yytext;}
-- 
2.43.0


From c378143ecf252f8d25115079951648439ae295ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:46 +0000
Subject: [PATCH 136/143] fix: the legacy parser lost empty strings

---
 osc_legacy_scanner.l | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/osc_legacy_scanner.l b/osc_legacy_scanner.l
index 1b33044..7718f6d 100644
--- a/osc_legacy_scanner.l
+++ b/osc_legacy_scanner.l
@@ -87,6 +87,13 @@ quoted_string [^\"\\]
 	}
 }
 
+\"\" {
+	char *copy = osc_mem_alloc(1);
+	*copy = '\0';
+	yylval->string = copy;
+	return STRING;
+}
+
 -?{c99_floating_point_constant}	{
 					char *endp = NULL;
 					double d = strtod(yytext, &endp); 
-- 
2.43.0


From 7f35bdf5ae6a66cb1a18a41bd4b4a96bcdd61a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:46 +0000
Subject: [PATCH 137/143] fix: the legacy parser truncated integers to 32 bits

---
 osc_legacy_scanner.l | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/osc_legacy_scanner.l b/osc_legacy_scanner.l
index 7718f6d..a920da3 100644
--- a/osc_legacy_scanner.l
+++ b/osc_legacy_scanner.l
@@ -126,11 +126,19 @@ quoted_string [^\"\\]
 }
 
 (-?([[:digit:]]{-}[0])[[:digit:]]*|0) 	{
+						// the smallest integer type that holds the value
 						char *endp = NULL;
-					        long i = strtol(yytext, &endp, 0);
-						//printf("%s: int: %ld\n", __func__, i);
-						yylval->i = i;
-						return OSCINT32;
+						int64_t i = strtoll(yytext, &endp, 10);
+						if(i >= INT32_MIN && i <= INT32_MAX){
+							yylval->i = i;
+							return OSCINT32;
+						}
+						if(i == INT64_MAX && strtoull(yytext, &endp, 10) > INT64_MAX){
+							yylval->H = strtoull(yytext, &endp, 10);
+							return OSCUINT64;
+						}
+						yylval->h = i;
+						return OSCINT64;
 					}
 
 \/[^ \t\n#\":]+	{
-- 
2.43.0


From 2a34d9ca50ba810c0428c1e0704d96ae3d46225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:46 +0000
Subject: [PATCH 138/143] fix: the legacy parser leaked what it had read when
 the text had a syntax error

---
 osc_legacy_parser.y | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/osc_legacy_parser.y b/osc_legacy_parser.y
index 18f94fa..530a885 100644
--- a/osc_legacy_parser.y
+++ b/osc_legacy_parser.y
@@ -112,9 +112,22 @@ t_osc_err osc_legacy_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl
 	osc_legacy_scanner_lex_destroy(scanner);
 	if(!ret){
 		*bndl = bl->bndl;
-	}
-	if(bl){
 		osc_mem_free(bl);
+	}else{
+		while(bl){
+			t_osc_parser_bndl_list *next = bl->next;
+			osc_bundle_u_free(bl->bndl);
+			osc_mem_free(bl);
+			bl = next;
+		}
+		while(msg){
+			t_osc_msg_u *next = msg->next;
+			osc_message_u_free(msg);
+			msg = next;
+		}
+	}
+	if(buf){
+		osc_mem_free(buf);
 	}
 	if(ret){
 		return OSC_ERR_PARSER;
@@ -169,6 +182,8 @@ void yyerror (YYLTYPE *yylloc, t_osc_parser_bndl_list **bndl, t_osc_msg_u **msg,
 
 %type <msg>arglist msg 
 
+%destructor { osc_mem_free($$); } <string>
+
 %%
 
 bundle: {
-- 
2.43.0


From 18421ef2b581d0b86ed79775e71e5118a4036fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:51 +0000
Subject: [PATCH 139/143] fix: the size of a number as a blob was read from its
 value, and was wrong when it was zero

---
 osc_atom_u.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 06d666a..2b8ccdc 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -915,7 +915,8 @@ int32_t osc_atom_u_getBlobLen(t_osc_atom_u *a)
 	case 's':
 		return strlen(a->w.s);
 	default:
-		return osc_sizeof(osc_atom_u_getTypetag(a), a->w.s);
+		// the size of these depends only on the type; the value isn't a pointer to anything
+		return osc_sizeof(osc_atom_u_getTypetag(a), (char *)&(a->w));
 	}
 }
 
-- 
2.43.0


From 921b2c634e8f5f88b8e968a0db2020ec796ca5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:51 +0000
Subject: [PATCH 140/143] fix: copying a value as a blob wrote past the end of
 a buffer too small for it

---
 osc_atom_s.c |  9 ++++++---
 osc_atom_u.c | 10 ++++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 3f6d8e0..956cef7 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -709,9 +709,12 @@ t_osc_err osc_atom_s_getBlobCopy(char **blob, int32_t *buflen, t_osc_atom_s *a)
 		}
 		break;
 	default:
-		*((int32_t *)(*blob)) = hton32(bloblen);
-		if(a->data){
-			memcpy((*blob) + 4, a->data, *buflen - 4 < bloblen ? *buflen - 4 : bloblen);
+		{
+			int32_t size = hton32(bloblen);
+			memcpy(*blob, &size, *buflen < 4 ? *buflen : 4);
+			if(a->data && *buflen > 4 && bloblen > 0){
+				memcpy((*blob) + 4, a->data, *buflen - 4 < bloblen ? *buflen - 4 : bloblen);
+			}
 		}
 	}
 	return OSC_ERR_NONE;
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 2b8ccdc..b83b917 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -945,6 +945,16 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 		*buflen += 4;
 		*blob = osc_mem_alloc(*buflen);
 	}
+	else{
+		// a caller's buffer can be of any size, so make the whole blob, and copy what fits
+		char *whole = NULL;
+		int32_t len = 0;
+		osc_atom_u_getBlobCopy(a, &len, &whole);
+		memset(*blob, '\0', *buflen);
+		memcpy(*blob, whole, *buflen < len ? *buflen : len);
+		osc_mem_free(whole);
+		return;
+	}
 	memset(*blob, '\0', *buflen);
 	switch(osc_atom_u_getTypetag(a)){
 	case 'b':
-- 
2.43.0


From f90f22bcf73604a34005753270836c6aa9453c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:04 +0000
Subject: [PATCH 141/143] fix: a character set that starts with a closing
 bracket matched nothing but that bracket

---
 osc_match.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/osc_match.c b/osc_match.c
index 4b35498..65e1482 100644
--- a/osc_match.c
+++ b/osc_match.c
@@ -249,6 +249,8 @@ int osc_match(const char *pattern, const char *address, int *pattern_offset, int
 					// so skip over it
 					if(pattern[sp->p + 1] == ']'){
 						sp->p += 2;
+					}else if(pattern[sp->p + 1] == '!' && pattern[sp->p + 2] == ']'){
+						sp->p += 3;
 					}
 					while(1){
 						if(pattern[sp->p] == ']'){
@@ -356,12 +358,8 @@ static inline int osc_match_range(const char *pattern, const char *address)
 
 	// we're on the first character inside the square brackets
 	// if it's a - or a ], it gets treated as a normal character
-	if(*p == ']'){
-		if(*p == *address){
-			return val;
-		}
-	}
-	while(*p != ']'){
+	const char *first = p;
+	while(*p != ']' || p == first){
 		char c = *p++, c2;
 		if(c == '\0' || c == '/'){
 			return OSC_MATCH_ERROR_UNMATCHED_LEFT_SQUARE_BRACKET;
-- 
2.43.0


From 41846390ab87767d847c3e7319b0b003c920d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:51 +0000
Subject: [PATCH 142/143] fix: the current time went back by a second at the
 end of every second

---
 osc_timetag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index edc03b6..a8283a0 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -614,7 +614,7 @@ t_osc_timetag osc_timetag_now(void)
 		//0 + //(uint32_t)(60 * tz.tz_minuteswest) +
 		//(uint32_t)(tz.tz_dsttime == 1 ? 3600 : 0);
     
-	n.frac_sec = (uint32_t)(tv.tv_usec * 4295); // 2^32-1 / 1.0e6
+	n.frac_sec = (uint32_t)(((uint64_t)tv.tv_usec << 32) / 1000000);
 
 	return *((t_osc_timetag *)(&n));
 #elif OSC_TIMETAG_FORMAT == OSC_TIMETAG_PTP
-- 
2.43.0


From 5b39dfc1cc270ae7dfc2fb54b70bc0c2439cfb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:19 +0000
Subject: [PATCH 143/143] fix: quickhull() of points above each other gave only
 one of them

---
 osc_expr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 1984b03..c94b486 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4771,9 +4771,11 @@ int osc_expr_quickhull(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 	}
 	int minx = 0, maxx = 0;
 	for(int i = 1; i < n; i++){
-		if(xs[i] < xs[minx]){
+		// points above each other count from bottom to top
+		if(xs[i] < xs[minx] || (xs[i] == xs[minx] && ys[i] < ys[minx])){
 			minx = i;
-		}else if(xs[i] > xs[maxx]){
+		}
+		if(xs[i] > xs[maxx] || (xs[i] == xs[maxx] && ys[i] > ys[maxx])){
 			maxx = i;
 		}
 	}
-- 
2.43.0

