From 6d5041da1e482ec1abef29ffa238028277ee94ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 01/19] fix: find the start sequence after surplus escape bytes

An escape byte that arrived when the four escape bytes of the start
sequence were already complete reset the search, so a frame directly
after a stray 0x1b on the line was lost.
---
 sml/src/sml_transport.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 17f868c..9b3743b 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -79,6 +79,10 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
 		if ((buf[len] == 0x1b && len < 4) || (buf[len] == 0x01 && len >= 4)) {
 			len++;
+		} else if (buf[len] == 0x1b) {
+			// one more escape byte than needed, the start sequence may
+			// still begin with the last ones
+			len = (len == 4) ? 4 : 1;
 		} else {
 			len = 0;
 		}
-- 
2.43.0


From 5bff37cbc3f8938bb18ec4320647d3b343ab9855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 02/19] fix: keep listening after a damaged or overlong frame

sml_transport_listen() took every failure of sml_transport_read() for the
end of the line and returned for ever after an unrecognised escape
sequence or a frame that did not fit its buffer. It now ends only when
the descriptor reports its end or an error.
---
 sml/src/sml_transport.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 9b3743b..bef83b1 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -56,7 +56,9 @@ size_t sml_read(int fd, fd_set *set, unsigned char *buffer, size_t len) {
 	return tr;
 }
 
-size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
+// Reads the next frame like sml_transport_read(). Sets *end if there is nothing
+// more to read from fd (end of file or read error).
+static size_t sml_transport_read_frame(int fd, unsigned char *buffer, size_t max_len, int *end) {
 
 	fd_set readfds;
 	FD_ZERO(&readfds);
@@ -74,6 +76,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
 	while (len < 8) {
 		if (sml_read(fd, &readfds, &(buf[len]), 1) == 0) {
+			*end = 1;
 			return 0;
 		}
 
@@ -91,6 +94,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	// found start sequence
 	while ((len + 8) < max_len) {
 		if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
+			*end = 1;
 			return 0;
 		}
 
@@ -98,6 +102,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 			// found esc sequence
 			len += 4;
 			if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
+				*end = 1;
 				return 0;
 			}
 
@@ -118,13 +123,23 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	return 0;
 }
 
+size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
+	int end = 0;
+	return sml_transport_read_frame(fd, buffer, max_len, &end);
+}
+
 void sml_transport_listen(int fd, void (*sml_transport_receiver)(unsigned char *buffer,
 																 size_t buffer_len)) {
 	unsigned char buffer[MC_SML_BUFFER_LEN];
 	size_t bytes;
+	int end = 0;
 
-	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {
-		sml_transport_receiver(buffer, bytes);
+	// a damaged or overlong frame is skipped, only the end of the line ends the loop
+	while (!end) {
+		bytes = sml_transport_read_frame(fd, buffer, MC_SML_BUFFER_LEN, &end);
+		if (bytes > 0) {
+			sml_transport_receiver(buffer, bytes);
+		}
 	}
 }
 
-- 
2.43.0


From 9b23bc67d45e6f0c6935f3ed2e76424730c53a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:06 +0000
Subject: [PATCH 03/19] fix: accept a frame that fills the caller's buffer
 exactly

---
 sml/src/sml_transport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index bef83b1..dba1085 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -92,7 +92,7 @@ static size_t sml_transport_read_frame(int fd, unsigned char *buffer, size_t max
 	}
 
 	// found start sequence
-	while ((len + 8) < max_len) {
+	while ((len + 8) <= max_len) {
 		if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
 			*end = 1;
 			return 0;
-- 
2.43.0


From 78dff9888761f425f0ecb6db8691fa846ee38c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:43 +0000
Subject: [PATCH 04/19] fix: write correct type-length fields for long data

The length of a list with more than 15 elements was increased by the
number of TL-fields although lists do not count them, lengths where that
addition needs a further TL-field (254, 4093, ...) lost their most
significant bits, and whatever the buffer held before was mixed into
the fields.
---
 sml/src/sml_shared.c | 47 +++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index d7cad9d..d04ba48 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -55,49 +55,30 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 }
 
 void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned int l) {
-	// set the type
-	buf->buffer[buf->cursor] = type;
-
+	// Every TL-field holds 4 bits of the length. Except for lists, the length
+	// includes the TL-fields themselves.
+	int fields = 1;
 	if (type != SML_TYPE_LIST) {
 		l++;
 	}
 
-	if (l > SML_LENGTH_FIELD) {
-
-		// how much shifts are necessary
-		int mask_pos = (sizeof(unsigned int) * 2) - 1;
-
-		// the 4 most significant bits of l (1111 0000 0000 ...)
-		unsigned int mask = 0xF0 << (8 * (sizeof(unsigned int) - 1));
-
-		// select the next 4 most significant bits with a bit set until there
-		// is something
-		while (!(mask & l)) {
-			mask >>= 4;
-			mask_pos--;
-		}
-
-		l += mask_pos; // for every TL-field
-
-		if ((0x0F << (4 * (mask_pos + 1))) & l) {
-			// for the rare case that the addition of the number of TL-fields
-			// result in another TL-field.
-			mask_pos++;
+	while (fields < (int)(sizeof(unsigned int) * 2) && (l >> (4 * fields))) {
+		fields++;
+		if (type != SML_TYPE_LIST) {
 			l++;
 		}
+	}
 
-		// copy 4 bits of the number to the buffer
-		while (mask > SML_LENGTH_FIELD) {
+	// the type is part of the first TL-field only
+	while (fields > 0) {
+		fields--;
+		buf->buffer[buf->cursor] = type | ((l >> (4 * fields)) & SML_LENGTH_FIELD);
+		if (fields > 0) {
 			buf->buffer[buf->cursor] |= SML_ANOTHER_TL;
-			buf->buffer[buf->cursor] |= ((mask & l) >> (4 * mask_pos));
-			mask >>= 4;
-			mask_pos--;
-			buf->cursor++;
 		}
+		buf->cursor++;
+		type = 0;
 	}
-
-	buf->buffer[buf->cursor] |= (l & SML_LENGTH_FIELD);
-	buf->cursor++;
 }
 
 int sml_buf_has_errors(sml_buffer *buf) { return buf->error != 0; }
-- 
2.43.0


From 0f01c618f3d208c8688d781599302a911a0e8cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:28 +0000
Subject: [PATCH 05/19] fix: let the write buffer grow instead of writing past
 its end

Files were written into a buffer of 512 bytes (or of the size of the
received file) without any check, so larger files overran the heap.
---
 sml/include/sml/sml_shared.h |  4 ++++
 sml/src/sml_boolean.c        |  3 +++
 sml/src/sml_message.c        |  3 +++
 sml/src/sml_number.c         |  3 +++
 sml/src/sml_octet_string.c   |  3 +++
 sml/src/sml_shared.c         | 25 +++++++++++++++++++++++++
 sml/src/sml_transport.c      |  9 +++++++++
 7 files changed, 50 insertions(+)

diff --git a/sml/include/sml/sml_shared.h b/sml/include/sml/sml_shared.h
index 86dec36..0a0e789 100644
--- a/sml/include/sml/sml_shared.h
+++ b/sml/include/sml/sml_shared.h
@@ -84,6 +84,10 @@ void sml_buffer_free(sml_buffer *buf);
 // the value field.
 int sml_buf_get_next_length(sml_buffer *buf);
 
+// Makes room for at least n more bytes at the cursor position. Returns 1 on
+// success; otherwise 0, and the buffer is marked erroneous.
+int sml_buf_reserve(sml_buffer *buf, size_t n);
+
 void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned int l);
 
 // Checks if a error is occured.
diff --git a/sml/src/sml_boolean.c b/sml/src/sml_boolean.c
index b1a8548..f247f07 100644
--- a/sml/src/sml_boolean.c
+++ b/sml/src/sml_boolean.c
@@ -62,6 +62,9 @@ void sml_boolean_write(sml_boolean *boolean, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_BOOLEAN, 1);
+	if (!sml_buf_reserve(buf, 1)) {
+		return;
+	}
 	if (*boolean == SML_BOOLEAN_FALSE) {
 		buf->buffer[buf->cursor] = SML_BOOLEAN_FALSE;
 	} else {
diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index de91085..74f5e8f 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -140,6 +140,9 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u16_write(msg->crc, buf);
 
 	// end of message
+	if (!sml_buf_reserve(buf, 1)) {
+		return;
+	}
 	buf->buffer[buf->cursor] = 0x0;
 	buf->cursor++;
 }
diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index 706a4c6..fcc69b3 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -135,6 +135,9 @@ void sml_number_write(void *np, unsigned char type, int size, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, type, size);
+	if (!sml_buf_reserve(buf, size)) {
+		return;
+	}
 	memcpy(sml_buf_get_current_buf(buf), np, size);
 
 	if (!(sml_number_endian() == SML_BIG_ENDIAN)) {
diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index f7db408..b221938 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -95,6 +95,9 @@ void sml_octet_string_write(octet_string *str, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_OCTET_STRING, (unsigned int)str->len);
+	if (!sml_buf_reserve(buf, str->len)) {
+		return;
+	}
 	memcpy(sml_buf_get_current_buf(buf), str->str, str->len);
 	buf->cursor += str->len;
 }
diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index d04ba48..82fc3ff 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -54,6 +54,24 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 	return length + list;
 }
 
+int sml_buf_reserve(sml_buffer *buf, size_t n) {
+	if (buf->cursor + n > buf->buffer_len) {
+		size_t length = 2 * buf->buffer_len;
+		if (length < buf->cursor + n) {
+			length = buf->cursor + n;
+		}
+		unsigned char *buffer = (unsigned char *)realloc(buf->buffer, length);
+		if (buffer == NULL) {
+			buf->error = 1;
+			return 0;
+		}
+		memset(buffer + buf->buffer_len, 0, length - buf->buffer_len);
+		buf->buffer = buffer;
+		buf->buffer_len = length;
+	}
+	return 1;
+}
+
 void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned int l) {
 	// Every TL-field holds 4 bits of the length. Except for lists, the length
 	// includes the TL-fields themselves.
@@ -69,6 +87,10 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 		}
 	}
 
+	if (!sml_buf_reserve(buf, fields)) {
+		return;
+	}
+
 	// the type is part of the first TL-field only
 	while (fields > 0) {
 		fields--;
@@ -109,6 +131,9 @@ sml_buffer *sml_buffer_init(size_t length) {
 }
 
 void sml_buf_optional_write(sml_buffer *buf) {
+	if (!sml_buf_reserve(buf, 1)) {
+		return;
+	}
 	buf->buffer[buf->cursor] = SML_OPTIONAL_SKIPPED;
 	buf->cursor++;
 }
diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index dba1085..0ed050d 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -146,14 +146,23 @@ void sml_transport_listen(int fd, void (*sml_transport_receiver)(unsigned char *
 int sml_transport_write(int fd, sml_file *file) {
 	sml_buffer *buf = file->buf;
 	buf->cursor = 0;
+	buf->error = 0;
 
 	// add start sequence
+	if (!sml_buf_reserve(buf, 8)) {
+		return 0;
+	}
 	memcpy(sml_buf_get_current_buf(buf), start_seq, 8);
 	buf->cursor += 8;
 
 	// add file
 	sml_file_write(file);
 
+	// room for up to 3 padding bytes and the end sequence
+	if (!sml_buf_reserve(buf, 3 + 8) || sml_buf_has_errors(buf)) {
+		return 0;
+	}
+
 	// add padding bytes
 	int padding = (buf->cursor % 4) ? (4 - buf->cursor % 4) : 0;
 	if (padding) {
-- 
2.43.0


From d3430f1f88086781b065cc9a6d2daf64155503ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:28 +0000
Subject: [PATCH 06/19] fix: do not leak the checksum when a message is written
 again

---
 sml/src/sml_message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 74f5e8f..fe62039 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -135,6 +135,7 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u8_write(msg->abort_on_error, buf);
 	sml_message_body_write(msg->message_body, buf);
 
+	sml_number_free(msg->crc);
 	msg->crc =
 		sml_u16_init(sml_crc16_calculate(&(buf->buffer[msg_start]), buf->cursor - msg_start));
 	sml_u16_write(msg->crc, buf);
-- 
2.43.0


From 41a9633ac2ca75c5bae8872d94a72db5886c1231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 07/19] fix: write all object list entries of a profile pack
 request

The last entry was counted but not written.
---
 sml/src/sml_get_profile_pack_request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_get_profile_pack_request.c b/sml/src/sml_get_profile_pack_request.c
index 6729b08..5020037 100644
--- a/sml/src/sml_get_profile_pack_request.c
+++ b/sml/src/sml_get_profile_pack_request.c
@@ -56,7 +56,7 @@ void sml_get_profile_pack_request_write(sml_get_profile_pack_request *msg, sml_b
 			len++;
 		}
 		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, len);
-		for (l = msg->object_list; l->next; l = l->next) {
+		for (l = msg->object_list; l; l = l->next) {
 			sml_obj_req_entry_write(l->object_list_entry, buf);
 		}
 	} else {
-- 
2.43.0


From 9f6d25de53726991a6bea3f8eb9222c9cca956b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 08/19] fix: write an empty tree path as an empty list

Nothing at all was written for it, which shifted all following fields.
---
 sml/src/sml_tree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index e54561e..f161326 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -80,6 +80,8 @@ void sml_tree_path_write(sml_tree_path *tree_path, sml_buffer *buf) {
 		for (i = 0; i < tree_path->path_entries_len; i++) {
 			sml_octet_string_write(tree_path->path_entries[i], buf);
 		}
+	} else {
+		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, 0);
 	}
 }
 
-- 
2.43.0


From be0860aa6a0c9a8a28f2206eccaa2a551881d5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:10 +0000
Subject: [PATCH 09/19] fix: report a time stamp of unknown type as an error

The value was left unread without an error, so the following fields
were decoded from the wrong place.
---
 sml/src/sml_time.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index 6e7beba..1b9012c 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -107,6 +107,7 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 			sml_number_free(t3);
 		break;
 	default:
+		buf->error = 1;
 		goto error;
 	}
 
-- 
2.43.0


From 623ee9bce406d5d36c62b2a359e05389aaef3568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 10/19] fix: determine the size of numbers from their real
 length

The size of numeric values and status words was taken from the low
nibble of the first type-length byte. Numbers of 9 to 14 bytes ended up
with a type that no longer was a number (a crash in every user of the
value), and numbers with more than one type-length byte with a wrong
size.
---
 sml/src/sml_status.c | 12 ++++++++++--
 sml/src/sml_value.c  | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/sml/src/sml_status.c b/sml/src/sml_status.c
index 11939da..07018c9 100644
--- a/sml/src/sml_status.c
+++ b/sml/src/sml_status.c
@@ -32,14 +32,22 @@ sml_status *sml_status_parse(sml_buffer *buf) {
 
 	int max = 1;
 	int type = sml_buf_get_next_type(buf);
-	unsigned char byte = sml_buf_get_current_byte(buf);
+	size_t cursor;
+	int len;
 
 	sml_status *status = sml_status_init();
 	status->type = type;
 	switch (type) {
 	case SML_TYPE_UNSIGNED:
 		// get maximal size, if not all bytes are used (example: only 6 bytes for a u64)
-		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
+		cursor = buf->cursor;
+		len = sml_buf_get_next_length(buf);
+		buf->cursor = cursor;
+		if (len > (int)sizeof(u64)) {
+			buf->error = 1;
+			break;
+		}
+		while (max < len) {
 			max <<= 1;
 		}
 
diff --git a/sml/src/sml_value.c b/sml/src/sml_value.c
index fab9d0e..14a6cab 100644
--- a/sml/src/sml_value.c
+++ b/sml/src/sml_value.c
@@ -27,7 +27,8 @@ sml_value *sml_value_parse(sml_buffer *buf) {
 
 	int max = 1;
 	int type = sml_buf_get_next_type(buf);
-	unsigned char byte = sml_buf_get_current_byte(buf);
+	size_t cursor;
+	int len;
 
 	sml_value *value = sml_value_init();
 	value->type = type;
@@ -42,7 +43,14 @@ sml_value *sml_value_parse(sml_buffer *buf) {
 	case SML_TYPE_UNSIGNED:
 	case SML_TYPE_INTEGER:
 		// get maximal size, if not all bytes are used (example: only 6 bytes for a u64)
-		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
+		cursor = buf->cursor;
+		len = sml_buf_get_next_length(buf);
+		buf->cursor = cursor;
+		if (len > (int)sizeof(u64)) {
+			buf->error = 1;
+			break;
+		}
+		while (max < len) {
 			max <<= 1;
 		}
 
-- 
2.43.0


From cafc60f1febcaa2a90a372c5d56aed4920cf4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 11/19] fix: reject lengths that do not fit an int

With enough type-length bytes the length wrapped around, so that an
absurdly long element was taken for a short one.
---
 sml/src/sml_shared.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index 82fc3ff..172e098 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -17,6 +17,7 @@
 // along with libSML.  If not, see <http://www.gnu.org/licenses/>.
 
 #include <sml/sml_shared.h>
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 
@@ -33,6 +34,10 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 
 	for (; buf->cursor < buf->buffer_len;) {
 		byte = sml_buf_get_current_byte(buf);
+		if (length > (INT_MAX >> 4)) { // length does not fit an int
+			buf->error = 1;
+			return -1;
+		}
 		length <<= 4;
 		length |= (byte & SML_LENGTH_FIELD);
 
-- 
2.43.0


From 7bb9e4a35d82eb0eb1344463301d5eb9ee5e797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:12 +0000
Subject: [PATCH 12/19] fix: do not take the sign of an empty integer from the
 next element

---
 sml/src/sml_number.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index fcc69b3..d0107a7 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -107,7 +107,7 @@ void *sml_number_parse(sml_buffer *buf, unsigned char type, int max_size) {
 	}
 
 	b = sml_buf_get_current_byte(buf);
-	if (type == SML_TYPE_INTEGER && (b & 128)) {
+	if (type == SML_TYPE_INTEGER && l > 0 && (b & 128)) {
 		negative_int = 1;
 	}
 
-- 
2.43.0


From df6a23d1586c954b8d684775d1fdeb6eb06e7e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:58 +0000
Subject: [PATCH 13/19] fix: report a message body without a tag as an error

The message was accepted with a NULL body, which callers dereference.
---
 sml/src/sml_message.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index fe62039..fce3fe0 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -170,8 +170,12 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 	}
 
 	msg_body->tag = sml_u32_parse(buf);
-	if (sml_buf_has_errors(buf) || msg_body->tag == NULL)
+	if (sml_buf_has_errors(buf))
+		goto error;
+	if (msg_body->tag == NULL) { // the tag is not optional
+		buf->error = 1;
 		goto error;
+	}
 
 	switch (*(msg_body->tag)) {
 	case SML_MESSAGE_OPEN_REQUEST:
-- 
2.43.0


From 72f8147498a413af4850d473b4587d38260fb20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 14/19] fix: report a parameter value without a tag as an error

The value was dropped silently and its remains were parsed as the next field.
---
 sml/src/sml_tree.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index f161326..6ca0db6 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -233,8 +233,12 @@ sml_proc_par_value *sml_proc_par_value_parse(sml_buffer *buf) {
 	}
 
 	ppv->tag = sml_u8_parse(buf);
-	if (sml_buf_has_errors(buf) || !(ppv->tag))
+	if (sml_buf_has_errors(buf))
+		goto error;
+	if (!ppv->tag) { // the tag is not optional
+		buf->error = 1;
 		goto error;
+	}
 
 	switch (*(ppv->tag)) {
 	case SML_PROC_PAR_VALUE_TAG_VALUE:
-- 
2.43.0


From 4ae51d515b3c4632bf6c0c8646d0557d9483cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 15/19] fix: apply the DZG DVS74 workaround to signed integers
 only

Other types were turned into a bogus unsigned type whose data was then
misread and leaked.
---
 sml/src/sml_list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_list.c b/sml/src/sml_list.c
index 3662d38..7400f7a 100644
--- a/sml/src/sml_list.c
+++ b/sml/src/sml_list.c
@@ -251,6 +251,7 @@ sml_list *sml_list_entry_parse(sml_buffer *buf, struct workarounds *workarounds)
 	} else if (workarounds->old_dzg_dvs74 && l->obj_name &&
 			   l->obj_name->len == sizeof(dzg_power_name) &&
 			   memcmp(l->obj_name->str, dzg_power_name, sizeof(dzg_power_name)) == 0 && l->value &&
+			   (l->value->type & SML_TYPE_FIELD) == SML_TYPE_INTEGER &&
 			   (value_len_more == 1 || value_len_more == 2 || value_len_more == 3)) {
 		l->value->type &= ~SML_TYPE_FIELD;
 		l->value->type |= SML_TYPE_UNSIGNED;
-- 
2.43.0


From c2bf871db3d4568e84bb345e7e29f8491e59ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 16/19] fix: check the length of a time stamp given as a list

Three elements are consumed whatever the list says, so that with any other
length the following fields were read from the wrong place.
---
 sml/src/sml_time.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index 1b9012c..dd9af56 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -70,7 +70,10 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 		// Some meters (e.g. FROETEC Multiflex ZG22) giving not one uint32
 		// as timestamp, but a list of 3 values.
 		// Ignoring these values, so that parsing does not fail.
-		sml_buf_get_next_length(buf); // should we check the length here?
+		if (sml_buf_get_next_length(buf) != 3) {
+			buf->error = 1;
+			goto error;
+		}
 		u32 *t1 = sml_u32_parse(buf);
 		if (sml_buf_has_errors(buf)) {
 			if (t1)
-- 
2.43.0


From 74df20ba1b984a6ffeea8e59aadb3b7308335c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:01 +0000
Subject: [PATCH 17/19] fix: check and close the entropy source of generated
 UUIDs

Without libuuid every UUID leaked a file descriptor, and as soon as
/dev/urandom could not be opened or read the UUID was made of uninitialised
memory, i.e. usually the same each time.
---
 sml/src/sml_octet_string.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index b221938..61d4627 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -16,6 +16,7 @@
 // You should have received a copy of the GNU General Public License
 // along with libSML.  If not, see <http://www.gnu.org/licenses/>.
 
+#include <errno.h>
 #include <fcntl.h>
 #include <sml/sml_octet_string.h>
 #include <stdio.h>
@@ -108,17 +109,27 @@ octet_string *sml_octet_string_generate_uuid() {
 	uuid_generate(uuid);
 #else
 	unsigned char uuid[16];
+	int have = 0;
 
 // TODO add support for WIN32 systems
 #ifdef __linux__
 	int fd = open("/dev/urandom", O_RDONLY);
-	read(fd, uuid, 16);
-#else
-	int i;
-	for (i = 0; i < 16; i++) {
-		uuid[i] = rand() % 0xFF;
+	while (fd >= 0 && have < 16) {
+		ssize_t r = read(fd, uuid + have, 16 - have);
+		if (r > 0) {
+			have += r;
+		} else if (r == 0 || errno != EINTR) {
+			break;
+		}
+	}
+	if (fd >= 0) {
+		close(fd);
 	}
 #endif /* __linux__ */
+	// without (enough) entropy from the system
+	for (; have < 16; have++) {
+		uuid[have] = rand() & 0xFF;
+	}
 	uuid[6] = (uuid[6] & 0x0F) | 0x40; // set version
 	uuid[8] = (uuid[8] & 0x3F) | 0x80; // set reserved bits
 #endif /* SML_NO_UUID_LIB */
-- 
2.43.0


From 1d4185af5a4d80429c01ae469d7b8f7c3f46a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:27 +0000
Subject: [PATCH 18/19] fix: convert empty octet strings to empty text

sml_value_to_strhex() returned NULL without touching the result, so that
callers printed "(null)" and freed an uninitialised pointer.
---
 sml/src/sml_value.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_value.c b/sml/src/sml_value.c
index 14a6cab..8d7020c 100644
--- a/sml/src/sml_value.c
+++ b/sml/src/sml_value.c
@@ -154,7 +154,8 @@ double sml_value_to_double(sml_value *value) {
 char *sml_value_to_strhex(sml_value *value, char **result, bool mixed) {
 	const char hex_str[] = "0123456789abcdef";
 
-	if (value == NULL || value->data.bytes == NULL || value->data.bytes->str == NULL)
+	*result = NULL;
+	if (value == NULL || value->data.bytes == NULL)
 		return NULL;
 
 	int len = value->data.bytes->len;
-- 
2.43.0


From fff44f32b86fd58889d745ecd3a16a75fcb5eba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 19/19] fix: a message whose checksum cannot be allocated is
 not sent

---
 sml/src/sml_message.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index fce3fe0..3de044f 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -138,6 +138,10 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_number_free(msg->crc);
 	msg->crc =
 		sml_u16_init(sml_crc16_calculate(&(buf->buffer[msg_start]), buf->cursor - msg_start));
+	if (msg->crc == NULL) { // a message without checksum must not be sent
+		buf->error = 1;
+		return;
+	}
 	sml_u16_write(msg->crc, buf);
 
 	// end of message
-- 
2.43.0

