From 20872914c95842459a6761841e0308a15fde762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 01/31] fix: reject type-length fields whose length exceeds an
 int

More than seven significant length nibbles overflowed the int accumulator
(undefined behaviour) and made a wrapped, wrong length acceptable.
---
 sml/src/sml_shared.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index d7cad9d..d6caff6 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -16,6 +16,7 @@
 // You should have received a copy of the GNU General Public License
 // along with libSML.  If not, see <http://www.gnu.org/licenses/>.
 
+#include <limits.h>
 #include <sml/sml_shared.h>
 #include <stdio.h>
 #include <string.h>
@@ -33,6 +34,10 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 
 	for (; buf->cursor < buf->buffer_len;) {
 		byte = sml_buf_get_current_byte(buf);
+		if (length > (INT_MAX >> 4)) { // the length would not fit into an int
+			buf->error = 1;
+			return -1;
+		}
 		length <<= 4;
 		length |= (byte & SML_LENGTH_FIELD);
 
-- 
2.43.0


From 95bf847dc4685be84562d213f122e5417da2ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 02/31] fix: reject numbers without a value byte

A zero-length number took its sign from the byte behind it.
---
 sml/src/sml_number.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index 706a4c6..d804223 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -85,7 +85,7 @@ void *sml_number_parse(sml_buffer *buf, unsigned char type, int max_size) {
 	}
 
 	l = sml_buf_get_next_length(buf);
-	if (l < 0 || l > max_size) {
+	if (l < 1 || l > max_size) {
 		buf->error = 1;
 		return NULL;
 	}
-- 
2.43.0


From f56cde5806169684aa57886b26b0f19084d123b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 03/31] fix: reject values and statuses wider than eight bytes

A 9 to 14 byte number gave a width of 16, which spilled into the type field.
---
 sml/src/sml_status.c | 4 ++++
 sml/src/sml_value.c  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sml/src/sml_status.c b/sml/src/sml_status.c
index 11939da..0af242d 100644
--- a/sml/src/sml_status.c
+++ b/sml/src/sml_status.c
@@ -42,6 +42,10 @@ sml_status *sml_status_parse(sml_buffer *buf) {
 		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
 			max <<= 1;
 		}
+		if (max > (int)SML_TYPE_NUMBER_64) {
+			buf->error = 1;
+			break;
+		}
 
 		status->data.status8 = sml_number_parse(buf, type, max);
 		status->type |= max;
diff --git a/sml/src/sml_value.c b/sml/src/sml_value.c
index fab9d0e..b57921e 100644
--- a/sml/src/sml_value.c
+++ b/sml/src/sml_value.c
@@ -45,6 +45,10 @@ sml_value *sml_value_parse(sml_buffer *buf) {
 		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
 			max <<= 1;
 		}
+		if (max > (int)SML_TYPE_NUMBER_64) {
+			buf->error = 1;
+			break;
+		}
 
 		value->data.uint8 = sml_number_parse(buf, type, max);
 		value->type |= max;
-- 
2.43.0


From 0d43e5d8e4a16e2f45405a5f960e8ded18372dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 04/31] fix: report an error for a time with neither number nor
 list

The time was dropped without an error and parsing went on in the middle of it.
---
 sml/src/sml_time.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index 6e7beba..1b9012c 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -107,6 +107,7 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 			sml_number_free(t3);
 		break;
 	default:
+		buf->error = 1;
 		goto error;
 	}
 
-- 
2.43.0


From 108241c90360453266e01f75f2e5a1a33705af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 05/31] fix: report an error for a message body without a tag

Such a message was delivered with a NULL body, which every user dereferences.
---
 sml/src/sml_message.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index de91085..bd1bba9 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -166,8 +166,10 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 	}
 
 	msg_body->tag = sml_u32_parse(buf);
-	if (sml_buf_has_errors(buf) || msg_body->tag == NULL)
+	if (sml_buf_has_errors(buf) || msg_body->tag == NULL) {
+		buf->error = 1; // the tag is not optional
 		goto error;
+	}
 
 	switch (*(msg_body->tag)) {
 	case SML_MESSAGE_OPEN_REQUEST:
-- 
2.43.0


From 8aff5e921ed23156194b879b3c3415fe22f73dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 06/31] fix: report an error for a parameter value without a
 tag

The value was dropped without an error and its content was read as the
fields behind it.
---
 sml/src/sml_tree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index e54561e..fec0193 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -231,8 +231,10 @@ sml_proc_par_value *sml_proc_par_value_parse(sml_buffer *buf) {
 	}
 
 	ppv->tag = sml_u8_parse(buf);
-	if (sml_buf_has_errors(buf) || !(ppv->tag))
+	if (sml_buf_has_errors(buf) || !(ppv->tag)) {
+		buf->error = 1; // the tag is not optional
 		goto error;
+	}
 
 	switch (*(ppv->tag)) {
 	case SML_PROC_PAR_VALUE_TAG_VALUE:
-- 
2.43.0


From a41b9bab3f4757fc8223cac1a78d9f5ee51f547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 07/31] fix: require three elements in a time given as a list

The element count was ignored, so a list of any other size was misread.
---
 sml/src/sml_time.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index 1b9012c..dd9af56 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -70,7 +70,10 @@ sml_time *sml_time_parse(sml_buffer *buf) {
 		// Some meters (e.g. FROETEC Multiflex ZG22) giving not one uint32
 		// as timestamp, but a list of 3 values.
 		// Ignoring these values, so that parsing does not fail.
-		sml_buf_get_next_length(buf); // should we check the length here?
+		if (sml_buf_get_next_length(buf) != 3) {
+			buf->error = 1;
+			goto error;
+		}
 		u32 *t1 = sml_u32_parse(buf);
 		if (sml_buf_has_errors(buf)) {
 			if (t1)
-- 
2.43.0


From 0ffc2e29bf26d5b156d940097d12ead91293fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 08/31] fix: count the messages of a file in an int

With more than 32767 messages the short counter wrapped to a negative value
and the message array was reallocated and indexed out of bounds.
---
 sml/include/sml/sml_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/include/sml/sml_file.h b/sml/include/sml/sml_file.h
index d864d40..b6cd76f 100644
--- a/sml/include/sml/sml_file.h
+++ b/sml/include/sml/sml_file.h
@@ -30,7 +30,7 @@ extern "C" {
 // a SML file consist of multiple SML messages
 typedef struct {
 	sml_message **messages;
-	short messages_len;
+	int messages_len;
 	sml_buffer *buf;
 } sml_file;
 
-- 
2.43.0


From 36cb5a4806a835c5a07f1c11745172393d929718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 09/31] fix: limit the nesting depth of parsed trees

A few kilobytes of nested trees overflowed the stack.
---
 sml/src/sml_tree.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index fec0193..a57f01d 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -108,11 +108,19 @@ sml_tree *sml_tree_init() {
 	return tree;
 }
 
-sml_tree *sml_tree_parse(sml_buffer *buf) {
+// nesting deeper than this is rejected, it would only exhaust the stack
+#define SML_TREE_MAX_DEPTH 256
+
+static sml_tree *sml_tree_parse_(sml_buffer *buf, int depth) {
 	if (sml_buf_optional_is_skipped(buf)) {
 		return NULL;
 	}
 
+	if (depth >= SML_TREE_MAX_DEPTH) {
+		buf->error = 1;
+		return NULL;
+	}
+
 	sml_tree *tree = sml_tree_init();
 
 	if (sml_buf_get_next_type(buf) != SML_TYPE_LIST) {
@@ -142,7 +150,7 @@ sml_tree *sml_tree_parse(sml_buffer *buf) {
 		sml_tree *c;
 		int elems;
 		for (elems = sml_buf_get_next_length(buf); elems > 0; elems--) {
-			c = sml_tree_parse(buf);
+			c = sml_tree_parse_(buf, depth + 1);
 			if (sml_buf_has_errors(buf)) {
 				if (c)
 					sml_tree_free(c);
@@ -161,6 +169,8 @@ error:
 	return NULL;
 }
 
+sml_tree *sml_tree_parse(sml_buffer *buf) { return sml_tree_parse_(buf, 0); }
+
 void sml_tree_add_tree(sml_tree *base_tree, sml_tree *tree) {
 	base_tree->child_list_len++;
 	base_tree->child_list =
-- 
2.43.0


From 86b5d2f952fc2067bd9978b8df802d5a578ff188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 10/31] fix: write an empty tree path as an empty list

Nothing at all was written, which corrupted the enclosing message.
---
 sml/src/sml_tree.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sml/src/sml_tree.c b/sml/src/sml_tree.c
index a57f01d..73f89b9 100644
--- a/sml/src/sml_tree.c
+++ b/sml/src/sml_tree.c
@@ -73,13 +73,11 @@ void sml_tree_path_write(sml_tree_path *tree_path, sml_buffer *buf) {
 		return;
 	}
 
-	if (tree_path->path_entries && tree_path->path_entries_len > 0) {
-		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree_path->path_entries_len);
+	sml_buf_set_type_and_length(buf, SML_TYPE_LIST, tree_path->path_entries_len);
 
-		int i;
-		for (i = 0; i < tree_path->path_entries_len; i++) {
-			sml_octet_string_write(tree_path->path_entries[i], buf);
-		}
+	int i;
+	for (i = 0; i < tree_path->path_entries_len; i++) {
+		sml_octet_string_write(tree_path->path_entries[i], buf);
 	}
 }
 
-- 
2.43.0


From fec000c670c783b64e158312edd719e6e4d61620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 11/31] fix: write the last object list entry of a profile
 request

The list announced n entries and held n - 1.
---
 sml/src/sml_get_profile_pack_request.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sml/src/sml_get_profile_pack_request.c b/sml/src/sml_get_profile_pack_request.c
index 6729b08..4168a78 100644
--- a/sml/src/sml_get_profile_pack_request.c
+++ b/sml/src/sml_get_profile_pack_request.c
@@ -51,12 +51,12 @@ void sml_get_profile_pack_request_write(sml_get_profile_pack_request *msg, sml_b
 
 	if (msg->object_list) {
 		int len = 1;
-		sml_obj_req_entry_list *l = msg->object_list;
+		sml_obj_req_entry_list *l;
 		for (l = msg->object_list; l->next; l = l->next) {
 			len++;
 		}
 		sml_buf_set_type_and_length(buf, SML_TYPE_LIST, len);
-		for (l = msg->object_list; l->next; l = l->next) {
+		for (l = msg->object_list; l; l = l->next) {
 			sml_obj_req_entry_write(l->object_list_entry, buf);
 		}
 	} else {
-- 
2.43.0


From 8cd86dbe7cae6851041cb02e1fec7c15dac7b03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 12/31] fix: free the previous checksum when a message is
 written

Writing a parsed message, or any message twice, leaked it.
---
 sml/src/sml_message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index bd1bba9..6f5d8b6 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -135,6 +135,7 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u8_write(msg->abort_on_error, buf);
 	sml_message_body_write(msg->message_body, buf);
 
+	sml_number_free(msg->crc);
 	msg->crc =
 		sml_u16_init(sml_crc16_calculate(&(buf->buffer[msg_start]), buf->cursor - msg_start));
 	sml_u16_write(msg->crc, buf);
-- 
2.43.0


From dc56f6223168d7e88755dbde3cf64e452b4da278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 13/31] fix: apply the DZG DVS74 workaround to integers only

Strings and booleans were turned into unsigned numbers as well, whose free
then leaked and whose reading as a number was out of bounds.
---
 sml/src/sml_list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_list.c b/sml/src/sml_list.c
index 3662d38..7400f7a 100644
--- a/sml/src/sml_list.c
+++ b/sml/src/sml_list.c
@@ -251,6 +251,7 @@ sml_list *sml_list_entry_parse(sml_buffer *buf, struct workarounds *workarounds)
 	} else if (workarounds->old_dzg_dvs74 && l->obj_name &&
 			   l->obj_name->len == sizeof(dzg_power_name) &&
 			   memcmp(l->obj_name->str, dzg_power_name, sizeof(dzg_power_name)) == 0 && l->value &&
+			   (l->value->type & SML_TYPE_FIELD) == SML_TYPE_INTEGER &&
 			   (value_len_more == 1 || value_len_more == 2 || value_len_more == 3)) {
 		l->value->type &= ~SML_TYPE_FIELD;
 		l->value->type |= SML_TYPE_UNSIGNED;
-- 
2.43.0


From feb7b0360fe10211bc7cb1ce5ad565debd88dad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 14/31] fix: write correct type-length fields for all lengths

Lists of 16 and more elements got the number of TL-fields added to their
element count, the additional TL-field was lost when counting the TL-fields
itself made one necessary (e.g. for strings of 254 bytes), the bytes were
ORed into whatever the buffer held before, and the masks shifted into the
sign bit.
---
 sml/src/sml_shared.c | 55 ++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 38 deletions(-)

diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index d6caff6..c90cc68 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -60,49 +60,28 @@ int sml_buf_get_next_length(sml_buffer *buf) {
 }
 
 void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned int l) {
-	// set the type
-	buf->buffer[buf->cursor] = type;
-
-	if (type != SML_TYPE_LIST) {
-		l++;
-	}
-
-	if (l > SML_LENGTH_FIELD) {
-
-		// how much shifts are necessary
-		int mask_pos = (sizeof(unsigned int) * 2) - 1;
-
-		// the 4 most significant bits of l (1111 0000 0000 ...)
-		unsigned int mask = 0xF0 << (8 * (sizeof(unsigned int) - 1));
-
-		// select the next 4 most significant bits with a bit set until there
-		// is something
-		while (!(mask & l)) {
-			mask >>= 4;
-			mask_pos--;
-		}
-
-		l += mask_pos; // for every TL-field
-
-		if ((0x0F << (4 * (mask_pos + 1))) & l) {
-			// for the rare case that the addition of the number of TL-fields
-			// result in another TL-field.
-			mask_pos++;
-			l++;
+	// the length of a list is its number of elements, every other length
+	// includes the TL-fields
+	u64 length = (type == SML_TYPE_LIST) ? l : (u64)l + 1;
+	int fields = 1;
+
+	// how many TL-fields are necessary
+	while (length >> (4 * fields)) {
+		fields++;
+		if (type != SML_TYPE_LIST) {
+			length++;
 		}
+	}
 
-		// copy 4 bits of the number to the buffer
-		while (mask > SML_LENGTH_FIELD) {
+	// the type is set in the first TL-field only
+	while (fields--) {
+		buf->buffer[buf->cursor] = type | ((length >> (4 * fields)) & SML_LENGTH_FIELD);
+		if (fields) {
 			buf->buffer[buf->cursor] |= SML_ANOTHER_TL;
-			buf->buffer[buf->cursor] |= ((mask & l) >> (4 * mask_pos));
-			mask >>= 4;
-			mask_pos--;
-			buf->cursor++;
 		}
+		buf->cursor++;
+		type = 0;
 	}
-
-	buf->buffer[buf->cursor] |= (l & SML_LENGTH_FIELD);
-	buf->cursor++;
 }
 
 int sml_buf_has_errors(sml_buffer *buf) { return buf->error != 0; }
-- 
2.43.0


From e89dc815b8f89afceba157fbce3872a9da6acb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 15/31] fix: grow the output buffer instead of writing behind
 its end

Files longer than the initial 512 bytes, and parsed files that are sent
(their buffer has exactly the size of the received data), were written
beyond the allocated buffer.
---
 sml/include/sml/sml_shared.h |  6 +++++-
 sml/src/sml_boolean.c        |  1 +
 sml/src/sml_message.c        |  1 +
 sml/src/sml_number.c         |  1 +
 sml/src/sml_octet_string.c   |  1 +
 sml/src/sml_shared.c         | 17 +++++++++++++++++
 sml/src/sml_transport.c      |  2 ++
 7 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/sml/include/sml/sml_shared.h b/sml/include/sml/sml_shared.h
index 86dec36..2337f95 100644
--- a/sml/include/sml/sml_shared.h
+++ b/sml/include/sml/sml_shared.h
@@ -64,7 +64,7 @@ typedef int64_t i64;
 //
 // Writing: At the beginning the buffer field is malloced and zeroed with
 //          a default length, this default length is stored in buffer_len
-//          (i.e. the maximum bytes one can write to this buffer)
+//          (i.e. the bytes one can write before the buffer has to grow)
 //          cursor points to the position, where on can write during the
 //          writing process. If a file is completely written to the buffer,
 //          cursor is the number of bytes written to the buffer.
@@ -86,6 +86,10 @@ int sml_buf_get_next_length(sml_buffer *buf);
 
 void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned int l);
 
+// Makes room for writing the given number of bytes at the cursor position, the
+// buffer grows if necessary.
+void sml_buf_reserve(sml_buffer *buf, size_t bytes);
+
 // Checks if a error is occured.
 int sml_buf_has_errors(sml_buffer *buf);
 
diff --git a/sml/src/sml_boolean.c b/sml/src/sml_boolean.c
index b1a8548..137721d 100644
--- a/sml/src/sml_boolean.c
+++ b/sml/src/sml_boolean.c
@@ -62,6 +62,7 @@ void sml_boolean_write(sml_boolean *boolean, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_BOOLEAN, 1);
+	sml_buf_reserve(buf, 1);
 	if (*boolean == SML_BOOLEAN_FALSE) {
 		buf->buffer[buf->cursor] = SML_BOOLEAN_FALSE;
 	} else {
diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 6f5d8b6..36bf8a2 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -141,6 +141,7 @@ void sml_message_write(sml_message *msg, sml_buffer *buf) {
 	sml_u16_write(msg->crc, buf);
 
 	// end of message
+	sml_buf_reserve(buf, 1);
 	buf->buffer[buf->cursor] = 0x0;
 	buf->cursor++;
 }
diff --git a/sml/src/sml_number.c b/sml/src/sml_number.c
index d804223..090f8b7 100644
--- a/sml/src/sml_number.c
+++ b/sml/src/sml_number.c
@@ -135,6 +135,7 @@ void sml_number_write(void *np, unsigned char type, int size, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, type, size);
+	sml_buf_reserve(buf, size);
 	memcpy(sml_buf_get_current_buf(buf), np, size);
 
 	if (!(sml_number_endian() == SML_BIG_ENDIAN)) {
diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index f7db408..141416c 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -95,6 +95,7 @@ void sml_octet_string_write(octet_string *str, sml_buffer *buf) {
 	}
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_OCTET_STRING, (unsigned int)str->len);
+	sml_buf_reserve(buf, str->len);
 	memcpy(sml_buf_get_current_buf(buf), str->str, str->len);
 	buf->cursor += str->len;
 }
diff --git a/sml/src/sml_shared.c b/sml/src/sml_shared.c
index c90cc68..36f516e 100644
--- a/sml/src/sml_shared.c
+++ b/sml/src/sml_shared.c
@@ -73,6 +73,8 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 		}
 	}
 
+	sml_buf_reserve(buf, fields);
+
 	// the type is set in the first TL-field only
 	while (fields--) {
 		buf->buffer[buf->cursor] = type | ((length >> (4 * fields)) & SML_LENGTH_FIELD);
@@ -84,6 +86,20 @@ void sml_buf_set_type_and_length(sml_buffer *buf, unsigned int type, unsigned in
 	}
 }
 
+void sml_buf_reserve(sml_buffer *buf, size_t bytes) {
+	if (bytes <= buf->buffer_len - buf->cursor) {
+		return;
+	}
+
+	size_t len = 2 * buf->buffer_len;
+	if (len < buf->cursor + bytes) {
+		len = buf->cursor + bytes;
+	}
+	buf->buffer = (unsigned char *)realloc(buf->buffer, len);
+	memset(buf->buffer + buf->buffer_len, 0, len - buf->buffer_len);
+	buf->buffer_len = len;
+}
+
 int sml_buf_has_errors(sml_buffer *buf) { return buf->error != 0; }
 
 int sml_buf_get_next_type(sml_buffer *buf) {
@@ -112,6 +128,7 @@ sml_buffer *sml_buffer_init(size_t length) {
 }
 
 void sml_buf_optional_write(sml_buffer *buf) {
+	sml_buf_reserve(buf, 1);
 	buf->buffer[buf->cursor] = SML_OPTIONAL_SKIPPED;
 	buf->cursor++;
 }
diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 17f868c..c6bdfc5 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -129,6 +129,7 @@ int sml_transport_write(int fd, sml_file *file) {
 	buf->cursor = 0;
 
 	// add start sequence
+	sml_buf_reserve(buf, 8);
 	memcpy(sml_buf_get_current_buf(buf), start_seq, 8);
 	buf->cursor += 8;
 
@@ -137,6 +138,7 @@ int sml_transport_write(int fd, sml_file *file) {
 
 	// add padding bytes
 	int padding = (buf->cursor % 4) ? (4 - buf->cursor % 4) : 0;
+	sml_buf_reserve(buf, padding + 8); // padding and end sequence
 	if (padding) {
 		// write zeroed bytes
 		memset(sml_buf_get_current_buf(buf), 0, padding);
-- 
2.43.0


From 5829e14038c8fc366c7b82af8cf291a2ce2ba032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 16/31] fix: find the start sequence behind additional escape
 bytes

An escape byte in front of the start sequence, or an incomplete start
sequence, made the reader miss the file that follows.
---
 sml/src/sml_transport.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index c6bdfc5..7dedbee 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -79,6 +79,9 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
 		if ((buf[len] == 0x1b && len < 4) || (buf[len] == 0x01 && len >= 4)) {
 			len++;
+		} else if (buf[len] == 0x1b) {
+			// the last four escape bytes may still begin the start sequence
+			len = (len == 4) ? 4 : 1;
 		} else {
 			len = 0;
 		}
-- 
2.43.0


From 8a5b9c8dec64e37ee52b313f23cdb2ec0123b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 17/31] fix: compare unequal to hex text of odd length

The rejected text was dereferenced as a NULL octet string.
---
 sml/src/sml_octet_string.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index 141416c..c3ccacd 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -132,6 +132,9 @@ int sml_octet_string_cmp(octet_string *s1, octet_string *s2) {
 
 int sml_octet_string_cmp_with_hex(octet_string *str, char *hex) {
 	octet_string *hstr = sml_octet_string_init_from_hex(hex);
+	if (hstr == NULL) {
+		return -1; // not a valid hex string
+	}
 	if (str->len != hstr->len) {
 		sml_octet_string_free(hstr);
 		return -1;
-- 
2.43.0


From b57fa0c284a1299ca79f383a734f53c41add9ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 18/31] fix: do not declare variable length arrays of size zero

This is undefined behaviour, reached with empty hex text and with an empty
transport buffer.
---
 sml/src/sml_octet_string.c | 2 +-
 sml/src/sml_transport.c    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index c3ccacd..78f08f4 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -49,7 +49,7 @@ octet_string *sml_octet_string_init_from_hex(char *str) {
 	if (len % 2 != 0) {
 		return NULL;
 	}
-	unsigned char bytes[len / 2];
+	unsigned char bytes[len / 2 + 1]; // never zero-sized
 	for (i = 0; i < (len / 2); i++) {
 		bytes[i] = c2ptoi(&(str[i * 2]));
 	}
diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 7dedbee..0ce81c6 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -62,16 +62,16 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	FD_ZERO(&readfds);
 	FD_SET(fd, &readfds);
 
-	unsigned char buf[max_len];
-	memset(buf, 0, max_len);
-	unsigned int len = 0;
-
 	if (max_len < 8) {
 		// prevent buffer overflow
 		fprintf(stderr, "libsml: error: sml_transport_read(): passed buffer too small!\n");
 		return 0;
 	}
 
+	unsigned char buf[max_len];
+	memset(buf, 0, max_len);
+	unsigned int len = 0;
+
 	while (len < 8) {
 		if (sml_read(fd, &readfds, &(buf[len]), 1) == 0) {
 			return 0;
-- 
2.43.0


From fc5a3159fa32758b84dedfe80d9b58faf09d95e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 19/31] fix: close /dev/urandom after generating an identifier

Without the UUID library every created message leaked a file descriptor.
---
 sml/src/sml_octet_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index 78f08f4..1dec842 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -111,6 +111,7 @@ octet_string *sml_octet_string_generate_uuid() {
 #ifdef __linux__
 	int fd = open("/dev/urandom", O_RDONLY);
 	read(fd, uuid, 16);
+	close(fd);
 #else
 	int i;
 	for (i = 0; i < 16; i++) {
-- 
2.43.0


From 5dc713b3599bf44559d4df59f55a5dfbaea6769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 20/31] fix: write a time without a timestamp as absent

The value of an SML_Time is not optional, the file could not be read again.
---
 sml/src/sml_time.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_time.c b/sml/src/sml_time.c
index dd9af56..92c97ba 100644
--- a/sml/src/sml_time.c
+++ b/sml/src/sml_time.c
@@ -122,7 +122,8 @@ error:
 }
 
 void sml_time_write(sml_time *t, sml_buffer *buf) {
-	if (t == 0) {
+	// a time without a timestamp (see the FROETEC workaround) is not a valid SML_Time
+	if (t == 0 || t->data.timestamp == 0) {
 		sml_buf_optional_write(buf);
 		return;
 	}
-- 
2.43.0


From 3d9c18c80c89ca2dd9c5328c9b7cfc66d5a1de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 21/31] fix: keep listening after a damaged or oversized file

A single unrecognized escape sequence or a file longer than the buffer ended
the documented endless loop, all later files were lost.
---
 sml/src/sml_transport.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 0ce81c6..17c0db3 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -56,7 +56,8 @@ size_t sml_read(int fd, fd_set *set, unsigned char *buffer, size_t len) {
 	return tr;
 }
 
-size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
+// closed is set if nothing more can be read from fd
+static size_t sml_transport_read_(int fd, unsigned char *buffer, size_t max_len, int *closed) {
 
 	fd_set readfds;
 	FD_ZERO(&readfds);
@@ -74,6 +75,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 
 	while (len < 8) {
 		if (sml_read(fd, &readfds, &(buf[len]), 1) == 0) {
+			*closed = 1;
 			return 0;
 		}
 
@@ -90,6 +92,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	// found start sequence
 	while ((len + 8) < max_len) {
 		if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
+			*closed = 1;
 			return 0;
 		}
 
@@ -97,6 +100,7 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 			// found esc sequence
 			len += 4;
 			if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
+				*closed = 1;
 				return 0;
 			}
 
@@ -117,13 +121,23 @@ size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
 	return 0;
 }
 
+size_t sml_transport_read(int fd, unsigned char *buffer, size_t max_len) {
+	int closed = 0;
+
+	return sml_transport_read_(fd, buffer, max_len, &closed);
+}
+
 void sml_transport_listen(int fd, void (*sml_transport_receiver)(unsigned char *buffer,
 																 size_t buffer_len)) {
 	unsigned char buffer[MC_SML_BUFFER_LEN];
 	size_t bytes;
+	int closed = 0;
 
-	while ((bytes = sml_transport_read(fd, buffer, MC_SML_BUFFER_LEN)) > 0) {
-		sml_transport_receiver(buffer, bytes);
+	while (!closed) {
+		bytes = sml_transport_read_(fd, buffer, MC_SML_BUFFER_LEN, &closed);
+		if (bytes > 0) {
+			sml_transport_receiver(buffer, bytes);
+		}
 	}
 }
 
-- 
2.43.0


From 551208eda54175632e6a3edc80d6109b2c881ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 22/31] fix: take the width of values and statuses from the
 whole length field

Only the first TL-field was looked at, a number whose length is given in
several TL-fields was rejected or got a wrong width.
---
 sml/src/sml_status.c | 13 ++++++++-----
 sml/src/sml_value.c  | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/sml/src/sml_status.c b/sml/src/sml_status.c
index 0af242d..26e4000 100644
--- a/sml/src/sml_status.c
+++ b/sml/src/sml_status.c
@@ -32,20 +32,23 @@ sml_status *sml_status_parse(sml_buffer *buf) {
 
 	int max = 1;
 	int type = sml_buf_get_next_type(buf);
-	unsigned char byte = sml_buf_get_current_byte(buf);
+	size_t start = buf->cursor;
+	int length;
 
 	sml_status *status = sml_status_init();
 	status->type = type;
 	switch (type) {
 	case SML_TYPE_UNSIGNED:
 		// get maximal size, if not all bytes are used (example: only 6 bytes for a u64)
-		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
-			max <<= 1;
-		}
-		if (max > (int)SML_TYPE_NUMBER_64) {
+		length = sml_buf_get_next_length(buf);
+		if (length > (int)SML_TYPE_NUMBER_64) {
 			buf->error = 1;
 			break;
 		}
+		buf->cursor = start;
+		while (max < length) {
+			max <<= 1;
+		}
 
 		status->data.status8 = sml_number_parse(buf, type, max);
 		status->type |= max;
diff --git a/sml/src/sml_value.c b/sml/src/sml_value.c
index b57921e..625c6e0 100644
--- a/sml/src/sml_value.c
+++ b/sml/src/sml_value.c
@@ -27,7 +27,8 @@ sml_value *sml_value_parse(sml_buffer *buf) {
 
 	int max = 1;
 	int type = sml_buf_get_next_type(buf);
-	unsigned char byte = sml_buf_get_current_byte(buf);
+	size_t start = buf->cursor;
+	int length;
 
 	sml_value *value = sml_value_init();
 	value->type = type;
@@ -42,13 +43,15 @@ sml_value *sml_value_parse(sml_buffer *buf) {
 	case SML_TYPE_UNSIGNED:
 	case SML_TYPE_INTEGER:
 		// get maximal size, if not all bytes are used (example: only 6 bytes for a u64)
-		while (max < ((byte & SML_LENGTH_FIELD) - 1)) {
-			max <<= 1;
-		}
-		if (max > (int)SML_TYPE_NUMBER_64) {
+		length = sml_buf_get_next_length(buf);
+		if (length > (int)SML_TYPE_NUMBER_64) {
 			buf->error = 1;
 			break;
 		}
+		buf->cursor = start;
+		while (max < length) {
+			max <<= 1;
+		}
 
 		value->data.uint8 = sml_number_parse(buf, type, max);
 		value->type |= max;
-- 
2.43.0


From 173fc9a8415c89183025b1221227049fcd8ac3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 23/31] fix: accept an octet string that ends at the end of the
 buffer

Unlike every other element it needed one more byte behind it.
---
 sml/src/sml_octet_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index 1dec842..9abd29f 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -77,7 +77,7 @@ octet_string *sml_octet_string_parse(sml_buffer *buf) {
 	}
 
 	l = sml_buf_get_next_length(buf);
-	if (l < 0 || l >= (buf->buffer_len - buf->cursor)) { // sanity check: doesnt fit into buffer...
+	if (l < 0 || (size_t)l > buf->buffer_len - buf->cursor) { // sanity check: doesnt fit into buffer...
 		// libFuzzer fix for crash-3b12f21fdd346700ac1a10dfebba7604be8f070c
 		buf->error = 1;
 		return NULL;
-- 
2.43.0


From 2a3e5d27b5b4fe18331d00774176da30ecd1e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:39 +0000
Subject: [PATCH 24/31] fix: generate identifiers without the UUID library when
 no file can be opened

---
 sml/src/sml_octet_string.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index 9abd29f..f4f1b0d 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -26,6 +26,9 @@
 #include <uuid/uuid.h>
 #else
 #include <stdlib.h> // for rand()
+#ifdef __linux__
+#include <sys/random.h>
+#endif
 #endif
 
 uint8_t ctoi(uint8_t c);
@@ -109,9 +112,12 @@ octet_string *sml_octet_string_generate_uuid() {
 
 // TODO add support for WIN32 systems
 #ifdef __linux__
-	int fd = open("/dev/urandom", O_RDONLY);
-	read(fd, uuid, 16);
-	close(fd);
+	// does not depend on a free file descriptor
+	if (getrandom(uuid, 16, 0) != 16) {
+		int fd = open("/dev/urandom", O_RDONLY);
+		read(fd, uuid, 16);
+		close(fd);
+	}
 #else
 	int i;
 	for (i = 0; i < 16; i++) {
-- 
2.43.0


From 7958ce0203b2196d5da25fe7528f7b30b8cad8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:23 +0000
Subject: [PATCH 25/31] fix: read files into the caller's buffer instead of the
 stack

---
 sml/src/sml_transport.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index 17c0db3..d90d6c3 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -69,9 +69,8 @@ static size_t sml_transport_read_(int fd, unsigned char *buffer, size_t max_len,
 		return 0;
 	}
 
-	unsigned char buf[max_len];
-	memset(buf, 0, max_len);
-	unsigned int len = 0;
+	unsigned char *buf = buffer;
+	size_t len = 0;
 
 	while (len < 8) {
 		if (sml_read(fd, &readfds, &(buf[len]), 1) == 0) {
@@ -107,7 +106,6 @@ static size_t sml_transport_read_(int fd, unsigned char *buffer, size_t max_len,
 			if (buf[len] == 0x1a) {
 				// found end sequence
 				len += 4;
-				memcpy(buffer, &(buf[0]), len);
 				return len;
 			} else {
 				// don't read other escaped sequences yet
-- 
2.43.0


From e2cc02a09a79eff887cb46446c531ae83f1ca3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:33 +0000
Subject: [PATCH 26/31] fix: wait with poll, so that any descriptor number can
 be read

---
 sml/src/sml_transport.c | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/sml/src/sml_transport.c b/sml/src/sml_transport.c
index d90d6c3..c9fb819 100644
--- a/sml/src/sml_transport.c
+++ b/sml/src/sml_transport.c
@@ -17,6 +17,7 @@
 // along with libSML.  If not, see <http://www.gnu.org/licenses/>.
 
 #include <errno.h> // for errno
+#include <poll.h>
 #include <sml/sml_crc16.h>
 #include <sml/sml_shared.h>
 #include <sml/sml_transport.h>
@@ -32,26 +33,25 @@ unsigned char esc_seq[] = {0x1b, 0x1b, 0x1b, 0x1b};
 unsigned char start_seq[] = {0x1b, 0x1b, 0x1b, 0x1b, 0x01, 0x01, 0x01, 0x01};
 unsigned char end_seq[] = {0x1b, 0x1b, 0x1b, 0x1b, 0x1a};
 
-size_t sml_read(int fd, fd_set *set, unsigned char *buffer, size_t len) {
+size_t sml_read(int fd, unsigned char *buffer, size_t len) {
 
 	ssize_t r = 0;
 	size_t tr = 0;
+	struct pollfd set = {.fd = fd, .events = POLLIN};
 
 	while (tr < len) {
-		select(fd + 1, set, 0, 0, 0);
-		if (FD_ISSET(fd, set)) {
-
-			r = read(fd, &(buffer[tr]), len - tr);
-			if (r == 0)
-				return 0; // EOF
-			if (r < 0) {
-				if (errno == EINTR || errno == EAGAIN)
-					continue; // should be ignored
-				fprintf(stderr, "libsml: sml_read(): read error\n");
-				return 0;
-			}
-			tr += r;
+		poll(&set, 1, (fd < 0) ? 0 : -1); // there is nothing to wait for if fd is invalid
+
+		r = read(fd, &(buffer[tr]), len - tr);
+		if (r == 0)
+			return 0; // EOF
+		if (r < 0) {
+			if (errno == EINTR || errno == EAGAIN)
+				continue; // should be ignored
+			fprintf(stderr, "libsml: sml_read(): read error\n");
+			return 0;
 		}
+		tr += r;
 	}
 	return tr;
 }
@@ -59,10 +59,6 @@ size_t sml_read(int fd, fd_set *set, unsigned char *buffer, size_t len) {
 // closed is set if nothing more can be read from fd
 static size_t sml_transport_read_(int fd, unsigned char *buffer, size_t max_len, int *closed) {
 
-	fd_set readfds;
-	FD_ZERO(&readfds);
-	FD_SET(fd, &readfds);
-
 	if (max_len < 8) {
 		// prevent buffer overflow
 		fprintf(stderr, "libsml: error: sml_transport_read(): passed buffer too small!\n");
@@ -73,7 +69,7 @@ static size_t sml_transport_read_(int fd, unsigned char *buffer, size_t max_len,
 	size_t len = 0;
 
 	while (len < 8) {
-		if (sml_read(fd, &readfds, &(buf[len]), 1) == 0) {
+		if (sml_read(fd, &(buf[len]), 1) == 0) {
 			*closed = 1;
 			return 0;
 		}
@@ -90,7 +86,7 @@ static size_t sml_transport_read_(int fd, unsigned char *buffer, size_t max_len,
 
 	// found start sequence
 	while ((len + 8) < max_len) {
-		if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
+		if (sml_read(fd, &(buf[len]), 4) == 0) {
 			*closed = 1;
 			return 0;
 		}
@@ -98,7 +94,7 @@ static size_t sml_transport_read_(int fd, unsigned char *buffer, size_t max_len,
 		if (memcmp(&buf[len], esc_seq, 4) == 0) {
 			// found esc sequence
 			len += 4;
-			if (sml_read(fd, &readfds, &(buf[len]), 4) == 0) {
+			if (sml_read(fd, &(buf[len]), 4) == 0) {
 				*closed = 1;
 				return 0;
 			}
-- 
2.43.0


From bdf1c3e2d2dcb34429436014fd129abc7fea7425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 27/31] fix: reject messages of an unknown type instead of
 reading their content as the checksum

---
 sml/src/sml_message.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 36bf8a2..52fd6ed 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -218,12 +218,14 @@ sml_message_body *sml_message_body_parse(sml_buffer *buf) {
 		break;
 	default:
 		fprintf(stderr, "libsml: error: message type %04X not yet implemented\n", *(msg_body->tag));
-		break;
+		buf->error = 1; // the content was not read, what follows cannot be either
+		goto error;
 	}
 
 	return msg_body;
 
 error:
+	sml_number_free(msg_body->tag);
 	free(msg_body);
 	return NULL;
 }
-- 
2.43.0


From f80878c068f2447a95e04a3f7fcaf9b3c64cb248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 28/31] fix: sml_octet_string_init_from_hex() put the bytes of
 arbitrarily long texts on the stack

---
 sml/src/sml_octet_string.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index f4f1b0d..7525e77 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -52,11 +52,15 @@ octet_string *sml_octet_string_init_from_hex(char *str) {
 	if (len % 2 != 0) {
 		return NULL;
 	}
-	unsigned char bytes[len / 2 + 1]; // never zero-sized
+	octet_string *s = sml_octet_string_init(NULL, 0);
+	if (len > 0) {
+		s->str = (unsigned char *)malloc(len / 2);
+		s->len = len / 2;
+	}
 	for (i = 0; i < (len / 2); i++) {
-		bytes[i] = c2ptoi(&(str[i * 2]));
+		s->str[i] = c2ptoi(&(str[i * 2]));
 	}
-	return sml_octet_string_init(bytes, len / 2);
+	return s;
 }
 
 void sml_octet_string_free(octet_string *str) {
-- 
2.43.0


From 586805eca888985693613231d5bfbf9093714757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 29/31] fix: messages beyond 2 GiB in a buffer were located
 with an int

sml_message_parse() and sml_message_write() kept the start of the message in
an int, so that a message at an offset above INT_MAX was checksummed at a
wrapped address and crashed. A message of more than INT_MAX bytes, whose
checksum cannot be computed, is an error.
---
 sml/src/sml_message.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sml/src/sml_message.c b/sml/src/sml_message.c
index 52fd6ed..a64f0c8 100644
--- a/sml/src/sml_message.c
+++ b/sml/src/sml_message.c
@@ -16,6 +16,7 @@
 // You should have received a copy of the GNU General Public License
 // along with libSML.  If not, see <http://www.gnu.org/licenses/>.
 
+#include <limits.h>
 #include <sml/sml_crc16.h>
 #include <sml/sml_list.h>
 #include <sml/sml_message.h>
@@ -36,8 +37,8 @@ sml_message *sml_message_parse(sml_buffer *buf) {
 						 .abort_on_error = NULL,
 						 .message_body = NULL,
 						 .crc = NULL};
-	int msg_start = buf->cursor;
-	int len;
+	size_t msg_start = buf->cursor;
+	size_t len;
 
 	if (sml_buf_get_next_type(buf) != SML_TYPE_LIST) {
 		buf->error = 1;
@@ -66,6 +67,10 @@ sml_message *sml_message_parse(sml_buffer *buf) {
 		goto error;
 
 	len = buf->cursor - msg_start;
+	if (len > INT_MAX) { // the length would not fit into an int
+		buf->error = 1;
+		goto error;
+	}
 	if ((buf->buffer_len - buf->cursor) < 3) {
 		// libFuzzer ASAN found read out of bound.
 		// at least the 2 bytes for the crc and 1 for the sml_message_end there?
@@ -127,7 +132,7 @@ void sml_message_free(sml_message *msg) {
 }
 
 void sml_message_write(sml_message *msg, sml_buffer *buf) {
-	int msg_start = buf->cursor;
+	size_t msg_start = buf->cursor;
 
 	sml_buf_set_type_and_length(buf, SML_TYPE_LIST, 6);
 	sml_octet_string_write(msg->transaction_id, buf);
-- 
2.43.0


From 29d648c701c18c16d9ce5784eca1f4ce8b1d9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 30/31] fix: sml_value_to_strhex() computed the size of the
 text in an int

For strings of more than 700 MB the product overflowed: the text was
written beyond the end of a block that was too small.
---
 sml/src/sml_value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sml/src/sml_value.c b/sml/src/sml_value.c
index 625c6e0..e6db029 100644
--- a/sml/src/sml_value.c
+++ b/sml/src/sml_value.c
@@ -160,7 +160,7 @@ char *sml_value_to_strhex(sml_value *value, char **result, bool mixed) {
 	unsigned char *str = value->data.bytes->str;
 
 	// allocate 3 bytes per octet string byte (0x0f gets "0f ")
-	*result = malloc(len * 3 + 1);
+	*result = malloc((size_t)len * 3 + 1);
 	if (*result == NULL)
 		return NULL;
 
-- 
2.43.0


From 488d070e39899eef865d0890c670e7a2bc37a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 31/31] fix: sml_octet_string_init_from_hex() held the length
 of the text in an int

For a text of more than 2 GiB, whose string is representable, an empty
string was returned.
---
 sml/src/sml_octet_string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sml/src/sml_octet_string.c b/sml/src/sml_octet_string.c
index 7525e77..c08c370 100644
--- a/sml/src/sml_octet_string.c
+++ b/sml/src/sml_octet_string.c
@@ -17,6 +17,7 @@
 // along with libSML.  If not, see <http://www.gnu.org/licenses/>.
 
 #include <fcntl.h>
+#include <limits.h>
 #include <sml/sml_octet_string.h>
 #include <stdio.h>
 #include <sys/stat.h>
@@ -48,8 +49,8 @@ octet_string *sml_octet_string_init(unsigned char *str, int length) {
 }
 
 octet_string *sml_octet_string_init_from_hex(char *str) {
-	int i, len = strlen(str);
-	if (len % 2 != 0) {
+	size_t i, len = strlen(str);
+	if (len % 2 != 0 || len / 2 > INT_MAX) {
 		return NULL;
 	}
 	octet_string *s = sml_octet_string_init(NULL, 0);
-- 
2.43.0

