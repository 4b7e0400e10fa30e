From 9467526c360a68a56df5b971fcdf87c8ddb55e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 01/39] fix: increment: compute the next basic value in 64 bits
 so that it wraps to min instead of past 2^32

---
 src/lib/util/increment.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/util/increment.c b/src/lib/util/increment.c
index 404d2c7..14ee661 100644
--- a/src/lib/util/increment.c
+++ b/src/lib/util/increment.c
@@ -158,7 +158,7 @@ uint32_t rrr_increment_basic (
 		uint32_t min,
 		uint32_t max
 ) {
-	uint64_t value_tmp = value + step;
+	uint64_t value_tmp = (uint64_t) value + step;
 	if (value_tmp > max || value_tmp < min) {
 		value_tmp = min;
 	}
-- 
2.43.0


From c032ba4611ebc72a53a588bce60b4d7baed08719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 02/39] fix: utf8: validate the whole buffer, not only the part
 before the first NUL character

---
 src/lib/util/utf8.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib/util/utf8.c b/src/lib/util/utf8.c
index 450aa70..c6005be 100644
--- a/src/lib/util/utf8.c
+++ b/src/lib/util/utf8.c
@@ -109,9 +109,9 @@ int rrr_utf8_validate (const char *buf, rrr_length len) {
 	const char *end = buf + len;
 
 	uint32_t result = 0;
-	do {
+	while (ret == 0 && pos < end) {
 		ret = rrr_utf8_get_character (&result, &pos, end);
-	} while (ret == 0 && !(ret == 0 && result == 0));
+	}
 
 	return ret;
 }
@@ -128,15 +128,14 @@ int rrr_utf8_validate_and_iterate (
 	const char *end = buf + len;
 
 	uint32_t result = 0;
-	do {
-		ret = rrr_utf8_get_character (&result, &pos, end);
-		if (ret != 0 || (ret == 0 && result == 0)) {
+	while (pos < end) {
+		if ((ret = rrr_utf8_get_character (&result, &pos, end)) != 0) {
 			return ret;
 		}
 		if ((ret = callback(result, callback_arg)) != 0) {
 			return ret;
 		}
-	} while (ret == 0);
+	}
 
 	return ret;
 }
-- 
2.43.0


From 71f7bb30ac845b1146c906299242da4e1f666ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:20 +0000
Subject: [PATCH 03/39] fix: modbus: destroy the private data of a transaction
 also when its response is refused

---
 src/lib/modbus/rrr_modbus.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/modbus/rrr_modbus.c b/src/lib/modbus/rrr_modbus.c
index 7a853c9..7b4a15c 100644
--- a/src/lib/modbus/rrr_modbus.c
+++ b/src/lib/modbus/rrr_modbus.c
@@ -425,14 +425,16 @@ static int __rrr_modbus_client_receive_16_write_multiple_registers (
     do {if (frame_size > sizeof(frame->mbap) + sizeof(frame->res.type) + sizeof(frame->res.function_code)) {  \
         RRR_MSG_0("Max frame size exceeded for received frame %" PRIrrrl ">%llu\n",                           \
 	    frame_size, (unsigned long long) (sizeof(frame->mbap) + sizeof(frame->res.type)));                \
-        return RRR_MODBUS_SOFT_ERROR;                                                                         \
+        ret = RRR_MODBUS_SOFT_ERROR;                                                                          \
+        goto out;                                                                                             \
     }} while(0)
 
 #define VALIDATE_TRANSACTION_FUNCTION_CODE(code)                                       \
     do {if (code != transaction.req.function_code) {                                   \
         RRR_MSG_0("Function code mismatch for received frame %d<>%d\n",                \
             frame->res.function_code - 0x80, transaction.req.function_code);           \
-        return RRR_MODBUS_SOFT_ERROR;                                                  \
+        ret = RRR_MODBUS_SOFT_ERROR;                                                   \
+        goto out;                                                                      \
     }} while(0)
 
 static int __rrr_modbus_client_receive (
-- 
2.43.0


From 1ade200817ae19fee4acfb22132b2c8c200fb237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:20 +0000
Subject: [PATCH 04/39] fix: modbus: refuse an error response without exception
 code instead of reporting uninitialized memory

---
 src/lib/modbus/rrr_modbus.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/modbus/rrr_modbus.c b/src/lib/modbus/rrr_modbus.c
index 7b4a15c..fe3f595 100644
--- a/src/lib/modbus/rrr_modbus.c
+++ b/src/lib/modbus/rrr_modbus.c
@@ -460,6 +460,11 @@ static int __rrr_modbus_client_receive (
 	if (frame->res.function_code > 0x80) {
 		VALIDATE_FRAME_SIZE(error);
 		VALIDATE_TRANSACTION_FUNCTION_CODE(frame->res.function_code - 0x80);
+		if (frame_size < sizeof(frame->mbap) + sizeof(frame->res.function_code) + sizeof(frame->res.error)) {
+			RRR_MSG_0("Received error frame without exception code\n");
+			ret = RRR_MODBUS_SOFT_ERROR;
+			goto out;
+		}
 		if (client->callbacks.cb_res_error == NULL) {
 			RRR_BUG("Error callback not set in %s\n", __func__);
 		}
-- 
2.43.0


From 224cec596ead7b2641f65e2b5ccce9d16c6354f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 05/39] fix: types: do not truncate the result of
 rrr_biglength_from_ptr_sub_bug_const to 32 bits

---
 src/lib/rrr_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rrr_types.h b/src/lib/rrr_types.h
index 988bf0c..e82e064 100644
--- a/src/lib/rrr_types.h
+++ b/src/lib/rrr_types.h
@@ -392,7 +392,7 @@ static inline rrr_biglength rrr_biglength_from_ptr_sub_bug_const (const void *a,
 		RRR_BUG("Underflow in rrr_biglength_from_ptr_sub_bug_const\n");
 	}
 	uintptr_t r = (uintptr_t) a - (uintptr_t) b;
-	return (rrr_length) r;
+	return (rrr_biglength) r;
 }
 
 static inline void rrr_length_dec_bug (rrr_length *a) {
-- 
2.43.0


From 7ecedd77dda42d0c8e00b2a47d12849e84e1c4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 06/39] fix: types: detect differences of rrr_slength values
 which do not fit in 63 bits instead of wrapping

---
 src/lib/rrr_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rrr_types.h b/src/lib/rrr_types.h
index e82e064..e4f3245 100644
--- a/src/lib/rrr_types.h
+++ b/src/lib/rrr_types.h
@@ -311,7 +311,7 @@ static inline int rrr_length_from_slength_sub_err (rrr_length *result, rrr_sleng
 		RRR_MSG_0("Underflow in %s\n", __func__);
 		return 1;
 	}
-	rrr_slength r = a - b;
+	rrr_biglength r = (rrr_biglength) a - (rrr_biglength) b;
 	if (r > RRR_LENGTH_MAX) {
 		RRR_MSG_0("Overflow in %s\n", __func__);
 		return 1;
@@ -324,7 +324,7 @@ static inline rrr_length rrr_length_from_slength_sub_bug_const (rrr_slength a, r
 	if (b > a) {
 		RRR_BUG("Underflow in rrr_length_from_slength_sub_bug_const\n");
 	}
-	rrr_slength r = a - b;
+	rrr_biglength r = (rrr_biglength) a - (rrr_biglength) b;
 	if (r > RRR_LENGTH_MAX) {
 		RRR_BUG("Overflow in rrr_length_from_slength_sub_bug_const\n");
 	}
-- 
2.43.0


From 5d91febdcd46501b75976069acaecd27270f1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 07/39] fix: mqtt: do not count the bytes of a binary property
 twice when parsing

---
 src/lib/mqtt/mqtt_parse.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 18577aa..81fa6b5 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -679,8 +679,6 @@ static int __rrr_mqtt_parse_property_blob (RRR_PROPERTY_PARSER_DEFINITION) {
 	target->length_orig = blob_length;
 	target->internal_data_type = RRR_MQTT_PROPERTY_DATA_TYPE_INTERNAL_BLOB;
 
-	bytes_parsed += blob_length;
-
 	*bytes_parsed_final = bytes_parsed;
 
 	return ret;
-- 
2.43.0


From 470b2d7b3dfa700403f2279c35d0670a387a7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 08/39] fix: type: refuse array fields whose total size does
 not fit in 32 bits instead of wrapping

---
 src/lib/type.c | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/lib/type.c b/src/lib/type.c
index 11a58fc..c5d4e26 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -75,6 +75,26 @@ static int __rrr_type_convert_unsigned_integer_10 (
         return RRR_TYPE_PARSE_INCOMPLETE;                      \
     }
 
+static int __rrr_type_get_total_size (
+		rrr_length *total_size,
+		rrr_length element_count,
+		rrr_length element_size
+) {
+	// Multiply with 64 bits, element count and length might be
+	// given by received data
+	const rrr_biglength total_size_tmp = (rrr_biglength) element_count * element_size;
+
+	if (total_size_tmp > RRR_LENGTH_MAX) {
+		RRR_MSG_0("Total size of value exceeds maximum (%" PRIrrrl " elements of size %" PRIrrrl ")\n",
+				element_count, element_size);
+		return RRR_TYPE_PARSE_SOFT_ERR;
+	}
+
+	*total_size = (rrr_length) total_size_tmp;
+
+	return RRR_TYPE_PARSE_OK;
+}
+
 static uint64_t __rrr_type_expand_be (
 		rrr_length import_length,
 		const char *src,
@@ -174,11 +194,18 @@ static int __rrr_type_import_int (
 	}
 
 	rrr_length array_size = node->element_count;
-	rrr_length total_size = node->element_count * node->import_length;
+	rrr_length total_size = 0;
+	rrr_length total_stored_length = 0;
+
+	if (__rrr_type_get_total_size(&total_size, node->element_count, node->import_length) != RRR_TYPE_PARSE_OK ||
+	    __rrr_type_get_total_size(&total_stored_length, node->element_count, (rrr_length) sizeof(uint64_t)) != RRR_TYPE_PARSE_OK
+	) {
+		return RRR_TYPE_PARSE_SOFT_ERR;
+	}
 
 	CHECK_END_AND_RETURN(total_size);
 
-	node->total_stored_length = node->element_count * (rrr_length) sizeof(uint64_t);
+	node->total_stored_length = total_stored_length;
 	node->data = rrr_allocate(node->total_stored_length);
 	if (node->data == NULL) {
 		RRR_MSG_0("Could not allocate memory in %s\n", __func__);
@@ -199,7 +226,7 @@ static int __rrr_type_import_int (
 
 	*parsed_bytes = total_size;
 
-	node->total_stored_length = (rrr_length) sizeof(uint64_t) * node->element_count;
+	node->total_stored_length = total_stored_length;
 	node->definition = rrr_type_get_from_id(RRR_TYPE_H);
 
 	return RRR_TYPE_PARSE_OK;
@@ -225,7 +252,10 @@ static int __rrr_type_import_blob (RRR_TYPE_IMPORT_ARGS) {
 		RRR_BUG("data was not NULL in %s\n", __func__);
 	}
 
-	rrr_length total_size = node->import_length * node->element_count;
+	rrr_length total_size = 0;
+	if (__rrr_type_get_total_size(&total_size, node->element_count, node->import_length) != RRR_TYPE_PARSE_OK) {
+		return RRR_TYPE_PARSE_SOFT_ERR;
+	}
 
 	CHECK_END_AND_RETURN(total_size);
 
@@ -439,7 +469,10 @@ static int __rrr_type_import_sep_stx (RRR_TYPE_IMPORT_ARGS, int (*validate)(char
 		RRR_BUG("data was not NULL in %s\n", __func__);
 	}
 
-	rrr_length total_size = node->import_length * node->element_count;
+	rrr_length total_size = 0;
+	if (__rrr_type_get_total_size(&total_size, node->element_count, node->import_length) != RRR_TYPE_PARSE_OK) {
+		return RRR_TYPE_PARSE_SOFT_ERR;
+	}
 
 	CHECK_END_AND_RETURN(total_size);
 
-- 
2.43.0


From b0b0b25a9d26620522b4ec8f6620a33c0f76bb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 09/39] fix: type: refuse packed integer values with a size
 that does not match their element count

---
 src/lib/type.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/type.c b/src/lib/type.c
index c5d4e26..0d9e7f0 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -749,6 +749,12 @@ static int __rrr_type_64_unpack (RRR_TYPE_UNPACK_ARGS, uint8_t target_type) {
 	}
 
 	rrr_length array_size = node->total_stored_length / sizeof(rrr_type_be);
+
+	if (array_size == 0 || array_size != node->element_count) {
+		RRR_MSG_0("Size of 64 type did not match element count in %s\n", __func__);
+		return 1;
+	}
+
 	const char *pos = node->data;
 	for (unsigned int i = 0; i < array_size; i++) {
 		rrr_type_be tmp = *((rrr_type_be *) pos);
-- 
2.43.0


From 4bd440eef066cffe8bcaa01bd2692c2d9a814e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 10/39] fix: array: index 64 bit values by element and check
 that the value is long enough

---
 src/lib/array.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/array.c b/src/lib/array.c
index 3fe66c9..f8abbf9 100644
--- a/src/lib/array.c
+++ b/src/lib/array.c
@@ -480,8 +480,15 @@ static int __rrr_array_get_value_64_by_tag (
 		goto out;
 	}
 
-	signed_result = *((int64_t*) value->data + (sizeof(int64_t) * index));
-	unsigned_result = *((uint64_t*) value->data + (sizeof(uint64_t) * index));
+	if (((rrr_biglength) index + 1) * sizeof(uint64_t) > value->total_stored_length) {
+		RRR_MSG_0("Array value '%s' index %i was requested as 64-value but the value only has %" PRIrrrl " bytes\n",
+				tag, index, value->total_stored_length);
+		ret = 1;
+		goto out;
+	}
+
+	signed_result = *((int64_t*) value->data + index);
+	unsigned_result = *((uint64_t*) value->data + index);
 
 	if (do_signed) {
 		if (!RRR_TYPE_FLAG_IS_SIGNED(value->flags) && unsigned_result > INT64_MAX) {
-- 
2.43.0


From d86788f54a0a3c777bb70cef6213a84d7b2e1f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 11/39] fix: type: refuse packed values with data but an
 element count of zero

---
 src/lib/type.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/type.c b/src/lib/type.c
index 0d9e7f0..a6e780d 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -1598,6 +1598,12 @@ int rrr_type_value_new_and_unpack (
 
 	struct rrr_type_value *value = NULL;
 
+	if (total_length > 0 && element_count == 0) {
+		RRR_MSG_0("Element count of type %s was 0 while length was not in %s\n", type->identifier, __func__);
+		ret = 1;
+		goto out;
+	}
+
 	if ((ret = rrr_type_value_new (
 			&value,
 			type,
-- 
2.43.0


From c2ba8f5e39eb24ae5066c90329302c0a82f66001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 12/39] fix: condition: evaluate operators of equal precedence
 from left to right

---
 src/lib/condition.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index a8f93c7..9dcd968 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -305,7 +305,12 @@ static int __rrr_condition_shunting_yard_shunt_op (
 	else {
 		while (RRR_LL_COUNT(&shunting_yard->op_stack) > 0) {
 			struct rrr_condition_shunting_yard_carrier *carrier = RRR_LL_FIRST(&shunting_yard->op_stack);
-			if (carrier->op->prio < carrier_new->op->prio && carrier->op != operator_par_open) {
+			// Operators of equal precedence are evaluated from left to right,
+			// except from the singular prefix operators
+			if (carrier->op != operator_par_open && (
+					carrier->op->prio < carrier_new->op->prio ||
+					(carrier->op->prio == carrier_new->op->prio && carrier->op->prio != RRR_CONDITION_PRIORITY_SINGULAR)
+			)) {
 				carrier = RRR_LL_SHIFT(&shunting_yard->op_stack);
 				RRR_LL_APPEND(shunting_yard, carrier);
 			}
-- 
2.43.0


From 7221b2d999acdd91f49caa40ce682aee0d0b1b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 13/39] fix: condition: accept the subtraction operator after a
 closing parenthesis

---
 src/lib/condition.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index 9dcd968..092ae0d 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -401,7 +401,8 @@ int rrr_condition_interpret (
 		}
 
 		if (op != NULL) {
-			prev_was_op = 1;
+			// A - following a closing parenthesis is the subtraction operator
+			prev_was_op = (op != operator_par_close);
 
 			if ((ret = __rrr_condition_shunting_yard_shunt_op (
 					&par_level,
-- 
2.43.0


From 422500927c6551f6ac0b2f606a00f266bde1aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 14/39] fix: condition: give the value as result for
 expressions without operators

---
 src/lib/condition.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index 092ae0d..c788b76 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -912,6 +912,9 @@ int rrr_condition_evaluate (
 			)) != 0) {
 				goto out;
 			}
+
+			// Stands if the expression has no operators
+			*result = position->result;
 		}
 	}
 
-- 
2.43.0


From 87f0ce0b77206a1b211340fd60f3f2a25e100eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 15/39] fix: condition: refuse expressions where an operator
 lacks its values

---
 src/lib/condition.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index c788b76..d5c2050 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -248,6 +248,10 @@ static int __rrr_condition_shunting_yard_finalize (
 				if (node->op->prio != RRR_CONDITION_PRIORITY_SINGULAR) {
 					op_count++;
 				}
+				if (value_count - op_count < 1) {
+					RRR_MSG_0("Missing value for operator %s in condition expression\n", node->op->op);
+					return 1;
+				}
 			}
 			else {
 				value_count++;
-- 
2.43.0


From 803e4deac2014ea44c2dbc500ee66bad7bc34854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 16/39] fix: msg: refuse messages with a stated size smaller
 than the header instead of aborting

---
 src/lib/messages/msg.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lib/messages/msg.c b/src/lib/messages/msg.c
index 0abf4e2..9836512 100644
--- a/src/lib/messages/msg.c
+++ b/src/lib/messages/msg.c
@@ -74,6 +74,13 @@ static int __rrr_msg_head_validate (
 ) {
 	int ret = 0;
 
+	if (message->msg_size < sizeof(*message)) {
+		RRR_MSG_0("Message size %" PRIu32 " too small in %s\n",
+				message->msg_size, __func__);
+		ret = 1;
+		goto out;
+	}
+
 	if (message->msg_size != expected_size) {
 		RRR_MSG_0("Message network size mismatch in %s actual size is %u stated size is %" PRIu32 "\n",
 				__func__, expected_size, message->msg_size);
@@ -141,7 +148,15 @@ int rrr_msg_get_target_size_and_check_checksum (
 		return RRR_MSG_READ_SOFT_ERROR;
 	}
 
-	*target_size = rrr_be32toh(msg->msg_size);
+	const rrr_length msg_size = rrr_be32toh(msg->msg_size);
+
+	if (msg_size < sizeof(struct rrr_msg)) {
+		RRR_MSG_0("Received message with stated size %" PRIrrrl " which is smaller than the header in %s\n",
+				msg_size, __func__);
+		return RRR_MSG_READ_SOFT_ERROR;
+	}
+
+	*target_size = msg_size;
 
 	return RRR_MSG_READ_OK;
 }
-- 
2.43.0


From 126e6c38ab0317f9ad8caf9d6812dff6670649d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 17/39] fix: msg: refuse messages with a topic length exceeding
 the message size

---
 src/lib/messages/msg_msg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/messages/msg_msg.c b/src/lib/messages/msg_msg.c
index 4d7e821..0ccdb52 100644
--- a/src/lib/messages/msg_msg.c
+++ b/src/lib/messages/msg_msg.c
@@ -260,6 +260,12 @@ static int __message_validate (const struct rrr_msg_msg *message){
 		ret = 1;
 		goto out;
 	}
+	if (MSG_TOPIC_LENGTH(message) > message->msg_size - MSG_MIN_SIZE(message)) {
+		RRR_DBG_1("Received a message in message_validate with topic length %u exceeding message size %" PRIu32 "\n",
+				MSG_TOPIC_LENGTH(message), message->msg_size);
+		ret = 1;
+		goto out;
+	}
 	if (!MSG_CLASS_OK(message)) {
 		RRR_DBG_1("Invalid class %u in message to message_validate\n", MSG_CLASS(message));
 		ret = 1;
-- 
2.43.0


From 9f4f8d75263ddbf9b0b7fa28c57dec92321fdc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 18/39] fix: msg: refuse address messages with an address
 longer than the address field

---
 src/lib/messages/msg_addr.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/messages/msg_addr.h b/src/lib/messages/msg_addr.h
index c4b1558..41fc8f0 100644
--- a/src/lib/messages/msg_addr.h
+++ b/src/lib/messages/msg_addr.h
@@ -36,7 +36,8 @@ struct rrr_msg_addr {
 } __attribute((__packed__));
 
 #define RRR_MSG_ADDR_SIZE_OK(msg) \
-	((msg)->msg_size >= sizeof(*(msg)) - sizeof ((msg)->addr))
+	((msg)->msg_size >= sizeof(*(msg)) - sizeof ((msg)->addr) &&	\
+	 (msg)->msg_size <= sizeof(*(msg)))
 
 // NOTE ! This will underflow and wrap around if msg_size is small. We only check for 0 here.
 #define RRR_MSG_ADDR_GET_ADDR_LEN(msg) \
-- 
2.43.0


From bfa8a0e2be4fa8e7ce2ee8b94531d95b9dda8aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 19/39] fix: msg: check the size of log messages before reading
 them and accept log messages with empty text

---
 src/lib/messages/msg_log.c | 5 +++++
 src/lib/messages/msg_log.h | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/messages/msg_log.c b/src/lib/messages/msg_log.c
index 9ade221..a5f1377 100644
--- a/src/lib/messages/msg_log.c
+++ b/src/lib/messages/msg_log.c
@@ -36,6 +36,11 @@ void rrr_msg_msg_log_prepare_for_network (struct rrr_msg_log *msg) {
 }
 
 int rrr_msg_msg_log_to_host (struct rrr_msg_log *msg) {
+	if (msg->msg_size < sizeof(*msg)) {
+		RRR_MSG_0("Message was too short in rrr_msg_msg_log_to_host\n");
+		return 1;
+	}
+
 	msg->prefix_size = rrr_be16toh(msg->prefix_size);
 	msg->line = rrr_be32toh(msg->line);
 
diff --git a/src/lib/messages/msg_log.h b/src/lib/messages/msg_log.h
index b2733ee..8272cb4 100644
--- a/src/lib/messages/msg_log.h
+++ b/src/lib/messages/msg_log.h
@@ -35,7 +35,8 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 	((msg->prefix_and_message) + (msg)->prefix_size)
 
 #define RRR_MSG_LOG_SIZE_OK(msg)											\
-	((msg)->prefix_size > (msg)->msg_size - sizeof(*(msg)) - 1 ? 0 : 1)
+	((msg)->msg_size >= sizeof(*(msg)) &&									\
+	 (msg)->prefix_size < (msg)->msg_size - (sizeof(*(msg)) - 1))
 
 #define RRR_MSG_LOG_LEVEL_ORIG_NOT_GIVEN RRR_LOG_LEVEL_NOT_GIVEN
 
-- 
2.43.0


From 5c91de41a3f5476d7f03c633716b631a17d5827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 20/39] fix: stats: refuse received messages with a path or
 data which does not fit

---
 src/lib/stats/stats_message.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/stats/stats_message.c b/src/lib/stats/stats_message.c
index fb75af0..3a30bfb 100644
--- a/src/lib/stats/stats_message.c
+++ b/src/lib/stats/stats_message.c
@@ -93,6 +93,12 @@ static int __rrr_msg_stats_unpack (
 		goto out;
 	}
 
+	if (path_size > sizeof(target->path) || actual_path_and_data_size - path_size > sizeof(target->data)) {
+		RRR_MSG_0("Path or data in received statistics packet is too long\n");
+		ret = RRR_READ_SOFT_ERROR;
+		goto out;
+	}
+
 	memset (target, '\0', sizeof(*target));
 
 	target->flags = flags;
-- 
2.43.0


From ad0b821b5f0c97c3e8980d5a5e699b56bd6ce651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 21/39] fix: mqtt: do not read past the end of the topic when
 matching a wildcard against an empty last level

---
 src/lib/mqtt/mqtt_topic.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/mqtt/mqtt_topic.c b/src/lib/mqtt/mqtt_topic.c
index 0eb0c94..c9d4d79 100644
--- a/src/lib/mqtt/mqtt_topic.c
+++ b/src/lib/mqtt/mqtt_topic.c
@@ -191,7 +191,7 @@ int rrr_mqtt_topic_match_topic_and_linear_with_end (
 			assert(topic_token_pos == 0);
 			assert(filter_token_pos == 0);
 
-			if (*topic_pos == '$') {
+			if (topic_pos < topic_end && *topic_pos == '$') {
 				return RRR_MQTT_TOKEN_MISMATCH;
 			}
 
@@ -202,7 +202,7 @@ int rrr_mqtt_topic_match_topic_and_linear_with_end (
 			assert(topic_token_pos == 0);
 			assert(filter_token_pos == 0);
 
-			if (*topic_pos == '$') {
+			if (topic_pos < topic_end && *topic_pos == '$') {
 				return RRR_MQTT_TOKEN_MISMATCH;
 			}
 			for (; topic_pos < topic_end; topic_pos++) {
@@ -235,7 +235,7 @@ int rrr_mqtt_topic_match_topic_and_linear_with_end (
 
 	match:
 
-	if (*filter_pos != '#') {
+	if (filter_pos == filter_end) {
 		assert(topic_pos == topic_end);
 	}
 
-- 
2.43.0


From 26683e7b353da46bfdff9feb72cf415ead530e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 22/39] fix: websocket: refuse frame with payload length close
 to 2^64 which overflowed the frame length

---
 src/lib/websocket/websocket.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 3a99193..54a7568 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -358,15 +358,16 @@ int __rrr_websocket_get_target_size (
 		header_new.masking_key = rrr_be32toh(*((uint32_t *) pos));
 	}
 
-	rrr_biglength target_len = header_new.header_len + header_new.payload_len;
-
-	if (target_len > (rrr_biglength) SSIZE_MAX) {
-		RRR_MSG_0("Total specified length og websocket frame was too big (%" PRIrrrbl ">%lli)\n",
-				target_len, (long long int) SSIZE_MAX);
+	// Check payload length separately, the sum may overflow
+	if (header_new.payload_len > (rrr_biglength) SSIZE_MAX - header_new.header_len) {
+		RRR_MSG_0("Total specified length og websocket frame was too big (%" PRIrrrbl "+%u>%lli)\n",
+				header_new.payload_len, header_new.header_len, (long long int) SSIZE_MAX);
 		ret = RRR_READ_SOFT_ERROR;
 		goto out;
 	}
 
+	rrr_biglength target_len = header_new.header_len + header_new.payload_len;
+
 	callback_data->ws_state->last_receive_time = rrr_time_get_64();
 	callback_data->ws_state->receive_state.header = header_new;
 	read_session->target_size = target_len;
-- 
2.43.0


From 52c44f2d488bf20dfca588d4b5c292616b3749a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 23/39] fix: websocket: compute timeout and ping interval in 64
 bits

---
 src/lib/websocket/websocket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 54a7568..a3890d3 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -147,7 +147,7 @@ int rrr_websocket_check_timeout (
 		ws_state->last_receive_time = rrr_time_get_64();
 	}
 
-	uint64_t timeout_limit = rrr_time_get_64() - timeout_s * 1000 * 1000;
+	uint64_t timeout_limit = rrr_time_get_64() - (uint64_t) timeout_s * 1000 * 1000;
 
 	if (ws_state->last_receive_time > timeout_limit) {
 		return 0;
@@ -169,7 +169,7 @@ int rrr_websocket_enqueue_ping_if_needed (
 		return 0;
 	}
 
-	uint64_t ping_limit = rrr_time_get_64() - ping_interval_s * 1000 * 1000;
+	uint64_t ping_limit = rrr_time_get_64() - (uint64_t) ping_interval_s * 1000 * 1000;
 
 	if (ws_state->last_ping_time > ping_limit || ws_state->waiting_for_pong) {
 		return 0;
-- 
2.43.0


From f52afabead0050b5e444963326777c1d776eb805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 24/39] fix: websocket: keep received fragments when a control
 frame arrives between them

---
 src/lib/websocket/websocket.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index a3890d3..d3ecb81 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -508,9 +508,6 @@ int __rrr_websocket_receive_callback_interpret_step (
 
 	// Zero opcode means CONTINUATION frame
 	if (opcode) {
-		// First non-fin frame has opcode, start new fragmented frame and reset header
-		rrr_websocket_state_clear_receive(ws_state);
-
 		switch (opcode) {
 			case RRR_WEBSOCKET_OPCODE_CONNECTION_CLOSE:
 			case RRR_WEBSOCKET_OPCODE_PING:
@@ -525,7 +522,20 @@ int __rrr_websocket_receive_callback_interpret_step (
 					ret = RRR_READ_SOFT_ERROR;
 					goto out;
 				}
-				break;
+				// Control frames may arrive between the fragments of
+				// another frame, leave any such fragments alone.
+				{
+					const uint8_t opcode_orig = ws_state->last_receive_opcode;
+					ws_state->last_receive_opcode = opcode;
+					ret = rrr_nullsafe_str_with_tmp_str_do (
+							payload,
+							payload_len,
+							__rrr_websocket_receive_callback_fragmentation_step_nullsafe_callback,
+							callback_data
+					);
+					ws_state->last_receive_opcode = opcode_orig;
+				}
+				goto out;
 			case RRR_WEBSOCKET_OPCODE_TEXT:
 			case RRR_WEBSOCKET_OPCODE_BINARY:
 				break;
@@ -541,6 +551,9 @@ int __rrr_websocket_receive_callback_interpret_step (
 			goto out;
 		}
 
+		// First non-fin frame has opcode, start new fragmented frame and reset header
+		rrr_websocket_state_clear_receive(ws_state);
+
 		ws_state->last_receive_opcode = opcode;
 	}
 
-- 
2.43.0


From 26b79a33d7778a52e6c7fd66a661bb0cab6bc376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 25/39] fix: websocket: refuse continuation frame without a
 first frame and new frame before the last fragment

---
 src/lib/websocket/websocket.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index d3ecb81..45b57f8 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -482,6 +482,7 @@ static int __rrr_websocket_receive_callback_fragmentation_step (
 	goto out_no_clear;
 	out:
 		rrr_websocket_state_clear_receive(ws_state);
+		ws_state->last_receive_opcode = 0;
 	out_no_clear:
 		return ret;
 }
@@ -538,6 +539,11 @@ int __rrr_websocket_receive_callback_interpret_step (
 				goto out;
 			case RRR_WEBSOCKET_OPCODE_TEXT:
 			case RRR_WEBSOCKET_OPCODE_BINARY:
+				if (ws_state->receive_state.fragment_buffer_nullsafe != NULL) {
+					RRR_MSG_0("Received new websocket packet of type %u before the last fragment of the previous one, this is an error.\n", opcode);
+					ret = RRR_READ_SOFT_ERROR;
+					goto out;
+				}
 				break;
 			default:
 				RRR_MSG_0("Received unknown websocket packet of type %u\n", opcode);
-- 
2.43.0


From 03dd7e948be8c4006e736f4dfb3ead3ce8398c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 26/39] fix: websocket: answer PING with its payload

---
 src/lib/websocket/websocket.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 45b57f8..6b60bde 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -395,12 +395,20 @@ int __rrr_websocket_receive_callback_final_step (
 			ret = RRR_READ_EOF;
 			goto out;
 		case RRR_WEBSOCKET_OPCODE_PING:
-			ret = rrr_websocket_frame_enqueue (
-					ws_state,
-					RRR_WEBSOCKET_OPCODE_PONG,
-					NULL,
-					0
-			);
+			{
+				// Reply must have the same payload as the PING
+				char *pong_payload = NULL;
+				if (rrr_nullsafe_str_len(payload) > 0 && (ret = rrr_nullsafe_str_extract_append_null(&pong_payload, payload)) != 0) {
+					goto out;
+				}
+				ret = rrr_websocket_frame_enqueue (
+						ws_state,
+						RRR_WEBSOCKET_OPCODE_PONG,
+						&pong_payload,
+						rrr_nullsafe_str_len(payload)
+				);
+				RRR_FREE_IF_NOT_NULL(pong_payload);
+			}
 			break;
 		case RRR_WEBSOCKET_OPCODE_PONG:
 			ws_state->waiting_for_pong = 0;
-- 
2.43.0


From 73eeb0a48dfa4ae4a7e12d3dfc3c37e486545209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 27/39] fix: base64url: decode what is encoded when the size is
 not a multiple of three

---
 src/lib/util/base64.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/util/base64.c b/src/lib/util/base64.c
index 0759cb5..7adc775 100644
--- a/src/lib/util/base64.c
+++ b/src/lib/util/base64.c
@@ -229,10 +229,12 @@ unsigned char *rrr_base64url_decode(const unsigned char *src, rrr_biglength len,
 			count++;
 	}
 
-	if (count == 0 || count % 4)
+	/* No padding, the last group has two or three characters when
+	 * the number of bytes is not a multiple of three */
+	if (count == 0 || count % 4 == 1)
 		return NULL;
 
-	olen = count / 4 * 3;
+	olen = count / 4 * 3 + (count % 4 ? count % 4 - 1 : 0);
 	pos = out = rrr_allocate(olen);
 	if (out == NULL)
 		return NULL;
@@ -253,6 +255,11 @@ unsigned char *rrr_base64url_decode(const unsigned char *src, rrr_biglength len,
 		}
 	}
 
+	if (count >= 2)
+		*pos++ = (unsigned char) ((block[0] << 2) | (block[1] >> 4));
+	if (count == 3)
+		*pos++ = (unsigned char) ((block[1] << 4) | (block[2] >> 2));
+
 	*out_len = (rrr_biglength) (pos - out);
 	return out;
 }
-- 
2.43.0


From c020b30903437eb6612dcd70a0c917437734a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 28/39] fix: hex: compute output size in 64 bits

---
 src/lib/util/hex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/util/hex.c b/src/lib/util/hex.c
index d0555e5..dfee417 100644
--- a/src/lib/util/hex.c
+++ b/src/lib/util/hex.c
@@ -38,7 +38,7 @@ int rrr_hex_bin_to_hex (
 	*target = NULL;
 	*target_length = 0;
 
-	const rrr_biglength output_size = source_size * 2 + 1;
+	const rrr_biglength output_size = (rrr_biglength) source_size * 2 + 1;
 
 	// Valgrind complains about invalid writes for some reason, allocate at least 32 bytes
 	char *result = rrr_allocate(output_size < 32 ? 32 : output_size);
-- 
2.43.0


From 5ffbb614527e2caca844df7fdd508f70e1afde4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 29/39] fix: nullsafe str: do not free the string of the caller
 when replacing fails

---
 src/lib/helpers/nullsafe_str.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/helpers/nullsafe_str.c b/src/lib/helpers/nullsafe_str.c
index 1611976..6ca7623 100644
--- a/src/lib/helpers/nullsafe_str.c
+++ b/src/lib/helpers/nullsafe_str.c
@@ -110,7 +110,10 @@ int rrr_nullsafe_str_new_or_replace_raw (
 
 	goto out;
 	out_free:
-		rrr_free(new_str);
+		// A replaced string stays with the caller, it is now empty
+		if (new_str != *result) {
+			rrr_free(new_str);
+		}
 	out:
 		return ret;
 }
-- 
2.43.0


From 25ab6914d044ab00f9928a6dfda01fb7847db90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 30/39] fix: nullsafe str: leave the string empty when setting
 it fails

---
 src/lib/helpers/nullsafe_str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/helpers/nullsafe_str.c b/src/lib/helpers/nullsafe_str.c
index 6ca7623..173e648 100644
--- a/src/lib/helpers/nullsafe_str.c
+++ b/src/lib/helpers/nullsafe_str.c
@@ -364,7 +364,7 @@ int rrr_nullsafe_str_set (
 	}
 
 	RRR_FREE_IF_NOT_NULL(nullsafe->str);
-	nullsafe->len = len;
+	nullsafe->len = 0;
 
 	RRR_SIZE_CHECK(len,"Nullsafe set string",return 1);
 
@@ -375,6 +375,8 @@ int rrr_nullsafe_str_set (
 		rrr_memcpy(nullsafe->str, src, len);
 	}
 
+	nullsafe->len = len;
+
 	return 0;
 }
 
-- 
2.43.0


From 2c51de2c688595cc0fffdb01d8b62ac8d6adec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 31/39] fix: nullsafe str: do not read the first byte of an
 empty search string

---
 src/lib/helpers/nullsafe_str.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/helpers/nullsafe_str.c b/src/lib/helpers/nullsafe_str.c
index 173e648..6ec2d66 100644
--- a/src/lib/helpers/nullsafe_str.c
+++ b/src/lib/helpers/nullsafe_str.c
@@ -500,9 +500,10 @@ int rrr_nullsafe_str_str (
 	const void *search_end = end - needle->len;
 
 	while (start <= search_end) {
-		if (*((const char *) start) == *((const char *) needle->str) &&
+		if (needle->len == 0 || (
+		    *((const char *) start) == *((const char *) needle->str) &&
 		    rrr_memcmp(start, needle->str, needle->len) == 0
-		) {
+		)) {
 			const struct rrr_nullsafe_str tmp_at_needle = {
 					(void *) start, // Cast away const OK
 					rrr_length_from_ptr_sub_bug_const (end, start)
-- 
2.43.0


From 87f34ed22fbbb8a9ce436aaac95b1af1cf256f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 32/39] fix: nullsafe str: check truncation range without
 overflow

---
 src/lib/helpers/nullsafe_str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/helpers/nullsafe_str.c b/src/lib/helpers/nullsafe_str.c
index 6ec2d66..70585e8 100644
--- a/src/lib/helpers/nullsafe_str.c
+++ b/src/lib/helpers/nullsafe_str.c
@@ -975,7 +975,7 @@ int rrr_nullsafe_str_with_raw_truncated_do (
 		int (*callback)(const void *str, rrr_nullsafe_len len, void *arg),
 		void *callback_arg
 ) {
-	if (pos + len > nullsafe->len) {
+	if (pos > nullsafe->len || len > nullsafe->len - pos) {
 		RRR_BUG("BUG: pos+len exceeds available length in rrr_nullsafe_str_with_raw_truncated_do\n");
 	}
 
-- 
2.43.0


From 3d385c5601139cd3a65afff291bd337038ede63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 33/39] fix: http: refuse percent sequence with only one
 hexadecimal digit

---
 src/lib/http/http_part.c | 2 +-
 src/lib/http/http_util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_part.c b/src/lib/http/http_part.c
index 5f1b972..0df67e2 100644
--- a/src/lib/http/http_part.c
+++ b/src/lib/http/http_part.c
@@ -428,7 +428,7 @@ static int __rrr_http_part_query_string_parse (
 			unsigned long long int result = 0;
 
 			rrr_length result_len = 0;
-			if (rrr_http_util_strtoull_raw (&result, &result_len, start + 1, start + 3, 16) != 0) {
+			if (rrr_http_util_strtoull_raw (&result, &result_len, start + 1, start + 3, 16) != 0 || result_len != 2) {
 				RRR_MSG_0("Invalid %%-sequence in HTTP query string\n");
 				rrr_http_util_print_where_message(start, end);
 				ret = RRR_HTTP_PARSE_SOFT_ERR;
diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 0904eca..c8e5ee0 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -270,7 +270,7 @@ static int __rrr_http_util_decode_urlencoded_string (
 			unsigned long long int result = 0;
 
 			rrr_length result_len = 0;
-			if (rrr_http_util_strtoull_raw (&result, &result_len, (const char *) start + 1, (const char *) start + 3, 16) != 0) {
+			if (rrr_http_util_strtoull_raw (&result, &result_len, (const char *) start + 1, (const char *) start + 3, 16) != 0 || result_len != 2) {
 				if (RRR_DEBUGLEVEL_3) {
 					RRR_MSG_3("Invalid %%-sequence in urlencoded string\n");
 					rrr_http_util_print_where_message((const char *) start, (const char *) end);
-- 
2.43.0


From b0293fc54a6d063dad140267e5b0b2286b5f3d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 34/39] fix: http: compute size of quoted header value in 64
 bits

---
 src/lib/http/http_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index c8e5ee0..797e0a0 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -461,7 +461,7 @@ char *rrr_http_util_header_value_quote (
 
 	char *result = NULL;
 
-	rrr_biglength result_size = length * 2 + 2 + 1;
+	rrr_biglength result_size = (rrr_biglength) length * 2 + 2 + 1;
 	RRR_TYPES_BUG_IF_LENGTH_EXCEEDED(length, "rrr_http_util_quote_header_value B");
 
 	const rrr_biglength allocate_size = result_size + 1;
-- 
2.43.0


From 25b6f3aca1b03d630cdac695584bf1544e0ed80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 35/39] fix: http: unquote everything which quoting escapes

---
 src/lib/http/http_util.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 797e0a0..6cb5bd5 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -397,6 +397,7 @@ static int __rrr_http_util_unquote_string_callback (
 
 	while (start < end) {
 		if (*start == '"' || *start == '(') {
+			unsigned char beginquote = *start;
 			unsigned char endquote = (*start == '"' ? '"' : ')');
 
 			// Skip past begin quote
@@ -410,8 +411,8 @@ static int __rrr_http_util_unquote_string_callback (
 				if (*start == '\\') {
 					if (start + 1 < end) {
 						unsigned char next = *(start + 1);
-						if (next == endquote) {
-							// Write only the quote character
+						if (next == endquote || next == beginquote || next == '\\' || next == '\r') {
+							// Write only the escaped character
 							start++;
 						}
 						else {
-- 
2.43.0


From 8f0d3bd0fa9aa755e9172a4fe99ceb3b2cc55c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 36/39] fix: http: find every match in case insensitive search
 and no partial ones

---
 src/lib/http/http_util.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 6cb5bd5..b1a74f6 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -750,7 +750,7 @@ int rrr_http_util_strcasestr (
 		}
 		else {
 			if (revert_position != NULL) {
-				pos = revert_position;
+				pos = revert_position - 1; // Incremented by loop
 				revert_position = NULL;
 			}
 			needle_pos = needle;
@@ -759,6 +759,12 @@ int rrr_http_util_strcasestr (
 		}
 	}
 
+	if (needle_pos != needle_end) {
+		// Only the beginning of the needle matched at the end
+		result = NULL;
+		len = 0;
+	}
+
 	*result_start = result;
 	*result_len = len;
 
-- 
2.43.0


From a3b5d42a79b4c5a8e3145230614d1fe196b1a6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 37/39] fix: http: duplicate endpoint of URI

---
 src/lib/http/http_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index b1a74f6..0197e47 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -821,7 +821,7 @@ int rrr_http_util_uri_dup (
 		goto out_free;
 	}
 
-	if (uri_result->endpoint != NULL && (uri_result->endpoint = rrr_strdup(uri->endpoint)) == NULL) {
+	if (uri->endpoint != NULL && (uri_result->endpoint = rrr_strdup(uri->endpoint)) == NULL) {
 		RRR_MSG_0("Could not allocate memory for endpoint in %s\n", __func__);
 		ret = 1;
 		goto out_free;
-- 
2.43.0


From f31dfb007f2f20700ff161f768b41e559e740980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 38/39] fix: http: do not read past the end of an URI ending
 with its hostname

---
 src/lib/http/http_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 0197e47..da1a2c2 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -1027,7 +1027,7 @@ static int __rrr_http_util_uri_parse_hostname_and_port (
 		uri_new->host[result_len_tmp] = '\0';
 	}
 
-	if (**pos == ':') {
+	if (*pos < end && **pos == ':') {
 		(*pos)++;
 		unsigned long long port = 0;
 		if (rrr_http_util_strtoull_raw(&port, &result_len_tmp, *pos, end, 10) != 0 || port < 1 || port > 65535) {
@@ -1041,7 +1041,7 @@ static int __rrr_http_util_uri_parse_hostname_and_port (
 		*pos += result_len_tmp;
 	}
 	else if (force_port) {
-		RRR_MSG_0("Invalid character x%02x after hostname in host:port URI\n", **pos);
+		RRR_MSG_0("Missing port after hostname in host:port URI\n");
 		ret = 1;
 		goto out;
 	}
-- 
2.43.0


From 9975769f65f64b10b8ad2ff447d72412061f6b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 39/39] fix: http: do not take wss for ws in URI

---
 src/lib/http/http_util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index da1a2c2..6dc7d88 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -1158,12 +1158,12 @@ static int __rrr_http_util_uri_parse_callback (
 			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "http", 4) == 0) {
 				uri_new->protocol = rrr_strdup("http");
 			}
-			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "ws", 2) == 0) {
-				uri_new->protocol = rrr_strdup("ws");
-			}
 			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "wss", 3) == 0) {
 				uri_new->protocol = rrr_strdup("wss");
 			}
+			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "ws", 2) == 0) {
+				uri_new->protocol = rrr_strdup("ws");
+			}
 			else {
 				RRR_HTTP_UTIL_SET_TMP_NAME_FROM_STR_AND_LENGTH(name,str,len);
 				RRR_MSG_0("Unsupported or missing protocol name in URI '%s'\n", name);
-- 
2.43.0

