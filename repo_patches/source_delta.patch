From 86d923b75cb112559ca3042d0080c1d4b8d55c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:41 +0000
Subject: [PATCH 01/43] fix: an integer interval ]l,l+1[ contains no value and
 must be reported empty

---
 src/interval.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interval.c b/src/interval.c
index cabc912..33a64e1 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -7,11 +7,17 @@ ccs_interval_empty(ccs_interval_t *interval, ccs_bool_t *empty_ret)
 	// Empty ranges
 	// [l,u] when l> u; ]l,u] when l>=u
 	// [l,u[ when l>=u; ]l,u[ when l>=u
+	// for integers ]l,u[ is also empty when u == l + 1
 	if (interval->type == CCS_NUMERIC_TYPE_INT) {
 		if (interval->upper_included && interval->lower_included ?
 			    interval->lower.i > interval->upper.i :
 			    interval->lower.i >= interval->upper.i) {
 			*empty_ret = CCS_TRUE;
+		} else if (
+			!interval->upper_included &&
+			!interval->lower_included &&
+			interval->upper.i - 1 == interval->lower.i) {
+			*empty_ret = CCS_TRUE;
 		} else
 			*empty_ret = CCS_FALSE;
 	} else {
-- 
2.43.0


From 7ddf730abe9f3115c541f3e683b28c3f7cfc0fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:19 +0000
Subject: [PATCH 02/43] fix: the union of two intervals keeps a shared bound
 included when either one includes it

---
 src/interval.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/interval.c b/src/interval.c
index 33a64e1..12d1f70 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -68,6 +68,29 @@ ccs_interval_empty(ccs_interval_t *interval, ccs_bool_t *empty_ret)
 		}                                                              \
 	}
 
+// Hull variants: on a tie, the bound is included if either one is.
+#define HULL_MAX(l1, li1, l2, li2, l, li)                                      \
+	{                                                                      \
+		if (l1 > l2 || (l1 == l2 && li1)) {                            \
+			l  = l1;                                               \
+			li = li1;                                              \
+		} else {                                                       \
+			l  = l2;                                               \
+			li = li2;                                              \
+		}                                                              \
+	}
+
+#define HULL_MIN(l1, li1, l2, li2, l, li)                                      \
+	{                                                                      \
+		if (l1 < l2 || (l1 == l2 && li1)) {                            \
+			l  = l1;                                               \
+			li = li1;                                              \
+		} else {                                                       \
+			l  = l2;                                               \
+			li = li2;                                              \
+		}                                                              \
+	}
+
 ccs_result_t
 ccs_interval_intersect(
 	ccs_interval_t *interval1,
@@ -118,21 +141,21 @@ ccs_interval_union(
 		CCS_RESULT_ERROR_INVALID_TYPE);
 	if (interval1->type == CCS_NUMERIC_TYPE_FLOAT) {
 		interval_res->type = CCS_NUMERIC_TYPE_FLOAT;
-		MERGE_MIN(
+		HULL_MIN(
 			interval1->lower.f, interval1->lower_included,
 			interval2->lower.f, interval2->lower_included,
 			interval_res->lower.f, interval_res->lower_included);
-		MERGE_MAX(
+		HULL_MAX(
 			interval1->upper.f, interval1->upper_included,
 			interval2->upper.f, interval2->upper_included,
 			interval_res->upper.f, interval_res->upper_included);
 	} else {
 		interval_res->type = CCS_NUMERIC_TYPE_INT;
-		MERGE_MIN(
+		HULL_MIN(
 			interval1->lower.i, interval1->lower_included,
 			interval2->lower.i, interval2->lower_included,
 			interval_res->lower.i, interval_res->lower_included);
-		MERGE_MAX(
+		HULL_MAX(
 			interval1->upper.i, interval1->upper_included,
 			interval2->upper.i, interval2->upper_included,
 			interval_res->upper.i, interval_res->upper_included);
-- 
2.43.0


From 374d1b1775e59a1a06966d885f501077cfe5d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:36 +0000
Subject: [PATCH 03/43] fix: refuse NaN bounds, quantization or default when
 creating a numerical parameter, and do not overflow on wide integer ranges

---
 src/parameter_numerical.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index 645b518..c51232a 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -290,16 +290,17 @@ ccs_create_numerical_parameter(
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_INT &&
 			(lower.i >= upper.i || quantization.i < 0 ||
-			 quantization.i > upper.i - lower.i ||
+			 (uint64_t)quantization.i >
+				 (uint64_t)upper.i - (uint64_t)lower.i ||
 			 default_value.i < lower.i ||
 			 default_value.i >= upper.i),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_FLOAT &&
-			(lower.f >= upper.f || quantization.f < 0.0 ||
-			 quantization.f > upper.f - lower.f ||
-			 default_value.f < lower.f ||
-			 default_value.f >= upper.f),
+			!(lower.f < upper.f && quantization.f >= 0.0 &&
+			  quantization.f <= upper.f - lower.f &&
+			  default_value.f >= lower.f &&
+			  default_value.f < upper.f),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	uintptr_t mem = (uintptr_t)calloc(
 		1, sizeof(struct _ccs_parameter_s) +
-- 
2.43.0


From 7344c730e8f522cead9bdee8e52d853873d22d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:21 +0000
Subject: [PATCH 04/43] fix: free the retry buffer when sampling a parameter
 gives up

---
 src/parameter_categorical.c | 6 +++---
 src/parameter_numerical.c   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index beefe62..e79f1de 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -178,9 +178,9 @@ _ccs_parameter_categorical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errmem);
 			size_t     buff_sz = (num_values - found) * coeff;
 			ccs_int_t *oldvs   = vs;
 			vs                 = (ccs_int_t *)realloc(
diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index c51232a..a548b1e 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -160,9 +160,9 @@ _ccs_parameter_numerical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errmem);
 			size_t         buff_sz = (num_values - found) * coeff;
 			ccs_numeric_t *oldvs   = vs;
 			vs                     = (ccs_numeric_t *)realloc(
-- 
2.43.0


From 09266a203b511b57a451067f5568f16a96242ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:51 +0000
Subject: [PATCH 05/43] fix: listing the values of a categorical parameter
 fills the rest of a larger array with none

---
 src/parameter_categorical.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index e79f1de..94552e4 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -405,7 +405,7 @@ _ccs_categorical_parameter_get_values(
 			CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < d->num_possible_values; i++)
 			possible_values[i] = d->possible_values[i].d;
-		for (size_t i = num_possible_values; i < d->num_possible_values;
+		for (size_t i = d->num_possible_values; i < num_possible_values;
 		     i++)
 			possible_values[i] = ccs_none;
 	}
-- 
2.43.0


From 100d36855a20c195d95f5f18fc28244f0bd7721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 06/43] fix: free the copy of a string that could not be added
 to a string parameter

---
 src/parameter_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parameter_string.c b/src/parameter_string.c
index e45990b..2363ea5 100644
--- a/src/parameter_string.c
+++ b/src/parameter_string.c
@@ -117,6 +117,7 @@ _ccs_parameter_string_serialize(
 #undef uthash_nonfatal_oom
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
+		free(elt);                                                     \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate array");                \
-- 
2.43.0


From 9ca7f06e1c69db01ff41cccd22a4e5afd8b1abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:22 +0000
Subject: [PATCH 07/43] fix: do not truncate indexes to 32 bits before checking
 them against the number of elements

---
 src/configuration_space.c | 10 +++++-----
 src/context_internal.h    |  4 ++--
 src/objective_space.c     |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 6392af3..729cf21 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -705,7 +705,7 @@ ccs_configuration_space_get_parameter_distribution(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)index);
+			index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*distribution_ret = wrapper->distribution->distribution;
 	*index_ret        = wrapper->distribution_index;
@@ -1234,7 +1234,7 @@ _recompute_graph(ccs_configuration_space_t configuration_space)
 	ccs_result_t err = CCS_RESULT_SUCCESS;
 	for (size_t index = 0; index < utarray_len(array); index++) {
 		wrapper = (_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
-			array, (unsigned int)index);
+			array, index);
 		if (!wrapper->condition)
 			continue;
 		size_t count;
@@ -1317,7 +1317,7 @@ ccs_configuration_space_set_condition(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)parameter_index);
+			parameter_index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	CCS_REFUTE(wrapper->condition, CCS_RESULT_ERROR_INVALID_PARAMETER);
 	ccs_result_t err;
@@ -1345,7 +1345,7 @@ ccs_configuration_space_get_condition(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)parameter_index);
+			parameter_index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = wrapper->condition;
 	return CCS_RESULT_SUCCESS;
@@ -1448,7 +1448,7 @@ ccs_configuration_space_get_forbidden_clause(
 	CCS_CHECK_PTR(expression_ret);
 	ccs_expression_t *p_expr = (ccs_expression_t *)utarray_eltptr(
 		configuration_space->data->forbidden_clauses,
-		(unsigned int)index);
+		index);
 	CCS_REFUTE(!p_expr, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = *p_expr;
 	return CCS_RESULT_SUCCESS;
diff --git a/src/context_internal.h b/src/context_internal.h
index 3fa6a0b..86940e9 100644
--- a/src/context_internal.h
+++ b/src/context_internal.h
@@ -77,7 +77,7 @@ _ccs_context_get_parameter(
 	CCS_CHECK_PTR(parameter_ret);
 	_ccs_parameter_wrapper_t *wrapper =
 		(_ccs_parameter_wrapper_t *)utarray_eltptr(
-			context->data->parameters, (unsigned int)index);
+			context->data->parameters, index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*parameter_ret = wrapper->parameter;
 	return CCS_RESULT_SUCCESS;
@@ -184,7 +184,7 @@ _ccs_context_validate_value(
 	CCS_CHECK_PTR(value_ret);
 	_ccs_parameter_wrapper_t *wrapper =
 		(_ccs_parameter_wrapper_t *)utarray_eltptr(
-			context->data->parameters, (unsigned int)index);
+			context->data->parameters, index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	ccs_bool_t valid;
 	CCS_VALIDATE(ccs_parameter_validate_value(
diff --git a/src/objective_space.c b/src/objective_space.c
index 0355ea6..1839076 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -544,7 +544,7 @@ ccs_objective_space_get_objective(
 	CCS_CHECK_PTR(expression_ret);
 	CCS_CHECK_PTR(type_ret);
 	_ccs_objective_t *p_obj = (_ccs_objective_t *)utarray_eltptr(
-		objective_space->data->objectives, (unsigned int)index);
+		objective_space->data->objectives, index);
 	CCS_REFUTE(!p_obj, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = p_obj->expression;
 	*type_ret       = p_obj->type;
-- 
2.43.0


From 1163048696c0982417bb31bea579a038baf1dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:28 +0000
Subject: [PATCH 08/43] fix: refuse an array too small for the objective
 values, and accept a larger one

---
 src/evaluation.c          | 2 +-
 src/features_evaluation.c | 2 +-
 src/tree_evaluation.c     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluation.c b/src/evaluation.c
index acabf57..4201894 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -359,7 +359,7 @@ ccs_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index 7d2c103..e64b786 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -402,7 +402,7 @@ ccs_features_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index c78232f..614e32b 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -364,7 +364,7 @@ ccs_tree_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
-- 
2.43.0


From 2e0ecb56d557278383a72eafa3955e3bdf399468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:28 +0000
Subject: [PATCH 09/43] fix: release the configuration space when a value is
 refused while creating a configuration

---
 src/configuration.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/configuration.c b/src/configuration.c
index d558a05..82663c0 100644
--- a/src/configuration.c
+++ b/src/configuration.c
@@ -130,10 +130,12 @@ ccs_create_configuration(
 						configuration_space, i,
 						values[i],
 						config->data->values + i),
-					errmem);
+					errcs);
 	}
 	*configuration_ret = config;
 	return CCS_RESULT_SUCCESS;
+errcs:
+	ccs_release_object(configuration_space);
 errmem:
 	free((void *)mem);
 	return err;
-- 
2.43.0


From a3dcbdcb96ed097ad391633bd16b633fb2e4b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:40 +0000
Subject: [PATCH 10/43] fix: fill the rest of a larger array of binding values
 with complete none values

---
 src/binding_internal.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/binding_internal.h b/src/binding_internal.h
index f1ebd26..8f0450c 100644
--- a/src/binding_internal.h
+++ b/src/binding_internal.h
@@ -76,10 +76,8 @@ _ccs_binding_get_values(
 		CCS_REFUTE(num_values < num, CCS_RESULT_ERROR_INVALID_VALUE);
 		memcpy(values, binding->data->values,
 		       num * sizeof(ccs_datum_t));
-		for (size_t i = num; i < num_values; i++) {
-			values[i].type    = CCS_DATA_TYPE_NONE;
-			values[i].value.i = 0;
-		}
+		for (size_t i = num; i < num_values; i++)
+			values[i] = ccs_none;
 	}
 	if (num_values_ret)
 		*num_values_ret = num;
-- 
2.43.0


From 06305c55f0fd1aee483184ec450f8c8964202353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:27 +0000
Subject: [PATCH 11/43] fix: listing the keys of a map returns its keys, not
 its values

---
 src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index b10d5d0..91f21ae 100644
--- a/src/map.c
+++ b/src/map.c
@@ -294,7 +294,7 @@ ccs_map_get_keys(
 		_ccs_map_datum_t *current = NULL, *tmp;
 		size_t            i       = 0;
 		HASH_ITER(hh, map->data->map, current, tmp)
-		keys[i++] = current->value;
+		keys[i++] = current->key;
 		for (i = num_entries; i < num_keys; i++)
 			keys[i] = ccs_none;
 	}
-- 
2.43.0


From 477ce9a4c22c23939e18d75864ab8b74215ee1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:34 +0000
Subject: [PATCH 12/43] fix: keep the value of a key when replacing it runs out
 of memory

---
 src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index 91f21ae..8f4a30d 100644
--- a/src/map.c
+++ b/src/map.c
@@ -223,9 +223,9 @@ ccs_map_set(ccs_map_t map, ccs_datum_t key, ccs_datum_t value)
 	_ccs_map_set_string(&entry->key, sz1, &mem);
 	_ccs_map_set_string(&entry->value, sz2, &mem);
 
+	HASH_ADD(hh, d->map, key, sizeof(ccs_datum_t), entry);
 	if (old_entry)
 		_ccs_map_remove(d, old_entry);
-	HASH_ADD(hh, d->map, key, sizeof(ccs_datum_t), entry);
 	return CCS_RESULT_SUCCESS;
 err_mem:
 	free(entry);
-- 
2.43.0


From ebbc0517ff48e5b81a9c0de18111427c82936211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:33 +0000
Subject: [PATCH 13/43] fix: refuse over-long variable length integers when
 deserializing

---
 src/cconfigspace_internal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index eb20271..d76c862 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -501,6 +501,9 @@ ccs_zigzag_decode_int64(uint64_t x)
 			CCS_REFUTE(                                            \
 				buff_size < 1,                                 \
 				CCS_RESULT_ERROR_NOT_ENOUGH_DATA);             \
+			CCS_REFUTE(                                            \
+				shift >= 8 * sizeof(MAPPED_TYPE),              \
+				CCS_RESULT_ERROR_INVALID_VALUE);               \
 			y = *buff;                                             \
 			v |= (y & 0x7f) << shift;                              \
 			buff_size -= 1;                                        \
-- 
2.43.0


From 60ccdf2ed36b7fc4fe0fb7098d6e1dabb70eec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:49 +0000
Subject: [PATCH 14/43] fix: refuse unterminated strings when deserializing

---
 src/cconfigspace_internal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index d76c862..9aaecfc 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -781,6 +781,9 @@ _ccs_deserialize_bin_string(
 	size_t sz;
 	CCS_VALIDATE(_ccs_deserialize_bin_size(&sz, buffer_size, buffer));
 	CCS_REFUTE(*buffer_size < sz, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	CCS_REFUTE(
+		sz < 1 || (*buffer)[sz - 1] != '\0',
+		CCS_RESULT_ERROR_INVALID_VALUE);
 	*str = *buffer;
 	*buffer_size -= sz;
 	*buffer += sz;
-- 
2.43.0


From f0fe31149680d6a305e9452c545ef92bd52b40d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:06 +0000
Subject: [PATCH 15/43] fix: check user data fits in the buffer when
 deserializing

---
 src/cconfigspace_internal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 9aaecfc..48825e7 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -1184,6 +1184,9 @@ _ccs_object_deserialize_user_data(
 		size_t serialize_data_size;
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			&serialize_data_size, buffer_size, buffer));
+		CCS_REFUTE(
+			*buffer_size < serialize_data_size,
+			CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 		if (serialize_data_size) {
 			if (opts->deserialize_callback)
 				CCS_VALIDATE(opts->deserialize_callback(
-- 
2.43.0


From e85151f77826c5ba06eb8cae26bc394626c3efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:18 +0000
Subject: [PATCH 16/43] fix: dividing the smallest integer by -1 trapped in
 expressions

---
 src/expression.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/expression.c b/src/expression.c
index 028c660..4699d36 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -879,7 +879,9 @@ _ccs_expr_divide_eval(
 	if (left.type == CCS_DATA_TYPE_INT) {
 		if (right.type == CCS_DATA_TYPE_INT) {
 			CCS_REFUTE(
-				right.value.i == 0,
+				right.value.i == 0 ||
+					(right.value.i == -1 &&
+					 left.value.i == CCS_INT_MIN),
 				CCS_RESULT_ERROR_INVALID_VALUE);
 			*result = ccs_int(left.value.i / right.value.i);
 			return CCS_RESULT_SUCCESS;
@@ -932,7 +934,10 @@ _ccs_expr_modulo_eval(
 			CCS_REFUTE(
 				right.value.i == 0,
 				CCS_RESULT_ERROR_INVALID_VALUE);
-			*result = ccs_int(left.value.i % right.value.i);
+			*result =
+				ccs_int(right.value.i == -1 ?
+						0 :
+						left.value.i % right.value.i);
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
 			CCS_REFUTE(
-- 
2.43.0


From ad3737cdb3d28b555de3d94aed644282ab0b7808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:27 +0000
Subject: [PATCH 17/43] fix: compare floats by value in expression equality

---
 src/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expression.c b/src/expression.c
index 4699d36..46de411 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -363,6 +363,10 @@ _ccs_datum_test_equal_generic(ccs_datum_t *a, ccs_datum_t *b, ccs_bool_t *equal)
 		case CCS_DATA_TYPE_NONE:
 			*equal = CCS_TRUE;
 			break;
+		case CCS_DATA_TYPE_FLOAT:
+			*equal = a->value.f == b->value.f ? CCS_TRUE :
+							    CCS_FALSE;
+			break;
 		default:
 			*equal = memcmp(&(a->value), &(b->value),
 					sizeof(ccs_value_t)) == 0 ?
-- 
2.43.0


From bc4822f164402d7e76791761d9eb368062db1363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:39 +0000
Subject: [PATCH 18/43] fix: refuse serialized literals and variables with
 nodes

---
 src/expression_deserialize.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index 15ec662..ecbe777 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -56,6 +56,22 @@ _ccs_deserialize_bin_ccs_expression_data(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* literals and variables have no nodes */
+static inline ccs_result_t
+_ccs_deserialize_bin_ccs_expression_leaf_data(
+	_ccs_expression_data_mock_t *data,
+	size_t                      *buffer_size,
+	const char                 **buffer)
+{
+	data->nodes = NULL;
+	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_type(
+		&data->type, buffer_size, buffer));
+	CCS_VALIDATE(_ccs_deserialize_bin_size(
+		&data->num_nodes, buffer_size, buffer));
+	CCS_REFUTE(data->num_nodes, CCS_RESULT_ERROR_INVALID_VALUE);
+	return CCS_RESULT_SUCCESS;
+}
+
 struct _ccs_expression_literal_data_mock_s {
 	_ccs_expression_data_mock_t expr;
 	ccs_datum_t                 value;
@@ -70,8 +86,9 @@ _ccs_deserialize_bin_ccs_expression_literal_data(
 	size_t                              *buffer_size,
 	const char                         **buffer)
 {
-	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_data(
-		&data->expr, version, buffer_size, buffer, NULL));
+	(void)version;
+	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_leaf_data(
+		&data->expr, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_datum(
 		&data->value, buffer_size, buffer));
 	return CCS_RESULT_SUCCESS;
@@ -105,8 +122,9 @@ _ccs_deserialize_bin_ccs_expression_variable_data(
 	size_t                               *buffer_size,
 	const char                          **buffer)
 {
-	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_data(
-		&data->expr, version, buffer_size, buffer, NULL));
+	(void)version;
+	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_leaf_data(
+		&data->expr, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
 		(ccs_object_t *)&data->parameter, buffer_size, buffer));
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From af5ce789046c75c4deb943f47bf3fcbfecef1f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:10 +0000
Subject: [PATCH 19/43] fix: refuse to attach a tree node below itself

The cycle made the weight update loop forever.
---
 src/tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index 7c37190..86d06b4 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -271,6 +271,9 @@ ccs_tree_set_child(ccs_tree_t tree, size_t index, ccs_tree_t child)
 	CCS_REFUTE(
 		child_data->parent || child_data->index,
 		CCS_RESULT_ERROR_INVALID_TREE);
+	/* a node cannot be attached below itself */
+	for (ccs_tree_t node = tree; node; node = node->data->parent)
+		CCS_REFUTE(node == child, CCS_RESULT_ERROR_INVALID_TREE);
 	CCS_VALIDATE(ccs_retain_object(child));
 
 	child_data->parent         = tree;
-- 
2.43.0


From 2e8f086d0609805a195b05075e9cde3b56f87850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:10 +0000
Subject: [PATCH 20/43] fix: refuse tree arities whose storage size overflows

---
 src/tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index 86d06b4..c38a9e0 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -145,6 +145,9 @@ ccs_create_tree(size_t arity, ccs_datum_t value, ccs_tree_t *tree_ret)
 		value.type > CCS_DATA_TYPE_STRING,
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(arity > CCS_INT_MAX - 1, CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_REFUTE(
+		arity > SIZE_MAX / (4 * sizeof(ccs_float_t)),
+		CCS_RESULT_ERROR_OUT_OF_MEMORY);
 	size_t size_strs = 0;
 	if (value.type == CCS_DATA_TYPE_STRING) {
 		CCS_REFUTE(!value.value.s, CCS_RESULT_ERROR_INVALID_VALUE);
-- 
2.43.0


From 011c16016345e9c47bedc847ed0f4ea34dfab697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:10 +0000
Subject: [PATCH 21/43] fix: clear the tail of the array in
 ccs_tree_configuration_get_position

---
 src/tree_configuration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree_configuration.c b/src/tree_configuration.c
index 4b76e1a..c009a21 100644
--- a/src/tree_configuration.c
+++ b/src/tree_configuration.c
@@ -180,6 +180,8 @@ ccs_tree_configuration_get_position(
 			position_size < size, CCS_RESULT_ERROR_INVALID_VALUE);
 		memcpy(position, configuration->data->position,
 		       size * sizeof(size_t));
+		for (size_t i = size; i < position_size; i++)
+			position[i] = 0;
 	}
 	if (position_size_ret)
 		*position_size_ret = size;
-- 
2.43.0


From f9cd89338e718093a190cb022a397b9f6123cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:10 +0000
Subject: [PATCH 22/43] fix: do not copy from a null position when creating a
 root configuration

---
 src/tree_configuration.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tree_configuration.c b/src/tree_configuration.c
index c009a21..40f3a07 100644
--- a/src/tree_configuration.c
+++ b/src/tree_configuration.c
@@ -142,8 +142,9 @@ ccs_create_tree_configuration(
 	config->data->position_size = position_size;
 	config->data->position =
 		(size_t *)(mem + sizeof(struct _ccs_tree_configuration_s) + sizeof(struct _ccs_tree_configuration_data_s));
-	memcpy(config->data->position, position,
-	       position_size * sizeof(size_t));
+	if (position_size)
+		memcpy(config->data->position, position,
+		       position_size * sizeof(size_t));
 	*configuration_ret = config;
 	return CCS_RESULT_SUCCESS;
 errmem:
-- 
2.43.0


From 6b45e7a9f0fb727b33e6ff2d72cf32bc29aabc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:10 +0000
Subject: [PATCH 23/43] fix: release the new child when it cannot be attached
 to a dynamic tree

---
 src/tree_space_dynamic.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tree_space_dynamic.c b/src/tree_space_dynamic.c
index b088829..27c4031 100644
--- a/src/tree_space_dynamic.c
+++ b/src/tree_space_dynamic.c
@@ -153,13 +153,18 @@ _ccs_tree_space_tree_get_child(
 		size_t           child_index,
 		ccs_tree_t      *child_ret))
 {
+	ccs_result_t err = CCS_RESULT_SUCCESS;
 	CCS_VALIDATE(ccs_tree_get_child(parent, index, child));
 	if (!*child) {
 		CCS_VALIDATE(child_cb(tree_space, parent, index, child));
-		CCS_VALIDATE(ccs_tree_set_child(parent, index, *child));
-		CCS_VALIDATE(ccs_release_object(*child));
+		CCS_CHECK_OBJ(*child, CCS_OBJECT_TYPE_TREE);
+		CCS_VALIDATE_ERR_GOTO(
+			err, ccs_tree_set_child(parent, index, *child),
+			err_child);
+err_child:
+		ccs_release_object(*child);
 	}
-	return CCS_RESULT_SUCCESS;
+	return err;
 }
 
 static ccs_result_t
-- 
2.43.0


From 553fd6a2f9d743abcc7d597a71e144ec7751bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:10 +0000
Subject: [PATCH 24/43] fix: release the configurations already sampled when
 tree sampling fails

---
 src/tree_space.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tree_space.c b/src/tree_space.c
index c835e1b..248de56 100644
--- a/src/tree_space.c
+++ b/src/tree_space.c
@@ -150,6 +150,7 @@ _ccs_tree_space_samples(
 	ccs_rng_t    rng = data->rng;
 	ccs_result_t err = CCS_RESULT_SUCCESS;
 	UT_array    *arr = NULL;
+	size_t       num_created = 0;
 	utarray_new(arr, &_size_t_icd);
 	for (size_t i = 0; i < num_configurations; i++) {
 		size_t     index;
@@ -178,9 +179,13 @@ _ccs_tree_space_samples(
 				(size_t *)utarray_eltptr(arr, 0),
 				configurations + i),
 			err_arr);
+		num_created++;
 		utarray_clear(arr);
 	}
 err_arr:
+	if (err)
+		while (num_created)
+			ccs_release_object(configurations[--num_created]);
 	if (arr)
 		utarray_free(arr);
 	return err;
-- 
2.43.0


From 303ead65fded640b8969e42fea19dfb4ca92e20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:59 +0000
Subject: [PATCH 25/43] fix: keep uniform samples inside [lower, upper) for
 every accepted range

Rounding could yield upper (or values below lower on a logarithmic scale),
integer ranges wider than the generator aborted in GSL, ranges wider than
half the integers overflowed, and infinite or NaN bounds were accepted.
---
 src/distribution_uniform.c | 111 +++++++++++++++++++++++++++++--------
 1 file changed, 89 insertions(+), 22 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index 2b1f06c..70b8a07 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -205,6 +205,51 @@ _ccs_distribution_uniform_get_bounds(
 	return CCS_RESULT_SUCCESS;
 }
 
+// Rounding in the computations below can produce values that are slightly
+// outside of [lower, upper).
+static inline ccs_float_t
+_ccs_distribution_uniform_clamp_float(
+	ccs_float_t value,
+	ccs_float_t lower,
+	ccs_float_t upper,
+	ccs_float_t quantization)
+{
+	if (value >= upper)
+		value = quantization != 0.0 ? value - quantization :
+					      nextafter(upper, lower);
+	return value >= lower && value < upper ? value : lower;
+}
+
+static inline ccs_int_t
+_ccs_distribution_uniform_clamp_int(
+	ccs_float_t value,
+	ccs_int_t   lower,
+	ccs_int_t   upper)
+{
+	if (value >= (ccs_float_t)upper)
+		return upper - 1;
+	ccs_int_t i = (ccs_int_t)value;
+	return i < lower ? lower : i >= upper ? upper - 1 : i;
+}
+
+static inline uint64_t
+_ccs_distribution_uniform_draw_int(gsl_rng *grng, uint64_t n)
+{
+	if (n <= gsl_rng_max(grng) - gsl_rng_min(grng))
+		return gsl_rng_uniform_int(grng, n);
+	// n exceeds the range of the generator
+	uint64_t r, mask = n - 1;
+	for (unsigned shift = 1; shift < 64; shift <<= 1)
+		mask |= mask >> shift;
+	do {
+		r = 0;
+		for (size_t i = 0; i < sizeof(r); i++)
+			r = (r << 8) | gsl_rng_uniform_int(grng, 256);
+		r &= mask;
+	} while (r >= n);
+	return r;
+}
+
 static ccs_result_t
 _ccs_distribution_uniform_strided_samples(
 	_ccs_distribution_data_t *data,
@@ -220,6 +265,7 @@ _ccs_distribution_uniform_strided_samples(
 	const ccs_scale_type_t   scale_type     = d->scale_type;
 	const ccs_numeric_t      quantization   = d->quantization;
 	const ccs_numeric_t      lower          = d->lower;
+	const ccs_numeric_t      upper          = d->upper;
 	const ccs_numeric_t      internal_lower = d->internal_lower;
 	const ccs_numeric_t      internal_upper = d->internal_upper;
 	const int                quantize       = d->quantize;
@@ -252,12 +298,20 @@ _ccs_distribution_uniform_strided_samples(
 		else
 			for (i = 0; i < num_values; i++)
 				values[i * stride].f += lower.f;
+		for (i = 0; i < num_values; i++)
+			values[i * stride].f =
+				_ccs_distribution_uniform_clamp_float(
+					values[i * stride].f, lower.f, upper.f,
+					quantization.f);
 	} else {
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++) {
-				values[i * stride].i = floor(exp(gsl_ran_flat(
-					grng, internal_lower.f,
-					internal_upper.f)));
+				values[i * stride].i =
+					_ccs_distribution_uniform_clamp_int(
+						floor(exp(gsl_ran_flat(
+							grng, internal_lower.f,
+							internal_upper.f))),
+						lower.i, upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
@@ -269,18 +323,21 @@ _ccs_distribution_uniform_strided_samples(
 						lower.i;
 		} else {
 			for (i = 0; i < num_values; i++) {
-				values[i * stride].i = gsl_rng_uniform_int(
-					grng, internal_upper.i);
+				values[i * stride].i =
+					_ccs_distribution_uniform_draw_int(
+						grng, internal_upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
 					values[i * stride].i =
-						values[i * stride].i *
+						(uint64_t)values[i * stride].i *
 							quantization.i +
 						lower.i;
 			else
 				for (i = 0; i < num_values; i++)
-					values[i * stride].i += lower.i;
+					values[i * stride].i =
+						(uint64_t)values[i * stride].i +
+						lower.i;
 		}
 	}
 	return CCS_RESULT_SUCCESS;
@@ -300,6 +357,7 @@ _ccs_distribution_uniform_samples(
 	const ccs_scale_type_t   scale_type     = d->scale_type;
 	const ccs_numeric_t      quantization   = d->quantization;
 	const ccs_numeric_t      lower          = d->lower;
+	const ccs_numeric_t      upper          = d->upper;
 	const ccs_numeric_t      internal_lower = d->internal_lower;
 	const ccs_numeric_t      internal_upper = d->internal_upper;
 	const int                quantize       = d->quantize;
@@ -329,12 +387,18 @@ _ccs_distribution_uniform_samples(
 		else
 			for (i = 0; i < num_values; i++)
 				values[i].f += lower.f;
+		for (i = 0; i < num_values; i++)
+			values[i].f = _ccs_distribution_uniform_clamp_float(
+				values[i].f, lower.f, upper.f, quantization.f);
 	} else {
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++) {
-				values[i].i = floor(exp(gsl_ran_flat(
-					grng, internal_lower.f,
-					internal_upper.f)));
+				values[i].i =
+					_ccs_distribution_uniform_clamp_int(
+						floor(exp(gsl_ran_flat(
+							grng, internal_lower.f,
+							internal_upper.f))),
+						lower.i, upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
@@ -344,17 +408,19 @@ _ccs_distribution_uniform_samples(
 						      lower.i;
 		} else {
 			for (i = 0; i < num_values; i++) {
-				values[i].i = gsl_rng_uniform_int(
-					grng, internal_upper.i);
+				values[i].i =
+					_ccs_distribution_uniform_draw_int(
+						grng, internal_upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
-					values[i].i =
-						values[i].i * quantization.i +
-						lower.i;
+					values[i].i = (uint64_t)values[i].i *
+							      quantization.i +
+						      lower.i;
 			else
 				for (i = 0; i < num_values; i++)
-					values[i].i += lower.i;
+					values[i].i =
+						(uint64_t)values[i].i + lower.i;
 		}
 	}
 	return CCS_RESULT_SUCCESS;
@@ -397,14 +463,15 @@ ccs_create_uniform_distribution(
 			 (scale_type == CCS_SCALE_TYPE_LOGARITHMIC &&
 			  lower.i <= 0) ||
 			 quantization.i < 0 ||
-			 quantization.i > upper.i - lower.i),
+			 (uint64_t)quantization.i >
+				 (uint64_t)upper.i - (uint64_t)lower.i),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_FLOAT &&
-			(lower.f >= upper.f ||
+			(!(lower.f < upper.f) || !isfinite(upper.f - lower.f) ||
 			 (scale_type == CCS_SCALE_TYPE_LOGARITHMIC &&
 			  lower.f <= 0.0) ||
-			 quantization.f < 0.0 ||
+			 !(quantization.f >= 0.0) ||
 			 quantization.f > upper.f - lower.f),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	uintptr_t mem = (uintptr_t)calloc(
@@ -451,10 +518,10 @@ ccs_create_uniform_distribution(
 			distrib_data->internal_upper.f = log(upper.i);
 		} else {
 			distrib_data->internal_lower.i = 0;
-			distrib_data->internal_upper.i = upper.i - lower.i;
+			uint64_t range = (uint64_t)upper.i - (uint64_t)lower.i;
 			if (quantization.i != 0)
-				distrib_data->internal_upper.i /=
-					quantization.i;
+				range /= quantization.i;
+			distrib_data->internal_upper.i = range;
 		}
 	}
 	distrib->data     = (_ccs_distribution_data_t *)distrib_data;
-- 
2.43.0


From 55ca0a30aa1d3d5bb3679fad6eba30f0cd37938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:59 +0000
Subject: [PATCH 26/43] fix: keep integer normal samples representable and
 inside the advertised bounds

Values at the edge of the integer range were accepted before rounding and
overflowed, log quantized values could round to zero, and NaN or infinite
parameters were accepted.
---
 src/distribution_normal.c | 75 +++++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/src/distribution_normal.c b/src/distribution_normal.c
index 9f6be69..fe0eadb 100644
--- a/src/distribution_normal.c
+++ b/src/distribution_normal.c
@@ -274,12 +274,36 @@ _ccs_distribution_normal_samples_float(
 	if (quantize) {
 		ccs_float_t rquantization = 1.0 / quantization;
 		for (i = 0; i < num_values; i++)
-			values[i] =
-				round(values[i] * rquantization) * quantization;
+			values[i] = round(values[i] * rquantization);
+		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC)
+			for (i = 0; i < num_values; i++)
+				values[i] = fmax(values[i], 1.0);
+		for (i = 0; i < num_values; i++)
+			values[i] *= quantization;
 	}
 	return CCS_RESULT_SUCCESS;
 }
 
+// whether value, once rounded, lies in the bounds of the distribution
+static inline int
+_ccs_distribution_normal_int_in_bounds(
+	const ccs_scale_type_t scale_type,
+	const ccs_int_t        quantization,
+	const int              quantize,
+	ccs_float_t            value)
+{
+	const ccs_int_t q = quantize ? quantization : 1;
+	ccs_float_t     r = quantize ? round(value * (1.0 / quantization)) :
+				       round(value);
+	if (r < (ccs_float_t)CCS_INT_MIN || r >= -(ccs_float_t)CCS_INT_MIN)
+		return 0;
+	ccs_int_t i = (ccs_int_t)r;
+	return i <= CCS_INT_MAX / q &&
+	       i >= (scale_type == CCS_SCALE_TYPE_LOGARITHMIC ?
+			     1 :
+			     CCS_INT_MIN / q);
+}
+
 static inline ccs_result_t
 _ccs_distribution_normal_samples_int(
 	gsl_rng               *grng,
@@ -310,8 +334,9 @@ _ccs_distribution_normal_samples_int(
 					} while (values[i].f < lq);
 					values[i].f = exp(values[i].f);
 				} while (CCS_UNLIKELY(
-					values[i].f - q >
-					(ccs_float_t)CCS_INT_MAX));
+				!_ccs_distribution_normal_int_in_bounds(
+					scale_type, quantization, quantize,
+					values[i].f)));
 		else
 			for (i = 0; i < num_values; i++)
 				do {
@@ -321,16 +346,18 @@ _ccs_distribution_normal_samples_int(
 						mu;
 					values[i].f = exp(values[i].f);
 				} while (CCS_UNLIKELY(
-					values[i].f - q >
-					(ccs_float_t)CCS_INT_MAX));
+				!_ccs_distribution_normal_int_in_bounds(
+					scale_type, quantization, quantize,
+					values[i].f)));
 	} else
 		for (i = 0; i < num_values; i++)
 			do {
 				values[i].f =
 					gsl_ran_gaussian(grng, sigma) + mu;
 			} while (CCS_UNLIKELY(
-				values[i].f - q > (ccs_float_t)CCS_INT_MAX ||
-				values[i].f + q < (ccs_float_t)CCS_INT_MIN));
+				!_ccs_distribution_normal_int_in_bounds(
+					scale_type, quantization, quantize,
+					values[i].f)));
 	if (quantize) {
 		ccs_float_t rquantization = 1.0 / quantization;
 		for (i = 0; i < num_values; i++)
@@ -411,8 +438,13 @@ _ccs_distribution_normal_strided_samples_float(
 		ccs_float_t rquantization = 1.0 / quantization;
 		for (i = 0; i < num_values; i++)
 			values[i * stride] =
-				round(values[i * stride] * rquantization) *
-				quantization;
+				round(values[i * stride] * rquantization);
+		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC)
+			for (i = 0; i < num_values; i++)
+				values[i * stride] =
+					fmax(values[i * stride], 1.0);
+		for (i = 0; i < num_values; i++)
+			values[i * stride] *= quantization;
 	}
 	return CCS_RESULT_SUCCESS;
 }
@@ -449,8 +481,9 @@ _ccs_distribution_normal_strided_samples_int(
 					values[i * stride].f =
 						exp(values[i * stride].f);
 				} while (CCS_UNLIKELY(
-					values[i * stride].f - q >
-					(ccs_float_t)CCS_INT_MAX));
+				!_ccs_distribution_normal_int_in_bounds(
+					scale_type, quantization, quantize,
+					values[i * stride].f)));
 		else
 			for (i = 0; i < num_values; i++)
 				do {
@@ -461,18 +494,18 @@ _ccs_distribution_normal_strided_samples_int(
 					values[i * stride].f =
 						exp(values[i * stride].f);
 				} while (CCS_UNLIKELY(
-					values[i * stride].f - q >
-					(ccs_float_t)CCS_INT_MAX));
+				!_ccs_distribution_normal_int_in_bounds(
+					scale_type, quantization, quantize,
+					values[i * stride].f)));
 	} else
 		for (i = 0; i < num_values; i++)
 			do {
 				values[i * stride].f =
 					gsl_ran_gaussian(grng, sigma) + mu;
 			} while (CCS_UNLIKELY(
-				values[i * stride].f - q >
-					(ccs_float_t)CCS_INT_MAX ||
-				values[i * stride].f + q <
-					(ccs_float_t)CCS_INT_MIN));
+				!_ccs_distribution_normal_int_in_bounds(
+					scale_type, quantization, quantize,
+					values[i * stride].f)));
 	if (quantize) {
 		ccs_float_t rquantization = 1.0 / quantization;
 		for (i = 0; i < num_values; i++)
@@ -550,7 +583,11 @@ ccs_create_normal_distribution(
 		data_type == CCS_NUMERIC_TYPE_INT && quantization.i < 0,
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
-		data_type == CCS_NUMERIC_TYPE_FLOAT && quantization.f < 0.0,
+		data_type == CCS_NUMERIC_TYPE_FLOAT &&
+			(quantization.f < 0.0 || !isfinite(quantization.f)),
+		CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_REFUTE(
+		!isfinite(mu) || !isfinite(sigma),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	uintptr_t mem = (uintptr_t)calloc(
 		1, sizeof(struct _ccs_distribution_s) +
-- 
2.43.0


From b21ed295d41ac650325835c729e547dead4eca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:55 +0000
Subject: [PATCH 27/43] fix: size the temporary bounds of a mixture by its
 dimension

The buffer was sized by the number of components, so components of a higher
dimension overflowed it; it was also leaked when the weights are refused.
---
 src/distribution_mixture.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index dc11674..8d6c89d 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -236,14 +236,14 @@ ccs_create_mixture_distribution(
 	cur_mem = mem;
 
 	tmp_mem = (uintptr_t)calloc(
-		1, sizeof(ccs_interval_t) * num_distributions +
+		1, sizeof(ccs_interval_t) * dimension +
 			   sizeof(ccs_numeric_type_t) * dimension);
 	CCS_REFUTE_ERR_GOTO(
 		err, !tmp_mem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
 	bounds_tmp = (ccs_interval_t *)tmp_mem;
 	data_types_tmp =
 		(ccs_numeric_type_t
-			 *)(tmp_mem + sizeof(ccs_interval_t) * num_distributions);
+			 *)(tmp_mem + sizeof(ccs_interval_t) * dimension);
 
 	distrib = (ccs_distribution_t)cur_mem;
 	cur_mem += sizeof(struct _ccs_distribution_s);
@@ -313,7 +313,7 @@ ccs_create_mixture_distribution(
 	distrib_data->weights[num_distributions] = 1.0;
 	CCS_REFUTE_ERR_GOTO(
 		err, 1.0 < distrib_data->weights[num_distributions - 1],
-		CCS_RESULT_ERROR_INVALID_VALUE, memory);
+		CCS_RESULT_ERROR_INVALID_VALUE, tmpmemory);
 	for (i = 0; i < num_distributions; i++) {
 		CCS_VALIDATE_ERR_GOTO(
 			err, ccs_retain_object(distributions[i]), distrib);
-- 
2.43.0


From 6240dcb2ffba3eb3d4c6b789d0e7a9d641dd38c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:55 +0000
Subject: [PATCH 28/43] fix: do not pass uninitialised pointers for skipped
 mixture dimensions

---
 src/distribution_mixture.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index 8d6c89d..ed6e7fe 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -435,8 +435,7 @@ _ccs_distribution_mixture_soa_samples(
 		ccs_int_t   index = _ccs_dichotomic_search(
                         d->num_distributions, d->weights, rnd);
 		for (size_t j = 0; j < dim; j++)
-			if (values[j])
-				p_values[j] = values[j] + i;
+			p_values[j] = values[j] ? values[j] + i : NULL;
 		CCS_VALIDATE(ccs_distribution_get_ops(d->distributions[index])
 				     ->soa_samples(
 					     d->distributions[index]->data, rng,
-- 
2.43.0


From 8cf93b77ea388f3f545072771a9ca7bb029f9db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:46 +0000
Subject: [PATCH 29/43] fix: release the object read when its user data is
 refused

---
 src/configuration_deserialize.h       | 14 +++++++++++---
 src/configuration_space_deserialize.h | 14 +++++++++++---
 src/distribution_deserialize.h        | 14 +++++++++++---
 src/evaluation_deserialize.h          | 14 +++++++++++---
 src/expression_deserialize.h          | 14 +++++++++++---
 src/features_deserialize.h            | 14 +++++++++++---
 src/features_evaluation_deserialize.h | 14 +++++++++++---
 src/features_space_deserialize.h      | 14 +++++++++++---
 src/features_tuner_deserialize.h      | 14 +++++++++++---
 src/map_deserialize.h                 | 14 +++++++++++---
 src/objective_space_deserialize.h     | 14 +++++++++++---
 src/parameter_deserialize.h           | 14 +++++++++++---
 src/rng_deserialize.h                 | 14 +++++++++++---
 src/tree_configuration_deserialize.h  | 14 +++++++++++---
 src/tree_deserialize.h                | 14 +++++++++++---
 src/tree_evaluation_deserialize.h     | 14 +++++++++++---
 src/tree_space_deserialize.h          | 14 +++++++++++---
 src/tree_tuner_deserialize.h          | 14 +++++++++++---
 src/tuner_deserialize.h               | 14 +++++++++++---
 19 files changed, 209 insertions(+), 57 deletions(-)

diff --git a/src/configuration_deserialize.h b/src/configuration_deserialize.h
index 719535f..c6cb880 100644
--- a/src/configuration_deserialize.h
+++ b/src/configuration_deserialize.h
@@ -73,6 +73,7 @@ _ccs_configuration_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_configuration(
@@ -83,10 +84,17 @@ _ccs_configuration_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_ret, format, version, buffer_size,
-		buffer, opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*configuration_ret, format, version,
+			buffer_size, buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*configuration_ret);
+	*configuration_ret = NULL;
+	return res;
 }
 
 #endif //_CONFIGURATION_DESERIALIZE_H
diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 96b5faf..172c40d 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -230,6 +230,7 @@ _ccs_configuration_space_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_configuration_space(
@@ -241,10 +242,17 @@ _ccs_configuration_space_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_space_ret, format, version,
-		buffer_size, buffer, opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*configuration_space_ret, format, version,
+			buffer_size, buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*configuration_space_ret);
+	*configuration_space_ret = NULL;
+	return res;
 }
 
 #endif //_CONFIGURATION_SPACE_DESERIALIZE_H
diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index d476cf4..98b53b0 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -384,6 +384,7 @@ _ccs_distribution_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_distribution(
@@ -394,10 +395,17 @@ _ccs_distribution_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*distribution_ret, format, version, buffer_size,
-		buffer, opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*distribution_ret, format, version,
+			buffer_size, buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*distribution_ret);
+	*distribution_ret = NULL;
+	return res;
 }
 
 #endif //_DISTRIBUTION_DESERIALIZE_H
diff --git a/src/evaluation_deserialize.h b/src/evaluation_deserialize.h
index 6f07e79..7b79fe9 100644
--- a/src/evaluation_deserialize.h
+++ b/src/evaluation_deserialize.h
@@ -104,6 +104,7 @@ _ccs_evaluation_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_evaluation(
@@ -114,10 +115,17 @@ _ccs_evaluation_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*evaluation_ret, format, version, buffer_size,
-		buffer, opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*evaluation_ret, format, version,
+			buffer_size, buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*evaluation_ret);
+	*evaluation_ret = NULL;
+	return res;
 }
 
 #endif //_EVALUATION_DESERIALIZE_H
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index ecbe777..7555f87 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -248,6 +248,7 @@ _ccs_expression_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_expression(
@@ -258,10 +259,17 @@ _ccs_expression_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*expression_ret, format, version, buffer_size,
-		buffer, opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*expression_ret, format, version,
+			buffer_size, buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*expression_ret);
+	*expression_ret = NULL;
+	return res;
 }
 
 #endif //_EXPRESSION_DESERIALIZE_H
diff --git a/src/features_deserialize.h b/src/features_deserialize.h
index 5066f06..224244f 100644
--- a/src/features_deserialize.h
+++ b/src/features_deserialize.h
@@ -72,6 +72,7 @@ _ccs_features_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_features(
@@ -82,10 +83,17 @@ _ccs_features_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_ret, format, version, buffer_size,
-		buffer, opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*features_ret, format, version,
+			buffer_size, buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*features_ret);
+	*features_ret = NULL;
+	return res;
 }
 
 #endif //_FEATURES_DESERIALIZE_H
diff --git a/src/features_evaluation_deserialize.h b/src/features_evaluation_deserialize.h
index be5f097..5d08f8c 100644
--- a/src/features_evaluation_deserialize.h
+++ b/src/features_evaluation_deserialize.h
@@ -113,6 +113,7 @@ _ccs_features_evaluation_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_features_evaluation(
@@ -124,10 +125,17 @@ _ccs_features_evaluation_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_evaluation_ret, format, version,
-		buffer_size, buffer, opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*features_evaluation_ret, format, version,
+			buffer_size, buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*features_evaluation_ret);
+	*features_evaluation_ret = NULL;
+	return res;
 }
 
 #endif //_FEATURES_EVALUATION_DESERIALIZE_H
diff --git a/src/features_space_deserialize.h b/src/features_space_deserialize.h
index 4cdcd1f..81c647e 100644
--- a/src/features_space_deserialize.h
+++ b/src/features_space_deserialize.h
@@ -67,6 +67,7 @@ _ccs_features_space_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_features_space(
@@ -78,10 +79,17 @@ _ccs_features_space_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_space_ret, format, version, buffer_size,
-		buffer, opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*features_space_ret, format, version,
+			buffer_size, buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*features_space_ret);
+	*features_space_ret = NULL;
+	return res;
 }
 
 #endif //_FEATURES_SPACE_DESERIALIZE_H
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 73a35e7..26217be 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -329,6 +329,7 @@ _ccs_features_tuner_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_features_tuner(
@@ -340,10 +341,17 @@ _ccs_features_tuner_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_tuner_ret, format, version, buffer_size,
-		buffer, opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*features_tuner_ret, format, version,
+			buffer_size, buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*features_tuner_ret);
+	*features_tuner_ret = NULL;
+	return res;
 }
 
 #endif //_FEATURES_TUNER_DESERIALIZE_H
diff --git a/src/map_deserialize.h b/src/map_deserialize.h
index 4f44632..6614611 100644
--- a/src/map_deserialize.h
+++ b/src/map_deserialize.h
@@ -91,6 +91,7 @@ _ccs_map_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_map(
@@ -101,10 +102,17 @@ _ccs_map_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*map_ret, format, version, buffer_size, buffer,
-		opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*map_ret, format, version, buffer_size,
+			buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*map_ret);
+	*map_ret = NULL;
+	return res;
 }
 
 #endif //_MAP_DESERIALIZE_H
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 3baec98..9118b02 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -138,6 +138,7 @@ _ccs_objective_space_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_objective_space(
@@ -149,10 +150,17 @@ _ccs_objective_space_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*objective_space_ret, format, version,
-		buffer_size, buffer, opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*objective_space_ret, format, version,
+			buffer_size, buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*objective_space_ret);
+	*objective_space_ret = NULL;
+	return res;
 }
 
 #endif //_OBJECTIVE_SPACE_DESERIALIZE_H
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index c702021..1325cb5 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -216,6 +216,7 @@ _ccs_parameter_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_parameter(
@@ -226,10 +227,17 @@ _ccs_parameter_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*parameter_ret, format, version, buffer_size,
-		buffer, opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*parameter_ret, format, version,
+			buffer_size, buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*parameter_ret);
+	*parameter_ret = NULL;
+	return res;
 }
 
 #endif //_PARAMETER_DESERIALIZE_H
diff --git a/src/rng_deserialize.h b/src/rng_deserialize.h
index dc73355..3b05b35 100644
--- a/src/rng_deserialize.h
+++ b/src/rng_deserialize.h
@@ -70,6 +70,7 @@ _ccs_rng_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_rng(
@@ -80,10 +81,17 @@ _ccs_rng_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*rng_ret, format, version, buffer_size, buffer,
-		opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*rng_ret, format, version, buffer_size,
+			buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*rng_ret);
+	*rng_ret = NULL;
+	return res;
 }
 
 #endif //_RNG_DESERIALIZE_H
diff --git a/src/tree_configuration_deserialize.h b/src/tree_configuration_deserialize.h
index a46e280..e5bbca9 100644
--- a/src/tree_configuration_deserialize.h
+++ b/src/tree_configuration_deserialize.h
@@ -96,6 +96,7 @@ _ccs_tree_configuration_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_tree_configuration(
@@ -106,10 +107,17 @@ _ccs_tree_configuration_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_ret, format, version, buffer_size,
-		buffer, opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*configuration_ret, format, version,
+			buffer_size, buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*configuration_ret);
+	*configuration_ret = NULL;
+	return res;
 }
 
 #endif //_TREE_CONFIGURATION_DESERIALIZE_H
diff --git a/src/tree_deserialize.h b/src/tree_deserialize.h
index fbed9f0..41fbb82 100644
--- a/src/tree_deserialize.h
+++ b/src/tree_deserialize.h
@@ -124,6 +124,7 @@ _ccs_tree_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_tree(
@@ -134,10 +135,17 @@ _ccs_tree_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tree_ret, format, version, buffer_size, buffer,
-		opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*tree_ret, format, version, buffer_size,
+			buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*tree_ret);
+	*tree_ret = NULL;
+	return res;
 }
 
 #endif //_TREE_DESERIALIZE_H
diff --git a/src/tree_evaluation_deserialize.h b/src/tree_evaluation_deserialize.h
index e8a4da8..91f1feb 100644
--- a/src/tree_evaluation_deserialize.h
+++ b/src/tree_evaluation_deserialize.h
@@ -104,6 +104,7 @@ _ccs_tree_evaluation_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_tree_evaluation(
@@ -114,10 +115,17 @@ _ccs_tree_evaluation_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*evaluation_ret, format, version, buffer_size,
-		buffer, opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*evaluation_ret, format, version,
+			buffer_size, buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*evaluation_ret);
+	*evaluation_ret = NULL;
+	return res;
 }
 
 #endif //_TREE_EVALUATION_DESERIALIZE_H
diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 69e02d3..d292cd3 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -166,6 +166,7 @@ _ccs_tree_space_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_tree_space(
@@ -176,10 +177,17 @@ _ccs_tree_space_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tree_space_ret, format, version, buffer_size,
-		buffer, opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*tree_space_ret, format, version,
+			buffer_size, buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
+	return res;
 }
 
 #endif //_TREE_SPACE_DESERIALIZE_H
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 5126d68..daa4001 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -309,6 +309,7 @@ _ccs_tree_tuner_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_tree_tuner(
@@ -319,10 +320,17 @@ _ccs_tree_tuner_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tuner_ret, format, version, buffer_size, buffer,
-		opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*tuner_ret, format, version, buffer_size,
+			buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
+	return res;
 }
 
 #endif //_TREE_TUNER_DESERIALIZE_H
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 468a24b..fe39d78 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -308,6 +308,7 @@ _ccs_tuner_deserialize(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
+	ccs_result_t res = CCS_RESULT_SUCCESS;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY:
 		CCS_VALIDATE(_ccs_deserialize_bin_tuner(
@@ -318,10 +319,17 @@ _ccs_tuner_deserialize(
 			CCS_RESULT_ERROR_INVALID_VALUE,
 			"Unsupported serialization format: %d", format);
 	}
-	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tuner_ret, format, version, buffer_size, buffer,
-		opts));
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_user_data(
+			(ccs_object_t)*tuner_ret, format, version, buffer_size,
+			buffer, opts),
+		err_user_data);
 	return CCS_RESULT_SUCCESS;
+err_user_data:
+	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
+	return res;
 }
 
 #endif //_TUNER_DESERIALIZE_H
-- 
2.43.0


From daf5222d5fb071c1f03a8486cc5fcff77e0eb3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:56 +0000
Subject: [PATCH 30/43] fix: do not return an object already released when its
 handle is refused

---
 src/distribution_deserialize.h   | 1 +
 src/expression_deserialize.h     | 1 +
 src/features_tuner_deserialize.h | 1 +
 src/parameter_deserialize.h      | 1 +
 src/tree_space_deserialize.h     | 1 +
 src/tree_tuner_deserialize.h     | 1 +
 src/tuner_deserialize.h          | 1 +
 7 files changed, 7 insertions(+)

diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index 98b53b0..fe9d268 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -372,6 +372,7 @@ _ccs_deserialize_bin_distribution(
 	return CCS_RESULT_SUCCESS;
 err_dis:
 	ccs_release_object(*distribution_ret);
+	*distribution_ret = NULL;
 	return res;
 }
 
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index 7555f87..d7669b8 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -236,6 +236,7 @@ _ccs_deserialize_bin_expression(
 	return CCS_RESULT_SUCCESS;
 err_exp:
 	ccs_release_object(*expression_ret);
+	*expression_ret = NULL;
 	return res;
 }
 
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 26217be..c98cb30 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -315,6 +315,7 @@ _ccs_deserialize_bin_features_tuner(
 	goto end;
 err_features_tuner:
 	ccs_release_object(*features_tuner_ret);
+	*features_tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index 1325cb5..72e080c 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -204,6 +204,7 @@ _ccs_deserialize_bin_parameter(
 	return CCS_RESULT_SUCCESS;
 err_parameter:
 	ccs_release_object(*parameter_ret);
+	*parameter_ret = NULL;
 	return res;
 }
 
diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index d292cd3..eff5e8d 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -154,6 +154,7 @@ _ccs_deserialize_bin_tree_space(
 	return CCS_RESULT_SUCCESS;
 err_tree_space:
 	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
 	return res;
 }
 
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index daa4001..d4ba977 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -295,6 +295,7 @@ _ccs_deserialize_bin_tree_tuner(
 	goto end;
 err_tuner:
 	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index fe39d78..31d8b50 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -294,6 +294,7 @@ _ccs_deserialize_bin_tuner(
 	goto end;
 err_tuner:
 	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
-- 
2.43.0


From f4867649c56d7c3ef8ea1c5603dd09718694c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:46 +0000
Subject: [PATCH 31/43] fix: refuse counts larger than the remaining data when
 deserializing

---
 src/configuration_space_deserialize.h | 12 ++++++++++++
 src/context_deserialize.h             |  3 +++
 src/distribution_deserialize.h        |  9 +++++++++
 src/expression_deserialize.h          |  3 +++
 src/features_tuner_deserialize.h      |  6 ++++++
 src/map_deserialize.h                 |  3 +++
 src/objective_space_deserialize.h     |  6 ++++++
 src/parameter_deserialize.h           |  3 +++
 src/tree_configuration_deserialize.h  |  3 +++
 src/tree_deserialize.h                |  3 +++
 src/tree_tuner_deserialize.h          |  6 ++++++
 src/tuner_deserialize.h               |  6 ++++++
 12 files changed, 63 insertions(+)

diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 172c40d..01f9fe2 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -37,12 +37,24 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_parameters, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_parameters > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_conditions, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_conditions > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_distributions, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_distributions > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_forbidden_clauses, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_forbidden_clauses > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	CCS_VALIDATE(_ccs_rng_deserialize(
 		&data->rng, CCS_SERIALIZE_FORMAT_BINARY, version, buffer_size,
 		buffer, opts));
diff --git a/src/context_deserialize.h b/src/context_deserialize.h
index e8fa1c8..8e230fa 100644
--- a/src/context_deserialize.h
+++ b/src/context_deserialize.h
@@ -24,6 +24,9 @@ _ccs_deserialize_bin_ccs_context_data(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_parameters, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_parameters > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	if (data->num_parameters) {
 		data->parameters = (ccs_parameter_t *)calloc(
 			data->num_parameters, sizeof(ccs_parameter_t));
diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index fe9d268..0dfbdb8 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -132,6 +132,9 @@ _ccs_deserialize_bin_ccs_distribution_roulette_data(
 		&data->common_data, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_areas, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_areas > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	data->areas =
 		(ccs_float_t *)malloc(data->num_areas * sizeof(ccs_float_t));
 	CCS_REFUTE(!data->areas, CCS_RESULT_ERROR_OUT_OF_MEMORY);
@@ -200,6 +203,9 @@ _ccs_deserialize_bin_ccs_distribution_mixture_data(
 		&data->common_data, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_distributions, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_distributions > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	data->distributions = (ccs_distribution_t *)calloc(
 		data->num_distributions, sizeof(ccs_distribution_t));
 	CCS_REFUTE(!data->distributions, CCS_RESULT_ERROR_OUT_OF_MEMORY);
@@ -273,6 +279,9 @@ _ccs_deserialize_bin_ccs_distribution_multivariate_data(
 		&data->common_data, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_distributions, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_distributions > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	data->distributions = (ccs_distribution_t *)calloc(
 		data->num_distributions, sizeof(ccs_distribution_t));
 	CCS_REFUTE(!data->distributions, CCS_RESULT_ERROR_OUT_OF_MEMORY);
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index d7669b8..2f17edb 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -40,6 +40,9 @@ _ccs_deserialize_bin_ccs_expression_data(
 		&data->type, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_nodes, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_nodes > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	if (data->num_nodes) {
 		data->nodes = (ccs_datum_t *)calloc(
 			data->num_nodes, sizeof(ccs_datum_t));
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index c98cb30..34a7927 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -54,8 +54,14 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 		&data->common_data, version, buffer_size, buffer, opts));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->size_history, buffer_size, buffer));
+	CCS_REFUTE(
+		data->size_history > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->size_optima, buffer_size, buffer));
+	CCS_REFUTE(
+		data->size_optima > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 
 	if (!(data->size_history + data->size_optima))
 		return CCS_RESULT_SUCCESS;
diff --git a/src/map_deserialize.h b/src/map_deserialize.h
index 6614611..71cd425 100644
--- a/src/map_deserialize.h
+++ b/src/map_deserialize.h
@@ -23,6 +23,9 @@ _ccs_deserialize_bin_ccs_map_data(
 {
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_pairs, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_pairs > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	data->pairs = (_ccs_map_pair_t *)malloc(
 		data->num_pairs * sizeof(_ccs_map_pair_t));
 	CCS_REFUTE(!data->pairs, CCS_RESULT_ERROR_OUT_OF_MEMORY);
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 9118b02..fdc6c27 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -27,8 +27,14 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_parameters, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_parameters > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_objectives, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_objectives > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 
 	if (!(data->num_parameters + data->num_objectives))
 		return CCS_RESULT_SUCCESS;
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index 72e080c..66bf6dc 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -50,6 +50,9 @@ _ccs_deserialize_bin_ccs_parameter_categorical_data(
 		&data->common_data, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->num_possible_values, buffer_size, buffer));
+	CCS_REFUTE(
+		data->num_possible_values > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	data->possible_values = (ccs_datum_t *)malloc(
 		data->num_possible_values * sizeof(ccs_datum_t));
 	CCS_REFUTE(!data->possible_values, CCS_RESULT_ERROR_OUT_OF_MEMORY);
diff --git a/src/tree_configuration_deserialize.h b/src/tree_configuration_deserialize.h
index e5bbca9..67ccbaa 100644
--- a/src/tree_configuration_deserialize.h
+++ b/src/tree_configuration_deserialize.h
@@ -15,6 +15,9 @@ _ccs_deserialize_bin_tree_configuration_data(
 		(ccs_object_t *)&data->tree_space, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->position_size, buffer_size, buffer));
+	CCS_REFUTE(
+		data->position_size > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	if (data->position_size) {
 		data->position =
 			(size_t *)malloc(data->position_size * sizeof(size_t));
diff --git a/src/tree_deserialize.h b/src/tree_deserialize.h
index 41fbb82..c8e302e 100644
--- a/src/tree_deserialize.h
+++ b/src/tree_deserialize.h
@@ -33,6 +33,9 @@ _ccs_deserialize_bin_ccs_tree_data(
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_size(&data->arity, buffer_size, buffer));
+	CCS_REFUTE(
+		data->arity > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_float(
 		&data->weight, buffer_size, buffer));
 	if (data->arity) {
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index d4ba977..c2bc753 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -50,8 +50,14 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 		&data->common_data, version, buffer_size, buffer, opts));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->size_history, buffer_size, buffer));
+	CCS_REFUTE(
+		data->size_history > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->size_optima, buffer_size, buffer));
+	CCS_REFUTE(
+		data->size_optima > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 
 	if (!(data->size_history + data->size_optima))
 		return CCS_RESULT_SUCCESS;
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 31d8b50..b591165 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -49,8 +49,14 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 		&data->common_data, version, buffer_size, buffer, opts));
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->size_history, buffer_size, buffer));
+	CCS_REFUTE(
+		data->size_history > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	CCS_VALIDATE(_ccs_deserialize_bin_size(
 		&data->size_optima, buffer_size, buffer));
+	CCS_REFUTE(
+		data->size_optima > *buffer_size,
+		CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 
 	if (!(data->size_history + data->size_optima))
 		return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 40062c6e9380774e8627f31158b71a556e2dbcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:13 +0000
Subject: [PATCH 32/43] fix: check the dimensions of the distributions of a
 deserialized configuration space

---
 src/configuration_space_deserialize.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 01f9fe2..393bf39 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -101,13 +101,22 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 	}
 
 	size_t *indices;
-	indices = data->distrib_parameter_indices;
+	size_t  remaining = data->num_parameters;
+	indices           = data->distrib_parameter_indices;
 	for (size_t i = 0; i < data->num_distributions; i++) {
+		size_t dimension;
 		CCS_VALIDATE(_ccs_distribution_deserialize(
 			data->distributions + i, CCS_SERIALIZE_FORMAT_BINARY,
 			version, buffer_size, buffer, opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			data->dimensions + i, buffer_size, buffer));
+		CCS_VALIDATE(ccs_distribution_get_dimension(
+			data->distributions[i], &dimension));
+		CCS_REFUTE(
+			data->dimensions[i] != dimension ||
+				dimension > remaining,
+			CCS_RESULT_ERROR_INVALID_VALUE);
+		remaining -= dimension;
 		for (size_t j = 0; j < data->dimensions[i]; j++) {
 			CCS_VALIDATE(_ccs_deserialize_bin_size(
 				indices, buffer_size, buffer));
@@ -164,7 +173,7 @@ _ccs_deserialize_bin_configuration_space(
 		res,
 		ccs_configuration_space_set_rng(
 			*configuration_space_ret, data.rng),
-		end);
+		err_configuration_space);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_configuration_space_add_parameters(
-- 
2.43.0


From 5bbf1e231c015a11cf3a50ef640bdd44aa6e32d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:45 +0000
Subject: [PATCH 33/43] fix: release everything read when a tuner is refused,
 and refuse optima that are not evaluations

---
 src/features_tuner_deserialize.h | 26 ++++++++++++++++----------
 src/tree_tuner_deserialize.h     |  9 ++++++---
 src/tuner_deserialize.h          |  9 ++++++---
 3 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 34a7927..edbff2a 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -90,6 +90,7 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
 		data->optima[i] = (ccs_features_evaluation_t)(d.value.o);
+		CCS_CHECK_OBJ(data->optima[i], CCS_OBJECT_TYPE_FEATURES_EVALUATION);
 	}
 	return CCS_RESULT_SUCCESS;
 }
@@ -131,7 +132,7 @@ _ccs_deserialize_bin_random_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_random_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		features_evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_random_features_tuner(
@@ -142,8 +143,10 @@ _ccs_deserialize_bin_random_features_tuner(
 		features_evaluations);
 	odata = (_ccs_random_features_tuner_data_clone_t
 			 *)((*features_tuner_ret)->data);
-	for (size_t i = 0; i < data.size_history; i++)
+	for (size_t i = 0; i < data.size_history; i++) {
 		utarray_push_back(odata->history, data.history + i);
+		data.history[i] = NULL;
+	}
 	for (size_t i = 0; i < data.size_optima; i++)
 		utarray_push_back(odata->optima, data.optima + i);
 	goto end;
@@ -151,8 +154,10 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 features_evaluations:
-	for (size_t i = 0; i < data.size_history; i++)
-		ccs_release_object(data.history[i]);
+	if (data.history)
+		for (size_t i = 0; i < data.size_history; i++)
+			if (data.history[i])
+				ccs_release_object(data.history[i]);
 end:
 	if (data.common_data.configuration_space)
 		ccs_release_object(data.common_data.configuration_space);
@@ -211,7 +216,7 @@ _ccs_deserialize_bin_user_defined_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_user_defined_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_user_defined_features_tuner(
@@ -245,9 +250,10 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 evaluations:
-	for (size_t i = 0; i < data.base_data.size_history; i++)
-		ccs_release_object(data.base_data.history[i]);
-end:
+	if (data.base_data.history)
+		for (size_t i = 0; i < data.base_data.size_history; i++)
+			if (data.base_data.history[i])
+				ccs_release_object(data.base_data.history[i]);
 	if (data.base_data.common_data.configuration_space)
 		ccs_release_object(
 			data.base_data.common_data.configuration_space);
@@ -305,8 +311,8 @@ _ccs_deserialize_bin_features_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_UNSUPPORTED_OPERATION,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, end,
 			"Unsuported features tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index c2bc753..3cc8242 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -86,6 +86,7 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
 		data->optima[i] = (ccs_tree_evaluation_t)(d.value.o);
+		CCS_CHECK_OBJ(data->optima[i], CCS_OBJECT_TYPE_TREE_EVALUATION);
 	}
 	return CCS_RESULT_SUCCESS;
 }
@@ -131,8 +132,10 @@ _ccs_deserialize_bin_random_tree_tuner(
 			data.common_data.objective_space, tuner_ret),
 		evaluations);
 	odata = (_ccs_random_tree_tuner_data_clone_t *)((*tuner_ret)->data);
-	for (size_t i = 0; i < data.size_history; i++)
+	for (size_t i = 0; i < data.size_history; i++) {
 		utarray_push_back(odata->history, data.history + i);
+		data.history[i] = NULL;
+	}
 	for (size_t i = 0; i < data.size_optima; i++)
 		utarray_push_back(odata->optima, data.optima + i);
 	goto end;
@@ -285,8 +288,8 @@ _ccs_deserialize_bin_tree_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_TYPE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_TYPE, end,
 			"Unsupported tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index b591165..94cd73f 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -85,6 +85,7 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
 		data->optima[i] = (ccs_evaluation_t)(d.value.o);
+		CCS_CHECK_OBJ(data->optima[i], CCS_OBJECT_TYPE_EVALUATION);
 	}
 	return CCS_RESULT_SUCCESS;
 }
@@ -130,8 +131,10 @@ _ccs_deserialize_bin_random_tuner(
 			data.common_data.objective_space, tuner_ret),
 		evaluations);
 	odata = (_ccs_random_tuner_data_clone_t *)((*tuner_ret)->data);
-	for (size_t i = 0; i < data.size_history; i++)
+	for (size_t i = 0; i < data.size_history; i++) {
 		utarray_push_back(odata->history, data.history + i);
+		data.history[i] = NULL;
+	}
 	for (size_t i = 0; i < data.size_optima; i++)
 		utarray_push_back(odata->optima, data.optima + i);
 	goto end;
@@ -284,8 +287,8 @@ _ccs_deserialize_bin_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_TYPE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_TYPE, end,
 			"Unsupported tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
-- 
2.43.0


From 0b5be15611276116a51782a68300fff5cc51d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:58 +0000
Subject: [PATCH 34/43] fix: read back the state of a dynamic tree space

---
 src/tree_space_deserialize.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index eff5e8d..233a735 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -82,6 +82,10 @@ _ccs_deserialize_bin_tree_space_dynamic(
 		_ccs_deserialize_bin_ccs_tree_space_common_data(
 			&data.common_data, version, buffer_size, buffer, opts),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_deserialize_bin_ccs_blob(&data.blob, buffer_size, buffer),
+		end);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_dynamic_tree_space(
-- 
2.43.0


From 775454c7185e8e9928b5cdc6bd7d1d22d4f8ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:43 +0000
Subject: [PATCH 35/43] fix: random tuners keep their optima when an evaluation
 cannot be compared or memory runs out

An optimum was dropped when comparing it with the new evaluation failed, and
after a failed allocation both optima arrays were the same array, freed twice.
---
 src/features_tuner_random.c | 11 ++++++++---
 src/tree_tuner_random.c     | 11 ++++++++---
 src/tuner_random.c          | 11 ++++++++---
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index ef3d602..e1fb072 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -211,7 +211,9 @@ _ccs_features_tuner_random_tell(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		d->optima = d->old_optima;                                     \
+		tmp           = d->optima;                                     \
+		d->optima     = d->old_optima;                                 \
+		d->old_optima = tmp;                                           \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate new array");            \
@@ -222,9 +224,12 @@ _ccs_features_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_features_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima,
+							eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index ed39c99..879b94b 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -203,7 +203,9 @@ _ccs_tree_tuner_random_tell(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		d->optima = d->old_optima;                                     \
+		tmp           = d->optima;                                     \
+		d->optima     = d->old_optima;                                 \
+		d->old_optima = tmp;                                           \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
@@ -214,9 +216,12 @@ _ccs_tree_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_tree_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima,
+							eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
diff --git a/src/tuner_random.c b/src/tuner_random.c
index e9c072f..e883c1e 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -202,7 +202,9 @@ _ccs_tuner_random_tell(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		d->optima = d->old_optima;                                     \
+		tmp           = d->optima;                                     \
+		d->optima     = d->old_optima;                                 \
+		d->old_optima = tmp;                                           \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
@@ -213,9 +215,12 @@ _ccs_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima,
+							eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
-- 
2.43.0


From f70ffa21c711c5f400981872b89ff851e27e9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:43 +0000
Subject: [PATCH 36/43] fix: arrays keep their capacity when they cannot grow

The capacity was raised before the reallocation, so that after a failed one the
next addition wrote past the end of the block.
---
 src/utarray.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utarray.h b/src/utarray.h
index 1fe8bc1..347f9e3 100644
--- a/src/utarray.h
+++ b/src/utarray.h
@@ -92,12 +92,14 @@ typedef struct {
 #define utarray_reserve(a,by) do {                                            \
   if (((a)->i+(by)) > (a)->n) {                                               \
     char *utarray_tmp;                                                        \
-    while (((a)->i+(by)) > (a)->n) { (a)->n = ((a)->n ? (2*(a)->n) : 8); }    \
-    utarray_tmp=(char*)realloc((a)->d, (a)->n*(a)->icd.sz);                   \
+    unsigned utarray_n = (a)->n;                                              \
+    while (((a)->i+(by)) > utarray_n) { utarray_n = (utarray_n ? (2*utarray_n) : 8); } \
+    utarray_tmp=(char*)realloc((a)->d, utarray_n*(a)->icd.sz);                \
     if (utarray_tmp == NULL) {                                                \
       utarray_oom();                                                          \
     }                                                                         \
     (a)->d=utarray_tmp;                                                       \
+    (a)->n=utarray_n;                                                         \
   }                                                                           \
 } while(0)
 
-- 
2.43.0


From 0fb402ad4a8d11607ea49b05d926dd262acf48ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:43 +0000
Subject: [PATCH 37/43] fix: default configurations after a refused condition
 honour the other conditions

---
 src/configuration_space.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 729cf21..82f7935 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -866,6 +866,8 @@ ccs_configuration_space_get_default_configuration(
 	CCS_CHECK_PTR(configuration_ret);
 	ccs_result_t        err;
 	ccs_configuration_t config;
+	if (!configuration_space->data->graph_ok)
+		CCS_VALIDATE(_generate_constraints(configuration_space));
 	CCS_VALIDATE(ccs_create_configuration(
 		configuration_space, 0, NULL, &config));
 	UT_array *array = configuration_space->data->parameters;
-- 
2.43.0


From e73d7c0d19dec3fed9b5a499821191acd9f132e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:43 +0000
Subject: [PATCH 38/43] fix: configuration not leaked when sampling is
 unsuccessful

---
 src/configuration_space.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 82f7935..a307f0c 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -1114,12 +1114,13 @@ ccs_configuration_space_samples(
 			config                  = NULL;
 		}
 	}
-	CCS_REFUTE(
-		count < num_configurations,
-		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+	CCS_REFUTE_ERR_GOTO(
+		err, count < num_configurations,
+		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errc);
 	return CCS_RESULT_SUCCESS;
 errc:
-	ccs_release_object(config);
+	if (config)
+		ccs_release_object(config);
 	return err;
 }
 
-- 
2.43.0


From c6a9702213e44a5f9c8b801d8f9cb3671ceb8c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:43 +0000
Subject: [PATCH 39/43] fix: ccs_features_space_check_features_values takes a
 features space

It required a configuration space, refusing every features space and reading a
configuration space as one.
---
 src/features_space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features_space.c b/src/features_space.c
index 7bec62d..fa906d8 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -366,7 +366,7 @@ ccs_features_space_check_features_values(
 	ccs_datum_t         *values,
 	ccs_bool_t          *is_valid_ret)
 {
-	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
+	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_ARY(num_values, values);
 	CCS_VALIDATE(_check_features(
 		features_space, num_values, values, is_valid_ret));
-- 
2.43.0


From e94785c183d3d35237ae430c6aebb30a3464f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:21 +0000
Subject: [PATCH 40/43] fix: a parameter that cannot be added for lack of
 memory leaves its space as it was

Depending on the allocation that failed, garbage pointers were freed, or the
parameter list, the evaluation order or the name table kept freed elements.
---
 src/configuration_space.c | 16 ++++++++++++++--
 src/features_space.c      | 10 ++++++++++
 src/objective_space.c     | 10 ++++++++++
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index a307f0c..2cb00f5 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -461,6 +461,8 @@ ccs_configuration_space_add_parameter(
 	_ccs_distribution_wrapper_t *distrib_wrapper;
 	uintptr_t                    pmem;
 	parameter_wrapper.parameter = parameter;
+	parameter_wrapper.parents   = NULL;
+	parameter_wrapper.children  = NULL;
 	CCS_VALIDATE(ccs_retain_object(parameter));
 
 	if (distribution) {
@@ -507,17 +509,23 @@ ccs_configuration_space_add_parameter(
 	parameter_wrapper.distribution_index  = 0;
 	parameter_wrapper.distribution        = distrib_wrapper;
 	parameter_wrapper.condition           = NULL;
-	parameter_wrapper.parents             = NULL;
-	parameter_wrapper.children            = NULL;
 	utarray_new(parameter_wrapper.parents, &_size_t_icd);
 	utarray_new(parameter_wrapper.children, &_size_t_icd);
 
+	utarray_reserve(configuration_space->data->sorted_indexes, 1);
 	utarray_push_back(parameters, &parameter_wrapper);
 	utarray_push_back(configuration_space->data->sorted_indexes, &index);
 
 	HASH_ADD_KEYPTR(
 		hh_name, configuration_space->data->name_hash,
 		parameter_hash->name, sz_name, parameter_hash);
+#undef uthash_nonfatal_oom
+#define uthash_nonfatal_oom(elt)                                               \
+	{                                                                      \
+		CCS_RAISE_ERR_GOTO(                                            \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorname,        \
+			"Out of memory to allocate hash");                     \
+	}
 	HASH_ADD(
 		hh_handle, configuration_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
@@ -525,7 +533,11 @@ ccs_configuration_space_add_parameter(
 		configuration_space->data->distribution_list, distrib_wrapper);
 
 	return CCS_RESULT_SUCCESS;
+errorname:
+	HASH_DELETE(
+		hh_name, configuration_space->data->name_hash, parameter_hash);
 errorutarray:
+	utarray_pop_back(configuration_space->data->sorted_indexes);
 	utarray_pop_back(parameters);
 errordistrib_wrapper:
 	if (parameter_hash)
diff --git a/src/features_space.c b/src/features_space.c
index fa906d8..0ac6b9d 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -187,11 +187,21 @@ ccs_features_space_add_parameter(
 	HASH_ADD_KEYPTR(
 		hh_name, features_space->data->name_hash, parameter_hash->name,
 		sz_name, parameter_hash);
+#undef uthash_nonfatal_oom
+#define uthash_nonfatal_oom(elt)                                               \
+	{                                                                      \
+		CCS_RAISE_ERR_GOTO(                                            \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorname,        \
+			"Not enough memory to allocate hash");                 \
+	}
 	HASH_ADD(
 		hh_handle, features_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
 
 	return CCS_RESULT_SUCCESS;
+errorname:
+	HASH_DELETE(
+		hh_name, features_space->data->name_hash, parameter_hash);
 errorutarray:
 	utarray_pop_back(parameters);
 errormem:
diff --git a/src/objective_space.c b/src/objective_space.c
index 1839076..617f75d 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -315,11 +315,21 @@ ccs_objective_space_add_parameter(
 	HASH_ADD_KEYPTR(
 		hh_name, objective_space->data->name_hash, parameter_hash->name,
 		sz_name, parameter_hash);
+#undef uthash_nonfatal_oom
+#define uthash_nonfatal_oom(elt)                                               \
+	{                                                                      \
+		CCS_RAISE_ERR_GOTO(                                            \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorname,        \
+			"Not enough memory to allocate hash");                 \
+	}
 	HASH_ADD(
 		hh_handle, objective_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
 
 	return CCS_RESULT_SUCCESS;
+errorname:
+	HASH_DELETE(
+		hh_name, objective_space->data->name_hash, parameter_hash);
 errorutarray:
 	utarray_pop_back(parameters);
 errormem:
-- 
2.43.0


From e7c452ff64ba4b73f9df1e2f05500e8b0c485e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:21 +0000
Subject: [PATCH 41/43] fix: distributions and clauses not leaked when memory
 runs out

---
 src/configuration_space.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 2cb00f5..489b8f0 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -652,7 +652,7 @@ ccs_configuration_space_set_distribution(
 		dmem = (uintptr_t)malloc(
 			sizeof(_ccs_distribution_wrapper_t) + sizeof(size_t));
 		CCS_REFUTE_ERR_GOTO(
-			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
+			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, dwrappers);
 		dwrapper = (_ccs_distribution_wrapper_t *)dmem;
 		dwrapper->parameter_indexes =
 			(size_t *)(dmem + sizeof(_ccs_distribution_wrapper_t));
@@ -1400,6 +1400,7 @@ ccs_configuration_space_get_conditions(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
+		ccs_release_object(expression);                                \
 		CCS_RAISE_ERR_GOTO(                                            \
 			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, end,              \
 			"Out of memory to allocate array");                    \
-- 
2.43.0


From 0abe480d5e278c0e55b51b5e6ed7ce20f7d684f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:36 +0000
Subject: [PATCH 42/43] fix: a null validity result is refused as documented

---
 src/configuration_space.c | 2 ++
 src/features_space.c      | 2 ++
 src/objective_space.c     | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 489b8f0..0a5284d 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -981,6 +981,7 @@ ccs_configuration_space_check_configuration(
 {
 	CCS_CHECK_OBJ(configuration_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
 	CCS_CHECK_OBJ(configuration, CCS_OBJECT_TYPE_CONFIGURATION);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_REFUTE(
 		configuration->data->configuration_space != configuration_space,
 		CCS_RESULT_ERROR_INVALID_CONFIGURATION);
@@ -1001,6 +1002,7 @@ ccs_configuration_space_check_configuration_values(
 {
 	CCS_CHECK_OBJ(configuration_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
 	CCS_CHECK_ARY(num_values, values);
+	CCS_CHECK_PTR(is_valid_ret);
 	if (!configuration_space->data->graph_ok)
 		CCS_VALIDATE(_generate_constraints(configuration_space));
 	CCS_VALIDATE(_check_configuration(
diff --git a/src/features_space.c b/src/features_space.c
index 0ac6b9d..e556f69 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -360,6 +360,7 @@ ccs_features_space_check_features(
 {
 	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_OBJ(features, CCS_OBJECT_TYPE_FEATURES);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_REFUTE(
 		features->data->features_space != features_space,
 		CCS_RESULT_ERROR_INVALID_FEATURES);
@@ -378,6 +379,7 @@ ccs_features_space_check_features_values(
 {
 	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_ARY(num_values, values);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_VALIDATE(_check_features(
 		features_space, num_values, values, is_valid_ret));
 	return CCS_RESULT_SUCCESS;
diff --git a/src/objective_space.c b/src/objective_space.c
index 617f75d..c0272ae 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -476,6 +476,7 @@ ccs_objective_space_check_evaluation_values(
 {
 	CCS_CHECK_OBJ(objective_space, CCS_OBJECT_TYPE_OBJECTIVE_SPACE);
 	CCS_CHECK_ARY(num_values, values);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_VALIDATE(_check_evaluation(
 		objective_space, num_values, values, is_valid_ret));
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 6f6a5bc3117d1aacedebf8f2d498625d0134ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:59 +0000
Subject: [PATCH 43/43] fix: release the expression when an objective cannot be
 stored

---
 src/objective_space.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/objective_space.c b/src/objective_space.c
index c0272ae..1fb8e0b 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -498,6 +498,7 @@ ccs_objective_space_validate_value(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
+		ccs_release_object(objective.expression);                      \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
-- 
2.43.0

