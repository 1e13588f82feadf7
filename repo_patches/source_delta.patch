From e0e5934dee02aab62aa8f8c40a5ac2682054dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 01/70] fix: number of elements of an empty tree collection is
 zero

Deleting from a tree that never had an element (or failing to add the first
one) calculated the number of elements as 0 - 1.
---
 src/mr_ic.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 4478663..564ad7d 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -846,11 +846,18 @@ mr_ic_static_array_new (mr_ic_t * ic, mr_hash_fn_t hash_fn, mr_compar_fn_t compa
 
 /* ----------------------- MR_IC_RBTREE ----------------------- */
 
+static void
+mr_ic_tree_update_items_count (mr_ic_t * ic)
+{
+  unsigned count = ic->tree.size / sizeof (ic->tree.pool[0]);
+  ic->items_count = (count > 0) ? count - 1 : 0; /* pool might not have a root node yet */
+}
+
 mr_ptr_t *
 mr_ic_rbtree_add (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_ptr_t * add = mr_rbtree_add (key, &ic->rb, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
+  mr_ic_tree_update_items_count (ic);
   return (add);
 }
 
@@ -858,7 +865,7 @@ mr_status_t
 mr_ic_rbtree_del (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_status_t status = mr_rbtree_del (key, &ic->rb, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
+  mr_ic_tree_update_items_count (ic);
   return (status);
 }
 
@@ -964,7 +971,7 @@ mr_ptr_t *
 mr_ic_avltree_add (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_ptr_t * add = mr_avltree_add (key, &ic->avl, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
+  mr_ic_tree_update_items_count (ic);
   return (add);
 }
 
@@ -972,7 +979,7 @@ mr_status_t
 mr_ic_avltree_del (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_status_t status = mr_avltree_del (key, &ic->avl, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
+  mr_ic_tree_update_items_count (ic);
   return (status);
 }
 
-- 
2.43.0


From e298084a6458413fc118769826993ac014f2433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 02/70] fix: indexing an empty array empties the tree
 collection

Number of elements was left from the previous content, and a failure to
reserve memory was ignored.
---
 src/mr_ic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 564ad7d..a0e2a36 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -908,7 +908,10 @@ mr_ic_tree_index (mr_ic_t * ic, mr_ptr_t * rarray, size_t size)
 {
   /* Add elements into the tree in the natuaral order. In case of equal elements only first will be added. */
   int i, count = size / sizeof (rarray[0]);
-  mr_tree_reserve (&ic->tree, count, true);
+  mr_status_t status = mr_tree_reserve (&ic->tree, count, true);
+  mr_ic_tree_update_items_count (ic);
+  if (MR_SUCCESS != status)
+    return (status);
   for (i = 0; i < count; ++i)
     if (NULL == mr_ic_add (ic, rarray[i]))
       return (MR_FAILURE);
-- 
2.43.0


From 3657cfbbcc7e1c156abfa501c1e05ff9b8414658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 03/70] fix: indexing into a hash table deduplicates the zero
 key

A zero key was counted once per occurrence, and a non-zero key equal to the
stored zero key was added next to it.
---
 src/mr_ic.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index a0e2a36..e2ff780 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -454,6 +454,9 @@ mr_ic_hash_index_add (mr_ic_t * ic, mr_ptr_t key)
       
       if (0 == key.intptr)
 	{
+	  mr_ptr_t * find = mr_ic_hash_find (ic, key);
+	  if (find != NULL)
+	    return (find);
 	  ++ic->items_count;
 	  ic->hash.zero_key = true;
 	  ic->hash.hash_table[count].intptr = 0;
@@ -466,6 +469,8 @@ mr_ic_hash_index_add (mr_ic_t * ic, mr_ptr_t key)
 	{
 	  if (0 == ic->hash.hash_table[i].intptr)
 	    {
+	      if (ic->hash.zero_key && (0 == ic->compar_fn (key, ic->hash.hash_table[count], ic->context.data.ptr)))
+		return (&ic->hash.hash_table[count]);
 	      ++ic->items_count;
 	      ic->hash.hash_table[i] = key;
 	      return (&ic->hash.hash_table[i]);
-- 
2.43.0


From 46e548e0f3b4ed068ae8c6e0298c73b7e002a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 04/70] fix: print enough digits to identify any float or long
 double value

---
 src/mr_stringify.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mr_stringify.c b/src/mr_stringify.c
index dbd0ac2..edb11b9 100644
--- a/src/mr_stringify.c
+++ b/src/mr_stringify.c
@@ -40,6 +40,16 @@ int mr_ra_printf_bool_default (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
   int mr_ra_printf_ ## TYPE ## _default (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)	\
   { return (mr_ra_printf (mr_ra_str, TMPLT, *(TYPE *)ptrdes->data.ptr)); }
 
+/* number of digits that identifies any value uniquely: one more than MR_*_DIG for some types */
+#ifdef __FLT_DECIMAL_DIG__
+#undef MR_FLT_DIG
+#define MR_FLT_DIG __FLT_DECIMAL_DIG__
+#endif /* __FLT_DECIMAL_DIG__ */
+#ifdef __LDBL_DECIMAL_DIG__
+#undef MR_LDBL_DIG
+#define MR_LDBL_DIG __LDBL_DECIMAL_DIG__
+#endif /* __LDBL_DECIMAL_DIG__ */
+
 MR_RA_PRINTF_TMPLT (float, "%." MR_STRINGIFY_READONLY (MR_FLT_DIG) "g");
 MR_RA_PRINTF_TMPLT (double, "%." MR_STRINGIFY_READONLY (MR_DBL_DIG) "g");
 MR_RA_PRINTF_TMPLT (long_double_t, "%." MR_STRINGIFY_READONLY (MR_LDBL_DIG) "Lg");
-- 
2.43.0


From df9da3dde117a43e512def47d707d667379d49df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 05/70] fix: keep the sign of a negative zero in text formats

---
 src/mr_stringify.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mr_stringify.c b/src/mr_stringify.c
index edb11b9..a6e4962 100644
--- a/src/mr_stringify.c
+++ b/src/mr_stringify.c
@@ -50,9 +50,18 @@ int mr_ra_printf_bool_default (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
 #define MR_LDBL_DIG __LDBL_DECIMAL_DIG__
 #endif /* __LDBL_DECIMAL_DIG__ */
 
-MR_RA_PRINTF_TMPLT (float, "%." MR_STRINGIFY_READONLY (MR_FLT_DIG) "g");
-MR_RA_PRINTF_TMPLT (double, "%." MR_STRINGIFY_READONLY (MR_DBL_DIG) "g");
-MR_RA_PRINTF_TMPLT (long_double_t, "%." MR_STRINGIFY_READONLY (MR_LDBL_DIG) "Lg");
+#define MR_RA_PRINTF_FLOAT_TMPLT(TYPE, TMPLT)				\
+  int mr_ra_printf_ ## TYPE ## _default (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)	\
+  {									\
+    TYPE value = *(TYPE *)ptrdes->data.ptr;				\
+    if ((0 == value) && __builtin_signbit (value))			\
+      return (mr_ra_append_string (mr_ra_str, "-0.0")); /* -0 would be read as integer */ \
+    return (mr_ra_printf (mr_ra_str, TMPLT, value));			\
+  }
+
+MR_RA_PRINTF_FLOAT_TMPLT (float, "%." MR_STRINGIFY_READONLY (MR_FLT_DIG) "g");
+MR_RA_PRINTF_FLOAT_TMPLT (double, "%." MR_STRINGIFY_READONLY (MR_DBL_DIG) "g");
+MR_RA_PRINTF_FLOAT_TMPLT (long_double_t, "%." MR_STRINGIFY_READONLY (MR_LDBL_DIG) "Lg");
 
 MR_RA_PRINTF_TMPLT (int8_t, "%" SCNi8);
 MR_RA_PRINTF_TMPLT (uint8_t, "%" SCNu8);
-- 
2.43.0


From 68c60e02cf934ccaaf7dc3df72dde891338001b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 06/70] fix: keep the signs of zero parts of complex numbers in
 text formats

---
 src/mr_stringify.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mr_stringify.c b/src/mr_stringify.c
index a6e4962..67cfcfe 100644
--- a/src/mr_stringify.c
+++ b/src/mr_stringify.c
@@ -117,21 +117,23 @@ int mr_ra_printf_uint128_t_default (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrde
     TYPE imag = __imag__ *(complex TYPE *)ptrdes->data.ptr;		\
     if (__builtin_isnan (real) || __builtin_isnan (imag))		\
       return (TRY_CATCH_THROW (mr_ra_append_string (mr_ra_str, "NAN"))); \
-    if (real != 0)							\
+    bool has_real = (real != 0) || __builtin_signbit (real);		\
+    bool has_imag = (imag != 0) || __builtin_signbit (imag);		\
+    if (has_real)							\
       {									\
 	_ptrdes.data.ptr = &real;					\
 	count += TRY_CATCH_THROW (mr_ra_printf_ ## SUFFIX (mr_ra_str, &_ptrdes)); \
-	if (imag != 0)							\
+	if (has_imag)							\
 	  count += TRY_CATCH_THROW (mr_ra_append_string (mr_ra_str, delimiter)); \
       }									\
-    if (imag != 0)							\
+    if (has_imag)							\
       {									\
 	_ptrdes.data.ptr = &imag;					\
 	if (imag != 1)							\
 	  count += TRY_CATCH_THROW (mr_ra_printf_ ## SUFFIX (mr_ra_str, &_ptrdes)); \
 	count += TRY_CATCH_THROW (mr_ra_append_char (mr_ra_str, 'I'));	\
       }									\
-    if ((real == 0) && (imag == 0))					\
+    if (!has_real && !has_imag)						\
       count += TRY_CATCH_THROW (mr_ra_append_char (mr_ra_str, '0'));	\
     return (count);							\
   }
-- 
2.43.0


From 4ccd59c35dce31f01bd53da4f2dce0dcaa9d5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 07/70] fix: read imaginary infinity in C-initializer input

---
 src/cinit_load.l | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cinit_load.l b/src/cinit_load.l
index 22a5858..774d731 100644
--- a/src/cinit_load.l
+++ b/src/cinit_load.l
@@ -51,7 +51,7 @@ NUMBER {INT_NUMBER}|{HEX_NUMBER}|{OCT_NUMBER}
 FLOAT_NAN [+-]?[Nn][Aa][Nn]
 FLOAT_INF [+-]?[Ii][Nn][Ff]
 FLOAT_NUMBER {FLOAT_NAN}|{FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?
-IMAGENARY_NUMBER {INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?[Ii]
+IMAGENARY_NUMBER ({FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?)[Ii]
 %%
 
 {WS}  { /* eat up whitespace */ }
@@ -69,7 +69,8 @@ IMAGENARY_NUMBER {INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?[Ii]
 
 {IMAGENARY_NUMBER} {
   yylval->value.value_type = MR_VT_COMPLEX;
-  yylval->value.vt_complex = I * strtold (yytext, NULL);
+  yylval->value.vt_complex = 0;
+  __imag__ yylval->value.vt_complex = strtold (yytext, NULL); /* I * inf has a real part of NaN */
   return (TOK_CINIT_NUMBER);
 }
 
-- 
2.43.0


From 77a066e75c2d62408d72910c3f3a144819d99849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 08/70] fix: do not garble UTF-8 text passed between the XML
 writers and readers

---
 src/xml_save.c | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index 0018660..5faea18 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -140,12 +140,45 @@ xml_ra_printf_char (mr_rarray_t * mr_ra_str, mr_ptrdes_t * ptrdes)
   return (xml_ra_printf_quote_char (mr_ra_str, *ptrdes->data.string));
 }
 
+/**
+ * Length of the UTF-8 encoding of a character that does not need a quotation in XML.
+ * @param str string to check
+ * @return length of a multi-byte sequence at the beginning of the string, zero if there is none
+ */
+static int
+xml_utf8_length (char * str)
+{
+  static const uint32_t min_code[] = { [2] = 0x80, [3] = 0x800, [4] = 0x10000 };
+  unsigned char first = *str;
+  int i, length = (first >= 0xF0) ? 4 : (first >= 0xE0) ? 3 : 2;
+  uint32_t code = first & (0x7F >> length);
+
+  if ((first < 0xC0) || (first > 0xF7))
+    return (0);
+  for (i = 1; i < length; ++i)
+    {
+      if ((str[i] & 0xC0) != 0x80)
+	return (0);
+      code = (code << 6) | (str[i] & 0x3F);
+    }
+  if ((code < min_code[length]) || (code > 0x10FFFF) ||
+      ((code >= 0xD800) && (code <= 0xDFFF)) || (code == 0xFFFE) || (code == 0xFFFF))
+    return (0);
+  return (length);
+}
+
 static int
 xml_ra_printf_quote_string (mr_rarray_t * mr_ra_str, char * str)
 {
   int count = 0;
   while (*str)
-    count += TRY_CATCH_THROW (xml_ra_printf_quote_char (mr_ra_str, *str++));
+    {
+      /* character reference is a code point, so multi-byte characters can't be quoted byte by byte */
+      int length = xml_utf8_length (str);
+      do
+	count += TRY_CATCH_THROW (length ? mr_ra_append_char (mr_ra_str, *str) : xml_ra_printf_quote_char (mr_ra_str, *str));
+      while (++str, --length > 0);
+    }
   return (count);
 }
 
@@ -468,6 +501,7 @@ mr_xml2_save (mr_ra_ptrdes_t * ptrs)
     MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_XML_SAVE_FAILED);
   else
     {
+      doc->encoding = xmlStrdup (BAD_CAST "UTF-8"); /* strings are dumped as is */
       ptrs->ptrdes_type = MR_PD_CUSTOM;
       ptrs->res.data.ptr = doc;
       ptrs->res.type = NULL;
-- 
2.43.0


From 1c32fb23fe21ed4937066bd64a4dceb2d10fdbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 09/70] fix: rank all complex numbers with a NaN part as one
 class so that comparison is transitive

---
 src/mr_extra.c | 43 +++++++++++++------------------------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index a1b5256..f905ed6 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -439,36 +439,19 @@ mr_cmp_structs (mr_ra_ptrdes_t * x, mr_ra_ptrdes_t * y)
 	    {								\
 	      TYPE _x = *(TYPE*)x_i->data.ptr;				\
 	      TYPE _y = *(TYPE*)y_i->data.ptr;				\
-	      bool rx_isnan = __builtin_isnan (__real__ _x);		\
-	      bool ix_isnan = __builtin_isnan (__imag__ _x);		\
-	      bool ry_isnan = __builtin_isnan (__real__ _y);		\
-	      bool iy_isnan = __builtin_isnan (__imag__ _y);		\
-	      if (((rx_isnan || ix_isnan)) && ((ry_isnan || iy_isnan)))	\
-		continue;						\
-	      if (!rx_isnan && !ry_isnan)				\
-		{							\
-		  diff = (__real__ _x > __real__ _y) - (__real__ _x < __real__ _y); \
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      else							\
-		{							\
-		  diff = !rx_isnan - !ry_isnan;				\
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      if (!ix_isnan && !iy_isnan)				\
-		{							\
-		  diff = (__imag__ _x > __imag__ _y) - (__imag__ _x < __imag__ _y); \
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      else							\
-		{							\
-		  diff = !ix_isnan - !iy_isnan;				\
-		  if (diff)						\
-		    return (diff);					\
-		}							\
+	      bool x_isnan = __builtin_isnan (__real__ _x) || __builtin_isnan (__imag__ _x); \
+	      bool y_isnan = __builtin_isnan (__real__ _y) || __builtin_isnan (__imag__ _y); \
+	      diff = !x_isnan - !y_isnan;				\
+	      if (diff)							\
+		return (diff);						\
+	      if (x_isnan)						\
+		break;							\
+	      diff = (__real__ _x > __real__ _y) - (__real__ _x < __real__ _y); \
+	      if (diff)							\
+		return (diff);						\
+	      diff = (__imag__ _x > __imag__ _y) - (__imag__ _x < __imag__ _y); \
+	      if (diff)							\
+		return (diff);						\
 	    }								\
 	    break;
 
-- 
2.43.0


From 7eb5a60ac3c22127aa8591bd25bcb2a256a7f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 10/70] fix: equal hash for negative and positive zero

---
 src/mr_extra.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index f905ed6..a8929ca 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -255,14 +255,29 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
 	  mr_hash_block (ptrdes->data.ptr, sizeof (TYPE));	\
 	break;
 
+/* -0.0 is equal to 0.0, so hash must be the same */
+#define MR_FLOAT_HASH(VALUE, SIZE) ({					\
+      typeof (VALUE) _value = (VALUE);					\
+      if (0 == _value)							\
+	_value = 0;							\
+      __builtin_isnan (_value) ? (mr_hash_value_t)-1 : mr_hash_block (&_value, SIZE); \
+    })
+
 #define CASE_MR_FLOAT_TYPE_HASH(TYPE)					\
       case MR_TYPE_DETECT (TYPE):					\
-	ptrdes->res.data.uintptr = __builtin_isnan (*(TYPE*)ptrdes->data.ptr) ? -1 : mr_hash_block (ptrdes->data.ptr, sizeof (TYPE)); \
+	ptrdes->res.data.uintptr = MR_FLOAT_HASH (*(TYPE*)ptrdes->data.ptr, sizeof (TYPE)); \
 	break;
 
 #define CASE_MR_COMPLEX_FLOAT_TYPE_HASH(TYPE)				\
       case MR_TYPE_DETECT (TYPE):					\
-	ptrdes->res.data.uintptr = (__builtin_isnan (__real__ *(TYPE*)ptrdes->data.ptr) || __builtin_isnan (__imag__ *(TYPE*)ptrdes->data.ptr)) ? -1 : mr_hash_block (ptrdes->data.ptr, sizeof (TYPE)); \
+	{								\
+	  TYPE value = *(TYPE*)ptrdes->data.ptr;			\
+	  if (0 == __real__ value)					\
+	    __real__ value = 0;						\
+	  if (0 == __imag__ value)					\
+	    __imag__ value = 0;						\
+	  ptrdes->res.data.uintptr = (__builtin_isnan (__real__ value) || __builtin_isnan (__imag__ value)) ? -1 : mr_hash_block (&value, sizeof (TYPE)); \
+	}								\
 	break;
 
       MR_FOREACH (CASE_MR_TYPE_HASH, char, uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t, uint64_t, int64_t, mr_uint128_t, mr_int128_t);
@@ -275,11 +290,11 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
 
     case MR_TYPE_COMPLEX_LONG_DOUBLE:
       {
-	long double * real = &__real__ *(complex long double *)ptrdes->data.ptr;
-	long double * imag = &__imag__ *(complex long double *)ptrdes->data.ptr;
+	long_double_t real = __real__ *(complex long double *)ptrdes->data.ptr;
+	long_double_t imag = __imag__ *(complex long double *)ptrdes->data.ptr;
 	ptrdes->res.data.uintptr =
-	  (__builtin_isnan (*real) || __builtin_isnan (*imag)) ? -1 :
-	  mr_hash_block (real, MR_SIZEOF_LONG_DOUBLE) + mr_hash_block (imag, MR_SIZEOF_LONG_DOUBLE);
+	  (__builtin_isnan (real) || __builtin_isnan (imag)) ? -1 :
+	  MR_FLOAT_HASH (real, MR_SIZEOF_LONG_DOUBLE) + MR_FLOAT_HASH (imag, MR_SIZEOF_LONG_DOUBLE);
       }
       break;
 	  
-- 
2.43.0


From 45d5322f5bef21641555978da7353e860791f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 11/70] fix: read members with names like i, inf, true, t or
 nil in C-initializer and Scheme input

---
 src/cinit_load.l |  2 ++
 src/cinit_load.y | 11 +++++++----
 src/scm_load.l   |  1 +
 src/scm_load.y   |  7 +++++--
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/cinit_load.l b/src/cinit_load.l
index 774d731..87bc48c 100644
--- a/src/cinit_load.l
+++ b/src/cinit_load.l
@@ -74,6 +74,8 @@ IMAGENARY_NUMBER ({FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBE
   return (TOK_CINIT_NUMBER);
 }
 
+"."{WS}{ID} { mr_get_id (&yylval->string, &yytext[1]); return (TOK_CINIT_FIELD_PREFIX); } /* any name, including I, inf, nan and true */
+
 {ID} {
   yylval->string.str = yytext;
   yylval->string.length = strlen (yytext);
diff --git a/src/cinit_load.y b/src/cinit_load.y
index ce9636c..bf51149 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -98,6 +98,7 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 %left TOK_CINIT_MUL TOK_CINIT_DIV TOK_CINIT_MOD
 %precedence NEG 
 %type <value> expr
+%type <string> field_name
 
 %start cinit
 
@@ -247,7 +248,7 @@ compaund: TOK_CINIT_LBRACE list TOK_CINIT_RBRACE
 list: | list_element | list_element TOK_CINIT_COMMA list
 
 list_element: cinit
-| TOK_CINIT_DOT TOK_CINIT_ID TOK_CINIT_ASSIGN cinit {
+| field_name TOK_CINIT_ASSIGN cinit {
   mr_load_t * mr_load = MR_LOAD;
   mr_idx_t idx = mr_last_child_for_parent (mr_load->ptrs, mr_load->parent);
   if (MR_NULL_IDX == idx)
@@ -257,15 +258,17 @@ list_element: cinit
     }
 
   mr_td_t * tdp = mr_load->ptrs->ra[idx].fdp ? mr_load->ptrs->ra[idx].fdp->stype.tdp : NULL;
-  $2.str[$2.length] = 0;
-  mr_load->ptrs->ra[idx].fdp = mr_get_any_fd_by_name ($2.str, tdp);
+  $1.str[$1.length] = 0;
+  mr_load->ptrs->ra[idx].fdp = mr_get_any_fd_by_name ($1.str, tdp);
   if (NULL == mr_load->ptrs->ra[idx].fdp)
     {
-      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNKNOWN_FIELD_NAME, $2.str);
+      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNKNOWN_FIELD_NAME, $1.str);
       YYERROR;
     }
 }
 
+field_name: TOK_CINIT_FIELD_PREFIX | TOK_CINIT_DOT TOK_CINIT_ID { $$ = $2; }
+
 %%
 
 MR_LOAD_FUNC (cinit);
diff --git a/src/scm_load.l b/src/scm_load.l
index 04ec4cd..15c1e67 100644
--- a/src/scm_load.l
+++ b/src/scm_load.l
@@ -105,6 +105,7 @@ FLOAT_NUMBER {FLOAT_NAN}|{FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{IN
   return (TOK_SCM_ID);
 }
 
+{ID}{WS}+"."{WS}+     { mr_get_id (&yylval->string, yytext); return (TOK_SCM_NAME); } /* any name, including t, nil, inf and nan */
 {WS}+"."{WS}+         { return (TOK_SCM_DOT); }
 
 .             { return (TOK_SCM_ERROR); }
diff --git a/src/scm_load.y b/src/scm_load.y
index ae8c47a..3e025bb 100644
--- a/src/scm_load.y
+++ b/src/scm_load.y
@@ -90,11 +90,12 @@
 }
 
 /* Bison declarations.  */
-%token <string> TOK_SCM_VALUE TOK_SCM_ID TOK_SCM_STRING
+%token <string> TOK_SCM_VALUE TOK_SCM_ID TOK_SCM_STRING TOK_SCM_NAME
 %token <value> TOK_SCM_CHAR TOK_SCM_NUMBER
 %token <id_ivalue> TOK_SCM_ID_IVALUE
 %token TOK_SCM_FALSE TOK_SCM_WS TOK_SCM_LPARENTHESIS TOK_SCM_RPARENTHESIS TOK_SCM_LBRACKETS TOK_SCM_RBRACKETS TOK_SCM_DOT TOK_SCM_ERROR
 
+%type <string> name
 %start ws_scm_ws
 
 %% /* The grammar follows.  */
@@ -187,7 +188,7 @@ compaund: TOK_SCM_LPARENTHESIS list TOK_SCM_RPARENTHESIS
 
 list: | scm ws list
 
-named_node: TOK_SCM_LPARENTHESIS TOK_SCM_ID TOK_SCM_DOT value TOK_SCM_RPARENTHESIS {
+named_node: TOK_SCM_LPARENTHESIS name value TOK_SCM_RPARENTHESIS {
   mr_load_t * mr_load = MR_LOAD;
   $2.str[$2.length] = 0;
   mr_load->ptrs->ra[mr_load->parent].fdp = mr_get_any_fd_by_name ($2.str, NULL);
@@ -198,6 +199,8 @@ named_node: TOK_SCM_LPARENTHESIS TOK_SCM_ID TOK_SCM_DOT value TOK_SCM_RPARENTHES
     }
 }
 
+name: TOK_SCM_NAME | TOK_SCM_ID TOK_SCM_DOT
+
 ws: | TOK_SCM_WS
 
 %%
-- 
2.43.0


From 5a421fa4d7bff5931980d21e1b7cab70b8d4a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 12/70] fix: equal hash for negative and positive zero of type
 long double

---
 src/mr_extra.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index a8929ca..ddfbb5b 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -285,7 +285,7 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
       MR_FOREACH (CASE_MR_COMPLEX_FLOAT_TYPE_HASH, complex_float_t, complex_double_t);
 	  
     case MR_TYPE_LONG_DOUBLE:
-      ptrdes->res.data.uintptr = __builtin_isnan (*(long_double_t*)ptrdes->data.ptr) ? -1 : mr_hash_block (ptrdes->data.ptr, MR_SIZEOF_LONG_DOUBLE);
+      ptrdes->res.data.uintptr = MR_FLOAT_HASH (*(long_double_t*)ptrdes->data.ptr, MR_SIZEOF_LONG_DOUBLE);
       break;
 
     case MR_TYPE_COMPLEX_LONG_DOUBLE:
-- 
2.43.0


From 3ae542ca85e81efc3a7f0feb640d71f53759e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 13/70] fix: order of floating point numbers is total in the
 presence of NaN

---
 src/mr_ic.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index e2ff780..60c6062 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -61,9 +61,23 @@ mr_generic_sort (void * data, size_t count, char * key_type)
 
 typedef void * void_ptr;
 
-#define MR_BASIC_TYPES char, bool, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, mr_int128_t, mr_uint128_t, float, double, long_double_t
+/* NaN goes before any number, same as in mr_cmp_structs */
+#define MR_FLOAT_TYPE_CMP_FUNC(TYPE)					\
+  static int MR_TYPE_CMP_FUNC_NAME (TYPE)				\
+       (const mr_ptr_t x, const mr_ptr_t y, const void * context)	\
+  {									\
+    TYPE * _x = x.ptr;							\
+    TYPE * _y = y.ptr;							\
+    int diff = !__builtin_isnan (*_x) - !__builtin_isnan (*_y);		\
+    return (diff ? diff : (*_x > *_y) - (*_x < *_y));			\
+  }
+
+#define MR_BASIC_INT_TYPES char, bool, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, mr_int128_t, mr_uint128_t
+#define MR_BASIC_FLOAT_TYPES float, double, long_double_t
+#define MR_BASIC_TYPES MR_BASIC_INT_TYPES, MR_BASIC_FLOAT_TYPES
 
-MR_FOREACH (MR_TYPE_CMP_FUNC, void_ptr, MR_BASIC_TYPES);
+MR_FOREACH (MR_TYPE_CMP_FUNC, void_ptr, MR_BASIC_INT_TYPES);
+MR_FOREACH (MR_FLOAT_TYPE_CMP_FUNC, MR_BASIC_FLOAT_TYPES);
 
 static int MR_TYPE_CMP_FUNC_NAME (string_t) (const mr_ptr_t x, const mr_ptr_t y, const void * context)
 {
-- 
2.43.0


From b23900330f7c9dac97bab9b13fd2a05a11e50089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 14/70] fix: walk over multi-dimensional arrays used the outer
 dimension again for the inner ones

---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index cc0d974..c2f6190 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -1216,7 +1216,7 @@ mr_save_array (mr_save_data_t * mr_save_data)
   else
     {
       fd_.stype.dim.size -= sizeof (fd_.stype.dim.dim[0]);
-      memmove (&fd_.stype.dim.dim[0], &fd_.stype.dim.dim[0], fd_.stype.dim.size);
+      memmove (&fd_.stype.dim.dim[0], &fd_.stype.dim.dim[1], fd_.stype.dim.size);
     }
 
   for (i = 0; i < count; )
-- 
2.43.0


From 21ed1480f62ead43f796bb73a4db048111e9040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 15/70] fix: integer union discriminators out of range of int
 selected arbitrary member

---
 src/mr_save.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index c2f6190..14b5a24 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -12,10 +12,10 @@ TYPEDEF_FUNC (mr_idx_t, mr_save_handler_t, (mr_save_data_t *))
 static mr_save_handler_t mr_save_handler[];
 
 static inline mr_fd_t *
-mr_union_discriminator_by_idx (mr_td_t * tdp, int idx)
+mr_union_discriminator_by_idx (mr_td_t * tdp, mr_uintmax_t idx)
 {
   /* check that field index in union is valid and reset to default otherwise */
-  if ((idx < 0) || (idx >= tdp->param.union_param.fields_size / sizeof (tdp->param.union_param.fields[0])))
+  if (idx >= tdp->param.union_param.fields_size / sizeof (tdp->param.union_param.fields[0]))
     idx = 0;
   if (tdp->param.union_param.fields_size > 0) /* check for an empty union */
     return (tdp->param.struct_param.fields[idx]);
@@ -41,11 +41,17 @@ mr_union_discriminator_by_name (mr_td_t * tdp, char * name)
 }
 
 static inline mr_fd_t *
-mr_ud_override_value (mr_ic_t * ud_overrides, uint64_t value)
+mr_ud_override_value (mr_ic_t * ud_overrides, mr_uintmax_t discriminator_value)
 {
+  uint64_t value = discriminator_value;
+
   if (NULL == ud_overrides)
     return (NULL);
-  
+
+  /* overrides are 64-bits and wider values can't match with any of them */
+  if ((value != discriminator_value) && ((mr_uintmax_t)(mr_intmax_t)(int64_t)value != discriminator_value))
+    return (NULL);
+
   uintptr_t key = (uintptr_t)&value - offsetof (mr_ud_override_t, value); /* (mr_ud_override_t[]){{ .value = value }}; */
   mr_ptr_t * result = mr_ic_find (ud_overrides, key);
   mr_ud_override_t * udo = result ? result->ptr : NULL;
-- 
2.43.0


From 033bf0ffcfb25c5289f595a1ac87899d1c9abcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 16/70] fix: sign of bit-field union discriminators was lost

---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index 14b5a24..ae573d4 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -106,7 +106,7 @@ mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * disc
 	case MR_TYPE_BITFIELD:
 	  {
 	    mr_uintmax_t value = 0;
-	    mr_ptrdes_t ptrdes = { .data.ptr = discriminator, .fdp = parent_fdp, };
+	    mr_ptrdes_t ptrdes = { .data.ptr = discriminator, .fdp = parent_fdp, .mr_type_aux = parent_fdp->stype.mr_type_aux, };
 	    mr_td_t * enum_tdp = parent_fdp->stype.tdp;
 
 	    mr_save_bitfield_value (&ptrdes, &value); /* get value of the bitfield */
-- 
2.43.0


From 015275c06f6f51aeb0f540e89c297c2405400eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 17/70] fix: read beyond the end of completely filled char
 array in union discriminators

---
 src/mr_save.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mr_save.c b/src/mr_save.c
index ae573d4..6dc174c 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -75,6 +75,7 @@ static mr_fd_t *
 mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * discriminator, mr_ic_t * ud_overrides)
 {
   mr_type_t mr_type = parent_fdp->stype.mr_type;
+  mr_size_t size = parent_fdp->stype.size; /* size of the discriminator if it is a char array */
   mr_fd_t fd;
   for (;;)
     {
@@ -127,6 +128,14 @@ mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * disc
 	  }
 	
 	case MR_TYPE_CHAR_ARRAY:
+	  if ((size != 0) && (NULL == memchr (discriminator, 0, size)))
+	    {
+	      /* char array filled up to the last element has no terminating zero */
+	      char name[size + 1];
+	      memcpy (name, discriminator, size);
+	      name[size] = 0;
+	      return (mr_union_discriminator_by_name (tdp, name));
+	    }
 	  return (mr_union_discriminator_by_name (tdp, (char*)discriminator));
 	
 	case MR_TYPE_STRING:
@@ -149,6 +158,10 @@ mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * disc
 	case MR_TYPE_ARRAY:
 	  if (parent_fdp->stype.mr_type_aux != MR_TYPE_POINTER)
 	    {
+	      int i, count = parent_fdp->stype.dim.size / sizeof (parent_fdp->stype.dim.dim[0]);
+	      for (i = 0; i < count; ++i)
+		if (parent_fdp->stype.dim.dim[i] != 0)
+		  size /= parent_fdp->stype.dim.dim[i];
 	      mr_type = parent_fdp->stype.mr_type_aux;
 	      break;
 	    }
@@ -162,6 +175,7 @@ mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * disc
 	  if (NULL == discriminator)
 	    return (mr_union_discriminator_by_name (tdp, NULL));
 	  mr_type = parent_fdp->stype.mr_type_aux;
+	  size = parent_fdp->stype.tdp ? parent_fdp->stype.tdp->size : 0;
 	  if (MR_TYPE_POINTER == mr_type)
 	    mr_init_pointer_fd (&parent_fdp, &fd);
 	  break;
@@ -184,6 +198,7 @@ mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * disc
 		discriminator = (char*)discriminator + parent_fdp->stype.tdp->param.union_param.fields[0]->offset;
 		parent_fdp = parent_fdp->stype.tdp->param.union_param.fields[0];
 		mr_type = parent_fdp->stype.mr_type;
+		size = parent_fdp->stype.size;
 		break;
 	      }
 	  __attribute__ ((fallthrough));
-- 
2.43.0


From 74e64191afe4cfd101247fe0fd716744ed8b5ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 18/70] fix: comparison and hash of structures read beyond the
 end of completely filled char arrays

---
 src/mr_extra.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index ddfbb5b..0c421ff 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -242,7 +242,8 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
       break;
 	  
     case MR_TYPE_CHAR_ARRAY:
-      ptrdes->res.data.uintptr = mr_hash_str ((char*)ptrdes->data.ptr);
+      /* completely filled char array has no terminating zero */
+      ptrdes->res.data.uintptr = mr_hash_block (ptrdes->data.ptr, strnlen (ptrdes->data.ptr, ptrdes->MR_SIZE));
       break;
 	  
     case MR_TYPE_BOOL:
@@ -419,7 +420,8 @@ mr_cmp_structs (mr_ra_ptrdes_t * x, mr_ra_ptrdes_t * y)
 	  }
 	  
 	case MR_TYPE_CHAR_ARRAY:
-	  diff = strcmp (x_i->data.ptr, y_i->data.ptr);
+	  /* completely filled char array has no terminating zero */
+	  diff = strncmp (x_i->data.ptr, y_i->data.ptr, (x_i->MR_SIZE < y_i->MR_SIZE) ? x_i->MR_SIZE : y_i->MR_SIZE);
 	  if (diff)
 	    return (diff);
 	  break;
-- 
2.43.0


From ddea7722e18e818394b5066dc3eb0360909d4da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 19/70] fix: sorting of completely filled char arrays

---
 src/mr_ic.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 60c6062..46c05e0 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -92,7 +92,8 @@ static int MR_TYPE_CMP_FUNC_NAME (char_array) (const mr_ptr_t x, const mr_ptr_t
 {
   char * _x = x.ptr;
   char * _y = y.ptr;
-  return (strcmp (_x, _y));
+  const size_t * element_size = context;
+  return (strncmp (_x, _y, *element_size)); /* completely filled char array has no terminating zero */
 }
 
 static mr_compar_fn_t
@@ -122,7 +123,7 @@ mr_basic_types_sort (void * data, size_t count, char * key_type, mr_type_t mr_ty
       mr_compar_fn_t compar_fn = mr_type_compar_fn (mr_type);
       if (NULL == compar_fn)
 	return (MR_FAILURE);
-      mr_hsort (data, count, element_size, compar_fn, NULL);
+      mr_hsort (data, count, element_size, compar_fn, &element_size);
     }
   return (MR_SUCCESS);
 }
-- 
2.43.0


From 3aa97931369ebaa2edb548c59d86594015261a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 20/70] fix: octal escape of C-initializer strings takes at
 most three digits

---
 src/cinit_load.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index bf51149..34ba319 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -54,7 +54,7 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 	  int size;
 	  if (c > 0)
 	    dst[length++] = c;
-	  else if (1 == sscanf (&substr->str[i], "%o%n", &c, &size))
+	  else if (1 == sscanf (&substr->str[i], "%3o%n", &c, &size))
 	    {
 	      i += size - 1;
 	      dst[length++] = c;
-- 
2.43.0


From 1376485071ef8bfb7d30a40c023a50f5bd0f722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 21/70] fix: hang on XML character reference without semicolon

---
 src/xml_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index 5faea18..f316848 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -85,7 +85,7 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
 	  {
 	    int32_t code = 0;
 	    int size = 0;
-	    if (1 != sscanf (&substr->str[i], XML_QUOTE_CHAR_PATTERN "%n", &code, &size))
+	    if ((1 != sscanf (&substr->str[i], XML_QUOTE_CHAR_PATTERN "%n", &code, &size)) || (size <= 0))
 	      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_WRONG_XML_ESC, esc);
 	    else
 	      {
-- 
2.43.0


From 7030637e2b65d2305316b66dccd3f605725e3a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 22/70] fix: read decimal character references in XML

---
 src/xml_save.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index f316848..d3580b7 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -83,9 +83,10 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
 	
 	if ('#' == substr->str[i + 1])
 	  {
+	    bool is_hex = ('x' == substr->str[i + 2]);
 	    int32_t code = 0;
 	    int size = 0;
-	    if ((1 != sscanf (&substr->str[i], XML_QUOTE_CHAR_PATTERN "%n", &code, &size)) || (size <= 0))
+	    if ((1 != sscanf (&substr->str[i], is_hex ? XML_QUOTE_CHAR_PATTERN "%n" : "&#%" SCNd32 ";%n", &code, &size)) || (size <= 0))
 	      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_WRONG_XML_ESC, esc);
 	    else
 	      {
-- 
2.43.0


From 8f7352fb67ca243ea886aa0beb81b95d64aec09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 23/70] fix: char arrays behind pointers in XDR were read and
 written beyond their end

---
 src/xdr.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/xdr.c b/src/xdr.c
index 389875d..7151709 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -540,13 +540,17 @@ static mr_status_t
 xdr_char_array_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 {
   mr_idx_t parent = ptrs->ra[idx].parent;
-  bool is_a_dynamic_string = ((parent != MR_NULL_IDX) && (MR_TYPE_POINTER == ptrs->ra[parent].mr_type));
   mr_ptrdes_t * ptrdes = &ptrs->ra[idx];
-  typeof (ptrdes->MR_SIZE) str_len;
+  typeof (ptrdes->MR_SIZE) str_len, size = ptrdes->MR_SIZE;
+
+  if ((XDR_DECODE == xdrs->x_op) && ptrdes->fdp)
+    size = ptrdes->fdp->stype.size;
+
+  /* pointers on char arrays of unspecified size are dynamically allocated strings */
+  bool is_a_dynamic_string = ((parent != MR_NULL_IDX) && (MR_TYPE_POINTER == ptrs->ra[parent].mr_type) && (size <= sizeof (char)));
 
   if (XDR_ENCODE == xdrs->x_op)
     {
-      typeof (ptrdes->MR_SIZE) size = ptrdes->MR_SIZE;
       char * string = ptrs->ra[idx].data.string;
       if (is_a_dynamic_string)
 	str_len = strlen (string) + 1;
@@ -563,15 +567,23 @@ xdr_char_array_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
   if (!xdr_uint32_t (xdrs, &str_len))
     return (MR_FAILURE);
 
-  if ((XDR_DECODE == xdrs->x_op) && (str_len > sizeof (char)) && is_a_dynamic_string)
+  if (XDR_DECODE == xdrs->x_op)
     {
-      void * data = MR_REALLOC (ptrs->ra[idx].data.ptr, str_len);
-      if (NULL == data)
+      if (is_a_dynamic_string)
 	{
-	  MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
-	  return (MR_FAILURE);
+	  if (str_len > sizeof (char))
+	    {
+	      void * data = MR_REALLOC (ptrdes->data.ptr, str_len);
+	      if (NULL == data)
+		{
+		  MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
+		  return (MR_FAILURE);
+		}
+	      *(void**)ptrs->ra[parent].data.ptr = ptrdes->data.ptr = data;
+	    }
 	}
-      *(void**)ptrs->ra[idx - 1].data.ptr = ptrs->ra[idx].data.ptr = data;
+      else if (str_len > size)
+	return (MR_FAILURE);
     }
   return (xdr_opaque (xdrs, ptrs->ra[idx].data.ptr, str_len) ? MR_SUCCESS : MR_FAILURE);
 }
-- 
2.43.0


From 3d1cf5637c2bf160c00c4dc328b966ffcfa34b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 24/70] fix: loading of several char arrays behind a pointer
 reallocated them one by one

---
 src/mr_load.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 38c9a22..a7bb1d0 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -480,7 +480,8 @@ mr_get_char_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs, char * str, size_t str_l
   typeof (str_len) max_size = ptrdes->fdp ? ptrdes->fdp->stype.size : 0;
   mr_status_t status = MR_SUCCESS;
 
-  if ((str_len >= max_size) && (ptrdes->parent != MR_NULL_IDX))
+  /* pointers on char arrays of unspecified size are dynamically allocated strings */
+  if ((str_len >= max_size) && (max_size <= sizeof (char)) && (ptrdes->parent != MR_NULL_IDX))
     if (MR_TYPE_POINTER == ptrs->ra[ptrdes->parent].mr_type)
       {
 	void * data = MR_REALLOC (ptrdes->data.ptr, str_len + 1);
-- 
2.43.0


From b36241904e2d1f31ec9e34e90c51d2c9974520aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 25/70] fix: untyped pointers to opaque data were saved as NULL

---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index 6dc174c..2fcd9b3 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -1416,7 +1416,7 @@ resolve_void_ptr_and_strings (mr_save_data_t * mr_save_data, mr_idx_t idx)
     {
     case MR_TYPE_POINTER:
       if (((MR_TYPE_NONE == ptrdes->mr_type_aux) || (MR_TYPE_VOID == ptrdes->mr_type_aux)) &&
-	  !(ptrdes->flags & MR_IS_NULL))
+	  !(ptrdes->flags & (MR_IS_NULL | MR_IS_OPAQUE_DATA)))
 	{
 	  void * data_ptr = *(void**)ptrdes->data.ptr;
 	  mr_idx_t alloc_idx = mr_add_ptr_to_list (ptrs);
-- 
2.43.0


From 865823a696c463c3273de720e837d84c3da5aebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 26/70] fix: failed copying released what its references point
 to instead of what was allocated

---
 src/mr_extra.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 0c421ff..e738f0c 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -138,6 +138,7 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
 
 	    /* copy data from source */
 	    memcpy (copy, *(void**)ptrs->ra[i].data.ptr, size);
+	    ptrs->ra[i].res.type = copy;
 	    /* go thru all childs and calculate their addresses in newly allocated chunk */
 	    for (idx = ptrs->ra[i].first_child; idx != MR_NULL_IDX; idx = ptrs->ra[idx].next)
 	      ptrs->ra[idx].res.data.ptr = &copy[(char*)ptrs->ra[idx].data.ptr - *(char**)ptrs->ra[i].data.ptr];
@@ -182,15 +183,9 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
 
  failure:
   for (i = 2; i < count; ++i)
-    if ((MR_TYPE_STRING == ptrs->ra[i].mr_type) && (ptrs->ra[i].res.type != NULL))
+    /* only nodes that own a copy of their content have it set in res.type */
+    if (ptrs->ra[i].res.type != NULL)
       MR_FREE (ptrs->ra[i].res.type);
-    else if ((MR_TYPE_POINTER == ptrs->ra[i].mr_type) &&
-	     (ptrs->ra[i].first_child != MR_NULL_IDX))
-      if (ptrs->ra[ptrs->ra[i].first_child].res.data.ptr != NULL)
-	{
-	  MR_FREE (ptrs->ra[ptrs->ra[i].first_child].res.data.ptr);
-	  ptrs->ra[ptrs->ra[i].first_child].res.data.ptr = NULL;
-	}
 
   return (MR_FAILURE);
 }
-- 
2.43.0


From 2fbd9af8c3e2905b4056fbab0e68878ba9bc570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 27/70] fix: objects with opaque data could not be copied

---
 src/mr_extra.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index e738f0c..4e906bd 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -114,7 +114,7 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
 	    char * copy;
 	    typeof (ptrs->ra[i].MR_SIZE) size = ptrs->ra[i].MR_SIZE;
 
-	    if (ptrs->ra[i].first_child == MR_NULL_IDX)
+	    if ((ptrs->ra[i].first_child == MR_NULL_IDX) && !(ptrs->ra[i].flags & MR_IS_OPAQUE_DATA))
 	      {
 		mr_td_t * tdp = ptrs->ra[i].fdp ? ptrs->ra[i].fdp->stype.tdp : NULL;
 		char * name = ptrs->ra[i].fdp ? ptrs->ra[i].fdp->name.str : MR_DEFAULT_NODE_NAME;
@@ -173,6 +173,8 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
 	  /* update pointer in the copy */
 	  if (ptrs->ra[i].first_child != MR_NULL_IDX)
 	    *(void**)ptrs->ra[i].res.data.ptr = ptrs->ra[ptrs->ra[i].first_child].res.data.ptr;
+	  else if (ptrs->ra[i].flags & MR_IS_OPAQUE_DATA) /* opaque data has no child nodes */
+	    *(void**)ptrs->ra[i].res.data.ptr = ptrs->ra[i].res.type;
 	  break;
 
 	default:
-- 
2.43.0


From d757a6d34812243c604a42071d0a5d478ff900cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 28/70] fix: a pointer on zero elements still pointed to the
 source object in its copy

---
 src/mr_extra.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 4e906bd..a80cd26 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -175,6 +175,8 @@ mr_copy_recursively (mr_ra_ptrdes_t * ptrs, void * dst)
 	    *(void**)ptrs->ra[i].res.data.ptr = ptrs->ra[ptrs->ra[i].first_child].res.data.ptr;
 	  else if (ptrs->ra[i].flags & MR_IS_OPAQUE_DATA) /* opaque data has no child nodes */
 	    *(void**)ptrs->ra[i].res.data.ptr = ptrs->ra[i].res.type;
+	  else if ((ptrs->ra[i].mr_type_aux != MR_TYPE_NONE) && (ptrs->ra[i].mr_type_aux != MR_TYPE_VOID))
+	    *(void**)ptrs->ra[i].res.data.ptr = NULL; /* pointers on zero elements are NULL, untyped pointers are kept as is */
 	  break;
 
 	default:
-- 
2.43.0


From 463e23dd6ab6f58c84eadc8dfe8791c8ddaa4827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 29/70] fix: size of a loaded block was taken from XDR stream
 if size field follows the pointer

---
 src/xdr.c | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/xdr.c b/src/xdr.c
index 7151709..df4760c 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -666,6 +666,44 @@ xdr_load_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
     }
 }
 
+/**
+ * Size fields that are declared after pointers overwrite values set at pointers loading.
+ * They must not go beyond what was loaded, and at least one element must remain.
+ * @param idx index of structure or union node
+ * @param ptrs array with descriptor of loaded data
+ */
+static void
+xdr_limit_sizes (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
+{
+  for (idx = ptrs->ra[idx].first_child; idx != MR_NULL_IDX; idx = ptrs->ra[idx].next)
+    switch (ptrs->ra[idx].mr_type)
+      {
+      case MR_TYPE_POINTER:
+	if (!(ptrs->ra[idx].flags & (MR_IS_NULL | MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)))
+	  {
+	    mr_td_t * tdp = ptrs->ra[idx].fdp ? ptrs->ra[idx].fdp->stype.tdp : NULL;
+	    mr_size_t element_size = mr_type_size (ptrs->ra[idx].mr_type_aux);
+	    if (0 == element_size)
+	      element_size = tdp ? tdp->size : 0;
+	    mr_intmax_t size = 0;
+	    mr_ptrdes_t src, dst = { .data.ptr = &size, .mr_type = MR_TYPE_DETECT (mr_intmax_t), };
+	    mr_pointer_get_size_ptrdes (&src, idx, ptrs);
+	    if (src.data.ptr != NULL)
+	      mr_assign_int (&dst, &src);
+	    if ((size <= 0) || (size < element_size) || (size > ptrs->ra[idx].MR_SIZE))
+	      mr_pointer_set_size (idx, ptrs);
+	  }
+	break;
+      case MR_TYPE_UNION:
+      case MR_TYPE_ANON_UNION:
+      case MR_TYPE_NAMED_ANON_UNION:
+	xdr_limit_sizes (idx, ptrs);
+	break;
+      default:
+	break;
+      }
+}
+
 /**
  * Load handler for structures.
  * @param xdrs XDR stream descriptor
@@ -689,6 +727,7 @@ xdr_load_struct (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       if (MR_SUCCESS != xdr_load_inner (&data[fdp->offset], fdp, xdrs, ptrs, idx))
 	return (MR_FAILURE);
     }
+  xdr_limit_sizes (idx, ptrs);
   return (MR_SUCCESS);
 }
 
-- 
2.43.0


From 98a1bea1dd66e26fd9cd67c18a982d841bf73f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 30/70] fix: size of a loaded block was taken from the document
 if size field is behind a pointer

---
 src/mr_load.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mr_load.c b/src/mr_load.c
index a7bb1d0..82a8ea6 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -904,6 +904,12 @@ mr_load (void * data, mr_fd_t * fdp, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       for (i = 0; (MR_SUCCESS == status) && (i < count); ++i)
 	if (MR_TYPE_POINTER == ptrs->ra[i].mr_type)
 	  status = mr_load_pointer_postponed (i, ptrs);
+
+      /* size field might be behind a pointer that was loaded after the pointer which size it holds */
+      for (i = 0; (MR_SUCCESS == status) && (i < count); ++i)
+	if ((MR_TYPE_POINTER == ptrs->ra[i].mr_type) && (ptrs->ra[i].fdp != NULL) && (ptrs->ra[i].MR_SIZE > 0) &&
+	    !(ptrs->ra[i].flags & (MR_IS_NULL | MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)))
+	  mr_pointer_set_size (i, ptrs);
       
       if (MR_SUCCESS == status)
 	status = mr_set_crossrefs (ptrs);
-- 
2.43.0


From 78449c1d81e71ac7a85d68da7fbdc803fc7db6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 31/70] fix: YAML references were left unresolved if there was
 no memory for their table

---
 src/yaml_load.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/yaml_load.c b/src/yaml_load.c
index bc670b7..76246dc 100644
--- a/src/yaml_load.c
+++ b/src/yaml_load.c
@@ -1,7 +1,7 @@
 #include <yaml.h>
 #include <metaresc.h>
 
-static void
+static mr_status_t
 add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
 {
   mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
@@ -14,7 +14,10 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
 
   table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
   if (NULL == table)
-    return;
+    {
+      MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
+      return (MR_FAILURE);
+    }
 
   for (i = 1; i < count; ++i)
     if (ptrs->ra[i].idx != MR_NULL_IDX)
@@ -35,6 +38,7 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
     }
   
   MR_FREE (table);
+  return (MR_SUCCESS);
 }
 
 static mr_status_t
@@ -218,8 +222,9 @@ mr_yaml_load (char * str, mr_ra_ptrdes_t * ptrs)
     }
 
   if (MR_SUCCESS == status)
-    add_missed_crossrefs (ptrs);
-  else
+    status = add_missed_crossrefs (ptrs);
+
+  if (MR_SUCCESS != status)
     mr_free_load_values (ptrs);
 
   return (status);
-- 
2.43.0


From a9b20d1f284ba9e2e2e8bdc99d0f44cfef4a1068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 32/70] fix: union discriminator leaked if XDR stream ends
 within it

---
 src/xdr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xdr.c b/src/xdr.c
index df4760c..fc59fa3 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -782,7 +782,11 @@ xdr_load_union (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
     return (MR_FAILURE);
 
   if (MR_SUCCESS != xdr_load_string (xdrs, 0, &ptrs_))
-    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNION_DISCRIMINATOR_ERROR, discriminator);
+    {
+      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNION_DISCRIMINATOR_ERROR, NULL);
+      if (discriminator != NULL)
+	MR_FREE (discriminator);
+    }
   else if (NULL == discriminator)
     MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNION_DISCRIMINATOR_ERROR, discriminator);
   else
-- 
2.43.0


From ebb67c43db0df0c0848e01d71e757e1c797b9e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 33/70] fix: MR_SAVE_XDR_RA returned a truncated stream if
 saving failed

---
 src/metaresc.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metaresc.h b/src/metaresc.h
index 8a667b8..d16357f 100644
--- a/src/metaresc.h
+++ b/src/metaresc.h
@@ -1098,7 +1098,13 @@
       mr_rarray_t _ra_ = { .alloc_size = 0, .MR_SIZE = 0, .data = { NULL }, .type = "uint8_t" }; \
       mr_xdrra_create (&_xdrs_, &_ra_, XDR_ENCODE);			\
       if (MR_SUCCESS != MR_SAVE_XDR (&_xdrs_, __VA_ARGS__))		\
-	MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_XDR_SAVE_FAILED);		\
+	{								\
+	  MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_XDR_SAVE_FAILED);		\
+	  if (_ra_.data.ptr)						\
+	    MR_FREE (_ra_.data.ptr);					\
+	  _ra_.data.ptr = NULL;						\
+	  _ra_.MR_SIZE = _ra_.alloc_size = 0;				\
+	}								\
       _ra_;								\
     })
 
-- 
2.43.0


From 073ac9271cd7d0f35c1b8f6188ceb55a78941426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:34 +0000
Subject: [PATCH 34/70] fix: XML saving ignored failures and returned an
 incomplete document

---
 src/xml_save.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index d3580b7..4ec8459 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -397,7 +397,12 @@ mr_xml1_save (mr_ra_ptrdes_t * ptrs)
   if (NULL == mr_ra_str.data.ptr)
     return (NULL);
 
-  mr_ptrs_dfs (ptrs, xml1_print_node, &mr_ra_str);
+  if (MR_SUCCESS != mr_ptrs_dfs (ptrs, xml1_print_node, &mr_ra_str))
+    {
+      if (mr_ra_str.data.ptr)
+	MR_FREE (mr_ra_str.data.ptr);
+      return (NULL);
+    }
 
   if (mr_ra_append_char (&mr_ra_str, '\n') < 0)
     return (NULL);
@@ -506,12 +511,20 @@ mr_xml2_save (mr_ra_ptrdes_t * ptrs)
       ptrs->ptrdes_type = MR_PD_CUSTOM;
       ptrs->res.data.ptr = doc;
       ptrs->res.type = NULL;
+      if (ptrs->size >= 2 * sizeof (ptrs->ra[0]))
+	ptrs->ra[1].res.data.ptr = NULL; /* root node was not created yet */
+
+      mr_status_t status = mr_ptrs_dfs (ptrs, xml2_save_node, &mr_ra_str);
 
-      mr_ptrs_dfs (ptrs, xml2_save_node, &mr_ra_str);
-      
       if (ptrs->size >= 2 * sizeof (ptrs->ra[0]))
 	if (NULL != ptrs->ra[1].res.data.ptr)
 	  xmlDocSetRootElement (doc, ptrs->ra[1].res.data.ptr);
+
+      if (MR_SUCCESS != status)
+	{
+	  xmlFreeDoc (doc);
+	  doc = NULL;
+	}
     }
 
   if (mr_ra_str.data.ptr)
-- 
2.43.0


From 7e3ee36f06d893a23800857630a520b5dc2ea04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 35/70] fix: what was loaded from XDR leaked if loading failed
 within a union

---
 src/xdr.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/xdr.c b/src/xdr.c
index fc59fa3..872ab20 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -333,13 +333,26 @@ mr_xdr_load (void * data, mr_fd_t * fdp, XDR * xdrs)
     return (MR_FAILURE);
 
   mr_status_t status = xdr_load_inner (data, fdp, xdrs, &ptrs, 0);
-  mr_status_t crossref_status = mr_set_crossrefs (&ptrs);
 
   if (MR_SUCCESS == status)
-    status = crossref_status;
+    status = mr_set_crossrefs (&ptrs);
 
   if (ptrs.ra != NULL)
-    MR_FREE (ptrs.ra);
+    {
+      if (MR_SUCCESS != status)
+	{
+	  /* unions might be not resolvable in partially loaded object, so release here everything that was loaded */
+	  mr_idx_t i;
+	  for (i = ptrs.size / sizeof (ptrs.ra[0]) - 1; i > 0; --i)
+	    if (((MR_TYPE_POINTER == ptrs.ra[i].mr_type) || (MR_TYPE_STRING == ptrs.ra[i].mr_type))
+		&& *(void**)ptrs.ra[i].data.ptr)
+	      {
+		MR_FREE (*(void**)ptrs.ra[i].data.ptr);
+		*(void**)ptrs.ra[i].data.ptr = NULL;
+	      }
+	}
+      MR_FREE (ptrs.ra);
+    }
   return (status);
 }
 
@@ -630,6 +643,8 @@ xdr_save_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 static mr_status_t
 xdr_load_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 {
+  *(char**)ptrs->ra[idx].data.ptr = NULL;
+
   if (!xdr_uint8_t (xdrs, (uint8_t*)&ptrs->ra[idx].flags))
     return (MR_FAILURE);
 
-- 
2.43.0


From 87e162ab0e949f852837ec3d45702d88f2d4f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 36/70] fix: saving ignored memory failures at unions and
 pointers resolution and lost data

---
 src/mr_protos.h |  1 +
 src/mr_save.c   | 25 ++++++++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/mr_protos.h b/src/mr_protos.h
index ea006ca..6ce7c78 100644
--- a/src/mr_protos.h
+++ b/src/mr_protos.h
@@ -628,6 +628,7 @@ TYPEDEF_STRUCT (mr_save_data_t, ATTRIBUTES ( , "save routines data and lookup st
 		(mr_union_discriminator_t *, mr_ra_ud, , "allocation of union discriminators",
 		{ .offset = offsetof (mr_save_data_t, mr_ra_ud_size) }, "offset"),
 		VOID (ssize_t, mr_ra_ud_alloc_size, , "allocated size of 'mr_ra_ud'"),
+		VOID (bool, failed, , "object can't be saved correctly"),
 		)
 
 TYPEDEF_FUNC (int, mr_ra_printf_t, (mr_rarray_t *, mr_ptrdes_t *))
diff --git a/src/mr_save.c b/src/mr_save.c
index 2fcd9b3..0c30d97 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -324,6 +324,7 @@ mr_ud_add (mr_ud_set_t * uds, mr_ptr_t key, mr_save_data_t * mr_save_data)
       status = mr_ic_index (dst_ic, idx, sizeof (idx));
       if (MR_SUCCESS != status)
 	{
+	  mr_ic_free (dst_ic);
 	  MR_FREE (dst_ic);
 	  return (-1);
 	}
@@ -393,7 +394,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
 				   sizeof (mr_save_data->mr_ra_ud[0]));
   /* create a record for further lookups in parent nodes for discriminator value */
   if (NULL == ud)
-    return (NULL);
+    {
+      mr_save_data->failed = true;
+      return (NULL);
+    }
 
   memset (ud, 0, sizeof (*ud));
   /* this record is only for lookups and there is no guarantee that parents already have union resolution info */
@@ -402,6 +406,7 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
   if ((ud_idx >> __CHAR_BIT__) >= (1UL << (__CHAR_BIT__ * (sizeof (MR_RA_UD_IDX_TYPE) - 1))))
     {
       MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_TOO_MANY_UD, MR_STRINGIFY_READONLY (MR_RA_UD_IDX_TYPE));
+      mr_save_data->failed = true;
       return (NULL);
     }
   ud->union_fdp = union_fdp; /* union field descriptor */
@@ -448,7 +453,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
       ud->discriminated_fdp = fdp;
       mr_ptr_t * add = mr_ic_add (&mr_save_data->union_discriminators, ud_idx);
       if (NULL == add)
-	return (NULL);
+	{
+	  mr_save_data->failed = true;
+	  return (NULL);
+	}
       if (add->uintptr == ud_idx)
 	/* union discriminator info was not found in the set so we add new record */
 	mr_save_data->mr_ra_ud_size += sizeof (mr_save_data->mr_ra_ud[0]);
@@ -462,7 +470,10 @@ mr_union_discriminator (mr_save_data_t * mr_save_data, mr_idx_t node, mr_fd_t *
   /* add union discriminator information to all parents which doesn't have it yet */
   for (idx = node; idx != parent; idx = mr_save_data->ptrs.ra[idx].parent)
     if (-1 == mr_ud_add (&mr_save_data->ptrs.ra[idx].save_params.ud_set, ud_find, mr_save_data))
-      return (NULL);
+      {
+	mr_save_data->failed = true;
+	return (NULL);
+      }
 
   return (fdp);
 }
@@ -1508,7 +1519,11 @@ mr_post_process (mr_save_data_t * mr_save_data)
 {
   mr_idx_t i, count = mr_save_data->ptrs.size / sizeof (mr_save_data->ptrs.ra[0]);
   for (i = 1; i < count; ++i)
-    resolve_void_ptr_and_strings (mr_save_data, i);
+    if (MR_SUCCESS != resolve_void_ptr_and_strings (mr_save_data, i))
+      {
+	mr_save_data->failed = true;
+	return;
+      }
   i = 1;
   mr_ptrs_dfs (&mr_save_data->ptrs, mr_renumber_node, &i); /* enumeration of nodes should be done only after strings processing */
 }
@@ -1617,7 +1632,7 @@ mr_save (void * data, mr_fd_t * fdp)
   for (i = mr_save_data.ptrs.size / sizeof (mr_save_data.ptrs.ra[0]) - 1; i > 0; --i)
     mr_ud_free (&mr_save_data.ptrs.ra[i].save_params.ud_set);
 
-  if ((nodes_added == 0) && (mr_save_data.ptrs.ra != NULL))
+  if (((nodes_added == 0) || mr_save_data.failed) && (mr_save_data.ptrs.ra != NULL))
     {
       MR_FREE (mr_save_data.ptrs.ra);
       mr_save_data.ptrs.ra = NULL;
-- 
2.43.0


From 4ad557fc9e0f730b321a18fdb0f364b7640c6ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:46 +0000
Subject: [PATCH 37/70] fix: a text reference at a node that is not a pointer
 was taken for its subnodes

---
 src/mr_load.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mr_load.c b/src/mr_load.c
index 82a8ea6..0549fa2 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -880,6 +880,13 @@ mr_load (void * data, mr_fd_t * fdp, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  return (MR_FAILURE);
 	}
 
+  if (ptrs->ra[idx].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)) /* first_child is an index of a referenced node */
+    if ((fdp->stype.mr_type != MR_TYPE_POINTER) && (fdp->stype.mr_type != MR_TYPE_STRING))
+      {
+	MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, fdp->stype.mr_type);
+	return (MR_FAILURE);
+      }
+
   ptrs->ra[idx].data.ptr = data;
   ptrs->ra[idx].fdp = fdp;
   ptrs->ra[idx].mr_size = fdp->stype.size;
-- 
2.43.0


From 88c5395604ffe005baec314234b0a5b2a82e4dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:07 +0000
Subject: [PATCH 38/70] fix: a repeated member in a text lost or corrupted what
 was loaded for the first one

---
 src/mr_load.c   | 30 ++++++++++++++++++++++++++++++
 src/mr_protos.h |  1 +
 2 files changed, 31 insertions(+)

diff --git a/src/mr_load.c b/src/mr_load.c
index 0549fa2..ce8e29f 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -567,6 +567,28 @@ mr_load_struct_next_field (mr_td_t * tdp, mr_fd_t * fdp)
   return (NULL);
 }
 
+/**
+ * Checks if one of previous subnodes was loaded into the same memory. Loading it again would lose its content.
+ * @param first_child index of the first subnode
+ * @param idx index of the subnode to be loaded
+ * @param fdp descriptor of the field for that subnode
+ * @param is_union all fields share the same memory
+ * @param ptrs resizable array with pointers descriptors
+ */
+static bool
+mr_load_struct_is_loaded (mr_idx_t first_child, mr_idx_t idx, mr_fd_t * fdp, bool is_union, mr_ra_ptrdes_t * ptrs)
+{
+  mr_idx_t i;
+  for (i = first_child; (i != idx) && (i != MR_NULL_IDX); i = ptrs->ra[i].next)
+    if ((is_union || (ptrs->ra[i].fdp == fdp)) &&
+	/* empty string before an anonymous union is only a name of the next node */
+	!((ptrs->ra[i].next == idx) && (ptrs->ra[i].fdp == fdp) && (MR_TYPE_NAMED_ANON_UNION == fdp->stype.mr_type) &&
+	  (MR_NULL_IDX == ptrs->ra[i].first_child) && (MR_VT_SUBSTR == ptrs->ra[i].value_type) &&
+	  (0 == ptrs->ra[i].load_params.vt_substr.length)))
+      return (true);
+  return (false);
+}
+
 /**
  * MR_STRUCT load handler.
  * Save content of subnodes to structure fileds.
@@ -581,6 +603,7 @@ mr_load_struct (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
   char * data = ptrs->ra[idx].data.ptr;
   mr_idx_t first_child = ptrs->ra[idx].first_child;
   mr_td_t * tdp = ptrs->ra[idx].fdp ? ptrs->ra[idx].fdp->stype.tdp : NULL;
+  bool is_union = (ptrs->ra[idx].mr_type != MR_TYPE_STRUCT);
   mr_status_t status = MR_SUCCESS;
 
   /* get pointer on structure descriptor */
@@ -604,6 +627,13 @@ mr_load_struct (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  continue;
 	}
 
+      if (mr_load_struct_is_loaded (first_child, idx, fdp, is_union, ptrs))
+	{
+	  MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_REPEATED_SUBNODE, tdp->type.str, fdp->name.str);
+	  status = MR_FAILURE;
+	  continue;
+	}
+
       /* recursively load subnode */
       status = mr_load (&data[fdp->offset], fdp, idx, ptrs);
     }
diff --git a/src/mr_protos.h b/src/mr_protos.h
index 6ce7c78..bb82f1d 100644
--- a/src/mr_protos.h
+++ b/src/mr_protos.h
@@ -52,6 +52,7 @@ TYPEDEF_ENUM (mr_message_id_t, ATTRIBUTES ( , "Messages enum. Message string sav
 	      (MR_MESSAGE_READ_FUNC, , "Can't read function address from string `%s`."),
 	      (MR_MESSAGE_STRING_TRUNCATED, , "Char array range check: string truncated."),
 	      (MR_MESSAGE_UNKNOWN_SUBNODE, , "Struct type '%s': unknown subnode '%s'."),
+	      (MR_MESSAGE_REPEATED_SUBNODE, , "Struct type '%s': subnode '%s' is repeated or shares memory with a previous one."),
 	      (MR_MESSAGE_SAVE_IDX_RANGE_CHECK, , "Save node index is out of range."),
 	      (MR_MESSAGE_NODE_NAME_MISSMATCH, , "Node name mismatch: expected '%s' got '%s'."),
 	      (MR_MESSAGE_NODE_TYPE_MISSMATCH, , "Node '%s' type mismatch: expected '%s' got '%s'."),
-- 
2.43.0


From 932eedfc45ceafa228540ba0aa22894f0962d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 39/70] fix: XML subnodes of a reference were linked to the
 node by an index from the text

---
 src/xml1_load.y | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xml1_load.y b/src/xml1_load.y
index da99291..d599889 100644
--- a/src/xml1_load.y
+++ b/src/xml1_load.y
@@ -157,6 +157,11 @@ tag: start_tag TOK_XML_OPEN_TAG properties TOK_XML_CLOSE_EMPTY_TAG {
 
 start_tag: { 
   mr_load_t * mr_load = MR_LOAD; 
+  if (mr_load->ptrs->ra && (mr_load->ptrs->ra[mr_load->parent].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)))
+    {
+      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNEXPECTED_SUBNODES);
+      YYERROR;
+    }
   mr_idx_t idx = mr_add_ptr_to_list (mr_load->ptrs);
   if (MR_NULL_IDX == idx)
     { YYERROR; }
-- 
2.43.0


From 8ba34d3f73e3412cdfe0c06d0313ad9fb6598be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 40/70] fix: XML unquoting searched for a semicolon beyond a
 not terminated buffer

---
 src/xml_save.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/xml_save.c b/src/xml_save.c
index 4ec8459..6b39cbe 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -75,11 +75,10 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
       {
 	char esc[ESC_SIZE + 1];
 	strncpy (esc, &substr->str[i], sizeof (esc) - 1);
+	esc[sizeof (esc) - 1] = 0;
 	char * semicolon = strchr (esc, ';');
 	if (semicolon)
 	  semicolon[1] = 0;
-	else
-	  esc[sizeof (esc) - 1] = 0;
 	
 	if ('#' == substr->str[i + 1])
 	  {
-- 
2.43.0


From c15e514d39e13534b1ddec50d9894405d28a9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 41/70] fix: the biggest reference index in a text overflowed
 the size of the table of indexes

---
 src/mr_load.c   | 2 +-
 src/yaml_load.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index ce8e29f..2cc23ea 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -37,7 +37,7 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
     {
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
diff --git a/src/yaml_load.c b/src/yaml_load.c
index 76246dc..da8c4bc 100644
--- a/src/yaml_load.c
+++ b/src/yaml_load.c
@@ -12,7 +12,7 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
     {
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
@@ -25,7 +25,7 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
 
   for (i = 1; i < count; ++i)
     {
-      int ref_idx = ptrs->ra[i].first_child;
+      mr_idx_t ref_idx = ptrs->ra[i].first_child;
       if (ptrs->ra[i].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
 	if ((ref_idx > max_idx) || (table[ref_idx] == 0))
 	  if ((ref_idx < count) && (ptrs->ra[ref_idx].idx == MR_NULL_IDX))
-- 
2.43.0


From 842e657e059f493ba5d5c7d4865f7d121652044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 42/70] fix: references in a text were set without check of the
 type of the referenced node

---
 src/mr_load.c | 58 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/mr_load.c b/src/mr_load.c
index 2cc23ea..7dbf948 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -19,6 +19,58 @@
 
 TYPEDEF_FUNC (mr_status_t, mr_load_handler_t, (mr_idx_t /* idx */, mr_ra_ptrdes_t * /* ptrs */));
 
+/**
+ * Checks that a pointer might be set to the node or to the content of the node it refers on.
+ * @param ptrs resizable array with pointers descriptors
+ * @param idx index of a pointer or a string
+ * @param ref_idx index of the node it refers on
+ * @return true if the type of the node is what the pointer is declared for
+ */
+static bool
+mr_reference_is_typed (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, mr_idx_t ref_idx)
+{
+  mr_ptrdes_t * ptrdes = &ptrs->ra[idx];
+  mr_ptrdes_t * ref = &ptrs->ra[ref_idx];
+  mr_td_t * tdp = ptrdes->fdp ? ptrdes->fdp->stype.tdp : NULL;
+  mr_td_t * ref_tdp = ref->fdp ? ref->fdp->stype.tdp : NULL;
+  mr_type_t mr_type = (MR_TYPE_STRING == ptrdes->mr_type) ? MR_TYPE_CHAR_ARRAY : ptrdes->mr_type_aux;
+  mr_type_t ref_type = ref->mr_type;
+  mr_size_t ref_size = ref->MR_SIZE;
+
+  if (ptrdes->flags & MR_IS_CONTENT_REFERENCE)
+    {
+      if ((ref_type != MR_TYPE_STRING) || (NULL == ref->data.ptr))
+	return (false);
+      ref_type = MR_TYPE_CHAR_ARRAY;
+      ref_size = *(char**)ref->data.ptr ? strlen (*(char**)ref->data.ptr) + sizeof (char) : 0;
+    }
+  else if (MR_TYPE_ARRAY == ref_type)
+    ref_type = ref->mr_type_aux; /* address of an array is an address of its first element */
+
+  switch (mr_type)
+    {
+    case MR_TYPE_NONE:
+    case MR_TYPE_VOID:
+      return (true);
+
+    case MR_TYPE_CHAR_ARRAY:
+      if (ref_type != MR_TYPE_CHAR_ARRAY)
+	return (false);
+      return ((MR_TYPE_STRING == ptrdes->mr_type) || (NULL == tdp) || (0 == ref_size) || (tdp->size <= ref_size));
+
+    case MR_TYPE_ENUM:
+    case MR_TYPE_STRUCT:
+    case MR_TYPE_UNION:
+    case MR_TYPE_ANON_UNION:
+    case MR_TYPE_NAMED_ANON_UNION:
+    case MR_TYPE_POINTER:
+      return ((ref_type == mr_type) && (ref_tdp == tdp));
+
+    default:
+      return (ref_type == mr_type);
+    }
+}
+
 /**
  * Post load references setting. If node was marked as references
  * it should be substitute with actual pointer. This substition
@@ -79,6 +131,12 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
 	    continue;
 	  }
 
+	if (!mr_reference_is_typed (ptrs, i, idx))
+	  {
+	    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[idx].mr_type);
+	    continue;
+	  }
+
 	if (ptrs->ra[i].flags & MR_IS_CONTENT_REFERENCE)
 	  {
 	    if (NULL == data)
-- 
2.43.0


From 4d94b76d8afa7d0cce661c9af31d771aef4bc501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 43/70] fix: a string within an allocated array of single chars
 was reallocated as if it was allocated on its own

---
 src/mr_load.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 7dbf948..4bd42df 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -540,7 +540,8 @@ mr_get_char_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs, char * str, size_t str_l
 
   /* pointers on char arrays of unspecified size are dynamically allocated strings */
   if ((str_len >= max_size) && (max_size <= sizeof (char)) && (ptrdes->parent != MR_NULL_IDX))
-    if (MR_TYPE_POINTER == ptrs->ra[ptrdes->parent].mr_type)
+    if ((MR_TYPE_POINTER == ptrs->ra[ptrdes->parent].mr_type) &&
+	(ptrs->ra[ptrdes->parent].first_child == idx) && (MR_NULL_IDX == ptrdes->next)) /* only element in the allocated memory */
       {
 	void * data = MR_REALLOC (ptrdes->data.ptr, str_len + 1);
 	if (NULL == data)
-- 
2.43.0


From f7cdc41a5ebd8d82103497a6f4d29a8f021ab020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 44/70] fix: hash table counted a key that was not added
 because of memory failure

---
 src/mr_ic.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 46c05e0..c4531d4 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -571,7 +571,10 @@ mr_ic_hash_add (mr_ic_t * ic, mr_ptr_t key)
 	return (NULL);
       ++ic->items_count;
       if (MR_SUCCESS != mr_ic_hash_reindex (&dst_ic, ic))
-	return (NULL);
+	{
+	  --ic->items_count; /* key was not added */
+	  return (NULL);
+	}
 
       mr_ic_free (ic);
       *ic = dst_ic;
-- 
2.43.0


From 71ea50dc0ed27e1d6a6054bf0883a2ce271516da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 45/70] fix: a reference in a text could set a double pointer
 to another double pointer

---
 src/mr_load.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 4bd42df..108b306 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -63,9 +63,13 @@ mr_reference_is_typed (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, mr_idx_t ref_idx)
     case MR_TYPE_UNION:
     case MR_TYPE_ANON_UNION:
     case MR_TYPE_NAMED_ANON_UNION:
-    case MR_TYPE_POINTER:
       return ((ref_type == mr_type) && (ref_tdp == tdp));
 
+    case MR_TYPE_POINTER:
+      /* pointer on a pointer can't refer on another pointer on a pointer */
+      return ((ref_type == mr_type) && (ref_tdp == tdp) &&
+	      ((MR_TYPE_ARRAY == ref->mr_type) || (ref->mr_type_aux == (tdp ? tdp->mr_type : MR_TYPE_VOID))));
+
     default:
       return (ref_type == mr_type);
     }
-- 
2.43.0


From 22a67aed148f4dd137f3d1a3ab034a149dd2b4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 46/70] fix: number of array elements in an XDR stream was not
 limited by the dimension of the array

---
 src/xdr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xdr.c b/src/xdr.c
index 872ab20..33b9c2f 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -979,6 +979,10 @@ xdr_load_array (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  if (fd_.stype.size == 0)
 	    return (MR_SUCCESS);
 
+	  /* elements beyond the declared dimension have no room */
+	  if (ptrs->ra[idx].MR_SIZE / fd_.stype.size > count)
+	    return (MR_FAILURE);
+
 	  count = ptrs->ra[idx].MR_SIZE / fd_.stype.size;
 	  ptrs->ra[idx].MR_SIZE = count * fd_.stype.size;
 
-- 
2.43.0


From d197eb79e42bd0288a46e9232602f993dbd8d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 47/70] fix: memory was released several times if a reference
 in an XDR stream was undefined

---
 src/xdr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xdr.c b/src/xdr.c
index 33b9c2f..06f286a 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -343,6 +343,10 @@ mr_xdr_load (void * data, mr_fd_t * fdp, XDR * xdrs)
 	{
 	  /* unions might be not resolvable in partially loaded object, so release here everything that was loaded */
 	  mr_idx_t i;
+	  /* references own nothing */
+	  for (i = ptrs.size / sizeof (ptrs.ra[0]) - 1; i > 0; --i)
+	    if (ptrs.ra[i].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
+	      *(void**)ptrs.ra[i].data.ptr = NULL;
 	  for (i = ptrs.size / sizeof (ptrs.ra[0]) - 1; i > 0; --i)
 	    if (((MR_TYPE_POINTER == ptrs.ra[i].mr_type) || (MR_TYPE_STRING == ptrs.ra[i].mr_type))
 		&& *(void**)ptrs.ra[i].data.ptr)
-- 
2.43.0


From 9c4a5c5de24e457650d41bc6b84b23b362244791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 48/70] fix: references in XDR streams were set without check
 of the type of the referenced node

---
 src/mr_load.c |  2 +-
 src/mr_load.h |  1 +
 src/xdr.c     | 11 +++++++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 108b306..393de2a 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -26,7 +26,7 @@ TYPEDEF_FUNC (mr_status_t, mr_load_handler_t, (mr_idx_t /* idx */, mr_ra_ptrdes_
  * @param ref_idx index of the node it refers on
  * @return true if the type of the node is what the pointer is declared for
  */
-static bool
+bool
 mr_reference_is_typed (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, mr_idx_t ref_idx)
 {
   mr_ptrdes_t * ptrdes = &ptrs->ra[idx];
diff --git a/src/mr_load.h b/src/mr_load.h
index 6d8ebd6..1ded2b3 100644
--- a/src/mr_load.h
+++ b/src/mr_load.h
@@ -5,6 +5,7 @@
 
 extern mr_status_t mr_load_integer (mr_idx_t, mr_ra_ptrdes_t *);
 extern mr_status_t mr_load_func (mr_idx_t, mr_ra_ptrdes_t *);
+extern bool mr_reference_is_typed (mr_ra_ptrdes_t *, mr_idx_t, mr_idx_t);
 extern void mr_pointer_set_size (mr_idx_t, mr_ra_ptrdes_t *);
 
 #endif /* _MR_LOAD_H_ */
diff --git a/src/xdr.c b/src/xdr.c
index 06f286a..5d757f9 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -267,6 +267,13 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
 		continue;
 	      }
 
+	    if ((MR_NULL_IDX == ref_idx) || !mr_reference_is_typed (ptrs, i, ref_idx))
+	      {
+		MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[ref_idx].mr_type);
+		status = MR_FAILURE;
+		continue;
+	      }
+
 	    if (ptrs->ra[i].flags & MR_IS_CONTENT_REFERENCE)
 	      {
 		if (NULL == data)
@@ -301,6 +308,7 @@ xdr_load_inner (void * data, mr_fd_t * fdp, XDR * xdrs, mr_ra_ptrdes_t * ptrs, m
   ptrs->ra[idx].data.ptr = data;
 
   ptrs->ra[idx].fdp = fdp;
+  ptrs->ra[idx].MR_SIZE = fdp->stype.size;
   ptrs->ra[idx].mr_type = fdp->stype.mr_type;
   ptrs->ra[idx].mr_type_aux = fdp->stype.mr_type_aux;
 
@@ -315,6 +323,9 @@ xdr_load_inner (void * data, mr_fd_t * fdp, XDR * xdrs, mr_ra_ptrdes_t * ptrs, m
   else
     MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNSUPPORTED_NODE_TYPE, fdp->stype.mr_type);
 
+  if (fdp->non_persistent)
+    ptrs->ra[idx].fdp = fdp->stype.tdp ? &fdp->stype.tdp->mr_ptr_fd : NULL;
+
   return (status);
 }
 
-- 
2.43.0


From d8b9e3acd28ae47e7c4aba3fb1fdefc727ced342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:29 +0000
Subject: [PATCH 49/70] fix: an XDR stream could have any pointer loaded from
 raw bytes

---
 src/xdr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xdr.c b/src/xdr.c
index 5d757f9..c5df9d1 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -1089,6 +1089,12 @@ xdr_load_pointer (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
   if (ptrs->ra[idx].flags & MR_IS_NULL)
     return (MR_SUCCESS);
 
+  /* only data declared as opaque might be loaded as opaque */
+  if ((ptrs->ra[idx].flags & MR_IS_OPAQUE_DATA) &&
+      ((NULL == ptrs->ra[idx].fdp) || (NULL == ptrs->ra[idx].fdp->name.str) ||
+       (strcmp (ptrs->ra[idx].fdp->name.str, MR_OPAQUE_DATA_STR) != 0)))
+    return (MR_FAILURE);
+
   if (!xdr_uint32_t (xdrs, &ptrs->ra[idx].MR_SIZE))
     return (MR_FAILURE);
 
-- 
2.43.0


From b154d1d3006f07766d3d2c972ccd5d1c01d2a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:17 +0000
Subject: [PATCH 50/70] fix: a string that is a char array behind another
 pointer was saved, copied and freed as a separate one

---
 src/mr_save.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mr_save.c b/src/mr_save.c
index 0c30d97..e0911ad 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -731,6 +731,13 @@ resolve_pointer (mr_save_data_t * mr_save_data, mr_idx_t ref_idx, bool * resolve
   if (element_size == 0)
     return (0);
   
+  /* previously saved string is a part of an array that might be longer than this string */
+  if ((MR_TYPE_STRING == ra[ref_parent].mr_type) && is_first_child (ra, ref_idx) && (element_size > sizeof (char)))
+    {
+      *resolved = true;
+      return (move_nodes_to_parent (ptrs, ref_parent, idx));
+    }
+
   if (MR_NULL_IDX == ra[parent].first_child) /* this is the first element in resizable array */
     {
       if (ra[idx].MR_SIZE <= ra[ref_idx].MR_SIZE)
-- 
2.43.0


From cf4f179fb2f1824f558d429cf570acd9913639f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 51/70] fix: division by zero in a C initializer was loaded as
 zero

---
 src/cinit_load.y | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index 34ba319..c88e434 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -224,15 +224,15 @@ compaund
 }
 
 expr:
-  expr TOK_CINIT_PLUS expr { mr_value_add (&$$, &$1, &$3); }
-| expr TOK_CINIT_MINUS expr { mr_value_sub (&$$, &$1, &$3); }
-| expr TOK_CINIT_MUL expr { mr_value_mul (&$$, &$1, &$3); }
-| expr TOK_CINIT_DIV expr { mr_value_div (&$$, &$1, &$3); }
-| expr TOK_CINIT_MOD expr { mr_value_mod (&$$, &$1, &$3); }
-| expr TOK_CINIT_BIT_OR expr { mr_value_bit_or (&$$, &$1, &$3); }
-| expr TOK_CINIT_BIT_AND expr { mr_value_bit_and (&$$, &$1, &$3); }
-| expr TOK_CINIT_BIT_XOR expr { mr_value_bit_xor (&$$, &$1, &$3); }
-| TOK_CINIT_MINUS expr %prec NEG { $$ = $2; mr_value_neg (&$$); }
+  expr TOK_CINIT_PLUS expr { if (MR_SUCCESS != mr_value_add (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_MINUS expr { if (MR_SUCCESS != mr_value_sub (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_MUL expr { if (MR_SUCCESS != mr_value_mul (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_DIV expr { if (MR_SUCCESS != mr_value_div (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_MOD expr { if (MR_SUCCESS != mr_value_mod (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_BIT_OR expr { if (MR_SUCCESS != mr_value_bit_or (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_BIT_AND expr { if (MR_SUCCESS != mr_value_bit_and (&$$, &$1, &$3)) { YYERROR; } }
+| expr TOK_CINIT_BIT_XOR expr { if (MR_SUCCESS != mr_value_bit_xor (&$$, &$1, &$3)) { YYERROR; } }
+| TOK_CINIT_MINUS expr %prec NEG { $$ = $2; if (MR_SUCCESS != mr_value_neg (&$$)) { YYERROR; } }
 | TOK_CINIT_PLUS expr %prec NEG { $$ = $2; }
 | TOK_CINIT_NUMBER { $$ = $1; }
 | TOK_CINIT_ID {
-- 
2.43.0


From 8f9b685504bf519aabcd602ec2cffd3544531921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 52/70] fix: bit-wise operators of C initializers all had the
 same precedence

---
 src/cinit_load.y | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index c88e434..7ff2843 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -93,7 +93,9 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
 %token <string> TOK_CINIT_FIELD_PREFIX TOK_CINIT_FIELD_CAST TOK_CINIT_STRING TOK_CINIT_CHAR TOK_CINIT_ID
 %token TOK_CINIT_NULL TOK_CINIT_DOT TOK_CINIT_ASSIGN TOK_CINIT_LBRACE TOK_CINIT_RBRACE TOK_CINIT_LPAREN TOK_CINIT_RPAREN TOK_CINIT_COMMA TOK_CINIT_ERROR
 
-%left TOK_CINIT_BIT_OR TOK_CINIT_BIT_AND TOK_CINIT_BIT_XOR
+%left TOK_CINIT_BIT_OR
+%left TOK_CINIT_BIT_XOR
+%left TOK_CINIT_BIT_AND
 %left TOK_CINIT_PLUS TOK_CINIT_MINUS
 %left TOK_CINIT_MUL TOK_CINIT_DIV TOK_CINIT_MOD
 %precedence NEG 
-- 
2.43.0


From f66b5dc7b9773329170081583ae3a7b355d8ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 53/70] fix: octal numbers with digits 8 or 9 in C initializers
 were cut short

---
 src/cinit_load.l | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cinit_load.l b/src/cinit_load.l
index 87bc48c..5e2168f 100644
--- a/src/cinit_load.l
+++ b/src/cinit_load.l
@@ -46,8 +46,7 @@ WS	[[:space:]]*
 ID	[_[:alpha:]][_[:alnum:]]*
 INT_NUMBER [[:digit:]]+
 HEX_NUMBER (0x|0X)[[:xdigit:]]+
-OCT_NUMBER 0[[0-7]]+
-NUMBER {INT_NUMBER}|{HEX_NUMBER}|{OCT_NUMBER}
+NUMBER {INT_NUMBER}|{HEX_NUMBER}
 FLOAT_NAN [+-]?[Nn][Aa][Nn]
 FLOAT_INF [+-]?[Ii][Nn][Ff]
 FLOAT_NUMBER {FLOAT_NAN}|{FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?
@@ -63,7 +62,12 @@ IMAGENARY_NUMBER ({FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBE
 "TRUE" { yylval->value.value_type = MR_VT_INT; yylval->value.vt_int = true; return (TOK_CINIT_NUMBER); }
 [Ii] { yylval->value.value_type = MR_VT_COMPLEX; yylval->value.vt_complex = I; return (TOK_CINIT_NUMBER); }
 
-{NUMBER} { yylval->value.value_type = MR_VT_INT; yylval->value.vt_int = mr_strtouintmax (yytext, NULL, 0); return (TOK_CINIT_NUMBER); }
+{NUMBER} {
+  char * end;
+  yylval->value.value_type = MR_VT_INT;
+  yylval->value.vt_int = mr_strtouintmax (yytext, &end, 0);
+  return (*end ? TOK_CINIT_ERROR : TOK_CINIT_NUMBER); /* there are no digits 8 and 9 in an octal number */
+}
 
 {FLOAT_NUMBER} { yylval->value.value_type = MR_VT_FLOAT; yylval->value.vt_float = strtold (yytext, NULL); return (TOK_CINIT_NUMBER); }
 
-- 
2.43.0


From 131827d648ffe8f7284ca9f8a7fe25cfa84f3e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 54/70] fix: operators + and - in front of inf and nan were
 taken for a sign in C initializers

---
 src/cinit_load.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cinit_load.l b/src/cinit_load.l
index 5e2168f..c1fa33c 100644
--- a/src/cinit_load.l
+++ b/src/cinit_load.l
@@ -47,8 +47,8 @@ ID	[_[:alpha:]][_[:alnum:]]*
 INT_NUMBER [[:digit:]]+
 HEX_NUMBER (0x|0X)[[:xdigit:]]+
 NUMBER {INT_NUMBER}|{HEX_NUMBER}
-FLOAT_NAN [+-]?[Nn][Aa][Nn]
-FLOAT_INF [+-]?[Ii][Nn][Ff]
+FLOAT_NAN [Nn][Aa][Nn]
+FLOAT_INF [Ii][Nn][Ff]
 FLOAT_NUMBER {FLOAT_NAN}|{FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?
 IMAGENARY_NUMBER ({FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?)[Ii]
 %%
-- 
2.43.0


From 7205d7c2efa4f4e8552838a4637c9950cf004b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 55/70] fix: names in parentheses in C initializers were always
 taken for a type cast

---
 src/cinit_load.l | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/cinit_load.l b/src/cinit_load.l
index c1fa33c..a5fba54 100644
--- a/src/cinit_load.l
+++ b/src/cinit_load.l
@@ -8,6 +8,7 @@
 %option prefix="mr_cinit_"
 %{
 #include <string.h>
+#include <stdbool.h>
 #include <complex.h>
 #include <math.h>
 #include <ctype.h>
@@ -38,6 +39,15 @@ get_type (mr_substr_t * substr, char * start)
     }
 }
 
+static bool
+is_type (mr_substr_t * substr)
+{
+  char name[substr->length + sizeof (char)];
+  memcpy (name, substr->str, substr->length);
+  name[substr->length] = 0;
+  return ((0 == strcmp (name, "void")) || (NULL != mr_get_td_by_name_internal (name)));
+}
+
 %}
 
 %x in_comment
@@ -98,7 +108,16 @@ IMAGENARY_NUMBER ({FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBE
   return (TOK_CINIT_CHAR);
 }
 
-"("{WS}({ID}{WS})*{ID}{WS}\*?{WS}("["{WS}"]")?{WS}")" { get_type (&yylval->string, &yytext[1]); return (TOK_CINIT_FIELD_CAST); }
+"("{WS}({ID}{WS})*{ID}{WS}\*?{WS}("["{WS}"]")?{WS}")" {
+  get_type (&yylval->string, &yytext[1]);
+  if (!is_type (&yylval->string))
+    {
+      /* just a name in parentheses */
+      yyless (1);
+      return (TOK_CINIT_LPAREN);
+    }
+  return (TOK_CINIT_FIELD_CAST);
+}
 
 "/*"{WS}{ID}{WS}"="{WS}[[:digit:]]+{WS}"*/" {
   mr_get_id (&yylval->id_ivalue.id, &yytext[2]);
-- 
2.43.0


From 9171459bc38235c1c1c443d296dd31341aede604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 56/70] fix: NaN, infinity and huge floats were loaded into
 integers as garbage

---
 src/mr_load.c  | 16 ++++++++++++++++
 src/mr_value.c |  4 ++--
 src/mr_value.h |  1 +
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 393de2a..0d263d0 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -205,6 +205,22 @@ mr_load_none (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
   return (MR_SUCCESS);
 }
 
+/**
+ * Cast float to integer. mr_value.c is compiled with -ffast-math and could not tell NaN.
+ * @param result pointer on place to save integer
+ * @param value float
+ * @return Status, failure if there is no such integer
+ */
+mr_status_t
+mr_float_to_int (mr_intmax_t * result, long_double_t value)
+{
+  const long_double_t limit = (mr_uintmax_t)1 << (__CHAR_BIT__ * sizeof (mr_uintmax_t) - 1);
+  if (!((-limit <= value) && (value < limit)))
+    return (MR_FAILURE);
+  *result = value;
+  return (MR_SUCCESS);
+}
+
 /**
  * MR_INTEGER load handler
  * @param idx node index
diff --git a/src/mr_value.c b/src/mr_value.c
index 8d1b9bc..c3009e1 100644
--- a/src/mr_value.c
+++ b/src/mr_value.c
@@ -337,7 +337,7 @@ mr_value_cast (mr_value_type_t value_type, mr_value_t * mr_value)
     case MR_VT_FLOAT:
       switch (value_type)
 	{
-	case MR_VT_INT: mr_value->vt_int = mr_value->vt_float; break;
+	case MR_VT_INT: status = mr_float_to_int (&mr_value->vt_int, mr_value->vt_float); break;
 	case MR_VT_FLOAT: break;
 	case MR_VT_COMPLEX: mr_value->vt_complex = mr_value->vt_float; break;
 	default: status = MR_FAILURE; break;
@@ -347,7 +347,7 @@ mr_value_cast (mr_value_type_t value_type, mr_value_t * mr_value)
     case MR_VT_COMPLEX:
       switch (value_type)
 	{
-	case MR_VT_INT: mr_value->vt_int = mr_value->vt_complex; break;
+	case MR_VT_INT: status = mr_float_to_int (&mr_value->vt_int, __real__ mr_value->vt_complex); break;
 	case MR_VT_FLOAT: mr_value->vt_float = mr_value->vt_complex; break;
 	case MR_VT_COMPLEX: break;
 	default: status = MR_FAILURE; break;
diff --git a/src/mr_value.h b/src/mr_value.h
index 86d9d34..252e943 100644
--- a/src/mr_value.h
+++ b/src/mr_value.h
@@ -8,6 +8,7 @@
 extern mr_status_t mr_value_to_mr_ptrdes (mr_ptrdes_t * ptrdes, mr_value_t * mr_value);
 extern mr_status_t mr_ptrdes_to_mr_value (mr_value_t * mr_value, mr_ptrdes_t * ptrdes);
 
+extern mr_status_t mr_float_to_int (mr_intmax_t * result, long_double_t value);
 extern mr_status_t mr_value_cast (mr_value_type_t value_type, mr_value_t * value);
 extern mr_status_t mr_value_neg (mr_value_t * value);
 extern bool mr_value_is_zero (mr_value_t * value);
-- 
2.43.0


From 449dd781ee75dce5fcd956c101554e7fcb3da7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:03 +0000
Subject: [PATCH 57/70] fix: position of a growable XDR stream could be set
 behind its end, and reading continued there (out of bounds)

---
 src/xdr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/xdr.c b/src/xdr.c
index c5df9d1..d685630 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -132,6 +132,14 @@ xdrra_getpostn (__const XDR * xdrs)
 static bool_t
 xdrra_setpostn (XDR * xdrs, u_int pos)
 {
+  mr_rarray_t * ra = (mr_rarray_t*)xdrs->x_private;
+
+  if (NULL == ra)
+    return (false);
+
+  if (pos > ra->MR_SIZE)
+    return (false);
+
   xdrs->x_handy = pos;
   return (true);
 }
-- 
2.43.0


From 6d8585223cc25d932dd7215508a8d083cf0fd2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:03 +0000
Subject: [PATCH 58/70] fix: XDR_INLINE of a growable XDR stream did not
 consume the data

---
 src/xdr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xdr.c b/src/xdr.c
index d685630..e4311ba 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -162,7 +162,9 @@ xdrra_inline (XDR * xdrs, u_int len)
     return (NULL);
 
   char * base = ra->data.ptr;
-  return ((int32_t*)&base[xdrs->x_handy]);
+  int32_t * data = (int32_t*)&base[xdrs->x_handy];
+  xdrs->x_handy += len;
+  return (data);
 }
 
 /**
-- 
2.43.0


From c1d0688c72e09f8119b6db24043f412e0eb6defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:49 +0000
Subject: [PATCH 59/70] fix: content reference to a string that is itself set
 by a later reference stayed NULL

---
 src/mr_load.c | 120 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 73 insertions(+), 47 deletions(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 0d263d0..9d4d53a 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -75,6 +75,55 @@ mr_reference_is_typed (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, mr_idx_t ref_idx)
     }
 }
 
+/**
+ * Sets one reference.
+ * @param ptrs resizable array with pointers descriptors
+ * @param i index of the reference
+ * @param idx index of the node it refers on
+ */
+static void
+mr_set_crossref (mr_ra_ptrdes_t * ptrs, mr_idx_t i, mr_idx_t idx)
+{
+  if (MR_NULL_IDX == idx)
+    {
+      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNDEFINED_REF_IDX, MR_REF_IDX, ptrs->ra[i].first_child);
+      return;
+    }
+
+  void * data = ptrs->ra[idx].data.ptr;
+
+  if ((MR_TYPE_POINTER != ptrs->ra[i].mr_type) &&
+      (MR_TYPE_STRING != ptrs->ra[i].mr_type))
+    {
+      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[i].mr_type);
+      return;
+    }
+
+  if (!mr_reference_is_typed (ptrs, i, idx))
+    {
+      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[idx].mr_type);
+      return;
+    }
+
+  if (ptrs->ra[i].flags & MR_IS_CONTENT_REFERENCE)
+    {
+      if (NULL == data)
+	{
+	  MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_NULL_POINTER);
+	  return;
+	}
+      data = *(void**)data;
+    }
+
+  if (NULL == ptrs->ra[i].data.ptr)
+    {
+      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNEXPECTED_NULL_POINTER);
+      return;
+    }
+
+  *(void**)ptrs->ra[i].data.ptr = data;
+}
+
 /**
  * Post load references setting. If node was marked as references
  * it should be substitute with actual pointer. This substition
@@ -88,17 +137,19 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
   mr_idx_t i, count = ptrs->size / sizeof (ptrs->ra[0]);
   mr_idx_t max_idx = 0;
   mr_idx_t * table;
+  mr_idx_t * waiting; /* waiting[i] is a content reference that needs the content of i */
 
   for (i = 0; i < count; ++i)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1 + count, sizeof (table[0]));
   if (NULL == table)
     {
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
       return (MR_FAILURE);
     }
+  waiting = &table[(size_t)max_idx + 1];
 
   for (i = 0; i < count; ++i)
     if (ptrs->ra[i].idx != MR_NULL_IDX)
@@ -109,58 +160,33 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
 	table[ptrs->ra[i].idx] = i;
       }
 
-  /* set all cross refernces */
-  for (i = 0; i < count; ++i)
-    if (ptrs->ra[i].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
-      {
-	if (ptrs->ra[i].first_child > max_idx)
-	  {
-	    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNDEFINED_REF_IDX, MR_REF_IDX, ptrs->ra[i].first_child);
-	    continue;
-	  }
-	
-	mr_idx_t idx = table[ptrs->ra[i].first_child];
-	if (idx == 0)
-	  {
-	    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNDEFINED_REF_IDX, MR_REF_IDX, ptrs->ra[i].first_child);
-	    continue;
-	  }
-
-	void * data = ptrs->ra[idx].data.ptr;
-
-	if ((MR_TYPE_POINTER != ptrs->ra[i].mr_type) &&
-	    (MR_TYPE_STRING != ptrs->ra[i].mr_type))
-	  {
-	    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[i].mr_type);
-	    continue;
-	  }
-
-	if (!mr_reference_is_typed (ptrs, i, idx))
-	  {
-	    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[idx].mr_type);
-	    continue;
-	  }
+#define MR_CROSSREF_TARGET(IDX) ((ptrs->ra[IDX].first_child > max_idx) ? MR_NULL_IDX : table[ptrs->ra[IDX].first_child])
 
-	if (ptrs->ra[i].flags & MR_IS_CONTENT_REFERENCE)
-	  {
-	    if (NULL == data)
-	      {
-		MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_NULL_POINTER);
-		continue;
-	      }
-	    else
-	      data = *(void**)data;
-	  }
+  /* set all cross references */
+  for (i = 0; i < count; ++i)
+    if ((ptrs->ra[i].flags & MR_IS_REFERENCE) && !(ptrs->ra[i].flags & MR_IS_CONTENT_REFERENCE))
+      mr_set_crossref (ptrs, i, MR_CROSSREF_TARGET (i));
 
-	if (NULL == ptrs->ra[i].data.ptr)
+  /* content might be set by another reference, so it should be resolved first */
+  for (i = 1; i < count; ++i)
+    if ((ptrs->ra[i].flags & MR_IS_CONTENT_REFERENCE) && (0 == waiting[i]))
+      {
+	mr_idx_t idx = i, target;
+	waiting[i] = i;
+	for (target = MR_CROSSREF_TARGET (idx);
+	     (target != MR_NULL_IDX) && (ptrs->ra[target].flags & MR_IS_CONTENT_REFERENCE) && (0 == waiting[target]);
+	     target = MR_CROSSREF_TARGET (idx))
 	  {
-	    MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNEXPECTED_NULL_POINTER);
-	    continue;
+	    waiting[target] = idx;
+	    idx = target;
 	  }
 
-	*(void**)ptrs->ra[i].data.ptr = data;
+	for ( ; idx != i; idx = waiting[idx])
+	  mr_set_crossref (ptrs, idx, MR_CROSSREF_TARGET (idx));
+	mr_set_crossref (ptrs, i, MR_CROSSREF_TARGET (i));
       }
-  
+#undef MR_CROSSREF_TARGET
+
   MR_FREE (table);
 
   return (MR_SUCCESS);
-- 
2.43.0


From 34456573390ce2364aad1b92e174e0724215af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:43 +0000
Subject: [PATCH 60/70] fix: threads that waited for the initialisation were
 not ordered after it

---
 src/metaresc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metaresc.c b/src/metaresc.c
index 15b1fe2..2dcffec 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -1913,10 +1913,10 @@ mr_sort_td (mr_td_t * tdp)
 inline void
 mr_conf_init ()
 {
-  static volatile bool initialized = false;
-  static volatile bool init_in_progress = false;
+  static bool initialized = false;
+  static bool init_in_progress = false;
 
-  if (initialized)
+  if (__atomic_load_n (&initialized, __ATOMIC_ACQUIRE))
     return;
 
   if (!__atomic_test_and_set (&init_in_progress, __ATOMIC_RELAXED))
@@ -1973,9 +1973,9 @@ mr_conf_init ()
 
       mr_udo_init ();
 
-      initialized = true;
+      __atomic_store_n (&initialized, true, __ATOMIC_RELEASE);
     }
-  while (!initialized);
+  while (!__atomic_load_n (&initialized, __ATOMIC_ACQUIRE));
 }
 
 /**
-- 
2.43.0


From f35e9b4b5fb1fd8eeb3e262141f56bdd2b934e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:35 +0000
Subject: [PATCH 61/70] fix: collections of a registered type could not be
 created by the first call into the library

---
 src/mr_ic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index c4531d4..7ae9be8 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -229,7 +229,7 @@ mr_ic_unsorted_array_new (mr_ic_t * ic, mr_compar_fn_t compar_fn, char * key_typ
 
   if ((compar_fn == NULL) && (context == NULL))
     {
-      mr_td_t * tdp = mr_get_td_by_name_internal (key_type);
+      mr_td_t * tdp = mr_get_td_by_name (key_type);
       if (tdp)
 	{
 	  generic_context.data.ptr = tdp;
@@ -418,7 +418,7 @@ mr_ic_sorted_array_new (mr_ic_t * ic, mr_compar_fn_t compar_fn, char * key_type,
 
   if ((compar_fn == NULL) && (context == NULL))
     {
-      mr_td_t * tdp = mr_get_td_by_name_internal (key_type);
+      mr_td_t * tdp = mr_get_td_by_name (key_type);
       if (tdp)
 	{
 	  generic_context.data.ptr = tdp;
@@ -691,7 +691,7 @@ mr_ic_hash_new (mr_ic_t * ic, mr_hash_fn_t hash_fn, mr_compar_fn_t compar_fn, ch
 
   if ((compar_fn == NULL) && (context == NULL) && (NULL == hash_fn))
     {
-      mr_td_t * tdp = mr_get_td_by_name_internal (key_type);
+      mr_td_t * tdp = mr_get_td_by_name (key_type);
       if (tdp)
 	{
 	  generic_context.data.ptr = tdp;
@@ -839,7 +839,7 @@ mr_ic_static_array_new (mr_ic_t * ic, mr_hash_fn_t hash_fn, mr_compar_fn_t compa
 
   if ((compar_fn == NULL) && (context == NULL))
     {
-      mr_td_t * tdp = mr_get_td_by_name_internal (key_type);
+      mr_td_t * tdp = mr_get_td_by_name (key_type);
       if (tdp)
 	{
 	  generic_context.data.ptr = tdp;
@@ -963,7 +963,7 @@ mr_ic_rbtree_new (mr_ic_t * ic, mr_compar_fn_t compar_fn, char * key_type, mr_re
 
   if ((compar_fn == NULL) && (context == NULL))
     {
-      mr_td_t * tdp = mr_get_td_by_name_internal (key_type);
+      mr_td_t * tdp = mr_get_td_by_name (key_type);
       if (tdp)
 	{
 	  generic_context.data.ptr = tdp;
@@ -1030,7 +1030,7 @@ mr_ic_avltree_new (mr_ic_t * ic, mr_compar_fn_t compar_fn, char * key_type, mr_r
 
   if ((compar_fn == NULL) && (context == NULL))
     {
-      mr_td_t * tdp = mr_get_td_by_name_internal (key_type);
+      mr_td_t * tdp = mr_get_td_by_name (key_type);
       if (tdp)
 	{
 	  generic_context.data.ptr = tdp;
-- 
2.43.0


From 732cbac4e9c37841b8dbed80e1eeef53d7e18d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:59 +0000
Subject: [PATCH 62/70] fix: constants and members could not be looked up by
 the first call into the library

---
 src/metaresc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metaresc.c b/src/metaresc.c
index 2dcffec..92b2d27 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -1130,6 +1130,8 @@ mr_get_enum_by_value (mr_td_t * tdp, mr_enum_value_type_t value)
 mr_ed_t *
 mr_get_enum_by_name (char * name)
 {
+  mr_conf_init ();
+
   mr_hashed_string_t hashed_name = { .str = name, .hash_value = mr_hash_str (name), }; 
   uintptr_t key = (uintptr_t)&hashed_name - offsetof (mr_ed_t, name);
   mr_ptr_t * result = mr_ic_find (&mr_conf.enum_by_name, key);
@@ -1708,6 +1710,8 @@ mr_type_void_fields_impl (char * type, char * name, ...)
 mr_fd_t *
 mr_get_any_fd_by_name (const char * name, mr_td_t * tdp)
 {
+  mr_conf_init ();
+
   mr_fd_t fd_ = { .name.str = (char*)name, .name.hash_value = 0, .stype.tdp = tdp, };
   mr_ic_t * ic = tdp ? &mr_conf.field_by_name_and_type : &mr_conf.field_by_name;
   mr_ptr_t * find = mr_ic_find (ic, &fd_);
-- 
2.43.0


From 02c898db6ee36695e796aa558edbe1dd6a5a3ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:36 +0000
Subject: [PATCH 63/70] fix: tables of escaped characters were cleared while
 another thread used them

---
 src/cinit_load.y | 5 ++---
 src/json_load.y  | 5 ++---
 src/scm_load.y   | 5 ++---
 src/xml_save.c   | 5 ++---
 4 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/cinit_load.y b/src/cinit_load.y
index 7ff2843..df43c40 100644
--- a/src/cinit_load.y
+++ b/src/cinit_load.y
@@ -33,13 +33,12 @@ cinit_unquote_str (mr_substr_t * substr, char * dst)
   static bool initialized = false;
   static char map[MR_ESC_CHAR_MAP_SIZE];
 
-  if (!initialized)
+  if (!__atomic_load_n (&initialized, __ATOMIC_ACQUIRE))
     {
-      memset (map, 0, sizeof (map));
       for (i = 0; i < MR_ESC_CHAR_MAP_SIZE; ++i)
 	if (mr_esc_char_map[i])
 	  map[(unsigned char)mr_esc_char_map[i]] = i;
-      initialized = true;
+      __atomic_store_n (&initialized, true, __ATOMIC_RELEASE);
     }
 
   if (NULL == substr->str)
diff --git a/src/json_load.y b/src/json_load.y
index 55fe4ec..10b0a0b 100644
--- a/src/json_load.y
+++ b/src/json_load.y
@@ -32,13 +32,12 @@ json_unquote_str (mr_substr_t * substr, char * dst)
   static bool initialized = false;
   static char map[MR_ESC_CHAR_MAP_SIZE];
 
-  if (!initialized)
+  if (!__atomic_load_n (&initialized, __ATOMIC_ACQUIRE))
     {
-      memset (map, 0, sizeof (map));
       for (i = 0; i < MR_ESC_CHAR_MAP_SIZE; ++i)
 	if (mr_esc_char_map[i])
 	  map[(unsigned char)mr_esc_char_map[i]] = i;
-      initialized = true;
+      __atomic_store_n (&initialized, true, __ATOMIC_RELEASE);
     }
 
   if (NULL == substr->str)
diff --git a/src/scm_load.y b/src/scm_load.y
index 3e025bb..8e03085 100644
--- a/src/scm_load.y
+++ b/src/scm_load.y
@@ -35,13 +35,12 @@
     static bool initialized = false;
     static char map[MR_ESC_CHAR_MAP_SIZE];
 
-    if (!initialized)
+    if (!__atomic_load_n (&initialized, __ATOMIC_ACQUIRE))
       {
-	memset (map, 0, sizeof (map));
 	for (i = 0; i < MR_ESC_CHAR_MAP_SIZE; ++i)
 	  if (mr_esc_char_map[i])
 	    map[(unsigned char)mr_esc_char_map[i]] = i;
-	initialized = true;
+	__atomic_store_n (&initialized, true, __ATOMIC_RELEASE);
       }
 
     if (NULL == substr->str)
diff --git a/src/xml_save.c b/src/xml_save.c
index 6b39cbe..41121ca 100644
--- a/src/xml_save.c
+++ b/src/xml_save.c
@@ -53,9 +53,8 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
   static bool inited = false;
   static mr_xml_esc_t esc_seq_hash[MR_ESC_CHAR_MAP_SIZE];
   
-  if (!inited)
+  if (!__atomic_load_n (&inited, __ATOMIC_ACQUIRE))
     {
-      memset (esc_seq_hash, 0, sizeof (esc_seq_hash));
       for (i = 0; i < sizeof (esc_seq_hash) / sizeof (esc_seq_hash[0]); ++i)
 	if (esc_char_map[i])
 	  {
@@ -65,7 +64,7 @@ xml_unquote_string (mr_substr_t * substr, char * dst)
 	    esc_seq_hash[mapped].symbol = i;
 	    esc_seq_hash[mapped].length = length;
 	  }
-      inited = true;
+      __atomic_store_n (&inited, true, __ATOMIC_RELEASE);
     }
 
   for (i = 0; i < substr->length; ++i)
-- 
2.43.0


From a91176a2a2f1aa6a90dc19bebb6dd85c7b38794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:36 +0000
Subject: [PATCH 64/70] fix: names of constants were refused while another
 thread looked for the longest one

---
 src/mr_value.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mr_value.c b/src/mr_value.c
index c3009e1..7914a2d 100644
--- a/src/mr_value.c
+++ b/src/mr_value.c
@@ -74,9 +74,13 @@ enum_names_visitor (mr_ptr_t key, void * context)
 static char *
 mr_get_enum (char * str, mr_uintmax_t * data)
 {
-  static int enum_max_length = 0;
+  static int longest_enum = 0;
+  int enum_max_length = __atomic_load_n (&longest_enum, __ATOMIC_RELAXED);
   if (0 == enum_max_length)
-    mr_ic_foreach (&mr_conf.enum_by_name, enum_names_visitor, &enum_max_length);
+    {
+      mr_ic_foreach (&mr_conf.enum_by_name, enum_names_visitor, &enum_max_length);
+      __atomic_store_n (&longest_enum, enum_max_length, __ATOMIC_RELAXED);
+    }
   
   char * name = str;
   int size = 0;
-- 
2.43.0


From fd5599561046077f5e4044acbb7ed422d405f7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:36 +0000
Subject: [PATCH 65/70] fix: table of messages was not ordered with the flag
 that says it is filled

---
 src/mr_message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mr_message.c b/src/mr_message.c
index d408e15..8b08469 100644
--- a/src/mr_message.c
+++ b/src/mr_message.c
@@ -52,7 +52,7 @@ mr_message_format (mr_message_id_t message_id, va_list args)
   const char * format = "Unknown MR_MESSAGE_ID.";
   char * message = NULL;
 
-  if (!messages_inited)
+  if (!__atomic_load_n (&messages_inited, __ATOMIC_ACQUIRE))
     {
       mr_td_t * tdp = mr_get_td_by_name_internal ("mr_message_id_t");
       if (tdp)
@@ -60,7 +60,7 @@ mr_message_format (mr_message_id_t message_id, va_list args)
 	  int i;
 	  for (i = 0; tdp->param.enum_param.enums[i] != NULL; ++i)
 	    messages[tdp->param.enum_param.enums[i]->value._unsigned] = tdp->param.enum_param.enums[i]->meta;
-	  messages_inited = true;
+	  __atomic_store_n (&messages_inited, true, __ATOMIC_RELEASE);
 	}
     }
 
-- 
2.43.0


From e65ef911238e1d7335e41c7f604be052f0f3dd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:02 +0000
Subject: [PATCH 66/70] fix: threads that saved pointers to functions at the
 same time corrupted the cache of their names

---
 src/mr_stringify.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mr_stringify.c b/src/mr_stringify.c
index 67cfcfe..6ceaa4e 100644
--- a/src/mr_stringify.c
+++ b/src/mr_stringify.c
@@ -302,7 +302,8 @@ mr_fn_cache_cleanup (void)
   mr_ic_free (&cache);
 }
 
-const char * mr_serialize_func (void * func)
+static const char *
+mr_serialize_func_unlocked (void * func)
 {
 #ifdef HAVE_LIBDL
   mr_func_name_t * new_fn = NULL;
@@ -355,6 +356,18 @@ const char * mr_serialize_func (void * func)
   return (NULL);
 }
 
+const char * mr_serialize_func (void * func)
+{
+  static bool locked = false; /* the cache is common for all threads */
+  const char * name;
+
+  while (__atomic_test_and_set (&locked, __ATOMIC_ACQUIRE));
+  name = mr_serialize_func_unlocked (func);
+  __atomic_clear (&locked, __ATOMIC_RELEASE);
+
+  return (name);
+}
+
 int mr_ra_append_char (mr_rarray_t * mr_ra_str, char c)
 {
   if ((0 == mr_ra_str->MR_SIZE) || (NULL == mr_ra_str->data.ptr))
-- 
2.43.0


From 7f65563e7ecded0a53c91cc7913aa10596cabfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:21 +0000
Subject: [PATCH 67/70] fix: mr_read_xml_doc takes white spaces that follow one
 document as the beginning of the next one

XML documents are commonly terminated by a line feed (libxml2 does that). The
reader stops right after the root element, so the line feed became the first
character of the next document, and an XML declaration that is not at the very
beginning is rejected by both XML loaders.
---
 src/metaresc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metaresc.c b/src/metaresc.c
index 92b2d27..76cf6f8 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -2119,6 +2119,9 @@ mr_read_xml_doc (FILE * fd)
 	  return (NULL);
 	}
 
+      if ((size < 0) && isspace (c)) /* white spaces between documents are not a part of the document */
+	continue;
+
       str[++size] = c;
       if (size == max_size - 1)
 	{
-- 
2.43.0


From 1947b30f2d4a9a62560c662e60fabbb4caaf5b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:05 +0000
Subject: [PATCH 68/70] fix: functions with names of 64 and more characters
 could be saved but not loaded

---
 src/mr_load.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 9d4d53a..64f17fd 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -348,21 +348,22 @@ mr_load_func (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       case MR_VT_ID:
       case MR_VT_SUBSTR:
 	{
-	  char buf[1 << 6];
-	  typeof (ptrdes->load_params.vt_substr.length) length = MR_MIN (ptrdes->load_params.vt_substr.length, sizeof (buf) - 1);
-
-	  buf[0] = 0;
-	  buf[length] = 0;
-	  if (ptrdes->load_params.vt_substr.str)
-	    memcpy (buf, ptrdes->load_params.vt_substr.str, length);
+	  /* names of functions have no limit of length */
+	  char * func_name = MR_CALLOC (ptrdes->load_params.vt_substr.length + 1, sizeof (*func_name));
 
-	  if (ptrdes->load_params.vt_substr.length <= sizeof (buf) - 1)
-	    status = mr_get_func (ptrdes->data.ptr, buf);
-	  else
+	  if (NULL == func_name)
 	    {
-	      MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_READ_FUNC, buf);
+	      MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
 	      status = MR_FAILURE;
 	    }
+	  else
+	    {
+	      if (ptrdes->load_params.vt_substr.str)
+		memcpy (func_name, ptrdes->load_params.vt_substr.str, ptrdes->load_params.vt_substr.length);
+
+	      status = mr_get_func (ptrdes->data.ptr, func_name);
+	      MR_FREE (func_name);
+	    }
 	}
 	break;
       case MR_VT_STRING:
-- 
2.43.0


From 3e7778cb8165a2fc08200d355f79a8a8b0feb880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:01 +0000
Subject: [PATCH 69/70] fix: a message of an unknown number or level was looked
 up one element beyond the tables of texts and names

---
 src/mr_message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mr_message.c b/src/mr_message.c
index 8b08469..4351a91 100644
--- a/src/mr_message.c
+++ b/src/mr_message.c
@@ -64,7 +64,7 @@ mr_message_format (mr_message_id_t message_id, va_list args)
 	}
     }
 
-  if ((message_id <= sizeof (messages) / sizeof (messages[0])) && messages[message_id])
+  if ((message_id < sizeof (messages) / sizeof (messages[0])) && messages[message_id])
     format = messages[message_id];
 
   if (format)
@@ -99,7 +99,7 @@ mr_message (const char * file_name, const char * func_name, int line, mr_log_lev
 	{ MR_FOREACH (LL_INIT, ALL, TRACE, DEBUG, INFO, WARN, ERROR, FATAL, OFF) };
 
       if (((int)log_level >= 0)
-	  && ((int)log_level <= sizeof (log_level_str) / sizeof (log_level_str[0])))
+	  && ((int)log_level < sizeof (log_level_str) / sizeof (log_level_str[0])))
 	if (log_level_str[log_level])
 	  log_level_str_ = log_level_str[log_level];
 
-- 
2.43.0


From 5a2f88ed982dd00c338a52ec15badeaaf8948272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:01 +0000
Subject: [PATCH 70/70] fix: some loads and saves failed without a message

---
 src/mr_value.c  | 6 +++++-
 src/yaml_load.c | 1 +
 src/yaml_save.c | 5 ++++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mr_value.c b/src/mr_value.c
index 7914a2d..b634ca8 100644
--- a/src/mr_value.c
+++ b/src/mr_value.c
@@ -25,7 +25,10 @@ mr_value_to_mr_ptrdes (mr_ptrdes_t * ptrdes, mr_value_t * mr_value)
     case MR_VT_COMPLEX:
       ptrdes->load_params.vt_complex = MR_CALLOC (1, sizeof (*ptrdes->load_params.vt_complex));
       if (NULL == ptrdes->load_params.vt_complex)
-	return (MR_FAILURE);
+	{
+	  MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
+	  return (MR_FAILURE);
+	}
       *ptrdes->load_params.vt_complex = mr_value->vt_complex;
       break;
     default:
@@ -49,6 +52,7 @@ mr_ptrdes_to_mr_value (mr_value_t * mr_value, mr_ptrdes_t * ptrdes)
     case MR_VT_FLOAT: memcpy (&mr_value->vt_float, &ptrdes->load_params.vt_float, sizeof (mr_value->vt_float)); break;
     case MR_VT_COMPLEX: mr_value->vt_complex = *ptrdes->load_params.vt_complex; break;
     default:
+      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrdes->value_type);
       return (MR_FAILURE);
     }
   return (MR_SUCCESS);
diff --git a/src/yaml_load.c b/src/yaml_load.c
index da8c4bc..2384388 100644
--- a/src/yaml_load.c
+++ b/src/yaml_load.c
@@ -155,6 +155,7 @@ mr_yaml_load (char * str, mr_ra_ptrdes_t * ptrs)
 			status = yaml_add_node (ptrs, &parent, name_fdp, NULL, NULL, (char*)event.data.alias.anchor, false);
 			break;
 		      default:
+			MR_MESSAGE (MR_LL_ERROR, MR_MESSAGE_UNEXPECTED_DATA);
 			status = MR_FAILURE;
 			break;
 		      }
diff --git a/src/yaml_save.c b/src/yaml_save.c
index 5d8292d..8296416 100644
--- a/src/yaml_save.c
+++ b/src/yaml_save.c
@@ -270,7 +270,10 @@ yaml_allocate_ra_str (mr_rarray_t * mr_ra_str)
     mr_ra_str->data.ptr = MR_CALLOC (1, mr_ra_str->alloc_size);
 
   if (NULL == mr_ra_str->data.ptr)
-    return (MR_FAILURE);
+    {
+      MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
+      return (MR_FAILURE);
+    }
   
   mr_ra_str->data.string[0] = 0;
   mr_ra_str->MR_SIZE = 1;
-- 
2.43.0

