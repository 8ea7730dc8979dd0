From d50c73c38d25d778d8f7446440540f4c81bb3f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:57 +0000
Subject: [PATCH 01/30] fix: do not let string reference counts wrap to zero

A string used 65536 times had its 16-bit reference count wrap around to 0,
was treated as unused and lost when the database was committed.
---
 libmsi/string.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 0b20c0b..1d641f7 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -122,6 +122,13 @@ void msi_destroy_stringtable( string_table *st )
     msi_free( st );
 }
 
+/* reference counts stick at their maximum instead of wrapping around to
+ * zero, which would mean that the string is unused */
+static void add_refs( uint16_t *count, uint16_t refs )
+{
+    *count = refs > G_MAXUINT16 - *count ? G_MAXUINT16 : *count + refs;
+}
+
 static int st_find_free_entry( string_table *st )
 {
     unsigned i, sz, *s;
@@ -272,9 +279,9 @@ static int msi_addstring( string_table *st, unsigned n, const char *data, int le
         if( LIBMSI_RESULT_SUCCESS == _libmsi_id_from_string( st, data, &n ) )
         {
             if (persistence == StringPersistent)
-                st->strings[n].persistent_refcount += refcount;
+                add_refs( &st->strings[n].persistent_refcount, refcount );
             else
-                st->strings[n].nonpersistent_refcount += refcount;
+                add_refs( &st->strings[n].nonpersistent_refcount, refcount );
             return n;
         }
         n = st_find_free_entry( st );
@@ -316,9 +323,9 @@ int _libmsi_add_string( string_table *st, const char *data, int len, uint16_t re
     if( _libmsi_id_from_string_utf8( st, data, &n ) == LIBMSI_RESULT_SUCCESS )
     {
         if (persistence == StringPersistent)
-            st->strings[n].persistent_refcount += refcount;
+            add_refs( &st->strings[n].persistent_refcount, refcount );
         else
-            st->strings[n].nonpersistent_refcount += refcount;
+            add_refs( &st->strings[n].nonpersistent_refcount, refcount );
         return n;
     }
 
-- 
2.43.0


From 2d81ccc68a57202f2d8b26a6cbc2ffd75198ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:57 +0000
Subject: [PATCH 02/30] fix: keep the code page of a database without strings

A string pool that consists of its header alone still holds the code page.
---
 libmsi/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 1d641f7..51ffabe 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -502,13 +502,13 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
     if( r != LIBMSI_RESULT_SUCCESS)
         goto end;
 
-    if ( (poolsize > 4) && (GUINT16_FROM_LE(pool[1]) & 0x8000) )
+    if ( (poolsize >= 4) && (GUINT16_FROM_LE(pool[1]) & 0x8000) )
         *bytes_per_strref = LONG_STR_BYTES;
     else
         *bytes_per_strref = sizeof(uint16_t);
 
     count = poolsize/4;
-    if( poolsize > 4 )
+    if( poolsize >= 4 )
         codepage = GUINT16_FROM_LE(pool[0]) | ( (GUINT16_FROM_LE(pool[1]) & ~0x8000) << 16 );
     else
         codepage = CP_ACP;
-- 
2.43.0


From fa0593a4aacb45033ec0befcaaa70234cac016ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:57 +0000
Subject: [PATCH 03/30] fix: read the length and use count of strings of 64 KiB
 and more

The high word of the length is in the use count of the empty entry before the
string, where the writer puts it; the reader took the string's own use count
for it and so could not read back what was written.  It also read past the end
of a pool that ends in such an empty entry.
---
 libmsi/string.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 51ffabe..b3a6fff 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -540,7 +540,13 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
          */
         if (GUINT16_FROM_LE(pool[i*2]) == 0)
         {
-            len = (GUINT16_FROM_LE(pool[i*2+3]) << 16) + GUINT16_FROM_LE(pool[i*2+2]);
+            if (i + 1 >= count)
+            {
+                g_critical("string table corrupt?\n");
+                break;
+            }
+            len = (refs << 16) + GUINT16_FROM_LE(pool[i*2+2]);
+            refs = GUINT16_FROM_LE(pool[i*2+3]);
             i += 2;
         }
         else
@@ -549,7 +555,7 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
             i += 1;
         }
 
-        if ( (offset + len) > datasize )
+        if ( len > datasize - offset )
         {
             g_critical("string table corrupt?\n");
             break;
-- 
2.43.0


From 818407cd4fb64905ddec6a4f5ff54abe8d219ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:37 +0000
Subject: [PATCH 04/30] fix: fail to save a string the code page cannot
 represent, do not crash

g_convert_with_iconv() returns NULL then; its result was copied from.
---
 libmsi/string.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index b3a6fff..1dec975 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -394,8 +394,11 @@ static unsigned _libmsi_string_id( const string_table *st, unsigned id, char *bu
     cpconv = gsf_msole_iconv_open_codepage_for_export(codepage);
     str = g_convert_with_iconv(str_utf8, -1, cpconv, NULL, &len, NULL);
     g_iconv_close(cpconv);
+    if( !str )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
     if( *sz < len )
     {
+        msi_free(str);
         *sz = len;
         return LIBMSI_RESULT_MORE_DATA;
     }
@@ -464,6 +467,8 @@ static void string_totalsize( const string_table *st, unsigned *datasize, unsign
             cpconv = gsf_msole_iconv_open_codepage_for_export(codepage);
             str = g_convert_with_iconv( st->strings[i].str, -1, cpconv, NULL, &len, NULL);
             g_iconv_close(cpconv);
+            if (!str)
+                continue;
 	    msi_free(str);
             (*datasize) += len;
             if (len>0xffff)
@@ -639,7 +644,7 @@ unsigned msi_save_string_table( const string_table *st, LibmsiDatabase *db, unsi
         if( r != LIBMSI_RESULT_SUCCESS )
         {
             g_critical("failed to fetch string\n");
-            sz = 0;
+            goto err;
         }
 
         if (sz == 0) {
-- 
2.43.0


From c913e80e3ef2fb11190fd536d1981c6124953ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 05/30] fix: do not index strings a malformed pool gives no use
 count

Such an entry counts as free: its id could be handed out again while the
sorted index still pointed to it.
---
 libmsi/string.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libmsi/string.c b/libmsi/string.c
index 1dec975..a39467b 100644
--- a/libmsi/string.c
+++ b/libmsi/string.c
@@ -566,9 +566,13 @@ string_table *msi_load_string_table( GsfInfile *stg, unsigned *bytes_per_strref
             break;
         }
 
-        r = msi_addstring( st, n, data+offset, len, refs, StringPersistent );
-        if( r != n )
-            g_critical("Failed to add string %d\n", n );
+        /* a string nobody refers to must not be indexed: its id is free */
+        if ( refs )
+        {
+            r = msi_addstring( st, n, data+offset, len, refs, StringPersistent );
+            if( r != n )
+                g_critical("Failed to add string %d\n", n );
+        }
         n++;
         offset += len;
     }
-- 
2.43.0


From e599f5ab4950c328989623be37dac93010c39ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:39 +0000
Subject: [PATCH 06/30] fix: save every persistent row of a table that has
 temporary rows

---
 libmsi/table.c | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 5e0a6f8..3a2ced5 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -871,7 +871,7 @@ err:
 static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned bytes_per_strref )
 {
     uint8_t *rawdata = NULL;
-    unsigned rawsize, i, j, row_size, row_count;
+    unsigned rawsize, i, j, row, row_size, row_count;
     unsigned r = LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* Nothing to do for non-persistent tables */
@@ -888,29 +888,27 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
     TRACE("Saving %s\n", debugstr_a( t->name ) );
 
     row_size = msi_table_get_row_size( db, t->colinfo, t->col_count, bytes_per_strref );
-    row_count = t->row_count;
+    row_count = 0;
     for (i = 0; i < t->row_count; i++)
     {
-        if (!t->data_persistent[i])
-        {
-            row_count = 1; /* yes, this is bizarre */
-            break;
-        }
+        if (t->data_persistent[i])
+            row_count++;
     }
     rawsize = row_count * row_size;
-    rawdata = msi_alloc_zero( rawsize );
+    rawdata = msi_alloc_zero( rawsize ? rawsize : 1 );
     if( !rawdata )
     {
         r = LIBMSI_RESULT_NOT_ENOUGH_MEMORY;
         goto err;
     }
 
-    rawsize = 0;
+    row = 0;
     for (i = 0; i < t->row_count; i++)
     {
         unsigned ofs = 0, ofs_mem = 0;
 
-        if (!t->data_persistent[i]) break;
+        if (!t->data_persistent[i])
+            continue;
 
         for (j = 0; j < t->col_count; j++)
         {
@@ -926,7 +924,7 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
             if (t->colinfo[j].type & MSITYPE_STRING && n < m)
             {
                 unsigned id = read_table_int( t->data, i, ofs_mem, LONG_STR_BYTES );
-                if (id > 1 << bytes_per_strref * 8)
+                if (id >= 1 << bytes_per_strref * 8)
                 {
                     g_critical("string id %u out of range\n", id);
                     goto err;
@@ -934,12 +932,12 @@ static unsigned save_table( LibmsiDatabase *db, const LibmsiTable *t, unsigned b
             }
             for (k = 0; k < n; k++)
             {
-                rawdata[ofs * row_count + i * n + k] = t->data[i][ofs_mem + k];
+                rawdata[ofs * row_count + row * n + k] = t->data[i][ofs_mem + k];
             }
             ofs_mem += m;
             ofs += n;
         }
-        rawsize += row_size;
+        row++;
     }
 
     TRACE("writing %d bytes\n", rawsize);
-- 
2.43.0


From 8149136c374fa4085ea8568e9184c6dea8d306e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 07/30] fix: store rows of tables with 32 or more columns

---
 libmsi/query.h  | 9 +++++++++
 libmsi/select.c | 7 +++++--
 libmsi/table.c  | 8 ++++----
 libmsi/update.c | 2 +-
 libmsi/where.c  | 8 ++++----
 5 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/libmsi/query.h b/libmsi/query.h
index 78791fd..5fcfbd6 100644
--- a/libmsi/query.h
+++ b/libmsi/query.h
@@ -52,6 +52,15 @@
 #define EXPR_COL_NUMBER32 11
 #define EXPR_UNARY    12
 
+/* column masks have 32 bits, the most columns a table has; all of them set
+ * stands for every column */
+#define MSI_MASK_COLUMNS 32
+
+static inline unsigned msi_all_columns( unsigned count )
+{
+    return count < MSI_MASK_COLUMNS ? (1u << count) - 1 : ~0u;
+}
+
 struct sql_str {
     const char *data;
     int len;
diff --git a/libmsi/select.c b/libmsi/select.c
index c4ab6fd..b09eb77 100644
--- a/libmsi/select.c
+++ b/libmsi/select.c
@@ -106,7 +106,7 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
          return LIBMSI_RESULT_FUNCTION_FAILED;
 
     /* test if any of the mask bits are invalid */
-    if ( mask >= (1<<sv->num_cols) )
+    if ( mask & ~msi_all_columns(sv->num_cols) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* find the number of columns in the table below */
@@ -114,6 +114,9 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
     if( r )
         return r;
 
+    if ( col_count > MSI_MASK_COLUMNS )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     /* expand the record to the right size for the underlying table */
     expanded = libmsi_record_new( col_count );
     if ( !expanded )
@@ -125,7 +128,7 @@ static unsigned select_view_set_row( LibmsiView *view, unsigned row, LibmsiRecor
         r = _libmsi_record_copy_field( rec, i+1, expanded, sv->cols[ i ] );
         if (r != LIBMSI_RESULT_SUCCESS)
             break;
-        expanded_mask |= (1<<(sv->cols[i]-1));
+        expanded_mask |= 1u << (sv->cols[i]-1);
     }
 
     /* set the row in the underlying table */
diff --git a/libmsi/table.c b/libmsi/table.c
index 3a2ced5..1c8b0e3 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1315,7 +1315,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     /* test if any of the mask bits are invalid */
-    if ( mask >= (1<<tv->num_cols) )
+    if ( mask & ~msi_all_columns(tv->num_cols) )
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     for ( i = 0; i < tv->num_cols; i++ )
@@ -1323,7 +1323,7 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         bool persistent;
 
         /* only update the fields specified in the mask */
-        if ( !(mask&(1<<i)) )
+        if ( i < MSI_MASK_COLUMNS ? !(mask & (1u<<i)) : mask != ~0u )
             continue;
 
         persistent = (tv->table->persistent != LIBMSI_CONDITION_FALSE) &&
@@ -1654,7 +1654,7 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
-    return table_view_set_row( view, row, rec, (1<<tv->num_cols) - 1 );
+    return table_view_set_row( view, row, rec, msi_all_columns(tv->num_cols) );
 }
 
 static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
@@ -2507,7 +2507,7 @@ static unsigned msi_table_load_transform( LibmsiDatabase *db, GsfInfile *stg,
                 else if (mask & 1)
                 {
                     TRACE("modifying full row [%d]:\n", row);
-                    r = table_view_set_row( &tv->view, row, rec, (1 << tv->num_cols) - 1 );
+                    r = table_view_set_row( &tv->view, row, rec, msi_all_columns(tv->num_cols) );
                     if (r != LIBMSI_RESULT_SUCCESS)
                         g_warning("failed to modify row %u\n", r);
                 }
diff --git a/libmsi/update.c b/libmsi/update.c
index 95effb4..f94413a 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -105,7 +105,7 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     for ( i=0; i<row_count; i++ )
     {
-        r = wv->ops->set_row( wv, i, values, (1 << col_count) - 1 );
+        r = wv->ops->set_row( wv, i, values, msi_all_columns(col_count) );
         if (r != LIBMSI_RESULT_SUCCESS)
             break;
     }
diff --git a/libmsi/where.c b/libmsi/where.c
index f0a3082..034f977 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -280,7 +280,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    if (mask >= 1 << wv->col_count)
+    if (wv->col_count > MSI_MASK_COLUMNS || mask & ~msi_all_columns(wv->col_count))
         return LIBMSI_RESULT_INVALID_PARAMETER;
 
     do
@@ -288,7 +288,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
         for (i = 0; i < table->col_count; i++) {
             unsigned type;
 
-            if (!(mask_copy & (1 << i)))
+            if (!(mask_copy & (1u << i)))
                 continue;
             r = table->view->ops->get_column_info(table->view, i + 1, NULL,
                                             &type, NULL, NULL );
@@ -297,7 +297,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
             if (type & MSITYPE_KEY)
                 return LIBMSI_RESULT_FUNCTION_FAILED;
         }
-        mask_copy >>= table->col_count;
+        mask_copy = table->col_count < MSI_MASK_COLUMNS ? mask_copy >> table->col_count : 0;
     }
     while (mask_copy && (table = table->next));
 
@@ -307,7 +307,7 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
     {
         const unsigned col_count = table->col_count;
         LibmsiRecord *reduced;
-        unsigned reduced_mask = (mask >> offset) & ((1 << col_count) - 1);
+        unsigned reduced_mask = (mask >> offset) & msi_all_columns(col_count);
 
         if (!reduced_mask)
         {
-- 
2.43.0


From 95d6451fc232032c9992ea4e2f540d8cac93e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 08/30] fix: count the use of a string by a persistent row when
 the string is already there

---
 libmsi/table.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 1c8b0e3..512faf0 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1362,20 +1362,19 @@ static unsigned table_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
             }
             else if ( tv->columns[i].type & MSITYPE_STRING )
             {
+                const char *sval = _libmsi_record_get_string_raw( rec, i + 1 );
                 unsigned x;
 
-                if ( r != LIBMSI_RESULT_SUCCESS )
-                {
-                    const char *sval = _libmsi_record_get_string_raw( rec, i + 1 );
-                    val = _libmsi_add_string( tv->db->strings, sval, -1, 1,
-                      persistent ? StringPersistent : StringNonPersistent );
-                }
-                else
+                if ( r == LIBMSI_RESULT_SUCCESS )
                 {
                     table_view_fetch_int(&tv->view, row, i + 1, &x);
                     if (val == x)
                         continue;
                 }
+                /* a string already there may only be used by temporary rows */
+                if ( r != LIBMSI_RESULT_SUCCESS || val )
+                    val = _libmsi_add_string( tv->db->strings, sval, -1, 1,
+                      persistent ? StringPersistent : StringNonPersistent );
             }
             else
             {
-- 
2.43.0


From 1244866e41b6d2cf0448bd5c82bc30c8f6eefa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 09/30] fix: drop the lookup tables of a table when a row is
 inserted

---
 libmsi/table.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 512faf0..ae0d6ed 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1623,6 +1623,17 @@ static int find_insert_index( LibmsiTableView *tv, LibmsiRecord *rec )
     return high + 1;
 }
 
+static void table_reset_hash_tables( LibmsiTableView *tv )
+{
+    unsigned i;
+
+    for (i = 0; i < tv->num_cols; i++)
+    {
+        msi_free( tv->columns[i].hash_table );
+        tv->columns[i].hash_table = NULL;
+    }
+}
+
 static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
@@ -1653,6 +1664,11 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
 
     /* Re-set the persistence flag */
     tv->table->data_persistent[row] = !temporary;
+
+    /* the new row starts out empty */
+    memset( tv->table->data[row], 0, tv->row_size );
+    table_reset_hash_tables( tv );
+
     return table_view_set_row( view, row, rec, msi_all_columns(tv->num_cols) );
 }
 
@@ -1676,12 +1692,7 @@ static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
     num_rows = tv->table->row_count;
     tv->table->row_count--;
 
-    /* reset the hash tables */
-    for (i = 0; i < tv->num_cols; i++)
-    {
-        msi_free( tv->columns[i].hash_table );
-        tv->columns[i].hash_table = NULL;
-    }
+    table_reset_hash_tables( tv );
 
     for (i = row + 1; i < num_rows; i++)
     {
-- 
2.43.0


From 2b7c0a1bba128c9cd02402e61d76ff8f9fc4a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 10/30] fix: do not leave a half set row behind when an
 insertion fails

---
 libmsi/table.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index ae0d6ed..16cb32d 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1634,6 +1634,8 @@ static void table_reset_hash_tables( LibmsiTableView *tv )
     }
 }
 
+static unsigned table_view_delete_row( LibmsiView *view, unsigned row );
+
 static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsigned row, bool temporary )
 {
     LibmsiTableView *tv = (LibmsiTableView*)view;
@@ -1669,7 +1671,10 @@ static unsigned table_view_insert_row( LibmsiView *view, LibmsiRecord *rec, unsi
     memset( tv->table->data[row], 0, tv->row_size );
     table_reset_hash_tables( tv );
 
-    return table_view_set_row( view, row, rec, msi_all_columns(tv->num_cols) );
+    r = table_view_set_row( view, row, rec, msi_all_columns(tv->num_cols) );
+    if( r != LIBMSI_RESULT_SUCCESS )
+        table_view_delete_row( view, row );
+    return r;
 }
 
 static unsigned table_view_delete_row( LibmsiView *view, unsigned row )
-- 
2.43.0


From 936511a4b2481e3d6ed0511f144132391e530613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 11/30] fix: refuse -32768 in a two byte column, where it
 stands for no value

---
 libmsi/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 16cb32d..323fe20 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -1291,7 +1291,7 @@ static unsigned get_table_value_from_record( LibmsiTableView *tv, LibmsiRecord *
     else if ( bytes_per_column( tv->db, &columninfo, LONG_STR_BYTES ) == 2 )
     {
         *pvalue = 0x8000 + libmsi_record_get_int( rec, iField );
-        if ( *pvalue & 0xffff0000 )
+        if ( *pvalue & 0xffff0000 || !*pvalue )
         {
             g_critical("field %u value %d out of range\n", iField, *pvalue - 0x8000);
             return LIBMSI_RESULT_FUNCTION_FAILED;
-- 
2.43.0


From c745112c5283dba509e569ff8575d2cca2ac85d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 12/30] fix: refuse a table whose column catalogue is broken
 without crashing

table_get_column_info() set the column count before it had the columns, so
a duplicate or missing column number made free_table() walk a null array.
---
 libmsi/table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmsi/table.c b/libmsi/table.c
index 323fe20..017c39e 100644
--- a/libmsi/table.c
+++ b/libmsi/table.c
@@ -543,12 +543,11 @@ static unsigned table_get_column_info( LibmsiDatabase *db, const char *name, Lib
 
     /* get the number of columns in this table */
     column_count = 0;
+    *pcount = 0;
     r = get_tablecolumns( db, name, NULL, &column_count );
     if (r != LIBMSI_RESULT_SUCCESS)
         return r;
 
-    *pcount = column_count;
-
     /* if there's no columns, there's no table */
     if (!column_count)
         return LIBMSI_RESULT_INVALID_PARAMETER;
@@ -566,6 +565,7 @@ static unsigned table_get_column_info( LibmsiDatabase *db, const char *name, Lib
         return LIBMSI_RESULT_FUNCTION_FAILED;
     }
     *pcols = columns;
+    *pcount = column_count;
     return r;
 }
 
-- 
2.43.0


From 80d746817c38a7486130a613cc09769ed52e0597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 13/30] fix: order by every column named, not by the first one
 again and again

---
 libmsi/where.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmsi/where.c b/libmsi/where.c
index 034f977..9711c97 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -969,6 +969,8 @@ static unsigned where_view_sort(LibmsiView *view, column_info *columns)
         r = parse_column(wv, &orderinfo->columns[i], NULL);
         if (r != LIBMSI_RESULT_SUCCESS)
             goto error;
+
+        column = column->next;
     }
 
     wv->order_info = orderinfo;
-- 
2.43.0


From 50d19e4ce2a797b2657c0c78e4bc31da1ef2631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 14/30] fix: bind each wildcard of a condition to its own
 parameter in joins

Comparing a string column of a table whose row is not chosen yet skipped
the other side of the comparison, and with it the count of its wildcard:
the next wildcard then took the wrong parameter.
---
 libmsi/where.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index 9711c97..49074ca 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -512,15 +512,18 @@ static unsigned expr_eval_strcmp( LibmsiWhereView *wv, const unsigned rows[], co
 {
     int sr;
     const char *l_str, *r_str;
-    unsigned r;
+    unsigned rl, rr;
 
     *val = true;
-    r = expr_eval_string(wv, rows, expr->left, record, &l_str);
-    if (r == LIBMSI_RESULT_CONTINUE)
-        return r;
-    r = expr_eval_string(wv, rows, expr->right, record, &r_str);
-    if (r == LIBMSI_RESULT_CONTINUE)
-        return r;
+    /* always evaluate both sides, to count the wildcards */
+    rl = expr_eval_string(wv, rows, expr->left, record, &l_str);
+    rr = expr_eval_string(wv, rows, expr->right, record, &r_str);
+    if (rl != LIBMSI_RESULT_SUCCESS && rl != LIBMSI_RESULT_CONTINUE)
+        return rl;
+    if (rr != LIBMSI_RESULT_SUCCESS)
+        return rr;
+    if (rl != LIBMSI_RESULT_SUCCESS)
+        return rl;
 
     if( l_str == r_str ||
         ((!l_str || !*l_str) && (!r_str || !*r_str)) )
-- 
2.43.0


From b62b637f1f0df682e94176ec1a3d57acbb0b63af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 15/30] fix: fail instead of crashing when a condition has
 wildcards and no record is given

---
 libmsi/where.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmsi/where.c b/libmsi/where.c
index 49074ca..30be2c9 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -495,6 +495,11 @@ static unsigned expr_eval_string( LibmsiWhereView *wv, const unsigned rows[],
         break;
 
     case EXPR_WILDCARD:
+        if (!record)
+        {
+            *str = NULL;
+            return LIBMSI_RESULT_INVALID_PARAMETER;
+        }
         *str = _libmsi_record_get_string_raw(record, ++wv->rec_index);
         break;
 
@@ -582,6 +587,8 @@ static unsigned where_view_evaluate( LibmsiWhereView *wv, const unsigned rows[],
         return expr_eval_strcmp( wv, rows, &cond->u.expr, val, record );
 
     case EXPR_WILDCARD:
+        if (!record)
+            return LIBMSI_RESULT_INVALID_PARAMETER;
         *val = libmsi_record_get_int( record, ++wv->rec_index );
         return LIBMSI_RESULT_SUCCESS;
 
-- 
2.43.0


From 4d19a86c7acf90cb2da2d161b7883b1b9940d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 16/30] fix: bind the wildcards of an UPDATE that also sets
 constants

---
 libmsi/update.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmsi/update.c b/libmsi/update.c
index f94413a..1a219f2 100644
--- a/libmsi/update.c
+++ b/libmsi/update.c
@@ -64,11 +64,13 @@ static unsigned update_view_execute( LibmsiView *view, LibmsiRecord *record )
     {
         r = libmsi_record_get_field_count(record);
 
+        /* only wildcards among the values take a parameter */
         for (i = 0; col; col = col->next)
-            i++;
+            if (col->val->type == EXPR_WILDCARD)
+                i++;
 
         cols_count = i;
-        where_count = r - i;
+        where_count = r > i ? r - i : 0;
 
         if (where_count > 0)
         {
-- 
2.43.0


From 9aaa975247fdff296a82fdce5f60007de4e5d3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 17/30] fix: fail an INSERT with wildcards when no record is
 given

---
 libmsi/insert.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmsi/insert.c b/libmsi/insert.c
index 11edffe..a5828ec 100644
--- a/libmsi/insert.c
+++ b/libmsi/insert.c
@@ -223,7 +223,10 @@ static unsigned insert_view_execute( LibmsiView *view, LibmsiRecord *record )
      */
     values = msi_query_merge_record( col_count, iv->vals, record );
     if( !values )
+    {
+        r = LIBMSI_RESULT_FUNCTION_FAILED;
         goto err;
+    }
 
     r = msi_arrange_record( iv, &values );
     if( r != LIBMSI_RESULT_SUCCESS )
-- 
2.43.0


From 615c8de2facb2ed975de3ea2835d0c1846ff3a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 18/30] fix: delete every row that matches, not every other one

---
 libmsi/delete.c | 10 +++++++---
 libmsi/where.c  | 15 +++++++++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/libmsi/delete.c b/libmsi/delete.c
index 3a3623c..967a9c9 100644
--- a/libmsi/delete.c
+++ b/libmsi/delete.c
@@ -85,9 +85,13 @@ static unsigned delete_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     TRACE("deleting %d rows\n", rows);
 
-    /* blank out all the rows that match */
-    for ( i=0; i<rows; i++ )
-        dv->table->ops->delete_row( dv->table, i );
+    /* the rows behind a deleted one move up: begin with the last */
+    for ( i=rows; i>0; i-- )
+    {
+        r = dv->table->ops->delete_row( dv->table, i - 1 );
+        if( r != LIBMSI_RESULT_SUCCESS )
+            return r;
+    }
 
     return LIBMSI_RESULT_SUCCESS;
 }
diff --git a/libmsi/where.c b/libmsi/where.c
index 30be2c9..de479b0 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -340,8 +340,9 @@ static unsigned where_view_set_row( LibmsiView *view, unsigned row, LibmsiRecord
 static unsigned where_view_delete_row(LibmsiView *view, unsigned row)
 {
     LibmsiWhereView *wv = (LibmsiWhereView *)view;
-    unsigned r;
+    unsigned r, i;
     unsigned *rows;
+    unsigned deleted;
 
     TRACE("(%p %d)\n", view, row);
 
@@ -355,7 +356,17 @@ static unsigned where_view_delete_row(LibmsiView *view, unsigned row)
     if (wv->table_count > 1)
         return LIBMSI_RESULT_CALL_NOT_IMPLEMENTED;
 
-    return wv->tables->view->ops->delete_row(wv->tables->view, rows[0]);
+    deleted = rows[0];
+    r = wv->tables->view->ops->delete_row(wv->tables->view, deleted);
+    if (r != LIBMSI_RESULT_SUCCESS)
+        return r;
+
+    /* the rows behind the deleted one have moved up */
+    for (i = 0; i < wv->row_count; i++)
+        if (wv->reorder[i]->values[0] > deleted && wv->reorder[i]->values[0] != INVALID_ROW_INDEX)
+            wv->reorder[i]->values[0]--;
+
+    return LIBMSI_RESULT_SUCCESS;
 }
 
 static int expr_eval_binary( LibmsiWhereView *wv, const unsigned rows[],
-- 
2.43.0


From 5e112cb34b8fd0da31ed9ef2c5dbcc6fb653b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 19/30] fix: start from scratch when a DISTINCT query is
 executed again

---
 libmsi/distinct.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmsi/distinct.c b/libmsi/distinct.c
index 2d9aab9..cc813c0 100644
--- a/libmsi/distinct.c
+++ b/libmsi/distinct.c
@@ -118,6 +118,8 @@ static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
     if( r != LIBMSI_RESULT_SUCCESS )
         return r;
 
+    msi_free( dv->translation );
+    dv->row_count = 0;
     dv->translation = msi_alloc( r_count*sizeof(unsigned) );
     if( !dv->translation )
         return LIBMSI_RESULT_FUNCTION_FAILED;
-- 
2.43.0


From 977449e13992149220dffc9aa98ff9cc8da0e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 20/30] fix: read binary columns of a DISTINCT query

---
 libmsi/distinct.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/libmsi/distinct.c b/libmsi/distinct.c
index cc813c0..43777e8 100644
--- a/libmsi/distinct.c
+++ b/libmsi/distinct.c
@@ -99,6 +99,23 @@ static unsigned distinct_view_fetch_int( LibmsiView *view, unsigned row, unsigne
     return dv->table->ops->fetch_int( dv->table, row, col, val );
 }
 
+static unsigned distinct_view_fetch_stream( LibmsiView *view, unsigned row, unsigned col, GsfInput **stm )
+{
+    LibmsiDistinctView *dv = (LibmsiDistinctView*)view;
+
+    TRACE("%p %d %d %p\n", dv, row, col, stm );
+
+    if( !dv->table )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
+    if( row >= dv->row_count )
+        return LIBMSI_RESULT_INVALID_PARAMETER;
+
+    row = dv->translation[ row ];
+
+    return dv->table->ops->fetch_stream( dv->table, row, col, stm );
+}
+
 static unsigned distinct_view_execute( LibmsiView *view, LibmsiRecord *record )
 {
     LibmsiDistinctView *dv = (LibmsiDistinctView*)view;
@@ -252,7 +269,7 @@ static unsigned distinct_view_find_matching_rows( LibmsiView *view, unsigned col
 static const LibmsiViewOps distinct_ops =
 {
     distinct_view_fetch_int,
-    NULL,
+    distinct_view_fetch_stream,
     NULL,
     NULL,
     NULL,
-- 
2.43.0


From b5a3b45240af1a3576a9e7e60338a082dc1c6855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 21/30] fix: refuse an integer in a query that does not fit

---
 libmsi/sql-parser.y | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index 7b8d912..2ec0fc7 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -25,6 +25,7 @@
 
 #include <stdarg.h>
 #include <stdio.h>
+#include <limits.h>
 #include <stdlib.h>
 
 #include "query.h"
@@ -51,7 +52,7 @@ typedef struct _LibmsiSQLInput
 } SQL_input;
 
 static unsigned sql_unescape_string( void *info, const struct sql_str *strdata, char **str );
-static int sql_atoi( void *info );
+static unsigned sql_atoi( void *info, int *val );
 static int sql_lex( void *SQL_lval, SQL_input *info );
 
 static char *parser_add_table( void *info, const char *list, const char *table );
@@ -745,7 +746,8 @@ string:
 number:
     TK_INTEGER
         {
-            $$ = sql_atoi( info );
+            if( sql_atoi( info, &$$ ) != LIBMSI_RESULT_SUCCESS )
+                YYABORT;
         }
     ;
 
@@ -846,7 +848,7 @@ unsigned sql_unescape_string( void *info, const struct sql_str *strdata, char **
     return LIBMSI_RESULT_SUCCESS;
 }
 
-int sql_atoi( void *info )
+static unsigned sql_atoi( void *info, int *val )
 {
     SQL_input* sql = (SQL_input*) info;
     const char *p = &sql->command[sql->n];
@@ -859,10 +861,13 @@ int sql_atoi( void *info )
             g_critical("should only be numbers here!\n");
             break;
         }
+        if( r > (INT_MAX - (p[i]-'0')) / 10 )
+            return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
         r = (p[i]-'0') + r*10;
     }
 
-    return r;
+    *val = r;
+    return LIBMSI_RESULT_SUCCESS;
 }
 
 static int sql_error(void *info, const char *str )
-- 
2.43.0


From 21b74df8e9933a8da17c21a8f3801828f457d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 22/30] fix: return no record when column information is not
 available

---
 libmsi/libmsi-query.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/libmsi-query.c b/libmsi/libmsi-query.c
index 759613c..249ae0a 100644
--- a/libmsi/libmsi-query.c
+++ b/libmsi/libmsi-query.c
@@ -597,7 +597,7 @@ LibmsiResult _libmsi_query_get_column_info( LibmsiQuery *query, LibmsiColInfo in
 LibmsiRecord *
 libmsi_query_get_column_info (LibmsiQuery *query, LibmsiColInfo info, GError **error)
 {
-    LibmsiRecord *rec;
+    LibmsiRecord *rec = NULL;
     unsigned r;
 
     TRACE("%p %d\n", query, info);
-- 
2.43.0


From ba881f07f574ab02978cde3676f8db227a0da85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 23/30] fix: refuse a query that ends in an opening quote
 without crashing

---
 libmsi/sql-parser.y | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index 2ec0fc7..d9c82df 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -827,6 +827,10 @@ unsigned sql_unescape_string( void *info, const struct sql_str *strdata, char **
     const char *p = strdata->data;
     unsigned len = strdata->len;
 
+    /* a quote of its own has no end */
+    if( len < 2 && ( p[0]=='`' || p[0]=='\'' ) )
+        return LIBMSI_RESULT_FUNCTION_FAILED;
+
     /* match quotes */
     if( ( (p[0]=='`') && (p[len-1]!='`') ) ||
         ( (p[0]=='\'') && (p[len-1]!='\'') ) )
-- 
2.43.0


From 9b6370d35f0cb61b35d3dc87112e92f2c77a0f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 24/30] fix: keep the tokenizer within a query that ends in -
 or !

---
 libmsi/tokenize.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libmsi/tokenize.c b/libmsi/tokenize.c
index 20a3327..b1a8073 100644
--- a/libmsi/tokenize.c
+++ b/libmsi/tokenize.c
@@ -157,9 +157,8 @@ static const char isIdChar[] = {
 
 
 /*
-** Return the length of the token that begins at z[0].  Return
-** -1 if the token is (or might be) incomplete.  Store the token
-** type in *tokenType before returning.
+** Return the length of the token that begins at z[0].  Store the
+** token type in *tokenType before returning.
 */
 int sql_get_token(const char *zz, int *tokenType, int *skip){
   guint8 *z = (guint8*)zz;
@@ -172,7 +171,6 @@ int sql_get_token(const char *zz, int *tokenType, int *skip){
       *tokenType = TK_SPACE;
       return i;
     case '-':
-      if( z[1]==0 ) return -1;
       *tokenType = TK_MINUS;
       return 1;
     case '(':
@@ -209,7 +207,7 @@ int sql_get_token(const char *zz, int *tokenType, int *skip){
     case '!':
       if( z[1]!='=' ){
         *tokenType = TK_ILLEGAL;
-        return 2;
+        return 1;
       }else{
         *tokenType = TK_NE;
         return 2;
-- 
2.43.0


From 96f658708e2a8d47390299c2f0683818b085deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 25/30] fix: refuse a number with a decimal point instead of
 reading it as 0

---
 libmsi/sql-parser.y | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libmsi/sql-parser.y b/libmsi/sql-parser.y
index d9c82df..eb7b070 100644
--- a/libmsi/sql-parser.y
+++ b/libmsi/sql-parser.y
@@ -861,10 +861,7 @@ static unsigned sql_atoi( void *info, int *val )
     for( i=0; i<sql->len; i++ )
     {
         if( '0' > p[i] || '9' < p[i] )
-        {
-            g_critical("should only be numbers here!\n");
-            break;
-        }
+            return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
         if( r > (INT_MAX - (p[i]-'0')) / 10 )
             return LIBMSI_RESULT_BAD_QUERY_SYNTAX;
         r = (p[i]-'0') + r*10;
-- 
2.43.0


From 84cbab7a28b1e96121e0adf3bb5569e952d2b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 26/30] fix: report the failure of a condition when rows are
 also ordered

---
 libmsi/where.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmsi/where.c b/libmsi/where.c
index de479b0..349573f 100644
--- a/libmsi/where.c
+++ b/libmsi/where.c
@@ -824,7 +824,7 @@ static unsigned where_view_execute( LibmsiView *view, LibmsiRecord *record )
 
     qsort(wv->reorder, wv->row_count, sizeof(LibmsiRowEntry *), compare_entry);
 
-    if (wv->order_info)
+    if (r == LIBMSI_RESULT_SUCCESS && wv->order_info)
         r = wv->order_info->error;
 
     msi_free( rows );
-- 
2.43.0


From c9bb9c7fafe665939397052bc0d1ce648f982039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 27/30] fix: do not run the white space after the last
 statement of msibuild -q

sqldelim kept the white space before a statement as part of it, so that a query
starting with a blank failed, a trailing newline after a semicolon was run as a
statement of its own, and an empty query was passed on as NULL.
---
 tools/sqldelim.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tools/sqldelim.c b/tools/sqldelim.c
index ed2e2b1..dea61b4 100644
--- a/tools/sqldelim.c
+++ b/tools/sqldelim.c
@@ -222,18 +222,23 @@ int sql_get_statement(const char *start,
             p++;
         } else {
             done = sql_skip_token(&p, &cont);
-            g_string_append_len(&str, start, p - start);
+            if (!str.len && isspace(*(const uint8_t *) start)) {
+                /* White space before a statement is not part of it.  */
+                cont = false;
+            } else {
+                g_string_append_len(&str, start, p - start);
+            }
         }
 
         if (done) {
 stmt:
             cont = false;
-            stmt = g_strndup(str.str, str.len);
-            g_string_erase(&str, 0, str.len);
-            if (stmt[0]) {
+            if (str.len) {
+                stmt = g_strndup(str.str, str.len);
+                g_string_erase(&str, 0, str.len);
                 ret = fn(stmt, opaque);
+                g_free(stmt);
             }
-            free(stmt);
             if (ret) {
                 return ret;
             }
-- 
2.43.0


From 04d45ee5ec5b83f1061ca5a18313b315c161ab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 28/30] fix: run each option of msibuild with its own
 arguments, and report failure

The option after -s lost its first word, an unknown option and -a without a
file name were looked at for ever, and an option that failed without setting
an error did not change the exit status (nor, for -q and -i, stop the commit).
---
 tools/msibuild.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tools/msibuild.c b/tools/msibuild.c
index ef7c875..0bf2bfa 100644
--- a/tools/msibuild.c
+++ b/tools/msibuild.c
@@ -277,6 +277,7 @@ int main(int argc, char *argv[])
     }
     if (!success) return 1;
 
+    success = FALSE;
     argc -= 2, argv += 2;
     while (argc > 0) {
         int ret;
@@ -298,12 +299,12 @@ int main(int argc, char *argv[])
                                   n > 3 ? argv[3] : NULL,
                                   n > 4 ? argv[4] : NULL, &error))
                 goto end;
-            argc -= n + 1, argv += n + 1;
+            argc -= n, argv += n;
             break;
         case 'i':
             do {
                 if (!import_table(argv[1], &error))
-                    break;
+                    goto end;
 
                 argc--, argv++;
             } while (argv[1] && argv[1][0] != '-');
@@ -316,14 +317,17 @@ int main(int argc, char *argv[])
                     ret = sql_get_statement("", do_query, &error);
                 }
                 if (ret) {
-                    break;
+                    goto end;
                 }
                 argc--, argv++;
             } while (argv[1] && argv[1][0] != '-');
             argc--, argv++;
             break;
         case 'a':
-            if (argc < 3) break;
+            if (argc < 3) {
+                show_usage();
+                goto end;
+            }
             if (!add_stream(argv[1], argv[2], &error))
                 goto end;
             argc -= 3, argv += 3;
@@ -331,13 +335,15 @@ int main(int argc, char *argv[])
         default:
             fprintf(stdout, "unknown option\n");
             show_usage();
-            break;
+            goto end;
         }
     }
 
     if (!libmsi_database_commit(db, &error))
         goto end;
 
+    success = TRUE;
+
 end:
     g_object_unref(db);
 
@@ -347,5 +353,5 @@ end:
         exit(1);
     }
 
-    return 0;
+    return success ? 0 : 1;
 }
-- 
2.43.0


From fa5ff49a21e715f5e45abf79feb589e0c99ec058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 29/30] fix: release the old value of a record field that is
 copied over

---
 libmsi/libmsi-record.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmsi/libmsi-record.c b/libmsi/libmsi-record.c
index 6339338..9e8f59c 100644
--- a/libmsi/libmsi-record.c
+++ b/libmsi/libmsi-record.c
@@ -195,6 +195,9 @@ unsigned _libmsi_record_copy_field( LibmsiRecord *in_rec, unsigned in_n,
         in = &in_rec->fields[in_n];
         out = &out_rec->fields[out_n];
 
+        _libmsi_free_field( out );
+        out->type = LIBMSI_FIELD_TYPE_NULL;
+
         switch ( in->type )
         {
         case LIBMSI_FIELD_TYPE_NULL:
-- 
2.43.0


From a53ca1e7e3e72bc0cde3443bf1f73030d588cdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 30/30] fix: bound every read of a summary information stream
 by its size

The header and the section were read without looking at the size of the stream,
an offset near 2^32 or an identifier with the top bit set passed the checks, a
property given twice mixed the two values, and the getters returned
uninitialised memory for a property that is not of their type.
---
 libmsi/libmsi-summary-info.c | 60 +++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/libmsi/libmsi-summary-info.c b/libmsi/libmsi-summary-info.c
index 2e7f513..97bb62d 100644
--- a/libmsi/libmsi-summary-info.c
+++ b/libmsi/libmsi-summary-info.c
@@ -311,9 +311,8 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
 {
     unsigned type;
     unsigned i;
-    LibmsiOLEVariant *property;
     uint32_t idofs, len;
-    char *str = NULL;
+    char *str;
     gboolean valid;
 
     idofs = 8;
@@ -321,8 +320,11 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
     /* now set all the properties */
     for( i = 0; i < cProperties; i++ )
     {
+        LibmsiOLEVariant value = { 0, };
+
         valid = TRUE;
-        int propid = read_dword(data, &idofs);
+        str = NULL;
+        unsigned propid = read_dword(data, &idofs);
         unsigned dwOffset = read_dword(data, &idofs);
         int proptype;
 
@@ -339,40 +341,33 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
             break;
         }
 
-        property = &prop[ propid ];
-
-        if( dwOffset + 4 > sz )
+        if( sz < 8 || dwOffset > sz - 8 )
         {
             g_critical("not enough data for type %d %d \n", dwOffset, sz);
             break;
         }
 
         proptype = read_dword(data, &dwOffset);
-        if( dwOffset + 4 > sz )
-        {
-            g_critical("not enough data for type %d %d \n", dwOffset, sz);
-            break;
-        }
 
         switch(proptype)
         {
         case OLEVT_I2:
         case OLEVT_I4:
-            property->intval = read_dword(data, &dwOffset);
+            value.intval = read_dword(data, &dwOffset);
             break;
         case OLEVT_FILETIME:
-            if( dwOffset + 8 > sz )
+            if( sz - dwOffset < 8 )
             {
                 g_critical("not enough data for type %d %d \n", dwOffset, sz);
                 valid = FALSE;
                 break;
             }
-            property->filetime = read_dword(data, &dwOffset);
-            property->filetime |= (guint64)read_dword(data, &dwOffset) << 32;
+            value.filetime = read_dword(data, &dwOffset);
+            value.filetime |= (guint64)read_dword(data, &dwOffset) << 32;
             break;
         case OLEVT_LPSTR:
             len = read_dword(data, &dwOffset);
-            if(len == 0 || dwOffset + len > sz )
+            if(len == 0 || len > sz - dwOffset )
             {
                 g_critical("not enough data for type %d %d %d \n", dwOffset, len, sz);
                 valid = FALSE;
@@ -392,15 +387,15 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
 
         /* check the type is the same as we expect */
         if( type == OLEVT_LPSTR && proptype == OLEVT_LPSTR)
-           property->strval = str;
+           value.strval = str;
         else if (type == proptype)
            ;
         else if( proptype == OLEVT_LPSTR) {
             g_return_if_fail(str != NULL);
             if( type == OLEVT_I2 || type == OLEVT_I4) {
-                property->intval = atoi( str );
+                value.intval = atoi( str );
             } else if( type == OLEVT_FILETIME) {
-                parse_filetime( str, &property->filetime );
+                parse_filetime( str, &value.filetime );
             } else {
                 g_critical("invalid type, it can't be converted\n");
                 msi_free(str);
@@ -416,7 +411,9 @@ static void read_properties_from_data( LibmsiOLEVariant *prop, const uint8_t *da
         }
 
         /* Now we now the type is valid, store it */
-        property->vt = proptype;
+        value.vt = proptype;
+        free_prop( &prop[ propid ] );
+        prop[ propid ] = value;
     }
 }
 
@@ -440,6 +437,9 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
     if (!gsf_input_read(stm, sz, data))
         goto done;
 
+    if (sz < 28 + 20)
+        goto done;
+
     /* process the set header */
     ofs = 0;
     if( read_word( data, &ofs) != 0xfffe )
@@ -460,10 +460,15 @@ static unsigned load_summary_info( LibmsiSummaryInfo *si, GsfInput *stm )
     ofs = dwOffset = read_dword(data, &ofs);
 
     /* read the section itself */
+    if( dwOffset > sz || sz - dwOffset < 8 )
+        goto done;
     cbSection = read_dword( data, &ofs );
     cProperties = read_dword( data, &ofs );
 
-    if( cProperties > MSI_MAX_PROPS )
+    if( cbSection > sz - dwOffset )
+        cbSection = sz - dwOffset;
+
+    if( cProperties > MSI_MAX_PROPS || 8 + cProperties * 8 > cbSection )
     {
         g_critical("too many properties %d\n", cProperties);
         goto done;
@@ -743,7 +748,7 @@ libmsi_summary_info_get_int (LibmsiSummaryInfo *self, LibmsiProperty prop,
                              GError **error)
 {
     LibmsiPropertyType type;
-    gint val;
+    gint val = -1;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), -1);
     g_return_val_if_fail (!error || *error == NULL, -1);
@@ -768,7 +773,7 @@ libmsi_summary_info_get_filetime (LibmsiSummaryInfo *self, LibmsiProperty prop,
                                   GError **error)
 {
     LibmsiPropertyType type;
-    guint64 val;
+    guint64 val = 0;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), 0);
     g_return_val_if_fail (!error || *error == NULL, 0);
@@ -793,7 +798,7 @@ libmsi_summary_info_get_string (LibmsiSummaryInfo *self, LibmsiProperty prop,
                                 GError **error)
 {
     LibmsiPropertyType type;
-    const gchar *str;
+    const gchar *str = NULL;
 
     g_return_val_if_fail (LIBMSI_SUMMARY_INFO (self), FALSE);
     g_return_val_if_fail (!error || *error == NULL, FALSE);
@@ -1024,11 +1029,11 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
 
     for (i = 0; i < num_records; i++)
     {
-        for (j = 0; j < num_columns; j += 2)
+        for (j = 0; j + 1 < num_columns; j += 2)
         {
             unsigned pid;
             int int_value = 0;
-            guint64 ft_value;
+            guint64 ft_value = 0;
             char *str_value = NULL;
 
             r = parse_prop( records[i][j], records[i][j + 1], &pid, &int_value, &ft_value, &str_value );
@@ -1037,10 +1042,9 @@ unsigned msi_add_suminfo( LibmsiDatabase *db, char ***records, int num_records,
 
             assert( get_type(pid) != OLEVT_EMPTY );
             r = _libmsi_summary_info_set_property( si, pid, get_type(pid), int_value, &ft_value, str_value );
+            msi_free(str_value);
             if (r != LIBMSI_RESULT_SUCCESS)
                 goto end;
-
-            msi_free(str_value);
         }
     }
 
-- 
2.43.0

