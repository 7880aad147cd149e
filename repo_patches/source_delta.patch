From 25f7844bc4e0b079b61769eda297571abea5673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 01/44] fix: copying a data set keeps the vector name and
 leaves an absent title absent

---
 apop_data.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index fe98f24..3f59c85 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -231,8 +231,8 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
     }
     if (in->names){
         if (!out->names) out->names = apop_name_alloc();
-        Asprintf(&out->names->title, "%s", in->names->title);
-        if (out->names->vector && in->names->vector) {Asprintf(&out->names->vector, "%s", in->names->vector);}
+        if (in->names->title) {Asprintf(&out->names->title, "%s", in->names->title);}
+        if (in->names->vector) {Asprintf(&out->names->vector, "%s", in->names->vector);}
         for (int i=0; i< in->names->rowct; i++)
             if (i< out->names->rowct) {Asprintf(out->names->row+i, "%s", in->names->row[i]);}
             else  apop_name_add(out->names, in->names->row[i], 'r');
-- 
2.43.0


From 24cdad95d83dd160a005019b86879f165c6a765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 02/44] fix: apop_data_memcpy checks the text grid size against
 the target's actual size

---
 apop_data.m4.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 3f59c85..3e9978d 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -243,8 +243,6 @@ void apop_data_memcpy(apop_data *out, const apop_data *in){
             if (i< out->names->textct) {Asprintf(out->names->text+i, "%s", in->names->text[i]);}
             else  apop_name_add(out->names, in->names->text[i], 't');
     }
-    out->textsize[0] = in->textsize[0]; 
-    out->textsize[1] = in->textsize[1]; 
     if (in->textsize[0] && in->textsize[1]){
         Apop_stopif(out->textsize[0] < in->textsize[0] || out->textsize[1] < in->textsize[1],
                     out->error='d'; return,
-- 
2.43.0


From de2b362a9ac379861e935d54c63f03461ea748c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 03/44] fix: apop_name_copy leaves an absent title absent

---
 apop_name.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_name.m4.c b/apop_name.m4.c
index a78a0d6..601ca66 100644
--- a/apop_name.m4.c
+++ b/apop_name.m4.c
@@ -193,7 +193,7 @@ apop_name * apop_name_copy(apop_name *in){
     apop_name_stack(out, in, 'c');
     apop_name_stack(out, in, 'r');
     apop_name_stack(out, in, 't');
-    Asprintf(&out->title, "%s", in->title);
+    if (in->title) {Asprintf(&out->title, "%s", in->title);}
     return out;
 }
 
-- 
2.43.0


From 708411709d405c7919f0e844d16d51f1b0cf21e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:37 +0000
Subject: [PATCH 04/44] fix: element get/set/ptr report out-of-range positions
 instead of aborting or returning success

---
 apop_data.m4.c | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 3e9978d..44fcc7c 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -785,9 +785,12 @@ APOP_VAR_HEAD double * apop_data_ptr(apop_data *data, int row, int col, const ch
 APOP_VAR_ENDHEAD
     if (col == -1 || (col == 0 && !data->matrix && data->vector)){
         Apop_stopif(!data->vector, return NULL, 1, "You asked for the vector element (col=-1) but it is NULL. Returning NULL.");
+        Apop_stopif(row < 0 || row >= data->vector->size, return NULL, 1, "You asked for element %i of a vector of size %zu. Returning NULL.", row, data->vector->size);
         return gsl_vector_ptr(data->vector, row);
     } else {
         Apop_stopif(!data->matrix, return NULL, 1, "You asked for the matrix element (%i, %i) but the matrix is NULL Returning NULL..", row, col);
+        Apop_stopif(row < 0 || row >= data->matrix->size1 || col < 0 || col >= data->matrix->size2, return NULL, 1,
+                    "You asked for element (%i, %i) of a %zu X %zu matrix. Returning NULL.", row, col, data->matrix->size1, data->matrix->size2);
         return gsl_matrix_ptr(data->matrix, row,col);
     }
     return NULL;//the main function is blank.
@@ -833,35 +836,21 @@ APOP_VAR_HEAD double apop_data_get(const apop_data *data, size_t row, int col, c
 APOP_VAR_ENDHEAD
     if (col==-1 || (col == 0 && !data->matrix && data->vector)){
         Apop_stopif(!data->vector, return NAN, 1,  "You asked for the vector element (col=-1) but it is NULL.");
+        Apop_stopif(row >= data->vector->size, return NAN, 1, "You asked for element %zu of a vector of size %zu.", row, data->vector->size);
         return gsl_vector_get(data->vector, row);
     } else {
         Apop_stopif(!data->matrix, return NAN, 1, "You asked for the matrix element (%zu, %i) but the matrix is NULL.", row, col);
+        Apop_stopif(row >= data->matrix->size1 || col < 0 || col >= data->matrix->size2, return NAN, 1,
+                    "You asked for element (%zu, %i) of a %zu X %zu matrix.", row, col, data->matrix->size1, data->matrix->size2);
         return gsl_matrix_get(data->matrix, row, col);
     }
 }
 
-/* The only hint the GSL gives that something failed is that the error-handler is called.
-   The error handling function won't let you set an output to the function. So all we
-   can do is use a global variable.
-*/
-
-static threadlocal int error_for_set; //see apop_internal.h
-
-void apop_gsl_error_for_set(const char *reason, const char *file, int line, int gsl_errno){
-    Apop_notify(1, "%s: %s", file, reason);
-    Apop_maybe_abort(1);
-    error_for_set = -1;
-}
-
 /**  Set a data element.
 See \ref data_set_get "the set/get page" for details and examples. 
  
   \return 0=OK, -1=error: couldn't find row/column name, or you asked for a location outside the vector/matrix bounds.
 
-\li  The error codes for out-of-bounds errors are thread-safe iff you are have a
-C11-compliant compiler (thanks to the \c _Thread_local keyword) or a version of GCC with the \c __thread
-extension enabled.
-
 \li Set weights via <tt>gsl_vector_set(your_data->weights, row, val);</tt>.
 \li Set text elements via \ref apop_text_set.
 
@@ -899,16 +888,17 @@ APOP_VAR_HEAD int apop_data_set(apop_data *data, size_t row, int col, const doub
         Apop_stopif(col == -2, return -1, 1, "Couldn't find '%s' amongst the column names. Making no changes.", colname);
     }
 APOP_VAR_ENDHEAD
-    Set_gsl_handler
     if (col==-1 || (col == 0 && !data->matrix && data->vector)){
         Apop_stopif(!data->vector, return -1, 1, "You're trying to set a vector element (row=-1) but the vector is NULL.");
+        Apop_stopif(row >= data->vector->size, return -1, 1, "You're trying to set element %zu of a vector of size %zu.", row, data->vector->size);
         gsl_vector_set(data->vector, row, val);
     } else {
         Apop_stopif(!data->matrix, return -1, 1, "You're trying to set the matrix element (%zu, %i) but the matrix is NULL.", row, col);
+        Apop_stopif(row >= data->matrix->size1 || col < 0 || col >= data->matrix->size2, return -1, 1,
+                    "You're trying to set element (%zu, %i) of a %zu X %zu matrix.", row, col, data->matrix->size1, data->matrix->size2);
         gsl_matrix_set(data->matrix, row, col, val);
     }
-    Unset_gsl_handler
-    return error_for_set;
+    return 0;
 }
 
 /** A convenience function to add a named element to a data set.  Many of Apophenia's
-- 
2.43.0


From d02e869834e7fa092d6912aa05615c5c58350d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 05/44] fix: stacking columns keeps column names aligned when
 the second set's vector becomes a column

---
 apop_data.m4.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 44fcc7c..ac6c226 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -375,12 +375,15 @@ APOP_VAR_ENDHEAD
         if (m2->vector && out->vector){
             gsl_matrix_view mview = gsl_matrix_view_vector(m2->vector, m2->vector->size, 1);
             out->matrix = apop_matrix_stack(out->matrix, &mview.matrix, posn, .inplace='y');
-            apop_name_stack(out->names, m2->names, 'c', 'v');
-            if (m2->names && !m2->names->vector && m2->names->colct) apop_name_add(out->names, "v", 'c');
+            if (m2->names && (m2->names->vector || m2->names->colct)){
+                for (int k = out->names->colct; k < msize2; k++)  //pad so the column name is aligned.
+                    apop_name_add(out->names, "", 'c');
+                apop_name_add(out->names, m2->names->vector ? m2->names->vector : "v", 'c');
+            }
         }
         if (m2->vector && !out->vector) {
             out->vector= apop_vector_copy(m2->vector);
-            if (m2->names->vector) apop_name_add(out->names, m2->names->vector, 'v');
+            if (m2->names && m2->names->vector) apop_name_add(out->names, m2->names->vector, 'v');
         }
     }
 
@@ -423,7 +426,7 @@ APOP_VAR_ENDHEAD
         }
     }
     if ((posn=='r' && m2->names && m2->names->rowct) || (posn=='c' && m2->names && m2->names->colct)){
-        int min = posn =='r' ? m1->names->rowct : m1->names->colct;
+        int min = posn =='r' ? out->names->rowct : out->names->colct;
         int max = posn =='r' ? GSL_MAX(vsize, msize1) : msize2;
         for (int k = min; k < max; k++)          //pad so the name stacking is aligned (if needed)
             apop_name_add(out->names, "", posn); 
-- 
2.43.0


From 37de2ba76abd6dc012804d5322ccc2370b2f5e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 06/44] fix: looking a name up in a data set with no names
 reports not-found instead of crashing

---
 apop_name.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_name.m4.c b/apop_name.m4.c
index 601ca66..24119e7 100644
--- a/apop_name.m4.c
+++ b/apop_name.m4.c
@@ -208,6 +208,7 @@ The function uses POSIX's \c strcasecmp, and so does case-insensitive search the
 */
 int apop_name_find(const apop_name *n, const char *name, const char type){
     Apop_stopif(!name, return -2, 0, "You asked me to search for NULL.");
+    if (!n) return -2; //no names, so nothing to find.
     char **list;
     unsigned long *listh;
     int listct;
-- 
2.43.0


From 6dc037e315ea0c9f883a1027773f506dc9c1447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 07/44] fix: removing a page skips untitled pages instead of
 crashing

---
 apop_data.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index ac6c226..62625e3 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1352,7 +1352,8 @@ APOP_VAR_HEAD apop_data* apop_data_rm_page(apop_data * data, const char *title,
     Apop_stopif(!data, return NULL, (free_p=='y'? 2: 1), "You are removing a "
                                "page from a NULL a data set. Doing nothing.");
 APOP_VAR_ENDHEAD
-    while (data->more && strcasecmp(data->more->names->title, title))
+    while (data->more && (!data->more->names || !data->more->names->title
+                            || strcasecmp(data->more->names->title, title)))
         data = data->more;
     Apop_stopif(!data->more, return NULL, (free_p=='y'?2:1), "You asked me to "
                 "remove '%s' but I couldn't find a page matching that.", title);
-- 
2.43.0


From 642dbf1aef779f95d7bf527e45cfce47c5595051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 08/44] fix: removing a page frees the page's contents, not
 just its header

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 62625e3..0bbe696 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1362,7 +1362,7 @@ APOP_VAR_ENDHEAD
         data->more = data->more->more;
         tmp->more = NULL;
         if (free_p=='y'){
-            free(tmp);
+            apop_data_free(tmp);
             return NULL;
         } //else:
         return tmp;
-- 
2.43.0


From fe02202ea83c6ee7147fc83a767d784e99c8bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 09/44] fix: widening a matrix with no rows no longer writes
 before its data

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 0bbe696..f7413f8 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1217,7 +1217,7 @@ gsl_matrix * apop_matrix_realloc(gsl_matrix *m, size_t newheight, size_t newwidt
         m->block->data = m->data = realloc(m->data, sizeof(double) * m->block->size);
         realloced = 1;
         int height = GSL_MIN(m->size1, newheight);
-        for (i= height-1; i > 0; i--){
+        for (i= GSL_MAX(height, 1)-1; i > 0; i--){
             newoffset +=newwidth;
             memmove(m->data+(height * newwidth) - newoffset, m->data+i*m->size2, sizeof(double)*m->size2);
         }
-- 
2.43.0


From 047e90087794e30dc234f97b9661ee38ef8a77e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 10/44] fix: removing a vtable entry no longer reads past the
 table's end

---
 apop_vtables.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_vtables.c b/apop_vtables.c
index da4a4b1..455d9d1 100644
--- a/apop_vtables.c
+++ b/apop_vtables.c
@@ -56,7 +56,7 @@ int apop_vtable_drop(char const *tabname, unsigned long hash){
     lock
     for (int i=0; i< v->elmt_ct; i++)
         if (hash == v->elmts[i].hash) {
-            memmove(v->elmts+i, v->elmts+i+1, sizeof(apop_vtable_elmt_s)*(v->elmt_ct-i));
+            memmove(v->elmts+i, v->elmts+i+1, sizeof(apop_vtable_elmt_s)*(v->elmt_ct-i-1));
             v->elmt_ct--;
             unlock
             return 0;
-- 
2.43.0


From ff2e14cd00f519a0892470419271dcedc4d3c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 11/44] fix: apop_text_set refuses every position outside the
 grid

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index f7413f8..9159c1f 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -985,7 +985,7 @@ for (int n=0; n < 10; n++){
 */
 int apop_text_set(apop_data *in, const size_t row, const size_t col, const char *fmt, ...){
     Apop_stopif(!in, return -1, 0, "You asked me to write text to a NULL data set.");
-    Apop_stopif((in->textsize[0] < (int)row+1) || (in->textsize[1] < (int)col+1), return -1, 0, "You asked me to put the text "
+    Apop_stopif(in->textsize[0] <= row || in->textsize[1] <= col, return -1, 0, "You asked me to put the text "
                             " '%s' at position (%zu, %zu), but the text array has size (%zu, %zu)\n", 
                                fmt,             row, col,                  in->textsize[0], in->textsize[1]);
     if (in->text[row][col] != apop_nul_string) free(in->text[row][col]);
-- 
2.43.0


From 7b7ac5fdfbc01f240e12f9558bc9f8675bc16e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 12/44] fix: apop_text_alloc no longer overruns new rows when
 adding rows and dropping columns

---
 apop_data.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 9159c1f..a106773 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1049,9 +1049,9 @@ apop_data * apop_text_alloc(apop_data *in, const size_t row, const size_t col){
             Apop_stopif(!in->text, in->error='a'; return in,
                             0, "realloc failed setting up %zu rows. Probably out of memory.", row);
             for (size_t i=rows_now; i < row; i++){
-                in->text[i] = malloc(sizeof(char*) * col);
+                in->text[i] = malloc(sizeof(char*) * cols_now); //width adjusted with the other rows below
                 Apop_stopif(!in->text[i], in->error='a'; return in, 
-                        0, "malloc failed setting up row %zu (with %zu columns). Probably out of memory.", i, col);
+                        0, "malloc failed setting up row %zu (with %zu columns). Probably out of memory.", i, cols_now);
                 for (int j=0; j < cols_now; j++)
                     in->text[i][j] = apop_nul_string;
             }
-- 
2.43.0


From 83f18f79318fb47a547026ff180bbed787f2017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 13/44] fix: apop_text_set may use the cell's old text as an
 argument

---
 apop_data.m4.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index a106773..1de70f5 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -988,15 +988,16 @@ int apop_text_set(apop_data *in, const size_t row, const size_t col, const char
     Apop_stopif(in->textsize[0] <= row || in->textsize[1] <= col, return -1, 0, "You asked me to put the text "
                             " '%s' at position (%zu, %zu), but the text array has size (%zu, %zu)\n", 
                                fmt,             row, col,                  in->textsize[0], in->textsize[1]);
-    if (in->text[row][col] != apop_nul_string) free(in->text[row][col]);
+    char *old = in->text[row][col]; //the arguments may refer to the old text, so free it last.
     if (!fmt){
         Asprintf(&(in->text[row][col]), "%s", apop_opts.nan_string);
-        return 0;
+    } else {
+        va_list argp;
+        va_start(argp, fmt);
+        Apop_stopif(vasprintf(&(in->text[row][col]), fmt, argp)==-1, , 0, "Trouble writing to a string.");
+        va_end(argp);
     }
-    va_list argp;
-	va_start(argp, fmt);
-    Apop_stopif(vasprintf(&(in->text[row][col]), fmt, argp)==-1, , 0, "Trouble writing to a string.");
-	va_end(argp);
+    if (old != apop_nul_string) free(old);
     return 0;
 }
 
-- 
2.43.0


From bca950ea1660eb6fd0f88cd87a80a1baccc55611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 14/44] fix: apop_text_fill writes its strings literally and
 stops at the end of the list

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index f98d43d..5869888 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -932,7 +932,7 @@ apop_data *apop_text_fill_base(apop_data *data, char* text[]){
     int ctr=0;
     for (int i=0; i< data->textsize[0]; i++)
         for (int j=0; j< data->textsize[1]; j++)
-            apop_text_set(data, i, j, text[ctr++]);
+            if (ctr < textct) apop_text_set(data, i, j, "%s", text[ctr++]);
     return data;
 }
 
-- 
2.43.0


From d5d16070fd719c7ec0a34d0f924a6aa647601030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 15/44] fix: weighted moments with weights summing to one
 divided by the observation count twice

---
 apop_stats.m4.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/apop_stats.m4.c b/apop_stats.m4.c
index 9ba60c6..9499fac 100644
--- a/apop_stats.m4.c
+++ b/apop_stats.m4.c
@@ -67,8 +67,7 @@ static double wskewkurt(const gsl_vector *v, const gsl_vector *w, const int expo
         sumcu+= ww * gsl_pow_int(vv - mu, exponent); 
         wsum += ww; 
     }
-    double len = wsum < 1.1 ? w->size : wsum;
-    return sumcu/len;
+    return sumcu/wsum;
 }
 
 /** Returns the population skew \f$(\sum_i (x_i - \mu)^3/n))\f$ of the data in the given vector. Observations may be weighted.
@@ -521,7 +520,7 @@ APOP_VAR_END_HEAD
         wsum  += ww; 
     }
     double len = (wsum < 1.1 ? weights->size : wsum);
-    return (sumsq/len - gsl_pow_2(sum/len)) * len/(len -1.);
+    return (sumsq/wsum - gsl_pow_2(sum/wsum)) * len/(len -1.);
 }
 
 /** Find the sample covariance of a pair of vectors, with an optional weighting. This only
@@ -558,7 +557,7 @@ APOP_VAR_ENDHEAD
         wsum += ww; 
     }
     double len = (wsum < 1.1 ? weights->size : wsum);
-    return (sumsq/len  - sum1*sum2/gsl_pow_2(len)) *(len/(len-1));
+    return (sumsq/wsum  - sum1*sum2/gsl_pow_2(wsum)) *(len/(len-1));
 }
 
 /** Returns the sample variance/covariance matrix relating each column of the matrix to each other column.
-- 
2.43.0


From 8c82673fe5e13a478c9bd1b439944d0b848d86cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 16/44] fix: moving average with a bandwidth wider than the
 vector (size_t comparison never true)

---
 apop_hist.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_hist.m4.c b/apop_hist.m4.c
index 74ac092..1ceb4ce 100644
--- a/apop_hist.m4.c
+++ b/apop_hist.m4.c
@@ -368,7 +368,7 @@ gsl_vector *apop_vector_moving_average(gsl_vector *v, size_t bandwidth){
     Apop_stopif(!v, return NULL, 0, "You asked me to smooth a NULL vector; returning NULL.");
     Apop_stopif(!bandwidth, return apop_vector_copy(v), 0, "Bandwidth must be >=1. Returning a copy of original vector with no smoothing.");
     int halfspan = bandwidth/2;
-    Apop_stopif((v->size - halfspan*2)<=0, return NULL, 0, "Bandwidth wider than the vector. Returning NULL.");
+    Apop_stopif(v->size <= halfspan*2, return NULL, 0, "Bandwidth wider than the vector. Returning NULL.");
     gsl_vector *vout = gsl_vector_calloc(v->size - halfspan*2);
     for(size_t i=0; i < vout->size; i ++){
         double *item = gsl_vector_ptr(vout, i);
-- 
2.43.0


From 4c0d710892f8888445a0a9f485d7f6fe9b9fa217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 17/44] fix: apop_data_unpack forgot use_info_pages after the
 first page

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 5869888..ce1854f 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -721,7 +721,7 @@ APOP_VAR_ENDHEAD
                 d = d->more;
         Apop_stopif(!d, return, 0, "The data set (without info pages, because you didn't ask"
                 " me to use them) is too short for the input vector.");
-        apop_data_unpack(&vin, d);
+        apop_data_unpack(&vin, d, use_info_pages);
     }
 }
 
-- 
2.43.0


From 71b81c920fc279faccc7d35ea3e8fd0ce3f7a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 18/44] fix: apop_data_pack aborted when the last pages hold no
 numbers

---
 apop_conversions.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index ce1854f..3c6bd87 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -797,7 +797,7 @@ APOP_VAR_ENDHEAD
     if ((more_pages == 'y' ||more_pages =='Y') && in->more){
         while (use_info_pages=='n' && in->more && apop_regex(in->more->names->title, "^<.*>$"))
             in = in->more;
-        if (in->more){
+        if (in->more && offset < out->size){
             vout = gsl_vector_subvector((gsl_vector *)out, offset, out->size - offset).vector;
             apop_data_pack(in->more, &vout, more_pages, use_info_pages);
         }
-- 
2.43.0


From 93b812599d914242208b138b5cbfcb160822f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:31 +0000
Subject: [PATCH 19/44] fix: apop_data_pack silently dropped data when the
 first page has an info-page title

---
 apop_conversions.m4.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 3c6bd87..b64ce58 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -726,13 +726,15 @@ APOP_VAR_ENDHEAD
 }
 
 static size_t sizecount(const apop_data *in, bool all_pp, bool use_info_pp){ 
-    if (!in) return 0;
-    if (!use_info_pp && in->names && apop_regex(in->names->title, "^<.*>$"))
-        return (all_pp ? sizecount(in->more, all_pp, use_info_pp) : 0);
-    return (in->vector ? in->vector->size : 0)
-             + (in->matrix ? in->matrix->size1 * in->matrix->size2 : 0)
-             + (in->weights ? in->weights->size : 0)
-             + (all_pp ? sizecount(in->more, all_pp, use_info_pp) : 0);
+    size_t total = 0;
+    for (const apop_data *p = in; p; p = all_pp ? p->more : NULL){
+        //the first page is always packed.
+        if (p != in && !use_info_pp && p->names && apop_regex(p->names->title, "^<.*>$")) continue;
+        total += (p->vector ? p->vector->size : 0)
+                 + (p->matrix ? p->matrix->size1 * p->matrix->size2 : 0)
+                 + (p->weights ? p->weights->size : 0);
+    }
+    return total;
 }
 
 /** This function takes in an \ref apop_data set and writes it as a single column of
-- 
2.43.0


From b1095f4859e9a63ecb776466036026b7fecfa26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:23 +0000
Subject: [PATCH 20/44] fix: transposing in place swaps the hashes of the row
 and column names along with the names

---
 apop_data.m4.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 1de70f5..d17ad93 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1129,6 +1129,9 @@ APOP_VAR_ENDHEAD
             int tmpct = out->names->colct;
             out->names->colct = out->names->rowct;
             out->names->rowct = tmpct;
+            unsigned long *tmphash = out->names->colhash;
+            out->names->colhash = out->names->rowhash;
+            out->names->rowhash = tmphash;
         }
     } else if (inplace!='y' && in->matrix){
         if (in->matrix) gsl_matrix_transpose_memcpy(out->matrix, in->matrix);
-- 
2.43.0


From 27adb2e6a035cd81415f519b1192c7a5fc688051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:23 +0000
Subject: [PATCH 21/44] fix: apop_data_transpose used the text being transposed
 as a printf format

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index d17ad93..a95c601 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1182,7 +1182,7 @@ APOP_VAR_ENDHEAD
             for (int c=0; c< in->textsize[1]; c++)
                 if (in->text[r][c] == apop_nul_string)
                      apop_text_blank(out, c, r);
-                else apop_text_set(out, c, r, in->text[r][c]);
+                else apop_text_set(out, c, r, "%s", in->text[r][c]);
     }
     if (in->names && in->names->textct && !in->names->colct)
         apop_name_stack(out->names, in->names, 't', 'r');
-- 
2.43.0


From f2ca7f991df8ece877c25d08891b72d206092eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:23 +0000
Subject: [PATCH 22/44] fix: transposing in place decided about text names by
 the row names instead of the column names

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index a95c601..744ed7f 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1184,7 +1184,7 @@ APOP_VAR_ENDHEAD
                      apop_text_blank(out, c, r);
                 else apop_text_set(out, c, r, "%s", in->text[r][c]);
     }
-    if (in->names && in->names->textct && !in->names->colct)
+    if (in->names && in->names->textct && !out->names->rowct)
         apop_name_stack(out->names, in->names, 't', 'r');
     return out;
 }
-- 
2.43.0


From a33c735fa3f06ce20e1843daa092e07227e89296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:23 +0000
Subject: [PATCH 23/44] fix: transposing a non-square text grid in place leaked
 the moved elements and rows

---
 apop_data.m4.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 744ed7f..3e38245 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1148,10 +1148,9 @@ APOP_VAR_ENDHEAD
                 Apop_stopif(!in->text[i], in->error='a'; return in, 
                         0, "malloc failed setting up row %zu (with %zu columns). Probably out of memory.", i, orows);
                 for (int j=ocols; j < orows; j++)
-                    in->text[i][j] = in->text[j][i] == apop_nul_string
-                                        ? apop_nul_string
-                                        : strdup(in->text[j][i]);
+                    in->text[i][j] = in->text[j][i];
             }
+            for (size_t i=ocols; i < orows; i++) free(in->text[i]); //elements have moved to the first ocols rows
         }
         if (ocols > orows){ //add rows.
             in->text = realloc(in->text, sizeof(char**)*ocols);
@@ -1162,9 +1161,7 @@ APOP_VAR_ENDHEAD
                 Apop_stopif(!in->text[i], in->error='a'; return in, 
                         0, "malloc failed setting up row %zu (with %zu columns). Probably out of memory.", i, orows);
                 for (int j=0; j < orows; j++)
-                    in->text[i][j] = in->text[j][i] == apop_nul_string
-                                        ? apop_nul_string
-                                        : strdup(in->text[j][i]);
+                    in->text[i][j] = in->text[j][i];
             }
         }
         size_t squaresize = GSL_MIN(orows, ocols);
-- 
2.43.0


From d357db29c98ed97f265f78a8b23a00821450e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:05 +0000
Subject: [PATCH 24/44] fix: a transposed copy of a data set without a matrix
 lost its row and column names

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 3e38245..78ee63b 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1133,7 +1133,7 @@ APOP_VAR_ENDHEAD
             out->names->colhash = out->names->rowhash;
             out->names->rowhash = tmphash;
         }
-    } else if (inplace!='y' && in->matrix){
+    } else {
         if (in->matrix) gsl_matrix_transpose_memcpy(out->matrix, in->matrix);
         apop_name_stack(out->names, in->names, 'r', 'c');
         apop_name_stack(out->names, in->names, 'c', 'r');
-- 
2.43.0


From 0883eaed482a26db59ed99040a48d713f5b53c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:58 +0000
Subject: [PATCH 25/44] fix: transposing named text without column names writes
 the text names to the row names, as documented

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 78ee63b..abef29a 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1182,7 +1182,7 @@ APOP_VAR_ENDHEAD
                 else apop_text_set(out, c, r, "%s", in->text[r][c]);
     }
     if (in->names && in->names->textct && !out->names->rowct)
-        apop_name_stack(out->names, in->names, 't', 'r');
+        apop_name_stack(out->names, in->names, 'r', 't');
     return out;
 }
 
-- 
2.43.0


From bc3642ce98ec1e74241812038f409ec1d8b9fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 26/44] fix: after removing columns, looking up a column name
 used the removed columns' hashes

---
 apop_data.m4.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index abef29a..56dd305 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -634,10 +634,13 @@ static void apop_name_rm_columns(apop_name *n, int *drop){
         free(n->col[i]);
     }
     free(n->col);
+    free(n->colhash);
     n->col = newname->col;
+    n->colhash = newname->colhash;
 
     //we need to free the newname struct, but leave the column intact.
     newname->col = NULL;
+    newname->colhash = NULL;
     newname->colct  = 0;
     apop_name_free(newname);
 }
-- 
2.43.0


From d83ffb953ae9be5e4bb9297837a0a16f794d2790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 27/44] fix: removing columns from a data set without a matrix
 or names crashed

---
 apop_data.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 56dd305..88c3c1a 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -647,6 +647,7 @@ static void apop_name_rm_columns(apop_name *n, int *drop){
 
 
 static gsl_matrix *apop_matrix_rm_columns(gsl_matrix *in, int *drop){
+    if (!in) return NULL;
     int ct  = 0,  //how many columns will not be dropped?
         j   = 0;
     for (size_t i=0; i < in->size2; i++)
@@ -682,7 +683,7 @@ void apop_data_rm_columns(apop_data *d, int *drop){
     gsl_matrix *freeme = d->matrix;
     d->matrix = apop_matrix_rm_columns(d->matrix, drop);
     gsl_matrix_free(freeme); 
-    apop_name_rm_columns(d->names, drop);
+    if (d->names) apop_name_rm_columns(d->names, drop);
 }
 
 /** \def apop_data_prune_columns(in, ...)
-- 
2.43.0


From 1bfc37e8e7aa56ffbab0bb34c7ca5742b9949f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 28/44] fix: pruning read past the list of names when some
 columns are unnamed

---
 apop_data.m4.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 88c3c1a..736dd15 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -727,7 +727,8 @@ apop_data* apop_data_prune_columns_base(apop_data *d, char **colnames){
     find each element of the list, using that "" as a stopper, and then call apop_data_rm_columns.*/
     Apop_stopif(!d, return NULL, 1, "You're asking me to prune a NULL data set; returning.");
     Apop_stopif(!d->matrix, return d, 1, "You're asking me to prune a data set with NULL matrix; returning.");
-    int rm_list[d->names->colct];
+    int list_len = GSL_MAX(d->matrix->size2, d->names->colct);
+    int rm_list[list_len];
     int keep_count = 0;
     char **name_step = colnames;
     //to throw errors for typos (and slight efficiency gains), I need an array of whether
@@ -737,9 +738,9 @@ apop_data* apop_data_prune_columns_base(apop_data *d, char **colnames){
     int used_field[keep_count];
     memset(used_field, 0, keep_count*sizeof(int));
 
-    for (int i=0; i< d->names->colct; i++){
+    for (int i=0; i< list_len; i++){
         int keep = 0;
-        for (int j=0; j<keep_count; j++)
+        for (int j=0; i < d->names->colct && j<keep_count; j++)
             if (!used_field[j] && !strcasecmp(d->names->col[i], colnames[j])){
                 keep ++;
                 used_field[j]++;
-- 
2.43.0


From 9d604efffddd39a5c7521eefad6768e6146022ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 29/44] fix: after removing rows, looking up a row name used
 the hashes of the removed rows

---
 apop_data.m4.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 736dd15..a2e19d3 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1429,6 +1429,8 @@ APOP_VAR_ENDHEAD
         }
         if (!drop_row){
             if (outlength != i) apop_data_memcpy(Apop_r(in, outlength), Apop_r(in, i));
+            if (in->names && in->names->rowhash && i < in->names->rowct)
+                in->names->rowhash[outlength] = in->names->rowhash[i];
             outlength++;
         }
     }
-- 
2.43.0


From 737f54e14b4c55f88eba342439952cbbf85c4895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 30/44] fix: removing rows from data whose parts have different
 heights left removed rows in the shorter parts

---
 apop_data.m4.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index a2e19d3..900a161 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -1419,7 +1419,7 @@ APOP_VAR_HEAD apop_data* apop_data_rm_rows(apop_data *in, int *drop, apop_fn_ir
             "each row. Returning with no changes made.");
 APOP_VAR_ENDHEAD
     //First, shift columns down to the nearest not-freed row.
-    int outlength = 0;
+    int outlength = 0, vlength = 0, wlength = 0, mlength = 0, tlength = 0, namelength = 0;
     Get_vmsizes(in); //vsize, msize1, maxsize
     for (int i=0 ; i < maxsize; i++){
         int drop_row=0;
@@ -1432,6 +1432,12 @@ APOP_VAR_ENDHEAD
             if (in->names && in->names->rowhash && i < in->names->rowct)
                 in->names->rowhash[outlength] = in->names->rowhash[i];
             outlength++;
+            //parts may be of different heights
+            if (i < vsize) vlength = outlength;
+            if (i < wsize) wlength = outlength;
+            if (i < msize1) mlength = outlength;
+            if (i < in->textsize[0]) tlength = outlength;
+            if (in->names && i < in->names->rowct) namelength = outlength;
         }
     }
     if (!outlength){
@@ -1443,14 +1449,17 @@ APOP_VAR_ENDHEAD
     }
 
     //now trim excess memory:
-    if (in->vector)  apop_vector_realloc(in->vector, GSL_MIN(in->vector->size, outlength));
-    if (in->weights) apop_vector_realloc(in->weights, GSL_MIN(in->weights->size, outlength));
-    if (in->matrix)  apop_matrix_realloc(in->matrix, GSL_MIN(in->matrix->size1, outlength), in->matrix->size2);
-    if (in->text)    apop_text_alloc(in, GSL_MIN(outlength, in->textsize[0]), in->textsize[1]);
-    if (in->names && in->names->rowct > outlength){
-        for (int k=outlength; k< in->names->rowct; k++)
+    if (!vlength) {gsl_vector_free(in->vector);  in->vector = NULL;}
+    if (!wlength) {gsl_vector_free(in->weights); in->weights = NULL;}
+    if (!mlength) {gsl_matrix_free(in->matrix);  in->matrix = NULL;}
+    if (in->vector)  apop_vector_realloc(in->vector, vlength);
+    if (in->weights) apop_vector_realloc(in->weights, wlength);
+    if (in->matrix)  apop_matrix_realloc(in->matrix, mlength, in->matrix->size2);
+    if (in->text)    apop_text_alloc(in, tlength, tlength ? in->textsize[1] : 0);
+    if (in->names && in->names->rowct > namelength){
+        for (int k=namelength; k< in->names->rowct; k++)
             free(in->names->row[k]);
-        in->names->rowct = outlength;
+        in->names->rowct = namelength;
     }
     return in;
 }
-- 
2.43.0


From da9c3b37cdf2b156388a1ab54029a35c77e5c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 31/44] fix: splitting a data set without a matrix by rows at
 or past its end aborted

---
 apop_data.m4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index 900a161..c26deab 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -472,9 +472,10 @@ apop_data ** apop_data_split(apop_data *in, int splitpoint, char r_or_c){
         namec0 = 0, namec1 = 0,
         namersplit = -1, namecsplit = -1;
      if (r_or_c == 'r' || r_or_c == 'R') {
+        Get_vmsizes(in); //maxsize
         if (splitpoint <=0)
             out[1]  = apop_data_copy(in);
-        else if (in->matrix && splitpoint >= in->matrix->size1)
+        else if (splitpoint >= maxsize)
             out[0]  = apop_data_copy(in);
         else {
             namev0  =
-- 
2.43.0


From 6a5afdaf13cbdf0977e62d1832df0510faa1d5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 32/44] fix: splitting rows with 'R' dropped the text

---
 apop_data.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index c26deab..c5e4e79 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -601,7 +601,7 @@ allocation:
         if (namec1 && out[1]) apop_name_stack(out[1]->names, in->names, 'c');
     }
     //finally, the text [split by rows only]
-    if (r_or_c=='r' && in->textsize[0] && in->textsize[1]){
+    if ((r_or_c=='r' || r_or_c=='R') && in->textsize[0] && in->textsize[1]){
         apop_name_stack(out[1]->names, in->names, 't');
         apop_text_alloc(out[0], splitpoint, in->textsize[1]);
         Apop_stopif(out[0]->error, return out, 0, "Allocation error.");
-- 
2.43.0


From 5828d298d362e3c7df8b85a21aff88639ec350fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 33/44] fix: splitting a data set without names crashed

---
 apop_data.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_data.m4.c b/apop_data.m4.c
index c5e4e79..8022234 100644
--- a/apop_data.m4.c
+++ b/apop_data.m4.c
@@ -580,6 +580,7 @@ allocation:
     if (set_w2) out[1]->weights  = apop_vector_copy(&w2);
     if (namev0 && out[0]) apop_name_stack(out[0]->names, in->names, 'v');
     if (namev1 && out[1]) apop_name_stack(out[1]->names, in->names, 'v');
+    if (!in->names) namersplit = namecsplit = -1;
     if (namersplit >=0)
         for (int k=0; k< in->names->rowct; k++){
             int which = (k >= namersplit);
-- 
2.43.0


From 90b1d43956ec9a92c07afae597fd73bbfe725208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:07 +0000
Subject: [PATCH 34/44] fix: var, stddev, skew and kurt in SQL counted nulls as
 zeros

---
 apop_db_sqlite.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apop_db_sqlite.c b/apop_db_sqlite.c
index ca61283..63c4a6b 100644
--- a/apop_db_sqlite.c
+++ b/apop_db_sqlite.c
@@ -24,7 +24,7 @@ struct StdDevCtx {
 static void twoStep(sqlite3_context *context, int argc, sqlite3_value **argv){
     if (argc<1) return;
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if (p && argv[0]){
+    if (p && sqlite3_value_type(argv[0]) != SQLITE_NULL){
         double x = sqlite3_value_double(argv[0]);
         double ratio = p->cnt/(p->cnt+1.0);
         p->cnt++;
@@ -38,7 +38,7 @@ static void twoStep(sqlite3_context *context, int argc, sqlite3_value **argv){
 static void threeStep(sqlite3_context *context, int argc, sqlite3_value **argv){
     if (argc<1) return;
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if (p && argv[0]){
+    if (p && sqlite3_value_type(argv[0]) != SQLITE_NULL){
         double x = sqlite3_value_double(argv[0]);
         double ratio =  p->cnt/(p->cnt+1.0);
         p->cnt++;
@@ -54,7 +54,7 @@ static void threeStep(sqlite3_context *context, int argc, sqlite3_value **argv){
 static void fourStep(sqlite3_context *context, int argc, sqlite3_value **argv){
     if( argc<1 ) return;
     StdDevCtx *p = sqlite3_aggregate_context(context, sizeof(*p));
-    if (p && argv[0]){
+    if (p && sqlite3_value_type(argv[0]) != SQLITE_NULL){
         double x = sqlite3_value_double(argv[0]);
         p->cnt++;
         p->avg = (x + p->avg * (p->cnt-1.))/p->cnt;
-- 
2.43.0


From d8dbdeb92f63b1572e8c49aba85f46f58c0a4906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:54 +0000
Subject: [PATCH 35/44] fix: a view of several rows kept only the first row
 name

---
 apop.m4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index cefd8da..40c500e 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -870,7 +870,7 @@ The view is automatically allocated, and disappears as soon as the program leave
                 .colhash = (d)->names->colhash,                                  \
                 .text = (d)->names->text,                                        \
                 .colct = (d)->names->colct,                                      \
-                .rowct = (d)->names->row ? (GSL_MIN(1, GSL_MAX((d)->names->rowct - (int)(rownum), 0)))      \
+                .rowct = (d)->names->row ? (GSL_MIN((len), GSL_MAX((d)->names->rowct - (int)(rownum), 0)))  \
                                           : 0,                                   \
                 .textct = (d)->names->textct }),                                 \
         .vector= Apop_subvector((d->vector), (rownum), (len)),                   \
-- 
2.43.0


From c44bd9563bfea58d1103d0a98462ca72660a7a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:54 +0000
Subject: [PATCH 36/44] fix: a view of columns counted text names it does not
 have

---
 apop.m4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop.m4.h b/apop.m4.h
index 40c500e..b385ccf 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -910,7 +910,7 @@ The view is automatically allocated, and disappears as soon as the program leave
                     .rowct = (d)->names->rowct,                                      \
                     .colct = (d)->names->col ? (GSL_MIN(len, GSL_MAX((d)->names->colct - colnum, 0)))      \
                                               : 0,                                   \
-                    .textct = (d)->names->textct } : NULL \
+                    .textct = 0 } : NULL \
             })
 
 /** \def Apop_r(d, row)
-- 
2.43.0


From 83afceb33c1112704f62ff1ef69c6f830ed16437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 37/44] fix: pasting text kept the elements to prune and
 dropped the rest

---
 apop_asst.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 37ede53..aaefe61 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -108,7 +108,7 @@ APOP_VAR_ENDHEAD
     for (int i=0; i< ((!strings || !*strings->textsize)? 0 : *strings->textsize); i++){
         free(oneline); oneline = NULL;
         for (int j=0; j< strings->textsize[1]; j++){
-            if (prune && !prune((apop_data*)strings, i, j, prune_parameter)) continue;
+            if (prune && prune((apop_data*)strings, i, j, prune_parameter)) continue;
             apop_tack_on(&oneline, strings->text[i][j]);
             if (j <strings->textsize[1]-1)  apop_tack_on(&oneline, between_cols);
         }
-- 
2.43.0


From 45f4d544d87ee688999fb6cc8466f3b9bcf65e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 38/44] fix: delimiters around pruned elements when pasting
 text

---
 apop_asst.m4.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index aaefe61..3841608 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -109,17 +109,20 @@ APOP_VAR_ENDHEAD
         free(oneline); oneline = NULL;
         for (int j=0; j< strings->textsize[1]; j++){
             if (prune && prune((apop_data*)strings, i, j, prune_parameter)) continue;
+            if (oneline) apop_tack_on(&oneline, between_cols);
             apop_tack_on(&oneline, strings->text[i][j]);
-            if (j <strings->textsize[1]-1)  apop_tack_on(&oneline, between_cols);
         }
+        if (!oneline) continue; //every element of this row was pruned
         apop_tack_on(&out, prior_line);
-        if (prior_line && oneline) apop_tack_on(&out, between);
+        if (prior_line) apop_tack_on(&out, between);
         free(prior_line);
-        prior_line=oneline ? strdup(oneline): NULL;
+        prior_line=strdup(oneline);
         //if (i <strings->textsize[0]-1)  apop_tack_on(&out, between);
         //if (oneline)  apop_tack_on(&out, oneline);
     }
-    apop_tack_on(&out, oneline); //the final one never got a chance to be prior_line
+    apop_tack_on(&out, prior_line); //the final one never got a chance to be prior
+    free(prior_line);
+    free(oneline);
     apop_tack_on(&out, after);
     Apop_notify(3, "%s", out);
     return out;
-- 
2.43.0


From 91ba85c245d04ce28b6fd89a1659a74bf28f7f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 39/44] fix: apop_regex never returned when the expression
 matched an empty string

---
 apop_asst.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_asst.m4.c b/apop_asst.m4.c
index 3841608..2515fe9 100644
--- a/apop_asst.m4.c
+++ b/apop_asst.m4.c
@@ -285,6 +285,7 @@ APOP_VAR_ENDHEAD
                 } //else matches nothing; apop_text_alloc already made this cell this NULL.
             }
             string += result[0].rm_eo; //end of whole match;
+            if (result[0].rm_so==result[0].rm_eo && string[0]!='\0') string++; //empty match: move on.
             matchrow++;
         }
     } while (substrings && found && string[0]!='\0');
-- 
2.43.0


From a143b2e9cf7619e0018e516cf64a899ff6bb3046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:47 +0000
Subject: [PATCH 40/44] fix: compressing to ranks ignored min_bins when there
 is both a vector and a matrix

---
 apop_conversions.m4.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index b64ce58..251fe0b 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -266,6 +266,7 @@ APOP_VAR_ENDHEAD
     Get_vmsizes(in);
     int upper_bound = GSL_MAX(in->matrix ? gsl_matrix_max(in->matrix) : min_bins,
                               in->vector ? gsl_vector_max(in->vector) : min_bins);
+    upper_bound = GSL_MAX(upper_bound, min_bins);
     apop_data *out = apop_data_calloc(1, upper_bound+1);
     for (int i=0; i< msize1; i++)
         for (int j=0; j< msize2; j++) 
-- 
2.43.0


From 5038fec807d7c784ed8891a8ddd542c2ad1c6277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:47 +0000
Subject: [PATCH 41/44] fix: expanding ranks crashed without a matrix and left
 the entries for a vector unset

---
 apop_conversions.m4.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop_conversions.m4.c b/apop_conversions.m4.c
index 251fe0b..284ce3a 100644
--- a/apop_conversions.m4.c
+++ b/apop_conversions.m4.c
@@ -285,8 +285,8 @@ APOP_VAR_ENDHEAD
   has exactly the given frequency of zeros, ones, et cetera.
 */
 apop_data *apop_data_rank_expand (apop_data *in){
-    int total_ct = (in->matrix ? apop_matrix_sum(in->matrix) : 0)
-                 + (in->vector ? apop_vector_sum(in->vector) : 0);
+    if (!in || !in->matrix) return NULL;
+    int total_ct = apop_matrix_sum(in->matrix);
     if (total_ct == 0)
         return NULL;
     apop_data *out = apop_data_alloc(total_ct);
-- 
2.43.0


From f8c7ceb3ee9e7720dd420cf4557daa8f8adbab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:42 +0000
Subject: [PATCH 42/44] fix: a view of columns at a computed position lost its
 column names

---
 apop.m4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apop.m4.h b/apop.m4.h
index b385ccf..9b157ea 100644
--- a/apop.m4.h
+++ b/apop.m4.h
@@ -902,13 +902,13 @@ The view is automatically allocated, and disappears as soon as the program leave
                     .title = (d)->names->title,                                      \
                     .vector = NULL,                                                  \
                     .row = (d)->names->row,                                          \
-                    .col = ((d)->names->col && (d)->names->colct > colnum) ? &((d)->names->col[colnum]) : NULL,  \
+                    .col = ((d)->names->col && (d)->names->colct > (colnum)) ? &((d)->names->col[colnum]) : NULL,  \
                     .text = NULL,                                                    \
                     .texthash = NULL,                                                \
                     .rowhash = (d)->names->rowhash,                                  \
                     .colhash = ((d)->names->colhash && (d)->names->colct > (colnum)) ? &((d)->names->colhash[colnum]) : NULL,  \
                     .rowct = (d)->names->rowct,                                      \
-                    .colct = (d)->names->col ? (GSL_MIN(len, GSL_MAX((d)->names->colct - colnum, 0)))      \
+                    .colct = (d)->names->col ? (GSL_MIN(len, GSL_MAX((d)->names->colct - (colnum), 0)))      \
                                               : 0,                                   \
                     .textct = 0 } : NULL \
             })
-- 
2.43.0


From f3bab24766e5ea0b865b1b0c1eded163f19f8311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:01 +0000
Subject: [PATCH 43/44] fix: mapping over columns added names to the input and
 left the output unnamed

---
 apop_mapply.m4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index bd9ac81..fb1dd60 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -177,7 +177,7 @@ APOP_VAR_ENDHEAD
         } else if (by_apop_rows || part == 'r')
              apop_name_stack(out->names, in->names, 'r');
         else if (part == 'c')
-            apop_name_stack(in->names, out->names, 'r', 'c');
+            apop_name_stack(out->names, in->names, 'r', 'c');
     }
 
     if (by_apop_rows) mapply_core(in, NULL, NULL, fn, out ? out->vector : NULL, use_index, use_param, param, 'r', by_apop_rows);
-- 
2.43.0


From 1931f426fa8ff2376f75fc0ec8984d777b6f6830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:01 +0000
Subject: [PATCH 44/44] fix: mapping a function without results over every page
 crashed

---
 apop_mapply.m4.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apop_mapply.m4.c b/apop_mapply.m4.c
index fb1dd60..7634a66 100644
--- a/apop_mapply.m4.c
+++ b/apop_mapply.m4.c
@@ -210,8 +210,9 @@ APOP_VAR_ENDHEAD
         }
     }
     if ((all_pages=='y' || all_pages=='Y') && in->more){
-        out->more = apop_map_base(in->more, fn_d, fn_v, fn_r, fn_dp, fn_vp, fn_rp, fn_dpi, fn_vpi, fn_rpi, fn_di, fn_vi, fn_ri, param, inplace, part, all_pages);
-        Apop_stopif(out->more->error, out->error=out->more->error, 1, "Error in subpage; marked parent page with same error code.");
+        apop_data *outmore = apop_map_base(in->more, fn_d, fn_v, fn_r, fn_dp, fn_vp, fn_rp, fn_dpi, fn_vpi, fn_rpi, fn_di, fn_vi, fn_ri, param, inplace, part, all_pages);
+        if (out) out->more = outmore;
+        Apop_stopif(out && outmore && outmore->error, out->error=outmore->error, 1, "Error in subpage; marked parent page with same error code.");
     }
     return out;
 }
-- 
2.43.0

