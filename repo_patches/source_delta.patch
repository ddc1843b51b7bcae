From 1013914f451eafc48569fb2f56dfbe1bd5c3e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:13 +0000
Subject: [PATCH 01/19] fix: sort terms decreasingly for the lexicographical
 order

initial_gens_cmp_lex sorted the terms of each input generator increasingly,
so the smallest monomial was taken as the leading one; F4 then wrote out of
bounds or returned sets that are not Groebner bases for mon_order 1.
---
 src/neogb/order.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/order.c b/src/neogb/order.c
index 0f114bd..0dc8a96 100644
--- a/src/neogb/order.c
+++ b/src/neogb/order.c
@@ -263,7 +263,7 @@ static int initial_gens_cmp_lex(
     while(i < evl-1 && ea[i] == eb[i]) {
         ++i;
     }
-    return ea[i] - eb[i];
+    return eb[i] - ea[i];
 }
 
 static int monomial_cmp_pivots_lex(
-- 
2.43.0


From 2c525574fb79b7777de124ed64103a62cef65759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:05 +0000
Subject: [PATCH 02/19] fix: compute the basis for normal forms with exact
 linear algebra

export_nf() hard-coded the probabilistic variant 44 for the basis it reduces
by, so over small prime fields a basis element could be missed and the
returned polynomials were not reduced.
---
 src/neogb/nf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/nf.c b/src/neogb/nf.c
index c470579..b1b9c93 100644
--- a/src/neogb/nf.c
+++ b/src/neogb/nf.c
@@ -153,7 +153,7 @@ int64_t export_nf(
     success = initialize_gba_input_data(&bs, &bht, &md,
             bs_lens, bs_exps, bs_cfs, field_char, mon_order, elim_block_len,
             nr_vars, nr_bs_gens, 0, 17,
-            nr_threads, 0, 0, 44, 0,
+            nr_threads, 0, 0, 2, 0,
             1, 0, 0, info_level);
 
     /* all input generators are invalid */
-- 
2.43.0


From 556a299c55f266d8640f3dc21de50b204682daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:59 +0000
Subject: [PATCH 03/19] fix: keep the interval Horner scheme an enclosure when
 a partial value contains 0

---
 src/usolve/evaluate.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/usolve/evaluate.c b/src/usolve/evaluate.c
index f12acfa..6c89730 100644
--- a/src/usolve/evaluate.c
+++ b/src/usolve/evaluate.c
@@ -200,7 +200,13 @@ int mpz_poly_eval_interval(mpz_t *up, const long int deg, const long k,
         mpz_mul(val_do, val_do, b);
         mpz_add(val_do, val_do, tmp);
 
-        mpz_mul(val_up, val_up, a);
+        /* [val_do, val_up] may contain 0 */
+        if(mpz_sgn(val_up) >= 0){
+          mpz_mul(val_up, val_up, b);
+        }
+        else{
+          mpz_mul(val_up, val_up, a);
+        }
         mpz_add(val_up, val_up, tmp);
       }
 
@@ -229,7 +235,13 @@ int mpz_poly_eval_interval(mpz_t *up, const long int deg, const long k,
         mpz_set(s, val_do);
         mpz_mul_2exp(tmp, up[i], k*(deg - i));
 
-        mpz_mul(val_do, val_up, b);
+        /* [val_do, val_up] may contain 0 */
+        if(mpz_sgn(val_up) >= 0){
+          mpz_mul(val_do, val_up, a);
+        }
+        else{
+          mpz_mul(val_do, val_up, b);
+        }
         mpz_add(val_do, val_do, tmp);
 
         mpz_mul(val_up, s, a);
-- 
2.43.0


From 0f3c1f2e38ca7b80c4f78744f75a949725d8602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 04/19] fix: separate generators in input files by commata, not
 by lines

Generators may span several lines or share one, as the README says, and
may contain any whitespace and a leading plus sign.
---
 src/msolve/iofiles.c | 93 +++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 54 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 3c5bea0..5ee291b 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -363,20 +363,20 @@ static int32_t get_nvars(const char *fn)
 {
     FILE * fh = fopen(fn, "r");
     char * line = NULL;
-    size_t len;
+    size_t len  = 0;
     nvars_t nvars = -1; 
 
     /* number of variables is read from first line, it is 1 + (number of commata) */
     if (getline(&line, &len, fh) != -1)
     {
         nvars = 1;
-        line = strchr(line, ',');
-        while (line != NULL)
+        const char *comma = strchr(line, ',');
+        while (comma != NULL)
         {
             nvars++;
-            // line points to a comma, which must be followed by one or more characters
-            // --> line+1 is valid
-            line = strchr(line+1, ',');
+            // comma must be followed by one or more characters
+            // --> comma+1 is valid
+            comma = strchr(comma+1, ',');
         }
     }
 
@@ -387,27 +387,37 @@ static int32_t get_nvars(const char *fn)
 }
 
 /**
- * Checks if a null-terminated string is just empty
- * ("only whitespaces" counts as empty)
+ * Reads the next generator, i.e. everything up to the next comma or the end of
+ * the file. Whitespace, the comma and a leading plus are removed, chunks which
+ * consist of whitespace only are skipped.
  *
- * \return 1 if the line is empty, else 0
+ * \return 1 if there is a generator, else 0
  */
-static inline int is_line_empty(const char *line)
+static inline int read_next_generator(char **linep, size_t *lenp, FILE *fh)
 {
-    while (*line != '\0')
-    {
-        if (!isspace(*line))
-            return 0;
-        line++;
+    ssize_t nread, j, k;
+
+    while ((nread = getdelim(linep, lenp, ',', fh)) != -1) {
+        char *line = *linep;
+        for (k = 0, j = 0; j < nread; ++j) {
+            if (!isspace(line[j]) && line[j] != ','
+                    && !(k == 0 && line[j] == '+')) {
+                line[k++] = line[j];
+            }
+        }
+        line[k] = '\0';
+        if (k > 0) {
+            return 1;
+        }
     }
-    return 1;
+    return 0;
 }
 
 static int32_t get_ngenerators(char *fn)
 {
     int32_t ngens = 0;
     char *line  = NULL;
-    size_t len;
+    size_t len  = 0;
     FILE *fh  = fopen(fn,"r");
 
     /* 1st and 2nd lines are ignored; still check all went fine */
@@ -415,11 +425,10 @@ static int32_t get_ngenerators(char *fn)
         || getline(&line, &len, fh) == -1)
         ngens = -1;
 
-    /* go through subsequent lines, not counting empty ones */
+    /* generators may span several lines, they are separated by commata */
     else
-        while(getline(&line, &len, fh) != -1)
-            if (! is_line_empty(line))
-                ngens++;
+        while (read_next_generator(&line, &len, fh))
+            ngens++;
 
     free(line);
     fclose(fh);
@@ -432,7 +441,7 @@ static inline char *get_variable_name(const char *line, char **prev_pos)
 {
   const char comma_splicer  = ',';
 
-  char *tmp_var   = (char *)malloc(50 * sizeof(char));
+  char *tmp_var   = (char *)malloc((strlen(*prev_pos)+2) * sizeof(char));
   char *curr_pos  = strchr(*prev_pos, comma_splicer);
   if (curr_pos != NULL) {
     size_t var_diff   = (size_t)(curr_pos - *prev_pos);
@@ -553,18 +562,12 @@ static void get_nterms_and_all_nterms(FILE *fh, char **linep,
                                       int32_t *nr_gens, nelts_t *nterms, nelts_t *all_nterms){
 
     char *line  = *linep;
-    int32_t i = 0, j = 0, k = 0;
+    int32_t i = 0;
     size_t len = 0;
-    while(getdelim(&line, &len, ',', fh) != -1) {
-        for (k = 0, j = 0; j < len; ++j) {
-            if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                line[k++] = line[j];
-            }
-        }
+    while(read_next_generator(&line, &len, fh)) {
         *nterms  = get_number_of_terms(line);
         gens->lens[i] = *nterms;
         *all_nterms += *nterms;
-        len = 0;
         i++;
     }
     *linep  = line;
@@ -815,19 +818,10 @@ static void get_coeffs_and_exponents_ff32(FILE *fh, char **linep, nelts_t all_nt
 
     gens->cfs = (int32_t *)(malloc(sizeof(int32_t) * all_nterms));
     gens->exps = (int32_t *)calloc(all_nterms * gens->nvars, sizeof(int32_t));
-    long i, j, k;
+    long i;
     for(i = 0; i < *nr_gens; i++){
-        if (getdelim(&line, &len, ',', fh) != -1) {
-            for (k = 0, j = 0; j < len; ++j) {
-                if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                    line[k++] = line[j];
-                }
-            }
-            if (line[k-1] == ',') {
-                line[k-1] = '\0';
-            }
-        }
-        if(get_coefficient_ff_and_term_from_line(line, gens->lens[i], gens->field_char,
+        if(!read_next_generator(&line, &len, fh)
+                || get_coefficient_ff_and_term_from_line(line, gens->lens[i], gens->field_char,
                     gens, pos)){
             fprintf(stderr, "Error when reading file (exit but things need to be free-ed)\n");
             free(line);
@@ -860,19 +854,10 @@ static void get_coeffs_and_exponents_mpz(FILE *fh, char **linep, nelts_t all_nte
     }
 
     gens->exps = (int32_t *)calloc(all_nterms * gens->nvars, sizeof(int32_t));
-    long i, j, k;
+    long i;
     for(i = 0; i < *nr_gens; i++){
-        if (getdelim(&line, &len, ',', fh) != -1) {
-            for (k = 0, j = 0; j < len; ++j) {
-                if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                    line[k++] = line[j];
-                }
-            }
-            if (line[k-1] == ',') {
-                line[k-1] = '\0';
-            }
-        }
-        if(get_coefficient_mpz_and_term_from_line(line, gens->lens[i], gens->field_char,
+        if(!read_next_generator(&line, &len, fh)
+                || get_coefficient_mpz_and_term_from_line(line, gens->lens[i], gens->field_char,
                     gens, pos)){
             fprintf(stderr, "Error when reading file (exit but things need to be free-ed)\n");
             free(line);
-- 
2.43.0


From ab70ceec861790a0e4204a469371bd34b27ada9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 05/19] fix: read prime field coefficients of any size, zero
 and fractions exactly

The first coefficient was truncated to 32 bits and not reduced, an inner
coefficient zero was read as one, denominators were ignored.
---
 src/msolve/iofiles.c | 86 +++++++++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 46 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 5ee291b..72dc5bd 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -656,62 +656,56 @@ static inline void get_term(const char *line, char **prev_pos,
 }
 
 
-/*assumes that coeffs in file fit in word size */
+/* returns the residue class of the coefficient a term starts with, the
+ * coefficient is 1 if it is not given explicitly */
+static inline int32_t get_coefficient_ff(const char *term, const int32_t field_char)
+{
+  const int neg   = term[0] == '-';
+  const char *pos = term[0] == '-' || term[0] == '+' ? term + 1 : term;
+
+  /* part[0] / part[1] is the coefficient */
+  int64_t part[2] = {1, 1};
+  for (int i = 0; i < 2; ++i) {
+    if (isdigit(*pos)) {
+      part[i] = 0;
+      while (isdigit(*pos)) {
+        part[i] = (10 * part[i] + (*pos - '0')) % field_char;
+        pos++;
+      }
+    }
+    if (*pos != '/') {
+      break;
+    }
+    pos++;
+  }
+  if (part[1] == 0) {
+    fprintf(stderr, "Denominator is zero in the given characteristic, exit...\n");
+    exit(1);
+  }
+  if (part[1] != 1) {
+    part[0] = (part[0] * (int64_t)n_invmod(part[1], field_char)) % field_char;
+  }
+  if (neg && part[0] != 0) {
+    part[0] = field_char - part[0];
+  }
+  return (int32_t)part[0];
+}
+
 static int get_coefficient_ff_and_term_from_line(char *line, int32_t nterms,
                                           int32_t field_char,
                                           data_gens_ff_t *gens, int32_t pos){
   char *prev_pos = NULL;
   size_t term_size = 50000;
   char *term  = (char *)malloc(term_size * sizeof(char));
-  int64_t cf_tmp  = 0; /** temp for coefficient value, possibly coeff is negative. */
 
   prev_pos = line;
-  get_term(line, &prev_pos, &term, &term_size);
-  if(term != NULL){
-    int32_t iv_tmp  = (int32_t)strtol(term, NULL, 10);
-    if (iv_tmp == 0) {
-      switch (term[0]) {
-          case '0':
-            iv_tmp = 0;
-            break;
-          case '-':
-            iv_tmp = -1;
-            break;
-          default:
-            iv_tmp = 1;
-            break;
-      }
-    }
-    while (iv_tmp < 0) {
-      iv_tmp  +=  field_char; //MS change int -> long int
-    }
-    gens->cfs[pos]  = (int32_t)iv_tmp;
-    store_exponent(term, gens, pos*gens->nvars);
-    for(int j = 1; j < nterms; j++){
-      get_term(line, &prev_pos, &term, &term_size);
-      if (term != NULL) {
-        cf_tmp  = (int64_t)strtol(term, NULL, 10);
-
-        if (cf_tmp == 0) {
-          if (term[0] == '-') {
-            cf_tmp = -1;
-          } else {
-            cf_tmp = 1;
-          }
-        }
-        while (cf_tmp < 0) {
-          cf_tmp  += field_char;
-        }
-        gens->cfs[pos+j] = (int32_t)(cf_tmp % field_char);
-        store_exponent(term, gens, (pos+j)*gens->nvars);
-      }
-      //      store_exponent(term, basis, ht);
-    }
-    free(term);
-    return 0;
+  for(int j = 0; j < nterms; j++){
+    get_term(line, &prev_pos, &term, &term_size);
+    gens->cfs[pos+j] = get_coefficient_ff(term, field_char);
+    store_exponent(term, gens, (pos+j)*gens->nvars);
   }
   free(term);
-  return 1;
+  return 0;
 }
 
 static void beginning_strterm_to_mpz(char *str, mpz_t *num, mpz_t *den){
-- 
2.43.0


From cdc5ccbfbccbcd457c5e719a664ecd8d3158bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 06/19] fix: combine like terms and drop zero terms of
 generators read from a file

Repeated variables of a term multiply up instead of overwriting each other.
---
 src/msolve/iofiles.c | 89 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 88 insertions(+), 1 deletion(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 72dc5bd..a253d82 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -51,7 +51,7 @@ static inline void store_exponent(const char *term, data_gens_ff_t *gens, int32_
             }
             for (k = 0; k < gens->nvars; ++k) {
                 if (strcmp(gens->vnames[k], var) == 0) {
-                    ((gens->exps) + pos)[k] = strtol(ev, NULL, 10);
+                    ((gens->exps) + pos)[k] += strtol(ev, NULL, 10);
                     break;
                 }
             }
@@ -865,6 +865,91 @@ static void get_coeffs_and_exponents_mpz(FILE *fh, char **linep, nelts_t all_nte
 
 
 
+static int cmp_exponent_vectors(const void *a, const void *b, void *arg)
+{
+  const data_gens_ff_t *gens = (const data_gens_ff_t *)arg;
+  const int64_t i   = *(const int32_t *)a;
+  const int64_t j   = *(const int32_t *)b;
+  const int32_t *ei = gens->exps + i * gens->nvars;
+  const int32_t *ej = gens->exps + j * gens->nvars;
+
+  for (nvars_t k = 0; k < gens->nvars; ++k) {
+    if (ei[k] != ej[k]) {
+      return ei[k] < ej[k] ? -1 : 1;
+    }
+  }
+  return i < j ? -1 : i > j;
+}
+
+static inline int is_coefficient_zero(const data_gens_ff_t *gens, const int64_t i)
+{
+  return gens->field_char ? gens->cfs[i] == 0 : mpz_sgn(*(gens->mpz_cfs[2*i])) == 0;
+}
+
+/* Combines terms with the same monomial and removes terms with coefficient zero.
+ * If nothing is left over from a generator we keep one term with coefficient zero. */
+static void combine_like_terms(data_gens_ff_t *gens)
+{
+  const int32_t nterms = gens->nterms;
+  int32_t *idx  = (int32_t *)malloc(sizeof(int32_t) * (nterms+1));
+  int64_t src   = 0, dst = 0;
+  mpz_t tmp;
+  mpz_init(tmp);
+
+  for (int32_t g = 0; g < gens->ngens; ++g) {
+    const int32_t len   = gens->lens[g];
+    const int64_t first = dst;
+    for (int32_t i = 0; i < len; ++i) {
+      idx[i] = src + i;
+    }
+    sort_r(idx, len, sizeof(int32_t), cmp_exponent_vectors, gens);
+    for (int32_t i = 0, j = 1; j < len; ++j) {
+      const int64_t a = idx[i], b = idx[j];
+      if (memcmp(gens->exps + a * gens->nvars, gens->exps + b * gens->nvars,
+                 sizeof(int32_t) * gens->nvars) != 0) {
+        i = j;
+      } else if (gens->field_char) {
+        gens->cfs[a]  = ((int64_t)gens->cfs[a] + gens->cfs[b]) % gens->field_char;
+        gens->cfs[b]  = 0;
+      } else {
+        mpz_t **cf = gens->mpz_cfs;
+        mpz_mul(tmp, *cf[2*b], *cf[2*a+1]);
+        mpz_mul(*cf[2*a], *cf[2*a], *cf[2*b+1]);
+        mpz_add(*cf[2*a], *cf[2*a], tmp);
+        mpz_mul(*cf[2*a+1], *cf[2*a+1], *cf[2*b+1]);
+        mpz_set_ui(*cf[2*b], 0);
+      }
+    }
+    for (int32_t i = 0; i < len; ++i, ++src) {
+      if (is_coefficient_zero(gens, src) && !(i == len-1 && dst == first)) {
+        continue;
+      }
+      if (dst != src) {
+        memcpy(gens->exps + dst * gens->nvars, gens->exps + src * gens->nvars,
+               sizeof(int32_t) * gens->nvars);
+        if (gens->field_char) {
+          gens->cfs[dst]  = gens->cfs[src];
+        } else {
+          mpz_swap(*(gens->mpz_cfs[2*dst]), *(gens->mpz_cfs[2*src]));
+          mpz_swap(*(gens->mpz_cfs[2*dst+1]), *(gens->mpz_cfs[2*src+1]));
+        }
+      }
+      dst++;
+    }
+    gens->lens[g] = dst - first;
+  }
+  if (gens->field_char == 0) {
+    for (int64_t i = 2*dst; i < 2*(int64_t)nterms; ++i) {
+      mpz_clear(*(gens->mpz_cfs[i]));
+      free(gens->mpz_cfs[i]);
+    }
+  }
+  gens->nterms = dst;
+
+  mpz_clear(tmp);
+  free(idx);
+}
+
 static inline void initialize_data_gens(int32_t nvars, int32_t ngens, int32_t field_char, data_gens_ff_t *gens){
   gens->nvars = nvars;
   gens->ngens = ngens;
@@ -933,6 +1018,8 @@ static inline void get_data_from_file(char *fn, int32_t *nr_vars,
     get_coeffs_and_exponents_mpz(fh, &line, all_nterms, nr_gens, gens);
   }
 
+  combine_like_terms(gens);
+
   free(line);
   fclose(fh);
 
-- 
2.43.0


From 77c421dce7c90eda1d76a8ea5ebaad16fc345c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:55 +0000
Subject: [PATCH 07/19] fix: learn a trace only with linear algebra that
 records one

Only exact sparse linear algebra (option 2) writes a trace. With the exact
sparse-dense variant (option 1) the learning run left the trace empty, and
applying it in further primes corrupted memory or gave no result.
---
 src/neogb/f4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neogb/f4.c b/src/neogb/f4.c
index 2237798..f22564b 100644
--- a/src/neogb/f4.c
+++ b/src/neogb/f4.c
@@ -360,7 +360,8 @@ static int32_t initialize_f4(
     if (gmd->fc != fc) {
         reset_function_pointers(fc, md->laopt);
         bs = copy_basis_mod_p(gbs, md);
-        if (md->laopt < 40) {
+        /* only exact sparse linear algebra records a trace */
+        if (md->laopt == 2) {
             if (md->trace_level != APPLY_TRACER) {
                 md->trace_level = LEARN_TRACER;
             }
-- 
2.43.0


From af8ba0952ebfb59dd6f5db2770d32cc3c4d42729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 08/19] fix: keep one entry of the basis hash table free for
 the next insertion

---
 src/neogb/hash.c   | 2 +-
 src/neogb/update.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neogb/hash.c b/src/neogb/hash.c
index 0693514..420997c 100644
--- a/src/neogb/hash.c
+++ b/src/neogb/hash.c
@@ -1045,7 +1045,7 @@ static inline void switch_hcm_data_to_basis_hash_table(
     const len_t start = mat->ncl;
     const len_t end   = mat->nc;
 
-    while (bht->esz - bht->eld < mat->ncr) {
+    while (bht->esz - bht->eld <= mat->ncr) {
         enlarge_hash_table(bht);
     }
 
diff --git a/src/neogb/update.c b/src/neogb/update.c
index aaf38c5..df046d1 100644
--- a/src/neogb/update.c
+++ b/src/neogb/update.c
@@ -89,7 +89,7 @@ static void insert_and_update_spairs(
 
     spair_t *pp = ps+pl;
 
-    while (bht->esz - bht->eld < bl) {
+    while (bht->esz - bht->eld <= bl) {
         enlarge_hash_table(bht);
     }
 #if PARALLEL_HASHING
-- 
2.43.0


From 6b6ad91c2941b6d141aaadf702a66009525e232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:44 +0000
Subject: [PATCH 09/19] fix: print the leading monomial of the unit ideal as 1

---
 src/msolve/iofiles.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index a253d82..b7341eb 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -244,6 +244,10 @@ static void print_msolve_polynomials_ff(
                         fprintf(file, "*%s^%u",vnames[k], ht->ev[hm[0]][evi[k]]);
                     }
                 }
+                /* the constant monomial has no variable to print */
+                if (ctr == 0) {
+                    fprintf(file, "1");
+                }
                 if (i < to-1) {
                     fprintf(file, ",\n");
                 } else {
-- 
2.43.0


From 732730bd3a5c88f26557ca83207e24d004286d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:44 +0000
Subject: [PATCH 10/19] fix: saturate also when the generators have no s-pairs

---
 src/neogb/f4sat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index a0216b7..2356285 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -559,6 +559,11 @@ int core_f4sat(
      * are left in the pairset */
     print_round_information_header(stdout, st);
     round = 1;
+    /* no s-pairs at all: the input generators are a groebner basis already,
+     * but we still have to saturate */
+    if (ps->ld == 0 && bht->hd[bs->hm[bs->lmps[0]][OFFSET]].deg > 0) {
+        goto sat_step;
+    }
 end_sat_step:
     for (; ps->ld > 0; ++round) {
         rrt = realtime();
@@ -603,6 +608,7 @@ end_sat_step:
         clean_hash_table(sht);
         print_round_timings(stdout, st, rrt, crt);
 
+sat_step:
         /* saturation step starts here */
         if ((bs->mltdeg >= sat->hm[0][DEG] && sat_test != 0) || ps->ld == 0) {
         /* if (bs->mltdeg - next_deg == 0 || ps->ld == 0) { */
-- 
2.43.0


From 5bc8f61c52700817b1b9d3331904dbb267dd99e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:09 +0000
Subject: [PATCH 11/19] fix: leave room for the terminating zero of the longest
 term

---
 src/msolve/iofiles.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index b7341eb..92f3118 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -603,7 +603,7 @@ static inline void get_term(const char *line, char **prev_pos,
     /** if "-" is the first char in the line, we have to adjust the
       * if minus is nearer */
     if (term_diff_add > term_diff_minus) {
-      if( term_diff_minus > *term_size){
+      if( term_diff_minus >= *term_size){
         fprintf(stderr, "Too large input integers, exit...\n");
         exit(1);
       }
@@ -613,7 +613,7 @@ static inline void get_term(const char *line, char **prev_pos,
       return;
     /** if plus is nearer */
     } else {
-      if(term_diff_add > *term_size){
+      if(term_diff_add >= *term_size){
         fprintf(stderr, "Too large input integers, exit...\n");
         exit(1);
       }
@@ -625,7 +625,7 @@ static inline void get_term(const char *line, char **prev_pos,
   } else {
     if (curr_pos_add != NULL) {
       size_t term_diff_add   = (size_t)(curr_pos_add - start_pos);
-      if(term_diff_add > *term_size){
+      if(term_diff_add >= *term_size){
         fprintf(stderr, "Too large input integers, exit...\n");
         exit(1);
       }
@@ -636,7 +636,7 @@ static inline void get_term(const char *line, char **prev_pos,
     }
     if (curr_pos_minus != NULL) {
       size_t term_diff_minus = (size_t)(curr_pos_minus - start_pos);
-      if(term_diff_minus > *term_size){
+      if(term_diff_minus >= *term_size){
         fprintf(stderr, "Too large input integers, exit...\n");
         exit(1);
       }
-- 
2.43.0


From e983cd1eb2fc62a3aa0c9e31bddda4b32afeb349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:56 +0000
Subject: [PATCH 12/19] fix: keep the enlarged arrays of the basis after the
 saturation test

---
 src/neogb/f4sat.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index 2356285..c90d924 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -189,13 +189,15 @@ static int is_already_saturated(
     /* reset infolevel */
     st->info_level  = infolevel;
 
-    free(bs->lm);
-    bs->lm    = lm;
-    free(bs->lmps);
-    bs->lmps  = lmps;
+    /* the arrays of bs may have been enlarged, so copy the old data back */
+    memcpy(bs->lm, lm, (unsigned long)lml * sizeof(sdm_t));
+    free(lm);
+    memcpy(bs->lmps, lmps, (unsigned long)lml * sizeof(bl_t));
+    free(lmps);
     bs->lml   = lml;
-    free(bs->red);
-    bs->red   = red;
+    memcpy(bs->red, red, (unsigned long)bld * sizeof(int8_t));
+    memset(bs->red+bld, 0, (unsigned long)(bs->sz-bld) * sizeof(int8_t));
+    free(red);
 
     /* *hcmp = hcm; */
     *bhtp = bht;
-- 
2.43.0


From 9de54e3bd6d1f46d2266470f5f3f4ac4da78f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:56 +0000
Subject: [PATCH 13/19] fix: count a variable once when testing for dimension
 zero

---
 src/neogb/f4sat.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index c90d924..dc594fb 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -66,16 +66,26 @@ static inline int is_zero_dimensional(
         const ht_t * const ht
         )
 {
-    len_t i;
+    len_t i, j;
 
     len_t ctr = 0;
     
     const len_t nv  = ht->nv;
+    const len_t ebl = ht->ebl;
+    const len_t evl = ht->evl;
     const len_t lml = bs->lml;
 
-    for (i = 0; i < lml; ++i) {
-        if (is_pure_power(ht->ev[bs->hm[bs->lmps[i]][OFFSET]], ht)) {
-            ctr ++;
+    /* each variable counts once, there may be redundant pure powers */
+    for (j = 1; j < evl; ++j) {
+        if (j == ebl) {
+            continue;
+        }
+        for (i = 0; i < lml; ++i) {
+            const exp_t * const ev = ht->ev[bs->hm[bs->lmps[i]][OFFSET]];
+            if (ev[j] > 0 && is_pure_power(ev, ht)) {
+                ctr++;
+                break;
+            }
         }
     }
     
-- 
2.43.0


From af7729688e0b67b5ebe8d87c4f666e4bcf679c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:56 +0000
Subject: [PATCH 14/19] fix: make the element monic before the saturation test
 uses it

---
 src/neogb/f4sat.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index dc594fb..88721c2 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -142,6 +142,10 @@ static int is_already_saturated(
     memcpy(hm, sat->hm[0],
             (unsigned long)(sat->hm[0][LENGTH]+OFFSET) * sizeof(hm_t));
 
+    /* elements of the basis have to be monic */
+    normalize_sparse_matrix_row_ff_32(
+            cf, hm[PRELOOP], hm[LENGTH], st->fc);
+
     bs->cf_32[bs->ld] = cf;
     hm[COEFFS]        = bs->ld;
     bs->hm[bs->ld]    = hm;
-- 
2.43.0


From a83530e10c16b4f2ef1045d60d2ce8cf753f4519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:56 +0000
Subject: [PATCH 15/19] fix: saturate zero-dimensional ideals completely

---
 src/neogb/f4sat.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index 88721c2..1186f1f 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -642,9 +642,15 @@ sat_step:
             if (ps->ld != 0) {
                 sat_deg = 2*bs->mltdeg/3;
             } else {
-                sat_deg = bs->mltdeg;
+                /* the basis is complete: test at least one degree and, if
+                 * the quotient is finite, all of its monomials */
+                sat_deg = bs->mltdeg > next_deg ? bs->mltdeg : next_deg + 1;
+                if (is_zero_dimensional(bs, bht)) {
+                    sat_deg = INT32_MAX;
+                }
             }
             len_t bld = bs->ld;
+            len_t sld = 0;
 
             for (deg_t ii = next_deg; ii < sat_deg; ++ii) {
                 rrt  = realtime();
@@ -741,6 +747,11 @@ sat_step:
                     next_deg  = ii;
                     goto end_sat_step;
                 }
+                /* no further monomials in the quotient */
+                if (sat_deg == INT32_MAX && sat->ld == sld) {
+                    sat_deg = ii;
+                }
+                sld = sat->ld;
             }
             next_deg  = sat_deg;
         }
-- 
2.43.0


From b1e9208268f89a4fac1c65e8aa158f53a7f5e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:37 +0000
Subject: [PATCH 16/19] fix: use the elimination layout of exponents for the
 multipliers of a saturation

---
 src/neogb/f4sat.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index 1186f1f..eb27f0f 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -245,6 +245,15 @@ static inline unsigned long sum(
     return sum;
 }
 
+/* position of the ith variable, i = 1,...,nv, in exponent vectors */
+static inline len_t position_of_variable(
+        const len_t i,
+        const ht_t * const ht
+        )
+{
+    return ht->ebl > 0 && i >= ht->ebl ? i+1 : i;
+}
+
 static inline len_t generate_new_basis_elements(
         ht_t **htp,
         hm_t *cqb,
@@ -259,16 +268,18 @@ static inline len_t generate_new_basis_elements(
     ht_t *ht        = *htp;
     const len_t nv  = ht->nv;
     len_t ctr       = 0;
-    exp_t *etmp     = calloc((unsigned long)(nv+1), sizeof(exp_t));
+    exp_t *etmp     = calloc((unsigned long)ht->evl, sizeof(exp_t));
 
     for (i = nv; i > 0; --i) {
         while (ht->esz - ht->eld < oqb_dim-ind[nv-i]) {
             enlarge_hash_table(ht);
         }
         for (j = ind[nv-i]; j < oqb_dim; ++j) {
-            memcpy(etmp, ht->ev[oqb[j]], (unsigned long)(nv+1)*sizeof(exp_t));;
-            etmp[i]++;
-            etmp[DEG]++;
+            memcpy(etmp, ht->ev[oqb[j]], (unsigned long)ht->evl*sizeof(exp_t));
+            const len_t pos = position_of_variable(i, ht);
+            etmp[pos]++;
+            /* degree of the block the variable belongs to */
+            etmp[pos == i ? DEG : ht->ebl]++;
             cqb[ctr]  = check_lm_divisibility_and_insert_in_hash_table(
                             etmp, ht, bs
                             );
@@ -299,7 +310,7 @@ static inline void update_indices(
 
     for (i = nv-1; i > 0; --i) {
         for (j = ind[nv-1-i]; j < dim; ++j) {
-            if (ht->ev[qb[j]][i+1] == 0) {
+            if (ht->ev[qb[j]][position_of_variable(i+1, ht)] == 0) {
                 ind[nv-i] = j;
                 break;
             }
@@ -331,9 +342,10 @@ static len_t quotient_basis(
     deg_t deg   = 0;
 
     const len_t nv  = (*htp)->nv;
+    const len_t evl = (*htp)->evl;
 
-    exp_t ev[nv+1];
-    memset(ev, 0, (unsigned long)(nv+1) * sizeof(exp_t));
+    exp_t ev[evl];
+    memset(ev, 0, (unsigned long)evl * sizeof(exp_t));
 
     len_t *ind      = calloc((unsigned long)nv, sizeof(len_t));
 
-- 
2.43.0


From e10fc6a3761b9a73ccd56fb3b84e156a80be5cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:37 +0000
Subject: [PATCH 17/19] fix: keep the index of the divisor when a new
 multiplier is built

---
 src/neogb/f4sat.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index eb27f0f..1124145 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -475,12 +475,12 @@ sat_restart:
         sat->hm[i]        = multiplied_poly_to_matrix_row(
                 sht, bht, h, etmp, sat->hm[j]);
         sat->hm[i][MULT] = qb[i];
-        deg_t deg = bht->hd[sat->hm[i][OFFSET]].deg;
+        deg_t deg = sht->hd[sat->hm[i][OFFSET]].deg;
         if (st->nev > 0) {
             const len_t len = sat->hm[i][LENGTH]+OFFSET;
-            for (j = OFFSET+1; j < len; ++j) {
-                if (deg < bht->hd[sat->hm[i][j]].deg) {
-                    deg = bht->hd[sat->hm[i][j]].deg;
+            for (k = OFFSET+1; k < len; ++k) {
+                if (deg < sht->hd[sat->hm[i][k]].deg) {
+                    deg = sht->hd[sat->hm[i][k]].deg;
                 }
             }
         }
-- 
2.43.0


From 1cc22eb4084b611505629020c05583fa9e74771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:37 +0000
Subject: [PATCH 18/19] fix: allocate the multiplier rows of a saturation for
 all multipliers

---
 src/neogb/la_ff_32.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neogb/la_ff_32.c b/src/neogb/la_ff_32.c
index 6cbe615..1787689 100644
--- a/src/neogb/la_ff_32.c
+++ b/src/neogb/la_ff_32.c
@@ -2900,9 +2900,9 @@ static void exact_sparse_reduced_echelon_form_sat_ff_32(
  *     printf("not trivial! "); */
     /* if kernel is not trivial really compute it */
     /* dense row for multipliers */
-    hm_t **mulh     = (hm_t **)calloc((unsigned long)ncols, sizeof(hm_t *));
-    cf32_t **mulcf  = (cf32_t **)calloc((unsigned long)ncols, sizeof(cf32_t *));
-    cf32_t **pivcf  = (cf32_t **)calloc((unsigned long)ncols, sizeof(cf32_t *));
+    hm_t **mulh     = (hm_t **)calloc((unsigned long)sat->ld, sizeof(hm_t *));
+    cf32_t **mulcf  = (cf32_t **)calloc((unsigned long)sat->ld, sizeof(cf32_t *));
+    cf32_t **pivcf  = (cf32_t **)calloc((unsigned long)sat->ld, sizeof(cf32_t *));
     int64_t *drm    = calloc((unsigned long)sat->ld, sizeof(int64_t));
     /* now we do a ususal F4 reduction with updated pivs, but we have
      * to track the reduction steps when reducing each row from upivs */
@@ -2975,7 +2975,7 @@ static void exact_sparse_reduced_echelon_form_sat_ff_32(
         free(pivs[i]);
         pivs[i] = NULL;
     }
-    for (i = 0; i < ncols; ++i) {
+    for (i = 0; i < sat->ld; ++i) {
         free(mulcf[i]);
         mulcf[i]  = NULL;
         free(pivcf[i]);
-- 
2.43.0


From 60249e175e1c507fcd3045bfcb22c2ee1dbc6a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:45 +0000
Subject: [PATCH 19/19] fix: look for kernel elements also when nothing reduces
 the multiples

---
 src/neogb/f4sat.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index 1124145..450f44b 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -674,9 +674,9 @@ sat_step:
 
                 symbolic_preprocessing(mat, bs, st);
 
-                /* It may happen that there is no reducer at all for the
-                 * saturation elements, then nothing has to be done. */
-                if (mat->nru > 0) {
+                /* Even if there is no reducer at all, the multiples of the
+                 * saturation element may be linearly dependent. */
+                if (sat->ld > 0) {
                     if (st->info_level > 1) {
                         /* printf("kernel computation "); */
                         printf("%3u  compute kernel", sat_deg);
-- 
2.43.0

