From 980657d1c10342f0493f009f04f7abdb4d009262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:22 +0000
Subject: [PATCH 01/35] fix: print divs with numerators over their common
 denominator

The coefficients of a div are rationals that isl keeps in reduced form, so
that reading their numerators gives wrong bounds and guards as soon as one
of them is not in lowest terms over the denominator of the div (2/4, say).
---
 source/isl/constraints.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/source/isl/constraints.c b/source/isl/constraints.c
index acd6312..2cb5fb0 100644
--- a/source/isl/constraints.c
+++ b/source/isl/constraints.c
@@ -536,7 +536,7 @@ static struct clast_expr *div_expr(CloogConstraint *constraint, int pos,
 {
 	int i, nb_elts;
 	int dim = cloog_constraint_total_dimension(constraint);
-	isl_val *c;
+	isl_val *c, *den;
 	struct clast_reduction *r;
 	struct clast_expr *e = NULL;
 	isl_aff *div;
@@ -544,6 +544,7 @@ static struct clast_expr *div_expr(CloogConstraint *constraint, int pos,
 
 	cloog_int_init(cint);
 	div = isl_constraint_get_div(cloog_constraint_to_isl(constraint), pos);
+	den = isl_aff_get_denominator_val(div);
 
 	for (i = 0, nb_elts = 0; i < dim; ++i) {
 		struct cloog_isl_dim ci_dim;
@@ -584,8 +585,11 @@ static struct clast_expr *div_expr(CloogConstraint *constraint, int pos,
 
 		v = cloog_constraint_variable_expr(constraint, 1 + i, names);
 
-		/* We are interested only in the numerator */
-		cloog_int_set_si(cint, isl_val_get_num_si(c));
+		/* We are interested in the numerator over the common
+		 * denominator of the div; c itself may have been reduced.
+		 */
+		c = isl_val_mul(c, isl_val_copy(den));
+		isl_val_to_cloog_int(c, &cint);
 		r->elts[nb_elts++] = &new_clast_term(cint, v)->expr;
 
 		isl_val_free(c);
@@ -593,15 +597,14 @@ static struct clast_expr *div_expr(CloogConstraint *constraint, int pos,
 
 	c = isl_aff_get_constant_val(div);
 	if (!isl_val_is_zero(c)) {
-		/* We are interested only in the numerator */
-		cloog_int_set_si(cint, isl_val_get_num_si(c));
+		c = isl_val_mul(c, isl_val_copy(den));
+		isl_val_to_cloog_int(c, &cint);
 		r->elts[nb_elts++] = &new_clast_term(cint, NULL)->expr;
 	}
 	isl_val_free(c);
 
-	c = isl_aff_get_denominator_val(div);
-	isl_val_to_cloog_int(c, &cint);
-	isl_val_free(c);
+	isl_val_to_cloog_int(den, &cint);
+	isl_val_free(den);
 	e = &new_clast_binary(clast_bin_fdiv, &r->expr, cint)->expr;
 
 	cloog_int_clear(cint);
-- 
2.43.0


From 6f8f6bf2994eae0854dc2ceb843de9d8616e9dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:22 +0000
Subject: [PATCH 02/35] fix: do not give away the caller's reference in
 cloog_domain_convex

isl_set_coalesce consumes its argument while the domain belongs to the caller.
---
 source/isl/domain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index b928ff9..63e9272 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -135,8 +135,8 @@ CloogDomain * cloog_domain_copy(CloogDomain * domain)
 CloogDomain *cloog_domain_convex(CloogDomain *domain)
 {
 	isl_set *set = isl_set_from_cloog_domain(domain);
-  set = isl_set_coalesce(set);
-	set = isl_set_from_basic_set(isl_set_convex_hull(isl_set_copy(set)));
+	set = isl_set_coalesce(isl_set_copy(set));
+	set = isl_set_from_basic_set(isl_set_convex_hull(set));
 	return cloog_domain_from_isl_set(set);
 }
 
-- 
2.43.0


From 34da9c36b9451258c55c0e89312067ef84418390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:22 +0000
Subject: [PATCH 03/35] fix: do not swallow loops following a terminal loop at
 a scalar level

A statement without further dimensions followed by a deeper statement with
the same scalar date left the latter unscanned.
---
 source/loop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/loop.c b/source/loop.c
index a019ffa..46826a3 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -2057,6 +2057,7 @@ CloogLoop *cloog_loop_generate_scalar(CloogLoop *loop,
     ref = temp ;
     
     while((end->next != NULL) &&
+	 cloog_loop_more(temp, level, scalar_new, nb_scattdims) &&
 	 cloog_loop_more(end->next, level, scalar_new, nb_scattdims) &&
          cloog_loop_scalar_eq(ref,end->next,level,scaldims,nb_scattdims,scalar))
     end = end->next ;
-- 
2.43.0


From 37fea96cc8280f9183c5cbc776490c4321f984b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:22 +0000
Subject: [PATCH 04/35] fix: modulo guards that involve other existentially
 quantified dimensions

They were printed using the name of an unrelated (or non-existing) iterator.
---
 source/clast.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/clast.c b/source/clast.c
index 7283aa7..3d1debc 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -1395,7 +1395,8 @@ static int insert_modulo_guard_constraint(CloogConstraint *c, void *user)
 	r = new_clast_reduction(clast_red_sum, nb_elts + 1);
 	nb_elts = 0;
 
-	/* First, the modulo guard : the iterators... */
+	/* First, the modulo guard : the iterators (and earlier existentially
+	 * quantified dimensions)... */
 	i = level - 1;
 	if (i > infos->stride_level)
 		i = infos->stride_level;
@@ -1406,10 +1407,8 @@ static int insert_modulo_guard_constraint(CloogConstraint *c, void *user)
 	  if (i == level || cloog_int_is_zero(line[i]))
 	    continue;
 
-	  name = cloog_names_name_at_level(infos->names, i);
-
 	  r->elts[nb_elts++] = &new_clast_term(line[i],
-				    &new_clast_name(name)->expr)->expr;
+		    cloog_constraint_variable_expr(c, i, infos->names))->expr;
 	}
 
 	/* ...the parameters... */
-- 
2.43.0


From ae84cf0ee71017f5ca75f714519e065ed7fec5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:23 +0000
Subject: [PATCH 05/35] fix: keep modulo constraints on a loop's own iterator
 in the inner guards

Such constraints are not expressible as loop bounds, but when kept in the
domain of the loop they were simplified away from the guards of its body.
---
 source/loop.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index 46826a3..9670eae 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -731,10 +731,7 @@ CloogLoop * cloog_loop_project(CloogLoop * loop, int level)
   copy = cloog_loop_alloc(loop->state, loop->domain, loop->otl, loop->stride,
 			  loop->block, loop->inner, NULL);
 
-  if (cloog_domain_dimension(loop->domain) == level)
-  new_domain = cloog_domain_copy(loop->domain) ;  
-  else
-    new_domain = cloog_domain_project(loop->domain, level);
+  new_domain = cloog_domain_project(loop->domain, level);
 
   new_loop = cloog_loop_alloc(loop->state, new_domain, 0, NULL,
 			      NULL, copy, NULL);
@@ -1967,6 +1964,15 @@ CloogLoop *cloog_loop_generate_general(CloogLoop *loop,
   if (separate)
     res = cloog_loop_specialize(res, level, scalar, scaldims, nb_scattdims);
   
+  /* A loop cannot express modulo constraints on its own iterator,
+   * leave them to the guards of the inner loops.
+   */
+  for (temp = res; level && temp; temp = temp->next) {
+    CloogDomain *domain = temp->domain;
+    temp->domain = cloog_domain_project(domain, level);
+    cloog_domain_free(domain);
+  }
+
   /* 4. Recurse for each loop with the current domain as context. */
   temp = res ;
   res = NULL ;
-- 
2.43.0


From fe04fd2b3f1c9fb699ce1c51e81e81ad45b1262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:53 +0000
Subject: [PATCH 06/35] fix: check integrality of equalities that are turned
 into loops (-otl 0)

The one-time loop for a*x = e was emitted without testing that a divides e.
---
 source/clast.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/clast.c b/source/clast.c
index 3d1debc..60873d6 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -1527,6 +1527,13 @@ static int insert_equation_as_loop(CloogDomain *domain, CloogConstraint *upper,
     struct clast_expr *e1, *e2;
     struct clast_for *f;
 
+    /* An equality has to have an integer solution. */
+    if (!cloog_constraint_is_valid(lower) &&
+	!insert_modulo_guard(upper, lower, level, next, infos)) {
+	cloog_constraint_release(upper);
+	return 0;
+    }
+
     e2 = clast_bound_from_constraint(upper, level, infos->names);
     if (!cloog_constraint_is_valid(lower))
 	e1 = clast_expr_copy(e2);
-- 
2.43.0


From 12560e68a365a6bc270585fad575826621e0b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:53 +0000
Subject: [PATCH 07/35] fix: only derive a variable offset stride from a
 constraint with coprime coefficients

When the coefficient of the strided iterator and the coefficients of the
existentials have a common factor, the computed offset is wrong.
---
 source/isl/domain.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 63e9272..192cc24 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -1820,7 +1820,8 @@ static CloogStride *construct_stride(isl_constraint *c, int level)
 	gcd = isl_val_copy(gcd_copy);
 	stride = isl_val_div(gcd, v);
 
-	if (isl_val_is_zero(stride) || isl_val_is_one(stride))
+	if (isl_val_is_zero(stride) || isl_val_is_one(stride) ||
+	    !isl_val_is_one(v_copy))
 		s = NULL;
 	else {
 		cloog_int_init(c_m);
-- 
2.43.0


From b7dec79ce5b9a0d70c66f750c0d14155f75eac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:53 +0000
Subject: [PATCH 08/35] fix: do not combine loops with different strides

Consecutive loops with the same bounds but different strides were merged
into one loop with the stride of the first one.
---
 source/loop.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/source/loop.c b/source/loop.c
index 9670eae..8a6a70c 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -785,9 +785,27 @@ CloogLoop * cloog_loop_concat(CloogLoop * a, CloogLoop * b)
 } 
 
 
+/* Check whether two loops are known to have the same stride and offset.
+ */
+static int cloog_loop_same_stride(CloogLoop *loop1, CloogLoop *loop2)
+{
+    CloogStride *s1 = loop1->stride, *s2 = loop2->stride;
+
+    if (s1 == s2)
+	return 1;
+    if (!s1 || !s2)
+	return 0;
+    if (cloog_constraint_is_valid(s1->constraint) ||
+	cloog_constraint_is_valid(s2->constraint))
+	return 0;
+    return cloog_int_eq(s1->stride, s2->stride) &&
+	   cloog_int_eq(s1->offset, s2->offset);
+}
+
+
 /**
  * cloog_loop_combine:
- * Combine consecutive loops with identical domains into
+ * Combine consecutive loops with identical domains (and strides) into
  * a single loop with the concatenation of their inner loops
  * as inner loop.
  */
@@ -799,6 +817,8 @@ CloogLoop *cloog_loop_combine(CloogLoop *loop)
 	while (first->next) {
 	    if (!cloog_domain_lazy_equal(first->domain, first->next->domain))
 		break;
+	    if (!cloog_loop_same_stride(first, first->next))
+		break;
 	    second = first->next;
 	    first->inner = cloog_loop_concat(first->inner, second->inner);
 	    first->next = second->next;
-- 
2.43.0


From fe78058a487842747768f024ec14759173b522d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:39 +0000
Subject: [PATCH 09/35] fix: keep modulo constraints in the inner guards of
 unrolled loops

With -strides 1 and -first-unroll, the lower bound of the strided loop can
imply a modulo constraint on the iterator of an unrolled iteration, which was
simplified away from the inner guards without being enforced elsewhere.
---
 source/loop.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index 8a6a70c..c4284bd 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -1709,7 +1709,7 @@ static CloogLoop *loop_unroll(CloogLoop *loop, int level)
     CloogConstraint *lb;
     CloogLoop *res = NULL;
     CloogLoop **next_res = &res;
-    CloogDomain *domain;
+    CloogDomain *domain, *unrolled;
     CloogLoop *inner;
 
     cloog_int_init(n);
@@ -1730,7 +1730,12 @@ static CloogLoop *loop_unroll(CloogLoop *loop, int level)
 	    cloog_domain_free(domain);
 	    continue;
 	}
-	*next_res = cloog_loop_alloc(loop->state, domain, 1, NULL, NULL,
+	/* As in cloog_loop_generate_general, leave modulo constraints on
+	 * the iterator to the guards of the inner loops.
+	 */
+	unrolled = cloog_domain_project(domain, level);
+	cloog_domain_free(domain);
+	*next_res = cloog_loop_alloc(loop->state, unrolled, 1, NULL, NULL,
 					inner, NULL);
 	next_res = &(*next_res)->next;
     }
-- 
2.43.0


From 56228d1eb8f8eb0356cefe1700b94737b6ad52de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:17 +0000
Subject: [PATCH 10/35] fix: fall back to the convex hull if the simple hull is
 unbounded (-sh 1)

The simple hull of a union may lose all lower or upper bounds on an iterator,
which resulted in loops without bounds.
---
 source/isl/domain.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 192cc24..06a617a 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -151,13 +151,26 @@ CloogDomain *cloog_domain_convex(CloogDomain *domain)
 CloogDomain *cloog_domain_simple_convex(CloogDomain *domain)
 {
 	struct isl_basic_set *hull;
+	int i, n;
+	isl_set *simple;
 	isl_set *set = isl_set_from_cloog_domain(domain);
 
 	if (cloog_domain_isconvex(domain))
 		return cloog_domain_copy(domain);
 
 	hull = isl_set_simple_hull(isl_set_copy(set));
-	return cloog_domain_from_isl_set(isl_set_from_basic_set(hull));
+	simple = isl_set_from_basic_set(hull);
+	n = isl_set_dim(set, isl_dim_set);
+	/* Do not use a hull that loses all bounds on some iterator. */
+	for (i = 0; i < n; ++i)
+		if ((isl_set_dim_has_lower_bound(set, isl_dim_set, i) &&
+		     !isl_set_dim_has_lower_bound(simple, isl_dim_set, i)) ||
+		    (isl_set_dim_has_upper_bound(set, isl_dim_set, i) &&
+		     !isl_set_dim_has_upper_bound(simple, isl_dim_set, i))) {
+			isl_set_free(simple);
+			return cloog_domain_convex(domain);
+		}
+	return cloog_domain_from_isl_set(simple);
 }
 
 
-- 
2.43.0


From ed4c23fbd4454bb00a383865dbe905d3b871420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:08 +0000
Subject: [PATCH 11/35] fix: only block statements with different scalar dates
 if their iterators are determined

---
 include/cloog/domain.h |  1 +
 source/isl/domain.c    | 21 +++++++++++++++++++++
 source/loop.c          | 11 +++++++++++
 3 files changed, 33 insertions(+)

diff --git a/include/cloog/domain.h b/include/cloog/domain.h
index 8a221cf..9b49c0c 100644
--- a/include/cloog/domain.h
+++ b/include/cloog/domain.h
@@ -151,6 +151,7 @@ int           cloog_scattering_lazy_block(CloogScattering *, CloogScattering *,
                                       CloogScatteringList *, int);
 int           cloog_scattering_lazy_isscalar(CloogScattering *, int,
 								cloog_int_t *);
+int           cloog_domain_is_determined(CloogDomain *domain, int first);
 int           cloog_domain_lazy_isconstant(CloogDomain *domain, int dimension,
 					   cloog_int_t *value);
 int           cloog_scattering_list_lazy_same(CloogScatteringList *);
diff --git a/source/isl/domain.c b/source/isl/domain.c
index 06a617a..4d772f3 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -1472,6 +1472,27 @@ int cloog_scattering_lazy_isscalar(CloogScattering *scatt, int dimension,
 }
 
 
+/* Check whether the dimensions of "domain" from position "first" on
+ * are uniquely determined by those before position "first".
+ */
+int cloog_domain_is_determined(CloogDomain *domain, int first)
+{
+	isl_set *set = isl_set_from_cloog_domain(domain);
+	isl_map *map;
+	isl_size dim = isl_set_dim(set, isl_dim_set);
+	int determined;
+
+	if (first >= dim)
+		return 1;
+	map = isl_map_from_domain(isl_set_copy(set));
+	map = isl_map_move_dims(map, isl_dim_out, 0,
+				isl_dim_in, first, dim - first);
+	determined = isl_map_is_single_valued(map);
+	isl_map_free(map);
+	return determined == isl_bool_true;
+}
+
+
 /**
  * cloog_domain_lazy_isconstant function:
  * this function returns 1 if the dimension 'dimension' in the
diff --git a/source/loop.c b/source/loop.c
index c4284bd..1171b8c 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -2147,6 +2147,9 @@ static int cloog_loop_next_scal_cmp(CloogLoop *loop)
 /* Check whether the globally constant dimensions of a and b
  * have the same value for all globally constant dimensions
  * that are situated before any (locally) non-constant dimension.
+ * If there is any difference in the other globally constant dimensions,
+ * then the original iterators should also be determined
+ * by the dimensions before this difference.
  */
 static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
 				    int *scaldims, int nb_scattdims)
@@ -2164,6 +2167,14 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
 	    break;
 	cst++;
     }
+    if (i >= nb_scattdims)
+	return 1;
+    /* If the iterations are not uniquely determined by the dimensions
+     * before the difference, then several iterations of "a" need to be
+     * executed before any of the iterations of "b".
+     */
+    if (!cloog_domain_is_determined(a->domain, dim))
+	return 0;
     for (i = i + 1; i < nb_scattdims; ++i) {
 	if (scaldims[i])
 	    continue;
-- 
2.43.0


From 929951a096410d22f73b711d9d28d21d0e4375ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:55 +0000
Subject: [PATCH 12/35] fix: split loops whose relative order depends on
 parameters or outer iterators

---
 include/cloog/domain.h |  2 ++
 source/isl/domain.c    | 35 +++++++++++++++++++++++++++++++++
 source/loop.c          | 44 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 81 insertions(+)

diff --git a/include/cloog/domain.h b/include/cloog/domain.h
index 9b49c0c..b7062ca 100644
--- a/include/cloog/domain.h
+++ b/include/cloog/domain.h
@@ -151,6 +151,8 @@ int           cloog_scattering_lazy_block(CloogScattering *, CloogScattering *,
                                       CloogScatteringList *, int);
 int           cloog_scattering_lazy_isscalar(CloogScattering *, int,
 								cloog_int_t *);
+CloogDomain * cloog_domain_part_before(CloogDomain *dom1, CloogDomain *dom2,
+					unsigned level);
 int           cloog_domain_is_determined(CloogDomain *domain, int first);
 int           cloog_domain_lazy_isconstant(CloogDomain *domain, int dimension,
 					   cloog_int_t *value);
diff --git a/source/isl/domain.c b/source/isl/domain.c
index 4d772f3..c926d80 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -343,6 +343,41 @@ int cloog_domain_follows(CloogDomain *dom1, CloogDomain *dom2, unsigned level)
 }
 
 
+/**
+ * If the values of dom1 at the given level come before those of dom2
+ * for some values of the outer levels and the parameters and
+ * after those of dom2 for some other values, then return the part
+ * of dom1 that comes before dom2.
+ * Otherwise, return NULL.
+ */
+CloogDomain *cloog_domain_part_before(CloogDomain *dom1, CloogDomain *dom2,
+	unsigned level)
+{
+	int i;
+	isl_set *set1 = isl_set_from_cloog_domain(dom1);
+	isl_set *set2 = isl_set_from_cloog_domain(dom2);
+	isl_set *before;
+	isl_map *map;
+
+	if (isl_set_follows_at(set1, set2, level - 1) <= 0 ||
+	    isl_set_follows_at(set2, set1, level - 1) <= 0)
+		return NULL;
+
+	map = isl_map_from_domain_and_range(isl_set_copy(set1),
+					    isl_set_copy(set2));
+	for (i = 0; i < level - 1; ++i)
+		map = isl_map_equate(map, isl_dim_in, i, isl_dim_out, i);
+	map = isl_map_order_lt(map, isl_dim_in, level - 1,
+				isl_dim_out, level - 1);
+	before = isl_set_coalesce(isl_map_domain(map));
+	if (isl_set_is_empty(before) || isl_set_is_subset(set1, before)) {
+		isl_set_free(before);
+		return NULL;
+	}
+	return cloog_domain_from_isl_set(before);
+}
+
+
 /**
  * cloog_domain_empty function:
  * Returns an empty domain of the same dimensions as template.
diff --git a/source/loop.c b/source/loop.c
index 1171b8c..da27695 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -1152,6 +1152,49 @@ static int cloog_loop_count(CloogLoop *loop)
 }
 
 
+/* Split up the loops in the list of disjoint loops "loop" such that
+ * for each pair of loops in the result, the iterations of one of them
+ * always come before those of the other, for all values
+ * of the outer iterators and the parameters for which both have iterations.
+ */
+static CloogLoop *cloog_loop_split_unordered(CloogLoop *loop, int level)
+{
+    CloogLoop *res = NULL, *now = NULL, *other, *split, *last;
+    CloogDomain *part, *rest;
+
+    if (!level)
+	return loop;
+
+    while (loop) {
+	CloogLoop *next = loop->next;
+
+	loop->next = NULL;
+	part = NULL;
+	for (other = res; other && !part; other = other->next)
+	    part = cloog_domain_part_before(loop->domain, other->domain, level);
+	if (!part) {
+	    cloog_loop_add(&res, &now, loop);
+	    loop = next;
+	    continue;
+	}
+	rest = cloog_domain_difference(loop->domain, part);
+	split = cloog_loop_alloc(loop->state, part, 0, NULL,
+			    cloog_block_copy(loop->block),
+			    cloog_loop_copy(loop->inner), NULL);
+	cloog_domain_free(loop->domain);
+	loop->domain = rest;
+	split->next = loop;
+	split = cloog_loop_disjoint(split);
+	for (last = split; last->next; last = last->next)
+	    ;
+	last->next = next;
+	loop = split;
+    }
+
+    return res;
+}
+
+
 /**
  * cloog_loop_sort function:
  * Adaptation from LoopGen 0.4 by F. Quillere. This function sorts a list of
@@ -1978,6 +2021,7 @@ CloogLoop *cloog_loop_generate_general(CloogLoop *loop,
     res = cloog_loop_merge(loop, level, options);
     }else{
     res = cloog_loop_separate(loop);
+    res = cloog_loop_split_unordered(res, level);
     separate = 1;
   }
     
-- 
2.43.0


From 03866ea50073fb4eec6abf7263885049acbde4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:24 +0000
Subject: [PATCH 13/35] fix: sort loops exactly if the rational comparison is
 ambiguous

---
 source/isl/domain.c | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index c926d80..e32e588 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -235,6 +235,24 @@ CloogDomain *cloog_domain_difference(CloogDomain *domain, CloogDomain *minus)
 }
 
 
+/* Return the pairs of elements of set1 and set2 with the same values
+ * for the outer levels such that the value of the element of set1
+ * at the given level is smaller than that of the element of set2.
+ */
+static isl_map *before_at(isl_set *set1, isl_set *set2, unsigned level)
+{
+	unsigned i;
+	isl_map *map;
+
+	map = isl_map_from_domain_and_range(isl_set_copy(set1),
+					    isl_set_copy(set2));
+	for (i = 0; i < level - 1; ++i)
+		map = isl_map_equate(map, isl_dim_in, i, isl_dim_out, i);
+	return isl_map_order_lt(map, isl_dim_in, level - 1,
+				isl_dim_out, level - 1);
+}
+
+
 /**
  * cloog_domain_sort function:
  * This function topologically sorts (nb_doms) domains. Here (doms) is an
@@ -286,6 +304,18 @@ void cloog_domain_sort(CloogDomain **doms, unsigned nb_doms, unsigned level,
 			isl_basic_set_list_free(list_i);
 			isl_basic_set_list_free(list_j);
 			cmp = isl_basic_set_compare_at(bset_i, bset_j, level-1);
+			/* The comparison is performed on rational relaxations.
+			 * Only trust it if it holds in one direction.
+			 */
+			if (cmp > 0 &&
+			    isl_basic_set_compare_at(bset_j, bset_i,
+							level - 1) > 0) {
+				isl_map *before;
+				before = before_at(set_j, set_i, level);
+				if (isl_map_is_empty(before))
+					cmp = -1;
+				isl_map_free(before);
+			}
 			isl_basic_set_free(bset_i);
 			isl_basic_set_free(bset_j);
 			if (!cmp)
@@ -353,7 +383,6 @@ int cloog_domain_follows(CloogDomain *dom1, CloogDomain *dom2, unsigned level)
 CloogDomain *cloog_domain_part_before(CloogDomain *dom1, CloogDomain *dom2,
 	unsigned level)
 {
-	int i;
 	isl_set *set1 = isl_set_from_cloog_domain(dom1);
 	isl_set *set2 = isl_set_from_cloog_domain(dom2);
 	isl_set *before;
@@ -363,12 +392,7 @@ CloogDomain *cloog_domain_part_before(CloogDomain *dom1, CloogDomain *dom2,
 	    isl_set_follows_at(set2, set1, level - 1) <= 0)
 		return NULL;
 
-	map = isl_map_from_domain_and_range(isl_set_copy(set1),
-					    isl_set_copy(set2));
-	for (i = 0; i < level - 1; ++i)
-		map = isl_map_equate(map, isl_dim_in, i, isl_dim_out, i);
-	map = isl_map_order_lt(map, isl_dim_in, level - 1,
-				isl_dim_out, level - 1);
+	map = before_at(set1, set2, level);
 	before = isl_set_coalesce(isl_map_domain(map));
 	if (isl_set_is_empty(before) || isl_set_is_subset(set1, before)) {
 		isl_set_free(before);
-- 
2.43.0


From 839c76422d23256fa88139ca475181e9793996ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:19 +0000
Subject: [PATCH 14/35] fix: do not block statements across other statements'
 non-constant dates

---
 source/loop.c | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index da27695..5cae912 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -2159,14 +2159,15 @@ CloogLoop *cloog_loop_generate_scalar(CloogLoop *loop,
 }
 
 
-/* Compare loop with the next loop based on their constant dimensions.
+/* Compare loop with the next loop based on their first "n"
+ * constant dimensions.
  * The result is < 0, == 0 or > 0 depending on whether the constant
  * dimensions of loop are lexicographically smaller, equal or greater
  * than those of loop->next.
  * If loop is the last in the list, then it is assumed to be smaller
  * than the "next" one.
  */
-static int cloog_loop_next_scal_cmp(CloogLoop *loop)
+static int cloog_loop_next_scal_cmp(CloogLoop *loop, int n)
 {
     int i;
     int nb_scaldims;
@@ -2178,12 +2179,14 @@ static int cloog_loop_next_scal_cmp(CloogLoop *loop)
     if (loop->next->block->nb_scaldims < nb_scaldims)
 	nb_scaldims = loop->next->block->nb_scaldims;
 
-    for (i = 0; i < nb_scaldims; ++i) {
+    for (i = 0; i < nb_scaldims && i < n; ++i) {
 	int cmp = cloog_int_cmp(loop->block->scaldims[i],
 				loop->next->block->scaldims[i]);
 	if (cmp)
 	    return cmp;
     }
+    if (i >= n)
+	return 0;
     return loop->block->nb_scaldims - loop->next->block->nb_scaldims;
 }
 
@@ -2194,9 +2197,11 @@ static int cloog_loop_next_scal_cmp(CloogLoop *loop)
  * If there is any difference in the other globally constant dimensions,
  * then the original iterators should also be determined
  * by the dimensions before this difference.
+ * In that case, reduce *n to the number of globally constant dimensions
+ * up to and including this difference.
  */
 static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
-				    int *scaldims, int nb_scattdims)
+				    int *scaldims, int nb_scattdims, int *n)
 {
     int i;
     int cst = 0;
@@ -2213,6 +2218,8 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
     }
     if (i >= nb_scattdims)
 	return 1;
+    if (cst + 1 < *n)
+	*n = cst + 1;
     /* If the iterations are not uniquely determined by the dimensions
      * before the difference, then several iterations of "a" need to be
      * executed before any of the iterations of "b".
@@ -2241,6 +2248,8 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
  * dimensions strictly larger than the previous loop in the complete
  * list and such that the loop (end) after the last loop in the sublist
  * has constant dimensions strictly larger than the last loop in the sublist.
+ * Moreover, these strict differences should occur no later than
+ * any differences in constant dimensions within the sublist.
  * Furthermore, all loops in the sublist should have the same domain
  * (with globally constant dimensions removed) and the difference
  * (if any) in constant dimensions may only occur after all the
@@ -2254,43 +2263,41 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
  */
 CloogLoop *cloog_loop_block(CloogLoop *loop, int *scaldims, int nb_scattdims)
 {
-    CloogLoop *begin, *end, *l;
-    int begin_after_previous;
-    int end_after_previous;
+    CloogLoop *begin, *end, *previous, *last, *l;
+    int n;
 
     if (!loop->next)
 	return loop;
     for (begin = loop; begin; begin = begin->next) {
 	if (!begin->block || !begin->block->scaldims)
 	    return loop;
-	if (cloog_loop_next_scal_cmp(begin) > 0)
+	if (cloog_loop_next_scal_cmp(begin, nb_scattdims + 1) > 0)
 	    return loop;
     }
 
-    begin_after_previous = 1;
-    for (begin = loop; begin; begin = begin->next) {
-	if (!begin_after_previous) {
-	    begin_after_previous = cloog_loop_next_scal_cmp(begin) < 0;
+    previous = NULL;
+    for (begin = loop; begin; previous = begin, begin = begin->next) {
+	n = nb_scattdims + 1;
+	if (previous && cloog_loop_next_scal_cmp(previous, n) >= 0)
 	    continue;
-	}
 
-	end_after_previous = cloog_loop_next_scal_cmp(begin) < 0;
+	last = begin;
 	for (end = begin->next; end; end = end->next) {
-	    if (!cloog_loop_equal_prefix(begin, end, scaldims, nb_scattdims))
-		break;
 	    if (!cloog_domain_lazy_equal(begin->domain, end->domain))
 		break;
-	    end_after_previous = cloog_loop_next_scal_cmp(end) < 0;
+	    if (!cloog_loop_equal_prefix(begin, end, scaldims, nb_scattdims,
+					    &n))
+		break;
+	    last = end;
 	}
-	if (end != begin->next && end_after_previous) {
+	if (last != begin && cloog_loop_next_scal_cmp(last, n) < 0 &&
+	    (!previous || cloog_loop_next_scal_cmp(previous, n) < 0)) {
 	    for (l = begin->next; l != end; l = begin->next) {
 		cloog_block_merge(begin->block, l->block);
 		begin->next = l->next;
 		cloog_loop_free_parts(l, 1, 0, 1, 0);
 	    }
 	}
-
-	begin_after_previous = cloog_loop_next_scal_cmp(begin) < 0;
     }
 
     return loop;
-- 
2.43.0


From 01526e1e7f67dc3f1d7cecd97d076d16f8bc5489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:26 +0000
Subject: [PATCH 15/35] fix: split loops to break cycles in their relative
 order

---
 include/cloog/domain.h |   2 +
 source/isl/domain.c    | 156 +++++++++++++++++++++++++++++++++++------
 source/loop.c          |  66 ++++++++++++++---
 3 files changed, 191 insertions(+), 33 deletions(-)

diff --git a/include/cloog/domain.h b/include/cloog/domain.h
index b7062ca..7a24c17 100644
--- a/include/cloog/domain.h
+++ b/include/cloog/domain.h
@@ -153,6 +153,8 @@ int           cloog_scattering_lazy_isscalar(CloogScattering *, int,
 								cloog_int_t *);
 CloogDomain * cloog_domain_part_before(CloogDomain *dom1, CloogDomain *dom2,
 					unsigned level);
+CloogDomain * cloog_domain_break_cycle(CloogDomain **doms, unsigned nb_doms,
+					unsigned level, unsigned *pos);
 int           cloog_domain_is_determined(CloogDomain *domain, int first);
 int           cloog_domain_lazy_isconstant(CloogDomain *domain, int dimension,
 					   cloog_int_t *value);
diff --git a/source/isl/domain.c b/source/isl/domain.c
index e32e588..4e4b225 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -253,6 +253,138 @@ static isl_map *before_at(isl_set *set1, isl_set *set2, unsigned level)
 }
 
 
+/* Compare the basic sets "set1" and "set2" at the given level.
+ * Return a positive value if set1 comes after set2,
+ * a negative value if set1 comes before set2, or
+ * zero if there is no common value for the outer levels and the parameters.
+ *
+ * isl_basic_set_compare_at is performed on rational relaxations.
+ * Only trust a positive result if it holds in one direction.
+ */
+static int compare_at(isl_set *set1, isl_set *set2, unsigned level)
+{
+	isl_basic_set_list *list;
+	isl_basic_set *bset1, *bset2;
+	int cmp;
+
+	list = isl_set_get_basic_set_list(set1);
+	bset1 = isl_basic_set_list_get_basic_set(list, 0);
+	isl_basic_set_list_free(list);
+	list = isl_set_get_basic_set_list(set2);
+	bset2 = isl_basic_set_list_get_basic_set(list, 0);
+	isl_basic_set_list_free(list);
+	cmp = isl_basic_set_compare_at(bset1, bset2, level - 1);
+	if (cmp > 0 && isl_basic_set_compare_at(bset2, bset1, level - 1) > 0) {
+		isl_map *before = before_at(set2, set1, level);
+		if (isl_map_is_empty(before))
+			cmp = -1;
+		isl_map_free(before);
+	}
+	isl_basic_set_free(bset1);
+	isl_basic_set_free(bset2);
+
+	return cmp;
+}
+
+
+/* Return the elements of set1 with values for the outer levels and
+ * the parameters that also appear in set2, provided these are
+ * some but not all elements of set1.  Otherwise, return NULL.
+ */
+static isl_set *proper_common_part(isl_set *set1, isl_set *set2,
+	unsigned level)
+{
+	isl_set *part;
+	isl_size dim = isl_set_dim(set2, isl_dim_set);
+
+	part = isl_set_copy(set2);
+	part = isl_set_project_out(part, isl_dim_set, level - 1,
+				    dim - (level - 1));
+	part = isl_set_insert_dims(part, isl_dim_set, level - 1,
+				    isl_set_dim(set1, isl_dim_set) - (level - 1));
+	part = isl_set_reset_space(part, isl_set_get_space(set1));
+	part = isl_set_intersect(part, isl_set_copy(set1));
+	if (!isl_set_is_empty(part) && !isl_set_is_subset(set1, part))
+		return isl_set_coalesce(part);
+	isl_set_free(part);
+	return NULL;
+}
+
+
+/**
+ * Check whether the pairwise order of the convex domains in "doms"
+ * at the given level contains any cycles.
+ * This may happen if the order of different pairs of domains
+ * is determined by different values of the outer levels and the parameters.
+ * If so, return a part of one of these domains that can be split off
+ * to break such a cycle and store the position of this domain in *pos.
+ * Otherwise, return NULL.
+ */
+CloogDomain *cloog_domain_break_cycle(CloogDomain **doms, unsigned nb_doms,
+	unsigned level, unsigned *pos)
+{
+	unsigned i, j, k, n = nb_doms;
+	int cmp;
+	unsigned char *follows, *done;
+	unsigned *next;
+	isl_set *part = NULL;
+
+	follows = calloc(nb_doms * nb_doms + 1, sizeof(*follows));
+	done = calloc(nb_doms + 1, sizeof(*done));
+	next = calloc(nb_doms + 1, sizeof(*next));
+	if (!follows || !done || !next)
+		cloog_die("memory overflow.\n");
+
+	for (i = 1; i < nb_doms; ++i)
+		for (j = 0; j < i; ++j) {
+			cmp = compare_at(isl_set_from_cloog_domain(doms[i]),
+					isl_set_from_cloog_domain(doms[j]),
+					level);
+			follows[i * nb_doms + j] = cmp > 0;
+			follows[j * nb_doms + i] = cmp < 0;
+		}
+
+	/* Remove elements that do not follow any remaining elements. */
+	for (k = 1; k && n;) {
+		k = 0;
+		for (i = 0; i < nb_doms; ++i) {
+			if (done[i])
+				continue;
+			for (j = 0; j < nb_doms; ++j)
+				if (!done[j] && follows[i * nb_doms + j])
+					break;
+			next[i] = j;
+			if (j < nb_doms)
+				continue;
+			done[i] = 1;
+			k = 1;
+			--n;
+		}
+	}
+
+	/* Each remaining element follows some other remaining element. */
+	if (n) {
+		for (i = 0; done[i]; ++i)
+			;
+		for (k = 0; k < nb_doms; ++k)
+			i = next[i];
+		for (k = 0; k < nb_doms && !part; ++k, i = next[i]) {
+			part = proper_common_part(
+				isl_set_from_cloog_domain(doms[i]),
+				isl_set_from_cloog_domain(doms[next[i]]),
+				level);
+			*pos = i;
+		}
+	}
+
+	free(follows);
+	free(done);
+	free(next);
+
+	return part ? cloog_domain_from_isl_set(part) : NULL;
+}
+
+
 /**
  * cloog_domain_sort function:
  * This function topologically sorts (nb_doms) domains. Here (doms) is an
@@ -270,8 +402,6 @@ void cloog_domain_sort(CloogDomain **doms, unsigned nb_doms, unsigned level,
 	struct isl_ctx *ctx;
 	unsigned char **follows;
 	isl_set *set_i, *set_j;
-	isl_basic_set *bset_i, *bset_j;
-	isl_basic_set_list *list_i, *list_j;
 
 	if (!nb_doms)
 		return;
@@ -297,27 +427,7 @@ void cloog_domain_sort(CloogDomain **doms, unsigned nb_doms, unsigned level,
 				continue;
 			set_i = isl_set_from_cloog_domain(doms[i]);
 			set_j = isl_set_from_cloog_domain(doms[j]);
-			list_i = isl_set_get_basic_set_list(set_i);
-			list_j = isl_set_get_basic_set_list(set_j);
-			bset_i = isl_basic_set_list_get_basic_set(list_i, 0);
-			bset_j = isl_basic_set_list_get_basic_set(list_j, 0);
-			isl_basic_set_list_free(list_i);
-			isl_basic_set_list_free(list_j);
-			cmp = isl_basic_set_compare_at(bset_i, bset_j, level-1);
-			/* The comparison is performed on rational relaxations.
-			 * Only trust it if it holds in one direction.
-			 */
-			if (cmp > 0 &&
-			    isl_basic_set_compare_at(bset_j, bset_i,
-							level - 1) > 0) {
-				isl_map *before;
-				before = before_at(set_j, set_i, level);
-				if (isl_map_is_empty(before))
-					cmp = -1;
-				isl_map_free(before);
-			}
-			isl_basic_set_free(bset_i);
-			isl_basic_set_free(bset_j);
+			cmp = compare_at(set_i, set_j, level);
 			if (!cmp)
 				continue;
 			if (cmp > 0) {
diff --git a/source/loop.c b/source/loop.c
index 5cae912..918169f 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -1152,6 +1152,59 @@ static int cloog_loop_count(CloogLoop *loop)
 }
 
 
+/* Split off the part "part" of the domain of the single loop "loop".
+ * Return the resulting list of loops, all with a convex domain.
+ */
+static CloogLoop *cloog_loop_split_part(CloogLoop *loop, CloogDomain *part)
+{
+    CloogLoop *split;
+    CloogDomain *rest;
+
+    rest = cloog_domain_difference(loop->domain, part);
+    split = cloog_loop_alloc(loop->state, part, 0, NULL,
+			    cloog_block_copy(loop->block),
+			    cloog_loop_copy(loop->inner), loop);
+    cloog_domain_free(loop->domain);
+    loop->domain = rest;
+    return cloog_loop_disjoint(split);
+}
+
+
+/* Split up loops in the list of disjoint loops "loop" to ensure
+ * that there are no cycles in their order.
+ */
+static CloogLoop *cloog_loop_split_cycles(CloogLoop *loop, int level)
+{
+    CloogLoop **p, *next, *l;
+    CloogDomain **doms, *part;
+    unsigned i, n, pos;
+
+    for (;;) {
+	for (n = 0, l = loop; l; l = l->next)
+	    ++n;
+	if (n <= 2)
+	    return loop;
+	doms = (CloogDomain **) malloc(n * sizeof(CloogDomain *));
+	if (!doms)
+	    cloog_die("memory overflow.\n");
+	for (i = 0, l = loop; l; l = l->next)
+	    doms[i++] = l->domain;
+	part = cloog_domain_break_cycle(doms, n, level, &pos);
+	free(doms);
+	if (!part)
+	    return loop;
+	for (p = &loop; pos; --pos)
+	    p = &(*p)->next;
+	next = (*p)->next;
+	(*p)->next = NULL;
+	*p = cloog_loop_split_part(*p, part);
+	while (*p)
+	    p = &(*p)->next;
+	*p = next;
+    }
+}
+
+
 /* Split up the loops in the list of disjoint loops "loop" such that
  * for each pair of loops in the result, the iterations of one of them
  * always come before those of the other, for all values
@@ -1160,7 +1213,7 @@ static int cloog_loop_count(CloogLoop *loop)
 static CloogLoop *cloog_loop_split_unordered(CloogLoop *loop, int level)
 {
     CloogLoop *res = NULL, *now = NULL, *other, *split, *last;
-    CloogDomain *part, *rest;
+    CloogDomain *part;
 
     if (!level)
 	return loop;
@@ -1177,21 +1230,14 @@ static CloogLoop *cloog_loop_split_unordered(CloogLoop *loop, int level)
 	    loop = next;
 	    continue;
 	}
-	rest = cloog_domain_difference(loop->domain, part);
-	split = cloog_loop_alloc(loop->state, part, 0, NULL,
-			    cloog_block_copy(loop->block),
-			    cloog_loop_copy(loop->inner), NULL);
-	cloog_domain_free(loop->domain);
-	loop->domain = rest;
-	split->next = loop;
-	split = cloog_loop_disjoint(split);
+	split = cloog_loop_split_part(loop, part);
 	for (last = split; last->next; last = last->next)
 	    ;
 	last->next = next;
 	loop = split;
     }
 
-    return res;
+    return cloog_loop_split_cycles(res, level);
 }
 
 
-- 
2.43.0


From 636d6c6ef08b75059f68100e714203090b143725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:48 +0000
Subject: [PATCH 16/35] fix: also split outer dimensions to obtain bounded
 hulls (-f)

---
 source/isl/domain.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 4e4b225..328cb31 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -1356,6 +1356,15 @@ static int constraint_bound_split(__isl_take isl_constraint *c, void *user)
 			cbs->set = isl_set_split_dims(cbs->set,
 							isl_dim_param, i, 1);
 		}
+		for (i = 0; i < cbs->level - 1; ++i) {
+			isl_val_free(v);
+			v = isl_constraint_get_coefficient_val(c, isl_dim_set, i);
+			if (isl_val_is_zero(v))
+				continue;
+
+			cbs->set = isl_set_split_dims(cbs->set,
+							isl_dim_set, i, 1);
+		}
 	}
 	isl_val_free(v);
 
@@ -1383,8 +1392,8 @@ static int basic_set_bound_split(__isl_take isl_basic_set *bset, void *user)
  *
  * We currently take a very simple approach.  For each of the basic
  * sets in "dom" we pick a lower and an upper bound and split the
- * range of any parameter involved in these two bounds in a
- * nonnegative and a negative part.  This ensures that the symbolic
+ * range of any parameter or outer dimension involved in these two bounds
+ * in a nonnegative and a negative part.  This ensures that the symbolic
  * constant in these two constraints are themselves bounded and
  * so there will be at least one upper and one lower bound
  * in the convex hull.
-- 
2.43.0


From c601853cadf9fe2cb7724bea4bb2abdae963e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:43 +0000
Subject: [PATCH 17/35] fix: separate the increment from the upper bound in
 Fortran loops

---
 source/pprint.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/pprint.c b/source/pprint.c
index 6d85a5d..17ee831 100644
--- a/source/pprint.c
+++ b/source/pprint.c
@@ -615,8 +615,10 @@ void pprint_for(struct cloogoptions *options, FILE *dst, int indent,
 	cloog_die("unbounded loops not allowed in FORTRAN.\n");
 
     if (options->language == CLOOG_LANGUAGE_FORTRAN) {
-	if (cloog_int_gt_si(f->stride, 1))
+	if (cloog_int_gt_si(f->stride, 1)) {
+	    fprintf(dst, ", ");
 	    cloog_int_print(dst, f->stride);
+	}
 	fprintf(dst,"\n");
     }
     else {
-- 
2.43.0


From 76cf2b00fd97ac1b364bcf89f2a62ab10dbedfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:54 +0000
Subject: [PATCH 18/35] fix: print plain bounds for annotated loops in Fortran

---
 source/pprint.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/pprint.c b/source/pprint.c
index 17ee831..360249a 100644
--- a/source/pprint.c
+++ b/source/pprint.c
@@ -482,6 +482,10 @@ void pprint_guard(struct cloogoptions *options, FILE *dst, int indent,
 void pprint_for(struct cloogoptions *options, FILE *dst, int indent,
 		 struct clast_for *f)
 {
+    /* The annotations below are only printed for C. */
+    int parallel = options->language == CLOOG_LANGUAGE_C ?
+				f->parallel : CLAST_PARALLEL_NOT;
+
     if (options->language == CLOOG_LANGUAGE_C) {
         if (f->time_var_name) {
             fprintf(dst, "IF_TIME(%s_start = cloog_util_rtclock());\n",
@@ -585,9 +589,9 @@ void pprint_for(struct cloogoptions *options, FILE *dst, int indent,
 
     if (f->LB) {
 	fprintf(dst, "%s=", f->iterator);
-        if (f->parallel & (CLAST_PARALLEL_OMP | CLAST_PARALLEL_MPI)) {
+        if (parallel & (CLAST_PARALLEL_OMP | CLAST_PARALLEL_MPI)) {
             fprintf(dst, "lbp");
-        }else if (f->parallel & CLAST_PARALLEL_VEC){
+        }else if (parallel & CLAST_PARALLEL_VEC){
             fprintf(dst, "lbv");
         }else{
 	pprint_expr(options, dst, f->LB);
@@ -604,9 +608,9 @@ void pprint_for(struct cloogoptions *options, FILE *dst, int indent,
 	if (options->language != CLOOG_LANGUAGE_FORTRAN)
 	    fprintf(dst,"%s<=", f->iterator);
 
-        if (f->parallel & (CLAST_PARALLEL_OMP | CLAST_PARALLEL_MPI)) {
+        if (parallel & (CLAST_PARALLEL_OMP | CLAST_PARALLEL_MPI)) {
             fprintf(dst, "ubp");
-        }else if (f->parallel & CLAST_PARALLEL_VEC){
+        }else if (parallel & CLAST_PARALLEL_VEC){
             fprintf(dst, "ubv");
         }else{
             pprint_expr(options, dst, f->UB);
-- 
2.43.0


From 84f7fa653563fee0e2fea8486b611be9a89d0dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:45 +0000
Subject: [PATCH 19/35] fix: do not look at dimensions that were dropped along
 with modulo constraints

---
 source/clast.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/clast.c b/source/clast.c
index 60873d6..60e6158 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -1004,6 +1004,10 @@ static CloogConstraintSet *insert_extra_modulo_guards(
 						infos->names->nb_parameters);
 
     for (i = total_dim - infos->names->nb_parameters; i >= nb_iter + 1; i--) {
+	/* Dropping constraints may also have removed some of the dimensions. */
+	total_dim = cloog_constraint_set_total_dimension(constraints);
+	if (i > total_dim - infos->names->nb_parameters)
+	    continue;
 	if (cloog_constraint_is_valid(upper =
 		cloog_constraint_set_defining_equality(constraints, i))) {
 	    if (!level || (nb_iter < level) ||
-- 
2.43.0


From 52ba781e9a4560d21db4245cba61b08c693dd396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:58 +0000
Subject: [PATCH 20/35] fix: reject option values that are not integers

---
 source/options.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/options.c b/source/options.c
index 2dccd2f..da26962 100644
--- a/source/options.c
+++ b/source/options.c
@@ -303,14 +303,13 @@ void cloog_options_version()
  * - June 29th 2003: (debug) lack of argument now detected.
  */
 void cloog_options_set(int * option, int argv, char ** argc, int * number)
-{ char ** endptr ;
+{ char * endptr ;
   
   if (*number+1 >= argv)
     cloog_die("an option lacks of argument.\n");
 
-  endptr = NULL ;
-  *option = strtol(argc[*number+1],endptr,10) ;
-  if (endptr != NULL)
+  *option = strtol(argc[*number+1],&endptr,10) ;
+  if (endptr == argc[*number+1] || *endptr != '\0')
     cloog_die("value '%s' for option '%s' is not valid.\n",
 	      argc[*number+1], argc[*number]);
   *number = *number + 1 ;
-- 
2.43.0


From b94ab5de6de0e287eec560e39b193ec191ca9672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:58 +0000
Subject: [PATCH 21/35] fix: let clast_filter go past assignments and into
 blocks

---
 source/clast.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/clast.c b/source/clast.c
index 60e6158..bc3b2e2 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -2095,6 +2095,22 @@ void clast_filter(struct clast_stmt *node,
         free(stmts_next);
     }
 
+    if (CLAST_STMT_IS_A(node, stmt_ass)) {
+        clast_filter(node->next, filter, loops, nloops, stmts, nstmts);
+    }
+
+    if (CLAST_STMT_IS_A(node, stmt_block)) {
+        struct clast_block *block = (struct clast_block *) node;
+        clast_filter(block->body, filter, loops, nloops, stmts, nstmts);
+        clast_filter((block->stmt).next, filter, &loops_next,
+                &num_next_loops, &stmts_next, &num_next_stmts);
+        *nstmts = concat_if_new((void **)stmts, *nstmts, stmts_next, num_next_stmts, sizeof(int));
+        *nloops = concat_if_new((void **)loops, *nloops, loops_next, num_next_loops,
+                sizeof(struct clast_stmt *));
+        free(loops_next);
+        free(stmts_next);
+    }
+
     if (CLAST_STMT_IS_A(node, stmt_guard)) {
         // printf("guard stmt\n");
         struct clast_guard *guard = (struct clast_guard *) node;
-- 
2.43.0


From d061d60239307d3f1fcffd6a9a93a49ea0f75256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:58 +0000
Subject: [PATCH 22/35] fix: read names of any length and stop at the end of
 the input

---
 source/names.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/source/names.c b/source/names.c
index 914c736..3dbdaee 100644
--- a/source/names.c
+++ b/source/names.c
@@ -269,10 +269,10 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
   char s[MAX_STRING], str[MAX_STRING], * c, **names = NULL;
 
   /* We first read name option. */
-  while (fgets(s,MAX_STRING,file) == 0) ;
-  while ((*s=='#' || *s=='\n') || (sscanf(s," %d",&option)<1))
-    if (fgets(s, MAX_STRING, file))
-      continue;
+  do
+    if (!fgets(s, MAX_STRING, file))
+      cloog_die("no naming option in input file.\n");
+  while ((*s=='#' || *s=='\n') || (sscanf(s," %d",&option)<1));
   
   /* If there is no item to read, then return NULL. */
   if (nb_items == 0)
@@ -286,11 +286,6 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
     names = (char **)malloc(nb_items*sizeof(char *)) ;
     if (names == NULL) 
       cloog_die("memory overflow.\n");
-    for (i=0;i<nb_items;i++)
-    { names[i] = (char *)malloc(MAX_NAME*sizeof(char)) ;
-      if (names[i] == NULL) 
-	cloog_die("memory overflow.\n");
-    }
     
     do  /* Skip the comments, spaces and empty lines... */
     { c = fgets(s,MAX_STRING,file) ;
@@ -310,6 +305,9 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
       /* n is strlen(str). */
       if (sscanf(c,"%s%n",str,&n) == 0) 
         cloog_die("no names in input file.\n");
+      names[i] = (char *)malloc((n+1)*sizeof(char)) ;
+      if (names[i] == NULL) 
+        cloog_die("memory overflow.\n");
       sscanf(str,"%s",names[i]) ;
       c += n ;
     }
-- 
2.43.0


From 5b8474f14c672367a12faad4ef7d92d5d7b048de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:58 +0000
Subject: [PATCH 23/35] fix: skip blanks before the language in the input

---
 source/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/input.c b/source/input.c
index 49106cc..4f94a6c 100644
--- a/source/input.c
+++ b/source/input.c
@@ -80,7 +80,7 @@ CloogInput *cloog_input_read(FILE *file, CloogOptions *options)
 	/* First of all, we read the language to use. */
 	if (!next_line(file, line, sizeof(line)))
 		cloog_die("Input error.\n");
-	if (sscanf(line, "%c", &language) != 1)
+	if (sscanf(line, " %c", &language) != 1)
 		cloog_die("Input error.\n");
    
 	if (language == 'f')
-- 
2.43.0


From 1cb2d77551998af878a849dfbdc02977031afe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:58 +0000
Subject: [PATCH 24/35] fix: release the iteration count when a loop cannot be
 unrolled

---
 source/isl/domain.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 328cb31..cfaa460 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -2278,6 +2278,7 @@ int cloog_domain_can_unroll(CloogDomain *domain, int level, cloog_int_t *n,
 		ccu.can_unroll = 0;
 	if (!ccu.can_unroll) {
 		isl_constraint_free(ccu.c);
+		isl_val_free(ccu.n);
 		return 0;
 	}
 
-- 
2.43.0


From cd93df5a54c27859d255418ff83b003a1813721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:58 +0000
Subject: [PATCH 25/35] fix: take all columns into account when reading a
 scattering from a matrix

---
 source/isl/domain.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index cfaa460..ee86f08 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -713,6 +713,7 @@ static struct isl_constraint *isl_constraint_read_from_matrix(
 {
 	struct isl_constraint *constraint;
 	int j;
+	int nin = isl_space_dim(dim, isl_dim_in);
 	int nvariables = isl_space_dim(dim, isl_dim_set);
 	int nparam = isl_space_dim(dim, isl_dim_param);
 	isl_local_space *ls = isl_local_space_from_space(dim);
@@ -722,6 +723,13 @@ static struct isl_constraint *isl_constraint_read_from_matrix(
 	else
 		constraint = isl_inequality_alloc(ls);
 
+	/* The input dimensions of a map come before its output dimensions. */
+	for (j = 0; j < nin; ++j) {
+		isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + j]);
+		isl_constraint_set_coefficient_val(constraint, isl_dim_in, j, val);
+	}
+	row += nin;
+
 	for (j = 0; j < nvariables; ++j) {
 		isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + j]);
 		isl_constraint_set_coefficient_val(constraint, isl_dim_out, j, val);
-- 
2.43.0


From bca5f0cd5c9b679efb570e6a9f60f3e6ad9ea089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:58 +0000
Subject: [PATCH 26/35] fix: report malformed domains and scatterings in the
 input

---
 source/isl/domain.c   | 15 +++++++++++++++
 source/union_domain.c |  4 ++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index ee86f08..583e1e2 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -620,6 +620,8 @@ CloogDomain *cloog_domain_read_context(CloogState *state, FILE *input)
 	isl_set *set;
 
 	set = isl_set_read_from_file(ctx, input);
+	if (!set)
+		cloog_die("Input error.\n");
 	set = isl_set_move_dims(set, isl_dim_param, 0,
 				isl_dim_set, 0, isl_set_dim(set, isl_dim_set));
 
@@ -654,8 +656,12 @@ CloogDomain *cloog_domain_union_read(CloogState *state,
 	struct isl_set *set;
 
 	set = isl_set_read_from_file(ctx, input);
+	if (!set)
+		cloog_die("Input error.\n");
 	if (isl_set_dim(set, isl_dim_param) != nb_parameters) {
 		int dim = isl_set_dim(set, isl_dim_set);
+		if (isl_set_dim(set, isl_dim_param) != 0 || dim < nb_parameters)
+			cloog_die("wrong number of parameters in domain.\n");
 		set = isl_set_move_dims(set, isl_dim_param, 0,
 			    isl_dim_set, dim - nb_parameters, nb_parameters);
 	}
@@ -686,12 +692,21 @@ CloogScattering *cloog_domain_read_scattering(CloogDomain *domain, FILE *input)
 	dim = isl_set_dim(set, isl_dim_set);
 	nparam = isl_set_dim(set, isl_dim_param);
 	scat = isl_map_read_from_file(ctx, input);
+	if (!scat)
+		cloog_die("Input error.\n");
 	if (isl_map_dim(scat, isl_dim_param) != nparam) {
 		int n_out = isl_map_dim(scat, isl_dim_out);
+		if (isl_map_dim(scat, isl_dim_param) != 0 || n_out < nparam)
+			cloog_die("wrong number of parameters in scattering "
+				  "function.\n");
 		scat = isl_map_move_dims(scat, isl_dim_param, 0,
 					isl_dim_out, n_out - nparam, nparam);
 	}
 	if (isl_map_dim(scat, isl_dim_in) != dim) {
+		if (isl_map_dim(scat, isl_dim_in) != 0 ||
+		    isl_map_dim(scat, isl_dim_out) < dim)
+			cloog_die("wrong number of iterators in scattering "
+				  "function.\n");
 		n_scat = isl_map_dim(scat, isl_dim_out) - dim;
 		scat = isl_map_move_dims(scat, isl_dim_in, 0,
 					isl_dim_out, n_scat, dim);
diff --git a/source/union_domain.c b/source/union_domain.c
index e36a02a..a59300e 100644
--- a/source/union_domain.c
+++ b/source/union_domain.c
@@ -232,7 +232,7 @@ CloogUnionDomain *cloog_union_domain_read(FILE *file, int nb_par,
 	CloogUnionDomain *ud;
 	CloogScatteringList *scatteringl;
 	int i;
-	int n_iter = -1;
+	int n_iter = 0;
 	int n_dom;
 	char **names;
 
@@ -244,7 +244,7 @@ CloogUnionDomain *cloog_union_domain_read(FILE *file, int nb_par,
 	/* We read the number of statements. */
 	if (!next_line(file, line, sizeof(line)))
 		cloog_die("Input error.\n");
-	if (sscanf(line, "%d", &n_dom) != 1)
+	if (sscanf(line, "%d", &n_dom) != 1 || n_dom < 0)
 		cloog_die("Input error.\n");
 
 	domain = ALLOCN(CloogDomain *, n_dom);
-- 
2.43.0


From 968bec5e7e1c8ca542f262671d3cb4bfad62d6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:04 +0000
Subject: [PATCH 27/35] fix: dump empty domains and scatterings in a form that
 can be read back

---
 source/isl/domain.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 583e1e2..6644f7a 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -81,7 +81,16 @@ void cloog_domain_print_constraints(FILE *foo, CloogDomain *domain,
 	p = isl_printer_to_file(isl_set_get_ctx(set), foo);
 	if (print_number) {
 		p = isl_printer_set_output_format(p, ISL_FORMAT_EXT_POLYLIB);
-		p = isl_printer_print_set(p, set);
+		if (isl_set_n_basic_set(set) == 0) {
+			/* A union of zero basic sets has no dimensions in this
+			 * format.
+			 */
+			bset = isl_basic_set_empty(isl_set_get_space(set));
+			p = isl_printer_print_str(p, "1\n\n");
+			p = isl_printer_print_basic_set(p, bset);
+			isl_basic_set_free(bset);
+		} else
+			p = isl_printer_print_set(p, set);
 	} else {
 		assert(isl_set_n_basic_set(set) == 1);
 		list = isl_set_get_basic_set_list(set);
@@ -102,7 +111,15 @@ void cloog_scattering_print_constraints(FILE *foo, CloogScattering *scattering)
 
 	p = isl_printer_to_file(isl_map_get_ctx(map), foo);
 	p = isl_printer_set_output_format(p, ISL_FORMAT_EXT_POLYLIB);
-	p = isl_printer_print_map(p, map);
+	if (isl_map_n_basic_map(map) == 0) {
+		isl_basic_map *bmap;
+
+		bmap = isl_basic_map_empty(isl_map_get_space(map));
+		p = isl_printer_print_str(p, "1\n\n");
+		p = isl_printer_print_basic_map(p, bmap);
+		isl_basic_map_free(bmap);
+	} else
+		p = isl_printer_print_map(p, map);
 	isl_printer_free(p);
 }
 
-- 
2.43.0


From a9fe3847cbb10fde432d95a4925d9b5d68c6959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:04 +0000
Subject: [PATCH 28/35] fix: keep residue constraints in saved domains

---
 include/cloog/domain.h |  1 +
 source/isl/domain.c    | 15 +++++++++++++++
 source/loop.c          |  2 +-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/cloog/domain.h b/include/cloog/domain.h
index 7a24c17..064d84e 100644
--- a/include/cloog/domain.h
+++ b/include/cloog/domain.h
@@ -132,6 +132,7 @@ CloogConstraintSet *cloog_domain_constraints(CloogDomain *);
 int           cloog_domain_isempty(CloogDomain *) ;
 CloogDomain * cloog_domain_universe(CloogState *state, unsigned dim);
 CloogDomain * cloog_domain_project(CloogDomain *, int);
+CloogDomain * cloog_domain_project_exact(CloogDomain *, int);
 CloogDomain * cloog_domain_extend(CloogDomain *, int);
 int           cloog_domain_never_integral(CloogDomain *) ;
 void          cloog_domain_stride(CloogDomain *, int, cloog_int_t *, cloog_int_t *);
diff --git a/source/isl/domain.c b/source/isl/domain.c
index 6644f7a..ca8a107 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -980,6 +980,21 @@ CloogDomain *cloog_domain_project(CloogDomain *domain, int level)
 }
 
 
+/**
+ * cloog_domain_project_exact function:
+ * This function computes the projection of domain on its level first
+ * dimensions, as cloog_domain_project, but keeps the constraints that
+ * restrict the last dimension to some residues.
+ */
+CloogDomain *cloog_domain_project_exact(CloogDomain *domain, int level)
+{
+	isl_set *set = isl_set_from_cloog_domain(domain);
+	set = isl_set_project_out(isl_set_copy(set), isl_dim_set,
+					level, isl_set_n_dim(set) - level);
+	return cloog_domain_from_isl_set(set);
+}
+
+
 /**
  * cloog_domain_extend function:
  * This function returns the (domain) given as input with (dim)
diff --git a/source/loop.c b/source/loop.c
index 918169f..26fbe5b 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -2840,7 +2840,7 @@ static CloogLoop *loop_simplify(CloogLoop *loop, CloogDomain *context,
     inter = cloog_domain_add_stride_constraint(inter, loop->stride);
     if (domain_dim > nb_scattdims) {
       CloogDomain *t;
-      inter = cloog_domain_project(t = inter, nb_scattdims);
+      inter = cloog_domain_project_exact(t = inter, nb_scattdims);
       cloog_domain_free(t);
     }
     simplified->unsimplified = inter;
-- 
2.43.0


From 7731bd6616cbc1001aeaa32e02c04b8ba6b8dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:49 +0000
Subject: [PATCH 29/35] fix: print empty scatterings without isl's missing
 basic map format

---
 source/isl/domain.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index ca8a107..f3c32f3 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -112,12 +112,19 @@ void cloog_scattering_print_constraints(FILE *foo, CloogScattering *scattering)
 	p = isl_printer_to_file(isl_map_get_ctx(map), foo);
 	p = isl_printer_set_output_format(p, ISL_FORMAT_EXT_POLYLIB);
 	if (isl_map_n_basic_map(map) == 0) {
-		isl_basic_map *bmap;
-
-		bmap = isl_basic_map_empty(isl_map_get_space(map));
-		p = isl_printer_print_str(p, "1\n\n");
-		p = isl_printer_print_basic_map(p, bmap);
-		isl_basic_map_free(bmap);
+		/* A union of zero basic maps has no dimensions in this format:
+		 * print the contradiction 1 = 0 instead.
+		 */
+		int i;
+		int n_out = isl_map_dim(map, isl_dim_out);
+		int n_in = isl_map_dim(map, isl_dim_in);
+		int n_par = isl_map_dim(map, isl_dim_param);
+
+		fprintf(foo, "1\n\n1 %d %d %d 0 %d\n0",
+			n_out + n_in + n_par + 2, n_out, n_in, n_par);
+		for (i = 0; i < n_out + n_in + n_par; ++i)
+			fprintf(foo, " 0");
+		fprintf(foo, " 1\n");
 	} else
 		p = isl_printer_print_map(p, map);
 	isl_printer_free(p);
-- 
2.43.0


From 63c928f91c418f8f87233c5817029552f7748a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:27 +0000
Subject: [PATCH 30/35] fix: use equalities over integer divisions as loop
 bounds

---
 include/cloog/constraints.h |  3 +++
 source/clast.c              | 12 +++++++++---
 source/isl/constraints.c    | 36 ++++++++++++++++++++++++++++++++++++
 3 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/include/cloog/constraints.h b/include/cloog/constraints.h
index 4818c4c..69b36f8 100644
--- a/include/cloog/constraints.h
+++ b/include/cloog/constraints.h
@@ -101,6 +101,9 @@ int           cloog_constraint_involves(CloogConstraint *constraint, int v);
 int           cloog_constraint_is_lower_bound(CloogConstraint *constraint, int v);
 int           cloog_constraint_is_upper_bound(CloogConstraint *constraint, int v);
 int           cloog_constraint_is_equality(CloogConstraint *constraint);
+int           cloog_constraint_is_bound(CloogConstraint *constraint, int level);
+CloogConstraint *cloog_constraint_equality_bound(CloogConstraint *constraint,
+		int level, int lower);
 void          cloog_constraint_constant_get(CloogConstraint *constraint,
 			cloog_int_t *val);
 void          cloog_constraint_coefficient_get(CloogConstraint *constraint,
diff --git a/source/clast.c b/source/clast.c
index bc3b2e2..e5d83d4 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -814,17 +814,20 @@ struct clast_minmax_data {
  *
  * If d->no_earlier is set, then the constraint may not involve
  * any earlier variables.
+ * Otherwise, the bounds of a loop are being computed.  An equality that
+ * determines its iterator in terms of integer divisions (any other one would
+ * have been turned into an assignment) is then both a lower and an upper bound.
  */
 static int valid_bound(CloogConstraint *c, struct clast_minmax_data *d)
 {
     int i;
 
+    if (cloog_constraint_is_equality(c))
+	return !d->no_earlier && cloog_constraint_is_bound(c, d->level);
     if (d->max && !cloog_constraint_is_lower_bound(c, d->level - 1))
 	return 0;
     if (!d->max && !cloog_constraint_is_upper_bound(c, d->level - 1))
 	return 0;
-    if (cloog_constraint_is_equality(c))
-	return 0;
     if (d->guard && cloog_constraint_involves(c, d->guard - 1))
 	return 0;
 
@@ -908,7 +911,10 @@ static int collect_bounds(CloogConstraint *c, void *user)
     if (!valid_bound(c, d))
 	return 0;
 
-    c = cloog_constraint_copy(c);
+    if (cloog_constraint_is_equality(c))
+	c = cloog_constraint_equality_bound(c, d->level, d->max);
+    else
+	c = cloog_constraint_copy(c);
 
     if (d->lower_bound && d->infos->stride[d->level - 1])
 	c = update_lower_bound_c(c, d->level, d->infos->stride[d->level - 1]);
diff --git a/source/isl/constraints.c b/source/isl/constraints.c
index 2cb5fb0..622503b 100644
--- a/source/isl/constraints.c
+++ b/source/isl/constraints.c
@@ -689,6 +689,42 @@ int cloog_constraint_is_equality(CloogConstraint *constraint)
 	return isl_constraint_is_equality(cloog_constraint_to_isl(constraint));
 }
 
+/**
+ * Does "constraint" bound the variable "level" (1 based) by an expression
+ * that does not itself depend on this variable (through integer divisions)?
+ */
+int cloog_constraint_is_bound(CloogConstraint *constraint, int level)
+{
+	int involves;
+	isl_constraint *c;
+
+	if (!cloog_constraint_involves(constraint, level - 1))
+		return 0;
+
+	c = isl_constraint_copy(cloog_constraint_to_isl(constraint));
+	c = isl_constraint_set_coefficient_si(c, isl_dim_set, level - 1, 0);
+	involves = isl_constraint_involves_dims(c, isl_dim_set, level - 1, 1);
+	isl_constraint_free(c);
+
+	return !involves;
+}
+
+/**
+ * Return the lower (if "lower" is set) or upper bound on the variable "level"
+ * (1 based) that follows from the equality "constraint".
+ */
+CloogConstraint *cloog_constraint_equality_bound(CloogConstraint *constraint,
+	int level, int lower)
+{
+	isl_aff *aff;
+
+	aff = isl_constraint_get_aff(cloog_constraint_to_isl(constraint));
+	if (!cloog_constraint_is_lower_bound(constraint, level - 1) == !!lower)
+		aff = isl_aff_neg(aff);
+
+	return cloog_constraint_from_isl_constraint(isl_inequality_from_aff(aff));
+}
+
 typedef struct cloog_drop_constraint_data
 {
   isl_constraint* constraint;
-- 
2.43.0


From 96ce9952aaf2224fe5c9af794832f5366353a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:30 +0000
Subject: [PATCH 31/35] fix: simplify away constraints on dimensions fixed by
 the context

---
 source/isl/domain.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index f3c32f3..2a9a3e4 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -211,7 +211,14 @@ CloogDomain *cloog_domain_simplify(CloogDomain *dom1, CloogDomain *dom2)
 {
 	isl_set *set1 = isl_set_from_cloog_domain(dom1);
 	isl_set *set2 = isl_set_from_cloog_domain(dom2);
+	isl_basic_set *hull;
+
 	set1 = isl_set_gist(isl_set_copy(set1), isl_set_copy(set2));
+	/* isl_set_gist may leave constraints on dimensions that are fixed by
+	 * an equality of set2 when integer divisions are involved.
+	 */
+	hull = isl_set_affine_hull(isl_set_copy(set2));
+	set1 = isl_set_gist_basic_set(set1, hull);
 	return cloog_domain_from_isl_set(set1);
 }
 
-- 
2.43.0


From ea0d381da80d252acc04ce8ff9bdde37e80cae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:19 +0000
Subject: [PATCH 32/35] fix: reserve room for all terms of a modulo guard

---
 source/clast.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/clast.c b/source/clast.c
index e5d83d4..c4a2e83 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -1402,7 +1402,8 @@ static int insert_modulo_guard_constraint(CloogConstraint *c, void *user)
 	struct clast_reduction *r;
 	const char *name;
 
-	r = new_clast_reduction(clast_red_sum, nb_elts + 1);
+	/* Eliminating variables below may introduce other ones. */
+	r = new_clast_reduction(clast_red_sum, len - 1);
 	nb_elts = 0;
 
 	/* First, the modulo guard : the iterators (and earlier existentially
@@ -1436,7 +1437,7 @@ static int insert_modulo_guard_constraint(CloogConstraint *c, void *user)
 	if (!cloog_int_is_zero(line[len-1]))
 	  r->elts[nb_elts++] = &new_clast_term(line[len-1], NULL)->expr;
 
-	/* our initial computation may have been an overestimate */
+	/* the initial size is an overestimate */
 	r->n = nb_elts;
 
 	if (constant) {
-- 
2.43.0


From 6fa3e6bcea0a513171313161d7f559637e626c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:21 +0000
Subject: [PATCH 33/35] fix: accept the null matrix in cloog_matrix_free and
 cloog_matrix_print

---
 source/matrix.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/matrix.c b/source/matrix.c
index 0823e3c..31adf9e 100644
--- a/source/matrix.c
+++ b/source/matrix.c
@@ -101,18 +101,20 @@ void cloog_matrix_free(CloogMatrix * matrix)
 {
   int i;
   cloog_int_t *p;
-  int size = matrix->NbRows * matrix->NbColumns;
+  int size;
 
+  if (!matrix)
+    return;
+
+  size = matrix->NbRows * matrix->NbColumns;
   p = matrix->p_Init;
 
   for (i = 0; i < size; i++)
     cloog_int_clear(*p++);
 
-  if (matrix) {
-    free(matrix->p_Init);
-    free(matrix->p);
-    free(matrix);
-  }
+  free(matrix->p_Init);
+  free(matrix->p);
+  free(matrix);
 }
 
 
@@ -142,8 +144,10 @@ void cloog_matrix_print_structure(FILE *file, CloogMatrix *M,
  */
 void cloog_matrix_print(FILE* foo, CloogMatrix* m)
 {
-  if (!m)
+  if (!m) {
     fprintf(foo, "(null)\n");
+    return;
+  }
 
   fprintf(foo, "%u %u\n", m->NbRows, m->NbColumns);
   cloog_matrix_print_structure(foo, m, "", "");
-- 
2.43.0


From 1d70b47ea843f5e288e636f52a0583bf80b6a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:21 +0000
Subject: [PATCH 34/35] fix: reject short rows and accept long rows and
 matrices without columns in cloog_matrix_read

---
 source/matrix.c | 57 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/source/matrix.c b/source/matrix.c
index 31adf9e..056d1ff 100644
--- a/source/matrix.c
+++ b/source/matrix.c
@@ -34,6 +34,7 @@
 #include <ctype.h>
 #include <stdlib.h>
 #include <stdio.h>
+#include <string.h>
 #include "../include/cloog/cloog.h"
 
 /**
@@ -155,13 +156,32 @@ void cloog_matrix_print(FILE* foo, CloogMatrix* m)
 }
 
 
-static char *next_line(FILE *input, char *line, unsigned len)
+/**
+ * Read the next line that is neither empty nor a comment into *line,
+ * a buffer of size *len that is enlarged as needed.
+ */
+static char *next_line(FILE *input, char **line, size_t *len)
 {
 	char *p;
+	size_t n;
 
 	do {
-		if (!(p = fgets(line, len, input)))
-			return NULL;
+		n = 0;
+		do {
+			if (*len - n < 2) {
+				*len = 2 * *len + 1024;
+				*line = (char *)realloc(*line, *len);
+				if (!*line)
+					cloog_die("memory overflow.\n");
+			}
+			if (!fgets(*line + n, *len - n, input)) {
+				if (n == 0)
+					return NULL;
+				break;
+			}
+			n += strlen(*line + n);
+		} while (n > 0 && (*line)[n - 1] != '\n');
+		p = *line;
 		while (isspace(*p) && *p != '\n')
 			++p;
 	} while (*p == '#' || *p == '\n');
@@ -172,12 +192,14 @@ static char *next_line(FILE *input, char *line, unsigned len)
 CloogMatrix *cloog_matrix_read(FILE *input)
 {
 	unsigned n_row, n_col;
-	char line[1024];
+	char *line = NULL;
+	size_t len = 0;
 
-	if (!next_line(input, line, sizeof(line)))
+	if (!next_line(input, &line, &len))
 		cloog_die("Input error.\n");
 	if (sscanf(line, "%u %u", &n_row, &n_col) != 2)
 		cloog_die("Input error.\n");
+	free(line);
 	
 	return cloog_matrix_read_of_size(input, n_row, n_col);
 }
@@ -190,28 +212,35 @@ CloogMatrix *cloog_matrix_read_of_size(FILE *input,
 {
 	CloogMatrix *M;
 	unsigned int i, j;
-	char line[1024];
-	char val[1024];
+	char *line = NULL;
+	size_t len = 0;
 	char *p;
 
 	M = cloog_matrix_alloc(n_row, n_col);
 	if (!M)
 		cloog_die("memory overflow.\n");
+	if (n_col == 0)
+		return M;
 	for (i = 0; i < n_row; ++i) {
-		int offset;
-		int n;
-
-		p = next_line(input, line, sizeof(line));
+		p = next_line(input, &line, &len);
 		if (!p)
 			cloog_die("Input error.\n");
 		for (j = 0; j < n_col; ++j) {
-			n = sscanf(p, "%s%n", val, &offset);
-			if (!n)
+			char *val;
+
+			while (isspace(*p))
+				++p;
+			if (!*p)
 				cloog_die("Input error.\n");
+			val = p;
+			while (*p && !isspace(*p))
+				++p;
+			if (*p)
+				*p++ = '\0';
 			cloog_int_read(M->p[i][j], val);
-			p += offset;
 		}
 	}
+	free(line);
 
 	return M;
 }
-- 
2.43.0


From a0b8800cdd4a38805743f769d882bc9cd70a1984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 35/35] fix: give iterators of an isl set names that are not in
 use

---
 source/isl/domain.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 2a9a3e4..7507ed6 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -1938,6 +1938,23 @@ static int count_same_name(__isl_keep isl_space *dim,
 	return count;
 }
 
+/* Is "name" the name of a parameter or of one of the first "n" iterators
+ * of "ud"?
+ */
+static int is_used_name(CloogUnionDomain *ud, int n, const char *name)
+{
+	int i;
+
+	for (i = 0; i < ud->n_name[CLOOG_PARAM]; ++i)
+		if (ud->name[CLOOG_PARAM] && ud->name[CLOOG_PARAM][i] &&
+		    !strcmp(ud->name[CLOOG_PARAM][i], name))
+			return 1;
+	for (i = 0; i < n; ++i)
+		if (!strcmp(ud->name[CLOOG_ITER][i], name))
+			return 1;
+	return 0;
+}
+
 static CloogUnionDomain *add_domain(__isl_take isl_set *set, CloogUnionDomain *ud)
 {
 	int i, nvar;
@@ -1966,12 +1983,17 @@ static CloogUnionDomain *add_domain(__isl_take isl_set *set, CloogUnionDomain *u
 			name = buffer;
 		}
 		n = count_same_name(dim, isl_dim_set, i, name);
-		if (n) {
-			int size = strlen(name) + 10;
+		if (n || is_used_name(ud, i, name)) {
+			int size = strlen(name) + 13;
 			long_name = isl_alloc_array(ctx, char, size);
 			if (!long_name)
 				cloog_die("memory overflow.\n");
-			snprintf(long_name, size, "%s_%d", name, n);
+			if (!n)
+				n = 1;
+			do {
+				snprintf(long_name, size, "%s_%d", name,
+					 n++);
+			} while (is_used_name(ud, i, long_name));
 			name = long_name;
 		}
 		ud = cloog_union_domain_set_name(ud, CLOOG_ITER, i, name);
-- 
2.43.0

