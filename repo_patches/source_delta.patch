From b54df42cd665958600a7b7dd02cca4922bd881f8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 01/26] fix: report infeasibility found when transferring
 bounds in doubleton equality rows

---
 src/core/Presolver.c    |  1 +
 src/explorers/DtonsEq.c | 36 +++++++++++++++++++++++-------------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 5adc344..da2ee13 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -481,6 +481,7 @@ static inline PresolveStatus run_fast_explorers(Problem *prob, const Settings *s
     if (stgs->dton_eq)
     {
         status |= remove_dton_eq_rows(prob, stgs->max_shift);
+        RETURN_IF_INFEASIBLE(status);
         // after removing doubleton equality rows, there can be new empty rows,
         // new singleton rows, and new empty columns
         status |= run_trivial_explorers(prob, stgs);
diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 1f08315..e51a947 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -185,10 +185,12 @@ static inline void can_dton_be_eliminated(Matrix *AT, const double *row_vals,
     *subst = row_cols[*subst];
 }
 
-// lb and ub are bounds on variable that gets substituted
-static inline void modify_bounds(Constraints *constraints, int i, double aij,
-                                 double aik, double rhs, double lb_subst,
-                                 double ub_subst, int stay, ColTag col_tag_subst)
+// lb and ub are bounds on variable that gets substituted. Returns INFEASIBLE if
+// the transferred bounds contradict the bounds on the variable that stays.
+static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
+                                           double aij, double aik, double rhs,
+                                           double lb_subst, double ub_subst,
+                                           int stay, ColTag col_tag_subst)
 {
     assert(aij != 0 && aik != 0);
     bool same_sign = (aik * aij > 0.0);
@@ -198,18 +200,20 @@ static inline void modify_bounds(Constraints *constraints, int i, double aij,
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_ub_cand = (rhs - aik * lb_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            RETURN_IF_INFEASIBLE(update_ub(constraints, stay, new_ub_cand,
+                                           i HUGE_BOUND_IS_NOT_OK));
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return UNCHANGED;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_lb_cand = (rhs - aik * ub_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            RETURN_IF_INFEASIBLE(update_lb(constraints, stay, new_lb_cand,
+                                           i HUGE_BOUND_IS_NOT_OK));
         }
     }
     else
@@ -217,20 +221,24 @@ static inline void modify_bounds(Constraints *constraints, int i, double aij,
         if (!HAS_TAG(col_tag_subst, C_TAG_LB_INF))
         {
             double new_lb_cand = (rhs - aik * lb_subst) / aij;
-            update_lb(constraints, stay, new_lb_cand, i HUGE_BOUND_IS_NOT_OK);
+            RETURN_IF_INFEASIBLE(update_lb(constraints, stay, new_lb_cand,
+                                           i HUGE_BOUND_IS_NOT_OK));
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
-                return;
+                return UNCHANGED;
             }
         }
 
         if (!HAS_TAG(col_tag_subst, C_TAG_UB_INF))
         {
             double new_ub_cand = (rhs - aik * ub_subst) / aij;
-            update_ub(constraints, stay, new_ub_cand, i HUGE_BOUND_IS_NOT_OK);
+            RETURN_IF_INFEASIBLE(update_ub(constraints, stay, new_ub_cand,
+                                           i HUGE_BOUND_IS_NOT_OK));
         }
     }
+
+    return UNCHANGED;
 }
 
 #ifndef TESTING
@@ -701,8 +709,9 @@ static PresolveStatus remove_dton_eq_rows__(Problem *prob, int max_shift_per_row
 
         // transfer bounds to variable that stays and skip the reduction
         // if the variable that stays was fixed because of the bound change
-        modify_bounds(constraints, i, aij, aik, *row.rhs, bounds[k].lb, bounds[k].ub,
-                      j, col_tags[k]);
+        RETURN_IF_INFEASIBLE(modify_bounds(constraints, i, aij, aik, *row.rhs,
+                                           bounds[k].lb, bounds[k].ub, j,
+                                           col_tags[k]));
 
         if (HAS_TAG(col_tags[j], C_TAG_INACTIVE))
         {
@@ -751,6 +760,7 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
     while ((*dton_rows)->len > 0)
     {
         PresolveStatus temp = remove_dton_eq_rows__(prob, max_shift_per_row);
+        RETURN_IF_INFEASIBLE(temp);
 
         if (temp != REDUCED)
         {
@@ -767,6 +777,6 @@ PresolveStatus remove_dton_eq_rows(Problem *prob, int max_shift_per_row)
 
     DEBUG(verify_problem_up_to_date(prob->constraints));
 
-    // always return UNCHANGED because this function can't detect infeas/unbnd.
+    // return UNCHANGED even if the problem was reduced
     return UNCHANGED;
 }
-- 
2.43.0


From 104a69bbae76f8055bac9e250a4ac4daf28ad4e5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 02/26] fix: do not count the objective offset of a fixed empty
 column twice

---
 src/explorers/SimpleReductions.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/explorers/SimpleReductions.c b/src/explorers/SimpleReductions.c
index 22ced65..17b6a80 100644
--- a/src/explorers/SimpleReductions.c
+++ b/src/explorers/SimpleReductions.c
@@ -691,8 +691,13 @@ PresolveStatus remove_variables_with_close_bounds(Problem *prob)
 
         if (IS_EQUAL_FEAS_TOL(bounds[ii].lb, bounds[ii].ub))
         {
-            // no need to check return value since bounds are equal
-            fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
+            // empty columns are removed (and their objective contribution is
+            // accounted for) by remove_empty_cols
+            if (col_sizes[ii] > 0)
+            {
+                // no need to check return value since bounds are equal
+                fix_col(constraints, (int) ii, bounds[ii].lb, c[ii]);
+            }
         }
         else if (bounds[ii].lb > bounds[ii].ub + FEAS_TOL)
         {
-- 
2.43.0


From 35f4c59935c449bf576428953628af1d0724dadd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 03/26] fix: out-of-bounds read of the row pointers in
 matrix_new_no_extra_space

---
 src/core/Matrix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index 3736b02..d3f22e8 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -107,11 +107,13 @@ Matrix *matrix_new_no_extra_space(const double *Ax, const int *Ai, const int *Ap
     memcpy(A->x, Ax, nnz * sizeof(double));
     memcpy(A->i, Ai, nnz * sizeof(int));
 
-    for (int i = 0; i <= n_rows; ++i)
+    for (size_t i = 0; i < n_rows; ++i)
     {
         A->p[i].start = Ap[i];
         A->p[i].end = Ap[i + 1];
     }
+    A->p[n_rows].start = Ap[n_rows];
+    A->p[n_rows].end = Ap[n_rows];
 
     return A;
 }
-- 
2.43.0


From ccef465c049cdcaad411e5a6524ba798f434b199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 04/26] fix: account for fixed columns and free rows when
 recovering columns set to infinity

---
 src/core/Postsolver.c | 54 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 6e4bc03..5a996fb 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -210,7 +210,12 @@ static void retrieve_fix_col_inf(Solution *sol, const int *indices,
         }
     }
 
-    assert(!IS_ABS_INF(extreme_val));
+    // no bound and no row restricts the column
+    if (IS_ABS_INF(extreme_val))
+    {
+        extreme_val = 0.0;
+    }
+
     sol->x[col] = extreme_val;
     sol->z[col] = 0.0;
 }
@@ -684,17 +689,32 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
                                   const Constraints *constraints, double bound)
 {
     assert(pos_inf == 1 || pos_inf == -1);
-    int i, row;
+    int i, j, row;
     const Matrix *AT = constraints->AT;
     const Matrix *A = constraints->A;
     int *row_sizes = constraints->state->row_sizes;
     double *lhs = constraints->lhs;
     double *rhs = constraints->rhs;
     RowTag *row_tags = constraints->row_tags;
+    const ColTag *col_tags = constraints->col_tags;
+    const Bound *bounds = constraints->bounds;
     double side;
 
-    int *rows = AT->i + AT->p[col].start;
-    int n_rows = AT->p[col].end - constraints->AT->p[col].start;
+    const int *rows = AT->i + AT->p[col].start;
+    int len = AT->p[col].end - AT->p[col].start;
+    int n_rows = 0;
+
+    // rows without a finite side do not restrict the column
+    for (i = 0; i < len; ++i)
+    {
+        if (HAS_TAG(row_tags[rows[i]], R_TAG_LHS_INF) &&
+            HAS_TAG(row_tags[rows[i]], R_TAG_RHS_INF))
+        {
+            continue;
+        }
+
+        n_rows++;
+    }
 
     u16Vec_append(info->type, FIXED_COL_INF);
     iVec_append(info->indices, pos_inf);
@@ -702,20 +722,36 @@ void save_retrieval_fixed_col_inf(PostsolveInfo *info, int col, int pos_inf,
     dVec_append(info->vals, (double) n_rows);
     dVec_append(info->vals, bound);
 
-    for (i = 0; i < n_rows; ++i)
+    for (i = 0; i < len; ++i)
     {
         row = rows[i];
+
+        if (HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
+            HAS_TAG(row_tags[row], R_TAG_RHS_INF))
+        {
+            continue;
+        }
+
+        assert(HAS_TAG(row_tags[row], (R_TAG_LHS_INF | R_TAG_RHS_INF)));
         side = (HAS_TAG(row_tags[row], R_TAG_LHS_INF)) ? rhs[row] : lhs[row];
+
+        // columns that have been fixed to a finite value, but not yet been removed
+        // from the row, are recovered after this column in the postsolve
+        for (j = A->p[row].start; j < A->p[row].end; ++j)
+        {
+            if (HAS_TAG(col_tags[A->i[j]], C_TAG_FIXED) &&
+                !IS_ABS_INF(bounds[A->i[j]].lb))
+            {
+                side -= A->x[j] * bounds[A->i[j]].lb;
+            }
+        }
+
         dVec_append(info->vals, side);
         dVec_append_array(info->vals, A->x + A->p[row].start,
                           (size_t) row_sizes[row]);
         iVec_append(info->indices, row_sizes[row]);
         iVec_append_array(info->indices, A->i + A->p[row].start,
                           (size_t) row_sizes[row]);
-
-        assert(!(HAS_TAG(row_tags[row], R_TAG_LHS_INF) &&
-                 HAS_TAG(row_tags[row], R_TAG_RHS_INF)));
-        assert(HAS_TAG(row_tags[row], (R_TAG_LHS_INF | R_TAG_RHS_INF)));
     }
 
     iVec_append(info->starts, (int) info->indices->len);
-- 
2.43.0


From f85f01ab4a0ff65d4bd63f131bfdde09c091f833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 05/26] fix: keep tightened sides when an equality replaces the
 remaining parallel row

---
 src/explorers/Parallel_rows.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index f29c8b9..b7dcbe2 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -400,6 +400,10 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
     {
         int other_row_idx = bin[i];
         bool is_other_row_eq = HAS_TAG(row_tags[other_row_idx], R_TAG_EQ);
+        double other_row_rhs = rhs[other_row_idx];
+        double other_row_lhs = lhs[other_row_idx];
+        is_rhs_inf_other_row = HAS_TAG(row_tags[other_row_idx], R_TAG_RHS_INF);
+        is_lhs_inf_other_row = HAS_TAG(row_tags[other_row_idx], R_TAG_LHS_INF);
 
         if (!is_remaining_row_eq && is_other_row_eq)
         {
@@ -408,6 +412,12 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
             remaining_row_idx = other_row_idx;
             other_row_idx = temp;
 
+            // the other row carries the tightest sides found so far
+            other_row_rhs = remaining_row_new_rhs;
+            other_row_lhs = remaining_row_new_lhs;
+            is_rhs_inf_other_row = is_rhs_inf_remaining_row;
+            is_lhs_inf_other_row = is_lhs_inf_remaining_row;
+
             is_remaining_row_eq = true;
             is_other_row_eq = false;
             remaining_row_new_rhs = rhs[remaining_row_idx];
@@ -419,10 +429,8 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
 
         other_row_coeff = A->x[A->p[other_row_idx].start];
         ratio = remaining_row_coeff / other_row_coeff;
-        other_row_rhs_scaled = rhs[other_row_idx] * ratio;
-        other_row_lhs_scaled = lhs[other_row_idx] * ratio;
-        is_rhs_inf_other_row = HAS_TAG(row_tags[other_row_idx], R_TAG_RHS_INF);
-        is_lhs_inf_other_row = HAS_TAG(row_tags[other_row_idx], R_TAG_LHS_INF);
+        other_row_rhs_scaled = other_row_rhs * ratio;
+        other_row_lhs_scaled = other_row_lhs * ratio;
 
         // -----------------------------------------------------------------------
         // if both rows are equalities we check that they are consistent
-- 
2.43.0


From 517baf2404a11960e7420cf2708e69c2242379ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 06/26] fix: use the feasibility tolerance when comparing
 parallel equality and inequality rows

---
 src/explorers/Parallel_rows.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index b7dcbe2..90f640b 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -449,12 +449,16 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
         {
             bool infeas_rhs =
                 !is_rhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs > other_row_rhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs < other_row_rhs_scaled));
+                ((ratio > 0 &&
+                  remaining_row_new_rhs >= other_row_rhs_scaled + FEAS_TOL) ||
+                 (ratio < 0 &&
+                  remaining_row_new_rhs <= other_row_rhs_scaled - FEAS_TOL));
             bool infeas_lhs =
                 !is_lhs_inf_other_row &&
-                ((ratio > 0 && remaining_row_new_rhs < other_row_lhs_scaled) ||
-                 (ratio < 0 && remaining_row_new_rhs > other_row_lhs_scaled));
+                ((ratio > 0 &&
+                  remaining_row_new_rhs <= other_row_lhs_scaled - FEAS_TOL) ||
+                 (ratio < 0 &&
+                  remaining_row_new_rhs >= other_row_lhs_scaled + FEAS_TOL));
 
             if (infeas_rhs || infeas_lhs)
             {
-- 
2.43.0


From ec532297abcdc7c3f0eff60a58e4bffc8f82cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 07/26] fix: recover parallel columns with the bounds the
 remaining column had before merging

---
 src/explorers/Parallel_cols.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/explorers/Parallel_cols.c b/src/explorers/Parallel_cols.c
index 717b72e..f3000e2 100644
--- a/src/explorers/Parallel_cols.c
+++ b/src/explorers/Parallel_cols.c
@@ -97,6 +97,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 // ---------------------------------------------------------------------
                 lb_j_old = bounds[j].lb;
                 ub_j_old = bounds[j].ub;
+                ColTag col_tag_j_old = col_tags[j];
                 if (ratio > 0)
                 {
                     // update lb
@@ -162,7 +163,7 @@ static inline PresolveStatus process_single_bin(const Problem *prob, const int *
                 set_col_to_substituted(k, col_tags + k, sub_cols_to_delete);
                 save_retrieval_parallel_col(postsolve_info, ub_j_old, lb_j_old,
                                             bounds[k].lb, bounds[k].ub, ratio, j, k,
-                                            col_tags[j], col_tags[k]);
+                                            col_tag_j_old, col_tags[k]);
             }
             else
             {
-- 
2.43.0


From c24c23351cbc81ecc0aabb263805e5295466155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:25 +0000
Subject: [PATCH 08/26] fix: recover the row dual when a column singleton turns
 an inequality into an equality

---
 src/explorers/StonCols.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index 5f07098..9051d2e 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -373,6 +373,34 @@ static void fix_col_ston(double val, double Aik, RowView *row, ColView *col,
                              &row->i, 1);
 }
 
+/* Helper for replacing an inequality row with an equality row because of column
+   singleton k. A multiplier of the equality row can have either sign. If it is
+   the wrong one, variable k is equal to the bound that is implied by the row, and
+   in the dual postsolve we transfer the multiplier of that bound to the row. */
+static void save_retrieval_ineq_to_eq(const RowView *row, const ColView *col,
+                                      bool is_ub_implied, bool is_lb_inf,
+                                      bool is_ub_inf, PostsolveInfo *postsolve_info)
+{
+    if ((is_ub_implied) ? is_ub_inf : is_lb_inf)
+    {
+        return;
+    }
+
+    if (is_ub_implied)
+    {
+        save_retrieval_bound_change_no_row(postsolve_info, col->k, *col->ub,
+                                           (is_lb_inf) ? -INF : *col->lb, 1);
+    }
+    else
+    {
+        save_retrieval_bound_change_no_row(postsolve_info, col->k, *col->lb,
+                                           (is_ub_inf) ? INF : *col->ub, 0);
+    }
+
+    save_retrieval_bound_change_the_row(postsolve_info, row->i, row->cols, row->vals,
+                                        (size_t) *row->len, 1);
+}
+
 static inline PresolveStatus
 process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
                      bool impl_free_from_above, bool impl_free_from_below,
@@ -498,6 +526,8 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         }
 
         assert(!is_rhs_inf);
+        save_retrieval_ineq_to_eq(row, col, ck < 0, is_lb_inf, is_ub_inf,
+                                  postsolve_info);
         // update lhs = rhs
         *row->lhs = *row->rhs;
         RESET_TAG(*row->tag, R_TAG_EQ);
@@ -524,6 +554,8 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         }
 
         assert(!is_lhs_inf);
+        save_retrieval_ineq_to_eq(row, col, ck < 0, is_lb_inf, is_ub_inf,
+                                  postsolve_info);
         // update rhs = lhs
         *row->rhs = *row->lhs;
         RESET_TAG(*row->tag, R_TAG_EQ);
-- 
2.43.0


From 9d3dc058f1ccfda8ba2ef2af70d2ba5e76cbbca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 09/26] fix: do not read past the end of the row when removing
 a coefficient

---
 src/core/Matrix.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/Matrix.c b/src/core/Matrix.c
index d3f22e8..0308589 100644
--- a/src/core/Matrix.c
+++ b/src/core/Matrix.c
@@ -519,10 +519,11 @@ void remove_coeff(RowView *row, int col)
         if (row->cols[i] == col)
         {
             shift = 1;
+            continue;
         }
 
-        row->vals[i] = row->vals[i + shift];
-        row->cols[i] = row->cols[i + shift];
+        row->vals[i - shift] = row->vals[i];
+        row->cols[i - shift] = row->cols[i];
     }
 
     assert(shift != 0);
-- 
2.43.0


From f665f97dd90b54a59eecdb5e2a90c1bc789fda6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 10/26] fix: stop a presolve phase as soon as infeasibility or
 unboundedness is detected

---
 src/core/Presolver.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index da2ee13..dc133d7 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -435,6 +435,7 @@ static inline PresolveStatus run_trivial_explorers(Problem *prob,
         //   and empty columns (if rows are marked as inactive due to a variable
         //   being set to inf)
         status |= remove_empty_cols(prob);
+        RETURN_IF_UNBNDORINFEAS(status);
         status |= simple_dual_fix(prob);
         RETURN_IF_UNBNDORINFEAS(status);
     }
@@ -471,11 +472,13 @@ static inline PresolveStatus run_fast_explorers(Problem *prob, const Settings *s
     if (stgs->ston_cols)
     {
         status |= remove_ston_cols(prob);
+        RETURN_IF_NOT_UNCHANGED(status);
 
         // after removing singleton columns, there can be new empty columns
         // and singleton rows, but no empty rows
         assert(prob->constraints->state->empty_rows->len == 0);
         status |= run_trivial_explorers(prob, stgs);
+        RETURN_IF_NOT_UNCHANGED(status);
     }
 
     if (stgs->dton_eq)
@@ -512,7 +515,9 @@ run_medium_explorers(Problem *prob, const Settings *stgs, PresolveStats *stats)
 
         // the actual reduction
         status |= check_activities(prob);
+        RETURN_IF_NOT_UNCHANGED(status);
         status |= propagate_primal(prob, stgs->finite_bound_tightening);
+        RETURN_IF_NOT_UNCHANGED(status);
 
         // after dom prop propagation there can be new empty and ston rows
         status |= run_trivial_explorers(prob, stgs);
@@ -534,10 +539,9 @@ run_medium_explorers(Problem *prob, const Settings *stgs, PresolveStats *stats)
         // the actual reduction (after removing parallel rows there can
         // be no new empty or ston rows so no need to run trivial presolvers)
         status |= remove_parallel_rows(prob->constraints);
+        RETURN_IF_NOT_UNCHANGED(status);
         assert(prob->constraints->state->empty_rows->len == 0);
         assert(prob->constraints->state->ston_rows->len == 0);
-        assert(!(status & REDUCED));
-        RETURN_IF_NOT_UNCHANGED(status);
 
         // stats
         stats->nnz_removed_parallel_rows += nnz_before - *nnz;
@@ -555,12 +559,13 @@ run_medium_explorers(Problem *prob, const Settings *stgs, PresolveStats *stats)
         // be no new empty rows or empty cols but might be new stonrows, probably
         // although that's rare but it does happen
         status |= remove_parallel_cols(prob);
+        RETURN_IF_NOT_UNCHANGED(status);
         assert(prob->constraints->state->empty_rows->len == 0);
         assert(prob->constraints->state->empty_cols->len == 0);
         status |= run_trivial_explorers(prob, stgs);
-        assert(prob->constraints->state->ston_rows->len == 0);
         assert(!(status & REDUCED));
         RETURN_IF_NOT_UNCHANGED(status);
+        assert(prob->constraints->state->ston_rows->len == 0);
 
         // stats
         stats->nnz_removed_parallel_cols += nnz_before - *nnz;
-- 
2.43.0


From f50280177c8e404c8c58c459b16a7515e7bc1e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 11/26] fix: detect contradicting sides of parallel inequality
 rows before changing the sides

---
 src/explorers/Parallel_rows.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index 90f640b..d1ae990 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -530,6 +530,14 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
     if (!is_remaining_row_eq)
     {
         assert(!HAS_TAG(row_tags[remaining_row_idx], R_TAG_EQ));
+
+        // the tightest sides may contradict each other
+        if (!is_rhs_inf_remaining_row && !is_lhs_inf_remaining_row &&
+            remaining_row_new_lhs >= remaining_row_new_rhs + FEAS_TOL)
+        {
+            return INFEASIBLE;
+        }
+
         int start = A->p[remaining_row_idx].start;
         int len = A->p[remaining_row_idx].end - start;
         RowTag *row_tag = constraints->row_tags + remaining_row_idx;
@@ -554,7 +562,8 @@ static inline PresolveStatus process_single_bin(const Constraints *constraints,
             }
         }
 
-        if (!is_lhs_inf_remaining_row &&
+        // (the row is already an equality if the new rhs is equal to the lhs)
+        if (!is_lhs_inf_remaining_row && !HAS_TAG(*row_tag, R_TAG_EQ) &&
             remaining_row_new_lhs != lhs[remaining_row_idx])
         {
             assert(!IS_ABS_INF(remaining_row_new_lhs));
-- 
2.43.0


From 905cf5e9d1c4cfe28ffb23a15f07b34bffe79e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 12/26] fix: recompute both activities when a coefficient
 change makes both finite

---
 src/core/Activity.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/Activity.c b/src/core/Activity.c
index 49c7a8f..ec6a12b 100644
--- a/src/core/Activity.c
+++ b/src/core/Activity.c
@@ -704,18 +704,20 @@ Altered_Activity update_activity_coeff_change(Activity *act, double lb, double u
     }
 #endif
 
-    // recompute from scratch if necessary
+    // recompute from scratch if necessary (possibly both activities)
+    Altered_Activity altered = NO_RECOMPUTE;
     if (act->n_inf_min == 0 && n_inf_min_before == 1)
     {
-        return MIN_ALTERED_RECOMPUTE;
+        altered = MIN_ALTERED_RECOMPUTE;
     }
 
     if (act->n_inf_max == 0 && n_inf_max_before == 1)
     {
-        return MAX_ALTERED_RECOMPUTE;
+        altered = (altered == NO_RECOMPUTE) ? MAX_ALTERED_RECOMPUTE
+                                            : (altered | MAX_ALTERED_RECOMPUTE);
     }
 
-    return NO_RECOMPUTE;
+    return altered;
 }
 
 void remove_finite_lb_from_activities(const ConstColView *col, Activity *acts,
-- 
2.43.0


From 67f0e5ad7606a8d1157432a4d4fb064ed4c8af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 13/26] fix: allow one parallel row to provide both sides in
 the dual postsolve assertions

---
 src/core/Postsolver.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 5a996fb..ad5836a 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -422,7 +422,6 @@ void retrieve_lhs_change(Solution *sol, int i, const double *vals, const int *co
                          int len, double new_side, int j, double ratio)
 {
     assert(sol->y[i] != ROW_NOT_RETRIEVED);
-    assert(sol->y[j] == ROW_NOT_RETRIEVED || sol->y[j] == 0.0);
 
     // compute the residual of constraint i
     double residual = -new_side;
@@ -432,11 +431,13 @@ void retrieve_lhs_change(Solution *sol, int i, const double *vals, const int *co
         residual += vals[k] * sol->x[cols[k]];
     }
 
+    // (if row j gave both sides of row i, its other side may have been retrieved)
     if (!IS_ZERO_FEAS_TOL(residual))
     {
         return;
     }
 
+    assert(sol->y[j] == ROW_NOT_RETRIEVED || sol->y[j] == 0.0);
     double cand_val = ratio * sol->y[i];
     if (ratio * cand_val < 0)
     {
@@ -452,7 +453,6 @@ void retrieve_rhs_change(Solution *sol, int i, const double *vals, const int *co
                          int len, double new_side, int j, double ratio)
 {
     assert(sol->y[i] != ROW_NOT_RETRIEVED);
-    assert(sol->y[j] == ROW_NOT_RETRIEVED || sol->y[j] == 0.0);
 
     // compute the residual of constraint i
     double residual = -new_side;
@@ -462,11 +462,13 @@ void retrieve_rhs_change(Solution *sol, int i, const double *vals, const int *co
         residual += vals[k] * sol->x[cols[k]];
     }
 
+    // (if row j gave both sides of row i, its other side may have been retrieved)
     if (!IS_ZERO_FEAS_TOL(residual))
     {
         return;
     }
 
+    assert(sol->y[j] == ROW_NOT_RETRIEVED || sol->y[j] == 0.0);
     double cand_val = ratio * sol->y[i];
     if (ratio * cand_val > 0)
     {
-- 
2.43.0


From d1dbc534b41f090a2fe67502eb34a9636e49f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 14/26] fix: handle allocation and thread creation failures in
 new_presolver

---
 include/data_structures/Vec_macros.h |  1 +
 src/core/Postsolver.c                |  7 +--
 src/core/Presolver.c                 | 76 +++++++++++++++++++---------
 src/core/State.c                     |  4 +-
 src/core/Workspace.c                 | 20 +++++---
 5 files changed, 71 insertions(+), 37 deletions(-)

diff --git a/include/data_structures/Vec_macros.h b/include/data_structures/Vec_macros.h
index f71b6ed..e04ae05 100644
--- a/include/data_structures/Vec_macros.h
+++ b/include/data_structures/Vec_macros.h
@@ -62,6 +62,7 @@
                                                                                     \
     static inline void TYPE_NAME##Vec_free(TYPE_NAME##Vec *vec)                     \
     {                                                                               \
+        RETURN_IF_NULL(vec);                                                        \
         PS_FREE(vec->data);                                                         \
         PS_FREE(vec);                                                               \
     }                                                                               \
diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index ad5836a..e2bcaa2 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -38,6 +38,7 @@
 PostsolveInfo *postsolve_info_new(size_t n_rows, size_t n_cols)
 {
     PostsolveInfo *info = (PostsolveInfo *) ps_malloc(1, sizeof(PostsolveInfo));
+    RETURN_PTR_IF_NULL(info, NULL);
 
     size_t init_size;
 
@@ -55,11 +56,7 @@ PostsolveInfo *postsolve_info_new(size_t n_rows, size_t n_cols)
     info->type = u16Vec_new(init_size);
     if (!info->starts || !info->indices || !info->vals || !info->type)
     {
-        PS_FREE(info->starts);
-        PS_FREE(info->indices);
-        PS_FREE(info->vals);
-        PS_FREE(info->type);
-        PS_FREE(info);
+        postsolve_info_free(info);
         return NULL;
     }
 
diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index dc133d7..4eb936c 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -63,6 +63,7 @@ enum Complexity
 PresolveStats *init_stats(size_t n_rows, size_t n_cols, size_t nnz)
 {
     PresolveStats *stats = (PresolveStats *) ps_calloc(1, sizeof(PresolveStats));
+    RETURN_PTR_IF_NULL(stats, NULL);
     stats->n_rows_original = n_rows;
     stats->n_cols_original = n_cols;
     stats->nnz_original = nnz;
@@ -136,7 +137,7 @@ static void *init_thread_func(void *arg)
         }
     }
 
-    data->locks = new_locks(data->A, data->row_tags);
+    if (data->row_tags) data->locks = new_locks(data->A, data->row_tags);
     data->activities = new_activities(data->A, data->col_tags, data->bounds);
     count_rows(data->A, data->row_sizes);
 
@@ -190,23 +191,45 @@ typedef struct clean_up_scope
 
 void presolver_clean_up(clean_up_scope scope)
 {
-    free_matrix(scope.A);
-    free_matrix(scope.AT);
-    PS_FREE(scope.lhs_copy);
-    PS_FREE(scope.rhs_copy);
-    PS_FREE(scope.c_copy);
+    // the presolver owns everything as soon as its problem exists
+    if (scope.presolver && scope.presolver->prob)
+    {
+        free_presolver(scope.presolver);
+        return;
+    }
+
+    free_presolver(scope.presolver);
+
+    if (scope.constraints)
+    {
+        free_constraints(scope.constraints);
+    }
+    else
+    {
+        free_matrix(scope.A);
+        free_matrix(scope.AT);
+        PS_FREE(scope.lhs_copy);
+        PS_FREE(scope.rhs_copy);
+        PS_FREE(scope.row_tags);
+        PS_FREE(scope.col_tags);
+        PS_FREE(scope.bounds);
+    }
+
+    if (scope.obj)
+    {
+        free_objective(scope.obj);
+    }
+    else
+    {
+        PS_FREE(scope.c_copy);
+    }
+
     PS_FREE(scope.row_sizes);
     PS_FREE(scope.col_sizes);
-    PS_FREE(scope.row_tags);
-    PS_FREE(scope.col_tags);
-    PS_FREE(scope.bounds);
     free_activities(scope.activities);
     free_locks(scope.locks);
     free_work(scope.work);
     free_state(scope.data);
-    free_constraints(scope.constraints);
-    free_objective(scope.obj);
-    free_presolver(scope.presolver);
 }
 
 Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t m,
@@ -274,25 +297,30 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
                                       ubs,  lhs_copy, rhs_copy, bounds,   col_tags,
                                       NULL, NULL,     NULL,     row_sizes};
 
-    ps_thread_create(&thread_id, NULL, init_thread_func, &parallel_data);
+    bool has_thread = ps_thread_create(&thread_id, NULL, init_thread_func,
+                                       &parallel_data) == 0;
 
     // Main thread: Transpose A and count rows
     AT = transpose(A, work->iwork_n_cols);
-    if (!AT)
+    if (AT)
     {
-        ps_thread_join(&thread_id, NULL);
-        goto cleanup;
+        count_rows(AT, col_sizes);
     }
-    count_rows(AT, col_sizes);
 
-    // sync threads
-    ps_thread_join(&thread_id, NULL);
+    // sync threads (do the work here if the thread could not be created)
+    if (has_thread)
+    {
+        ps_thread_join(&thread_id, NULL);
+    }
+    else
+    {
+        init_thread_func(&parallel_data);
+    }
 
     row_tags = parallel_data.row_tags;
-    if (!row_tags) goto cleanup;
     locks = parallel_data.locks;
     activities = parallel_data.activities;
-    if (!locks || !activities) goto cleanup;
+    if (!AT || !row_tags || !locks || !activities) goto cleanup;
 
     // ---------------------------------------------------------------------------
     //  Initialize internal data and constraints
@@ -308,21 +336,23 @@ Presolver *new_presolver(const double *Ax, const int *Ai, const int *Ap, size_t
     // ---------------------------------------------------------------------------
     //             Allocate the actual presolver
     // ---------------------------------------------------------------------------
-    presolver = (Presolver *) ps_malloc(1, sizeof(Presolver));
+    presolver = (Presolver *) ps_calloc(1, sizeof(Presolver));
     obj = objective_new(c_copy);
     if (!presolver || !obj) goto cleanup;
     presolver->stgs = stgs;
     presolver->prob = new_problem(constraints, obj);
+    if (!presolver->prob) goto cleanup;
     presolver->stats = init_stats(A->m, A->n, nnz);
     // presolver->stats->nnz_removed_trivial = nnz - A->nnz; due to clean_small_coeff
     presolver->reduced_prob =
         (PresolvedProblem *) ps_calloc(1, sizeof(PresolvedProblem));
+    if (!presolver->stats || !presolver->reduced_prob) goto cleanup;
     DEBUG(run_debugger(constraints, false));
 
     // ---------------------------------------------------------------------------
     //           Allocate space for returning the solution
     // ---------------------------------------------------------------------------
-    presolver->sol = (Solution *) ps_malloc(1, sizeof(Solution));
+    presolver->sol = (Solution *) ps_calloc(1, sizeof(Solution));
     if (!presolver->sol) goto cleanup;
     presolver->sol->x = (double *) ps_malloc(n_cols, sizeof(double));
     presolver->sol->y = (double *) ps_malloc(n_rows, sizeof(double));
diff --git a/src/core/State.c b/src/core/State.c
index 408cca5..a295026 100644
--- a/src/core/State.c
+++ b/src/core/State.c
@@ -88,8 +88,8 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
     data->postsolve_info = postsolve_info_new(n_rows, n_cols);
 
     if (!data->ston_rows || !data->ston_cols || !data->dton_rows ||
-        !data->empty_cols || !data->empty_rows || !data->fixed_cols_to_delete ||
-        !data->sub_cols_to_delete || !data->rows_to_delete || !data->postsolve_info)
+        !data->empty_cols || !data->empty_rows || !data->updated_activities ||
+        !data->fixed_cols_to_delete || !data->sub_cols_to_delete || !data->rows_to_delete || !data->postsolve_info)
     {
         free_state(data);
         return NULL;
diff --git a/src/core/Workspace.c b/src/core/Workspace.c
index ffd3d46..487c00d 100644
--- a/src/core/Workspace.c
+++ b/src/core/Workspace.c
@@ -25,7 +25,7 @@
 
 Work *new_work(size_t n_rows, size_t n_cols)
 {
-    Work *work = (Work *) ps_malloc(1, sizeof(Work));
+    Work *work = (Work *) ps_calloc(1, sizeof(Work));
     RETURN_PTR_IF_NULL(work, NULL);
 
     work->iwork_n_cols = (int *) ps_calloc(n_cols, sizeof(int));
@@ -35,9 +35,12 @@ Work *new_work(size_t n_rows, size_t n_cols)
     work->iwork2_max_nrows_ncols =
         (int *) ps_calloc(MAX(n_rows, n_cols), sizeof(int));
     work->int_vec = iVec_new(INT_VEC_INITIALIZATION);
-    work->mappings = (Mapping *) ps_malloc(1, sizeof(Mapping));
-    work->mappings->cols = (int *) ps_malloc(n_cols, sizeof(int));
-    work->mappings->rows = (int *) ps_malloc(n_rows, sizeof(int));
+    work->mappings = (Mapping *) ps_calloc(1, sizeof(Mapping));
+    if (work->mappings)
+    {
+        work->mappings->cols = (int *) ps_malloc(n_cols, sizeof(int));
+        work->mappings->rows = (int *) ps_malloc(n_rows, sizeof(int));
+    }
 
     if (!work->iwork_n_cols || !work->iwork_n_rows ||
         !work->iwork1_max_nrows_ncols || !work->iwork2_max_nrows_ncols ||
@@ -63,8 +66,11 @@ void free_work(Work *work)
     PS_FREE(work->iwork1_max_nrows_ncols);
     PS_FREE(work->iwork2_max_nrows_ncols);
     iVec_free(work->int_vec);
-    PS_FREE(work->mappings->cols);
-    PS_FREE(work->mappings->rows);
-    PS_FREE(work->mappings);
+    if (work->mappings)
+    {
+        PS_FREE(work->mappings->cols);
+        PS_FREE(work->mappings->rows);
+        PS_FREE(work->mappings);
+    }
     PS_FREE(work);
 }
-- 
2.43.0


From 58a027fa412e4597c2d2583953a64ae4f20b7795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 15/26] fix: keep the reduced costs of parallel columns
 parallel in the dual postsolve

---
 src/core/Postsolver.c | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index e2bcaa2..25e4c4a 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -271,22 +271,9 @@ static void retrieve_parallel_col(Solution *sol, const int *indices,
     sol->x[j] = xj_val;
     sol->x[k] = xk_val;
 
-    // dual postsolve
-    bool is_xj_at_bound =
-        (!HAS_TAG(cTag_j, C_TAG_LB_INF) && IS_EQUAL_FEAS_TOL(xj_val, lb_j)) ||
-        (!HAS_TAG(cTag_j, C_TAG_UB_INF) && IS_EQUAL_FEAS_TOL(xj_val, ub_j));
-    bool is_xk_at_bound =
-        (!HAS_TAG(cTag_k, C_TAG_LB_INF) && IS_EQUAL_FEAS_TOL(xk_val, lb_k)) ||
-        (!HAS_TAG(cTag_k, C_TAG_UB_INF) && IS_EQUAL_FEAS_TOL(xk_val, ub_k));
-
-    if (is_xj_at_bound && is_xk_at_bound)
-    {
-        sol->z[k] = ratio * sol->z[j];
-    }
-    else
-    {
-        sol->z[k] = 0.0;
-    }
+    // dual postsolve: the columns are parallel, so their reduced costs are so too.
+    // (If z[j] is nonzero, both columns are at a bound within the tolerances.)
+    sol->z[k] = ratio * sol->z[j];
 
 #ifndef NDEBUG
     SET_ZERO_IF_SMALL_DUAL_POSTSOLVE(sol->z[j]);
-- 
2.43.0


From 87a121f4a40de3a2308092c24f7bb38544ffdfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:36 +0000
Subject: [PATCH 16/26] fix: retrieve bound changes in the dual postsolve
 according to the sign of the reduced cost

---
 src/core/Postsolver.c | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 25e4c4a..0824d9c 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -337,8 +337,7 @@ void retrieve_added_rows(Solution *sol, int i, const int *rows, const double *va
 }
 
 void retrieve_bound_change(Solution *sol, int i, int j, const int *cols,
-                           const double *vals, int len, double implied_bound,
-                           double original_other_bound,
+                           const double *vals, int len,
                            int is_original_other_bound_lower_bound)
 {
     int k, ii;
@@ -347,22 +346,13 @@ void retrieve_bound_change(Solution *sol, int i, int j, const int *cols,
     assert(sol->y[i] != ROW_NOT_RETRIEVED);
     assert(sol->z[j] != COL_NOT_RETRIEVED);
 
-    // if the variable is equal to one of its original bounds and
-    // has the right sign on its multiplier we do nothing
-    if (IS_EQUAL_FEAS_TOL(sol->x[j], original_other_bound))
+    // If the multiplier has the sign that belongs to the other bound, the implied
+    // bound is not needed. Otherwise the multiplier belongs to the implied bound.
+    // (x[j] is not compared with the implied bound, since bounds from primal
+    // propagation have a margin, and the margins of several bounds can add up to
+    // more than the feasibility tolerance.)
+    if (is_original_other_bound_lower_bound ? sol->z[j] >= 0 : sol->z[j] <= 0)
     {
-        if ((is_original_other_bound_lower_bound && sol->z[j] >= 0) ||
-            (!is_original_other_bound_lower_bound && sol->z[j] <= 0))
-        {
-            return;
-        }
-    }
-
-    // if the implied bound is not active we do nothing
-    if (!IS_EQUAL_FEAS_TOL(sol->x[j], implied_bound))
-    {
-        // sol->y[i] does not always have to be zero since we possibly got the
-        // bound from a doubleton equality row assert(sol->y[i] == 0.0);
         return;
     }
 
@@ -593,8 +583,7 @@ void postsolver_run(const PostsolveInfo *info, Solution *sol, const double *x,
                 {
                     bound_changes_processed += 1;
                     retrieve_bound_change(sol, row, indices[start], row_cols,
-                                          row_vals, len, vals[start],
-                                          vals[start + 1], indices[start + 1]);
+                                          row_vals, len, indices[start + 1]);
                 }
 
                 j -= 1;
-- 
2.43.0


From b6086ba43fb9cd09c343ac421e8640cc8f52fc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:33 +0000
Subject: [PATCH 17/26] fix: do not print the time limit message when verbose
 is off

---
 src/core/Presolver.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 4eb936c..08a7601 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -390,7 +390,7 @@ cleanup:
 static inline bool update_termination(size_t nnz_after_cycle,
                                       size_t nnz_before_cycle, Complexity complexity,
                                       PresolveStatus status, double max_time,
-                                      Timer outer_timer)
+                                      Timer outer_timer, bool verbose)
 {
     if (HAS_STATUS(status, UNBNDORINFEAS))
     {
@@ -407,7 +407,10 @@ static inline bool update_termination(size_t nnz_after_cycle,
 
     if (GET_ELAPSED_SECONDS(outer_timer) >= max_time)
     {
-        printf("Maximum time limit of %.2f seconds reached.\n", max_time);
+        if (verbose)
+        {
+            printf("Maximum time limit of %.2f seconds reached.\n", max_time);
+        }
         return true;
     }
 
@@ -751,7 +754,7 @@ PresolveStatus run_presolver(Presolver *presolver)
 
         terminate =
             update_termination(nnz_after_cycle, nnz_before_cycle, curr_complexity,
-                               status, stgs->max_time, outer_timer);
+                               status, stgs->max_time, outer_timer, stgs->verbose);
 
         if (curr_complexity == MEDIUM)
         {
-- 
2.43.0


From dcb00cbc71eb9df84a00198f748d6078a190f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:43 +0000
Subject: [PATCH 18/26] fix: do not print the infeasibility message when
 verbose is off

---
 src/core/Presolver.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/Presolver.c b/src/core/Presolver.c
index 08a7601..a0f84c8 100644
--- a/src/core/Presolver.c
+++ b/src/core/Presolver.c
@@ -769,7 +769,11 @@ PresolveStatus run_presolver(Presolver *presolver)
     if (status != UNCHANGED)
     {
         // problem detected to be infeasible or unbounded
-        print_infeas_or_unbnd_message(status);
+        if (stgs->verbose)
+        {
+            print_infeas_or_unbnd_message(status);
+        }
+
         return status;
     }
 
-- 
2.43.0


From 26bb704bc90165f5da802329f9f12ebcac5d9f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 19/26] hook: PSLP_VERIF_SMALL makes spare space and initial
 vectors small

---
 include/core/glbopts.h |  7 ++++++-
 src/core/Postsolver.c  |  4 ++++
 src/core/State.c       | 21 +++++++++++++++++++++
 src/core/Workspace.c   |  4 ++++
 4 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/include/core/glbopts.h b/include/core/glbopts.h
index 182fa44..cc54f7c 100644
--- a/include/core/glbopts.h
+++ b/include/core/glbopts.h
@@ -25,7 +25,12 @@
 #define IS_NEG_INF(x) (isinf(x) && (x) < 0)
 #define IS_ABS_INF(x) (IS_POS_INF(x) || IS_NEG_INF(x))
 
-#ifdef TESTING
+#ifdef PSLP_VERIF_SMALL
+// verification: little spare space and small vectors, so that small problems need
+// shifts of rows and growing vectors
+#define EXTRA_ROW_SPACE 1
+#define EXTRA_MEMORY_RATIO 1
+#elif defined(TESTING)
 #define EXTRA_ROW_SPACE 2
 #define EXTRA_MEMORY_RATIO 1
 #else
diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index 0824d9c..bea598a 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -30,7 +30,11 @@
 #include <PSLP_warnings.h>
 #include <assert.h>
 
+#ifdef PSLP_VERIF_SMALL
+#define INIT_FRAC_POSTSOLVE 0.0
+#else
 #define INIT_FRAC_POSTSOLVE 0.3
+#endif
 #define COL_NOT_RETRIEVED INF
 #define ROW_NOT_RETRIEVED INF
 #define DUMMY_VALUE -382749
diff --git a/src/core/State.c b/src/core/State.c
index a295026..6ad30cd 100644
--- a/src/core/State.c
+++ b/src/core/State.c
@@ -44,6 +44,27 @@
 #define MIN_INIT_UPDATED_ACTS 1000
 #define INIT_UPDATED_ACTS_FRACTION 0.01
 
+#ifdef PSLP_VERIF_SMALL
+#undef MIN_INIT_STON_ROWS
+#define MIN_INIT_STON_ROWS 1
+#undef MIN_INIT_STON_COLS
+#define MIN_INIT_STON_COLS 1
+#undef MIN_INIT_EMPTY_ROWS
+#define MIN_INIT_EMPTY_ROWS 1
+#undef MIN_INIT_EMPTY_COLS
+#define MIN_INIT_EMPTY_COLS 1
+#undef MIN_INIT_FIXED_COLS
+#define MIN_INIT_FIXED_COLS 1
+#undef MIN_INIT_SUB_COLS
+#define MIN_INIT_SUB_COLS 1
+#undef MIN_INIT_ROWS_TO_DELETE
+#define MIN_INIT_ROWS_TO_DELETE 1
+#undef MIN_INIT_DTON_ROWS
+#define MIN_INIT_DTON_ROWS 1
+#undef MIN_INIT_UPDATED_ACTS
+#define MIN_INIT_UPDATED_ACTS 1
+#endif
+
 State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
                  size_t n_cols, Activity *activities, Work *work,
                  const RowTag *row_tags)
diff --git a/src/core/Workspace.c b/src/core/Workspace.c
index 487c00d..64ed423 100644
--- a/src/core/Workspace.c
+++ b/src/core/Workspace.c
@@ -21,7 +21,11 @@
 #include "Numerics.h"
 #include <stdio.h>
 
+#ifdef PSLP_VERIF_SMALL
+#define INT_VEC_INITIALIZATION 1
+#else
 #define INT_VEC_INITIALIZATION 25
+#endif
 
 Work *new_work(size_t n_rows, size_t n_cols)
 {
-- 
2.43.0


From 9588027efea7d84349ca8a2a37d47a7ae68fafc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 20/26] fix: new_presolver exits the process if a vector of the
 state cannot grow

---
 src/core/State.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/core/State.c b/src/core/State.c
index 6ad30cd..bd1d953 100644
--- a/src/core/State.c
+++ b/src/core/State.c
@@ -94,6 +94,29 @@ State *new_state(int *row_sizes, int *col_sizes, Lock *col_locks, size_t n_rows,
     /* enable conversion compiler warnings */
     PSLP_DIAG_POP();
 
+    // the vectors must not grow below, since growing cannot report a failure
+    size_t n_ston_rows = 0, n_ston_cols = 0, n_dton_rows = 0, n_empty_rows = 0;
+    size_t n_empty_cols = 0, n_updated_act = 0;
+    for (size_t i = 0; i < n_rows; ++i)
+    {
+        n_empty_rows += (row_sizes[i] == 0);
+        n_ston_rows += (row_sizes[i] == 1);
+        n_dton_rows += (row_sizes[i] == 2 && HAS_TAG(row_tags[i], R_TAG_EQ));
+        n_updated_act +=
+            (activities[i].n_inf_min == 0 || activities[i].n_inf_max == 0);
+    }
+    for (size_t i = 0; i < n_cols; ++i)
+    {
+        n_empty_cols += (col_sizes[i] == 0);
+        n_ston_cols += (col_sizes[i] == 1);
+    }
+    len_ston_rows = MAX(len_ston_rows, n_ston_rows);
+    len_ston_cols = MAX(len_ston_cols, n_ston_cols);
+    len_dton_rows = MAX(len_dton_rows, n_dton_rows);
+    len_empty_rows = MAX(len_empty_rows, n_empty_rows);
+    len_empty_cols = MAX(len_empty_cols, n_empty_cols);
+    len_updated_act = MAX(len_updated_act, n_updated_act);
+
     // --------------------------------------------------------------------------
     //                    allocate a bunch of vectors
     // --------------------------------------------------------------------------
-- 
2.43.0


From b681ef618c98d71f4a55e4b18741622f961e3530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:09 +0000
Subject: [PATCH 21/26] fix: substitute a free column singleton of a row
 without sides by a finite value

---
 src/explorers/StonCols.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/explorers/StonCols.c b/src/explorers/StonCols.c
index 9051d2e..c0db5a2 100644
--- a/src/explorers/StonCols.c
+++ b/src/explorers/StonCols.c
@@ -494,7 +494,9 @@ process_colston_ineq(RowView *row, ColView *col, Objective *obj, double Aik,
         else
         {
             assert(ck == 0);
+            // (a row without sides is satisfied by any value)
             new_side = (is_lhs_inf) ? *row->rhs : *row->lhs;
+            new_side = IS_ABS_INF(new_side) ? 0.0 : new_side;
         }
 
         // substitute variable in objective and mark it as substituted
-- 
2.43.0


From 209d0c544e7028d8141339505fea9a7b4528098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 22/26] fix: transferred bounds of a doubleton equation may be
 huge

---
 src/explorers/DtonsEq.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index e51a947..75f5197 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -201,7 +201,7 @@ static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
         {
             double new_ub_cand = (rhs - aik * lb_subst) / aij;
             RETURN_IF_INFEASIBLE(update_ub(constraints, stay, new_ub_cand,
-                                           i HUGE_BOUND_IS_NOT_OK));
+                                           i HUGE_BOUND_IS_OK));
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
@@ -213,7 +213,7 @@ static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
         {
             double new_lb_cand = (rhs - aik * ub_subst) / aij;
             RETURN_IF_INFEASIBLE(update_lb(constraints, stay, new_lb_cand,
-                                           i HUGE_BOUND_IS_NOT_OK));
+                                           i HUGE_BOUND_IS_OK));
         }
     }
     else
@@ -222,7 +222,7 @@ static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
         {
             double new_lb_cand = (rhs - aik * lb_subst) / aij;
             RETURN_IF_INFEASIBLE(update_lb(constraints, stay, new_lb_cand,
-                                           i HUGE_BOUND_IS_NOT_OK));
+                                           i HUGE_BOUND_IS_OK));
 
             if (HAS_TAG(constraints->col_tags[stay], C_TAG_FIXED))
             {
@@ -234,7 +234,7 @@ static inline PresolveStatus modify_bounds(Constraints *constraints, int i,
         {
             double new_ub_cand = (rhs - aik * ub_subst) / aij;
             RETURN_IF_INFEASIBLE(update_ub(constraints, stay, new_ub_cand,
-                                           i HUGE_BOUND_IS_NOT_OK));
+                                           i HUGE_BOUND_IS_OK));
         }
     }
 
-- 
2.43.0


From b3f48c3a5852664df5b8cf60940b2df930946764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:55 +0000
Subject: [PATCH 23/26] fix: a bound equal to the old one is not a tightening
 when the bound is huge

---
 src/core/CoreTransformation.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/CoreTransformation.c b/src/core/CoreTransformation.c
index 8129a2d..ed0dbb7 100644
--- a/src/core/CoreTransformation.c
+++ b/src/core/CoreTransformation.c
@@ -157,8 +157,8 @@ PresolveStatus update_lb(Constraints *constraints, int col, double new_lb,
 
     bool is_lb_inf = HAS_TAG(*col_tag, C_TAG_LB_INF);
 
-    // update the lower bound if it is tighter
-    if (is_lb_inf || new_lb >= lb + FEAS_TOL)
+    // update the lower bound if it is tighter (FEAS_TOL is lost when lb is huge)
+    if (is_lb_inf || (new_lb > lb && new_lb >= lb + FEAS_TOL))
     {
         const Matrix *AT = constraints->AT;
         const double *vals = AT->x + AT->p[col].start;
@@ -210,8 +210,8 @@ PresolveStatus update_ub(Constraints *constraints, int col, double new_ub,
 
     bool is_ub_inf = HAS_TAG(*col_tag, C_TAG_UB_INF);
 
-    // update the upper bound if it is tighter
-    if (is_ub_inf || new_ub <= ub - FEAS_TOL)
+    // update the upper bound if it is tighter (FEAS_TOL is lost when ub is huge)
+    if (is_ub_inf || (new_ub < ub && new_ub <= ub - FEAS_TOL))
     {
         const Matrix *AT = constraints->AT;
         const double *vals = AT->x + AT->p[col].start;
-- 
2.43.0


From 57494fd27d7402c7d2a37de38c87d15605b53f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 24/26] fix: presolvers in different threads shared the
 variables of the sort callbacks

---
 include/core/pslp_thread.h         | 7 +++++++
 src/explorers/Parallel_rows.c      | 8 +++++---
 src/explorers/Primal_propagation.c | 6 ++++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/core/pslp_thread.h b/include/core/pslp_thread.h
index e0ac373..ebd89ce 100644
--- a/include/core/pslp_thread.h
+++ b/include/core/pslp_thread.h
@@ -57,4 +57,11 @@ static inline int ps_thread_join(ps_thread_t *thread, void **retval)
 
 #endif /* Windows / POSIX */
 
+// storage of variables every thread has its own copy of
+#if defined(_MSC_VER)
+#define PS_THREAD_LOCAL __declspec(thread)
+#else
+#define PS_THREAD_LOCAL __thread
+#endif
+
 #endif /* PSLP_THREAD_H */
diff --git a/src/explorers/Parallel_rows.c b/src/explorers/Parallel_rows.c
index d1ae990..19163e7 100644
--- a/src/explorers/Parallel_rows.c
+++ b/src/explorers/Parallel_rows.c
@@ -28,14 +28,16 @@
 #include "Workspace.h"
 #include "iVec.h"
 #include "limits.h" // for INT_MAX
+#include "pslp_thread.h"
 #include "utils.h"
 #include <PSLP_warnings.h>
 #include <math.h> // For round()
 #include <stdint.h>
 
-// global variables needed for qsort
-static int *global_sparsity_IDs;
-static int *global_coeff_hashes;
+// global variables needed for qsort (one per thread, since presolvers may run in
+// different threads)
+static PS_THREAD_LOCAL int *global_sparsity_IDs;
+static PS_THREAD_LOCAL int *global_coeff_hashes;
 
 // djb2 hash function
 static inline uint32_t hash_int_array(const int *arr, int size)
diff --git a/src/explorers/Primal_propagation.c b/src/explorers/Primal_propagation.c
index a77fb97..23b6474 100644
--- a/src/explorers/Primal_propagation.c
+++ b/src/explorers/Primal_propagation.c
@@ -28,6 +28,7 @@
 #include "SimpleReductions.h"
 #include "State.h"
 #include "Workspace.h"
+#include "pslp_thread.h"
 #include "utils.h"
 
 static PresolveStatus update_lb_within_propagation(double new_lb, double *lb,
@@ -782,8 +783,9 @@ PresolveStatus propagate_primal(Problem *prob, bool finite_bound_tightening)
     return UNCHANGED;
 }
 
-// Static variable to hold col_sizes (for qsort)
-static const int *global_col_sizes;
+// Static variable to hold col_sizes (for qsort; one per thread, since presolvers may
+// run in different threads)
+static PS_THREAD_LOCAL const int *global_col_sizes;
 
 int compare_col_len(const void *a, const void *b)
 {
-- 
2.43.0


From 36921bf2a0358a22af92f23d6699fa1253d64c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:21 +0000
Subject: [PATCH 25/26] fix: keep the multiplier when a nearly fixed row got
 both sides from one parallel row

---
 src/core/Postsolver.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/Postsolver.c b/src/core/Postsolver.c
index bea598a..2ff0185 100644
--- a/src/core/Postsolver.c
+++ b/src/core/Postsolver.c
@@ -415,7 +415,13 @@ void retrieve_lhs_change(Solution *sol, int i, const double *vals, const int *co
         return;
     }
 
-    assert(sol->y[j] == ROW_NOT_RETRIEVED || sol->y[j] == 0.0);
+    // (if its other side has been retrieved, row j already has the multiplier)
+    if (sol->y[j] != ROW_NOT_RETRIEVED && sol->y[j] != 0.0)
+    {
+        assert(sol->y[i] == 0.0);
+        return;
+    }
+
     double cand_val = ratio * sol->y[i];
     if (ratio * cand_val < 0)
     {
@@ -446,7 +452,13 @@ void retrieve_rhs_change(Solution *sol, int i, const double *vals, const int *co
         return;
     }
 
-    assert(sol->y[j] == ROW_NOT_RETRIEVED || sol->y[j] == 0.0);
+    // (if its other side has been retrieved, row j already has the multiplier)
+    if (sol->y[j] != ROW_NOT_RETRIEVED && sol->y[j] != 0.0)
+    {
+        assert(sol->y[i] == 0.0);
+        return;
+    }
+
     double cand_val = ratio * sol->y[i];
     if (ratio * cand_val > 0)
     {
-- 
2.43.0


From 535ef76859ced4a73218e35daed8faec7af92d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:13 +0000
Subject: [PATCH 26/26] fix: a coefficient that nearly cancels in a doubleton
 substitution is not an internal error

update_row_A_dton handles such coefficients (small ones are removed, the
others are kept and reported by the debug warning), but an assertion with a
literal 1e-6 stopped the debug build for coefficients that are parallel up
to 1e-6.
---
 src/explorers/DtonsEq.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/explorers/DtonsEq.c b/src/explorers/DtonsEq.c
index 75f5197..01dd82f 100644
--- a/src/explorers/DtonsEq.c
+++ b/src/explorers/DtonsEq.c
@@ -299,11 +299,6 @@ static inline
     save_retrieval_added_row(postsolve_info, i, q, -A->x[subst_idx] / aik);
 
 #ifndef NDEBUG
-    if (ABS(A->x[subst_idx]) > 1e-6)
-    {
-        assert(ABS(new_val) > 1e-6 || new_val == 0.0);
-    }
-
     if (ABS(new_val) < 1e-6 && new_val != 0.0)
     {
         // when we eliminate row 32833 on momentum and substitute col x20
-- 
2.43.0

