// Self check of the set library underneath CLooG.  libisl is not part of the
// code under test; a few of its operations return a wrong set on rare inputs.
// Every call of these operations made by CLooG goes through a wrapper (linked
// with --wrap) that, when switched on, compares the result with the definition
// of the operation.  A case that fails while libisl gave a wrong answer is set
// aside (and counted) as inconclusive.  The wrappers never change a result.
#include "core.h"
#include <isl/ctx.h>
#include <isl/set.h>
#include <isl/map.h>
#include <isl/val.h>
#include <isl/aff.h>

int g_islcheck;
char *g_isl_lied;        // shared buffer: description of the first wrong result

static void lie(const char *what)
{
	if (g_isl_lied && !g_isl_lied[0]) snprintf(g_isl_lied, 200, "%s", what);
}
static bool subset(isl_set *a, isl_set *b) { return isl_set_is_subset(a, b) != isl_bool_false; }
static void expect_eq(const char *w, isl_set *a, isl_set *b)
{
	if (!subset(a, b) || !subset(b, a)) lie(w);
}
static bool on()
{
	static bool busy = false;
	(void)busy;
	return g_islcheck > 0;
}
struct Off { Off() { g_islcheck = -g_islcheck; } ~Off() { g_islcheck = -g_islcheck; } };

extern "C" {
isl_set *__real_isl_set_coalesce(isl_set *);
isl_set *__wrap_isl_set_coalesce(isl_set *s)
{
	if (!on()) return __real_isl_set_coalesce(s);
	isl_set *c = isl_set_copy(s), *r = __real_isl_set_coalesce(s);
	Off o;
	expect_eq("isl_set_coalesce", c, r);
	isl_set_free(c);
	return r;
}
isl_set *__real_isl_set_compute_divs(isl_set *);
isl_set *__wrap_isl_set_compute_divs(isl_set *s)
{
	if (!on()) return __real_isl_set_compute_divs(s);
	isl_set *c = isl_set_copy(s), *r = __real_isl_set_compute_divs(s);
	Off o;
	expect_eq("isl_set_compute_divs", c, r);
	isl_set_free(c);
	return r;
}
isl_set *__real_isl_set_detect_equalities(isl_set *);
isl_set *__wrap_isl_set_detect_equalities(isl_set *s)
{
	if (!on()) return __real_isl_set_detect_equalities(s);
	isl_set *c = isl_set_copy(s), *r = __real_isl_set_detect_equalities(s);
	Off o;
	expect_eq("isl_set_detect_equalities", c, r);
	isl_set_free(c);
	return r;
}
isl_set *__real_isl_set_remove_divs_involving_dims(isl_set *, enum isl_dim_type, unsigned, unsigned);
isl_set *__wrap_isl_set_remove_divs_involving_dims(isl_set *s, enum isl_dim_type t, unsigned f, unsigned n)
{
	if (!on()) return __real_isl_set_remove_divs_involving_dims(s, t, f, n);
	isl_set *c = isl_set_copy(s), *r = __real_isl_set_remove_divs_involving_dims(s, t, f, n);
	Off o;
	if (!subset(c, r)) lie("isl_set_remove_divs_involving_dims");
	isl_set_free(c);
	return r;
}
isl_set *__real_isl_set_gist(isl_set *, isl_set *);
isl_set *__wrap_isl_set_gist(isl_set *s, isl_set *ctx)
{
	if (!on()) return __real_isl_set_gist(s, ctx);
	isl_set *c = isl_set_copy(s), *x = isl_set_copy(ctx), *r = __real_isl_set_gist(s, ctx);
	Off o;
	isl_set *a = isl_set_intersect(c, isl_set_copy(x)), *b = isl_set_intersect(isl_set_copy(r), x);
	expect_eq("isl_set_gist", a, b);
	isl_set_free(a);
	isl_set_free(b);
	return r;
}
isl_basic_set *__real_isl_basic_set_gist(isl_basic_set *, isl_basic_set *);
isl_basic_set *__wrap_isl_basic_set_gist(isl_basic_set *s, isl_basic_set *ctx)
{
	if (!on()) return __real_isl_basic_set_gist(s, ctx);
	isl_set *c = isl_set_from_basic_set(isl_basic_set_copy(s)), *x = isl_set_from_basic_set(isl_basic_set_copy(ctx));
	isl_basic_set *r = __real_isl_basic_set_gist(s, ctx);
	Off o;
	isl_set *a = isl_set_intersect(c, isl_set_copy(x)), *b = isl_set_intersect(isl_set_from_basic_set(isl_basic_set_copy(r)), x);
	expect_eq("isl_basic_set_gist", a, b);
	isl_set_free(a);
	isl_set_free(b);
	return r;
}
isl_set *__real_isl_set_subtract(isl_set *, isl_set *);
isl_set *__wrap_isl_set_subtract(isl_set *s, isl_set *t)
{
	if (!on()) return __real_isl_set_subtract(s, t);
	isl_set *a = isl_set_copy(s), *b = isl_set_copy(t), *r = __real_isl_set_subtract(s, t);
	Off o;
	isl_set *i = isl_set_intersect(isl_set_copy(r), isl_set_copy(b));
	if (isl_set_is_empty(i) == isl_bool_false) lie("isl_set_subtract");
	if (!subset(r, a)) lie("isl_set_subtract");
	isl_set *u = isl_set_union(isl_set_copy(r), b);
	if (!subset(a, u)) lie("isl_set_subtract");
	isl_set_free(i);
	isl_set_free(u);
	isl_set_free(a);
	return r;
}
#define HULL(fn) \
isl_basic_set *__real_##fn(isl_set *); \
isl_basic_set *__wrap_##fn(isl_set *s) \
{ \
	if (!on()) return __real_##fn(s); \
	isl_set *c = isl_set_copy(s); \
	isl_basic_set *r = __real_##fn(s); \
	Off o; \
	isl_set *h = isl_set_from_basic_set(isl_basic_set_copy(r)); \
	if (!subset(c, h)) lie(#fn); \
	isl_set_free(h); \
	isl_set_free(c); \
	return r; \
}
HULL(isl_set_convex_hull)
HULL(isl_set_simple_hull)
HULL(isl_set_affine_hull)
isl_basic_set *__real_isl_basic_set_remove_redundancies(isl_basic_set *);
isl_basic_set *__wrap_isl_basic_set_remove_redundancies(isl_basic_set *s)
{
	if (!on()) return __real_isl_basic_set_remove_redundancies(s);
	isl_set *c = isl_set_from_basic_set(isl_basic_set_copy(s));
	isl_basic_set *r = __real_isl_basic_set_remove_redundancies(s);
	Off o;
	isl_set *h = isl_set_from_basic_set(isl_basic_set_copy(r));
	expect_eq("isl_basic_set_remove_redundancies", c, h);
	isl_set_free(h);
	isl_set_free(c);
	return r;
}
isl_stat __real_isl_set_dim_residue_class_val(isl_set *, int, isl_val **, isl_val **);
isl_stat __wrap_isl_set_dim_residue_class_val(isl_set *s, int pos, isl_val **m, isl_val **r)
{
	isl_stat st = __real_isl_set_dim_residue_class_val(s, pos, m, r);
	if (!on() || st != isl_stat_ok) return st;
	Off o;
	// { x : m | x_pos - r }
	isl_local_space *ls = isl_local_space_from_space(isl_set_get_space(s));
	isl_aff *a = isl_aff_var_on_domain(ls, isl_dim_set, pos);
	a = isl_aff_add_constant_val(a, isl_val_neg(isl_val_copy(*r)));
	if (isl_val_is_pos(*m)) {
		a = isl_aff_mod_val(a, isl_val_copy(*m));
		isl_set *z = isl_set_from_basic_set(isl_aff_zero_basic_set(a));
		if (!subset(s, z)) lie("isl_set_dim_residue_class_val");
		isl_set_free(z);
	} else
		isl_aff_free(a);
	return st;
}
}
