// C16 domain and scattering operations against brute force, C17 integer
// vectors and matrices.
#include "problem.h"
#include <isl/mat.h>
#include <isl/val.h>
#include <isl/constraint.h>
#include <cloog/int.h>
extern "C" {
#include <cloog/matrix.h>
}

static Z mpz_z(mpz_t v)
{
	if (mpz_sizeinbase(v, 2) > 120) throw Overflow("constant");
	Z r = 0;
	mpz_t a;
	mpz_init(a);
	mpz_abs(a, v);
	for (int k = 3; k >= 0; k--) {
		mpz_t t;
		mpz_init(t);
		mpz_tdiv_q_2exp(t, a, 32 * k);
		mpz_tdiv_r_2exp(t, t, 32);
		r = r * ((Z)1 << 32) + (Z)mpz_get_ui(t);
		mpz_clear(t);
	}
	bool neg = mpz_sgn(v) < 0;
	mpz_clear(a);
	return neg ? -r : r;
}

// The constraints of a set of the library in the harness's own representation.
static isl_stat get_bset(isl_basic_set *b, void *u)
{
	Dom *d = (Dom *)u;
	BSet o;
	int npar = (int)isl_basic_set_dim(b, isl_dim_param);
	o.nloc = (int)isl_basic_set_dim(b, isl_dim_div);
	for (int e = 0; e < 2; e++) {
		isl_mat *m = e ? isl_basic_set_equalities_matrix(b, isl_dim_set, isl_dim_div, isl_dim_param, isl_dim_cst) : isl_basic_set_inequalities_matrix(b, isl_dim_set, isl_dim_div, isl_dim_param, isl_dim_cst);
		for (int i = 0; i < (int)isl_mat_rows(m); i++) {
			Row r;
			r.eq = e;
			for (int j = 0; j < (int)isl_mat_cols(m); j++) {
				isl_val *v = isl_mat_get_element_val(m, i, j);
				char *t = isl_val_to_str(v);
				Z z;
				if (!zparse(t, z)) z = 0;
				free(t);
				isl_val_free(v);
				r.c.push_back(z);
			}
			o.rows.push_back(r);
		}
		isl_mat_free(m);
	}
	(void)npar;
	d->bs.push_back(o);
	isl_basic_set_free(b);
	return isl_stat_ok;
}
static Dom to_dom(isl_set *s)
{
	Dom d;
	d.n = (int)isl_set_dim(s, isl_dim_set);
	isl_set *c = isl_set_compute_divs(isl_set_copy(s));
	isl_set_foreach_basic_set(c, get_bset, &d);
	isl_set_free(c);
	return d;
}
static Dom to_dom(CloogDomain *d) { return to_dom(isl_set_from_cloog_domain(d)); }

struct Window {
	std::vector<Vec> par;
	int lo, hi, n;
	bool next(Vec &x) const
	{
		for (size_t i = 0; i < x.size(); i++) { if (x[i] < hi) { x[i] += 1; return true; } x[i] = lo; }
		return false;
	}
	void each(int dims, const std::function<void(const Vec &, const Vec &)> &f) const
	{
		for (auto &p : par) {
			Vec x(dims, lo);
			do f(x, p); while (next(x));
		}
	}
};

static Dom gen_set(Src &s, int n, int npar, GenCfg cfg, bool &bounded)
{
	// one statement of a generated problem with the wanted dimensions
	extern Dom gen_domain(Src &, int, int, const GenCfg &, bool &);
	return gen_domain(s, n, npar, cfg, bounded);
}

static void algebra_case(Src &s, Result &r)
{
	GenCfg cfg;
	cfg.allow_unbounded = s.chance(1, 3);
	cfg.locmode = s.weighted({ 60, 30, 10 });
	int n = s.weighted({ 0, 40, 40, 20 });
	if (n == 0) n = 1;
	int npar = s.weighted({ 30, 50, 20 });
	bool bounded = true;
	Dom A = gen_set(s, n, npar, cfg, bounded), B;
	extern Dom mutate_domain(Src &, Dom, int);
	if (s.chance(1, 3)) B = mutate_domain(s, A, npar);
	else B = gen_set(s, n, npar, cfg, bounded);
	if (s.chance(1, 4)) {
		// a union of many parts
		int more = s.range(1, 4);
		for (int i = 0; i < more; i++) {
			Dom C = gen_set(s, n, npar, cfg, bounded);
			for (auto &q : C.bs) if (A.bs.size() < 7) A.bs.push_back(q);
		}
		r.labels.insert("many-parts");
	}
	Window w;
	w.n = n;
	w.lo = n == 1 ? -12 : n == 2 ? -7 : -4;
	w.hi = n == 1 ? 15 : n == 2 ? 9 : 6;
	for (int i = 0; i < (npar ? 3 : 1); i++) {
		Vec v;
		for (int k = 0; k < npar; k++) v.push_back(s.range(-3, 7));
		w.par.push_back(v);
	}
	Lib *lib = new Lib();
	CloogDomain *u0 = cloog_domain_universe(lib->state, 0);
	isl_ctx *ctx = isl_set_get_ctx(isl_set_from_cloog_domain(u0));
	isl_set *as = dom_to_isl(ctx, A, npar), *bs = dom_to_isl(ctx, B, npar);
	CloogDomain *a = cloog_domain_from_isl_set(isl_set_copy(as)), *b = cloog_domain_from_isl_set(isl_set_copy(bs));
	auto str = [&](isl_set *x) { char *t = isl_set_to_str(x); std::string o = t; free(t); return o; };
	auto dstr = [&](CloogDomain *d) { return str(isl_set_from_cloog_domain(d)); };
	std::string show = "A = " + str(as) + "\nB = " + str(bs) + "\n";
	r.show(show);
	r.hash = hash_str(show);
	// membership tables
	auto key = [&](const Vec &x, const Vec &p) { return dom_contains(A, x, p); };
	(void)key;
	struct Cell { Vec x, p; bool a, b; };
	std::vector<Cell> cells;
	long na = 0, nb = 0;
	w.each(n, [&](const Vec &x, const Vec &p) {
		Cell c;
		c.x = x; c.p = p;
		c.a = dom_contains(A, x, p);
		c.b = dom_contains(B, x, p);
		na += c.a; nb += c.b;
		cells.push_back(c);
	});
	auto compare = [&](const char *op, CloogDomain *res, const std::function<int(const Cell &)> &want) {
		Dom d = to_dom(res);
		if (d.n != n) throw Violation(op, strf("%s has dimension %d instead of %d", op, d.n, n));
		if (cloog_domain_parameter_dimension(res) != npar) throw Violation(op, strf("%s has a different number of parameters", op));
		for (auto &c : cells) {
			int x = want(c);
			if (x < 0) continue;
			if (dom_contains(d, c.x, c.p) != (bool)x)
				throw Violation(op, strf("%s %s %s for parameters %s: ", op, x ? "lacks" : "contains", vecstr(c.x).c_str(), vecstr(c.p).c_str()) + dstr(res));
		}
		r.units += (long)cells.size();
	};
	auto same = [&](const char *what) {
		if (!isl_set_is_equal(isl_set_from_cloog_domain(a), as) || !isl_set_is_equal(isl_set_from_cloog_domain(b), bs)) throw Violation("argument", strf("%s changed its argument", what));
	};
	int ops = s.range(4, 10);
	for (int q = 0; q < ops; q++) {
		int op = s.pick(25);
		r.labels.insert(strf("op-%d", op));
		r.show(show + strf("operation %d\n", op));
		switch (op) {
		case 0: { CloogDomain *x = cloog_domain_union(cloog_domain_copy(a), cloog_domain_copy(b)); compare("union", x, [](const Cell &c) { return c.a || c.b; }); cloog_domain_free(x); same("union"); break; }
		case 1: { CloogDomain *x = cloog_domain_intersection(a, b); compare("intersection", x, [](const Cell &c) { return c.a && c.b; }); cloog_domain_free(x); same("intersection"); break; }
		case 2: { CloogDomain *x = cloog_domain_difference(a, b); compare("difference", x, [](const Cell &c) { return c.a && !c.b; }); cloog_domain_free(x); same("difference"); break; }
		case 3: {
			CloogDomain *x = cloog_domain_copy(a), *e = cloog_domain_empty(a);
			compare("copy", x, [](const Cell &c) { return c.a; });
			compare("empty", e, [](const Cell &) { return 0; });
			if (!cloog_domain_isempty(e) || !cloog_domain_never_integral(e)) throw Violation("isempty", "the empty domain is not empty");
			cloog_domain_free(x);
			cloog_domain_free(e);
			break;
		}
		case 4: {
			bool ie = cloog_domain_isempty(a), ni = cloog_domain_never_integral(a);
			if (na && ie) throw Violation("isempty", "a domain with integer points is empty");
			if (na && ni) throw Violation("never_integral", "a domain with integer points is never integral");
			if (!na && !ni) {
				// has to have a point somewhere
				isl_point *p = isl_set_sample_point(isl_set_copy(as));
				bool v = isl_point_is_void(p);
				isl_point_free(p);
				if (v) throw Violation("never_integral", "a domain without integer points is not never_integral");
			}
			break;
		}
		case 5: {
			if (B.bs.size() != 1) break;
			CloogDomain *x = cloog_domain_simplify(a, b);
			compare("simplify", x, [](const Cell &c) { return c.b ? (int)c.a : -1; });
			cloog_domain_free(x);
			same("simplify");
			break;
		}
		case 6: case 7: {
			if (na == 0) break;
			const char *nm = op == 6 ? "convex" : "simple_convex";
			CloogDomain *x = op == 6 ? cloog_domain_convex(a) : cloog_domain_simple_convex(a);
			compare(nm, x, [](const Cell &c) { return c.a ? 1 : -1; });
			if (!cloog_domain_isconvex(x) || isl_set_n_basic_set(isl_set_from_cloog_domain(x)) != 1) throw Violation(nm, "the convex hull is a union");
			// A constraint that every part of the union has, up to its constant,
			// holds on the rational hull with the loosest of the constants.
			Dom hull = to_dom(x);
			bool locals = false;
			for (auto &bb : A.bs) locals |= bb.nloc > 0;
			if (op == 6 && !locals) for (auto &row : A.bs[0].rows) for (int sg = 1; sg >= (row.eq ? -1 : 1); sg -= 2) {
				Row w = row;
				for (auto &z : w.c) z *= sg;
				w.eq = false;
				bool all = true;
				for (size_t q = 1; q < A.bs.size() && all; q++) {
					bool found = false;
					Z best = 0;
					for (auto &r2 : A.bs[q].rows) for (int sg2 = 1; sg2 >= (r2.eq ? -1 : 1); sg2 -= 2) {
						bool same_dir = true;
						for (size_t k = 0; k + 1 < w.c.size(); k++) same_dir &= r2.c[k] * sg2 == w.c[k];
						if (!same_dir) continue;
						Z k2 = r2.c.back() * sg2;
						if (!found || k2 < best) best = k2;
						found = true;
					}
					if (!found) all = false;
					else if (best > w.c.back()) w.c.back() = best;
				}
				if (!all) continue;
				Dom hs;
				hs.n = n;
				hs.bs.push_back(BSet());
				hs.bs[0].rows.push_back(w);
				isl_set *hd = dom_to_isl(ctx, hs, npar);
				bool ok = isl_set_is_subset(isl_set_from_cloog_domain(x), hd);
				std::string why = ok ? "" : str(hd);
				isl_set_free(hd);
				if (!ok) throw Violation(nm, "larger than the hull: " + dstr(x) + " is not within " + why);
			}
			// The simple hull of a bounded union is bounded too.
			if (op == 7 && !locals && bounded && npar == 0) for (auto &c : cells) {
				if (!c.a) continue;
				for (int k = 0; k < 2 * n; k++) {
					Vec y = c.x;
					y[k / 2] += (k & 1 ? -1 : 1) * (Z)720720;
					if (dom_contains(hull, y, c.p)) throw Violation(nm, "the hull of a bounded union is unbounded: " + dstr(x));
				}
			}
			cloog_domain_free(x);
			same(nm);
			break;
		}
		case 8: {
			int level = s.range(0, n);
			CloogDomain *x = cloog_domain_project(a, level);
			if (cloog_domain_dimension(x) != level) throw Violation("project", strf("dimension %d instead of %d", cloog_domain_dimension(x), level));
			Dom d = to_dom(x);
			std::set<std::pair<Vec, Vec>> proj;
			for (auto &c : cells) if (c.a) proj.insert({ Vec(c.x.begin(), c.x.begin() + level), c.p });
			for (auto &z : proj) if (!dom_contains(d, z.first, z.second)) throw Violation("project", "the projection lacks " + vecstr(z.first) + ": " + dstr(x));
			// Without existential variables and with unit coefficients of the
			// projected dimensions, the projection is exact.
			bool exact = true;
			for (auto &bb : A.bs) {
				exact &= bb.nloc == 0;
				for (auto &row : bb.rows) for (int k = level; k < n; k++) exact &= row.c[k] <= 1 && row.c[k] >= -1;
			}
			if (exact && bounded) {
				isl_set *e = isl_set_project_out(isl_set_copy(as), isl_dim_set, level, n - level);
				bool ok = isl_set_is_subset(isl_set_from_cloog_domain(x), e);
				isl_set_free(e);
				// several dimensions with unit coefficients may produce non-unit ones
				if (!ok && n - level == 1) throw Violation("project", "larger than the projection: " + dstr(x));
			}
			cloog_domain_free(x);
			same("project");
			break;
		}
		case 9: {
			int m = s.range(0, 2);
			CloogDomain *x = cloog_domain_extend(a, n + m);
			if (cloog_domain_dimension(x) != n + m) throw Violation("extend", "wrong dimension");
			Dom d = to_dom(x);
			int k = 0;
			for (auto &c : cells) {
				if (++k % 3) continue;
				Vec y = c.x;
				for (int i = 0; i < m; i++) y.push_back((int)((k * 7 + i * 5) % 11) - 5);
				if (dom_contains(d, y, c.p) != c.a) throw Violation("extend", "extension differs at " + vecstr(y) + ": " + dstr(x));
			}
			cloog_domain_free(x);
			same("extend");
			break;
		}
		case 10: {
			CloogDomain *y = s.chance(1, 3) ? cloog_domain_copy(a) : cloog_domain_copy(b);
			bool isb = !isl_set_is_equal(isl_set_from_cloog_domain(y), as);
			if (cloog_domain_lazy_equal(a, y) && isb) throw Violation("lazy_equal", "different domains are reported as equal");
			if (cloog_domain_lazy_disjoint(a, y)) for (auto &c : cells) if (c.a && (isb ? c.b : true)) throw Violation("lazy_disjoint", "overlapping domains are reported as disjoint");
			if (cloog_domain_lazy_disjoint(a, b)) for (auto &c : cells) if (c.a && c.b) throw Violation("lazy_disjoint", "overlapping domains are reported as disjoint");
			cloog_domain_free(y);
			break;
		}
		case 11: {
			int k = s.pick(n);
			cloog_int_t v;
			cloog_int_init(v);
			int ok = cloog_domain_lazy_isconstant(a, k, &v);
			int ok2 = cloog_domain_lazy_isconstant(a, k, nullptr);
			Z z = ok ? mpz_z(v) : 0;
			cloog_int_clear(v);
			if (ok != ok2) throw Violation("lazy_isconstant", "the answer depends on value being NULL");
			if (ok) for (auto &c : cells) if (c.a && c.x[k] != z) throw Violation("lazy_isconstant", strf("dimension %d is not always %s", k, zstr(z).c_str()));
			if (ok) r.labels.insert("constant");
			break;
		}
		case 12: {
			CloogDomain *x = cloog_domain_copy(a), *rest = nullptr;
			if (isl_set_n_basic_set(as) == 0) { cloog_domain_free(x); break; }
			x = cloog_domain_cut_first(x, &rest);
			if (isl_set_n_basic_set(isl_set_from_cloog_domain(x)) != 1) throw Violation("cut_first", "the first part is not convex");
			Dom d1 = to_dom(x), d2 = to_dom(rest);
			for (auto &c : cells) if ((dom_contains(d1, c.x, c.p) || dom_contains(d2, c.x, c.p)) != c.a) throw Violation("cut_first", "the parts are not the domain at " + vecstr(c.x) + ": " + dstr(x) + " and " + dstr(rest));
			if (isl_set_n_basic_set(isl_set_from_cloog_domain(rest)) >= isl_set_n_basic_set(as)) throw Violation("cut_first", "nothing was cut off");
			cloog_domain_free(x);
			cloog_domain_free(rest);
			break;
		}
		case 13: { CloogDomain *x = cloog_domain_simplify_union(cloog_domain_copy(a)); compare("simplify_union", x, [](const Cell &c) { return c.a; }); cloog_domain_free(x); break; }
		case 14: {
			if (na == 0) break;
			int level = s.range(1, n);
			cloog_int_t st, of;
			cloog_int_init(st);
			cloog_int_init(of);
			cloog_domain_stride(a, level, &st, &of);
			Z S = mpz_z(st), O = mpz_z(of);
			cloog_int_clear(st);
			cloog_int_clear(of);
			if (S != 1) r.labels.insert("stride");
			for (auto &c : cells) if (c.a && (S == 0 ? c.x[level - 1] != -O && c.x[level - 1] != O : (c.x[level - 1] + O) % S != 0))
				throw Violation("stride", strf("stride %s, offset %s at level %d, but the domain contains ", zstr(S).c_str(), zstr(O).c_str(), level) + vecstr(c.x));
			break;
		}
		case 15: {
			int level = s.range(1, n);
			bool otl = cloog_domain_is_otl(a, level) == 1;
			std::map<std::pair<Vec, Vec>, Z> seen;
			bool multi = false;
			for (auto &c : cells) {
				if (!c.a) continue;
				Vec o = c.x;
				o.erase(o.begin() + level - 1);
				auto it = seen.insert({ { o, c.p }, c.x[level - 1] });
				if (!it.second && it.first->second != c.x[level - 1]) multi = true;
			}
			if (otl && multi) throw Violation("is_otl", strf("several values at level %d for the same other dimensions", level));
			if (otl) r.labels.insert("otl");
			break;
		}
		case 16: {
			if (na == 0 || isl_set_n_basic_set(as) != 1) break;
			int level = s.range(1, n);
			cloog_int_t k;
			cloog_int_init(k);
			cloog_int_set_si(k, -1);
			CloogConstraint *lb = nullptr;
			int ok = cloog_domain_can_unroll(a, level, &k, &lb);
			Z N = ok ? mpz_z(k) : 0;
			if (!ok && lb) throw Violation("can_unroll", "a lower bound although the domain cannot be unrolled");
			if (ok && N <= 40) {
				r.labels.insert("unroll");
				std::vector<Dom> parts;
				for (int i = 0; i < (int)N; i++) {
					cloog_int_t o;
					cloog_int_init(o);
					cloog_int_set_si(o, i);
					CloogDomain *x = cloog_domain_fixed_offset(cloog_domain_copy(a), level, lb, o);
					cloog_int_clear(o);
					parts.push_back(to_dom(x));
					cloog_domain_free(x);
				}
				for (auto &c : cells) {
					int cnt = 0;
					for (auto &d : parts) cnt += dom_contains(d, c.x, c.p);
					if (cnt != (int)c.a) throw Violation("unroll", strf("%s is in %d of the %d unrolled parts of level %d", vecstr(c.x).c_str(), cnt, (int)N, level));
				}
			}
			cloog_int_clear(k);
			if (lb) cloog_constraint_release(lb);
			same("can_unroll");
			break;
		}
		case 17: case 18: case 19: {
			// scatterings over A
			Prob p;
			p.npar = npar;
			p.nscat = 0;
			GenCfg c2 = cfg;
			c2.allow_multi = true;
			c2.maxscat = 3;
			Stmt t;
			t.dom = A;
			p.st.push_back(t);
			if (s.chance(1, 2)) { t.dom = A; p.st.push_back(t); }
			extern void gen_scat(Src &, Prob &, const GenCfg &);
			gen_scat(s, p, c2);
			isl_map *m = scat_to_isl(ctx, p, p.st[0]);
			char *ms = isl_map_to_str(m);
			r.show(show + strf("operation %d, scattering %s\n", op, ms));
			free(ms);
			CloogScattering *sc = cloog_scattering_from_isl_map(isl_map_copy(m));
			if (cloog_scattering_dimension(sc, a) != p.nscat) throw Violation("scattering", "wrong dimension");
			std::vector<std::pair<const Cell *, std::vector<Vec>>> dt;
			int k = 0;
			for (auto &c : cells) {
				if (!c.a || ++k > 60) continue;
				dt.push_back({ &c, dates(p, p.st[0], c.x, c.p, 200) });
			}
			CloogDomain *x = cloog_domain_scatter(cloog_domain_copy(a), sc);
			if (cloog_domain_dimension(x) != n + p.nscat) throw Violation("scatter", "wrong dimension");
			Dom d = to_dom(x);
			bool single = true;
			for (auto &q2 : dt) {
				single &= q2.second.size() <= 1;
				if (q2.second.size() > 50) continue;
				std::set<Vec> ds(q2.second.begin(), q2.second.end());
				auto chk = [&](Vec y, bool in) {
					Vec z = y;
					z.insert(z.end(), q2.first->x.begin(), q2.first->x.end());
					if (dom_contains(d, z, q2.first->p) != in) throw Violation("scatter", strf("the scattered domain %s %s: ", in ? "lacks" : "contains", vecstr(z).c_str()) + dstr(x));
				};
				for (auto &y : ds) {
					chk(y, true);
					Vec y2 = y;
					if (p.nscat) { y2[s.pick(p.nscat)] += s.sgn(2); chk(y2, ds.count(y2)); }
				}
				r.units += (long)ds.size();
			}
			if (!single && cloog_scattering_fully_specified(sc, a)) throw Violation("fully_specified", "an instance has several dates");
			for (int e = 0; e < p.nscat; e++) {
				cloog_int_t v;
				cloog_int_init(v);
				int ok = cloog_scattering_lazy_isscalar(sc, e, &v);
				Z z = ok ? mpz_z(v) : 0;
				cloog_int_clear(v);
				if (ok != cloog_scattering_lazy_isscalar(sc, e, nullptr)) throw Violation("lazy_isscalar", "the answer depends on value being NULL");
				if (ok) for (auto &q2 : dt) for (auto &y : q2.second) if (y[e] != z) throw Violation("lazy_isscalar", strf("dimension %d is %s, not %s", e, zstr(y[e]).c_str(), zstr(z).c_str()));
				// a row c_e = constant has to be recognised: scalar dimensions are erased
				CloogScattering *er = cloog_scattering_erase_dimension(sc, e);
				if (cloog_scattering_dimension(er, a) != p.nscat - 1) throw Violation("erase_dimension", "wrong dimension");
				CloogDomain *ex = cloog_domain_scatter(cloog_domain_copy(a), er);
				Dom de = to_dom(ex);
				int cc = 0;
				for (auto &q2 : dt) for (auto &y : q2.second) {
					if (++cc > 60) break;
					Vec z2 = y;
					z2.erase(z2.begin() + e);
					z2.insert(z2.end(), q2.first->x.begin(), q2.first->x.end());
					if (!dom_contains(de, z2, q2.first->p)) throw Violation("erase_dimension", "lacks " + vecstr(z2) + ": " + dstr(ex));
					if (ok) {
						// nothing but the erased dimension is lost
						Vec z3 = z2;
						if (p.nscat > 1) {
							int pos = s.pick(p.nscat - 1);
							z3[pos] += s.chance(1, 2) ? 1 : -1;
							Vec y3(z3.begin(), z3.begin() + p.nscat - 1);
							y3.insert(y3.begin() + e, z);
							bool in = std::count(q2.second.begin(), q2.second.end(), y3) > 0;
							if (dom_contains(de, z3, q2.first->p) != in) throw Violation("erase_dimension", strf("%s %s: ", in ? "lacks" : "contains", vecstr(z3).c_str()) + dstr(ex));
						}
					}
				}
				cloog_domain_free(ex);
				cloog_scattering_free(er);
			}
			if (p.st.size() == 2) {
				CloogScattering *s2 = cloog_scattering_from_isl_map(scat_to_isl(ctx, p, p.st[1]));
				CloogScatteringList l2 = { s2, nullptr }, l1 = { sc, &l2 };
				int blk = cloog_scattering_lazy_block(sc, s2, &l1, p.nscat);
				int sm = cloog_scattering_list_lazy_same(&l1);
				k = 0;
				for (auto &q2 : dt) {
					auto dd = dates(p, p.st[1], q2.first->x, q2.first->p, 200);
					std::set<Vec> d1(q2.second.begin(), q2.second.end()), d2(dd.begin(), dd.end());
					if (sm && d1 != d2) throw Violation("lazy_same", "different scatterings are reported as the same");
					if (blk) {
						if (d1.size() && d2.size() && (d1.size() > 1 || d2.size() > 1)) throw Violation("lazy_block", "an instance has several dates");
						if (d1.size() && d2.size()) {
							Vec u = *d1.begin(), v = *d2.begin();
							for (int e = 0; e < p.nscat; e++) {
								Z df = v[e] - u[e];
								if (df != 0 && !(e == p.nscat - 1 && df == 1)) throw Violation("lazy_block", strf("dates %s and %s of one instance", vecstr(u).c_str(), vecstr(v).c_str()));
							}
						}
					}
				}
				if (blk) r.labels.insert("block");
				cloog_scattering_free(s2);
			}
			cloog_domain_free(x);
			cloog_scattering_free(sc);
			isl_map_free(m);
			same("scatter");
			break;
		}
		case 20: {
			int dim = s.range(0, 3), lo = s.range(-4, 2), hi = s.range(-4, 5);
			cloog_int_t l, h;
			cloog_int_init(l);
			cloog_int_init(h);
			cloog_int_set_si(l, lo);
			cloog_int_set_si(h, hi);
			CloogDomain *x = cloog_domain_cube(lib->state, dim, l, h);
			struct cloog_vec *vl = cloog_vec_alloc(dim), *vh = cloog_vec_alloc(dim);
			Vec bl, bh;
			for (int i = 0; i < dim; i++) {
				bl.push_back(s.range(-4, 2));
				bh.push_back(s.range(-4, 5));
				cloog_int_set_si(vl->p[i], (int)bl[i]);
				cloog_int_set_si(vh->p[i], (int)bh[i]);
			}
			CloogDomain *y = cloog_domain_from_bounds(lib->state, vl, vh), *z = cloog_domain_universe(lib->state, dim);
			if (cloog_domain_dimension(x) != dim || cloog_domain_dimension(y) != dim || cloog_domain_dimension(z) != dim) throw Violation("cube", "wrong dimension");
			if (cloog_domain_parameter_dimension(x) || cloog_domain_parameter_dimension(y) || cloog_domain_parameter_dimension(z)) throw Violation("cube", "parameters");
			Dom dx = to_dom(x), dy = to_dom(y), dz = to_dom(z);
			Window w2;
			w2.par.push_back({});
			w2.lo = -6;
			w2.hi = 6;
			w2.each(dim, [&](const Vec &q2, const Vec &) {
				bool c = true, e = true;
				for (int i = 0; i < dim; i++) { c &= q2[i] >= lo && q2[i] <= hi; e &= q2[i] >= bl[i] && q2[i] <= bh[i]; }
				if (dom_contains(dx, q2, {}) != c) throw Violation("cube", strf("[%d,%d]^%d differs at ", lo, hi, dim) + vecstr(q2) + ": " + dstr(x));
				if (dom_contains(dy, q2, {}) != e) throw Violation("from_bounds", "differs at " + vecstr(q2) + ": " + dstr(y));
				if (!dom_contains(dz, q2, {})) throw Violation("universe", "differs at " + vecstr(q2) + ": " + dstr(z));
			});
			cloog_vec_free(vl);
			cloog_vec_free(vh);
			cloog_int_clear(l);
			cloog_int_clear(h);
			cloog_domain_free(x);
			cloog_domain_free(y);
			cloog_domain_free(z);
			break;
		}
		case 21: {
			int level = s.range(1, n);
			CloogDomain *x = cloog_domain_bound_splitter(a, level);
			// a union of sets that covers everything without overlap
			isl_set *xs = isl_set_from_cloog_domain(x);
			Dom d = to_dom(x);
			for (auto &c : cells) {
				int cnt = 0;
				for (auto &bb : d.bs) { Dom e; e.n = n; e.bs.push_back(bb); cnt += dom_contains(e, c.x, c.p); }
				if (c.a && cnt == 0) throw Violation("bound_splitter", "the parts lack " + vecstr(c.x) + ": " + str(xs));
			}
			cloog_domain_free(x);
			same("bound_splitter");
			break;
		}
		case 22: {
			int level = s.range(1, n);
			int f = cloog_domain_follows(a, b, level);
			bool gt = false, eq = false;
			std::map<std::pair<Vec, Vec>, std::pair<Z, Z>> ra;
			std::map<std::pair<Vec, Vec>, std::set<Z>> va;
			for (auto &c : cells) if (c.a) va[{ Vec(c.x.begin(), c.x.begin() + level - 1), c.p }].insert(c.x[level - 1]);
			for (auto &c : cells) if (c.b) {
				auto it = va.find({ Vec(c.x.begin(), c.x.begin() + level - 1), c.p });
				if (it == va.end()) continue;
				if (*it->second.rbegin() > c.x[level - 1]) gt = true;
				if (it->second.count(c.x[level - 1])) eq = true;
			}
			if (gt && f != 1) throw Violation("follows", strf("%d at level %d although A has a greater value", f, level));
			if (eq && f < 0) throw Violation("follows", strf("%d at level %d although A and B have an equal value", f, level));
			break;
		}
		case 23: {
			// topological sort of disjoint convex pieces that are ordered at the level
			int level = s.range(1, n);
			std::vector<CloogDomain *> ds;
			std::vector<Dom> dd;
			auto add = [&](isl_set *st) {
				isl_set *dj = isl_set_make_disjoint(isl_set_copy(st));
				isl_basic_set_list *l = isl_set_get_basic_set_list(dj);
				for (int i = 0; i < (int)isl_basic_set_list_n_basic_set(l) && ds.size() < 6; i++) {
					isl_set *one = isl_set_from_basic_set(isl_basic_set_list_get_basic_set(l, i));
					if (isl_set_n_basic_set(one) != 1) { isl_set_free(one); continue; }
					ds.push_back(cloog_domain_from_isl_set(one));
					dd.push_back(to_dom(one));
				}
				isl_basic_set_list_free(l);
				isl_set_free(dj);
			};
			isl_set *df = isl_set_subtract(isl_set_copy(bs), isl_set_copy(as));
			add(as);
			add(df);
			isl_set_free(df);
			int N = (int)ds.size();
			// the relation observed in the window; pairs with both orders are not sortable
			std::vector<std::vector<int>> rel(N, std::vector<int>(N, 0));
			bool sortable = true, known = true;
			for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
				if (i == j) continue;
				int f = cloog_domain_follows(ds[i], ds[j], level), g = cloog_domain_follows(ds[j], ds[i], level);
				if (f == 1 && g == 1) sortable = false;
				rel[i][j] = f == 1;
			}
			(void)known;
			// acyclic?
			if (sortable) {
				auto t = rel;
				for (int k = 0; k < N; k++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) t[i][j] |= t[i][k] && t[k][j];
				for (int i = 0; i < N; i++) sortable &= !t[i][i];
			}
			if (sortable && N > 1) {
				std::vector<int> perm(N, 0);
				cloog_domain_sort(ds.data(), N, level, perm.data());
				std::vector<int> pos(N, -1);
				for (int i = 0; i < N; i++) {
					if (perm[i] < 1 || perm[i] > N || pos[perm[i] - 1] >= 0) throw Violation("sort", "not a permutation");
					pos[perm[i] - 1] = i;
				}
				for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i != j && pos[i] < pos[j]) {
					// no point of an earlier piece may be greater at this level
					std::map<std::pair<Vec, Vec>, Z> mx;
					for (auto &c : cells) if (dom_contains(dd[i], c.x, c.p)) {
						auto k = std::make_pair(Vec(c.x.begin(), c.x.begin() + level - 1), c.p);
						auto it = mx.insert({ k, c.x[level - 1] }).first;
						it->second = std::max(it->second, c.x[level - 1]);
					}
					for (auto &c : cells) if (dom_contains(dd[j], c.x, c.p)) {
						auto it = mx.find(std::make_pair(Vec(c.x.begin(), c.x.begin() + level - 1), c.p));
						if (it != mx.end() && it->second > c.x[level - 1]) throw Violation("sort", strf("piece %d is put before piece %d at level %d: ", i, j, level) + dstr(ds[i]) + " and " + dstr(ds[j]));
					}
				}
				r.labels.insert("sorted");
			}
			for (auto *x : ds) cloog_domain_free(x);
			break;
		}
		case 24: {
			int level = s.range(1, n);
			int bd = cloog_domain_is_bounded(a, level);
			if (bounded && na && !bd) throw Violation("is_bounded", "a bounded domain is unbounded");
			// With all other dimensions fixed, a bounded dimension has no points
			// beyond the reach of the small constants of the constraints.
			// (The library's answer ignores strides, so only without existentials.)
			bool loc24 = false;
			for (auto &bb : A.bs) loc24 |= bb.nloc > 0;
			if (bd && !loc24) for (auto &c : cells) {
				if (!c.a) continue;
				for (int sg = -1; sg <= 1; sg += 2) {
					Vec y = c.x;
					y[level - 1] += sg * (Z)720720;
					if (dom_contains(A, y, c.p)) throw Violation("is_bounded", "an unbounded dimension is bounded");
				}
			}
			// isconvex
			if (A.bs.size() == 1 && !cloog_domain_isconvex(a)) throw Violation("isconvex", "a convex domain is not convex");
			break;
		}
		}
	}
	cloog_domain_free(u0);
	cloog_domain_free(a);
	cloog_domain_free(b);
	isl_set_free(as);
	isl_set_free(bs);
	if (lib->state->domain_allocated != lib->state->domain_freed) throw Violation("counters", "domains allocated and freed differ");
	delete lib;
	if (na < 2) r.st = ST_TRIVIAL;
}
static RegProp c16({ "C16", "one case = 4 to 10 operations on a pair of random domains (and scatterings), results compared point by point with brute force inside a window; non-trivial = distinct pair where the first domain has at least 2 points in the window",
	algebra_case, 20, false, 25000, 600000 });
