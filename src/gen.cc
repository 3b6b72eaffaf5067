// Generators of structured problems.
#include "problem.h"

static Row mkrow(bool eq, int cols) { Row r; r.eq = eq; r.c.assign(cols, 0); return r; }

// columns: n dims, L locals, P params, 1
struct Shape { int n, L, P; int cols() const { return n + L + P + 1; } int loc(int i) const { return n + i; } int par(int i) const { return n + L + i; } int cst() const { return n + L + P; } };

// Add a random small affine expression over the dims < upto and parameters,
// times `sign`, to row r.
static void add_affine(Src &s, Row &r, const Shape &sh, int upto, int sign, int style)
{
	// style 0: constant; 1: parameter + constant; 2: outer + constant; 3: mixed
	if ((style == 2 || style == 3) && upto > 0) {
		int k = s.pick(upto);
		r.c[k] += sign * (s.chance(1, 4) ? s.sgn(2) : 1);
		if (style == 3 && upto > 1 && s.chance(1, 2)) r.c[s.pick(upto)] += sign * s.sgn(2);
	}
	if ((style == 1 || style == 3) && sh.P > 0) {
		r.c[sh.par(s.pick(sh.P))] += sign * (s.chance(1, 5) ? s.sgn(2) : 1);
		if (s.chance(1, 6)) r.c[sh.par(s.pick(sh.P))] += sign * s.sgn(1);
	}
}

static void gen_dim(Src &s, BSet &b, Shape sh, int k, const GenCfg &cfg, bool &bounded)
{
	// rows are created without locals; locals are appended as needed by the caller
	auto bound = [&](int style, int sign, int coef, int cst, int outer_style) {
		// sign > 0: coef*x >= expr + cst; sign < 0: coef*x <= expr + cst
		(void)style;
		Row r = mkrow(false, sh.cols());
		r.c[k] = sign * coef;
		add_affine(s, r, sh, k, -sign, outer_style);
		r.c[sh.cst()] += -sign * cst;
		b.rows.push_back(r);
	};
	int kind = s.weighted({ 22, 18, 14, 10, 8, 9, 6, 5, 3 });
	if (cfg.allow_unbounded && s.chance(1, 6)) kind = 9;
	int lo = s.sgn(4), len;
	switch (kind) {
	case 0:   // constant box
		len = s.range(0, 7);
		bound(0, 1, 1, lo, 0);
		bound(0, -1, 1, lo + len, 0);
		break;
	case 1:   // constant lower, parametric upper (or the reverse)
		if (s.chance(1, 4)) { bound(0, 1, 1, lo - 4, 1); bound(0, -1, 1, s.range(2, 8), 0); }
		else { bound(0, 1, 1, lo, 0); bound(0, -1, 1, s.sgn(2), 1); }
		break;
	case 2:   // triangular
		if (s.chance(1, 2)) { bound(0, 1, 1, s.sgn(2), 2); bound(0, -1, 1, s.sgn(3), sh.P ? 1 : 0); if (!sh.P) b.rows.back().c[sh.cst()] += 6; }
		else { bound(0, 1, 1, lo, 0); bound(0, -1, 1, s.sgn(3), 2); }
		break;
	case 3:   // skewed band
		bound(0, 1, 1, s.sgn(3), 3);
		{ Row r = b.rows.back(); for (auto &c : r.c) c = -c; r.c[sh.cst()] += s.range(0, 5); b.rows.push_back(r); }
		break;
	case 4: { // equality
		Row r = mkrow(true, sh.cols());
		r.c[k] = 1;
		add_affine(s, r, sh, k, -1, s.range(0, 3));
		r.c[sh.cst()] -= s.sgn(4);
		b.rows.push_back(r);
		break;
	}
	case 5: { // non-unit coefficients
		bound(0, 1, s.range(1, 4), s.sgn(5), s.range(0, 3));
		bound(0, -1, s.range(1, 4), s.range(-2, 16), s.range(0, 3));
		if (s.chance(1, 2)) { bound(0, 1, 1, -8, 0); bound(0, -1, 1, 9, 0); }
		break;
	}
	case 6: { // several bounds: min / max
		int nl = s.range(1, 3), nu = s.range(1, 3);
		for (int i = 0; i < nl; i++) bound(0, 1, s.chance(1, 5) ? 2 : 1, s.sgn(4), s.range(0, 3));
		for (int i = 0; i < nu; i++) bound(0, -1, s.chance(1, 5) ? 2 : 1, s.range(-2, 8), s.range(0, 3));
		break;
	}
	case 7: { // scaled equality: a*x = affine
		Row r = mkrow(true, sh.cols());
		r.c[k] = s.range(2, 4);
		add_affine(s, r, sh, k, -1, s.range(1, 3));
		r.c[sh.cst()] -= s.sgn(4);
		b.rows.push_back(r);
		break;
	}
	case 8: { // stride written as an equality with an outer iterator: x = a*outer + c
		Row r = mkrow(true, sh.cols());
		r.c[k] = 1;
		if (k > 0) r.c[s.pick(k)] = s.sgn(4);
		r.c[sh.cst()] -= s.sgn(4);
		b.rows.push_back(r);
		break;
	}
	case 9: { // unbounded
		bounded = false;
		int w = s.pick(3);
		if (w == 0) bound(0, 1, 1, lo, s.range(0, 3));
		else if (w == 1) bound(0, -1, 1, lo, s.range(0, 3));
		break;
	}
	}
}

// Insert the columns of a new local; returns its column.
static int add_local(BSet &b, int n)
{
	int col = n + b.nloc;
	for (auto &r : b.rows) r.c.insert(r.c.begin() + col, Z(0));
	b.nloc++;
	return col;
}

static void gen_local(Src &s, BSet &b, int n, int P, bool ineq)
{
	int upto = n;
	bool nested = b.nloc > 0 && s.chance(1, 3);
	int prev = n + b.nloc - 1;
	int e = add_local(b, n);
	Shape sh = { n, b.nloc, P };
	Row r = mkrow(true, sh.cols());
	if (nested) {
		// A modulo constraint on the quotient of an earlier local.
		r.c[prev] = 1;
	} else if (upto > 0) {
		r.c[s.pick(upto)] += s.chance(1, 4) ? s.range(1, 3) : 1;
		if (s.chance(1, 3)) r.c[s.pick(upto)] += s.sgn(2);
	}
	if (P > 0 && s.chance(1, 4)) r.c[sh.par(s.pick(P))] += s.sgn(2);
	int m = s.range(2, 6);
	r.c[e] = -m;
	r.c[sh.cst()] = s.sgn(3);
	if (!ineq) { b.rows.push_back(r); return; }
	// 0 <= expr - m*e <= t
	r.eq = false;
	Row u = r;
	for (auto &c : u.c) c = -c;
	u.c[sh.cst()] += s.range(0, m - 1);
	b.rows.push_back(r);
	b.rows.push_back(u);
}

static BSet gen_bset(Src &s, int n, int P, const GenCfg &cfg, bool &bounded)
{
	BSet b;
	Shape sh = { n, 0, P };
	for (int k = 0; k < n; k++) gen_dim(s, b, sh, k, cfg, bounded);
	int extra = s.weighted({ 60, 28, 12 });
	for (int i = 0; i < extra; i++) {
		Row r = mkrow(s.chance(1, 8), sh.cols());
		for (int k = 0; k < n; k++) r.c[k] = s.sgn(2);
		for (int k = 0; k < P; k++) if (s.chance(1, 3)) r.c[sh.par(k)] = s.sgn(2);
		r.c[sh.cst()] = s.range(-4, 8);
		b.rows.push_back(r);
	}
	if ((cfg.locmode == 1 || cfg.locmode == 2) && s.chance(1, 3)) {
		int nl = cfg.locmode == 1 && s.chance(1, 4) ? 2 : 1;
		for (int i = 0; i < nl; i++) gen_local(s, b, n, P, cfg.locmode == 2);
	}
	if (s.chance(1, 10) && !b.rows.empty()) { // redundant scaled copy of a row
		Row r = b.rows[s.pick((uint32_t)b.rows.size())];
		int f = s.range(1, 3);
		for (auto &c : r.c) c *= f;
		b.rows.push_back(r);
	}
	if (s.chance(1, 6)) // shuffle
		for (size_t i = b.rows.size(); i > 1; i--) std::swap(b.rows[i - 1], b.rows[s.pick((uint32_t)i)]);
	return b;
}

static Dom mutate(Src &s, Dom d, int P)
{
	int m = s.range(1, 2);
	for (int i = 0; i < m; i++) {
		if (d.bs.empty()) break;
		BSet &b = d.bs[s.pick((uint32_t)d.bs.size())];
		switch (s.pick(3)) {
		case 0:
			if (!b.rows.empty()) b.rows[s.pick((uint32_t)b.rows.size())].c.back() += s.sgn(3);
			break;
		case 1: {
			if (d.n == 0) break;
			// shift one iterator
			int k = s.pick(d.n);
			int by = s.sgn(3);
			for (auto &r : b.rows) r.c.back() -= r.c[k] * by;
			break;
		}
		case 2: {
			Row r;
			r.eq = s.chance(1, 8);
			r.c.assign(d.n + b.nloc + P + 1, Z(0));
			for (int k = 0; k < d.n; k++) if (s.chance(1, 2)) r.c[k] = s.sgn(1);
			if (P && s.chance(1, 2)) r.c[d.n + b.nloc + s.pick(P)] = s.sgn(1);
			r.c.back() = s.range(-3, 6);
			b.rows.push_back(r);
			break;
		}
		}
	}
	return d;
}

static Dom gen_dom(Src &s, int n, int P, const GenCfg &cfg, bool &bounded)
{
	Dom d;
	d.n = n;
	int nb = 1 + s.weighted({ 78, 17, 5 });
	for (int i = 0; i < nb; i++) {
		if (i > 0 && s.chance(1, 2)) {
			Dom t = d;
			t.bs.erase(t.bs.begin() + 1, t.bs.end());
			t = mutate(s, t, P);
			d.bs.push_back(t.bs[0]);
		} else
			d.bs.push_back(gen_bset(s, n, P, cfg, bounded));
	}
	return d;
}

static void gen_context(Src &s, Prob &p, const GenCfg &cfg)
{
	int nb = cfg.union_ctx && p.npar && s.chance(1, 8) ? 2 : 1;
	for (int q = 0; q < nb; q++) {
		BSet b;
		Shape sh = { 0, 0, p.npar };
		for (int i = 0; i < p.npar; i++) {
			switch (s.weighted({ 30, 30, 10, 10, 6, 4 })) {
			case 0: break;
			case 1: { Row r = mkrow(false, sh.cols()); r.c[sh.par(i)] = 1; r.c[sh.cst()] = -s.range(0, 5); b.rows.push_back(r); break; }
			case 2: {
				Row r = mkrow(false, sh.cols());
				r.c[sh.par(i)] = -1; r.c[sh.cst()] = s.range(0, 8);
				b.rows.push_back(r);
				break;
			}
			case 3: if (i > 0) {
				Row r = mkrow(false, sh.cols());
				r.c[sh.par(i)] = 1; r.c[sh.par(s.pick(i))] -= 1; r.c[sh.cst()] = s.sgn(2);
				b.rows.push_back(r);
			} break;
			case 4: { Row r = mkrow(true, sh.cols()); r.c[sh.par(i)] = 1; r.c[sh.cst()] = -s.range(0, 7); if (i > 0 && s.chance(1, 2)) r.c[sh.par(s.pick(i))] = -1; b.rows.push_back(r); break; }
			case 5: { // M = m*e + r
				if (cfg.locmode != 1) break;
				int e = add_local(b, 0);
				sh = { 0, b.nloc, p.npar };
				Row r = mkrow(true, sh.cols());
				r.c[sh.par(i)] = 1; r.c[e] = -s.range(2, 4); r.c[sh.cst()] = s.range(0, 2);
				b.rows.push_back(r);
				break;
			}
			}
		}
		p.ctx.push_back(b);
	}
}

// ------------------------------------------------------------- scattering

static void scat_row(Src &s, Stmt &t, const Prob &p, int d, int kind, const GenCfg &cfg)
{
	int n = t.dom.n, S = p.nscat;
	auto cols = [&]() { return S + n + t.scat.nloc + p.npar + 1; };
	auto parc = [&](int i) { return S + n + t.scat.nloc + i; };
	if (n == 0 && kind != 0 && kind != 2) kind = 0;
	Row r = mkrow(true, cols());
	r.c[d] = 1;
	switch (kind) {
	case 0: // scalar
		r.c.back() = -s.range(0, 3);
		break;
	case 1: // iterator
		r.c[S + s.pick(n)] = s.chance(1, 6) ? 1 : -1;
		if (s.chance(1, 3)) r.c.back() = -s.sgn(3);
		break;
	case 2: // affine
		for (int k = 0; k < n; k++) r.c[S + k] = -s.sgn(2);
		if (p.npar && s.chance(1, 3)) r.c[parc(s.pick(p.npar))] = s.sgn(1);
		r.c.back() = -s.sgn(3);
		break;
	case 3: // scaled iterator
		r.c[S + s.pick(n)] = -(s.chance(1, 5) ? -s.range(2, 4) : s.range(2, 5));
		r.c.back() = -s.sgn(3);
		break;
	case 4: { // tile: m*c <= x <= m*c + m-1
		int m = s.range(2, 5), k = s.pick(n), off = s.chance(1, 4) ? s.sgn(2) : 0;
		r.eq = false;
		r.c[d] = -m; r.c[S + k] = 1; r.c.back() = off;
		Row u = r;
		for (auto &c : u.c) c = -c;
		u.c.back() += m - 1;
		if (cfg.allow_multi && s.chance(1, 6)) u.c.back() += 1;   // overlapping tiles
		t.scat.rows.push_back(r);
		t.scat.rows.push_back(u);
		return;
	}
	case 5: { // modulo: c = x - m*e, 0 <= c <= m-1
		int m = s.range(2, 5), k = s.pick(n);
		int e = add_local(t.scat, S + n);
		Row q = mkrow(true, cols());
		q.c[d] = 1; q.c[S + k] = -1; q.c[e] = m;
		t.scat.rows.push_back(q);
		Row lo = mkrow(false, cols());
		lo.c[d] = 1;
		t.scat.rows.push_back(lo);
		Row hi = mkrow(false, cols());
		hi.c[d] = -1; hi.c.back() = m - 1;
		t.scat.rows.push_back(hi);
		return;
	}
	case 6: { // partial: m*c = x + off (only some instances have a date)
		r.c[d] = s.range(2, 3);
		r.c[S + s.pick(n)] = -1;
		r.c.back() = s.sgn(2);
		break;
	}
	}
	t.scat.rows.push_back(r);
}

static void gen_scattering(Src &s, Prob &p, const GenCfg &cfg)
{
	int md = p.maxdim();
	int tmpl = s.weighted({ 30, 30, 40 });
	if (tmpl == 0) {
		// 2d+1 with permuted iterators
		if (2 * md + 1 > cfg.maxscat + 2) md = std::max(0, (cfg.maxscat + 1) / 2);
		p.nscat = 2 * md + 1;
		bool same = s.chance(1, 5);
		for (auto &t : p.st) {
			std::vector<int> perm;
			for (int k = 0; k < t.dom.n; k++) perm.push_back(k);
			if (s.chance(1, 3))
				for (size_t i = perm.size(); i > 1; i--) std::swap(perm[i - 1], perm[s.pick((uint32_t)i)]);
			for (int d = 0; d < p.nscat; d++) {
				Row r = mkrow(true, p.nscat + t.dom.n + p.npar + 1);
				r.c[d] = 1;
				if (d & 1) {
					if (d / 2 < t.dom.n) {
						r.c[p.nscat + perm[d / 2]] = -1;
						if (s.chance(1, 5)) r.c.back() = -s.sgn(2);
						if (d / 2 > 0 && s.chance(1, 6)) r.c[p.nscat + perm[0]] += -1;
					}
				} else
					r.c.back() = -(same ? d == p.nscat - 1 ? s.range(0, 2) : 0 : s.range(0, 2));
				t.scat.rows.push_back(r);
			}
		}
		return;
	}
	p.nscat = s.range(1, cfg.maxscat);
	std::vector<int> kinds;
	for (int d = 0; d < p.nscat; d++) kinds.push_back(s.weighted({ 24, 30, 16, 12, cfg.plain_rows ? 0 : 10, cfg.plain_rows || cfg.locmode != 3 ? 0 : 16, cfg.allow_multi ? 4 : 0 }));
	for (size_t i = 0; i < p.st.size(); i++) {
		Stmt &t = p.st[i];
		if (tmpl == 1 && i > 0 && t.dom.n == p.st[0].dom.n && s.chance(1, 2)) {
			t.scat = p.st[0].scat;     // same scattering: blocks
			if (s.chance(1, 2) && !t.scat.rows.empty()) {
				Row &r = t.scat.rows[s.pick((uint32_t)t.scat.rows.size())];
				if (r.eq) r.c.back() += s.sgn(2);
			}
			continue;
		}
		for (int d = 0; d < p.nscat; d++) {
			int k = kinds[d];
			if (s.chance(1, 5)) k = s.weighted({ 24, 30, 16, 12, cfg.plain_rows ? 0 : 8 });
			scat_row(s, t, p, d, k, cfg);
		}
	}
}

static const char *const pnames_pool[] = { "N", "nn", "param", "T_0", "size_of_thing", "x", "Ab9", "LB", "lbp0", "MM" };
static const char *const inames_pool[] = { "i", "j", "k", "idx", "ii", "outer_iter", "t0", "jj", "l", "p_1", "q", "r" };
static const char *const snames_pool[] = { "c", "t", "s1", "tile", "d0", "date_dim", "u", "v", "w", "t2", "t3", "t4", "t5", "t6" };

Prob gen_problem(Src &s, const GenCfg &cfg)
{
	Prob p;
	GenCfg c = cfg;
	p.npar = s.weighted({ 20, 45, 25, 5, 2 });
	if (p.npar > c.maxpar) p.npar = c.maxpar;
	// unbounded problems are all-or-nothing
	if (c.allow_unbounded && !s.chance(1, 8)) c.allow_unbounded = false;
	// Kinds of existential variables are not mixed within a problem; see
	// "input classes left out" in DESIGN.md.
	c.locmode = s.weighted({ 50, 30, 12, 8 });
	if (!c.locals) c.locmode = 0;
	gen_context(s, p, c);
	int ns = 1 + s.weighted({ 28, 32, 20, 11, 3, 3, 2, 1 });
	if (ns > c.maxstmt) ns = c.maxstmt;
	bool bounded = true;
	for (int i = 0; i < ns; i++) {
		Stmt t;
		int how = i == 0 ? 0 : s.weighted({ 40, 35, 25 });
		if (how == 0) {
			int n = s.weighted({ 25, 42, 24, 5, 4, 1, 1 });
			static const int map[] = { 1, 2, 3, 4, 0, 5, 6 };
			n = map[n];
			if (n > c.maxdim) n = c.maxdim;
			t.dom = gen_dom(s, n, p.npar, c, bounded);
		} else {
			t.dom = p.st[s.pick(i)].dom;
			if (how == 1) t.dom = mutate(s, t.dom, p.npar);
		}
		p.st.push_back(t);
	}
	p.bounded = bounded;
	if (!bounded) p.window = 7;
	if (!c.no_scat && (c.need_scat || s.chance(3, 5))) gen_scattering(s, p, c);
	if (c.names && s.chance(1, 4)) {
		auto fill = [&](std::vector<std::string> &v, const char *const *pool, int np, int n) {
			int off = s.pick(np);
			for (int i = 0; i < n; i++) v.push_back(i < np ? pool[(off + i) % np] : strf("%s_%d", pool[i % np], i));
		};
		if (p.npar && s.chance(2, 3)) fill(p.pname, pnames_pool, 10, p.npar);
		if (p.maxdim() && s.chance(2, 3)) fill(p.iname, inames_pool, 12, p.maxdim());
		if (p.nscat && s.chance(2, 3)) fill(p.sname, snames_pool, 14, p.nscat);
	}
	if (c.fortran) p.lang = 1;
	return p;
}

// for the domain algebra
Dom gen_domain(Src &s, int n, int P, const GenCfg &cfg, bool &bounded) { return gen_dom(s, n, P, cfg, bounded); }
Dom mutate_domain(Src &s, Dom d, int P) { return mutate(s, d, P); }
void gen_scat(Src &s, Prob &p, const GenCfg &cfg) { gen_scattering(s, p, cfg); }
