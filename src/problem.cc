#include "problem.h"
#include <cstdarg>
#include <cassert>
#include <unistd.h>

std::string zstr(Z v)
{
	if (v == 0) return "0";
	bool neg = v < 0;
	std::string s;
	while (v != 0) { int d = (int)(v % 10); s += (char)('0' + (d < 0 ? -d : d)); v /= 10; }
	if (neg) s += '-';
	std::reverse(s.begin(), s.end());
	return s;
}
bool zparse(const char *s, Z &out)
{
	bool neg = *s == '-';
	if (neg) s++;
	if (!*s) return false;
	Z v = 0;
	for (; *s; s++) {
		if (*s < '0' || *s > '9') return false;
		v = zsub(zmul(v, 10), *s - '0');
	}
	out = neg ? v : zsub(0, v);
	return true;
}
std::string strf(const char *fmt, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (n < (int)sizeof buf) return std::string(buf, n);
	std::string s(n + 1, 0);
	va_start(ap, fmt);
	vsnprintf(&s[0], n + 1, fmt, ap);
	va_end(ap);
	s.resize(n);
	return s;
}
std::string vecstr(const Vec &v)
{
	std::string s = "(";
	for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + zstr(v[i]);
	return s + ")";
}

// ------------------------------------------------------------------ oracle

// Enumerate the variables v[0..nv-1] subject to rows of the form
//   sum coef*v + k (>=|==) 0.
// visit() is called with the values of the first `report` variables for which
// the remaining ones can be completed; returning true stops the search.
struct Enum {
	struct R { bool eq; std::vector<Z> c; Z k; int last; };
	std::vector<R> rows;
	int nv = 0, report = 0;
	Z W = 0;
	size_t budget = 0;
	Vec v;
	std::function<bool(const Vec &)> visit;
	size_t steps = 0;
	bool exists(int k)   // complete variables k.. (all beyond report)
	{
		if (k == nv) return true;
		Z lo, hi;
		if (!bounds(k, lo, hi, true)) return false;
		for (Z x = lo; x <= hi; x++) {
			if (++steps > budget) throw Inconclusive("enumeration budget");
			v[k] = x;
			if (exists(k + 1)) return true;
		}
		return false;
	}
	bool bounds(int k, Z &lo, Z &hi, bool local)
	{
		bool hl = false, hh = false;
		lo = hi = 0;
		for (auto &r : rows) {
			if (r.last != k) continue;
			Z e = r.k;
			for (int j = 0; j < k; j++) if (r.c[j] != 0) e = zadd(e, zmul(r.c[j], v[j]));
			Z a = r.c[k];
			// a*x + e >= 0
			if (r.eq) {
				if (e % a != 0) return false;
				Z x = -e / a;
				if (!hl || x > lo) { lo = x; hl = true; }
				if (!hh || x < hi) { hi = x; hh = true; }
			} else if (a > 0) {
				Z x = zcdiv(-e, a);
				if (!hl || x > lo) { lo = x; hl = true; }
			} else {
				Z x = zfdiv(e, -a);
				if (!hh || x < hi) { hi = x; hh = true; }
			}
		}
		if (W > 0 && !local) {
			if (!hl || lo < -W) { lo = -W; hl = true; }
			if (!hh || hi > W) { hi = W; hh = true; }
		}
		if (!hl || !hh) throw Inconclusive("unbounded enumeration");
		return lo <= hi;
	}
	bool rec(int k)
	{
		if (k == report) {
			if (exists(k)) {
				Vec x(v.begin(), v.begin() + report);
				return visit(x);
			}
			return false;
		}
		Z lo, hi;
		if (!bounds(k, lo, hi, false)) return false;
		for (Z x = lo; x <= hi; x++) {
			if (++steps > budget) throw Inconclusive("enumeration budget");
			v[k] = x;
			if (rec(k + 1)) return true;
		}
		return false;
	}
	void run()
	{
		for (auto &r : rows) {
			r.last = -1;
			for (int j = 0; j < nv; j++) if (r.c[j] != 0) r.last = j;
			if (r.last < 0 && (r.eq ? r.k != 0 : r.k < 0)) return;
		}
		v.assign(nv, 0);
		rec(0);
	}
};

// rows of b have nd dims, b.nloc locals, par params, const
static Z row_const(const Row &r, int nd, int nloc, const Vec &par)
{
	Z k = r.c.back();
	for (size_t j = 0; j < par.size(); j++) k = zadd(k, zmul(r.c[nd + nloc + j], par[j]));
	return k;
}

bool bset_sat(const BSet &b, const Vec &dims, const Vec &par)
{
	Enum e;
	int nd = (int)dims.size();
	e.nv = b.nloc;
	e.report = 0;
	e.budget = 200000;
	bool ok = false;
	e.visit = [&](const Vec &) { ok = true; return true; };
	for (auto &r : b.rows) {
		Enum::R q;
		q.eq = r.eq;
		q.k = row_const(r, nd, b.nloc, par);
		for (int j = 0; j < nd; j++) q.k = zadd(q.k, zmul(r.c[j], dims[j]));
		q.c.assign(r.c.begin() + nd, r.c.begin() + nd + b.nloc);
		e.rows.push_back(q);
	}
	e.run();
	return ok;
}
bool dom_contains(const Dom &d, const Vec &x, const Vec &par)
{
	for (auto &b : d.bs) if (bset_sat(b, x, par)) return true;
	return false;
}
bool ctx_contains(const Prob &p, const Vec &par)
{
	for (auto &b : p.ctx) if (bset_sat(b, Vec(), par)) return true;
	return false;
}

std::vector<Vec> enum_bset(const BSet &b, int n, const Vec &par, Z W, size_t limit)
{
	std::vector<Vec> out;
	Enum e;
	e.nv = n + b.nloc;
	e.report = n;
	e.W = W;
	e.budget = 40 * limit + 10000;
	e.visit = [&](const Vec &x) {
		out.push_back(x);
		if (out.size() > limit) throw Inconclusive("too many points");
		return false;
	};
	for (auto &r : b.rows) {
		Enum::R q;
		q.eq = r.eq;
		q.k = row_const(r, n, b.nloc, par);
		q.c.assign(r.c.begin(), r.c.begin() + n + b.nloc);
		e.rows.push_back(q);
	}
	e.run();
	return out;
}
std::vector<Vec> enum_dom(const Dom &d, const Vec &par, Z W, size_t limit)
{
	std::vector<Vec> out;
	for (auto &b : d.bs) {
		auto v = enum_bset(b, d.n, par, W, limit);
		out.insert(out.end(), v.begin(), v.end());
	}
	std::sort(out.begin(), out.end());
	out.erase(std::unique(out.begin(), out.end()), out.end());
	return out;
}

std::vector<Vec> dates(const Prob &p, const Stmt &s, const Vec &x, const Vec &par, Z W)
{
	std::vector<Vec> out;
	Enum e;
	int n = s.dom.n;
	e.nv = p.nscat + s.scat.nloc;
	e.report = p.nscat;
	e.W = W;
	e.budget = 200000;
	e.visit = [&](const Vec &d) { out.push_back(d); if (out.size() > 64) throw Inconclusive("too many dates"); return false; };
	for (auto &r : s.scat.rows) {
		Enum::R q;
		q.eq = r.eq;
		q.k = row_const(r, p.nscat + n, s.scat.nloc, par);
		for (int j = 0; j < n; j++) q.k = zadd(q.k, zmul(r.c[p.nscat + j], x[j]));
		q.c.assign(r.c.begin(), r.c.begin() + p.nscat);
		q.c.insert(q.c.end(), r.c.begin() + p.nscat + n, r.c.begin() + p.nscat + n + s.scat.nloc);
		e.rows.push_back(q);
	}
	e.run();
	return out;
}

std::vector<Vec> gen_params(Src &s, const Prob &p, int count, int lo, int hi)
{
	std::vector<Vec> out;
	if (p.npar == 0) {
		if (ctx_contains(p, Vec())) out.push_back(Vec());
		return out;
	}
	// Enumerate (a random rotation of) the small vectors and keep the
	// first ones that satisfy the context.
	std::vector<Vec> all;
	int w = hi - lo + 1;
	double tot = 1;
	for (int i = 0; i < p.npar; i++) tot *= w;
	if (tot <= 3000) {
		Vec v(p.npar, lo);
		for (;;) {
			if (ctx_contains(p, v)) all.push_back(v);
			int k = p.npar - 1;
			while (k >= 0 && v[k] == hi) v[k--] = lo;
			if (k < 0) break;
			v[k] = v[k] + 1;
		}
		if (all.empty()) return out;
		std::set<size_t> used;
		for (int i = 0; i < count && used.size() < all.size(); i++) {
			size_t k = s.pick((uint32_t)all.size());
			while (used.count(k)) k = (k + 1) % all.size();
			used.insert(k);
			out.push_back(all[k]);
		}
	} else {
		uint64_t rng = s.pick(1u << 30);
		for (int tries = 0; tries < 4000 && (int)out.size() < count; tries++) {
			Vec v(p.npar);
			for (auto &x : v) x = lo + (int)(splitmix(rng) % w);
			if (ctx_contains(p, v) && std::find(out.begin(), out.end(), v) == out.end()) out.push_back(v);
		}
	}
	return out;
}

// --------------------------------------------------------------- rendering

static std::string bset_text(const BSet &b, int nd, int n_out, int n_in, int npar, bool ext, Src *sty)
{
	std::string s;
	int cols = nd + b.nloc + npar + 2;
	if (ext || b.nloc) s += strf("%d %d %d %d %d %d\n", (int)b.rows.size(), cols, n_out, n_in, b.nloc, npar);
	else s += strf("%d %d\n", (int)b.rows.size(), cols);
	for (auto &r : b.rows) {
		if (sty && sty->chance(1, 12)) s += "# a comment line\n";
		if (sty && sty->chance(1, 20)) s += "\n";
		s += r.eq ? "  0" : "  1";
		for (auto &c : r.c) s += std::string(sty ? 1 + sty->pick(3) : 1, ' ') + zstr(c);
		if (sty && sty->chance(1, 12)) s += "  # trailing comment";
		s += "\n";
	}
	return s;
}
static std::string names_text(const std::vector<std::string> &n, const char *what)
{
	if (n.empty()) return strf("0 # %s names\n", what);
	std::string s = strf("1 # %s names\n", what);
	for (auto &x : n) s += x + " ";
	return s + "\n";
}
std::string cloog_text(const Prob &p, Src *sty)
{
	std::string s = "# generated problem\n";
	s += p.lang ? "f\n" : "c\n";
	s += "# context\n";
	if (p.ctx.size() != 1) s += strf("%d\n", (int)p.ctx.size());
	else if (sty && sty->chance(1, 2)) s += "1\n";
	// one format for the whole union
	bool cext = sty ? sty->chance(1, 2) : true;
	for (auto &b : p.ctx) cext |= b.nloc > 0;
	for (auto &b : p.ctx) s += bset_text(b, 0, 0, 0, p.npar, cext, sty);
	s += names_text(p.pname, "parameter");
	s += strf("\n%d # statements\n", (int)p.st.size());
	for (auto &t : p.st) {
		s += strf("%d\n", (int)t.dom.bs.size());
		bool ext = sty ? sty->chance(1, 3) : false;
		for (auto &b : t.dom.bs) ext |= b.nloc > 0;
		for (auto &b : t.dom.bs) s += bset_text(b, t.dom.n, t.dom.n, 0, p.npar, ext, sty);
		s += "0 0 0\n";
	}
	s += "\n" + names_text(p.iname, "iterator");
	if (p.nscat == 0) return s + "0 # no scattering\n";
	s += strf("\n%d # scattering\n", (int)p.st.size());
	for (auto &t : p.st) {
		bool ext = sty ? sty->chance(1, 3) : false;
		s += bset_text(t.scat, p.nscat + t.dom.n, p.nscat, t.dom.n, p.npar, ext, sty);
	}
	s += "\n" + names_text(p.sname, "scattering");
	return s;
}

static std::string affine_str(const Row &r, const std::vector<std::string> &cols)
{
	std::string s;
	for (size_t j = 0; j < cols.size(); j++)
		if (r.c[j] != 0) s += (s.empty() ? "" : " + ") + zstr(r.c[j]) + "*" + cols[j];
	s += (s.empty() ? "" : " + ") + zstr(r.c.back());
	return s + (r.eq ? " = 0" : " >= 0");
}
static std::string pdecl(int npar)
{
	std::string s = "[";
	for (int i = 0; i < npar; i++) s += (i ? "," : "") + strf("p%d", i);
	return s + "] -> ";
}
static std::string bset_cond(const BSet &b, std::vector<std::string> cols, int npar)
{
	for (int i = 0; i < b.nloc; i++) cols.push_back(strf("e%d", i));
	for (int i = 0; i < npar; i++) cols.push_back(strf("p%d", i));
	std::string c;
	for (auto &r : b.rows) c += (c.empty() ? "" : " and ") + affine_str(r, cols);
	if (c.empty()) c = "0 = 0";
	if (b.nloc) {
		std::string e = "exists (";
		for (int i = 0; i < b.nloc; i++) e += (i ? "," : "") + strf("e%d", i);
		c = e + " : " + c + ")";
	}
	return c;
}
isl_set *dom_to_isl(isl_ctx *ctx, const Dom &d, int npar)
{
	std::vector<std::string> cols;
	std::string t = "[";
	for (int i = 0; i < d.n; i++) { cols.push_back(strf("x%d", i)); t += (i ? "," : "") + cols.back(); }
	t += "]";
	std::string s = pdecl(npar) + "{ ";
	for (size_t k = 0; k < d.bs.size(); k++) s += (k ? "; " : "") + t + " : " + bset_cond(d.bs[k], cols, npar);
	return isl_set_read_from_str(ctx, (s + " }").c_str());
}
isl_map *scat_to_isl(isl_ctx *ctx, const Prob &p, const Stmt &st)
{
	std::vector<std::string> cols;
	std::string in = "[", out = "[";
	for (int i = 0; i < p.nscat; i++) { cols.push_back(strf("s%d", i)); out += (i ? "," : "") + cols.back(); }
	for (int i = 0; i < st.dom.n; i++) { cols.push_back(strf("x%d", i)); in += (i ? "," : "") + cols.back(); }
	std::string s = pdecl(p.npar) + "{ " + in + "] -> " + out + "] : " + bset_cond(st.scat, cols, p.npar) + " }";
	return isl_map_read_from_str(ctx, s.c_str());
}

// ------------------------------------------------------------------ library

Lib::Lib(bool own_ctx)
{
	if (own_ctx) { own = isl_ctx_alloc(); state = cloog_isl_state_malloc(own); }
	else state = cloog_state_malloc();
	opt = cloog_options_malloc(state);
	opt->quiet = 1;
}
Lib::~Lib()
{
	cloog_options_free(opt);
	cloog_state_free(state);
	if (own) isl_ctx_free(own);
}
CloogInput *load_text(Lib &lib, const std::string &text)
{
	FILE *f = fmemopen((void *)text.data(), text.size(), "r");
	CloogInput *in = cloog_input_read(f, lib.opt);
	fclose(f);
	return in;
}
std::string pprint_to_string(struct clast_stmt *root, CloogOptions *opt, int indent)
{
	char *buf = nullptr;
	size_t len = 0;
	FILE *f = open_memstream(&buf, &len);
	clast_pprint(f, root, indent, opt);
	fclose(f);
	std::string s(buf, len);
	free(buf);
	return s;
}

std::string Opt::str() const
{
	Opt d;
	std::string s;
#define O(x) if (x != d.x) s += strf(" " #x "=%d", x)
	O(l); O(f); O(stop); O(strides); O(sh); O(first_unroll); O(esp); O(fsp); O(otl); O(block); O(backtrack);
	O(noscalars); O(noblocks); O(save_domains); O(compilable); O(callable); O(nosimplify);
#undef O
	if (!fs.empty()) {
		s += " fs/ls=";
		for (size_t i = 0; i < fs.size(); i++) s += strf("%s%d:%d", i ? "," : "", fs[i], ls[i]);
	}
	return s.empty() ? " default" : s;
}
bool Opt::is_default() const { return str() == " default"; }

Opt gen_options(Src &s, const Prob &p, int level)
{
	Opt o;
	int depth = p.nscat + p.maxdim();
	if (level == 0 || getenv("VH_DEFOPT")) return o;
	if (s.chance(1, 4)) return o;
	// The documented range of a depth is 1.. and -1 (infinity).
	auto dep = [&](int first, int last) { int v = s.range(first - 1, last); return v == first - 1 ? -1 : v; };
	if (s.chance(1, 5)) { o.f = s.range(1, depth + 1); o.l = dep(1, depth); }
	else if (s.chance(1, 8)) o.f = dep(1, depth + 1);
	else if (s.chance(1, 8)) o.l = s.range(1, depth + 1);
	o.strides = s.chance(1, 2);
	o.sh = s.chance(1, 4);
	if (s.chance(1, 5)) o.first_unroll = s.range(1, depth);
	o.esp = !s.chance(1, 4);
	if (s.chance(1, 4)) o.fsp = s.range(1, depth + 1);
	o.otl = !s.chance(1, 4);
	o.block = s.chance(1, 4);
	// -backtrack is an undocumented experiment that is known to be broken (see DESIGN.md).
	s.pick(6);
	o.noscalars = s.chance(1, 5);
	o.noblocks = s.chance(1, 5);
	o.save_domains = s.chance(1, 10);
	if (s.chance(1, 8)) {
		for (size_t i = 0; i < p.st.size(); i++) { o.fs.push_back(s.range(1, depth)); o.ls.push_back(dep(1, depth)); }
	}
	if (const char *off = getenv("VH_OFF")) {
		std::string t = std::string(",") + off + ",";
		auto has = [&](const char *n) { return t.find(std::string(",") + n + ",") != std::string::npos; };
		Opt d;
		if (has("otl")) o.otl = 1;
		if (has("f")) o.f = 1;
		if (has("l")) o.l = -1;
		if (has("fs")) { o.fs.clear(); o.ls.clear(); }
		if (has("strides")) o.strides = 0;
		if (has("unroll")) o.first_unroll = -1;
		if (has("sh")) o.sh = 0;
		if (has("esp")) o.esp = 1;
		if (has("fsp")) o.fsp = 1;
	}
	return o;
}
void apply_options(const Opt &o, CloogOptions *co)
{
	co->l = o.l; co->f = o.f; co->stop = o.stop; co->strides = o.strides; co->sh = o.sh;
	co->first_unroll = o.first_unroll; co->esp = o.esp; co->fsp = o.fsp; co->otl = o.otl; co->block = o.block;
	co->backtrack = o.backtrack; co->noscalars = o.noscalars; co->noblocks = o.noblocks;
	co->save_domains = o.save_domains; co->compilable = o.compilable; co->callable = o.callable;
	co->nosimplify = o.nosimplify;
	if (!o.fs.empty()) {
		co->fs_ls_size = (int)o.fs.size();
		co->fs = (int *)malloc(sizeof(int) * o.fs.size());
		co->ls = (int *)malloc(sizeof(int) * o.ls.size());
		for (size_t i = 0; i < o.fs.size(); i++) { co->fs[i] = o.fs[i]; co->ls[i] = o.ls[i]; }
	}
}

// -------------------------------------------------------------- interpreter

Z cint(cloog_int_t v)
{
	if (mpz_sizeinbase(v, 2) > 126) throw Overflow("constant");
	mpz_t a;
	mpz_init(a);
	mpz_abs(a, v);
	unsigned __int128 r = 0;
	r = mpz_get_ui(a);
	mpz_tdiv_q_2exp(a, a, 64);
	r |= (unsigned __int128)mpz_get_ui(a) << 64;
	mpz_clear(a);
	return mpz_sgn(v) < 0 ? -(Z)r : (Z)r;
}

bool Interp::lookup(const char *n, Z &v)
{
	for (size_t i = env.size(); i-- > 0;) if (env[i].first == n) { v = env[i].second; return true; }
	return false;
}

Z Interp::eval(struct clast_expr *e)
{
	if (!e) throw Violation("null-expr", "missing expression in the generated AST");
	switch (e->type) {
	case clast_expr_name: {
		Z v;
		const char *n = ((struct clast_name *)e)->name;
		if (!n) throw Violation("null-name", "unnamed variable in the generated AST");
		if (!lookup(n, v)) throw Violation("unbound", std::string("generated code reads variable '") + n + "' outside of its scope");
		return v;
	}
	case clast_expr_term: {
		struct clast_term *t = (struct clast_term *)e;
		Z c = cint(t->val);
		return t->var ? zmul(c, eval(t->var)) : c;
	}
	case clast_expr_bin: {
		struct clast_binary *b = (struct clast_binary *)e;
		Z l = eval(b->LHS), r = cint(b->RHS);
		if (r == 0) throw Violation("div0", "division by zero in generated code");
		switch (b->type) {
		case clast_bin_fdiv: saw_fdiv = true; return zfdiv(l, r);
		case clast_bin_cdiv: saw_fdiv = true; return zcdiv(l, r);
		case clast_bin_div: return l / r;
		case clast_bin_mod: saw_mod = true; return cfg.cmod ? l % r : zmod(l, r);
		}
		throw Violation("bad-expr", "unknown binary operation");
	}
	case clast_expr_red: {
		struct clast_reduction *r = (struct clast_reduction *)e;
		if (r->n < 1) {
			if (r->type == clast_red_sum) return 0;
			throw Violation("empty-red", "min/max without operands in the generated AST");
		}
		Z v = eval(r->elts[0]);
		if (r->type != clast_red_sum && r->n > 1) saw_minmax = true;
		for (int i = 1; i < r->n; i++) {
			Z w = eval(r->elts[i]);
			if (r->type == clast_red_sum) v = zadd(v, w);
			else if (r->type == clast_red_min) v = std::min(v, w);
			else v = std::max(v, w);
		}
		return v;
	}
	}
	throw Violation("bad-expr", "unknown expression type");
}

void Interp::exec(struct clast_stmt *s)
{
	size_t mark = env.size();
	for (; s; s = s->next) {
		if (++steps > cfg.maxsteps) throw Inconclusive("interpreter step limit");
		if (CLAST_STMT_IS_A(s, stmt_root)) continue;
		if (CLAST_STMT_IS_A(s, stmt_ass)) {
			struct clast_assignment *a = (struct clast_assignment *)s;
			saw_ass = true;
			Z v = eval(a->RHS);
			if (!a->LHS) throw Violation("bad-ass", "assignment without left hand side");
			env.push_back({ a->LHS, v });
		} else if (CLAST_STMT_IS_A(s, stmt_user)) {
			struct clast_user_stmt *u = (struct clast_user_stmt *)s;
			if (on_user) { on_user(*this, u); continue; }
			if (!u->statement) throw Violation("bad-user", "user statement without statement");
			Event ev;
			ev.stmt = u->statement->number - 1;
			for (struct clast_stmt *t = u->substitutions; t; t = t->next) {
				if (!CLAST_STMT_IS_A(t, stmt_ass)) throw Violation("bad-subst", "substitution is not an assignment");
				ev.x.push_back(eval(((struct clast_assignment *)t)->RHS));
			}
			this->ev.push_back(ev);
			if (after_user) after_user(*this, u);
		} else if (CLAST_STMT_IS_A(s, stmt_for)) {
			struct clast_for *f = (struct clast_for *)s;
			Z st = cint(f->stride), lo, hi;
			if (st <= 0) throw Violation("bad-stride", "non positive loop increment " + zstr(st));
			if (st > 1) saw_stride = true;
			Z W = cfg.window;
			if (!f->LB && !W) throw Violation("unbounded", std::string("loop ") + f->iterator + " has no lower bound");
			if (!f->UB && !W) throw Violation("unbounded", std::string("loop ") + f->iterator + " has no upper bound");
			if (!f->LB && st != 1) throw Inconclusive("strided loop without lower bound (unbounded problem)");
			lo = f->LB ? eval(f->LB) : -W;
			hi = f->UB ? eval(f->UB) : W;
			if (W) {
				if (lo < -W) lo = lo + zmul(zcdiv(-W - lo, st), st);
				if (hi > W) hi = W;
			}
			if (on_for) on_for(*this, f, true);
			size_t m = env.size();
			env.push_back({ f->iterator, lo });
			loops.push_back({ f, lo });
			if ((int)loops.size() > maxdepth) maxdepth = (int)loops.size();
			for (Z v = lo; v <= hi; v = zadd(v, st)) {
				if (++steps > cfg.maxsteps) throw Inconclusive("interpreter step limit");
				env[m].second = v;
				loops.back().second = v;
				exec(f->body);
			}
			loops.pop_back();
			env.resize(m);
			if (on_for) on_for(*this, f, false);
		} else if (CLAST_STMT_IS_A(s, stmt_guard)) {
			struct clast_guard *g = (struct clast_guard *)s;
			bool ok = true;
			saw_guard = true;
			for (int i = 0; i < g->n && ok; i++) {
				Z l = eval(g->eq[i].LHS), r = eval(g->eq[i].RHS);
				ok = g->eq[i].sign == 0 ? l == r : g->eq[i].sign > 0 ? l >= r : l <= r;
			}
			if (ok) exec(g->then);
		} else if (CLAST_STMT_IS_A(s, stmt_block)) {
			exec(((struct clast_block *)s)->body);
		} else
			throw Violation("bad-stmt", "unknown statement type in the AST");
	}
	env.resize(mark);
}

std::vector<std::string> clast_param_names(struct clast_stmt *root)
{
	std::vector<std::string> v;
	CloogNames *n = ((struct clast_root *)root)->names;
	for (int i = 0; i < n->nb_parameters; i++) v.push_back(n->parameters[i]);
	return v;
}

std::vector<Event> run_clast(struct clast_stmt *root, const std::vector<std::string> &pn, const Vec &par, Z window,
			     Interp *stats, bool cmod)
{
	Interp in, *I = stats ? stats : &in;
	I->cfg.window = window;
	I->cfg.cmod = cmod;
	I->steps = 0;
	I->env.clear();
	I->ev.clear();
	I->loops.clear();
	if (pn.size() < par.size()) throw Violation("names", "AST has fewer parameter names than parameters");
	for (size_t i = 0; i < par.size(); i++) I->env.push_back({ pn[i], par[i] });
	I->exec(root);
	return I->ev;
}

static void expr_stats(struct clast_expr *e, AstStats &st)
{
	if (!e) return;
	if (e->type == clast_expr_term) expr_stats(((struct clast_term *)e)->var, st);
	else if (e->type == clast_expr_bin) {
		struct clast_binary *b = (struct clast_binary *)e;
		if (b->type == clast_bin_mod) st.mod = true;
		else st.fdiv = true;
		expr_stats(b->LHS, st);
	} else if (e->type == clast_expr_red) {
		struct clast_reduction *r = (struct clast_reduction *)e;
		if (r->n > 1 && r->type != clast_red_sum) st.minmax = true;
		for (int i = 0; i < r->n; i++) expr_stats(r->elts[i], st);
	}
}
void ast_stats(struct clast_stmt *s, AstStats &st, int depth)
{
	st.depth = std::max(st.depth, depth);
	for (; s; s = s->next) {
		if (CLAST_STMT_IS_A(s, stmt_ass)) { st.asses++; expr_stats(((struct clast_assignment *)s)->RHS, st); }
		else if (CLAST_STMT_IS_A(s, stmt_user)) {
			st.users++;
			AstStats sub;
			ast_stats(((struct clast_user_stmt *)s)->substitutions, sub, depth);
			st.fdiv |= sub.fdiv; st.mod |= sub.mod;
		} else if (CLAST_STMT_IS_A(s, stmt_for)) {
			struct clast_for *f = (struct clast_for *)s;
			st.fors++;
			if (mpz_cmp_si(f->stride, 1) > 0) st.stride = true;
			expr_stats(f->LB, st); expr_stats(f->UB, st);
			ast_stats(f->body, st, depth + 1);
		} else if (CLAST_STMT_IS_A(s, stmt_guard)) {
			struct clast_guard *g = (struct clast_guard *)s;
			st.guards++;
			for (int i = 0; i < g->n; i++) { expr_stats(g->eq[i].LHS, st); expr_stats(g->eq[i].RHS, st); }
			ast_stats(g->then, st, depth);
		} else if (CLAST_STMT_IS_A(s, stmt_block)) ast_stats(((struct clast_block *)s)->body, st, depth);
	}
}

// --------------------------------------------------------------- comparison

static bool in_window(const Vec &v, Z W)
{
	if (W <= 0) return true;
	for (auto &x : v) if (x < -W || x > W) return false;
	return true;
}

void check_exact(const Prob &p, const Vec &par, const std::vector<Event> &ev, Z W, long *npoints)
{
	size_t total = 0;
	std::vector<std::map<Vec, int>> got(p.st.size());
	for (auto &e : ev) {
		if (e.stmt < 0 || e.stmt >= (int)p.st.size())
			throw Violation("bad-stmt", strf("execution of unknown statement S%d", e.stmt + 1));
		if ((int)e.x.size() != p.st[e.stmt].dom.n)
			throw Violation("arity", strf("S%d executed with %d iterators instead of %d", e.stmt + 1, (int)e.x.size(), p.st[e.stmt].dom.n));
		if (!in_window(e.x, W)) continue;
		got[e.stmt][e.x]++;
	}
	for (size_t k = 0; k < p.st.size(); k++) {
		const Stmt &st = p.st[k];
		auto pts = enum_dom(st.dom, par, W, 40000);
		size_t seen = 0;
		for (auto &x : pts) {
			int want = 1;
			auto it = got[k].find(x);
			int have = it == got[k].end() ? 0 : it->second;
			if (it != got[k].end()) seen++;
			if (p.nscat) want = (int)dates(p, st, x, par, W).size();
			if (W > 0 && p.nscat && (int)dates(p, st, x, par, 0).size() != want) {
				// Some date lies outside of the window: loops are clipped.
				if (have > (int)dates(p, st, x, par, 0).size())
					throw Violation("duplicate", strf("S%d%s executed %d times for parameters %s", (int)k + 1, vecstr(x).c_str(), have, vecstr(par).c_str()));
				continue;
			}
			if (have != want)
				throw Violation(have < want ? "missing" : "duplicate",
						strf("S%d%s executed %d times instead of %d for parameters %s", (int)k + 1, vecstr(x).c_str(), have, want, vecstr(par).c_str()));
			total++;
		}
		if (seen != got[k].size())
			for (auto &g : got[k])
				if (!std::binary_search(pts.begin(), pts.end(), g.first))
					throw Violation("extra", strf("S%d%s executed but is not in the domain, parameters %s", (int)k + 1, vecstr(g.first).c_str(), vecstr(par).c_str()));
	}
	if (npoints) *npoints += total;
}

void check_order(const Prob &p, const Vec &par, const std::vector<Event> &ev, int levels, bool noopt)
{
	if (p.nscat) {
		// Every instance has to run at one of its dates, in date order.
		// For single-valued relations this is plain monotonicity.  For
		// others the greedy choice of the smallest admissible date is
		// optimal.
		Vec cur;
		int pe = -1;
		for (size_t i = 0; i < ev.size(); i++) {
			auto d = dates(p, p.st[ev[i].stmt], ev[i].x, par, 0);
			std::sort(d.begin(), d.end());
			bool ok = false;
			for (auto &t : d)
				if (pe < 0 || t >= cur) { cur = t; ok = true; break; }
			if (d.empty()) continue;
			if (!ok)
				throw Violation("order", strf("S%d%s at date %s runs after S%d%s at date %s, parameters %s", ev[i].stmt + 1, vecstr(ev[i].x).c_str(),
					vecstr(d.back()).c_str(), ev[pe].stmt + 1, vecstr(ev[pe].x).c_str(), vecstr(cur).c_str(), vecstr(par).c_str()));
			pe = (int)i;
		}
		return;
	}
	// Without scattering the iteration vectors themselves define the order
	// (on the loops that two statements share).
	size_t n = ev.size();
	// Statements of different depth have no common iteration space: then
	// only instances of one statement are ordered by their iterators.
	bool mixed = false;
	for (auto &t : p.st) mixed |= t.dom.n != p.st[0].dom.n;
	auto bad = [&](size_t i, size_t j) {
		if ((mixed || noopt) && ev[i].stmt != ev[j].stmt) return false;
		if (noopt && p.st[ev[i].stmt].dom.bs.size() > 1) return false;
		size_t m = std::min({ ev[i].x.size(), ev[j].x.size(), (size_t)levels });
		for (size_t k = 0; k < m; k++) {
			if (ev[i].x[k] < ev[j].x[k]) return false;
			if (ev[i].x[k] > ev[j].x[k]) return true;
		}
		return false;
	};
	for (size_t j = 1; j < n; j++) {
		size_t lo = j > 300 ? j - 300 : 0;
		for (size_t i = lo; i < j; i++)
			if (bad(i, j))
				throw Violation("order", strf("S%d%s runs before S%d%s, parameters %s", ev[i].stmt + 1, vecstr(ev[i].x).c_str(),
					ev[j].stmt + 1, vecstr(ev[j].x).c_str(), vecstr(par).c_str()));
	}
}

void label_problem(const Prob &p, Result &r)
{
	if (p.st.size() > 1) r.labels.insert("multi-stmt");
	if (p.st.size() > 4) r.labels.insert("many-stmt");
	if (p.nscat) r.labels.insert("scattering");
	if (p.npar) r.labels.insert("params");
	if (p.npar > 2) r.labels.insert("many-params");
	if (!p.bounded) r.labels.insert("unbounded");
	if (p.ctx.size() > 1) r.labels.insert("union-context");
	if (!p.iname.empty()) r.labels.insert("user-names");
	int md = p.maxdim();
	if (md >= 3) r.labels.insert("deep");
	for (auto &s : p.st) {
		if (s.dom.n == 0) r.labels.insert("0-dim-stmt");
		if (s.dom.n != md) r.labels.insert("mixed-depth");
		if (s.dom.bs.size() > 1) r.labels.insert("union-domain");
		for (auto &b : s.dom.bs) {
			if (b.nloc) r.labels.insert("existential");
			for (auto &w : b.rows) {
				if (w.eq) r.labels.insert("equality");
				for (int i = 0; i < s.dom.n; i++) if (w.c[i] > 1 || w.c[i] < -1) r.labels.insert("non-unit-coef");
			}
		}
		if (s.scat.nloc) r.labels.insert("scat-existential");
		for (auto &w : s.scat.rows) if (!w.eq) { r.labels.insert("scat-inequality"); break; }
	}
}
