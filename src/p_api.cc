// C09 input routes, C10 dump round trip, C11 AST queries, C12 histories,
// C14 saved domains.
#include "problem.h"
#include "proc.h"
#include <isl/space.h>
#include <isl/val.h>
#include <isl/point.h>

// ------------------------------------------------------------------ helpers
static CloogMatrix *to_matrix(const BSet &b)
{
	if (b.nloc) abort();
	unsigned cols = b.rows.empty() ? 0 : (unsigned)b.rows[0].c.size() + 1;
	CloogMatrix *m = cloog_matrix_alloc((unsigned)b.rows.size(), cols);
	for (size_t i = 0; i < b.rows.size(); i++) {
		cloog_int_set_si(m->p[i][0], b.rows[i].eq ? 0 : 1);
		for (size_t j = 0; j < b.rows[i].c.size(); j++) cloog_int_read(m->p[i][j + 1], zstr(b.rows[i].c[j]).c_str());
	}
	return m;
}
// A matrix without rows still needs its number of columns.
static CloogMatrix *to_matrix(const BSet &b, int cols)
{
	if (!b.rows.empty()) return to_matrix(b);
	return cloog_matrix_alloc(0, cols);
}
static bool has_locals(const Prob &p)
{
	for (auto &b : p.ctx) if (b.nloc) return true;
	for (auto &t : p.st) {
		if (t.scat.nloc) return true;
		for (auto &b : t.dom.bs) if (b.nloc) return true;
	}
	return false;
}
static CloogDomain *matrix_domain(CloogState *st, const std::vector<BSet> &bs, int n, int npar)
{
	CloogDomain *d = nullptr;
	for (auto &b : bs) {
		CloogMatrix *m = to_matrix(b, n + npar + 2);
		CloogDomain *e = cloog_domain_from_cloog_matrix(st, m, npar);
		cloog_matrix_free(m);
		d = d ? cloog_domain_union(d, e) : e;
	}
	return d;
}
static std::string gen_text(Lib &lib, const std::string &text)
{
	CloogInput *in = load_text(lib, text);
	struct clast_stmt *root = cloog_clast_create_from_input(in, lib.opt);
	std::string s = pprint_to_string(root, lib.opt);
	cloog_clast_free(root);
	return s;
}

// Random layout of the same tokens: blank lines, comments, blanks.
static std::string relayout(Src &s, const std::string &text)
{
	std::string out;
	static const char *const cm[] = { "#\n", "# 1 2 3\n", "# a comment\n", "\t# indented 7 comment\n", "\n", "  \n", "#c\n", "\t\n" };
	size_t i = 0;
	bool first = true;
	while (i < text.size()) {
		size_t e = text.find('\n', i);
		if (e == std::string::npos) e = text.size();
		std::string l = text.substr(i, e - i);
		i = e + 1;
		if (l.empty() || l[0] == '#') continue;
		size_t h = l.find('#');
		if (h != std::string::npos) l = l.substr(0, h);
		while (s.chance(1, 4)) out += cm[s.pick(8)];
		std::string t;
		bool sp = true;
		if (s.chance(1, 5)) t += s.chance(1, 2) ? "\t" : "   ";
		for (char c : l) {
			if (c == ' ' || c == '\t') { sp = true; continue; }
			if (sp && !t.empty() && t.back() != ' ' && t.back() != '\t') t += s.chance(1, 6) ? (s.chance(1, 2) ? "\t" : "    ") : " ";
			sp = false;
			t += c;
		}
		if (s.chance(1, 6)) t += s.chance(1, 2) ? "  " : "\t";
		if (s.chance(1, 6)) t += " # trailing 4 5 6";
		out += t + "\n";
		first = false;
	}
	(void)first;
	while (s.chance(1, 4)) out += cm[s.pick(8)];
	return out;
}

static std::string rand_name(Src &s, int i, const char *base)
{
	std::string n = base;
	int len = s.chance(1, 4) ? s.range(1, 150) : s.range(0, 12);
	static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
	for (int k = 0; k < len; k++) n += al[s.pick(63)];
	return n + strf("_%d", i);
}

static void check_run(const Prob &p, struct clast_stmt *root, const std::vector<Vec> &par, const Opt &o, const std::vector<int> &perm, long *pts)
{
	auto pn = clast_param_names(root);
	Interp I;
	bool lorder = true;
	for (int l : o.ls) lorder &= l < 0 || l >= p.nscat;
	for (auto &v : par) {
		auto ev = run_clast(root, pn, v, p.window, &I);
		for (auto &e : ev) if (e.stmt >= 0 && e.stmt < (int)perm.size()) e.stmt = perm[e.stmt];
		check_exact(p, v, ev, p.window, pts);
		if (p.nscat && lorder) check_order(p, v, ev, 1000, o.f != 1);
	}
}
static void for_users(struct clast_stmt *s, const std::function<void(struct clast_user_stmt *)> &f)
{
	for (; s; s = s->next) {
		if (CLAST_STMT_IS_A(s, stmt_user)) f((struct clast_user_stmt *)s);
		else if (CLAST_STMT_IS_A(s, stmt_for)) for_users(((struct clast_for *)s)->body, f);
		else if (CLAST_STMT_IS_A(s, stmt_guard)) for_users(((struct clast_guard *)s)->then, f);
		else if (CLAST_STMT_IS_A(s, stmt_block)) for_users(((struct clast_block *)s)->body, f);
	}
}

static void expect_names(const std::vector<std::string> &want, char **got, int n, const char *what)
{
	if ((int)want.size() != n) throw Violation("names", strf("%d %s names instead of %zu", n, what, want.size()));
	for (int i = 0; i < n; i++)
		if (!got[i] || want[i] != got[i]) throw Violation("names", strf("%s %d is named '%s' instead of '%s'", what, i, got[i] ? got[i] : "(null)", want[i].c_str()));
}

// ---------------------------------------------------------------------- C09
static void route_case(Src &s, Result &r)
{
	GenCfg cfg;
	int route = s.weighted({ 30, 12, 25, 20, 15, 8 });
	cfg.allow_unbounded = true;
	cfg.allow_multi = true;
	cfg.union_ctx = true;
	cfg.maxdim = 5;
	cfg.maxpar = 3;
	cfg.maxscat = 4;
	cfg.names = false;
	if (route == 2) cfg.locals = false;
	if (route == 4) cfg.need_scat = true;
	if (route == 5) { cfg.maxstmt = 1; cfg.no_scat = true; }
	Prob p = gen_problem(s, cfg);
	Opt o = gen_options(s, p);
	o.save_domains = 0;
	auto par = gen_params(s, p, 3);
	// names
	bool np = p.npar && s.chance(1, 2), ni = p.maxdim() && s.chance(1, 2), nsn = p.nscat && s.chance(1, 2);
	if (np) for (int i = 0; i < p.npar; i++) p.pname.push_back(rand_name(s, i, "P"));
	if (ni) for (int i = 0; i < p.maxdim(); i++) p.iname.push_back(rand_name(s, i, "I"));
	if (nsn) for (int i = 0; i < p.nscat; i++) p.sname.push_back(rand_name(s, i, "C"));
	// route 5: names of iterators and parameters that clash with each other
	// or with the names that CLooG makes up
	std::vector<std::string> clash;
	if (route == 5 && s.chance(1, 2)) {
		static const char *const pool[] = { "i", "i_1", "i0", "i_2", "i1", "i_1_1", "i0_1", "n", "i1_1", "" };
		p.pname.clear(); p.iname.clear();
		int off = s.pick(9);
		for (int i = 0; i < p.npar; i++) p.pname.push_back(i < 9 ? pool[(off + i * (off % 2 ? 1 : 2)) % 9] : strf("q%d", i));
		for (int i = 0; i < p.maxdim(); i++) clash.push_back(pool[s.pick(10)]);
		r.labels.insert("clashing-names");
	}
	// all names of a kind stand on one line of at most 1023 characters
	auto total = [](const std::vector<std::string> &v) { size_t t = 0; for (auto &x : v) t += x.size() + 5; return t; };
	if (total(p.pname) > 900) p.pname.clear();
	if (total(p.iname) > 900) p.iname.clear();
	if (total(p.sname) > 900) p.sname.clear();
	if (route == 0 && p.bounded && s.chance(1, 8)) p.lang = 1;
	std::string text = cloog_text(p);
	static const char *const rn[] = { "layout", "format", "matrix", "isl", "union-map", "isl-set" };
	std::string show = render_case(text, o, par) + "route: " + rn[route] + "\n";
	for (auto &x : clash) show += "iterator '" + x + "'\n";
	r.labels.insert(std::string("route-") + rn[route]);
	label_problem(p, r);
	std::string text2;
	if (route == 0) text2 = relayout(s, text);
	if (route == 1) text2 = cloog_text(p, &s);
	if (route < 2) show += "---- other text ----\n" + text2;
	std::vector<std::string> stname;
	for (size_t i = 0; i < p.st.size(); i++) stname.push_back(route >= 2 ? (route == 2 || route == 3) && s.chance(1, 3) ? "" : rand_name(s, (int)i, "St") : "");
	r.show(show);
	r.hash = hash_str(rn[route] + o.str() + text2 + show, hash_str(text));
	if (route == 0) {
		Lib a, b;
		apply_options(o, a.opt);
		apply_options(o, b.opt);
		std::string t1 = gen_text(a, text), t2 = gen_text(b, text2);
		if (a.opt->language != b.opt->language) throw Violation("language", "language depends on the layout");
		if (a.opt->language != (p.lang ? CLOOG_LANGUAGE_FORTRAN : CLOOG_LANGUAGE_C)) throw Violation("language", "wrong language");
		if (t1 != t2) throw Violation("layout", "the generated code depends on the layout of the input:\n" + t1 + "\nversus\n" + t2);
		r.units = (long)t1.size();
		if (t1.size() < 10) r.st = ST_TRIVIAL;
		return;
	}
	if (par.empty()) { r.st = ST_TRIVIAL; return; }
	Lib lib(route >= 2 && s.chance(1, 2));
	apply_options(o, lib.opt);
	isl_ctx *ctx = nullptr;
	std::vector<int> usr(p.st.size());
	std::vector<int> perm;
	std::vector<std::string> wantp = p.pname, wanti = p.iname;
	CloogInput *in = nullptr;
	if (route == 1) in = load_text(lib, text2);
	else {
		CloogUnionDomain *ud = nullptr;
		CloogDomain *cd = nullptr;
		// a context of the state's isl_ctx
		CloogDomain *u0 = cloog_domain_universe(lib.state, 0);
		ctx = isl_set_get_ctx(isl_set_from_cloog_domain(u0));
		if (lib.own && lib.own != ctx) throw Violation("ctx", "the state does not use the isl_ctx it was given");
		Dom c;
		c.n = 0;
		c.bs = p.ctx;
		if (route == 2) cd = matrix_domain(lib.state, p.ctx, 0, p.npar);
		else {
			isl_set *cs = dom_to_isl(ctx, c, p.npar);
			for (int k = 0; k < p.npar && route >= 4 && !p.pname.empty(); k++) cs = isl_set_set_dim_name(cs, isl_dim_param, k, p.pname[k].c_str());
			cd = cloog_domain_from_isl_set(cs);
		}
		if (route == 2 || route == 3) {
			ud = cloog_union_domain_alloc(p.npar);
			for (size_t i = 0; i < p.st.size(); i++) {
				Stmt &t = p.st[i];
				CloogDomain *d;
				CloogScattering *sc = nullptr;
				if (route == 2) {
					d = matrix_domain(lib.state, t.dom.bs, t.dom.n, p.npar);
					if (p.nscat) {
						CloogMatrix *m = to_matrix(t.scat, p.nscat + t.dom.n + p.npar + 2);
						sc = cloog_scattering_from_cloog_matrix(lib.state, m, p.nscat, p.npar);
						cloog_matrix_free(m);
					}
				} else {
					d = cloog_domain_from_isl_set(dom_to_isl(ctx, t.dom, p.npar));
					if (p.nscat) sc = cloog_scattering_from_isl_map(scat_to_isl(ctx, p, t));
				}
				if (cloog_domain_dimension(d) != t.dom.n) throw Violation("dimension", strf("domain of dimension %d instead of %d", cloog_domain_dimension(d), t.dom.n));
				if (cloog_domain_parameter_dimension(d) != p.npar) throw Violation("dimension", "wrong number of parameters of a domain");
				if (sc && cloog_scattering_dimension(sc, d) != p.nscat) throw Violation("dimension", "wrong number of scattering dimensions");
				ud = cloog_union_domain_add_domain(ud, stname[i].empty() ? nullptr : stname[i].c_str(), d, sc, &usr[i]);
			}
		} else if (route == 4) {
			isl_union_map *um = nullptr;
			for (size_t i = 0; i < p.st.size(); i++) {
				isl_map *m = scat_to_isl(ctx, p, p.st[i]);
				m = isl_map_intersect_domain(m, dom_to_isl(ctx, p.st[i].dom, p.npar));
				m = isl_map_set_tuple_name(m, isl_dim_in, stname[i].c_str());
				for (int k = 0; k < p.npar && np && !p.pname.empty(); k++) m = isl_map_set_dim_name(m, isl_dim_param, k, p.pname[k].c_str());
				isl_union_map *x = isl_union_map_from_map(m);
				um = um ? isl_union_map_union(um, x) : x;
			}
			if (p.pname.empty()) for (int k = 0; k < p.npar; k++) wantp.push_back(strf("p%d", k));
			ud = cloog_union_domain_from_isl_union_map(um);
		} else {
			isl_set *st = dom_to_isl(ctx, p.st[0].dom, p.npar);
			st = isl_set_set_tuple_name(st, stname[0].c_str());
			for (int k = 0; k < p.npar && !p.pname.empty(); k++) st = isl_set_set_dim_name(st, isl_dim_param, k, p.pname[k].c_str());
			if (!clash.empty()) {
				// iterators without names, then some with
				int n = p.st[0].dom.n;
				isl_space *named = isl_set_get_space(st), *bare = isl_space_add_dims(isl_space_drop_dims(isl_space_copy(named), isl_dim_set, 0, n), isl_dim_set, n);
				st = isl_set_apply(st, isl_map_identity(isl_space_map_from_domain_and_range(named, bare)));
				st = isl_set_set_tuple_name(st, stname[0].c_str());
				for (int k = 0; k < n; k++) if (!clash[k].empty()) st = isl_set_set_dim_name(st, isl_dim_set, k, clash[k].c_str());
				wanti.clear();
			} else {
			if (p.iname.empty()) for (int k = 0; k < p.st[0].dom.n; k++) wanti.push_back(strf("x%d", k));
			for (int k = 0; k < p.st[0].dom.n && !p.iname.empty(); k++) st = isl_set_set_dim_name(st, isl_dim_set, k, p.iname[k].c_str());
			}
			if (p.pname.empty()) for (int k = 0; k < p.npar; k++) wantp.push_back(strf("p%d", k));
			ud = cloog_union_domain_from_isl_set(st);
		}
		if (route == 2 || route == 3) for (size_t k = 0; k < p.pname.size(); k++) ud = cloog_union_domain_set_name(ud, CLOOG_PARAM, (int)k, p.pname[k].c_str());
		// a union map drops empty relations, and their dimensions with them
		if (route == 4 && (ud->n_name[CLOOG_ITER] != p.maxdim() || ud->n_name[CLOOG_SCAT] != p.nscat)) { p.iname.clear(); wanti.clear(); p.sname.clear(); }
		if (route != 5) for (size_t k = 0; k < p.iname.size(); k++) ud = cloog_union_domain_set_name(ud, CLOOG_ITER, (int)k, p.iname[k].c_str());
		for (size_t k = 0; k < p.sname.size(); k++) ud = cloog_union_domain_set_name(ud, CLOOG_SCAT, (int)k, p.sname[k].c_str());
		cloog_domain_free(u0);
		in = cloog_input_alloc(cd, ud);
		if (route != 4 && (ud->n_name[CLOOG_ITER] != p.maxdim() || ud->n_name[CLOOG_PARAM] != p.npar || ud->n_name[CLOOG_SCAT] != p.nscat)) throw Violation("dimension", "wrong numbers of names in the union domain");
		if (route >= 4) {
			// statement order of the union is free; match by name
			int i = 0;
			for (CloogNamedDomainList *l = ud->domain; l; l = l->next, i++) {
				int k = -1;
				for (size_t j = 0; j < stname.size(); j++) if (l->name && stname[j] == l->name) k = (int)j;
				if (k < 0) throw Violation("names", strf("unknown statement '%s' in the union domain", l->name ? l->name : "(null)"));
				perm.push_back(k);
			}
		}
	}
	if (perm.empty()) for (size_t i = 0; i < p.st.size(); i++) perm.push_back((int)i);
	struct clast_stmt *root = cloog_clast_create_from_input(in, lib.opt);
	std::string code = pprint_to_string(root, lib.opt);
	r.show(r.render + "---- generated code ----\n" + code);
	CloogNames *n = ((struct clast_root *)root)->names;
	if (!wantp.empty()) expect_names(wantp, n->parameters, n->nb_parameters, "parameter");
	if (!wanti.empty()) expect_names(wanti, n->iterators, n->nb_iterators, "iterator");
	for (int i = 0; i < n->nb_iterators && !clash.empty(); i++) {
		for (int j = 0; j < i; j++) if (!strcmp(n->iterators[i], n->iterators[j])) throw Violation("names", strf("two iterators are called '%s'", n->iterators[i]));
		for (int j = 0; j < n->nb_parameters; j++) if (!strcmp(n->iterators[i], n->parameters[j])) throw Violation("names", strf("an iterator and a parameter are called '%s'", n->iterators[i]));
		if (strncmp(n->iterators[i], clash[i].c_str(), clash[i].size())) throw Violation("names", strf("iterator '%s' is called '%s'", clash[i].c_str(), n->iterators[i]));
	}
	if (n->nb_parameters != p.npar) throw Violation("names", strf("%d parameters in the AST", n->nb_parameters));
	if (!p.sname.empty()) {
		// scalar dimensions move to the list of scalars
		std::multiset<std::string> want(p.sname.begin(), p.sname.end()), got;
		for (int i = 0; i < n->nb_scattering; i++) got.insert(n->scattering[i]);
		for (int i = 0; i < n->nb_scalars; i++) got.insert(n->scalars[i]);
		if (want != got) throw Violation("names", "scattering dimension names are not those given");
	}
	if (route >= 2) for_users(root, [&](struct clast_user_stmt *u) {
		int k = u->statement->number - 1;
		if (k < 0 || k >= (int)perm.size()) throw Violation("statement", strf("statement number %d", k + 1));
		k = perm[k];
		const char *nm = u->statement->name;
		if (stname[k] != (nm ? nm : "")) throw Violation("names", strf("statement %d is named '%s' instead of '%s'", k + 1, nm ? nm : "(null)", stname[k].c_str()));
		if (route <= 3 && u->statement->usr != &usr[k]) throw Violation("usr", strf("statement %d lost its user pointer", k + 1));
		if (!stname[k].empty() && code.find(stname[k] + "(") == std::string::npos && code.find(stname[k] + ";") == std::string::npos) throw Violation("names", "statement name does not appear in the code: " + stname[k]);
	});
	long pts = 0;
	if (p.lang == 0) check_run(p, root, par, o, perm, &pts);
	r.units = pts;
	if (pts < 2) r.st = ST_TRIVIAL;
	cloog_clast_free(root);
}

// ---------------------------------------------------------------------- C10
static void check_same_set(CloogDomain *a, CloogDomain *b, const char *what)
{
	if (!isl_set_is_equal(isl_set_from_cloog_domain(a), isl_set_from_cloog_domain(b))) throw Violation("roundtrip", strf("%s changes by dump and read", what));
}
static void dump_case(Src &s, Result &r)
{
	GenCfg cfg;
	cfg.allow_unbounded = true;
	cfg.allow_multi = true;
	cfg.union_ctx = true;
	cfg.maxdim = 5;
	cfg.maxpar = 4;
	cfg.maxscat = 5;
	cfg.maxstmt = 6;
	cfg.fortran = s.chance(1, 4);
	Prob p = gen_problem(s, cfg);
	if (s.chance(1, 3)) {
		// names of any length
		for (auto *v : { &p.pname, &p.iname, &p.sname }) for (size_t i = 0; i < v->size(); i++) (*v)[i] = rand_name(s, (int)i, "n");
		r.labels.insert("long-names");
	}
	Opt o;
	auto par = gen_params(s, p, 3);
	std::string text = cloog_text(p, s.chance(1, 2) ? &s : nullptr);
	r.show(render_case(text, o, par));
	r.hash = hash_str(text);
	label_problem(p, r);
	Lib a, b;
	(void)b;
	CloogInput *in = load_text(a, text);
	char *buf = nullptr;
	size_t len = 0;
	FILE *f = open_memstream(&buf, &len);
	cloog_input_dump_cloog(f, in, a.opt);
	fclose(f);
	std::string d1(buf, len);
	free(buf);
	r.show(r.render + "---- dump ----\n" + d1);
	int lang = a.opt->language;
	a.opt->language = lang == CLOOG_LANGUAGE_C ? CLOOG_LANGUAGE_FORTRAN : CLOOG_LANGUAGE_C;
	CloogInput *in2 = load_text(a, d1);
	if (a.opt->language != lang) throw Violation("language", "the language changes by dump and read");
	check_same_set(in->context, in2->context, "the context");
	for (int t = 0; t < 3; t++) {
		if (in->ud->n_name[t] != in2->ud->n_name[t]) throw Violation("names", "the number of names changes by dump and read");
		if (!in->ud->name[t] != !in2->ud->name[t]) throw Violation("names", "names appear or disappear by dump and read");
		if (in->ud->name[t]) for (int i = 0; i < in->ud->n_name[t]; i++)
			if (strcmp(in->ud->name[t][i], in2->ud->name[t][i])) throw Violation("names", strf("name '%s' becomes '%s'", in->ud->name[t][i], in2->ud->name[t][i]));
	}
	CloogNamedDomainList *x = in->ud->domain, *y = in2->ud->domain;
	int n = 0;
	for (; x && y; x = x->next, y = y->next, n++) {
		check_same_set(x->domain, y->domain, "a domain");
		if (!x->scattering != !y->scattering) throw Violation("roundtrip", "scattering lost");
		if (x->scattering && !isl_map_is_equal((isl_map *)x->scattering, (isl_map *)y->scattering)) throw Violation("roundtrip", "a scattering changes by dump and read");
	}
	if (x || y || n != (int)p.st.size()) throw Violation("roundtrip", "the number of statements changes by dump and read");
	// the input itself is unchanged by dumping, and the copy generates right code
	cloog_input_free(in);
	struct clast_stmt *root = cloog_clast_create_from_input(in2, a.opt);
	long pts = 0;
	std::vector<int> perm;
	for (int i = 0; i < n; i++) perm.push_back(i);
	check_run(p, root, par, o, perm, &pts);
	cloog_clast_free(root);
	r.units = pts;
	if (pts < 2) r.st = ST_TRIVIAL;
}

// ---------------------------------------------------------------------- C11
static void ref_filter(struct clast_stmt *s, const ClastFilter &f, std::set<struct clast_for *> &loops, std::set<int> &stmts)
{
	for (; s; s = s->next) {
		if (CLAST_STMT_IS_A(s, stmt_user)) stmts.insert(((struct clast_user_stmt *)s)->statement->number);
		else if (CLAST_STMT_IS_A(s, stmt_guard)) ref_filter(((struct clast_guard *)s)->then, f, loops, stmts);
		else if (CLAST_STMT_IS_A(s, stmt_block)) ref_filter(((struct clast_block *)s)->body, f, loops, stmts);
		else if (CLAST_STMT_IS_A(s, stmt_for)) {
			struct clast_for *l = (struct clast_for *)s;
			std::set<int> in;
			ref_filter(l->body, f, loops, in);
			stmts.insert(in.begin(), in.end());
			bool ok = !f.iter || !strcmp(f.iter, l->iterator);
			if (ok && f.stmts_filter) {
				std::set<int> w(f.stmts_filter, f.stmts_filter + f.nstmts_filter);
				ok = f.filter_type == exact ? in == w : std::includes(w.begin(), w.end(), in.begin(), in.end());
			}
			if (ok) loops.insert(l);
		}
	}
}
static void collect(struct clast_stmt *s, std::vector<struct clast_stmt *> &nodes, std::set<std::string> &iters)
{
	for (; s; s = s->next) {
		nodes.push_back(s);
		if (CLAST_STMT_IS_A(s, stmt_for)) { iters.insert(((struct clast_for *)s)->iterator); collect(((struct clast_for *)s)->body, nodes, iters); }
		else if (CLAST_STMT_IS_A(s, stmt_guard)) collect(((struct clast_guard *)s)->then, nodes, iters);
		else if (CLAST_STMT_IS_A(s, stmt_block)) collect(((struct clast_block *)s)->body, nodes, iters);
	}
}
static void filter_case(Src &s, Result &r)
{
	GenCfg cfg;
	cfg.maxstmt = 8;
	cfg.maxdim = 4;
	cfg.maxpar = 3;
	cfg.maxscat = 5;
	cfg.union_ctx = true;
	cfg.allow_unbounded = true;
	Prob p = gen_problem(s, cfg);
	Opt o = gen_options(s, p);
	std::string text = cloog_text(p);
	Lib lib;
	apply_options(o, lib.opt);
	r.show(render_case(text, o, {}));
	struct clast_stmt *root = cloog_clast_create_from_input(load_text(lib, text), lib.opt);
	label_problem(p, r);
	label_ast(root, r);
	std::vector<struct clast_stmt *> nodes;
	std::set<std::string> iters;
	collect(root->next, nodes, iters);
	std::string base = r.render + "---- generated code ----\n" + pprint_to_string(root, lib.opt);
	r.hash = hash_str(o.str(), hash_str(text));
	std::vector<std::string> iv(iters.begin(), iters.end());
	int q = s.range(2, 8), maxl = 0;
	int ns = (int)p.st.size();
	for (int k = 0; k < q; k++) {
		ClastFilter f;
		std::string it;
		f.iter = nullptr;
		if (s.chance(1, 2)) { it = iv.empty() || s.chance(1, 8) ? "nobody" : iv[s.pick((uint32_t)iv.size())]; f.iter = it.c_str(); }
		f.filter_type = s.chance(1, 2) ? exact : subset;
		std::vector<int> w;
		for (int i = 1; i <= ns; i++) if (s.chance(3, 5)) w.push_back(i);
		if (s.chance(1, 4)) std::reverse(w.begin(), w.end());
		if (s.chance(1, 8)) w.push_back(ns + 1 + s.pick(3));
		bool nofilter = s.chance(1, 8);
		std::vector<int> store = w;
		store.push_back(0);
		f.stmts_filter = nofilter ? nullptr : store.data();
		f.nstmts_filter = nofilter ? 0 : (int)w.size();
		struct clast_stmt *start = s.chance(1, 4) && !nodes.empty() ? nodes[s.pick((uint32_t)nodes.size())] : root;
		std::string qs = strf("query %d: iterator %s, %s, statements", k, f.iter ? f.iter : "any", f.filter_type == exact ? "exact" : "subset");
		for (int x : w) qs += strf(" %d", x);
		if (nofilter) qs += " (no filter)";
		r.show(base + qs + (start == root ? "\n" : " from an inner statement\n"));
		std::set<struct clast_for *> wl;
		std::set<int> ws;
		ref_filter(start == root ? root->next : start, f, wl, ws);
		struct clast_for **loops = nullptr;
		int *st = nullptr, nl = -1, nst = -1;
		clast_filter(start, f, &loops, &nl, &st, &nst);
		std::set<struct clast_for *> gl(loops, loops + nl);
		std::set<int> gs(st, st + nst);
		if ((int)gl.size() != nl) throw Violation("duplicate", "a loop is listed twice");
		if ((int)gs.size() != nst) throw Violation("duplicate", "a statement is listed twice");
		if (gs != ws) throw Violation("statements", strf("%d statements listed, %zu below the node", nst, ws.size()));
		if (gl != wl) throw Violation("loops", strf("%d loops listed, %zu match the filter", nl, wl.size()));
		maxl = std::max(maxl, nl);
		if (nl > 0) r.labels.insert(f.filter_type == exact ? "exact-hit" : "subset-hit");
		free(loops);
		free(st);
	}
	cloog_clast_free(root);
	r.units = q;
	if (iters.empty() || maxl == 0) r.st = ST_TRIVIAL;
}

// ---------------------------------------------------------------------- C12
struct Job { std::string text; Opt o; std::string want; int stage = 0; CloogInput *in = nullptr; CloogProgram *prog = nullptr; struct clast_stmt *root = nullptr; int host = 0; CloogOptions *opt = nullptr; bool viaprog = false; bool printed = false; };
static void history_case(Src &s, Result &r)
{
	int nj = s.range(2, 4);
	std::vector<Job> js(nj);
	std::string show;
	long units = 0;
	for (int i = 0; i < nj; i++) {
		GenCfg cfg;
		cfg.allow_multi = true;
		cfg.union_ctx = true;
		cfg.allow_unbounded = true;
		cfg.maxdim = 4;
		cfg.fortran = s.chance(1, 6);
		if (cfg.fortran) cfg.allow_unbounded = false;
		if (i && s.chance(1, 4)) { js[i].text = js[0].text; js[i].o = js[0].o; }
		else {
			Prob p = gen_problem(s, cfg);
			js[i].o = gen_options(s, p);
			js[i].text = cloog_text(p);
			if (i == 0) label_problem(p, r);
		}
		js[i].viaprog = s.chance(1, 3);
		show += strf("---- job %d%s, options:", i, js[i].viaprog ? " (program)" : "") + js[i].o.str() + "\n" + js[i].text;
	}
	r.show(show);
	r.hash = hash_str(show);
	// reference: every job alone, in a state of its own
	for (auto &j : js) {
		Lib l;
		apply_options(j.o, l.opt);
		j.want = gen_text(l, j.text);
		units += (long)j.want.size();
	}
	// the same jobs interleaved on one or two shared states
	int ns = s.range(1, 2);
	std::vector<CloogState *> st;
	isl_ctx *own = nullptr;
	for (int i = 0; i < ns; i++) {
		if (i == 0 && s.chance(1, 3)) { own = isl_ctx_alloc(); st.push_back(cloog_isl_state_malloc(own)); }
		else st.push_back(cloog_state_malloc());
	}
	for (auto &j : js) {
		j.host = s.pick(ns);
		j.opt = cloog_options_malloc(st[j.host]);
		j.opt->quiet = 1;
		apply_options(j.o, j.opt);
	}
	std::string order = "schedule:";
	int left = nj;
	while (left) {
		std::vector<int> live;
		for (int i = 0; i < nj; i++) if (js[i].stage < 4) live.push_back(i);
		int i = live[s.pick((uint32_t)live.size())];
		Job &j = js[i];
		order += strf(" %d.%d", i, j.stage);
		r.show(show + order + "\n");
		switch (j.stage) {
		case 0: {
			FILE *f = fmemopen((void *)j.text.data(), j.text.size(), "r");
			if (j.viaprog) j.prog = cloog_program_read(f, j.opt);
			else j.in = cloog_input_read(f, j.opt);
			fclose(f);
			break;
		}
		case 1:
			if (j.viaprog) j.prog = cloog_program_generate(j.prog, j.opt);
			else j.root = cloog_clast_create_from_input(j.in, j.opt);
			break;
		case 2:
			if (j.viaprog) {
				j.root = cloog_clast_create(j.prog, j.opt);
				if (s.chance(1, 2)) { cloog_program_free(j.prog); j.prog = nullptr; }
			}
			// fall through
		case 3: {
			if (j.stage == 2 && s.chance(1, 2)) break;
			std::string t = pprint_to_string(j.root, j.opt);
			if (t != j.want) throw Violation("history", strf("job %d produces different code after this history:\n", i) + t + "instead of\n" + j.want);
			break;
		}
		}
		j.stage++;
		if (j.stage == 4) {
			cloog_clast_free(j.root);
			if (j.prog) cloog_program_free(j.prog);
			cloog_options_free(j.opt);
			left--;
		}
	}
	for (auto *x : st) {
		if (x->domain_allocated != x->domain_freed || x->loop_allocated != x->loop_freed || x->statement_allocated != x->statement_freed || x->block_allocated != x->block_freed)
			throw Violation("counters", strf("allocated/freed: domains %d/%d loops %d/%d statements %d/%d blocks %d/%d", x->domain_allocated, x->domain_freed,
				x->loop_allocated, x->loop_freed, x->statement_allocated, x->statement_freed, x->block_allocated, x->block_freed));
		cloog_state_free(x);
	}
	if (own) isl_ctx_free(own);
	r.units = units;
	if (units < 40) r.st = ST_TRIVIAL;
}

// ---------------------------------------------------------------------- C14
// Position of a parameter vector and point in an isl set.
static bool isl_has(isl_set *set, const Vec &x, const Vec &par)
{
	isl_set *t = isl_set_copy(set);
	isl_ctx *ctx = isl_set_get_ctx(set);
	for (size_t i = 0; i < par.size(); i++) t = isl_set_fix_val(t, isl_dim_param, (unsigned)i, isl_val_read_from_str(ctx, zstr(par[i]).c_str()));
	for (size_t i = 0; i < x.size(); i++) t = isl_set_fix_val(t, isl_dim_set, (unsigned)i, isl_val_read_from_str(ctx, zstr(x[i]).c_str()));
	bool r = isl_set_is_empty(t) == isl_bool_false;
	isl_set_free(t);
	return r;
}
// Statements blocked with another one carry the domain of the first statement
// of the block (known finding block-domain).
static void find_blocked(struct clast_stmt *s, std::set<struct clast_user_stmt *> &out)
{
	struct clast_user_stmt *prev = nullptr;
	for (; s; s = s->next) {
		struct clast_user_stmt *u = CLAST_STMT_IS_A(s, stmt_user) ? (struct clast_user_stmt *)s : nullptr;
		if (prev && u && prev->domain && u->domain && isl_set_plain_is_equal(isl_set_from_cloog_domain(prev->domain), isl_set_from_cloog_domain(u->domain))) out.insert(u);
		prev = u;
		if (CLAST_STMT_IS_A(s, stmt_for)) find_blocked(((struct clast_for *)s)->body, out);
		else if (CLAST_STMT_IS_A(s, stmt_guard)) find_blocked(((struct clast_guard *)s)->then, out);
		else if (CLAST_STMT_IS_A(s, stmt_block)) find_blocked(((struct clast_block *)s)->body, out);
	}
}
struct PtCol { std::set<Vec> pts; size_t limit; int n; };
static isl_stat add_pt(isl_point *p, void *u)
{
	PtCol *c = (PtCol *)u;
	Vec v;
	for (int i = 0; i < c->n; i++) {
		isl_val *x = isl_point_get_coordinate_val(p, isl_dim_set, i);
		v.push_back(isl_val_get_num_si(x));
		isl_val_free(x);
	}
	isl_point_free(p);
	c->pts.insert(v);
	return c->pts.size() > c->limit ? isl_stat_error : isl_stat_ok;
}
static void saved_case(Src &s, Result &r)
{
	GenCfg cfg;
	cfg.maxdim = 4;
	cfg.maxpar = 3;
	cfg.maxstmt = 5;
	cfg.need_scat = true;
	Prob p = gen_problem(s, cfg);
	Opt o = gen_options(s, p);
	o.save_domains = 1;
	o.noscalars = 1;
	auto par = gen_params(s, p, 3);
	std::string text = cloog_text(p);
	r.show(render_case(text, o, par));
	r.hash = hash_str(o.str(), hash_str(text));
	label_problem(p, r);
	label_opt(o, r);
	if (par.empty()) { r.st = ST_TRIVIAL; return; }
	Lib lib;
	apply_options(o, lib.opt);
	struct clast_stmt *root = cloog_clast_create_from_input(load_text(lib, text), lib.opt);
	std::string code = pprint_to_string(root, lib.opt);
	r.show(r.render + "---- generated code ----\n" + code);
	auto pn = clast_param_names(root);
	// without the option there are no domains
	{
		Lib l2;
		Opt o2 = o;
		o2.save_domains = 0;
		apply_options(o2, l2.opt);
		struct clast_stmt *r2 = cloog_clast_create_from_input(load_text(l2, text), l2.opt);
		for_users(r2, [](struct clast_user_stmt *u) { if (u->domain) throw Violation("domain", "domain set although save_domains is off"); });
		cloog_clast_free(r2);
	}
	long checks = 0;
	std::set<struct clast_user_stmt *> blocked;
	if (!o.noblocks) find_blocked(root, blocked);
	if (!blocked.empty()) r.labels.insert("known-block-domain");
	for (auto &v : par) {
		std::map<struct clast_user_stmt *, std::set<Vec>> done;
		std::map<struct clast_for *, std::set<Vec>> inside;
		std::vector<struct clast_for *> active;
		Interp I;
		I.on_for = [&](Interp &, struct clast_for *f, bool enter) { if (enter) active.push_back(f); else active.pop_back(); };
		bool multi = false;
		I.after_user = [&](Interp &in, struct clast_user_stmt *u) {
			Event &e = in.ev.back();
			auto d = dates(p, p.st[e.stmt], e.x, v, 0);
			if (d.size() != 1) { multi = true; return; }
			done[u].insert(d[0]);
			if (blocked.count(u)) return;
			for (auto *f : active) inside[f].insert(d[0]);
		};
		run_clast(root, pn, v, 0, &I);
		if (multi) continue;
		std::string where = ", parameters " + vecstr(v);
		for_users(root, [&](struct clast_user_stmt *u) {
			if (!u->domain) throw Violation("domain", "no domain for a user statement");
			if (blocked.count(u)) return;
			isl_set *set = isl_set_from_cloog_domain(u->domain);
			if (isl_set_dim(set, isl_dim_set) != p.nscat) throw Violation("domain", strf("domain of dimension %d, %d scattering dimensions", (int)isl_set_dim(set, isl_dim_set), p.nscat));
			auto &D = done[u];
			int k = 0;
			for (auto &x : D) {
				if (++k > 200) break;
				if (!isl_has(set, x, v)) throw Violation("domain", strf("S%d is executed at %s, outside of its saved domain", u->statement->number, vecstr(x).c_str()) + where);
				checks++;
			}
			isl_set *t = isl_set_copy(set);
			for (size_t i = 0; i < v.size(); i++) t = isl_set_fix_val(t, isl_dim_param, (unsigned)i, isl_val_read_from_str(isl_set_get_ctx(t), zstr(v[i]).c_str()));
			t = isl_set_project_out(t, isl_dim_param, 0, (unsigned)v.size());
			if (isl_set_is_bounded(t) != isl_bool_true) throw Violation("domain", "the saved domain is not bounded, the executions are" + where);
			PtCol c;
			c.limit = 3000;
			c.n = p.nscat;
			isl_stat st = isl_set_foreach_point(t, add_pt, &c);
			isl_set_free(t);
			if (st != isl_stat_ok) return;
			for (auto &x : c.pts) if (!D.count(x)) throw Violation("domain", strf("the saved domain of S%d holds %s, which is not executed", u->statement->number, vecstr(x).c_str()) + where);
			checks += (long)c.pts.size();
		});
		for (auto &q : inside) {
			if (!q.first->domain) continue;
			isl_set *set = isl_set_from_cloog_domain(q.first->domain);
			int n = (int)isl_set_dim(set, isl_dim_set), k = 0;
			if (n > p.nscat) throw Violation("domain", "domain of a loop has more dimensions than the scattering");
			for (auto &x : q.second) {
				if (++k > 200) break;
				Vec y(x.begin(), x.begin() + n);
				if (!isl_has(set, y, v)) throw Violation("domain", strf("an instance is executed at %s, outside of the saved domain of loop %s", vecstr(x).c_str(), q.first->iterator) + where);
				checks++;
			}
		}
	}
	cloog_clast_free(root);
	r.units = checks;
	if (checks < 4) r.st = ST_TRIVIAL;
}

static RegProp c09({ "C09", "one case = one problem given by two routes (same file laid out differently; PolyLib or extended format; CloogMatrix; isl sets and maps; isl union map; isl set), names, user pointers and executed instances compared; non-trivial = distinct case with at least 2 executed instances (layout: code of at least 10 bytes)",
	route_case, 20, false, 10000, 200000 });
static RegProp c10({ "C10", "one case = cloog_input_dump_cloog of a generated input read back: context, domains, scatterings, names and language compared, code generated from the copy executed; non-trivial = distinct input with at least 2 executed instances",
	dump_case, 20, false, 9000, 200000 });
static RegProp c11({ "C11", "one case = 2 to 8 clast_filter queries on a generated AST compared with a reference traversal; non-trivial = distinct AST where at least one query finds a loop",
	filter_case, 20, false, 8000, 200000 });
static RegProp c12({ "C12", "one case = 2 to 4 jobs whose stages (read, generate, build AST, print, free) are interleaved on one or two shared states, each compared with the same job alone; non-trivial = distinct history with at least 40 bytes of code",
	history_case, 30, false, 2800, 100000 });
static RegProp c14({ "C14", "one case = AST with saved domains executed for up to 3 parameter vectors, domain of every user statement compared with the dates it is executed at; non-trivial = distinct case with at least 4 dates compared",
	saved_case, 20, false, 6000, 150000 });

static RegKnown k14("C14 block-domain", []() {
	const char *t = "c\n0 2 0 0 0 0\n0\n2\n1\n2 3\n1 1 0\n1 -1 0\n0 0 0\n1\n2 3\n1 1 0\n1 -1 0\n0 0 0\n0\n2\n"
			"3 6\n0 1 0 0 0 0\n0 0 1 0 -1 0\n0 0 0 1 0 0\n3 6\n0 1 0 0 0 0\n0 0 1 0 -1 0\n0 0 0 1 0 -1\n0\n";
	Lib lib;
	lib.opt->noscalars = 1;
	lib.opt->save_domains = 1;
	struct clast_stmt *root = cloog_clast_create_from_input(load_text(lib, t), lib.opt);
	bool wrong = false;
	for_users(root, [&](struct clast_user_stmt *u) {
		if (u->statement->number == 2) wrong |= !isl_has(isl_set_from_cloog_domain(u->domain), { 0, 0, 1 }, {});
	});
	cloog_clast_free(root);
	return wrong;
});
