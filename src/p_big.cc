// C15 large numbers: a problem and its translate by huge distances have the
// same executions, up to the translation.
#include "ctext.h"

extern std::vector<TCall> text_trace_c(const TProg &g, const std::vector<std::string> &pn, const Vec &v);

static Z huge(Src &s)
{
	if (s.chance(1, 5)) return s.sgn(9);
	Z b;
	switch (s.pick(9)) {
	case 0: b = (Z)1 << 31; break;
	case 1: b = (Z)1 << 32; break;
	case 2: b = (Z)1 << 53; break;
	case 3: b = (Z)1 << 62; break;
	case 4: b = (Z)1 << 63; break;
	case 5: b = (Z)1 << 64; break;
	case 6: b = (Z)1 << 80; break;
	case 7: b = (Z)10000000000LL * 10000000000LL * 1000; break;
	default: b = (Z)1000000007LL * 1000003; break;
	}
	b += s.sgn(40);
	return s.chance(1, 2) ? -b : b;
}

static void shift_rows(BSet &b, const Vec &d, const Vec &p, Z mul)
{
	for (auto &r : b.rows) {
		Z c = 0;
		for (size_t k = 0; k < d.size(); k++) c += r.c[k] * d[k];
		for (size_t k = 0; k < p.size(); k++) c += r.c[d.size() + b.nloc + k] * p[k];
		r.c.back() -= c;
		if (mul != 1) for (auto &x : r.c) x *= mul;
	}
}

static void big_case(Src &s, Result &r)
{
	GenCfg cfg;
	cfg.maxstmt = 5;
	cfg.maxdim = 4;
	cfg.maxpar = 3;
	cfg.maxscat = 4;
	cfg.allow_multi = true;
	cfg.union_ctx = true;
	bool spread = s.chance(1, 4);
	if (spread) cfg.locals = false, cfg.need_scat = true, cfg.allow_multi = false;
	Prob p = gen_problem(s, cfg);
	Opt o = gen_options(s, p);
	auto par = gen_params(s, p, 3);
	// the translation
	Vec bp, bs;
	for (int k = 0; k < p.npar; k++) bp.push_back(huge(s));
	for (int k = 0; k < p.nscat; k++) bs.push_back(spread ? s.sgn(20) : huge(s));
	Vec bi;
	for (int k = 0; k < p.maxdim(); k++) bi.push_back(spread ? s.sgn(20) : huge(s));
	if (spread) for (auto &x : bp) x = s.sgn(50);
	bool own = s.chance(1, 3) && !spread;
	std::vector<Vec> sh;
	Prob q = p;
	Z mul = s.chance(1, 4) ? huge(s) : 1;
	if (mul <= 0 || mul > ((Z)1 << 33)) mul = 1;
	for (auto &b : q.ctx) shift_rows(b, {}, bp, mul);
	for (auto &t : q.st) {
		Vec d(bi.begin(), bi.begin() + t.dom.n);
		if (own) for (auto &x : d) x = huge(s);
		sh.push_back(d);
		for (auto &b : t.dom.bs) shift_rows(b, d, bp, mul);
		if (p.nscat) {
			Vec e = bs;
			e.insert(e.end(), d.begin(), d.end());
			shift_rows(t.scat, e, bp, 1);
		}
	}
	// A scattering dimension stretched by a huge factor: dates K * s.
	if (spread && p.nscat) {
		int e = (int)s.pick(p.nscat);
		Z K = huge(s);
		if (K < 0) K = -K;
		if (K > 1 && K < ((Z)1 << 66)) {
			o.strides = 1;
			for (auto &t : q.st) for (auto &row : t.scat.rows) {
				if (row.c[e] == 0) continue;
				for (auto &z : row.c) if (z > ((Z)1 << 40) || -z > ((Z)1 << 40)) throw Inconclusive("stretched too far");
				// a s + rest >= 0  ->  a s' + K rest >= 0 with s' = K s
				for (size_t k = 0; k < row.c.size(); k++) if ((int)k != e) row.c[k] *= K;
			}
			bool eqs = true;
			for (auto &t : q.st) {
				bool has = false;
				for (auto &row : t.scat.rows) if (row.eq && (row.c[e] == 1 || row.c[e] == -1)) has = true;
				eqs &= has;
			}
			if (!eqs) throw Inconclusive("dates that need an existential");
			r.labels.insert("stretched");
		}
	}
	std::string text = cloog_text(q);
	std::string tr = "translation: parameters " + vecstr(bp) + " dates " + vecstr(bs);
	for (auto &d : sh) tr += " instances " + vecstr(d);
	r.show(render_case(text, o, par) + tr + "\n");
	r.hash = hash_str(o.str(), hash_str(text));
	label_problem(p, r);
	label_opt(o, r);
	Lib lib;
	apply_options(o, lib.opt);
	CloogInput *in = load_text(lib, text);
	struct clast_stmt *root = cloog_clast_create_from_input(in, lib.opt);
	label_ast(root, r);
	std::string code = pprint_to_string(root, lib.opt);
	r.show(r.render + "---- generated code ----\n" + code);
	auto pn = clast_param_names(root);
	TProg g = parse_c(code);
	int olev = 1000;
	if (!p.nscat || o.l >= 0 || !o.ls.empty()) olev = 0;
	long pts = 0;
	std::string lim;
	int done = 0;
	bool bigp = false, bigx = false;
	for (auto &v : par) {
		Vec w = v;
		for (size_t k = 0; k < w.size(); k++) w[k] += bp[k];
		auto back = [&](std::vector<Event> &ev) {
			for (auto &e : ev) {
				if (e.stmt < 0 || e.stmt >= (int)sh.size()) throw Violation("statement", strf("S%d does not exist", e.stmt + 1));
				if (e.x.size() != sh[e.stmt].size()) throw Violation("arguments", strf("S%d with %zu arguments", e.stmt + 1, e.x.size()));
				for (size_t k = 0; k < e.x.size(); k++) {
					if (e.x[k] > (Z)1 << 62 || -e.x[k] > (Z)1 << 62) bigx = true;
					e.x[k] -= sh[e.stmt][k];
				}
			}
		};
		try {
			auto ev = run_clast(root, pn, w, 0);
			back(ev);
			check_exact(p, v, ev, 0, &pts);
			if (olev) check_order(p, v, ev, olev, o.f != 1 || !o.fs.empty());
			auto t = text_trace_c(g, pn, w);
			std::vector<Event> tv;
			for (auto &c : t) {
				if (c.f[0] != 'S') throw Violation("call", "unknown call " + c.f);
				Event e;
				e.stmt = atoi(c.f.c_str() + 1) - 1;
				e.x = c.x;
				tv.push_back(e);
			}
			back(tv);
			if (tv.size() != ev.size()) throw Violation("text", strf("the text makes %zu calls, the AST %zu", tv.size(), ev.size()));
			for (size_t i = 0; i < ev.size(); i++) if (ev[i].stmt != tv[i].stmt || ev[i].x != tv[i].x) throw Violation("text", strf("call %zu of the text differs from the AST", i));
			for (auto &x : bp) bigp |= x > (Z)1 << 62 || -x > (Z)1 << 62;
			done++;
		} catch (Inconclusive &e) { lim = e.what(); }
		catch (Overflow &e) { lim = std::string("overflow ") + e.what(); }
		catch (Violation &e) {
			bool ex = r.labels.count("existential") || r.labels.count("scat-existential");
			if (e.kind == "unbounded" && ex && (o.f != 1 || !o.fs.empty())) { lim = "F-hull: hull of a union with existentials is unbounded (-f)"; continue; }
			throw;
		}
	}
	if (bigp) r.labels.insert("parameters beyond 64 bits");
	if (bigx) r.labels.insert("instances beyond 64 bits");
	r.units = pts;
	cloog_clast_free(root);
	if (!done && !par.empty()) throw Inconclusive(lim);
	if (pts < 2) r.st = ST_TRIVIAL;
}
static RegProp c15({ "C15", "one case = generated problem translated by huge distances (iterators, parameters, dates; up to 2^80 and 10^23), rows scaled or dates stretched by large factors; AST and C text executed for up to 3 parameter vectors and translated back; non-trivial = distinct case with at least 2 instances compared",
	big_case, 6, false, 6000, 250000 });
