// C07 memory safety and complete release, C08 malformed input.  Both run in the
// sanitizer configuration.
#include "problem.h"
#include "proc.h"
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

#ifdef VH_SAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t live_bytes() { return 0; }
#endif

struct Plan {
	std::string text;
	Prob p;
	Opt o;
	int route = 0;                 // 0 file, 1 program, 2 isl, 3 matrix
	bool own = false, dump = false, structure = false, optprint = false, filter = false, pprint = true, copyinput = false, twice = false;
};

static CloogMatrix *matrix_of(const BSet &b, int cols)
{
	CloogMatrix *m = cloog_matrix_alloc((unsigned)b.rows.size(), (unsigned)cols);
	for (size_t i = 0; i < b.rows.size(); i++) {
		cloog_int_set_si(m->p[i][0], b.rows[i].eq ? 0 : 1);
		for (size_t j = 0; j < b.rows[i].c.size(); j++) cloog_int_read(m->p[i][j + 1], zstr(b.rows[i].c[j]).c_str());
	}
	return m;
}
static CloogDomain *dom_of(CloogState *st, const std::vector<BSet> &bs, int n, int npar)
{
	CloogDomain *d = nullptr;
	for (auto &b : bs) {
		CloogMatrix *m = matrix_of(b, n + npar + 2);
		CloogDomain *e = cloog_domain_from_cloog_matrix(st, m, npar);
		cloog_matrix_free(m);
		d = d ? cloog_domain_union(d, e) : e;
	}
	return d;
}

// Everything that is allocated here has to be released when it returns.
static std::string scope(const Plan &q, std::string &counters)
{
	Lib *lib = new Lib(q.own);
	apply_options(q.o, lib->opt);
	char *buf = nullptr;
	size_t len = 0;
	FILE *f = open_memstream(&buf, &len);
	const Prob &p = q.p;
	struct clast_stmt *root = nullptr;
	CloogProgram *prog = nullptr;
	CloogInput *in = nullptr;
	if (q.optprint) cloog_options_print(f, lib->opt);
	if (q.route == 0) {
		in = load_text(*lib, q.text);
		if (q.dump) cloog_input_dump_cloog(f, in, lib->opt);
		if (q.twice) { cloog_input_free(in); in = load_text(*lib, q.text); }
	} else if (q.route == 1) {
		FILE *g = fmemopen((void *)q.text.data(), q.text.size(), "r");
		prog = cloog_program_read(g, lib->opt);
		fclose(g);
		if (q.structure) cloog_program_print(f, prog);
		prog = cloog_program_generate(prog, lib->opt);
		if (q.structure) cloog_program_print(f, prog);
		if (q.pprint) cloog_program_pprint(f, prog, lib->opt);
		if (q.twice) cloog_program_pprint(f, prog, lib->opt);
		if (q.filter) root = cloog_clast_create(prog, lib->opt);
	} else {
		CloogUnionDomain *ud = cloog_union_domain_alloc(p.npar);
		CloogDomain *u0 = cloog_domain_universe(lib->state, 0), *cd;
		isl_ctx *ctx = isl_set_get_ctx(isl_set_from_cloog_domain(u0));
		Dom c;
		c.n = 0;
		c.bs = p.ctx;
		cd = q.route == 2 ? cloog_domain_from_isl_set(dom_to_isl(ctx, c, p.npar)) : dom_of(lib->state, p.ctx, 0, p.npar);
		for (auto &t : p.st) {
			CloogDomain *d;
			CloogScattering *sc = nullptr;
			if (q.route == 2) {
				d = cloog_domain_from_isl_set(dom_to_isl(ctx, t.dom, p.npar));
				if (p.nscat) sc = cloog_scattering_from_isl_map(scat_to_isl(ctx, p, t));
			} else {
				d = dom_of(lib->state, t.dom.bs, t.dom.n, p.npar);
				if (p.nscat) {
					CloogMatrix *m = matrix_of(t.scat, p.nscat + t.dom.n + p.npar + 2);
					sc = cloog_scattering_from_cloog_matrix(lib->state, m, p.nscat, p.npar);
					cloog_matrix_free(m);
				}
			}
			ud = cloog_union_domain_add_domain(ud, q.copyinput ? "Name" : nullptr, d, sc, nullptr);
		}
		for (int k = 0; k < p.npar && q.dump; k++) ud = cloog_union_domain_set_name(ud, CLOOG_PARAM, k, strf("Q%d", k).c_str());
		cloog_domain_free(u0);
		in = cloog_input_alloc(cd, ud);
		if (q.structure) { cloog_input_dump_cloog(f, in, lib->opt); }
	}
	if (in) {
		if (q.filter || q.pprint) root = cloog_clast_create_from_input(in, lib->opt);
		else cloog_input_free(in);
	}
	if (root) {
		if (q.pprint) clast_pprint(f, root, 0, lib->opt);
		if (q.filter) {
			ClastFilter fl;
			int w[3] = { 1, 2, 3 };
			fl.iter = nullptr;
			fl.stmts_filter = w;
			fl.nstmts_filter = 3;
			fl.filter_type = subset;
			struct clast_for **loops = nullptr;
			int *st = nullptr, nl = 0, ns = 0;
			clast_filter(root, fl, &loops, &nl, &st, &ns);
			fprintf(f, "%d %d\n", nl, ns);
			free(loops);
			free(st);
		}
		cloog_clast_free(root);
	}
	if (prog) cloog_program_free(prog);
	fclose(f);
	std::string out(buf, len);
	free(buf);
	CloogState *x = lib->state;
	if (x->domain_allocated != x->domain_freed || x->loop_allocated != x->loop_freed || x->statement_allocated != x->statement_freed || x->block_allocated != x->block_freed)
		counters = strf("allocated/freed: domains %d/%d loops %d/%d statements %d/%d blocks %d/%d", x->domain_allocated, x->domain_freed,
			x->loop_allocated, x->loop_freed, x->statement_allocated, x->statement_freed, x->block_allocated, x->block_freed);
	delete lib;
	return out;
}

static void mem_case(Src &s, Result &r)
{
	Plan q;
	GenCfg cfg;
	q.route = s.weighted({ 35, 30, 20, 15 });
	cfg.allow_unbounded = true;
	cfg.allow_multi = true;
	cfg.union_ctx = true;
	cfg.maxdim = 4;
	cfg.maxpar = 3;
	cfg.maxstmt = 5;
	cfg.fortran = s.chance(1, 8);
	if (cfg.fortran) cfg.allow_unbounded = false;
	if (q.route == 3) cfg.locals = false;
	q.p = gen_problem(s, cfg);
	q.o = gen_options(s, q.p);
	q.o.save_domains = s.chance(1, 4);
	if (s.chance(1, 6)) q.o.callable = 1;
	else if (s.chance(1, 6)) q.o.compilable = s.range(1, 5);
	q.own = s.chance(1, 3);
	q.dump = s.chance(1, 4);
	q.structure = s.chance(1, 3);
	q.optprint = s.chance(1, 5);
	q.filter = s.chance(1, 2);
	q.pprint = !s.chance(1, 6);
	q.copyinput = s.chance(1, 2);
	q.twice = s.chance(1, 4);
	if (q.route == 0) for (auto &b : q.p.ctx) (void)b;
	q.text = cloog_text(q.p, s.chance(1, 3) ? &s : nullptr);
	static const char *const rn[] = { "file", "program", "isl", "matrix" };
	r.show(render_case(q.text, q.o, {}) + strf("route %s%s%s%s%s%s%s%s%s save_domains=%d callable=%d compilable=%d\n", rn[q.route], q.own ? " own-ctx" : "", q.dump ? " dump" : "", q.structure ? " structure" : "",
		q.optprint ? " options" : "", q.filter ? " filter" : "", q.pprint ? " print" : "", q.copyinput ? " names" : "", q.twice ? " twice" : "", q.o.save_domains, q.o.callable, q.o.compilable));
	r.hash = hash_str(r.render);
	r.labels.insert(std::string("route-") + rn[q.route]);
	label_problem(q.p, r);
	label_opt(q.o, r);
	std::string cnt, a;
	a = scope(q, cnt);
	if (!cnt.empty()) throw Violation("counters", cnt);
	// The first run may fill buffers that live as long as the process.
	size_t m1 = live_bytes(), m2, m3;
	{ std::string t = scope(q, cnt); if (t != a) throw Violation("repeat", "the second run of the same job gives different output"); }
	m2 = live_bytes();
	{ std::string t = scope(q, cnt); }
	m3 = live_bytes();
	if (m2 > m1 && m3 > m2) throw Violation("leak", strf("%zu bytes are never released by one run of the job (and %zu by the next)", m2 - m1, m3 - m2));
	r.units = (long)a.size();
	if (a.size() < 40) r.st = ST_TRIVIAL;
}

static RegProp c07({ "C07", "one case = one job (route x problem x options x calls: read, dump, print structure, generate, print, filter, free) run three times under ASan and UBSan; allocation counters balanced and no growth of the allocated bytes; non-trivial = distinct case with at least 40 bytes of output",
	mem_case, 20, false, 1300, 40000 });

// ---------------------------------------------------------------------- C08
static std::vector<std::string> split_lines(const std::string &t)
{
	std::vector<std::string> v;
	std::string c;
	for (char ch : t) { if (ch == '\n') { v.push_back(c); c.clear(); } else c += ch; }
	if (!c.empty()) v.push_back(c);
	return v;
}
static std::string join(const std::vector<std::string> &v, const char *sep)
{
	std::string o;
	for (auto &x : v) o += x + sep;
	return o;
}
static std::vector<std::string> words(const std::string &l)
{
	std::vector<std::string> v;
	std::string c;
	for (char ch : l) { if (ch == ' ' || ch == '\t') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; }
	if (!c.empty()) v.push_back(c);
	return v;
}
static std::string rand_token(Src &s)
{
	static const char *const t[] = { "0", "1", "-1", "2", "3", "7", "-5", "100", "1000", "65536", "2147483647", "-2147483648", "2147483648", "4294967296", "9223372036854775807",
		"99999999999999999999999", "-99999999999999999999999", "1e5", "0x10", "1.5", "x", "c", "f", "-", "+", "--1", "/", "1/2", "#", "%s", "%n", "i", "\x01", "\xff\xfe", "(", "1-", "=", ">=", "NaN" };
	return t[s.pick(sizeof t / sizeof *t)];
}
static std::string mutate_text(Src &s, std::string t, std::string &how)
{
	int n = 1 + s.weighted({ 70, 18, 8, 4 });
	for (int k = 0; k < n; k++) {
		auto L = split_lines(t);
		size_t nl = L.size();
		if (!nl) return t;
		// prefer lines with content
		size_t i = s.pick((uint32_t)nl);
		int m = s.weighted({ 14, 8, 8, 6, 6, 14, 6, 6, 5, 6, 5, 5, 4, 2, 1 });
		switch (m) {
		case 0: { auto w = words(L[i]); if (w.empty()) break; w[s.pick((uint32_t)w.size())] = rand_token(s); L[i] = join(w, " "); how += strf(" token@%zu", i); t = join(L, "\n"); break; }
		case 1: L.erase(L.begin() + i); how += strf(" delline@%zu", i); t = join(L, "\n"); break;
		case 2: t = t.substr(0, s.pick((uint32_t)t.size() + 1)); how += " truncate"; break;
		case 3: { auto w = words(L[i]); if (w.empty()) break; w.erase(w.begin() + s.pick((uint32_t)w.size())); L[i] = join(w, " "); how += strf(" deltoken@%zu", i); t = join(L, "\n"); break; }
		case 4: { auto w = words(L[i]); w.insert(w.begin() + s.pick((uint32_t)w.size() + 1), rand_token(s)); L[i] = join(w, " "); how += strf(" instoken@%zu", i); t = join(L, "\n"); break; }
		case 5: { auto w = words(L[i]); if (w.empty()) break; auto &x = w[s.pick((uint32_t)w.size())]; x = strf("%d", atoi(x.c_str()) + s.sgn(3)); L[i] = join(w, " "); how += strf(" count@%zu", i); t = join(L, "\n"); break; }
		case 6: L.insert(L.begin() + i, L[s.pick((uint32_t)nl)]); how += strf(" dupline@%zu", i); t = join(L, "\n"); break;
		case 7: std::swap(L[i], L[s.pick((uint32_t)nl)]); how += strf(" swap@%zu", i); t = join(L, "\n"); break;
		case 8: { int len = s.range(1, 3) * 700; std::string x; bool num = s.chance(1, 2); while ((int)x.size() < len) x += num ? "0 " : "A"; L[i] = s.chance(1, 2) ? x : L[i] + " " + x; how += strf(" longline@%zu", i); t = join(L, "\n"); break; }
		case 9: { std::string x(s.range(1, 4) * 60, 'n'); auto w = words(L[i]); w.push_back(x); L[i] = join(w, " "); how += strf(" longname@%zu", i); t = join(L, "\n"); break; }
		case 10: { size_t p = s.pick((uint32_t)t.size() + 1); t.insert(p, 1, (char)s.pick(256)); how += strf(" byte+@%zu", p); break; }
		case 11: { if (t.empty()) break; size_t p = s.pick((uint32_t)t.size()); t[p] = (char)s.pick(256); how += strf(" byte@%zu", p); break; }
		case 12: { if (t.empty()) break; size_t p = s.pick((uint32_t)t.size()); t.erase(p, s.range(1, 12)); how += strf(" erase@%zu", p); break; }
		case 13: { std::string x; for (char c : t) x += c == '\n' && s.chance(1, 6) ? ' ' : c; t = x; how += " joinlines"; break; }
		case 14: { std::string x; for (char c : t) { if (c == '\n') x += '\r'; x += c; } t = x; how += " crlf"; break; }
		}
	}
	return t;
}
static std::string printable(const std::string &t)
{
	std::string o;
	for (unsigned char c : t) { if (c == '\n' || (c >= 32 && c < 127)) o += (char)c; else o += strf("\\x%02x", c); }
	return o;
}
// Reading alone, in a process of its own; false when it does not end.
static bool reading_ends(const std::string &file)
{
	pid_t pid = fork();
	if (pid == 0) {
		alarm(30);
		freopen("/dev/null", "w", stderr);
		CloogState *st = cloog_state_malloc();
		CloogOptions *o = cloog_options_malloc(st);
		FILE *f = fopen(file.c_str(), "r");
		cloog_input_read(f, o);
		_exit(0);
	}
	int status;
	waitpid(pid, &status, 0);
	return !(WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM);
}
// A file with a defect that the format does not leave room for: it has to be
// rejected.  Returns "" when the problem has no place for that defect.
static std::string spoil(Src &s, Prob p, std::string &how)
{
	int kind = s.pick(5);
	if (kind == 0) {
		// fewer names than parameters, iterators or scattering dimensions
		int which = s.pick(3), need = which == 0 ? p.npar : which == 1 ? p.maxdim() : p.nscat;
		if (!need) return "";
		auto &v = which == 0 ? p.pname : which == 1 ? p.iname : p.sname;
		const char *what = which == 0 ? "parameter" : which == 1 ? "iterator" : "scattering";
		v.clear();
		for (int i = 0; i < need; i++) v.push_back(strf("n%d%d", which, i));
		std::string t = cloog_text(p), line;
		for (int i = 0; i < need; i++) line += (i ? " " : "") + v[i];
		size_t at = t.rfind(line);
		if (at == std::string::npos) return "";
		std::string less;
		int keep = s.pick(need);
		for (int i = 0; i < keep; i++) less += (i ? " " : "") + v[i];
		if (s.chance(2, 3)) less += keep ? " # and a comment" : "# only a comment";
		how += strf(" lacking-%s-name", what);
		if (keep == 0) { t = t.substr(0, at) + less + "\n"; return t; }   // else the next line is taken
		return t.substr(0, at) + less + t.substr(at + line.size());
	}
	std::string t = cloog_text(p);
	auto L = split_lines(t);
	size_t st = 0, it = 0, sc = 0;
	for (size_t i = 0; i < L.size(); i++) {
		if (L[i].find("# statements") != std::string::npos) st = i;
		if (L[i].find("iterator names") != std::string::npos) it = i;
		if (L[i].find("# scattering") != std::string::npos && L[i].find("names") == std::string::npos) sc = i;
	}
	if (!st || !it) return "";
	if (kind == 1) {
		if (!sc) return "";
		int n = (int)p.st.size(), m = s.chance(1, 2) ? n - s.range(1, n) : n + s.range(1, 3);
		if (m <= 0) m = n + 1;
		L[sc] = strf("%d", m);
		how += strf(" scattering-count-%d-of-%d", m, n);
		return join(L, "\n");
	}
	if (kind == 2) {
		size_t i = s.pick((uint32_t)it + 1);
		L.resize(i);
		how += strf(" cut@%zu", i);
		return join(L, "\n");
	}
	// the lines of the statements that hold coefficients
	std::vector<size_t> rows;
	size_t i = st + 1;
	for (auto &x : p.st) {
		i++;
		for (auto &b : x.dom.bs) {
			int n = atoi(L[i].c_str());
			(void)b;
			for (int k = 1; k <= n; k++) rows.push_back(i + k);
			i += n + 1;
		}
		i++;
	}
	if (rows.empty()) return "";
	i = rows[s.pick((uint32_t)rows.size())];
	auto w = words(L[i]);
	if (w.size() < 2) return "";
	static const char *const bad[] = { "x", "N", "-", "%d", "\"1\"" };
	size_t k = s.pick((uint32_t)w.size());
	if (kind == 3) { w[k] = bad[s.pick(5)]; how += strf(" no-number@%zu", i); }
	else { w.erase(w.begin() + k); how += strf(" short-row@%zu", i); }
	L[i] = join(w, " ");
	return join(L, "\n");
}
// Consistent sections of two different problems put together.
static std::string section(const Prob &p, size_t st, int what)
{
	Prob q = p;
	if (what != 0) { q.st.assign(1, p.st[st]); }
	std::string t = cloog_text(q);
	size_t a, b;
	if (what == 0) { a = t.find("# context"); b = t.find("# parameter names"); b = t.rfind('\n', b); return t.substr(a, b - a) + "\n"; }
	if (what == 1) { a = t.find("# statements"); a = t.find('\n', a) + 1; b = t.find("0 0 0\n", a) + 6; return t.substr(a, b - a); }
	a = t.find("# scattering");
	if (a == std::string::npos) return "";
	a = t.find('\n', a) + 1;
	b = t.find("# scattering names", a);
	b = t.rfind('\n', b);
	return t.substr(a, b - a) + "\n";
}
static std::string splice(Src &s, const Prob &p, const Prob &q)
{
	std::string t = "c\n" + section(s.chance(1, 4) ? q : p, 0, 0);
	t += "0 # parameter names\n";
	size_t n = p.st.size();
	t += strf("%zu\n", n);
	auto other = [&]() -> const Prob & { return s.chance(1, 3) ? q : p; };
	std::string d;
	for (size_t i = 0; i < n; i++) { const Prob &x = other(); d += section(x, i % x.st.size(), 1); }
	t += d + "0 # iterator names\n";
	if (!p.nscat || !q.nscat) return t + "0\n";
	t += strf("%zu\n", n);
	for (size_t i = 0; i < n; i++) { const Prob &x = other(); t += section(x, i % x.st.size(), 2); }
	return t + "0 # scattering names\n";
}
static void garbage_case(Src &s, Result &r)
{
	GenCfg cfg;
	cfg.maxdim = 3;
	cfg.maxpar = 2;
	cfg.maxscat = 3;
	cfg.maxstmt = 3;
	cfg.union_ctx = true;
	cfg.allow_multi = true;
	std::string how, t;
	bool reject = s.chance(1, 7);
	if (reject) {
		Prob p = gen_problem(s, cfg);
		t = spoil(s, p, how);
		if (t.empty()) { reject = false; t = cloog_text(p); }
		else r.labels.insert("must-reject" + how.substr(0, how.find_first_of("@0123456789")));
	} else if (s.chance(1, 20)) {
		int n = s.range(0, 60);
		for (int i = 0; i < n; i++) t += rand_token(s) + (s.chance(1, 3) ? "\n" : " ");
		how = " tokens";
	} else {
		if (s.chance(1, 3)) {
			cfg.names = false;
			cfg.need_scat = s.chance(1, 2);
			Prob p = gen_problem(s, cfg), q = gen_problem(s, cfg);
			t = splice(s, p, q);
			how = " splice";
			if (s.chance(1, 4)) t = mutate_text(s, t, how);
		} else {
			Prob p = gen_problem(s, cfg);
			t = cloog_text(p, s.chance(1, 2) ? &s : nullptr);
			t = mutate_text(s, t, how);
		}
	}
	std::string file = scratch_dir() + "/m.cloog";
	std::vector<std::string> cmd = { cli_path() };
	static const char *const opts[][3] = { { "-strides", "1", 0 }, { "-f", "-1", 0 }, { "-callable", "1", 0 }, { "-struct", 0, 0 }, { "-noscalars", 0, 0 }, { "-compilable", "3", 0 }, { "-l", "2", 0 }, { "-first-unroll", "2", 0 }, { "-sh", "1", 0 } };
	while (s.chance(1, 4)) { auto &o = opts[s.pick(9)]; for (int i = 0; i < 2 && o[i]; i++) cmd.push_back(o[i]); }
	bool stdin_ = s.chance(1, 4);
	cmd.push_back(stdin_ ? "stdin" : file);
	std::string args;
	for (size_t i = 1; i + 1 < cmd.size(); i++) args += " " + cmd[i];
	r.show("mutations:" + how + "\narguments:" + args + "\n---- input ----\n" + printable(t) + "\n---- end ----\n");
	r.hash = hash_str(t, hash_str(args));
	write_file(file, t);
	setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0:max_allocation_size_mb=1200:hard_rss_limit_mb=1500", 1);
	Run x = run_cmd(cmd, stdin_ ? t : "", 15);
	if (x.timeout) {
		if (!reading_ends(file)) throw Violation("hang", "reading the input does not end");
		throw Inconclusive("slow");
	}
	std::string tail = printable(x.err.substr(0, 3000));
	if (x.err.find("rss limit") != std::string::npos) throw Inconclusive("memory limit");
	r.render += "---- stderr ----\n" + tail;
	r.show(r.render);
	if (WIFSIGNALED(x.status)) {
		int sg = WTERMSIG(x.status);
		if (sg == SIGXFSZ || sg == SIGKILL) throw Inconclusive("resource limit");
		throw Violation("crash", strf("killed by signal %d: ", sg) + tail.substr(0, 300));
	}
	int st = WEXITSTATUS(x.status);
	if (st == 99 || x.err.find("ERROR: AddressSanitizer") != std::string::npos || x.err.find("runtime error:") != std::string::npos) throw Violation("sanitizer", tail.substr(0, 600));
	if (st != 0 && st != 1) throw Violation("status", strf("exit status %d", st));
	if (st == 1 && x.err.find("[CLooG] ERROR") == std::string::npos && x.err.find("[CLooG]ERROR") == std::string::npos) throw Violation("silent", "exit status 1 without an error message");
	if (reject && st == 0) throw Violation("accepted", "a defective file is accepted:" + how);
	r.labels.insert(st ? "rejected" : "accepted");
	r.units = (long)t.size();
}
static RegProp c08({ "C08", "one case = one mutated or random input file given to the cloog command (ASan, UBSan) as file or stdin: it ends with status 0, or with status 1 and an error message; non-trivial = distinct input",
	garbage_case, 60, false, 6000, 100000 });
