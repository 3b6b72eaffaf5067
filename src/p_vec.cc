// C17 integer sequences and constraint matrices against a reference.
#include "problem.h"
#include "proc.h"
#include <cloog/int.h>
#include <unistd.h>
#include <sys/wait.h>
extern "C" {
#include <cloog/matrix.h>
}

namespace {
typedef std::vector<Z> V;
struct Seq {
	struct cloog_vec *v;
	Seq(const V &x) : v(cloog_vec_alloc((unsigned)x.size())) { set(x); }
	~Seq() { cloog_vec_free(v); }
	void set(const V &x) { for (size_t i = 0; i < x.size(); i++) cloog_int_read(v->p[i], zstr(x[i]).c_str()); }
	V get() const { return get(v->p, v->size); }
	static V get(cloog_int_t *p, unsigned n)
	{
		V o;
		for (unsigned i = 0; i < n; i++) {
			char *t = mpz_get_str(nullptr, 10, p[i]);
			Z z;
			if (!zparse(t, z)) throw Overflow("value");
			free(t);
			o.push_back(z);
		}
		return o;
	}
};
Z num(Src &s)
{
	switch (s.weighted({ 30, 40, 12, 6, 6, 6 })) {
	case 0: return 0;
	case 1: return s.sgn(12);
	case 2: return s.sgn(3) * 60;
	case 3: return (Z)s.sgn(9) << 31;
	case 4: return ((Z)s.sgn(9) << 62) + s.sgn(3);
	default: return ((Z)s.sgn(9) << 64) * 30;
	}
}
Z zabs(Z a) { return a < 0 ? -a : a; }
Z zgcd(Z a, Z b) { a = zabs(a); b = zabs(b); while (b) { Z t = a % b; a = b; b = t; } return a; }
struct Int {
	cloog_int_t v;
	Int(Z x = 0) { cloog_int_init(v); cloog_int_read(v, zstr(x).c_str()); }
	~Int() { cloog_int_clear(v); }
	Z z() { return Seq::get(&v, 1)[0]; }
};

void seq_part(Src &s, Result &r)
{
	unsigned n = (unsigned)s.range(0, 7);
	V a, b;
	Z f = s.chance(1, 3) ? s.range(1, 6) : 1;
	for (unsigned i = 0; i < n; i++) { a.push_back(num(s) * f); b.push_back(s.chance(1, 3) ? a[i] : s.chance(1, 2) ? -a[i] : num(s)); }
	if (s.chance(1, 4)) for (unsigned i = 0; i < n; i++) b[i] = -a[i];
	r.show("a = " + vecstr(a) + "\nb = " + vecstr(b) + "\n");
	r.hash = hash_str(r.render);
	unsigned len = n ? (unsigned)s.range(0, n) : 0;
	if (s.chance(2, 3)) len = n;
	auto keep = [&](const V &ref, V got, const char *what) {
		// nothing outside the first len entries may change
		if (got != ref) throw Violation(what, "got " + vecstr(got) + " instead of " + vecstr(ref));
	};
	Seq A(a), B(b);
	{
		int k = cloog_seq_first_non_zero(A.v->p, len), e = -1;
		for (unsigned i = 0; i < len && e < 0; i++) if (a[i] != 0) e = (int)i;
		if (k != e) throw Violation("first_non_zero", strf("%d instead of %d", k, e));
	}
	{
		Int g(77);
		cloog_seq_gcd(A.v->p, len, &g.v);
		Z e = 0;
		for (unsigned i = 0; i < len; i++) e = zgcd(e, a[i]);
		if (g.z() != e) throw Violation("gcd", zstr(g.z()) + " instead of " + zstr(e));
		keep(a, A.get(), "gcd");
		Seq N(a);
		cloog_seq_normalize(N.v->p, len);
		V x = a;
		if (e > 1) for (unsigned i = 0; i < len; i++) x[i] /= e;
		keep(x, N.get(), "normalize");
	}
	{
		int k = cloog_seq_is_neg(A.v->p, B.v->p, len), e = 1;
		for (unsigned i = 0; i < len; i++) if (a[i] != -b[i]) e = 0;
		if (!!k != e) throw Violation("is_neg", strf("%d instead of %d", k, e));
	}
	{
		Seq D(b);
		cloog_seq_cpy(D.v->p, A.v->p, len);
		V x = b;
		for (unsigned i = 0; i < len; i++) x[i] = a[i];
		keep(x, D.get(), "cpy");
		D.set(b);
		cloog_seq_neg(D.v->p, A.v->p, len);
		for (unsigned i = 0; i < len; i++) x[i] = -a[i];
		keep(x, D.get(), "neg");
		keep(a, A.get(), "source");
		D.set(a);
		cloog_seq_neg(D.v->p, D.v->p, len);
		x = a;
		for (unsigned i = 0; i < len; i++) x[i] = -a[i];
		keep(x, D.get(), "neg in place");
	}
	{
		Z m1 = s.sgn(9), m2 = s.sgn(9);
		if (s.chance(1, 5)) m1 = (Z)s.sgn(5) << 33;
		Int M1(m1), M2(m2);
		V e = b;
		for (unsigned i = 0; i < len; i++) e[i] = m1 * a[i] + m2 * b[i];
		Seq D(b);
		cloog_seq_combine(D.v->p, M1.v, A.v->p, M2.v, B.v->p, len);
		keep(e, D.get(), "combine");
		Seq X(a), Y(b);
		cloog_seq_combine(Y.v->p, M1.v, X.v->p, M2.v, Y.v->p, len);
		keep(e, Y.get(), "combine into the second");
		for (unsigned i = len; i < n; i++) e[i] = a[i];
		cloog_seq_combine(X.v->p, M1.v, X.v->p, M2.v, B.v->p, len);
		keep(e, X.get(), "combine into the first");
		keep(b, B.get(), "combine source");
	}
	if (len < 2) r.st = ST_TRIVIAL;
	r.units = len;
	r.labels.insert("sequences");
}

struct Mat {
	CloogMatrix *m;
	Mat(CloogMatrix *x) : m(x) {}
	~Mat() { cloog_matrix_free(m); }
};
std::string mat_text(CloogMatrix *m, int how, const std::string &pre = "", const std::string &suf = "")
{
	char *buf = nullptr;
	size_t len = 0;
	FILE *f = open_memstream(&buf, &len);
	if (how) cloog_matrix_print_structure(f, m, pre.c_str(), suf.c_str());
	else cloog_matrix_print(f, m);
	fclose(f);
	std::string t(buf, len);
	free(buf);
	return t;
}
void check_mat(CloogMatrix *m, const std::vector<V> &ref, unsigned nc, const char *what)
{
	if (!m) throw Violation(what, "no matrix");
	if (m->NbRows != ref.size() || m->NbColumns != nc) throw Violation(what, strf("%u x %u instead of %zu x %u", m->NbRows, m->NbColumns, ref.size(), nc));
	for (size_t i = 0; nc && i < ref.size(); i++) {
		V row = Seq::get(m->p[i], nc);
		if (row != ref[i]) throw Violation(what, strf("row %zu is ", i) + vecstr(row) + " instead of " + vecstr(ref[i]));
	}
}
void mat_part(Src &s, Result &r)
{
	unsigned nr = (unsigned)s.range(0, 5), nc = (unsigned)s.range(0, 8);
	if (s.chance(1, 12)) nc = (unsigned)s.range(30, 90);
	std::vector<V> ref(nr);
	for (auto &row : ref) for (unsigned j = 0; j < nc; j++) row.push_back(nc > 20 && s.chance(1, 2) ? ((Z)1 << 100) + s.sgn(99) : num(s));
	std::string text;
	bool ws = s.chance(1, 2);
	auto gap = [&]() -> std::string { static const char *const g[] = { " ", "  ", "\t", "   \t " }; return ws ? g[s.pick(4)] : " "; };
	auto junk = [&]() -> std::string {
		static const char *const g[] = { "", "# comment\n", "\n", "   # 1 2 3\n", "\t \n", "#\n\n" };
		return ws ? g[s.pick(6)] : "";
	};
	std::string lead = ws ? gap() : "";
	std::string head = junk() + lead + strf("%u", nr) + gap() + strf("%u", nc) + (ws && s.chance(1, 3) ? " # rows columns" : "") + "\n", body;
	bool eof = s.chance(1, 4);
	for (unsigned i = 0; i < nr; i++) {
		body += junk();
		if (ws && s.chance(1, 2)) body += gap();
		for (unsigned j = 0; j < nc; j++) body += (j ? gap() : "") + zstr(ref[i][j]);
		if (ws && s.chance(1, 4)) body += " # the rest";
		if (!(eof && i + 1 == nr)) body += "\n";
	}
	text = head + body;
	r.show(text);
	r.hash = hash_str(text, 17);
	{
		Mat z(cloog_matrix_alloc(nr, nc));
		std::vector<V> zero(nr, V(nc, 0));
		check_mat(z.m, zero, nc, "alloc");
	}
	// malformed: short of values, rows or counts
	if (nr && nc && s.chance(1, 4)) {
		std::string bad;
		int k = (int)s.pick(3);
		unsigned cut = s.pick(nr), at = s.pick(nc);
		if (k == 0) {
			bad = strf("%u %u\n", nr, nc);
			for (unsigned i = 0; i < nr; i++) { for (unsigned j = 0; j < nc; j++) { if (i == cut && j >= at) break; bad += zstr(ref[i][j]) + " "; } bad += i == cut && at == 0 ? "" : "\n"; }
			if (at == 0) { bad = ""; k = 1; }
		}
		if (k == 1) {
			bad = strf("%u %u\n", nr, nc);
			for (unsigned i = 0; i < cut; i++) { for (unsigned j = 0; j < nc; j++) bad += zstr(ref[i][j]) + " "; bad += "\n"; }
		}
		if (k == 2) { bad = s.chance(1, 2) ? "" : strf("%u\n", nr); }
		r.show("malformed:\n" + bad);
		std::string err = scratch_dir() + "/mat.err";
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			freopen(err.c_str(), "w", stderr);
			alarm(20);
			FILE *f = fmemopen((void *)(bad.empty() ? " " : bad.c_str()), bad.empty() ? 1 : bad.size(), "r");
			cloog_matrix_read(f);
			_exit(7);
		}
		int status;
		waitpid(pid, &status, 0);
		FILE *ef = fopen(err.c_str(), "r");
		char buf[400] = "";
		if (ef) { size_t q = fread(buf, 1, sizeof buf - 1, ef); buf[q] = 0; fclose(ef); }
		if (!WIFEXITED(status)) throw Violation("malformed", strf("killed by signal %d", WTERMSIG(status)));
		if (WEXITSTATUS(status) == 7) throw Violation("malformed", "a matrix that lacks values is accepted");
		if (WEXITSTATUS(status) != 1 || !strstr(buf, "ERROR")) throw Violation("malformed", strf("exit status %d, message '%s'", WEXITSTATUS(status), buf));
		r.labels.insert("malformed");
		return;
	}
	{
		FILE *f = fmemopen((void *)text.c_str(), text.size(), "r");
		Mat m(cloog_matrix_read(f));
		check_mat(m.m, ref, nc, "read");
		fclose(f);
		// print and read back, also from the middle of a stream
		std::string t = mat_text(m.m, 0), e = strf("%u %u\n", nr, nc), pre = s.chance(1, 2) ? "pre " : "", suf = s.chance(1, 2) ? " suf" : "", e2;
		for (auto &row : ref) {
			std::string l;
			for (auto &z : row) l += zstr(z) + " ";
			e += l + "\n";
			e2 += pre + l + suf + "\n";
		}
		if (t != e) throw Violation("print", "printed:\n" + t + "instead of:\n" + e);
		if (mat_text(m.m, 1, pre, suf) != e2) throw Violation("print_structure", "printed:\n" + mat_text(m.m, 1, pre, suf) + "instead of:\n" + e2);
		std::string two = t + t + "end\n";
		f = fmemopen((void *)two.c_str(), two.size(), "r");
		for (int k = 0; k < 2; k++) { Mat q(cloog_matrix_read(f)); check_mat(q.m, ref, nc, "round trip"); if (nc == 0) for (unsigned i = 0; i < nr; i++) { int c; while ((c = fgetc(f)) != EOF && c != '\n'); } }
		char rest[8] = "";
		if (!fgets(rest, sizeof rest, f) || strcmp(rest, "end\n")) throw Violation("read", std::string("does not stop after the last row: ") + rest);
		fclose(f);
		if (!body.empty()) {
			f = fmemopen((void *)body.c_str(), body.size(), "r");
			Mat q(cloog_matrix_read_of_size(f, nr, nc));
			check_mat(q.m, ref, nc, "read_of_size");
			fclose(f);
		}
	}
	if (s.chance(1, 20)) {
		cloog_matrix_free(nullptr);
		cloog_vec_free(nullptr);
		if (mat_text(nullptr, 0) != "(null)\n") throw Violation("print", "the null matrix");
	}
	if (nr * nc < 2) r.st = ST_TRIVIAL;
	r.units = nr * nc;
	r.labels.insert("matrices");
	if (nc > 20) r.labels.insert("wide");
}
void vec_case(Src &s, Result &r)
{
	if (s.chance(1, 2)) mat_part(s, r);
	else seq_part(s, r);
}
RegProp c17({ "C17", "one case = all sequence operations on a pair of random integer vectors (also in place, also on a prefix), or a random matrix allocated, written in a random layout, read, printed and read back, or a truncated matrix; non-trivial = distinct case with at least 2 entries",
	vec_case, 30, true, 40000, 600000 });
}
