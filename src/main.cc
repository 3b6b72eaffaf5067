// Driver: runs the cases of one property on all cores, shrinks failures,
// replays them, writes replay and evidence files.
//
//   vh run ID --seed S --tier quick|thorough [--cases N] [--jobs J] [--maxtime T] --out DIR [--known FILE]
//   vh one ID --seed S --case K          run one case verbosely
//   vh replay ID FILE                    run the choices of a replay file
#include <sstream>
#include "core.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <fcntl.h>
#include <ftw.h>
#include <time.h>

std::vector<Prop> &props() { static std::vector<Prop> p; return p; }

std::map<std::string, std::function<bool()>> &knowns() { static std::map<std::string, std::function<bool()>> p; return p; }

uint32_t *Src::mirror;
static char *g_render_mirror;       // shared copy of the rendering
static const size_t render_max = 1 << 20;
void Result::show(const std::string &s)
{
	render = s;
	if (g_render_mirror) {
		size_t n = std::min(s.size(), render_max - 1);
		memcpy(g_render_mirror, s.data(), n);
		g_render_mirror[n] = 0;
	}
}

static std::string g_scratch;
static pid_t g_scratch_pid;
static int rmcb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void rmtree(const std::string &d) { nftw(d.c_str(), rmcb, 16, FTW_DEPTH | FTW_PHYS); }
static std::string scratch_base()
{
	const char *b = getenv("VH_SCRATCH");
	return b ? b : "/tmp/vh-scratch";
}
std::string scratch_dir()
{
	if (g_scratch.empty() || g_scratch_pid != getpid()) {
		g_scratch_pid = getpid();
		mkdir(scratch_base().c_str(), 0700);
		g_scratch = scratch_base() + strf("/w%d", (int)getpid());
		mkdir(g_scratch.c_str(), 0700);
	}
	return g_scratch;
}

static double now()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static uint64_t case_seed(const char *id, uint64_t seed, long k)
{
	uint64_t h = hash_str(id);
	h ^= seed * 0x9e3779b97f4a7c15ULL;
	uint64_t x = h + (uint64_t)k * 0xd1342543de82ef95ULL;
	splitmix(x);
	return splitmix(x);
}

static void decide(const Prop &p, Src &s, Result &r)
{
	try {
		p.run(s, r);
	} catch (Violation &v) {
		r.st = ST_FAIL;
		r.kind = v.kind;
		r.msg = v.what();
	} catch (Inconclusive &e) {
		r.st = ST_INCONCLUSIVE;
		r.kind = "limit";
		r.msg = e.what();
	} catch (Overflow &e) {
		r.st = ST_INCONCLUSIVE;
		r.kind = "overflow";
		r.msg = e.what();
	}
}

// ---- serialisation of results over a pipe/file
static void put(FILE *f, const std::string &s) { fprintf(f, "%zu:", s.size()); fwrite(s.data(), 1, s.size(), f); }
static bool get(FILE *f, std::string &s)
{
	size_t n;
	if (fscanf(f, "%zu:", &n) != 1) return false;
	s.resize(n);
	return n == 0 || fread(&s[0], 1, n, f) == n;
}
static void put_result(FILE *f, long k, const Result &r, const std::vector<uint32_t> *ch, bool full)
{
	fprintf(f, "R %ld %d %llu %ld ", k, (int)r.st, (unsigned long long)r.hash, r.units);
	std::string lab;
	for (auto &l : r.labels) lab += l + ",";
	put(f, lab);
	put(f, r.kind);
	put(f, r.msg);
	put(f, r.known);
	put(f, full ? r.render : "");
	std::string c;
	if (ch) for (auto x : *ch) c += strf("%u ", x);
	put(f, c);
	fprintf(f, "\n");
	fflush(f);
}
struct Rec { long k; Result r; std::vector<uint32_t> ch; };
static bool get_result(FILE *f, Rec &o)
{
	int st;
	unsigned long long h;
	if (fscanf(f, " R %ld %d %llu %ld ", &o.k, &st, &h, &o.r.units) != 4) return false;
	o.r.st = (Status)st;
	o.r.hash = h;
	std::string lab, c;
	if (!get(f, lab) || !get(f, o.r.kind) || !get(f, o.r.msg) || !get(f, o.r.known) || !get(f, o.r.render) || !get(f, c)) return false;
	size_t b = 0, e;
	while ((e = lab.find(',', b)) != std::string::npos) { o.r.labels.insert(lab.substr(b, e - b)); b = e + 1; }
	const char *q = c.c_str();
	char *end;
	while (*q) { unsigned long v = strtoul(q, &end, 10); if (end == q) break; o.ch.push_back((uint32_t)v); q = end; while (*q == ' ') q++; }
	return true;
}

static std::string slurp(const std::string &p, size_t max = 1 << 20)
{
	std::string s;
	FILE *f = fopen(p.c_str(), "r");
	if (!f) return s;
	char buf[65536];
	size_t n;
	while (s.size() < max && (n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
	fclose(f);
	return s;
}
static std::string crash_summary(const std::string &err, int status)
{
	std::string s;
	if (WIFSIGNALED(status)) s = strf("killed by signal %d", WTERMSIG(status));
	else s = strf("process exited with status %d", WEXITSTATUS(status));
	const char *keys[] = { "ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "runtime error:", "Assertion", "[CLooG] ERROR", "isl_", "SUMMARY:" };
	for (auto k : keys) {
		size_t p = err.find(k);
		if (p == std::string::npos) continue;
		size_t b = err.rfind('\n', p);
		b = b == std::string::npos ? 0 : b + 1;
		size_t e = err.find('\n', p);
		s += "; " + err.substr(b, std::min<size_t>(300, (e == std::string::npos ? err.size() : e) - b));
		if (s.size() > 900) break;
	}
	return s;
}

static void child_limits()
{
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
#ifndef VH_SAN
	rl.rlim_cur = rl.rlim_max = 3ULL << 30;
	setrlimit(RLIMIT_AS, &rl);
#endif
}

extern int g_islcheck;
extern char *g_isl_lied;
static char *isl_note()
{
	static char *m = (char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	return m;
}

// Run one choice sequence (or a fresh seeded one) in a child process.
static Rec run_child1(const Prop &p, const std::vector<uint32_t> *choices, uint64_t seed, double timeout, bool islcheck)
{
	Rec o;
	std::string base = scratch_base();
	mkdir(base.c_str(), 0700);
	std::string rf = base + strf("/one%d.res", (int)getpid()), ef = base + strf("/one%d.err", (int)getpid());
	unlink(rf.c_str());
	static uint32_t *mir = (uint32_t *)mmap(0, (Src::mirror_max + 2) * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	static char *rmir = (char *)mmap(0, render_max, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	mir[0] = 0;
	rmir[0] = 0;
	pid_t pid = fork();
	if (pid == 0) {
		Src::mirror = mir;
		g_render_mirror = rmir;
		setpgid(0, 0);
		child_limits();
		g_islcheck = islcheck;
		g_isl_lied = isl_note();
		int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		dup2(fd, 2);
		int nul = open("/dev/null", O_RDWR);
		dup2(nul, 0);
		dup2(nul, 1);
		FILE *f = fopen(rf.c_str(), "w");
		Result r;
		Src s = choices ? Src(*choices) : Src(seed);
		decide(p, s, r);
		put_result(f, 0, r, &s.out, true);
		fclose(f);
		if (!g_scratch.empty() && g_scratch_pid == getpid()) rmtree(g_scratch);
		_exit(0);
	}
	int status = 0;
	double t0 = now();
	bool to = false;
	for (;;) {
		pid_t w = waitpid(pid, &status, WNOHANG);
		if (w == pid) break;
		if (now() - t0 > timeout) { to = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
		usleep(now() - t0 < 0.05 ? 500 : 3000);
	}
	kill(-pid, SIGKILL);
	rmtree(base + strf("/w%d", (int)pid));
	FILE *f = fopen(rf.c_str(), "r");
	bool ok = f && get_result(f, o);
	if (f) fclose(f);
	if (to && !ok) {
		o.r.st = p.hang_fails ? ST_FAIL : ST_INCONCLUSIVE;
		o.r.kind = "timeout";
		o.r.msg = strf("no answer within %.0f s", timeout);
		o.ch.assign(mir + 1, mir + 1 + mir[0]);
		o.r.render = rmir;
	} else if (!ok) {
		std::string err = slurp(ef);
		o.r.st = ST_FAIL;
		o.r.kind = "crash";
		o.r.msg = crash_summary(err, status);
		o.r.render = std::string(rmir) + "\n---- stderr ----\n" + err.substr(0, 5000);
		o.ch.assign(mir + 1, mir + 1 + mir[0]);
	}
	unlink(rf.c_str());
	unlink(ef.c_str());
	return o;
}

// As run_child1, but a failure while the underlying set library returned a
// wrong set is set aside.
static Rec run_child(const Prop &p, const std::vector<uint32_t> *choices, uint64_t seed, double timeout)
{
	Rec r = run_child1(p, choices, seed, timeout, false);
	if (r.r.st != ST_FAIL || !r.r.known.empty()) return r;
	isl_note()[0] = 0;
	run_child1(p, choices, seed, timeout * 3 + 5, true);
	if (isl_note()[0]) {
		r.r.st = ST_INCONCLUSIVE;
		r.r.kind = "libisl";
		r.r.msg = std::string("wrong result of ") + isl_note() + " (set library, not code under test)";
	}
	return r;
}

// A crash whose first memory error is an access by the set library beyond a
// block that the set library allocated is not the code under test's either.
static bool libisl_overflow(const std::string &id, const std::vector<uint32_t> &ch, const std::string &base)
{
	std::string rf = base + "/vg.replay", log = base + "/vg.log", self(4096, 0);
	ssize_t k = readlink("/proc/self/exe", &self[0], self.size());
	if (k <= 0 || system("command -v valgrind >/dev/null 2>&1") != 0) return false;
	self.resize(k);
	FILE *f = fopen(rf.c_str(), "w");
	if (!f) return false;
	fprintf(f, "choices:");
	for (auto x : ch) fprintf(f, " %u", x);
	fprintf(f, "\n");
	fclose(f);
	std::string cmd = "VH_SCRATCH='" + base + "/vg.d' timeout 200 valgrind -q --undef-value-errors=no --trace-children=yes --log-file='" + log + ".%p' '" + self + "' replay " + id + " '" + rf + "' >/dev/null 2>&1";
	if (system(cmd.c_str()) < 0) return false;
	std::string all = "cat '" + log + "'.* > '" + log + "' 2>/dev/null; rm -f '" + log + "'.*";
	if (system(all.c_str()) < 0) return false;
	std::istringstream in(slurp(log));
	std::string l;
	int part = 0;         // 1: frames of the access, 2: frames of the allocation
	bool acc = false, alloc = false, overflow = false;
	while (std::getline(in, l)) {
		size_t b = l.find("== ");
		if (b != std::string::npos) l = l.substr(b + 3);
		if (!part) { if (l.compare(0, 8, "Invalid ") == 0) part = 1; continue; }
		bool frame = l.find(" at 0x") != std::string::npos || l.find(" by 0x") != std::string::npos;
		if (part == 1 && frame && !acc) {
			if (l.find("vgpreload") != std::string::npos) continue;
			if (l.find("libisl.so") == std::string::npos) return false;
			acc = true;
		} else if (part == 1 && l.find("Address 0x") != std::string::npos) {
			overflow = (l.find("bytes after a block") != std::string::npos || l.find("bytes before a block") != std::string::npos) && l.find("alloc'd") != std::string::npos;
			if (!overflow) return false;
			part = 2;
		} else if (part == 2) {
			if (!frame) break;
			if (l.find("vgpreload") != std::string::npos) continue;
			alloc = l.find("libisl.so") != std::string::npos;
			break;
		}
	}
	return acc && alloc && overflow;
}

static bool is_fail(const Rec &r) { return r.r.st == ST_FAIL && r.r.known.empty(); }

// Greedy shrinking of the choice sequence.
static std::vector<uint32_t> shrink(const Prop &p, std::vector<uint32_t> best, double tmo, double budget, const std::string &kind, int *tried)
{
	double t0 = now();
	auto fails = [&](const std::vector<uint32_t> &c, std::vector<uint32_t> &norm) {
		(*tried)++;
		Rec r = run_child(p, &c, 0, tmo);
		if (!is_fail(r)) return false;
		if ((r.r.kind == "timeout") != (kind == "timeout")) return false;
		norm = r.ch.empty() ? c : r.ch;
		if (norm.size() > c.size()) norm = c;
		return true;
	};
	bool progress = true;
	while (progress && now() - t0 < budget) {
		progress = false;
		// truncate / delete chunks
		for (size_t len = best.size() / 2; len >= 1 && now() - t0 < budget; len /= 2) {
			for (size_t i = 0; i + len <= best.size() && now() - t0 < budget;) {
				std::vector<uint32_t> c = best, nrm;
				c.erase(c.begin() + i, c.begin() + i + len);
				if (fails(c, nrm) && nrm.size() < best.size()) { best = nrm; progress = true; }
				else i += len;
			}
		}
		// zero chunks
		for (size_t len = std::min<size_t>(8, best.size()); len >= 1 && now() - t0 < budget; len /= 2) {
			for (size_t i = 0; i + len <= best.size() && now() - t0 < budget; i += len) {
				std::vector<uint32_t> c = best, nrm;
				bool nz = false;
				for (size_t j = i; j < i + len; j++) { nz |= c[j] != 0; c[j] = 0; }
				if (nz && fails(c, nrm)) { best = nrm.size() <= c.size() ? nrm : c; progress = true; }
			}
		}
		// lower single values
		for (size_t i = 0; i < best.size() && now() - t0 < budget; i++) {
			while (i < best.size() && best[i] > 0) {
				std::vector<uint32_t> c = best, nrm;
				c[i] = best[i] > 4 ? best[i] / 2 : best[i] - 1;
				if (!fails(c, nrm)) break;
				best = nrm;
				progress = true;
			}
		}
	}
	return best;
}

static std::string jesc(const std::string &s)
{
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if (c < 32 || c >= 127) o += strf("\\u%04x", c);
		else o += (char)c;
	}
	return o;
}

struct Shared { volatile long cur[64]; volatile double start[64]; };

int main(int argc, char **argv)
{
	if (argc < 3) { fprintf(stderr, "usage: vh run|one|replay ID ...\n"); return 2; }
	std::string mode = argv[1], id = argv[2], tier = "quick", out = ".", known;
	uint64_t seed = 1;
	long cases = -1, kase = 0;
	int jobs = 8;
	double maxtime = 0;
	std::string file;
	for (int i = 3; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
		if (a == "--seed") seed = strtoull(nx(), 0, 10);
		else if (a == "--tier") tier = nx();
		else if (a == "--cases") cases = atol(nx());
		else if (a == "--case") kase = atol(nx());
		else if (a == "--jobs") jobs = atoi(nx());
		else if (a == "--maxtime") maxtime = atof(nx());
		else if (a == "--out") out = nx();
		else file = a;
	}
	const Prop *pp = nullptr;
	for (auto &q : props()) if (id == q.id) pp = &q;
	if (!pp) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
	const Prop &p = *pp;
	signal(SIGPIPE, SIG_IGN);

	if (mode == "known") {
		auto it = knowns().find(id + " " + file);
		if (it == knowns().end()) { fprintf(stderr, "unknown key\n"); return 2; }
		pid_t pid = fork();
		if (pid == 0) {
			alarm(60);
			bool f = it->second();
			if (!g_scratch.empty()) rmtree(g_scratch);
			_exit(f ? 1 : 0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
	}
	if (mode == "one" || mode == "gdb") {
		Result r;
		Src s(case_seed(p.id, seed, kase));
		decide(p, s, r);
		printf("status %d kind %s known %s units %ld\nmsg %s\n", r.st, r.kind.c_str(), r.known.c_str(), r.units, r.msg.c_str());
		for (auto &l : r.labels) printf("%s ", l.c_str());
		printf("\n%s\n", r.render.c_str());
		if (!g_scratch.empty()) rmtree(g_scratch);
		return 0;
	}
	if (mode == "shrink") {
		Rec r = run_child(p, nullptr, case_seed(p.id, seed, kase), p.timeout * 2);
		if (!is_fail(r)) { printf("case passes (%d %s)\n", r.r.st, r.r.msg.c_str()); return 0; }
		int tried = 0;
		auto best = shrink(p, r.ch, p.timeout * 2, getenv("VH_BUDGET") ? atof(getenv("VH_BUDGET")) : 60, r.r.kind, &tried);
		r = run_child(p, &best, 0, p.timeout * 2);
		printf("%s: %s (%d tries)\n%s\n", r.r.kind.c_str(), r.r.msg.c_str(), tried, r.r.render.c_str());
		return 0;
	}
	if (mode == "replay") {
		std::string t = slurp(file);
		size_t b = t.find("choices:");
		std::vector<uint32_t> ch;
		if (b == std::string::npos) { fprintf(stderr, "bad replay file\n"); return 2; }
		const char *q = t.c_str() + b + 8;
		while (*q && *q != '\n') { char *e; unsigned long v = strtoul(q, &e, 10); if (e == q) break; ch.push_back((uint32_t)v); q = e; while (*q == ' ') q++; }
		Rec r = run_child(p, &ch, 0, p.timeout * 4);
		printf("status %d kind %s known %s\nmsg %s\n%s\n", r.r.st, r.r.kind.c_str(), r.r.known.c_str(), r.r.msg.c_str(), r.r.render.c_str());
		return is_fail(r) ? 1 : 0;
	}

	// ---- run
	if (cases < 0) cases = tier == "thorough" ? p.thorough : p.quick;
	if (maxtime <= 0) maxtime = tier == "thorough" ? 3000 : 480;
	double t0 = now();
	std::string base = scratch_base();
	mkdir(base.c_str(), 0700);
	mkdir(out.c_str(), 0700);
	Shared *sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (jobs > 64) jobs = 64;
	struct W { pid_t pid = 0; long next = 0; bool done = false; int gen = 0; };
	std::vector<W> ws(jobs);
	std::vector<Rec> fails;
	long timeouts = 0, crashes = 0;
	std::vector<long> timed;
	auto spawn = [&](int j) {
		sh->cur[j] = -1;
		sh->start[j] = now();
		std::string rf = base + strf("/r%d.%d", j, ws[j].gen), ef = base + strf("/e%d", j);
		pid_t pid = fork();
		if (pid == 0) {
			setpgid(0, 0);
			child_limits();
			int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
			dup2(fd, 2);
			int nul = open("/dev/null", O_RDWR);
			dup2(nul, 0);
			dup2(nul, 1);
			FILE *f = fopen(rf.c_str(), "w");
			for (long k = ws[j].next; k < cases; k += jobs) {
				sh->start[j] = now();
				sh->cur[j] = k;
				if (now() - t0 > maxtime) break;
				Result r;
				Src s(case_seed(p.id, seed, k));
				decide(p, s, r);
				put_result(f, k, r, r.st == ST_FAIL ? &s.out : nullptr, r.st == ST_FAIL || k % 97 == 5 || k < 3);
				if (r.st == ST_FAIL && r.known.empty()) { static int nf = 0; if (++nf > 25) break; }
			}
			fclose(f);
			sh->cur[j] = -2;
			if (!g_scratch.empty() && g_scratch_pid == getpid()) rmtree(g_scratch);
			_exit(0);
		}
		ws[j].pid = pid;
	};
	for (int j = 0; j < jobs; j++) { ws[j].next = j; spawn(j); }
	int running = jobs;
	std::vector<std::pair<long, std::string>> crashed;
	while (running > 0) {
		bool any = false;
		for (int j = 0; j < jobs; j++) {
			if (ws[j].done) continue;
			int status;
			pid_t w = waitpid(ws[j].pid, &status, WNOHANG);
			bool to = false;
			if (w == 0 && sh->cur[j] >= 0 && now() - sh->start[j] > p.timeout) {
				kill(-ws[j].pid, SIGKILL);
				kill(ws[j].pid, SIGKILL);
				waitpid(ws[j].pid, &status, 0);
				w = ws[j].pid;
				to = true;
			}
			if (w != ws[j].pid) continue;
			any = true;
			kill(-ws[j].pid, SIGKILL);
			rmtree(base + strf("/w%d", (int)ws[j].pid));
			long k = sh->cur[j];
			if (!to && k == -2) { ws[j].done = true; running--; continue; }
			if (to) { timeouts++; timed.push_back(k); }
			else { crashes++; crashed.push_back({ k, crash_summary(slurp(base + strf("/e%d", j)), status) }); }
			ws[j].gen++;
			ws[j].next = (k < 0 ? ws[j].next : k) + jobs;
			if (crashes > 40 || (p.hang_fails && timeouts > 6) || ws[j].next >= cases || now() - t0 > maxtime) { ws[j].done = true; running--; }
			else spawn(j);
		}
		if (!any) usleep(2000);
	}
	// ---- collect
	long n = 0, nontriv = 0, inconcl = 0, trivial = 0, units = 0, knownc = 0;
	std::map<std::string, long> lab, why, knowns;
	std::map<std::string, std::string> knownmsg;
	std::set<uint64_t> distinct;
	std::vector<std::string> samples;
	for (int j = 0; j < jobs; j++) {
		for (int g = 0; g <= ws[j].gen; g++) {
			std::string rf = base + strf("/r%d.%d", j, g);
			FILE *f = fopen(rf.c_str(), "r");
			if (!f) continue;
			Rec r;
			while (get_result(f, r)) {
				n++;
				units += r.r.units;
				if (r.r.st == ST_OK) {
					if (distinct.insert(r.r.hash).second) {
						nontriv++;
						if (samples.size() < 4 && !r.r.render.empty()) samples.push_back(r.r.render);
					}
				} else if (r.r.st == ST_TRIVIAL) trivial++;
				else if (r.r.st == ST_INCONCLUSIVE) { inconcl++; why[r.r.kind + ": " + r.r.msg]++; }
				else if (!r.r.known.empty()) { knownc++; knowns[r.r.known]++; if (!knownmsg.count(r.r.known)) knownmsg[r.r.known] = r.r.msg; }
				else fails.push_back(r);
				for (auto &l : r.r.labels) lab[l]++;
				r = Rec();
			}
			fclose(f);
			unlink(rf.c_str());
		}
		unlink((base + strf("/e%d", j)).c_str());
	}
	inconcl += p.hang_fails ? 0 : timeouts;
	n += timeouts + crashes;
	if (timeouts) why["timeout"] = timeouts;
	for (auto &c : crashed) {
		Rec r;
		r.k = c.first;
		r.r.st = ST_FAIL;
		r.r.kind = "crash";
		r.r.msg = c.second;
		fails.push_back(r);
	}
	if (p.hang_fails)
		for (auto k : timed) {
			Rec r;
			r.k = k;
			r.r.st = ST_FAIL;
			r.r.kind = "timeout";
			r.r.msg = "no answer";
			fails.push_back(r);
		}
	if (tier == "debug" || getenv("VH_DEBUG")) {
		for (size_t i = 0; i < fails.size() && i < 60; i++) printf("FAIL case %ld %s: %s\n", fails[i].k, fails[i].r.kind.c_str(), fails[i].r.msg.c_str());
		for (auto &w : why) printf("INCONCLUSIVE %ld %s\n", w.second, w.first.c_str());
		if (timed.size()) { printf("TIMED"); for (size_t i = 0; i < timed.size() && i < 20; i++) printf(" %ld", timed[i]); printf("\n"); }
	}
	// ---- confirm and shrink
	int violations = 0;
	std::string replay;
	int unconfirmed = 0;
	long libisl = 0;
	std::sort(fails.begin(), fails.end(), [](const Rec &a, const Rec &b) { return a.k < b.k; });
	int attempts = 0;
	for (auto &fr : fails) {
		if (violations || attempts++ > 60) break;
		// Regenerate the case to obtain its choices (needed for crashes),
		// and confirm it three times.
		double tmo = fr.r.kind == "timeout" ? p.timeout * 3 : p.timeout * 2;
		std::vector<uint32_t> ch = fr.ch;
		int ok = 0;
		Rec last;
		for (int i = 0; i < 3; i++) {
			Rec r = ch.empty() ? run_child(p, nullptr, case_seed(p.id, seed, fr.k), tmo) : run_child(p, &ch, 0, tmo);
			if (is_fail(r)) { ok++; last = r; }
			else if (r.r.kind == "libisl") { ok = -10; libisl++; inconcl++; why[r.r.msg]++; break; }
			else if (r.r.st == ST_FAIL && !r.r.known.empty()) { ok = -10; knownc++; knowns[r.r.known]++; knownmsg[r.r.known] = r.r.msg; }
		}
		if (ok < 3) { if (ok >= 0) { unconfirmed++; printf("NOTE property=%s case=%ld failed once but was not reproducible (%s)\n", p.id, fr.k, fr.r.msg.c_str()); } continue; }
		if (ch.empty()) ch = last.ch;
		auto crashed = [](const Rec &r) { return r.r.kind == "crash" || r.r.msg.find("signal") != std::string::npos; };
		if (crashed(last) && libisl_overflow(id, ch, base)) {
			libisl++; inconcl++; why["memory error inside the set library, not code under test"]++;
			continue;
		}
		violations++;
		int tried = 0;
		double budget = tier == "thorough" ? 120 : 60;
		std::vector<uint32_t> best = ch;
		if (!ch.empty()) best = shrink(p, ch, tmo, budget, last.r.kind, &tried);
		Rec fin = best.empty() && ch.empty() ? last : run_child(p, &best, 0, tmo);
		if (!is_fail(fin)) fin = last;
		if (crashed(fin) && !best.empty() && libisl_overflow(id, best, base)) { best = ch; fin = last; }
		replay = out + "/" + id + strf("-seed%llu.replay", (unsigned long long)seed);
		FILE *f = fopen(replay.c_str(), "w");
		fprintf(f, "property: %s\nkind: %s\nmessage: %s\nfound-by: seed %llu case %ld (%d shrink attempts)\n", id.c_str(), fin.r.kind.c_str(), fin.r.msg.c_str(), (unsigned long long)seed, fr.k, tried);
		fprintf(f, "choices:");
		for (auto x : best) fprintf(f, " %u", x);
		fprintf(f, "\n---- minimal case ----\n%s\n", fin.r.render.c_str());
		fclose(f);
		printf("FAILED %s: %s\n%s\n", fin.r.kind.c_str(), fin.r.msg.c_str(), fin.r.render.substr(0, 3000).c_str());
	}
	double wall = now() - t0;
	// ---- summary as JSON (turned into the evidence file by the check script)
	std::string js = out + "/" + id + ".summary.json";
	FILE *f = fopen(js.c_str(), "w");
	fprintf(f, "{\"evaluations\": %ld, \"distinct_nontrivial\": %ld, \"trivial\": %ld, \"inconclusive\": %ld, \"timeouts\": %ld, \"known\": %ld, \"work_units\": %ld, \"planned\": %ld, \"libisl\": %ld, \"unconfirmed\": %d, \"violations\": %d, \"wall_s\": %.2f,\n",
		n, nontriv, trivial, inconcl, timeouts, knownc, units, cases, libisl, unconfirmed, violations, wall);
	fprintf(f, "\"rule\": \"%s\",\n\"classes\": {", jesc(p.rule).c_str());
	bool first = true;
	for (auto &l : lab) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", jesc(l.first).c_str(), l.second); first = false; }
	fprintf(f, "},\n\"inconclusive_reasons\": {");
	first = true;
	for (auto &l : why) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", jesc(l.first).c_str(), l.second); first = false; }
	fprintf(f, "},\n\"known_findings\": {");
	first = true;
	for (auto &l : knowns) { fprintf(f, "%s\"%s\": [%ld, \"%s\"]", first ? "" : ", ", jesc(l.first).c_str(), l.second, jesc(knownmsg[l.first]).c_str()); first = false; }
	fprintf(f, "},\n\"samples\": [");
	for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? ",\n" : "", jesc(samples[i].substr(0, 2500)).c_str());
	fprintf(f, "],\n\"replay\": \"%s\"}\n", replay.c_str());
	fclose(f);
	printf("%s %s: %ld cases, %ld distinct non-trivial, %ld trivial, %ld inconclusive, %ld known, %d violations, %.1f s\n", id.c_str(), tier.c_str(), n, nontriv, trivial, inconcl, knownc, violations, wall);
	return violations ? 1 : 0;
}
