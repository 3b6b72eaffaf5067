#include "proc.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <time.h>

bool Run::ok() const { return !timeout && WIFEXITED(status) && WEXITSTATUS(status) == 0; }
std::string read_file(const std::string &p)
{
	std::string s;
	FILE *f = fopen(p.c_str(), "r");
	if (!f) return s;
	char b[65536];
	size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < (64u << 20)) s.append(b, n);
	fclose(f);
	return s;
}
void write_file(const std::string &p, const std::string &s)
{
	FILE *f = fopen(p.c_str(), "w");
	if (!f) throw Inconclusive("cannot write " + p);
	fwrite(s.data(), 1, s.size(), f);
	fclose(f);
}
std::string cli_path()
{
	const char *c = getenv("VH_CLI");
	if (!c) throw Inconclusive("VH_CLI is not set");
	return c;
}
Run run_cmd(const std::vector<std::string> &argv, const std::string &in, double timeout, const std::string &dir)
{
	Run r;
	std::string d = scratch_dir();
	static int n;
	std::string fi = d + strf("/c%d.in", n), fo = d + strf("/c%d.out", n), fe = d + strf("/c%d.err", n);
	n = (n + 1) % 50;
	write_file(fi, in);
	pid_t pid = fork();
	if (pid == 0) {
		int a = open(fi.c_str(), O_RDONLY), b = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), c = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		dup2(a, 0);
		dup2(b, 1);
		dup2(c, 2);
		struct rlimit rl = { 64u << 20, 64u << 20 };
		setrlimit(RLIMIT_FSIZE, &rl);
		if (!dir.empty() && chdir(dir.c_str())) _exit(126);
		std::vector<char *> v;
		for (auto &x : argv) v.push_back((char *)x.c_str());
		v.push_back(nullptr);
		execvp(v[0], v.data());
		_exit(127);
	}
	struct timespec t0, t;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	for (;;) {
		pid_t w = waitpid(pid, &r.status, WNOHANG);
		if (w == pid) break;
		clock_gettime(CLOCK_MONOTONIC, &t);
		double el = (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9;
		if (el > timeout) { r.timeout = true; kill(pid, SIGKILL); waitpid(pid, &r.status, 0); break; }
		usleep(el < 0.02 ? 300 : 2000);
	}
	r.out = read_file(fo);
	r.err = read_file(fe);
	unlink(fi.c_str());
	unlink(fo.c_str());
	unlink(fe.c_str());
	return r;
}
