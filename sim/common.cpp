#include "common.h"
#include <cerrno>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>
#include <ctime>
#include <signal.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

unsigned char* coverage_map();
size_t coverage_bytes();

bool Line::has(const char* k) const { for(auto& p : kv) if(p.first == k) return true; return false; }
std::string Line::str(const char* k, const std::string& d) const { for(auto& p : kv) if(p.first == k) return p.second; return d; }
int64_t Line::num(const char* k, int64_t d) const { for(auto& p : kv) if(p.first == k) return strtoll(p.second.c_str(), nullptr, 10); return d; }
uint64_t Line::u64(const char* k, uint64_t d) const { for(auto& p : kv) if(p.first == k) return strtoull(p.second.c_str(), nullptr, 10); return d; }
Line& Line::set(const char* k, const std::string& v) {
	for(auto& p : kv) if(p.first == k) { p.second = v; return *this; }
	kv.emplace_back(k, v); return *this;
}
Line& Line::set(const char* k, int64_t v) { return set(k, std::to_string(v)); }
Line& Line::set(const char* k, uint64_t v) { return set(k, std::to_string(v)); }

Line& Plan::add(const char* kind) { lines.emplace_back(); lines.back().kind = kind; return lines.back(); }
const Line* Plan::find(const char* kind) const { for(auto& l : lines) if(l.kind == kind) return &l; return nullptr; }
int64_t Plan::knob(const char* name, int64_t d) const {
	for(auto& l : lines) if(l.kind == "knob" && l.has(name)) return l.num(name);
	return d;
}
void Plan::set_knob(const char* name, int64_t v) {
	for(auto& l : lines) if(l.kind == "knob" && l.has(name)) { l.set(name, v); return; }
	add("knob").set(name, v);
}
std::string Plan::text() const {
	std::string s;
	for(auto& l : lines) {
		s += l.kind;
		for(auto& p : l.kv) s += " " + p.first + "=" + p.second;
		s += "\n";
	}
	return s;
}
bool Plan::parse(const std::string& t) {
	lines.clear();
	std::istringstream in(t);
	std::string ln;
	while(std::getline(in, ln)) {
		if(ln.empty() || ln[0] == '#') continue;
		std::istringstream w(ln);
		Line l; w >> l.kind;
		std::string f;
		while(w >> f) {
			size_t e = f.find('=');
			if(e == std::string::npos) return false;
			l.kv.emplace_back(f.substr(0, e), f.substr(e + 1));
		}
		lines.push_back(l);
	}
	return true;
}

uint64_t fnv(const void* p, size_t n, uint64_t h) {
	const unsigned char* c = (const unsigned char*) p;
	for(size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull;
	return h;
}
void fold(Outcome& o, uint64_t h) { o.hash = (o.hash ^ h) * 0x100000001b3ull + 0x9e37; }

// aggregated over every child of this process
struct Agg {
	uint64_t children = 0, steps = 0, ticks = 0, switches = 0, allocs = 0, regions = 0, maxthreads = 0;
	uint64_t ctr[MAX_CTR] = {0};
} agg;
static std::unordered_set<uint64_t> scheds, states;
static uint64_t run_sched = 0;
static std::vector<SwitchRec> run_switches; static bool run_overflow = false;

static void child_main(child_fn fn, const void* arg, uint64_t salt) {
	child_begin(salt);
	struct A { child_fn f; const void* a; };
	static A a; a.f = fn; a.a = arg;
	spawn([](void* p) { A* q = (A*) p; q->f(q->a); }, &a);
	join_all();
	child_end();
}

bool run_child(child_fn fn, const void* arg, uint64_t salt, Outcome& o) {
	fflush(stdout); fflush(stderr); std::cout.flush();
	pid_t pid = fork();
	if(pid < 0) { perror("fork"); exit(70); }
	if(pid == 0) child_main(fn, arg, salt);
	int st = 0;
	time_t t0 = time(nullptr);
	for(unsigned spin = 0;; ++spin) {
		pid_t r = waitpid(pid, &st, spin < 2000 ? 0 : WNOHANG);
		if(r == pid) break;
		if(r < 0 && errno == EINTR) { if(time(nullptr) - t0 > 100) { kill(pid, SIGKILL); waitpid(pid, &st, 0); o.error = true; o.detail = "child hung (wall clock guard) in " + std::string(R->context); return false; } continue; }
		usleep(1000);
	}
	agg.children++; agg.steps += R->steps; agg.ticks += R->ticks; agg.switches += R->switches; agg.allocs += R->allocs; agg.regions += R->regions;
	if(R->threads > agg.maxthreads) agg.maxthreads = R->threads;
	for(int i = 0; i < MAX_CTR; ++i) agg.ctr[i] += R->ctr[i];
	run_sched ^= R->sched_hash * 31 + R->threads;
	if(run_switches.empty() && R->nswitch) { run_switches.assign(R->sw, R->sw + R->nswitch); run_overflow = R->nswitch >= MAX_SWITCH; }
	fold(o, R->hash);
	if(R->harness_error || !R->done) {
		o.error = true;
		std::ostringstream m; m << R->detail << " (wait status " << st << ", context " << R->context << ")";
		o.detail = m.str();
		return false;
	}
	if(R->violated) {
		o.violated = true; o.cls = R->cls; o.detail = R->detail; o.context = R->context;
		return false;
	}
	return true;
}

void apply_schedule(const Plan& p) {
	for(auto& l : p.lines) if(l.kind == "preempt") add_preempt((unsigned) l.num("t"), l.u64("at"), (unsigned) l.u64("to"));
	set_block_rule((unsigned) p.knob("block_rule", 0));
	int64_t per = p.knob("rs_period", 0);
	if(per > 0) set_random_sched((uint64_t) p.knob("rs_seed", 1), (uint64_t) per);
}

// ------------------------------------------------------------ json
static std::string js(const std::string& s) {
	std::string o = "\"";
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { o += '\\'; o += c; }
		else if(c == '\n') o += "\\n";
		else if(c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

static void run_one(const Plan& p, Outcome& o) { run_sched = 0; run_switches.clear(); run_overflow = false; run_plan(p, o); }

static std::string outcome_json(const Outcome& o) {
	std::ostringstream s;
	s << "{\"violated\": " << (o.violated ? "true" : "false") << ", \"error\": " << (o.error ? "true" : "false")
	  << ", \"cls\": " << js(o.cls) << ", \"context\": " << js(o.context) << ", \"detail\": " << js(o.detail)
	  << ", \"hash\": \"" << std::hex << o.hash << "\"}";
	return s.str();
}

static void make_plan(uint64_t seed, uint64_t idx, bool thorough, Plan& p) {
	Rng g(fnv(&idx, 8, fnv(&seed, 8)) ^ fnv_str(PROPERTY));
	Line& h = p.add("plan");
	h.set("property", PROPERTY); h.set("variant", VARIANT); h.set("seed", seed); h.set("idx", idx);
	generate(g, p, thorough, idx);
}

// Turn a random schedule into the explicit list of preemptions it made.
static Plan explicit_schedule(const Plan& p) {
	Plan q;
	for(auto& l : p.lines) {
		if(l.kind == "preempt") continue;
		if(l.kind == "knob" && (l.has("rs_period") || l.has("rs_seed"))) continue;
		q.lines.push_back(l);
	}
	for(auto& w : run_switches)
		q.add("preempt").set("t", (uint64_t) w.tid).set("at", w.at).set("to", (uint64_t) w.to);
	return q;
}

static int explore(int argc, char** argv) {
	// explore seed start stride count tier out wall
	uint64_t seed = strtoull(argv[2], nullptr, 10), start = strtoull(argv[3], nullptr, 10), stride = strtoull(argv[4], nullptr, 10), cnt = strtoull(argv[5], nullptr, 10);
	bool thorough = !strcmp(argv[6], "thorough");
	std::string out = argv[7];
	double wall = atof(argv[8]);
	struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
	std::ofstream vf(out + ".viol");
	std::ofstream hf(out + ".hashes");
	std::map<std::string, int> seen;
	std::vector<std::string> samples;
	uint64_t runs = 0, viol = 0, plan_lines = 0, i;
	for(i = 0; i < cnt; ++i) {
		uint64_t idx = start + i * stride;
		Plan p; make_plan(seed, idx, thorough, p);
		Agg before = agg;
		Outcome o; run_one(p, o);
		runs++; plan_lines += p.lines.size();
		bool nontrivial = agg.switches != before.switches;
		for(int k = 0; k < MAX_CTR && !nontrivial; ++k) nontrivial = agg.ctr[k] != before.ctr[k];
		scheds.insert(run_sched);
		if(nontrivial) states.insert(o.hash);
		hf << idx << " " << std::hex << o.hash << std::dec << "\n";
		if(samples.size() < 2 && !o.violated && p.lines.size() > 2 && i >= cnt / 3) samples.push_back(p.text());
		if(o.error) {
			vf << "{\"idx\": " << idx << ", \"outcome\": " << outcome_json(o) << ", \"plan\": " << js(p.text()) << "}\n";
			vf.flush();
			viol++;
			if(++seen["error"] > 3) { ++i; break; }
			continue;
		}
		if(o.violated) {
			viol++;
			std::string key = o.cls + "|" + o.context;
			if(seen[key]++ < 2 && seen.size() < 40) {
				Plan use = p;
				if(p.knob("rs_period", 0) > 0 && !run_overflow) {
					Plan q = explicit_schedule(p);
					Outcome o2; run_one(q, o2);
					if(o2.violated && o2.cls == o.cls && o2.context == o.context) { use = q; o = o2; }
				}
				vf << "{\"idx\": " << idx << ", \"outcome\": " << outcome_json(o) << ", \"plan\": " << js(use.text()) << "}\n";
				vf.flush();
			}
			if(viol > 400) { ++i; break; }
		}
		if((i & 15) == 15) {
			struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
			if((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > wall) { ++i; break; }
		}
	}
	struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
	std::ofstream f(out);
	f << "{\"runs\": " << runs << ", \"violations\": " << viol << ", \"planned\": " << cnt
	  << ", \"children\": " << agg.children << ", \"steps\": " << agg.steps << ", \"ticks\": " << agg.ticks
	  << ", \"switches\": " << agg.switches << ", \"allocs\": " << agg.allocs << ", \"regions\": " << agg.regions
	  << ", \"max_threads\": " << agg.maxthreads << ", \"plan_lines\": " << plan_lines
	  << ", \"wall\": " << (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9
	  << ", \"counters\": {";
	for(int k = 0; CTR_NAMES[k]; ++k) f << (k ? ", " : "") << js(CTR_NAMES[k]) << ": " << agg.ctr[k];
	f << "}, \"samples\": [";
	for(size_t k = 0; k < samples.size(); ++k) f << (k ? ", " : "") << js(samples[k]);
	f << "]";
	std::string inf = info();
	if(!inf.empty()) f << ", \"info\": {" << inf << "}";
	f << "}\n";
	std::ofstream sf(out + ".sched", std::ios::binary);
	for(uint64_t h : scheds) sf.write((const char*) &h, 8);
	std::ofstream tf(out + ".states", std::ios::binary);
	for(uint64_t h : states) tf.write((const char*) &h, 8);
	std::ofstream cf(out + ".cov", std::ios::binary);
	cf.write((const char*) coverage_map(), coverage_bytes());
	return 0;
}

static void on_alarm(int) {}

} // namespace sim

using namespace sim;

int main(int argc, char** argv) {
	// No address space randomisation: a run must not depend on where things are.
	int pers = personality(0xffffffff);
	if(pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
		setenv("SIM_REEXEC", "1", 1);
		if(personality(pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
	}
	unsetenv("SIM_REEXEC");
	signal(SIGPIPE, SIG_IGN);
	// wake the parent now and then so that the wall clock guard works
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm;
	sigaction(SIGALRM, &sa, nullptr);
	struct itimerval_compat { long a, b, c, d; } it = { 5, 0, 5, 0 };
	syscall(SYS_setitimer, 0, &it, nullptr);
	init_process();
	if(argc >= 9 && !strcmp(argv[1], "explore")) return explore(argc, argv);
	if(argc >= 3 && !strcmp(argv[1], "replay")) {
		std::ifstream f(argv[2]); std::stringstream b; b << f.rdbuf();
		Plan p;
		if(!p.parse(b.str())) { fprintf(stderr, "bad plan\n"); return 2; }
		Outcome o; run_one(p, o);
		std::cout << outcome_json(o) << std::endl;
		return o.error ? 2 : o.violated ? 1 : 0;
	}
	if(argc >= 5 && !strcmp(argv[1], "gen")) {
		Plan p; make_plan(strtoull(argv[2], nullptr, 10), strtoull(argv[3], nullptr, 10), !strcmp(argv[4], "thorough"), p);
		std::cout << p.text();
		return 0;
	}
	if(argc >= 2 && !strcmp(argv[1], "info")) { std::cout << "{" << info() << "}" << std::endl; return 0; }
	fprintf(stderr, "usage: %s explore|replay|gen ...\n", argv[0]);
	return 2;
}
