// Entry points of the simulator: generate plans, execute plans, work through a range of seeds.
#include "world.hpp"
plan::Run make_plan(const std::string &prop, uint64_t seed);
#include <sys/wait.h>
#include <csignal>
#include <sys/personality.h>
#include <poll.h>
namespace world { Cap out, err; thread_local vector<string> *World::curlog = nullptr; }
using namespace world;
extern "C" const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:quarantine_size_mb=16:allocator_release_to_os_interval_ms=-1:malloc_context_size=1:print_legend=0:color=never"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:silence_unsigned_overflow=1"; }

static string scratch;
struct Outcome { vector<Viol> v; uint64_t hash = 0, path = 0; long ops = 0, oracles = 0; map<string, long> fired; std::set<string> probes; uint64_t switches = 0; vector<faults::Switch> trace; bool traced = false; vector<string> log; };
static uint64_t fnv(const vector<string> &l) { uint64_t h = 1469598103934665603ull; for (auto &s : l) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; h = (h ^ 10) * 1099511628211ull; } return h; }
static bool hasthreads(const plan::Run &r) { for (auto &o : r.ops) if (o.a[0] == "threads") return true; return false; }
static Outcome execute(const plan::Run &r) {
    Outcome o; faults::reset_path_hash(); faults::lib_forget();
    vector<string> solo; bool th = hasthreads(r);
    if (th) { World w(r, true); w.tmp = scratch; w.go(); solo = w.log; if (!w.viol.empty()) o.v = w.viol; }
    long before = faults::lib_live(); bool leaky;
    {
        World w(r, false); w.tmp = scratch; w.go();
        o.hash = fnv(w.log); o.ops = w.ops; o.oracles = w.oracles; o.fired = w.fired; o.probes = w.probes; o.switches = w.switches; o.trace = w.trace; o.traced = w.traced; leaky = w.leaky; o.log = w.log;
        for (auto &v : w.viol) o.v.push_back(v);
        if (th && r.prop == "C09") {
            ++o.oracles;
            if (solo != w.log) { size_t i = 0; while (i < solo.size() && i < w.log.size() && solo[i] == w.log[i]) ++i; o.v.push_back({"thread-result", "interleaved: " + (i < w.log.size() ? w.log[i] : string("-")) + " alone: " + (i < solo.size() ? solo[i] : string("-"))}); }
        }
    }
    o.path = faults::path_hash();
    if ((r.prop == "C10" || r.prop == "C13") && o.v.empty() && !leaky) {
        ++o.oracles;
        if (faults::lib_live() > before) { // a first execution may fill caches: what counts is growth when it is repeated
            long a = faults::lib_live(); { World w(r, false); w.tmp = scratch; w.go(); }
            long b = faults::lib_live(); { World w(r, false); w.tmp = scratch; w.go(); }
            long c = faults::lib_live();
            if (b > a && c > b) o.v.push_back({"leak", std::to_string(b - a) + " blocks stay allocated after every object is gone"});
        }
    }
    faults::lib_forget();
    return o;
}
static string esc(const string &s) { string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else r += c; } return r.substr(0, 4000); }
static string record(const plan::Run &r, const Outcome &o) { // the plan with its thread schedule written out
    plan::Run q = r;
    if (o.traced) for (auto &op : q.ops) if (op.a[0] == "threads") { string s; for (auto &x : o.trace) s += (s.empty() ? "" : ",") + std::to_string(x.edge) + ":" + std::to_string(x.to); op.kv["sched"] = s.empty() ? "0:0" : s; }
    return plan::text(q);
}
static uint64_t runseed(uint64_t s, uint64_t i) { uint64_t x = s * 0x9e3779b97f4a7c15ull + i; return Prng::splitmix(x) >> 16; }
static void rm(const string &d) { if (d.compare(0, 5, "/tmp/") == 0 || d.find("/build/") != string::npos) { for (const char *f : {"spec.stl", "spec0.stl", "spec1.stl", "spec2.stl", "spec3.stl", "t0.dat", "t1.dat", "u.dat", "log.txt", "l.txt"}) unlink((d + "/" + f).c_str()); } }
static string classify(const string &e, int st) {
    size_t p = e.find("SIMFATAL "); if (p != string::npos) { size_t q = e.find('\n', p); string l = e.substr(p + 9, q - p - 9); size_t s = l.find(' '); return l.substr(0, s) + "\t" + l.substr(s + 1); }
    p = e.find("ERROR: AddressSanitizer: "); if (p != string::npos) { string l = e.substr(p + 25, 300); size_t q = l.find_first_of(" \n"); return "asan:" + l.substr(0, q) + "\t" + esc(l.substr(0, l.find('\n'))); }
    p = e.find("runtime error: "); if (p != string::npos) { size_t b = e.rfind('\n', p); b = b == string::npos ? 0 : b + 1; string l = e.substr(b, e.find('\n', p) - b); string m = l.substr(l.find("runtime error: ") + 15); string c; for (char ch : m.substr(0, 40)) { if (isdigit((unsigned char)ch)) break; c += ch == ' ' ? '-' : ch; } return "ubsan:" + c + "\t" + esc(l); }
    p = e.find("terminate called"); if (p != string::npos) return "terminate\t" + esc(e.substr(p, 200));
    if (WIFSIGNALED(st)) return "signal:" + std::to_string(WTERMSIG(st)) + "\t" + esc(e.substr(0, 200));
    return "exit:" + std::to_string(WEXITSTATUS(st)) + "\t" + esc(e.substr(0, 300));
}
int main(int argc, char **argv) {
    // the same addresses in every process, where the system allows it
    if (!getenv("SIM_FIXED")) { setenv("SIM_FIXED", "1", 1); int old = personality(0xffffffff); if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    string mode = argc > 1 ? argv[1] : "";
    static std::ostream keep(std::cout.rdbuf());
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    const char *sd = getenv("SIM_SCRATCH"); scratch = sd ? sd : "/tmp";
    if (mode == "gen") { auto r = make_plan(argv[2], strtoull(argv[3], nullptr, 10)); fputs(plan::text(r).c_str(), stdout); return 0; }
    if (mode == "seed") { printf("%llu\n", (unsigned long long)runseed(strtoull(argv[2], nullptr, 10), strtoull(argv[3], nullptr, 10))); return 0; }
    std::cout.rdbuf(&out); std::cerr.rdbuf(&err); std::clog.rdbuf(&err);
    if (chdir(scratch.c_str())) return 3;
    if (mode == "exec") { // execute the plans of a file one after the other in this process
        auto runs = plan::parse(slurp(argv[2])); bool verbose = argc > 3 && string(argv[3]) == "-v", recd = argc > 3 && string(argv[3]) == "-r"; int rc = 0;
        for (size_t i = 0; i < runs.size(); ++i) {
            printf("START %zu\n", i); fflush(stdout);
            Outcome o = execute(runs[i]);
            if (verbose) for (auto &l : o.log) printf("  %s\n", l.c_str());
            printf("HASH %zu %016llx\n", i, (unsigned long long)o.hash);
            if (!o.v.empty()) { rc = 1; printf("VIOL %zu %s\t%s\n", i, o.v[0].cls.c_str(), esc(o.v[0].msg).c_str()); if (recd) printf("PLAN\n%sENDPLAN\n", record(runs[i], o).c_str()); }
        }
        printf("DONE\n"); fflush(stdout); _exit(rc);
    }
    if (mode == "worker") { // worker PROP SEED START COUNT BATCH
        string prop = argv[2]; uint64_t seed = strtoull(argv[3], nullptr, 10); long start = atol(argv[4]), count = atol(argv[5]), batch = argc > 6 ? atol(argv[6]) : 25; int bad = 0;
        for (long b = start; b < start + count && bad < 12;) {
            long e = std::min(b + batch, start + count); int p[2]; if (pipe(p)) return 3;
            string errf = scratch + "/stderr.txt"; fflush(stdout);
            pid_t c = fork();
            if (c == 0) {
                close(p[0]); int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); close(fd); FILE *f = fdopen(p[1], "w");
                for (long i = b; i < e; ++i) {
                    fprintf(f, "S %ld\n", i); fflush(f);
                    auto r = make_plan(prop, runseed(seed, i)); Outcome o = execute(r);
                    fprintf(f, "R %ld %016llx %016llx %ld %ld %.3f %llu", i, (unsigned long long)o.hash, (unsigned long long)o.path, o.ops, o.oracles, r.simtime, (unsigned long long)o.switches);
                    for (auto &k : r.faults) fprintf(f, " %s=%ld", k.first.c_str(), k.second); for (auto &k : o.fired) fprintf(f, " %s=%ld", k.first.c_str(), k.second); for (auto &k : o.probes) fprintf(f, " +%s", k.c_str()); fprintf(f, "\n");
                    if (!o.v.empty()) { fprintf(f, "V %ld %ld %s\t%s\n", i, b, o.v[0].cls.c_str(), esc(o.v[0].msg).c_str()); fflush(f); _exit(5); }
                }
                fprintf(f, "E %zu", faults::edges_total()); for (auto x : faults::edges_hit()) fprintf(f, " %x", x); fprintf(f, "\nZ\n"); fflush(f); _exit(0);
            }
            close(p[1]); FILE *f = fdopen(p[0], "r"); char *line = nullptr; size_t cap = 0; long cur = b - 1; bool done = false, viol = false; ssize_t n;
            // a run that stops making progress in real time is ended (the instruction budget should act long before)
            while (true) {
                struct pollfd pf = {p[0], POLLIN, 0};
                if (f->_IO_read_ptr >= f->_IO_read_end && poll(&pf, 1, 120000) == 0) { kill(c, SIGKILL); break; }
                if ((n = getline(&line, &cap, f)) <= 0) break;
                if (line[0] == 'S') cur = atol(line + 2); else if (line[0] == 'Z') done = true; else fputs(line, stdout);
                if (line[0] == 'V') viol = true;
            }
            fclose(f); int st = 0; waitpid(c, &st, 0);
            if (viol) { ++bad; fflush(stdout); b = cur + 1; rm(scratch); continue; }
            if (!done) { ++bad; string cl = classify(slurp(errf), st); printf("C %ld %ld %s\n", cur, b, cl.c_str()); fflush(stdout); b = cur + 1; rm(scratch); continue; }
            b = e;
        }
        printf("END\n"); rm(scratch); unlink((scratch + "/stderr.txt").c_str()); return 0;
    }
    return 2;
}
