// C15: waiting for input. Each case runs a batch of scenarios, each in a process of its own, at the same time.
#include "common_main.hpp"
#include "model.hpp"
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <csignal>
#include <ctime>

static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void nap(double s) { double end = mono() + s; for (;;) { double k = end - mono(); if (k <= 0) return; struct timespec t = {(time_t) k, (long) ((k - (time_t) k) * 1e9)}; nanosleep(&t, 0); } }
static volatile sig_atomic_t signals_seen;
static void onSignal(int) { signals_seen++; }

enum Kind { NO_WRITER, IDLE_WRITER, SLOW, FOREVER, MISSING, REGULAR, BOUNDARY_CUT, NO_DATA, KINDS };
static const char *kindName[] = {"no writer", "idle writer", "slow writer", "no timeout", "missing or unreadable", "regular file", "writer ends between entries", "writer ends without data"};
struct Scenario {
    int kind; u32 timeout; bool useAdd, sig; int fds; double delay, openDelay, pause; size_t chunk; double gap; int bad; u64 limit; u64 seed; size_t pauseAt; bool restart; int sigUs; double sigAt;
};
// Shared with the writer.
struct Shared { volatile double opened, first, last; volatile int done; };

static GenOpts opts(bool large) { GenOpts o; o.points_small = large ? 400 : 8; o.points_large = large ? 2000 : 30; o.vars_small = 6; o.vars_large = 20; o.blob_large = large ? 20000 : 2000; return o; }

struct Result { bool ok; double elapsed; double start; };
static Result attempt(const Scenario & s, const std::string & file, const VTrace *w) {
    Result R; void *db = s.useAdd ? create_db() : nullptr; void *t = nullptr; int ok = 0;
    R.start = mono();
    if (s.useAdd) ok = add_trace(db, file.c_str(), s.timeout, s.limit); else { t = read_trace(file.c_str(), s.timeout, s.limit); ok = t != nullptr; }
    R.elapsed = mono() - R.start; R.ok = ok;
    if (ok && w) cmpTrace(s.useAdd ? get_trace(db, 0) : t, *w, "trace read while waiting for the writer");
    if (!ok && s.useAdd) CHECK(n_traces(db) == 0, "a failed add left a trace in the database");
    if (t) free_trace(t);
    if (db) free_db(db);
    return R;
}
static std::string describe(const Scenario & s) {
    return fmt("%s: timeout %u, %s, %d descriptors open, %ssignals%s, writer opens after %.2f s, first byte %.2f s later, chunks of %zu bytes each %.4f s, pause of %.2f s after byte %zu", kindName[s.kind], s.timeout, s.useAdd ? "add_trace" : "read_trace", s.fds, s.sig ? "" : "no ", s.sig && !s.restart ? " (not restarting)" : "", s.openDelay, s.delay, s.chunk, s.gap, s.pause, s.pauseAt);
}
// Runs in a process of its own. Returns a statistics line.
static std::string runScenario(const Scenario & s, const std::string & dir) {
    Rng r(s.seed);
    bool large = r.chance(1, 5); MTrace m = genTrace(r, opts(large)); Layout L; std::string b = encode(m, &L); VTrace w = m.view(s.limit);
    std::string fifo = dir + "/fifo"; std::vector<int> held;
    if (s.fds) {
        struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rlim_t want = s.fds + 64; if (rl.rlim_cur < want) { rl.rlim_cur = rl.rlim_max < want ? rl.rlim_max : want; setrlimit(RLIMIT_NOFILE, &rl); }
        for (int k = 0; k < s.fds; k++) { int fd = ::open("/dev/null", O_RDONLY); if (fd < 0) break; held.push_back(fd); }
        for (int k = 0; k < 24 && (int) held.size() < s.fds && !held.empty(); k++) { ::close(held.back()); held.pop_back(); }   // leave room at the limit
    }
    auto startSignals = [&]() { if (!s.sig) return; struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onSignal; a.sa_flags = s.restart ? SA_RESTART : 0; sigaction(SIGALRM, &a, 0); struct itimerval it; it.it_interval.tv_sec = 0; it.it_interval.tv_usec = s.sigAt > 0 ? 0 : s.sigUs; it.it_value = it.it_interval; if (s.sigAt > 0) { it.it_value.tv_sec = (time_t) s.sigAt; it.it_value.tv_usec = (long) ((s.sigAt - (time_t) s.sigAt) * 1e6) + 1; } setitimer(ITIMER_REAL, &it, 0); };
    auto stopSignals = [&]() { if (!s.sig) return; struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, 0); };
    if (s.kind == MISSING || s.kind == REGULAR) {
        std::string f = dir + "/file";
        if (s.kind == REGULAR) writeFile(f, b);
        else switch (s.bad) {
        case 0: f = dir + "/does/not/exist"; break;
        case 1: f = dir; break;
        case 2: f = dir + "/loop"; CHECK(symlink("loop", f.c_str()) == 0, "symlink"); break;
        case 3: f = dir + "/" + std::string(300, 'n'); break;
        case 4: f = ""; break;
        case 5: writeFile(f, ""); break;
        case 6: f = "/dev/null"; break;
        case 7: writeFile(f, b); f += "/x"; break;
        default: writeFile(f, b); chmod(f.c_str(), 0); chmod(dir.c_str(), 0755); if (setgid(65534) || setuid(65534) || ::open(f.c_str(), O_RDONLY) >= 0) f = dir + "/nothing"; break;
        }
        double load0 = mono(); nap(0.02); double slack = 3 + 20 * (mono() - load0 - 0.02);
        startSignals(); Result R = attempt(s, f, s.kind == REGULAR ? &w : nullptr); stopSignals();
        if (s.kind == REGULAR) CHECK(R.ok, "reading a regular file failed (%s)", describe(s).c_str()); else CHECK(!R.ok, "reading succeeded without a trace (%s, variant %d)", describe(s).c_str(), s.bad);
        CHECK(R.elapsed < slack, "SLOW a call that had nothing to wait for took %.2f s (%s, variant %d)", R.elapsed, describe(s).c_str(), s.bad);
        return "judged";
    }
    CHECK(mkfifo(fifo.c_str(), 0600) == 0, "HARNESS mkfifo");
    Shared *sh = (Shared *) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (s.kind == BOUNDARY_CUT) { std::vector<size_t> c = L.pointEnd; c.push_back(L.header); size_t cut = r.pick(c); b.resize(cut); size_t done = 0; for (size_t e : L.pointEnd) done += e <= cut; w = m.view(done); if (!done) w.pts.clear(); }
    pid_t writer = 0;
    double t0 = mono();
    if (s.kind != NO_WRITER) {
        writer = fork(); CHECK(writer >= 0, "HARNESS fork");
        if (writer == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGPIPE, SIG_IGN); for (int fd : held) ::close(fd);
            nap(s.openDelay); int fd = ::open(fifo.c_str(), O_WRONLY); if (fd < 0) _exit(1);
            sh->opened = mono();
            if (s.kind == NO_DATA) { nap(s.delay); _exit(0); }
            if (s.kind == IDLE_WRITER) { nap(s.timeout + 40); _exit(0); }
            nap(s.delay); size_t o = 0;
            while (o < b.size()) {
                size_t k = s.chunk < b.size() - o ? s.chunk : b.size() - o; if (o < s.pauseAt && o + k > s.pauseAt) k = s.pauseAt - o;
                if (o == s.pauseAt && s.pause > 0) nap(s.pause);
                ssize_t z = ::write(fd, b.data() + o, k); if (z < 0) _exit(2);
                if (!o) sh->first = mono();
                o += z; if (s.gap > 0) nap(s.gap);
            }
            sh->last = mono(); sh->done = 1; _exit(0);
        }
    }
    double load0 = mono(); nap(0.02); double over = mono() - load0 - 0.02;
    startSignals(); Result R = attempt(s, fifo, &w); stopSignals();
    double endTime = mono();
    if (writer) { kill(writer, SIGKILL); waitpid(writer, 0, 0); }
    (void) t0;
    if (s.kind == NO_WRITER || s.kind == IDLE_WRITER) {
        CHECK(!R.ok, "reading succeeded although nothing was written (%s)", describe(s).c_str());
        CHECK(R.elapsed >= s.timeout - 0.02, "gave up after %.3f s of a timeout of %u s (%s; %d signals)", R.elapsed, s.timeout, describe(s).c_str(), (int) signals_seen);
        double slack = 1.2 + 0.1 * s.timeout + 20 * over;
        CHECK(R.elapsed <= s.timeout + slack, "SLOW still waiting %.3f s after a timeout of %u s (%s; %d signals)", R.elapsed, s.timeout, describe(s).c_str(), (int) signals_seen);
        return s.sig && signals_seen ? "judged signals" : "judged";
    }
    if (s.kind == NO_DATA) { // it may give up at once or wait for another writer, but not beyond the timeout
        CHECK(!R.ok, "reading succeeded although nothing was written (%s)", describe(s).c_str());
        CHECK(R.elapsed <= s.timeout + 1.2 + 0.1 * s.timeout + 20 * over, "SLOW still waiting %.3f s after a timeout of %u s (%s; %d signals)", R.elapsed, s.timeout, describe(s).c_str(), (int) signals_seen);
        return "judged";
    }
    // Data came. In time?
    double first = sh->first;
    if (s.kind == BOUNDARY_CUT && b.empty()) return "undecided";
    if (R.ok) return s.sig && signals_seen ? "judged signals" : "judged";   // the content was compared; the writer may not have noted its first byte yet
    bool inTime = s.timeout == 0 || (first > 0 && first - R.start < s.timeout - 0.5);
    if (s.timeout && !(first > 0)) { // gave up before the first byte
        CHECK(R.elapsed >= s.timeout - 0.02, "gave up after %.3f s of a timeout of %u s (%s; %d signals)", R.elapsed, s.timeout, describe(s).c_str(), (int) signals_seen);
        return "undecided";
    }
    if (s.timeout == 0 && !(first > 0)) CHECK(R.ok, "stopped waiting after %.3f s although no timeout was given and no data had been written (%s; %d signals)", R.elapsed, describe(s).c_str(), (int) signals_seen);
    if (!inTime) return "undecided";
    if (s.restart || !s.sig) CHECK(R.ok, "the trace was lost: data came %.2f s after the start and the read failed after %.2f s (%s; %d signals)", first - R.start, endTime - R.start, describe(s).c_str(), (int) signals_seen);
    return s.sig && signals_seen ? "judged signals" : "judged";
}
static Scenario pickScenario(Rng & r) {
    Scenario s; memset(&s, 0, sizeof s); s.seed = r.next(); s.useAdd = r.below(2); s.kind = r.below(KINDS); if (s.kind == MISSING && r.chance(1, 3)) s.kind = SLOW; s.limit = r.chance(1, 6) ? r.range(1, 5) : 0;
    s.fds = r.chance(1, 3) ? (r.chance(1, 2) ? 1000 + r.below(120) : r.below(2500)) : 0; s.sig = r.chance(1, 2); s.restart = true; s.sigUs = r.chance(1, 2) ? 1000 + r.below(9000) : 20000 + r.below(400000);
    s.openDelay = r.below(100) * 0.005; s.delay = r.below(100) * 0.005; s.chunk = r.chance(1, 3) ? r.range(1, 64) : r.chance(1, 2) ? r.range(1, 5000) : 1 << 20; s.gap = 0; s.pauseAt = 1 + r.below(r.chance(1, 2) ? 12 : 500); s.bad = r.below(9);
    switch (s.kind) {
    case NO_WRITER: case IDLE_WRITER: s.timeout = r.range(1, 3); s.limit = 0; if (s.sig && r.chance(1, 2)) { s.timeout = r.range(3, 5); s.sigAt = s.timeout * (0.8 + 0.01 * r.below(16)); } break;
    case NO_DATA: s.timeout = r.range(1, 3); s.limit = 0; break;
    case SLOW: case BOUNDARY_CUT: { static const u32 big[] = {60, 3600, 2147483, 2147484, 4294967, 4294968, 0x7fffffffu, 0x80000000u, 0xffffffffu}; s.timeout = r.chance(1, 4) ? r.pick(std::vector<u32>(big, big + 9)) : r.range(2, 4); s.pause = r.chance(1, 2) ? (s.timeout < 10 ? s.timeout + 0.7 : 1) : 0; if (s.kind == BOUNDARY_CUT) s.limit = 0; break; }
    case FOREVER: s.timeout = 0; s.delay = r.chance(1, 2) ? r.range(1, 3) : s.delay; s.pause = r.chance(1, 4) ? 1 : 0; break;
    default: s.timeout = r.chance(1, 2) ? r.below(60) : r.next(); if (s.kind == REGULAR) s.limit = 0; break;
    }
    if (s.chunk < 64) s.gap = 0.0001 * r.below(3); else if (s.chunk < 6000) s.gap = 0.001 * r.below(20);
    if (s.sig && s.bad == 8) s.sig = false;
    return s;
}
static void c15(Rng & r, u64) {
    alarm(0);   // the timer belongs to the scenarios; the shard's own limit applies
    const int N = 32; std::vector<Scenario> sc; std::vector<int> pipes, tries(N, 0); std::vector<pid_t> pids; std::vector<std::string> msg(N);
    for (int k = 0; k < N; k++) sc.push_back(pickScenario(r));
    std::vector<int> todo; for (int k = 0; k < N; k++) todo.push_back(k);
    for (int round = 0; round < 4 && !todo.empty(); round++) {
        pids.assign(N, 0); pipes.assign(N, -1); std::vector<std::string> dirs(N);
        for (int k : todo) {
            int p[2]; CHECK(pipe2(p, O_CLOEXEC) == 0, "HARNESS pipe"); dirs[k] = C.path(fmt("d%d_%d", k, round).c_str()); mkdir(dirs[k].c_str(), 0700);
            pid_t c = fork(); CHECK(c >= 0, "HARNESS fork");
            if (c == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL); ::close(p[0]); setpgid(0, 0); std::string out;
                try { out = "+" + runScenario(sc[k], dirs[k]); } catch (const std::exception & e) { out = std::string("-") + e.what(); }
                out = out.substr(0, 1500); if (::write(p[1], out.data(), out.size()) < 0) _exit(4);
                _exit(0);
            }
            ::close(p[1]); pids[k] = c; pipes[k] = p[0];
        }
        std::vector<int> again; double deadline = mono() + 60;
        for (int k : todo) {
            int st = 0; bool gone = false;
            while (mono() < deadline) { pid_t w = waitpid(pids[k], &st, WNOHANG); if (w == pids[k]) { gone = true; break; } nap(0.01); }
            if (!gone) { kill(-pids[k], SIGKILL); waitpid(pids[k], &st, 0); msg[k] = "-SLOW the call did not return within 60 s (" + describe(sc[k]) + ")"; }
            else { char b[2000]; ssize_t z = ::read(pipes[k], b, sizeof b); msg[k] = z > 0 ? std::string(b, z) : fmt("-the process ended with status %d (%s)", st, describe(sc[k]).c_str()); kill(-pids[k], SIGKILL); }
            ::close(pipes[k]);
            int ig = system(("rm -rf '" + dirs[k] + "'").c_str()); (void) ig;
            // A delay may be the machine's; only one that happens every time counts.
            if (msg[k].compare(0, 5, "-SLOW") == 0 && round < (gone ? 3 : 1)) again.push_back(k);
        }
        todo = again; if (!again.empty()) S.add("retried_after_delay", again.size());
        for (int k = 0; k < N; k++) if (msg[k].compare(0, 5, "-SLOW") != 0 && msg[k][0] == '-') { if (msg[k].compare(0, 8, "-HARNESS") == 0) { fprintf(stderr, "HARNESS-ERROR %s\n", msg[k].c_str()); _exit(70); } throw Failure(msg[k].substr(1)); }
    }
    for (int k = 0; k < N; k++) {
        if (msg[k][0] == '-') throw Failure(msg[k].compare(0, 5, "-SLOW") == 0 ? msg[k].substr(6) : msg[k].substr(1));
        std::string key = std::string("scenarios ") + kindName[sc[k].kind]; S.add(key.c_str());
        if (msg[k] == "+undecided") { S.add("undecided"); continue; }
        if (msg[k] == "+judged signals") S.add("with_signals_while_waiting");
        if (sc[k].fds >= 1024) S.add("with_descriptor_above_1024");
        S.nontrivial(mix(sc[k].seed, sc[k].kind)); S.add("judged");
        if (k < 3) S.sample(describe(sc[k]));
    }
    S.evaluations += N - 1;
}
int main(int c, char **v) { return caseMain(c, v, {{"C15", c15}}); }
