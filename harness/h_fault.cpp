// C13: failing adds and reads change nothing. C14: nothing is leaked, whatever fails.
#include "common_main.hpp"
#include "refquery.hpp"
#include "interpose.hpp"
#include <dirent.h>
#include <sys/wait.h>

static int openFds() {
    int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d); return n;
}
struct MemPts {
    std::vector<std::string> names; std::vector<VPoint> pts; std::vector<std::vector<CVar>> cv; std::vector<CPoint> cp; std::vector<char *> cn;
    void gen(Rng & r, u64 n) {
        names = {"x", "y", "int", "a name too long for the short string optimisation of the library"};
        for (u64 i = 0; i < n; i++) { VPoint p; p.stmt = r.below(5); for (u64 k = r.below(4); k; k--) { VVar v; v.name = r.below(2); v.tname = 2 + r.below(2); v.value = Gen::interesting(r); p.vars.push_back(v); } for (u64 k = r.below(3); k; k--) p.aux.push_back(r.next()); pts.push_back(p); }
        cv.resize(n); cp.resize(n); for (auto & s : names) cn.push_back((char *) s.c_str());
        for (size_t i = 0; i < n; i++) {
            for (auto & v : pts[i].vars) { CVar c; memset(&c, 0, sizeof c); c.value.u = v.value; c.var_name_index = v.name; c.type_name_index = v.tname; c.size = 8; cv[i].push_back(c); }
            cp[i].statement = pts[i].stmt; cp[i].vars = cv[i].data(); cp[i].n_vars = cv[i].size(); cp[i].aux = pts[i].aux.data(); cp[i].n_aux = pts[i].aux.size();
        }
    }
    int add(void *db) { return add_trace_points(db, cp.data(), cp.size(), cn.data(), cn.size()); }
    void compare(const void *t) const {
        u64 n = trace_size(t); CHECK(n == pts.size(), "in-memory add: %llu points, expected %zu", (unsigned long long) n, pts.size()); CPoint *p = get_points(t);
        for (size_t i = 0; i < n; i++) {
            bool ok = p[i].statement == pts[i].stmt && p[i].n_vars == pts[i].vars.size() && p[i].n_aux == pts[i].aux.size();
            for (u32 k = 0; ok && k < p[i].n_vars; k++) ok = p[i].vars[k].value.u == pts[i].vars[k].value && p[i].vars[k].var_name_index == pts[i].vars[k].name && p[i].vars[k].type_name_index == pts[i].vars[k].tname;
            for (u32 k = 0; ok && k < p[i].n_aux; k++) ok = p[i].aux[k] == pts[i].aux[k];
            CHECK(ok, "in-memory add: point %zu differs", i);
        }
        free_trace_points(p, n);
    }
};
// One operation that can fail, repeatable.
struct Op {
    int kind = 0;  // 0 add_trace, 1 read_trace, 2 add_trace_points
    std::string file; u64 limit = 0; bool good = true; VTrace w; std::shared_ptr<MemPts> pts; u32 timeout = 0;
    // Returns 1 success, 0 failure; a successful read is compared and freed.
    int run(void *db) const {
        if (kind == 0) return add_trace(db, file.c_str(), timeout, limit) != 0;
        if (kind == 2) return pts->add(db) != 0;
        void *t = read_trace(file.c_str(), timeout, limit);
        bool was = RP.active; RP.active = false;
#ifdef VERIF_ALLOC_FAULTS
        bool wasA = AP.active; AP.active = false;
#endif
        if (t) { if (good) cmpTrace(t, w, "read under faults"); free_trace(t); }
        RP.active = was;
#ifdef VERIF_ALLOC_FAULTS
        AP.active = wasA;
#endif
        return t != nullptr;
    }
};
static GenOpts small() { GenOpts o; o.points_small = 5; o.points_large = 25; o.vars_small = 4; o.vars_large = 12; o.blob_large = 5000; o.names_large = 12; o.types_large = 12; o.unique_types = true; o.stmt_pool_small = true; return o; }
static Op makeOp(Rng & r, const std::string & file, bool bad = false) {
    Op o; o.kind = r.below(5); if (o.kind > 2) o.kind = 0;
    if (bad && o.kind == 2) o.kind = 0;
    if (o.kind == 2) { o.pts.reset(new MemPts); o.pts->gen(r, r.range(1, 8)); return o; }
    MTrace m = genTrace(r, small()); Layout L; std::string b = encode(m, &L); o.limit = r.chance(1, 5) ? r.range(1, 4) : 0; o.w = m.view(o.limit); o.file = file; static const u32 T[] = {0, 0, 1, 1, 2, 3, 10, 3600, 2147484, UINT32_MAX}; o.timeout = T[r.below(10)];
    if (bad) {
        o.good = false; o.limit = 0;
        switch (r.below(6)) {
        case 0: o.file = C.path("missing"); break;
        case 1: b.resize(r.below(L.header)); break;
        case 2: b = b.substr(0, L.header); b += std::string("\x01\x02\x03", 3); break;           // torn entry
        case 3: b = b.substr(0, r.chance(1, 2) || L.pointEnd.empty() ? L.header : r.pick(L.pointEnd)); b += (char) r.range(5, 255); b += "xxxxxxxx"; break;   // bad tag
        case 4: { b = b.substr(0, L.header); b += (char) T_VAR; put(b, (u32) 0); put(b, (u32) (m.types.size() + r.below(5))); b += std::string(16, 'x'); break; }  // bad type
        default: if (m.types.empty()) b.resize(3); else { u32 f = F_INVALID + r.below(1000); size_t off = 8; for (auto & n : m.names) off += n.size() + 1; memcpy(&b[off + 4 + 4], &f, 4); }
        }
    }
    if (o.file == file) writeFile(file, b);
    return o;
}

struct Shelf { // a database with known content and queries
    void *db; std::vector<MTrace> m; std::vector<VTrace> w; std::vector<std::shared_ptr<MemPts>> mp; std::vector<u64> dig; struct QA { size_t t; Query q; Expected e; }; std::vector<QA> qa;
    void build(Rng & r) {
        db = create_db(); u64 n = r.below(5);
        for (u64 k = 0; k < n; k++) { MTrace t = genTrace(r, small()); writeFile(C.path("shelf"), encode(t)); CHECK(add_trace(db, C.path("shelf").c_str(), 0, 0), "add_trace of a well-formed trace failed"); m.push_back(t); w.push_back(t.view()); }
        for (size_t i = 0; i < m.size(); i++) { QGen g(r, m[i], w[i]); for (int k = 0; k < 3; k++) { Query q = g.query(400); if (!q.free.empty()) q.hard = g.boolean(r.below(2), q.free.size(), r.below(2)); Expected e = refQuery(w[i], q); if (e.decided) qa.push_back({i, q, e}); } }
    }
    void checkAll(const char *where, u32 extra = 0) {
        CHECK(n_traces(db) == w.size() + extra, "%s: the database holds %u traces, expected %zu", where, n_traces(db), w.size() + extra);
        for (size_t i = 0; i < w.size(); i++) cmpTrace(get_trace(db, i), w[i], where);
    }
    void queries(Rng & r, const char *where) { for (auto & x : qa) cmpGroups(realQuery(db, x.t, x.q, r), x.e, x.q, where); S.add("queries_after_failures", qa.size()); }
};

struct Faults { int kind = 0; /* 0 none 1 read 2 syscall 3 alloc 4 alloc sticky */ long at = 0; int err = EIO; size_t chunk = 0; };
static void arm(const Faults & f) {
    RP = ReadPlan(); RP.max_chunk = f.chunk; if (f.kind == 1) { RP.fail_at = f.at; RP.fail_errno = f.err; } if (f.kind == 2) { RP.fail_syscall = f.at; RP.poll_times_out = f.err == ETIMEDOUT; } RP.active = true;
#ifdef VERIF_ALLOC_FAULTS
    AP = AllocPlan(); AP.fail_at = f.kind >= 3 ? f.at : -1; AP.sticky = f.kind == 4; AP.active = true;
#endif
}
static bool disarm() {
    RP.active = false; bool hit = RP.failed || RP.sys_failed;
#ifdef VERIF_ALLOC_FAULTS
    AP.active = false; hit |= AP.failed > 0;
#endif
    return hit;
}
static std::vector<long> points(Rng & r, long n, long cap) {
    std::vector<long> v; if (n <= cap) for (long k = 0; k < n; k++) v.push_back(k);
    else { for (long k = 0; k < cap / 4; k++) { v.push_back(k); v.push_back(n - 1 - k); } for (long k = 0; k < cap / 2; k++) v.push_back(r.below(n)); }
    return v;
}

static void c13(Rng & r, u64 i) {
    Shelf s; s.build(r); s.checkAll("before"); u64 h = 0;
    // 1. input that cannot be read
    for (int k = 0; k < 4; k++) { Op o = makeOp(r, C.path("bad"), true); int ok = o.run(s.db); if (o.kind == 0 && ok) CHECK(false, "add_trace accepted a malformed trace"); CHECK(!ok, "read_trace accepted a malformed trace"); s.checkAll("after a failed call"); S.add("failures_malformed"); }
    // 2. each fault of each kind in an operation that works without it
    Op o = makeOp(r, C.path("good"));
    Faults none; none.chunk = r.chance(1, 2) ? 0 : r.range(16, 600);
    void *scratchDb = create_db(); arm(none); int ok = o.run(scratchDb); disarm(); free_db(scratchDb); CHECK(ok, "an operation on well-formed data failed");
    long reads = RP.calls, sys = RP.syscalls, allocs = 0;
#ifdef VERIF_ALLOC_FAULTS
    allocs = AP.calls;
#endif
    auto attempt = [&](Faults f, const char *stat) {
        f.chunk = none.chunk; arm(f); int ok = o.run(s.db); bool hit = disarm();
        if (!hit) S.add("faults_not_reached");
        bool must = f.kind == 1 || (f.kind == 2 && f.err != ETIMEDOUT);   // whether one poll that times out ends the wait is judged by C15
        if (hit && must) CHECK(!ok, "a call succeeded although a %s failed (call %ld)", f.kind == 1 ? "read" : "system call", f.at);
        if (hit) { S.add(stat); h = mix(h, f.kind * 100000 + f.at); }
        bool stored = ok && o.kind != 1;
        s.checkAll(hit ? "after a fault" : "after a call", stored ? 1 : 0);
        if (stored) { // survived the fault: the trace has to be intact; start over with the original content
            const void *t = get_trace(s.db, s.w.size()); if (o.kind == 2) o.pts->compare(t); else cmpTrace(t, o.w, "added in spite of a fault");
            if (hit) S.add("faults_survived");
            free_db(s.db); s.db = create_db(); for (auto & m : s.m) { writeFile(C.path("shelf"), encode(m)); CHECK(add_trace(s.db, C.path("shelf").c_str(), 0, 0), "add failed"); }
        } else if (!ok) S.add("failures_under_fault");
        if (r.chance(1, 25)) s.queries(r, "query after a failed call");
    };
    long cap = C.thorough() ? 400 : 100;
    static const int errs[] = {EIO, EISDIR, EAGAIN, ENOMEM, EBADF};
    for (long k : points(r, reads, 30)) { Faults f; f.kind = 1; f.at = k; f.err = errs[r.below(5)]; attempt(f, "faults_read"); }
    for (long k = 0; k < sys; k++) { Faults f; f.kind = 2; f.at = k; attempt(f, "faults_open_or_poll"); f.err = ETIMEDOUT; attempt(f, "faults_open_or_timeout"); }
    for (long k : points(r, allocs, cap)) { Faults f; f.kind = 3; f.at = k; attempt(f, "faults_allocation"); }
    for (long k : points(r, allocs, cap / 3)) { Faults f; f.kind = 4; f.at = k; attempt(f, "faults_allocation_sticky"); }
    // 3. afterwards everything still works
    s.checkAll("at the end"); s.queries(r, "query after failed calls");
    MTrace t = genTrace(r, small()); writeFile(C.path("shelf"), encode(t)); CHECK(add_trace(s.db, C.path("shelf").c_str(), 0, 0), "the database no longer accepts traces"); s.m.push_back(t); s.w.push_back(t.view()); s.checkAll("after a later add");
    char *x = serialize_trace_db(s.db); void *d2 = deserialize_trace_db(x); free(x); CHECK(n_traces(d2) == s.w.size(), "restored database"); for (size_t k = 0; k < s.w.size(); k++) cmpTrace(get_trace(d2, k), s.w[k], "restored after failures"); free_db(d2);
    free_db(s.db);
    S.nontrivial(mix(h, i)); S.sample(fmt("operation kind %d: %ld reads, %ld other calls, %ld allocations, each failing in turn", o.kind, reads, sys, allocs));
}

// ------------------------------------------------------------------ steady state
struct Cycle {
    std::vector<Op> ops; std::vector<Faults> faults; std::vector<MTrace> m; std::vector<VTrace> w; std::vector<std::string> files; std::vector<std::vector<Query>> qs; u64 seed;
    void make(Rng & r) {
        seed = r.next();
        for (u64 k = r.range(1, 3); k; k--) { MTrace t = genTrace(r, small()); m.push_back(t); w.push_back(t.view()); files.push_back(C.path(fmt("c%zu", files.size()).c_str())); writeFile(files.back(), encode(t)); }
        for (size_t t = 0; t < m.size(); t++) { qs.emplace_back(); QGen g(r, m[t], w[t]); for (u64 k = r.below(4); k; k--) { Query q = g.query(300); if (!q.free.empty()) { if (r.chance(4, 5)) q.hard = g.boolean(r.below(3), q.free.size(), r.below(2)); for (u64 z = r.below(3); z; z--) q.soft.push_back(g.boolean(1, q.free.size(), r.below(2))); } if (r.chance(1, 3)) g.mask(q); q.keep = r.below(2); q.seed = r.chance(1, 4) ? r.range(1, 99) : 0; qs[t].push_back(q); } }
        for (u64 k = r.range(1, 5); k; k--) {
            Op o = makeOp(r, C.path(fmt("o%zu", ops.size()).c_str()), r.chance(1, 2)); Faults f;
            if (r.chance(1, 2)) { f.kind = r.range(1, 4); f.at = f.kind == 2 ? r.below(2) : f.kind == 1 ? r.below(4) : r.below(r.chance(1, 2) ? 40 : 800); f.chunk = r.chance(1, 2) ? 100 : 0; if (r.chance(1, 2)) f.err = ETIMEDOUT; }
            ops.push_back(o); faults.push_back(f);
        }
    }
    void run() const {
        Rng r(seed);
        void *db = create_db(); std::vector<void *> traces; std::vector<std::pair<CPoint *, u64>> held;
        for (auto & f : files) { if (!add_trace(db, f.c_str(), 0, 0)) throw Failure("add_trace of a well-formed trace failed"); if (r.chance(1, 2)) { void *t = read_trace(f.c_str(), 0, 0); if (!t) throw Failure("read_trace of a well-formed trace failed"); traces.push_back(t); } }
        for (size_t i = 0; i < ops.size(); i++) { arm(faults[i]); ops[i].run(db); disarm(); }
        for (size_t t = 0; t < files.size(); t++) {
            for (auto & q : qs[t]) realQuery(db, t, q, r);
            const void *p = get_trace(db, t); u64 n = trace_size(p); CPoint *c = get_points(p); held.push_back({c, n}); free(get_names(p)); free(get_types(p));
        }
        for (void *t : traces) { u64 n = trace_size(t); CPoint *c = get_points(t); if (r.chance(1, 2)) free_trace_points(c, n); else held.push_back({c, n}); }
        char *s = serialize_trace_db(db); void *d2 = nullptr; if (r.chance(1, 2)) { d2 = deserialize_trace_db(s); for (size_t t = 0; t < files.size(); t++) for (auto & q : qs[t]) realQuery(d2, t, q, r); }
        free(s);
        // release in varying order
        if (r.chance(1, 2)) { free_db(db); db = nullptr; }
        if (r.chance(1, 2)) for (auto & h : held) { free_trace_points(h.first, h.second); h.first = nullptr; h.second = 0; }
        for (void *t : traces) free_trace(t);
        if (d2) free_db(d2);
        if (db) free_db(db);
        for (auto & h : held) if (h.first) free_trace_points(h.first, h.second);
    }
};
static void c14(Rng & r, u64 i) {
    Cycle c; c.make(r); long b0 = 0, n0 = 0; int f0 = 0;
    auto measure = [&](long & b, long & n, int & f) {
        f = openFds();
#ifdef VERIF_MALLOC
        b = live_bytes(); n = live_blocks();
#else
        b = n = 0;
#endif
    };
    for (int k = 0; k < 3; k++) c.run();
    measure(b0, n0, f0);
    int cycles = 8;
    for (int k = 0; k < cycles; k++) c.run();
    long b1, n1; int f1; measure(b1, n1, f1);
    if (b1 > b0 || n1 > n0 || f1 > f0) { // growth: bounded or not?
        for (int k = 0; k < 24; k++) c.run();
        long b2, n2; int f2; measure(b2, n2, f2); for (int k = 0; k < 48; k++) c.run(); long b3, n3; int f3; measure(b3, n3, f3);
        CHECK(!(b1 > b0 && b2 > b1 && b3 > b2), "repeating the same operations keeps taking memory: %ld, %ld, %ld, %ld bytes held after 3, 11, 35, 83 rounds", b0, b1, b2, b3);
        CHECK(!(n1 > n0 && n2 > n1 && n3 > n2), "repeating the same operations keeps taking memory: %ld, %ld, %ld, %ld blocks held after 3, 11, 35, 83 rounds", n0, n1, n2, n3);
        CHECK(!(f1 > f0 && f2 > f1 && f3 > f2), "repeating the same operations keeps taking descriptors: %d, %d, %d, %d", f0, f1, f2, f3);
        S.add("bounded_growth_seen");
    }
    u64 failing = 0; for (size_t k = 0; k < c.ops.size(); k++) failing += !c.ops[k].good || c.faults[k].kind; u64 q = 0; for (auto & x : c.qs) q += x.size();
    S.add("cycles", 11); S.add("failing_operations_per_cycle_total", failing); S.add("queries_per_cycle_total", q); S.maxi("max_live_bytes_between_cycles", b1); S.maxi("max_fds_between_cycles", f1);
    u64 h = 0; for (auto & f : c.files) h = mix(h, hashBytes(readFile(f))); S.nontrivial(h);
    S.sample(fmt("%zu traces, %zu operations (%llu failing), %llu queries; %ld bytes in %ld blocks and %d descriptors held after 3 and %ld, %ld, %d after 11 rounds", c.files.size(), c.ops.size(), (unsigned long long) failing, (unsigned long long) q, b0, n0, f0, b1, n1, f1));
}

// ------------------------------------------------------------------ C08: queries cut short by lack of memory
static void c08f(Rng & r, u64 i) {
#ifdef VERIF_ALLOC_FAULTS
    Shelf s; s.build(r); while (s.m.empty()) { free_db(s.db); s = Shelf(); s.build(r); }
    u64 h = 0;
    for (int k = 0; k < 60; k++) {
        size_t t = r.below(s.m.size()); QGen g(r, s.m[t], s.w[t]); Query q = g.query(300); u64 nv = q.free.size();
        if (nv && r.chance(4, 5)) q.hard = g.boolean(r.below(3), nv, r.below(2));
        if (nv && r.chance(1, 3)) q.soft.push_back(g.boolean(1, nv, 1));
        if (r.chance(2, 3)) g.mask(q);
        Expected e = refQuery(s.w[t], q); if (!e.decided) { S.add("undecided"); continue; }
        long at = r.chance(1, 3) ? r.below(20) : r.chance(1, 2) ? r.below(200) : r.below(2000); bool thrown = false;
        try { cmpGroups(realQuery(s.db, t, q, r, [&](bool on) { if (on) { Faults f; f.kind = r.chance(1, 4) ? 4 : 3; f.at = at; arm(f); } else disarm(); }), e, q, "query"); }
        catch (std::bad_alloc &) { thrown = true; }
        if (AP.failed) { S.add("queries_short_of_memory"); h = mix(h, at * 1000 + AP.calls); }
        if (AP.failed && !thrown) S.add("queries_surviving");
        cmpGroups(realQuery(s.db, t, q, r), e, q, "query repeated after one that ran out of memory"); S.add("queries_repeated_after_failure");
        if (r.chance(1, 5)) { Query q2 = q; q2.hard = P(); q2.soft.clear(); Expected e2 = refQuery(s.w[t], q2); if (e2.decided) cmpGroups(realQuery(s.db, t, q2, r), e2, q2, "query after one that ran out of memory"); }
    }
    s.checkAll("after queries"); s.queries(r, "query after others that ran out of memory"); free_db(s.db);
    S.nontrivial(h); S.sample("queries with a failing allocation, asked again");
#endif
}
int main(int c, char **v) { return caseMain(c, v, {{"C13", c13}, {"C14", c14}, {"C08F", c08f}}); }
