// C01 C05 C11 C16 C21: reading traces through the C interface against the model.
#include "common_main.hpp"
#include "model.hpp"
#include "interpose.hpp"
#include <atomic>
#include <thread>
#include <fcntl.h>
#include <sys/stat.h>

static MTrace anyTrace(Rng & r, u64 i) {
    if (i % 2000 == 1207) { S.add("huge_traces"); return genHuge(r, i / 2000); }
    if (i % 40 == 7) return genBig(r, r.below(7), C.thorough());
    GenOpts o; o.blob_large = 70000;
    if (r.chance(1, 10)) { o.points_small = 60; o.points_large = 1500; }
    if (r.chance(1, 10)) { o.vars_small = 40; o.vars_large = 400; o.points_small = 5; o.points_large = 20; }
    MTrace m = genTrace(r, o); if (r.chance(1, 15)) { spread(r, m); S.add("traces_with_spread_indices"); } return m;
}

// Earlier activity which must not matter: reads and adds that fail at some point, or stop at a limit.
static void disturb(Rng & r, const std::string & b, void *db = nullptr) {
    std::string f = C.path("d"); u64 limit = 0;
    switch (r.below(5)) {
    case 0: writeFile(f, b.substr(0, r.below(b.size() + 1))); break;
    case 1: writeFile(f, b + (char) (5 + r.below(250))); break;                      // complete, then an undefined tag
    case 2: writeFile(f, b + std::string("\3abcdefgh", 9)); break;                     // complete, then a torn entry
    case 3: { std::string x = b; for (int k = 0; k < 3 && !x.empty(); k++) x[x.size() - 1 - r.below(std::min<u64>(x.size(), 200))] ^= 1 << r.below(8); writeFile(f, x); break; }
    default: writeFile(f, b); limit = r.range(1, 4);
    }
    if (db) { add_trace(db, f.c_str(), 0, limit); } else { void *t = read_trace(f.c_str(), 0, limit); if (t) free_trace(t); }
    S.add("failing_or_limited_reads_before");
}

static void c01(Rng & r, u64 i) {
    MTrace m = anyTrace(r, i);
    std::string b = encode(m); VTrace w = m.view();
    std::string f = C.path("t");
    writeFile(f, b);
    if (b.size() < 200000 && r.chance(1, 4)) disturb(r, r.chance(1, 2) ? b : encode(genTrace(r)));
    void *t = read_trace(f.c_str(), r.below(3), 0);
    CHECK(t, "a well-formed %s could not be read", describe(m, b.size()).c_str());
    cmpTrace(t, w, "read_trace");
    void *db = nullptr;
    if (r.chance(1, 2)) {   // the same through a database, next to another trace
        db = create_db();
        MTrace m2 = genTrace(r); std::string b2 = encode(m2); VTrace w2 = m2.view(); std::string f2 = C.path("t2"); writeFile(f2, b2);
        bool first = r.chance(1, 2);
        if (first) CHECK(add_trace(db, f2.c_str(), 0, 0), "add_trace of a well-formed trace failed");
        if (b.size() < 200000 && r.chance(1, 4)) disturb(r, r.chance(1, 2) ? b : b2);
        CHECK(add_trace(db, f.c_str(), r.below(3), 0), "add_trace of a well-formed trace failed");
        if (!first) CHECK(add_trace(db, f2.c_str(), 0, 0), "add_trace of a well-formed trace failed");
        CHECK(n_traces(db) == 2, "n_traces %u, expected 2", n_traces(db));
        cmpTrace(get_trace(db, first ? 1 : 0), w, "add_trace");
        cmpTrace(get_trace(db, first ? 0 : 1), w2, "add_trace (second trace)");
        S.add("through_database");
    }
    if (r.chance(1, 4)) { // while the first is alive, read again: content must not depend on sharing
        void *t2 = read_trace(f.c_str(), 0, 0); CHECK(t2, "second read failed");
        free_trace(t); t = t2; cmpTrace(t, w, "second read");
        S.add("second_reads");
    }
    free_trace(t);
    if (db) free_db(db);
    countTrace(m); S.maxi("max_bytes", b.size());
    if (m.pts.size() > 1) S.nontrivial(hashBytes(b));
    S.sample(describe(m, b.size()));
}

// Every cut position, read faults and short reads.
static void c05(Rng & r, u64 i) {
    GenOpts o; o.points_small = 5; o.points_large = 12; o.blob_large = 300; o.vars_large = 10; o.names_large = 12; o.types_large = 10;
    bool big = i % 16 == 3;
    MTrace m = big ? genBig(r, r.chance(1, 2) ? 0 : 5, false) : genTrace(r, o);
    Layout L; std::string b = encode(m, &L); VTrace w = m.view();
    std::string f = C.path("t");
    auto expect = [&](size_t cut, int & pts) -> bool {
        if (cut < L.header) return false;
        pts = std::upper_bound(L.pointEnd.begin(), L.pointEnd.end(), cut) - L.pointEnd.begin();
        if (cut == L.header) return true;
        if (std::binary_search(L.pointEnd.begin(), L.pointEnd.end(), cut)) return true;
        return std::binary_search(L.entryEnd.begin(), L.entryEnd.end(), cut);
    };
    auto checkCut = [&](size_t cut, void *t, const char *how) {
        int pts = 0; bool ok = expect(cut, pts);
        if (!ok) CHECK(!t, "%s: a trace cut at byte %zu of %zu (header %zu), inside %s, was accepted", how, cut, b.size(), L.header,
                       cut < L.header ? "the header" : "an entry");
        else {
            CHECK(t, "%s: a trace cut at byte %zu of %zu, between entries, was rejected", how, cut, b.size());
            VTrace v = w; v.pts.resize(pts); cmpTrace(t, v, "cut trace");
        }
        if (t) free_trace(t);
        S.add(!ok ? (cut < L.header ? "cuts_in_header" : "cuts_in_entry") : "cuts_between_entries");
    };
    // cuts
    std::vector<size_t> cuts;
    if (b.size() <= 1500 && !big) for (size_t c = 0; c <= b.size(); c++) cuts.push_back(c);
    else {
        const bool vast = b.size() > 400000; for (int k = 0; k < (vast ? 8 : 40); k++) cuts.push_back(r.below(b.size() + 1));
        for (size_t c : {L.header, b.size()}) for (int d = -2; d <= 2; d++) if ((i64) c + d >= 0 && c + d <= b.size()) cuts.push_back(c + d);
        for (int k = 0; k < (vast ? 3 : 10); k++) { if (!L.entryEnd.empty()) cuts.push_back(r.pick(L.entryEnd)); if (!L.pointEnd.empty()) cuts.push_back(r.pick(L.pointEnd)); }
        for (size_t k = 4096; k < b.size() && k < (vast ? 3 : 9) * 4096; k += 4096) cuts.push_back(k);
    }
    std::sort(cuts.begin(), cuts.end(), std::greater<size_t>());
    writeFile(f, b);
    void *db = create_db(); u32 added = 0;
    for (size_t c : cuts) {
        if (truncate(f.c_str(), c)) abort();
        checkCut(c, read_trace(f.c_str(), 0, 0), "read_trace");
        if (r.chance(1, 50)) {
            int pts = 0; bool ok = expect(c, pts);
            int a = add_trace(db, f.c_str(), 0, 0);
            CHECK(!!a == ok, "add_trace of a trace cut at %zu returned %d", c, a);
            if (a) { added++; CHECK(n_traces(db) == added, "n_traces"); VTrace v = w; v.pts.resize(pts); cmpTrace(get_trace(db, added - 1), v, "cut trace added"); }
        }
    }
    free_db(db);
    // short reads
    writeFile(f, b);
    for (int k = 0; k < 4; k++) {
        RP = ReadPlan(); RP.max_chunk = k == 0 ? 1 : k == 1 ? 3 : k == 2 ? 1 + r.below(200) : 4096; if (k >= 2) RP.chunk_seed = r.next() | 1;
        if (k == 0 && b.size() > 20000) continue;
        RP.active = true; void *t = read_trace(f.c_str(), 0, 0); RP.active = false;
        CHECK(t, "a well-formed trace delivered in short reads was rejected");
        cmpTrace(t, w, "short reads"); free_trace(t);
        S.add("short_read_runs"); S.add("short_reads", RP.calls);
    }
    // a cut trace delivered in pieces
    for (int k = 0; k < 3; k++) {
        size_t c = r.pick(cuts); writeFile(f, b.substr(0, c));
        RP = ReadPlan(); RP.max_chunk = 1 + r.below(40); RP.chunk_seed = r.next() | 1;
        RP.active = true; void *t = read_trace(f.c_str(), 0, 0); RP.active = false;
        checkCut(c, t, "short reads");
    }
    // each read call failing, with the data arriving in pieces that end anywhere
    writeFile(f, b);
    for (int round = 0; round < 3; round++) {
        ReadPlan base; base.max_chunk = round == 0 ? 0 : round == 1 ? std::max<size_t>(1, b.size() / 12) : 1 + r.below(64);
        if (round == 2) base.chunk_seed = r.next() | 1;
        RP = base; RP.active = true; void *t = read_trace(f.c_str(), 0, 0); RP.active = false;
        CHECK(t, "well-formed trace rejected"); free_trace(t);
        int calls = RP.calls; std::vector<int> at;
        const int most = b.size() > 400000 ? 6 : 60;   // very large traces: fewer of them
        if (calls <= most) for (int k = 0; k < calls; k++) at.push_back(k);
        else for (int k = 0; k < most; k++) at.push_back(r.below(calls));
        for (int k : at) {
            static const int errs[] = {EIO, EISDIR, ESTALE, EBADF};
            RP = base; RP.fail_at = k; RP.fail_errno = errs[r.below(4)]; RP.active = true;
            t = read_trace(f.c_str(), 0, 0); RP.active = false;
            if (RP.failed) { CHECK(!t, "read call %d of %d failed with %s but the read reported success (%llu of %zu points)", k, calls,
                       strerror(RP.fail_errno), (unsigned long long) trace_size(t), w.pts.size()); S.add("read_faults"); }
            if (t) free_trace(t);
        }
    }
    // ... and exactly at entry and point boundaries
    for (int k = 0; k < (b.size() > 400000 ? 3 : 12); k++) {
        std::vector<size_t> & v = r.chance(1, 2) ? L.pointEnd : L.entryEnd;
        size_t at = v.empty() || r.chance(1, 8) ? L.header : r.pick(v);
        if (!at) continue;
        RP = ReadPlan(); RP.max_chunk = 0;
        // deliver exactly `at` bytes, then fail: serve from a file cut there, failing the call that would see its end
        writeFile(f, b.substr(0, at));
        RP.active = true; void *t = read_trace(f.c_str(), 0, 0); RP.active = false; int calls = RP.calls; if (t) free_trace(t);
        if (calls < 1) continue;
        RP = ReadPlan(); RP.fail_at = calls - 1; RP.active = true; t = read_trace(f.c_str(), 0, 0); RP.active = false;
        if (RP.failed) { CHECK(!t, "an I/O error at byte %zu, %s, was taken for the end of the trace", at, at == L.header ? "after the header" : "at an entry boundary"); S.add("faults_at_boundaries"); }
        if (t) free_trace(t);
    }
    countTrace(m);
    if (m.pts.size() > 1) S.nontrivial(hashBytes(b));
    S.sample(describe(m, b.size()) + fmt(", %zu cuts", cuts.size()));
}

// Allocation histories.
static void c11(Rng & r, u64 i) {
    Gen g(r, GenOpts()); MTrace & m = g.t;
    m.names = {"p", "q", "void*", "char*"}; m.types = {{2, F_POINTER, 8}, {3, F_POINTER, 8}, {2, F_POINTER, 4}, {2, F_UNSIGNED, 8}};
    unsigned mode = r.below(9);
    u64 n = r.chance(1, 8) ? r.range(500, C.thorough() ? 8000 : 2500) : r.range(3, 200);
    u64 space = 1ULL << r.range(1, 10); u64 gran = 1ULL << r.below(7); u64 base = mode == 6 ? UINT64_MAX - space * gran : mode == 7 ? (1ULL << 32) - 64 : mode == 8 ? 0 : 0x7f0000000000ULL;
    u64 seq = 0; std::vector<u64> live;
    unsigned freePct = r.below(60);
    auto newAddr = [&]() -> u64 {
        switch (mode) {
        case 0: return base + gran * (seq++);
        case 1: return base + gran * (100000 - seq++);
        case 2: return base + gran * (seq++ % space);
        case 3: return r.next() & ~0xfULL;
        default: return base + gran * r.below(space);
        }
    };
    u64 entries = 0;
    while (entries < n) {
        MPoint p; Entry s; s.tag = T_STMT; s.a = entries; p.e.push_back(s);
        u64 k = r.below(8);
        for (u64 j = 0; j < k; j++, entries++) {
            Entry e; u64 q = r.below(100);
            if (q < 50) {
                e.tag = T_SIZE;
                if (!live.empty() && r.below(100) < freePct) { size_t x = r.below(live.size()); e.a = live[x]; e.b = 0; if (r.chance(9, 10)) { live[x] = live.back(); live.pop_back(); } }
                else {
                    e.a = !live.empty() && r.chance(1, 6) ? r.pick(live) : newAddr();
                    switch (r.below(8)) { case 0: e.b = 0; break; case 1: e.b = Gen::interesting(r); break; case 2: e.b = gran; break; default: e.b = r.range(1, gran * 2 + 1); }
                    if (e.b == UINT64_MAX) e.b--;
                    if (r.chance(1, 60)) e.a = UINT64_MAX;
                    if (e.b) live.push_back(e.a);
                }
            } else {
                e.tag = T_VAR; e.v.name = r.below(2); e.v.type = r.below(20) == 0 ? 2 + r.below(2) : r.below(2);
                u64 a = !live.empty() && r.chance(4, 5) ? r.pick(live) : newAddr();
                switch (r.below(7)) { case 0: a += gran; break; case 1: a -= 1; break; case 2: a += r.below(2 * gran + 2); break; case 3: a = Gen::interesting(r); break; default:; }
                e.v.raw = a; if (e.v.type == 2) e.v.raw = (u32) a;
            }
            p.e.push_back(e);
        }
        m.pts.push_back(p);
        if (!k) entries++;
    }
    std::string b = encode(m); VTrace w = m.view(); std::string f = C.path("t"); writeFile(f, b);
    void *t = read_trace(f.c_str(), 0, 0); CHECK(t, "well-formed trace rejected");
    cmpTrace(t, w, "allocation history"); 
    // a trace of pointers only, read afterwards, must not see these allocations, nor those of a trace that failed
    if (r.chance(1, 3)) disturb(r, b);
    MTrace m2 = m; for (auto & p : m2.pts) p.e.erase(std::remove_if(p.e.begin(), p.e.end(), [](const Entry & e) { return e.tag == T_SIZE; }), p.e.end());
    std::string f2 = C.path("t2"); writeFile(f2, encode(m2));
    void *t2 = read_trace(f2.c_str(), 0, 0); CHECK(t2, "well-formed trace rejected"); cmpTrace(t2, m2.view(), "trace without allocations");
    if (r.chance(1, 3)) {
        void *db = create_db();
        if (r.chance(1, 2)) { void *x = create_db(); disturb(r, b, x); free_db(x); }
        CHECK(add_trace(db, f.c_str(), 0, 0) && add_trace(db, f2.c_str(), 0, 0) && add_trace(db, f.c_str(), 0, 0), "add_trace failed");
        cmpTrace(get_trace(db, 1), m2.view(), "trace without allocations, added"); cmpTrace(get_trace(db, 2), w, "allocation history, added");
        cmpTrace(get_trace(db, 0), w, "allocation history, added"); free_db(db);
    }
    free_trace(t); free_trace(t2);
    u64 with = 0, without = 0, zero = 0; for (auto & p : w.pts) for (auto & v : p.vars) if (v.fmt == F_POINTER) { (v.has ? with : without)++; if (v.has && !v.bsize) zero++; }
    S.add("pointers_with_buffer", with); S.add("pointers_without_buffer", without); S.add("pointers_one_past_end", zero);
    for (auto & p : w.pts) S.add("allocation_records", p.sizes.size());
    if (with && without) S.nontrivial(hashBytes(b));
    S.sample(fmt("mode %u granularity %llu: %zu points, %llu pointers with and %llu without a buffer", mode, (unsigned long long) gran, m.pts.size(), (unsigned long long) with, (unsigned long long) without));
}

static void c16(Rng & r, u64 i) {
    GenOpts o; o.points_small = 10; o.points_large = 80;
    MTrace m = i % 60 == 5 ? genBig(r, 0, false) : genTrace(r, o);
    Layout L; std::string b = encode(m, &L); std::string f = C.path("t");
    u64 total = m.pts.size();
    std::vector<u64> lim = {1, total - 1, total, total + 1, UINT64_MAX, 1ULL << 32, (1ULL << 32) + 1, (1ULL << 31), r.range(1, total + 2), r.range(1, total + 2), r.range(1, total + 2), 0};
    for (u64 n : lim) {
        if (n == UINT64_MAX && total == 0) continue; // total-1
        std::string c = b;
        unsigned tail = r.below(5);
        if (n && n <= total) {
            size_t end = L.pointEnd[n - 1];
            if (tail == 0) c = b.substr(0, end);
            else if (tail == 1) { c = b.substr(0, end); for (u64 k = r.range(1, 300); k; k--) c.push_back((char) r.next()); }
            else if (tail == 2) c = b.substr(0, end + r.below(b.size() - end + 1));
            else if (tail == 3) { c = b.substr(0, end); c.push_back((char) r.range(5, 255)); }
        } else tail = 9;
        writeFile(f, c);
        VTrace w = m.view(n);
        void *t = read_trace(f.c_str(), 0, n);
        CHECK(t, "reading %llu of %llu points failed (tail kind %u)", (unsigned long long) n, (unsigned long long) total, tail);
        cmpTrace(t, w, "limited read"); free_trace(t);
        if (tail == 0 && c.size() < 4000) { // nothing is read once the last wanted point is complete
            RP = ReadPlan(); RP.fail_at = 1; RP.active = true; t = read_trace(f.c_str(), 0, n); RP.active = false;
            CHECK(t, "an input error after the last of %llu wanted points made the read fail", (unsigned long long) n); cmpTrace(t, w, "limited read before an input error"); free_trace(t); S.add("errors_after_limit");
        }
        if (tail == 0 && i % 20 == 3 && c.size() < 60000) { // a writer which goes on holding the pipe open
            std::string p = C.path("p"); unlink(p.c_str()); if (mkfifo(p.c_str(), 0600)) { perror("mkfifo"); exit(70); }
            std::atomic<int> done{0}; bool waited = false;
            std::thread wr([&] { int fd = open(p.c_str(), O_WRONLY); if (fd < 0) return; size_t k = 0; while (k < c.size()) { ssize_t z = write(fd, c.data() + k, c.size() - k); if (z <= 0) break; k += z; }
                for (int k = 0; k < 10000 && !done; k++) usleep(1000); waited = !done; close(fd); });
            t = read_trace(p.c_str(), 0, n); done = 1; wr.join(); unlink(p.c_str());
            CHECK(t, "limited read from a pipe failed"); cmpTrace(t, w, "limited read from a pipe"); free_trace(t);
            CHECK(!waited, "with all %llu wanted points in the pipe the read waited for more", (unsigned long long) n); S.add("pipes_held_open");
        }
        if (r.chance(1, 3)) {
            void *db = create_db(); CHECK(add_trace(db, f.c_str(), 0, n), "add_trace with limit failed");
            cmpTrace(get_trace(db, 0), w, "limited add"); free_db(db); S.add("limited_adds");
        }
        S.add(n == 0 ? "unlimited" : n < total ? "limit_below_total" : n == total ? "limit_at_total" : "limit_above_total");
        if (tail == 1 || tail == 3) S.add("garbage_after_limit");
        if (n && n < total) S.nontrivial(mix(hashBytes(c), n));
    }
    S.sample(describe(m, b.size()));
}

// In-memory points
struct MemAdd {
    std::vector<std::string> names; std::vector<VPoint> pts;
    std::vector<std::vector<CVar>> cv; std::vector<CPoint> cp; std::vector<char *> cn;
    void gen(Rng & r) {
        u64 n = r.range(1, r.chance(1, 20) ? 400 : 8); if (r.chance(1, 400)) n = r.range(65530, 70000);
        GenOpts o; Gen g(r, o); for (u64 i = 0; i < n; i++) names.push_back(g.name());
        u64 np = r.heavy(6, 60);
        std::vector<u64> pool; for (int i = 0; i < 6; i++) pool.push_back(Gen::interesting(r));
        for (u64 i = 0; i < np; i++) {
            VPoint p; p.stmt = r.chance(1, 2) ? r.below(6) : r.next();
            u64 nv = r.heavy(4, 50), na = r.chance(1, 2) ? 0 : r.heavy(4, 40);
            for (u64 k = 0; k < nv; k++) { VVar v; v.name = r.below(n); v.tname = r.below(n); if (n > 65536 && r.chance(1, 2)) { v.name = r.chance(1, 2) ? v.name & 0xff : 65536 + r.below(n - 65536); v.tname = r.chance(1, 2) ? r.below(4) : 65536 + r.below(4) % (n - 65536); } v.value = r.chance(1, 2) ? r.pick(pool) : Gen::interesting(r);
                v.has = r.chance(1, 3); v.bsize = v.has ? Gen::interesting(r) : 0; v.size = 8; p.vars.push_back(v); }
            for (u64 k = 0; k < na; k++) p.aux.push_back(Gen::interesting(r));
            if (i && r.chance(1, 4)) p = pts[r.below(i)];
            pts.push_back(p);
        }
    }
    int add(void *db, Rng & r) {
        cv.resize(pts.size()); cp.resize(pts.size()); cn.clear();
        for (auto & s : names) cn.push_back((char *) s.c_str());
        for (size_t i = 0; i < pts.size(); i++) {
            for (auto & v : pts[i].vars) { CVar c; memset(&c, 0, sizeof c); c.value.u = v.value; c.format = (i64) v.value < 0 ? F_SIGNED : F_UNSIGNED; c.var_name_index = v.name;
                c.type_name_index = v.tname; c.size = 8; c.buffer_size = v.bsize; c.has_buffer_size = v.has; cv[i].push_back(c); }
            cp[i].statement = pts[i].stmt; cp[i].vars = cv[i].data(); cp[i].n_vars = cv[i].size(); cp[i].aux = pts[i].aux.data(); cp[i].n_aux = pts[i].aux.size();
        }
        return add_trace_points(db, cp.data(), cp.size(), cn.data(), cn.size());
    }
    void compare(const void *t) {
        CHECK(n_names(t) == names.size(), "in-memory add: %u names, expected %zu", n_names(t), names.size());
        const char **nm = get_names(t); for (size_t i = 0; i < names.size(); i++) CHECK(names[i] == nm[i], "in-memory add: name %zu differs", i); free(nm);
        std::multiset<std::string> want, got; std::set<u32> seen;
        for (auto & p : pts) for (auto & v : p.vars) if (seen.insert(v.tname).second) want.insert(names[v.tname]);
        const char **ty = get_types(t); for (u32 i = 0; i < n_types(t); i++) got.insert(ty[i]); free(ty);
        CHECK(want == got, "in-memory add: type names differ (%zu, expected %zu)", got.size(), want.size());
        u64 n = trace_size(t); CHECK(n == pts.size(), "in-memory add: %llu points, expected %zu", (unsigned long long) n, pts.size());
        CPoint *c = get_points(t);
        for (size_t i = 0; i < n; i++) {
            CHECK(c[i].statement == pts[i].stmt, "in-memory add: statement of point %zu differs", i);
            CHECK(c[i].n_vars == pts[i].vars.size(), "in-memory add: point %zu has %u variables, expected %zu", i, c[i].n_vars, pts[i].vars.size());
            CHECK(c[i].n_aux == pts[i].aux.size(), "in-memory add: point %zu has %u aux values, expected %zu", i, c[i].n_aux, pts[i].aux.size());
            for (size_t k = 0; k < pts[i].aux.size(); k++) CHECK(c[i].aux[k] == pts[i].aux[k], "in-memory add: aux %zu of point %zu differs", k, i);
            for (size_t k = 0; k < pts[i].vars.size(); k++) {
                const VVar & w = pts[i].vars[k]; const CVar & g = c[i].vars[k];
                CHECK(g.value.u == w.value && g.var_name_index == w.name && g.type_name_index == w.tname && !!g.has_buffer_size == w.has && (!w.has || g.buffer_size == w.bsize),
                      "in-memory add: variable %zu of point %zu differs", k, i);
                CHECK(g.format == F_SIGNED || g.format == F_UNSIGNED, "in-memory add: format %u", g.format);
                CHECK((i64) w.value >= 0 || g.format == F_SIGNED, "in-memory add: negative value %lld of point %zu stored as unsigned", (long long) w.value, i);
            }
        }
        free_trace_points(c, n);
    }
};

static void c21(Rng & r, u64 i) {
    void *db = create_db();
    struct Add { bool mem; VTrace w; std::shared_ptr<MemAdd> m; };
    std::vector<Add> adds; u64 h = 0;
    if (i % 2000 == 511) { // more traces than 16 bits can number
        MemAdd m; do { m = MemAdd(); m.gen(r); } while (m.pts.size() > 4 || m.names.size() > 8); m.add(db, r); u64 n = 66000 + r.below(3000); MTrace e; e.names = {"q"}; writeFile(C.path("t"), encode(e)); VTrace w = e.view();
        std::map<u64, int> files; for (u64 k = 1; k < n; k++) { if (r.chance(1, 50)) { CHECK(add_trace(db, C.path("t").c_str(), 0, 0), "add_trace failed"); files[k] = 1; } else CHECK(add_trace_points(db, m.cp.data(), m.cp.size(), m.cn.data(), m.cn.size()), "add_trace_points failed"); CHECK(n_traces(db) == k + 1, "%u traces after %llu adds", n_traces(db), (unsigned long long) k + 1); }
        for (u64 k = 0; k < n; k++) { const void *t = get_trace(db, k); if (files.count(k)) cmpTrace(t, w, "trace of a very large database"); else if (k % 64 == 0 || k > n - 50 || (k > 65500 && k < 65600)) m.compare(t); else CHECK(trace_size(t) == m.pts.size(), "trace %llu of a very large database", (unsigned long long) k); }
        free_db(db); S.maxi("max_traces", n); S.add("databases_beyond_16_bits"); S.nontrivial(mix(n, files.size())); return;
    }
    bool many = i % 30 == 11;
    u64 n = many ? (C.thorough() ? 3000 : 600) : r.range(1, 24);
    CHECK(n_traces(db) == 0, "a fresh database holds %u traces", n_traces(db));
    for (u64 k = 0; k < n; k++) {
        Add a; a.mem = r.chance(1, 3);
        if (a.mem) { a.m.reset(new MemAdd); a.m->gen(r); CHECK(a.m->add(db, r), "add_trace_points failed"); S.add("memory_adds"); for (auto & p : a.m->pts) h = mix(h, p.stmt + p.vars.size()); }
        else {
            GenOpts o; o.points_small = 4; o.points_large = many ? 8 : 60; o.blob_large = 200; MTrace m = genTrace(r, o);
            u64 lim = r.chance(1, 5) ? r.range(1, 5) : 0; std::string b = encode(m); writeFile(C.path("t"), b);
            a.w = m.view(lim); CHECK(add_trace(db, C.path("t").c_str(), 0, lim), "add_trace failed"); S.add("file_adds"); h = mix(h, hashBytes(b));
        }
        adds.push_back(a);
        CHECK(n_traces(db) == adds.size(), "%u traces after %zu adds", n_traces(db), adds.size());
        size_t chk = many ? 3 : adds.size();
        for (size_t q = 0; q < chk; q++) {
            size_t x = many ? (q == 0 ? adds.size() - 1 : r.below(adds.size())) : q;
            const void *t = get_trace(db, x);
            if (adds[x].mem) adds[x].m->compare(t); else cmpTrace(t, adds[x].w, "trace of the database");
            S.add("trace_checks");
        }
    }
    if (many) for (size_t x = 0; x < adds.size(); x++) { const void *t = get_trace(db, x); if (adds[x].mem) adds[x].m->compare(t); else cmpTrace(t, adds[x].w, "trace of the database"); }
    free_db(db);
    S.maxi("max_traces", adds.size());
    if (n > 1) S.nontrivial(h);
    S.sample(fmt("%zu adds", adds.size()));
}

int main(int c, char **v) {
    return caseMain(c, v, {{"C01", c01}, {"C05", c05}, {"C11", c11}, {"C16", c16}, {"C21", c21}});
}
