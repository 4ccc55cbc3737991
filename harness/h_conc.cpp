// C12: threads adding to one database, reading traces, and working on databases of their own.
#include "common_main.hpp"
#include "refquery.hpp"
#include "interpose.hpp"
#include <atomic>
#include <chrono>
#include <exception>
#include <thread>
#include <pthread.h>
#include <sched.h>

static u64 ns() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void pause(Rng & r) {
    switch (r.below(6)) { case 0: sched_yield(); break; case 1: { struct timespec t = {0, (long) r.below(60000)}; nanosleep(&t, 0); break; } case 2: { volatile u64 x = 0; for (u64 k = r.below(3000); k; k--) x += k; break; } default:; }
}
struct Barrier { std::atomic<int> n{0}; int want; explicit Barrier(int w) : want(w) {} void wait() { n++; while (n.load() < want) sched_yield(); } };

struct Event { int thread; u64 begin, end; bool ok; u64 id; };    // one add
struct Item { std::string file; bool good = false; VTrace w; u64 id = 0; int kind = 0; /* 0 file, 1 points */ std::vector<VPoint> pts; };

// The identity of an added trace: its first statement, or for a trace without points its second name.
static u64 identity(const void *t) {
    u64 n = trace_size(t); if (!n) { u64 s = UINT64_MAX; if (n_names(t) > 1) { const char **a = get_names(t); s = strtoull(a[1], 0, 16); free(a); } return s; }
    CPoint *p = get_points(t); u64 s = p[0].statement; free_trace_points(p, n); return s; }

// Traces sharing as much data as possible between threads, each carrying its identity in its first point.
static MTrace variant(Rng & r, const std::vector<MTrace> & base, u64 id) {
    MTrace m = r.pick(base); MPoint p; Entry s; s.tag = T_STMT; s.a = id; p.e.push_back(s);
    if (!m.types.empty() && r.chance(1, 2)) { Gen g(r, GenOpts()); g.t.types = m.types; g.t.names = m.names; Entry e; e.tag = T_VAR; e.v = g.var(); p.e.push_back(e); }
    m.pts.insert(m.pts.begin(), p);
    if (m.pts.size() > 2 && r.chance(1, 2)) std::swap(m.pts[1], m.pts[m.pts.size() - 1]);
    return m;
}
static std::vector<MTrace> bases(Rng & r, bool unique) {
    std::vector<MTrace> v; GenOpts o; o.points_small = 6; o.points_large = 20; o.blob_large = 400; o.vars_large = 12; o.unique_types = unique; o.allow_no_names = false; o.stmt_pool_small = unique;
    o.types_large = 8; o.names_large = 10;
    for (u64 k = r.range(1, 3); k; k--) v.push_back(genTrace(r, o)); return v;
}
template<class F> static void threads(int n, F f) {
    std::vector<std::thread> t; std::vector<std::exception_ptr> e(n); Barrier b(n);
    for (int i = 0; i < n; i++) t.emplace_back([&, i] { try { b.wait(); f(i); } catch (...) { e[i] = std::current_exception(); } });
    for (auto & x : t) x.join();
    for (auto & x : e) if (x) std::rethrow_exception(x);
}
static int addPoints(void *db, const Item & it) {
    std::vector<std::vector<CVar>> cv(it.pts.size()); std::vector<CPoint> cp(it.pts.size()); static const char *nm[] = {"a", "b", "int"};
    for (size_t i = 0; i < it.pts.size(); i++) {
        for (auto & v : it.pts[i].vars) { CVar c; memset(&c, 0, sizeof c); c.value.u = v.value; c.var_name_index = v.name; c.type_name_index = v.tname; c.size = 8; cv[i].push_back(c); }
        cp[i].statement = it.pts[i].stmt; cp[i].vars = cv[i].data(); cp[i].n_vars = cv[i].size(); cp[i].aux = (uint64_t *) it.pts[i].aux.data(); cp[i].n_aux = it.pts[i].aux.size();
    }
    return add_trace_points(db, cp.data(), cp.size(), (char **) nm, 3);
}
static void sameMem(const void *t, const Item & it) {
    u64 n = trace_size(t); CHECK(n == it.pts.size(), "concurrent in-memory add: %llu points, expected %zu", (unsigned long long) n, it.pts.size()); CPoint *p = get_points(t);
    for (size_t i = 0; i < n; i++) {
        bool ok = p[i].statement == it.pts[i].stmt && p[i].n_vars == it.pts[i].vars.size() && p[i].n_aux == it.pts[i].aux.size();
        for (u32 k = 0; ok && k < p[i].n_vars; k++) ok = p[i].vars[k].value.u == it.pts[i].vars[k].value && p[i].vars[k].var_name_index == it.pts[i].vars[k].name && p[i].vars[k].type_name_index == it.pts[i].vars[k].tname;
        for (u32 k = 0; ok && k < p[i].n_aux; k++) ok = p[i].aux[k] == it.pts[i].aux[k];
        CHECK(ok, "concurrent in-memory add: point %zu differs", i);
    }
    free_trace_points(p, n);
}

// Several threads add to one database.
static void adds(Rng & r, u64 ci) {
    int T = r.range(2, 8), K = r.range(1, C.thorough() ? 24 : 10); auto base = bases(r, false); const u64 empties = r.chance(1, 3) ? 10 : 1;
    std::vector<std::vector<Item>> items(T); std::map<u64, Item *> byId;
    for (int t = 0; t < T; t++) for (int k = 0; k < K; k++) {
        Item it; it.id = ((u64) (t + 1) << 32) | k; it.file = C.path(fmt("a%d_%d", t, k).c_str());
        unsigned q = r.below(10);
        if (q < 6 && r.chance(empties, 12)) { MTrace m; m.names = {"empty", fmt("%llx", (unsigned long long) it.id)}; if (r.chance(1, 2)) m.types = {{0, F_UNSIGNED, 4}}; it.good = true; it.w = m.view(); writeFile(it.file, encode(m)); S.add("adds_of_empty_traces"); }
        else if (q < 6) { MTrace m = variant(r, base, it.id); Layout L; std::string b = encode(m, &L); u64 lim = 0; (void) lim; it.good = true; it.w = m.view(); writeFile(it.file, b); }
        else if (q < 8) { it.kind = 1; it.good = true; VPoint p; p.stmt = it.id; it.pts.push_back(p); for (u64 n = r.below(6); n; n--) { VPoint x; x.stmt = r.below(4); for (u64 z = r.below(4); z; z--) { VVar v; v.value = r.below(5); v.name = r.below(2); v.tname = 2; x.vars.push_back(v); } for (u64 z = r.below(3); z; z--) x.aux.push_back(r.below(3)); it.pts.push_back(x); } }
        else if (q == 8) { MTrace m = variant(r, base, it.id); Layout L; std::string b = encode(m, &L); writeFile(it.file, b.substr(0, L.header + 3)); }   // torn first entry
        else { it.file = C.path("missing"); }
        items[t].push_back(it);
    }
    for (auto & v : items) for (auto & i : v) byId[i.id] = &i;
    void *db = create_db(); std::vector<std::vector<Event>> log(T); std::vector<u64> seeds; for (int t = 0; t < T; t++) seeds.push_back(r.next());
    threads(T, [&](int t) {
        Rng q(seeds[t]);
        for (auto & it : items[t]) {
            if (q.chance(1, 4)) { RP = ReadPlan(); RP.max_chunk = 1 + q.below(64); RP.chunk_seed = q.next() | 1; RP.active = true; } else RP.active = false;
            pause(q); Event e; e.thread = t; e.id = it.id; e.begin = ns();
            e.ok = it.kind ? addPoints(db, it) : add_trace(db, it.file.c_str(), q.below(2), 0);
            e.end = ns(); RP.active = false; log[t].push_back(e);
        }
    });
    // offline: every successful add exactly once, in an order consistent with the log
    std::vector<Event> ok; u64 failed = 0;
    for (auto & v : log) for (auto & e : v) { CHECK(e.ok == byId[e.id]->good, "concurrent add of a %s trace %s", byId[e.id]->good ? "good" : "bad", e.ok ? "succeeded" : "failed"); if (e.ok) ok.push_back(e); else failed++; }
    CHECK(n_traces(db) == ok.size(), "%u traces after %zu successful concurrent adds", n_traces(db), ok.size());
    std::map<u64, size_t> pos; u64 h = T; int sw = 0, last = -1;
    for (u32 i = 0; i < n_traces(db); i++) {
        const void *t = get_trace(db, i); u64 id = identity(t);
        auto f = byId.find(id); CHECK(f != byId.end() && f->second->good, "trace %u of the database is none of those added", i);
        CHECK(pos.insert({id, i}).second, "a trace was stored twice");
        if (f->second->kind) sameMem(t, *f->second); else cmpTrace(t, f->second->w, "concurrently added trace");
        h = mix(h, id >> 32); if ((int) (id >> 32) != last) { sw++; last = id >> 32; }
    }
    std::sort(ok.begin(), ok.end(), [](const Event & a, const Event & b) { return a.end < b.end; });
    u64 overlaps = 0;
    for (auto & a : ok) for (auto & b : ok) { if (a.end < b.begin) CHECK(pos[a.id] < pos[b.id], "an add that completed before another began is stored after it"); else if (a.thread < b.thread && b.begin <= a.end && a.begin <= b.end) overlaps++; }
    free_db(db);
    S.add("adds_succeeded", ok.size()); S.add("adds_failed", failed); S.add("overlapping_pairs", overlaps); S.add("thread_switches_in_database", sw); S.maxi("max_threads", T);
    if (sw > 1) S.nontrivial(h);
    S.sample(fmt("%d threads, %zu adds stored in %d runs of one thread, %llu overlapping pairs", T, ok.size(), sw, (unsigned long long) overlaps));
}

// Every thread has a database of its own and uses all of the interface.
static void separate(Rng & r, u64 ci) {
    int T = r.range(2, 8); auto base = bases(r, true);
    struct Step { std::string file; MTrace m; VTrace w; std::vector<Query> qs; std::vector<Expected> es; std::vector<Query> alone; std::vector<std::vector<u64>> answers; };
    std::vector<std::vector<Step>> plan(T); std::vector<Query> shared; std::vector<u64> seeds;
    for (int t = 0; t < T; t++) {
        seeds.push_back(r.next());
        for (u64 k = r.range(1, C.thorough() ? 6 : 3); k; k--) {
            Step s; s.m = r.chance(1, 3) ? r.pick(base) : variant(r, base, (u64) t << 8 | k); s.w = s.m.view(); s.file = C.path(fmt("s%d_%llu", t, (unsigned long long) k).c_str()); writeFile(s.file, encode(s.m));
            QGen g(r, s.m, s.w);
            for (int z = 0; z < 5; z++) { Query q = !shared.empty() && r.chance(1, 3) ? r.pick(shared) : g.query(600); if (!q.free.empty() && q.hard.kind == P_NULL && r.chance(3, 4)) q.hard = g.boolean(r.below(2), q.free.size(), r.below(2)); if (r.chance(1, 4)) g.mask(q);
                if (g.product(q) > 3000) continue;
                if (q.soft.empty() && !q.free.empty() && r.chance(1, 4)) for (u64 y = r.range(1, 3); y; y--) q.soft.push_back(g.boolean(1, q.free.size(), 1));
                Expected e = refQuery(s.w, q); if (!e.decided) continue; s.qs.push_back(q); s.es.push_back(e); shared.push_back(q); }
            // without duplicates and with seeds: as answered with no other thread running
            void *d0 = create_db(); CHECK(add_trace(d0, s.file.c_str(), 0, 0), "add of a well-formed trace failed");
            for (auto & x : s.qs) { Query q = x; q.keep = r.chance(1, 4); if (r.chance(1, 2)) q.seed = (u32) r.next() | 1; std::vector<u64> a; for (auto & y : realQuery(d0, 0, q, r)) a.push_back(y.hash()); s.alone.push_back(q); s.answers.push_back(a); }
            free_db(d0);
            plan[t].push_back(s);
        }
    }
    std::atomic<u64> queries{0}, results{0};
    threads(T, [&](int t) {
        Rng q(seeds[t]); void *db = create_db(); u32 n = 0;
        for (auto & s : plan[t]) {
            pause(q);
            void *tr = read_trace(s.file.c_str(), 0, 0); CHECK(tr, "concurrent read of a well-formed trace failed"); cmpTrace(tr, s.w, "concurrently read trace");
            CHECK(add_trace(db, s.file.c_str(), 0, 0), "concurrent add of a well-formed trace failed"); n++;
            if (q.chance(1, 2)) { free_trace(tr); tr = nullptr; }
            for (size_t k = 0; k < s.qs.size(); k++) { pause(q); auto got = realQuery(db, n - 1, s.qs[k], q); cmpGroups(got, s.es[k], s.qs[k], "query beside other threads"); queries++; results += got.size(); }
            for (size_t k = 0; k < s.alone.size(); k++) { std::vector<u64> a; for (auto & y : realQuery(db, n - 1, s.alone[k], q)) a.push_back(y.hash()); CHECK(a == s.answers[k], "a query beside other threads answers differently: %zu results, alone %zu; %s", a.size(), s.answers[k].size(), s.alone[k].str().c_str()); queries++; }
            if (q.chance(1, 3)) { CHECK(!add_trace(db, C.path("missing").c_str(), 0, 0), "add of a missing file succeeded"); CHECK(!read_trace(C.path("missing").c_str(), 0, 0), "read of a missing file succeeded"); }
            if (q.chance(1, 3)) { Item it; it.pts.resize(1 + q.below(4)); for (auto & p : it.pts) { p.stmt = q.below(4); for (u64 z = q.below(4); z; z--) { VVar v; v.value = q.below(5); v.name = q.below(2); v.tname = 2; p.vars.push_back(v); } } CHECK(addPoints(db, it), "in-memory add failed"); sameMem(get_trace(db, n), it); n++; if (tr) free_trace(tr); continue; }
            if (q.chance(1, 2)) { char *x = serialize_trace_db(db); void *d2 = deserialize_trace_db(x); free(x); CHECK(n_traces(d2) == n, "restored database lost traces"); cmpTrace(get_trace(d2, n - 1), s.w, "trace restored beside other threads"); if (q.chance(1, 2)) { free_db(db); db = d2; } else free_db(d2); }
            if (tr) free_trace(tr);
            if (q.chance(1, 4)) { free_db(db); db = create_db(); n = 0; }
        }
        free_db(db);
    });
    S.add("queries_beside_other_threads", queries); S.add("query_results", results); S.add("separate_database_runs"); S.maxi("max_threads", T);
}
static void c12(Rng & r, u64 i) { if (i % 3 != 2) adds(r, i); else separate(r, i); }
int main(int c, char **v) { return caseMain(c, v, {{"C12", c12}}); }
