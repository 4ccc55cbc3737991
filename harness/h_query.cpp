// C03 C06 C07 C08 C09 C10: queries and serialization against the reference engine.
#include "common_main.hpp"
#include "refquery.hpp"
#include <sys/wait.h>

static GenOpts queryOpts(Rng & r) {
    GenOpts o; o.unique_types = true; o.points_small = 6; o.points_large = 40; o.vars_small = 6; o.vars_large = 12; o.types_small = 5; o.types_large = 10; o.names_small = 4;
    o.names_large = 20; o.blob_large = 100; o.stmt_pool_small = true; o.sizes_pct = 15; o.aux_pct = 8;
    if (r.chance(1, 3)) { o.types_small = 2; o.types_large = 3; }
    return o;
}
static MTrace queryTrace(Rng & r, const GenOpts & o) { MTrace m = genTrace(r, o); if (r.chance(1, 8)) { spread(r, m); S.add("traces_with_spread_indices"); } return m; }
struct DB {
    void *db = nullptr; std::vector<MTrace> m; std::vector<VTrace> w;
    void create() { db = create_db(); }
    void add(const MTrace & t) { writeFile(C.path("q"), encode(t)); CHECK(add_trace(db, C.path("q").c_str(), 0, 0), "add_trace of a well-formed trace failed"); m.push_back(t); w.push_back(t.view()); }
    void drop() { if (db) free_db(db); db = nullptr; m.clear(); w.clear(); }
};

static u64 checkQuery(DB & d, size_t i, const Query & q, Rng & r, const char *where) {
    Expected e = refQuery(d.w[i], q);
    std::vector<Res> got = realQuery(d.db, i, q, r);
    if (!e.decided) { S.add("undecided"); return 0; }
    cmpGroups(got, e, q, where);
    S.add("queries"); S.add("results", got.size()); if (got.empty()) S.add("empty_answers");
    u64 h = hashBytes(q.str()); for (auto & g : got) h = mix(h, g.hash());
    if (!got.empty()) S.nontrivial(h);
    return h;
}

static void c06(Rng & r, u64 i) {
    DB d; d.create(); u64 nt = r.range(1, 3);
    for (u64 k = 0; k < nt; k++) { GenOpts o = queryOpts(r); MTrace m = queryTrace(r, o); d.add(m); }
    if (i % 100 == 9) { // a point with very many variables
        GenOpts o = queryOpts(r); Gen g(r, o); g.header(); while (g.t.types.empty()) g.t.types.push_back(g.type());
        MPoint p; Entry s; s.tag = T_STMT; s.a = 1; p.e.push_back(s); for (int k = 0; k < 270; k++) { Entry e; e.tag = T_VAR; e.v = g.var(); p.e.push_back(e); } g.t.pts.push_back(p); d.add(g.t);
    }
    if (i % 100 == 59) { // a point with more variables than 12 or 16 bits can number: each is found by its value
        MTrace m; m.names = {"n", "k"}; m.types = {{0, F_UNSIGNED, 8}, {0, F_UNSIGNED, 4}}; MPoint p; Entry s; s.tag = T_STMT; s.a = 1; p.e.push_back(s); u64 nv = r.chance(1, 2) ? r.range(4100, 9000) : r.range(65600, 70000);
        for (u64 k = 0; k < nv; k++) { Entry e; e.tag = T_VAR; e.v.name = k & 1; e.v.type = k % 1000 == 7; e.v.raw = 3 * k; p.e.push_back(e); } m.pts = {p}; d.add(m); size_t t = d.m.size() - 1;
        for (int k = 0; k < 3; k++) { Query q; q.free = {{0, 1}}; if (k == 2) q.free = {{1}, {1}}; u64 x = k ? nv - 1 : r.below(nv); q.hard = k == 2 ? P(P_AND, {P(P_GE, {P::val(0), P::U(3 * (nv - 1100))}), P(P_LE, {P::val(1), P::U(3 * 1100)})}) : P(P_EQ, {P::val(0), P::U(3 * x)}); if (k == 2 && nv > 20000) continue; checkQuery(d, t, q, r, "a point with very many variables"); }
        S.add("points_beyond_12_or_16_bits");
    }
    if (i % 360 == 133) { // very many bindings at one point
        u64 nf = r.range(2, 4), nv = nf == 2 ? r.range(320, 480) : nf == 3 ? r.range(48, 60) : r.range(18, 22); MTrace m; m.names = {"n", "k"}; m.types = {{0, F_UNSIGNED, 8}}; MPoint p; Entry s; s.tag = T_STMT; s.a = 1; p.e.push_back(s);
        for (u64 k = 0; k < nv; k++) { Entry e; e.tag = T_VAR; e.v.name = k & 1; e.v.type = 0; e.v.raw = k; p.e.push_back(e); } m.pts = {p}; d.add(m); Query q; q.free.assign(nf, {0}); if (r.chance(1, 2)) q.hard = P(P_GE, {P::val(0), P::U(2)});
        checkQuery(d, d.m.size() - 1, q, r, "very many bindings"); S.add("queries_with_100000_bindings"); d.m.pop_back(); d.w.pop_back();
    }
    for (int k = 0; k < 12; k++) {
        size_t t = r.below(d.m.size()); QGen g(r, d.m[t], d.w[t]); Query q = g.query(i % 100 == 9 ? 60000 : 6000); bool wide = false;
        if (i % 100 == 9 && k == 0) { // more bindings, or more free variables, than 16 or 8 bits can count
            t = d.m.size() - 1; q = Query(); wide = true; const VPoint & p = d.w[t].pts[0]; std::vector<u32> all; for (u32 z = 0; z < d.m[t].types.size(); z++) all.push_back(z);
            if (r.chance(1, 2)) { q.free = {all, all}; }
            else { // one of very many free variables has a choice
                std::map<u32, u32> c; for (auto & v : p.vars) c[v.type]++; MTrace m; m.names = d.m[t].names; m.types = {{0, F_UNSIGNED, 4}, {0, F_UNSIGNED, 8}}; MPoint z; Entry s; s.tag = T_STMT; s.a = 1; z.e.push_back(s);
                if (m.names.empty()) m.names.push_back("n");
                Entry e; e.tag = T_VAR; e.v.type = 0; e.v.name = 0; e.v.raw = 5; z.e.push_back(e); e.v.type = 1; e.v.raw = 6; z.e.push_back(e); e.v.raw = 7; z.e.push_back(e); m.pts = {z, z}; d.add(m); t = d.m.size() - 1;
                u64 nf = r.chance(1, 2) ? 300 : 66000, ch = r.below(nf); for (u64 y = 0; y < nf; y++) q.free.push_back({y == ch ? 1u : 0u});
                q.hard = P(P_EQ, {P::val(ch), P::U(6 + r.below(3))});
            }
        }
        if (wide) S.add("queries_beyond_16_bits");
        if (!wide && !q.free.empty() && r.chance(3, 4)) q.hard = g.boolean(r.below(3), q.free.size(), r.below(2));
        if (!wide && r.chance(1, 3)) g.mask(q);
        checkQuery(d, t, q, r, "query");
        if (q.free.empty()) S.add("queries_without_variables");
        if (q.free.size() > 1) S.add("queries_with_several_variables");
        if (k == 0) S.sample(q.str().substr(0, 400));
    }
    d.drop();
}

static void c07(Rng & r, u64 i) {
    DB d; d.create(); GenOpts o = queryOpts(r); o.points_small = 3; o.points_large = 6; o.sizes_pct = 25;
    MTrace m = queryTrace(r, o); 
    if (r.chance(1, 3)) { // one of each kind, with hostile values
        Gen g(r, o); g.t.names = {"a", "b", "c", "d"}; g.t.types.clear();
        for (u32 w : {1, 2, 4, 8}) { g.t.types.push_back({0, F_UNSIGNED, w}); g.t.types.push_back({0, F_SIGNED, w}); }
        g.t.types.push_back({0, F_FLOAT, 4}); g.t.types.push_back({0, F_FLOAT, 8}); g.t.types.push_back({0, F_POINTER, 8}); g.t.types.push_back({0, F_BLOB, 0});
        MPoint p; Entry s; s.tag = T_STMT; s.a = 1; p.e.push_back(s); p.e.push_back(g.sizeEntry()); p.e.push_back(g.sizeEntry());
        for (u32 t = 0; t < g.t.types.size(); t++) { Entry e; e.tag = T_VAR; e.v.type = t; e.v.name = r.below(4); g.value(e.v); p.e.push_back(e); }
        g.t.pts.push_back(p); m = g.t;
    }
    d.add(m);
    QGen g(r, d.m[0], d.w[0]);
    for (int k = 0; k < 40; k++) {
        Query q; u64 nf = r.range(1, 3);
        for (u64 j = 0; j < nf; j++) { std::vector<u32> all; for (u32 t = 0; t < m.types.size(); t++) if (r.chance(1, nf)) all.push_back(t); q.free.push_back(all); }
        if (g.product(q) > 1500) continue;
        q.hard = r.chance(1, 8) ? g.boolean(4, nf, 2) : r.chance(1, 12) ? g.wide(nf, r.below(3)) : r.chance(1, 12) ? g.deep(nf) : r.chance(1, 2) ? g.comparison(r.below(4), nf) : g.boolean(2, nf, 2);
        q.hardNullPtr = false;
        checkQuery(d, 0, q, r, "predicate");
        S.maxi("max_predicate_nodes", q.hard.nodes()); { std::function<u64(const P &)> dep = [&](const P & p) { u64 x = 0; for (auto & c : p.ch) x = std::max(x, dep(c)); return x + 1; }; S.maxi("max_predicate_depth", dep(q.hard)); }
        if (k == 0) S.sample(q.hard.str().substr(0, 300));
        std::function<void(const P &)> kinds = [&](const P & p) { static const char *n[] = {"null", "ref", "size", "value", "distinct", "signed", "unsigned", "float", "and", "or", "not", "gt", "ge", "lt", "le", "eq", "add", "sub", "mul", "div"};
            S.n[std::string("kind_") + n[p.kind]]++; for (auto & c : p.ch) kinds(c); };
        kinds(q.hard);
    }
    d.drop();
}

static void c09(Rng & r, u64 i) {
    DB d; d.create(); MTrace m = queryTrace(r, queryOpts(r)); d.add(m);
    for (int k = 0; k < 10; k++) {
        QGen g(r, d.m[0], d.w[0]); Query q = g.query(3000); if (q.free.empty()) { if (r.chance(3, 4)) continue; }
        u64 nv = q.free.size();
        if (nv && r.chance(1, 2)) q.hard = g.boolean(1, nv, 1);
        if (nv && i % 40 == 3 && k == 0 && g.product(q) < 60) { // more satisfied predicates than 8 or 16 bits can count
            u64 n = r.chance(1, 2) ? 256 * r.range(1, 4) : 65536, x = r.below(3); P a = g.comparison(0, nv); q.soft.assign(n - 1 + x, P(P_AND)); q.soft.push_back(a); S.add("queries_with_very_many_soft_predicates");
        } else
        if (nv) for (u64 n = r.chance(1, 20) ? r.range(20, 60) : r.range(1, 6); n; n--) {
            unsigned z = r.below(10);
            if (z == 0) q.soft.push_back(P(P_OR));                       // never satisfied
            else if (z == 1) q.soft.push_back(P(P_AND));                 // always satisfied
            else if (z == 2 && !q.soft.empty()) q.soft.push_back(r.pick(q.soft)); // counted twice
            else q.soft.push_back(g.boolean(r.below(2), nv, r.below(2)));
        }
        if (r.chance(1, 4)) g.mask(q);
        Query h = q; h.soft.clear();
        Expected a = refQuery(d.w[0], q), b = refQuery(d.w[0], h);
        checkQuery(d, 0, q, r, "soft predicates");
        if (a.decided && b.decided) { if (a.total < b.total) S.add("soft_filtered_some"); if (a.total > a.groups.size()) S.add("ties_kept"); }
        if (k == 0) S.sample(q.str().substr(0, 400));
    }
    d.drop();
}

static u64 dedupKey(const Res & x, const MTrace & m) {
    u64 h = mix(x.stmt, x.vars.size());
    for (auto & v : x.vars) {
        u32 ti = UINT32_MAX; // types are unique by (name, format, size; blobs by name)
        for (u32 t = 0; t < m.types.size(); t++) if (m.types[t].name == v.tname && m.types[t].fmt == v.fmt && (v.fmt == F_BLOB || m.types[t].size == v.size)) ti = t;
        CHECK(ti != UINT32_MAX, "result variable %s has no matching type", v.str().c_str());
        h = mix(mix(h, v.name), ti);
    }
    return h;
}

static void c10(Rng & r, u64 i) {
    DB d; d.create(); GenOpts o = queryOpts(r); o.points_small = 14; if (r.chance(1, 2)) { o.names_small = 2; o.names_large = 3; }
    MTrace m = queryTrace(r, o); d.add(m);
    if (i % 40 == 11) { // very many points to pick from
        MTrace b; b.names = {"n"}; b.types = {{0, F_UNSIGNED, 8}}; u64 n = r.range(1200, 1600); for (u64 k = 0; k < n; k++) { MPoint p; Entry s; s.tag = T_STMT; s.a = 3 * k + 1; p.e.push_back(s); b.pts.push_back(p); }
        d.add(b); std::set<u64> hit; std::map<u32, u64> pick;
        for (u64 k = 0; k < 2 * n; k++) { Query q; do q.seed = k & 1 ? (u32) r.next() : (u32) k + 1; while (!q.seed); std::vector<Res> a = realQuery(d.db, 1, q, r); CHECK(a.size() == 1 && a[0].stmt % 3 == 1 && a[0].stmt < 3 * n, "seed %u: not exactly one of the points", q.seed); hit.insert(a[0].stmt);
            auto z = pick.insert({q.seed, a[0].stmt}); CHECK(z.first->second == a[0].stmt, "seed %u: two runs differ", q.seed); }
        for (auto & z : pick) if (r.chance(1, 10)) { Query q; q.seed = z.first; std::vector<Res> a = realQuery(d.db, 1, q, r); CHECK(a.size() == 1 && a[0].stmt == z.second, "seed %u: two runs differ", q.seed); }
        // a fair pick reaches 86 % of the points on average
        CHECK(hit.size() > n * 7 / 10, "%llu seeds picked only %zu of %llu points", (unsigned long long) 2 * n, hit.size(), (unsigned long long) n); S.add("large_picks"); S.maxi("max_distinct_picks", hit.size());
    }
    if (i % 400 == 211) { // more points than 16 bits can number: picks, filters, results in order, duplicates far apart
        MTrace b; b.names = {"n", "m"}; b.types = {{0, F_UNSIGNED, 8}}; u64 n = r.range(66000, 72000); 
        for (u64 k = 0; k < n; k++) { MPoint p; Entry s; s.tag = T_STMT; s.a = k < n / 2 ? 2 * k : 2 * (k - n / 2) + (k & 1); p.e.push_back(s); Entry e; e.tag = T_VAR; e.v.type = 0; e.v.name = 0; e.v.raw = k; p.e.push_back(e); b.pts.push_back(p); }
        d.add(b); const u64 T = d.m.size() - 1; const u64 slices = 16; std::set<u64> hit; Query q; q.free = {{0}};
        for (int k = 0; k < 400; k++) { Query s = q; s.keep = true; do s.seed = k & 1 ? (u32) r.next() : (u32) k + 1; while (!s.seed); std::vector<Res> a = realQuery(d.db, T, s, r); CHECK(a.size() == 1 && a[0].vars.size() == 1 && a[0].vars[0].value < n, "seed %u: not exactly one of %llu points", s.seed, (unsigned long long) n); hit.insert(a[0].vars[0].value * slices / n); }
        CHECK(hit.size() == slices, "400 seeds picked from only %zu of %llu parts of a trace of %llu points", hit.size(), (unsigned long long) slices, (unsigned long long) n);   // chance for a fair pick: 1e-10
        Expected e = refQuery(d.w[T], q); std::vector<Res> all = realQuery(d.db, T, q, r); cmpGroups(all, e, q, "very many points"); q.keep = false; std::vector<Res> dd = realQuery(d.db, T, q, r), want; std::set<u64> seen;
        for (auto & x : all) if (seen.insert(x.stmt).second) want.push_back(x);
        CHECK(dd.size() == want.size(), "deduplication: %zu results of %zu, expected %zu", dd.size(), all.size(), want.size()); for (size_t x = 0; x < dd.size(); x++) CHECK(dd[x].hash() == want[x].hash(), "deduplication: result %zu is not the first of its group", x);
        q.keep = true; q.mask = UINT64_MAX - 2; q.stmt = 2 * r.below(n / 4) * 2; e = refQuery(d.w[T], q); cmpGroups(realQuery(d.db, T, q, r), e, q, "filter of very many points"); S.add("traces_beyond_16_bits_of_points");
    }
    const VTrace & w = d.w[0];
    for (int k = 0; k < 8; k++) {
        QGen g(r, m, w); Query q = g.query(2500); g.mask(q);
        if (!q.free.empty() && r.chance(1, 2)) q.hard = g.boolean(1, q.free.size(), 1);
        if (!q.free.empty() && r.chance(1, 5)) q.soft.push_back(g.boolean(1, q.free.size(), 1));
        Expected e = refQuery(w, q); if (!e.decided) { S.add("undecided"); continue; }
        // filter
        std::vector<Res> all = realQuery(d.db, 0, q, r); cmpGroups(all, e, q, "statement filter"); S.add("filter_queries");
        // deduplication
        Query qd = q; qd.keep = false; std::vector<Res> dd = realQuery(d.db, 0, qd, r), want; std::set<u64> seen;
        for (auto & x : all) if (seen.insert(dedupKey(x, m)).second) want.push_back(x);
        CHECK(dd.size() == want.size(), "deduplication: %zu results of %zu, expected %zu; %s", dd.size(), all.size(), want.size(), q.str().c_str());
        for (size_t x = 0; x < dd.size(); x++) CHECK(dd[x].hash() == want[x].hash(), "deduplication: result %zu is %s, expected the first of its group: %s", x, dd[x].str().c_str(), want[x].str().c_str());
        S.add("dedup_queries"); S.add("duplicates_removed", all.size() - dd.size());
        // seeds
        std::set<std::vector<u64>> sigs; std::vector<std::vector<u64>> sig;
        for (auto & gp : e.groups) { std::vector<u64> s; for (auto & x : gp) s.push_back(x.hash()); std::sort(s.begin(), s.end()); sig.push_back(s); sigs.insert(s); }
        std::set<std::vector<u64>> hit; int seeds = k == 0 ? 600 : 12;
        if (sig.size() > 24 && k == 0) seeds = 1500;
        for (int sd = 0; sd < seeds; sd++) {
            Query qs = q; qs.seed = sd < seeds - 6 ? (sd & 1 ? (u32) r.next() : (u32)(sd + 1)) : (u32) Gen::interesting(r); if (!qs.seed) qs.seed = 1;
            std::vector<Res> a = realQuery(d.db, 0, qs, r); std::vector<u64> s; for (auto & x : a) s.push_back(x.hash()); std::sort(s.begin(), s.end());
            if (sig.empty()) CHECK(a.empty(), "seed %u: %zu results though no point matches", qs.seed, a.size());
            else CHECK(sigs.count(s), "seed %u: the %zu results are not those of any single matching point; %s", qs.seed, a.size(), q.str().c_str());
            hit.insert(s);
            if (sd % 16 == 0) {
                std::vector<Res> b = realQuery(d.db, 0, qs, r); CHECK(b.size() == a.size(), "seed %u: two runs differ", qs.seed);
                for (size_t x = 0; x < a.size(); x++) CHECK(a[x].hash() == b[x].hash(), "seed %u: two runs differ", qs.seed);
                Query q2 = qs; q2.keep = false; std::vector<Res> c = realQuery(d.db, 0, q2, r); std::set<u64> sn; std::vector<Res> wd; for (auto & x : a) if (sn.insert(dedupKey(x, m)).second) wd.push_back(x);
                CHECK(c.size() == wd.size(), "seed %u with deduplication: %zu results, expected %zu", qs.seed, c.size(), wd.size());
                for (size_t x = 0; x < c.size(); x++) CHECK(c[x].hash() == wd[x].hash(), "seed %u with deduplication differs", qs.seed);
            }
            S.add("seeded_queries");
        }
        if (seeds >= 600 && sig.size() <= 60 && !sig.empty()) {
            // the chance of a fair pick missing a point is below 1e-10 for the numbers used
            if (sig.size() <= 20 || seeds >= 1500) { CHECK(hit.size() == sigs.size(), "%d seeds picked only %zu of %zu distinguishable points; %s", seeds, hit.size(), sigs.size(), q.str().c_str()); S.add("coverage_checks"); S.add("points_picked", hit.size()); }
        }
        if (all.size() > 1 && dd.size() < all.size()) S.nontrivial(mix(hashBytes(q.str()), all[0].hash()));
        if (k == 0) S.sample(q.str().substr(0, 300));
    }
    d.drop();
}

// ------------------------------------------------------------------ histories
static void __attribute__((noinline)) deep(unsigned n, const std::function<void()> & f) { volatile char pad[300]; memset((void *) pad, (int) n, sizeof pad); if (n) deep(n - 1, f); else f(); pad[0] = 1; }

static void c08(Rng & r, u64 i) {
    std::vector<DB> dbs(3); for (auto & d : dbs) d.create();
    struct Asked { size_t db, t; u64 gen; Query q; std::vector<u64> res; };
    std::vector<Asked> log; std::vector<u64> gen(3, 0); u64 g0 = 0;
    std::vector<P> pool; std::vector<std::pair<u64, u64>> masks; std::vector<void *> churn; u64 h = 0;
    MTrace shared = queryTrace(r, queryOpts(r));
    u64 steps = C.thorough() ? 400 : 150;
    for (u64 s = 0; s < steps; s++) {
        size_t x = r.below(dbs.size()); DB & d = dbs[x]; unsigned op = r.below(100);
        if (d.m.empty() || op < 8) {
            if (d.m.size() > 5) continue;
            MTrace t; if (r.chance(1, 3)) t = shared; else if (r.chance(1, 2)) { t = shared; Gen g(r, queryOpts(r)); g.t = t; for (int k = 0; k < 4 && !g.t.pts.empty(); k++) g.nudge(g.t.pts[r.below(g.t.pts.size())]); t = g.t; } else t = queryTrace(r, queryOpts(r));
            d.add(t); S.add("adds");
        } else if (op < 12) { d.drop(); d.create(); gen[x] = ++g0; S.add("database_replacements"); }
        else if (op < 15) {
            char *txt = serialize_trace_db(d.db); void *n = deserialize_trace_db(txt); free(txt); if (r.chance(1, 2)) { free_db(d.db); d.db = n; S.add("database_restores"); } else free_db(n);
        } else if (op < 20) {
            if (r.chance(1, 2)) { void *p = malloc(r.range(8, 400)); memset(p, (int) r.next(), 8); churn.push_back(p); } else if (!churn.empty()) { size_t k = r.below(churn.size()); free(churn[k]); churn[k] = churn.back(); churn.pop_back(); }
        } else if (op < 24) {
            writeFile(C.path("o"), encode(queryTrace(r, queryOpts(r)))); void *t = read_trace(C.path("o").c_str(), 0, 0); CHECK(t, "read failed"); free_trace(t);
        } else if (op < 40 && !log.empty()) { // ask again
            const Asked & a = r.pick(log); if (gen[a.db] != a.gen) continue;
            std::vector<Res> b; auto f = [&]() { b = realQuery(dbs[a.db].db, a.t, a.q, r); };
            if (r.chance(1, 3)) deep(r.below(40), f); else f();
            std::vector<u64> hs; for (auto & y : b) hs.push_back(y.hash());
            CHECK(hs == a.res, "step %llu: repeating a query gives %zu results instead of %zu; %s", (unsigned long long) s, hs.size(), a.res.size(), a.q.str().c_str()); S.add("repeated_queries");
        } else {
            size_t t = r.below(d.m.size()); QGen g(r, d.m[t], d.w[t]); Query q = g.query(600);
            u64 nv = q.free.size();
            if (nv && r.chance(4, 5)) {
                // predicates similar to earlier ones: same shape, other constants
                if (!pool.empty() && r.chance(1, 2)) {
                    q.hard = r.pick(pool);
                    std::function<void(P &)> fix = [&](P & p) { if (p.kind == P_VAR_REFERENCE) p.var %= nv; if (r.chance(1, 3)) { if (p.kind == P_SIGNED || p.kind == P_UNSIGNED || p.kind == P_FLOAT) p = g.constant(); }
                        if (r.chance(1, 10) && p.kind >= P_GT && p.kind <= P_EQ) p.kind = P_GT + r.below(5); for (auto & c : p.ch) fix(c); };
                    fix(q.hard);
                } else { q.hard = g.boolean(r.below(2), nv, r.below(2)); pool.push_back(q.hard); }
            }
            if (nv && r.chance(1, 6)) q.soft.push_back(g.boolean(1, nv, 1));
            if (r.chance(1, 2)) g.mask(q);
            if (!masks.empty() && r.chance(1, 3)) { // a filter close to an earlier one
                auto z = r.pick(masks); q.mask = z.first; q.stmt = z.second;
                switch (r.below(6)) { case 0: break; case 1: q.stmt ^= ~q.mask & Gen::interesting(r); break; case 2: q.stmt ^= 1ULL << r.below(64); break; case 3: q.mask ^= 1ULL << r.below(64); break; case 4: std::swap(q.mask, q.stmt); break; default: q.mask |= 7; }
            }
            masks.push_back({q.mask, q.stmt});
            Expected e = refQuery(d.w[t], q);
            std::vector<Res> got; auto f = [&]() { got = realQuery(d.db, t, q, r); };
            if (r.chance(1, 3)) deep(r.below(40), f); else f();
            if (!e.decided) S.add("undecided"); else { cmpGroups(got, e, q, fmt("step %llu", (unsigned long long) s).c_str()); S.add("queries"); S.add("results", got.size()); }
            if (r.chance(1, 4)) { q.keep = r.chance(1, 2); if (r.chance(1, 2)) q.seed = r.chance(1, 2) ? r.range(1, 50) : (u32) r.next() | 1; got = realQuery(d.db, t, q, r); }
            Asked a; a.db = x; a.t = t; a.gen = gen[x]; a.q = q; for (auto & y : got) a.res.push_back(y.hash()); log.push_back(a);
            h = mix(h, hashBytes(q.str()));
        }
    }
    for (auto & d : dbs) d.drop();
    for (void *p : churn) free(p);
    S.nontrivial(h); S.add("steps", steps);
    S.sample(fmt("history of %llu steps, %zu distinct questions, last: ", (unsigned long long) steps, log.size()) + (log.empty() ? "" : log.back().q.str().substr(0, 200)));
}

// ------------------------------------------------------------------ serialization
static void compareDB(const void *db, const DB & d, const char *where) {
    CHECK(n_traces(db) == d.w.size(), "%s: %u traces, expected %zu", where, n_traces(db), d.w.size());
    for (size_t k = 0; k < d.w.size(); k++) cmpTrace(get_trace(db, k), d.w[k], where);
}
static void c03child(Rng & r, u64 i) { // in a fresh process: restore, digest, serialize again
    std::string txt = readFile(C.path("db.txt")); void *db = deserialize_trace_db(txt.c_str());
    std::string o; for (u32 k = 0; k < n_traces(db); k++) o += fmt("%llx\n", (unsigned long long) digestTrace(get_trace(db, k)));
    writeFile(C.path("digest"), o); char *t = serialize_trace_db(db); writeFile(C.path("again.txt"), t); free(t); free_db(db);
}
static void c03(Rng & r, u64 i) {
    DB d; d.create(); u64 n = r.chance(1, 12) ? 0 : r.range(1, 4); u64 h = 0;
    MTrace prev;
    for (u64 k = 0; k < n; k++) {
        MTrace m;
        if (i % 400 == 107 && k == 0) { m = genHuge(r, (unsigned[]) {0, 1, 2, 4}[i / 400 % 4]); S.add("huge_traces"); }
        else if (i % 25 == 7 && k == 0) { m = genBig(r, (unsigned[]) {0, 3, 4, 5, 6}[r.below(5)], C.thorough()); }
        else if (k && r.chance(1, 3)) { Gen g(r, GenOpts()); g.t = prev; if (!g.t.pts.empty() && r.chance(1, 2)) g.nudge(g.t.pts[r.below(g.t.pts.size())]); m = g.t; }
        else { GenOpts o = r.chance(1, 2) ? queryOpts(r) : GenOpts(); m = genTrace(r, o); }
        d.add(m); prev = m; h = mix(h, hashBytes(encode(m))); countTrace(m);
    }
    char *txt = serialize_trace_db(d.db); CHECK(txt, "serialization gave nothing");
    std::string a = txt; free(txt);
    // in-memory points are compared against the original database
    bool mem = r.chance(1, 4); void *mdb = nullptr;
    void *orig = d.db; bool dropFirst = r.chance(1, 2);
    void *db = nullptr;
    if (dropFirst) { free_db(orig); orig = nullptr; }
    db = deserialize_trace_db(a.c_str()); CHECK(db, "deserialization failed");
    compareDB(db, d, "restored database");
    char *t2 = serialize_trace_db(db); CHECK(a == t2, "serializing the restored database gives different text (%zu, was %zu bytes)", strlen(t2), a.size()); free(t2);
    if (orig) { compareDB(orig, d, "original after serialization"); }
    d.db = db;
    for (size_t k = 0; k < d.m.size() && k < 4; k++) for (int z = 0; z < 3; z++) {
        if (d.m[k].pts.size() > 200 || d.m[k].types.size() > 100) continue;
        bool wide = false; for (auto & p : d.m[k].pts) if (p.e.size() > 100) wide = true; if (wide) continue;
        QGen g(r, d.m[k], d.w[k]); Query q = g.query(1000); if (!q.free.empty() && r.chance(2, 3)) q.hard = g.boolean(1, q.free.size(), 1); if (r.chance(1, 3)) g.mask(q);
        Expected e = refQuery(d.w[k], q); std::vector<Res> got = realQuery(db, k, q, r);
        if (e.decided) { cmpGroups(got, e, q, "query of the restored database"); S.add("queries_on_restored"); }
        Query q2 = q; q2.seed = r.range(1, 99); q2.keep = r.chance(1, 2);
        if (orig) { std::vector<Res> x = realQuery(orig, k, q2, r), y = realQuery(db, k, q2, r); CHECK(x.size() == y.size(), "original and restored database answer differently"); for (size_t j = 0; j < x.size(); j++) CHECK(x[j].hash() == y[j].hash(), "original and restored database answer differently"); }
    }
    // adding to a restored database, and a second generation
    if (r.chance(1, 2)) { d.add(genTrace(r)); compareDB(d.db, d, "restored database with one more trace"); char *t3 = serialize_trace_db(d.db); void *d3 = deserialize_trace_db(t3); free(t3); compareDB(d3, d, "second generation"); free_db(d3); S.add("second_generation"); }
    if (i % 6 == 0) {
        writeFile(C.path("db.txt"), a); unlink(C.path("digest").c_str());
        pid_t p = fork();
        if (!p) { execl(C.exe.c_str(), C.exe.c_str(), "C03CHILD", "--scratch", C.scratch.c_str(), (char *) 0); _exit(71); }
        int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 71) { fprintf(stderr, "HARNESS-ERROR exec\n"); exit(70); }
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "restoring in a fresh process ended with status %x", st);
        std::string want; for (size_t k = 0; k < n; k++) { if (orig) want += fmt("%llx\n", (unsigned long long) digestTrace(get_trace(orig, k))); else want += fmt("%llx\n", (unsigned long long) digestTrace(get_trace(db, k))); }
        CHECK(readFile(C.path("digest")) == want, "the database restored in a fresh process differs"); CHECK(readFile(C.path("again.txt")) == a, "serializing in a fresh process gives different text");
        S.add("fresh_processes");
    }
    if (mem) { // in-memory points (also blob-free), any values
        mdb = create_db(); GenOpts o; MTrace m = genTrace(r, o); std::vector<char *> nm; for (auto & s : m.names) nm.push_back((char *) s.c_str());
        if (!nm.empty()) {
            std::vector<std::vector<CVar>> cv; std::vector<std::vector<u64>> ax; std::vector<CPoint> cp; u64 np = r.below(12); cv.resize(np); ax.resize(np);
            for (u64 k = 0; k < np; k++) { for (u64 z = r.below(5); z; z--) { CVar c; memset(&c, 0, sizeof c); c.value.u = Gen::interesting(r); c.var_name_index = r.below(nm.size()); c.type_name_index = r.below(nm.size()); c.size = 8; c.has_buffer_size = r.chance(1, 3); c.buffer_size = c.has_buffer_size ? Gen::interesting(r) : 0; cv[k].push_back(c); }
                for (u64 z = r.below(4); z; z--) ax[k].push_back(Gen::interesting(r)); CPoint c; c.statement = r.next(); c.vars = cv[k].data(); c.n_vars = cv[k].size(); c.aux = ax[k].data(); c.n_aux = ax[k].size(); cp.push_back(c); }
            add_trace_points(mdb, cp.data(), cp.size(), nm.data(), nm.size());
            char *x = serialize_trace_db(mdb); void *y = deserialize_trace_db(x); free(x);
            CHECK(n_traces(y) == 1 && digestTrace(get_trace(y, 0)) == digestTrace(get_trace(mdb, 0)), "restored in-memory points differ"); free_db(y); S.add("in_memory_databases");
        }
        free_db(mdb);
    }
    if (orig) free_db(orig);
    free_db(db); S.add("text_bytes", a.size());
    if (n) S.nontrivial(h);
    S.sample(fmt("%llu traces, %zu bytes of text", (unsigned long long) n, a.size()));
}

int main(int c, char **v) {
    return caseMain(c, v, {{"C03", c03}, {"C03CHILD", c03child}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}});
}
