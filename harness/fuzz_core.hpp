// Exercises the interface with arbitrary bytes; returns a digest of everything observed.
#ifndef VERIF_FUZZ_CORE
#define VERIF_FUZZ_CORE
#include <sstream>
#include "Trace.hpp"
#include "model.hpp"
#include "qtypes.hpp"

__attribute__((noinline)) static void scribbleStack(int v) { volatile char b[24000]; memset((void *) b, v, sizeof b); asm volatile("" : : "r"(b) : "memory"); }

struct Outcome { bool accepted = false; u64 digest = 0, points = 0; size_t written = 0; u64 results = 0; };

// A fixed family of queries that any trace can be asked.
static u64 someQueries(void *db, u32 ntypes, u64 npoints, u64 maxvars, u64 & results) {
    u64 h = 0; std::vector<u32> all; for (u32 i = 0; i < ntypes && i < 3000; i++) all.push_back(i);
    all.push_back(ntypes); all.push_back(0xffffffffu);
    u64 combos2 = npoints * maxvars * maxvars;
    for (int q = 0; q < 6; q++) {
        PB pb; const CPred *hard = nullptr; std::vector<CFree> fv; u64 mask = 0, st = 0; u32 seed = 0; u8 keep = q & 1; std::vector<const CPred *> soft;
        CFree f; f.n_allowed_types = all.size(); f.allowed_types = all.data();
        switch (q) {
        case 0: break;
        case 1: fv = {f}; hard = pb.bin(P_GE, pb.val(0), pb.si(0)); break;
        case 2: fv = {f}; hard = pb.bin(P_LT, pb.size(0), pb.bin(P_ADD, pb.val(0), pb.ui(1ULL << 63))); soft = {pb.bin(P_GT, pb.val(0), pb.fl(0.5)), pb.bin(P_LE, pb.bin(P_DIV, pb.val(0), pb.val(0)), pb.si(-1))}; break;
        case 3: if (combos2 > 20000) continue; fv = {f, f}; hard = pb.bin(P_AND, pb.bin(P_EQ, pb.val(0), pb.val(1)), pb.bin(P_DISTINCT, pb.ref(0), pb.ref(1))); break;
        case 4: fv = {f}; seed = 7; mask = 1; st = 1; break;
        case 5: if (combos2 > 20000) continue; fv = {f, f}; hard = pb.un(P_NOT, pb.bin(P_LE, pb.bin(P_MUL, pb.val(0), pb.val(1)), pb.bin(P_SUB, pb.size(0), pb.size(1)))); soft = {pb.bin(P_EQ, pb.val(0), pb.val(1))}; break;
        }
        CPoint *out = nullptr; u64 n = 0;
        query_trace(db, 0, fv.data(), fv.size(), hard, soft.empty() ? nullptr : soft.data(), soft.size(), seed, keep, mask, st, &out, &n);
        h = mix(h, digestPoints(out, n)); results += n;
        free_trace_points(out, n);
    }
    return h;
}

static Outcome exercise(const char *file, u32 timeout, u64 limit) {
    Outcome o;
    void *t = read_trace(file, timeout, limit);
    if (t) {
        o.accepted = true; o.points = trace_size(t); o.digest = digestTrace(t);
        std::ostringstream os; os << *(const Trace *) t; std::string w = os.str(); o.written = w.size();
        o.digest = mix(o.digest, hashBytes(w));
        std::istringstream is(w);
        bool back = true; size_t n = 0;
        try { Trace t2(is); n = t2.getPoints().size(); } catch (std::exception &) { back = false; }
        CHECK(back && n == o.points, "an accepted trace of %llu points was written in a form that %s", (unsigned long long) o.points, back ? "has another number of points" : "cannot be read");
    }
    void *db = create_db();
    int a = add_trace(db, file, timeout, limit);
    CHECK(!!a == o.accepted, "read_trace %s but add_trace %s the same bytes", o.accepted ? "accepted" : "rejected", a ? "accepted" : "rejected");
    CHECK(n_traces(db) == (a ? 1u : 0u), "%u traces after add_trace returned %d", n_traces(db), a);
    if (a) {
        const void *u = get_trace(db, 0);
        u64 d = digestTrace(u); CHECK(d == digestTrace(t), "read_trace and add_trace see different content in the same bytes");
        u64 mv = 0; CPoint *p = get_points(u); u64 n = trace_size(u); u32 nn = n_names(u);
        for (u64 i = 0; i < n; i++) { mv = std::max<u64>(mv, p[i].n_vars);
            for (u32 k = 0; k < p[i].n_vars; k++) CHECK(p[i].vars[k].var_name_index < nn && p[i].vars[k].type_name_index < nn, "an accepted trace of %u names has a variable with name %u and type name %u", nn, p[i].vars[k].var_name_index, p[i].vars[k].type_name_index); }
        free_trace_points(p, n);
        o.digest = mix(o.digest, someQueries(db, n_types(u), n, mv, o.results));
        char *s = serialize_trace_db(db); CHECK(s, "serialization failed");
        o.digest = mix(o.digest, hashBytes(s));
        void *db2 = deserialize_trace_db(s); CHECK(db2 && n_traces(db2) == 1, "restoring the serialized database failed");
        CHECK(digestTrace(get_trace(db2, 0)) == d, "the restored database differs");
        free(s); free_db(db2);
    }
    free_db(db);
    if (t) free_trace(t);
    return o;
}
#endif
