// C18, C19: the runtime of the instrumentation, compiled in, writes generated traces that the library reads back.
#include RUNTIME_INC
#include "common_main.hpp"
#include "model.hpp"
#include <atomic>
#include <thread>
#include <sys/stat.h>

static void emitVar(FILE *f, const MTrace & m, const Entry & e) {
    const MType & t = m.types[e.v.type]; const u64 x = e.v.raw; const u32 n = e.v.name, y = e.v.type;
    switch (t.fmt) {
    case F_BLOB: __write_trace_blobs(f, 1, n, y, (u32) e.v.blob.size(), (void *) e.v.blob.data()); break;
    case F_POINTER: __write_trace_variables(f, 1, n, y, t.size, (int) __GT_TRACEDB_POINTER, (void *) x); break;
    case F_FLOAT: if (t.size == 4) { float v; u32 w = (u32) x; memcpy(&v, &w, 4); __write_trace_variables(f, 1, n, y, t.size, (int) __GT_TRACEDB_FLOAT, (double) v); }
                  else { double v; memcpy(&v, &x, 8); __write_trace_variables(f, 1, n, y, t.size, (int) __GT_TRACEDB_FLOAT, v); } break;
    case F_SIGNED: { int k = __GT_TRACEDB_SIGNED;
        if (t.size == 8) __write_trace_variables(f, 1, n, y, t.size, k, (int64_t) x); else __write_trace_variables(f, 1, n, y, t.size, k, t.size == 1 ? (int)(int8_t) x : t.size == 2 ? (int)(int16_t) x : (int)(int32_t) x); break; }
    default: { int k = __GT_TRACEDB_UNSIGNED;
        if (t.size == 8) __write_trace_variables(f, 1, n, y, t.size, k, (uint64_t) x); else if (t.size == 4) __write_trace_variables(f, 1, n, y, t.size, k, (unsigned) x); else __write_trace_variables(f, 1, n, y, t.size, k, (int) x); }
    }
}
static void emitPoint(FILE *f, pthread_mutex_t *l, const MTrace & m, const MPoint & p) {
    __write_trace_id(f, l, p.e[0].a);
    for (size_t k = 1; k < p.e.size(); k++) if (p.e[k].tag == T_SIZE) __write_buffer_size(f, (void *) p.e[k].a, p.e[k].b); else emitVar(f, m, p.e[k]);
    __write_end_entry(f, l);
}
static void emitHeader(FILE *f, pthread_mutex_t *l, const MTrace & m) {
    std::vector<const char *> nm; for (auto & x : m.names) nm.push_back(x.c_str());
    std::vector<__trace_type_description> ty; for (auto & t : m.types) { __trace_type_description d; d.name_index = t.name; d.size = t.size;
        d.format = t.fmt == F_UNSIGNED ? __GT_TRACEDB_UNSIGNED : t.fmt == F_SIGNED ? __GT_TRACEDB_SIGNED : t.fmt == F_FLOAT ? __GT_TRACEDB_FLOAT : t.fmt == F_POINTER ? __GT_TRACEDB_POINTER : __GT_TRACEDB_BLOB; ty.push_back(d); }
    static const char *none[1]; static __trace_type_description nothing[1];
    __write_trace_header(f, l, nm.empty() ? none : nm.data(), nm.size(), ty.empty() ? nothing : ty.data(), ty.size());
}
// Restrict a trace to what the runtime can record.
static void adapt(MTrace & m) {
    for (auto & t : m.types) { if (t.fmt == F_BLOB) t.size = 0; if (t.fmt == F_POINTER) t.size = 8; }
    for (auto & p : m.pts) {
        MPoint q; u64 s = 0; for (auto & e : p.e) if (e.tag == T_STMT) s = e.a; Entry z; z.tag = T_STMT; z.a = s; q.e.push_back(z);
        for (auto & e : p.e) { if (e.tag != T_VAR && e.tag != T_SIZE) continue;
            if (e.tag == T_VAR) { const MType & t = m.types[e.v.type]; if (t.fmt == F_FLOAT && t.size == 4 && (e.v.raw & 0x7f800000) == 0x7f800000 && (e.v.raw & 0x7fffff)) e.v.raw |= 0x400000;   // passing a float quiets it
            }
            q.e.push_back(e); }
        p = q;
    }
}
static FILE *out(Rng & r, const std::string & f, std::vector<char> & buf) {
    FILE *o = fopen(f.c_str(), "w"); if (!o) abort();
    if (r.chance(1, 3)) { buf.resize(r.chance(1, 2) ? r.range(1, 64) : 65536); setvbuf(o, buf.data(), _IOFBF, buf.size()); } else if (r.chance(1, 8)) setvbuf(o, nullptr, _IONBF, 0);
    return o;
}

static void c19(Rng & r, u64 i) {
    MTrace m;
    if (i % 1000 == 607) { m = genHuge(r, i / 1000); S.add("huge_traces"); } else if (i % 40 == 7) m = genBig(r, r.below(7), C.thorough());
    else { GenOpts o; o.blob_large = 70000; o.aux_pct = 0; o.sizes_pct = 25; if (r.chance(1, 10)) { o.points_small = 60; o.points_large = 1500; } if (r.chance(1, 10)) { o.vars_small = 40; o.vars_large = 400; o.points_small = 5; o.points_large = 20; } m = genTrace(r, o); }
    adapt(m); VTrace w = m.view();
    pthread_mutex_t lock; pthread_mutex_init(&lock, nullptr); std::vector<char> buf; std::string f = C.path("t"); FILE *o = out(r, f, buf);
    emitHeader(o, &lock, m); for (auto & p : m.pts) emitPoint(o, &lock, m, p); fclose(o);
    void *t = read_trace(f.c_str(), r.below(3), 0); CHECK(t, "what the runtime recorded (%s) could not be read", describe(m, 0).c_str());
    cmpTrace(t, w, "recorded trace");
    if (r.chance(1, 4)) { void *t2 = read_trace(f.c_str(), 0, 0); CHECK(t2, "second read failed"); free_trace(t); t = t2; cmpTrace(t, w, "second read"); }
    if (r.chance(1, 3)) {
        void *db = create_db(); u32 at = 0;
        if (r.chance(1, 2)) { MTrace m2 = genTrace(r); std::string f2 = C.path("u"); writeFile(f2, encode(m2)); CHECK(add_trace(db, f2.c_str(), 0, 0), "add_trace of a well-formed trace failed"); at = 1; }
        CHECK(add_trace(db, f.c_str(), r.below(3), 0), "what the runtime recorded could not be added"); cmpTrace(get_trace(db, at), w, "recorded trace added"); S.add("through_database"); free_db(db);
    }
    free_trace(t); countTrace(m); S.add("traces_recorded_in_process"); S.add("points_recorded", m.pts.size());
    if (m.pts.size() > 1) S.nontrivial(hashBytes(encode(m)));
}

static void c18(Rng & r, u64 i) {
    GenOpts o; o.aux_pct = 0; o.sizes_pct = 15; o.points_small = 6; o.points_large = i % 20 == 3 ? 400 : 40; o.names_large = 12; o.types_large = 12; if (i % 16 == 5) o.blob_large = 70000; else o.blob_large = 600;
    unsigned n = r.range(1, 6); Gen g(r, o); g.header(); std::vector<std::vector<MPoint>> pts(n); MTrace m = g.t;
    for (unsigned k = 0; k < n; k++) { g.points(r.heavy(o.points_small, o.points_large)); MTrace a = g.t; adapt(a); m.types = a.types; pts[k] = a.pts; for (size_t x = 0; x < pts[k].size(); x++) pts[k][x].e[0].a = ((u64)(k + 1) << 40 | x) * (r.chance(1, 2) ? 1 : 1) ; g.t.pts.clear(); }
    pthread_mutex_t lock; pthread_mutex_init(&lock, nullptr); std::vector<char> buf; std::string f = C.path("t"); FILE *out_ = out(r, f, buf);
    emitHeader(out_, &lock, m);
    std::atomic<int> go(0); std::vector<std::thread> th; bool alone = r.chance(1, 8);
    for (unsigned k = 0; k < n; k++) { u64 sd = r.next(); th.emplace_back([&, k, sd] { Rng q(sd); go++; while (go < (int) n) sched_yield();
        for (auto & p : pts[k]) { if (alone) { FILE *x = out_; __write_trace_id(x, &lock, p.e[0].a); sched_yield(); for (size_t z = 1; z < p.e.size(); z++) { if (p.e[z].tag == T_SIZE) __write_buffer_size(x, (void *) p.e[z].a, p.e[z].b); else emitVar(x, m, p.e[z]); if (q.chance(1, 3)) sched_yield(); } __write_end_entry(x, &lock); }
            else emitPoint(out_, &lock, m, p); if (q.chance(1, 4)) sched_yield(); } }); }
    for (auto & t : th) t.join();
    fclose(out_);
    // the order of the points, from the statement ids the library shows
    void *t = read_trace(f.c_str(), 0, 0); CHECK(t, "the file of %u recording threads could not be read", n);
    u64 total = trace_size(t); CPoint *c = get_points(t); std::vector<size_t> next(n, 0); u64 want = 0, switches = 0, sig = 0; unsigned last = ~0u; for (auto & p : pts) want += p.size();
    for (u64 k = 0; k < total; k++) { u64 s = c[k].statement, th = s >> 40, x = s & ((1ULL << 40) - 1); CHECK(th >= 1 && th <= n && x < pts[th - 1].size(), "point %llu has statement %llx, which no thread recorded", (unsigned long long) k, (unsigned long long) s);
        CHECK(next[th - 1] == x, "point %llu is number %llu of thread %llu, expected number %zu", (unsigned long long) k, (unsigned long long) x, (unsigned long long) th, next[th - 1]); next[th - 1]++; m.pts.push_back(pts[th - 1][x]); if (th != last) { switches++; sig = mix(sig, mix(th, k)); } last = th; }
    CHECK(total == want, "%llu points in the file of %u threads that recorded %llu", (unsigned long long) total, n, (unsigned long long) want);
    free_trace_points(c, total); cmpTrace(t, m.view(), "recorded by threads"); free_trace(t);
    Layout L; std::string b = encode(m, &L), real; { struct stat st; if (stat(f.c_str(), &st)) abort(); real.resize(st.st_size); FILE *x = fopen(f.c_str(), "r"); if (fread(&real[0], 1, real.size(), x) != real.size()) abort(); fclose(x); }
    CHECK(real == b, "the bytes recorded by %u threads are not those of whole points", n);
    S.add("threads", n); S.add("points_by_threads", total); S.add("thread_switches", switches); if (n > 1 && switches > n) S.add("interleaved_files");
    // a kill at any byte
    std::vector<size_t> cuts; if (b.size() < 1200) for (size_t k = 0; k <= b.size(); k++) cuts.push_back(k); else { for (int k = 0; k < 60; k++) cuts.push_back(r.below(b.size() + 1)); for (int k = 0; k < 20 && !L.pointEnd.empty(); k++) { size_t e = r.pick(L.pointEnd); cuts.push_back(e); if (e < b.size()) cuts.push_back(e + 1); cuts.push_back(e - 1); if (!L.entryEnd.empty()) cuts.push_back(r.pick(L.entryEnd)); } for (size_t k = 4096; k < b.size() && k < 40960; k += 4096) cuts.push_back(k); }
    std::sort(cuts.begin(), cuts.end(), std::greater<size_t>()); VTrace w = m.view(); u64 tot = 0; void *db = create_db(); u32 added = 0;
    for (size_t cut : cuts) {
        if (truncate(f.c_str(), cut)) abort();
        size_t done = std::upper_bound(L.pointEnd.begin(), L.pointEnd.end(), cut) - L.pointEnd.begin(); bool whole = done && L.pointEnd[done - 1] == cut; bool viaDb = r.chance(1, 20);
        const void *z; void *own = nullptr; if (viaDb) { z = add_trace(db, f.c_str(), 0, 0) ? get_trace(db, added++) : nullptr; } else z = own = read_trace(f.c_str(), 0, 0);
        S.add(cut < L.header ? "kills_in_header" : whole ? "kills_between_points" : "kills_in_point");
        if (whole) CHECK(z, "killed at byte %zu of %zu, after %zu complete points: the file was rejected", cut, b.size(), done);
        if (z && cut >= L.header) { VTrace v = w; v.pts.resize(done); cmpTrace(z, v, "killed program's file"); tot++; }
        else if (z) CHECK(trace_size(z) == 0, "killed at byte %zu, inside the header, and %llu points read", cut, (unsigned long long) trace_size(z));
        if (own) free_trace(own);
    }
    free_db(db); S.add("files_of_killed_programs_read", tot); if (total > 1) S.nontrivial(mix(hashBytes(b), sig));
}

int main(int argc, char **argv) { return caseMain(argc, argv, {{"C19R", c19}, {"C18R", c18}}); }
