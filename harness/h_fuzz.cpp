// C04: arbitrary bytes.
#include "common_main.hpp"
#include "fuzz_core.hpp"
#include <malloc.h>

static u64 anyInt(Rng & r) {
    static const u64 v[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 127, 128, 255, 256, 4096, 65535, 65536, 0x7fffffff, 0x80000000u, 0xfffffffe, 0xffffffffu, 0x100000000ULL, 1ULL << 40, 1ULL << 62, (1ULL << 63) - 1, 1ULL << 63, UINT64_MAX - 1, UINT64_MAX};
    return r.chance(3, 4) ? v[r.below(sizeof v / sizeof *v)] : r.next() >> r.below(64);
}
static void poke(std::string & b, size_t at, u64 v, unsigned n) { for (unsigned i = 0; i < n && at + i < b.size(); i++) b[at + i] = (char) (v >> (8 * i)); }

struct Fields { std::vector<std::pair<size_t, unsigned>> f; };   // offsets of integers in an encoded trace
static Fields fields(const MTrace & m) {
    Fields o; size_t p = 0; o.f.push_back({0, 8}); p = 8; for (auto & n : m.names) p += n.size() + 1;
    o.f.push_back({p, 4}); p += 4;
    for (size_t i = 0; i < m.types.size(); i++) { for (int k = 0; k < 3; k++) { o.f.push_back({p, 4}); p += 4; } }
    for (auto & q : m.pts) {
        for (auto & e : q.e) {
            o.f.push_back({p, 1}); p++;
            switch (e.tag) {
            case T_STMT: case T_AUX: o.f.push_back({p, 8}); p += 8; break;
            case T_SIZE: o.f.push_back({p, 8}); o.f.push_back({p + 8, 8}); p += 16; break;
            case T_VAR: o.f.push_back({p, 4}); o.f.push_back({p + 4, 4}); p += 8; { const MType & t = m.types[e.v.type]; if (t.fmt == F_BLOB) { if (!t.size) { o.f.push_back({p, 4}); p += 4; } p += e.v.blob.size(); } else { o.f.push_back({p, t.size}); p += t.size; } }
            }
        }
        o.f.push_back({p, 1}); p++;
    }
    return o;
}

static std::string hostile(Rng & r, const char *&kind) {
    GenOpts o; o.points_small = 5; o.points_large = 15; o.blob_large = 300; o.vars_large = 10; o.names_large = 12; o.types_large = 10;
    if (r.chance(1, 12)) { kind = "inputs_random_bytes"; std::string s(r.heavy(64, 3000), 0); for (auto & c : s) c = r.chance(1, 2) ? (char) r.next() : (char) r.below(6); return s; }
    MTrace m = genTrace(r, o);
    if (r.chance(1, 6)) { // consistent encoding of an inconsistent trace
        kind = "inputs_inconsistent_header"; for (auto & t : m.types) if (r.chance(1, 3)) switch (r.below(3)) { case 0: t.name = anyInt(r); break; case 1: t.fmt = anyInt(r); break; default: { u32 s = r.below(20); t.size = s; } }
        std::string s; u64 n = 0; for (auto & x : m.names) n += x.size() + 1; put(s, n); for (auto & x : m.names) { s += x; s.push_back(0); } put(s, (u32) m.types.size());
        for (auto & t : m.types) { put(s, t.name); put(s, t.fmt); put(s, t.size); }
        for (auto & p : m.pts) { for (auto & e : p.e) { if (e.tag == T_VAR) { s.push_back(T_VAR); put(s, e.v.name); put(s, e.v.type); u32 z = m.types[e.v.type].size; if (z > 64) z = 64; for (u32 i = 0; i < z; i++) s.push_back((char) r.next()); } else encodeEntry(s, e, m.types); } s.push_back(T_END); }
        return s;
    }
    std::string b = encode(m); Fields f = fields(m);
    kind = "inputs_mutated";
    unsigned k = r.chance(1, 20) ? 0 : r.range(1, 4);
    if (!k) kind = "inputs_valid";
    for (unsigned q = 0; q < k; q++) switch (r.below(12)) {
        case 0: case 1: case 2: case 3: { auto x = r.pick(f.f); poke(b, x.first, anyInt(r), x.second); break; }
        case 4: { auto x = r.pick(f.f); u64 v = 0; for (unsigned i = 0; i < x.second && x.first + i < b.size(); i++) v |= (u64)(u8) b[x.first + i] << (8 * i); poke(b, x.first, v + r.below(5) - 2, x.second); break; }
        case 5: if (!b.empty()) b[r.below(b.size())] ^= 1 << r.below(8); break;
        case 6: if (!b.empty()) b[r.below(b.size())] = (char) r.next(); break;
        case 7: b.resize(r.below(b.size() + 1)); break;
        case 8: b.insert(r.below(b.size() + 1), 1, (char) (r.chance(1, 2) ? r.below(7) : r.next())); break;
        case 9: if (b.size() > 2) { size_t x = r.below(b.size()), n = r.below(std::min<size_t>(40, b.size() - x)); std::string c = b.substr(x, n); b.insert(r.below(b.size() + 1), c); } break;
        case 10: if (b.size() > 2) { size_t x = r.below(b.size()); b.erase(x, r.below(std::min<size_t>(20, b.size() - x)) + 1); } break;
        default: { MTrace m2 = genTrace(r, o); std::string c = encode(m2); b = b.substr(0, r.below(b.size() + 1)) + c.substr(r.below(c.size() + 1)); }
    }
    return b;
}

static void c04(Rng & r, u64 i) {
    const char *kind = ""; std::string b = hostile(r, kind), f = C.path("t");
    u64 limit = r.chance(1, 6) ? r.range(1, 6) : 0;
    if (i % 300 == 17) { // things that are no regular trace file
        kind = "inputs_no_file"; std::string d = C.path("dir"); mkdir(d.c_str(), 0700);
        for (const std::string & p : {d, std::string("/dev/null"), C.path("missing"), std::string(), d + "/x/y", std::string(5000, 'a')}) { Outcome o = exercise(p.c_str(), 1, 0); CHECK(!o.accepted, "'%.40s' was read as a trace", p.c_str()); }
        rmdir(d.c_str());
    }
    writeFile(f, b);
#ifndef VERIF_NEW
    mallopt(M_PERTURB, 0x55);
#endif
    scribbleStack(0xaa); Outcome a = exercise(f.c_str(), r.below(2), limit);
#ifndef VERIF_NEW
    mallopt(M_PERTURB, 0xc3);
#endif
    scribbleStack(0x3c); Outcome c = exercise(f.c_str(), 0, limit);
    CHECK(a.accepted == c.accepted, "the same bytes were %s the first and %s the second time", a.accepted ? "accepted" : "rejected", c.accepted ? "accepted" : "rejected");
    CHECK(a.digest == c.digest && a.points == c.points && a.results == c.results, "the same bytes gave different content on two reads");
    S.add(kind); S.add(a.accepted ? "accepted" : "rejected"); S.add("query_results", a.results); if (a.accepted) S.add("points_in_accepted", a.points);
    S.nontrivial(hashBytes(b));
    S.sample(fmt("%s, %zu bytes, %s, %llu points", kind, b.size(), a.accepted ? "accepted" : "rejected", (unsigned long long) a.points));
}
// ---------------------------------------------------------------- C25: an independent decoder of the format
struct Decoder {
    const std::string & b; size_t p = 0; const char *why = ""; bool cut = false;
    Decoder(const std::string & b) : b(b) {}
    template<class T> bool get(T & v) { if (b.size() - p < sizeof v) { why = "cut"; return false; } memcpy(&v, b.data() + p, sizeof v); p += sizeof v; return true; }
    bool bad(const char *w) { why = w; return false; }
    bool decode(u64 limit, MTrace & m) {
        u64 n; if (!get(n)) return false;
        if (n) {
            if (n > b.size() - p) return bad("cut");
            if (b[p + n - 1]) return bad("unterminated dictionary");
            size_t e = p + n; while (p < e) { std::string s(b.c_str() + p); p += s.size() + 1; m.names.push_back(s); }
        }
        u32 nt; if (!get(nt)) return false;
        for (u32 i = 0; i < nt; i++) { MType t; if (!get(t.name) || !get(t.fmt) || !get(t.size)) return false;
            if (t.fmt > F_BLOB) return bad("type format"); if (t.name >= m.names.size()) return bad("type name"); m.types.push_back(t); }
        while (limit == 0 || m.pts.size() < limit) {
            MPoint q; bool end = false;
            while (!end) {
                u8 tag; if (p == b.size()) { cut = !q.e.empty(); return true; }
                get(tag); Entry e; e.tag = tag;
                switch (tag) {
                case T_END: end = true; continue;
                case T_STMT: case T_AUX: if (!get(e.a)) return false; break;
                case T_SIZE: if (!get(e.a) || !get(e.b)) return false; break;
                case T_VAR: {
                    if (!get(e.v.name) || !get(e.v.type)) return false;
                    if (e.v.type >= m.types.size()) return bad("type index"); if (e.v.name >= m.names.size()) return bad("name index");
                    const MType & t = m.types[e.v.type]; u32 z = t.size;
                    if (t.fmt == F_BLOB) { if (!z && !get(z)) return false; if (z > b.size() - p) return bad("cut"); e.v.blob = b.substr(p, z); p += z; break; }
                    bool ok = z == 8 || z == 4 || ((z == 1 || z == 2) && (t.fmt == F_SIGNED || t.fmt == F_UNSIGNED));
                    if (!ok) return bad("size of value"); if (z > b.size() - p) return bad("cut");
                    memcpy(&e.v.raw, b.data() + p, z); p += z; break; }
                default: return bad("tag");
                }
                q.e.push_back(e);
            }
            m.pts.push_back(q);
        }
        return true;
    }
};
// One departure from the format, everything else consistent.
static std::string nearMiss(Rng & r) {
    GenOpts o; o.points_small = 4; o.points_large = 10; o.blob_large = 200; o.vars_large = 8; o.names_large = 6; o.types_large = 6; o.allow_no_names = false;
    MTrace m = genTrace(r, o); if (m.pts.empty()) { Gen g(r, o); g.t = m; g.points(2); m = g.t; }
    std::string s, name; u64 n = 0; for (auto & x : m.names) n += x.size() + 1;
    unsigned k = r.below(9); u32 over = r.chance(2, 3) ? 0 : (u32) r.below(3) + 1; if (r.chance(1, 6)) over = 0x7fffffff; 
    if (k <= 3 && m.types.empty()) k = 7;
    u32 vt = m.types.empty() ? 0 : r.below(m.types.size());
    switch (k) {
    case 0: m.types[vt].name = m.names.size() + over; break;
    case 1: m.types[vt].fmt = F_BLOB + 1 + over; break;
    case 2: m.types[vt].size = (u32) r.below(18); break;
    default: break;
    }
    put(s, n); for (auto & x : m.names) { s += x; s.push_back(0); }
    if (k == 8 && s.size() > 8) { s.back() = 'x'; }
    put(s, (u32) m.types.size()); for (auto & t : m.types) { put(s, t.name); put(s, t.fmt); put(s, t.size); }
    size_t at = r.below(m.pts.size());
    for (size_t i = 0; i < m.pts.size(); i++) {
        auto & p = m.pts[i]; size_t ea = p.e.empty() ? 0 : r.below(p.e.size());
        if (i == at && k == 7) { s.push_back((char) (r.chance(1, 2) ? 5 : r.range(6, 255))); }
        for (size_t j = 0; j < p.e.size(); j++) { auto & e = p.e[j];
            if (e.tag != T_VAR) { encodeEntry(s, e, m.types); continue; }
            const MType & t = m.types[e.v.type]; bool here = i == at && j >= ea; if (here) ea = p.e.size();
            s.push_back(T_VAR); put(s, here && k == 5 ? (u32) m.names.size() + over : e.v.name); put(s, here && k == 6 ? (u32) m.types.size() + over : e.v.type);
            if (t.fmt == F_BLOB) { e.v.blob.resize(t.size ? t.size : e.v.blob.size()); if (!t.size) put(s, (u32) e.v.blob.size()); s += e.v.blob; }
            else for (u32 z = 0; z < t.size; z++) s.push_back((char) r.next()); }
        s.push_back(T_END);
    }
    if (k == 4 && !s.empty()) s.resize(r.below(s.size()));
    return s;
}
static void c25(Rng & r, u64 i) {
    const char *kind = "inputs_one_departure"; std::string b = r.chance(1, 2) ? nearMiss(r) : hostile(r, kind), f = C.path("t");
    u64 limit = r.chance(1, 6) ? r.range(1, 6) : 0; writeFile(f, b);
    MTrace m; Decoder d(b); bool ok = d.decode(limit, m);
    void *t = read_trace(f.c_str(), 0, limit);
    CHECK(!t == !ok, "%zu bytes (%s) that %s the format were %s", b.size(), kind, ok ? "follow" : (std::string("violate (") + d.why + ")").c_str(), t ? "accepted" : "rejected");
    // a buffer of 2^64-1 bytes, ending at the largest address or beyond, is not told from an unknown one: not judged
    bool odd = false; for (auto & p : m.pts) for (auto & e : p.e) odd |= e.tag == T_SIZE && e.b == UINT64_MAX; if (odd) S.add("content_not_judged");
    if (t) { if (!odd) cmpTrace(t, m.view(), "read_trace"); free_trace(t); }
    void *db = create_db(); int a = add_trace(db, f.c_str(), 0, limit);
    CHECK(!a == !ok, "add_trace %s %zu bytes (%s) that %s the format", a ? "accepted" : "rejected", b.size(), kind, ok ? "follow" : "violate");
    CHECK(n_traces(db) == (ok ? 1u : 0u), "%u traces", n_traces(db));
    if (a && !odd) cmpTrace(get_trace(db, 0), m.view(), "add_trace");
    free_db(db);
    S.add(kind); if (ok) { S.add(d.cut ? "accepted_cut_between_entries" : "accepted"); S.add("points_in_accepted", m.pts.size()); } else { std::string w = std::string("rejected_") + d.why; for (auto & c : w) if (c == ' ') c = '_'; S.add(w.c_str()); }
    S.nontrivial(hashBytes(b)); S.sample(fmt("%s, %zu bytes, %s %s", kind, b.size(), ok ? "accepted" : "rejected", d.why));
}
int main(int c, char **v) { return caseMain(c, v, {{"C04", c04}, {"C25", c25}}); }
