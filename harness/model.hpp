// Independent model of traces: content, generator, encoder and the expected view.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP
#include "common.hpp"
#include "capi.hpp"

struct MType { u32 name, fmt, size; };
struct MVar { u32 name = 0, type = 0; u64 raw = 0; std::string blob; };
struct Entry { int tag = T_AUX; u64 a = 0, b = 0; MVar v; };
struct MPoint { std::vector<Entry> e; };          // entries in stream order

// What a client should see.
struct VVar {
    u64 value = 0; u32 fmt = 0, name = 0, type = 0, tname = 0, size = 0; u64 bsize = 0; bool has = false; std::string blob;
    bool sameValue(const VVar & o) const {
        if (fmt == F_BLOB) return blob == o.blob;
        if (fmt == F_FLOAT && size == 4) return (u32) value == (u32) o.value;
        return value == o.value;
    }
    // equality of everything observable at the C interface
    bool sameC(const VVar & o) const {
        return fmt == o.fmt && name == o.name && tname == o.tname && size == o.size && has == o.has &&
               (!has || bsize == o.bsize) && sameValue(o);
    }
    bool same(const VVar & o) const { return type == o.type && sameC(o); }
    std::string str() const {
        return fmt == F_BLOB ? fmt_blob() : ::fmt("{name %u type %u(name %u) fmt %u size %u value %llx buf %d/%llu}", name, type, tname,
            fmt, size, (unsigned long long) value, (int) has, (unsigned long long) bsize);
    }
    std::string fmt_blob() const { return ::fmt("{name %u type %u(name %u) blob size %u hash %llx}", name, type, tname, size, (unsigned long long) hashBytes(blob)); }
    u64 hash() const {
        u64 h = mix(fmt, name); h = mix(h, tname); h = mix(h, size); h = mix(h, has ? bsize + 1 : 0);
        return mix(h, fmt == F_BLOB ? hashBytes(blob) : (fmt == F_FLOAT && size == 4) ? (u32) value : value);
    }
};
struct VPoint {
    u64 stmt = 0; std::vector<VVar> vars; std::vector<u64> aux; std::vector<std::pair<u64, u64>> sizes;
};
struct VTrace { std::vector<std::string> names; std::vector<std::string> types; std::vector<VPoint> pts; };

// Reference memory map.
struct RefMap {
    std::map<u64, u64> m;
    void update(u64 a, u64 s) { if (a == UINT64_MAX) return; if (s == 0) m.erase(a); else m[a] = s; }
    bool lookup(u64 a, u64 & r) const {
        if (a == UINT64_MAX) return false;
        auto it = m.upper_bound(a);
        if (it == m.begin()) return false;
        --it;
        u64 off = a - it->first;
        if (off > it->second) return false;
        r = it->second - off;
        return true;
    }
};

struct MTrace {
    std::vector<std::string> names; std::vector<MType> types; std::vector<MPoint> pts;

    VVar viewVar(const MVar & v, const RefMap & m) const {
        const MType & t = types[v.type];
        VVar o; o.fmt = t.fmt; o.name = v.name; o.type = v.type; o.tname = t.name; o.size = t.size;
        switch (t.fmt) {
        case F_SIGNED:
            o.value = t.size == 1 ? (u64)(i64)(int8_t) v.raw : t.size == 2 ? (u64)(i64)(int16_t) v.raw :
                      t.size == 4 ? (u64)(i64)(int32_t) v.raw : v.raw; break;
        case F_BLOB: o.blob = v.blob; o.size = v.blob.size(); break;
        default:
            o.value = t.size == 8 ? v.raw : v.raw & ((1ULL << (8 * t.size)) - 1);
            if (t.fmt == F_POINTER) o.has = m.lookup(o.value, o.bsize);
        }
        return o;
    }
    VPoint viewPoint(const MPoint & p, RefMap & m) const {
        VPoint o;
        for (auto & e : p.e) switch (e.tag) {
            case T_STMT: o.stmt = e.a; break;
            case T_SIZE: m.update(e.a, e.b); o.sizes.push_back({e.a, e.b}); break;
            case T_AUX: o.aux.push_back(e.a); break;
            case T_VAR: o.vars.push_back(viewVar(e.v, m)); break;
        }
        return o;
    }
    VTrace view(u64 limit = 0) const {
        VTrace o; o.names = names;
        for (auto & t : types) o.types.push_back(names[t.name]);
        RefMap m;
        for (size_t i = 0; i < pts.size() && (limit == 0 || i < limit); i++) o.pts.push_back(viewPoint(pts[i], m));
        return o;
    }
};

template<class T> inline void put(std::string & s, T v) { s.append((const char *) &v, sizeof v); }

struct Layout { size_t header = 0; std::vector<size_t> pointEnd; std::vector<size_t> entryEnd; /* offsets of entry boundaries inside points */ };

inline void encodeEntry(std::string & s, const Entry & e, const std::vector<MType> & types) {
    s.push_back((char) e.tag);
    switch (e.tag) {
    case T_STMT: case T_AUX: put(s, e.a); break;
    case T_SIZE: put(s, e.a); put(s, e.b); break;
    case T_VAR: {
        put(s, e.v.name); put(s, e.v.type);
        const MType & t = types[e.v.type];
        if (t.fmt == F_BLOB) { if (t.size == 0) put(s, (u32) e.v.blob.size()); s += e.v.blob; }
        else s.append((const char *) &e.v.raw, t.size);
        break; }
    }
}
inline std::string encode(const MTrace & t, Layout *L = nullptr) {
    std::string s; u64 n = 0;
    for (auto & x : t.names) n += x.size() + 1;
    put(s, n);
    for (auto & x : t.names) { s += x; s.push_back(0); }
    put(s, (u32) t.types.size());
    for (auto & x : t.types) { put(s, x.name); put(s, x.fmt); put(s, x.size); }
    if (L) L->header = s.size();
    for (auto & p : t.pts) {
        for (auto & e : p.e) { encodeEntry(s, e, t.types); if (L) L->entryEnd.push_back(s.size()); }
        s.push_back(T_END);
        if (L) L->pointEnd.push_back(s.size());
    }
    return s;
}

// ---------------------------------------------------------------- generator
struct GenOpts {
    u64 points_small = 12, points_large = 200;
    u64 vars_small = 4, vars_large = 40;
    u64 names_small = 8, names_large = 60;
    u64 types_small = 8, types_large = 40;
    u64 blob_large = 9000;
    bool odd_names = true;       // arbitrary bytes in names
    bool blobs = true;
    bool unique_types = false;   // type identity visible through (name, format, size)
    bool allow_no_names = true;
    unsigned sizes_pct = 20, aux_pct = 15;
    bool stmt_pool_small = false;
};

struct Gen {
    Rng & r; GenOpts o; MTrace t;
    std::vector<u64> vpool, addrs, ends, stmts;
    std::vector<std::string> bpool;
    Gen(Rng & r, const GenOpts & o) : r(r), o(o) {}

    static u64 boundary(Rng & r) {
        unsigned k = r.below(65);
        u64 b = k == 64 ? 0 : 1ULL << k;
        return b + r.below(3) - 1;
    }
    static u64 interesting(Rng & r) {
        switch (r.below(9)) {
        case 0: return r.below(4);
        case 1: return (u64) -(i64) r.below(4);
        case 2: return boundary(r);
        case 3: return ~boundary(r);
        case 4: return r.below(256);
        case 5: return r.below(65536);
        case 6: return (u64)(u32) r.next();
        default: return r.next();
        }
    }
    static u64 dbl(double d) { u64 u; memcpy(&u, &d, 8); return u; }
    static u64 flt(float d) { u32 u; memcpy(&u, &d, 4); return u; }
    static u64 floatBits(Rng & r, unsigned size) {
        static const double ds[] = {0.0, -0.0, 0.5, 1, -1, 1.5, 2, 3.25, 0.1, -0.1, 1e10, 1e-10, 3.4028234663852886e38,
            1.1754943508222875e-38, 1.401298464324817e-45, 1.7976931348623157e308, 5e-324, 16777216, 16777217, 9007199254740993.0,
            9223372036854775808.0, 18446744073709551616.0, 1e300, 1.0/0.0, -1.0/0.0, 0.0/0.0, 123456.789};
        double d;
        switch (r.below(4)) {
        case 0: case 1: d = ds[r.below(sizeof ds / sizeof *ds)]; break;
        case 2: d = (double)(i64)(r.below(2001)) - 1000; if (r.chance(1, 2)) d /= 8; break;
        default: return size == 4 ? (u32) r.next() : r.next();
        }
        return size == 4 ? flt((float) d) : dbl(d);
    }
    std::string name() {
        std::string s; u64 n = r.chance(1, 40) ? r.range(100, 5000) : r.below(12);
        if (n == 0 && !r.chance(1, 3)) n = 1;
        bool odd = o.odd_names && r.chance(1, 6);
        for (u64 i = 0; i < n; i++) s.push_back(odd ? (char) r.range(1, 255) : (char) ("abcdefghijklmnopqrstuvwxyz_0123456789 *[]:"[r.below(42)]));
        return s;
    }
    std::string blob(u64 n) {
        std::string s(n, 0);
        switch (r.below(3)) {
        case 0: for (auto & c : s) c = (char) r.next(); break;
        case 1: for (auto & c : s) c = (char) r.range(32, 126); break;
        default: { char f = (char) r.next(); for (auto & c : s) c = f; if (n) s[r.below(n)] ^= 1; }
        }
        return s;
    }
    void header() {
        u64 nn = r.heavy(o.names_small, o.names_large);
        if (nn == 0 && !(o.allow_no_names && r.chance(1, 20))) nn = 1;
        for (u64 i = 0; i < nn; i++) {
            if (i && r.chance(1, 15)) t.names.push_back(t.names[r.below(i)]);
            else t.names.push_back(name());
        }
        // a dictionary of a single empty name is "\0"; fine
        if (nn) {
            u64 nt = r.heavy(o.types_small, o.types_large);
            if (nt == 0 && !r.chance(1, 10)) nt = 1;
            std::set<std::pair<u32, u32>> seen;
            for (u64 i = 0; i < nt; i++) { MType x = type(); 
                if (o.unique_types) { if (!seen.insert({x.name, x.fmt * 100 + (x.fmt == F_BLOB ? 0 : x.size)}).second) continue; }
                t.types.push_back(x); }
        }
    }
    MType type() {
        if (t.names.empty()) t.names.push_back("t");
        MType x; x.name = r.below(t.names.size());
        static const u32 iw[] = {1, 2, 4, 8};
        switch (r.below(o.blobs ? 5 : 4)) {
        case 0: x.fmt = F_UNSIGNED; x.size = iw[r.below(4)]; break;
        case 1: x.fmt = F_SIGNED; x.size = iw[r.below(4)]; break;
        case 2: x.fmt = F_FLOAT; x.size = r.chance(1, 2) ? 4 : 8; break;
        case 3: x.fmt = F_POINTER; x.size = r.chance(1, 6) ? 4 : 8; break;
        default: x.fmt = F_BLOB; x.size = r.chance(1, 2) ? 0 : (u32) r.range(1, r.chance(1, 10) ? 5000 : 40);
        }
        return x;
    }
    u64 addr() {
        if (!addrs.empty() && r.chance(3, 4)) return r.pick(addrs);
        u64 a;
        switch (r.below(8)) {
        case 0: a = interesting(r); break;
        case 1: a = UINT64_MAX - r.below(40); break;
        case 2: a = r.below(64); break;
        default: a = 0x10000 + 8 * r.below(64);
        }
        addrs.push_back(a);
        return a;
    }
    u64 pointerValue() {
        switch (r.below(7)) {
        case 0: return interesting(r);
        case 6: if (!ends.empty()) return r.pick(ends); // falls through
        case 1: return addr() + r.below(40);
        case 2: return addr() - r.below(3);
        default: return addr();
        }
    }
    MVar var() {
        MVar v; v.type = r.below(t.types.size()); v.name = r.below(t.names.size());
        value(v); return v;
    }
    void value(MVar & v) {
        const MType & x = t.types[v.type];
        if (x.fmt == F_BLOB) {
            if (x.size) v.blob = blob(x.size);
            else if (!bpool.empty() && r.chance(1, 3)) v.blob = r.pick(bpool);
            else {
                u64 n;
                static const u32 edge[] = {255, 256, 4095, 4096, 4097, 8191, 8192, 65535, 65536};
                if (r.chance(1, 40)) n = std::min<u64>(edge[r.below(9)], o.blob_large);
                else n = r.heavy(6, std::min<u64>(o.blob_large, 600));
                v.blob = blob(n);
                bpool.push_back(v.blob);
            }
            return;
        }
        if (x.fmt == F_POINTER) v.raw = pointerValue();
        else if (x.fmt == F_FLOAT) v.raw = floatBits(r, x.size);
        else if (!vpool.empty() && r.chance(1, 3)) { v.raw = r.pick(vpool); if (r.chance(1, 4)) v.raw ^= 1ULL << r.below(64); }
        else { v.raw = interesting(r); vpool.push_back(v.raw); }
        if (x.size < 8) v.raw &= (1ULL << (8 * x.size)) - 1;
    }
    Entry sizeEntry() {
        Entry e; e.tag = T_SIZE; e.a = addr();
        switch (r.below(6)) {
        case 0: case 1: e.b = 0; break;
        case 2: e.b = interesting(r); if (e.b == UINT64_MAX) e.b--; break;
        default: e.b = r.range(1, 64);
        }
        if (e.b) ends.push_back(e.a + e.b);
        return e;
    }
    u64 stmt() {
        if (!stmts.empty() && r.chance(o.stmt_pool_small ? 4 : 1, o.stmt_pool_small ? 5 : 2)) return r.pick(stmts);
        u64 s = o.stmt_pool_small ? (r.chance(1, 8) ? interesting(r) : r.below(8) | (r.chance(1, 3) ? (1ULL << 63) | (r.below(4) << 40) : 0)) : interesting(r);
        stmts.push_back(s); return s;
    }
    MPoint freshPoint() {
        MPoint p; Entry s; s.tag = T_STMT; s.a = stmt(); p.e.push_back(s);
        if (r.chance(1, 12)) return p;
        u64 n = r.heavy(o.vars_small, o.vars_large);
        for (u64 i = 0; i < n; i++) {
            u64 k = r.below(100); Entry e;
            if (k < o.sizes_pct) e = sizeEntry();
            else if (k < o.sizes_pct + o.aux_pct) { e.tag = T_AUX; e.a = interesting(r); }
            else if (!t.types.empty()) { e.tag = T_VAR; e.v = var(); }
            else { e.tag = T_AUX; e.a = r.below(3); }
            p.e.push_back(e);
        }
        if (r.chance(1, 50)) { // long
            unsigned what = r.below(r.chance(1, 3) ? 3 : 2); u64 k = r.chance(1, 6) ? r.range(250, 300) : r.range(12, 80);
            for (; k; k--) { Entry e; if (what == 0) { e.tag = T_AUX; e.a = interesting(r); } else if (what == 1) e = sizeEntry(); else if (!t.types.empty()) { e.tag = T_VAR; e.v = var(); if (t.types[e.v.type].fmt == F_BLOB && e.v.blob.size() > 1000) continue; } else continue; p.e.push_back(e); }
        }
        if (r.chance(1, 12)) std::rotate(p.e.begin(), p.e.begin() + 1, p.e.end());   // statement id recorded last
        else if (r.chance(1, 12)) p.e.erase(p.e.begin());                             // no statement id: 0
        return p;
    }
    // Change one component only.
    void nudge(MPoint & p) {
        if (p.e.empty()) return;
        Entry & e = p.e[r.below(p.e.size())];
        switch (e.tag) {
        case T_STMT: e.a ^= 1ULL << r.below(64); break;
        case T_AUX: e.a ^= 1ULL << r.below(64); break;
        case T_SIZE: if (r.chance(1, 2)) e.b = e.b ? 0 : 5; else e.b = e.b + 1 == UINT64_MAX ? 7 : e.b + 1; break;
        case T_VAR:
            switch (r.below(3)) {
            case 0: e.v.name = r.below(t.names.size()); break;
            case 1: { u32 old = e.v.type; for (u32 i = 0; i < t.types.size(); i++) { u32 k = (old + 1 + i) % t.types.size();
                        if (t.types[k].fmt == t.types[old].fmt && t.types[k].size == t.types[old].size) { e.v.type = k; break; } } break; }
            default:
                if (t.types[e.v.type].fmt == F_BLOB) { if (!e.v.blob.empty()) e.v.blob[r.below(e.v.blob.size())] ^= 1 << r.below(8);
                                                       else if (!t.types[e.v.type].size) e.v.blob = "x"; }
                else e.v.raw ^= 1ULL << r.below(8 * t.types[e.v.type].size);
            }
        }
    }
    void points(u64 n) {
        for (u64 i = 0; i < n; i++) {
            if (!t.pts.empty() && r.chance(1, 3)) {
                MPoint p = t.pts[r.below(t.pts.size())];
                if (r.chance(1, 2)) nudge(p);
                else if (r.chance(1, 3)) { for (auto & e : p.e) if (e.tag == T_STMT) e.a = stmt(); }
                else if (r.chance(1, 3) && p.e.size() > 2) std::swap(p.e[1], p.e[p.e.size() - 1]);
                else if (r.chance(1, 4) && p.e.size() > 1) { for (size_t k = 0; k < p.e.size(); k++) if (p.e[k].tag == T_STMT) { p.e.erase(p.e.begin() + k); break; } }
                t.pts.push_back(p);
            } else { t.pts.push_back(freshPoint()); if (t.pts.back().e.size() > 12 && r.chance(1, 2)) { MPoint p = t.pts.back(); nudge(p); t.pts.push_back(p); i++; } }
        }
    }
};

// the same trace with its types and names at indices far apart that agree in their low bits (or modulo a word or table size)
inline void spread(Rng & r, MTrace & t) {
    auto layout = [&](size_t n, std::vector<u32> & to) { // to[i]: new index of the i-th; returns the new count
        static const u32 st[] = {8, 16, 32, 64, 64, 128, 256, 256, 1024}; u32 s = r.chance(1, 40) ? 65536 : st[r.below(9)], per = r.range(1, 3), rows = n / per + 2; std::set<u32> used; to.clear();
        if (s >= 1024) { per = std::max<u32>(per, n); rows = s > 1024 ? 2 : 5; }
        for (size_t i = 0; i < n; i++) { u32 k; do k = r.below(per) * (per > 1 ? r.range(1, 3) : 1) + s * (u32) r.below(rows); while (!used.insert(k).second); to.push_back(k); }
        return n ? *used.rbegin() + 1 + r.below(3) : (size_t) 0;
    };
    std::vector<u32> tn, tt;
    if (r.chance(1, 2)) {
        size_t n = layout(t.names.size(), tn); std::vector<std::string> names(n); for (size_t i = 0; i < n; i++) names[i] = fmt("~%zx", i);
        for (size_t i = 0; i < tn.size(); i++) names[tn[i]] = t.names[i];
        for (auto & x : t.types) x.name = tn[x.name];
        for (auto & p : t.pts) for (auto & e : p.e) if (e.tag == T_VAR) e.v.name = tn[e.v.name];
        t.names = names;
    }
    size_t n = layout(t.types.size(), tt), base = t.names.size(); std::vector<MType> types(n);
    if (n) {
        for (u32 k = 0; k < 16; k++) t.names.push_back(fmt("=%x", k));
        for (size_t i = 0; i < n; i++) types[i] = MType{(u32) (base + i % 16), (u32) (i / 16 % 2), 1u << (i / 32 % 4)};
        for (size_t i = 0; i < tt.size(); i++) types[tt[i]] = t.types[i];
        for (auto & p : t.pts) for (auto & e : p.e) if (e.tag == T_VAR) e.v.type = tt[e.v.type];
        t.types = types;
    }
}
inline MTrace genTrace(Rng & r, const GenOpts & o = GenOpts()) {
    Gen g(r, o); g.header(); g.points(r.heavy(o.points_small, o.points_large)); return g.t;
}

// Deliberately large shapes, one dimension at a time.
inline MTrace genBig(Rng & r, unsigned which, bool huge) {
    GenOpts o; o.blob_large = 70000;
    Gen g(r, o);
    switch (which % 7) {
    case 0: // many points, shared data
        g.header(); g.points(huge || r.chance(1, 6) ? 67000 : 6000); break;
    case 1: // many names: indices above 65535
        for (u32 i = 0; i < 70000; i++) g.t.names.push_back(fmt("n%u", i));
        g.t.types = {{69999, F_UNSIGNED, 4}, {65536, F_SIGNED, 8}, {3, F_POINTER, 8}};
        g.points(20); break;
    case 2: // many types
        for (u32 i = 0; i < 300; i++) g.t.names.push_back(fmt("n%u", i));
        for (u32 i = 0; i < 66000; i++) g.t.types.push_back({(u32) r.below(300), (u32) r.below(2), 4u << r.below(2)});
        g.points(30); break;
    case 3: { // many variables in one point
        g.header(); while (g.t.types.empty()) { g.t.types.push_back(g.type()); }
        g.points(3);
        MPoint p; Entry s; s.tag = T_STMT; s.a = 7; p.e.push_back(s);
        u64 n = huge || r.chance(1, 3) ? 70000 : 3000;
        for (u64 i = 0; i < n; i++) { Entry e; e.tag = T_VAR; e.v = g.var(); p.e.push_back(e); }
        g.t.pts.push_back(p); g.points(3); break; }
    case 4: { // many aux values / sizes in one point
        g.header(); g.points(2);
        MPoint p; Entry s; s.tag = T_STMT; s.a = 9; p.e.push_back(s);
        u64 n = huge || r.chance(1, 3) ? 140000 : 5000;
        for (u64 i = 0; i < n; i++) { Entry e; if (r.chance(1, 2)) { e.tag = T_AUX; e.a = i; } else e = g.sizeEntry(); p.e.push_back(e); }
        g.t.pts.push_back(p); g.points(2); break; }
    case 5: { // big blobs
        g.t.names = {"a", "b"}; g.t.types = {{0, F_BLOB, 0}, {1, F_BLOB, huge ? 3000000u : 70000u}, {1, F_UNSIGNED, 8}};
        for (int i = 0; i < 6; i++) { MPoint p; Entry s; s.tag = T_STMT; s.a = i; p.e.push_back(s);
            Entry e; e.tag = T_VAR; e.v.type = i % 2; e.v.name = 1; e.v.blob = g.blob(i % 2 ? g.t.types[1].size : r.below(huge ? 5000000 : 200000)); p.e.push_back(e);
            Entry f; f.tag = T_VAR; f.v.type = 2; f.v.name = 0; f.v.raw = r.next(); p.e.push_back(f); g.t.pts.push_back(p); }
        break; }
    default: // long names
        for (int i = 0; i < 5; i++) g.t.names.push_back(std::string(r.range(1, 100000), (char) r.range(1, 255)));
        g.t.types = {{4, F_SIGNED, 2}}; g.points(10);
    }
    return g.t;
}

// One quantity beyond 2^18, 2^20 or 2^24.
inline MTrace genHuge(Rng & r, unsigned which) {
    GenOpts o; Gen g(r, o); g.t.names = {"a", "bb", "t"}; g.t.types = {{2, F_UNSIGNED, 2}, {1, F_BLOB, 0}, {0, F_SIGNED, 4}};
    auto stmt = [](u64 a) { Entry e; e.tag = T_STMT; e.a = a; return e; };
    auto var = [&](u32 type, u64 raw) { Entry e; e.tag = T_VAR; e.v.type = type; e.v.name = r.below(2); e.v.raw = type == 0 ? raw & 0xffff : raw & 0xffffffff; return e; };
    MPoint p;
    switch (which % 6) {
    case 0: for (u64 i = 0, n = 270000 + r.below(60000); i < n; i++) { MPoint q; q.e.push_back(stmt(r.chance(1, 2) ? i : i & 7)); q.e.push_back(var(0, i >> r.below(8))); g.t.pts.push_back(q); } return g.t;
    case 1: { p.e.push_back(stmt(3)); Entry e; e.tag = T_VAR; e.v.type = 1; e.v.name = 0; std::string s = g.blob(5000); while (s.size() < (17u << 20)) { s += s; s += (char) r.next(); } e.v.blob = s; p.e.push_back(e); Entry f = e; f.v.blob[f.v.blob.size() - 1 - r.below(1000000)] ^= 1; p.e.push_back(f); p.e.push_back(var(2, 77)); break; }
    case 2: { std::string s = "long"; while (s.size() < (17u << 20)) { s += s; s += (char) ('a' + r.below(26)); } g.t.names.push_back(s); g.t.names.push_back("last"); g.t.types.push_back({4, F_UNSIGNED, 8}); p.e.push_back(stmt(4)); p.e.push_back(var(0, 5)); p.e.back().v.name = 4; break; }
    case 3: p.e.push_back(stmt(5)); for (u64 i = 0; i < 1100000; i++) { Entry e; e.tag = T_AUX; e.a = i * 77; p.e.push_back(e); } for (u64 i = 0; i < 270000; i++) p.e.push_back(var(2, i)); break;
    case 4: for (u32 i = 0; i < 1100000; i++) g.t.names.push_back(fmt("%x", i)); g.t.types.push_back({1100002, F_UNSIGNED, 8}); p.e.push_back(stmt(6)); for (int i = 0; i < 5; i++) { p.e.push_back(var(3, i)); p.e.back().v.name = 1100000 + i % 3; } break;
    default: for (u32 i = 0; i < 270000; i++) g.t.types.push_back({(u32) r.below(3), (u32) r.below(2), 1u << r.below(4)}); p.e.push_back(stmt(7)); for (int i = 0; i < 9; i++) { u32 t = i < 4 ? 270002 - i : r.below(270000); p.e.push_back(var(0, i)); p.e.back().v.type = t; if (g.t.types[t].fmt == F_BLOB) p.e.pop_back(); }
    }
    g.t.pts.push_back(p); MPoint q; q.e.push_back(stmt(8)); q.e.push_back(var(2, 9)); g.t.pts.push_back(q); return g.t;
}

// ---------------------------------------------------------------- comparison with the real thing
inline VVar fromC(const CVar & c) {
    VVar v; v.fmt = c.format; v.name = c.var_name_index; v.tname = c.type_name_index; v.size = c.size;
    v.has = c.has_buffer_size != 0; v.bsize = v.has ? c.buffer_size : 0;
    if (c.format == F_BLOB) { CHECK(c.value.ptr || !c.size, "blob of size %u without data", c.size); v.blob.assign((const char *) c.value.ptr, c.size); }
    else v.value = c.value.u;
    return v;
}
inline void cmpVar(const CVar & c, const VVar & w, const char *where, size_t p, size_t k) {
    VVar g = fromC(c);
    CHECK(g.sameC(w), "%s: point %zu variable %zu is %s, expected %s", where, p, k, g.str().c_str(), w.str().c_str());
}
inline void cmpPoints(const CPoint *c, u64 n, const std::vector<VPoint> & w, const char *where, bool aux = true) {
    CHECK(n == w.size(), "%s: %llu points, expected %zu", where, (unsigned long long) n, w.size());
    for (size_t i = 0; i < w.size(); i++) {
        CHECK(c[i].statement == w[i].stmt, "%s: point %zu statement %llx, expected %llx", where, i,
              (unsigned long long) c[i].statement, (unsigned long long) w[i].stmt);
        CHECK(c[i].n_vars == w[i].vars.size(), "%s: point %zu has %u variables, expected %zu", where, i, c[i].n_vars, w[i].vars.size());
        for (size_t k = 0; k < w[i].vars.size(); k++) cmpVar(c[i].vars[k], w[i].vars[k], where, i, k);
        if (aux) {
            CHECK(c[i].n_aux == w[i].aux.size(), "%s: point %zu has %u aux values, expected %zu", where, i, c[i].n_aux, w[i].aux.size());
            for (size_t k = 0; k < w[i].aux.size(); k++)
                CHECK(c[i].aux[k] == w[i].aux[k], "%s: point %zu aux %zu is %llx, expected %llx", where, i, k,
                      (unsigned long long) c[i].aux[k], (unsigned long long) w[i].aux[k]);
        }
    }
}
inline void cmpTrace(const void *t, const VTrace & w, const char *where) {
    CHECK(n_names(t) == w.names.size(), "%s: %u names, expected %zu", where, n_names(t), w.names.size());
    CHECK(n_types(t) == w.types.size(), "%s: %u types, expected %zu", where, n_types(t), w.types.size());
    const char **nm = get_names(t);
    for (size_t i = 0; i < w.names.size(); i++)
        CHECK(w.names[i] == nm[i], "%s: name %zu is '%.60s', expected '%.60s'", where, i, nm[i], w.names[i].c_str());
    free(nm);
    const char **ty = get_types(t);
    for (size_t i = 0; i < w.types.size(); i++)
        CHECK(w.types[i] == ty[i], "%s: type name %zu is '%.60s', expected '%.60s'", where, i, ty[i], w.types[i].c_str());
    free(ty);
    u64 n = trace_size(t);
    CHECK(n == w.pts.size(), "%s: %llu points, expected %zu", where, (unsigned long long) n, w.pts.size());
    CPoint *p = get_points(t);
    cmpPoints(p, n, w.pts, where);
    free_trace_points(p, n);
}
// Walk over everything reachable through the interface, returning a digest.
inline u64 digestPoints(const CPoint *p, u64 n) {
    u64 h = n;
    for (u64 i = 0; i < n; i++) {
        h = mix(h, p[i].statement); h = mix(h, p[i].n_vars); h = mix(h, p[i].n_aux);
        for (u32 k = 0; k < p[i].n_vars; k++) h = mix(h, fromC(p[i].vars[k]).hash());
        for (u32 k = 0; k < p[i].n_aux; k++) h = mix(h, p[i].aux[k]);
    }
    return h;
}
inline u64 digestTrace(const void *t) {
    u64 h = mix(n_names(t), n_types(t));
    const char **a = get_names(t); for (u32 i = 0; i < n_names(t); i++) h = mix(h, hashBytes(a[i])); free(a);
    const char **b = get_types(t); for (u32 i = 0; i < n_types(t); i++) h = mix(h, hashBytes(b[i])); free(b);
    u64 n = trace_size(t); CPoint *p = get_points(t);
    h = mix(h, digestPoints(p, n)); free_trace_points(p, n);
    return h;
}
inline std::string describe(const MTrace & t, size_t bytes) {
    size_t v = 0, s = 0, a = 0; for (auto & p : t.pts) for (auto & e : p.e) (e.tag == T_VAR ? v : e.tag == T_SIZE ? s : a)++;
    return fmt("trace of %zu names, %zu types, %zu points (%zu variables, %zu allocation records), %zu bytes", t.names.size(), t.types.size(), t.pts.size(), v, s, bytes);
}
inline void countTrace(const MTrace & t) {
    S.add("traces"); S.add("points", t.pts.size()); S.maxi("max_points", t.pts.size());
    for (auto & p : t.pts) for (auto & e : p.e) {
        if (e.tag == T_VAR) { const MType & y = t.types[e.v.type];
            static const char *nm[] = {"vars_unsigned", "vars_signed", "vars_float", "vars_pointer", "vars_blob"};
            S.add(y.fmt == F_BLOB && y.size ? "vars_blob_fixed" : nm[y.fmt]); }
        else if (e.tag == T_SIZE) S.add("allocation_records");
        else if (e.tag == T_AUX) S.add("aux_values");
    }
}
#endif
