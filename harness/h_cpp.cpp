// C02 C17 C22 C11M: the C++ objects behind the interface.
#include <sstream>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include "TraceDB.hpp"
#include "Trace.hpp"
#include "QueryObjects.hpp"
#include "MemoryMap.hpp"
#include "common_main.hpp"
#include "model.hpp"
#include <cmath>

using std::string; using std::vector;

static VarValue valueOf(const VVar & v) {
    VarValue x; x.u = 0;
    if (v.fmt == F_BLOB) x.ptr = (void *) v.blob.data(); else x.u = v.value;
    return x;
}
static TraceVarInfo mkVar(const VVar & v) {
    return TraceVarInfo(valueOf(v), v.name, v.type, (type_format) v.fmt, v.size, v.bsize, v.has);
}
static TracePoint mkPoint(const VPoint & p, u64 counter) {
    TraceBufferSizes s; FlyweightTraceVarInfos vs; Aux a;
    for (size_t i = 0; i < p.sizes.size(); i++) s.push_back(TraceBufferSize(p.sizes[i].first, p.sizes[i].second));
    for (size_t i = 0; i < p.vars.size(); i++) vs.push_back(FlyweightTraceVarInfo(mkVar(p.vars[i])));
    for (size_t i = 0; i < p.aux.size(); i++) a.push_back(p.aux[i]);
    return TracePoint(counter, p.stmt, s, vs, a);
}
struct XTrace { vector<string> names; vector<MType> types; vector<VPoint> pts; };
static XTrace xt(const MTrace & m) { XTrace x; x.names = m.names; x.types = m.types; x.pts = m.view().pts; return x; }
static Trace mkTrace(const XTrace & x) {
    Names n(x.names.begin(), x.names.end()); TypeDescriptions t; TracePoints p;
    for (size_t i = 0; i < x.types.size(); i++) t.push_back(TypeDescription(x.types[i].name, (type_format) x.types[i].fmt, x.types[i].size));
    for (size_t i = 0; i < x.pts.size(); i++) p.push_back(mkPoint(x.pts[i], i));
    return Trace(n, t, p);
}
static VVar fromCpp(const TraceVarInfo & v, const Trace & t) {
    VVar o; o.fmt = v.getTypeFormat(); o.name = v.getNameIndex(); o.type = v.getTypeIndex(); o.size = v.getSize(); o.has = v.hasBufferSize() != 0; o.bsize = o.has ? v.getBufferSize() : 0;
    CHECK(o.type < t.getTypes().size(), "type index %u of %zu", o.type, t.getTypes().size());
    o.tname = t.getTypes()[o.type].getNameIndex();
    if (o.fmt == F_BLOB) o.blob.assign((const char *) v.getValue().ptr, o.size); else o.value = v.getValue().u;
    return o;
}
static void cmpX(const Trace & t, const XTrace & x, const char *where, bool buffers) {
    CHECK(t.getNames().size() == x.names.size(), "%s: %zu names, expected %zu", where, t.getNames().size(), x.names.size());
    for (size_t i = 0; i < x.names.size(); i++) CHECK(t.getNames()[i] == x.names[i], "%s: name %zu differs", where, i);
    CHECK(t.getTypes().size() == x.types.size(), "%s: %zu types, expected %zu", where, t.getTypes().size(), x.types.size());
    for (size_t i = 0; i < x.types.size(); i++)
        CHECK(t.getTypes()[i].getNameIndex() == x.types[i].name && (u32) t.getTypes()[i].getTypeFormat() == x.types[i].fmt && t.getTypes()[i].getSize() == x.types[i].size, "%s: type %zu differs", where, i);
    CHECK(t.getPoints().size() == x.pts.size(), "%s: %zu points, expected %zu", where, t.getPoints().size(), x.pts.size());
    for (size_t i = 0; i < x.pts.size(); i++) {
        const TracePoint & p = t.getPoints()[i]; const VPoint & w = x.pts[i];
        CHECK(p.getStatement() == w.stmt, "%s: point %zu statement %llx, expected %llx", where, i, (unsigned long long) p.getStatement(), (unsigned long long) w.stmt);
        CHECK(p.getVars().size() == w.vars.size(), "%s: point %zu has %zu variables, expected %zu", where, i, p.getVars().size(), w.vars.size());
        for (size_t k = 0; k < w.vars.size(); k++) {
            VVar g = fromCpp(p.getVars()[k].get(), t), e = w.vars[k];
            if (!buffers) { g.has = e.has; g.bsize = e.bsize; }
            CHECK(g.same(e), "%s: point %zu variable %zu is %s, expected %s", where, i, k, g.str().c_str(), e.str().c_str());
        }
        CHECK(p.getAux().size() == w.aux.size(), "%s: point %zu has %zu aux values, expected %zu", where, i, p.getAux().size(), w.aux.size());
        for (size_t k = 0; k < w.aux.size(); k++) CHECK(p.getAux()[k] == w.aux[k], "%s: point %zu aux %zu differs", where, i, k);
        CHECK(p.getBufferSizes().size() == w.sizes.size(), "%s: point %zu has %zu allocation records, expected %zu", where, i, p.getBufferSizes().size(), w.sizes.size());
        for (size_t k = 0; k < w.sizes.size(); k++)
            CHECK(p.getBufferSizes()[k].getAddress() == w.sizes[k].first && p.getBufferSizes()[k].getSize() == w.sizes[k].second, "%s: point %zu allocation record %zu differs", where, i, k);
    }
}
static string put(const Trace & t) { std::ostringstream o; o << t; CHECK(o.good(), "writing a trace put the stream in a bad state"); return o.str(); }

// Entries in the order in which the writer puts them.
static MTrace canonical(MTrace m) {
    for (size_t i = 0; i < m.pts.size(); i++)
        std::stable_sort(m.pts[i].e.begin(), m.pts[i].e.end(), [](const Entry & a, const Entry & b) {
            static const int rank[] = {9, 0, 2, 1, 3}; return rank[a.tag] < rank[b.tag]; });
    return m;
}

static void c02(Rng & r, u64 i) {
    MTrace m;
    if (i % 2000 == 1207) { m = genHuge(r, i / 2000); S.add("huge_traces"); }
    else if (i % 40 == 7) m = genBig(r, r.below(7), C.thorough());
    else { GenOpts o; o.blob_large = 70000; if (r.chance(1, 10)) { o.points_small = 60; o.points_large = 800; } m = genTrace(r, o); }
    bool canon = r.chance(1, 2);
    if (canon) m = canonical(m);
    XTrace x = xt(m);
    unsigned how = r.below(4);
    string first, second;
    auto roundtrip = [&](const Trace & t, const char *where) {
        cmpX(t, x, "trace before writing", true);
        first = put(t);
        std::istringstream is(first);
        Trace back(is);
        cmpX(back, x, where, canon);
        if (canon) CHECK(back == t, "%s: the re-read trace does not compare equal", where);
        second = put(back);
        CHECK(first == second, "%s: writing the re-read trace gives other bytes (%zu and %zu)", where, first.size(), second.size());
        if (r.chance(1, 3)) CHECK(put(t) == first, "%s: writing twice gives other bytes", where);
    };
    if (how == 0) { std::istringstream is(encode(m)); Trace t(is); roundtrip(t, "trace read, written, read"); S.add("read_then_written"); }
    else if (how == 1) {
        Trace t(mkTrace(x)); roundtrip(t, "trace built, written, read"); S.add("built_then_written");
    } else if (how == 2) { Trace a(mkTrace(x)); Trace t(a); roundtrip(t, "copied trace written, read"); S.add("copied_then_written"); }
    else {
        std::stringstream ss; { boost::archive::text_oarchive oa(ss); const TraceDB db(vector<Trace>(1, mkTrace(x))); oa << db; }
        TraceDB db; { boost::archive::text_iarchive ia(ss); ia >> db; }
        CHECK(db.getTraces().size() == 1, "restored database has %zu traces", db.getTraces().size());
        roundtrip(db.getTraces()[0], "restored trace written, read"); S.add("restored_then_written");
    }
    if (r.chance(1, 3)) { // several traces to one stream: the reader takes its points, limited
        u64 n = x.pts.size(); if (n) { u64 k = r.range(1, n); std::istringstream is(first); Trace t(is, k); XTrace y = x; y.pts.resize(k); cmpX(t, y, "limited read of a written trace", canon); }
    }
    countTrace(m); S.maxi("max_bytes", first.size());
    if (m.pts.size() > 1) S.nontrivial(hashBytes(first));
    S.sample(describe(m, first.size()));
}

// ------------------------------------------------------------------ equality, hashing, ordering
template<class T> struct Obj { std::shared_ptr<T> o; string key; };
template<class T, class Less> static void orderChecks(const vector<Obj<T>> & v, Less less, Rng & r, const char *what) {
    size_t n = v.size();
    for (size_t a = 0; a < n; a++) CHECK(!less(*v[a].o, *v[a].o), "%s: an object is less than itself", what);
    vector<vector<char>> L(n, vector<char>(n));
    for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) L[a][b] = less(*v[a].o, *v[b].o);
    for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) {
        if (L[a][b]) CHECK(!L[b][a], "%s: order not asymmetric for %s and %s", what, v[a].key.substr(0, 200).c_str(), v[b].key.substr(0, 200).c_str());
        for (size_t c = 0; c < n; c++) {
            if (L[a][b] && L[b][c]) CHECK(L[a][c], "%s: order not transitive for %s, %s, %s", what, v[a].key.substr(0, 200).c_str(), v[b].key.substr(0, 200).c_str(), v[c].key.substr(0, 200).c_str());
            if (!L[a][b] && !L[b][a] && !L[b][c] && !L[c][b]) CHECK(!L[a][c] && !L[c][a], "%s: incomparability not transitive for %s, %s, %s", what, v[a].key.substr(0, 200).c_str(), v[b].key.substr(0, 200).c_str(), v[c].key.substr(0, 200).c_str());
        }
    }
    S.add("order_triples", n * n * n);
}
template<class T> static void eqChecks(const vector<Obj<T>> & v, const char *what) {
    for (size_t a = 0; a < v.size(); a++) for (size_t b = 0; b < v.size(); b++) {
        bool want = v[a].key == v[b].key, got = *v[a].o == *v[b].o;
        CHECK(want == got, "%s: %s objects compare %s: %s | %s", what, want ? "equal" : "different", got ? "equal" : "different", v[a].key.substr(0, 300).c_str(), v[b].key.substr(0, 300).c_str());
        if (want) {
            CHECK(boost::hash<T>()(*v[a].o) == boost::hash<T>()(*v[b].o), "%s: equal objects have different boost hashes", what);
            CHECK(std::hash<T>()(*v[a].o) == std::hash<T>()(*v[b].o), "%s: equal objects have different std hashes", what);
            S.add("equal_pairs");
        } else S.add("different_pairs");
    }
}
static string keyVar(const VVar & v, bool raw = false) {
    u64 val = v.value; if (v.size < 8 && v.fmt != F_BLOB) val &= (1ULL << (8 * v.size)) - 1;
    return fmt("v%u,%u,%u,%u,%d,%llu:", v.name, v.type, v.fmt, v.size, (int) v.has, (unsigned long long) v.bsize) + (v.fmt == F_BLOB ? v.blob : fmt("%llx", (unsigned long long) val));
}
static string keyData(const VPoint & p) {
    string s = "d"; for (size_t i = 0; i < p.sizes.size(); i++) s += fmt("[%llx,%llx]", (unsigned long long) p.sizes[i].first, (unsigned long long) p.sizes[i].second);
    s += "|"; for (size_t i = 0; i < p.vars.size(); i++) { string k = keyVar(p.vars[i]); s += fmt("%zu:", k.size()) + k; }
    s += "|"; for (size_t i = 0; i < p.aux.size(); i++) s += fmt("%llx,", (unsigned long long) p.aux[i]);
    return s;
}
static string keyPoint(const VPoint & p, u64 c) { return fmt("p%llu,%llx,", (unsigned long long) c, (unsigned long long) p.stmt) + keyData(p); }
static string keyTrace(const XTrace & x) {
    string s = "t"; for (auto & n : x.names) s += fmt("%zu:", n.size()) + n;
    for (auto & t : x.types) s += fmt("(%u,%u,%u)", t.name, t.fmt, t.size);
    for (size_t i = 0; i < x.pts.size(); i++) { string k = keyPoint(x.pts[i], i); s += fmt("%zu:", k.size()) + k; }
    return s;
}
static VVar rndVar(Rng & r, const vector<MType> & types, u32 names) {
    MTrace m; m.types = types; m.names.assign(names, "n"); GenOpts o; Gen g(r, o); g.t = m;
    MVar v = g.var(); RefMap rm; VVar w = m.viewVar(v, rm);
    if (w.fmt == F_POINTER || r.chance(1, 6)) { w.has = r.chance(1, 2); w.bsize = w.has ? (r.chance(1, 2) ? r.below(3) : Gen::interesting(r)) : 0; }
    return w;
}
static void mutVar(Rng & r, VVar & v, const vector<MType> & types, u32 names) {
    switch (r.below(7)) {
    case 0: v.name = r.chance(1, 2) ? v.name ^ 1 : v.name + 65536; break;
    case 1: v.type ^= 1; break;
    case 2: if (v.fmt == F_BLOB) { if (v.blob.empty()) v.blob = "y"; else if (r.chance(1, 2)) v.blob[r.chance(1, 2) ? v.blob.size() - 1 : r.below(v.blob.size())] ^= 1 << r.below(8); else v.blob.push_back(0); v.size = v.blob.size(); }
            else v.value ^= 1ULL << r.below(8 * v.size); break;
    case 3: v.has = !v.has; v.bsize = v.has ? r.below(2) : 0; break;
    case 4: if (v.has) v.bsize ^= 1ULL << r.below(64); break;
    case 5: if (v.fmt != F_BLOB) { static const u32 f[] = {F_UNSIGNED, F_SIGNED, F_POINTER}; v.fmt = f[r.below(3)]; } else { v.blob += string(1, (char) r.next()); v.size = v.blob.size(); } break;
    default: if (v.fmt != F_BLOB) { static const u32 w[] = {1, 2, 4, 8}; v.size = w[r.below(4)]; } break;
    }
}
static void mutPoint(Rng & r, VPoint & p, const vector<MType> & types, u32 names) {
    switch (r.below(9)) {
    case 0: p.stmt ^= 1ULL << r.below(64); break;
    case 1: if (!p.vars.empty()) mutVar(r, p.vars[r.below(p.vars.size())], types, names); break;
    case 2: if (!p.vars.empty()) p.vars.erase(p.vars.begin() + r.below(p.vars.size())); break;
    case 3: if (p.vars.size() > 1) std::swap(p.vars[0], p.vars[p.vars.size() - 1]); break;
    case 4: if (!p.aux.empty()) p.aux[r.below(p.aux.size())] ^= 1ULL << r.below(64); else p.aux.push_back(0); break;
    case 5: if (!p.aux.empty()) p.aux.pop_back(); break;
    case 6: if (!p.sizes.empty()) { auto & s = p.sizes[r.below(p.sizes.size())]; (r.chance(1, 2) ? s.first : s.second) ^= 1ULL << r.below(64); } else p.sizes.push_back({1, 2}); break;
    case 7: if (!p.sizes.empty()) p.sizes.pop_back(); break;
    default: if (p.aux.size() > 1) { u64 k = r.below(p.aux.size() - 1); std::swap(p.aux[k], p.aux[k + 1]); } else if (!p.vars.empty()) p.vars.push_back(p.vars[0]);
    }
}
// A length for a component that is long in this family: a little over a power of two, or anything up to 700.
static u64 longLen(Rng & r) { return r.chance(1, 2) ? (4ULL << r.below(8)) + r.range(1, 3) : r.range(5, 700); }
static VPoint rndPoint(Rng & r, const vector<MType> & types, u32 names, int lng = -1) {
    VPoint p; p.stmt = r.chance(1, 2) ? r.below(3) : Gen::interesting(r); u64 n = lng == 0 ? longLen(r) : r.below(4);
    for (u64 i = 0; i < n; i++) p.vars.push_back(i > 8 && r.chance(7, 8) ? p.vars[r.below(i)] : rndVar(r, types, names));
    n = lng == 1 ? longLen(r) : r.below(3); for (u64 i = 0; i < n; i++) p.aux.push_back(Gen::interesting(r));
    n = lng == 2 ? longLen(r) : r.below(3); for (u64 i = 0; i < n; i++) p.sizes.push_back({r.below(3) ? r.below(3) : Gen::interesting(r), r.below(3)});
    return p;
}
static void c17(Rng & r, u64 i) {
    vector<MType> types; { GenOpts o; Gen g(r, o); g.t.names.assign(4, "n"); for (int k = 0; k < 8; k++) types.push_back(g.type()); }
    u32 names = 4; u64 h = 0; int lng = i % 25 == 9 ? r.below(7) : -1;   // which component is long: variables, aux, records, names, types, points, traces
    if (lng >= 0) S.add(fmt("long_component_%d", lng).c_str());
    { vector<Obj<TypeDescription>> v; u64 n0 = r.below(3); 
      for (int k = 0; k < 9; k++) { MType t = r.pick(types); if (r.chance(1, 3)) t.name = n0 + (r.chance(1, 5) ? 65536 : 0); if (r.chance(1, 4)) t.size ^= 1u << r.below(32);
        if (!v.empty() && r.chance(1, 4)) { v.push_back({std::make_shared<TypeDescription>(*r.pick(v).o), v.back().key}); v.back().key = fmt("%u,%u,%u", v.back().o->getNameIndex(), (u32) v.back().o->getTypeFormat(), v.back().o->getSize()); continue; }
        v.push_back({std::make_shared<TypeDescription>(t.name, (type_format) t.fmt, t.size), fmt("%u,%u,%u", t.name, t.fmt, t.size)}); }
      eqChecks(v, "type description"); orderChecks(v, [](const TypeDescription & a, const TypeDescription & b) { return a < b; }, r, "type description"); }
    { vector<Obj<TraceBufferSize>> v; u64 a0 = Gen::interesting(r), s0 = Gen::interesting(r);
      for (int k = 0; k < 9; k++) { u64 a = a0, s = s0; if (r.chance(1, 2)) a ^= 1ULL << r.below(64); if (r.chance(1, 2)) s ^= 1ULL << r.below(64); if (r.chance(1, 5)) std::swap(a, s);
        v.push_back({std::make_shared<TraceBufferSize>(a, s), fmt("%llx,%llx", (unsigned long long) a, (unsigned long long) s)}); }
      eqChecks(v, "allocation record"); orderChecks(v, [](const TraceBufferSize & a, const TraceBufferSize & b) { return a < b; }, r, "allocation record"); }
    { vector<Obj<TraceVarInfo>> v; vector<VVar> m;
      for (int k = 0; k < 14; k++) {
        VVar x = m.empty() || r.chance(1, 4) ? rndVar(r, types, names) : r.pick(m); if (!m.empty() && r.chance(2, 3)) mutVar(r, x, types, names);
        m.push_back(x);
        v.push_back({r.chance(1, 3) ? std::make_shared<TraceVarInfo>(TraceVarInfo(mkVar(x))) : std::make_shared<TraceVarInfo>(mkVar(x)), keyVar(x)});
        h = mix(h, hashBytes(v.back().key));
      }
      eqChecks(v, "variable"); orderChecks(v, [](const TraceVarInfo & a, const TraceVarInfo & b) { return a < b; }, r, "variable"); }
    vector<VPoint> mp;
    { vector<Obj<TracePoint>> v; vector<Obj<TracePointData>> d;
      for (int k = 0; k < 12; k++) {
        VPoint p = mp.empty() || (lng < 0 || lng > 2 ? r.chance(1, 5) : r.chance(1, 12)) ? rndPoint(r, types, names, lng) : r.pick(mp); if (!mp.empty() && r.chance(2, 3)) mutPoint(r, p, types, names);
        mp.push_back(p); u64 c = r.chance(4, 5) ? 0 : r.chance(1, 2) ? 1 : 1ULL << 32;
        v.push_back({std::make_shared<TracePoint>(mkPoint(p, c)), keyPoint(p, c)});
        d.push_back({std::make_shared<TracePointData>(TracePointData(v.back().o->getData().get())), keyData(p)});
        h = mix(h, hashBytes(v.back().key));
      }
      eqChecks(v, "point"); orderChecks(v, [](const TracePoint & a, const TracePoint & b) { return a < b; }, r, "point");
      eqChecks(d, "point data"); orderChecks(d, [](const TracePointData & a, const TracePointData & b) { return a < b; }, r, "point data"); }
    { vector<Obj<Trace>> v; vector<XTrace> mx; vector<Obj<TraceDB>> dbs;
      for (int k = 0; k < 8; k++) {
        XTrace x;
        if (mx.empty() || r.chance(1, 6)) { x.names.assign(lng == 3 ? longLen(r) : names, "n"); x.types = types; if (lng == 4) for (u64 q = longLen(r); q; q--) x.types.push_back(types[r.below(types.size())]); u64 n = lng == 5 ? longLen(r) : lng >= 0 && lng < 3 ? r.below(2) : r.below(5); for (u64 q = 0; q < n; q++) x.pts.push_back(r.pick(mp)); }
        else x = r.pick(mx);
        if (!mx.empty() && r.chance(2, 3)) switch (r.below(8)) {
            case 0: x.names[r.below(x.names.size())] += "x"; break;
            case 1: x.names.push_back("n"); break;
            case 2: x.types[r.below(x.types.size())].size ^= 1; break;
            case 3: x.types[r.below(x.types.size())].name ^= 1; break;
            case 4: if (x.types.size() > 1) x.types.pop_back(); break;
            case 5: if (!x.pts.empty()) mutPoint(r, x.pts[r.below(x.pts.size())], types, names); break;
            case 6: if (x.pts.size() > 1) std::swap(x.pts[r.below(x.pts.size())], x.pts[x.pts.size() - 1]); break;
            default: if (!x.pts.empty()) x.pts.pop_back(); else x.pts.push_back(r.pick(mp)); }
        mx.push_back(x);
        v.push_back({std::make_shared<Trace>(mkTrace(x)), keyTrace(x)});
        if (r.chance(1, 3)) v.back().o->query(FreeVariables(), Predicate(), Predicates(), 0, r.below(4), r.below(2));   // must not change equality
        if (r.chance(1, 3)) v.back().o = std::make_shared<Trace>(*v.back().o);
      }
      eqChecks(v, "trace");
      vector<vector<u64>> picks;
      for (int k = 0; k < 6; k++) {
        vector<Trace> ts; string key = "D"; vector<u64> w;
        if (lng == 6 && !picks.empty() && r.chance(5, 6)) { w = r.pick(picks); if (r.chance(2, 3)) w[r.chance(1, 2) ? w.size() - 1 : r.below(w.size())] = r.below(v.size()); }
        else for (u64 n = lng == 6 ? std::min<u64>(longLen(r), 70) : r.below(4); n; n--) w.push_back(r.below(r.chance(1, 2) ? 2 : v.size()));
        picks.push_back(w);
        for (u64 q : w) { auto & o = v[q]; ts.push_back(*o.o); key += fmt("%zu:", o.key.size()) + o.key; }
        if (r.chance(1, 2)) dbs.push_back({std::make_shared<TraceDB>(ts), key});
        else { dbs.push_back({std::make_shared<TraceDB>(), key}); for (auto & t : ts) dbs.back().o->addTrace(t); }
        if (r.chance(1, 4)) dbs.back().o = std::make_shared<TraceDB>(*dbs.back().o);
        h = mix(h, hashBytes(key)); }
      eqChecks(dbs, "database"); }
    S.nontrivial(h); S.sample(keyPoint(mp[0], 0).substr(0, 200));
}

// ------------------------------------------------------------------ printing
static Predicate leafP(predicate_kind k, u64 v) { predicate_data d; d.unsigned_value = v; return Predicate(k, d); }
struct PNode { int kind; u64 data; vector<PNode> ch; };
static Predicate mkP(const PNode & n) { Predicates c; for (auto & x : n.ch) c.push_back(mkP(x)); predicate_data d; d.unsigned_value = n.ch.empty() && (n.kind == VAR_REFERENCE || n.kind == SIGNED_VALUE || n.kind == UNSIGNED_VALUE || n.kind == FLOAT_VALUE) ? n.data : n.ch.size(); return Predicate((predicate_kind) n.kind, d, c); }
static PNode ref(Rng & r) { PNode n; n.kind = VAR_REFERENCE; n.data = r.chance(1, 8) ? Gen::interesting(r) : r.below(5); return n; }
static PNode num(Rng & r, int d) {
    PNode n; n.data = 0;
    if (d <= 0 || r.chance(1, 3)) switch (r.below(5)) {
        case 0: n.kind = SIGNED_VALUE; n.data = Gen::interesting(r); return n;
        case 1: n.kind = UNSIGNED_VALUE; n.data = Gen::interesting(r); return n;
        case 2: n.kind = FLOAT_VALUE; n.data = Gen::floatBits(r, 8); return n;
        case 3: n.kind = VAR_SIZE; n.ch.push_back(ref(r)); return n;
        default: n.kind = VAR_VALUE; n.ch.push_back(ref(r)); return n; }
    static const int k[] = {ADD, SUBTRACT, MULTIPLY, DIVIDE}; n.kind = k[r.below(4)];
    n.ch.push_back(num(r, d - 1)); n.ch.push_back(num(r, d - 1)); return n;
}
static PNode boolean(Rng & r, int d) {
    PNode n; n.data = 0;
    if (d <= 0 || r.chance(1, 3)) {
        if (r.chance(1, 6)) { n.kind = DISTINCT_VARS; n.ch.push_back(ref(r)); n.ch.push_back(ref(r)); return n; }
        static const int k[] = {GREATER_THAN, GREATER_THAN_OR_EQUAL, LESS_THAN, LESS_THAN_OR_EQUAL, EQUAL}; n.kind = k[r.below(5)];
        n.ch.push_back(num(r, r.below(4))); n.ch.push_back(num(r, r.below(4))); return n;
    }
    unsigned k = r.below(3); if (k == 2) { n.kind = NOT; n.ch.push_back(boolean(r, d - 1)); return n; }
    n.kind = k ? OR : AND; u64 c = r.chance(1, 12) ? 0 : r.chance(1, 20) ? 40 : r.range(1, 4); for (u64 i = 0; i < c; i++) n.ch.push_back(boolean(r, d - 1)); return n;
}
struct Parser {
    const string & s; size_t i = 0; explicit Parser(const string & s) : s(s) {}
    void ws() { while (i < s.size() && isspace((unsigned char) s[i])) i++; }
    string token() { size_t b = i; while (i < s.size() && !isspace((unsigned char) s[i]) && s[i] != '(' && s[i] != ')') i++; return s.substr(b, i - b); }
    void match(const PNode & n) {
        ws();
        switch (n.kind) {
        case VAR_REFERENCE: { string t = token(), e = "<v" + std::to_string((unsigned long long) n.data) + ">"; CHECK(t == e, "printed '%s' for the variable reference %s", t.c_str(), e.c_str()); return; }
        case SIGNED_VALUE: { string t = token(), e = std::to_string((long long) n.data); CHECK(t == e, "printed '%s' for the signed constant %s", t.c_str(), e.c_str()); return; }
        case UNSIGNED_VALUE: { string t = token(), e = std::to_string((unsigned long long) n.data); CHECK(t == e, "printed '%s' for the unsigned constant %s", t.c_str(), e.c_str()); return; }
        case FLOAT_VALUE: { double d; memcpy(&d, &n.data, 8); string t = token(); char *end; double g = strtod(t.c_str(), &end);
            CHECK(!t.empty() && !*end, "printed '%s' for the float constant %g", t.c_str(), d);
            CHECK((d != d && g != g) || d == g || fabs(g - d) <= 1e-5 * fabs(d) || fabs(d) < 1e-307, "printed '%s' for the float constant %.17g", t.c_str(), d); return; }
        }
        static const std::map<int, string> op = {{VAR_SIZE, "v/size"}, {VAR_VALUE, "v/value"}, {DISTINCT_VARS, "distinct"}, {AND, "and"}, {OR, "or"}, {NOT, "not"}, {GREATER_THAN, ">"},
            {GREATER_THAN_OR_EQUAL, ">="}, {LESS_THAN, "<"}, {LESS_THAN_OR_EQUAL, "<="}, {EQUAL, "="}, {ADD, "+"}, {SUBTRACT, "-"}, {MULTIPLY, "*"}, {DIVIDE, "/"}};
        CHECK(i < s.size() && s[i] == '(', "no opening parenthesis at offset %zu of: %s", i, s.substr(0, 400).c_str()); i++; ws();
        string t = token(); CHECK(t == op.at(n.kind), "printed operator '%s', expected '%s'", t.c_str(), op.at(n.kind).c_str());
        for (auto & c : n.ch) match(c);
        ws(); CHECK(i < s.size() && s[i] == ')', "no closing parenthesis at offset %zu of: %s", i, s.substr(0, 400).c_str()); i++;
    }
};
static void c22(Rng & r, u64 i) {
    PNode n; unsigned k = r.below(12);
    if (k == 0) n = num(r, 4); else if (k == 1) n = ref(r);
    else if (i % 200 == 3) { n = boolean(r, 2); for (int q = 0; q < 300; q++) { PNode m; m.kind = r.chance(1, 2) ? NOT : AND; m.data = 0; m.ch.push_back(n); n = m; } }
    else if (i % 40 == 5) { n.kind = r.chance(1, 2) ? AND : OR; n.data = 0; for (u64 q = r.chance(1, 20) ? 70000 : r.range(200, 600); q; q--) n.ch.push_back(boolean(r, 0)); if (r.chance(1, 2)) { PNode m; m.kind = NOT; m.data = 0; m.ch.push_back(n); n = m; } }
    else n = boolean(r, r.below(5));
    Predicate p(mkP(n)); Predicate copy(p);
    std::ostringstream o; o << p; string s = o.str();
    CHECK(o.good(), "printing put the stream in a bad state");
    Parser q(s); q.match(n); q.ws(); CHECK(q.i == s.size(), "text after the printed predicate: %s", s.substr(q.i, 200).c_str());
    std::ostringstream o2; o2 << copy << copy; CHECK(o2.str() == s + s, "printing a copy twice gives other text");
    std::ostringstream o3; o3 << Predicate() << p; CHECK(o3.str().find(s) != string::npos, "printing after a null predicate gives other text");
    std::function<void(const PNode &)> count = [&](const PNode & x) { S.add(fmt("kind_%d", x.kind).c_str()); for (auto & c : x.ch) count(c); }; count(n);
    if (!n.ch.empty()) S.nontrivial(hashBytes(s));
    S.sample(s.substr(0, 200));
}

// ------------------------------------------------------------------ the memory map on its own
static void c11m(Rng & r, u64 i) {
    MemoryMap map; RefMap ref; u64 n = r.chance(1, 10) ? r.range(2000, 20000) : r.range(5, 400); bool many = i % 1500 == 77; if (many) { n = r.range(150000, 300000); S.add("maps_with_very_many_allocations"); } u64 gran = 1ULL << r.below(6), space = 1ULL << (many ? r.range(17, 40) : r.range(1, 11)), base = r.chance(1, 4) ? 0 : r.chance(1, 4) ? UINT64_MAX - gran * space : r.next() & ~0xfffULL;
    unsigned freePct = r.below(many ? 25 : 70); u64 found = 0, missing = 0, h = 0; vector<u64> live;
    for (u64 k = 0; k < n; k++) {
        u64 a = r.chance(1, 30) ? Gen::interesting(r) : base + gran * r.below(space);
        if (r.chance(1, 2)) {
            u64 s = r.below(100) < freePct ? 0 : r.chance(1, 20) ? Gen::interesting(r) : r.range(1, 2 * gran); if (s == UINT64_MAX) s--;
            if (!s && !live.empty() && r.chance(3, 4)) a = r.pick(live);
            map.updateMemoryMap(TraceBufferSize(a, s)); ref.update(a, s); if (s) live.push_back(a); h = mix(h, mix(a, s)); S.add("map_updates");
        }
        u64 q = r.chance(1, 2) && !live.empty() ? r.pick(live) : a; q += r.chance(1, 2) ? 0 : r.below(2 * gran + 2) - 1; if (r.chance(1, 40)) q = Gen::interesting(r);
        u64 e = 0; bool f = ref.lookup(q, e); u64 g = map.computeBufferSize(q);
        CHECK(g == (f ? e : UINT64_MAX), "memory map: size at %llx is %llx, expected %llx after %llu steps", (unsigned long long) q, (unsigned long long) g, (unsigned long long) (f ? e : UINT64_MAX), (unsigned long long) k);
        (f ? found : missing)++;
        if (r.chance(1, many ? 200000 : 2000)) { map.clear(); ref.m.clear(); live.clear(); S.add("map_clears"); }
    }
    S.add("map_lookups_found", found); S.add("map_lookups_missing", missing); S.maxi("max_live_allocations", ref.m.size());
    if (found && missing) S.nontrivial(h);
}

int main(int c, char **v) { return caseMain(c, v, {{"C02", c02}, {"C17", c17}, {"C22", c22}, {"C11M", c11m}}); }
