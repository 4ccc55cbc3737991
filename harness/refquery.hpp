// Reference predicate evaluator (exact rationals with error bounds) and query engine.
#ifndef VERIF_REFQUERY_HPP
#define VERIF_REFQUERY_HPP
#include <functional>
#include "model.hpp"
#include <gmpxx.h>
#include <cmath>

struct P { // model predicate
    u32 kind = P_NULL; u64 u = 0; i64 s = 0; double d = 0; u64 var = 0; std::vector<P> ch;
    P() {} explicit P(u32 k) : kind(k) {} P(u32 k, std::vector<P> c) : kind(k), ch(std::move(c)) {}
    static P V(u64 v) { P p(P_VAR_REFERENCE); p.var = v; return p; }
    static P U(u64 x) { P p(P_UNSIGNED); p.u = x; return p; }
    static P I(i64 x) { P p(P_SIGNED); p.s = x; return p; }
    static P D(double x) { P p(P_FLOAT); p.d = x; return p; }
    static P val(u64 v) { return P(P_VAR_VALUE, {V(v)}); }
    static P size(u64 v) { return P(P_VAR_SIZE, {V(v)}); }
    std::string str() const {
        static const char *n[] = {"null", "v", "v/size", "v/value", "distinct", "", "", "", "and", "or", "not", ">", ">=", "<", "<=", "=", "+", "-", "*", "/"};
        switch (kind) {
        case P_VAR_REFERENCE: return fmt("v%llu", (unsigned long long) var);
        case P_SIGNED: return fmt("%lldi", (long long) s);
        case P_UNSIGNED: return fmt("%lluu", (unsigned long long) u);
        case P_FLOAT: return fmt("%.17gf", d);
        }
        std::string o = std::string("(") + n[kind]; for (auto & c : ch) o += " " + c.str(); return o + ")";
    }
    unsigned nodes() const { unsigned n = 1; for (auto & c : ch) n += c.nodes(); return n; }
};

// C structure; fields which the kind does not use carry decoys.
inline void fillC(CPred *c, const P & p, Rng & r) {
    c->kind = p.kind; c->var_index = r.below(3); c->unsigned_value = r.next(); c->signed_value = (i64) r.next(); c->float_value = (double)(i64) r.next();
    c->n_children = p.ch.size(); c->children = nullptr;
    switch (p.kind) {
    case P_VAR_REFERENCE: c->var_index = p.var; break;
    case P_UNSIGNED: c->unsigned_value = p.u; break;
    case P_SIGNED: c->signed_value = p.s; break;
    case P_FLOAT: c->float_value = p.d; break;
    }
    if (p.ch.empty() && (p.kind == P_AND || p.kind == P_OR) && r.chance(1, 2)) c->children = (CPred *) malloc(1); // as the Lisp layer does
    if (!p.ch.empty()) {
        c->children = (CPred *) malloc(sizeof(CPred) * p.ch.size());
        for (size_t i = 0; i < p.ch.size(); i++) fillC(c->children + i, p.ch[i], r);
    }
}
inline CPred *toC(const P & p, Rng & r) { CPred *c = (CPred *) malloc(sizeof(CPred)); fillC(c, p, r); return c; }

enum Tri { No, Yes, Unknown };

struct Num { bool valid = false, isFloat = false, unknown = false, leaf = false; int special = 0; /* 1 nan, 2 +inf, 3 -inf */ mpq_class v, err; };

inline const mpq_class & eps() { static mpq_class e; if (e == 0) { mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 10, 40); e = mpq_class(1, z); } return e; }
// at most 40 significant decimal digits?
inline bool shortDec(const mpq_class & q) {
    if (q == 0) return true;
    mpz_class den = q.get_den(), num = abs(q.get_num());
    if (mpz_sizeinbase(den.get_mpz_t(), 2) > 1200) return false;
    unsigned long twos = mpz_scan1(den.get_mpz_t(), 0); mpz_class d = den >> twos;
    unsigned long fives = 0; while (d != 1) { if (d % 5 != 0) return false; d /= 5; fives++; if (fives > 600) return false; }
    unsigned long k = std::max(twos, fives); mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), 10, k);
    mpz_class n = num * p / den;
    while (n % 10 == 0) n /= 10;
    return n.get_str().size() <= 40;
}
inline mpz_class mz(u64 u) { mpz_class z; mpz_import(z.get_mpz_t(), 1, 1, 8, 0, 0, &u); return z; }
inline mpz_class mzs(i64 s) { return s < 0 ? mpz_class(-mz((u64) 0 - (u64) s)) : mz((u64) s); }
inline Num mkInt(const mpz_class & z) { Num n; n.valid = true; n.v = z; return n; }
inline Num mkDouble(double d) {
    Num n; n.valid = true; n.isFloat = true; n.leaf = true;
    if (std::isnan(d)) n.special = 1; else if (std::isinf(d)) n.special = d > 0 ? 2 : 3;
    else { n.v = mpq_class(d); if (!shortDec(n.v)) n.err = abs(n.v) * eps(); }
    return n;
}
inline mpq_class conv(const Num & n) { // error bound when taken as a float
    if (n.isFloat || shortDec(n.v)) return n.err;
    return n.err + abs(n.v) * eps();
}

struct Eval {
    const std::vector<const VVar *> & vars;
    explicit Eval(const std::vector<const VVar *> & v) : vars(v) {}
    static Num arith(u32 k, const Num & a, const Num & b) {
        Num r; if (!a.valid || !b.valid) {
            // an operand that is undefined makes the result undefined; unknown validity stays unknown
            if ((a.unknown && !a.valid) || (b.unknown && !b.valid)) r.unknown = true;
            return r; }
        r.valid = true;
        if (k == P_DIV) {
            if (b.unknown) { r.unknown = true; r.isFloat = true; r.valid = false; return r; }
            if (!b.special) {
                if (b.v == 0 && b.err == 0) return Num();
                if (abs(b.v) <= b.err) { r.valid = false; r.unknown = true; return r; }
            }
        }
        if (a.unknown || b.unknown || a.special || b.special) { r.unknown = true; r.isFloat = true; return r; }
        if (!a.isFloat && !b.isFloat && k != P_DIV) {
            r.v = k == P_ADD ? mpq_class(a.v + b.v) : k == P_SUB ? mpq_class(a.v - b.v) : mpq_class(a.v * b.v);
            return r;
        }
        r.isFloat = true; mpq_class ea = conv(a), eb = conv(b);
        switch (k) {
        case P_ADD: r.v = a.v + b.v; r.err = ea + eb; break;
        case P_SUB: r.v = a.v - b.v; r.err = ea + eb; break;
        case P_MUL: r.v = a.v * b.v; r.err = ea * abs(b.v) + eb * abs(a.v) + ea * eb; break;
        case P_DIV: r.v = a.v / b.v; { mpq_class lo = abs(b.v) - eb; if (lo <= 0) { r.unknown = true; r.valid = false; return r; } r.err = (ea + abs(r.v) * eb) / lo; } break;
        }
        if (!(r.err == 0 && shortDec(r.v))) {
            // rounding of the result itself; for sums also relative to the operands (cancellation)
            mpq_class m = abs(r.v); if (k == P_ADD || k == P_SUB) m = std::max(m, std::max(mpq_class(abs(a.v)), mpq_class(abs(b.v))));
            r.err += m * eps();
        }
        return r;
    }
    Num num(const P & p) const {
        switch (p.kind) {
        case P_UNSIGNED: return mkInt(mz(p.u));
        case P_SIGNED: return mkInt(mzs(p.s));
        case P_FLOAT: return mkDouble(p.d);
        case P_VAR_SIZE: { const VVar & v = *vars[p.ch[0].var]; return v.has ? mkInt(mz(v.bsize)) : Num(); }
        case P_VAR_VALUE: {
            const VVar & v = *vars[p.ch[0].var];
            switch (v.fmt) {
            case F_UNSIGNED: case F_POINTER: return mkInt(mz(v.value));
            case F_SIGNED: return mkInt(mzs((i64) v.value));
            case F_FLOAT: if (v.size == 4) { float f; u32 x = (u32) v.value; memcpy(&f, &x, 4); return mkDouble(f); }
                          else { double d; memcpy(&d, &v.value, 8); return mkDouble(d); }
            default: return Num();
            } }
        default: return arith(p.kind, num(p.ch[0]), num(p.ch[1]));
        }
    }
    static Tri cmp(u32 k, const Num & a, const Num & b) {
        if (!a.valid && !a.unknown) return No;
        if (!b.valid && !b.unknown) return No;
        if (a.unknown || b.unknown) return Unknown;
        if (a.special == 1 || b.special == 1) return No;
        int c;
        if (a.special || b.special) {
            int x = a.special == 2 ? 1 : a.special == 3 ? -1 : 0, y = b.special == 2 ? 1 : b.special == 3 ? -1 : 0;
            c = x < y ? -1 : x > y;
        } else {
            mpq_class d = a.v - b.v, bound = a.err + b.err;
            if (a.isFloat != b.isFloat) bound = conv(a) + conv(b);
            if (abs(d) > bound) c = sgn(d);
            else if (bound == 0) c = sgn(d);
            else if (a.leaf && b.leaf && d == 0) c = 0;
            else return Unknown;
        }
        bool r = k == P_GT ? c > 0 : k == P_GE ? c >= 0 : k == P_LT ? c < 0 : k == P_LE ? c <= 0 : c == 0;
        return r ? Yes : No;
    }
    Tri sat(const P & p) const {
        switch (p.kind) {
        case P_NULL: return Yes;
        case P_AND: { Tri r = Yes; for (auto & c : p.ch) { Tri t = sat(c); if (t == No) return No; if (t == Unknown) r = Unknown; } return r; }
        case P_OR: { Tri r = No; for (auto & c : p.ch) { Tri t = sat(c); if (t == Yes) return Yes; if (t == Unknown) r = Unknown; } return r; }
        case P_NOT: { Tri t = sat(p.ch[0]); return t == Unknown ? t : t == Yes ? No : Yes; }
        case P_DISTINCT: return vars[p.ch[0].var]->same(*vars[p.ch[1].var]) ? No : Yes;
        default: return cmp(p.kind, num(p.ch[0]), num(p.ch[1]));
        }
    }
};

struct Query {
    std::vector<std::vector<u32>> free; P hard; bool hardNullPtr = true; std::vector<P> soft;
    u32 seed = 0; bool keep = true; u64 mask = 0, stmt = 0;
    std::string str() const {
        std::string o = "vars [";
        for (auto & f : free) { o += "("; for (u32 t : f) o += fmt("%u ", t); o += ")"; }
        o += "] hard " + hard.str(); for (auto & s : soft) o += " soft " + s.str();
        return o + fmt(" seed %u keep %d mask %llx stmt %llx", seed, keep, (unsigned long long) mask, (unsigned long long) stmt);
    }
};
struct Res { u64 stmt; std::vector<VVar> vars; std::vector<u64> aux; // auxiliary values: only of results with variables
    u64 hash() const { u64 h = mix(stmt, vars.size()); for (auto & v : vars) h = mix(h, v.hash()); for (u64 a : aux) h = mix(h, a); return mix(h, aux.size()); }
    std::string str() const { std::string o = fmt("stmt %llx", (unsigned long long) stmt); for (auto & v : vars) o += " " + v.str(); for (u64 a : aux) o += fmt(" aux %llx", (unsigned long long) a); return o; } };

// Expected results per selected point (seed and deduplication aside). False: undecided.
inline bool refPoint(const VPoint & p, const Query & q, std::vector<Res> & out) {
    out.clear();
    std::vector<std::vector<const VVar *>> cand;
    for (auto & f : q.free) { cand.emplace_back(); for (auto & v : p.vars) if (std::find(f.begin(), f.end(), v.type) != f.end()) cand.back().push_back(&v); if (cand.back().empty()) return true; }
    std::vector<size_t> ix(cand.size(), 0); std::vector<const VVar *> cur(cand.size());
    std::vector<std::vector<const VVar *>> hit; std::vector<unsigned> cnt; unsigned best = 0;
    while (1) {
        for (size_t i = 0; i < cand.size(); i++) cur[i] = cand[i][ix[i]];
        Eval ev(cur); Tri t = ev.sat(q.hard);
        if (t == Unknown) return false;
        if (t == Yes) {
            unsigned c = 0; for (auto & s : q.soft) { Tri u = ev.sat(s); if (u == Unknown) return false; c += u == Yes; }
            hit.push_back(cur); cnt.push_back(c); best = std::max(best, c);
        }
        size_t k = 0; while (k < ix.size() && ++ix[k] == cand[k].size()) ix[k++] = 0;
        if (k == ix.size()) break;
    }
    for (size_t i = 0; i < hit.size(); i++) if (cnt[i] == best) { Res r; r.stmt = p.stmt; for (auto *v : hit[i]) r.vars.push_back(*v); if (!q.free.empty()) r.aux = p.aux; out.push_back(r); }
    return true;
}
struct Expected { bool decided = true; std::vector<std::vector<Res>> groups; u64 total = 0; };
inline Expected refQuery(const VTrace & t, const Query & q) {
    Expected e;
    for (auto & p : t.pts) if ((p.stmt & q.mask) == q.stmt) { std::vector<Res> o; if (!refPoint(p, q, o)) { e.decided = false; return e; } e.total += o.size(); e.groups.push_back(o); }
    return e;
}

inline std::vector<Res> realQuery(const void *db, u64 index, const Query & q, Rng & r, const std::function<void(bool)> & around = nullptr) {
    std::vector<CFree> f; std::vector<std::vector<u32>> store = q.free;
    for (auto & s : store) { CFree c; c.n_allowed_types = s.size(); c.allowed_types = s.data(); f.push_back(c); }
    CPred *h = q.hardNullPtr && q.hard.kind == P_NULL ? nullptr : toC(q.hard, r);
    std::vector<CPred *> so; for (auto & s : q.soft) so.push_back(toC(s, r));
    CPoint *out = (CPoint *) 0x1; u64 n = 77777777;
    static const uint8_t kept[] = {1, 1, 1, 2, 128, 255}; const uint8_t keep = q.keep ? kept[(q.free.size() + so.size() + q.seed + n + q.hard.ch.size()) % 6] : 0;
    if (around) around(true);
    try { query_trace(db, index, f.data(), f.size(), h, (const CPred **) so.data(), so.size(), q.seed, keep, q.mask, q.stmt, &out, &n); }
    catch (...) { if (around) around(false); if (h) free_c_predicate(h); for (auto *s : so) free_c_predicate(s); throw; }
    if (around) around(false);
    std::vector<Res> o;
    CHECK(n < 100000000, "absurd number of results");
    for (u64 i = 0; i < n; i++) { Res x; x.stmt = out[i].statement; for (u32 k = 0; k < out[i].n_vars; k++) x.vars.push_back(fromC(out[i].vars[k])); if (!q.free.empty()) for (u32 k = 0; k < out[i].n_aux; k++) x.aux.push_back(out[i].aux[k]); o.push_back(x); }
    if (n) free_trace_points(out, n);
    if (h) free_c_predicate(h);
    for (auto *s : so) free_c_predicate(s);
    return o;
}

inline void cmpGroups(const std::vector<Res> & got, const Expected & e, const Query & q, const char *where) {
    CHECK(got.size() == e.total, "%s: %zu results, expected %llu; query %s", where, got.size(), (unsigned long long) e.total, q.str().c_str());
    size_t o = 0, pi = 0;
    for (auto & g : e.groups) {
        std::vector<u64> a, b;
        for (auto & x : g) a.push_back(x.hash());
        for (size_t i = 0; i < g.size(); i++) b.push_back(got[o + i].hash());
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a != b) {
            std::string d; for (size_t i = 0; i < g.size() && i < 6; i++) d += " got " + got[o + i].str() + " / expected " + g[i].str() + ";";
            throw Failure(fmt("%s: results at selected point %zu differ:%.1200s query %s", where, pi, d.c_str(), q.str().c_str()));
        }
        o += g.size(); pi++;
    }
}

// ---------------------------------------------------------------- query generator
struct QGen {
    Rng & r; const MTrace & m; const VTrace & w; std::vector<P> consts;
    QGen(Rng & r, const MTrace & m, const VTrace & w) : r(r), m(m), w(w) {
        for (int i = 0; i < 24 && !w.pts.empty(); i++) {
            const VPoint & p = r.pick(w.pts); if (p.vars.empty()) continue;
            const VVar & v = r.pick(p.vars);
            if (v.has && r.chance(1, 3)) consts.push_back(P::U(v.bsize + r.below(3) - 1));
            if (v.fmt == F_BLOB) consts.push_back(P::U(v.size));
            else if (v.fmt == F_FLOAT) {
                double d; if (v.size == 4) { float f; u32 x = (u32) v.value; memcpy(&f, &x, 4); d = f; } else memcpy(&d, &v.value, 8);
                if (r.chance(1, 4)) d = std::nextafter(d, r.chance(1, 2) ? 1e308 : -1e308);
                if (r.chance(1, 6)) d += 1;
                consts.push_back(P::D(d));
                if (std::fabs(d) < 1e15 && r.chance(1, 2)) consts.push_back(P::I((i64) d));
            } else {
                u64 x = v.value + (r.chance(1, 3) ? r.below(3) - 1 : 0);
                consts.push_back(r.chance(1, 2) ? P::U(x) : P::I((i64) x));
                if (r.chance(1, 6)) consts.push_back(P::D((double)(i64) x));
                if (r.chance(1, 6)) consts.push_back(P::D((double) x));
                if (r.chance(1, 6)) consts.push_back(P::D((double)(i64) x + 0.5));
            }
        }
    }
    P constant() {
        if (!consts.empty() && r.chance(2, 3)) return r.pick(consts);
        switch (r.below(5)) {
        case 0: return P::U(Gen::interesting(r));
        case 1: return P::I((i64) Gen::interesting(r));
        case 2: { u64 b = Gen::floatBits(r, 8); double d; memcpy(&d, &b, 8); return P::D(d); }
        case 3: return P::I((i64) r.below(7) - 3);
        default: return P::U(r.below(5));
        }
    }
    P number(unsigned depth, unsigned nv) {
        if (depth == 0 || r.chance(1, 3)) {
            unsigned k = r.below(10);
            if (k < 5) return P::val(r.below(nv));
            if (k < 7) return P::size(r.below(nv));
            return constant();
        }
        static const u32 ops[] = {P_ADD, P_SUB, P_MUL, P_DIV, P_ADD, P_SUB, P_MUL};
        u32 o = ops[r.below(7)];
        return P(o, {number(depth - 1, nv), number(depth - 1, nv)});
    }
    P comparison(unsigned depth, unsigned nv) {
        static const u32 ops[] = {P_GT, P_GE, P_LT, P_LE, P_EQ};
        P a = number(depth, nv), b = number(r.chance(1, 2) ? 0 : depth, nv);
        if (r.chance(1, 2)) std::swap(a, b);
        return P(ops[r.below(5)], {a, b});
    }
    // a conjunction or disjunction of very many children, decided by few of them
    P wide(unsigned nv, unsigned nd) {
        bool all = r.chance(1, 2); P p(all ? P_AND : P_OR); u64 n = r.chance(1, 8) ? r.range(250, 300) : r.chance(1, 2) ? r.range(4, 12) : r.range(8, 40);
        P neutral = all ? P(P_AND) : P(P_OR); if (r.chance(1, 2)) { P c = P::U(r.next() >> 1); neutral = all ? P(P_LE, {c, c}) : P(P_LT, {c, c}); }
        p.ch.assign(n, neutral); for (u64 k = r.range(1, 2); k; k--) p.ch[r.chance(1, 2) ? n - 1 : r.below(n)] = comparison(nd, nv);
        return p;
    }
    // nested very deeply, to the left or to the right
    P deepNumber(unsigned nv) {
        P p = number(0, nv); bool left = r.chance(1, 2), mixed = r.chance(1, 3); u32 op = r.chance(1, 2) ? P_ADD : P_SUB;
        for (u64 n = r.chance(1, 4) ? r.range(60, 260) : r.range(6, 40); n; n--) { P c = r.chance(1, 8) ? number(0, nv) : r.chance(1, 2) ? P::I((i64) r.below(7) - 3) : P::U(r.below(3)); u32 o = mixed ? (u32[]) {P_ADD, P_SUB, P_MUL}[r.below(3)] : op; if (o == P_MUL) c = P::I(r.chance(1, 2) ? 1 : -1); p = left ? P(o, {p, c}) : P(o, {c, p}); }
        return p;
    }
    P deepBoolean(unsigned nv, unsigned nd) {
        P p = comparison(nd, nv);
        for (u64 n = r.chance(1, 4) ? r.range(60, 260) : r.range(6, 40); n; n--) { u64 k = r.below(4); if (k < 2) p = P(P_NOT, {p}); else { P c(k == 2 ? P_AND : P_OR); if (r.chance(1, 3)) c.ch.push_back(P(k == 2 ? P_AND : P_OR)); c.ch.push_back(p); if (r.chance(1, 3)) c.ch.push_back(P(k == 2 ? P_AND : P_OR)); p = c; } }
        return p;
    }
    P deep(unsigned nv) {
        if (r.chance(1, 2)) return deepBoolean(nv, r.below(2));
        static const u32 ops[] = {P_GT, P_GE, P_LT, P_LE, P_EQ}; P a = deepNumber(nv), b = number(0, nv); if (r.chance(1, 2)) std::swap(a, b); return P(ops[r.below(5)], {a, b});
    }
    P boolean(unsigned depth, unsigned nv, unsigned nd) {
        if (depth && r.chance(1, 12)) return wide(nv, nd);
        unsigned k = r.below(depth ? 10 : 5);
        if (k < 4) return comparison(nd, nv);
        if (k == 4) return P(P_DISTINCT, {P::V(r.below(nv)), P::V(r.below(nv))});
        if (k < 7) { P p(P_AND); for (u64 n = r.below(4); n; n--) p.ch.push_back(boolean(depth - 1, nv, nd)); return p; }
        if (k < 9) { P p(P_OR); for (u64 n = r.below(4); n; n--) p.ch.push_back(boolean(depth - 1, nv, nd)); return p; }
        return P(P_NOT, {boolean(depth - 1, nv, nd)});
    }
    std::vector<u32> typeSet() {
        std::vector<u32> t; u64 n = m.types.size();
        if (n > 20 && !r.chance(1, 10)) { // the types that occur, and ones whose index is similar
            std::vector<u32> u; for (int i = 0; i < 12 && !w.pts.empty(); i++) { const VPoint & p = r.pick(w.pts); if (!p.vars.empty()) u.push_back(r.pick(p.vars).type); }
            if (u.empty()) u.push_back(0);
            for (u64 k = r.range(1, 4); k; k--) { u32 x = r.pick(u); if (r.chance(1, 6)) x ^= 1u << r.below(18); t.push_back(x); }
            return t;
        }
        switch (r.below(8)) {
        case 0: break;
        case 1: for (u32 i = 0; i < n; i++) t.push_back(i); break;
        case 2: t.push_back(n ? r.below(n) : 0); if (n) { t.push_back(t[0]); t.push_back(r.below(n)); } break;
        case 3: t.push_back(n + r.below(3)); t.push_back(UINT32_MAX); if (n) t.push_back(r.below(n)); break;
        default: for (u64 k = r.range(1, 4); k && n; k--) t.push_back(r.below(n));
        }
        return t;
    }
    u64 product(const Query & q) {
        u64 worst = 0;
        for (auto & p : w.pts) { u64 c = 1; for (auto & f : q.free) { u64 k = 0; for (auto & v : p.vars) k += std::find(f.begin(), f.end(), v.type) != f.end(); c *= k; if (c > 1000000) break; } worst += c; }
        return worst;
    }
    void mask(Query & q) {
        switch (r.below(7)) {
        case 6: q.mask = r.chance(1, 2) ? 7 : r.next(); q.stmt = ((w.pts.empty() ? r.next() : r.pick(w.pts).stmt) & q.mask) | (~q.mask & Gen::interesting(r)); break; // cannot match if bits lie outside the mask
        case 0: q.mask = 0; q.stmt = 0; break;
        case 1: q.mask = UINT64_MAX; q.stmt = w.pts.empty() ? 3 : r.pick(w.pts).stmt; break;
        case 2: q.mask = 1ULL << r.below(64); q.stmt = r.chance(1, 2) ? q.mask : 0; break;
        case 3: q.mask = 7; q.stmt = r.below(8); break;
        case 4: q.mask = r.next(); q.stmt = (w.pts.empty() ? r.next() : r.pick(w.pts).stmt) & q.mask; break;
        default: q.mask = ((1ULL << 40) - 1); q.stmt = r.chance(1, 8) ? r.next() : w.pts.empty() ? 1 : r.pick(w.pts).stmt & q.mask;
        }
    }
    Query query(u64 limit = 4000) {
        Query q;
        u64 nf = r.chance(1, 12) ? 0 : r.chance(1, 20) ? r.range(5, 9) : r.range(1, r.chance(1, 4) ? 4 : 2);
        for (u64 i = 0; i < nf; i++) q.free.push_back(i && r.chance(1, 4) ? q.free[0] : typeSet());
        while (product(q) > limit) { if (q.free.size() > 1) q.free.pop_back(); else { if (q.free[0].size() > 1) q.free[0].pop_back(); else q.free[0].clear(); } }
        q.hardNullPtr = r.chance(1, 2);
        return q;
    }
};
#endif
