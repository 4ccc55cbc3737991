// Small builder for C predicates; everything lives as long as the builder.
#ifndef VERIF_QTYPES
#define VERIF_QTYPES
#include <deque>
#include "capi.hpp"
struct PB {
    std::deque<CPred> nodes; std::deque<std::vector<CPred>> kids;
    CPred *leaf(u32 k) { CPred c; memset(&c, 0, sizeof c); c.kind = k; nodes.push_back(c); return &nodes.back(); }
    CPred *ref(u64 i) { CPred *c = leaf(P_VAR_REFERENCE); c->var_index = i; return c; }
    CPred *si(i64 v) { CPred *c = leaf(P_SIGNED); c->signed_value = v; return c; }
    CPred *ui(u64 v) { CPred *c = leaf(P_UNSIGNED); c->unsigned_value = v; return c; }
    CPred *fl(double v) { CPred *c = leaf(P_FLOAT); c->float_value = v; return c; }
    CPred *un(u32 k, CPred *a) { kids.push_back({*a}); CPred *c = leaf(k); c->n_children = 1; c->children = kids.back().data(); return c; }
    CPred *bin(u32 k, CPred *a, CPred *b) { kids.push_back({*a, *b}); CPred *c = leaf(k); c->n_children = 2; c->children = kids.back().data(); return c; }
    CPred *val(u64 i) { return un(P_VAR_VALUE, ref(i)); }
    CPred *size(u64 i) { return un(P_VAR_SIZE, ref(i)); }
};
#endif
