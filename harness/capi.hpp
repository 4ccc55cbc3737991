// The C interface as a client sees it (own declarations, as the Lisp binding has).
#ifndef VERIF_CAPI_HPP
#define VERIF_CAPI_HPP
#include <cstdint>
extern "C" {
union CValue { uint64_t u; int64_t s; float f; double d; void *ptr; };
struct CVar {
    CValue value; uint32_t format, var_name_index, type_name_index, size;
    uint64_t buffer_size; uint8_t has_buffer_size;
};
struct CPoint { uint64_t statement; CVar *vars; uint32_t n_vars; uint64_t *aux; uint32_t n_aux; };
struct CPred {
    uint32_t kind; uint64_t n_children, var_index, unsigned_value; int64_t signed_value;
    double float_value; CPred *children;
};
struct CFree { uint32_t n_allowed_types; uint32_t *allowed_types; };

void *read_trace(const char *, uint32_t, uint64_t);
uint64_t trace_size(const void *);
CPoint *get_points(const void *);
uint32_t n_types(const void *);
const char **get_types(const void *);
uint32_t n_names(const void *);
const char **get_names(const void *);
void free_trace(void *);
void free_trace_points(CPoint *, uint64_t);
void *create_db();
int add_trace(void *, const char *, uint32_t, uint64_t);
int add_trace_points(void *, CPoint *, uint64_t, char **, uint32_t);
const void *get_trace(const void *, uint32_t);
uint32_t n_traces(const void *);
char *serialize_trace_db(const void *);
void *deserialize_trace_db(const char *);
void free_db(void *);
void free_c_predicate(CPred *);
void query_trace(const void *, uint64_t, const CFree *, uint32_t, const CPred *, const CPred **, uint32_t,
                 uint32_t, uint8_t, uint64_t, uint64_t, CPoint **, uint64_t *);
}
enum { F_UNSIGNED, F_SIGNED, F_FLOAT, F_POINTER, F_BLOB, F_INVALID };
enum { T_END, T_STMT, T_VAR, T_SIZE, T_AUX };
enum { P_NULL, P_VAR_REFERENCE, P_VAR_SIZE, P_VAR_VALUE, P_DISTINCT, P_SIGNED, P_UNSIGNED, P_FLOAT,
       P_AND, P_OR, P_NOT, P_GT, P_GE, P_LT, P_LE, P_EQ, P_ADD, P_SUB, P_MUL, P_DIV };
#endif
