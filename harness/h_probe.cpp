// Prints how the compiler sees the C interface: sizes, offsets, types and constants.
#include "trace.h"
#include "trace-db.h"
#include "QueryObjects.hpp"
#include "TypeDescription.hpp"
#include <cstdio>
#include <cstddef>
#include <string>
#include <type_traits>
template<class T> std::string ty() {
    if (std::is_void<T>::value) return "void";
    if (std::is_pointer<T>::value) return "ptr";
    if (std::is_floating_point<T>::value) return "f" + std::to_string(sizeof(typename std::conditional<std::is_void<T>::value, int, T>::type));
    if (std::is_enum<T>::value) return "enum" + std::to_string(sizeof(typename std::conditional<std::is_void<T>::value, int, T>::type));
    if (std::is_integral<T>::value) return std::string(std::is_signed<T>::value ? "i" : "u") + std::to_string(sizeof(typename std::conditional<std::is_void<T>::value, int, T>::type));
    return "other" + std::to_string(sizeof(typename std::conditional<std::is_void<T>::value, int, T>::type));
}
template<class R, class... A> void fn(const char *n, R (*)(A...)) {
    printf("fn %s %s", n, ty<R>().c_str()); const std::string a[] = {ty<A>()..., ""}; for (size_t i = 0; i < sizeof...(A); i++) printf(" %s", a[i].c_str()); printf("\n");
}
#define FN(x) fn(#x, &x)
#define ST(s) printf("struct %s %zu\n", #s, sizeof(s))
#define FL(s, f) printf("field %s %s %zu %zu %s\n", #s, #f, offsetof(s, f), sizeof(((s *) 0)->f), ty<decltype(((s *) 0)->f)>().c_str())
#define EN(e, v) printf("enum %s %s %lld\n", #e, #v, (long long) v)
int main() {
    ST(c_trace_var_info_struct); FL(c_trace_var_info_struct, value); FL(c_trace_var_info_struct, format); FL(c_trace_var_info_struct, var_name_index); FL(c_trace_var_info_struct, type_name_index); FL(c_trace_var_info_struct, size); FL(c_trace_var_info_struct, buffer_size); FL(c_trace_var_info_struct, has_buffer_size);
    ST(c_trace_point_struct); FL(c_trace_point_struct, statement); FL(c_trace_point_struct, vars); FL(c_trace_point_struct, n_vars); FL(c_trace_point_struct, aux); FL(c_trace_point_struct, n_aux);
    ST(c_predicate); FL(c_predicate, kind); FL(c_predicate, n_children); FL(c_predicate, var_index); FL(c_predicate, unsigned_value); FL(c_predicate, signed_value); FL(c_predicate, float_value); FL(c_predicate, children);
    ST(c_free_variable); FL(c_free_variable, n_allowed_types); FL(c_free_variable, allowed_types);
    EN(type_format, UNSIGNED); EN(type_format, SIGNED); EN(type_format, FLOAT); EN(type_format, POINTER); EN(type_format, BLOB); EN(type_format, INVALID_FORMAT);
    FN(read_trace); FN(trace_size); FN(get_points); FN(n_types); FN(get_types); FN(n_names); FN(get_names); FN(free_trace); FN(free_trace_points);
    FN(create_db); FN(add_trace); FN(add_trace_points); FN(get_trace); FN(n_traces); FN(serialize_trace_db); FN(deserialize_trace_db); FN(free_db); FN(query_trace); FN(free_c_predicate);
}
