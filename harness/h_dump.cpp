// Reads traces through the C interface and prints what it got, one file per line of standard input ("path timeout limit").
#include "capi.hpp"
#include "interpose.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <iostream>
static void hex(const void *p, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char *) p)[i]); }
int main() {
    std::string path; unsigned long timeout, limit;
    while (std::cin >> path >> timeout >> limit) {
        void *t = read_trace(path.c_str(), timeout, limit);
        if (!t) { printf("FAILED\n"); fflush(stdout); continue; }
        uint32_t nn = n_names(t), nt = n_types(t); uint64_t np = trace_size(t);
        printf("OK %u %u %llu\n", nn, nt, (unsigned long long) np);
        const char **a = get_names(t); for (uint32_t i = 0; i < nn; i++) { printf("N "); hex(a[i], strlen(a[i])); printf("\n"); } free(a);
        a = get_types(t); for (uint32_t i = 0; i < nt; i++) { printf("T "); hex(a[i], strlen(a[i])); printf("\n"); } free(a);
        CPoint *p = get_points(t);
        for (uint64_t i = 0; i < np; i++) {
            printf("P %llu %u %u\n", (unsigned long long) p[i].statement, p[i].n_vars, p[i].n_aux);
            for (uint32_t k = 0; k < p[i].n_vars; k++) {
                CVar & v = p[i].vars[k]; printf("V %u %u %u %u %u %llu ", v.format, v.var_name_index, v.type_name_index, v.size, v.has_buffer_size ? 1 : 0, v.has_buffer_size ? (unsigned long long) v.buffer_size : 0);
                if (v.format == F_BLOB) hex(v.value.ptr, v.size);
                else if (v.format == F_FLOAT) { if (v.size == 4) hex(&v.value.f, 4); else hex(&v.value.d, 8); }
                else if (v.format == F_SIGNED) printf("%lld", (long long) v.value.s);
                else printf("%llu", (unsigned long long) v.value.u);
                printf("\n");
            }
        }
        free_trace_points(p, np); free_trace(t);
        printf("END\n"); fflush(stdout);
    }
    return 0;
}
