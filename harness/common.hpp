// Common parts of the harnesses: random numbers, statistics, case loop.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64;

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) { next(); next(); }
    u64 next() {
        u64 z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template<class T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
    // heavy-tailed size: mostly small, sometimes large
    u64 heavy(u64 small, u64 large) {
        u64 r = below(100);
        if (r < 80) return below(small + 1);
        if (r < 97) return below(small * 4 + 1);
        return below(large + 1);
    }
};

inline u64 mix(u64 a, u64 b) {
    u64 x = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x632be59bd9b4e019ULL + (a << 6) + (a >> 2));
    x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 32;
    return x;
}
inline u64 hashBytes(const std::string & s, u64 h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h ^ (h >> 29);
}

struct Failure : std::runtime_error { Failure(const std::string & m) : std::runtime_error(m) {} };

#if defined(__GNUC__)
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
#endif
#include <cstdarg>
inline std::string fmt(const char *f, ...) {
    char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
#define CHECK(cond, ...) do { if (!(cond)) throw Failure(fmt(__VA_ARGS__)); } while (0)

inline std::string jstr(const std::string & s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

struct Stats {
    std::map<std::string, u64> n;
    std::unordered_set<u64> distinct;
    std::vector<std::string> samples;
    u64 evaluations = 0;
    void add(const char *k, u64 v = 1) { n[k] += v; }
    void maxi(const char *k, u64 v) { u64 & x = n[k]; if (v > x) x = v; }
    void nontrivial(u64 h) { distinct.insert(h); }
    void sample(const std::string & s) { if (samples.size() < 3) samples.push_back(s); }
    void dump(const std::string & f) const {
        if (f.empty()) return;
        FILE *o = fopen(f.c_str(), "wb"); if (!o) return;
        for (u64 h : distinct) fwrite(&h, 8, 1, o);
        fclose(o);
    }
    void print() const {
        printf("STATS {\"evaluations\":%llu,\"distinct\":%llu,\"n\":{", (unsigned long long) evaluations,
               (unsigned long long) distinct.size());
        bool f = true;
        for (auto & kv : n) { printf("%s%s:%llu", f ? "" : ",", jstr(kv.first).c_str(), (unsigned long long) kv.second); f = false; }
        printf("},\"samples\":[");
        for (size_t i = 0; i < samples.size(); i++) printf("%s%s", i ? "," : "", jstr(samples[i]).c_str());
        printf("]}\n"); fflush(stdout);
    }
};
extern Stats S;

struct Ctx {
    std::string prop, scratch, tier = "quick", progress, distinct, exe;
    u64 seed = 1, from = 0, count = 1;
    double budget = 0;
    unsigned case_timeout = 120;
    bool thorough() const { return tier == "thorough"; }
    std::string path(const char *n) const { return scratch + "/" + n; }
};
extern Ctx C;

inline double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }

inline void writeFile(const std::string & p, const std::string & d) {
    int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0) { fprintf(stderr, "HARNESS-ERROR cannot write %s: %s\n", p.c_str(), strerror(errno)); exit(70); }
    size_t o = 0;
    while (o < d.size()) {
        ssize_t k = ::write(fd, d.data() + o, d.size() - o);
        if (k < 0) { if (errno == EINTR) continue; fprintf(stderr, "HARNESS-ERROR write %s: %s\n", p.c_str(), strerror(errno)); exit(70); }
        o += k;
    }
    ::close(fd);
}
inline std::string readFile(const std::string & p) {
    std::string r; FILE *f = fopen(p.c_str(), "rb"); if (!f) return r;
    char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k); fclose(f); return r;
}

typedef void (*CaseFn)(Rng &, u64);
int caseMain(int argc, char **argv, const std::map<std::string, CaseFn> & table);
#endif
