// Included once per harness binary.
#include "common.hpp"
#include <sys/mman.h>
Stats S; Ctx C;

int caseMain(int argc, char **argv, const std::map<std::string, CaseFn> & table) {
    C.exe = argv[0];
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") C.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--from") C.from = strtoull(val().c_str(), 0, 10);
        else if (a == "--count") C.count = strtoull(val().c_str(), 0, 10);
        else if (a == "--scratch") C.scratch = val();
        else if (a == "--tier") C.tier = val();
        else if (a == "--progress") C.progress = val();
        else if (a == "--distinct") C.distinct = val();
        else if (a == "--budget") C.budget = atof(val().c_str());
        else if (a == "--case-timeout") C.case_timeout = atoi(val().c_str());
        else C.prop = a;
    }
    auto it = table.find(C.prop);
    if (it == table.end()) { fprintf(stderr, "HARNESS-ERROR unknown property %s\n", C.prop.c_str()); return 70; }
    int pfd = C.progress.empty() ? -1 : ::open(C.progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    u64 *prog = nullptr;
    if (pfd >= 0) {
        if (ftruncate(pfd, 4096)) return 70;
        prog = (u64 *) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, pfd, 0);
        ::close(pfd);
    }
    double t0 = now();
    for (u64 i = C.from; i < C.from + C.count; i++) {
        if (C.budget > 0 && now() - t0 > C.budget) { S.add("stopped_by_budget"); break; }
        if (prog) *prog = i + 1;
        alarm(C.case_timeout);
        u64 ph = 0; for (char c : C.prop) ph = ph * 131 + (u8) c;
        Rng r(mix(mix(C.seed, ph), i));
        try { S.evaluations++; it->second(r, i); }
        catch (const Failure & f) {
            printf("FAIL {\"case\":%llu,\"msg\":%s}\n", (unsigned long long) i, jstr(f.what()).c_str());
            S.print(); S.dump(C.distinct); fflush(stdout);
            _exit(3);
        }
        catch (const std::exception & e) {
            printf("FAIL {\"case\":%llu,\"msg\":%s}\n", (unsigned long long) i,
                   jstr(std::string("exception escaped to the caller: ") + e.what()).c_str());
            S.print(); S.dump(C.distinct); fflush(stdout);
            _exit(3);
        }
        alarm(0);
    }
    if (prog) *prog = 0;
    S.print(); S.dump(C.distinct);
    return 0;
}
