// Boundary interposition: system calls (and, without sanitizers, allocation) made by the code under test.
#ifndef VERIF_INTERPOSE_HPP
#define VERIF_INTERPOSE_HPP
#include <cstdint>
#include <cstddef>
struct ReadPlan {
    bool active = false;
    int fail_at = -1;         // index of the read call that fails
    int fail_errno = 5;
    size_t max_chunk = 0;     // 0: unlimited
    uint64_t chunk_seed = 0;  // nonzero: random chunk sizes up to max_chunk
    // observed
    int calls = 0; int failed = 0; size_t bytes = 0;
    int fail_syscall = -1;    // index among open/poll/select/fcntl calls which fails
    bool poll_times_out = false;   // a failing poll reports a timeout instead of an error
    int syscalls = 0; int sys_failed = 0;
};
extern __thread ReadPlan RP;
#if defined(VERIF_MALLOC) || defined(VERIF_NEW)
#define VERIF_ALLOC_FAULTS 1
struct AllocPlan {
    bool active = false; long fail_at = -1; bool sticky = false;
    long calls = 0; long failed = 0;
};
extern __thread AllocPlan AP;
#endif
#ifdef VERIF_MALLOC
extern "C" long live_bytes(); extern "C" long live_blocks();
#endif
#endif
