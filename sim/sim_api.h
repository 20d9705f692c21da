// C API offered by the simulator executable to the code that runs inside a simulated rank.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int  sim_rank(void);
int  sim_size(void);
// scenario parameters (strings owned by the simulator, valid for the whole run)
const char* sim_param(const char* key);              // nullptr if absent
double sim_param_d(const char* key, double def);
long   sim_param_i(const char* key, long def);
// publish a blob from this rank; kept by the simulator under (tag, rank), in publication order
void sim_publish(const char* tag, const void* data, size_t size);
// record a violation observed inside a rank (first one wins)
void sim_violation(const char* kind, const char* fmt, ...) __attribute__((format(printf,2,3)));
// free text note in the run log (part of the run hash)
void sim_note(const char* fmt, ...) __attribute__((format(printf,1,2)));
// counted coverage item
void sim_cover(const char* name, long n);
// what the calling code is doing (reported with the result, also when the run dies)
void sim_phase(const char* what);
// explicit possible context switch
void sim_yield(void);
// harness barrier: all ranks wait for each other; the last one to arrive runs fn(arg) (may be NULL)
// This is not an MPI call: no MPI fault applies to it.
void sim_barrier(void (*fn)(void*), void* arg);
// blobs of all ranks for a tag (only complete after a sim_barrier)
size_t sim_blob_count(const char* tag, int rank);
const void* sim_blob(const char* tag, int rank, size_t idx, size_t* size);
void sim_clear_blobs(const char* tag);
// seam points passed so far, all ranks
uint64_t sim_ops(void);
// true while the code is inside a simulated multi-thread region
int sim_in_parallel(void);
#ifdef __cplusplus
}
#endif
