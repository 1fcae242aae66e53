/* Services the simulator (the mc executable) offers to the code of a rank, and the entry points
   a harness library must provide. */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
/* ---- offered by the simulator ---- */
int  mc_rank(void);                      /* world rank of the calling fiber; -1 in mc_judge */
int  mc_size(void);
uint64_t mc_case(void);
int  mc_thorough(void);
void mc_post(const void* data, size_t n);/* append a record to this rank's observation log */
int  mc_choose(int n, const char* what); /* enumerated exhaustively, at no cost to the bound */
void mc_fail(const char* fmt, ...) __attribute__((noreturn,format(printf,1,2)));
void mc_trace(const char* fmt, ...) __attribute__((format(printf,1,2)));
void mc_transition(uint64_t n);          /* count n explored transitions (operations) */
void mc_state(uint64_t hash);            /* record a distinct abstract state */
void mc_trace_validated(void);           /* one model trace replayed against the code and agreed */
void mc_hash_bytes(uint64_t* h, const void* p, size_t n);
void mc_world_sync(void);                /* out of band rendezvous of all ranks (no MPI) */
int  mc_open_comms(int rank);            /* communicators this rank created and did not free */
uint64_t mc_msgs_hash(int rank);         /* hash of all messages sent by the rank so far */
uint64_t mc_msgs_count(int rank);
long* mc_shared(void);                   /* 4096 longs seen by all ranks, zero at the start (the first 64 count for progress) */
void mc_may_stop(int on);                /* (isolated cases) from here on this rank may abort, throw or exit: the execution then ends and is judged */
int  mc_stopped(void);                   /* in mch_judge: 0 all ranks finished, 1 a rank stopped with an error */
int  mc_in_flight(void);                 /* sent and not yet received messages */
/* (cases with params.baseline) NULL if the executions of this case agree so far on the value called key of the
   calling rank, else the value of the first execution, and its size in m */
const void* mc_same(int key, const void* p, size_t n, size_t* m);
const void* mc_same_as(int who, int key, const void* p, size_t n, size_t* m);   /* for what is not told apart by the rank in MPI_COMM_WORLD */
const char* mc_scratch(void);            /* private scratch directory of this worker */
char* mc_output(size_t* n);               /* (malloc) what was written to stdout/stderr so far */
/* ---- provided by the harness library ---- */
typedef struct { const void* p; size_t n; } mc_blob;
const char* mch_property(void);
uint64_t mch_num_cases(int thorough);
/* fills the parameters of a case */
typedef struct {
  int ranks;        /* 1..MC_MAX_RANKS */
  int deviations;   /* bound on preemptions + delays + arrival reorderings */
  int policies;     /* bitmask of base schedules: see mc.cpp */
  int shards;       /* informative */
  int baseline;     /* executions of the case are compared with mc_same: to repeat one, repeat the first one before it */
  int isolate;      /* run each execution in a process of its own (deviations must be 0, no mc_choose) */
} mc_params;
void mch_params(uint64_t c, mc_params* p);
void mch_describe(uint64_t c, char* buf, size_t n);
void mch_rank_main(uint64_t c);
/* logs[r] is an array of counts[r] records */
void mch_judge(uint64_t c, int nranks, const mc_blob* const* logs, const int* counts);
#define MC_MAX_RANKS 18
#define MC_POL_RTB 1        /* run each rank until it blocks, ascending */
#define MC_POL_RTB_DESC 2   /* same, descending */
#define MC_POL_RR 4         /* switch at every MPI call */
#define MC_POL_HOLD 8       /* run to block; every message is delayed until nothing else can move */
#define MC_POL_STARVE 16    /* for each rank r: r runs only when nobody else can */
#define MC_POL_FAVOR 32     /* for each rank r: r runs whenever it can, others held back */
#define MC_POL_HOLD_RR 64
#define MC_POL_ALL 127
#ifdef __cplusplus
}
#endif
#endif
