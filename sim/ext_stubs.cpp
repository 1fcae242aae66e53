// Default stand-ins for the external partitioners: properties that use them override these.
#include <mpi.h>
#include <mc.h>
#include <parmetis.h>
#include <zoltan.h>
#define W extern "C" __attribute__((weak))
#define NO(f) mc_fail("the external partitioner was called (" f ") where no partitioner may be used")
W int ParMETIS_V3_PartKway(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*, MPI_Comm*) { NO("ParMETIS_V3_PartKway"); }
W int Zoltan_Initialize(int, char**, float*) { NO("Zoltan_Initialize"); }
W struct Zoltan_Struct* Zoltan_Create(MPI_Comm) { NO("Zoltan_Create"); }
W int Zoltan_Set_Param(struct Zoltan_Struct*, const char*, const char*) { NO("Zoltan_Set_Param"); }
W int Zoltan_Set_Fn(struct Zoltan_Struct*, ZOLTAN_FN_TYPE, void (*)(), void*) { NO("Zoltan_Set_Fn"); }
W int Zoltan_LB_Partition(struct Zoltan_Struct*, int*, int*, int*, int*, ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, int**, int*, ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, int**) { NO("Zoltan_LB_Partition"); }
W int Zoltan_LB_Free_Part(ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, int**) { NO("Zoltan_LB_Free_Part"); }
W void Zoltan_Destroy(struct Zoltan_Struct**) { NO("Zoltan_Destroy"); }
