/* Simulated Zoltan: an adversarial, seeded partitioner that also checks what
 * dccrg tells it through the query functions. */
#ifndef SIM_ZOLTAN_H
#define SIM_ZOLTAN_H
#include "mpi.h"
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned int ZOLTAN_ID_TYPE;
typedef ZOLTAN_ID_TYPE* ZOLTAN_ID_PTR;
struct Zoltan_Struct;
#define ZOLTAN_OK 0
#define ZOLTAN_WARN 1
#define ZOLTAN_FATAL -1
#define ZOLTAN_MEMERR -2
#define ZOLTAN_COMPRESSED_EDGE 1
#define ZOLTAN_COMPRESSED_VERTEX 2

typedef int ZOLTAN_NUM_OBJ_FN(void*, int*);
typedef void ZOLTAN_OBJ_LIST_FN(void*, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR, int, float*, int*);
typedef int ZOLTAN_NUM_GEOM_FN(void*, int*);
typedef void ZOLTAN_GEOM_MULTI_FN(void*, int, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR, int, double*, int*);
typedef void ZOLTAN_NUM_EDGES_MULTI_FN(void*, int, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR, int*, int*);
typedef void ZOLTAN_EDGE_LIST_MULTI_FN(void*, int, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR, int*, ZOLTAN_ID_PTR, int*, int, float*, int*);
typedef void ZOLTAN_HG_SIZE_CS_FN(void*, int*, int*, int*, int*);
typedef void ZOLTAN_HG_CS_FN(void*, int, int, int, int, ZOLTAN_ID_PTR, int*, ZOLTAN_ID_PTR, int*);
typedef void ZOLTAN_HG_SIZE_EDGE_WTS_FN(void*, int*, int*);
typedef void ZOLTAN_HG_EDGE_WTS_FN(void*, int, int, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR, float*, int*);
typedef int ZOLTAN_HIER_NUM_LEVELS_FN(void*, int*);
typedef int ZOLTAN_HIER_PART_FN(void*, int, int*);
typedef void ZOLTAN_HIER_METHOD_FN(void*, int, struct Zoltan_Struct*, int*);

int Zoltan_Initialize(int, char**, float*);
struct Zoltan_Struct* Zoltan_Create(MPI_Comm);
struct Zoltan_Struct* Zoltan_Copy(struct Zoltan_Struct const*);
void Zoltan_Destroy(struct Zoltan_Struct**);
int Zoltan_Set_Param(struct Zoltan_Struct*, const char*, const char*);
#define SIM_ZFN(N, T) int Zoltan_Set_##N##_Fn(struct Zoltan_Struct*, T*, void*);
SIM_ZFN(Num_Obj, ZOLTAN_NUM_OBJ_FN)
SIM_ZFN(Obj_List, ZOLTAN_OBJ_LIST_FN)
SIM_ZFN(Num_Geom, ZOLTAN_NUM_GEOM_FN)
SIM_ZFN(Geom_Multi, ZOLTAN_GEOM_MULTI_FN)
SIM_ZFN(Num_Edges_Multi, ZOLTAN_NUM_EDGES_MULTI_FN)
SIM_ZFN(Edge_List_Multi, ZOLTAN_EDGE_LIST_MULTI_FN)
SIM_ZFN(HG_Size_CS, ZOLTAN_HG_SIZE_CS_FN)
SIM_ZFN(HG_CS, ZOLTAN_HG_CS_FN)
SIM_ZFN(HG_Size_Edge_Wts, ZOLTAN_HG_SIZE_EDGE_WTS_FN)
SIM_ZFN(HG_Edge_Wts, ZOLTAN_HG_EDGE_WTS_FN)
SIM_ZFN(Hier_Num_Levels, ZOLTAN_HIER_NUM_LEVELS_FN)
SIM_ZFN(Hier_Part, ZOLTAN_HIER_PART_FN)
SIM_ZFN(Hier_Method, ZOLTAN_HIER_METHOD_FN)
#undef SIM_ZFN
int Zoltan_LB_Balance(struct Zoltan_Struct*, int*, int*, int*, int*, ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, int*, ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**);
int Zoltan_LB_Partition(struct Zoltan_Struct*, int*, int*, int*, int*, ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, int**, int*, ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, int**);
int Zoltan_LB_Free_Data(ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**);
int Zoltan_LB_Free_Part(ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, int**);
#ifdef __cplusplus
}
#endif
#endif
