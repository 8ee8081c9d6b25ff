/* interface-only stand-in: parsed, never linked */
#pragma once
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Request;
typedef struct { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; } MPI_Status;
#define MPI_COMM_WORLD 0
#define MPI_COMM_NULL 1
#define MPI_CHAR 1
#define MPI_REQUEST_NULL 0
#define MPI_ANY_SOURCE -1
#define MPI_ANY_TAG -1
#define MPI_THREAD_MULTIPLE 3
#define MPI_THREAD_FUNNELED 1
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
extern "C" {
int MPI_Init_thread(int*, char***, int, int*); int MPI_Initialized(int*); int MPI_Finalized(int*); int MPI_Finalize(void); int MPI_Query_thread(int*);
int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*); int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*); int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Test(MPI_Request*, int*, MPI_Status*); int MPI_Cancel(MPI_Request*); int MPI_Request_free(MPI_Request*); int MPI_Wait(MPI_Request*, MPI_Status*); int MPI_Comm_dup(MPI_Comm, MPI_Comm*); int MPI_Comm_free(MPI_Comm*); int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Barrier(MPI_Comm);
}
