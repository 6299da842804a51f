/* See mpi.h: the calls of BigMPI */
#ifndef vf_bigmpi_h
#define vf_bigmpi_h
#include "mpi.h"
inline int MPIX_Send_x(const void* data, MPI_Count n, MPI_Datatype t, int dest, int tag,
                       MPI_Comm c)
{
  return MPI_Send(data, n, t, dest, tag, c);
}
inline int MPIX_Recv_x(void* data, MPI_Count n, MPI_Datatype t, int source, int tag, MPI_Comm c,
                       MPI_Status* status)
{
  return MPI_Recv(data, n, t, source, tag, c, status);
}
inline int MPIX_Isend_x(const void* data, MPI_Count n, MPI_Datatype t, int dest, int tag,
                        MPI_Comm c, MPI_Request* request)
{
  return MPI_Isend(data, n, t, dest, tag, c, request);
}
inline int MPIX_Irecv_x(void* data, MPI_Count n, MPI_Datatype t, int source, int tag, MPI_Comm c,
                        MPI_Request* request)
{
  return MPI_Irecv(data, n, t, source, tag, c, request);
}
inline int MPIX_Bcast_x(void* data, MPI_Count n, MPI_Datatype t, int root, MPI_Comm c)
{
  return MPI_Bcast(data, n, t, root, c);
}
#endif
