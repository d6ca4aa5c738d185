// Stand-in for the one MPI call the error macros make.
#pragma once
namespace mc
{
[[noreturn]] void exitCalled(int code);
}
typedef int MPI_Comm;
#define MPI_COMM_WORLD 91
[[noreturn]] inline int MPI_Abort(MPI_Comm c, int code)
{
    ::mc::exitCalled(c == MPI_COMM_WORLD ? code : 0);
}
