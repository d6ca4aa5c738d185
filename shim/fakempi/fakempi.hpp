#pragma once
#include "mpi.h"
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
namespace fmpi
{
enum Mode
{
    Eager,      // a send is buffered when it is posted; data arrives when the receive completes
    Rendezvous, // data is taken from the send buffer when the first side completes
    Immediate,  // ... and put into the receive buffer as soon as both are posted
    Modes
};
// The ranks as tasks, switched at calls of the message layer.  Switches other than to the next
// rank when one has to wait, and transfers that complete late, spend deviations.
void run(int n, int mode, const std::function<void(int)>& body);
int rank(); // of the running task
void begin();                      // forget everything (run() does it too)
MPI_Comm makeComm(std::vector<int> worldRanks);
void provide(int threadLevel);     // what MPI_Init_thread grants
int inits();
int finalizes();
int requiredLevel();               // of the last MPI_Init_thread, -1 for MPI_Init
std::size_t active();              // transfers of the running rank that are not complete
std::size_t activeIn(const void* from, std::size_t bytes); // ... of them in this memory
std::size_t posted();              // transfers posted so far by all ranks
void checkpoint();                 // may switch ranks
#ifdef KK_STANDALONE
extern std::vector<int> answers; // of the decisions, in order; 0 afterwards
#endif
}
