#include "pmr.h"
#include "replay.cpp"
namespace zvf
{
std::string memoryProblem;
}
