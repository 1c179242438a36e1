#pragma once
#include "sim.h"
struct SFile { std::string path, data; int node = 0; bool closed = false; int failed = 0; u64 writes = 0; };
extern std::map<std::string, SFile *> sfiles;
