/* The RTI as a node: its unchanged main file with the entry point renamed. */
#define main rti_main
#include "main.c"
#undef main
int node_main(int argc, char** argv) { return rti_main(argc, (const char**)argv); }
#include "trace_wrap.h"
