#pragma once
#include "sim.h"
namespace sim {
struct Result { int done, status; char cls[64]; char text[3000]; u64 hash, shash; Stats st; u64 sim_ns; int np; char pn[200][40]; u64 pv[200]; char ops[200000]; u64 nops; u64 cpu_us; char sample[2000]; };
extern Result* g_res; extern std::string g_libdir; extern std::function<void()> g_on_finish;
void install_crash_handlers(int cpu_sec);
}
