#ifndef SIM_SHM_HPP
#define SIM_SHM_HPP
#include "core.hpp"
enum { MAXSW = 200000 };
struct Shm {
    uint32_t cmd_len; char cmd[1 << 20];
    char fatal[2048]; int cur_step; int finished; int shared_changed;
    uint32_t log_len, nlog; int log_full; char log[8 << 20];
    uint64_t final_hash, nswitch, sched_hash; uint32_t nsw; sim::Switch sw[MAXSW];
};
namespace ex { void run_child(Shm*); void probe_child(Shm*); void warm_up(); void dump_switches(Shm*); extern Shm* fatal_shm; }
#endif
