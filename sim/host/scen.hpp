// Scenario description carried in a plan and its rendering as a program configuration.
#pragma once
#include "core.hpp"
struct Probe { std::string comp, specie, shape; int r0 = 0, z0 = 0, r1 = 0, z1 = 0, sched = 1; };
std::vector<Probe> parse_probes(const std::string &);
std::string format_probes(const std::vector<Probe> &);
std::string probe_path(const Probe &);
std::string make_config(const Plan &, int group);
Plan gen_plan(const std::string &prop, u64 seed, int tier);
bool plan_read(const char *file, Plan &p);
void plan_write(const char *file, const Plan &p);
