// Executable reference model of the numerical scheme: one step of it, from a recorded state to the next one.
#pragma once
#include "core.hpp"
#include "oracle.hpp"
#include "scen.hpp"
#include "../simapi.h"
#include "sched.hpp"
#include <unordered_map>
#include <unordered_set>
struct Part { SimParticle s; int rank, dom; bool beam; std::string sp; unsigned spid; void *ptr; const SimPutOps *ops; };
struct DomBox { int rank; unsigned i, j; size_t d[4]; double dr, dz; };
struct Snap {
  int reported = 0;
  std::vector<Part> parts;
  std::vector<DomBox> boxes;
  std::vector<double> f[4][3];         // E, H, H at E time, J : global interior
  double t = 0;
};
extern int NR, NZ;
std::string pstr(const Part &p);
void model_seed_fields(SimView *v, double e, double h, u64 seed);
void model_velocities(struct Rank *r, SimView *v);
void model_fields(long step, const Snap &before, const Snap &after);
void model_push(long step, const Snap &before, const Snap &fields, const Snap &after);
void model_current(long step, const Snap &adv, const Snap &cur);
void model_initial(const Snap &s);
void model_moments(long step, const Snap &s, const struct H5File &f);
