// A small double-precision reference of one particle-in-cell step on the whole (undivided) mesh.
// It is written from the equations (Yee mesh, relativistic Boris push, charge-conserving current),
// knows nothing about processes, threads, ghost cells or sorting, and is fed from recorded states.
#pragma once
#include "phys.hh"

struct Mesh { // one scalar per global mesh entity; NAN where nothing was recorded
  int e[3];
  std::vector<double> v;
  void init(const int *ext) {
    for (int a = 0; a < 3; a++) e[a] = ext[a];
    v.assign((size_t)e[0] * e[1] * e[2], NAN);
  }
  double &at(int i, int j, int k) { return v[i + (size_t)e[0] * (j + (size_t)e[1] * k)]; }
  double at(int i, int j, int k) const { return v[i + (size_t)e[0] * (j + (size_t)e[1] * k)]; }
};
enum { M_EX, M_EY, M_EZ, M_BX, M_BY, M_BZ, M_JX, M_JY, M_JZ, M_TX, M_TY, M_TZ, M_N };
struct Fields {
  Mesh m[M_N];
  double emax = 0, bmax = 0, jmax = 0;
};

void gather_fields(const World3 &w, const StepView &s, Fields &f);

struct Kicked {
  double u[3];
};
// momentum after the half-step acceleration, rotation and half-step acceleration at particle p
void boris(const World3 &w, const Fields &f, const GP &p, double qdt_2mc, double dt, double u[3]);
// momentum with only half the electric kick (time-centred), used by the energy diagnostics
void half_kick(const World3 &w, const Fields &f, const GP &p, double qdt_2mc, double u[3]);

struct Move {
  double x[3], u[3];
  bool alive = true;
  int crossings = 0;
  double margin = 1;
  int bounces = 0;
  int hit = -1; // the wall that ended the path (0-5: -x -y -z +x +y +z), the cell it was reached in and the part of the step left
  int cell[3] = {0, 0, 0};
  double left = 0;
};
// straight-line motion over one step through the periodic / walled box, depositing current into j (if given)
// margin: how close (in cells) the path came to touching an edge or to stopping on a face
Move drift(const World3 &w, const GP &p, const double u[3], double qw, double cdt, double dt, Mesh *j);

// charge density of all particles (trilinear) and bound charge at global nodes, counted with every copy
void charge_density(const World3 &w, const StepView &s, const std::vector<double> &q, Mesh &rho, double *scale);
// (div E - rho/eps0) at nodes; NAN on walls, except mirroring ones if fw (what each wall does to fields) is given
void gauss_residual(const World3 &w, const StepView &s, const Fields &f, const std::vector<double> &q, Mesh &res, double *scale,
                    const int *fw = nullptr);
double species_mass(const ExecOpts &o, int k);
void centred(const World3 &w, const Fields &f, const GP &p, double qdt_2mc, double u[3]);
struct Mat {
  double eps[3], mu[3], sig[3];
  bool conducts() const { return sig[0] != 0 || sig[1] != 0 || sig[2] != 0; }
};
std::vector<Mat> materials_of(const ExecOpts &o); // by material number
