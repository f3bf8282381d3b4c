#include "vspec.h"
#include "stokes.h"

/* ---- every active node gets its own equation, numbered without gaps ---- */
void H_number(void) {
  MESH_S;
  EvalNumberOfEquations(&mesh, &A);
  int nu = 0, nv = 0, np = 0;
  for (int l = 0; l < Nz+1; l++) for (int k = 0; k < Nx; k++)   if (actu(tu[k + l*Nx])) nu++;
  for (int l = 0; l < Nz; l++)   for (int k = 0; k < Nx+1; k++) if (actv(tv[k + l*(Nx+1)])) nv++;
  for (int l = 0; l < Ncz; l++)  for (int k = 0; k < Ncx; k++)  if (tp[k + l*Ncx] == -1) np++;
  CHECK("neq-mom", A.neq_mom == nu + nv);
  CHECK("neq-cont", A.neq_cont == np);
  CHECK("neq", A.neq == nu + nv + np);
  FORALL(l, 0, Nz+1) FORALL(k, 0, Nx) {
    int c = k + l*Nx, t = tu[c], before = 0;
    for (int j = 0; j < l; j++) for (int i = 0; i < Nx; i++) if (actu(tu[i + j*Nx])) before++;
    for (int i = 0; i < k; i++) if (actu(tu[i + l*Nx])) before++;
    if (actu(t)) CHECK("u-number", A.eqn_u[c] == before);
    else if (t == -12) CHECK("u-periodic", A.eqn_u[c] == A.eqn_u[l*Nx]);
    else CHECK("u-none", A.eqn_u[c] == -1);
  }
  FORALL(l, 0, Nz) FORALL(k, 0, Nx+1) {
    int c = k + l*(Nx+1), t = tv[c], before = nu;
    for (int j = 0; j < l; j++) for (int i = 0; i < Nx+1; i++) if (actv(tv[i + j*(Nx+1)])) before++;
    for (int i = 0; i < k; i++) if (actv(tv[i + l*(Nx+1)])) before++;
    if (actv(t)) CHECK("v-number", A.eqn_v[c] == before);
    else CHECK("v-none", A.eqn_v[c] == -1);
  }
  FORALL(l, 0, Ncz) FORALL(k, 0, Ncx) {
    int c = k + l*Ncx, before = nu + nv;
    for (int j = 0; j < l; j++) for (int i = 0; i < Ncx; i++) if (tp[i + j*Ncx] == -1) before++;
    for (int i = 0; i < k; i++) if (tp[i + l*Ncx] == -1) before++;
    if (tp[c] == -1) CHECK("p-number", A.eqn_p[c] == before);
    else CHECK("p-none", A.eqn_p[c] == -1);
  }
}
