/* H01: the new temperature satisfies the implicit heat balance of every rock cell */
#include "vspec.h"
#define USE_CONTRACT_INDICES
#include "contracts.h"
#include "cholmod.h"
#include "cs.h"
void EnergyDirectSolve(grid*, params, double*, markers*, double, int, int, scale, int);
int EvalNumEqTemp(grid*, int*);
void AddCoeffThermal(int*, double*, int, int, int*, double);
static double *TN, *RES, *RH; static int OFF;
#ifdef VSPEC_SYM
/* equation numbers: the cell number shifted by an arbitrary amount, so that a number is never the index of anything else */
int CONTRACT_EvalNumEqTemp(grid *mesh, int *eqn_t) {
  int n = (mesh->Nx-1)*(mesh->Nz-1);
  for (int c = 0; c < n; c++) eqn_t[c] = c + OFF;
  return n + OFF;
}
/* a coefficient contributes coefficient times unknown to its row (the stored triplet: H_coefficient) */
void CONTRACT_AddCoeffThermal(int *J, double *A, int eqn, int jeq, int *nnzc, double coeff) { RES[eqn] += coeff*TN[jeq]; }
cs_di *CONTRACT_TransposeA(cholmod_common *c, double *A, int *Ic, int *J, int neq, int nnz) { return NULL; }
cholmod_factor *CONTRACT_FactorEnergyCHOLMOD(cholmod_common *c, cs_di *At, double *A, int *Ic, int *J, int neq, int nnz, int polar) { return NULL; }
/* the linear solver (trusted, for the symmetric matrix these rows make when both ends of a periodic domain have the same face
   conductivity) returns the solution of the rows assembled so far for this right-hand side */
void CONTRACT_SolveEnergyCHOLMOD(cholmod_common *c, cs_di *At, cholmod_factor *f, double *x, double *b, int n, int nnz, int polar) {
  for (int i = 0; i < n; i++) { x[i] = TN[i]; RH[i] = b[i]; }
}
void CONTRACT_MinMaxArrayVal(double *a, int n, double *lo, double *hi) { *lo = IN_S("mink"); *hi = IN_S("maxk"); }
void CONTRACT_MinMaxArrayTag(double *a, double s, int n, char *t, char *tag) { }
int CONTRACT_cholmod_start(cholmod_common *c) { return 1; }
int CONTRACT_cholmod_finish(cholmod_common *c) { return 1; }
int CONTRACT_cholmod_free_factor(cholmod_factor **f, cholmod_common *c) { return 1; }
cs_di *CONTRACT_cs_di_spfree(cs_di *a) { return NULL; }
cs_di *CONTRACT_cs_spfree(cs_di *a) { return NULL; }
#define BALANCE(name, t) CHECK(name, RES[c+OFF] - RH[c+OFF] == (t))
#define NEW_T(i) TN[(i)+OFF]
#else
#define BALANCE(name, t) CHECK(name, EQS(t, 0.0, 20.0))
#define NEW_T(i) mesh.T[i]
static void tags(char *te, char *tt, double *kx, int ncx, int ncz) {
  int E = ncx+2, i, per = te[0] > 14;
  for (i = 0; i < E*(ncz+2); i++) {
    int k = i%E, l = i/E, t = te[i];
    te[i] = k == 0 || k == E-1 || l == 0 || l == ncz+1 ? (per && (k == 0 || k == E-1) ? -2 : t%2 ? 0 : 1) : l == ncz && t > 20 ? 30 : t > 10 && l >= ncz-1 ? 1 : -1;
  }
  for (i = 0; i < ncz+2; i++) if (per) { kx[ncx + i*(ncx+1)] = kx[i*(ncx+1)]; te[ncx + i*E] = te[1 + i*E]; }   /* one and the same face, between two cells that are both rock or both air */
  for (i = 0; i < ncx*ncz; i++) tt[i] = te[i%ncx+1 + (i/ncx+1)*E];
}
#endif

static void balance(int part) {
  OPTION("noexit", 0); NEW_GRID(mesh); NEW_PARAMS(model); NEW_SCALE(sc); NEW_MARKERS(P);
  int Nx = ND_I("Nx", 4, 6), Nz = ND_I("Nz", 4, 6), ncx = Nx-1, ncz = Nz-1, n = ncx*ncz, E = ncx+2;
  mesh.Nx = Nx; mesh.Nz = Nz; mesh.dx = ND_DP("dx", 0.5, 1); mesh.dz = ND_DP("dz", 0.5, 1); model.dx = mesh.dx; model.dz = mesh.dz; model.dt = ND_DP("mdt", 0.5, 1); model.gz = ND_D("gz", -1, 0); model.polar = 0; model.writer_debug = 0;
  sc.S = sc.E = sc.L = 1; sc.T = 1;
  double dt = ND_DP("dt", 0.5, 1);
  int shear = ND_IR("shear", 0, 1), adiab = ND_IR("adiab", 0, 2);
  MESH_INDICES(mesh, Nx, Nz);
  mesh.BCT_exp.type = NDARR_C("te", E*(ncz+2), -2, 30); mesh.BCT_exp.val = NDARR("ve", E*(ncz+2), 1, 2); mesh.BCt.type = NDARR_C("tt", n, -1, -1);
  mesh.kx = NDARR_P("kx", Nx*(Nz+1), 0.5, 1); mesh.kz = NDARR_P("kz", (Nx+1)*Nz, 0.5, 1);
  NATIVE(tags(mesh.BCT_exp.type, mesh.BCt.type, mesh.kx, ncx, ncz);)
  mesh.rho_n = NDARR_P("rho", n, 1, 2); mesh.Cp = NDARR_P("Cp", n, 1, 2); mesh.T = NDARR("T", n, 1, 2); mesh.Qr = NDARR("Qr", n, 0, 1); mesh.Wdiss = NDARR("Wd", n, 0, 1); mesh.alp = NDARR("alp", n, 0, 0.1);
  mesh.v_in = NDARR("v", (Nx+1)*Nz, -1, 1); mesh.p_in = NDARR("p", n, 0, 1); mesh.p0_n = NDARR("p0", n, 0, 1);
  double mink = ND_DP("mink", 0.1, 0.2);
  NATIVE(mink = mesh.kx[0]; for (int i = 0; i < Nx*(Nz+1); i++) if (mesh.kx[i] < mink) mink = mesh.kx[i];)
#ifdef VSPEC_SYM
  OFF = ND_I("off", 0, 3); ND_D("maxk", 0, 1);
  TN = NDARR("TN", n + OFF, 1, 2); RES = ARR_D("RES", n + OFF); RH = ARR_D("RH", n + OFF);
  for (int i = 0; i < n + OFF; i++) RES[i] = 0.0;
#endif
  EnergyDirectSolve(&mesh, model, NULL, &P, dt, shear, adiab, sc, 1);
  FORALL(l, 0, ncz) FORALL(k, 0, ncx) {
    int c = k + l*ncx, e = k+1 + (l+1)*E; char *t = mesh.BCT_exp.type; double *v = mesh.BCT_exp.val;
    if (t[e] != 30) {
      double kW = mesh.kx[k + (l+1)*Nx], kE = mesh.kx[k+1 + (l+1)*Nx], kS = mesh.kz[k+1 + l*(Nx+1)], kN = mesh.kz[k+1 + (l+1)*(Nx+1)], ks = 0.25*(kW + kE + kS + kN), T = NEW_T(c), X = mesh.dx*mesh.dx, Z = mesh.dz*mesh.dz, q = 0.0, s, T0 = IN_D("T", c);
      if (ks < mink) ks = mink;
      int surf = t[e] == 1;   /* a cell at the free surface exchanges heat with the air at its prescribed temperature */
#define SIDE(inside, nb, per, pc, k_, D, ghost) \
      if (inside)                q += t[ghost] != 30 ? k_/D*(NEW_T(nb) - T) : surf ? 2.0*ks/D*(v[e] - T) : 0.0; \
      else if (per && t[ghost] == -2) q += k_/D*(NEW_T(pc) - T); \
      else if (t[ghost] == 1)    q += 2.0*k_/D*(v[ghost] - T);
      SIDE(k > 0,     c-1,   1, c+ncx-1, kW, X, e-1)
      SIDE(k < ncx-1, c+1,   1, c-ncx+1, kE, X, e+1)
      SIDE(l > 0,     c-ncx, 0, c, kS, Z, e-E)
      SIDE(l < ncz-1, c+ncx, 0, c, kN, Z, e+E)
      if (l == 0 && t[e-E] == 0) q -= v[e-E]/mesh.dz;   /* prescribed heat flux through the base */
      s = mesh.Qr[c] + (shear ? mesh.Wdiss[c] : 0.0)
        + (adiab == 1 ? T0*mesh.alp[c]*0.5*(mesh.v_in[k+1 + l*(Nx+1)] + mesh.v_in[k+1 + (l+1)*(Nx+1)])*model.gz*mesh.rho_n[c] : adiab == 2 ? T0*mesh.alp[c]*(mesh.p_in[c] - mesh.p0_n[c])/model.dt : 0.0);
      double bal = mesh.rho_n[c]*mesh.Cp[c]*(T - T0)/dt - q - s;
#define REGION(name, where) if (where) { if (surf) BALANCE(name " (surface cell)", bal); else BALANCE(name, bal); }
      if (part == 0) {
        REGION("heat inside", k > 0 && k < ncx-1 && l > 0 && l < ncz-1)
        CHECK("extracted", EQ(mesh.T[c], NEW_T(c)));
      }
      else if (part == 1) { REGION("heat west", k == 0 && l > 0 && l < ncz-1) REGION("heat east", k == ncx-1 && l > 0 && l < ncz-1) }
      else if (part == 2) { REGION("heat base", k > 0 && k < ncx-1 && l == 0) }
      else if (part == 3) { REGION("heat base west", k == 0 && l == 0) }
      else if (part == 6) { REGION("heat base east", k == ncx-1 && l == 0) }
      else if (part == 4) { REGION("heat top", k > 0 && k < ncx-1 && l == ncz-1) }
      else                { REGION("heat top west", k == 0 && l == ncz-1) REGION("heat top east", k == ncx-1 && l == ncz-1) }
    }
    else if (part == 0) CHECK("air", EQ(mesh.T[c], 273.15/sc.T));
  }
}
void H_inside(void)      { balance(0); }
void H_sides(void)       { balance(1); }
void H_base(void)        { balance(2); }
void H_base_west(void)   { balance(3); }
void H_base_east(void)   { balance(6); }
void H_top(void)         { balance(4); }
void H_top_corner(void)  { balance(5); }

/* ---- every rock cell has its own row, in cell order; air cells have none ---- */
void H_number(void) {
  VERIFIES(EvalNumEqTemp); NEW_GRID(mesh);
  int Nx = ND_I("Nx", 2, 6), Nz = ND_I("Nz", 2, 6), ncx = Nx-1, ncz = Nz-1, rock = 0;
  mesh.Nx = Nx; mesh.Nz = Nz; mesh.BCt.type = NDARR_C("tt", ncx*ncz, 28, 30);
  int *eqn = NDARR_I("eqn", ncx*ncz, -3, 9);
  int neq = EvalNumEqTemp(&mesh, eqn);
  for (int l = 0; l < ncz; l++) for (int k = 0; k < ncx; k++) if (mesh.BCt.type[k + l*ncx] != 30) rock++;
  CHECK("count", neq == rock);
  FORALL(l, 0, ncz) FORALL(k, 0, ncx) {
    int c = k + l*ncx, before = 0;
    for (int j = 0; j < l; j++) for (int i = 0; i < ncx; i++) if (mesh.BCt.type[i + j*ncx] != 30) before++;
    for (int i = 0; i < k; i++) if (mesh.BCt.type[i + l*ncx] != 30) before++;
    if (mesh.BCt.type[c] != 30) CHECK("row", eqn[c] == before);
    else CHECK("none", eqn[c] == -1);
  }
}

/* ---- a coefficient becomes exactly the next stored triplet ---- */
void H_coefficient(void) {
  VERIFIES(AddCoeffThermal);
  int cap = ND_I("cap", 1, 9), at = ND_IR("at", 0, 8), eqn = ND_IR("e", 0, 9), col = ND_IR("j", 0, 9), n = at;
  ASSUME(at < cap);
  double v = ND_D("v", -1, 1);
  double *A = NDARR("A", cap, -1, 1); int *J = NDARR_I("J", cap, 0, 9);
  AddCoeffThermal(J, A, eqn, col, &n, v);
  CHECK("count", n == at+1);
  FORALL(i, 0, cap) {
    CHECK("column", J[i] == (i == at ? col : IN_I("J", i)));
    CHECK("value", EQ(A[i], i == at ? v : IN_D("A", i)));
  }
}
