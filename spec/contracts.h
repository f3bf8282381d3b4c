/* Contracts of callees, used at call sites instead of the callee's body. Each one is a functional
 * postcondition and is itself proved against the body in the property named beside it. */
#ifndef CONTRACTS_H
#define CONTRACTS_H
#define AIR(t) ((t) == 30 || (t) == 31)

/* column/row of the cell that stands for (k,l) of the grid extended by one cell on each side */
static int ext_col(int k, int Ncx, int per) { return k < 0 ? (per ? Ncx-1 : 0) : k >= Ncx ? (per ? 0 : Ncx-1) : k; }
static int ext_row(int l, int Ncz) { return l < 0 ? 0 : l >= Ncz ? Ncz-1 : l; }
static double cell_in(double *c, char *t, int i) { return AIR(t[i]) ? 0.0 : c[i]; }
static double c2v(double *c, char *t, int k, int l, int Nx, int Nz, int per) {
  int w = ext_col(k-1, Nx-1, per), e = ext_col(k, Nx-1, per), s = ext_row(l-1, Nz-1), n = ext_row(l, Nz-1), X = Nx-1;
  return 0.25*(cell_in(c, t, w+s*X) + cell_in(c, t, e+s*X) + cell_in(c, t, w+n*X) + cell_in(c, t, e+n*X));
}
#ifdef USE_CONTRACT_INDICES
/* proved in G01 */
void CONTRACT_GridIndices(grid *mesh) {
  int Nx = mesh->Nx, Nz = mesh->Nz;
  for (int l = 0; l < Nz; l++)   for (int k = 0; k < Nx; k++)   { mesh->kn[k + l*Nx] = k;      mesh->ln[k + l*Nx] = l; }
  for (int l = 0; l < Nz+1; l++) for (int k = 0; k < Nx; k++)   { mesh->kvx[k + l*Nx] = k;     mesh->lvx[k + l*Nx] = l; }
  for (int l = 0; l < Nz; l++)   for (int k = 0; k < Nx+1; k++) { mesh->kvz[k + l*(Nx+1)] = k; mesh->lvz[k + l*(Nx+1)] = l; }
  for (int l = 0; l < Nz-1; l++) for (int k = 0; k < Nx-1; k++) { mesh->kp[k + l*(Nx-1)] = k;  mesh->lp[k + l*(Nx-1)] = l; }
}
#endif
#define MESH_INDICES(mesh, Nx, Nz) \
  mesh.kn = ARR_I("kn", (Nx) * (Nz));        mesh.ln = ARR_I("ln", (Nx) * (Nz)); \
  mesh.kvx = ARR_I("kvx", (Nx) * ((Nz)+1));  mesh.lvx = ARR_I("lvx", (Nx) * ((Nz)+1)); \
  mesh.kvz = ARR_I("kvz", ((Nx)+1) * (Nz));  mesh.lvz = ARR_I("lvz", ((Nx)+1) * (Nz)); \
  mesh.kp = ARR_I("kp", ((Nx)-1) * ((Nz)-1)); mesh.lp = ARR_I("lp", ((Nx)-1) * ((Nz)-1)); \
  GridIndices(&mesh)

#ifdef USE_CONTRACT_C2V
/* proved in G02 */
void CONTRACT_InterpCentroidsToVerticesDouble(double *C, double *V, grid *mesh, params *model) {
  int Nx = mesh->Nx, Nz = mesh->Nz;
  for (int l = 0; l < Nz; l++) for (int k = 0; k < Nx; k++)
    V[k + l*Nx] = mesh->BCg.type[k + l*Nx] == 30 ? 0.0 : c2v(C, mesh->BCp.type, k, l, Nx, Nz, model->periodic_x);
}
#endif
#endif
