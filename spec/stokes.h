static int actu(int t) { return t == -1 || t == 2 || t == -2; }
static int actv(int t) { return t == -1 || t == 2; }
/* the tags that the set-up and the cell flagging produce */
static int tag(int r)  { return r == 1 ? 0 : r == 2 ? 2 : r == 3 ? 11 : r == 4 ? 13 : r == 5 ? 30 : r == 6 ? -2 : -1; }
static int ptag(int r) { return r == 1 ? 0 : r == 2 ? 30 : r == 3 ? 31 : -1; }

#define MESH_S \
  NEW_GRID(mesh); NEW_SPARSE(A); NEW_PARAMS(model); \
  int Nx = ND_I("Nx", 2, 6), Nz = ND_I("Nz", 2, 6), Ncx = Nx-1, Ncz = Nz-1; \
  mesh.Nx = Nx; mesh.Nz = Nz; model.Nx = Nx; model.Nz = Nz; \
  int *ru = NDARR_I("ru", Nx*(Nz+1), 0, 11), *rv = NDARR_I("rv", (Nx+1)*Nz, 0, 11), *rp = NDARR_I("rp", Ncx*Ncz, 0, 6); \
  int *pu = NDARR_I("pu", Nz+1, 0, 1), *pw = NDARR_I("pw", Nz, 0, 1); \
  char *tu = mesh.BCu.type = ARR_C("tu", Nx*(Nz+1)), *tv = mesh.BCv.type = ARR_C("tv", (Nx+1)*Nz), *tp = mesh.BCp.type = ARR_C("tp", Ncx*Ncz); \
  for (int l = 0; l < Nz+1; l++) for (int k = 0; k < Nx; k++) tu[k + l*Nx] = (k == Nx-1 && pu[l]) ? -12 : tag(ru[k + l*Nx]); \
  for (int l = 0; l < Nz; l++) for (int k = 0; k < Nx+1; k++) tv[k + l*(Nx+1)] = ((k == 0 || k == Nx) && pw[l]) ? -12 : rv[k + l*(Nx+1)] == 6 ? -1 : tag(rv[k + l*(Nx+1)]); \
  for (int c = 0; c < Ncx*Ncz; c++) tp[c] = ptag(rp[c])

