"""Mechanically generates native initialisers for the big structs of mdoodz-private.h (every pointer field
gets a valid buffer), so that a native run never dereferences an unset pointer."""
import os
import cast


def generate(work):
    src = os.path.join(work, 'autofill_probe.c')
    with open(src, 'w') as f:
        f.write('#include <stdio.h>\n#include <stdlib.h>\n#include "mdoodz-private.h"\n')
    tu = cast.load(src)
    out = ['/* generated */', '#include <stddef.h>', 'void *v_calloc(size_t n, size_t s);', '#include <stdio.h>', '#include <stdlib.h>']
    for rec in ('grid', 'markers', 'surface', 'SparseMat', 'params'):
        fs = tu.records.get(rec) or tu.records.get('_' + rec)
        if not fs:
            continue
        out.append('static inline void autofill_%s(%s *s, int n) {' % (rec, rec))
        for nm, ty in fs:
            q = ty.get('desugaredQualType') or ty['qualType']
            q = q.replace('const', '').strip()
            if q in ('double *', 'int *', 'char *'):
                base = q[:-2].strip()
                out.append('  s->%s = (%s*)v_calloc(n, sizeof(%s));' % (nm, base, base))
            elif q in ('double **',):
                out.append('  s->%s = (double**)v_calloc(20, sizeof(double*)); for (int i=0;i<20;i++) s->%s[i] = (double*)v_calloc(n, sizeof(double));' % (nm, nm))
            elif q in ('BC', 'BCT'):
                out.append('  s->%s.type = (char*)v_calloc(n,1); s->%s.val = (double*)v_calloc(n,sizeof(double));' % (nm, nm))
        out.append('}')
    with open(os.path.join(work, 'autofill.h'), 'w') as f:
        f.write('\n'.join(out) + '\n')
