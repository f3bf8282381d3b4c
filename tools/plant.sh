# mk.sh ID PROPERTY 'needs' 'breaks'   (reads the diff of /repo, stores it, resets /repo)
D=/verif/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff; git -C /repo checkout -q -- .
python3 - "$@" <<'P'
import sys,json
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
cat > $D/demo.sh <<'D'
#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -r "$w"' EXIT
gcc -w -std=gnu11 -g -Dinclude_private -I/repo/MDLIB -I/repo/MDLIB/include -I/usr/include/suitesparse -I/usr/include/hdf5/serial "$here/demo.c" -o "$w/demo" \
  -L/repo/cmake-build/MDLIB -lmdoodz -lm -Wl,-rpath,/repo/cmake-build/MDLIB -Wl,--unresolved-symbols=ignore-all || exit 3
cd "$w" && ./demo
D
