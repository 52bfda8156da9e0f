#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS DEMO.cc [EXTRA_SRC...]: packages the
# difference in the worktree /tmp/wt as a planted bug, with its demonstration.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1 prop=$2 needs=$3 breaks=$4 demo=$5; shift 5
D=$V/seeded/$id
mkdir -p $D
git -C /tmp/wt diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
cp $demo $D/demo.cc
python3 - "$D" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+'/meta.json','w'),indent=1,ensure_ascii=False)
P
rm -rf $D/shim; cp -r $V/shim $D/shim; cp $V/tools/pbgen.py $V/tools/seed_support.cc $V/tools/demo_common.h $D/
sed 's/#include "vf.h"/static void vf_assume(bool) {}/' $V/rt/elementary.cc > $D/elementary.cc
cat > $D/demo.sh <<P
#!/bin/bash
# Exits with 0 iff the demonstration succeeds on the tree in the current directory.
D=\$(cd "\$(dirname "\$0")" && pwd)
R=\$(pwd)
T=\$(mktemp -d)
trap 'rm -rf "\$T"' EXIT
grep -q 'pb\\.h' -r "\$D/demo.cc" $(printf '"$R/%s" ' "$@") "\$R/serialization" 2>/dev/null; python3 "\$D/pbgen.py" "\$R" "\$T/gen" > /dev/null || exit 3
i=0
for f in "\$D/demo.cc" "\$D/seed_support.cc" "\$D/elementary.cc" $(printf '"$R/%s" ' "$@"); do
  i=\$((i + 1))
  (clang++-20 -std=c++23 -O0 -msse4.1 -include cstdint -include type_traits -include concepts -fbracket-depth=257 -fdeclspec -ffp-contract=off -fno-char8_t -w \\
    '-DPROJECT_DIR=std::filesystem::path("ksp_plugin_adapter/")' '-DSOLUTION_DIR=std::filesystem::path("./")' '-DTEMP_DIR=std::filesystem::path("/tmp")' '-DPLATFORM_WITH_CPU_FEATURES="x64"' \\
    -DNDEBUG -DPRINCIPIA_REQUIRES_AVX=0 -DPRINCIPIA_REQUIRES_FMA=0 -I"\$D/shim" -I"\$T/gen" -I"\$R" -include "\$D/shim/vf_prelude.h" \\
    -c "\$f" -o "\$T/\$i.o" || touch "\$T/failed") &
done
wait
[ -e "\$T/failed" ] && exit 3
clang++-20 "\$T"/*.o -pthread -o "\$T/demo" || exit 3
timeout 120 "\$T/demo"
P
sed -i "/^grep -q/s/^.*; python3/python3/; s# \"\$R/\" # #g" $D/demo.sh
chmod +x $D/demo.sh
(cd /repo && $D/demo.sh 2>&1 | tail -5 | cut -c1-300; exit ${PIPESTATUS[0]}) && echo "original: pass" || echo "original: FAIL"
if (cd /tmp/wt && $D/demo.sh 2>&1 | tail -5 | cut -c1-300; exit ${PIPESTATUS[0]}); then echo "patched: PASS (bad)"; else echo "patched: fails $?"; fi
git -C /tmp/wt checkout -q -- . || true
