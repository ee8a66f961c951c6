#!/bin/bash
# developer tool: seed.sh save ID (diff of /repo's working tree -> seeded/ID, with the standard demo.sh), seed.sh test ID...
# (apply, build, stable tests, demo, check of its property, undo)
V=/verif/seeded
case $1 in
save)
  mkdir -p $V/$2
  git -C /repo diff > $V/$2/patch.diff
  git -C /repo checkout -q -- .
  cat > $V/$2/demo.sh <<'X'
#!/bin/bash
# run in /repo after the build: exit 0 if the property holds for the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
I=""
for p in core io projection traffic_rules routing matching validation; do I="$I -I$PWD/lanelet2_$p/include"; done
L=$PWD/_build/lib
g++ -std=c++17 -w -O1 $I -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -L"$L" -Wl,-rpath,"$L" -llanelet2_validation \
  -llanelet2_matching -llanelet2_routing -llanelet2_traffic_rules -llanelet2_projection -llanelet2_io -llanelet2_core \
  -lboost_serialization -lpugixml || exit 3
cd "$T" && timeout 120 ./demo
X
  chmod +x $V/$2/demo.sh
  ;;
test)
  shift
  for id in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('$V/$id/meta.json'))['property'])")
    (cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && bash $V/$id/demo.sh >/dev/null 2>&1; echo "$id demo on unchanged: $?")
    git -C /repo apply $V/$id/patch.diff || continue
    bash /opt/vp/test.sh /tmp/seed_out.json >/tmp/seed_test.log 2>&1
    python3 - <<Y
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/seed_out.json'))
m=[t for t in b if t not in set(o['passed'])]
print('$id stable tests broken:',len(m),m[:3])
Y
    (cd /repo && bash $V/$id/demo.sh >/tmp/seed_demo.log 2>&1; echo "$id demo with change: $?")
    (cd /verif && timeout 900 python3-vt vf/check.py $p > /tmp/seed_check.log 2>&1; echo "$id check $p: $?"; grep VIOLATION /tmp/seed_check.log | head -4)
    git -C /repo checkout -q -- .
  done
  bash /opt/vp/build.sh >/dev/null 2>&1
  ;;
esac
