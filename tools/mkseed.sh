# usage: mkseed.sh ID PROPERTY "needs" "what it breaks"   (the change is in /repo's working tree; demo.cpp is already in seeded/ID)
set -e
D=/verif/seeded/$1
mkdir -p $D
git -C /repo diff -- genex > $D/patch.diff
cat > $D/demo.sh <<'S'
#!/bin/bash
# run in the repository after a build; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++14 -O1 -w -pthread -Igenex -I. "$here/demo.cpp" genex/*.cpp genex/*/*.cpp -o "$out/demo" -lboost_serialization -lboost_iostreams || exit 3
cd "$out" && timeout 120 ./demo
S
chmod +x $D/demo.sh
python3 - "$@" <<'S'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
S
git -C /repo checkout -- .
cd /repo
bash $D/demo.sh > /tmp/w/sb/$1.clean 2>&1 && echo "clean ok" || { echo "clean FAILS"; cat /tmp/w/sb/$1.clean; }
git apply $D/patch.diff
bash $D/demo.sh > /tmp/w/sb/$1.bug 2>&1 && echo "bug NOT SHOWN" || { echo "bug shown: $(tail -2 /tmp/w/sb/$1.bug)"; }
bash /opt/vp/build.sh > /tmp/w/sb/build.log 2>&1 || echo BUILD FAIL
bash /opt/vp/test.sh /tmp/w/sb/t.json > /tmp/w/sb/test.log 2>&1
python3 - <<'S'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/w/sb/t.json'))
print("missing stable tests:", sorted(set(b["stable"])-set(t["passed"])))
S
git checkout -- .
