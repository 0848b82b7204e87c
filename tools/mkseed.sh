#!/bin/bash
# mkseed.sh ID PROP FILE 'sed-expr' 'needs' 'what it breaks'  (demo source on stdin: a C++ program, exit 0 = property holds)
# env: FLAGS extra compile flags, SRCS extra sources below src (default: all), EXTRA sed on a second file: FILE2, SED2
set -e
D=/verif/seeded/$1; mkdir -p $D
cat > $D/demo.cpp
cd /repo
git diff --quiet || { echo "repo dirty"; exit 1; }
sed -i "$4" src/$3
[ -n "$FILE2" ] && sed -i "$SED2" src/$FILE2
git diff > $D/patch.diff
git checkout -q -- .
[ -s $D/patch.diff ] || { echo "NO CHANGE"; exit 1; }
cat > $D/demo.sh <<EOF
#!/bin/bash
# builds the library from /repo with the demonstration and runs it in a scratch directory
here=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d)
trap 'rm -rf "\$t"' EXIT
D="-DCPPTRACE_STATIC_DEFINE -DCPPTRACE_GET_SYMBOLS_WITH_ADDR2LINE ${UNW:--DCPPTRACE_UNWIND_WITH_UNWIND} -DCPPTRACE_DEMANGLE_WITH_CXXABI -DCPPTRACE_HAS_DL_FIND_OBJECT -DCPPTRACE_HAS_CXX_EXCEPTION_TYPE -DHAS_ATTRIBUTE_PACKED -DNOMINMAX"
A='-DCPPTRACE_ADDR2LINE_PATH="${ADDR2LINE:-/usr/bin/addr2line}"'
cd "\$t" || exit 2
ls /repo/src/*.cpp /repo/src/*/*.cpp /repo/src/*/*/*.cpp ${EXCLUDE:+| grep -v -e $EXCLUDE} | xargs -P 8 -I{} sh -c 'o=\$(echo {} | tr / _).o; g++ -std=c++11 -g -O1 -w '"\$D"' "\$1" -I/repo/include -I/repo/src -c {} -o \$o' sh "\$A" || exit 3
g++ -std=c++11 -g -O1 -w \$D "\$A" ${FLAGS} -I/repo/include -I/repo/src "\$here/demo.cpp" *.o -o demo -ldl -lpthread ${LINK} || exit 3
timeout 60 ./demo
EOF
chmod +x $D/demo.sh
python3 - "$D" "$2" "$5" "$6" <<'P'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(sys.argv[1] + "/meta.json", "w"), indent=1)
P
set +e; cd /repo; bash $D/demo.sh >/tmp/d0 2>&1; a=$?
git apply $D/patch.diff; bash $D/demo.sh >/tmp/d1 2>&1; b=$?; git checkout -q -- .
echo "$1: unchanged $a, changed $b"; [ $a = 0 ] || tail -5 /tmp/d0; tail -3 /tmp/d1
