#!/bin/sh
# hmut.sh PROP FILE SED: run a property's executable contract on a mutated scratch copy of the sources
rm -rf /tmp/hmutrepo; mkdir /tmp/hmutrepo; cp -a /repo/src /repo/include /repo/CMakeLists.txt /tmp/hmutrepo/ 2>/dev/null
sed -i "$3" /tmp/hmutrepo/$2
cmp -s /tmp/hmutrepo/$2 /repo/$2 && echo "NO CHANGE"
VERIF_REPO=/tmp/hmutrepo python3-vt check.py --property $1 --tier quick --no-proof | cut -c1-300 | head -${N:-4}
rm -rf /tmp/hmutrepo
