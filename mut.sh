#!/bin/sh
# mut.sh PROP FILE SED [spec-regex]: run a property's proofs on a mutated scratch copy of the sources
rm -rf /tmp/mutrepo; mkdir /tmp/mutrepo; cp -a /repo/src /repo/include /tmp/mutrepo/
sed -i "$3" /tmp/mutrepo/src/$2
cmp -s /tmp/mutrepo/src/$2 /repo/src/$2 && echo "NO CHANGE"
VERIF_REPO=/tmp/mutrepo sh ./dev.sh $1 "$4" | grep -v "^ *note" | cut -c1-200
rm -rf /tmp/mutrepo
