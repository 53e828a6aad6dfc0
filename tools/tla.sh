#!/bin/bash
# regenerates spec/tla/mc.tla, TLC's input, from spec/mc.qnt
set -e
cd "$(dirname "$0")/../spec"
d=$(mktemp -d)
(cd $d && quint compile --target tlaplus --main=mc --init=initTrade --step=stepTrade --invariant=sound "$OLDPWD/mc.qnt" 2>/dev/null) \
  | sed -n '/MODULE mc/,/^====/p' | grep -v '^PASS #' > $d/mc.tla
# initial-state predicates speak about unprimed variables
perl -0pi -e 's/(\ninit(Roles|RolesOnce|Creation|Curve\([^)]*\)|Deep) ==.*?\n\n)/my $x = $1; $x =~ s{\b(w|flags|left)\x27}{$1}g; $x/ges' $d/mc.tla
tail -1 $d/mc.tla | grep -q ==== && mkdir -p tla && mv $d/mc.tla tla/mc.tla
rm -r $d
