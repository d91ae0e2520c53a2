cd /tmp/w/v
. /tmp/w/env.sh
for i in ${*:-$(seq -f 'C%02g' 22)}; do s=$(date +%s); VERIF_REPO=/tmp/w/r timeout 900 ./check $i quick >/tmp/w/all.$i 2>&1; echo "$i rc=$? $(( $(date +%s)-s ))s $(grep -c VIOL /tmp/w/all.$i)"; done
