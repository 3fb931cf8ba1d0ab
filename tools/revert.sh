# revert.sh COMMIT PROP...: run checks on a copy with the fix reverted
c=$1; shift
d=/tmp/rv-$c; rm -rf /tmp/rv-$c; git clone -q /repo $d; cd $d
if ! git -c user.name=x -c user.email=x revert --no-commit $c >/dev/null 2>&1; then echo "$c conflict"; git status --short | grep -v '^M ' | head; rm -rf $d; exit; fi
cd /verif
for p in "$@"; do echo "== $c $p: $(VERIF_REPO=$d timeout 900 python3 check.py $p | tail -3 | tr '\n' ' ' | cut -c1-400)"; done
rm -rf $d
