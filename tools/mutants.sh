# usage: pm.sh PROP pyfile-with-EDIT(file,old,new) list
# mutants: python list MUT=[(file,old,new),...]
P=$1; python3 - "$2" <<'PY' > /tmp/w12/n
import sys
ns={}; exec(open(sys.argv[1]).read(),ns); print(len(ns['MUT']))
PY
for i in $(seq 0 $(( $(cat /tmp/w12/n) - 1 ))); do
rm -rf /tmp/mutrepo; cp -a /repo /tmp/mutrepo
python3 - "$2" $i <<'PY'
import sys
ns={}; exec(open(sys.argv[1]).read(),ns); m=ns['MUT'][int(sys.argv[2])]
f='/tmp/mutrepo/'+m[0]; s=open(f).read(); assert s.count(m[1])>=1,('NOT FOUND',m); open(f,'w').write(s.replace(m[1],m[2],1))
PY
echo "--- $i"; cd /verif; VERIF_REPO=/tmp/mutrepo ./check $P quick 2>&1 | cut -c1-200 | tail -${TAILN:-1}; rm -rf /tmp/mutrepo
done
