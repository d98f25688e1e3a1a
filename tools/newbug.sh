#!/bin/bash
# newbug.sh ID PROPERTY NEEDS BREAKS < edit (python with sub()); demo.py read from /tmp/demo.py
id=$1; d=/tmp/nb/$id; rm -rf "$d"; mkdir -p "$d" ${NBROOT:-/verif}/seeded/$id
cp -a /repo/. "$d"/; cd "$d" || exit 1
cat > /tmp/nb/$id.py
/opt/venv/bin/python - <<P || exit 9
def sub(f, a, b, n=1):
    s=open(f).read(); assert a in s, (f,a); open(f,'w').write(s.replace(a,b,n))
exec(open("/tmp/nb/$id.py").read())
P
git diff > ${NBROOT:-/verif}/seeded/$id/patch.diff
cp /tmp/demo.py ${NBROOT:-/verif}/seeded/$id/demo.py
printf '#!/bin/bash\nexec timeout 280 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n' > ${NBROOT:-/verif}/seeded/$id/demo.sh
/opt/venv/bin/python - "$id" "$2" "$3" "$4" <<'P'
import json,sys
_,i,p,n,w=sys.argv
json.dump(dict(property=p,needs=n,what_it_breaks=w),open(f"{__import__('os').environ.get('NBROOT','/verif')}/seeded/{i}/meta.json","w"),indent=1)
P
rm -rf "$d" /tmp/nb/$id.py; wc -l ${NBROOT:-/verif}/seeded/$id/patch.diff
