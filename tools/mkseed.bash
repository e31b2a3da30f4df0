mk () 
{ 
    python3 - "$@" <<'PY'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
PY

    git -C /repo diff > /verif/seeded/$1/patch.diff;
    git -C /repo checkout -q -- .;
    [ -f /verif/seeded/$1/demo.sh ] || cp /verif/seeded/s01/demo.sh /verif/seeded/$1/demo.sh
}
