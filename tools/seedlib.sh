V=/verif
ed(){ python3 - "$@" <<'EOF'
import sys
f,a,b=sys.argv[1:4]
s=open(f).read(); assert s.count(a)>=1,(f,a); 
n=int(sys.argv[4]) if len(sys.argv)>4 else 1
open(f,'w').write(s.replace(a,b,n))
EOF
}
meta(){ python3 - "$@" <<'EOF'
import sys,json
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
EOF
}
