"""addprop.py BEFORE_ID file : insert dict text before dict(id="BEFORE")"""
import sys
f='/verif/tools/props.py'; s=open(f).read()
t=open(sys.argv[2]).read()
k='dict(id="%s"'%sys.argv[1]
assert s.count(k)==1
s=s.replace(k,t+k); open(f,'w').write(s)
