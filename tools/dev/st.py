import re,sys
# usage: st.py PID <<< new statement
pid=sys.argv[1]; new=sys.stdin.read().strip().replace('"','\\"')
f='/verif/tools/props_src.py'; s=open(f).read()
m=re.search(r'P\("%s", "[^\n]*\n  (")((?:[^"\\]|\\.)*)"'%pid,s)
s=s[:m.start(2)]+new+s[m.end(2):]
open(f,'w').write(s)
