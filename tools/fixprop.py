# usage: fixprop.py ID < new statement ; replaces the statement of a property in mkprops.py
import sys,re
p='/verif/tools/mkprops.py'; s=open(p,newline='').read()
i=s.index('prop("%s"'%sys.argv[1]); j=s.index('\n',i)+1; k=s.index('\n',j)+1
s=s[:j]+' "'+sys.stdin.read().strip().replace('"',"'")+'",\n'+s[k:]
open(p,'w',newline='').write(s)
