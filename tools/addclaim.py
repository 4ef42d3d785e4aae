import sys
i,note=sys.argv[1:3]; lvl=sys.argv[3] if len(sys.argv)>3 else 'proof'
p='/verif/tools/claims.py'; s=open(p).read()
import re
s=re.sub(r"CLAIMS\['%s'\] = .*\n"%i,'',s)
s=s.replace("NA = {}","CLAIMS[%r] = (%r, %r)\nNA = {}"%(i,lvl,note)); open(p,'w').write(s)
