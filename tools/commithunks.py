#!/usr/bin/env python3
"""commithunks.py 'message' FILE REGEX [FILE REGEX...]: commit only the hunks of /repo's diff whose text matches."""
import re,subprocess,sys
msg=sys.argv[1]; pairs=list(zip(sys.argv[2::2],sys.argv[3::2])); out=''
for f,rx in pairs:
    d=subprocess.run(['git','-C','/repo','diff','-U2','--',f],capture_output=True,text=True).stdout
    head,*h=re.split(r'(?m)^(?=@@ )',d); sel=[x for x in h if re.search(rx,x)]
    assert sel,(f,rx)
    out+=head+''.join(sel)
subprocess.run(['git','-C','/repo','apply','--cached','--recount','--unidiff-zero','-'],input=out,text=True,check=True)
subprocess.run(['git','-C','/repo','commit','-q','-m',msg],check=True)
print(subprocess.run(['git','-C','/repo','log','--oneline','-1'],capture_output=True,text=True).stdout)
