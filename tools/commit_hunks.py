#!/usr/bin/env python3
"""commit_hunks.py MESSAGE PATTERN...: commit only the hunks of /repo's diff whose text contains a pattern."""
import subprocess,sys,re
msg,pats=sys.argv[1],sys.argv[2:]
d=subprocess.run(['git','-C','/repo','diff','-U1'],capture_output=True,text=True).stdout
out=''
for f in re.split(r'(?m)^(?=diff --git)',d):
    if not f: continue
    parts=re.split(r'(?m)^(?=@@ )',f); sel=[h for h in parts[1:] if any(p in h for p in pats)]
    if sel: out+=parts[0]+''.join(sel)
subprocess.run(['git','-C','/repo','apply','--cached','--unidiff-zero','--recount','-'],input=out,text=True,check=True)
subprocess.run(['git','-C','/repo','commit','-qm',msg],check=True)
print(subprocess.run(['git','-C','/repo','log','--oneline','-1'],capture_output=True,text=True).stdout.strip())
