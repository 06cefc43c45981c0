#!/usr/bin/env python3
"""bt.py PROP SEED: run a plan verbosely and print symbolised backtraces of aborts"""
import subprocess,sys,re,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S=subprocess.check_output(["python3",V+"/build.py",os.environ.get("FLAVOR","fast")]).decode().strip()
o=subprocess.run([S,"one",sys.argv[1],sys.argv[2],"2"],capture_output=True).stderr.decode(errors="replace")
main=int([l for l in subprocess.check_output(["nm",S]).decode().splitlines() if l.endswith(" T main")][0].split()[0],16)
for l in o.splitlines():
    if re.match(r"(plan|dev|session|  step)",l): continue
    if len(sys.argv)>3 and (l.startswith("  OP") or re.match(r"  (\d|region|label)|label=",l)): print(l[:200])
    if "EXC" in l or l.startswith("  ["): print(l[:250])
    if l.startswith("BT"):
        a=["%x"%(main+int(x,16)-1 if not x.startswith("ff") else 0) for x in l.split()[1:]]
        r=subprocess.check_output(["addr2line","-f","-s","-e",S]+a).decode().split("\n")
        print("  BT "+" < ".join("%s:%s"%(r[i],r[i+1].split(":")[-1].split()[0]) for i in range(0,len(r)-1,2) if r[i]!="??"))
