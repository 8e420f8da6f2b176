"""For each planted bug: how many of the lines it removes are the original repository's."""
import os,re,subprocess
R="/repo";B=subprocess.run("git -C /repo rev-list --max-parents=0 HEAD; git -C /repo rev-parse ee3e429",shell=True,capture_output=True,text=True).stdout.split()
base=B[-1]
for d in sorted(os.listdir("/verif/seeded")):
    f=None;n=0;o=0;r=0
    for l in open(f"/verif/seeded/{d}/patch.diff"):
        if l.startswith("--- a/"): f=l[6:].strip()
        elif l.startswith("@@"): n=int(re.match(r"@@ -(\d+)",l)[1])
        elif l.startswith("-"):
            b=subprocess.run(["git","-C",R,"blame","-s","-l",f"-L{n},{n}","HEAD","--",f],capture_output=True,text=True).stdout
            r+=1; c=b.split()[0].lstrip("^")
            o+= subprocess.run(["git","-C",R,"merge-base","--is-ancestor",c,base]).returncode==0
            n+=1
        elif l.startswith(" "): n+=1
    print(d,f"{o}/{r}", "" if o else "NONE")
