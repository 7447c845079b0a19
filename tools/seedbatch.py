import subprocess,sys
def seed(i,prop,f,old,new,needs,breaks,demo):
    p=subprocess.run(["python3","/verif/tools/mkseed.py",i,prop,"viennamath/"+f],input="\n@@@@\n".join([old.strip("\n"),new.strip("\n"),needs,breaks,demo]),text=True,capture_output=True)
    print(i,"ok" if p.returncode==0 else p.stdout+p.stderr)
