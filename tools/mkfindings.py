import json, subprocess
F = [("C12","0507c4b"),("C10","2169de4"),("C10","c73dff1"),("C14","ca08e1c"),("C27","6d4c64d"),("C18","bea6069"),("C18","9e7d533"),
     ("C08","c49cb76"),("C08","2cd62be"),("C27","0852e8a"),("C09","898bcfa"),("C08","321b911")]
import sys
F += [tuple(x.split(":")) for x in open("/verif/tools/fixes.txt").read().split()] if __import__("os").path.exists("/verif/tools/fixes.txt") else []
with open("/verif/known_findings.jsonl","w") as o:
    for p,c in F:
        s = subprocess.run(["git","-C","/repo","log","-1","--format=%h %s",c],stdout=subprocess.PIPE,text=True).stdout.strip()
        h, m = s.split(" ",1)
        o.write(json.dumps({"status":"fixed","property":p,"commit":h,"what":m.replace("fix: ",""),"text":"fixed: property=%s %s %s"%(p,h,m.replace("fix: ",""))})+"\n")
    try:
        for l in open("/verif/tools/known.jsonl"): o.write(l)
    except FileNotFoundError: pass
