#!/usr/bin/env python3
# regenerates MANIFEST.json
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
na={}
claimed=open(V+"/tools/claimed").read().split()
lib="real sign package in a seeded simulator; randomised search, not proof"
notes={}
for l in open(V+"/tools/notes"):
    if l.strip():
        k,v=l.split(" ",1); notes[k]=v.strip()
import subprocess
HOOKS=[l.split()[0] for l in subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines() if " hook:" in l] or json.load(open(V+"/MANIFEST.json"))["hooks"]["source_commits"]
m={"version":1,"setup_cmd":"./setup.sh",
   "hooks":{"guard":"build tag verif","enable":"go build -tags verif (done by tools/build.sh for the library world): sign.VerifFirstBlock sets the number of the first chunk of a stream; 0, the shipped value, by default. Everything else uses seams that are there: io.Reader/io.Writer, crypto/rand.Reader, and for the command 'go build -overlay' replacing standard library files (syscall, internal/syscall/unix) and a -modfile replacing golang.org/x/crypto/scrypt.","source_commits":HOOKS},
   "checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in claimed:
        m["checks"].append({"property":i,"quick_cmd":"./check %s quick"%i,"thorough_cmd":"./check %s thorough"%i,
          "technique":"deterministic simulation with fault injection (seeded search over schedules and faults, reference-model oracle)",
          "level":"exploration","level_note":notes[i]})
    else:
        m["not_applicable"].append({"property":i,"reason":na.get(i,"no check yet")})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
open(V+"/MANIFEST.json","a").write("\n")
