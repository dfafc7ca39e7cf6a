#!/usr/bin/env python3
# Writes MANIFEST.json from the table below.
import json,subprocess,os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
SEQ="bounded exhaustive enumeration of operation sequences and inputs on the real code against a reference model"
DPOR="stateless model checking of the real code: all interleavings (source-set DPOR) within a preemption bound under a controlled scheduler"
seqnote="Every case inside the stated bounds is run on the real code and compared with a reference model; nothing is claimed outside the alphabet and the bounds. Trusts the reference model and the Go toolchain."
schednote="Every schedule inside the bounds (reported in the evidence, exhaustive or capped) is run on the real, instrumented code with a vector-clock race check. Sequentially consistent memory; trusts the instrumenter and the scheduler."
T={}
for i in (1,2,3,4,5,6,8,10,11,12,13,14,15,16,18,19,20,21): T["C%02d"%i]=(SEQ,seqnote)
for i in (7,9,17,22,23,24,26,27,28): T["C%02d"%i]=(DPOR,schednote)
T["C25"]=(SEQ+", with blocking controlled by the scheduler",seqnote)
T["C29"]=("bounded exhaustive enumeration of client and shutdown histories on the real net/http server (synctest) against a reference model; stateless model checking of the same on a conforming stand-in",schednote)
T["C30"]=("bounded exhaustive enumeration of configurations and client handshakes on the real server, compared with net/http's server as the reference",seqnote)
T["C31"]=("bounded exhaustive enumeration of environments and address strings, each in a process of its own, against a reference model",seqnote)
T["C32"]=("bounded exhaustive enumeration of supervised processes and inherited sockets against a reference model; stateless model checking (DPOR) of concurrent readiness reports",schednote)
T["C33"]=(SEQ+", with the raw connection as the model",seqnote)
T["C34"]=("bounded exhaustive enumeration of histories of requests, signals and shutdowns, each played against a process of its own, with a reference model",seqnote)
T["C36"]=(DPOR,schednote)
T["C37"]=("bounded exhaustive enumeration of histories, each repeated as a loop on the real code, with weak references, the live heap and goroutines as observations",seqnote)
T["C35"]=("bounded exhaustive enumeration of servers and client scripts in virtual time, each played against net/http as the reference model",seqnote)
exec(open("manifest_extra.py").read()) if os.path.exists("manifest_extra.py") else None
ids=[json.loads(l)["id"] for l in open("properties.jsonl")]
m={"version":1,"setup_cmd":"./setup","checks":[],"not_applicable":[]}
for i in ids:
    if i in T:
        m["checks"].append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough","technique":T[i][0],"level":"model_checking","level_note":T[i][1]})
    else:
        m["not_applicable"].append({"property":i,"reason":"the check is not built yet"})
m["notes"]="No hooks in /repo: instrumentation is generated at build time into an overlay (mc/cmd/vinstr). See DESIGN.md."
open("MANIFEST.json","w").write(json.dumps(m,indent=1)+"\n")
