#!/usr/bin/env python3
# Regenerates MANIFEST.json. Properties without a check file are left out.
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
have=set()
for f in os.listdir(root+"/sim/core"):
    if f.startswith("prop_"):
        have|=set(re.findall(r'ID:\s*"(C\d\d)"',open(root+"/sim/core/"+f).read()))
T={
"C01":"seeded simulation of reader delivery schedules; differential against whole delivery and against the generator's own model of the input",
"C02":"seeded simulation of read failures and truncation at arbitrary byte offsets of reader and simulated disk",
"C03":"seeded simulation of writer failures at arbitrary byte offsets, checked against the fault-free output",
"C04":"seeded injection of backend failures at arbitrary engine operations of a simulated render",
"C05":"seeded simulation of image file and disk faults, checked against the document without the images",
"C06":"seeded simulation of font definition and font file faults, decoy working directories and file layouts on a simulated disk",
"C07":"seeded scheduling of concurrent clients at statement-level switch points, race detector on, checked against solo runs",
"C08":"seeded histories of successful and failing operations, checked against fresh-process results",
"C09":"page breaks as interrupts: differential simulation with and without header and footer",
"C10":"page breaks as interrupts: every page checked against the generator's header and footer",
"C11":"page breaks as interrupts: drawn text checked against the generator's document",
"C12":"page breaks as interrupts: drawn table rows checked against the generator's table",
"C13":"step- and memory-budgeted chaos simulation with malformed inputs and all fault kinds",
"C14":"seeded single and multiple disk faults at every file operation, open handles and mutations audited on the simulated disk",
"C15":"simulated process: command line tool on a simulated disk with faults and crash points, then rerun",
"C16":"seeded map iteration orders, clock positions and clock jumps; differential simulation",
"C17":"page breaks and image faults as interrupts: drawn attributes checked against a cascade model",
"C18":"page breaks as interrupts: box frames and their text checked on the drawn pages",
"C19":"seeded map iteration orders of the simulated runtime; the dump checked against the generator's document",
"C20":"simulated process: commands on a simulated disk and standard output with faults at any byte",
"C21":"page breaks as interrupts: differential simulation with the breaks at other places",
"C22":"page breaks as interrupts: drawn cell frames checked against a grid model",
"C23":"seeded damage of single values under simulated deliveries and map iteration orders: loading must fail",
}
checks=[];na=[]
R={"N":"a pure function of its input: no schedule, clock, fault, interleaving or interrupt can change its outcome, so there is nothing for a simulator to decide (DESIGN.md, section 'Not applicable')"}
for p in props:
    i=p["id"]
    if i.startswith("C"):
        if i in have:
            checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,"evidence_file":"evidence/%s.json"%i,
             "technique":"deterministic simulation with fault injection: "+T[i],
             "level":"exploration",
             "level_note":"Seeded random search over documents, schedules and faults with the real xpdf and gofpdf code; a clean batch is evidence, not proof. Trusts the simulated disk, the PDF reader of the oracle and the generator's model; bounds and exclusions are in DESIGN.md."})
        else:
            na.append({"property":i,"reason":"check not built yet"})
    else:
        na.append({"property":i,"reason":R["N"]})
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none in /repo: instrumentation is added to a generated overlay at build time (simbuild), /repo itself carries no hooks","enable":"./build.sh compiles /repo's working tree through 'go build -overlay' with generated, instrumented copies of its files","source_commits":[]},
"checks":checks,"not_applicable":na,
"notes":"Every check rebuilds the simulator from /repo's working tree. Replays are written to /verif/replays; replay one with '.build/xpdfsim -replay FILE' (or .build/xpdfsim.race, as the file's 'binary' says)."}
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1);open(root+"/MANIFEST.json","a").write("\n")
print(len(checks),"checks",len(na),"not applicable")
