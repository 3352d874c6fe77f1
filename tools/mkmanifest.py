#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json.
import json,subprocess,os
os.chdir('/verif')
have=subprocess.run(['sh','check.sh','list'],capture_output=True,text=True).stdout.split()
NOTE={
"C01":"seeded search over generated trees and command lines with kills, torn and failed writes at sampled system calls; file system is a model without page cache loss",
"C02":"seeded search; single and combined I/O faults after template selection compared with a reference model of the run",
"C03":"seeded search over batches with failing members (template errors and I/O faults on one member)",
"C04":"seeded search over interrupted runs followed by clean re-runs",
"C05":"every mutating system call of every explored run checked against the announced outputs",
"C06":"seeded search over exit paths and library calls with I/O faults",
"C07":"seeded search over commands and faults; child programs are models of a shell",
"C08":"enumerates input kind x operation x errno over generated configurations",
"C09":"seeded search over delivery schedules and faults of standard input",
"C10":"random operation sequences against a map model with I/O faults",
"C11":"same workload under many seeds of every incidental choice",
"C12":"seeded schedules under the race detector; preemption at system calls, lock operations and instrumented statements",
"C13":"random histories compared with each template processed alone",
"C14":"simulated servers and faults under the real net/http client",
"C15":"random handlers and faults against a reference model",
"C16":"generated trees, orders and concurrent external changes",
"C17":"faults on log file and standard error compared with the run without logging",
"C18":"generated terraform folders with formatter faults; the formatter is a model",
"C19":"step budget on runs under persistent faults, hostile streams and trees",
"C20":"generated questions and changes against a small file system model, with failures of the operations that decide an answer",
"C21":"batches with an exiting template in every mode, with system call failures at sampled points",
"C22":"two real runs interleaved at sampled operations (a fixed point of two simulations that exchange their changes), the first one possibly killed or failing",
}
TECH="deterministic simulation with fault injection: the real command on a simulated kernel, seeded search over faults, schedules and workloads, checked against a reference model"
checks=[]
for i in have:
    checks.append(dict(property=i,quick_cmd=f"sh /verif/check.sh {i}",thorough_cmd=f"sh /verif/check.sh {i}",evidence_file=f"evidence/{i}.json",technique=TECH,level="exploration",level_note=NOTE[i]))
na=json.load(open('tools/not_applicable.json'))
ids=[json.loads(l)['id'] for l in open('properties.jsonl')]
listed={x['property'] for x in na}|set(have)
for i in ids:
    if i not in listed:
        na.append(dict(property=i,reason="the check of this property is not built yet"))
m=dict(version=1,setup_cmd="sh /verif/check.sh build",hooks=dict(guard="verifstd",enable="the checks build /repo with -overlay (patched copies of Go standard library files routing system calls to the simulator) and -tags verifstd; nothing guarded is added to /repo",source_commits=[]),checks=checks,not_applicable=na)
json.dump(m,open('MANIFEST.json','w'),indent=1)
print(len(checks),"checks")
