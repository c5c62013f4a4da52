import json,subprocess
D="deterministic simulation with fault injection: "
store={
'C01':"kill / I/O error at any system call of a save, then read back against the set of allowed versions",
'C02':"power loss at arbitrary points and on disk clones after every acknowledged save; un-synced state lost, torn, reordered",
'C03':"errors, short transfers, EINTR and full disk on every system call; success must mean complete and durable",
'C05':"2-4 simulated processes, or threads of one preempted at statements, interleaved per system call; register rules plus linearizability (porcupine)",
'C06':"whole-disk footprint before and after every operation, hostile names, switched locations",
'C07':"listing compared with the saved set and each listed name loaded, under crashes and running saves",
'C08':"faults then a fault-free period with bounded-step success of every operation",
'C09':"damaged bytes (13 kinds) loaded in the simulated process with hang and crash watch",
}
state={
'C04':"twin driving: saved and reloaded world against the original under different map orders",
'C10':"forest invariants over all query surfaces after every command of seeded histories",
'C11':"refinement against an executable reference model after every command",
'C12':"every query answer compared with the reference model and with the state before and after",
'C13':"relationship invariants and reference model after every command, adversarial identifiers",
'C14':"twin that receives only the successful commands; state compared around every error",
'C15':"undo after every command and unwinding whole histories against recorded states",
'C16':"random walks of undo, redo and commands against a stack of recorded states",
'C17':"replica with other map orders and replay in a fresh process; equality against observation",
'C18':"arbitrary lines, output-stream faults; reply checked by an independent parser and the grammar",
'C20':"texts printed in every state of seeded histories read by another simulated process under other map orders",
'C23':"direct calls with arbitrary arguments against the reference model, outcome reports and aliasing probes after each call",
'C24':"additions, moves and removals at every node of several hierarchies against a model, all methods compared after each call",
'C21':"the bridge program run in a simulated page per process, its JSON compared with an application driven by the same lines",
'C22':"the console program run above a simulated terminal, its output compared with an application driven by the same lines",
'C19':"several worlds interleaved in one process; bystanders compared and solo replay",
'C25':"2-4 threads of one process preempted at drawn statements of the library; each operation compared with the same thread run alone",
'C26':"1-3 threads deriving errors from shared ones, preempted at drawn statements; every error compared with its model after each step",
}
checks=[]
for k in sorted({**store,**state}):
    checks.append({"property":k,"quick_cmd":f"./check.sh {k} quick","thorough_cmd":f"./check.sh {k} thorough","technique":D+{**store,**state}[k],"level":"exploration",
     "level_note":("Seeded random search over operations, schedules and faults on the real library code above a simulated POSIX disk; no claim for executions not drawn. Trusts the disk and durability model in sim/kernel.go and the Go runtime." if k in store else "Seeded random search over command histories, map orders and restarts on the real library code; no claim for histories not drawn. Trusts the reference model and parser in sim/model.go and sim/text.go."+({'C21':" The JavaScript host is a stub of syscall/js (tools/jsstub).",'C22':" The terminal and the prompt library's line editor are stubs (sim/prompt)."}.get(k,"")))})
hook=[l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines() if ' verif:' in l]
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"verif","enable":"go build -tags verif (build-sim.sh), together with a -overlay of patched copies of standard library files kept in /verif/.build","source_commits":hook},"checks":checks,
"not_applicable":[],
"notes":"check.sh rebuilds the simulator from /repo's working tree on every call. Replay: ./check.sh replay FILE."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
