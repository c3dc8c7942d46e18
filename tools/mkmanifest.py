"""Writes MANIFEST.json: a check for every property the harness registers."""
import json,subprocess,sys,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)['id'] for l in open(root+'/properties.jsonl')]
claimed=subprocess.run([root+'/run.sh','list'],capture_output=True,text=True,check=True).stdout.split()
tech={
 "C01":("property-based testing: rapid-drawn Go modules, go/types as oracle","Interfaces are drawn from a grammar of declarations, not enumerated; type checking stands for compiling; opentelemetry is represented by a stand-in with the API the template uses."),
 "C02":("property-based testing: rapid-drawn embedding graphs, go/types method sets as oracle","Method sets are compared with those go/types computes for the same source."),
 "C03":("property-based testing: rapid-drawn generic interfaces, go/types instantiation oracle","Type arguments are drawn among ones that satisfy the constraints; go/types is trusted."),
 "C04":("property-based testing: rapid-drawn signatures, invariants over dumped template inputs","Names are read from what the template is given."),
 "C05":("property-based testing: rapid-drawn signatures, go/types as oracle","Aliases of context.Context and error are left open."),
 "C06":("property-based testing: rapid-drawn modules, differential against go/types and source comments","Helper renderings are type-checked and walked as syntax trees."),
 "C07":("fault-injecting property-based testing of the built command","The built command is run with drawn faults; exit status, messages and the file tree are compared."),
 "C08":("metamorphic property-based testing: repeated and permuted modules, byte equality","Permutations preserve doc comments and qualifiers."),
 "C09":("round-trip property-based testing: go generate re-creates the file","Executes the generated instruction with the go command in a scratch module."),
 "C10":("property-based testing: drawn command lines against a map model","What the template sees is dumped by the template itself."),
 "C11":("property-based testing of helper functions over drawn strings against reference models","snake is compared with a reference model over words of letters and digits."),
 "C12":("fault-injecting model-based property testing of the template loader","HTTP is replaced by a recording client passed to loader.New; no network."),
 "C13":("fault-injecting model-based property testing of the template command","The loader is replaced by a stand-in or runs over a recording client."),
 "C14":("property-based testing: drawn modules and destinations, go/parser, gofmt and go/types as oracle","gofmt is go/format of the toolchain in use."),
 "C15":("property-based testing of generated decorators against generated spies","Interfaces and call scripts are drawn; the decorators are compiled and run."),
 "C16":("model-based property testing of generated log/logrus decorators","Expected lines are derived from the drawn call."),
 "C17":("model-based property testing of generated tracing decorators with recording tracers","opentelemetry is represented by a recording stand-in."),
 "C18":("model-based property testing of generated prometheus decorators, read back from the registry","Observations are read from the real client library."),
 "C19":("stateful model-based testing of generated circuit breakers under a virtual clock","The state machine of the property is the model; times exactly on the boundary are avoided."),
 "C20":("stateful model-based testing of generated retry decorators under a virtual clock","Timer boundaries coinciding with context ends are avoided."),
 "C21":("model-based testing of generated fallback decorators under a virtual clock with leak detection","testing/synctest detects hangs and leaked goroutines deterministically."),
 "C22":("model-based testing of generated ratelimit decorators under a virtual clock","testing/synctest virtual time."),
 "C23":("property-based testing of generated robinpool decorators, sequential and concurrent","Counts per implementation are an invariant over the history."),
 "C24":("property-based testing of generated syncpool decorators with schedules, invariants over the history","testing/synctest decides waiting and progress deterministically."),
 "C25":("model-based property testing of generated timeout decorators under a virtual clock","Deadlines are compared exactly under virtual time."),
 "C26":("model-based property testing of generated validation decorators","Recorded order of Validate calls is compared with the model."),
 "C27":("model-based property testing of generated twirp_error decorators","Metadata is compared with encoding/json of the request argument."),
 "C28":("property-based testing of generated decorators shared by goroutines, under the race detector","Interleavings are those of the Go scheduler; the race detector also reports races of a schedule that did not interleave badly."),
 "C29":("property-based round-trip testing of the type printer against an independent parser-side normaliser","The printer is called as a library; sequences of types share one printer."),
 "C30":("stateful property-based differential testing of generators used as a library against fresh ones and the command","Histories use generators one at a time; concurrent use with different local prefixes is outside (global state of x/tools)."),
 "C31":("property-based testing of command lines: metamorphic relations between spellings, and a model of the registry","Template listing and copying over HTTP are decided by C12."),
 "C32":("property-based testing of the method model as a library: invariants over names, round-trip of every notation through the Go parser","Instantiation of type parameters is decided by C03, through the generator."),
}
checks=[];na=[]
for i in ids:
    if i in claimed:
        checks.append({"property":i,"quick_cmd":"./run.sh check "+i,"thorough_cmd":"./run.sh check "+i+" thorough","evidence_file":f"evidence/{i}.json","technique":tech[i][0],"level":"exploration",
          "level_note":"Seeded generated-input search with shrinking against an explicit oracle; absence of violations is evidence for the cases explored, not proof. "+tech[i][1]})
    else:
        na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"./run.sh setup","checks":checks,"not_applicable":na,"notes":"All checks build the harness and gowrap from /repo's working tree. No hooks in /repo are needed. Replay: ./run.sh replay FILE."}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1);open(root+'/MANIFEST.json','a').write("\n")
print(len(checks),"claimed",len(na),"not")
