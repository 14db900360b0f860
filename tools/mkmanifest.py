import json,re
tech={
"C01":"property-based round trip and comparison with a reference encoder",
"C02":"structured mutation fuzzing of message bodies against a strict reference decoder",
"C03":"differential testing of committed against regenerated stubs over generated messages and sessions",
"C04":"generated request streams in generated fragments against a formula server and reference codec",
"C05":"generated calls and results against a recording formula server and reference codec",
"C06":"structured fuzzing of request streams with witness connections",
"C07":"generated histories of client and connection events against a session model",
"C08":"model-based histories on several connections with generated interleavings",
"C09":"generated accept, fault and shutdown sequences on fake listeners",
"C10":"generated concurrent calls and reply permutations against a scripted server",
"C11":"generated faulty server scripts and connection failures against a call-outcome oracle",
"C12":"generated concurrent tag and fid requests, uniqueness invariant over the history",
"C13":"generated hostile-name histories as an unprivileged user, invariant over canary files outside the root",
"C14":"model-based histories against a byte-array model and the host file",
"C15":"model-based open/read/write histories against a permission and mode model",
"C16":"model-based walk histories against a tree model",
"C17":"model-based fid-life histories, host descriptor invariant",
"C18":"generated directories and read-count sequences against the host listing",
"C19":"generated files and changes, comparison with the host's lstat",
"C20":"model-based wstat histories against a tree model",
"C21":"model-based create/remove histories against a tree model",
"C22":"fuzzing of request fields and sequences with reply-size invariants and a witness",
"C23":"generated calls through the wrapper against a recording server",
"C24":"generated flag combinations and client sessions against the running command",
"C25":"differential testing of generated sessions with and without a tracer",
"C26":"model-based histories of concurrent users through the client library against a tree model and the host",
"C27":"generated connection histories and endings, invariant over goroutines, descriptors and reclaimed instances",
"C28":"model-based session histories with generated version requests",
"C29":"model-based session histories with injected failures of the host",
"C30":"generated concurrent histories and storms under Go's race detector",
"C31":"model-based histories of sessions on shared files, and generated simultaneous operations against linearizability conditions",
"C33":"generated announcements of sizes and counts, and repeated generated rounds, against bounds on allocated and retained memory",
"C34":"generated calls and results through the wrapper, with the log searched for their values",
"C35":"the generators and oracles of the other properties in a program built for 32 bits",
"C36":"generated message definitions and values, with the stubs generated from them checked against a codec derived from the definition",
"C37":"generated histories on pairs of pipes with injected endings, and generated lists of options, against expectations and an invariant over goroutines and closed streams",
"C32":"model-based histories against the file server built with its Windows variants, tree model and host listing",
}
notes={}
checks=[]
for l in open("/verif/properties.jsonl"):
    i=json.loads(l)["id"]
    checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
     "evidence_file":"evidence/%s.json"%i,"technique":tech[i],"level":"exploration",
     "level_note":"Holds on every generated case (counts and classes in the evidence file), none elsewhere is claimed; trusts the oracle named in DESIGN.md, section "+i+"."})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[],
"notes":"No hooks: the harness drives the exported interfaces and the ufs command, built from /repo's working tree on each run."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
