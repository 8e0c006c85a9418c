import json,os,re,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
src=open(root+'/harness/src/props/mod.rs').read()
have=set(re.findall(r'"(C\d+)" =>',src))
tech=dict(
C01="round-trip monitor: model identity oracle over generated and enumerated value trees",
C02="round-trip monitor over schema-driven dynamic serde types with an independent typed model",
C03="round-trip monitor over exhaustive small strings and hostile string workloads",
C04="online comparison with an independent scalar-resolution reference and exact integer arithmetic",
C05="differential monitor: independent composer over raw libyaml events, and documents rendered from known graphs",
C06="differential monitor across input routes with injected short reads, interruptions and faults",
C07="crash/panic/CPU-time monitor under mutation and grammar workloads in a separate process",
C08="event-counting visitors as monitors of depth and expansion bounds",
C09="stream-history monitor: per-document comparison with solo parses, serializer histories",
C10="fault injection at every output byte with a prefix/err-identity monitor",
C11="differential monitor between owned, borrowed and text deserialization and both serializers",
C12="shape and round-trip monitor against an independent model of enum representations",
C13="poisoned-node workload with positions recorded at rendering time as oracle",
C14="operation-history monitor against a list model, state compared after every operation",
C15="algebraic-law monitor over all pairs and triples of generated pools",
C16="reference-implementation monitor over generated merge trees",
C17="operation-history monitor against a path-walk model",
C18="pointer-range and content monitor on borrowing visitors",
C19="AddressSanitizer and Miri builds plus allocation-accounting monitor with fault and panic injection",
C20="protocol monitor: recording foreign serializer and offering foreign deserializer with injected failures, against a model of the data",
C21="differential history monitor: each call's outcome after hostile histories, on racing threads and inside callbacks against the same call alone in a fresh process",
C22="differential monitor: what careless visitors get for each child against a reader that skips all its siblings",
)
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",technique="runtime monitoring: "+tech[i],
          level="fault_enumeration" if i in("C10",) else "exploration",
          level_note="Decides the executions it produced; evidence lists what was observed."))
    else:
        na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na)
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1,ensure_ascii=False); print(len(checks),'checks',len(na),'n/a')
