import json,sys
T={}
exec(open('/tmp/w/tech.py').read())
m=dict(version=1,setup_cmd="bash setup.sh",
 hooks=dict(guard="none",enable="no hooks: the checks drive the public API of the crates through path dependencies on /repo",source_commits=[]),
 checks=[],not_applicable=[],notes="Every check rebuilds its harness crate (h/<crate>) against the working tree of /repo, explores the stated bounded space completely and compares each execution with a reference model. Replay a violation with the replay_cmd stored in the replay file.")
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
for i in ids:
    if i in T:
        level,tech,note=T[i]
        m["checks"].append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=tech,level=level,level_note=note))
    else:
        m["not_applicable"].append(dict(property=i,reason="check not built yet"))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
open('/verif/MANIFEST.json','a').write('\n')
