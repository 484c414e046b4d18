import json,sys
sys.path.insert(0,'/verif')
NOTE={
 'default':"Decides, from the source alone, the structural part of the property: every function the property rests on still has the reviewed guarded effects (what it loads, stores, calls, yields and returns, under which path conditions, in which order), and class- and module-level bindings are intact. Trusts the reviewed summaries in sa/ref and CPython semantics; a function whose loop structure was rewritten beyond the normal form is reported as not judged, never as a violation.",
}
NOTE['C06']="Structural part only: dataflow independence follows from the per-operator contracts (intersection, populate, in-place payload arithmetic, swizzle, split); this check decides that each of those operators still has its reviewed guarded effects and that the operator tables are intact. The end-to-end numerical equality itself is not decided. "+NOTE['default']
TECH="static dataflow: guarded-effect value-graph summaries compared function by function against reviewed summaries, plus class/module structure obligations"
checks=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)['id']
    checks.append({'property':p,'quick_cmd':'python3 -m sa.check '+p,'thorough_cmd':'VERIF_TIER=thorough python3 -m sa.check '+p,
      'technique':TECH,'level':'other','level_note':NOTE.get(p,NOTE['default'])})
json.dump({'version':1,'setup_cmd':'python3 -c "import sa.check"','checks':checks,'not_applicable':[],
 'notes':'No hooks in /repo. Checks read /repo/fibertree as text (python ast) and never import or run it.'},open('/verif/MANIFEST.json','w'),indent=1)
