import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
'C31':'Every clause is about which characters the serializer and parser of the standard library escape, normalise or reject; nothing in the source of this package decides it.',
'C32':'The column an item ends up in depends on runtime alignments threaded through a mutable trellis; no structural clause short of executing the algorithm implies it. That the algorithm is unchanged is covered by C25, which does not decide this property.',
'C33':'Which characters a span selects depends on the token strings and on offsets computed in a search loop over them; no static argument in reach bounds them.',
'C34':'Memory use is a runtime quantity of the parser, which keeps elements of its own; the source only shows that processed elements are cleared, which is necessary but far from sufficient.',
}
TECH={}
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    checks.append({'property':i,
     'quick_cmd':'python3 -B xsa/check.py %s'%i,
     'thorough_cmd':'python3 -B xsa/check.py %s --tier thorough'%i,
     'technique':'static value-graph comparison (gated value numbering with effect regions) against a reviewed reference model' if i!='C28' else 'definite-assignment, attribute-existence and call-signature analysis over the resolved syntax tree',
     'level':'other',
     'level_note':'Decides that every function the property depends on has, for all inputs and on every path, the results, exceptions and effects of a reviewed reference model; direct rules check structural clauses on the current tree itself. Nothing is executed. Trusts the review of the reference model, the normalisation rules and the documented behaviour of the standard library; a construct that cannot be analysed is reported as undecided in the evidence and does not raise an alarm.'})
m={'version':1,'setup_cmd':'python3 -B -c "import ast, sys; sys.path.insert(0, \'.\'); import xsa.check"','checks':checks,
 'not_applicable':[{'property':k,'reason':v} for k,v in sorted(NA.items())],
 'notes':'All checks are static analyses of /repo/xigt written in Python (standard library only); see DESIGN.md. There are no hooks.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
