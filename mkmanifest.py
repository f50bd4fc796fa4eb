"""Writes MANIFEST.json from props.py."""
import json
import props
checks=[]
for p,c in sorted(props.PROPS.items()):
    proof=c['level']=='proof'
    checks.append(dict(property=p,quick_cmd='python3 check.py %s'%p,thorough_cmd='VERIF_TIER=thorough python3 check.py %s'%p,
        evidence_file='evidence/%s.json'%p,
        technique=c.get('technique') or ('contract-based deductive verification (Verus) of functions extracted from the C++ source on every run' if proof else 'function contracts executed on the real code over a stated finite input set (bounded stand-in; contracts of the functions below it proved where listed)'),
        level=c['level'],level_note=c.get('note') or props.NOTES.get(p) or ''))
json.dump(dict(version=1,setup_cmd='python3 setup.py',checks=checks,not_applicable=props.NOT_APPLICABLE,
  notes='No hooks: the functions are extracted from the unmodified sources of /repo on every run. Repairs of genuine defects are the fix: commits listed in known_findings.txt.'),open('MANIFEST.json','w'),indent=1)
