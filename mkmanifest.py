"""writes MANIFEST.json from engine/props.py and properties.jsonl"""
import json, sys, os
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H + '/engine')
import props
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'hooks': {'guard': 'none', 'enable': 'no hooks: internal functions are reached through the LLVM IR and the symbol table of the build', 'source_commits': []},
    'checks': [{'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                'evidence_file': 'evidence/%s.json' % i, 'technique': props.TECH.get(i, 'symbolic execution of the LLVM IR, SMT (z3), native replay'),
                'level': 'other', 'level_note': props.NOTE[i]} for i in ids if i in props.LAYERS],
    'not_applicable': [{'property': i, 'reason': props.NA.get(i, 'check under construction')} for i in ids if i not in props.LAYERS],
    'notes': 'See DESIGN.md.',
}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
