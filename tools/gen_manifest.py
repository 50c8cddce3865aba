"""writes MANIFEST.json from the specs that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import specs, rules, optim
TECH = {
    'value': 'abstract interpretation of the MIR (path-sensitive value-numbering dataflow with loop summaries over symbolic sizes); summaries compared with the specified term by normal forms',
    'O': 'abstract interpretation of the MIR to a summary of events (draws, comparisons, panics) and loop transitions for all sizes; the rule is decided by term equality and entailment between path conditions',
    'E01': 'effect analysis: deny-list over every resolved callee and function reference in the MIR of the crate, plus unsafe/static/interior-mutability lint on the item tree',
    'R02': 'type-level queries: trait solver verdict on a table of (type, trait) pairs in the compiler',
    'E03': 'effect analysis: deny-list of functions that lose values over every function reference in the MIR of the crate, plus a query over the fields of all types',
    'T01': 'compile-fail and must-compile witness programs decided by the type checker, over symbolic const parameters',
    'T02': 'must-compile and compile-fail witness programs decided by the trait solver (auto traits and derived traits of all structures and lazy expressions)',
    'L01': 'effect analysis on the MIR by abstract interpretation: the reads of caller-supplied expressions and functions of every client function, with their path conditions and loops for all sizes; none at construction, pairwise distinct positions otherwise',
    'E02': 'abstract interpretation of the MIR: every panic edge (bounds, unwrap, overflow of lengths, division, explicit) shown infeasible under the premise',
}
NOTE = ('Every obligation is decided for all inputs and all sizes on the MIR of the current tree; an obligation the analysis cannot decide '
        'is listed as undecided in the evidence and never reported as a violation. Trusts rustc, the MIR interpreter and its models of core/alloc/rand '
        'in engine/models.py. Assumes unbounded usize, successful allocation, and lawful element operators as named per obligation.')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
    'N01': 'accuracy bounds quantify over floating-point rounding of runtime values; no sound static error analysis of these formulas (with unconstrained libm results) is in reach',
    'N02': 'a statement about the probability of convergence of a stochastic process; nothing in the shape of the code decides it',
    'N03': 'a statement about generated machine code and allocation counts after optimisation; it is not decided by the source',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in optim.RULE or i in specs.SPECS or i in rules.RULES or i in specs.UNION or i in specs.PARTS:
        t = TECH.get(i) or (TECH['O'] if i in optim.RULE else TECH['value'])
        if i in rules.RULES and i in specs.SPECS:
            t += '; plus ' + rules.RULETEXT[i].split('.')[0]
        checks.append({'property': i, 'quick_cmd': 'python3 engine/vx.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 engine/vx.py %s --tier thorough' % i,
                       'technique': t, 'level': 'proof', 'level_note': rules.LEVELNOTE.get(i, NOTE)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 engine/build.py setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
