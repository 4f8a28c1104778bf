"""Writes MANIFEST.json from the list of claims below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'proof': 'contract-based deductive verification: VCs generated from /repo, inferred inductive loop invariants, Z3; '
             'counterexamples replayed on the real code',
    'sized': 'contract-based deductive verification: VCs generated from /repo, discharged by Z3 for all values within a stated '
             'bound on sizes (bounded); counterexamples replayed on the real code',
    'bounded': 'contracts on the real code checked on bounded-exhaustive and random inputs (bounded stand-in, not a proof)',
}
BASE = 'Every obligation generated from the current source must be discharged by Z3 for all inputs and histories; '
CHILD = 'children are represented by the contract of Node (C08); assumes children do not interfere.'
CLAIMS = {
    'C01': ('proof', BASE + CHILD),
    'C02': ('proof', BASE + CHILD),
    'C03': ('proof', BASE + CHILD),
    'C04': ('proof', BASE + CHILD),
    'C05': ('proof', BASE + CHILD),
    'C06': ('proof', BASE + CHILD),
    'C07': ('proof', BASE + CHILD + ' Clock readings are arbitrary non-decreasing integers (ns).'),
    'C08': ('proof', BASE + 'Implementations are arbitrary; a push of outputs answers ok or an error (C18).'),
    'C09': ('proof', BASE + CHILD),
    'C26': ('sized', BASE + 'Bounded: up to three children; all values of the bounds. Floats as reals.'),
    'C22': ('sized', 'Every obligation is discharged for every state string; bounded: one tree of five nodes, one instance of each request.'),
    'C23': ('proof', BASE + 'The root is represented by the contract of Node (C08), the tick thread by C24; it acts while a command waits for it or between commands.'),
    'C24': ('proof', BASE + 'The root is represented by the contract of Node (C08). Stop requests arrive during a tick or while sleeping.'),
    'C14': ('sized', BASE + 'Numbers, booleans and names for all values; bounded: strings up to 100 characters, containers of up to two items, class pools. Floats as finite reals, no NaN.'),
    'C15': ('sized', BASE + 'Numbers, booleans and names for all limits and values; bounded: strings up to 100 characters, two allowed values, containers of up to two items, class pools. Floats as finite reals.'),
    'C16': ('sized', BASE + 'Numbers and booleans for all values; bounded: strings up to 100 characters, two allowed values, containers of up to two items (nested: one), messages, classes and malformed texts from lists. Floats as finite reals.'),
    'C17': ('sized', BASE + 'One class with every kind of data, two nodes; limits and values of numbers are unbounded, the data added, given or combined come from lists.'),
    'C19': ('sized', BASE + 'Every state with up to four children is a start of the step, so histories of any length are covered by induction within this size; nodes that are added have no parent.'),
    'C18': ('sized', BASE + 'All values of the data and limits of numbers; bounded: three nodes with two inputs and outputs, up to two wirings.'),
    'C20': ('bounded', 'Every request with the listed arguments on eleven trees of up to six nodes is checked; wirings and options by value lists. Histories of eight requests are sampled.'),
    'C21': ('bounded', 'Every request with the listed arguments on eleven trees of up to six nodes is checked, histories of eight requests are sampled.'),
    'C25': ('bounded', 'Ten trees, one of 30 kinds of faults at every place, 33 malformed texts and paths of files, every node of the library except Subtree; edited trees are sampled.'),
    'C11': ('proof', BASE + 'Histories, names, values, timeouts and clock readings are unbounded; one service type with one field. The ROS node is represented by a stand-in that checks each call (one answer per call, at any time).'),
    'C13': ('proof', BASE + 'Histories, settings, messages, delays and clock readings are unbounded; one message type. The ROS node is represented by a stand-in that checks each call; messages arrive between ticks, or while a subscription is made.'),
    'C12': ('proof', BASE + 'Histories, names, values, timeouts and clock readings are unbounded; one action type with one field in each message. The server is represented by a stand-in that checks each call; callbacks a goal is left with when it is given up run at once, feedback is one number.'),
    'C10': ('sized', BASE + 'All integers, finite reals for floats, both booleans; bounded: other values, texts, files, messages and the operations on bits and of math for values from lists, lists and dictionaries of up to three items, two ticks (IterateList: five).'),
    'C27': ('bounded', BASE + 'requests, names and folder contents from lists, two requests after another.'),
    'C28': ('bounded', BASE + 'names, numbers, types and values from lists; the conversion of ids is explored by runs only.'),
}
NA = {
    'C30': 'Needs reasoning about thread interleavings; the verifier is sequential, and no concurrency verifier for Python '
           'is installed.',
}


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CLAIMS:
            kind, note = CLAIMS[i]
            checks.append({'property': i, 'quick_cmd': f'./run.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./run.sh {i}',
                           'evidence_file': f'evidence/{i}.json', 'technique': TECH[kind],
                           'level': 'proof' if kind == 'proof' else 'exploration', 'level_note': note})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'No check built yet.')})
    man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Replay a reported input with ./replay.sh <path>.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
