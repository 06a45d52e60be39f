#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place.

Run from anywhere: python3 /verif/tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe,
         note, technique):
    assert len(title) <= 80, pid
    P.append((dict(
        id=pid, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, mechanism=[
            dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)),
        ' '.join(note.split()), technique))


def na(pid, title, statement, text, files, reason):
    P.append((dict(
        id=pid, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=['inputs'], text=' '.join(text.split())),
        why_tests_cant='Tests compare a few stored values; the claim is '
        'about every input.',
        anchors=dict(files=files, mechanism=[dict(
            name='pure calculation', where=files[0])], observe_at=[],
            hook_needed=None)), None, None))
    NA.append(dict(property=pid, reason=' '.join(reason.split())))


exec(open(os.path.join(HERE, 'tools', 'texts.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, _, _ in P:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks = []
    for d, note, technique in P:
        pid = d['id']
        if note is None:
            continue
        if not os.path.exists(os.path.join(HERE, 'props',
                                           pid.lower() + '.py')):
            NA.append(dict(property=pid, reason='check not built yet'))
            continue
        checks.append(dict(
            property=pid, quick_cmd=f'python3 run.py check {pid}',
            thorough_cmd=f'python3 run.py check {pid}',
            evidence_file=f'evidence/{pid}.json',
            technique='deterministic simulation with fault injection: '
            + technique,
            level='exploration', level_note=note))
    man = dict(
        version=1, setup_cmd='python3 run.py setup', checks=checks,
        not_applicable=NA,
        notes='No hooks in /repo: clock, identifiers, standard output, disk, '
        'thread switches and GUI events are controlled from outside. The '
        'commits added to /repo are fixes only, listed in '
        'known_findings.json. VERIF_TIER selects the size of the search, '
        'VERIF_SEED the seed; DSIM_RUNS overrides the number of runs.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(len(P), 'properties,', len(checks), 'checks,', len(NA),
          'not applicable')


main()
