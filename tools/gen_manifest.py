#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
CLI="deterministic simulation of the real program: every system call of every process is served by a seeded simulated file system, clock and scheduler with fault injection; replayable, minimised schedules"
NOTE="Seeded search, not exhaustive: a clean batch is evidence for the explored seeds, schedules and faults. Real code: the whole vimwiki CLI with all its dependencies and std. Trusted: the POSIX model of the simulated file system, the libc seam (LD_PRELOAD), and the same binary run alone without cache, faults or concurrency as the reference for what one page looks like."
TH="deterministic simulation of threads: real library code, one thread at a time, a seeded scheduler deciding at every compiled basic-block edge and lock operation who runs; recorded schedules replay and are minimised"
THN="Seeded search over interleavings at basic-block granularity under sequential consistency (weak memory reorderings are not simulated). Real code: vimwiki-core, its dependencies and std; futexes, clock, hash seeds and stdout are simulated. Reference: the same call run alone."
ids=json.load(open(os.path.join(V,'tools','claimed.json')))
NA={
'C13':'not built yet','C14':'not built yet',
}
pure='a pure function of its input text or element tree: no schedule, clock, fault, I/O or history takes part, so there is nothing for a simulator to decide; generating inputs for it would be plain property-based testing'
P=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
checks=[];na=[]
for p in P:
    i=p['id']
    if i in ids:
        th = i in ('C13','C14')
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i}',thorough_cmd=f'VERIF_TIER=thorough ./check.sh {i}',
            evidence_file=f'evidence/{i}.json',technique=TH if th else CLI,level='exploration',level_note=THN if th else NOTE))
    else:
        na.append(dict(property=i,reason=NA.get(i,pure)))
m=dict(version=1,setup_cmd='./build.sh all',checks=checks,not_applicable=na,
  notes='No hooks in /repo: the seams are the libc boundary (command line program) and compiler-inserted edge callbacks (library). known-findings.txt lists repaired defects. Replay a violation with build/sim/release/vsim replay FILE -v.')
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1); print(len(checks),len(na))
