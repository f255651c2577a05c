#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HOOKS = ['f9b04e5', 'a78dca3', '246d15b']
SEQ = 'exhaustive bounded enumeration of operation histories on the real code against a reference model'
CON = 'stateless model checking of the real code: all schedules within a preemption bound, with a reference model'
CHECKS = {
    'C01': (SEQ, 'all unsync histories up to a depth and all small graphs with every order of drops, collections and map iteration'),
    'C02': (SEQ, 'as C01, with the destructor and allocator ledger as oracle'),
    'C03': (CON, 'every small two-thread program under all schedules within the bound, with stale reads; plus all single-thread histories'),
    'C04': (CON, 'as C03, followed by quiescence and a leak check; plus all single-thread histories'),
    'C05': (CON, 'as C03 with three collect conditions; deadlock, panic and lack of progress are violations'),
    'C06': (SEQ, 'every pair of destructor behaviours on every small graph, every map order, both collectors'),
    'C07': (SEQ + '; for threads, all schedules within a preemption bound', 'after every operation of every history a probe reads the statistics and compares them with the pointers that exist; both collectors; threads compared at quiescence'),
    'C08': (SEQ, 'every history with every sequence of answers of a scripted condition, the default condition, programs of two threads that set conditions under all schedules within a bound, and the hand-over threshold'),
    'C09': (SEQ, 'every nesting of the standard containers to depth 2 (chosen ones to depth 3), all contents and borrow states within bounds, and cycles through every container with both collectors'),
    'C10': ('exhaustive enumeration of declarations up to a size; the derived code is compiled and run on values of every variant and compared with the fields', 'every declaration of a grammar of structs, enums, generics, names and type syntax; a declaration that does not compile is a violation'),
    'C11': (SEQ + '; for threads, all schedules within a preemption bound', 'every history and every small graph with borrows, locks and poisonings taken and released at every point, five lock types; two threads with one holding a lock'),
    'C12': (SEQ, 'all pairs of pointers that exist compared after every operation of every history, both collectors'),
    'C13': (SEQ, 'a thread builds every small graph and ends, with every placement of its pointers in thread-local variables torn down before or after the collector, which act on the heap while they are'),
    'C14': (CON, 'every small program with a collect() against another thread; oracle evaluated when collect() returns'),
    'C15': (SEQ + '; for threads, all schedules within a preemption bound', 'the histories, graphs and destructor behaviours of the other checks with trait objects, slices and mixtures with sized pointers, both collectors (nightly build with the feature on)'),
    'C16': (SEQ, 'every history and every small graph of thread-local and shared values with both collectors run at every point'),
    'C17': (SEQ, 'as C06 with panicking destructors, followed by further use and a leak check'),
    'C18': (SEQ, 'the condition chooses at each consultation among all actions; concurrent suites add all schedules with 1 preemption'),
}
m = dict(version=1, setup_cmd='./mc/build.sh && ./mc/build.sh unsized && ./containers/build.sh && ./shapes/build.sh',
    hooks=dict(guard='cfg(dumpster_mc)', enable='RUSTFLAGS="--cfg dumpster_mc" and a Cargo patch of parking_lot by mc/shim/parking_lot (see mc/build.sh, mc/Cargo.toml)', source_commits=HOOKS),
    checks=[dict(property=p, quick_cmd=f'./check.sh {p} quick', thorough_cmd=f'./check.sh {p} thorough', technique=t, level='model_checking', level_note=n, evidence_file=f'evidence/{p}.json') for p, (t, n) in CHECKS.items()],
    not_applicable=[], notes='Known findings: known-findings.txt. Replays: ./check.sh replay <file>. See DESIGN.md.')
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json')
with open(out, 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
