"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'P01': ('reference-model monitor over event logs of compiled programs', 'exploration',
         'Every executed expression agreed with an independent interpreter; says nothing about expressions not generated. '
         'Trusts the interpreter and printer in vf/, clang and the CPU.'),
 'P02': ('reference-model monitor; full dumps of reachable storage after each store', 'exploration',
         'Held on the executed assignments, with every reachable word compared; order-dependent programs are not judged.'),
 'P03': ('reference-model monitor over control-flow event traces', 'exploration',
         'Held on the paths executed; decisions come from argument bits so each function is driven down several paths.'),
 'P04': ('reference-model monitor over call events; per-activation integrity checks', 'exploration',
         'Held on the calls executed, 0 to 250 parameters, recursion to 20000.'),
 'P05': ('storage dump monitor; offline interval checker over recorded addresses', 'exploration',
         'Held on the declarations generated; overlap is decided from addresses the running program reports.'),
 'P06': ('reference-model monitor over event logs, confusable names', 'exploration',
         'Held on the names and scopes generated.'),
 'P07': ('differential monitor over executions of many builds of one program', 'exploration',
         'All builds of each program behaved identically and as the reference predicts.'),
 'P08': ('crash/termination monitor over a mutation and truncation workload, in process and through the command', 'exploration',
         'Held on the inputs tried; termination is judged by a CPU budget far above need.'),
 'P09': ('module verifier as online monitor over every accepted input', 'exploration',
         'Each accepted input gave a module that llvm-as, the verifier and the code generator accept.'),
 'P10': ('metamorphic monitor: modules of token-identical sources compared byte by byte', 'exploration',
         'Held on the layouts generated.'),
 'P11': ('reference-value monitor over recorded constants', 'exploration',
         'Held on the constants generated, in every position they may stand.'),
 'P12': ('differential monitor over repeated and concurrent compilations; Go race detector', 'exploration',
         'Held on the histories and interleavings executed; the race detector saw no unsynchronised access.'),
 'P13': ('output-byte oracle over freestanding programs and AddressSanitizer/UBSan build of the runtime', 'exploration',
         'Held on the calls executed; memory errors outside red zones are not seen.'),
 'P14': ('conservation oracle over byte streams and AddressSanitizer/UBSan build of the runtime', 'exploration',
         'Held on the streams and chunkings executed.'),
 'P15': ('file-system snapshot monitor around commands', 'exploration',
         'Held on the command lines tried; snapshots compare names, types and contents of everything reachable.'),
 'P16': ('fault injection at every step with file-system snapshot monitor', 'fault_enumeration',
         'Every invocation of clang and every file access of the generated commands was failed in turn.'),
 'P17': ('reference-model monitor over programs split into files; symbol-table monitor', 'exploration',
         'Held on the splits generated.'),
 'P18': ('verdict monitor over single-defect mutants of valid programs', 'exploration',
         'Every mutant of the listed defect classes was refused; mutants are ill-formed by construction.'),
 'P19': ('AddressSanitizer/MemorySanitizer instrumentation of the emitted module; stack-growth monitor', 'exploration',
         'No report on the executed programs; red-zone tools miss far and intra-object overflows, which an address '
         'monitor complements.'),
 'P20': ('process-boundary monitor: status, streams, alignment counters, system-call trace', 'exploration',
         'Held on the programs run on x86-64 Linux.'),
 'P21': ('closed-form oracle over event logs of large programs; resource monitor over compilations', 'exploration',
         'Held on the families and sizes compiled; sizes around powers of two and ten are run, far larger ones only compiled.'),
 'P22': ('model of search and resolution against the output of linked programs; file-system snapshots', 'exploration',
         'Held on the library layouts generated; trusts ar and the system linker.'),
 'P24': ('metamorphic monitor over spellings of commands; generated code compared with each level of clang', 'exploration',
         'Held on the spellings and levels tried; levels are told apart by code that differs between all four.'),
 'P23': ('differential monitor over commands in varied surroundings; recording stand-in for clang', 'exploration',
         'Held on the surroundings tried, singly and combined.'),
}
NA = []
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if not os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        NA.append({'property': p, 'reason': 'check not built yet'})
        continue
    t, lev, note = T[p]
    checks.append({'property': p, 'quick_cmd': 'python3 run.py %s quick' % p,
                   'thorough_cmd': 'python3 run.py %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                   'technique': t, 'level': lev, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': NA,
     'notes': 'Every check builds blang and its runtime from /repo into a scratch directory of its own; no hooks in /repo '
              'are needed. known_findings.json lists defects found (all repaired by fix: commits).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
