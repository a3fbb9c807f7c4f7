#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after adding a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM = 'runtime monitoring: '
TABLE = {
 'C01': ('sanitizers (ASan+UBSan) under hostile and grammar-based workloads of the whole program',
         'No sanitizer report, signal or odd status in any run explored. Trusts ASan/UBSan; memory accesses inside one allocation and leaks are not judged.'),
 'C02': ('watchdog on CPU time and monitors of exit status, stdout and stderr over valid, hostile and failing runs',
         'Termination is judged as bounded progress: a tiny input that burns more than 10 s of CPU time twice counts as a hang.'),
 'C03': ('conservation monitor: characters of the text against the body of the drawn box',
         'Every character is tracked by value and position; designs and texts are random within the documented syntax.'),
 'C04': ('online geometry monitor over every line of every drawn box, in display columns',
         'Column widths come from libunistring, as in boxes itself.'),
 'C05': ('drawn boxes compared with an independent model of composition, plus structural monitors',
         'The model is written from the documentation; sampling of designs, sizes and texts.'),
 'C06': ('size monitor: drawn boxes against the set of sizes that the shapes can tile',
         'As for C05.'),
 'C07': ('placement monitor: position of the text block and of each line against documented rules',
         'As for C05.'),
 'C08': ('round-trip monitor: draw, remove, compare with the recorded text',
         'Texts share no visible character with the design; sizes leave the padding in place.'),
 'C09': ('differential monitor: mending against drawing, and against removal followed by drawing',
         'As for C08; the composition oracle has no such restriction.'),
 'C10': ('differential monitor: removal with and without naming the design, over permuted configurations',
         'Designs of a configuration use disjoint sets of border characters.'),
 'C11': ('differential monitor: rule results against an independent regular-expression engine',
         'Expressions are limited to the common subset of PCRE2 and Python re.'),
 'C12': ('placement monitor of indentation over modes, plus removal round trip', 'Sampling.'),
 'C13': ('relational monitor over tab modes with an independent tab expander', 'Sampling; tab stops 1 to 16.'),
 'C14': ('byte monitor of terminators; LF and CRLF runs compared', 'Sampling.'),
 'C15': ('metamorphic monitor: run in encoding E against transcoded UTF-8 run',
         'Encodings known to both iconv implementations; characters whose width does not depend on the encoding.'),
 'C16': ('metamorphic monitor: coloured against plain text, colour on against off', 'Sampling.'),
 'C17': ('round-trip monitor: random designs written in random layouts, read back through listing, drawing and removal',
         'Ill-formed designs are limited to errors from which a parser can resynchronise (END and braces intact).'),
 'C18': ('monitor of the listing over random parent graphs against an independent resolver; syscall trace of opened files',
         'Sampling of graphs up to 8 files.'),
 'C19': ('monitor of the chosen file over random populations of the search path, in a redirected file system view',
         'System locations are redirected by an LD_PRELOAD shim into a scratch directory.'),
 'C20': ('query results compared with a set-theoretic evaluation over random tag assignments', 'Sampling.'),
 'C21': ('listing parsed and compared with the configuration as written', 'Sampling.'),
 'C22': ('metamorphic monitor over spellings of command lines, rejection monitor for invalid ones', 'Sampling.'),
 'C23': ('fault injection (write, read, close, chunking) with byte monitors of files and pipes',
         'Faults are injected by an LD_PRELOAD shim at each write/read call of a run.'),
 'C24': ('differential monitor: every run with and without debug logging', 'Sampling over log areas.'),
 'C25': ('differential monitor over perturbed memory, environment, directories; valgrind memcheck on a sample',
         'Uninitialised memory is judged by filling allocations and by memcheck.'),
 'C26': ('in-process monitor of the string type: invariants and independent recomputation after every operation, under ASan',
         'The harness links the real bxstring/unicode objects.'),
 'C27': ('drawing with a command-line design compared with the composed string; removal and mending', 'Sampling.'),
 'C28': ('conservation monitor of removal on intact, damaged and foreign texts', 'Sampling.'),
}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(l)['id']
    tech, note = TABLE[pid]
    if os.path.exists(os.path.join(V, 'bx', 'checks', pid.lower() + '.py')):
        checks.append(dict(property=pid, quick_cmd='python3 check.py ' + pid,
                           thorough_cmd='python3 check.py %s --thorough' % pid,
                           technique=RM + tech,
                           level='fault_enumeration' if pid == 'C23' else 'exploration', level_note=note))
    else:
        na.append(dict(property=pid, reason='the check for this property has not been built yet'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
