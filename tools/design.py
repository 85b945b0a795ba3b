#!/usr/bin/env python3
# writes DESIGN.md: tools/design_head.md, one section per property, tools/design_tail.md
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
HOW = {
'C01': 'Ranges are built through every constructor, setter and arithmetic operation with symbolic bounds, offsets and dimension arguments; the oracle is plain interval arithmetic on the same symbols, including self-aliasing calls and printing.',
'C02': 'An indexer over a symbolic sub-range of a symbolic enclosing range is walked to its end next to an odometer; coordinates, linear index, existence and final index are asserted at every step, refusal of foreign sub-ranges and dimensions as exceptions.',
'C03': 'Containers and chunks with symbolic cell contents; after each operation every cell (touched or not) is compared with the cell the request names. Refusals must leave all cells equal.',
'C04': 'range_set is built with symbolic lengths, lower bounds and division counts; "every cell is in exactly one piece" is asserted with a symbolic cell, so one query covers all cells.',
'C05': 'Geometry of extended_datachunk against interval arithmetic: internal range, ghost slabs, send and receive slabs of both sides, equality of paired shapes.',
'C06': 'bc_periodic is run on a manager whose every cell (ghosts included) is a distinct unknown; each ghost cell is compared with the unknown of the wrapped interior cell, every other cell with its own.',
'C07': 'As C06 with the mirror map and the sign table of each wall kind.',
'C08': 'As C07 for the six field components.',
'C09': 'The solver runs on periodic data of unknowns: the sum of the rates over the cells must be the zero expression for each component; uniform data must give zero; a mesh with axes exchanged must give exchanged rates. Branch conditions of the fluxes are split by the solver.',
'C10': 'An independent transcription of limiter, pressure, HLL flux and divergence is evaluated on the same unknowns; equality cell by cell and component by component, with the previous output contents unknown.',
'C11': 'As C10 for upwind fluxes of the curl equations, plus conservation and uniform-field harnesses.',
'C12': 'Force and work written as rho E + p x B and p.E with unknown fields, charge and mass; also with stale outputs and bystander fields.',
'C13': 'Sum over 0..3 species of charge/mass * momentum / permittivity against the rates.',
'C14': 'Both solvers run on the same unknowns; the sum of fluid energy rates and E times the electric rate must cancel; u.dp/dt must equal the energy rate.',
'C15': 'Each stage against its tableau row; the three stages in sequence against the Taylor polynomial on y\' = ly with unknown l, dt, y; a tight tolerance is used in the replay so that a coefficient wrong in the tenth digit replays.',
'C16': 'Reference upwind fluxes with the velocity sign a symbolic branch; conservation on periodic data for both stages; uniform data.',
'C17': 'Operation histories are picks; identity is decided on the addresses and the contents (a write through one name is looked for under the others).',
'C18': 'A stream model records the tokens written; the harness parses them as legacy VTK prescribes and compares numbers as terms. The native replay reads the real file.',
'C19': 'dx, centroid and xc against start + (i - lower + 1/2) width/length with all of them symbolic.',
'C20': 'Side of the discontinuity from the cell centre with the centre symbolic: both sides and the geometry are covered by one query per cell.',
'C21': 'exp/sin/cos/cosh/tanh are uninterpreted: the code must apply the same function to an equal argument.',
'C22': 'All cells of all fields are unknowns; after swap and fill every one is compared.',
'C23': 'Every solver with every count of inputs and outputs; an exception must leave all unknowns in place.',
'C24': 'The sources are compiled to IR with -fopenmp. Each outlined parallel region is executed once per iteration (as if every iteration had a thread of its own) with all data symbolic and every access to memory that existed before the region recorded as (object, offset, size, write, iteration). The schedule is symbolic: z3 is asked for two iterations i and j, a thread assignment with thread(i) != thread(j), and a byte both touch, one of them writing. A model names the loop, iterations and bytes; the replay runs the loop natively under ThreadSanitizer with a one-thread-per-iteration runtime. The result of the regions is also compared with the serial build\'s semantics by the other harnesses of the solvers.',
'C25': 'Messages with symbolic characters are read repeatedly, copied, assigned, thrown and caught; contents compared byte by byte; memory lifetime is checked by the engine.',
'C26': 'Trichotomy, transitivity and agreement with equality over all pairs and triples with symbolic point counts.',
'C27': 'A step is composed of the real solvers as the drivers in src/example do; all work fields start with unknown junk. Totals after the step minus totals before must be the zero expression. Wall boxes need the symmetry of mirrored states, found by splitting the flux conditions per face.',
'C28': 'Edges from the bias law with symbolic exponent (pow uninterpreted plus exact rules); adjacency and filling as sums.',
'C29': 'A fresh solver and one with a symbolic former configuration (reconfigured, used, copied or assigned - the history is a symbolic choice) run on equal symbolic fields; every cell of every field must agree as a term.',
'C30': 'The stream model records what reaches std::cout as text and terms; the harness reads the numbers back, indices concretely, values as terms. The native replay captures std::cout.',
'C31': 'The stream model fails the k-th write to the file, k and the moment the stream notices being symbolic choices; the real write_vtk must end in an exception exactly when the fault was hit. The native replay writes to a full device (/dev/full through a link in a scratch directory) or to a name that is a directory.',
'C32': 'Set-up histories as symbolic choices; shapes compared with the mesh box extruded by points and components; storage separation by symbolic contents.',
'C33': 'The step is composed of the real solvers; domain totals after it minus before must equal the closed-form force, work and current of the initial state as terms (face fluxes cancel in pairs).',
'C34': 'Two objects are built by placement over storage filled with two independent sets of unknown reals (or two byte patterns), run without set-up on equal symbolic fields; all fields must come out equal as terms, so no result can mention a leftover.',
'C35': 'The engine runs the fresh solve first and undoes every effect on memory (natively: in a forked process), then the same solve after an earlier use chosen symbolically; all fields of both must agree as terms. The oracle is the code itself without a history, so every solver and everything below it is covered without a model.',
}
out = [open(os.path.join(here, 'design_head.md')).read().rstrip(), '', '## 2. Properties', '']
for p in props.P:
    out += ['### %s %s' % (p['id'], p['title']), '', '*Specified:* ' + p['statement'], '',
            '*Why tests cannot settle it:* ' + p['why'], '', '*Decided by:* ' + HOW[p['id']], '']
    if p['claim']:
        out += ['*Bounds, quick:* ' + p['quick'] + '.' + (' *thorough:* ' + p['thorough'] + '.' if p['thorough'] else '') + ' *Outside:* ' + p['outside'] + '. *Harness:* ' + ', '.join(p['harness']) + '.', '']
    else:
        out += ['*Not claimed:* ' + [n['reason'] for n in props.NA if n['property'] == p['id']][0], '']
import glob, json
rows = ['| change | property | needs |', '|---|---|---|']
for m in sorted(glob.glob(os.path.join(os.path.dirname(here), 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'].replace('|', '/')))
out.append(open(os.path.join(here, 'design_tail.md')).read().replace('@SEEDS@', '\n'.join(rows)))
open(os.path.join(os.path.dirname(here), 'DESIGN.md'), 'w').write('\n'.join(out))
