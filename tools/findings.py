#!/usr/bin/env python3
"""Regenerate known_findings.jsonl (hand-kept table below)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('C02', '938675b', "a re-evaluated uncached subexpression kept the layout of its own evaluation while the evaluator moved the others on: wrong values or AssertionError for shared subexpressions of grouped handler tasks"),
 ('C02', '22730ae', "skew() of fields that are constant along an axis, or live on an edge, raised or gave wrong values when evaluated in coefficient space"),
 ('C03', '9ed2ec2', "allreduce_L2_norm of a rank-2 tensor field contracted the wrong components"),
 ('C04', 'b9ff03e', "cosine transforms with a single resolved mode left unresolved modes uninitialised (garbage in the coefficient or grid data)"),
 ('C05', '0bf5bcc', "LBVP solve deadlocked when some process owns no subproblems"),
 ('C19', 'd80bf71', "progress logging divided by zero when the clock had not advanced"),
 ('C18', 'ba4ed11', "run statistics raised (AttributeError, ZeroDivisionError, hang in a collective) for runs stopping during warm-up, with a stopped clock, or through an exception"),
 ('C16', 'c14c9e7', "merging virtual output files failed, modified files other processes were listing, and replaced the original before the merged file was complete"),
 ('C09', '8db8258', "coefficient-space outputs stored the wavenumber scale of the wrong axis"),
 ('C09', '930c845', "outputs with different scales per axis stored grid scales of the wrong size"),
 ('C10', 'e0d3dcd', "append mode crashed, and overwrite mode deleted files that are not sets of the handler (e.g. <name>_special.h5, another handler's folder <name>_sub), when other files in the folder start with <name>_s; names with glob characters overwrote earlier data"),
 ('C16', '545226c', "merging failed on foreign files or folders next to the sets and silently did nothing for names with glob characters"),
 ('C11', '7343148', "a job restarted in append mode after a crash during a write failed to start (unreadable last set), or restarted the write count"),
 ('C12', '840b113', "errors writing output data were lost: the flush happened when h5py objects were garbage collected, so data were silently missing after e.g. ENOSPC"),
 ('C12', 'be454a2', "an error listing the existing sets was ignored, so append mode started again at set 1"),
 ('C12', '24378df', "errors writing the grid scales of a new output set were lost: the set then holds zeros as grid coordinates"),
 ('C16', '7d1c2eb', 'merging a virtual set while a process file could not be opened (EACCES, EMFILE, EIO, missing) silently replaced its data by fill values, and cleanup then deleted the source'),
 ('C16', 'cfbdec7', 'an error listing the output folder was ignored: merging reported success without merging anything'),
 ('C13', 'a66d044', 'changing a state field to scales above its dealias scales (e.g. u.change_scales(2)) before stepping or solving made the solver read and write the old data buffer: silently wrong trajectories'),
 ('C13', '999bff3', 'checkpoints with some sizes and scales (e.g. 21 modes at scale 5/4) could not be loaded'),
 ('C13', 'bd5045b', 'after loading a state of an earlier (or the same) iteration into a solver that had already stepped, the RHS was not evaluated and stale values were used'),
 ('C16', 'd9ed418', 'an error accessing the set folder during cleanup of a merged virtual set was ignored: merging reported success and left the process files behind'),
 ('C17', 'b9ff838', 'parallel_mkdir returned on the other processes although the directory could not be created, and raised when it was created concurrently'),
 ('C20', 'bfe279a', 'TRANSPOSE_LIBRARY = mpi crashed on the first distributed transpose'),
 ('C20', '4688ab1', 'half-complex FFTs left unresolved modes uninitialised (garbage) with a single resolved mode'),
 ('C15', '24da063', 'after a user function raised during an evaluation (or an attempt stayed unfinished), operators kept the arguments evaluated so far, and later evaluations returned stale results'),
 ('C15', '87d1e7a', 'repeating an iteration of a boundary value solver (iteration counter reset, or solving again after an error) reused the right-hand side of the earlier solve'),
 ('C01', '35ee590', 'stepping several fields without distributed data together through a forward transpose left them marked with the wrong layout'),
 ('C02', '39414e8', 'averages over spheres (S2 in shells and balls, or whole spheres) were not recognised as constant: multiplying them by other fields raised or used the wrong data in parallel'),
 ('C01', '09871d0', 'set_global_data indexed the component axes of vector and tensor fields with spatial indices (IndexError or wrong data)'),
 ('C07', 'fb0efb9', 'an initial value problem whose time field starts at a negative time started at its absolute value, so that simulation-time limits stopped it at once'),
 ('C09', '4964ed2', 'outputs of sphere averages at scales other than 1 stored a colatitude scale of the wrong size'),
 ('C01', '8890d91', 'transposing real and complex fields together (e.g. handlers with both, grouped transposes) raised TypeError'),
 ('C02', 'ac02a2d', 'Lift along a distributed Jacobi axis selected modes by their global index in the local data (IndexError or lost/misplaced tau terms)'),
 ('C02', '18ec006', 'azimuthal averages on spheres, shells and balls failed (broadcast errors) on meshes distributing the colatitude'),
 ('C02', '59396b2', 'colatitude interpolation of rank-2 tensors overwrote the data of its operand'),
 ('C09', '1077027', 'output wavenumber scales of different shapes but the same bytes shared one dataset, so that a task was given scales of the wrong shape'),
]
OPEN = []
with open(os.path.join(V, 'known_findings.jsonl'), 'w') as f:
    for p, c, w in FIXED:
        f.write(json.dumps(dict(status='fixed', property=p, commit=c, what=w, line='fixed: property=%s %s %s' % (p, c, w))) + '\n')
    for d in OPEN:
        f.write(json.dumps(dict(status='open', **d)) + '\n')
