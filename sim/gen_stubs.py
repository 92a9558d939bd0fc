#!/usr/bin/env python3
"""Generate stubs for every MPI entry point the simulated MPI library does not implement: a call to one ends the run as a
harness error (never as a verdict).  Also the few Open MPI internals its C++ bindings refer to."""
import subprocess, sys
real, out, objs = sys.argv[1], sys.argv[2], sys.argv[3:]
def syms(args):
    r = subprocess.run(args, capture_output=True, text=True).stdout
    return {l.split()[-1].split('@')[0] for l in r.splitlines() if l.split()}
have = syms(['nm', '-g', '--defined-only'] + objs)
want = set()
for l in subprocess.run(['nm', '-D', '--defined-only', real], capture_output=True, text=True).stdout.splitlines():
    p = l.split(); n = p[-1].split('@')[0]
    if n.startswith('MPI_') and p[-2] in 'TW': want.add(n)
fn = ['ompi_attr_create_keyval', 'ompi_errcode_intern_lastused_', 'ompi_errhandler_create', 'ompi_errhandler_invoke',
      'ompi_mpi_cxx_op_intercept', 'ompi_op_set_cxx_callback']
with open(out, 'w') as f:
    f.write('extern void sim_unimplemented(const char *);\n')
    for n in sorted((want | set(fn)) - have):
        f.write('__attribute__((visibility("default"))) int %s(void) { sim_unimplemented("%s"); return 0; }\n' % (n, n))
    for n in ['ompi_errcode_intern_lastused', 'ompi_errcodes_intern', 'ompi_registered_datareps']:
        if n not in have: f.write('__attribute__((visibility("default"))) char %s[4096];\n' % n)
