#!/usr/bin/env python3
"""Sanity check of the tools the checks need; parses the specification."""
import glob, os, subprocess, sys, tempfile
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
for cmd in (['go', 'version'], ['clang', '--version'], ['java', '-version'], ['make', '--version']):
    if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        sys.exit('missing tool: ' + cmd[0])
with tempfile.TemporaryDirectory() as d:
    for m in sorted(glob.glob(os.path.join(SPEC, '*.tla'))):
        p = subprocess.run(['java', '-Xss64m', '-Djava.io.tmpdir=' + d, '-cp', CP, 'tla2sany.SANY', m], cwd=SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode or '*** Errors' in p.stdout:
            sys.exit(m + ':\n' + p.stdout)
print('tools present, specification parses')
