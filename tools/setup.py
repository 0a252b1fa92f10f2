#!/usr/bin/env python3
"""Compiles every harness package once, so that the checks find a warm build cache."""
import os, shutil, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import importlib.machinery, importlib.util
loader = importlib.machinery.SourceFileLoader('check', os.path.join(here, 'check'))
spec = importlib.util.spec_from_loader('check', loader)
check = importlib.util.module_from_spec(spec)
loader.exec_module(check)
done = set()
for c in check.CHECKS.values():
    k = (c['pkg'], bool(c.get('race')), bool(c.get('server')), bool(c.get('k8s')))
    if k in done:
        continue
    done.add(k)
    w = tempfile.mkdtemp(prefix='doqverif-setup-')
    try:
        if check.build(w, c['pkg'], race=k[1]) is None:
            sys.exit(1)
        if c.get('k8s') and check.build_server(w, k8s=True) is None:
            sys.exit(1)
        if c.get('server') and check.build_server(w) is None:
            sys.exit(1)
    finally:
        shutil.rmtree(w, ignore_errors=True)
print('built', sorted(done))
