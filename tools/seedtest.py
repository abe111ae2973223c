"""Confirm planted changes in a scratch copy: python3 tools/seedtest.py ID...

For each: the patch applies, the stable tests pass, the demonstration exits 0
on the unchanged tree and nonzero with the patch; then the quick check of its
property is run against the changed copy (options: --notests, --nocheck,
--new ID PROPERTY: makes the patch from the scratch copy /tmp/w/rc/repo).
"""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w/sc'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
args = [a for a in sys.argv[1:] if not a.startswith('--')]
opts = [a for a in sys.argv[1:] if a.startswith('--')]


def sh(cmd, cwd=None, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, text=True,
                          capture_output=True, env={**os.environ, **env},
                          executable='/bin/bash')


for i in args:
    d = f'{V}/seeded/{i}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    os.makedirs(W, exist_ok=True)
    c = f'{W}/{i}'
    shutil.rmtree(c, ignore_errors=True)
    sh(f'cp -a /repo {c}')
    x = f'{W}/demo-{i}'
    shutil.rmtree(x, ignore_errors=True)
    shutil.copytree(d, x)
    for n in ('patch.diff', 'meta.json'):
        os.remove(f'{x}/{n}')
    env = dict(PYTHONPATH=c)
    pre = '. /opt/vp/env.sh; export PYTHONPATH=%s; ' % c
    r0 = sh(pre+f'timeout 300 bash {x}/demo.sh', c)
    a = sh(f'git apply {d}/patch.diff', c)
    r1 = sh(pre+f'timeout 300 bash {x}/demo.sh', c)
    out = [f'{i} [{prop}] apply={a.returncode} demo {r0.returncode}->'
           f'{r1.returncode}']
    if r0.returncode:
        out.append('UNCHANGED: ' + (r0.stdout+r0.stderr)[-600:])
    if r1.returncode == 0:
        out.append('NOT SHOWN: ' + (r1.stdout+r1.stderr)[-600:])
    else:
        out.append('  shown: ' + (r1.stdout+r1.stderr).strip()[-200:])
    if '--notests' not in opts:
        xml = f'{W}/{i}.xml'
        t = sh(pre+'/opt/venv/bin/python -c "import empymod; '
               'print(empymod.__file__)"; /opt/venv/bin/python -m pytest -q '
               '--mpl -p no:cacheprovider --timeout=300 -n 8 --dist loadfile '
               '-o junit_family=xunit2 --deselect tests/test_cli.py::'
               f'test_import_time --junitxml={xml} tests', c)
        bad = []
        for tc in ET.parse(xml).getroot().iter('testcase'):
            if any(k.tag in ('failure', 'error') for k in tc):
                n = tc.get('name')
                bad += [n]*any(n in x for x in STABLE)
        out.append(f'  tests failing: {bad} ({t.stdout.splitlines()[0]})')
        sh('git checkout -- . && git clean -fdq', c)
        sh(f'git apply {d}/patch.diff', c)
    if '--nocheck' not in opts:
        k = sh(f'timeout 900 bash run.sh {prop} quick', V, VERIF_REPO=c)
        ln = [s for s in k.stdout.splitlines() if 'VIOLATION' in s]
        out.append(f'  check exit={k.returncode} {len(ln)} ' +
                   ('; '.join(s[:160] for s in ln[:2]) if ln else
                    'MISSED ' + k.stdout[-300:]+k.stderr[-300:]))
    print('\n'.join(out), flush=True)
    shutil.rmtree(c, ignore_errors=True)
    shutil.rmtree(x, ignore_errors=True)
