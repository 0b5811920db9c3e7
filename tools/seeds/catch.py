#!/usr/bin/env python3
"""catch.py [-a] [ID...]: which checks see each seeded change.  Builds every change in a copy of /repo
under /tmp (never in /repo) and runs the check of its property there, with -a all 27."""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
args = sys.argv[1:]
every = '-a' in args
ids = [a for a in args if a != '-a'] or sorted(os.listdir(V + '/seeded'))
SIM = '/tmp/catch/dldsim'
os.makedirs('/tmp/catch', exist_ok=True)
shutil.copy(V + '/build/sim/release/dldsim', SIM)
shim = subprocess.run(['find', V + '/build', '-name', 'libshim.so'], stdout=subprocess.PIPE, text=True).stdout.split()[0]
shutil.copy(shim, '/tmp/catch/libshim.so')
import queue
slots = queue.Queue()
for i in range(4): slots.put(i)
def one(i):
    k = slots.get()
    w = f'/tmp/catch/w{k}'
    try:
        if not os.path.exists(w):
            subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'], check=True)
        subprocess.run(['git', '-C', w, 'apply', f'{V}/seeded/{i}/patch.diff'], check=True)
        b = subprocess.run(['cargo', 'build', '-q', '--offline', '--bin', 'dld', '--manifest-path', w + '/Cargo.toml', '--target-dir', w + '/target'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode: return i, 'does not build', ''
        own = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
        out = f'/tmp/catch/out{k}'
        os.makedirs(out, exist_ok=True)
        shutil.copy(V + '/known-findings.txt', out)
        hit, first = [], ''
        for p in [own] + ([f'C{n:02d}' for n in range(1, 28) if f'C{n:02d}' != own] if every else []):
            r = subprocess.run([SIM, 'check', '--property', p, '--workers', '3', '--dld', w + '/target/debug/dld', '--shim', '/tmp/catch/libshim.so', '--out', out] + (['--runs', '3000'] if p != own else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            t = r.stdout.decode(errors='replace')
            if r.returncode == 1 and 'VIOLATION property=' + p in t:
                hit.append(p)
                if p == own: first = next((l for l in t.split('\n') if l.startswith('run ')), '')[:110]
            elif r.returncode: hit.append(f'{p}:exit{r.returncode}')
        return i, ' '.join(hit) or 'MISSED', first
    except Exception as e: return i, 'error ' + repr(e), ''
    finally: slots.put(k)
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, ids): print(' | '.join(r), flush=True)
shutil.rmtree('/tmp/catch')
