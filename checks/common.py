"""Shared plumbing of the checks: tool build, known findings, evidence, verdict printing."""
import os, sys, json, time, subprocess, shutil, tempfile, argparse, re
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
REPO=os.environ.get('VERIF_REPO','/repo')
ENGINE=os.path.join(VERIF,'engine'); BUILD=os.path.join(VERIF,'build')
SEED=int(os.environ.get('VERIF_SEED','1') or 1)
sys.path.insert(0,ENGINE); sys.path.insert(0,HERE)
sys.dont_write_bytecode=True
T0=time.time()
CLANG=shutil.which('clang++-18') or shutil.which('clang++') or 'clang++'

class Broken(Exception):
    """the analysis could not give an answer"""

def args(extra=None):
    ap=argparse.ArgumentParser(); ap.add_argument('prop',nargs='?'); ap.add_argument('--tier',default=os.environ.get('VERIF_TIER','quick') or 'quick')
    if extra: extra(ap)
    return ap.parse_args()

def build_tools(name=None):
    p=subprocess.run(['sh',os.path.join(ENGINE,'build.sh')]+([name] if name else []),capture_output=True,text=True)
    if p.returncode: raise Broken('cannot build the analysers: '+p.stderr[-2000:])

def scratch(prefix='vf'):
    d=tempfile.mkdtemp(prefix=prefix,dir=os.environ.get('TMPDIR','/tmp'))
    import atexit; atexit.register(lambda: shutil.rmtree(d,ignore_errors=True))
    return d

def known_findings(prop):
    """known-findings.txt lines: 'finding: property=<id> key=<violation key> | text'; 'fixed:' lines suppress nothing."""
    r=[]
    f=os.path.join(VERIF,'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m=re.match(r'finding: property=(\S+) key=(.+?) \| (.*)',l.strip())
            if m and m.group(1)==prop: r.append((m.group(2),m.group(3)))
    return r

def finish(prop,tier,level,coverage,violations,assumptions=None,max_print=8):
    """violations: list of dict(key=stable identity, where=construct, what=text). Prints verdict, writes evidence, exits."""
    kf=known_findings(prop); new=[]; seen=set()
    for v in violations:
        hit=[t for k,t in kf if k==v['key']]
        if hit:
            if v['key'] not in seen: print(f'KNOWN-FINDING: property={prop} {hit[0]}')
            seen.add(v['key'])
        else: new.append(v)
    os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
    ev=dict(property=prop,tier=tier,seed=SEED,level=level,coverage=coverage,assumptions=assumptions or [],wall_s=round(time.time()-T0,2),violations=len(new))
    json.dump(ev,open(os.path.join(VERIF,'evidence',prop+'.json'),'w'),indent=1)
    if new:
        rp=os.path.join(VERIF,'evidence',f'{prop}.replay.json')
        json.dump(dict(property=prop,violations=new[:200],how='re-run the check; each entry names the construct in /repo and the rule it breaks'),open(rp,'w'),indent=1)
        for v in new[:max_print]: print(f"  {v['key']}: {v.get('where','')}: {v['what']}"[:700])
        if len(new)>max_print: print(f'  ... {len(new)-max_print} more, see {rp}')
        print(f'VIOLATION property={prop} replay={rp}')
        sys.exit(1)
    print(f'OK property={prop} tier={tier} wall={ev["wall_s"]}s '+' '.join(f'{k}={v}' for k,v in coverage.items() if isinstance(v,int)))
    sys.exit(0)

def main(f):
    try: f()
    except Broken as e:
        print('ANALYSIS-BROKEN:',e); sys.exit(2)
