#!/usr/bin/env python3
"""writes MANIFEST.json from the table below (properties without a check go to not_applicable)"""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BF='abstract interpretation of LLVM IR (bit-level value numbering / provenance)'
C={} # id -> (cmd, technique, level, note)
def c(i,cmd,tech,note,level='other'): C[i]=(cmd,tech,level,note)
ON='Decides the clang-compiled x86 targets, EMU128 and SCALAR for the operations in engine/opstable.py; lanes whose function is not canonicalised are reported as undecided, never as violations. '
c('O01','checks/ops.py O01',BF+': byte footprint of every access and its condition',ON+'Every access address must lie in the documented byte range for all arguments.')
c('O02','checks/ops.py O02',BF+' against the documented element order',ON)
c('O03','checks/ops.py O03',BF+' against the documented lane map',ON)
c('O04','checks/ops.py O04',BF+': taint from unspecified upper lanes to outputs and access conditions',ON+'Only partial vectors.')
c('O05','checks/ops.py O05',BF+': dependence of each lane on other lanes',ON)
c('O06','checks/ops.py O06',BF+' against the documented per-lane function',ON)
c('O07','checks/ops.py O07',BF+' against the documented mask function',ON)
c('O08','checks/ops.py O08',BF+' against the documented conversion',ON)
c('C04','checks/bitpack.py',BF+': Unpack(Pack(x)) has the value number of x; byte footprint','All bit widths of Pack8/16, all (thorough: all targets and sizes) widths of Pack32/64 incl. frame-of-reference.')
c('C05','checks/xoshiro.py',BF+' over GF(2): scalar step = vector step = documented recurrence','State update, jumps and seeding; floating-point conversion of outputs only as far as bit-exact.')
try: exec(open(os.path.join(V,'tools','manifest_more.py')).read())
except FileNotFoundError: pass
NA={
'R03':'The writes that matter have lengths taken from operating-system text through data-dependent loops and printf-style formatting; neither the bit-level domain nor a range analysis bounds them here without alarms on correct code (the abort/warn buffers are part of R01).',
'N01':'ULP error of polynomial approximations is a statement about real-number values over 2^32 or 2^64 inputs; no dataflow or type argument bounds it here.',
'N02':'Ordering of arbitrary-length arrays depends on runtime key values through data-dependent partitioning; only the base-case networks (C06), recursion budget (C07) and dispatch (C08) are decidable from program shape.',
'N03':'IEEE results (rounding, NaN, overflow) of hardware conversions are numeric values; the analysis treats floating-point operations as uninterpreted, so it can show operand routing (O05) but not the value.',
'N04':'Exactly-once execution under work stealing and absence of deadlock quantify over schedules of racing counters; a static rule can decide only the ordering and configuration clauses, claimed as T01-T03.',
'N05':'Exactness of reciprocal multiplication is a number-theoretic fact about 64/128-bit products, outside dataflow domains.',
'N06':'Convergence depends on measured costs at run time.',
'N07':'Accuracy of durations depends on the clock and the machine.',
'N08':'Exact sums/products across lanes need equality of multi-operand arithmetic; canonical bit functions of multipliers and carry chains across many lanes are out of reach of the domain (lane routing is decided in O03/O05).'}
def main():
    props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
    ids=[p['id'] for p in props]
    checks=[];na=[]
    for i in ids:
        if i in C:
            cmd,tech,level,note=C[i]
            checks.append(dict(property=i,quick_cmd=f'python3 {cmd} --tier quick',thorough_cmd=f'python3 {cmd} --tier thorough',technique=tech,level=level,level_note=note))
        else: na.append(dict(property=i,reason=NA.get(i,'Planned; no sound check has been completed for it in this tree, so it is not claimed.')))
    m=dict(version=1,setup_cmd='sh engine/build.sh',checks=checks,not_applicable=na)
    json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1); print(len(checks),'checks',len(na),'not applicable')
main()
