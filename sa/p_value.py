"""P01 P02 P05 P06 P07: the at-once results are the published functions in every configuration."""
import sys, engine, build, check, p_effect
from engine import FUN, value_task, classes
import terms as t
SETS={'P01':['t1ha2_atonce'],'P02':['t1ha2_atonce128'],'P05':['t1ha1_le','t1ha1_be'],'P06':['t1ha0_32le','t1ha0_32be'],'P07':engine.AES}
def run(pid):
    C=check.Check(pid,'proof')
    pl=p_effect.plan([c.name for c in build.C.values() if pid!='P07' or c.aes],SETS[pid])
    R=check.pool(value_task,[(rep,fn,g) for rep,mem,fn,g in pl])
    for r,(rep,mem,fn,g) in zip(R,pl): r['members']=mem
    report(C,R)
    return C.finish()
def report(C,R):
    tot=sum(r['total'] for r in R); pr=sum(r['proven'] for r in R)
    for r in R:
        for cl,w in r['viol']:
            C.violation(f"{r['cfg']}/{r['fn']}/{cl}",f"{build.C[r['cfg']].note}: {r['fn']} for {cl} is not the published function: {w}",w)
    C.cov.update(obligations=tot,discharged=pr,agree_only=sum(len(r['agree']) for r in R),undecided=sum(len(r['unproven']) for r in R),
        undecided_samples=[f"{r['cfg']}/{r['fn']}: {x}" for r in R for x in (r['unproven']+r['agree'])][:10],
        code_variants=len({(r['cfg'],r['fn']) for r in R}),function_instances=len({(m,r['fn']) for r in R for m in r['members']}),configurations=sorted({m for r in R for m in r['members']}),functions=sorted({f for r in R for f in r['fns']}),
        instructions_interpreted=sum(r['steps'] for r in R),loops_summarised=sum(r['folds'] for r in R),
        wide_product_lemmas=sorted({f"{r['cfg']}:{k}={v}" for r in R for k,v in r['lemmas'].items()}),
        rule='obligation = (configuration, function, length class): value number of the result equals the value number of the algorithm; loops are summarised as recurrences, so a class with a variable number of blocks covers every length of that residue',
        checker_cmd=f'python3-vt {sys.argv[0]} {C.pid}',
        trusted_base=['clang 18 front end and mem2reg (source -> LLVM IR)','sa/interp.py, sa/terms.py, sa/intform.py','sa/spec.py (algorithms, cross-checked against the published reference values by sa/selftest_spec.py)','intrinsic stubs in sa/stubs for the MSVC view'])
    C.assume=['clang accepts the sources for each target as that target\'s own compiler would (GCC and MSVC views are emulated by predefined macros)','lengths up to the largest object size (half of the address space)']
    if tot<50: raise check.Broken('too few obligations')
if __name__=='__main__': check.main(lambda: run(sys.argv[1]))
