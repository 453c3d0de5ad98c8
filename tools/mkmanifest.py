"""Writes MANIFEST.json from the table below."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VN='abstract interpretation of the LLVM IR of every build configuration: value numbering over a canonical term domain with loop summarisation, compared with the published algorithm'
EF='abstract interpretation of the LLVM IR: access/effect obligations per length class'
TR='Trusts clang 18 (front end and mem2reg), the interpreter and term domain in sa/, and for values the independent formulation in sa/spec.py.'
C={}
def c(pid,script,tech,level,note): C[pid]=dict(property=pid,quick_cmd=f'python3-vt sa/{script} {pid}',thorough_cmd=f'VERIF_TIER=thorough python3-vt sa/{script} {pid}',technique=tech,level=level,level_note=note)
for p in('P01','P02','P05','P06','P07'):
    c(p,'p_value.py',VN,'proof','Every length class of every configuration has the canonical value number of the algorithm, for all contents, seeds, addresses and block counts. '+TR)
c('P08','p_effect.py',EF+' (read intervals)','proof','All reads of all exact-read builds lie in [0,len) for every length and address. '+TR)
c('P09','p_effect.py',EF+' (page residues enumerated)','proof','All one-shot reads stay in the pages of the buffer for all 4096 address residues and all lengths. '+TR)
c('P10','p_effect.py',EF+' (store targets)','proof','Every store goes to locals or to the documented outputs; the high half is written on every path. '+TR)
c('P14','p_effect.py',EF+' (alignment congruences)','proof','Every access with a declared alignment is aligned for all address residues, in builds for strict targets. '+TR)
c('P16','p_effect.py',EF+' (undefined-behaviour events)','proof','No live unreachable/abort/oversized shift/division/null memcpy; every loop has a trip count fixed by the length. '+TR)
c('P23','p_effect.py',EF+' (taint)','proof','No branch condition and no address depends on content or seed. '+TR)
NA=dict(P25='Avalanche and collision statistics quantify over runtime values of a mixing function; no sound static argument bounds them (P01-P07 and P13 decide that the specified mixing of every input bit is what is computed).',
 P26='Which variant is fastest is a fact about processors and timing, not visible in the source.',
 P27='Cycle accuracy is timing behaviour of the harness on real clocks; there is nothing in the shape of the code that decides it.')
try:
    import importlib.util
    s=importlib.util.spec_from_file_location('more',os.path.join(V,'tools','manifest_more.py'))
    m=importlib.util.module_from_spec(s); m.c=c; m.TR=TR; m.VN=VN; m.EF=EF; s.loader.exec_module(m)
except FileNotFoundError: pass
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
na=[dict(property=i,reason=NA.get(i,'check not built yet')) for i in ids if i not in C]
json.dump(dict(version=1,setup_cmd='python3-vt sa/setup.py',checks=[C[i] for i in ids if i in C],not_applicable=na,
  notes='No hooks are needed in /repo: the checks read its sources. Genuine defects found were repaired by fix: commits, listed in known-findings.txt.'),open(V+'/MANIFEST.json','w'),indent=1)
print(len(C),'checks',len(na),'not applicable')
