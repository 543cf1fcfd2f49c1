#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.tmpl.md, properties.jsonl, the Prop tables of the harness and the bug matrix."""
import json, re, glob, os, sys
V='/verif/'
P=[json.loads(l) for l in open(V+'properties.jsonl')]
R={}
for f in glob.glob(V+'harness/src/props/*.rs'):
    t=open(f).read()
    for m in re.finditer(r'id: "(C\d\d)",\s*rule:\s*"((?:[^"\\]|\\.)*)",\s*max: *(\d+),\s*quick: *([\d_]+),\s*thorough: *([\d_]+)',t,re.S):
        R[m[1]]=(re.sub(r'\\\n\s*','',m[2]).replace('\\"','"'),int(m[4].replace('_','')),int(m[5].replace('_','')),os.path.basename(f))
O=dict(x for x in [
("C01","memoised search of all derivations (no tables). Bounds: some 10–100 rules, scripts up to some thousand characters; longer ones in C23."),
("C02","the sampled derivation itself; read back by child lists, child numbers, index paths and descendants. Bounds: up to some thousand nodes."),
("C03","table-driven reference parser on reference tables. The expected list is compared as a set of symbols, not as text."),
("C04","textbook classification. A panic counts as refusal only in `new_from_text`; an abort or stack overflow never does."),
("C05","least fixpoint, and for small grammars enumeration of all strings up to a bound."),
("C06","least fixpoint under a random numbering, and equality of the results for reordered statements."),
("C07","reference prediction table, entry by entry, for every lookahead of the grammar and some that are not in it."),
("C08","the rules that were written. The reference reader is checked against the same case, so that it cannot drift."),
("C09","independent reader with the verdicts valid / invalid / open."),
("C10","the hand-woven grammar: rules compared one by one, and the parser's answers compared with the recogniser on it."),
("C11","the list of statements written; the machine reads in a scripted style (plain reads, look-ahead, conditional reads, nested views, refusal, text left over)."),
("C12","post-order of the derivation; for refused scripts the applications completed before the error, from the reference parser."),
("C13","a newly built parser per call, all other machines as controls; table-driven reference parser for parsers of two grammars used in turns or in several threads."),
("C14","the same grammar as text, and the reference."),
("C15","map of live nodes with stable ids; handles are forged and reused on purpose."),
("C16","maps of nodes and edges."),
("C17","index arithmetic on the text; stop and escape scanning written independently."),
("C18","independent lexers with 128-bit values; exact consumption and error place."),
("C19","model in 128-bit integers, state compared after each instruction, standard output captured."),
("C20","independent reader of the instruction list."),
("C21","direct evaluation of the postfix words; the three variants agree."),
("C22","reference reader + analysis + recogniser; real processes in a scratch directory that the check creates and removes."),
("C23","results known by construction; each case on a thread with 2 MiB of stack and limited memory. Bounds: 10^5 elements (10^6 thorough), chains of rules 10^3–10^4."),
("C24","list of (name, kind) pairs and map of rules."),
("C25","character automaton of the notation (and of StackVm code for that machine)."),
("C26","independent analysis: each rule, symbol, lookahead, handle or name in the error must be one for which the complaint is true."),
("C27","metamorphic: the answers for the changed grammar, mapped back, equal those for the original."),
("C28","mutual agreement of seven constructions; the reference for another start rule."),
("C29","the piece that was written; place reached, numbers of symbols, machine calls."),
("C30","the alternatives put in so far after every part; reference predictive parser for verdicts, trees and actions."),
])
fixed={}
for l in open(V+'known_findings.txt'):
    m=re.match(r'fixed: property=(C\d\d) (\w+)',l)
    if m: fixed.setdefault(m[1],[]).append(m[2])
notes=json.load(open(V+'tools/notes.json'))
mf='/tmp/mx/matrix.json'; keep=V+'tools/matrix.json'
M=json.load(open(keep)) if os.path.exists(keep) else {}
if os.path.exists(mf):
    for b,r in json.load(open(mf)).items(): M.setdefault(b,{}).update(r)
bugs=sorted(os.listdir(V+'seeded'))
M={b:M[b] for b in bugs if b in M}
json.dump(M,open(keep,'w'),indent=0,sort_keys=True)
tab=['| | title | quick cases | cost | thorough cases | code |','|---|---|---|---|---|---|']
body=[]
for p in P:
    i=p['id']; rule,q,t,f=R[i]
    ev=V+'evidence/%s.json'%i
    w='~%d s'%(round(float(os.environ.get('W_'+i,0)) or json.load(open(V+'tools/cost.json'))[i]))
    tab.append('| %s | %s | %s | %s | %s | `props/%s` |'%(i,p['title'],format(q,','),w,format(t,','),f))
    body.append('**%s %s.** *Generated:* %s *Oracle and bounds:* %s *Beyond the tests:* %s%s'%(i,p['title'],rule.rstrip('.')[0].upper()+rule.rstrip('.')[1:]+'.',O[i],p['why_tests_cant'],' *Repairs it led to:* '+', '.join(fixed[i])+'.' if i in fixed else ''))
mt=['Bugs, the property they were planted for, and the checks that catch them (quick tier, seed 1; "-" = only the own check was run).','','| bug | own | needs | caught by |','|---|---|---|---|']
own=miss=0
for b in bugs:
    d=V+'seeded/'+b; m=json.load(open(d+'/meta.json')); r=M.get(b,{})
    c=[x for x in sorted(r) if r[x][0]==1 and r[x][1]]
    o=m['property']
    own+=o in c
    if o not in c: miss+=1
    mt.append('| %s | %s | %s | %s |'%(b,('**%s**' if o in c else '%s (missed)')%o,m['needs'].replace('|','\\|').replace('\n',' '),' '.join(c) if len(r)>1 else (' '.join(c)+' -' if c else ('-' if r else 'not run'))))
mt[0]='%d of %d planted bugs are caught by the check of the property they break. '%(own,len(bugs))+mt[0]
s=open(V+'tools/design.tmpl.md').read()
s=s.replace('@@TABLE@@','\n'.join(tab)).replace('@@PROPS@@','\n\n'.join(body)).replace('@@NBUGS@@',str(len(bugs))).replace('@@MATRIX@@','\n'.join(mt))
open(V+'DESIGN.md','w').write(s)
print(own,'of',len(bugs),'missed',miss,[b for b in bugs if b not in M])
