#!/usr/bin/env python3
"""One-off helper: derive harness/src/cmds.rs (the vocabulary of the LaTeX generator) from
the command table of the pinned commit.  The result is committed; checks never run this."""
import re,sys
src=open('/repo/crates/math-core/src/commands.rs',encoding='utf8').read()
body=src.split('static COMMANDS')[1].split('};')[0]
cats={}
for line in body.splitlines():
    m=re.match(r'\s*"((?:[^"\\]|\\.)*)"\s*=>\s*(.*?),?\s*(//.*)?$',line)
    if not m: continue
    name=m.group(1).replace('\\"','"').replace('\\\\','\\'); rhs=m.group(2)
    kind=re.match(r'[A-Za-z:]*',rhs).group(0)
    if kind=='MathOrTextMode':
        kind='SymText'
    if kind=='Letter' and 'MathOrText' in rhs: kind='LetterText'
    if kind=='CustomCmd':
        kind='Custom'+re.match(r'CustomCmd\((\d)',rhs).group(1)
    if kind=='TextMode':
        kind='Text'+re.search(r'TextToken::(\w+)',rhs).group(1)
    if kind=='Letter' or kind=='UprightLetter': kind='Letter'
    cats.setdefault(kind,[]).append(name)
funcs=re.findall(r'"(\w+)"',src.split('static FUNCTIONS')[1].split(');')[0])
cats['Func']=funcs
uni=src.split('static UNICODE_OPERATORS')[1].split('};')[0]
unichars=re.findall(r"^\s*'(.)'\s*=>",uni,re.M)
unichars+= [chr(int(x,16)) for x in re.findall(r"^\s*'\\u\{([0-9a-fA-F]+)\}'\s*=>",uni,re.M)]
out=['// Generated by tools/extract_cmds.py from the command table of the pinned commit.','// Vocabulary only: it steers the generators and is never an oracle.','']
def lit(s):
    return '"'+s.replace('\\','\\\\').replace('"','\\"')+'"'
for k in sorted(cats):
    out.append('pub static %s: &[&str] = &[%s];'%(re.sub(r'(?<!^)(?=[A-Z])','_',k).upper(),', '.join(map(lit,cats[k]))))
out.append('pub static UNICODE_OPS: &[&str] = &[%s];'%', '.join(lit(c) for c in unichars))
open('/verif/harness/src/cmds.rs','w',encoding='utf8').write('\n'.join(out)+'\n')
for k in sorted(cats): print(k,len(cats[k]),cats[k][:6])
print(len(unichars))
