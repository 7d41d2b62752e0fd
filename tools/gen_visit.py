#!/usr/bin/env python3
"""Writes mc/src/visit.rs: a walk over every node of the public tree, from the type definitions in /repo/src.
Run by hand when the public tree types change; the result is committed."""
import re,glob,subprocess
SRC='/repo/src/'
text={f:open(f).read() for f in sorted(glob.glob(SRC+'*.rs'))}
alltext="\n".join(text.values())
lib=text[SRC+'lib.rs']
named=set(re.findall(r'[A-Z]\w+'," ".join(re.findall(r'^pub use .*?;',lib,re.S|re.M))))|set(re.findall(r'^pub (?:struct|enum) (\w+)',lib,re.M))
spanned=set(re.findall(r'impl(?:<[^>]*>)? Spanned for (\w+)',alltext))
def strip(s):
    s=re.sub(r'//[^\n]*','',s)
    return re.sub(r'#\[[^\]]*\]','',s)
def split(s):
    out=[];d=0;cur=''
    for i,c in enumerate(s):
        if c in '<([{': d+=1
        if c in '>)]}' and not (c=='>' and s[i-1]=='-'): d-=1
        if c==',' and d==0: out.append(cur.strip());cur='';continue
        cur+=c
    if cur.strip(): out.append(cur.strip())
    return [o for o in out if o]
def body(i):
    d=0;j=i
    while True:
        if alltext[j]=='{': d+=1
        if alltext[j]=='}':
            d-=1
            if d==0: return alltext[i+1:j]
        j+=1
types={}
for m in re.finditer(r'^pub (struct|enum) (\w+)(<[^>]*>)?\s*\{',alltext,re.M):
    k,n,g=m.groups()
    b=strip(body(m.end()-1))
    if k=='struct':
        fs=[]
        for f in split(b):
            mm=re.match(r'(pub )\s*(\w+)\s*:\s*(.*)',f,re.S)
            if mm: fs.append((mm.group(2)," ".join(mm.group(3).split())))
        types[n]=('struct',g,fs)
    else:
        vs=[]
        for v in split(b):
            if '{' in v.split('(')[0]:
                vn=v.split('{')[0].strip();fb=v[v.index('{')+1:v.rindex('}')]
                vs.append((vn,'s',[tuple(x.strip() for x in f.split(':',1)) for f in split(fb)]))
            elif '(' in v:
                vn=v.split('(')[0].strip();fb=v[v.index('(')+1:v.rindex(')')]
                vs.append((vn,'t',[" ".join(x.split()) for x in split(fb)]))
            else: vs.append((v.strip(),'u',[]))
        types[n]=('enum',g,vs)
skip={'SQLDialect','SQLArguments','ParseOptions','Issue','Issues','IssueHandle','Fragment','Level'}
cnt=[0]
def base(t): return re.match(r'(?:\w+::)*(\w+)',t.lstrip("&'a ")).group(1)
def emit(e,t,ind):
    """code walking the value behind the reference expression e of type t"""
    t=t.strip();p='    '*ind
    cnt[0]+=1;x=f'x{cnt[0]}'
    m=re.match(r'(Vec|Option|Box)<(.*)>$',t)
    if m:
        inner=emit(x,m.group(2),ind+1) if m.group(1)!='Box' else None
        if m.group(1)=='Box':
            return emit(f'(&**{e})',m.group(2),ind)
        if not inner: return ''
        return f'{p}for {x} in {e}.iter() {{\n{inner}{p}}}\n'
    if t.startswith('('):
        out=''
        for i,u in enumerate(split(t[1:-1])): out+=emit(f'(&{e}.{i})',u,ind)
        return out
    b=base(t)
    if b not in types or b in skip: return ''
    if b in named: return f'{p}{e}.walk(f);\n'
    k,g,fs=types[b]
    out=''
    if b in spanned: out+=f'{p}f.node("{b}", {e});\n'
    if k=='struct':
        for n,u in fs: out+=emit(f'(&{e}.{n})',u,ind)
    return out
o='''// Written by tools/gen_visit.py: a walk over every node of the public tree that has a span of its own.
#![allow(unused_parens, unused_variables, clippy::all)]
use sql_parse::*;

pub trait Visitor {
    fn node<T: Spanned + std::fmt::Debug>(&mut self, name: &'static str, x: &T);
}

pub trait Walk {
    fn walk<V: Visitor>(&self, f: &mut V);
}
'''
for n,(k,g,fs) in sorted(types.items()):
    if n not in named or n in skip: continue
    lt="<'a>" if g else ''
    o+=f"\nimpl{lt} Walk for {n}{lt} {{\n    fn walk<V: Visitor>(&self, f: &mut V) {{\n"
    if n in spanned: o+=f'        f.node("{n}", self);\n'
    if k=='struct':
        for fn,t in fs: o+=emit(f'(&self.{fn})',t,2)
    else:
        o+='        match self {\n'
        for vn,kind,vf in fs:
            if kind=='u': continue
            if kind=='t':
                names=[f'v{i}' for i in range(len(vf))]
                b=''.join(emit(f'v{i}',t,4) for i,t in enumerate(vf))
                if b: o+=f'            {n}::{vn}({", ".join(names)}) => {{\n{b}            }}\n'
            else:
                b=''.join(emit(fn,t,4) for fn,t in vf)
                used=[fn for fn,t in vf if emit(fn,t,4)]
                if b: o+=f'            {n}::{vn} {{ {"".join(u+", " for u in used)}.. }} => {{\n{b}            }}\n'
        o+='            #[allow(unreachable_patterns)]\n            _ => {}\n        }\n'
    o+='    }\n}\n'
open('/verif/mc/src/visit.rs','w').write(o)
