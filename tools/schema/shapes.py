import re,sys
from collections import OrderedDict
def mods(path):
    s=open(path).read()
    out={}
    for m in re.finditer(r'pub mod (byte_aligned|bit_packed) \{',s):
        # match braces
        i=m.end();d=1
        while d:
            c=s[i]
            if c=='{':d+=1
            elif c=='}':d-=1
            i+=1
        out[m.group(1)]=s[m.end():i-1]
    return out
def strip(s):
    s=re.sub(r'//[^\n]*','',s)
    s=re.sub(r'#\[[^\]]*(\([^\)]*\))?[^\]]*\]','',s)
    return s
def block(s,i):
    d=1;j=i
    while d:
        if s[j]=='{':d+=1
        elif s[j]=='}':d-=1
        j+=1
    return s[i:j-1],j
def parse_mod(src):
    src=re.sub(r'//[^\n]*','',src)
    types=OrderedDict();impls={}
    i=0
    for m in re.finditer(r'pub (struct|enum) (\w+) \{',src):
        b,_=block(src,m.end())
        types[m.group(2)]=(m.group(1),b)
    for m in re.finditer(r'\bimpl (\w+) \{',src):
        b,_=block(src,m.end())
        fns=OrderedDict()
        for f in re.finditer(r'(?:pub )?fn (\w+)(?:<[^>]*>)?\(',b):
            k=b.index('{',f.end())
            body,_=block(b,k+1)
            fns[f.group(1)]=(b[f.end():k],body)
        impls.setdefault(m.group(1),OrderedDict()).update(fns)
    return types,impls
if __name__=='__main__':
    m=mods(sys.argv[1])
    types,impls=parse_mod(m[sys.argv[2]])
    shapes={}
    for t in types:
        for fn,(sig,body) in impls.get(t,{}).items():
            if (fn!='parse')!=(sys.argv[3]=='fields'): continue
            b=re.sub(r'tracing::\w+!\([^;]*;','',body)
            b=re.sub(r'\s+',' ',b)
            b=re.sub(r'"[^"]*"','STR',b)
            if fn!='parse':
                b=re.sub(r'\b'+fn.replace('parse_','')+r'\b','F',b)
            b=re.sub(r'\b[A-Z]\w+::parse','T::parse',b)
            b=re.sub(r'\b\d+\w*','#',b)
            shapes.setdefault(b,[]).append((t,fn))
    for k,v in sorted(shapes.items(),key=lambda x:-len(x[1])):
        print(len(v),v[:3],'\n   ',k[:700])
