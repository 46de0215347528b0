import re,sys,json
import os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from shapes import mods,parse_mod,block
UNK=[]
# usage: extract.py DIR OUT; DIR holds protocol{87702,75689}/mod.rs as they were at 586ad69 (before any fix to them)
SRC,OUT=sys.argv[1:3]
def norm(b):
    while True:
        m=re.search(r'tracing::\w+!\(',b)
        if not m: break
        i=m.end();d=1
        while d:
            d+={'(':1,')':-1}.get(b[i],0); i+=1
        b=b[:m.start()]+b[i:].lstrip(';')
    b=re.sub(r'\s+',' ',b).strip()
    return b
def num(x): return int(x.replace('usize','').replace('i64',''))
def bp_field(t,f,body,decl):
    b=norm(body)
    m=re.fullmatch(r'let \(tail, is_provided\): \(\(&\[u8\], usize\), bool\) = parse_bool\(input\)\?; let \(tail, \w+\) = if is_provided \{ (.*) \(tail, Some\((?:res|array)\)\) \} else \{ \(tail, None\) \}; Ok\(\(tail, \w+\)\)',b)
    if m:
        inner=m.group(1).strip()
        bad='take_n_bits_into_i64(input' in inner
        inner=inner.replace('(tail)','(input)')
        inner=re.sub(r'parse_packed_int\(tail,','parse_packed_int(input,',inner)
        mm=re.fullmatch(r'let \(tail, res\) = (.*)\?;',inner)
        if mm:
            return {"k":"opt","i":bp_call(mm.group(1),t,f)}
        if bad:
            return {"k":"unreadable"}
        UNK.append((t,f,b)); return None
    m=re.fullmatch(r'let \(tail, \w+\) = (.*?)\?; Ok\(\(tail, \w+\)\)',b)
    if m: return bp_call(m.group(1),t,f)
    m=re.match(r'let \(mut tail, array_length\) = take_n_bits_into_i64\(input, (\w+)\)\?; let array_length = array_length as usize;',b)
    if m:
        n=num(m.group(1))
        if 'take_unaligned_byte(tail)' in b: return {"k":"bytes","bits":n}
        mm=re.search(r'let \(new_tail, data\) = (\w+)::parse\(tail\)',b)
        return {"k":"arr","off":0,"bits":n,"t":mm.group(1)}
    UNK.append((t,f,b))
def bp_call(c,t,f):
    m=re.fullmatch(r'(\w+)::parse\(input\)',c)
    if m: return {"k":"ref","t":m.group(1)}
    if c=='parse_bool(input)': return {"k":"bool"}
    if c=='take_fourcc(input)': return {"k":"fourcc"}
    if c=='take_null(input)': return {"k":"null"}
    m=re.fullmatch(r'parse_packed_int\(input, ([-\w]+), (\w+)\)',c)
    if m: return {"k":"int","off":num(m.group(1)),"bits":num(m.group(2))}
    UNK.append((t,f,c))
def bp_type(t,kind,decl,fns):
    b=norm(fns['parse'][1])
    m=re.fullmatch(r'let offset: i64 = ([-\w]+); let num_bits: usize = (\w+); let \(tail, value\) = parse_packed_int\(input, offset, num_bits\)\?; Ok\(\(tail, Self \{ value \}\)\)',b)
    if m: return {"k":"int","off":num(m.group(1)),"bits":num(m.group(2)),"wrap":1}
    m=re.fullmatch(r'let \(tail, value\) = (\w+)::parse\(input\)\?; Ok\(\(tail, Self \{ value \}\)\)',b)
    if m: return {"k":"ref","t":m.group(1),"wrap":1}
    m=re.match(r'let str_size_num_bits: usize = (\w+); let \(tail, str_size\) = parse_packed_int\(input, (\w+), str_size_num_bits\)\?; let \(tail, _\) = byte_align\(tail\)\?; let \(tail, value\) = take_bit_array\(tail, str_size as usize \* 8(?:usize)?\)',b)
    if m: return {"k":"blob","bits":num(m.group(1)),"off":num(m.group(2)),"wrap":1}
    m=re.match(r'let \(tail, _\) = byte_align\(input\)\?; let num_bits: usize = (\w+?) \* 8(?:usize)?; let \(tail, value\) = take_bit_array\(tail, num_bits\)',b)
    if m: return {"k":"fixed","bytes":num(m.group(1)),"wrap":1}
    m=re.match(r'let bitarray_length_bits: usize = (\w+); let \(tail, bitarray_length\) = take_n_bits_into_i64\(input, bitarray_length_bits\)\?; let \(tail, value\) = take_n_bits_into_i64\(tail, bitarray_length as usize\)',b)
    if m: return {"k":"bitsint","bits":num(m.group(1)),"wrap":1}
    m=re.match(r'let bitarray_length_bits: usize = (\w+); let \(tail, bitarray_length\) = take_n_bits_into_i64\(input, bitarray_length_bits\)\?; let \(tail, value\) = take_bit_array\(tail, bitarray_length as usize\)',b)
    if m: return {"k":"bitsvec","bits":num(m.group(1)),"wrap":1}
    m=re.match(r'let array_length_num_bits: usize = (\w+); let \(mut tail, array_length\) = parse_packed_int\(input, (\w+), array_length_num_bits\)\?;',b)
    if m:
        mm=re.search(r'let \(new_tail, data\) = (\w+)::parse\(tail\)',b)
        return {"k":"arr","off":num(m.group(2)),"bits":num(m.group(1)),"t":mm.group(1),"wrap":1}
    if kind=='enum':
        mm=re.search(r'let num_bits: usize = (\w+); let \(tail, variant_tag\) = parse_packed_int\(input, (\w+), num_bits\)',b)
        bits=num(mm.group(1)); 
        vs=[]
        for m in re.finditer(r'(\d+)(?:i64)? => \{',b):
            arm,_=block(b,m.end()); arm=arm.strip()
            p=None
            q=re.fullmatch(r'(?:let \(tail, res\) = (.*?)\?; )?Ok\(\( ?tail, Self::(\w+)(?:\(res\))?,? ?\)\)',arm)
            if q:
                if q.group(1): p=bp_call(q.group(1).replace('(tail','(input'),t,q.group(2))
                vs.append([int(m.group(1)),q.group(2),p]); continue
            q=re.match(r'let \(tail, is_provided\): \(\(&\[u8\], usize\), bool\) = parse_bool\(tail\)\?; if is_provided \{ let \(tail, res\) = (.*?)\?; Ok\(\(tail, Self::(\w+)\(Some\(res\)\)\)\) \} else',arm)
            if q:
                p={"k":"opt","i":bp_call(q.group(1).replace('(tail','(input'),t,q.group(2))}
                vs.append([int(m.group(1)),q.group(2),p]); continue
            q=re.search(r'Self::(\w+)',arm)
            UNK.append((t,'arm',m.group(1),arm)); vs.append([int(m.group(1)),'?',None])
        return {"k":"enum","bits":bits,"variants":vs}
    # struct
    order=re.findall(r'Self::parse_(\w+)\(tail\)',b)
    if not order:
        assert 'Self {}' in b or 'Self { }' in b,(t,b)
        return {"k":"struct","fields":[]}
    decls=dict(re.findall(r'pub (\w+): ([^,]+),',re.sub(r'\s+',' ',decl)))
    fields=[]
    for f in order:
        fields.append([f,bp_field(t,f,fns['parse_'+f][1],decls.get(f))])
    declorder=[x for x in re.findall(r'pub (\w+):',decl)]
    assert sorted(declorder)==sorted(order),(t,declorder,order)
    return {"k":"struct","fields":fields,"decl":declorder}
def by_call(c,ty=None):
    if c=='tagged_vlq_int': return {"k":"vlq","ty":ty or 'i64'}
    if c=='tagged_blob': return {"k":"blob"}
    if c=='tagged_bool': return {"k":"bool"}
    if c=='tagged_fourcc': return {"k":"fourcc"}
    if c=='tagged_bitarray': return {"k":"bitarray"}
    m=re.fullmatch(r'(\w+)::parse',c)
    if m: return {"k":"ref","t":m.group(1)}
    UNK.append(('call',c))
def by_field(t,f,body,decl):
    b=norm(body)
    m=re.fullmatch(r'let \(tail, \w+\) = ([\w:]+)\(input\)\?; Ok\(\( ?tail, (?:(\w+)::try_from\(\w+\)\?|\w+),? ?\)\)',b)
    if m: return by_call(m.group(1),m.group(2))
    m=re.match(r'let \(tail, _\) = validate_opt_tag\(input\)\?; let \(tail, is_provided\) = nom::number::complete::u8\(tail\)\?; let \(tail, \w+\) = if is_provided != 0 \{ (.*) \} else \{ \(tail, None\) \}; Ok',b)
    arr=None
    if m:
        ty=re.match(r'Option<(.*)>$',decl).group(1)
        inner=m.group(1)
        mm=re.match(r'let \(tail, res\) = ([\w:]+)\(tail\)\?; \(tail, Some\(.*\)\)$',inner)
        if mm: return {"k":"opt","i":by_call(mm.group(1),ty)}
        if 'validate_array_tag' in inner:
            mm=re.search(r'let \(new_tail, data\) = ([\w:]+)\(tail\)',inner)
            ety=re.match(r'Vec<(.*)>',ty).group(1)
            return {"k":"opt","i":{"k":"arr","i":by_call(mm.group(1),ety)}}
    if b.startswith('let (tail, _) = validate_array_tag(input)'):
        mm=re.search(r'let \(new_tail, data\) = ([\w:]+)\(tail\)',b)
        return {"k":"arr","i":by_call(mm.group(1),re.match(r'Vec<(.*)>',decl).group(1))}
    UNK.append((t,f,b,decl))
def by_type(t,kind,decl,fns):
    b=norm(fns['parse'][1])
    if kind=='enum':
        k='choice' if 'validate_choice_tag' in b else 'enum'
        vs=[]
        for m in re.finditer(r'(\d+)(?:i64)? => \{ (?:let \(tail, res\) = ([\w:]+)\(tail\)\?; )?Ok\(\( ?tail, Self::(\w+)(?:\((?:(\w+)::try_from\(res\)\?|res)\))?,? ?\)\) \}',b):
            p=None
            if m.group(2): p=by_call(m.group(2),m.group(4))
            vs.append([int(m.group(1)),m.group(3),p])
        n=len(re.findall(r'Self::',b)); assert n==len(vs),(t,n,len(vs),b[:1500])
        return {"k":k,"variants":vs}
    if b.startswith('let (tail, _) = validate_array_tag(input)'):
        mm=re.search(r'let \(new_tail, data\) = ([\w:]+)\(tail\)',b)
        return {"k":"arr","i":by_call(mm.group(1)),"wrap":1}
    decls=dict(re.findall(r'pub (\w+): ([^,]+),',re.sub(r'\s+',' ',decl)))
    tags=re.findall(r"(\d+) => \{ if (?:let Some\(None\) = (\w+)|(\w+) ?\.is_none\(\)) \{ let \( ?new_tail, \w+,? ?\) = Self::parse_(\w+)\( ?tail,? ?\)",b)
    fields=[]
    for tag,a,c,f in tags:
        assert (a or c)==f
        fields.append([int(tag),f,by_field(t,f,fns['parse_'+f][1],decls[f])])
    assert len(fields)==len(decls),(t,len(fields),len(decls),b[:800])
    return {"k":"struct","fields":fields,"decl":list(decls)}
out={}
for proto in ('87702','75689'):
    m=mods(f'{SRC}/protocol{proto}/mod.rs')
    for mod,fn in (('bit_packed',bp_type),('byte_aligned',by_type)):
        types,impls=parse_mod(m[mod])
        d={}
        for t,(kind,decl) in types.items():
            if 'parse' not in impls.get(t,{}): print('noparse',t); continue
            d[t]=fn(t,kind,decl,impls[t])
        out[f'{proto}.{mod}']=d
for u in UNK: print('UNK',u)
print({k:len(v) for k,v in out.items()})
# transitive check
new=set(out['75689.bit_packed'])
old=out['87702.bit_packed']
def refs(d):
    if isinstance(d,dict):
        if 't' in d: yield d['t']
        for v in d.values(): yield from refs(v)
    elif isinstance(d,list):
        for v in d: yield from refs(v)
dep={t:set(refs(d)) for t,d in old.items()}
bad=set()
ch=True
while ch:
    ch=False
    for t,ds in dep.items():
        if t not in new and t not in bad and (ds&new or ds&bad):
            bad.add(t);ch=True
print('reexported but depending on redefined:',bad)
print('unreadable', [(t,f) for t,d in old.items() if d['k']=='struct' for f,x in d['fields'] if x and x['k']=='unreadable'])
root=['GameEEventId','GameEMessageId','ReplaySInitData','SVarUint32']
seen=set();st=list(root)
while st:
    t=st.pop()
    if t in seen: continue
    seen.add(t); st+=dep[t]
print('unreachable',sorted(set(old)-seen))

# containers of redefined types belong to the old layout too
for t in sorted(bad & seen): out['75689.bit_packed'].setdefault(t, old[t])
json.dump(out,open(OUT,'w'),indent=None,separators=(',',':'))
