import re, collections, itertools, functools, operator, csv, io, os, string, datetime, math, copy, textwrap, json, contextlib, enum, dataclasses, typing
from collections import namedtuple, ChainMap, deque
# functions f(s, t, n, b): s 3 chars, t 1 char, n int, b bool
def f_partition(s,t,n,b): return s.partition(t)
def f_rpartition(s,t,n,b): return s.rpartition(t)
def f_splitmax(s,t,n,b): return s.split(t,1)
def f_rsplit(s,t,n,b): return s.rsplit(t,1)
def f_rsplit2(s,t,n,b): return s.rsplit(t)
def f_splitws(s,t,n,b): return s.split()
def f_splitkw(s,t,n,b): return s.split(sep=t,maxsplit=1)
def f_rsplitws(s,t,n,b): return s.rsplit(None,1)
def f_lines(s,t,n,b): return s.splitlines(), s.splitlines(True), s.splitlines(keepends=True)
def f_strip(s,t,n,b): return s.strip(), s.lstrip(t), s.rstrip(t+'-'), s.strip('a ')
def f_pref(s,t,n,b): return s.removeprefix(t), s.removesuffix(t)
def f_starts(s,t,n,b): return s.startswith(('a',t)), s.endswith((t,)), s.startswith(t,1), s.endswith(t,0,2)
def f_case(s,t,n,b): return s.upper(), s.lower(), s.title(), s.capitalize(), s.swapcase(), s.casefold()
def f_pred(s,t,n,b): return s.isdigit(), s.isalpha(), s.isalnum(), s.isspace(), s.isupper(), s.islower(), s.isnumeric(), s.isdecimal(), s.istitle(), s.isidentifier()
def f_find(s,t,n,b): return s.find(t), s.rfind(t), s.count(t), s.find(t,1), s.index(t) if t in s else -9
def f_index(s,t,n,b): return s.index(t)
def f_rindex(s,t,n,b): return s.rindex(t)
def f_pad(s,t,n,b): return s.ljust(5), s.rjust(5,'.'), s.center(6), s.zfill(5)
def f_mul(s,t,n,b): return s*2, t*n, n*t
def f_slice(s,t,n,b): return s[1:], s[:-1], s[::-1], s[n:], s[:n], s[0], s[-1], s[slice(0,2)]
def f_repl(s,t,n,b): return s.replace(t,'zz'), s.replace(t,'',1)
def f_trans(s,t,n,b): return s.translate({ord('a'):None, ord(' '):'_'}), s.translate(str.maketrans('a-','b_')), s.translate(str.maketrans('','','a1'))
def f_join(s,t,n,b): return t.join(s), ','.join([s,t]), ''.join(reversed(s)), ''.join(c for c in s if c!=t)
def f_map(s,t,n,b): return list(map(str.upper,[s,t])), list(map(str.strip,[s,t])), ''.join(filter(str.isalpha,s)), list(filter(None,[s.strip(),t.strip()]))
def f_key(s,t,n,b): return sorted([s,t,'b'],key=str.lower), sorted(s), min(s), max(s,t), sorted([s,t],reverse=True), sorted([(s,1),(t,2)],key=operator.itemgetter(0)), max([s,t],key=len)
def f_fmt(s,t,n,b): return '{}-{}'.format(s,t), '{0}{1}{0}'.format(s,t), '{a}'.format(a=s), f'{s}:{t}', f'{s!r}', f'{n:03d}', '%s|%d'%(s,n), '%r'%s, f'{s:>6}', '{:<5}|'.format(s), f'{n}', '{:,}'.format(n), '%05d'%n, '%-6s|'%s
def f_fmtmap(s,t,n,b): return '{a}{b}'.format_map({'a':s,'b':t}), '%(a)s'%{'a':s}
def f_tmpl(s,t,n,b): return string.Template('$a').substitute(a=s)
def f_int(s,t,n,b):
    try: return int(s)
    except ValueError as e: return 'bad'
def f_float(s,t,n,b):
    try: return float(s)
    except ValueError: return None
def f_str(s,t,n,b): return str(n), repr(n), str(b), repr(s), str([s,n]), str((s,)), str({'k':s}), str(None), ascii(n)
def f_num(s,t,n,b): return n+1, n-1, -n, abs(n), n*n, n//2, n%3, n/2, divmod(n,3), n**2, pow(n,2), round(n/3,2), max(n,1), min(n,0), bool(n), n<<1 , n&1, n|1, n^1, ~n, +n, int(n), float(n), n.bit_length()
def f_chain(s,t,n,b): return 0<=n<2, n in (0,1), n in range(2), n in {0,2}, s==t==s, s<t, s>=t, 'a'<=t<='z', n==True
def f_bool(s,t,n,b): return b and s, b or t, not b, b & (n>0), b | (n>0), b ^ (n>0), int(b)+1, sum([b,b]), any([b,n]), all([b,n>0])
def f_tern(s,t,n,b): return s if b else t, [s,t][b], (s,t)[n>0], {True:s,False:t}[b]
def f_dict(s,t,n,b):
    d={s:1}; d[t]=2; d.setdefault(s,[]); d.update({t:3}); d.update(x=4); d.update([(s,9)])
    e={**d,'z':0}; g=d|{'q':1}; d|={'r':2}
    return list(d.items()), list(e), g.get(t), d.pop(s), d.pop('nope',None), d.popitem(), len(d), t in d, list(d.values()), sorted(e.items(), key=lambda x:str(x)), dict.fromkeys([s,t],0), dict(zip([s,t],[1,2])), {k:v for k,v in e.items() if v}
def f_del(s,t,n,b):
    d={s:1,t:2}
    del d[t]
    try: del d['zz']
    except KeyError as k: x=str(k)
    return d,x,next(iter(d),None)
def f_dd(s,t,n,b):
    d=collections.defaultdict(list); d[s].append(1); d[t].append(2); c=collections.defaultdict(int); c[s]+=1; c[t]+=1
    return dict(d),dict(c),d.get('zz'), len(d)
def f_counter(s,t,n,b):
    c=collections.Counter(s); c.update(t); c[t]+=1; k=c+collections.Counter([t]); k.subtract([t])
    return dict(c), sum(c.values()), c['q'], list(c.elements()), c.most_common(), c.most_common(1), dict(k), c.total()
def f_od(s,t,n,b):
    d=collections.OrderedDict(); d[s]=1; d[t]=2; d.move_to_end(s)
    return list(d.items())
def f_set(s,t,n,b):
    x={s,t}; y=set(s); z=frozenset([t]); x.add('q'); x.discard(t); x|={t}; 
    return sorted(x), sorted(y&{t}), sorted(y-z), sorted(y^z), y>=z, z.issubset(y), y.isdisjoint(z), len(x|y), sorted(set().union([s],[t])), sorted({c for c in s}), s in x, y.intersection([t])==set(), sorted(x.union(y)), sorted(y.difference(z)), sorted(y.symmetric_difference([t]))
def f_setop(s,t,n,b):
    x=set(s); x-={t}; y=set(s); y&={t}; w=set(s); w^={t}; v=set(s); v.update([t],['u']); v.remove('u'); u=set(s); u.difference_update([t]); u.intersection_update('ab'); u.clear(); c=v.copy()
    return sorted(x),sorted(y),sorted(w),sorted(v),sorted(u),sorted(c), operator.or_(x,y)==x|y
def f_list(s,t,n,b):
    l=[s]; l.append(t); l.extend([t,'e']); l.insert(0,'i'); l+=[s]; l.remove(t); p=l.pop(); q=l.pop(0); l.reverse()
    return l,p,q,l.index(s) if s in l else None,l.count(t),l[::-1],l*2,[*l,t],l+[s],l[:],l.copy(),len(l),l==[s], l.sort()
def f_unpack(s,t,n,b):
    a,*r=s; (x,y),z=(s,t),n; *i,last=[s,t]; p,q=t,s; p,q=q,p
    return a,r,x,y,z,i,last,p,q
def f_enum(s,t,n,b): return list(enumerate(s)), list(enumerate([s,t],start=1)), list(zip(s,t)), list(zip([s,t],itertools.count())), list(itertools.zip_longest([s],[1,2]))
def f_iter(s,t,n,b): return list(itertools.chain(s,[t])), list(itertools.chain.from_iterable([s,t])), list(itertools.combinations(s,2)), list(itertools.product([s],[t,n])), list(itertools.islice(s,2)), list(itertools.takewhile(lambda c:c!=t,s)), list(itertools.dropwhile(lambda c:c==t,s)), list(itertools.permutations(s,2)), list(itertools.accumulate([1,n])), list(itertools.starmap(lambda a,b:a+b,[(s,t)])), list(itertools.repeat(s,2)), list(itertools.compress([s,t],[b,True])), list(itertools.filterfalse(lambda c:c==t,s)), list(itertools.pairwise(s))
def f_group(s,t,n,b): return [(k,list(g)) for k,g in itertools.groupby(s)], [(k,len(list(g))) for k,g in itertools.groupby(sorted([s,t],key=len),key=len)]
def f_func(s,t,n,b): return functools.reduce(lambda a,c:a+c,[s,t],''), functools.partial(str.replace,s)(t,'x'), functools.reduce(operator.add,[n,1]), operator.attrgetter('x')(collections.namedtuple('P','x y')(s,t)), operator.methodcaller('upper')(s)
@functools.lru_cache(None)
def cached(x): return x+'!'
def f_cache(s,t,n,b): return cached(s), cached(t)
def f_nt(s,t,n,b):
    P=namedtuple('P','a b'); p=P(s,b=t)
    return tuple(p), p.a, p._replace(a=t).a, p==P(s,t), p._asdict()
@dataclasses.dataclass
class DC:
    a: str
    b: int = 0
    c: list = dataclasses.field(default_factory=list)
def f_dc(s,t,n,b):
    x=DC(s,n); y=DC(s,b=n); x.c.append(t)
    return x==y, x.a, x.c, dataclasses.asdict(y)['a'], repr(DC('x'))
class E(enum.Enum):
    A='a'; B='b'
def f_enumcls(s,t,n,b):
    try: return E(t).name
    except ValueError: return None
def f_deque(s,t,n,b):
    d=deque([s]); d.append(t); d.appendleft('z'); x=d.pop(); y=d.popleft(); d.extend([s,t])
    return x,y,list(d),len(d)
def f_re(s,t,n,b): return re.sub(r'\s+',' ',s), re.split(r'[ ,-]',s), re.findall(r'\w',s), bool(re.match(r'[a-z]+',s)), bool(re.search(r'\d$',s)), bool(re.fullmatch(r'\w+',s)), re.sub('a',lambda m:m.group(0).upper(),s), re.escape(t), [m.start() for m in re.finditer('a',s)]
def f_re2(s,t,n,b):
    m=re.match(r'(?P<x>[aB]+)([ -]?)(1)?',s)
    if m: return m.group(), m.group(1,2), m['x'], m.groups(), m.span(), m.end(), m.groupdict(), m.start(2), m.group(3)
def f_re3(s,t,n,b):
    r=re.compile('^('+re.escape(t)+')',re.I); return bool(r.match(s)), r.sub('',s), re.subn('a','b',s), re.sub(r'(a)(B)?',r'[\1\2]',s), re.split('(-)',s), re.split(',',s,maxsplit=1), re.sub('a','',s,count=1)
def f_try(s,t,n,b):
    try:
        x={s:1}[t]
    except KeyError:
        return 'no'
    else: return x
    finally: n=3
def f_walrus(s,t,n,b):
    if (i:=s.find(t))>0: return i
    while (c:=s[:1])==t: s=s[1:]
    return s, [y for x in s if (y:=x.upper())!='A']
def f_match(s,t,n,b):
    match (s[:1],n):
        case ('a',0): return 1
        case ('a',k) if k>1: return ('k',k)
        case (('B'|'1') as h,_): return h
        case [x,*r]: return x,r
def f_match2(s,t,n,b):
    match {'k':t,'o':s}:
        case {'k':'a'}: return 1
        case {'k':'B',**r}: return r
        case _: pass
    match n:
        case int(x) if x>1: return x
        case 0|1: return 'low'
        case None: return 3
        case _: return 4
def f_gen(s,t,n,b):
    def g():
        for c in s:
            if c==t: return
            yield c
        yield from t
    return list(g()), sum(1 for _ in g()), next(g(),None), any(c==t for c in s), all(c!=t for c in s), max((len(x) for x in [s,t]),default=0), next((i for i,c in enumerate(s) if c==t),-1)
def f_cls(s,t,n,b):
    class A:
        __slots__=('v',)
        def __init__(self,v): self.v=v
        def __eq__(self,o): return isinstance(o,A) and self.v==o.v
        def __hash__(self): return hash(self.v)
        def __lt__(self,o): return self.v<o.v
        @property
        def up(self): return self.v.upper()
        @staticmethod
        def st(x): return x
        @classmethod
        def cl(c,x): return c(x)
        def __repr__(self): return f'A({self.v})'
        def __str__(self): return 'A'+self.v
        def __len__(self): return len(self.v)
        def __bool__(self): return self.v!='a'
        def __contains__(self,x): return x in self.v
        def __iter__(self): return iter(self.v)
        def __getitem__(self,i): return self.v[i]
        def __call__(self,x): return x+self.v
        def __format__(self,spec): return 'F'+self.v
    a,c=A(s),A.cl(t)
    return a==c, len({a,c}), [x.v for x in sorted([a,c])], a.up, A.st(s), repr(c), str(a), len(a), bool(c), t in a, list(a), a[0], c(s), f'{a}', '{}'.format(c), str([a]), {a:1}.get(c)
def f_attr(s,t,n,b):
    class A: pass
    a=A(); setattr(a,'x',s); vars(a)['y']=t; a.__dict__.update(z=n)
    return a.x,getattr(a,'y'),hasattr(a,'w'),getattr(a,'w',None),a.z,sorted(vars(a))
def f_csv(s,t,n,b):
    f=io.StringIO(newline=''); w=csv.writer(f,quoting=csv.QUOTE_ALL); w.writerow([s,t,n]); w.writerows([[t]])
    return f.getvalue(), list(csv.reader(io.StringIO(f.getvalue())))
def f_csvd(s,t,n,b):
    f=io.StringIO(newline=''); w=csv.DictWriter(f,['a','b']); w.writeheader(); w.writerow({'a':s,'b':t})
    return f.getvalue(), [dict(r) for r in csv.DictReader(io.StringIO(f.getvalue()))]
def f_bytes(s,t,n,b): return s.encode(), s.encode('utf-8').decode('utf-8'), bytes(s,'utf-8'), str(s.encode(),'utf-8'), b' '.join([s.encode(),t.encode()]), len(s.encode('ascii','ignore'))
def f_path(s,t,n,b): return os.path.join('d','x.txt'), os.path.splitext('x'+'.txt')[1], os.path.basename('a/b')
def f_glob(s,t,n,b): return isinstance(s,str), isinstance(n,(int,float)), type(s) is str, type(s)==str, isinstance(b,bool), isinstance(n,bool), callable(f_re), isinstance(s,collections.abc.Iterable), isinstance(s,collections.abc.Sequence), isinstance([s],collections.abc.Container), isinstance(s,(list,tuple)), type(n).__name__, isinstance({},dict), isinstance(set(),collections.abc.Set), issubclass(type(s),str), isinstance(n, typing.Hashable)
def f_ord(s,t,n,b): return ord(t), chr(ord(t)+1), [ord(c) for c in s], hash(s)==hash(s), id(s)==id(s), s is s
def f_textwrap(s,t,n,b): return textwrap.dedent(' '+s)
def f_copy(s,t,n,b):
    x=[s,{t:1}]; y=copy.copy(x); z=copy.deepcopy(x); z[1][t]=5
    return x,y,z
def f_json(s,t,n,b): return json.dumps([s,n]), json.loads(json.dumps({'a':s}))
def f_math(s,t,n,b): return math.floor(n/2), math.ceil(n/2), math.isnan(0.0), math.inf>n, float('inf')>n, math.sqrt(abs(n))
def f_with(s,t,n,b):
    with contextlib.suppress(KeyError): return {s:1}[t]
    @contextlib.contextmanager
    def cm(): yield s+t
    with cm() as v, contextlib.ExitStack() as st: return v
def f_nonlocal(s,t,n,b):
    k=0
    def inc(c):
        nonlocal k
        if c==t: k+=1
        return k
    return [inc(c) for c in s],k
def f_star(s,t,n,b):
    def g(*a,x=1,**k): return a,x,k
    return g(*s,x=t), g(**{'y':s}), g(*[s],*[t]), (*s,t), {*s}=={*s}
def f_cmp(s,t,n,b): return (s,n)<(t,1), [s]==[t], (s,t)==(t,s), s!=t, not s==t, {s:1}=={t:1}, {s}=={t}
def f_deleteslice(s,t,n,b):
    l=list(s); del l[0]; l[1:]=[t,t]; l[0]+=t
    return l, ''.join(l)
def f_sortm(s,t,n,b):
    l=list(s); l.sort(key=lambda c:(c==t,c)); return l, sorted(l,key=functools.cmp_to_key(lambda a,c:(a>c)-(a<c))), list(reversed(l))
def f_while(s,t,n,b):
    i=0; out=''
    while i<len(s):
        if s[i]==t: i+=1; continue
        out+=s[i]; i+=1
    else: out+='!'
    for c in out:
        if c=='1': break
    else: out+='?'
    return out
def f_iter2(s,t,n,b):
    it=iter(s); first=next(it); rest=list(it); it2=iter([s,t].pop,s)
    return first,rest,list(zip(*[iter(s)]*1)), dict(enumerate(s)), list(iter(s)), tuple(s), [c+d for c in s for d in t]
def f_exc(s,t,n,b):
    if t=='a': raise ValueError('x '+s)
    if t=='B': raise KeyError(s)
    try: raise LookupError(s,t)
    except (KeyError,LookupError) as e: return e.args, str(e) if False else 0
def f_assert(s,t,n,b):
    assert t!='a', 'no'
    return 1
def f_chainmap(s,t,n,b):
    c=ChainMap({s:1},{t:2}); return c[t], c.get('q'), len(c)
def f_date(s,t,n,b): return datetime.date(2000+n%3,1,1).year
def f_minmax(s,t,n,b): return min(n,0,1), max([n,1]), max({s:1,t:2}.items(),key=lambda kv:kv[1])[1], sum([n,n],1), sum(c==t for c in s), len([c for c in s if c==t]), min((c for c in s),default=None), abs(-n)
def f_strmeth(s,t,n,b): return str.join(',',[s,t]), str.split(s,t), str.lower(s), ','.join(map(str,[s,n,None])), s.__len__(), s.__contains__(t), s.__eq__(t), s.__add__(t), s.expandtabs(), str(object=s), str(), ''.join(sorted(set(s))), s.isprintable(), s.isascii()
def f_augment(s,t,n,b):
    s+=t; n+=1; n*=2; n-=1; n//=2; n%=3; l=[1]; l*=2; s*=2; x='%s'; x%=t
    return s,n,l,x
def f_listcmp(s,t,n,b): return [s,n]<[t,n], sorted([[s],[t]]), sorted([(n,s),(0,t)]), (s,)+(t,), [s]+list(t), tuple([s])*2
def f_in(s,t,n,b): return t in s, 'ab' in s, t in [s,t], n in [1,2], t in 'aB', s in ('aBa',), t not in s, t in {'a':1}, t in set('ab'), t in string.ascii_letters, t in string.digits, t in string.punctuation
def f_bytesio(s,t,n,b):
    f=io.StringIO(s+'\n'+t); a=f.readline(); r=f.read(); f.seek(0); return a,r,[l.rstrip('\n') for l in f], f.getvalue()

import unicodedata, html, difflib, fnmatch, shlex, statistics, heapq, bisect
from unicodedata import normalize
def g_plain(s,t,n,b): return unicodedata.normalize('NFKD',s), normalize('NFC',t), html.escape(s), fnmatch.fnmatch(s,'a*'), string.capwords(s), difflib.SequenceMatcher(None,'a','b').ratio(), statistics.median([n,1,2])
def g_heap(s,t,n,b):
    h=[3,1]; heapq.heappush(h,n); l=[1,2]; bisect.insort(l,n); return heapq.nsmallest(2,h), l, heapq.nlargest(1,[s,t]), bisect.bisect([0,2],n)
def g_more(s,t,n,b):
    d={}
    for i,c in enumerate(s): d.setdefault(c,[]).append(i)
    k=sorted(d,key=lambda x:(-len(d[x]),x)); inv={tuple(v):k2 for k2,v in d.items()}
    m=max(d,key=lambda x:len(d[x])); x,*y=k
    return k,inv,m,x,y,[*map(len,d.values())],dict(sorted(d.items())),{**d}.keys()==d.keys(), d.items()>=set(), list(zip(*d.items())), [i for v in d.values() for i in v]
def g_nested(s,t,n,b):
    d={}
    for c in s: d.setdefault(c,{}).setdefault(t,0); d[c][t]+=1
    try: d[t][t]-=n
    except KeyError: d[t]=None
    return d, d.get(t) or 'e', (d.get('q') or {}).get('z','none')
def g_str2(s,t,n,b): return s.join([]), s.join(['x']), t.join(map(str,range(3))), (s+t).replace(t,s), s[:n], s[n:], s[-n:] if n else '', s[:-1]+t, s[0] in 'aeiou', s.strip(t).split(t), [x.strip() for x in s.split(t) if x.strip()], s.lower().startswith(t.lower()), sum(map(len,[s,t])), s*n, f'{s:.1}', f'{s[:1]}{t if b else ""}', s.__class__.__name__, s.find(t)!=-1 and s.index(t)
def g_tuple(s,t,n,b):
    a=(s,n); return a+(t,), a[0], a[-1], a.index(s), a.count(n), a==(s,n), {a:1}[(s,n)], a in {a}, a<(s,n+1), len(a), tuple(x for x in a), hash(a)==hash((s,n)), tuple(zip(a,a)), a*2
def g_exc2(s,t,n,b):
    class X(Exception):
        def __init__(self,m,k=None): super().__init__(m); self.k=k
    try:
        try: int(s+'x')
        except ValueError as e: raise X(f'bad {s}',k=t) from e
    except X as e: return str(e), e.k, e.args, isinstance(e,Exception), type(e).__name__
def g_gen2(s,t,n,b):
    def gen(i):
        while True:
            j=yield i
            if j is None: return 'done'
            i=i+j
    g=gen(s); a=next(g); c=g.send(t)
    try: next(g)
    except StopIteration as e: r=e.value
    return a,c,r
def g_loop(s,t,n,b):
    out=[]
    for i in range(len(s)-1,-1,-1): out.append(s[i])
    for i in range(0,len(s),2): out.append(s[i:i+2])
    for a,c in zip(s,s[1:]): out.append(a==c)
    for i in range(n): out.append(i)
    k=n
    while k>0: k-=1; out.append(k)
    return out
def g_global(s,t,n,b):
    global _state
    _state=s
    return _state, globals()['_state']==s
def g_lambda(s,t,n,b): return (lambda x,y=t:x+y)(s), [f(s) for f in (str.upper,str.lower,len)], list(map(lambda x,y:x+y,s,[t,t])), sorted([(t,1),(s,0)],key=lambda p:p[1])[0][0], max((s,t),key=lambda x:x.count('a'))
def g_bool2(s,t,n,b): return bool(s.strip()), not s.strip(), s.strip() or 'none', s and t, n or 5, n and 7, b is True, b==True, (n>1)==b, (s==t) is False, not (s==t or n), bool(n)+bool(b), [x for x in (s,t) if x!='a' and not b], (n>0)-(n<0)
