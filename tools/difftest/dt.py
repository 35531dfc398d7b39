"""differential test: summaries of /tmp/st fns against rustc"""
import os,sys,re,subprocess
ST=os.environ.get("ST","/tmp/st")
os.environ["FLOW_REPO"]=ST
sys.path[:0]=["/verif","/tmp"]; sys.setrecursionlimit(100000)
from flow.check import Check
from flow import terms as X, ev as E
from flow.ev import Ev,En,Mp,St,Fp,Undecided
IN={"u64":["0","3","7","1000","18446744073709551615"],"i64":["0","-5","9"],"i32":["-1","5"],"u32":["1","4000000001"],
"usize":["0","2","5","1"],"bool":["true","false"],
"V":["[]","[3]","[1,2,3,4,5]","[5,3,3,9,1,7]","[2,2,1]"],"B":["[1,2,3,4,5,6,7,8,9]"],
"VV":["[]","[[1,2],[],[3]]"],"O":["None","Some(0)","Some(4)"],"R":["Ok(0)","Ok(5)","Err(1)","Err(4)"],"M":["{}","{3:9,1:2}"],"VM":["[1,2,3]"]}
def kind(t):
    t=t.replace(" ","")
    return {"&[u64]":"V","Vec<u64>":"V","&[u8]":"B","&[Vec<u64>]":"VV","Option<u64>":"O","Result<u64,u64>":"R","&HashMap<u64,u64>":"M","&BTreeMap<u64,u64>":"M","&mutVec<u64>":"VM"}.get(t,t)
def rust(t,v):
    t=t.replace(" ","")
    if t=="&[u64]": return "&%s[..]"%("[]" if v=="[]" else re.sub(r"(\d+)",r"\1u64",v)) if v!="[]" else "&[0u64;0][..]"
    if t=="Vec<u64>": return "vec!%s"%re.sub(r"(\d+)",r"\1u64",v) if v!="[]" else "Vec::<u64>::new()"
    if t=="&[u8]": return "&%s[..]"%re.sub(r"(\d+)",r"\1u8",v)
    if t=="&[Vec<u64>]": return "&vec![%s][..]"%",".join("vec![%s]"%re.sub(r"(\d+)",r"\1u64",x) for x in re.findall(r"\[([0-9,]*)\]",v[1:-1])) if v!="[]" else "&Vec::<Vec<u64>>::new()[..]"
    if "HashMap" in t or "BTreeMap" in t:
        return "&[%s].into_iter().collect()"%",".join("(%s,%s)"%x for x in re.findall(r"(\d+):(\d+)",v)) if v!="{}" else "&Default::default()"
    if t=="&mutVec<u64>": return "&mut vec!%s"%v
    return v
def val(t,v):
    k=kind(t)
    if k in("V","B","VV","VM"): return eval(v)
    if k=="O": return En("Option","None",[]) if v=="None" else En("Option","Some",[int(v[5:-1])])
    if k=="R": return En("Result",v.split("(")[0],[int(v.split("(")[1][:-1])])
    if k=="bool": return v=="true"
    if k=="M":
        return "MAP"+v
    return int(v)
src=open(ST+"/src/lib.rs").read()
skip=set(os.environ.get("SKIP","u19 u22 u33 u24").split())
sigs=re.findall(r"pub fn (\w+)\(([^)]*)\)(?: -> (.*?))? \{",src)
body="\n".join(l for l in src.splitlines() if not any(l.startswith("pub fn %s("%k) for k in skip))
def prod(ls):
    r=[[]]
    for l in ls: r=[x+[y] for x in r for y in l]
    return r[:12]
cases=[];main=[]
for n,ps,ret in sigs:
    if n in skip: continue
    ps=[p.split(":",1) for p in re.split(r", (?=\w+:)",ps) if p]
    ps=[(a.replace("mut ","").strip(),b.strip()) for a,b in ps]
    for combo in prod([IN[kind(t)] for _,t in ps]):
        cases.append((n,ps,combo))
        if any(kind(t)=="VM" for _,t in ps):
            main.append('{ let r=std::panic::catch_unwind(||{ let mut q: Vec<u64>=vec!%s; let r=%s(&mut q); format!("{:?}",q)}); println!("R:{}",r.unwrap_or("PANIC".into())); }'%(combo[0],n))
        else:
            main.append('{ let r=std::panic::catch_unwind(||format!("{:?}",%s(%s))); println!("R:{}",r.unwrap_or("PANIC".into())); }'%(n,",".join(rust(t,v) for (_,t),v in zip(ps,combo))))
os.makedirs("/tmp/dtb",exist_ok=True)
open("/tmp/dtb/m.rs","w").write("#![allow(unused,overflowing_literals,unconditional_panic,arithmetic_overflow)]\n"+body+"\nfn main(){ std::panic::set_hook(Box::new(|_|{})); "+"\n".join(main)+"}\n")
r=subprocess.run(["rustc","--edition","2021","-Cdebug-assertions=on","-o","/tmp/dtb/m","/tmp/dtb/m.rs"],capture_output=True,text=True)
if r.returncode: print("\n".join(l for l in r.stderr.splitlines() if l.startswith("error") or "-->" in l)[:3000]); sys.exit(1)
out=subprocess.run(["/tmp/dtb/m"],capture_output=True,text=True).stdout.splitlines(); out=[o[2:] for o in out if o.startswith("R:")]
assert len(out)==len(cases)
def fmt(v):
    if isinstance(v,bool): return str(v).lower()
    if isinstance(v,En):
        return v.var+("("+", ".join(fmt(x) for x in v.a)+")" if v.a else "")
    if isinstance(v,list): return "["+", ".join(fmt(x) for x in v)+"]"
    if isinstance(v,tuple): return "("+", ".join(fmt(x) for x in v)+")"
    if isinstance(v,Mp): return "{"+", ".join(fmt(x) for x in v.d)+"}"
    return str(v.v) if isinstance(v,Fp) else str(v)
ck=Check("S12"); c=ck.crate()
from collections import Counter
st=Counter();bad={}
sm={}
for (n,ps,combo),o in zip(cases,out):
    if o=="PANIC": st["panic"]+=1; continue
    if n not in sm:
        try:
            f=[f for f in c.fns if f.name==n][0]
            sm[n]=ck.run(c,f)
        except Exception as e: sm[n]=repr(e)
    if isinstance(sm[n],str): bad.setdefault(n,("EXC",sm[n])); continue
    v,ip,cells=sm[n]
    over=[]
    for (a,t),x in zip(ps,combo):
        w=val(t,x)
        if isinstance(w,str) and w.startswith("MAP"):
            d={}
            e=Ev("x",c)
            for k,y in eval(w[3:]).items(): d[e.ck(k)]=(k,y)
            w=Mp(d,False,"HashMap" in t)
        over.append(("^%s$"%a,w))
    if any(kind(t)=="VM" for _,t in ps): v=[y for k,y in cells.items() if 1][0] if cells else v
    try:
        e=Ev("r1",c,over)
        g=fmt(e.ev(v))
    except Undecided as x: bad.setdefault(n,("UND",str(x))); continue
    except Exception as x: bad.setdefault(n,("EXC",repr(x)[:200])); continue
    if g!=o: bad.setdefault(n,("DIFF",combo,o,g))
    else: st["ok"]+=1
print(st,len(bad))
for k,v in bad.items(): print(k,v)
