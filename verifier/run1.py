import sys; sys.path.insert(0,'/verif/verifier')
import mir, spec, verify, allspecs


P=mir.Program('/tmp/mir.json')
names=[n for n in spec.SPECS if not spec.SPECS[n].assumed and (not spec.SPECS[n].slow or any(a==n for a in sys.argv[1:])) if not [a for a in sys.argv[1:] if a!='-v'] or any(a in n for a in sys.argv[1:] if not a.startswith('-'))]
import concurrent.futures
def go(n):
    try: return verify.verify(P,n)
    except Exception as e:
        import traceback; return traceback.format_exc()
def main():
    if len(names)==1: rs=[go(names[0])]
    else:
        import multiprocessing
        with multiprocessing.Pool(8) as p: rs=p.map(go,names,1)
    for n,r in zip(names,rs):
        if isinstance(r,str): print("EXC",n,r); continue
        for x in r:
            bad=[o for o in x.obl if o[1]!='ok']
            print(x.status,x.name,f"{len(x.obl)-len(bad)}/{len(x.obl)} obl, {x.paths} paths, cases {x.reach}, {x.time}s",x.why)
            for o in bad[:6]: print("    ",o[1],o[0],o[2],*(o[3:] if '-v' in sys.argv else o[4:]))
if __name__=='__main__': main()
