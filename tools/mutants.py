#!/usr/bin/env python3
"""mutants.py SEED COUNT [file...]: sample one-token mutants of the library, run the related checks against a scratch copy,
print the survivors. Development aid, not part of any check."""
import sys,re,random,subprocess,os,shutil,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RW=['C01','C02','C03','C04','C05','C14','C15']
MAP={
 'src/rw.cxx':RW+['C20','C11','C10'],'src/gear.cxx':RW+['C06'],'src/autogrowth.cxx':['C04'],'src/audit.cxx':['C06','C07','C02'],
 'src/ro.cxx':['C15','C06','C07','C01'],'src/managed.cxx':['C10','C09','C08','C06'],'src/tuples.cxx':RW,
 'src/1Hippeus/buffer.cxx':['C10','C08','C09','C16'],'src/1Hippeus/hipagut.cxx':['C16'],'fast_positive/tuples/1Hippeus/hipagut.h':['C16'],
 'fast_positive/tuples/1Hippeus/buffer.h':['C10','C08','C09','C16'],'fast_positive/tuples/1Hippeus/hipagut_allocator.h':['C16','C10'],
 'src/1Hippeus/allot_stdcxx.cxx':['C10','C08'],
 'src/compat_rw.cxx':['C11','C12','C06'],'src/compat_ro.cxx':['C11','C12','C06','C07'],'src/compat_common.cxx':['C11','C12'],'src/compat_field.cxx':['C11','C12','C07'],
 'src/except.cxx':['C12','C11','C03'],'src/schema.cxx':['C13'],'fast_positive/tuples/schema.h':['C13'],
 'src/scan_portable.cxx':['C17'],'src/scan_SSE2.cxx':['C17'],'src/scan_AVX.cxx':['C17'],'src/scan_AVX2.cxx':['C17'],'src/cpu_features_ia32.cxx':['C17'],
 'fast_positive/tuples/details/scan.h':['C17'],
 'src/time.cxx':['C18'],'fast_positive/tuples/types/datetime.h':['C18','C01'],
 'src/misc.cxx':RW+['C11'],'src/tablets.cxx':RW+['C13'],
 'fast_positive/tuples/details/field.h':RW+['C06','C07','C20'],'fast_positive/tuples/details/meta.h':RW+['C06','C07','C20'],
 'fast_positive/tuples/details/getter.h':RW+['C20','C06','C07'],'fast_positive/tuples/details/rw.h':RW+['C20','C10','C06'],
 'fast_positive/tuples/details/ro.h':['C15','C06','C07','C10','C09','C20'],'fast_positive/tuples/token.h':['C13','C20','C01','C15','C14'],
 'fast_positive/tuples/details/tagged_pointer.h':['C10','C08'],'fast_positive/tuples/essentials.h':RW+['C06','C13'],
 'fast_positive/tuples/legacy.h':['C11'],'fast_positive/tuples/types/fixed_binary.h':RW,
 'fast_positive/tuples/details/utils.h':RW,'fast_positive/tuples/details/exceptions.h':['C12','C03'],
}
OPS=[(r'(?<![<>=!\-])<(?![<=])(?= )','<='),(r' <= ',' < '),(r' >= ',' > '),(r'(?<= )>(?= )','>='),(r' == ',' != '),(r' != ',' == '),
 (r' && ',' || '),(r' \|\| ',' && '),(r' \+ 1\b',''),(r' - 1\b',''),(r' \+ ',' - '),(r' - ',' + '),(r'(?<=[( ])!(?=[a-z(])',''),
 (r'\btrue\b','false'),(r'\bfalse\b','true'),(r' \+= ',' -= '),(r' -= ',' += '),(r'\+\+(?=\w)','--'),(r' \| ',' & '),(r' & ',' | '),(r' << ',' >> '),(r' >> ',' << '),
 (r'\b0\b','1'),(r'\b1\b','2'),(r'_MIN\b','_MAX'),(r'_MAX\b','_MIN'),(r'\bunits2bytes\(','bytes2units('),(r'\bbytes2units\(','units2bytes(')]
def sites(f,repo):
    out=[];lines=open(f'{repo}/{f}').read().split('\n'); inc=False
    for i,l in enumerate(lines):
        s=l.strip()
        if inc:
            if '*/' in s: inc=False
            continue
        if s.startswith('/*'):
            if '*/' not in s: inc=True
            continue
        if not s or s.startswith(('//','#','*','template','assert','constexpr_assert','static_assert','friend','using','typedef','namespace','FPTU_API std::ostream','FPTU_TEMPLATE')): continue
        if 'assert' in s or 'FPTU_DEBUG' in s: continue
        for a,b in OPS:
            for m in re.finditer(a,l):
                if b in('<=','>=') and ('template' in l or 'static_cast<' in l or 'operator' in l): continue
                out.append((i,l[:m.start()]+b+l[m.end():]))
        if s.endswith(';') and not s.startswith(('return','}','case','break','throw')) and re.match(r'[a-z_>\-.]+(\(| [+\-|&]?= )',s) and not re.match(r'(const|auto|bool|unsigned|size_t|ptrdiff_t|unit_t|static|inline|virtual|explicit)\b',s):
            out.append((i,'  /*gone*/;'))
        if s=='break;' : out.append((i,'  ;'))
        if s.startswith('throw_'): out.append((i,'  ;'))
    return lines,out
def main():
    seed=int(sys.argv[1]);n=int(sys.argv[2]);files=sys.argv[3:] or list(MAP)
    secs=os.environ.get('S','8');rng=random.Random(seed);repo='/repo';allm=[]
    for f in files:
        if not os.path.exists(f'{repo}/{f}'): print('no',f);continue
        lines,out=sites(f,repo)
        for o in out: allm.append((f,)+o)
    rng.shuffle(allm); print(len(allm),'mutants in all',flush=True)
    D='/tmp/mutscratch';killed=surv=bad=0
    env=dict(os.environ,SIM_REPO=D,SIM_BUILD='/tmp/mutbuild',SIM_EVID='/tmp/mutev',SIM_SECS=secs)
    for f,i,new in allm[:n]:
        shutil.rmtree(D,ignore_errors=True);os.mkdir(D)
        subprocess.check_call(['cp','-a','/repo/src','/repo/fast_positive',D])
        lines=open(f'{D}/{f}').read().split('\n');old=lines[i];lines[i]=new;open(f'{D}/{f}','w').write('\n'.join(lines))
        verdict='SURVIVED'
        for p in MAP.get(f,RW):
            try: r=subprocess.run(['python3',V+'/check.py',p],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=400,text=True)
            except subprocess.TimeoutExpired: verdict='timeout '+p;break
            if r.returncode==1: verdict='killed '+p;break
            if r.returncode!=0: verdict='nobuild' if 'rror' in r.stdout else 'ERROR rc=%d %s'%(r.returncode,r.stdout[-200:]);break
        print(f'{verdict:10} {f}:{i+1}: {old.strip()[:90]}  =>  {new.strip()[:90]}',flush=True)
main()
