"""mkseed.py SPEC.py: SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]; writes /verif/seeded/<id>/."""
import sys, os, json, subprocess, runpy
PRE = '''#![allow(unused)]
use hexodsp::*;
use hexodsp::matrix_repr::*;
use hexodsp::nodes::*;
use hexodsp::matrix::MatrixError;
fn eng(w: usize, h: usize) -> (Matrix, NodeExecutor) {
    let (c, mut e) = new_node_engine();
    e.set_sample_rate(44100.0);
    (Matrix::new(c, w, h), e)
}
fn run(e: &mut NodeExecutor, n: usize) -> (Vec<f32>, Vec<f32>) { e.test_run(n as f32 / 44100.0, false, &[]) }
fn fail(s: String) -> ! { println!("FAIL: {}", s); std::process::exit(1) }
'''
W='/tmp/seedd'
def sh(*a): return subprocess.run(a, check=True, capture_output=True, text=True).stdout
if not os.path.isdir(W): sh('cp','-a','/repo',W)
sh('git','-C',W,'fetch','-q','/repo','HEAD'); sh('git','-C',W,'checkout','-q','-f','FETCH_HEAD')
here=os.path.dirname(os.path.abspath(__file__))
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    sh('git','-C',W,'checkout','-q','--','.')
    for f,o,n in s['edits']:
        p=f'{W}/{f}'; t=open(p).read()
        if t.count(o)!=1: sys.exit(f"{s['id']}: {f}: old text occurs {t.count(o)} times")
        open(p,'w').write(t.replace(o,n))
    d=f"{here}/../seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
    open(f'{d}/patch.diff','w').write(sh('git','-C',W,'diff'))
    open(f'{d}/main.rs','w').write((PRE if not s.get('nopre') else '')+s['demo'])
    open(f'{d}/demo.sh','w').write(open(f'{here}/demo_template.sh').read()); os.chmod(f'{d}/demo.sh',0o755)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(f'{d}/meta.json','w'),indent=1)
    sh('git','-C',W,'checkout','-q','--','.')
    print('wrote',s['id'])
