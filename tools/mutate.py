#!/usr/bin/env python3
"""mutate.py OUT [--files regex] [--n N] [--seed S]: small source mutations of the library in a scratch
copy, run through the checks of the properties anchored in the mutated file; survivors are listed for review.
Development aid: finds behaviour no check constrains."""
import os, re, random, subprocess, sys, json, time, shutil
MAP = {
 'gbs/bscurve.h': 'C01 C02 C04 C06 C05 C26', 'gbs/bssurf.h': 'C03 C07 C04 C26', 'gbs/bsctools.h': 'C06 C28 C11 C12 C14', 'gbs/bscbuild.h': 'C13 C14 C11',
 'gbs/bscinterp.h': 'C08', 'gbs/bssinterp.h': 'C09', 'gbs/bscapprox.h': 'C10 C23', 'gbs/bssapprox.h': 'C10', 'gbs/bscshaping.h': 'C16', 'gbs/bssshaping.h': 'C16',
 'gbs/bssbuild.h': 'C15', 'gbs/bsstools.h': 'C07 C28 C14', 'gbs/bscanalysis.h': 'C23 C11 C25', 'gbs/bssanalysis.h': 'C23', 'gbs/extrema.h': 'C25',
 'gbs/curveReversed.h': 'C14', 'gbs/curvecomposite.h': 'C14', 'gbs/curveextended.h': 'C14', 'gbs/curveoffset.h': 'C14', 'gbs/curveonsurface.h': 'C14',
 'gbs/curvereparametrized.h': 'C14', 'gbs/curvetrimmed.h': 'C14', 'gbs/curvecircle.h': 'C13', 'gbs/curveline.h': 'C13', 'gbs/surfaceofrevolution.h': 'C13',
 'gbs/offsets.h': 'C14', 'gbs/polestools.h': 'C12 C07 C06 C29 C01', 'gbs/transform.h': 'C12', 'gbs/transformpoints.h': 'C12', 'gbs/execution.h': 'C26 C08',
 'gbs/curvescheck.h': 'C15 C17', 'gbs/solvers.h': 'C25',
 'gbs-io/fromjson.h': 'C21', 'gbs-io/fromjson2.h': 'C21', 'gbs-io/tojson.h': 'C21', 'gbs-mesh/tfi.h': 'C17', 'gbs-mesh/smoothing.h': 'C17', 'gbs-mesh/mshedge.h': 'C17',
 'inc/topology/baseGeom.h': 'C20', 'inc/topology/baseIntersection.h': 'C20', 'inc/topology/edge.h': 'C24', 'inc/topology/wire.h': 'C24', 'inc/topology/vertex.h': 'C24', 'inc/topology/basetopo.h': 'C24',
 'inc/topology/edgeRecovery.h': 'C19', 'inc/topology/halfEdgeMeshData.h': 'C18 C19', 'inc/topology/halfEdgeMeshEditors.h': 'C18 C19', 'inc/topology/halfEdgeMeshGeomTests.h': 'C20 C19',
 'inc/topology/halfEdgeMeshGetters.h': 'C18 C20 C19', 'inc/topology/halfEdgeMeshQuality.h': 'C20 C19', 'inc/topology/halfEdgeMeshSmoothing.h': 'C19', 'inc/topology/robustPredicates.h': 'C20',
 'inc/topology/tessellations.h': 'C19',
}
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r' == ', ' != '), (r' != ', ' == '), (r'\.front\(\)', '.back()'), (r'\.back\(\)', '.front()'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\+ ?1\b', '+0'), (r'- ?1\b', '-0'), (r'\+=', '-='), (r'-=', '+='), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'\bi\b', 'j'), (r'\bu1\b', 'u2'), (r'\bu2\b', 'u1'),
       (r'\bv1\b', 'v2'), (r'\bdegreeU\b', 'degreeV'), (r'\bdegreeV\b', 'degreeU'), (r'\bnext\b', 'previous'), (r'\bni\b', 'nj'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'if ?\(!', 'if('),
       (r'\bvertex1\b', 'vertex2'), (r'\bvertex2\b', 'vertex1'), (r'\bstd::sqrt\(', '('), (r'\bT\(0\.?\)', 'T(1)'), (r'\bT\(1\.?\)', 'T(2)'), (r'0\.5', '0.25'), (r'\b2\.', '3.')]
def sites(path):
    out = []
    blk = False
    for n, l in enumerate(open(path, errors='replace').read().split('\n')):
        s = l.strip()
        if blk:
            if '*/' in s: blk = False
            continue
        if s.startswith('/*'):
            blk = '*/' not in s
            continue
        if not s or s[0] in '#/*' or s.startswith(('template', 'using', 'namespace', 'throw', 'static_assert', 'class', 'struct', '[[')) or 'throw ' in s or 'std::cout' in s or 'assert(' in s: continue
        code = l.split('//')[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if rep.strip() in ('<=', '>=', '<', '>') and 'template' in code: continue
                out.append((n, l[:m.start()] + rep + l[m.end():], l))
        if re.match(r'^[\w>.()\-\[\]:]+(\.|->)?[\w\[\]]*\s*(=|\+=|-=|\().*;$', s) and not re.match(r'^(auto|const|return|T|size_t|std::|else|if|for|double|bool)', s):
            out.append((n, re.sub(r'\S.*', ';', l), l))
    return out
def main():
    a = sys.argv[1:]
    out = a[0]
    files = a[a.index('--files') + 1] if '--files' in a else ''
    N = int(a[a.index('--n') + 1]) if '--n' in a else 50
    random.seed(int(a[a.index('--seed') + 1]) if '--seed' in a else 1)
    W = os.environ.get('MUT_DIR', '/tmp/mut')
    R, V = W + '/repo', W + '/verif'
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(R): subprocess.run(['git', 'clone', '-q', os.environ.get('MUT_SRC', '/repo'), R], check=True)
    subprocess.run(f'git -C {R} fetch -q origin; git -C {R} reset -q --hard origin/HEAD; git -C {R} log -1 --format=%h', shell=True)
    subprocess.run(f'mkdir -p {V}; rsync -a --delete --exclude .git --exclude out --exclude evidence --exclude seeded /verif/ {V}/ 2>/dev/null || cp -r /verif/. {V}/', shell=True)
    known = set(re.findall(r'"(C\d+)": dict', open(V + '/props.py').read()))
    pool = []
    fs = [f for f in MAP if re.search(files, f)]
    byf = {f: sites(R + '/' + f) for f in fs}
    base = subprocess.run(['git', '-C', R, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
    fs = [f for f in fs if byf[f]]
    done = 0
    while done < N:
        f = random.choices(fs, [len(byf[x]) ** 0.5 for x in fs])[0]
        n, new, old = random.choice(byf[f])
        txt = open(R + '/' + f, errors='replace').read().split('\n')
        assert txt[n] == old
        txt[n] = new
        open(R + '/' + f, 'w').write('\n'.join(txt))
        t = time.time()
        res = {}
        killed = None
        for p in MAP[f].split():
            if p not in known: continue
            r = subprocess.run(['timeout', '900', 'python3', V + '/check.py', p], env=dict(os.environ, VERIF_REPO=R), capture_output=True, text=True)
            res[p] = r.returncode
            if r.returncode == 1:
                killed = p
                break
            if r.returncode == 2 and 'does not compile' in r.stdout:
                killed = 'nocompile'
                break
        subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
        rec = dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), killed=killed, res=res, s=round(time.time() - t))
        open(out, 'a').write(json.dumps(rec) + '\n')
        if killed != 'nocompile': done += 1
main()
