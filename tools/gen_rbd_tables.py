#!/usr/bin/env python3
"""One-off generator of props/rbd_tables.h (committed): reads the robot models of a REFERENCE tree and
writes down their parameters (joint placements, inertias, attached frames) and the names of their
transforms/Jacobians.  Checks never run it; they compare the current tree with the committed table."""
import os, re, subprocess, sys, tempfile
repo = sys.argv[1]; out = sys.argv[2]
M = repo + '/ct_models/include/ct/models/'
R = {
 'HyA': dict(ns='ct_HyA', base='HyABase', links=[('Shoulder_AA','HyABase'),('Shoulder_FE','Shoulder_AA'),('Humerus_R','Shoulder_FE'),('Elbow_FE','Humerus_R'),('Wrist_R','Elbow_FE'),('Wrist_FE','Wrist_R')],
   frames=dict(ee='Wrist_FE',SAA='HyABase',SFE='Shoulder_AA',HR='Shoulder_FE',EFE='Humerus_R',WR='Elbow_FE',WFE='Wrist_R'), floating=0),
 'InvertedPendulum': dict(ns='ct_InvertedPendulum', base='InvertedPendulumBase', links=[('Link1','InvertedPendulumBase')], frames=dict(ee='Link1',Joint1='InvertedPendulumBase'), floating=0),
 'DoubleInvertedPendulum': dict(ns='ct_DoubleInvertedPendulum', base='DoubleInvertedPendulumBase', links=[('Link1','DoubleInvertedPendulumBase'),('Link2','Link1')], frames=dict(ee='Link2',Joint1='DoubleInvertedPendulumBase',Joint2='Link1'), floating=0),
 'QuadrotorWithLoad': dict(ns='ct_quadrotor', base='body', links=[('link1','body'),('link2','link1')], frames=dict(ee='link2',com0='body',com1='link1',jA='body',jB='link1'), floating=1),
 'HyQ': dict(ns='HyQ', base='trunk', links=[x for L in ('LF','RF','LH','RH') for x in ((L+'_hipassembly','trunk'),(L+'_upperleg',L+'_hipassembly'),(L+'_lowerleg',L+'_upperleg'))],
   frames={k:v for L in ('LF','RF','LH','RH') for k,v in ((L+'_foot',L+'_lowerleg'),(L+'_HAA','trunk'),(L+'_HFE',L+'_hipassembly'),(L+'_KFE',L+'_upperleg'))}, floating=1),
}
strip = lambda s: s[3:] if s.startswith('fr_') else s
txt = '// generated once by tools/gen_rbd_tables.py from the pinned tree; not regenerated by any check\n#pragma once\nnamespace rbdref {\nstruct LinkD { const char* name; int parent; double T[16], m, com[3], I[9]; };\nstruct FrameD { const char* name; int link; double T[16]; };\n}\n'
for name, r in R.items():
    g = M + name + '/generated/'
    tr = [l.split()[1].strip(';') for l in re.findall(r'^\s*Type_\w+\s+\w+;', open(g+'transforms.h').read(), re.M)]
    tr = list(dict.fromkeys(tr))
    ja = [l.split()[1].strip(';') for l in re.findall(r'^\s*Type_\w+\s+\w+;', open(g+'jacobians.h').read(), re.M)]
    names = [r['base']] + [l for l,_ in r['links']]
    frames = {}
    for t in tr:
        for f in t.split('_X_'):
            f = strip(f)
            if f in names or f in frames: continue
            l = r['frames'].get(f)
            if l is None:
                c = [n for n in names if f.startswith(n)]
                l = max(c, key=len)
            frames[f] = l
    b = r['base']
    P = ['#include <ct/core/core.h>', '#include "%sjacobians.h"' % g, '#include "%straits.h"' % g, '#include <cstdio>',
         'template <class M> void p(const M& m, int R, int C){ printf("{"); for(int i=0;i<R;i++)for(int j=0;j<C;j++){ double v=m(i,j); if(std::abs(v)<1e-12)v=0; if(std::abs(v-1)<1e-12)v=1; if(std::abs(v+1)<1e-12)v=-1; printf("%s%.12g", i+j?",":"", v);} printf("}"); }',
         'int main(){ using namespace iit::%s; HomogeneousTransforms h; dyn::InertiaProperties in; JointState q; q.setZero(); Eigen::Matrix4d T;' % r['ns']]
    P.append('printf("static const LinkD %s_links[] = {\\n");' % name)
    for i, n in enumerate(names):
        if i == 0:
            par = -1; P.append('T.setIdentity();')
        else:
            pn = r['links'][i-1][1]; par = names.index(pn)
            P.append('T = h.fr_%s_X_fr_%s(q);' % (pn, n))
        P.append('printf("{\\"%s\\", %d, "); p(T,4,4); printf(", ");' % (n, par))
        if i == 0 and not r['floating']:
            P.append('printf("0, {0,0,0}, {0,0,0,0,0,0,0,0,0}},\\n");')
        else:
            P.append('printf("%%.12g, ", in.getMass_%s()); p(in.getCOM_%s(),3,1); printf(", "); p(in.getTensor_%s().template block<3,3>(0,0),3,3); printf("},\\n");' % (n,n,n))
    P.append('printf("};\\nstatic const FrameD %s_frames[] = {\\n");' % name)
    for f, l in frames.items():
        cand = [t for t in tr if strip(t.split('_X_')[0]) == b and strip(t.split('_X_')[1]) == f]
        assert cand, f
        P.append('T = h.%s(q);' % cand[0])
        if l != b:
            P.append('T = Eigen::Matrix4d((Eigen::Matrix4d)h.fr_%s_X_fr_%s(q)).inverse() * T;' % (b, l))
        P.append('printf("{\\"%s\\", %d, "); p(T,4,4); printf("},\\n");' % (f, names.index(l)))
    P.append('printf("};\\n"); }')
    d = tempfile.mkdtemp()
    open(d+'/d.cpp','w').write('\n'.join(P))
    inc = ['-I'+repo+x for x in ('/ct_core/include','/ct_core/include/external','/ct_rbd/include','/ct_rbd/include/ct','/ct_models/include')]
    subprocess.check_call(['g++','-std=c++14','-w','-O0','-I/usr/include/eigen3']+inc+[d+'/d.cpp','-o',d+'/d'])
    o = subprocess.check_output([d+'/d']).decode()
    o = o[o.index('static const LinkD'):]
    subprocess.call(['rm','-r',d])
    txt += 'namespace rbdref {\n' + o + '}\n'
    txt += '#define %s_TRANSFORMS(X) \\\n' % name + ' \\\n'.join('  X(%s, "%s", "%s")' % (t, strip(t.split('_X_')[0]), strip(t.split('_X_')[1])) for t in tr) + '\n'
    txt += '#define %s_JACOBIANS(X) \\\n' % name + ' \\\n'.join('  X(%s, "%s")' % (t, strip(t.split('_J_')[1])) for t in ja) + '\n'
    txt += '#define %s_LINKS(X) \\\n' % name + ' \\\n'.join('  X(%s, %s, %d)' % (n, n.upper(), i) for i, n in enumerate(names) if i or r['floating']) + '\n'
open(out,'w').write(txt)
