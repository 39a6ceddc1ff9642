"""Small optimization problems, handed to the library's residual/Jacobian callback with constant structure and
symbolic numbers: lens parameters, poses, points, board shape, pixel observations and weights."""
import genlib
import front

PRE = '''#include <stdbool.h>
#include <stddef.h>
#include <suitesparse/cholmod.h>
#include "mrcal.h"
#include "poseutils.h"
'''
SEL = ["do_optimize_intrinsics_core", "do_optimize_intrinsics_distortions", "do_optimize_extrinsics", "do_optimize_frames",
       "do_optimize_calobject_warp", "do_apply_regularization", "do_apply_outlier_rejection", "do_apply_regularization_unity_cam01"]


class Problem:
    def __init__(self, name, model="OPENCV4", cfg="", nparams=8, Nci=2, Nce=1, Nf=2, Np=3, Npf=1,
                 boards=((0, -1, 0), (1, 0, 1)), points=((0, -1, 0), (1, 0, 2), (1, 0, 1)), tri=(), off=(), on=(),
                 W=3, H=3, warp=True, jt=True, queries=(), before=""):
        self.__dict__.update(locals())
        del self.self
        sel = {s: s not in ("do_apply_outlier_rejection", "do_apply_regularization_unity_cam01") for s in SEL}
        for s in off:
            sel[s] = False
        for s in on:
            sel[s] = True
        self.sel = sel

    def wrapper(self):
        n = self.name
        nb, npt = len(self.boards), len(self.points)

        def arr(t, nm, rows):
            if not rows:
                return "const %s* const %s = NULL;" % (t, nm)
            return "static const %s %s[] = {%s};" % (t, nm, ",".join(rows))
        tri = ""
        if self.tri:
            tri = "static const mrcal_observation_point_triangulated_t tri[] = {%s};\n" % ",".join(
                "{.icam={%d,%d},.last_in_set=%d,.outlier=%d,.px={.x=%r,.y=%r,.z=%r}}" % (
                    ci, ce, last, outl, 0.1 + 0.037 * k, -0.2 + 0.051 * k, 1.0 + 0.01 * k)
                for k, (ci, ce, last, outl) in enumerate(self.tri))
        else:
            tri = "const mrcal_observation_point_triangulated_t* const tri = NULL;\n"
        return (n, '''
extern double {n}_b[],{n}_x[],{n}_Jx[],{n}_i[],{n}_rc[],{n}_rf[],{n}_pt[],{n}_w[],{n}_ob[],{n}_op[];
extern int {n}_Jp[],{n}_Ji[],{n}_info[];extern volatile int {n}_lay[];extern double {n}_u[],{n}_v[],{n}_r[];
int {n}(void)
{{
  static const mrcal_lensmodel_t lm={{.type=MRCAL_LENSMODEL_{model}{cfg}}};
  const mrcal_problem_selections_t sel={{{sel}}};
  {boards}
  {points}
  {tri}
  static const int imagersizes[]={{{sizes}}};
  int Nstate=mrcal_num_states({Nci},{Nce},{Nf},{Np},{Npf},{nb},sel,&lm);
  int Nmeas=mrcal_num_measurements({nb},{npt},tri,{ntri},{W},{H},{Nci},{Nce},{Nf},{Np},{Npf},sel,&lm);
  {n}_info[0]=Nstate; {n}_info[1]=Nmeas;
  {n}_info[2]=_mrcal_num_j_nonzero({nb},{npt},tri,{ntri},{W},{H},{Nci},{Nce},{Nf},{Np},{Npf},ob,op,sel,&lm);
  cholmod_sparse Jt={{.nrow=Nstate,.ncol=Nmeas,.nzmax={n}_info[2],.p={n}_Jp,.i={n}_Ji,.x={n}_Jx,.itype=CHOLMOD_INT,.xtype=CHOLMOD_REAL,.dtype=CHOLMOD_DOUBLE,.sorted=1,.packed=1}};
  mrcal_problem_constants_t pc={{}};
  {queries}
  return mrcal_optimizer_callback({n}_b,Nstate*8,{n}_x,Nmeas*8,{jt},
     {n}_i,(const mrcal_pose_t*){n}_rc,(const mrcal_pose_t*){n}_rf,(const mrcal_point3_t*){n}_pt,{warp},
     {Nci},{Nce},{Nf},{Np},{Npf},
     ob,op,{nb},{npt},tri,{ntri},
     (const mrcal_point3_t*){n}_ob,(const mrcal_point3_t*){n}_op,&lm,imagersizes,sel,&pc,0.2,{W},{H},false);
}}
'''.format(n=n, model=self.model, cfg=("," + self.cfg) if self.cfg else "", Nci=self.Nci, Nce=self.Nce, Nf=self.Nf, Np=self.Np,
           Npf=self.Npf, nb=nb, npt=npt, ntri=len(self.tri), W=self.W, H=self.H,
           queries=self.before.format(n=self.name) + " ".join("%s_lay[%d]=%s;" % (n, k, q) for k, (_, q) in enumerate(self.queries) if q),
           sel=",".join(".%s=%d" % (k, v) for k, v in self.sel.items()),
           boards=arr("mrcal_observation_board_t", "ob", ["{.icam={%d,%d},.iframe=%d}" % b for b in self.boards]),
           points=arr("mrcal_observation_point_t", "op", ["{.icam={%d,%d},.i_point=%d}" % p for p in self.points]),
           tri=tri, sizes=",".join("%d,%d" % (1280 + 10 * k, 960 + 10 * k) for k in range(self.Nci)),
           jt="&Jt" if self.jt else "NULL", warp="(const mrcal_calobject_warp_t*)%s_w" % n if self.warp else "NULL"))


def build(name, probs):
    pre = PRE + '#include "internal.h"\n'
    return genlib.build(name, [p.wrapper() for p in probs], front.lib_sources(), pre, nch=len(probs))
