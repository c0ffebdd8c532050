"""What each property's check runs."""
import gen_arr as ga
import gen_decomp as gc
import gen_dual as gd
import gen_dyn as gy
import gen_geom as gg
import gen_ik as gk
import gen_inertia as gi
import gen_life as gl
import gen_mech as gm
import gen_motion as gt
import gen_py as gp
import gen_text as gx

ROT = {"quick": [("MCRot", "MCRot.cfg")], "thorough": [("MCRot", "MCRotDeep.cfg")]}
IK = {"quick": [("MCIk", "MCIk.cfg")], "thorough": [("MCIk", "MCIkDeep.cfg")]}
KIN = {"quick": [("MCKin", "MCKin.cfg")], "thorough": [("MCKin", "MCKinDeep.cfg")]}
CHAIN = {"quick": [("MCChain", "MCChain.cfg")], "thorough": [("MCChain", "MCChainDeep.cfg")]}
TREE = {"quick": [("MCTree", "MCTree.cfg")], "thorough": [("MCTree", "MCTreeDeep.cfg")]}
DYN = {"quick": [("MCDyn", "MCDyn.cfg")], "thorough": [("MCDyn", "MCDynDeep.cfg")]}
PATH = {"quick": [("MCPath", "MCPath.cfg")], "thorough": [("MCPath", "MCPathDeep.cfg")]}
TRAJ = {"quick": [("MCPath", "MCPathSmall.cfg")], "thorough": [("MCPath", "MCPath.cfg")]}
PROF = {"quick": [("MCProf", "MCProf.cfg")], "thorough": [("MCProf", "MCProfDeep.cfg")]}
def dual(*ks):
    return {"quick": [("MCDual", "MCDual%d.cfg" % k) for k in ks], "thorough": [("MCDual", "MCDual%dDeep.cfg" % k) for k in ks]}


NOT = {}
# (part of the message of a fix in /repo, the property), beside those in tools/known.py
FIXED = [
    ("Error_IO did not keep the number", "C32"),
    ("Tree::getSubTree could not put the result in the tree itself", "C13"),
    ("posrandom of a Frame gave negative coordinates", "C03"),
    ("rallNd.h did not compile", "C06"),
    ("about an axis without direction", "C07"),
    ("singular Jacobian of a chain with fewer", "C23"),
    ("wdls reads U out", "C23"),
    ("wdls inverts singular values below", "C23"),
    ("accepts weights of the wrong shape", "C23"),
    ("pinv_nso writes the twist", "C23"),
    ("pinv_givens does not give", "C23"),
    ("svd_eigen_Macie never ends", "C33"),
    ("bound kept in a bool", "C33"),
    ("does not report that it ran out", "C33"),
    ("NR does not set the error when it succeeds", "C24"),
    ("NR takes a step away", "C24"),
    ("default limits of ChainIkSolverPos_NR_JL", "C24"),
    ("ChainIkSolverPos_NR_JL starts from outside", "C24"),
    ("LMA reports the singular values", "C24"),
    ("LMA reports weighted differences", "C24"),
    ("TreeIkSolverVel_wdls divides", "C25"),
    ("TreeIkSolverVel_wdls dereferences", "C25"),
    ("TreeIkSolverPos_Online exceeds", "C25"),
    ("reuse the goal of an earlier call", "C25"),
    ("TreeIkSolverPos_NR_JL starts", "C25"),
    ("rate of the mass matrix from another", "C34"),
    ("reads its gain out of range", "C26"),
    ("Trap is not a number when", "C28"),
    ("TrapHalf is not a number without", "C27"),
    ("TrapHalf exceeds its acceleration", "C28"),
    ("profiles are undefined before", "C27"),
    ("Rectangular exceeds its velocity", "C28"),
    ("clone of a velocity profile is another", "C28"),
    ("Spline runs on outside", "C27"),
    ("Trap overshoots its end", "C31"),
    ("reading a Rotation2 from", "C32"),
    ("EatWord writes past the end", "C32"),
    ("ZERO and IDENTITY cannot be read", "C32"),
    ("comment right after a C-style", "C32"),
    ("velocity profile at the end of a stream", "C32"),
    ("Trajectory_Segment read from a stream never", "C32"),
    ("clone of a Path_Circle is another", "C30"),
    ("Path_Circle writes another", "C32"),
    ("clone of a path does not own", "C30"),
    ("Path_Circle over no angle", "C29"),
    ("RoundedComposite leaks", "C30"),
    ("rounds small corners elsewhere", "C29"),
    ("RoundedComposite of one point", "C29"),
    ("rotational interpolation interpolates nothing", "C30"),
    ("Trajectory_Composite moves on", "C31"),
    ("Trajectory_Composite keeps its duration", "C31"),
    ("setAlpha reports success", "C26"),
    ("answers a call which is not implemented", "C26"),
    ("givens solver solves wrongly after an update", "C26"),
    ("fixed joints made the constrained dynamics", "C22"),
    ("Python bindings reject out-of-range", "C35"),
    ("Python solvers keep the chain", "C35"),
]
PROPS = {
    "C01": {"gen": gg.c01, "models": ROT},
    "C02": {"gen": gg.c02, "models": ROT},
    "C03": {"gen": gg.c03, "models": {"quick": [("MCFrame", "MCFrame.cfg")], "thorough": [("MCFrame", "MCFrameDeep.cfg")]}},
    "C04": {"gen": gg.c04, "models": ROT},
    "C05": {"gen": gg.c05, "models": {"quick": [("MCPlane", "MCPlane.cfg")], "thorough": [("MCPlane", "MCPlaneDeep.cfg")]}},
    "C06": {"gen": gd.c06, "models": dual(1, 2)},
    "C07": {"gen": gd.c07, "models": dual(1)},
    "C08": {"gen": gd.c08, "models": dual(2)},
    "C10": {"gen": gi.c10, "models": {"quick": [("MCInertia", "MCInertia.cfg")], "thorough": [("MCInertia", "MCInertiaDeep.cfg")]}},
    "C11": {"gen": gm.c11, "models": KIN},
    "C12": {"gen": gm.c12, "models": CHAIN},
    "C13": {"gen": gm.c13, "models": TREE},
    "C14": {"gen": gm.c14, "models": KIN},
    "C15": {"gen": gm.c15, "models": TREE},
    "C16": {"gen": gm.c16, "models": KIN},
    "C17": {"gen": gm.c17, "models": KIN},
    "C18": {"gen": ga.c18, "models": dual(1, 2)},
    "C19": {"gen": gy.c19, "models": DYN},
    "C20": {"gen": gy.c20, "models": DYN},
    "C21": {"gen": gy.c21, "models": DYN},
    "C22": {"gen": gy.c22, "models": DYN},
    "C23": {"gen": gk.c23, "models": IK},
    "C24": {"gen": gk.c24, "models": IK},
    "C25": {"gen": gk.c25, "models": IK},
    "C26": {"gen": gl.c26, "models": {"quick": [("MCLife", "MCLife.cfg")], "thorough": [("MCLife", "MCLifeDeep.cfg")]}},
    "C27": {"gen": gt.c27, "models": PROF},
    "C28": {"gen": gt.c28, "models": PROF},
    "C29": {"gen": gt.c29, "models": PATH},
    "C30": {"gen": gt.c30, "models": PATH},
    "C31": {"gen": gt.c31, "models": TRAJ},
    "C33": {"gen": gc.c33, "models": {"quick": [("MCDecomp", "MCDecomp.cfg"), ("MCDecomp", "MCDecompWide.cfg")], "thorough": [("MCDecomp", "MCDecomp.cfg"), ("MCDecomp", "MCDecompDeep.cfg")]}},
    "C32": {"gen": gx.c32, "models": {"quick": [("MCText", "MCText.cfg")], "thorough": [("MCText", "MCTextDeep.cfg")]}},
    "C34": {"gen": gy.c34, "models": {"quick": [("MCEst", "MCEst.cfg")], "thorough": [("MCEst", "MCEstDeep.cfg")]}},
    "C35": {"gen": gp.c35, "driver": "python", "labels": ["C26."], "models": {"quick": [("MCPy", "MCPy.cfg")], "thorough": [("MCPy", "MCPyDeep.cfg")]}},
    "C09": {"gen": lambda tier, seed: gg.c09(tier, seed) + gd.c09(tier, seed), "models": {"quick": [("MCEqual", "MCEqual.cfg")], "thorough": [("MCEqual", "MCEqual.cfg"), ("MCEqual", "MCEqualDeep.cfg")]}},
}
