#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.txt: the fixes from the history of /repo, the open findings from lib/props.py."""
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
import props

OF = [("Vector(2)::Normalize", "C03"), ("GetRotAngle", "C02"), ("Rotation::Rot returns", "C01"), ("Set2DPlane", "C05"), ("Rotation2::operator()", "C05"),
      ("RotationVel::RotY", "C07"), ("diff of two FrameVel", "C07"), ("Rall2d::operator*=", "C06"), ("declared sum and difference", "C10"),
      ("adding a chain", "C12"), ("a copy of a tree", "C13"), ("against the direction", "C13"), ("tree solvers read a joint position", "C15"),
      ("ChainJntToJacDotSolver with locked", "C17"), ("forward kinematics of all", "C14"), ("joint arrays with derivatives", "C18"),
      ("an inertia matrix times", "C18"), ("integrator of forward dynamics", "C20"), ("forward dynamics did not follow", "C26"),
      ("tree inverse dynamics", "C21"), ("dynamic parameters report", "C26"), ("constraint torques were not", "C22"), ("another number of joints is not up to date", "C26")]
OF += props.FIXED
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
out = []
for line in log.splitlines():
    h, _, s = line.partition(" ")
    if not s.startswith("fix:"):
        continue
    hit = [p for k, p in OF if k in s]
    if len(hit) != 1:
        sys.exit("which property? " + line)
    out.append("fixed: property=%s %s %s" % (hit[0], h, s[4:].strip()))
for p, spec in sorted(props.PROPS.items()):
    for k in spec.get("known", []):
        out.append("open: property=%s %s" % (p, k["what"]))
open(os.path.join(ROOT, "KNOWN_FINDINGS.txt"), "w").write("\n".join(out) + "\n")
print(len(out), "entries")
