From f26e3d17b25100e4610a20d3c3640de5644a86d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 01/80] fix: Vector(2)::Normalize(eps) uses eps for the norm as
 well

The norm was computed with the default epsilon, so a vector above eps but below
the default was replaced by the unit vector X (small rotations in Rot(Vector)
and addDelta were lost when X was their largest component).
---
 orocos_kdl/src/frames.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index 4d478de..70b1ebf 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -102,7 +102,7 @@ namespace KDL {
     // if v is smaller than eps, Vector(1,0) is returned with norm 0.
     // if this is not good, check the return value of this method.
     double Vector2::Normalize(double eps) {
-        double v = this->Norm();
+        double v = this->Norm(eps);
         if (v < eps) {
             *this = Vector2(1,0);
             return 0;
@@ -145,7 +145,7 @@ namespace KDL {
     // if v is smaller than eps, Vector(1,0,0) is returned with norm 0.
     // if this is not good, check the return value of this method.
     double Vector::Normalize(double eps) {
-        double v = this->Norm();
+        double v = this->Norm(eps);
         if (v < eps) {
             *this = Vector(1,0,0);
             return 0;
-- 
2.43.0


From f40b63fda95e232010410eabd8532b6f3d2d4461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 02/80] fix: Rotation::GetRotAngle(axis,eps) normalizes the
 axis with eps

With eps below the default, angles close to PI gave the axis X.
---
 orocos_kdl/src/frames.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index 70b1ebf..a59a8fe 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -422,8 +422,8 @@ double Rotation::GetRotAngle(Vector& axis,double eps) const {
     y = (data[2] - data[6]);
     z = (data[3] - data[1]);
     axis = KDL::Vector(x, y, z);
-    angle = atan2(axis.Norm()/2,f);
-    axis.Normalize();
+    angle = atan2(axis.Norm(epsilon)/2,f);
+    axis.Normalize(epsilon);
     return angle;
 }
 
-- 
2.43.0


From d191793a7e0418741aeb18ce202aa923b0eb48d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 03/80] fix: Rotation::Rot returns the identity for an axis
 without a direction

As documented; it rotated about X.
---
 orocos_kdl/src/frames.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index a59a8fe..c4fadc8 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -296,7 +296,8 @@ Rotation Rotation::Rot(const Vector& rotaxis,double angle) {
     // can be found by multiplying it with an arbitrary vector p
     // and noting that this vector is rotated.
     Vector rotvec = rotaxis;
-	rotvec.Normalize();
+	if (rotvec.Normalize() == 0)
+		return Rotation::Identity();
 	return Rotation::Rot2(rotvec,angle);
 }
 
-- 
2.43.0


From 05b03b11ab746233a0d07f87907c931c856456b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 04/80] fix: Vector::Set2DPlane sets the vector

---
 orocos_kdl/src/frames.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 8349ff1..815942a 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -710,7 +710,7 @@ void Vector::Set2DPlane(const Frame& F_someframe_XY,const Vector2& v_XY)
 {
 Vector tmp_XY;
 tmp_XY.Set2DXY(v_XY);
-tmp_XY = F_someframe_XY*(tmp_XY);
+*this = F_someframe_XY*(tmp_XY);
 }
 
 
-- 
2.43.0


From 192e6bce8b8e6360c0e42575cf055c1614cbc8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 05/80] fix: Rotation2::operator() was transposed

---
 orocos_kdl/src/frames.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 815942a..d2d15e9 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -861,9 +861,9 @@ IMETHOD double Rotation2::operator()(int i,int j) const {
     FRAMES_CHECKI((0<=i)&&(i<=1)&&(0<=j)&&(j<=1));
     if (i==j) return c;
     if (i==0) 
-        return s;
-    else
         return -s;
+    else
+        return s;
 }
 
 
-- 
2.43.0


From 9d57c519ddd90775605b3fa5bb3d9f39a2d3d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:31 +0000
Subject: [PATCH 06/80] fix: RotationVel::RotY rotates about y

---
 orocos_kdl/src/framevel.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.inl b/orocos_kdl/src/framevel.inl
index 05aceb0..f43195b 100644
--- a/orocos_kdl/src/framevel.inl
+++ b/orocos_kdl/src/framevel.inl
@@ -214,7 +214,7 @@ void RotationVel::DoRotY(const doubleVel& angle) {
     R.DoRotY(angle.t);
 }
 RotationVel RotationVel::RotY(const doubleVel& angle) {
-    return RotationVel(Rotation::RotX(angle.t),Vector(0,angle.grad,0));
+    return RotationVel(Rotation::RotY(angle.t),Vector(0,angle.grad,0));
 }
 
 void RotationVel::DoRotZ(const doubleVel& angle) {
-- 
2.43.0


From ee4c3b3a26a01ce09d634689b274aa597217b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:31 +0000
Subject: [PATCH 07/80] fix: diff of two FrameVel had velocity and rotation
 swapped

---
 orocos_kdl/src/framevel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.hpp b/orocos_kdl/src/framevel.hpp
index b84e69c..92ec580 100644
--- a/orocos_kdl/src/framevel.hpp
+++ b/orocos_kdl/src/framevel.hpp
@@ -359,7 +359,7 @@ IMETHOD RotationVel addDelta(const RotationVel& a,const VectorVel&da,double dt=1
 }
 
 IMETHOD TwistVel diff(const FrameVel& a,const FrameVel& b,double dt=1.0) {
-	return TwistVel(diff(a.M,b.M,dt),diff(a.p,b.p,dt));
+	return TwistVel(diff(a.p,b.p,dt),diff(a.M,b.M,dt));
 }
 
 IMETHOD FrameVel addDelta(const FrameVel& a,const TwistVel& da,double dt=1.0) {
-- 
2.43.0


From 7bb9663dc15e75baf417996851185f39f54976a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:31 +0000
Subject: [PATCH 08/80] fix: Rall2d::operator*= used updated values for the
 derivatives

---
 orocos_kdl/src/utilities/rall2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/rall2d.h b/orocos_kdl/src/utilities/rall2d.h
index fd6f6f9..fdd9c87 100644
--- a/orocos_kdl/src/utilities/rall2d.h
+++ b/orocos_kdl/src/utilities/rall2d.h
@@ -114,9 +114,9 @@ class Rall2d
 
         INLINE Rall2d<T,V,S>& operator *=(const Rall2d<T,V,S>& rhs)
             {
-            t *= rhs.t;
-            d  = (d*rhs.t+t*rhs.d);
             dd = (dd*rhs.t+S(2)*d*rhs.d+t*rhs.dd);
+            d  = (d*rhs.t+t*rhs.d);
+            t *= rhs.t;
             return *this;
             }
 
-- 
2.43.0


From 935b0c0d43b7761d6e63c6e9e40f30f1f3e36426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:07 +0000
Subject: [PATCH 09/80] fix: define the declared sum and difference of an
 articulated and a rigid body inertia

---
 orocos_kdl/src/articulatedbodyinertia.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orocos_kdl/src/articulatedbodyinertia.cpp b/orocos_kdl/src/articulatedbodyinertia.cpp
index 709096d..a335e01 100644
--- a/orocos_kdl/src/articulatedbodyinertia.cpp
+++ b/orocos_kdl/src/articulatedbodyinertia.cpp
@@ -57,10 +57,16 @@ namespace KDL{
     ArticulatedBodyInertia operator+(const RigidBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
         return ArticulatedBodyInertia(Ia)+Ib;
     }
+    ArticulatedBodyInertia operator+(const ArticulatedBodyInertia& Ia, const RigidBodyInertia& Ib){
+        return Ia+ArticulatedBodyInertia(Ib);
+    }
     ArticulatedBodyInertia operator-(const ArticulatedBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
         return ArticulatedBodyInertia(Ia.M-Ib.M,Ia.H-Ib.H,Ia.I-Ib.I);
     }
 
+    ArticulatedBodyInertia operator-(const ArticulatedBodyInertia& Ia, const RigidBodyInertia& Ib){
+        return Ia-ArticulatedBodyInertia(Ib);
+    }
     ArticulatedBodyInertia operator-(const RigidBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
         return ArticulatedBodyInertia(Ia)-Ib;
     }
-- 
2.43.0


From 9739625491d3d12e56ac4b990a3b11f21e6417d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:36 +0000
Subject: [PATCH 10/80] fix: adding a chain, or one of its segments, to itself
 and assigning it to itself

---
 orocos_kdl/src/chain.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index 43eb4f1..c36b84d 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -41,6 +41,8 @@ namespace KDL {
 
     Chain& Chain::operator=(const Chain& arg)
     {
+        if(this==&arg)
+            return *this;
         nrOfJoints=0;
         nrOfSegments=0;
         segments.resize(0);
@@ -52,15 +54,18 @@ namespace KDL {
 
     void Chain::addSegment(const Segment& segment)
     {
+        //segment may be one of our own, which push_back can move
         segments.push_back(segment);
         nrOfSegments++;
-        if(segment.getJoint().getType()!=Joint::Fixed)
+        if(segments.back().getJoint().getType()!=Joint::Fixed)
             nrOfJoints++;
     }
 
     void Chain::addChain(const Chain& chain)
     {
-        for(unsigned int i=0;i<chain.getNrOfSegments();i++)
+        //chain may be this chain, which grows while it is added
+        const unsigned int nr=chain.getNrOfSegments();
+        for(unsigned int i=0;i<nr;i++)
             this->addSegment(chain.getSegment(i));
     }
 
-- 
2.43.0


From 36443144d76c2c1456b2766f7abfdbadfbedaf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:55 +0000
Subject: [PATCH 11/80] fix: a copy of a tree numbers the joints as the tree
 does; self-assignment of a tree

---
 orocos_kdl/src/tree.cpp | 9 +++++++++
 orocos_kdl/src/tree.hpp | 1 +
 2 files changed, 10 insertions(+)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 70151e6..35ef09d 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -38,9 +38,12 @@ Tree::Tree(const Tree& in) {
 
     segments.insert(make_pair(root_name, TreeElement::Root(root_name)));
     addTree(in, root_name);
+    copyJointNumbers(in);
 }
 
 Tree& Tree::operator=(const Tree& in) {
+    if (this == &in)
+        return *this;
     segments.clear();
     nrOfSegments = 0;
     nrOfJoints = 0;
@@ -48,9 +51,15 @@ Tree& Tree::operator=(const Tree& in) {
 
     segments.insert(make_pair(in.root_name, TreeElement::Root(root_name)));
     this->addTree(in, root_name);
+    copyJointNumbers(in);
     return *this;
 }
 
+void Tree::copyJointNumbers(const Tree& in) {
+    for (SegmentMap::iterator it = segments.begin(); it != segments.end(); ++it)
+        GetTreeElementQNr(it->second) = GetTreeElementQNr(in.getSegment(it->first)->second);
+}
+
 bool Tree::addSegment(const Segment& segment, const std::string& hook_name) {
     SegmentMap::iterator parent = segments.find(hook_name);
     //check if parent exists
diff --git a/orocos_kdl/src/tree.hpp b/orocos_kdl/src/tree.hpp
index fd664e8..90b96b6 100644
--- a/orocos_kdl/src/tree.hpp
+++ b/orocos_kdl/src/tree.hpp
@@ -106,6 +106,7 @@ namespace KDL
         std::string root_name;
 
         bool addTreeRecursive(SegmentMap::const_iterator root, const std::string& hook_name);
+        void copyJointNumbers(const Tree& in);
 
     public:
         /**
-- 
2.43.0


From 4f361828058a94c8153a208f8682f418a2e60034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:55 +0000
Subject: [PATCH 12/80] fix: a chain against the direction of the tree keeps
 the scale and the dynamics of its joints

---
 orocos_kdl/src/tree.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 35ef09d..3cf8809 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -157,9 +157,11 @@ bool Tree::getChain(const std::string& chain_root, const std::string& chain_tip,
         Frame f_tip = seg.pose(0.0).Inverse();
         Joint jnt = seg.getJoint();
         if (jnt.getType() == Joint::RotX || jnt.getType() == Joint::RotY || jnt.getType() == Joint::RotZ || jnt.getType() == Joint::RotAxis)
-            jnt = Joint(jnt.getName(), f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::RotAxis);
+            jnt = Joint(jnt.getName(), f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::RotAxis,
+                        jnt.getScale(), 0, jnt.getInertia(), jnt.getDamping(), jnt.getStiffness());
         else if (jnt.getType() == Joint::TransX || jnt.getType() == Joint::TransY || jnt.getType() == Joint::TransZ || jnt.getType() == Joint::TransAxis)
-            jnt = Joint(jnt.getName(),f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::TransAxis);
+            jnt = Joint(jnt.getName(),f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::TransAxis,
+                        jnt.getScale(), 0, jnt.getInertia(), jnt.getDamping(), jnt.getStiffness());
         chain.addSegment(Segment(GetTreeElementSegment(getSegment(parents_chain_root[s+1])->second).getName(),
                                  jnt, f_tip, GetTreeElementSegment(getSegment(parents_chain_root[s+1])->second).getInertia()));
     }
-- 
2.43.0


From 84fcb9119d51b363be4451ddda830c4cbc1fd2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:55 +0000
Subject: [PATCH 13/80] fix: tree solvers read a joint position for fixed
 joints, out of range in a tree without joints

---
 orocos_kdl/src/treefksolverpos_recursive.cpp | 4 +++-
 orocos_kdl/src/treejnttojacsolver.cpp        | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/treefksolverpos_recursive.cpp b/orocos_kdl/src/treefksolverpos_recursive.cpp
index b919b95..223005b 100644
--- a/orocos_kdl/src/treefksolverpos_recursive.cpp
+++ b/orocos_kdl/src/treefksolverpos_recursive.cpp
@@ -49,7 +49,9 @@ namespace KDL {
 	{
 		//gets the frame for the current element (segment)
         const TreeElementType& currentElement = it->second;
-        Frame currentFrame = GetTreeElementSegment(currentElement).pose(q_in(GetTreeElementQNr(currentElement)));
+        const Segment& currentSegment = GetTreeElementSegment(currentElement);
+        //a fixed joint has no position
+        Frame currentFrame = currentSegment.pose(currentSegment.getJoint().getType() != Joint::Fixed ? q_in(GetTreeElementQNr(currentElement)) : 0.0);
 
 		SegmentMap::const_iterator rootIterator = tree.getRootSegment();
 		if(it == rootIterator){
diff --git a/orocos_kdl/src/treejnttojacsolver.cpp b/orocos_kdl/src/treejnttojacsolver.cpp
index 0afb4d1..60a4680 100644
--- a/orocos_kdl/src/treejnttojacsolver.cpp
+++ b/orocos_kdl/src/treejnttojacsolver.cpp
@@ -42,7 +42,7 @@ int TreeJntToJacSolver::JntToJac(const JntArray& q_in, Jacobian& jac, const std:
         unsigned int q_nr = GetTreeElementQNr(it->second);
         
         //get the pose of the segment:
-        Frame T_local = GetTreeElementSegment(it->second).pose(q_in(q_nr));
+        Frame T_local = GetTreeElementSegment(it->second).pose(GetTreeElementSegment(it->second).getJoint().getType() != Joint::Fixed ? q_in(q_nr) : 0.0);
         //calculate new T_end:
         T_total = T_local * T_total;
         
-- 
2.43.0


From 2ef90d2e8445d880aef440600f8c27ee32c09e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:20 +0000
Subject: [PATCH 14/80] fix: ChainJntToJacDotSolver with locked joints wrote
 out of range, and did not check the size of the velocities

---
 orocos_kdl/src/chainjnttojacdotsolver.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/orocos_kdl/src/chainjnttojacdotsolver.cpp b/orocos_kdl/src/chainjnttojacdotsolver.cpp
index 9bb7e11..9b5c5db 100644
--- a/orocos_kdl/src/chainjnttojacdotsolver.cpp
+++ b/orocos_kdl/src/chainjnttojacdotsolver.cpp
@@ -48,7 +48,7 @@ void ChainJntToJacDotSolver::updateInternalDataStructures() {
     this->setLockedJoints(locked_joints_);
     jac_solver_.updateInternalDataStructures();
     jac_.resize(chain.getNrOfJoints());
-    jac_dot_.resize(chain.getNrOfJoints());
+    jac_dot_.resize(nr_of_unlocked_joints_);
     fk_solver_.updateInternalDataStructures();
 }
 
@@ -58,7 +58,12 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Twist& jac_dot_
     if (error != E_NOERROR) {
         return error;
     }
-    MultiplyJacobian(jac_dot_,q_in.qdot,jac_dot_q_dot);
+    // jac_dot_ has no columns for the locked joints
+    SetToZero(jac_dot_q_dot);
+    unsigned int k=0;
+    for(unsigned int j=0;j<chain.getNrOfJoints();++j)
+        if(!locked_joints_[j])
+            jac_dot_q_dot += jac_dot_.getColumn(k++) * q_in.qdot(j);
     return (error = E_NOERROR);
 }
 
@@ -76,7 +81,7 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Jacobian& jdot,
     //Initialize Jacobian to zero since only segmentNr columns are computed
     SetToZero(jdot) ;
 
-    if(q_in.q.rows()!=chain.getNrOfJoints() || nr_of_unlocked_joints_!=jdot.columns())
+    if(q_in.q.rows()!=chain.getNrOfJoints() || q_in.qdot.rows()!=chain.getNrOfJoints() || nr_of_unlocked_joints_!=jdot.columns())
         return (error = E_SIZE_MISMATCH);
     else if(segmentNr>chain.getNrOfSegments())
         return (error = E_OUT_OF_RANGE);
@@ -103,16 +108,21 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Jacobian& jdot,
 
     // Let's compute Jdot in the corresponding representation
     int k=0;
+    unsigned int jointNr=0;
     for(unsigned int i=0;i<segmentNr;++i)
     {
         //Only increase joint nr if the segment has a joint
         if(chain.getSegment(i).getJoint().getType()!=Joint::Fixed) {
+            const unsigned int column=jointNr++;
+            // Locked joints have no column
+            if(locked_joints_[column])
+                continue;
 
             for(unsigned int j=0;j<chain.getNrOfJoints();++j)
             {
                 // Column J is the sum of all partial derivatives  ref (41)
                 if(!locked_joints_[j])
-                    jac_dot_k_ += getPartialDerivative(jac_,j,k,representation_) * q_in.qdot(j);
+                    jac_dot_k_ += getPartialDerivative(jac_,j,column,representation_) * q_in.qdot(j);
             }
             jdot.setColumn(k++,jac_dot_k_);
             SetToZero(jac_dot_k_);
@@ -227,13 +237,14 @@ void ChainJntToJacDotSolver::setRepresentation(const int& representation)
 int ChainJntToJacDotSolver::setLockedJoints(const std::vector<bool>& locked_joints)
 {
     if(locked_joints.size()!=locked_joints_.size())
-        return E_SIZE_MISMATCH;
+        return (error = E_SIZE_MISMATCH);
     locked_joints_=locked_joints;
     nr_of_unlocked_joints_=0;
     for(unsigned int i=0;i<locked_joints_.size();i++){
         if(!locked_joints_[i])
             nr_of_unlocked_joints_++;
     }
+    jac_dot_.resize(nr_of_unlocked_joints_);
 
     return (error = E_NOERROR);
 }
-- 
2.43.0


From d7ab53124c48db0de7783e93172536d9692645b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:20 +0000
Subject: [PATCH 15/80] fix: forward kinematics of all segments sets the error
 it reports

---
 orocos_kdl/src/chainfksolverpos_recursive.cpp | 10 +++++-----
 orocos_kdl/src/chainfksolvervel_recursive.cpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/orocos_kdl/src/chainfksolverpos_recursive.cpp b/orocos_kdl/src/chainfksolverpos_recursive.cpp
index 487569c..c0e016d 100644
--- a/orocos_kdl/src/chainfksolverpos_recursive.cpp
+++ b/orocos_kdl/src/chainfksolverpos_recursive.cpp
@@ -65,13 +65,13 @@ namespace KDL {
             segmentNr = seg_nr;
 
         if(q_in.rows()!=chain.getNrOfJoints())
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr>chain.getNrOfSegments())
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else if(p_out.size() != segmentNr)
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr == 0)
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else{
             int j=0;
             // Initialization
@@ -89,7 +89,7 @@ namespace KDL {
                     p_out[i] = p_out[i-1]*chain.getSegment(i).pose(0.0);
                 }
             }
-            return 0;
+            return (error = E_NOERROR);
         }
     }
 
diff --git a/orocos_kdl/src/chainfksolvervel_recursive.cpp b/orocos_kdl/src/chainfksolvervel_recursive.cpp
index 8957db0..ec485f1 100644
--- a/orocos_kdl/src/chainfksolvervel_recursive.cpp
+++ b/orocos_kdl/src/chainfksolvervel_recursive.cpp
@@ -76,13 +76,13 @@ namespace KDL
 
 
         if(!(in.q.rows()==chain.getNrOfJoints()&&in.qdot.rows()==chain.getNrOfJoints()))
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr>chain.getNrOfSegments())
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else if(out.size()!=segmentNr)
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr == 0)
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else{
             int j=0;
             // Initialization
@@ -105,7 +105,7 @@ namespace KDL
                                      chain.getSegment(i).twist(0.0,0.0));
                 }
             }
-            return 0;
+            return (error = E_NOERROR);
         }
     }
 }
-- 
2.43.0


From 0bfd36dbc4303187f47cc7249186bdef395a18b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 16/80] fix: products and quotients of joint arrays with
 derivatives were wrong in place

---
 orocos_kdl/src/jntarrayacc.cpp | 40 +++++++++-------------------------
 orocos_kdl/src/jntarrayvel.cpp |  8 ++-----
 2 files changed, 12 insertions(+), 36 deletions(-)

diff --git a/orocos_kdl/src/jntarrayacc.cpp b/orocos_kdl/src/jntarrayacc.cpp
index 2d0949a..3fcdb24 100644
--- a/orocos_kdl/src/jntarrayacc.cpp
+++ b/orocos_kdl/src/jntarrayacc.cpp
@@ -109,24 +109,14 @@ namespace KDL
     }
     void Multiply(const JntArrayAcc& src,const doubleVel& factor,JntArrayAcc& dest)
     {
-        Multiply(src.qdot,factor.grad*2,dest.qdot);
-        Multiply(src.qdotdot,factor.t,dest.qdotdot);
-        Add(dest.qdot,dest.qdotdot,dest.qdotdot);
-        Multiply(src.q,factor.grad,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        dest.qdotdot.data=factor.t*src.qdotdot.data+(2*factor.grad)*src.qdot.data;
+        dest.qdot.data=factor.t*src.qdot.data+factor.grad*src.q.data;
         Multiply(src.q,factor.t,dest.q);
     }
     void Multiply(const JntArrayAcc& src,const doubleAcc& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,factor.dd,dest.q);
-        Multiply(src.qdot,factor.d*2,dest.qdot);
-        Multiply(src.qdotdot,factor.t,dest.qdotdot);
-        Add(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.d,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        dest.qdotdot.data=factor.t*src.qdotdot.data+(2*factor.d)*src.qdot.data+factor.dd*src.q.data;
+        dest.qdot.data=factor.t*src.qdot.data+factor.d*src.q.data;
         Multiply(src.q,factor.t,dest.q);
     }
 
@@ -138,26 +128,16 @@ namespace KDL
     }
     void Divide(const JntArrayAcc& src,const doubleVel& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,(2*factor.grad*factor.grad)/(factor.t*factor.t*factor.t),dest.q);
-        Multiply(src.qdot,(2*factor.grad)/(factor.t*factor.t),dest.qdot);
-        Divide(src.qdotdot,factor.t,dest.qdotdot);
-        Subtract(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.grad/(factor.t*factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        dest.qdotdot.data=src.qdotdot.data/factor.t-((2*factor.grad)/(factor.t*factor.t))*src.qdot.data
+            +((2*factor.grad*factor.grad)/(factor.t*factor.t*factor.t))*src.q.data;
+        dest.qdot.data=src.qdot.data/factor.t-(factor.grad/(factor.t*factor.t))*src.q.data;
         Divide(src.q,factor.t,dest.q);
     }
     void Divide(const JntArrayAcc& src,const doubleAcc& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,(2*factor.d*factor.d)/(factor.t*factor.t*factor.t)-factor.dd/(factor.t*factor.t),dest.q);
-        Multiply(src.qdot,(2*factor.d)/(factor.t*factor.t),dest.qdot);
-        Divide(src.qdotdot,factor.t,dest.qdotdot);
-        Subtract(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.d/(factor.t*factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        dest.qdotdot.data=src.qdotdot.data/factor.t-((2*factor.d)/(factor.t*factor.t))*src.qdot.data
+            +((2*factor.d*factor.d)/(factor.t*factor.t*factor.t)-factor.dd/(factor.t*factor.t))*src.q.data;
+        dest.qdot.data=src.qdot.data/factor.t-(factor.d/(factor.t*factor.t))*src.q.data;
         Divide(src.q,factor.t,dest.q);
     }
 
diff --git a/orocos_kdl/src/jntarrayvel.cpp b/orocos_kdl/src/jntarrayvel.cpp
index 2a14250..d1df4a8 100644
--- a/orocos_kdl/src/jntarrayvel.cpp
+++ b/orocos_kdl/src/jntarrayvel.cpp
@@ -83,9 +83,7 @@ namespace KDL
     }
     void Multiply(const JntArrayVel& src,const doubleVel& factor,JntArrayVel& dest)
     {
-        Multiply(src.q,factor.grad,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        dest.qdot.data=factor.t*src.qdot.data+factor.grad*src.q.data;
         Multiply(src.q,factor.t,dest.q);
     }
 
@@ -96,9 +94,7 @@ namespace KDL
     }
     void Divide(const JntArrayVel& src,const doubleVel& factor,JntArrayVel& dest)
     {
-        Multiply(src.q,(factor.grad/factor.t/factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        dest.qdot.data=src.qdot.data/factor.t-(factor.grad/factor.t/factor.t)*src.q.data;
         Divide(src.q,factor.t,dest.q);
     }
 
-- 
2.43.0


From 33d21b89fd6e024e70aa1ebe09dcbcdbc757ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 17/80] fix: an inertia matrix times an array was wrong in
 place

---
 orocos_kdl/src/jntspaceinertiamatrix.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/jntspaceinertiamatrix.cpp b/orocos_kdl/src/jntspaceinertiamatrix.cpp
index fb8a4fe..dd7325a 100644
--- a/orocos_kdl/src/jntspaceinertiamatrix.cpp
+++ b/orocos_kdl/src/jntspaceinertiamatrix.cpp
@@ -98,7 +98,10 @@ namespace KDL
 
     void Multiply(const JntSpaceInertiaMatrix& src, const JntArray& vec, JntArray& dest)
     {
-        dest.data=src.data.lazyProduct(vec.data);
+        if(&vec==&dest)
+            dest.data=src.data*JntArray(vec).data;
+        else
+            dest.data=src.data.lazyProduct(vec.data);
     }
     
     void SetToZero(JntSpaceInertiaMatrix& mat)
-- 
2.43.0


From d2943d6d1eddb2985d901301cd88b3281a287d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 18/80] fix: the integrator of forward dynamics weighted the
 velocities wrongly

---
 orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
index 6e01c49..41947b3 100644
--- a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
@@ -109,16 +109,16 @@ namespace KDL{
         for (unsigned int i=0; i<nj; ++i)
         {
             q_temp(i) = q(i) + q_dot_temp(i)*dt/2.0;
-            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt/2.0;
             dq(i) += 2.0*q_dot_temp(i);
+            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt/2.0;
             dq_dot(i) += 2.0*q_dotdot(i);
         }
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
         for (unsigned int i=0; i<nj; ++i)
         {
             q_temp(i) = q(i) + q_dot_temp(i)*dt;
-            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt;
             dq(i) += 2.0*q_dot_temp(i);
+            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt;
             dq_dot(i) += 2.0*q_dotdot(i);
         }
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
-- 
2.43.0


From 15542140575abb5b85bc6240d2ba6c1c3bcc599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 19/80] fix: forward dynamics did not follow a changed chain
 when updated

---
 .../src/chainfdsolver_recursive_newton_euler.cpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
index 41947b3..82e69e6 100644
--- a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
@@ -46,6 +46,16 @@ namespace KDL{
     void ChainFdSolver_RNE::updateInternalDataStructures() {
         nj = chain.getNrOfJoints();
         ns = chain.getNrOfSegments();
+        DynSolver.updateInternalDataStructures();
+        IdSolver.updateInternalDataStructures();
+        H.resize(nj);
+        Tzeroacc.resize(nj);
+        H_eig.resize(nj,nj);
+        Tzeroacc_eig.resize(nj);
+        L_eig.resize(nj,nj);
+        D_eig.resize(nj);
+        r_eig.resize(nj);
+        acc_eig.resize(nj);
     }
 
     int ChainFdSolver_RNE::CartToJnt(const JntArray &q, const JntArray &q_dot, const JntArray &torques, const Wrenches& f_ext, JntArray &q_dotdot)
-- 
2.43.0


From deaab8ec0ef1334a39529347c81627600d7138b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 20/80] fix: tree inverse dynamics dereferenced the parent of
 the root

---
 orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp b/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp
index b26fb32..017cb38 100644
--- a/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/treeidsolver_recursive_newton_euler.cpp
@@ -78,7 +78,8 @@ namespace KDL{
     void TreeIdSolver_RNE::rne_step(SegmentMap::const_iterator segment, const JntArray &q, const JntArray &q_dot, const JntArray &q_dotdot, const WrenchMap& f_ext, JntArray& torques) {
       const Segment& seg = GetTreeElementSegment(segment->second);
       const std::string& segname = segment->first;
-      const std::string& parname = GetTreeElementParent(segment->second)->first;
+      //the root has no parent
+      const std::string& parname = segment == tree.getRootSegment() ? segname : GetTreeElementParent(segment->second)->first;
 
       //Do forward calculations involving velocity & acceleration of this segment
       double q_, qdot_, qdotdot_;
-- 
2.43.0


From 1760a99de93f185e3dc7aca6b014ca78dadcdb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:45 +0000
Subject: [PATCH 21/80] fix: dynamic parameters report the error of Coriolis
 and gravity terms

---
 orocos_kdl/src/chaindynparam.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chaindynparam.cpp b/orocos_kdl/src/chaindynparam.cpp
index f9f9fb9..4a3b63e 100644
--- a/orocos_kdl/src/chaindynparam.cpp
+++ b/orocos_kdl/src/chaindynparam.cpp
@@ -131,7 +131,7 @@ namespace KDL {
 
 
 	//the calculation of coriolis matrix C
-	return chainidsolver_coriolis.CartToJnt(q, q_dot, jntarraynull, wrenchnull, coriolis);
+	return (error = chainidsolver_coriolis.CartToJnt(q, q_dot, jntarraynull, wrenchnull, coriolis));
 
     }
 
@@ -143,7 +143,7 @@ namespace KDL {
 
 	SetToZero(jntarraynull);
 	//the calculation of coriolis matrix C
-	return chainidsolver_gravity.CartToJnt(q, jntarraynull, jntarraynull, wrenchnull, gravity);
+	return (error = chainidsolver_gravity.CartToJnt(q, jntarraynull, jntarraynull, wrenchnull, gravity));
     }
 
     ChainDynParam::~ChainDynParam()
-- 
2.43.0


From aef34cd88bbdc59c2661c7bd12a978e1b2d3aaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:54 +0000
Subject: [PATCH 22/80] fix: the constraint torques were not those which make
 the computed motion

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 75f58e9..6355cf2 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -300,6 +300,12 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
 {
     unsigned int j = 0;
 
+    //The constraint force acting on the end-effector, in the frame of the end-effector
+    Vector6d end_force = results[ns].E_tilde*nu;
+    Wrench end_constraint_force(Vector(end_force(3), end_force(4), end_force(5)),
+                                Vector(end_force(0), end_force(1), end_force(2)));
+    Frame F_parent = Frame::Identity();
+
     for (unsigned int i = 1; i <= ns; i++)
     {
         segment_info& s = results[i];
@@ -329,14 +335,18 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
         double parentAccComp = parent_forceProjection / s.D;
 
         //The constraint force and acceleration force projected on the joint axes -> axis torque/force
-        constraint_torques(j) = -dot(s.Z, constraint_force);
-        //The result should be the torque originating from the end-effector constraints
+        double constraint_forceProjection = -dot(s.Z, constraint_force);
+
+        //The torque originating from the end-effector constraints: unlike the projection above, it does not
+        //include what the joints between this one and the end-effector take over by accelerating
+        constraint_torques(j) = -dot(s.Z, (F_parent.Inverse() * F_total) * end_constraint_force);
+        F_parent = s.F_base;
 
         // Total torque on the joint resulting from the parent forces, constraint forces and nullspace forces.
-        total_torques(j) = s.u + parent_forceProjection + constraint_torques(j);
+        total_torques(j) = s.u + parent_forceProjection + constraint_forceProjection;
         // q_dotdot(j) is also equal to: total_torques(j) / s.D
 
-        s.constAccComp = constraint_torques(j) / s.D;
+        s.constAccComp = constraint_forceProjection / s.D;
         s.nullspaceAccComp = s.u / s.D;
 
         // Total joint space acceleration resulting from accelerations of parent joints, constraint forces and nullspace forces.
-- 
2.43.0


From dcd5aedcd831502685fd9d7c89fd545944dad92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:54 +0000
Subject: [PATCH 23/80] fix: a chain with another number of joints is not up to
 date for the constrained dynamics

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 6355cf2..e2f24a5 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -56,8 +56,7 @@ void ChainHdSolver_Vereshchagin::updateInternalDataStructures() {
 int ChainHdSolver_Vereshchagin::CartToJnt(const JntArray &q, const JntArray &q_dot, JntArray &q_dotdot, const Jacobian& alfa, const JntArray& beta, const Wrenches& f_ext, const JntArray &ff_torques, JntArray &constraint_torques)
 {
     //Check sizes always
-    nj = chain.getNrOfJoints();
-    if(ns != chain.getNrOfSegments())
+    if(nj != chain.getNrOfJoints() || ns != chain.getNrOfSegments())
         return (error = E_NOT_UP_TO_DATE);
     if (q.rows() != nj || q_dot.rows() != nj || q_dotdot.rows() != nj || ff_torques.rows() != nj || constraint_torques.rows() != nj || f_ext.size() != ns)
         return (error = E_SIZE_MISMATCH);
-- 
2.43.0


From 3589139a3f57eb6a6ce13bd6ba00b48c8069b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:52 +0000
Subject: [PATCH 24/80] fix: report a singular Jacobian of a chain with fewer
 than six joints

jac.columns()-jac.rows() is unsigned and wraps when there are fewer than six joints, so that
E_CONVERGE_PINV_SINGULAR was never returned for these chains.
---
 orocos_kdl/src/chainiksolvervel_pinv.cpp | 2 +-
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv.cpp b/orocos_kdl/src/chainiksolvervel_pinv.cpp
index 4ecc0cc..086092a 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv.cpp
@@ -122,7 +122,7 @@ namespace KDL
 
         // Note if the solution is singular, i.e. if number of near zero
         // singular values is greater than the full rank of jac
-        if ( nrZeroSigmas > (jac.columns()-jac.rows()) ) {
+        if ( nrZeroSigmas + jac.rows() > jac.columns() && nrZeroSigmas > 0 ) {
             return (error = E_CONVERGE_PINV_SINGULAR);   // converged but pinv singular
         } else {
             return (error = E_NOERROR);                 // have converged
diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index a2f37ae..494b599 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -208,7 +208,7 @@ namespace KDL
 
         // If number of near zero singular values is greater than the full rank
         // of jac, then wdls is active
-        if ( nrZeroSigmas > (jac.columns()-jac.rows()) ) {
+        if ( nrZeroSigmas + jac.rows() > jac.columns() && nrZeroSigmas > 0 ) {
             return (error = E_CONVERGE_PINV_SINGULAR);  // converged but pinv singular
         } else {
             return (error = E_NOERROR);                 // have converged
-- 
2.43.0


From e76ee1afeda273962ca3182ea2499237c19c7c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:26 +0000
Subject: [PATCH 25/80] fix: ChainIkSolverVel_wdls reads U out of bounds when
 there are fewer than six joints

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index 494b599..c593ea3 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -21,6 +21,7 @@
 
 #include "chainiksolvervel_wdls.hpp"
 #include "utilities/svd_eigen_HH.hpp"
+#include <algorithm>
 
 namespace KDL
 {
@@ -151,7 +152,7 @@ namespace KDL
         }
 
         //Pre-multiply U and V by the task space and joint space weighting matrix respectively
-        tmp_ts = weight_ts.lazyProduct(U.topLeftCorner(6,6));
+        tmp_ts.leftCols(std::min(6u,nj)) = weight_ts.lazyProduct(U.leftCols(std::min(6u,nj)));
         tmp_js = weight_js.lazyProduct(V);
 
         // Minimum of six largest singular values of J is S(5) if number of joints >=6 and 0 for <6
-- 
2.43.0


From 4725419976ef90c07a11fca71cf60b71adcea8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:26 +0000
Subject: [PATCH 26/80] fix: ChainIkSolverVel_wdls inverts singular values
 below eps when lambda is zero

Without damping (the default) a singular value below eps was inverted, which gives NaN when it is
zero and very large velocities when it is nearly so. As documented, its inverse is set to zero.
---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index c593ea3..5374a93 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -180,12 +180,12 @@ namespace KDL
                 lambda_scaled = sqrt(1.0-(sigmaMin/eps)*(sigmaMin/eps))*lambda ;
             }
             if(fabs(S(i))<eps) {
-                if (i<6) {
+                if (i<6 && lambda_scaled > 0) {
                     // Scale lambda to size of singular value sigmaMin
                     tmp(i) = sum*((S(i)/(S(i)*S(i)+lambda_scaled*lambda_scaled)));
                 }
                 else {
-                    tmp(i)=0.0;  // S(i)=0 for i>=6 due to cols>rows
+                    tmp(i)=0.0;  // S(i)=0 for i>=6 due to cols>rows, or no damping: the inverse is set to zero
                 }
                 //  Count number of singular values near zero
                 ++nrZeroSigmas ;
-- 
2.43.0


From 7b8909bcca7d918b28d3943c7fa2837f09139844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:26 +0000
Subject: [PATCH 27/80] fix: ChainIkSolverVel_wdls accepts weights of the wrong
 shape when they have the right number of elements

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index 5374a93..ab30382 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -78,14 +78,14 @@ namespace KDL
         if(nj != chain.getNrOfJoints())
             return (error = E_NOT_UP_TO_DATE);
 
-        if (Mq.size() != weight_js.size())
+        if (Mq.rows() != weight_js.rows() || Mq.cols() != weight_js.cols())
             return (error = E_SIZE_MISMATCH);
         weight_js = Mq;
         return (error = E_NOERROR);
     }
     
     int ChainIkSolverVel_wdls::setWeightTS(const Eigen::MatrixXd& Mx){
-        if (Mx.size() != weight_ts.size())
+        if (Mx.rows() != weight_ts.rows() || Mx.cols() != weight_ts.cols())
             return (error = E_SIZE_MISMATCH);
         weight_ts = Mx;
         return (error = E_NOERROR);
-- 
2.43.0


From 5078fb2506bd6d2a2428fcf56afb00949b2ba7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:48 +0000
Subject: [PATCH 28/80] fix: ChainIkSolverVel_pinv_nso writes the twist past
 the end of a buffer when there are fewer than six joints

---
 orocos_kdl/src/chainiksolvervel_pinv_nso.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
index 1b04795..7d0b43d 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
@@ -113,11 +113,12 @@ namespace KDL
         for (i = 0; i < nj; ++i) {
             Sinv(i) = fabs(S(i))<eps ? 0.0 : 1.0/S(i);
         }
+        Eigen::Matrix<double,6,1> v;
         for (i = 0; i < 6; ++i) {
-            tmp(i) = v_in(i);
+            v(i) = v_in(i);
         }
 
-        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * tmp.head(6);
+        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * v;
 
         // Now onto NULL space
         // Given the cost function g, and the current joints q, desired joints qd, and weights w:
-- 
2.43.0


From 008eb5dd022a04ebfb050b9ee8727c48ea4ba0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:10 +0000
Subject: [PATCH 29/80] fix: svd_eigen_Macie never ends on a zero column, and
 returns nothing for an orthogonal matrix

A zero column or row gave 0/0 as the measure of orthogonality, so that the sweeps never ended; U, V
and S were only calculated when there were rotations, and left as they were (or uninitialised) when
the columns were orthogonal already; the rows beyond the number of columns were left out when working
on rows; and what is zero up to rounding was scaled up to a unit vector.
---
 orocos_kdl/src/utilities/svd_eigen_Macie.cpp | 66 +++++++++++---------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
index c0fce47..cd092ed 100644
--- a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
@@ -20,6 +20,8 @@
 // Foundation, Inc., 51 Franklin St, Fifth Floor, Boston, MA  02110-1301  USA
 
 #include "svd_eigen_Macie.hpp"
+#include <cmath>
+#include <limits>
 
 namespace KDL{
     int svd_eigen_Macie(const Eigen::MatrixXd& A,Eigen::MatrixXd& U,Eigen::VectorXd& S, Eigen::MatrixXd& V,
@@ -29,9 +31,12 @@ namespace KDL{
         bool rotate = true;
         unsigned int sweeps=0;
         unsigned int rotations=0;
+        //columns and rows of squared norm below this part of that of the matrix are zero up to rounding
+        const double zero_norm=pow(A.rows()*std::numeric_limits<double>::epsilon(),2.0);
         if(toggle){
             //Calculate B from new A and previous V
             B=A.lazyProduct(V);
+            const double zero=zero_norm*B.squaredNorm();
             while(rotate){
                 rotate=false;
                 rotations=0;
@@ -43,10 +48,9 @@ namespace KDL{
                         double qi =B.col(i).dot(B.col(i));
                         double qj = B.col(j).dot(B.col(j));
                         double q=qi-qj;
-                        double alpha = pow(p,2.0)/(qi*qj);
                         //if columns are orthogonal with precision
                         //threshold, don't perform rotation and continue
-                        if(alpha<threshold)
+                        if(!(qj>zero && (qi<=zero || pow(p,2.0)>=threshold*qi*qj)))
                             continue;
                         rotations++;
                         double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
@@ -75,44 +79,44 @@ namespace KDL{
                         rotate=true;
                     }
                 }
-                //Only calculate new U and S if there were any rotations
-                if(rotations!=0){
-                    for(unsigned int i=0;i<U.rows();i++) {
-                        if(i<B.cols()){
-                            double si=sqrt(B.col(i).dot(B.col(i)));
-                            if(si==0)
-                                U.col(i) = B.col(i);
-                            else
-                                U.col(i) = B.col(i)/si;
-                            S(i)=si;
-                        }
-                        else
-                            U.col(i) = 0*tempi;
-                    }
+                if(rotations!=0)
                     sweeps++;
+            }
+            for(unsigned int i=0;i<U.rows();i++) {
+                if(i<B.cols()){
+                    double si=B.col(i).norm();
+                    if(si*si<=zero)
+                        si=0;
+                    if(si==0)
+                        U.col(i).setZero();
+                    else
+                        U.col(i) = B.col(i)/si;
+                    S(i)=si;
                 }
+                else
+                    U.col(i).setZero();
             }
             return sweeps;
         }else{
             //Calculate B from new A and previous U'
             B = U.transpose().lazyProduct(A);
+            const double zero=zero_norm*B.squaredNorm();
             while(rotate){
                 rotate=false;
                 rotations=0;
                 //Perform rotations between rows of B
-                for(unsigned int i=0;i<B.cols();i++){
-                    for(unsigned int j=i+1;j<B.cols();j++){
+                for(unsigned int i=0;i<B.rows();i++){
+                    for(unsigned int j=i+1;j<B.rows();j++){
                         //calculate plane rotation
                         double p = B.row(i).dot(B.row(j));
                         double qi = B.row(i).dot(B.row(i));
                         double qj = B.row(j).dot(B.row(j));
 
                         double q=qi-qj;
-                        double alpha = pow(p,2.0)/(qi*qj);
                         //if columns are orthogonal with precision
                         //threshold, don't perform rotation and
                         //continue
-                        if(alpha<threshold)
+                        if(!(qj>zero && (qi<=zero || pow(p,2.0)>=threshold*qi*qj)))
                             continue;
                         rotations++;
                         double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
@@ -143,18 +147,18 @@ namespace KDL{
                     }
                 }
 
-                //Only calculate new U and S if there were any rotations
-                if(rotations!=0){
-                    for(unsigned int i=0;i<V.rows();i++) {
-                        double si=sqrt(B.row(i).dot(B.row(i)));
-                        if(si==0)
-                            V.col(i) = B.row(i);
-                        else
-                            V.col(i) = B.row(i)/si;
-                        S(i)=si;
-                    }
+                if(rotations!=0)
                     sweeps++;
-                }
+            }
+            for(unsigned int i=0;i<V.rows();i++) {
+                double si=B.row(i).norm();
+                if(si*si<=zero)
+                    si=0;
+                if(si==0)
+                    V.col(i).setZero();
+                else
+                    V.col(i) = B.row(i)/si;
+                S(i)=si;
             }
             return sweeps;
         }
-- 
2.43.0


From 14fc88e6e8b14ad5313a2c6402e1233052653e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:10 +0000
Subject: [PATCH 30/80] fix: ChainIkSolverVel_pinv_givens does not give the
 pseudo inverse for other than six joints or singular poses

Every other call worked on the rows of the jacobian projected on the left singular vectors of the call
before, which do not span it when it is not square, nor after a singular pose, and singular values
which are zero up to rounding were inverted.
---
 orocos_kdl/src/chainiksolvervel_pinv_givens.cpp | 9 ++++-----
 orocos_kdl/src/chainiksolvervel_pinv_givens.hpp | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
index fbf102b..5812fdf 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
@@ -29,7 +29,7 @@ namespace KDL
         nj(chain.getNrOfJoints()),
         jnt2jac(chain),
         jac(nj),
-        transpose(nj>6),toggle(true),
+        transpose(nj>6),
         m(static_cast<unsigned int>(max(6,nj))),
         n(static_cast<unsigned int>(min(6,nj))),
         jac_eigen(m,n),
@@ -75,8 +75,6 @@ namespace KDL
         if (nj != q_in.rows() || nj != qdot_out.rows())
             return (error = E_SIZE_MISMATCH);
 
-        toggle=!toggle;
-
         error = jnt2jac.JntToJac(q_in,jac);
         if (E_NOERROR > error )
             return error;
@@ -91,7 +89,8 @@ namespace KDL
                 else
                     jac_eigen(i,j)=jac(i,j);
         }
-        svd_eigen_Macie(jac_eigen,U,S,V,B,tempi,1e-15,toggle);
+        //V is a product of rotations and stays orthonormal; U does not when the jacobian is not square and regular
+        svd_eigen_Macie(jac_eigen,U,S,V,B,tempi,1e-15,true);
 
         if(transpose)
             UY.noalias() = V.transpose() * v_in_eigen;
@@ -102,7 +101,7 @@ namespace KDL
             double wi = UY(i);
             double alpha = S(i);
             
-            if (alpha != 0)
+            if (alpha > 1e-12 * S.maxCoeff())
                 alpha = 1.0 / alpha;
             else
                 alpha = 0.0;
diff --git a/orocos_kdl/src/chainiksolvervel_pinv_givens.hpp b/orocos_kdl/src/chainiksolvervel_pinv_givens.hpp
index 8fdf159..8d00861 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_givens.hpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_givens.hpp
@@ -48,7 +48,7 @@ namespace KDL
         unsigned int nj;
         ChainJntToJacSolver jnt2jac;
         Jacobian jac;
-        bool transpose,toggle;
+        bool transpose;
         unsigned int m,n;
         Eigen::MatrixXd jac_eigen,U,V,B;
         Eigen::VectorXd S,tempi,UY,SUY,qdot_eigen,v_in_eigen;
-- 
2.43.0


From 32f2e74307c2fc576142f0cbf2c02bd4ede44a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 31/80] fix: the singular value decomposition compares with a
 bound kept in a bool, and splits where a value is minus two

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 7 ++++---
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index b82467c..e6d7647 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -66,7 +66,8 @@ namespace KDL
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag,maxarg1,maxarg2;
+        bool flag;
+        double maxarg1,maxarg2;
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
         for(i=0;i<rows;i++)
@@ -173,11 +174,11 @@ namespace KDL
                 flag=true;
                 for (ppi=k;ppi>=0;ppi--) {  /* Test for splitting. */
                     nm=ppi-1;             /* Note that tmp[1] is always zero. */
-                    if ((fabs(tmp(ppi))+anorm) == anorm) {
+                    if (ppi == 0 || (fabs(tmp(ppi))+anorm) == anorm) {
                         flag=false;
                         break;
                     }
-                    if ((fabs(w(nm)+anorm) == anorm)) break;
+                    if ((fabs(w(nm))+anorm) == anorm) break;
                 }
                 if (flag) {
                     c=0.0;           /* Cancellation of tmp[l], if l>1: */
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index 7c7bd37..68a801e 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -34,7 +34,8 @@ namespace KDL{
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag,maxarg1,maxarg2;
+        bool flag;
+        double maxarg1,maxarg2;
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
         /* Householder reduction to bidiagonal form. */
@@ -140,11 +141,11 @@ namespace KDL{
                 flag=true;
                 for (ppi=k;ppi>=0;ppi--) {  /* Test for splitting. */
                     nm=ppi-1;             /* Note that tmp[1] is always zero. */
-                    if ((fabs(tmp(ppi))+anorm) == anorm) {
+                    if (ppi == 0 || (fabs(tmp(ppi))+anorm) == anorm) {
                         flag=false;
                         break;
                     }
-                    if ((fabs(S(nm)+anorm) == anorm)) break;
+                    if ((fabs(S(nm))+anorm) == anorm) break;
                 }
                 if (flag) {
                     c=0.0;           /* Cancellation of tmp[l], if l>1: */
-- 
2.43.0


From 224df06bccd4ea38e7b9db8d4fbb9528cd99e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:01 +0000
Subject: [PATCH 32/80] fix: the singular value decomposition does not report
 that it ran out of iterations

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 7 +++----
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index e6d7647..7b91e00 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -262,11 +262,10 @@ namespace KDL
                 tmp(k)=f;
                 w(k)=x;
             }
+            if (its > maxiter)
+                return (-2);
         }
-        if (its == maxiter)
-            return (-2);
-        else
-            return (0);
+        return (0);
     }
 
 }
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index 68a801e..c3728da 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -235,6 +235,8 @@ namespace KDL{
                 tmp(k)=f;
                 S(k)=x;
             }
+            if (its > maxiter)
+                return (-2);
         }
 
         //Sort eigen values:
@@ -261,9 +263,6 @@ namespace KDL{
             }
         }
         
-        if (its == maxiter) 
-            return (-2);
-        else 
-            return (0);
+        return (0);
     }
 }
-- 
2.43.0


From 2386ca1931304cf9abfa16973f9ce3f36006c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:05 +0000
Subject: [PATCH 33/80] fix: ChainIkSolverPos_NR does not set the error when it
 succeeds

---
 orocos_kdl/src/chainiksolverpos_nr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr.cpp b/orocos_kdl/src/chainiksolverpos_nr.cpp
index 79747bf..1c8cf8a 100644
--- a/orocos_kdl/src/chainiksolverpos_nr.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr.cpp
@@ -62,7 +62,7 @@ namespace KDL
             Add(q_out,delta_q,q_out);
             if(Equal(delta_twist,Twist::Zero(),eps))
                 // converged, but possibly with a degraded solution
-                return (rc > E_NOERROR ? E_DEGRADED : E_NOERROR);
+                return (error = rc > E_NOERROR ? E_DEGRADED : E_NOERROR);
         }
         return (error = E_MAX_ITERATIONS_EXCEEDED);        // failed to converge
     }
-- 
2.43.0


From cd42db2d30119a3a5796fb5dff24ab9392e3e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:05 +0000
Subject: [PATCH 34/80] fix: ChainIkSolverPos_NR takes a step away from the
 solution it has found

---
 orocos_kdl/src/chainiksolverpos_nr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr.cpp b/orocos_kdl/src/chainiksolverpos_nr.cpp
index 1c8cf8a..a929ac0 100644
--- a/orocos_kdl/src/chainiksolverpos_nr.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr.cpp
@@ -59,10 +59,10 @@ namespace KDL
                 return (error = E_IKSOLVER_FAILED);
             // we chose to continue if the child solver returned a positive
             // "error", which may simply indicate a degraded solution
-            Add(q_out,delta_q,q_out);
             if(Equal(delta_twist,Twist::Zero(),eps))
                 // converged, but possibly with a degraded solution
                 return (error = rc > E_NOERROR ? E_DEGRADED : E_NOERROR);
+            Add(q_out,delta_q,q_out);
         }
         return (error = E_MAX_ITERATIONS_EXCEEDED);        // failed to converge
     }
-- 
2.43.0


From f576fee266c931d4d9cc4b10641faa185d883c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:05 +0000
Subject: [PATCH 35/80] fix: the default limits of ChainIkSolverPos_NR_JL allow
 no negative positions

---
 orocos_kdl/src/chainiksolverpos_nr_jl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
index bb30c45..15f5689 100644
--- a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
@@ -46,13 +46,13 @@ namespace KDL
          delta_q(nj),
          maxiter(_maxiter),eps(_eps)
     {
-        q_min.data.setConstant(std::numeric_limits<double>::min());
+        q_min.data.setConstant(std::numeric_limits<double>::lowest());
         q_max.data.setConstant(std::numeric_limits<double>::max());
     }
 
     void ChainIkSolverPos_NR_JL::updateInternalDataStructures() {
        nj = chain.getNrOfJoints();
-       q_min.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::min()));
+       q_min.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::lowest()));
        q_max.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::max()));
        iksolver.updateInternalDataStructures();
        fksolver.updateInternalDataStructures();
-- 
2.43.0


From da103b779e9b8b97b6121957c913f1badae81081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 36/80] fix: ChainIkSolverPos_NR_JL starts from outside the
 limits, and may stay there

---
 orocos_kdl/src/chainiksolverpos_nr_jl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
index 15f5689..5be96ba 100644
--- a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
@@ -68,6 +68,12 @@ namespace KDL
             return (error = E_SIZE_MISMATCH);
 
         q_out = q_init;
+        for(unsigned int j=0; j<nj; j++) {
+            if(q_out(j) < q_min(j))
+                q_out(j) = q_min(j);
+            if(q_out(j) > q_max(j))
+                q_out(j) = q_max(j);
+        }
 
         unsigned int i;
         for(i=0;i<maxiter;i++){
-- 
2.43.0


From 51732161187b4b91b7d455e630cc38ad44b4f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 37/80] fix: ChainIkSolverPos_LMA reports the singular values
 of an old Jacobian when it starts at the goal

---
 orocos_kdl/src/chainiksolverpos_lma.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolverpos_lma.cpp b/orocos_kdl/src/chainiksolverpos_lma.cpp
index 71d2ab5..ab6abf5 100644
--- a/orocos_kdl/src/chainiksolverpos_lma.cpp
+++ b/orocos_kdl/src/chainiksolverpos_lma.cpp
@@ -210,9 +210,11 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 	if (delta_pos_norm<eps) {
 		lastNrOfIter    =0 ;
 		Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
-		lastDifference  = delta_pos.norm();
+		lastDifference  = delta_pos_norm;
 		lastTransDiff   = delta_pos.topRows(3).norm();
 		lastRotDiff     = delta_pos.bottomRows(3).norm();
+		compute_jacobian(q);
+		jac = L.asDiagonal()*jac;
 		svd.compute(jac);
 		original_Aii    = svd.singularValues();
 		lastSV          = svd.singularValues();
-- 
2.43.0


From c992c01ad3d310bafde68d8f476ba37485ba378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 38/80] fix: ChainIkSolverPos_LMA reports weighted differences
 as unweighted after too many iterations

---
 orocos_kdl/src/chainiksolverpos_lma.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/chainiksolverpos_lma.cpp b/orocos_kdl/src/chainiksolverpos_lma.cpp
index ab6abf5..8f2a673 100644
--- a/orocos_kdl/src/chainiksolverpos_lma.cpp
+++ b/orocos_kdl/src/chainiksolverpos_lma.cpp
@@ -307,6 +307,8 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 		}
 	}
 	lastDifference = delta_pos_norm;
+	compute_fwdpos(q);
+	Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
 	lastTransDiff  = delta_pos.topRows(3).norm();
 	lastRotDiff    = delta_pos.bottomRows(3).norm();
 	lastSV         = svd.singularValues();
-- 
2.43.0


From 23445bfa4fe5531a169252044cff54bde65c80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 39/80] fix: TreeIkSolverVel_wdls divides by zero at singular
 values which are zero when lambda is zero

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index 87665db..f227310 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -6,6 +6,8 @@
  */
 
 #include "treeiksolvervel_wdls.hpp"
+#include <algorithm>
+#include <limits>
 #include "utilities/svd_eigen_HH.hpp"
 
 namespace KDL {    
@@ -86,6 +88,9 @@ namespace KDL {
         Wy_t.noalias() = Wy * t;
         Wq_V.noalias() = Wq * V;
         
+        // singular values which are zero up to rounding have no inverse
+        const double S_zero = (S.size() > 0 ? S(0) : 0.0) * std::max(J.rows(), J.cols()) * std::numeric_limits<double>::epsilon();
+
         // tmp = (Si*Wy*U'*y),
         for (unsigned int i = 0; i < J.cols(); i++) {
             double sum = 0.0;
@@ -95,7 +100,10 @@ namespace KDL {
                 else
                     sum += 0.0;
             }
-            tmp( i) = sum * ((S(i) / (S(i) * S(i) + lambda * lambda)));
+            if (S(i) <= S_zero)
+                tmp( i) = 0.0;
+            else
+                tmp( i) = sum * ((S(i) / (S(i) * S(i) + lambda * lambda)));
         }
         
         // x = Lx^-1*V*tmp + x
-- 
2.43.0


From 2a58b9d81c4179b2065dfe4d19d33beefc84fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 40/80] fix: TreeIkSolverVel_wdls dereferences the end when the
 twist of an endpoint is missing

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index f227310..c1c5bdd 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -68,7 +68,10 @@ namespace KDL {
             else {
                 //lets put the jacobian in the big matrix and put the twist in the big t:
                 J.block(6*k,0, 6,tree.getNrOfJoints()) = jac_it->second.data;
-                const Twist& twist=v_in.find(jac_it->first)->second;
+                Twists::const_iterator v_it = v_in.find(jac_it->first);
+                if (v_it == v_in.end())
+                    return -2;
+                const Twist& twist=v_it->second;
                 t.segment(6*k,3)   = Eigen::Map<const Eigen::Vector3d>(twist.vel.data);
                 t.segment(6*k+3,3) = Eigen::Map<const Eigen::Vector3d>(twist.rot.data);
             }
-- 
2.43.0


From d3d6cec6d9462f0c65117b0114276c92c4f7d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 41/80] fix: TreeIkSolverPos_Online exceeds the limit on a
 Cartesian velocity which is smaller in value than the other

---
 orocos_kdl/src/treeiksolverpos_online.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 594c3a0..2f0c7d7 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -155,12 +155,13 @@ void TreeIkSolverPos_Online::enforceCartVelLimits()
 
   if ( x_dot_trans > x_dot_trans_max_ || x_dot_rot > x_dot_rot_max_ )
   {
-    if ( x_dot_trans > x_dot_rot )
+    // scale to the limit which is exceeded most
+    if ( x_dot_trans * x_dot_rot_max_ > x_dot_rot * x_dot_trans_max_ )
     {
       twist_.vel = twist_.vel * ( x_dot_trans_max_ / x_dot_trans );
       twist_.rot = twist_.rot * ( x_dot_trans_max_ / x_dot_trans );
     }
-    else if ( x_dot_rot > x_dot_trans )
+    else
     {
       twist_.vel = twist_.vel * ( x_dot_rot_max_ / x_dot_rot );
       twist_.rot = twist_.rot * ( x_dot_rot_max_ / x_dot_rot );
-- 
2.43.0


From 80312948b3e7e807eed9f9f63e6fc58153ee42a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 42/80] fix: tree position solvers reuse the goal of an earlier
 call for an endpoint which has none

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp  | 4 ++++
 orocos_kdl/src/treeiksolverpos_online.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index 2b0b1a3..e988a9c 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -47,6 +47,10 @@ namespace KDL {
             if(frames.find(f_des_it->first)==frames.end())
                 return -2;
         
+        //Endpoints without a goal are to stay where they are:
+        for(Twists::iterator delta_it=delta_twists.begin();delta_it!=delta_twists.end();++delta_it)
+            delta_it->second = Twist::Zero();
+
         unsigned int k=0;
         while(++k <= maxiter) {
             for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it){
diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 2f0c7d7..a838467 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -66,6 +66,10 @@ double TreeIkSolverPos_Online::CartToJnt(const JntArray& q_in, const Frames& p_i
     if(frames_.find(f_des_it->first)==frames_.end())
       return -2;
 
+  // endpoints without a goal are to stay where they are
+  for (Twists::iterator delta_it=delta_twists_.begin();delta_it!=delta_twists_.end();++delta_it)
+    delta_it->second = Twist::Zero();
+
   for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it)
   {
     // Get all iterators for this endpoint
-- 
2.43.0


From 1795b64c45b0e1b9a9f3fe71a6abcdb28e9fc0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 43/80] fix: TreeIkSolverPos_NR_JL starts from outside the
 limits, and may stay there

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index e988a9c..de3cba4 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -47,6 +47,15 @@ namespace KDL {
             if(frames.find(f_des_it->first)==frames.end())
                 return -2;
         
+        if (q_init.rows() != q_min.rows() || q_init.rows() != q_max.rows())
+            return -1;
+        for (unsigned int j = 0; j < q_min.rows(); j++) {
+            if (q_out(j) < q_min(j))
+                q_out(j) = q_min(j);
+            else if (q_out(j) > q_max(j))
+                q_out(j) = q_max(j);
+        }
+
         //Endpoints without a goal are to stay where they are:
         for(Twists::iterator delta_it=delta_twists.begin();delta_it!=delta_twists.end();++delta_it)
             delta_it->second = Twist::Zero();
-- 
2.43.0


From bdf35d0b499f67283a9f7ae1fc18fbb284325f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:26 +0000
Subject: [PATCH 44/80] fix: the external wrench estimator takes the rate of
 the mass matrix from another position at its first step

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index 8c9d752..df9044a 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -82,6 +82,8 @@ int ChainExternalWrenchEstimator::setInitialMomentum(const JntArray &joint_posit
         return (error = E_DYNPARAMSOLVERMASS_FAILED);
 
     initial_jnt_momentum.data = jnt_mass_matrix.data * joint_velocity.data;
+    // the rate of the mass matrix counts from here, and not from another or no position
+    previous_jnt_mass_matrix.data = jnt_mass_matrix.data;
 
     // Reset data because of the new momentum offset
     SetToZero(estimated_momentum_integral);
-- 
2.43.0


From 1cb876474691d939ec4933cf4e617c299333d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:08 +0000
Subject: [PATCH 45/80] fix: the external wrench estimator reads its gain out
 of range when updated after a chain without joints

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 4 ++--
 orocos_kdl/src/chainexternalwrenchestimator.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index df9044a..3a9309b 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -24,7 +24,7 @@ namespace KDL {
 
 ChainExternalWrenchEstimator::ChainExternalWrenchEstimator(const Chain &chain, const Vector &gravity, const double sample_frequency, const double estimation_gain, const double filter_constant, const double eps, const int maxiter) :
     CHAIN(chain),
-    DT_SEC(1.0 / sample_frequency), FILTER_CONST(filter_constant),
+    DT_SEC(1.0 / sample_frequency), FILTER_CONST(filter_constant), GAIN(estimation_gain),
     svd_eps(eps),
     svd_maxiter(maxiter),
     nj(CHAIN.getNrOfJoints()), ns(CHAIN.getNrOfSegments()),
@@ -64,7 +64,7 @@ void ChainExternalWrenchEstimator::updateInternalDataStructures()
     S.conservativeResizeLike(Eigen::VectorXd::Zero(6));
     S_inv.conservativeResizeLike(Eigen::VectorXd::Zero(6));
     tmp.conservativeResizeLike(Eigen::VectorXd::Zero(6));
-    ESTIMATION_GAIN.conservativeResizeLike(Eigen::VectorXd::Constant(nj, ESTIMATION_GAIN(0)));
+    ESTIMATION_GAIN.conservativeResizeLike(Eigen::VectorXd::Constant(nj, GAIN));
     dynparam_solver.updateInternalDataStructures();
     jacobian_solver.updateInternalDataStructures();
     fk_pos_solver.updateInternalDataStructures();
diff --git a/orocos_kdl/src/chainexternalwrenchestimator.hpp b/orocos_kdl/src/chainexternalwrenchestimator.hpp
index 3147a5d..f1a9c64 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.hpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.hpp
@@ -109,7 +109,7 @@ namespace KDL {
 
     private:
         const Chain &CHAIN;
-        const double DT_SEC, FILTER_CONST;
+        const double DT_SEC, FILTER_CONST, GAIN;
         double svd_eps;
         int svd_maxiter;
         unsigned int nj, ns;
-- 
2.43.0


From 100959d439c9a1e25759a445fe94877735489a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:15 +0000
Subject: [PATCH 46/80] fix: VelocityProfile_Trap is not a number when it is
 given a duration for no motion

---
 orocos_kdl/src/velocityprofile_trap.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_trap.cpp b/orocos_kdl/src/velocityprofile_trap.cpp
index 1bee674..bf885c5 100644
--- a/orocos_kdl/src/velocityprofile_trap.cpp
+++ b/orocos_kdl/src/velocityprofile_trap.cpp
@@ -93,10 +93,10 @@ void VelocityProfile_Trap::SetProfileDuration(
 	// duration should be longer than originally planned duration
 	// Fastest :
 	SetProfile(pos1,pos2);
+	if (!(newduration > duration))
+		return; // do not exceed max
 	// Must be Slower  :
 	double factor = duration/newduration;
-	if (factor > 1)
-		return; // do not exceed max
 	a2*=factor;
 	a3*=factor*factor;
 	b2*=factor;
@@ -104,8 +104,10 @@ void VelocityProfile_Trap::SetProfileDuration(
 	c2*=factor;
 	c3*=factor*factor;
 	duration = newduration;
-	t1 /= factor;
-	t2 /= factor;
+	if (factor > 0) { // otherwise there is no motion, and no times to stretch
+		t1 /= factor;
+		t2 /= factor;
+	}
 }
 
 void VelocityProfile_Trap::SetProfileVelocity(
-- 
2.43.0


From df8f0fd38392c694b871bfd47709a2b6177d06f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:15 +0000
Subject: [PATCH 47/80] fix: VelocityProfile_TrapHalf is not a number without
 motion

---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 05ff180..de56364 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -82,6 +82,11 @@ void VelocityProfile_TrapHalf::PlanProfile2(double v,double a) {
 void VelocityProfile_TrapHalf::SetProfile(double pos1,double pos2) {
 	startpos        = pos1;
 	endpos          = pos2;
+	if (startpos == endpos) { // no motion
+		duration = t1 = t2 = 0;
+		PlanProfile1(0,0);
+		return;
+	}
 	double s        = sign(endpos-startpos);
 	// check that the maxvel is obtainable
 	double vel = std::min(maxvel, sqrt(2.0*s*(endpos-startpos)*maxacc));
@@ -101,10 +106,12 @@ void VelocityProfile_TrapHalf::SetProfileDuration(
 	double pos1,double pos2,double newduration)
 {
 	SetProfile(pos1,pos2);
-	double factor = duration/newduration;
-
-	if ( factor > 1 )
+	if (!(newduration > duration))
 		return;
+	if (startpos == endpos) {
+		duration = newduration;
+		return;
+	}
 
 	double s        = sign(endpos-startpos);
 	double tmp      = 2.0*s*(endpos-startpos)/maxvel;
-- 
2.43.0


From 37785b3732b8d8959ed97befa7488fc956c40341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:16 +0000
Subject: [PATCH 48/80] fix: VelocityProfile_TrapHalf exceeds its acceleration
 when a short motion is given a duration

---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index de56364..4798259 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -114,8 +114,10 @@ void VelocityProfile_TrapHalf::SetProfileDuration(
 	}
 
 	double s        = sign(endpos-startpos);
-	double tmp      = 2.0*s*(endpos-startpos)/maxvel;
-	double v        = s*maxvel;
+	// maxvel is not reached when the distance is too short
+	double vel      = std::min(maxvel, sqrt(2.0*s*(endpos-startpos)*maxacc));
+	double tmp      = 2.0*s*(endpos-startpos)/vel;
+	double v        = s*vel;
 	duration        = newduration;
 	if (starting) {
 		if (tmp > duration) {
-- 
2.43.0


From cb10824f04b4bb5f1588c395c93d0f61b8d79c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 49/80] fix: velocity profiles are undefined before they are
 set

---
 orocos_kdl/src/velocityprofile_dirac.hpp    | 1 +
 orocos_kdl/src/velocityprofile_rect.hpp     | 2 +-
 orocos_kdl/src/velocityprofile_traphalf.cpp | 2 ++
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/velocityprofile_dirac.hpp b/orocos_kdl/src/velocityprofile_dirac.hpp
index 07aa62b..ed9dd08 100644
--- a/orocos_kdl/src/velocityprofile_dirac.hpp
+++ b/orocos_kdl/src/velocityprofile_dirac.hpp
@@ -49,6 +49,7 @@ namespace KDL {
     {
         double p1,p2,t;
     public:
+        VelocityProfile_Dirac(): p1(0),p2(0),t(0) {}
         void SetProfile(double pos1,double pos2);
         virtual void SetProfileDuration(double pos1,double pos2,double duration);
         virtual double Duration() const;
diff --git a/orocos_kdl/src/velocityprofile_rect.hpp b/orocos_kdl/src/velocityprofile_rect.hpp
index 4482779..f21e498 100644
--- a/orocos_kdl/src/velocityprofile_rect.hpp
+++ b/orocos_kdl/src/velocityprofile_rect.hpp
@@ -62,7 +62,7 @@ namespace KDL {
 		double maxvel;
 
 		VelocityProfile_Rectangular(double _maxvel=0):
-		  maxvel(_maxvel) {}
+		  d(0),p(0),v(0),maxvel(_maxvel) {}
 		// constructs motion profile class with <maxvel> as parameter of the
 		// trajectory.
 
diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 4798259..05ffc8d 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -48,6 +48,8 @@ namespace KDL {
 
 
 VelocityProfile_TrapHalf::VelocityProfile_TrapHalf(double _maxvel,double _maxacc,bool _starting):
+		  a1(0), a2(0), a3(0), b1(0), b2(0), b3(0), c1(0), c2(0), c3(0),
+		  duration(0), t1(0), t2(0), startpos(0), endpos(0),
 		  maxvel(_maxvel),maxacc(_maxacc),starting(_starting) {}
 
 void VelocityProfile_TrapHalf::SetMax(double _maxvel,double _maxacc, bool _starting)
-- 
2.43.0


From 45264ec631ec86744694f7725799cdfa7be129d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 50/80] fix: VelocityProfile_Rectangular exceeds its velocity
 backwards, and may take a negative duration

---
 orocos_kdl/src/velocityprofile_rect.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_rect.cpp b/orocos_kdl/src/velocityprofile_rect.cpp
index 7992c1e..3dcd74c 100644
--- a/orocos_kdl/src/velocityprofile_rect.cpp
+++ b/orocos_kdl/src/velocityprofile_rect.cpp
@@ -80,9 +80,9 @@ void VelocityProfile_Rectangular::
 	diff = pos2-pos1;          // increment per sec.
     if ( diff != 0 )
         {
-            v    = diff/duration;
-            if (v > maxvel || duration==0 ) // safety.
-                v=maxvel;
+            v    = (diff>0)?maxvel:-maxvel;
+            if (duration > diff/v) // not faster than that, for safety.
+                v=diff/duration;
             p    = pos1;               // start pos
             d    = diff/v;
         }
-- 
2.43.0


From 5e4fce55a0b5d4dcc522dd3d8ee393c41a4e4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 51/80] fix: the clone of a velocity profile is another motion
 when the limits changed after it was set

---
 orocos_kdl/src/velocityprofile_rect.hpp     | 4 +---
 orocos_kdl/src/velocityprofile_trap.cpp     | 4 +---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_rect.hpp b/orocos_kdl/src/velocityprofile_rect.hpp
index f21e498..e70206c 100644
--- a/orocos_kdl/src/velocityprofile_rect.hpp
+++ b/orocos_kdl/src/velocityprofile_rect.hpp
@@ -76,9 +76,7 @@ namespace KDL {
 		virtual double Acc(double time) const;
 		virtual void Write(std::ostream& os) const;
 		virtual VelocityProfile* Clone() const{
-			VelocityProfile_Rectangular* res =  new VelocityProfile_Rectangular(maxvel);
-			res->SetProfileDuration( p, p+v*d, d );
-			return res;
+			return new VelocityProfile_Rectangular(*this);
 		}
 		// returns copy of current VelocityProfile object. (virtual constructor)
 		virtual ~VelocityProfile_Rectangular() {}
diff --git a/orocos_kdl/src/velocityprofile_trap.cpp b/orocos_kdl/src/velocityprofile_trap.cpp
index bf885c5..ac5f13c 100644
--- a/orocos_kdl/src/velocityprofile_trap.cpp
+++ b/orocos_kdl/src/velocityprofile_trap.cpp
@@ -180,9 +180,7 @@ double VelocityProfile_Trap::Acc(double time) const {
 }
 
 VelocityProfile* VelocityProfile_Trap::Clone() const {
-	VelocityProfile_Trap* res =  new VelocityProfile_Trap(maxvel,maxacc);
-	res->SetProfileDuration( this->startpos, this->endpos, this->duration );
-	return res;
+	return new VelocityProfile_Trap(*this);
 }
 
 VelocityProfile_Trap::~VelocityProfile_Trap() {}
diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 05ffc8d..052b1f5 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -194,9 +194,7 @@ double VelocityProfile_TrapHalf::Acc(double time) const {
 }
 
 VelocityProfile* VelocityProfile_TrapHalf::Clone() const {
-	VelocityProfile_TrapHalf* res =  new VelocityProfile_TrapHalf(maxvel,maxacc, starting);
-	res->SetProfileDuration( this->startpos, this->endpos, this->duration );
-	return res;
+	return new VelocityProfile_TrapHalf(*this);
 }
 
 VelocityProfile_TrapHalf::~VelocityProfile_TrapHalf() {}
-- 
2.43.0


From 3b60b7c44ae5fd32cdf783377e95d51b6025493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:08 +0000
Subject: [PATCH 52/80] fix: VelocityProfile_Spline runs on outside its
 duration

---
 orocos_kdl/src/velocityprofile_spline.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orocos_kdl/src/velocityprofile_spline.cpp b/orocos_kdl/src/velocityprofile_spline.cpp
index ec651ed..eb656d6 100644
--- a/orocos_kdl/src/velocityprofile_spline.cpp
+++ b/orocos_kdl/src/velocityprofile_spline.cpp
@@ -143,6 +143,10 @@ double VelocityProfile_Spline::Pos(double time) const
 {
   double t[6];
   double position;
+  if (time < 0)
+    time = 0;
+  else if (time > duration_)
+    time = duration_;
   generatePowers(5, time, t);
 
   position = t[0]*coeff_[0] +
@@ -158,6 +162,8 @@ double VelocityProfile_Spline::Vel(double time) const
 {
   double t[5];
   double velocity;
+  if (time < 0 || time > duration_)
+    return 0;
   generatePowers(4, time, t);
 
   velocity = t[0]*coeff_[1] +
@@ -172,6 +178,8 @@ double VelocityProfile_Spline::Acc(double time) const
 {
   double t[4];
   double acceleration;
+  if (time < 0 || time > duration_)
+    return 0;
   generatePowers(3, time, t);
 
   acceleration = 2.0*t[0]*coeff_[2] +
-- 
2.43.0


From 2d74165a2ec07ab1e917e4abf2cfa90c19325394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:08 +0000
Subject: [PATCH 53/80] fix: the clone of a Path_Circle is another circle

---
 orocos_kdl/src/path_circle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index 53261e8..aefdb30 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -141,9 +141,9 @@ Path* Path_Circle::Clone() {
 	return new Path_Circle(
 		Pos(0),
 		F_base_center.p,
-		F_base_center.M.UnitY(),
+		F_base_center.p + F_base_center.M.UnitY(),
 		orient->Pos(pathlength*scalerot),
-		pathlength*scalelin/radius/deg2rad,
+		pathlength*scalelin/radius,
 		orient->Clone(),
 		eqradius,
         aggregate
-- 
2.43.0


From 73c385470336d228bed317092d3c831b566fc461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:08 +0000
Subject: [PATCH 54/80] fix: Path_Circle writes another circle

---
 orocos_kdl/src/path_circle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index aefdb30..be69f3a 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -159,7 +159,7 @@ void Path_Circle::Write(std::ostream& os) {
 	os << "CIRCLE[ ";
 	os << "  " << Pos(0) << std::endl;
 	os << "  " << F_base_center.p << std::endl;
-	os << "  " << F_base_center.M.UnitY() << std::endl;
+	os << "  " << F_base_center.p + F_base_center.M.UnitY() << std::endl;
 	os << "  " << orient->Pos(pathlength*scalerot) << std::endl;
 	os << "  " << pathlength*scalelin/radius/deg2rad << std::endl;
 	os << "  ";orient->Write(os);
-- 
2.43.0


From 70ac18775e2aabb7bc180593fc7cd443d8f286e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:08 +0000
Subject: [PATCH 55/80] fix: the clone of a path does not own what it cloned

---
 orocos_kdl/src/path_circle.cpp        | 2 +-
 orocos_kdl/src/path_composite.cpp     | 2 +-
 orocos_kdl/src/path_cyclic_closed.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index be69f3a..0ff8f93 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -146,7 +146,7 @@ Path* Path_Circle::Clone() {
 		pathlength*scalelin/radius,
 		orient->Clone(),
 		eqradius,
-        aggregate
+        true
 	);
 }
 
diff --git a/orocos_kdl/src/path_composite.cpp b/orocos_kdl/src/path_composite.cpp
index c93f5a2..d93a853 100644
--- a/orocos_kdl/src/path_composite.cpp
+++ b/orocos_kdl/src/path_composite.cpp
@@ -113,7 +113,7 @@ Twist Path_Composite::Acc(double s,double sd,double sdd) const {
 Path* Path_Composite::Clone()  {
 	scoped_ptr<Path_Composite> comp( new Path_Composite() );
 	for (unsigned int i = 0; i < dv.size(); ++i) {
-		comp->Add(gv[i].first->Clone(), gv[i].second);
+		comp->Add(gv[i].first->Clone(), true);
 	}
 	return comp.release();
 }
diff --git a/orocos_kdl/src/path_cyclic_closed.cpp b/orocos_kdl/src/path_cyclic_closed.cpp
index fa5c65f..2f2190e 100644
--- a/orocos_kdl/src/path_cyclic_closed.cpp
+++ b/orocos_kdl/src/path_cyclic_closed.cpp
@@ -76,7 +76,7 @@ Path_Cyclic_Closed::~Path_Cyclic_Closed() {
 }
 
 Path* Path_Cyclic_Closed::Clone() {
-	return new Path_Cyclic_Closed(geom->Clone(),times, aggregate);
+	return new Path_Cyclic_Closed(geom->Clone(),times, true);
 }
 
 void Path_Cyclic_Closed::Write(std::ostream& os)  {
-- 
2.43.0


From dc302967d40ad7403180929b4c830f5bc137d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:09 +0000
Subject: [PATCH 56/80] fix: a Path_Circle over no angle is not a number

---
 orocos_kdl/src/path_circle.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index 0ff8f93..09b019b 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -88,11 +88,16 @@ Path_Circle::Path_Circle(const Frame& F_base_start,
         pathlength = oalpha*eqradius;
         scalerot = 1/eqradius;
         scalelin = dist/pathlength;
-    } else {
+    } else if (dist != 0) {
         // translation is the limitation
         pathlength = dist;
         scalerot = oalpha/pathlength;
         scalelin = 1;
+    } else {
+        // both were zero
+        pathlength = 0;
+        scalerot   = 1;
+        scalelin   = 1;
     }
 }
 
-- 
2.43.0


From c52ef07047413c382692c310f8f813d800d761ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:09 +0000
Subject: [PATCH 57/80] fix: Path_RoundedComposite leaks when it refuses its
 equivalent radius

---
 orocos_kdl/src/path_roundedcomposite.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 2916505..61d2752 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -63,6 +63,9 @@ Path_RoundedComposite::Path_RoundedComposite(double _radius,double _eqradius,Rot
 {
 		nrofpoints = 0;
 		if (eqradius<=0) {
+			delete comp;
+			if (aggregate)
+				delete orient;
 			throw Error_MotionPlanning_Not_Feasible(1);
 		}
 }
-- 
2.43.0


From 8891d434b3f253e5cbe4fa8308d0afec278462df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:09 +0000
Subject: [PATCH 58/80] fix: Path_RoundedComposite rounds small corners
 elsewhere

---
 orocos_kdl/src/path_roundedcomposite.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 61d2752..16908f5 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -120,7 +120,7 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 			Frame F_base_circlestart = line1->Pos(line1->LengthToS(abdist - d));
 			Frame F_base_circleend = line2->Pos(line2->LengthToS(d));
 			// end of circle segment, beginning of next line
-			Vector V_base_t = ab * (ab * bc);
+			Vector V_base_t = (ab / abdist) * ((ab / abdist) * (bc / bcdist));
 			V_base_t.Normalize();
 			comp->Add(
 					new Path_Line(F_base_start, F_base_circlestart,
-- 
2.43.0


From eac91e1395288ee4cfdfa8d04503b72933d8ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:09 +0000
Subject: [PATCH 59/80] fix: Path_RoundedComposite of one point goes to an
 undefined one

---
 orocos_kdl/src/path_roundedcomposite.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 16908f5..87d8d2a 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -43,6 +43,7 @@
 #include "path_roundedcomposite.hpp"
 #include "path_line.hpp"
 #include "path_circle.hpp"
+#include "path_point.hpp"
 #include "utilities/error.h"
 #include "utilities/scoped_ptr.hpp"
 #include <memory>
@@ -140,7 +141,9 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 }
 
 void Path_RoundedComposite::Finish() {
-	if (nrofpoints >= 1) {
+	if (nrofpoints == 1) {
+		comp->Add(new Path_Point(F_base_start));
+	} else if (nrofpoints > 1) {
 		comp->Add(
 				new Path_Line(F_base_start, F_base_via, orient->Clone(),
 						eqradius));
-- 
2.43.0


From 3c808dad90ab91856b9fa5cf9f0ae4c9ffad5993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:09 +0000
Subject: [PATCH 60/80] fix: the clone of a rotational interpolation
 interpolates nothing

---
 orocos_kdl/src/rotational_interpolation_sa.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/rotational_interpolation_sa.cpp b/orocos_kdl/src/rotational_interpolation_sa.cpp
index 6b5a56b..30360c6 100644
--- a/orocos_kdl/src/rotational_interpolation_sa.cpp
+++ b/orocos_kdl/src/rotational_interpolation_sa.cpp
@@ -46,7 +46,7 @@
 namespace KDL {
 
 
-RotationalInterpolation_SingleAxis::RotationalInterpolation_SingleAxis()
+RotationalInterpolation_SingleAxis::RotationalInterpolation_SingleAxis(): angle(0)
 	{}
 
 void RotationalInterpolation_SingleAxis::SetStartEnd(Rotation start,Rotation end) {
@@ -81,7 +81,7 @@ RotationalInterpolation_SingleAxis::~RotationalInterpolation_SingleAxis() {
 
 
 RotationalInterpolation* RotationalInterpolation_SingleAxis::Clone() const {
-	return new RotationalInterpolation_SingleAxis();
+	return new RotationalInterpolation_SingleAxis(*this);
 }
 
 }
-- 
2.43.0


From 8879ed11cf5fe17d2b0a7b6ade0c2b2456a2e5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:09 +0000
Subject: [PATCH 61/80] fix: Trajectory_Composite moves on outside its duration

---
 orocos_kdl/src/trajectory_composite.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/trajectory_composite.cpp b/orocos_kdl/src/trajectory_composite.cpp
index 1583608..ec67bfa 100644
--- a/orocos_kdl/src/trajectory_composite.cpp
+++ b/orocos_kdl/src/trajectory_composite.cpp
@@ -52,8 +52,8 @@ namespace KDL {
         unsigned int i;
         Trajectory* traj;
         double previoustime;
-        if (time < 0) {
-            return vt[0]->Vel(0);
+        if (time < 0 || time > duration) {
+            return Twist::Zero();
         }
         previoustime = 0;
         for (i=0;i<vt.size();i++) {
@@ -71,8 +71,8 @@ namespace KDL {
     	unsigned int i;
         Trajectory* traj;
         double previoustime;
-        if (time < 0) {
-            return vt[0]->Acc(0);
+        if (time < 0 || time > duration) {
+            return Twist::Zero();
         }
         previoustime = 0;
         for (i=0;i<vt.size();i++) {
-- 
2.43.0


From 32dc916cdc91c49dd07c7a821eb77f0ad7260874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:09 +0000
Subject: [PATCH 62/80] fix: Trajectory_Composite keeps its duration when it is
 emptied

---
 orocos_kdl/src/trajectory_composite.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orocos_kdl/src/trajectory_composite.cpp b/orocos_kdl/src/trajectory_composite.cpp
index ec67bfa..7d92e50 100644
--- a/orocos_kdl/src/trajectory_composite.cpp
+++ b/orocos_kdl/src/trajectory_composite.cpp
@@ -98,6 +98,7 @@ namespace KDL {
         }
         vt.erase(vt.begin(),vt.end());
         vd.erase(vd.begin(),vd.end());
+        duration = 0;
     }
 
     Trajectory_Composite::~Trajectory_Composite() {
-- 
2.43.0


From e061618ca5a55bc0cfe215efdc704e32d0460266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:52 +0000
Subject: [PATCH 63/80] fix: VelocityProfile_Trap overshoots its end by the
 rounding errors, which Path_Composite refuses

---
 orocos_kdl/src/velocityprofile_trap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/velocityprofile_trap.cpp b/orocos_kdl/src/velocityprofile_trap.cpp
index ac5f13c..2a5e32a 100644
--- a/orocos_kdl/src/velocityprofile_trap.cpp
+++ b/orocos_kdl/src/velocityprofile_trap.cpp
@@ -146,7 +146,7 @@ double VelocityProfile_Trap::Pos(double time) const {
 	} else if (time<t2) {
 		return b1+time*(b2+b3*time);
 	} else if (time<=duration) {
-		return c1+time*(c2+c3*time);
+		return endpos+c3*sqr(duration-time);	// ends exactly there, however long it takes
 	} else {
 		return endpos;
 	}
-- 
2.43.0


From 05759628cd3044402de9d3c8cb1db7f9f0bff740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:21 +0000
Subject: [PATCH 64/80] fix: reading a Rotation2 from a stream does not change
 it

Rot is a static function which returns the rotation.
---
 orocos_kdl/src/frames_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames_io.cpp b/orocos_kdl/src/frames_io.cpp
index 0af50bb..e5daa4a 100644
--- a/orocos_kdl/src/frames_io.cpp
+++ b/orocos_kdl/src/frames_io.cpp
@@ -294,7 +294,7 @@ std::istream& operator >> (std::istream& is,Rotation2& r)
     Eat(is,'[');
     double val;
     is >> val;
-    r.Rot(val*deg2rad);
+    r = Rotation2::Rot(val*deg2rad);
     EatEnd(is,']');
     IOTracePop();
     return is;
-- 
2.43.0


From 4c681f4f6ba60c1d8ecf3efbcd2dd87b932e85e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:21 +0000
Subject: [PATCH 65/80] fix: EatWord writes past the end of its buffer on words
 of maxsize letters or more

A word can be at most maxsize-1 long, as documented: the terminating zero needs
room as well.
---
 orocos_kdl/src/utilities/utility_io.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index eacf6cb..3cc7e17 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -190,11 +190,11 @@ void EatWord(std::istream& is,const char* delim,char* storage,int maxsize)
     size=0;
     int count = 0;
     while ((count==0)&&(strchr(delim,ch)==NULL)) {
-        *p = (char) toupper(ch);
-        ++p;
-        if (size==maxsize) {
+        if (size==maxsize-1) {
            throw Error_BasicIO_ToBig();
         }
+        *p = (char) toupper(ch);
+        ++p;
         _check_istream(is);
         ++size;
         //ch = is.get();
-- 
2.43.0


From 1bb9dea82a3e5dfee1ec8e1c807d022153716f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:21 +0000
Subject: [PATCH 66/80] fix: the words ZERO and IDENTITY cannot be read at the
 end of a stream

EatWord took the end of the stream for a character of the word, and then
reported an error.
---
 orocos_kdl/src/utilities/utility_io.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index 3cc7e17..d577c2f 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -189,19 +189,23 @@ void EatWord(std::istream& is,const char* delim,char* storage,int maxsize)
     p = storage;
     size=0;
     int count = 0;
-    while ((count==0)&&(strchr(delim,ch)==NULL)) {
+    while ((count==0)&&(ch!=EOF)&&(strchr(delim,ch)==NULL)) {
         if (size==maxsize-1) {
            throw Error_BasicIO_ToBig();
         }
         *p = (char) toupper(ch);
         ++p;
-        _check_istream(is);
         ++size;
         //ch = is.get();
         ch =_EatSpace(is,&count);
     }
     *p=0;
-    is.putback(ch);
+    if (ch!=EOF)
+        is.putback(ch);
+    else if (size==0)
+        _check_istream(is);
+    else
+        is.clear(std::ios::eofbit); // the end of the stream delimits the word as well
 }
 
 
-- 
2.43.0


From 24556a1a33aa31f6cc8603bac57b4174140a50f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:21 +0000
Subject: [PATCH 67/80] fix: a comment right after a C-style comment is not
 skipped on input

---
 orocos_kdl/src/utilities/utility_io.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index d577c2f..8218568 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -67,8 +67,7 @@ namespace KDL {
         }
     } while (true);
     if (countp!=NULL) *countp = count;
-    ch = is.get();
-    return ch;
+    return ' '; // a comment separates like a space, and what follows may be a comment as well
 }
 
 // Eats space-like characters and comments
-- 
2.43.0


From d555e8a9f4812d51fe44fb6fcee1bf628a8c8257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:21 +0000
Subject: [PATCH 68/80] fix: reading a velocity profile at the end of a stream
 leaves the stream failed

Eat looks for what follows the delimiter; EatEnd is meant for the last one, as
in the other readers.
---
 orocos_kdl/src/velocityprofile.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile.cpp b/orocos_kdl/src/velocityprofile.cpp
index dec2453..ef0ec60 100644
--- a/orocos_kdl/src/velocityprofile.cpp
+++ b/orocos_kdl/src/velocityprofile.cpp
@@ -56,13 +56,13 @@ VelocityProfile* VelocityProfile::Read(std::istream& is) {
 	EatWord(is,"[",storage,sizeof(storage));
 	Eat(is,'[');
 	if (strcmp(storage,"DIRACVEL")==0) {
-		Eat(is,']');
+		EatEnd(is,']');
 		IOTracePop();
 		return new VelocityProfile_Dirac();
 	} else if (strcmp(storage,"CONSTVEL")==0) {
 		double vel;
 		is >> vel;
-		Eat(is,']');
+		EatEnd(is,']');
 		IOTracePop();
 		return new VelocityProfile_Rectangular(vel);
 	} else if (strcmp(storage,"TRAPEZOIDAL")==0) {
@@ -71,7 +71,7 @@ VelocityProfile* VelocityProfile::Read(std::istream& is) {
  		is >> maxvel;
 		Eat(is,',');
 		is >> maxacc;
-		Eat(is,']');
+		EatEnd(is,']');
 		IOTracePop();
 		return new VelocityProfile_Trap(maxvel,maxacc);
 	} else if (strcmp(storage,"TRAPEZOIDALHALF")==0) {
@@ -83,7 +83,7 @@ VelocityProfile* VelocityProfile::Read(std::istream& is) {
 		Eat(is,',');
 		bool starting;
 		is >> starting;
-		Eat(is,']');
+		EatEnd(is,']');
 		IOTracePop();
 		return new VelocityProfile_TrapHalf(maxvel,maxacc,starting);
 	}
-- 
2.43.0


From 9378a2c9ee2e1b830f3d11e767b9a9c53b704f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:21 +0000
Subject: [PATCH 69/80] fix: a Trajectory_Segment read from a stream never
 moves

What is written of a velocity profile are its limits: the profile that is read
has to be planned over the path.
---
 orocos_kdl/src/trajectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orocos_kdl/src/trajectory.cpp b/orocos_kdl/src/trajectory.cpp
index 914af5f..21e17d3 100644
--- a/orocos_kdl/src/trajectory.cpp
+++ b/orocos_kdl/src/trajectory.cpp
@@ -62,6 +62,7 @@ Trajectory* Trajectory::Read(std::istream& is) {
 		IOTrace("SEGMENT");
 		scoped_ptr<Path>      geom(    Path::Read(is)       );
 		scoped_ptr<VelocityProfile> motprof( VelocityProfile::Read(is)  );
+		motprof->SetProfile(0, geom->PathLength());
 		EatEnd(is,']');
 		IOTracePop();
 		IOTracePop();
-- 
2.43.0


From 62310ee741e227ac708e4de3ec4b7af3060f9705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:12 +0000
Subject: [PATCH 70/80] fix: ChainIkSolverVel_pinv_nso::setAlpha reports
 success but leaves the error of an earlier call

---
 orocos_kdl/src/chainiksolvervel_pinv_nso.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
index 7d0b43d..56c7413 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
@@ -183,7 +183,7 @@ namespace KDL
     int ChainIkSolverVel_pinv_nso::setAlpha(const double _alpha)
     {
       alpha = _alpha;
-      return 0;
+      return (error = E_NOERROR);
     }
 
 
-- 
2.43.0


From 9d6eef98c8eedcc80768fddfd085bade786f4976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:12 +0000
Subject: [PATCH 71/80] fix: ChainIkSolverVel_wdls answers a call which is not
 implemented with another error, and does not report it

---
 orocos_kdl/src/chainiksolvervel_wdls.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.hpp b/orocos_kdl/src/chainiksolvervel_wdls.hpp
index dbba19b..006f004 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.hpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.hpp
@@ -102,7 +102,7 @@ namespace KDL
          * not (yet) implemented.
          *
          */
-        virtual int CartToJnt(const JntArray& /*q_init*/, const FrameVel& /*v_in*/, JntArrayVel& /*q_out*/){return -1;};
+        virtual int CartToJnt(const JntArray& /*q_init*/, const FrameVel& /*v_in*/, JntArrayVel& /*q_out*/){return (error = E_NOT_IMPLEMENTED);};
 
         /**
          * Set the joint space weighting matrix
-- 
2.43.0


From 39be5e470b4358bfa6bf4169e4b09b336254e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:12 +0000
Subject: [PATCH 72/80] fix: the givens solver solves wrongly after an update
 to a chain with fewer joints

---
 orocos_kdl/src/chainiksolvervel_pinv_givens.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
index 5812fdf..2298ad1 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
@@ -53,8 +53,9 @@ namespace KDL
         m = static_cast<unsigned int>(max(6,nj));
         n = static_cast<unsigned int>(min(6,nj));
         jac_eigen.conservativeResize(m,n);
-        U.conservativeResizeLike(Eigen::MatrixXd::Identity(m,m));
-        V.conservativeResizeLike(Eigen::MatrixXd::Identity(n,n));
+        //a part of an orthonormal matrix is not orthonormal: start again
+        U = Eigen::MatrixXd::Identity(m,m);
+        V = Eigen::MatrixXd::Identity(n,n);
         B.conservativeResize(m,n);
         S.conservativeResize(n);
         tempi.conservativeResize(m);
-- 
2.43.0


From 80c20258e3c0018b69de374d0f4bedf99fe6e755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:59 +0000
Subject: [PATCH 73/80] fix: fixed joints made the constrained dynamics divide
 by zero and read out of range

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index e2f24a5..ec84e00 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -88,18 +88,22 @@ void ChainHdSolver_Vereshchagin::initial_upwards_sweep(const JntArray &q, const
         //Calculate segment properties: X,S,vj,cj
         const Segment& segment = chain.getSegment(i);
         segment_info& s = results[i + 1];
+        //A fixed joint has no position nor velocity
+        const bool moves = segment.getJoint().getType() != Joint::Fixed;
+        const double qj = moves ? q(j) : 0.0;
+        const double qdotj = moves ? qdot(j) : 0.0;
         //The pose between the joint root and the segment tip (tip expressed in joint root coordinates)
-        s.F = segment.pose(q(j)); //X pose of each link in link coord system
+        s.F = segment.pose(qj); //X pose of each link in link coord system
 
         F_total = F_total * s.F; //X pose of the each link in root coord system
         s.F_base = F_total; //X pose of the each link in root coord system for getter functions
 
         //The velocity due to the joint motion of the segment expressed in the segments reference frame (tip)
-        Twist vj = s.F.M.Inverse(segment.twist(q(j), qdot(j))); //XDot of each link
+        Twist vj = s.F.M.Inverse(segment.twist(qj, qdotj)); //XDot of each link
         //Twist aj = s.F.M.Inverse(segment.twist(q(j), qdotdot(j))); //XDotDot of each link
 
         //The unit velocity due to the joint motion of the segment expressed in the segments reference frame (tip)
-        s.Z = s.F.M.Inverse(segment.twist(q(j), 1.0));
+        s.Z = s.F.M.Inverse(segment.twist(qj, 1.0));
         //Put Z in the joint root reference frame:
         s.Z = s.F * s.Z;
 
@@ -128,7 +132,7 @@ void ChainHdSolver_Vereshchagin::initial_upwards_sweep(const JntArray &q, const
         //external forces are taken into account through s.U.
         Wrench FextLocal = F_total.M.Inverse() * f_ext[i];
         s.U = s.v * (s.H * s.v) - FextLocal; //f_ext[i];
-        if (segment.getJoint().getType() != Joint::Fixed)
+        if (moves)
             j++;
     }
 
@@ -237,7 +241,7 @@ void ChainHdSolver_Vereshchagin::downwards_sweep(const Jacobian& alfa, const Jnt
             if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
                 s.D = chain.getSegment(i - 1).getJoint().getInertia() + dot(s.Z, s.PZ);
             else
-                s.D = dot(s.Z, s.PZ);
+                s.D = 1.0; // whatever is divided by it is zero: a fixed joint has no Z
 
             s.PC = s.P * s.C;
 
@@ -247,7 +251,9 @@ void ChainHdSolver_Vereshchagin::downwards_sweep(const Jacobian& alfa, const Jnt
 
             //projection of coriolis and centrepital forces into joint subspace (0 0 Z)
             s.totalBias = -dot(s.Z, s.R + s.PC);
-            s.u = ff_torques(j) + s.totalBias;
+            s.u = s.totalBias;
+            if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
+                s.u += ff_torques(j);
 
             //Matrix form of Z, put rotations above translations
             Vector6d vZ;
@@ -308,6 +314,15 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
     for (unsigned int i = 1; i <= ns; i++)
     {
         segment_info& s = results[i];
+        //A fixed joint only passes on the acceleration
+        if (chain.getSegment(i - 1).getJoint().getType() == Joint::Fixed)
+        {
+            s.constAccComp = 0.0;
+            s.nullspaceAccComp = 0.0;
+            F_parent = s.F_base;
+            s.acc = s.F.Inverse((i == 1 ? acc_root : results[i - 1].acc) + s.C);
+            continue;
+        }
         //Calculation of joint and segment accelerations
         //equation g) qdotdot[i] = D^-1*(Q - Z'(R + P(C + acc[i-1]) + E*nu))
         // = D^-1(u - Z'(P*acc[i-1] + E*nu)
@@ -352,8 +367,7 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
         q_dotdot(j) = (s.nullspaceAccComp + parentAccComp + s.constAccComp);
         // Returns segment's spatial acceleration in link distal-tip coordinates. For use needs to be transformed
         s.acc = s.F.Inverse(a_p + s.Z * q_dotdot(j) + s.C);
-        if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
-            j++;
+        j++;
     }
 }
 
-- 
2.43.0


From 3e42f95f24fcfb3023c8ee440fbdece928a9a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:40 +0000
Subject: [PATCH 74/80] fix: Python bindings reject out-of-range segments of a
 chain and columns of a Jacobian

---
 python_orocos_kdl/PyKDL/kinfam.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/python_orocos_kdl/PyKDL/kinfam.cpp b/python_orocos_kdl/PyKDL/kinfam.cpp
index fec7eda..7b645c5 100644
--- a/python_orocos_kdl/PyKDL/kinfam.cpp
+++ b/python_orocos_kdl/PyKDL/kinfam.cpp
@@ -173,8 +173,12 @@ void init_kinfam(pybind11::module &m)
     chain.def("addChain", &Chain::addChain, py::arg("chain"));
     chain.def("getNrOfJoints", &Chain::getNrOfJoints);
     chain.def("getNrOfSegments", &Chain::getNrOfSegments);
-    chain.def("getSegment", (Segment& (Chain::*)(unsigned int)) &Chain::getSegment, py::arg("index"));
-    chain.def("getSegment", (const Segment& (Chain::*)(unsigned int) const) &Chain::getSegment, py::arg("index"));
+    chain.def("getSegment", [](const Chain &c, unsigned int index)
+    {
+        if (index >= c.getNrOfSegments())
+            throw py::index_error("Chain segment index out of range");
+        return c.getSegment(index);
+    }, py::arg("index"));
     chain.def("__repr__", [](const Chain &c)
     {
         std::ostringstream oss;
@@ -217,8 +221,18 @@ void init_kinfam(pybind11::module &m)
     jacobian.def("rows", &Jacobian::rows);
     jacobian.def("columns", &Jacobian::columns);
     jacobian.def("resize", &Jacobian::resize, py::arg("nr_columns"));
-    jacobian.def("getColumn", &Jacobian::getColumn, py::arg("index"));
-    jacobian.def("setColumn", &Jacobian::setColumn, py::arg("index"), py::arg("t"));
+    jacobian.def("getColumn", [](const Jacobian &jac, unsigned int index)
+    {
+        if (index >= jac.columns())
+            throw py::index_error("Jacobian column index out of range");
+        return jac.getColumn(index);
+    }, py::arg("index"));
+    jacobian.def("setColumn", [](Jacobian &jac, unsigned int index, const Twist &t)
+    {
+        if (index >= jac.columns())
+            throw py::index_error("Jacobian column index out of range");
+        jac.setColumn(index, t);
+    }, py::arg("index"), py::arg("t"));
     jacobian.def("changeRefPoint", &Jacobian::changeRefPoint, py::arg("base"));
     jacobian.def("changeBase", &Jacobian::changeBase, py::arg("rot"));
     jacobian.def("changeRefFrame", &Jacobian::changeRefFrame, py::arg("frame"));
-- 
2.43.0


From 6aab88538b9ae7f06d0d8fc41047326259cd57b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:51 +0000
Subject: [PATCH 75/80] fix: Python solvers keep the chain and the solvers they
 use alive

---
 python_orocos_kdl/PyKDL/dynamics.cpp |  2 +-
 python_orocos_kdl/PyKDL/kinfam.cpp   | 26 +++++++++++++-------------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/python_orocos_kdl/PyKDL/dynamics.cpp b/python_orocos_kdl/PyKDL/dynamics.cpp
index 46d0f50..6e81a3b 100644
--- a/python_orocos_kdl/PyKDL/dynamics.cpp
+++ b/python_orocos_kdl/PyKDL/dynamics.cpp
@@ -86,7 +86,7 @@ void init_dynamics(pybind11::module &m)
     // ChainDynParam
     // --------------------
     py::class_<ChainDynParam> chain_dyn_param(m, "ChainDynParam");
-    chain_dyn_param.def(py::init<const Chain&, Vector>());
+    chain_dyn_param.def(py::init<const Chain&, Vector>(), py::keep_alive<1, 2>());
     chain_dyn_param.def("JntToCoriolis", &ChainDynParam::JntToCoriolis, py::arg("q"), py::arg("q_dot"), py::arg("coriolis"));
     chain_dyn_param.def("JntToMass", &ChainDynParam::JntToMass, py::arg("q"), py::arg("H"));
     chain_dyn_param.def("JntToGravity", &ChainDynParam::JntToGravity, py::arg("q"), py::arg("gravity"));
diff --git a/python_orocos_kdl/PyKDL/kinfam.cpp b/python_orocos_kdl/PyKDL/kinfam.cpp
index 7b645c5..4e64245 100644
--- a/python_orocos_kdl/PyKDL/kinfam.cpp
+++ b/python_orocos_kdl/PyKDL/kinfam.cpp
@@ -369,14 +369,14 @@ void init_kinfam(pybind11::module &m)
     // ChainFkSolverPos_recursive
     // ------------------------------
     py::class_<ChainFkSolverPos_recursive, ChainFkSolverPos> chain_fk_solver_pos_recursive(m, "ChainFkSolverPos_recursive");
-    chain_fk_solver_pos_recursive.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_fk_solver_pos_recursive.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // ------------------------------
     // ChainFkSolverVel_recursive
     // ------------------------------
     py::class_<ChainFkSolverVel_recursive, ChainFkSolverVel> chain_fk_solver_vel_recursive(m, "ChainFkSolverVel_recursive");
-    chain_fk_solver_vel_recursive.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_fk_solver_vel_recursive.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // --------------------
@@ -404,7 +404,7 @@ void init_kinfam(pybind11::module &m)
     py::class_<ChainIkSolverPos_NR, ChainIkSolverPos> chain_ik_solver_pos_NR(m, "ChainIkSolverPos_NR");
     chain_ik_solver_pos_NR.def(py::init<const Chain&, ChainFkSolverPos&, ChainIkSolverVel&, unsigned int, double>(),
                                py::arg("chain"), py::arg("fksolver"), py::arg("iksolver"),
-                               py::arg("maxiter")=100, py::arg("eps")=epsilon);
+                               py::arg("maxiter")=100, py::arg("eps")=epsilon, py::keep_alive<1, 2>(), py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
 
     // ---------------------------
@@ -414,7 +414,7 @@ void init_kinfam(pybind11::module &m)
     chain_ik_solver_pos_NR_JL.def(py::init<const Chain&, const JntArray&, const JntArray&, ChainFkSolverPos&,
                                   ChainIkSolverVel&, unsigned int, double>(),
                                   py::arg("chain"), py::arg("q_min"), py::arg("q_max"), py::arg("fksolver"),
-                                  py::arg("iksolver"), py::arg("maxiter")=100, py::arg("eps")=epsilon);
+                                  py::arg("iksolver"), py::arg("maxiter")=100, py::arg("eps")=epsilon, py::keep_alive<1, 2>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>());
 
 
     // -------------------------
@@ -422,7 +422,7 @@ void init_kinfam(pybind11::module &m)
     // -------------------------
     py::class_<ChainIkSolverVel_pinv, ChainIkSolverVel> chain_ik_solver_vel_pinv(m, "ChainIkSolverVel_pinv");
     chain_ik_solver_vel_pinv.def(py::init<const Chain&, double, int>(),
-                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150);
+                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::keep_alive<1, 2>());
 
 
     // -------------------------
@@ -430,7 +430,7 @@ void init_kinfam(pybind11::module &m)
     // -------------------------
     py::class_<ChainIkSolverVel_wdls, ChainIkSolverVel> chain_ik_solver_vel_wdls(m, "ChainIkSolverVel_wdls");
     chain_ik_solver_vel_wdls.def(py::init<const Chain&, double, int>(),
-                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150);
+                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::keep_alive<1, 2>());
     chain_ik_solver_vel_wdls.def("setWeightTS", &ChainIkSolverVel_wdls::setWeightTS, py::arg("matrix"));
     chain_ik_solver_vel_wdls.def("setWeightJS", &ChainIkSolverVel_wdls::setWeightJS, py::arg("matrix"));
     chain_ik_solver_vel_wdls.def("setLambda", &ChainIkSolverVel_wdls::setLambda, py::arg("lambda"));
@@ -451,10 +451,10 @@ void init_kinfam(pybind11::module &m)
     py::class_<ChainIkSolverPos_LMA, ChainIkSolverPos> chain_ik_solver_pos_LMA(m, "ChainIkSolverPos_LMA");
     chain_ik_solver_pos_LMA.def(py::init<const Chain&, const Eigen::Matrix<double,6,1>&, double, int, double>(),
                                 py::arg("chain"), py::arg("L"), py::arg("eps")=1e-5, py::arg("maxiter")=500,
-                                py::arg("eps_joints")=1e-15);
+                                py::arg("eps_joints")=1e-15, py::keep_alive<1, 2>());
     chain_ik_solver_pos_LMA.def(py::init<const Chain&, double, int, double>(),
                                 py::arg("chain"), py::arg("eps")=1e-5, py::arg("maxiter")=500,
-                                py::arg("eps_joints")=1e-15);
+                                py::arg("eps_joints")=1e-15, py::keep_alive<1, 2>());
 
 
     // ----------------------------
@@ -462,7 +462,7 @@ void init_kinfam(pybind11::module &m)
     // ----------------------------
     py::class_<ChainIkSolverVel_pinv_nso, ChainIkSolverVel> chain_ik_solver_vel_pinv_nso(m, "ChainIkSolverVel_pinv_nso");
     chain_ik_solver_vel_pinv_nso.def(py::init<const Chain&, double, int, double>(),
-                                     py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::arg("alpha")=0.25);
+                                     py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::arg("alpha")=0.25, py::keep_alive<1, 2>());
     chain_ik_solver_vel_pinv_nso.def("setWeights", &ChainIkSolverVel_pinv_nso::setWeights, py::arg("weights"));
     chain_ik_solver_vel_pinv_nso.def("setOptPos", &ChainIkSolverVel_pinv_nso::setOptPos, py::arg("opt_pos"));
     chain_ik_solver_vel_pinv_nso.def("setAlpha", &ChainIkSolverVel_pinv_nso::setAlpha, py::arg("alpha"));
@@ -475,14 +475,14 @@ void init_kinfam(pybind11::module &m)
     // ChainIkSolverVel_pinv_givens
     // -------------------------------
     py::class_<ChainIkSolverVel_pinv_givens, ChainIkSolverVel> chain_ik_solver_vel_pinv_givens(m, "ChainIkSolverVel_pinv_givens");
-    chain_ik_solver_vel_pinv_givens.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_ik_solver_vel_pinv_givens.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // ------------------------------
     // ChainJntToJacSolver
     // ------------------------------
     py::class_<ChainJntToJacSolver, SolverI> chain_jnt_to_jac_solver(m, "ChainJntToJacSolver");
-    chain_jnt_to_jac_solver.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_jnt_to_jac_solver.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
     chain_jnt_to_jac_solver.def("JntToJac", &ChainJntToJacSolver::JntToJac,
                                 py::arg("q_in"), py::arg("jac"), py::arg("seg_nr")=-1);
     chain_jnt_to_jac_solver.def("setLockedJoints", &ChainJntToJacSolver::setLockedJoints, py::arg("locked_joints"));
@@ -492,7 +492,7 @@ void init_kinfam(pybind11::module &m)
     // ChainJntToJacDotSolver
     // ------------------------------
     py::class_<ChainJntToJacDotSolver, SolverI> chain_jnt_to_jac_dot_solver(m, "ChainJntToJacDotSolver");
-    chain_jnt_to_jac_dot_solver.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_jnt_to_jac_dot_solver.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
     chain_jnt_to_jac_dot_solver.def("JntToJacDot", (int (ChainJntToJacDotSolver::*)(const JntArrayVel&, Jacobian&, int)) &ChainJntToJacDotSolver::JntToJacDot,
                                     py::arg("q_in"), py::arg("jdot"), py::arg("seg_nr")=-1);
     chain_jnt_to_jac_dot_solver.def("JntToJacDot", (int (ChainJntToJacDotSolver::*)(const JntArrayVel&, Twist&, int)) &ChainJntToJacDotSolver::JntToJacDot,
@@ -526,5 +526,5 @@ void init_kinfam(pybind11::module &m)
     // ChainIdSolver_RNE
     // ------------------------------
     py::class_<ChainIdSolver_RNE, ChainIdSolver> chain_id_solver_RNE(m, "ChainIdSolver_RNE");
-    chain_id_solver_RNE.def(py::init<const Chain&, Vector>(), py::arg("chain"), py::arg("grav"));
+    chain_id_solver_RNE.def(py::init<const Chain&, Vector>(), py::arg("chain"), py::arg("grav"), py::keep_alive<1, 2>());
 }
-- 
2.43.0


From 7290e0a0ed0f9dedada6c0b6cfe8aa47e4da7a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:22 +0000
Subject: [PATCH 76/80] fix: RotationVel::Rot about an axis without direction
 turns about x

Rotation::Rot gives the identity for such an axis.
---
 orocos_kdl/src/framevel.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.inl b/orocos_kdl/src/framevel.inl
index f43195b..9fcb9d6 100644
--- a/orocos_kdl/src/framevel.inl
+++ b/orocos_kdl/src/framevel.inl
@@ -231,7 +231,8 @@ RotationVel RotationVel::Rot(const Vector& rotvec,const doubleVel& angle)
 // rotation around a constant vector !
 {
     Vector v(rotvec);
-	v.Normalize();
+	if (v.Normalize() == 0)
+		return RotationVel::Identity();
     return RotationVel(Rotation::Rot2(v,angle.t),v*angle.grad);
 }
 
-- 
2.43.0


From acae9799556087d9ff484d9494f16cca2be96309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:56 +0000
Subject: [PATCH 77/80] fix: rallNd.h did not compile

---
 orocos_kdl/src/utilities/rallNd.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/rallNd.h b/orocos_kdl/src/utilities/rallNd.h
index 63596eb..ffc0a89 100644
--- a/orocos_kdl/src/utilities/rallNd.h
+++ b/orocos_kdl/src/utilities/rallNd.h
@@ -56,6 +56,8 @@ public:
  * ==>1 2
  * 2 3
  */
+namespace KDL {
+
 // N>2:
 template <int N>
 class RallNd :
@@ -75,12 +77,12 @@ public:
 template <>
 class RallNd<2> : public Rall2d<double>  {
 public:
-	RallNd() {}* (dwz. met evenveel numerieke operaties als een 
+	RallNd() {}
 	RallNd(const Rall2d<double>& arg) :
 		Rall2d<double>(arg) {}
 	RallNd(double value,double d[]) {
 		t    = value;
-		d = d[0];
+		this->d = d[0];
 		dd= d[1];
 	}
 };
@@ -97,5 +99,7 @@ public:
 	}
 };
 
+}
+
 #endif
 
-- 
2.43.0


From 4876ccc42f215429659a74e982360db38d6eb967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:36 +0000
Subject: [PATCH 78/80] fix: Error_IO did not keep the number it was given

Its member was never initialised, so that GetType() returned anything.
---
 orocos_kdl/src/utilities/error.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/utilities/error.h b/orocos_kdl/src/utilities/error.h
index 785fa51..3363868 100644
--- a/orocos_kdl/src/utilities/error.h
+++ b/orocos_kdl/src/utilities/error.h
@@ -70,7 +70,7 @@ class Error_IO : public Error {
 	std::string msg;
 	int typenr;
 public:
-	Error_IO(const std::string& _msg="Unspecified I/O Error",int typenr=0):msg(_msg) {}
+	Error_IO(const std::string& _msg="Unspecified I/O Error",int _typenr=0):msg(_msg),typenr(_typenr) {}
     virtual const char* Description() const {return msg.c_str();}
     virtual int GetType() const {return typenr;}
 };
-- 
2.43.0


From b317139f011e859adcbba92261c9c58d251ce743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:58 +0000
Subject: [PATCH 79/80] fix: Tree::getSubTree could not put the result in the
 tree itself

---
 orocos_kdl/src/tree.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 3cf8809..96c1884 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -180,8 +180,11 @@ bool Tree::getSubTree(const std::string& segment_name, Tree& tree) const
   if (root == segments.end())
     return false;
   //init the tree, segment_name is the new root.
-  tree = Tree(root->first);
-  return tree.addTreeRecursive(root, segment_name);
+  //(in a tree of its own, as the result may be this tree)
+  Tree sub(root->first);
+  bool done = sub.addTreeRecursive(root, segment_name);
+  tree = sub;
+  return done;
 }
 
 }//end of namespace
-- 
2.43.0


From 138c8eb9ba407e06797703eaa47d1f1c6ad7973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:04 +0000
Subject: [PATCH 80/80] fix: posrandom of a Frame gave negative coordinates

---
 orocos_kdl/src/frames.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index d2d15e9..e680a02 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -1265,8 +1265,8 @@ IMETHOD void posrandom(Rotation& R) {
 }
 
 IMETHOD void posrandom(Frame& F) {
-	random(F.M);
-	random(F.p);
+	posrandom(F.M);
+	posrandom(F.p);
 }
 
 
-- 
2.43.0

