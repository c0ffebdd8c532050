// What the groups of operations on paths and trajectories share.
#pragma once
#include "driver.hpp"
#include <path.hpp>
#include <rotational_interpolation.hpp>
#include <trajectory.hpp>
#include <velocityprofile.hpp>

// What those who use it do not own.
struct Kept {
    std::vector<std::unique_ptr<KDL::RotationalInterpolation>> orients;
    std::vector<std::unique_ptr<KDL::Path>> parts;       // of composites, which clones do not share
    std::vector<std::unique_ptr<KDL::Path>> paths;       // of trajectories, which clones share
    std::vector<std::unique_ptr<KDL::VelocityProfile>> profiles;
};
KDL::Path* build(const J& x, Kept& kept, J& errors);            // from expressions
KDL::Trajectory* buildTraj(const J& x, Kept& kept);
KDL::VelocityProfile* newProfile(const std::string& kind, const J& limits);
J look(KDL::Path& p, const J& a, const J& errors);              // what is seen of them
J lookTraj(const KDL::Trajectory& t, const J& a);
J lookProfile(const KDL::VelocityProfile& p, const J& a);
