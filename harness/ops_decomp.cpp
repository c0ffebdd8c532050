// Matrix decompositions.
#include "mech.hpp"
#include <utilities/ldl_solver_eigen.hpp>
#include <utilities/svd_HH.hpp>
#include <utilities/svd_eigen_HH.hpp>
#include <utilities/svd_eigen_Macie.hpp>
using namespace KDL;

namespace {
Eigen::MatrixXd matrix(const J& j, int cols) {
    Eigen::MatrixXd m(j.size(), cols);
    for (int i = 0; i < m.rows(); ++i) for (int k = 0; k < cols; ++k) m(i, k) = j[i][k].num();
    return m;
}
Eigen::VectorXd vector(const J& j) {
    Eigen::VectorXd v(j.size());
    for (int i = 0; i < v.size(); ++i) v(i) = j[i].num();
    return v;
}
J rows(const std::vector<JntArray>& u) {
    J r = J::arr();
    for (size_t i = 0; i < u.size(); ++i) r.push(js(u[i]));
    return r;
}
}
// a: matrices of one shape, columns, allowed iterations (negative: the default), what the results hold before
OP("d.svd") {
    const int cols = a[1].integer(), n = a[0].size(), m = n ? a[0][0].size() : 0;
    const double before = a[3].num();
    Eigen::MatrixXd U = Eigen::MatrixXd::Constant(m, cols, before), V = Eigen::MatrixXd::Constant(cols, cols, before);
    Eigen::VectorXd S = Eigen::VectorXd::Constant(cols, before), tmp = Eigen::VectorXd::Constant(cols, before);
    J r = J::arr();
    for (int i = 0; i < n; ++i) {
        Eigen::MatrixXd A = matrix(a[0][i], cols), A0 = A;
        int rc = a[2].integer() < 0 ? svd_eigen_HH(A, U, S, V, tmp) : svd_eigen_HH(A, U, S, V, tmp, a[2].integer());
        r.push(ret(rc, js(U), js(S), js(V), A == A0));
    }
    return r;
}
// a: Jacobians (6 rows) of as many columns, columns, allowed iterations, what the results hold before
OP("d.svdjac") {
    const int cols = a[1].integer();
    std::vector<JntArray> U(6, JntArray(cols)), V(cols, JntArray(cols));
    JntArray S(cols);
    for (int k = 0; k < cols; ++k) { for (auto& u : U) u(k) = a[3].num(); for (auto& v : V) v(k) = a[3].num(); S(k) = a[3].num(); }
    Jacobian first(cols);
    SVD_HH svd(first);
    J r = J::arr();
    for (size_t i = 0; i < a[0].size(); ++i) {
        Jacobian jac(cols);
        jac.data = matrix(a[0][i], cols);
        Jacobian jac0(jac);
        int rc = svd.calculate(jac, U, S, V, a[2].integer());
        r.push(ret(rc, rows(U), S, rows(V), jac.data == jac0.data));
    }
    return r;
}
// a: matrices of one shape, columns, start with U, V, threshold, from the right?
OP("d.macie") {
    const int cols = a[1].integer(), n = a[0].size(), m = n ? a[0][0].size() : 0;
    Eigen::MatrixXd U = matrix(a[2], m), V = matrix(a[3], cols), B(m, cols);
    Eigen::VectorXd S = Eigen::VectorXd::Constant(cols, 7), tempi = Eigen::VectorXd::Constant(m, 7);
    // S has as many elements as U has rows: what is beyond the columns is not documented
    J r = J::arr();
    for (int i = 0; i < n; ++i) {
        Eigen::MatrixXd A = matrix(a[0][i], cols), A0 = A;
        int rc = svd_eigen_Macie(A, U, S, V, B, tempi, a[4].num(), a[5].boolean());
        r.push(ret(rc, js(U), js(S), js(V), A == A0));
    }
    return r;
}
// a: matrix, right-hand side, sizes [L rows, L cols, D, tmp, q], what they hold before
OP("d.ldl") {
    Eigen::MatrixXd A = matrix(a[0], a[0].size() ? a[0][0].size() : 0), A0 = A;
    Eigen::VectorXd v = vector(a[1]), v0 = v;
    const double before = a[3].num();
    Eigen::MatrixXd L = Eigen::MatrixXd::Constant(a[2][0].integer(), a[2][1].integer(), before);
    Eigen::VectorXd D = Eigen::VectorXd::Constant(a[2][2].integer(), before), tmp = Eigen::VectorXd::Constant(a[2][3].integer(), before),
                    q = Eigen::VectorXd::Constant(a[2][4].integer(), before);
    int rc = ldl_solver_eigen(A, v, L, D, tmp, q);
    return ret(rc, js(L), js(D), js(q), A == A0 && v == v0);
}
