// Declarations of the interface of QuadProg++ which the bridge uses (the
// library is not installed here).  Only parsed, never compiled to code.
#pragma once
#include <Eigen/Core>
namespace QuadProgpp
{
    class Status
    {
        public:
            enum Value { OK = 0, FAILURE = 1 };
    };
    class Solver
    {
        public:
            // min 0.5 x' G x + g0' x  subject to  CE' x + ce0 = 0,  CI' x + ci0 >= 0
            double solve(Eigen::MatrixXd &G, Eigen::VectorXd &g0, const Eigen::MatrixXd &CE, const Eigen::VectorXd &ce0,
                         const Eigen::MatrixXd &CI, const Eigen::VectorXd &ci0, Eigen::VectorXd &x);
    };
}
