// Declarations of the interface of qpmad which the bridge uses (the library
// is not installed here).  Only parsed, never compiled to code.
#pragma once
#include <Eigen/Core>
namespace qpmad
{
    class SolverParameters
    {
        public:
            enum HessianType { UNDEFINED = 0, HESSIAN_LOWER_TRIANGULAR = 1, HESSIAN_CHOLESKY_FACTOR = 2 };
            HessianType hessian_type_;
            double tolerance_;
            int max_iter_;
            SolverParameters();
    };
    class Solver
    {
        public:
            enum ReturnStatus { OK = 0, INFEASIBLE_EQUALITY = 1, INFEASIBLE_INEQUALITY = 2, MAXIMAL_NUMBER_OF_ITERATIONS = 3 };
            ReturnStatus solve(Eigen::VectorXd &primal, Eigen::MatrixXd &H, const Eigen::VectorXd &h, const Eigen::VectorXd &lb, const Eigen::VectorXd &ub,
                               const Eigen::MatrixXd &A, const Eigen::VectorXd &Alb, const Eigen::VectorXd &Aub);
            ReturnStatus solve(Eigen::VectorXd &primal, Eigen::MatrixXd &H, const Eigen::VectorXd &h, const Eigen::VectorXd &lb, const Eigen::VectorXd &ub,
                               const Eigen::MatrixXd &A, const Eigen::VectorXd &Alb, const Eigen::VectorXd &Aub, const SolverParameters &parameters);
    };
}
