// Driver translation unit: pulls every analysable header of the repository
// into one resolved program and names the template instances the library is
// used with.  Never compiled to code, never run: only parsed.
#define HUMOTO_GLOBAL_LOGGER_ENABLED
#include "humoto/config_msgpack.h"
#include "humoto/humoto.h"
#include "humoto/kktsolver.h"
#include "humoto/rigid_body.h"
#include "humoto/walking.h"
#include "humoto/wpg04.h"
#include "humoto/pepper_mpc.h"
#include "humoto/obstacle_avoidance.h"
#include "humoto/qpoases.h"
#include "humoto/qpmad.h"
#include "humoto/quadprogpp.h"
HUMOTO_INITIALIZE_GLOBAL_LOGGER(std::cout);

namespace sa_driver
{
#define SA_TASK(T) \
    struct T : public humoto::T \
    { \
        T() : humoto::T("t") {} \
        void form(const humoto::SolutionStructure &, const humoto::Model &, const humoto::ControlProblem &) {} \
    };
    SA_TASK(TaskALU) SA_TASK(TaskAL) SA_TASK(TaskAU) SA_TASK(TaskAB) SA_TASK(TaskAB0)
    SA_TASK(TaskASLU) SA_TASK(TaskASL) SA_TASK(TaskASU) SA_TASK(TaskASB) SA_TASK(TaskASB0)
    SA_TASK(TaskGILU) SA_TASK(TaskGIL) SA_TASK(TaskGIU) SA_TASK(TaskGIB) SA_TASK(TaskGIB0)
    SA_TASK(TaskILU) SA_TASK(TaskIL) SA_TASK(TaskIU) SA_TASK(TaskIB) SA_TASK(TaskIB0)
#undef SA_TASK

    typedef humoto::config::msgpack::Reader Reader;
    typedef humoto::config::msgpack::Writer Writer;

    template <class T> void roundtrip(T &x)
    {
        x.template writeConfig<Writer>("a");
        x.template readConfig<Reader>("a");
    }

    inline void formats(Reader &r, Writer &w, Eigen::MatrixXd &m, etools::Matrix2x3 &m23, etools::Matrix2 &m2, Eigen::VectorXd &v, etools::Vector3 &v3,
                        std::vector<std::vector<std::string> > &ss, std::vector<double> &d, humoto::walking::StanceType::Type &e, bool &b, std::size_t &n, double &x, std::string &s)
    {
        w.writeCompound(m, "m"); r.readCompound(m, "m", true);
        w.writeCompound(m23, "m"); r.readCompound(m23, "m", true);
        w.writeCompound(m2, "m"); r.readCompound(m2, "m", true);
        w.writeCompound(v, "m"); r.readCompound(v, "m", true);
        w.writeCompound(v3, "m"); r.readCompound(v3, "m", true);
        w.writeCompound(ss, "m"); r.readCompound(ss, "m", true);
        w.writeCompound(d, "m"); r.readCompound(d, "m", true);
        w.writeEnum(e, "m"); r.readEnum(e, "m", true);
        w.writeScalar(b, "m"); r.readScalar(b, "m", true);
        w.writeScalar(n, "m"); r.readScalar(n, "m", true);
        w.writeScalar(x, "m"); r.readScalar(x, "m", true);
        w.writeScalar(s, "m"); r.readScalar(s, "m", true);
    }

    inline void tasks()
    {
        TaskALU a; TaskAL b; TaskAU c; TaskAB d; TaskAB0 e;
        TaskASLU f; TaskASL g; TaskASU h; TaskASB i; TaskASB0 j;
        TaskGILU k; TaskGIL l; TaskGIU m; TaskGIB n; TaskGIB0 o;
        TaskILU p; TaskIL q; TaskIU r; TaskIB s; TaskIB0 t;
    }

    inline void uses(humoto::walking::StanceFSMParameters &fsm,
                     humoto::Solution &solution,
                     humoto::ConfigurableOptimizationProblem &problem)
    {
        roundtrip(fsm);
        roundtrip(solution);
        roundtrip(problem);
    }
}

namespace sa_driver
{
    inline void containers(const Eigen::VectorXd &x)
    {
        using namespace humoto::constraints;
        humoto::constraints::ContainerALU alu; humoto::constraints::ContainerAL al;
        humoto::constraints::ContainerAB ab; humoto::constraints::ContainerILU ilu;
        alu.reset(1, 1); al.reset(1, 1); ab.reset(1, 1); ilu.reset(1, 1);
        alu.getA(); alu.getLowerBounds(); alu.getUpperBounds();
        al.getA(); al.getLowerBounds();
        ab.getA(); ab.getB();
        ilu.getIndices(); ilu.getLowerBounds(); ilu.getUpperBounds();
        const humoto::constraints::ContainerALU &calu = alu; const humoto::constraints::ContainerAL &cal = al;
        const humoto::constraints::ContainerAB &cab = ab; const humoto::constraints::ContainerILU &cilu = ilu;
        calu.getA(); calu.getLowerBounds(); calu.getUpperBounds();
        cal.getA(); cal.getLowerBounds();
        cab.getA(); cab.getB();
        cilu.getIndices(); cilu.getLowerBounds(); cilu.getUpperBounds();
    }

    inline void getters(const TaskALU &a, const TaskAL &b, const TaskAU &c, const TaskAB &d, const TaskAB0 &e,
        const TaskASLU &f, const TaskASL &g, const TaskASU &h, const TaskASB &i, const TaskASB0 &j,
        const TaskGILU &k, const TaskGIL &l, const TaskGIU &m, const TaskGIB &n, const TaskGIB0 &o,
        const TaskILU &p, const TaskIL &q, const TaskIU &r, const TaskIB &s, const TaskIB0 &t)
    {
#define SA_A(x) x.getA();
#define SA_S(x) x.getA(); x.getOffset();
#define SA_G(x) x.getIndices(); x.getIGains();
#define SA_I(x) x.getIndices();
#define SA_L(x) x.getLowerBounds();
#define SA_U(x) x.getUpperBounds();
#define SA_B(x) x.getB();
        SA_A(a) SA_A(b) SA_A(c) SA_A(d) SA_A(e)
        SA_S(f) SA_S(g) SA_S(h) SA_S(i) SA_S(j)
        SA_G(k) SA_G(l) SA_G(m) SA_G(n) SA_G(o)
        SA_I(p) SA_I(q) SA_I(r) SA_I(s) SA_I(t)
        SA_L(a) SA_U(a) SA_L(b) SA_U(c) SA_B(d)
        SA_L(f) SA_U(f) SA_L(g) SA_U(h) SA_B(i)
        SA_L(k) SA_U(k) SA_L(l) SA_U(m) SA_B(n)
        SA_L(p) SA_U(p) SA_L(q) SA_U(r) SA_B(s)
#undef SA_S
    }

    inline void problems(humoto::OptimizationProblem &problem, humoto::SolutionStructure &sol_structure)
    {
        humoto::QPProblem_AB a; humoto::QPProblem_AB_AL b; humoto::QPProblem_ILU_ALU c;
        problem.getQPProblem(a, sol_structure); problem.getQPProblem(b, sol_structure); problem.getQPProblem(c, sol_structure);
        humoto::kktsolver::Solver kkt; humoto::Solution sol; humoto::kktsolver::SolverParameters kp;
        kkt.solve(sol, problem); kkt.solve(sol, problem, kp); 
    }

    struct AnySolver : public humoto::QPSolverMixin< humoto::SolverGuessSolutionActiveSet<humoto::kktsolver::SolverParameters> >
    {
        void initialize(const humoto::OptimizationProblem &, const humoto::SolutionStructure &) {}
        void solveHierarchy(humoto::Solution &, const humoto::OptimizationProblem &) {}
        void setSolutionGuess(const humoto::Solution &) {}
        void setActiveSet(const humoto::ActiveSet &, const humoto::OptimizationProblem &) {}
        void getActiveSet(humoto::ActiveSet &, const humoto::OptimizationProblem &) {}
    };

    inline void solvers(humoto::OptimizationProblem &p, humoto::Solution &s, const humoto::Solution &g, humoto::ActiveSet &a, const humoto::ActiveSet &ag)
    {
        AnySolver x;
        humoto::kktsolver::SolverParameters kp;
        x.setParameters(kp);
        x.solve(s, p); x.solve(s, p, kp); x.solve(s, p, g); x.solve(s, a, p, ag); x.solve(s, p, ag); x.solve(s, a, p);
        x.solve(s, a, p, g, ag); x.solve(s, p, g, ag); x.solve(s, a, p, g);
    }
}

namespace sa_driver
{
    template <std::size_t N> void integrators(const double T, const double Ts)
    {
        typedef humoto::rigidbody::TripleIntegrator I;
        I::getAJerk<N>(T); I::getAAcc<N>(T); I::getAVel<N>(T); I::getAPos<N>(T);
        I::getAsAcc<N>(T, Ts); I::getAsVel<N>(T, Ts); I::getAsPos<N>(T, Ts);
        I::getBJerk<N>(T); I::getBAcc<N>(T); I::getBVel<N>(T); I::getBPos<N>(T);
        I::getBsAcc<N>(T, Ts); I::getBsVel<N>(T, Ts); I::getBsPos<N>(T, Ts);
        I::getDAcc<N>(T); I::getDVel<N>(T); I::getDPos<N>(T);
        I::getEAcc<N>(T); I::getEVel<N>(T); I::getEPos<N>(T);
    }

    inline void all_integrators()
    {
        integrators<1>(0.1, 0.1); integrators<2>(0.1, 0.1); integrators<3>(0.1, 0.1);
    }
}

namespace sa_driver
{
    // entries of the log
    inline void entries(humoto::Logger & logger, const humoto::LogEntryName & name, const std::string & text)
    {
        logger.log(name, std::vector<double>()); logger.log(name, text); logger.log(name, 1.0); logger.log(name, 1); logger.log(name, true);
        logger.log(name, Eigen::MatrixXd()); logger.log(name, Eigen::VectorXd()); logger.log(name, Eigen::Matrix3d()); logger.log(name, Eigen::Vector2d());
        logger.log(1.0); logger.log(1); logger.log(text); logger.log(Eigen::MatrixXd()); logger.log(Eigen::Matrix2d()); logger.log("text"); logger.log(name, "text");
    }
}

namespace sa_driver
{
    struct Condensing : public humoto::MPC
    {
        void log(humoto::Logger &, const humoto::LogEntryName &, const std::string &) const {}

        template <int V, int U, int Y> static void fixed()
        {
            std::vector< Eigen::Matrix<double, V, V> > A; std::vector< Eigen::Matrix<double, V, U> > B;
            std::vector< Eigen::Matrix<double, Y, V> > D; std::vector< Eigen::Matrix<double, Y, U> > E;
            etools::GenericBlockMatrix<V, V> Ux; etools::GenericBlockMatrix<Y, V> Ox;
            etools::LeftLowerTriangularBlockMatrix<V, U> Uu; etools::LeftLowerTriangularBlockMatrix<Y, U> Ou;
            condense(Ux, Uu, A, B);
            condenseOutput(Ox, Ou, D, E, Ux, Uu);
        }

        static void all()
        {
            fixed<3, 2, 2>(); fixed<2, 2, 3>();
            std::vector<Eigen::MatrixXd> M; Eigen::MatrixXd S, U, Ox, Ou;
            condense(S, U, M, M);
            condenseTimeInvariant(S, U, 3, S, U);
            condenseOutput(Ox, Ou, S, U, S, U);
            std::vector< Eigen::Matrix<double, 2, 3> > D;
            etools::GenericBlockMatrix<3, 3> Ux; etools::GenericBlockMatrix<2, 3> Oy;
            std::vector< etools::LeftLowerTriangularBlockMatrix<3, etools::MatrixBlockSizeType::DYNAMIC> > Uv;
            std::vector< etools::LeftLowerTriangularBlockMatrix<2, etools::MatrixBlockSizeType::DYNAMIC> > Ov;
            condenseOutput(Oy, Ov, D, M, Ux, Uv);
        }
    };
}

// all members of the block matrix classes, for blocks of fixed and run time sizes
#define SA_BLOCK_BASE(R, C) \
    template class etools::BlockMatrixAccessBase<etools::DefaultDynamicMatrix, R, C>; \
    template class etools::BlockMatrixSizeSpecificBase<etools::DefaultDynamicMatrix, R, C>;
#define SA_BLOCK(R, C, S, NAME) \
    template class etools::BlockMatrixBase<etools::DefaultDynamicMatrix, R, C, etools::MatrixSparsityType::S>; \
    template class etools::BlockMatrix<R, C, etools::MatrixSparsityType::S>; \
    template class etools::NAME<R, C>;
#define SA_BLOCKS(R, C) \
    SA_BLOCK_BASE(R, C) \
    SA_BLOCK(R, C, NONE, GenericBlockMatrix) \
    SA_BLOCK(R, C, DIAGONAL, DiagonalBlockMatrix) \
    SA_BLOCK(R, C, LEFT_LOWER_TRIANGULAR, LeftLowerTriangularBlockMatrix)
SA_BLOCKS(1, 1)
SA_BLOCKS(1, 3)
SA_BLOCKS(3, 1)
SA_BLOCKS(2, 2)
SA_BLOCKS(2, 3)
SA_BLOCKS(3, 2)
SA_BLOCKS(3, 3)
SA_BLOCKS(-1, -1)
SA_BLOCKS(2, -1)
SA_BLOCKS(3, -1)
SA_BLOCKS(-1, 2)
SA_BLOCKS(6, 2)

namespace sa_driver
{
    template <class BM> void block_products(BM &m, const Eigen::MatrixXd &x, const Eigen::VectorXd &v)
    {
        Eigen::MatrixXd out;
        m.set(x);
        out = m * x;
    }

    template <class BM> void block_selected(BM &m, Eigen::MatrixXd &x)
    {
        x = m.selectRowInBlocks(0).getRaw();
        x(0, 0) = m.selectRowInBlocks(0).getNumberOfBlocksVertical() + m.selectRowInBlocks(0).getNumberOfBlocksHorizontal()
                + m.selectRowInBlocks(0).getBlockRowsNum() + m.selectRowInBlocks(0).getBlockColsNum();
    }

    template <class K> void kronecker(K k, Eigen::MatrixXd &out)
    {
        k.evaluate();
        k.evaluate(out);
        k.evaluate(out.block(0, 0, 1, 1));
    }

    inline void blocks(Eigen::MatrixXd &x, const Eigen::VectorXd &v)
    {
#define SA_PRODUCTS(R, C) \
        { etools::GenericBlockMatrix<R, C> m; block_products(m, x, v); block_selected(m, x); kronecker(m.getBlockKroneckerProduct(2), x); \
          kronecker(etools::GenericBlockKroneckerProduct<R, C>(x, 2), x); } \
        { etools::DiagonalBlockMatrix<R, C> m; block_products(m, x, v); block_selected(m, x); kronecker(m.getBlockKroneckerProduct(2), x); \
          kronecker(etools::DiagonalBlockKroneckerProduct<R, C>(x, 2), x); } \
        { etools::LeftLowerTriangularBlockMatrix<R, C> m; block_products(m, x, v); block_selected(m, x); kronecker(m.getBlockKroneckerProduct(2), x); \
          kronecker(etools::LeftLowerTriangularBlockKroneckerProduct<R, C>(x, 2), x); }
        SA_PRODUCTS(1, 1)
        SA_PRODUCTS(1, 3)
        SA_PRODUCTS(3, 1)
        SA_PRODUCTS(2, 2)
        SA_PRODUCTS(2, 3)
        SA_PRODUCTS(3, 2);
        SA_PRODUCTS(3, 3);
        SA_PRODUCTS(6, 2);
        SA_PRODUCTS(-1, -1);
        SA_PRODUCTS(2, -1);
        SA_PRODUCTS(3, -1);
        SA_PRODUCTS(-1, 2);
        etools::GenericBlockMatrix<2, 3> g23; etools::LeftLowerTriangularBlockMatrix<2, 3> l23; etools::DiagonalBlockMatrix<2, 3> d23;
        etools::GenericBlockMatrix<3, 2> g32; etools::LeftLowerTriangularBlockMatrix<3, 2> l32; etools::DiagonalBlockMatrix<3, 2> d32;
        etools::GenericBlockMatrix<1, 1> g11; etools::LeftLowerTriangularBlockMatrix<1, 1> l11; etools::DiagonalBlockMatrix<1, 1> d11;
        etools::DiagonalBlockMatrix<2, 2> d22; etools::DiagonalBlockMatrix<2, 3> e23; etools::DiagonalBlockMatrix<6, 2> d62; etools::DiagonalBlockMatrix<1, 3> d13;
        Eigen::MatrixXd out;
        etools::GenericBlockMatrix<3, 1> g31; etools::LeftLowerTriangularBlockMatrix<3, 1> l31;
        out = g23 * d32;
        out = l23 * d32;
        out = d23 * g32;
        out = d23 * l32;
        out = d23 * d32;
        out = g11 * d11;
        out = l11 * d11;
        out = d11 * g11;
        out = d11 * l11;
        out = d11 * d13;
        out = d22 * d23;
        out = d22 * e23;
        out = g31.getBlockKroneckerProduct(2) * d22;
        out = g31.getBlockKroneckerProduct(2) * e23;
        out = l31.getBlockKroneckerProduct(2) * d22;
        out = l31.getBlockKroneckerProduct(2) * e23;
        out = g23.getBlockKroneckerProduct(2) * d62;
        out = l23.getBlockKroneckerProduct(2) * d62;
        out = g11.getBlockKroneckerProduct(2) * d22;
        out = l11.getBlockKroneckerProduct(2) * d22;
        out = d22 * l11.getBlockKroneckerProduct(2);
        out = g31.getBlockKroneckerProduct(2) * v;
        out = g23.getBlockKroneckerProduct(2) * v;
        out = g11.getBlockKroneckerProduct(2) * v;
    }

    inline void use_mobile(humoto::pepper_mpc::MPCforMG &mpc, humoto::pepper_mpc::Model &model, humoto::pepper_mpc::MotionParameters &motion, std::deque<humoto::pepper_mpc::MotionParameters> &deque)
    {
        mpc.update(motion, model);
        mpc.update(deque, model);
        mpc.updateAndShift(motion, model);
        mpc.updateAndShift(deque, model);
    }

    inline void use_eigentools(etools::DefaultDynamicMatrix &x, const etools::DefaultDynamicMatrix &a, const etools::DefaultDynamicMatrix &b, const etools::DefaultDynamicMatrix &c,
                               etools::Vector3 &v3, etools::Matrix3 &m3, etools::Vector2 &v2, etools::Matrix2 &m2, etools::Matrix3x4 &m34, Eigen::VectorXd &v)
    {
        etools::getATA(x, a);
        etools::getATA(x, a, 1, 4);
        etools::addATA(x, a);
        etools::addATA(x, a, 1);
        etools::convertLLTtoSymmetric(x);
        v3 = etools::transform(v3, m3, v3);
        v2 = etools::transform(v2, m2, v2);
        m34 = etools::transform(m34, m3, v3);
        std::vector<etools::DefaultDynamicMatrix> list;
        std::vector<etools::Matrix2> list2;
        x = etools::makeBlockDiagonal(list);
        x = etools::makeBlockDiagonal(list2);
        x = etools::makeBlockDiagonal(a, 3);
        etools::concatenateMatricesVertically(x, list);
        etools::concatenateMatricesHorizontally(x, a, b);
        etools::concatenateMatricesHorizontally(x, a, b, c);
        etools::removeRow(x, 1);
        etools::removeColumn(x, 1);
        x = etools::multiplyBlockKroneckerIdentity(a, 2, 3, 2);
        x = etools::selectRows(a, 2, 1);
        x = etools::SelectionMatrix(3, 1) * a;
        etools::unsetMatrix(x);
        m3 = etools::CrossProductMatrix::eval(v3);
        m3 = m3 * etools::CrossProductMatrix(v3);
        v3 = etools::CrossProductMatrix(v3) * v3;
    }

    inline void use_bridges(humoto::Solution &solution, humoto::Solution &guess, humoto::ActiveSet &as, humoto::OptimizationProblem &problem)
    {
        humoto::qpmad::Solver *qpmad_solver = 0;
        humoto::qpmad::SolverParameters *qpmad_parameters = 0;
        qpmad_solver->solve(solution, problem);
        qpmad_solver->solve(solution, problem, *qpmad_parameters);
        qpmad_solver->setParameters(*qpmad_parameters);
        humoto::quadprogpp::Solver *quadprogpp_solver = 0;
        humoto::quadprogpp::SolverParameters *quadprogpp_parameters = 0;
        quadprogpp_solver->solve(solution, problem);
        quadprogpp_solver->solve(solution, problem, *quadprogpp_parameters);
        quadprogpp_solver->setParameters(*quadprogpp_parameters);
        humoto::qpoases::Solver *qpoases_solver = 0;
        humoto::qpoases::SolverParameters *qpoases_parameters = 0;
        qpoases_solver->solve(solution, problem);
        qpoases_solver->solve(solution, problem, guess);
        qpoases_solver->solve(solution, as, problem, as);
        qpoases_solver->solve(solution, as, problem, guess, as);
        qpoases_solver->solve(solution, problem, *qpoases_parameters);
        qpoases_solver->setParameters(*qpoases_parameters);
    }
}
