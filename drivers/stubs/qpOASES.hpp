// Declarations of the interface of qpOASES which the bridge uses (the library
// is not installed here).  Only parsed, never compiled to code.
#pragma once
namespace qpOASES
{
    typedef double real_t;
    typedef int int_t;
    enum BooleanType { BT_FALSE, BT_TRUE };
    enum HessianType { HST_ZERO, HST_IDENTITY, HST_POSDEF, HST_POSDEF_NULLSPACE, HST_SEMIDEF, HST_INDEF, HST_UNKNOWN };
    enum SubjectToStatus { ST_LOWER = -1, ST_INACTIVE = 0, ST_UPPER = 1, ST_INFEASIBLE_LOWER = 2, ST_INFEASIBLE_UPPER = 3, ST_UNDEFINED = 4 };
    enum returnValue { TERMINAL_LIST_ELEMENT = -1, SUCCESSFUL_RETURN = 0, RET_DIV_BY_ZERO = 1, RET_INIT_FAILED = 33, RET_INIT_FAILED_INFEASIBILITY = 37,
                       RET_INIT_FAILED_UNBOUNDEDNESS = 38, RET_MAX_NWSR_REACHED = 64 };
    class Options
    {
        public:
            Options();
            returnValue setToMPC();
            returnValue setToDefault();
            BooleanType enableRamping, enableFarBounds, enableFlippingBounds, enableRegularisation, enableFullLITests, enableNZCTests;
            int_t enableDriftCorrection, enableCholeskyRefactorisation;
            BooleanType enableEqualities;
            real_t terminationTolerance, boundTolerance, boundRelaxation, epsNum, epsDen, maxPrimalJump, maxDualJump,
                   initialRamping, finalRamping, initialFarBounds, growFarBounds;
            SubjectToStatus initialStatusBounds;
            real_t epsFlipping;
            int_t numRegularisationSteps;
            real_t epsRegularisation;
            int_t numRefinementSteps;
            real_t epsIterRef, epsLITests, epsNZCTests, rcondSMin;
            BooleanType enableInertiaCorrection, enableDropInfeasibles;
            int_t dropBoundPriority, dropEqConPriority, dropIneqConPriority;
    };
    class Bounds
    {
        public:
            Bounds();
            returnValue init(int_t n);
            returnValue setupBound(int_t number, SubjectToStatus status);
            returnValue setupAllFree();
            returnValue setupAllLower();
            returnValue setupAllUpper();
    };
    class Constraints
    {
        public:
            Constraints();
            returnValue init(int_t n);
            returnValue setupConstraint(int_t number, SubjectToStatus status);
            returnValue setupAllInactive();
    };
    class QProblem
    {
        public:
            QProblem(int_t nV, int_t nC, HessianType type = HST_UNKNOWN);
            virtual ~QProblem();
            returnValue setOptions(const Options &options);
            returnValue init(const real_t *H, const real_t *g, const real_t *A, const real_t *lb, const real_t *ub, const real_t *lbA, const real_t *ubA,
                             int_t &nWSR, real_t *cputime = 0, const real_t *xOpt = 0, const real_t *yOpt = 0,
                             const Bounds *guessedBounds = 0, const Constraints *guessedConstraints = 0, const real_t *R = 0);
            returnValue getPrimalSolution(real_t *xOpt) const;
            returnValue getDualSolution(real_t *yOpt) const;
            returnValue getWorkingSetBounds(real_t *workingSet);
            returnValue getWorkingSetConstraints(real_t *workingSet);
    };
    class MessageHandling
    {
        public:
            static const char *getErrorCodeMessage(const returnValue value);
    };
}
