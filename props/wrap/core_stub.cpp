// Most general link for the network contracts: every answer a link may give to the solver is read from a field that the contract
// leaves unconstrained; ghost counters record what the solver asked for.  Derives from the real class, so virtual dispatch, node
// maps and vectors are the real ones.
#include "core/GunnsBasicLink.hh"
#include "core/GunnsBasicFlowOrchestrator.hh"
#include "core/Gunns.hh"

class GcvLink : public GunnsBasicLink
{
    public:
        GcvLink() : GunnsBasicLink(2) {}
        virtual ~GcvLink() {}
        bool   gNonLinear;
        bool   gNeed;
        bool   gResetOk;
        int    gResult[8];        // acceptance answer, by absolute minor step
        double gSource[8][2];     // source vector of this link, by minor step
        double gAdmit[8][4];      // admittance matrix of this link, by minor step
        int    gSteps, gMinors, gConfirms, gResets, gInputs, gOutputs, gFlows;
        double gSeen[2];          // potentials seen at the last acceptance question
        virtual void step(const double) {
            ++gSteps;
            for (int i = 0; i < 2; ++i) mSourceVector[i] = gSource[1][i];
            for (int i = 0; i < 4; ++i) mAdmittanceMatrix[i] = gAdmit[1][i];
        }
        virtual void minorStep(const double, const int minor) {
            ++gMinors;
            for (int i = 0; i < 2; ++i) mSourceVector[i] = gSource[minor & 7][i];
            for (int i = 0; i < 4; ++i) mAdmittanceMatrix[i] = gAdmit[minor & 7][i];
        }
        virtual bool needAdmittanceUpdate() { return gNeed; }
        virtual bool isNonLinear()          { return gNonLinear; }
        virtual SolutionResult confirmSolutionAcceptable(const int, const int absoluteStep) {
            ++gConfirms;
            gSeen[0] = mPotentialVector[0];
            gSeen[1] = mPotentialVector[1];
            return static_cast<SolutionResult>(gResult[absoluteStep & 7]);
        }
        virtual bool resetLastMinorStep(const int, const int) { ++gResets; return gResetOk; }
        virtual void processInputs()                { ++gInputs; }
        virtual void processOutputs()               { ++gOutputs; }
        virtual void computeFlows(const double)     { ++gFlows; }
        virtual void restartModel()                 {}
};

void gcv_use_link(GcvLink& l) { new GcvLink(); }
