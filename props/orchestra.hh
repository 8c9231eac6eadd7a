// Links and nodes that only record when they are asked to compute, move and integrate their flows.
#include "core/GunnsBasicLink.hh"
#include "core/GunnsBasicNode.hh"
struct GcvClock { int now; };
class GcvLink : public GunnsBasicLink {
    public:
        GcvClock* mClock;
        int mFlow[3], mComputes, mComputed, mMoves, mMoved;
        GcvLink() : GunnsBasicLink(2), mClock(0), mFlow(), mComputes(0), mComputed(0), mMoves(0), mMoved(0) {}
        virtual ~GcvLink() {}
        virtual void computeFlows(const double) {
            for (int i=0; i<mNumPorts; ++i) mPortDirections[i] = static_cast<PortDirection>(mFlow[i]);
            ++mComputes; mComputed = ++mClock->now;
        }
        virtual void transportFlows(const double) { ++mMoves; mMoved = ++mClock->now; }
};
class GcvNode : public GunnsBasicNode {
    public:
        GcvClock* mClock;
        bool mOver;
        mutable int mJudged;
        int mIntegrations, mIntegrated;
        GcvNode() : GunnsBasicNode(), mClock(0), mOver(false), mJudged(0), mIntegrations(0), mIntegrated(0) {}
        virtual ~GcvNode() {}
        virtual bool isOverflowing(const double) const { mJudged = ++mClock->now; return mOver; }
        virtual void integrateFlows(const double) { ++mIntegrations; mIntegrated = ++mClock->now; }
};
inline GcvLink* make_GcvLink() {return new GcvLink();}
inline GcvNode* make_GcvNode() {return new GcvNode();}
