// Concrete plugs over lists of three sockets, as the network managers generated by GunnShow define
// them: they only store the enumerated values that the abstract interface reads and writes.
#include "core/GunnsBasicJumperPlug.hh"
#include "core/GunnsFluidJumperPlug.hh"
#define GCV_PLUG(NAME, BASE)                                                        \
    class NAME : public BASE {                                                      \
        public:                                                                     \
            int mActive, mLast, mConnect, mDisconnect, mNone;                       \
            NAME() : BASE("", 3), mActive(3), mLast(3), mConnect(3), mDisconnect(3), mNone(3) {} \
            virtual ~NAME() {}                                                      \
            virtual void setActiveConnection(const int i) {mActive = i;}            \
            virtual void setLastDisconnection(const int i) {mLast = i;}             \
            virtual void setConnectionRequest(const int i) {mConnect = i;}          \
            virtual void setDisconnectionRequest(const int i) {mDisconnect = i;}    \
            virtual int getActiveConnection() {return mActive;}                     \
            virtual int getLastDisconnection() {return mLast;}                      \
            virtual int getConnectionRequest() {return mConnect;}                   \
            virtual int getDisconnectionRequest() {return mDisconnect;}             \
            virtual int getNoConnection() {return mNone;}                           \
    };                                                                              \
    inline NAME* make_##NAME() {return new NAME();}
GCV_PLUG(GcvBasicPlug, GunnsBasicJumperPlug)
GCV_PLUG(GcvFluidPlug, GunnsFluidJumperPlug)
