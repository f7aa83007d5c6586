/* A module for the check of the module loader */
#include "testmod.h"

using namespace libube;

static int sSerial = 0;

class Teller : public Told
{
public:
    explicit Teller(var iArg)
    {
        mSerial = sSerial++;
        mArg = iArg;
        if (mArg)
            mArg["log"].push(mSerial);
    }
    ~Teller()
    {
        if (mArg)
            mArg["log"].push(-1 - mSerial);
    }
    int serial() { return mSerial; }
    var argument() { return mArg; }
private:
    int mSerial;
    var mArg;
};

namespace libube
{
    void factory(Module** oModule, var iArg)
    {
        if (iArg && iArg.index("refuse"))
            throw error("told to");
        if (iArg && iArg.index("nothing"))
            return;
        *oModule = new Teller(iArg);
    }
}
