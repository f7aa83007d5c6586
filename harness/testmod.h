#ifndef TESTMOD_H
#define TESTMOD_H
#include <lube/module.h>
/** A module that says what happens to it */
class Told : public libube::Module
{
public:
    virtual int serial() = 0;
    virtual libube::var argument() = 0;
};
#endif
