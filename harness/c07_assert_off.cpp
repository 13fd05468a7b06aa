#define CE_USER_ERROR_LEVEL 0
#define CE_USER_INCLUDE "log_hooks.h"
#include "ce/ce.h"
#include "c07_assert.h"
namespace off
{
    int run(int which, bool test, int x, int& calls)
    {
        auto t = [&] { ++calls; return test; };
        switch (which)
        {
        case 0: CE_ASSERT(t(), x); return 2;
        case 1: return CE_VERIFY(t(), x, "text");
        default: return CE_REJECT(t(), x);
        }
    }
}
