// Version macros; every configuration has its own version
#pragma once
#include "common.hpp"
#include <vmmlib/version.hpp>

struct Version : Machine
{
    bool exec(const std::string& op, const Ints& a)
    {
        if (op == "num") { reti(VMMLIB_VERSION_MAJOR); reti(VMMLIB_VERSION_MINOR); reti(VMMLIB_VERSION_PATCH); return true; }
        if (op == "cmp")
        {
            const int x = int(a[0]), y = int(a[1]), z = int(a[2]);
            retb(VMMLIB_VERSION_GT(x, y, z)); retb(VMMLIB_VERSION_GE(x, y, z));
            retb(VMMLIB_VERSION_LT(x, y, z)); retb(VMMLIB_VERSION_LE(x, y, z));
            return true;
        }
        return false;
    }
};
