// Recording of memory accesses, see race.cpp.
#pragma once
#include <cstddef>
#include <string>

namespace hz
{
    void race_new(void* p, std::size_t n);      // memory belongs to the library if it asked for it
    void race_free(void* p);
    void race_begin();
    std::string race_trace();
}
