// Which object's calls read and wrote which memory (see shadow.cpp).
#pragma once
#include <cstdint>
namespace shadow {
struct Place { uintptr_t at; bool statics; const char *name; int readers, writers; };   // masks of objects
void begin();                                   // from now on accesses are recorded
int as(int object);                             // returns who it was before; 0 is nobody
int report(Place *out, int max, long *reads, long *writes);
}
