// operator new of the instrumented objects: fails when the simulator says so.
#include <cstddef>
#include <new>
extern "C" int pysim_new_fails(void);
extern "C" void* pysim_new(size_t n) {
  if (pysim_new_fails()) throw std::bad_alloc();
  return ::operator new(n);
}
