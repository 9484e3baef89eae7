// The serial build: compiled without OpenMP and with the library in another namespace.
#define smart_dnn smart_serial
#define NS serial_build
#include "c29prog.hpp"
#ifdef _OPENMP
#error compile without OpenMP
#endif
void serialProgram(h::u64 seed, std::vector<Out>& out, bool dbl, int scale) { if (dbl) serial_build::program<double>(seed, out, scale); else serial_build::program<float>(seed, out, scale); }
