#include "fortran_table.inc"
extern "C" void (*const* sut_fortran_table())() { return FORTRAN_FUNCS; }
