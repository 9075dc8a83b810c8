// Argument tables of the harness operations (iterators, expressions, windows, vectors).
#include "harness_gen_08.inc"
#include "harness_gen_10.inc"
#include "harness_09.inc"
#include "harness_18.inc"
static const KernelD HARNESS[] = {HARNESS_08, HARNESS_10, HARNESS_09, HARNESS_18};
