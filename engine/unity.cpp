// One translation unit so that the hot paths inline.
#include "expr.cpp"
#include "solver.cpp"
#include "exec.cpp"
#include "ext.cpp"
