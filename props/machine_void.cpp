#define MY VOID
#include "machine_ty.inc"
