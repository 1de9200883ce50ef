#define MY REF
#include "machine_ty.inc"
