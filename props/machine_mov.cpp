#define MY MOV
#include "machine_ty.inc"
