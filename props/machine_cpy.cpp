#define MY CPY
#include "machine_ty.inc"
