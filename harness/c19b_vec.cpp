#include "c19_vec.h"

static void setup() { family<float64>("d"); family<uint32>("u"); }
MC_MAIN(setup)
