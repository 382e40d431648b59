#include "c19_vec.h"

static void setup() { family<uint8>("b"); family<int16>("s"); }
MC_MAIN(setup)
