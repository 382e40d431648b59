#include "c27_alphabets.h"

static void setup() { alphabet<float64>(); }
MC_MAIN(setup)
