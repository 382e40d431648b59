#include "c19_vec.h"

static void setup() { family<int64>("l"); family<uint16>("us"); }
MC_MAIN(setup)
