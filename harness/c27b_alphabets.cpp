#include "c27_alphabets.h"

static void setup() { alphabet<uint64>(); alphabet<Word>(); }
MC_MAIN(setup)
