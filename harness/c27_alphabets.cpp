#include "c27_alphabets.h"

static void setup() { alphabet<int32>(); alphabet<Tok>(); }
MC_MAIN(setup)
