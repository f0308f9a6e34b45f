// C16: exceptions leave a generator once, at the right moment, and skip only the body that threw
// (the bodies and consumers of C15, with throwing steps)
#define THROWS true
#include "C15_generator.cpp"
