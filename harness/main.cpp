#include "pbt.h"
int main(int c, char** v) { return pbt::main(c, v); }
