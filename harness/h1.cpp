#include "hx.h"
int main() { return hx::loop(); }
