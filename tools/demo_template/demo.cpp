#include "scipp/core/subbin_sizes.h"
int main(){return 0;}
