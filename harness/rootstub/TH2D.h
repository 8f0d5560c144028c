#include <THist.h>
