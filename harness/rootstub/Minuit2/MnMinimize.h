#include <Minuit2/FCNBase.h>
