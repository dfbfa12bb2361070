// Library translation units linked into every check.
#include <eoPersistent.cpp>
#include <eoPrintable.cpp>
#include <eoFunctorStore.cpp>
#include <eoScalarFitnessAssembled.cpp>
#include <utils/eoRNG.cpp>
#include <utils/eoRealBounds.cpp>
#include <utils/eoIntBounds.cpp>
#include <utils/eoUpdater.cpp>
