// Parts of the library that only produce output or parse parameters; needed to link the replay build.
#include <utils/eoLogger.cpp>
#include <utils/eoParser.cpp>
#include <utils/eoData.cpp>
#include <utils/eoState.cpp>
#include <utils/eoParallel.cpp>
