// C++17 NanoLog needs no generated code; the library only references these symbols.
#include "GeneratedCode.h"
namespace GeneratedFunctions {
size_t numLogIds = 0;
struct LogMetadata logId2Metadata[1] = {};
ssize_t (*compressFnArray[1])(NanoLogInternal::Log::UncompressedEntry *, char *) = {nullptr};
void (*decompressAndPrintFnArray[1])(const char **, FILE *, void (*)(const char *, ...)) = {nullptr};
long int writeDictionary(char *, char *) { return 0; }
}
