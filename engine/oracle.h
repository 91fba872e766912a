// Oracle helpers used by scenarios (uninstrumented).
#pragma once
#include "mc.h"
#include <map>
namespace orc {
struct Msg { std::string time, file, level; int line; unsigned id; std::string text; };
struct Log { bool opened; std::vector<Msg> msgs; std::string raw; long count; int newExec; };
Log decodeFile(const std::string &path, int mode = 0);
Log decodeBytes(const std::string &bytes, int mode = 0);
// parse decompressor output; line/char based
bool parse(const std::string &raw, std::vector<Msg> &out, int *newExec, std::string *err);
// Full check of one complete set of decoded messages against the messages logged by the scenario
// (all of them, unless `pick` selects a subset). tagOf: leading "T<tag>" of the text.
void checkExact(const std::vector<Msg> &msgs, const std::string &what, bool (*pick)(const mc::Expect &) = nullptr);
// every sync: durable bytes decode to at least the messages completed before; in per-thread order, no foreign ones
void checkSyncs();
void checkIds(const std::vector<Msg> &msgs);
// ordered output: a message whose call had returned before another's call began comes first
void checkChrono(const std::vector<Msg> &msgs);
void ordered();
void standard();     // default file: unordered + ordered + iterator agree, checkExact, checkSyncs, checkIds
std::string cat(const std::string &a, int b);
}
