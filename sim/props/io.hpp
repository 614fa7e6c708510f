// Shared pieces of the record-stream scenarios: fixtures and a recording reader.
#pragma once
#include "formats.hpp"
#include <exception>
namespace fmt {
struct Fix { std::unique_ptr<Set> set; std::string text; std::vector<size_t> marks; std::vector<std::string> want; std::string wantHdr; };
Fix fixture(const sim::Plan& p);               // from the plan's "!fmt" op
sim::Op fmtOp(sim::Rng& g,const std::string& only="",int maxRec=8);
struct Got {                                    // what one reader observed
  bool opened=false, hdrOk=true; std::string hdr; std::vector<std::string> recs; bool threw=false; std::string exc; bool eof=false,fail=false,bad=false; long recordNumber=-1;
};
struct ReadOpt { bool explicitHdr=true; bool exceptions=false; size_t cap=400; };
// prev: the stream object first reads prevRecs records of that file and is then reopened
Got readAll(Set& s,const std::string& path,const ReadOpt& o,const std::string& prev="",int prevRecs=0,bool prevClose=false);
// one storage fault (an op of kind flip, set, zero, del, dup, move, digit, line, linedel, linedup, trunc) done to a file's bytes
void damage(std::string& t,const sim::Op& o);
sim::Op damageOp(sim::Rng& g);
std::string brief(const std::string& s,size_t n=160);
std::string diffAt(const std::string& a,const std::string& b);
}
