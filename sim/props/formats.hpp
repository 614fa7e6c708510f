// Record formats as the simulator's workload vocabulary: seeded content,
// real readers and writers, canonical dumps.
#pragma once
#include "../core/scenario.hpp"
#include "FFStream.hpp"
#include <memory>
#include <string>
#include <vector>
namespace fmt {
struct Set;
struct Src {                     // a real library stream opened for reading
  virtual ~Src(){}
  virtual gpstk::FFStream& s()=0;
  virtual void reopen(const std::string& path)=0; // the same stream object on another file
  virtual void header()=0;       // explicit header extraction (no-op where the format has none)
  virtual void get()=0;          // stream >> record
  virtual std::string dump()=0;  // canonical text of the record last read
  virtual std::string dumpHdr()=0;
  virtual bool isEnd(){ return false; } // record last read is the format's own end marker
};
struct Dst {                     // a real library stream opened for writing
  virtual ~Dst(){}
  virtual gpstk::FFStream& s()=0;
  virtual void header(bool really)=0; // write it, or only adopt it (append mode)
  virtual void put(int i)=0;
  virtual void close()=0;
  virtual void reopen(const std::string& path,Set& s)=0; // the same stream object on another file, writing the records of s
};
struct Set {                     // one seeded data set: header + records
  std::string name; bool text=true; bool hdr=true;
  bool implicitHdr=true;         // reading a record first reads the header when that was not done
  bool appendable=true;          // records can be added to a closed file
  bool lookahead=false;          // the reader needs the line after a record to know the record is complete
  bool prefixDecodable=true;     // records are independent, so a prefix of the file decodes to a prefix of the records
  virtual ~Set(){}
  virtual int n()=0;
  virtual std::string recDump(int i)=0;
  virtual std::string hdrDump()=0;
  virtual std::unique_ptr<Src> reader(const std::string& path)=0;
  virtual std::unique_ptr<Dst> writer(const std::string& path,bool append,bool exc)=0;
  virtual std::string copy(const std::string& from,const std::string& to)=0; // read everything, write what was read
  // build the file fault-free; marks[i] = file size after record i was put (marks[0]= after header)
  std::string build(std::vector<size_t>* marks=nullptr);
};
const std::vector<std::string>& names();
std::unique_ptr<Set> make(const std::string& name,uint64_t seed,int nrec);
}
