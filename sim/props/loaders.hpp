// File loaders of the library behind one interface, with seeded files for each.
#pragma once
#include "../core/scenario.hpp"
#include <memory>
#include <string>
#include <vector>
namespace ld {
struct Loader {
  std::string name;
  std::vector<std::string> files;                 // contents of the seeded files
  bool multi=true;                                // several files can be loaded into one object
  bool retrySame=true;                            // a failed load can be repeated on the same object
  bool strict=true;                               // damaged content is refused with a library exception or a status, nothing else
  virtual ~Loader(){}
  virtual void fresh()=0;                         // start with a new, empty object
  virtual bool clear(){ return false; }           // empties the object; false = it has no such operation
  virtual std::string load(const std::string& path)=0; // "" = success, otherwise what was reported
  virtual std::string dump()=0;                   // canonical text of everything the object holds
  virtual std::string want(const std::vector<int>& loaded){ return ""; } // the same text from the seeded content alone ("" = not modelled)
};
// a seeded planetary ephemeris: header and data in the ASCII form of JPL
struct Jpl { int nc=400; std::vector<std::vector<double>> rec; std::string header,body; double j0; int off[13],nco[13],ns[13]; double au=149597870.5,emrat=81.3; };
Jpl jpl(sim::Rng& g,int nrec,double j0=0);
const std::vector<std::string>& names();
std::unique_ptr<Loader> make(const std::string& name,uint64_t seed,int nfiles,int nrec);
}
