// C08: the cycle-slip corrector of DiscCorr.hpp (its header cannot be included together with gdc.hpp)
#include "DiscCorr.hpp"
#include <sstream>
using namespace gpstk; using std::string; using std::vector;
int dcCall(SatPass& sp,vector<string>& cmds,string& msg,int chan,bool ca){ GDCconfiguration c; c.setParameter("ResetUnique=1"); std::ostringstream dbg; c.setDebugStream(dbg); c.setParameter("DT",30); if(ca) c.setParameter("useCA1",1); try{ return DiscontinuityCorrector(sp,c,cmds,msg,chan); } catch(Exception& x){ msg=x.getText(0); return -77; } }
