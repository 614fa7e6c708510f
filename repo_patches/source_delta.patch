From e72a3c37548f0bc3ce2b4e519249349688ae8629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 001/103] fix: write mixed-system RINEX 2 headers with system M
 so they can be read back

---
 core/lib/GNSSCore/RinexSatID.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSCore/RinexSatID.cpp b/core/lib/GNSSCore/RinexSatID.cpp
index e6009c8..ae29eec 100644
--- a/core/lib/GNSSCore/RinexSatID.cpp
+++ b/core/lib/GNSSCore/RinexSatID.cpp
@@ -71,6 +71,7 @@ namespace gpstk
          case SatelliteSystem::QZSS:    return 'J';
          case SatelliteSystem::BeiDou:  return 'C';
          case SatelliteSystem::IRNSS:   return 'I';
+         case SatelliteSystem::Mixed:   return 'M';
          default:                       return '?';
       }
    }
@@ -90,6 +91,7 @@ namespace gpstk
          case SatelliteSystem::QZSS:    return "QZSS";
          case SatelliteSystem::BeiDou:  return "BeiDou";
          case SatelliteSystem::IRNSS:   return "IRNSS";
+         case SatelliteSystem::Mixed:   return "Mixed";
          default:                       return "Unknown";
       }
    }
-- 
2.43.0


From 201ece55bbb451b99a5176a78d62b98eb87345bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 002/103] fix: RINEX met reader reports end of file between
 records, an error inside one

---
 core/lib/FileHandling/RINEX/RinexMetData.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexMetData.cpp b/core/lib/FileHandling/RINEX/RinexMetData.cpp
index a98316a..b907ce0 100644
--- a/core/lib/FileHandling/RINEX/RinexMetData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexMetData.cpp
@@ -120,12 +120,8 @@ namespace gpstk
       string line;
       data.clear();
 
-         // this is to see whether or not we expect an EOF
-         // when we read this next line
-      if ((int)hdr.obsTypeList.size() > maxObsPerLine)
-         strm.formattedGetLine(line); 
-      else
-         strm.formattedGetLine(line, true);
+         // the file may only end before the first line of a record
+      strm.formattedGetLine(line, true);
 
       processFirstLine(line, hdr, hdr.version);
 
@@ -133,10 +129,7 @@ namespace gpstk
 
       while (data.size() < hdr.obsTypeList.size())
       {
-         if ((int)(hdr.obsTypeList.size() - data.size()) < maxObsPerContinuationLine)
-            strm.formattedGetLine(line, true);
-         else
-            strm.formattedGetLine(line);
+         strm.formattedGetLine(line);
          processContinuationLine(line, hdr);
       }
 
-- 
2.43.0


From ea247b22ca18b63fd92cd58d4bb998cf1b1db846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 003/103] fix: SINEX reader stops at its end-of-file line
 instead of failing the stream

---
 core/lib/FileHandling/SINEX/SinexData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/SINEX/SinexData.cpp b/core/lib/FileHandling/SINEX/SinexData.cpp
index 615b059..11db1e2 100644
--- a/core/lib/FileHandling/SINEX/SinexData.cpp
+++ b/core/lib/FileHandling/SINEX/SinexData.cpp
@@ -173,7 +173,7 @@ namespace Sinex
          FFStreamError  err(exc);
          GPSTK_THROW(err);
       }
-      while (strm.good() )
+      while (strm.good() && !terminated)
       {
          try
          {
-- 
2.43.0


From 45b379b4774158c6978d53c4f5eecf114ce86ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 004/103] fix: SP3 reader keeps the fractional seconds of an
 epoch line

---
 core/lib/FileHandling/SP3/SP3Data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index f8e5bd5..1444b08 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -163,7 +163,7 @@ namespace gpstk
             int dom = asInt(strm.lastLine.substr(11,2));
             int hour = asInt(strm.lastLine.substr(14,2));
             int minute = asInt(strm.lastLine.substr(17,2));
-            double second = asInt(strm.lastLine.substr(20,10));
+            double second = asDouble(strm.lastLine.substr(20,11));
             CivilTime t;
             try {
                t = CivilTime(year, month, dom, hour, minute, second, timeSystem);
-- 
2.43.0


From 8f08f5ddc6ec0190e59ab719380f744de14355f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 005/103] fix: BINEX reader signals end of file and consumes
 the tail of reverse-readable records

---
 core/lib/FileHandling/Binex/BinexData.cpp | 36 +++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index a211aa1..c670058 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1279,6 +1279,20 @@ namespace gpstk
       {
          stpos = endpos = strm.tellg();
          strm.read((char*)&syncBuf, 1);  // Read synchronization byte
+         if (!strm.good() )
+         {
+            if (strm.eof() )
+            {
+               EndOfFile err("EOF encountered");
+               GPSTK_THROW(err);
+            }
+            FFStreamError err("Error reading BINEX synchronization byte");
+            GPSTK_THROW(err);
+         }
+      }
+      catch (FFStreamError &e)
+      {
+         GPSTK_RETHROW(e);
       }
       catch (std::exception &e)
       {
@@ -1343,6 +1357,24 @@ namespace gpstk
                FFStreamError err("Bad BINEX CRC");
                GPSTK_THROW(err);
             }
+            if (syncByte & eReverseReadable)
+            {
+                  // Consume the reversed record length and the tail
+                  // synchronization byte, as written by putRecord()
+               std::string expectedTail;
+               UBNXI recLen(1 + crcBufLen + msgLen + crcLen);
+               recLen.encode(expectedTail, 0, littleEndian);
+               reverseBuffer(expectedTail, 0);
+               expectedTail.append(1, expectedSyncByte);
+
+               std::string tail(expectedTail.size(), 0);
+               strm.read(&tail[0], tail.size() );
+               if (!strm.good() || (tail != expectedTail) )
+               {
+                  FFStreamError err("Bad BINEX reverse record length or tail");
+                  GPSTK_THROW(err);
+               }
+            }
          }
          else if (isTailSyncByteValid(syncBuf, expectedSyncByte) )
          {
@@ -1687,8 +1719,8 @@ namespace gpstk
          FFStreamError err("Invalid offset reversing BINEX data buffer");
          GPSTK_THROW(err);
       }
-      size_t back = (n == std::string::npos) ? buffer.size() - 1: offset + n;
-      if (back >= buffer.size() )
+      size_t back = (n == std::string::npos) ? buffer.size() : offset + n;
+      if (back > buffer.size() )
       {
          FFStreamError err("Invalid size reversing BINEX data buffer");
          GPSTK_THROW(err);
-- 
2.43.0


From 3a55eea6c2c58383ef9dbd65bdaf1db1e9b22447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 006/103] fix: text streams no longer return the previous line
 again at end of file

---
 core/lib/FileHandling/FFTextStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lib/FileHandling/FFTextStream.cpp b/core/lib/FileHandling/FFTextStream.cpp
index 494a67b..7c98d1d 100644
--- a/core/lib/FileHandling/FFTextStream.cpp
+++ b/core/lib/FileHandling/FFTextStream.cpp
@@ -149,6 +149,9 @@ namespace gpstk
    formattedGetLine( std::string& line,
                      const bool expectEOF )
    {
+         // std::getline leaves the string alone when the stream is
+         // already at its end; do not hand the previous line back
+      line.clear();
       try
       {
          std::getline(*this, line);
-- 
2.43.0


From b40268abf83ab9b46a112f6ee60bab91d2be62da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 007/103] fix: SP3 reader delivers the last record of a file
 that has no EOF line

---
 core/lib/FileHandling/SP3/SP3Data.cpp | 49 ++++++++++-----------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index 1444b08..af19bb2 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -81,7 +81,6 @@ namespace gpstk
 
       // loop until an error occurs, or until the entire record (which may consist
       // of two lines) is read.
-      bool unexpectedEOF=false;
       while(1) {
 
          // set the time to be the last epoch read by the stream
@@ -277,42 +276,30 @@ namespace gpstk
             GPSTK_THROW(err);
          }
 
-         // be tolerant of files without EOF -- IGS!
-         // if previous iteration of the loop found unexpected EOF, then quit here.
-         if(unexpectedEOF) {
-            // add a warning
-            strm.warnings.push_back(string("Warning (SP3 std): Unexpected EOF"));
+         // read next line into the lastLine
+         try {
+            strm.formattedGetLine(strm.lastLine);
+         }
+         catch(FFStreamError& err) {
+            string what = err.what().substr(0,21);
+            if(what != string("text 0:Unexpected EOF")) {
+               GPSTK_RETHROW(err);
+            }
 
-            // clear the buffer so it won't be (re)processed next call
+            // be tolerant of files without EOF -- IGS!
+            // add a warning, and go on as if the EOF line had been there
+            strm.warnings.push_back(string("Warning (SP3 std): Unexpected EOF"));
             strm.lastLine = string("EOF");
 
-            // clear the eof bit and return, so the user will process this SP3Data
-            strm.clear(ios::eofbit);
-            status = 3;
-         }
-         else {            // normal flow
-            // read next line into the lastLine
-            try {
-               strm.formattedGetLine(strm.lastLine);
-            }
-            catch(FFStreamError& err) {
-               string what = err.what().substr(0,21);
-               //cout << "Found unexpected EOF" << endl;
-               //cout << "what is " << what << endl;
-               //cout << "Here is the buffer:\n" << strm.lastLine << endl;
-               if(what == string("text 0:Unexpected EOF")) {
-                  unexpectedEOF = true;
-
-                  // there could still be unprocessed data in the buffer:
-                  if(strm.lastLine.size() < 3) status = 3;  // nothing there, quit
-                  else                         status = 0;  // go back and process it
-               }
-               else
-                  GPSTK_RETHROW(err);
+            // if a record was processed during this call, clear the fail bit
+            // and return, so the user will process this SP3Data
+            if(status > 1) {
+               strm.clear(ios::eofbit);
+               break;
             }
          }
 
-         if(status == 3) break;  // quit if found EOF or EP|EV was processed, but
+         if(status == 3) break;  // quit if EP|EV was processed, but
                                  // go back if lastLine was empty  (0)
                                  //      or if epoch was processed (1)
                                  //      or if P|V was processed   (2)
-- 
2.43.0


From 7b36730011d5c46d0f30b349c43ab2537bc3d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 008/103] fix: SP3 reader can retry a failed read without
 losing its lookahead line

---
 core/lib/FileHandling/SP3/SP3Data.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index af19bb2..73132bb 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -51,11 +51,36 @@ using namespace std;
 
 namespace gpstk
 {
+      /// Puts the line buffer and epoch of an SP3Stream back as they were
+      /// unless the read that may change them completes; FFStream does
+      /// the same for the file position.
+   struct SP3StreamRollback
+   {
+      SP3StreamRollback(SP3Stream& s)
+            : strm(s), line(s.lastLine), epoch(s.currentEpoch), done(false)
+      {}
+      ~SP3StreamRollback()
+      {
+         if (!done)
+         {
+            strm.lastLine.swap(line);
+            strm.currentEpoch = epoch;
+         }
+      }
+      SP3Stream& strm;
+      string line;
+      CommonTime epoch;
+      bool done;
+   };
+
    void SP3Data::reallyGetRecord(FFStream& ffs)
    {
       // cast the stream to be an SP3Stream
       SP3Stream& strm = dynamic_cast<SP3Stream&>(ffs);
 
+      // if this read fails, retrying it must start from the same line
+      SP3StreamRollback rollback(strm);
+
       // status says which records have been written already this call
       // status = 1 if an epoch record was read
       // status = 2 if an P or V record was read
@@ -306,6 +331,8 @@ namespace gpstk
 
       }  // end while loop processing records
 
+      rollback.done = true;
+
    }   // end reallyGetRecord()
 
    void SP3Data::reallyPutRecord(FFStream& ffs) const
-- 
2.43.0


From afe9890b338b6b69302a8fccc5fd52420dc3aef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 009/103] fix: destroying an SP3 stream after a disk error no
 longer ends the program

---
 core/lib/FileHandling/SP3/SP3Stream.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/SP3/SP3Stream.cpp b/core/lib/FileHandling/SP3/SP3Stream.cpp
index bff0e4e..efd2fa1 100644
--- a/core/lib/FileHandling/SP3/SP3Stream.cpp
+++ b/core/lib/FileHandling/SP3/SP3Stream.cpp
@@ -66,7 +66,14 @@ namespace gpstk
    SP3Stream ::
    ~SP3Stream()
    {
-      close();
+         // a disk error in the final write must not leave the destructor
+      try
+      {
+         close();
+      }
+      catch (...)
+      {
+      }
    }
 
 
-- 
2.43.0


From cb8d9bccf5e4cc344916259fec96b9a233359a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 010/103] fix: IONEX reader rejects map data outside the grid
 instead of overrunning it

---
 ext/lib/FileHandling/Ionex/IonexData.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ext/lib/FileHandling/Ionex/IonexData.cpp b/ext/lib/FileHandling/Ionex/IonexData.cpp
index 42c0072..348d9ed 100644
--- a/ext/lib/FileHandling/Ionex/IonexData.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexData.cpp
@@ -317,6 +317,12 @@ namespace gpstk
                      1 : static_cast<int>( (hdr.hgt[1]-hdr.hgt[0]) 
                                            / hdr.hgt[2]+1 );
 
+            if (dim[0] < 1 || dim[1] < 1 || dim[2] < 1)
+            {
+               FFStreamError e("Invalid grid in IONEX header");
+               GPSTK_THROW(e);
+            }
+
             data.resize( dim[0]*dim[1]*dim[2], 999.9 );
 
          }
@@ -329,6 +335,14 @@ namespace gpstk
                GPSTK_THROW(e);
             }
 
+               // the block must lie inside the grid set up at the epoch
+            if (data.size() == 0 || dim[1] < 1 ||
+                ilat >= static_cast<int>(data.size()) / dim[1])
+            {
+               FFStreamError e(string("Data block outside grid: " + line) );
+               GPSTK_THROW(e);
+            }
+
 #ifdef GPSTK_IONEX_UNUSED
             const double lat0 = asDouble(line.substr( 2,6)),
                          lon1 = asDouble(line.substr( 8,6)),
-- 
2.43.0


From 6a7042fedc6d3066d801777bca85da5a9feef30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 011/103] fix: RINEX 3 nav reader normalises a negative
 transmit time without looping

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 72cfb7f..a311a4e 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -1501,9 +1501,11 @@ namespace gpstk
             }
    
             // Some RINEX files have xmitTime < 0.
-            while(xmitTime < 0)
+            if(xmitTime < 0)
             {
-               xmitTime += (long)FULLWEEK;
+               xmitTime %= (long)FULLWEEK;
+               if(xmitTime < 0)
+                  xmitTime += (long)FULLWEEK;
             }
    
             // In RINEX *files*, weeknum is the week of TOE.
-- 
2.43.0


From 4891f9fd8af2b3fc0d4f234e11bc000b8af54ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 012/103] fix: ANTEX parser state is per antenna, not shared by
 all streams

---
 ext/lib/Geomatics/AntexData.cpp | 8 +++++---
 ext/lib/Geomatics/AntexData.hpp | 8 +++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ext/lib/Geomatics/AntexData.cpp b/ext/lib/Geomatics/AntexData.cpp
index 441a3ee..f1afa51 100644
--- a/ext/lib/Geomatics/AntexData.cpp
+++ b/ext/lib/Geomatics/AntexData.cpp
@@ -715,9 +715,11 @@ namespace gpstk
    void AntexData::ParseDataRecord(string& line)
    {
    try {
-      static bool hasAzim, foundRMS(false);
-      //static int freq;
-      static string freq;
+      // kept in the object, so that antennas read from different streams
+      // do not affect each other
+      bool& hasAzim(parseHasAzim);
+      bool& foundRMS(parseFoundRMS);
+      string& freq(parseFreq);
       string label(line, 60, 20);
 
       if(label == startAntennaString) {        // "START OF ANTENNA"
diff --git a/ext/lib/Geomatics/AntexData.hpp b/ext/lib/Geomatics/AntexData.hpp
index b9edc5d..5580036 100644
--- a/ext/lib/Geomatics/AntexData.hpp
+++ b/ext/lib/Geomatics/AntexData.hpp
@@ -257,7 +257,8 @@ namespace gpstk
       /// Constructor.
       AntexData() : valid(0), absolute(true), PRN(0), SVN(0), nFreq(0),
                     validFrom(CommonTime::BEGINNING_OF_TIME),
-                    validUntil(CommonTime::END_OF_TIME) {}
+                    validUntil(CommonTime::END_OF_TIME),
+                    parseHasAzim(false), parseFoundRMS(false) {}
       /// Destructor
       virtual ~AntexData() {}
 
@@ -352,6 +353,11 @@ namespace gpstk
       virtual void reallyGetRecord(FFStream& s);
 
    private:
+      // state of ParseDataRecord() between the lines of one antenna
+      bool parseHasAzim;         ///< azimuth dependent values expected
+      bool parseFoundRMS;        ///< within a START OF FREQ RMS block
+      std::string parseFreq;     ///< frequency of the current block
+
       /// helper routine to throw when records are out of order
       /// throws if valid contains test (test & valid), otherwise does nothing
       void throwRecordOutOfOrder(unsigned long test, std::string& label);
-- 
2.43.0


From 9e2c6be515c09a261cb1f28fae8d3e8d40ea16e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 013/103] fix: RINEX and BINEX readers do not index past the
 end of short lines and empty buffers

---
 core/lib/FileHandling/Binex/BinexData.cpp      | 8 ++++----
 core/lib/FileHandling/RINEX/RinexNavData.cpp   | 2 ++
 core/lib/FileHandling/RINEX/RinexObsData.cpp   | 3 ++-
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 4 +++-
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 8 +++++---
 5 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index c670058..bb6e715 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1333,13 +1333,13 @@ namespace gpstk
                // The vector's memory will be reclaimed in all exit conditions
                // since the vector is allocated on the stack.
             std::vector<char>  msgBuf(msgLen);
-            strm.read((char*)&msgBuf[0], msgLen);
+            strm.read(msgBuf.data(), msgLen);
             if (!strm.good() || ((unsigned long)strm.gcount() != msgLen) )
             {
                FFStreamError err("Incomplete BINEX record message");
                GPSTK_THROW(err);
             }
-            msg.assign((char*)&msgBuf[0], msgLen);
+            msg.assign(msgBuf.data(), msgLen);
 
                // Check CRC - first calculate expected, then read actual,
                // then compare.
@@ -1387,13 +1387,13 @@ namespace gpstk
 
                // Read the entire remainder of the record into memory
             std::vector<char>  revRecVec(revRecSize);
-            strm.read( (char*)&revRecVec[0], revRecSize);
+            strm.read(revRecVec.data(), revRecSize);
             if (!strm.good() || ((unsigned long)strm.gcount() != revRecSize) )
             {
                FFStreamError err("Incomplete BINEX record message");
                GPSTK_THROW(err);
             }
-            std::string revRecBuf( (char*)&revRecVec[0], revRecSize);
+            std::string revRecBuf(revRecVec.data(), revRecSize);
             reverseBuffer(revRecBuf, revRecSize);
 
             if (revRecBuf[0] != expectedSyncByte)
diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index 40bc576..760b9eb 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -298,6 +298,8 @@ namespace gpstk
       try
       {
             // check for spaces in the right spots...
+         if (currentLine.size() < 18)
+            throw(FFStreamError("Badly formatted line"));
          for (int i = 2; i <= 17; i += 3)
             if (currentLine[i] != ' ')
                throw(FFStreamError("Badly formatted line"));
diff --git a/core/lib/FileHandling/RINEX/RinexObsData.cpp b/core/lib/FileHandling/RINEX/RinexObsData.cpp
index 864a082..47e345d 100644
--- a/core/lib/FileHandling/RINEX/RinexObsData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsData.cpp
@@ -362,7 +362,8 @@ namespace gpstk
       {
             // check if the spaces are in the right place - an easy
             // way to check if there's corruption in the file
-         if ( (line[0] != ' ') ||
+         if ( (line.size() < 16) ||
+              (line[0] != ' ') ||
               (line[3] != ' ') ||
               (line[6] != ' ') ||
               (line[9] != ' ') ||
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index a311a4e..a9ee4af 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -1232,7 +1232,7 @@ namespace gpstk
          if (strm.header.version >= 3)
          {
             // check for spaces in the right spots...
-            if (line[3] != ' ')
+            if ((line.size() < 23) || (line[3] != ' '))
                GPSTK_THROW(FFStreamError("Badly formatted epoch line"));
             for(i = 8; i <= 20; i += 3)
             {
@@ -1256,6 +1256,8 @@ namespace gpstk
          else
          {
                // RINEX 2
+            if (line.size() < 22)
+               GPSTK_THROW(FFStreamError("Badly formatted epoch line"));
             for(i=2; i <= 17; i+=3)
             {
                if (line[i] != ' ')
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 78836cb..a96154b 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -387,7 +387,7 @@ namespace gpstk
          strm.formattedGetLine(line, true);
       StringUtils::stripTrailing(line);
 
-      if(line.size()>80 || line[0] != ' ' || line[3] != ' ' || line[6] != ' ')
+      if(line.size()>80 || line.size()<7 || line[0] != ' ' || line[3] != ' ' || line[6] != ' ')
       {
          FFStreamError e("Bad epoch line: >" + line + "<");
          GPSTK_THROW(e);
@@ -423,7 +423,8 @@ namespace gpstk
          {
                // check if the spaces are in the right place - an easy
                // way to check if there's corruption in the file
-            if((line[0] != ' ') || (line[3] != ' ') || (line[6] != ' ') ||
+            if((line.size() < 16) ||
+               (line[0] != ' ') || (line[3] != ' ') || (line[6] != ' ') ||
                (line[9] != ' ') || (line[12] != ' ') || (line[15] != ' '))
             {
                FFStreamError e("Invalid time format");
@@ -735,7 +736,8 @@ namespace gpstk
       {
             // check if the spaces are in the right place - an easy
             // way to check if there's corruption in the file
-         if( (line[ 1] != ' ') || (line[ 6] != ' ') || (line[ 9] != ' ') ||
+         if( (line.size() < 31) ||
+             (line[ 1] != ' ') || (line[ 6] != ' ') || (line[ 9] != ' ') ||
              (line[12] != ' ') || (line[15] != ' ') || (line[18] != ' ') ||
              (line[29] != ' ') || (line[30] != ' '))
          {
-- 
2.43.0


From f4c5fc712289c11b930f425a02e4b6c6374ac90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 014/103] fix: time of untimed RINEX 2 event records is per
 stream, not shared by all Rinex3ObsStreams

---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp   | 6 ++----
 core/lib/FileHandling/RINEX3/Rinex3ObsStream.cpp | 1 +
 core/lib/FileHandling/RINEX3/Rinex3ObsStream.hpp | 4 ++++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index a96154b..e2180a5 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -379,8 +379,6 @@ namespace gpstk
    
    void reallyGetRecordVer2(Rinex3ObsStream& strm, Rinex3ObsData& rod)
    {
-      static CommonTime previousTime(CommonTime::BEGINNING_OF_TIME);
-
          // get the epoch line and check
       string line;
       while(line.empty())        // ignore blank lines in place of epoch lines
@@ -416,7 +414,7 @@ namespace gpstk
          GPSTK_THROW(e);
       }
       else if(noEpochTime)
-         rod.time = previousTime;
+         rod.time = strm.previousTime;
       else
       {
          try
@@ -478,7 +476,7 @@ namespace gpstk
             // end rod.time = parseTime(line, strm.header);
 
             // save for next call
-         previousTime = rod.time;
+         strm.previousTime = rod.time;
       }
 
          // number of satellites
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsStream.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsStream.cpp
index 741654f..16693ef 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsStream.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsStream.cpp
@@ -90,6 +90,7 @@ namespace gpstk
       headerRead = false;
       header = Rinex3ObsHeader();
       timesystem = TimeSystem::GPS;
+      previousTime = CommonTime::BEGINNING_OF_TIME;
    }
 
 
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsStream.hpp b/core/lib/FileHandling/RINEX3/Rinex3ObsStream.hpp
index 7190b0e..9941a32 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsStream.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsStream.hpp
@@ -112,6 +112,10 @@ namespace gpstk
          /// Time system for epochs in this file
       TimeSystem timesystem;
 
+         /** Time of the last epoch read from a RINEX 2 file, used for
+          * event records without a time of their own. */
+      CommonTime previousTime;
+
          /// Check if the input stream is the kind of Rinex3ObsStream
       static bool isRinex3ObsStream(std::istream& i);
 
-- 
2.43.0


From aec5e361d8c819c3d2ef07ee5804ea6566c76f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 015/103] fix: reopening a Rinex3ObsStream forgets the previous
 file's header

---
 core/lib/FileHandling/RINEX3/Rinex3ObsStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsStream.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsStream.cpp
index 16693ef..2b7587d 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsStream.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsStream.cpp
@@ -81,6 +81,7 @@ namespace gpstk
          std::ios::openmode mode )
    {
       FFTextStream::open(fn, mode);
+      init();
    }
 
 
-- 
2.43.0


From fae7869a15fcee4e7be0b1ff10b9da337603e32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 016/103] fix: RINEX 2 event records without a time keep their
 flag and count when written by Rinex3ObsData

---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index e2180a5..f0d43fe 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -83,10 +83,10 @@ namespace gpstk
          line += string(1, ' ');
          line += rightJustify(asString<short>(civTime.minute),2);
          line += rightJustify(asString(civTime.second, 7),11);
-         line += string(2, ' ');
-         line += rightJustify(asString<short>(rod.epochFlag), 1);
-         line += rightJustify(asString<short>(rod.numSVs), 3);
       }
+      line += string(2, ' ');
+      line += rightJustify(asString<short>(rod.epochFlag), 1);
+      line += rightJustify(asString<short>(rod.numSVs), 3);
 
          // write satellite ids to 'line'
       const size_t maxPrnsPerLine = 12;
-- 
2.43.0


From cec0a5119558ec33d3145d0bd7eaa550ab5187a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 017/103] fix: reading an SP3 header forgets the satellites of
 the header read before

---
 core/lib/FileHandling/SP3/SP3Header.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index c8f868c..2731e0c 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -59,6 +59,13 @@ namespace gpstk
    {
       SP3Stream& strm = dynamic_cast<SP3Stream&>(ffs);
 
+         // forget what was read from another file; not every version
+         // of the format sets all of these
+      satList.clear();
+      system = SP3SatID(1, SatelliteSystem::GPS);
+      timeSystem = TimeSystem::Any;
+      basePV = baseClk = 0.0;
+
       string line;
       strm.formattedGetLine(line);
       if(debug) std::cout << "SP3 Header Line 1 " << line << std::endl;
-- 
2.43.0


From 110df5f50640b9095e22a595f5689efec044e3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 018/103] fix: SP3 header start time keeps its fractional
 seconds

---
 core/lib/FileHandling/SP3/SP3Header.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index 2731e0c..e8fa7e0 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -92,7 +92,7 @@ namespace gpstk
          int dom = asInt(line.substr(11,2));
          int hour = asInt(line.substr(14,2));
          int minute = asInt(line.substr(17,2));
-         double second = asInt(line.substr(20,10));
+         double second = asDouble(line.substr(20,11));
          try {
             time = CivilTime(year, month, dom, hour, minute, second);
          }
-- 
2.43.0


From 756301580f08190e0028dcdea06c6ee643582002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:55 +0000
Subject: [PATCH 019/103] fix: RINEX 3 obs header refuses satellite counts that
 do not match the observation types

---
 core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index ed8030d..aaf02b3 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -1699,6 +1699,12 @@ namespace gpstk
             string sys;
             sys = sat.systemChar();
             vector<int> vec;
+            if(it->second.size() < R2ObsTypes.size())
+            {
+               FFStreamError e("Wrong number of PRN / # OF OBS values for "
+                               + sat.toString());
+               GPSTK_THROW(e);
+            }
             for(size_t i=0; i<R2ObsTypes.size(); i++)
             {
                if(mapSysR2toR3ObsID[sys][R2ObsTypes[i]].asString(version) == string("   "))
-- 
2.43.0


From bf5a62274370e18318246ca03694c5647d8f0419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 020/103] fix: QZSEphemerisStore::findEphemeris refuses QZSS
 satellites

---
 ext/lib/GNSSEph/QZSEphemerisStore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/GNSSEph/QZSEphemerisStore.hpp b/ext/lib/GNSSEph/QZSEphemerisStore.hpp
index e626820..cc6a6e2 100644
--- a/ext/lib/GNSSEph/QZSEphemerisStore.hpp
+++ b/ext/lib/GNSSEph/QZSEphemerisStore.hpp
@@ -105,7 +105,7 @@ namespace gpstk
       /// ephemeris is not found.
       const QZSEphemeris& findEphemeris(const SatID& sat, const CommonTime& t) const
       {
-         if(sat.system != SatelliteSystem::BeiDou) {
+         if(sat.system != SatelliteSystem::QZSS) {
             InvalidRequest e("Invalid satellite system");
             GPSTK_THROW(e);
          }
-- 
2.43.0


From f71688a3786236c866cf822f59d0ade8975f256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 021/103] fix: OrbitEphStore in near mode keeps the first copy
 received, not the earliest

---
 core/lib/GNSSEph/OrbitEphStore.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/lib/GNSSEph/OrbitEphStore.cpp b/core/lib/GNSSEph/OrbitEphStore.cpp
index 956e817..c52607e 100644
--- a/core/lib/GNSSEph/OrbitEphStore.cpp
+++ b/core/lib/GNSSEph/OrbitEphStore.cpp
@@ -280,6 +280,15 @@ namespace gpstk
          if(it != toet.end()) {
             // is a duplicate found in the table?
             if(it->second->ctToe == eph->ctToe) {
+               // when the key is the Toe, the stored copy may be a later
+               // transmission than this one; keep the earliest
+               if(eph->beginValid < it->second->beginValid) {
+                  ret = eph->clone();
+                  delete it->second;
+                  it->second = ret;
+                  updateTimeLimits(ret);
+                  return ret;
+               }
                message = string("duplicate Toe");
                return ret;
             }
-- 
2.43.0


From ecdcc4aa3933c4a7094339c205b30772a4ca376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 022/103] fix: ephemeris stores leak the data sets they replace

---
 core/lib/GNSSEph/GPSEphemerisStore.cpp | 2 +-
 core/lib/GNSSEph/OrbElemStore.cpp      | 4 +++-
 core/lib/GNSSEph/OrbitEphStore.cpp     | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/GPSEphemerisStore.cpp b/core/lib/GNSSEph/GPSEphemerisStore.cpp
index de44b09..cf729de 100644
--- a/core/lib/GNSSEph/GPSEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GPSEphemerisStore.cpp
@@ -211,7 +211,7 @@ namespace gpstk
                                                    // first loop above.
                  delete ei->second;                // oe becomes invalid.
                  table.erase(ei);                     // Remove the map entry.
-                 table[oeAdj->beginValid] = oeAdj->clone(); // Add back to map
+                 table[oeAdj->beginValid] = oeAdj; // Add back to map
                  break;            // exit this while loop without finishing
               }
               loopStart = ei->first; // Scanned this far successfully, so
diff --git a/core/lib/GNSSEph/OrbElemStore.cpp b/core/lib/GNSSEph/OrbElemStore.cpp
index 86bd7c6..f7450b2 100644
--- a/core/lib/GNSSEph/OrbElemStore.cpp
+++ b/core/lib/GNSSEph/OrbElemStore.cpp
@@ -314,6 +314,7 @@ namespace gpstk
         if(oe->isSameData(eph))
         {
            if (dbg) cout << "oes::addOE.  isSameData() returned true." << endl;
+           delete it->second;
            oem.erase(it);
            oem[eph->beginValid] = eph->clone();
            updateInitialFinal(eph);
@@ -349,6 +350,7 @@ namespace gpstk
      //if(oe->ctToe==eph->ctToe)
      if(oe->isSameData(eph))
      {
+        delete it->second;
         oem.erase(it);
         oem[eph->beginValid] = eph->clone();
         updateInitialFinal(eph);
@@ -1007,7 +1009,7 @@ namespace gpstk
                                                    // first loop above.
                  delete ei->second;                // oe becomes invalid.
                  em.erase(ei);                     // Remove the map entry.
-                 em[oeAdj->beginValid] = oeAdj->clone(); // Add back to map
+                 em[oeAdj->beginValid] = oeAdj; // Add back to map
                  //cout << "...restored the element." << endl;
                  break;            // exit this while loop without finishing
               }
diff --git a/core/lib/GNSSEph/OrbitEphStore.cpp b/core/lib/GNSSEph/OrbitEphStore.cpp
index c52607e..7e3e71e 100644
--- a/core/lib/GNSSEph/OrbitEphStore.cpp
+++ b/core/lib/GNSSEph/OrbitEphStore.cpp
@@ -315,6 +315,7 @@ namespace gpstk
          if(it==toet.begin()) {
             // candidate is before beginning of map
             if(it->second->ctToe == eph->ctToe) {
+               delete it->second;
                toet.erase(it);
             }
             ret = eph->clone();
@@ -340,6 +341,7 @@ namespace gpstk
          // Check if iterator points to late transmission of
          // same OrbitEph as candidate
          if(it->second->ctToe == eph->ctToe) {
+            delete it->second;
             toet.erase(it);
             ret = eph->clone();
             toet[keyVal] = ret;
-- 
2.43.0


From 0b97cbfc06c57580832b606254ca4ecde058706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 023/103] fix: rationalize() of an ephemeris store with an
 emptied satellite hangs

---
 core/lib/GNSSEph/GPSEphemerisStore.cpp | 1 +
 core/lib/GNSSEph/OrbElemStore.cpp      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/lib/GNSSEph/GPSEphemerisStore.cpp b/core/lib/GNSSEph/GPSEphemerisStore.cpp
index cf729de..3ec6cb9 100644
--- a/core/lib/GNSSEph/GPSEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GPSEphemerisStore.cpp
@@ -65,6 +65,7 @@ namespace gpstk
       SatTableMap::iterator it;
       for (it = satTables.begin(); it != satTables.end(); it++) {
          TimeOrbitEphTable& table = it->second;
+         if (table.empty()) continue;     // e.g. emptied by edit()
          TimeOrbitEphTable::iterator ei;
          TimeOrbitEphTable::iterator eiPrev;
          bool begin = true;
diff --git a/core/lib/GNSSEph/OrbElemStore.cpp b/core/lib/GNSSEph/OrbElemStore.cpp
index f7450b2..e39ec02 100644
--- a/core/lib/GNSSEph/OrbElemStore.cpp
+++ b/core/lib/GNSSEph/OrbElemStore.cpp
@@ -812,6 +812,7 @@ namespace gpstk
       for (it = ube.begin(); it != ube.end(); it++)
       {
          OrbElemMap& em = it->second;
+         if (em.empty()) continue;     // e.g. emptied by edit()
          OrbElemMap::iterator ei;
   	     OrbElemMap::iterator eiPrev;
          bool begin = true;
-- 
2.43.0


From 62d2390486ca0d126300e82430af5610b5712c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 024/103] fix: rationalize() takes the store's time limits from
 its last satellite

---
 core/lib/GNSSEph/GPSEphemerisStore.cpp | 13 ++++++++-----
 core/lib/GNSSEph/OrbElemStore.cpp      | 15 +++++++++------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/core/lib/GNSSEph/GPSEphemerisStore.cpp b/core/lib/GNSSEph/GPSEphemerisStore.cpp
index 3ec6cb9..717536c 100644
--- a/core/lib/GNSSEph/GPSEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GPSEphemerisStore.cpp
@@ -61,6 +61,11 @@ namespace gpstk
    // ordering has been determined.
    void GPSEphemerisStore::rationalize(void)
    {
+      initialTime = CommonTime::END_OF_TIME;
+      initialTime.setTimeSystem(timeSystem);
+      finalTime = CommonTime::BEGINNING_OF_TIME;
+      finalTime.setTimeSystem(timeSystem);
+
       // loop over satellites
       SatTableMap::iterator it;
       for (it = satTables.begin(); it != satTables.end(); it++) {
@@ -225,11 +230,9 @@ namespace gpstk
         }
 
            // Well, not quite done.  We need to update the initial/final
-           // times of the map.
-        const TimeOrbitEphTable::iterator Cei = table.begin( );
-        initialTime = Cei->second->beginValid;
-        const TimeOrbitEphTable::reverse_iterator rCei = table.rbegin();
-        finalTime   = rCei->second->endValid;
+           // times of the store, which cover all the satellites.
+        for (ei = table.begin(); ei != table.end(); ei++)
+           updateTimeLimits(ei->second);
 
       } // end outer for-loop
    }
diff --git a/core/lib/GNSSEph/OrbElemStore.cpp b/core/lib/GNSSEph/OrbElemStore.cpp
index e39ec02..8cfb56e 100644
--- a/core/lib/GNSSEph/OrbElemStore.cpp
+++ b/core/lib/GNSSEph/OrbElemStore.cpp
@@ -808,6 +808,11 @@ namespace gpstk
           GPSTK_THROW(e);
       }
 
+      initialTime = CommonTime::END_OF_TIME;
+      initialTime.setTimeSystem(timeSysForStore);
+      finalTime = CommonTime::BEGINNING_OF_TIME;
+      finalTime.setTimeSystem(timeSysForStore);
+
       UBEMap::iterator it;
       for (it = ube.begin(); it != ube.end(); it++)
       {
@@ -1023,12 +1028,10 @@ namespace gpstk
             } 
         }
 
-           // Well, not quite done.  We need to update the initial/final 
-           // times of the map.
-        const OrbElemMap::iterator Cei = em.begin( );
-        initialTime = Cei->second->beginValid;
-        const OrbElemMap::reverse_iterator rCei = em.rbegin();
-        finalTime   = rCei->second->endValid;
+           // Well, not quite done.  We need to update the initial/final
+           // times of the store, which cover all the satellites.
+        for (ei = em.begin(); ei != em.end(); ei++)
+           updateInitialFinal(ei->second);
 
       } // end outer for-loop
       //cout << "Exiting OrbElem.rationalize()" << endl; 
-- 
2.43.0


From 7490c6d9961d01f4719cd61f977dcd496499b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 025/103] fix: GPSEphemerisStore::rationalize() dereferences
 end() after an adjustment

---
 core/lib/GNSSEph/GPSEphemerisStore.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/GPSEphemerisStore.cpp b/core/lib/GNSSEph/GPSEphemerisStore.cpp
index 717536c..5ee4881 100644
--- a/core/lib/GNSSEph/GPSEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GPSEphemerisStore.cpp
@@ -151,9 +151,10 @@ namespace gpstk
                   if (!begin)
                   {
                      //cout << "*** Adjusting endValid Times" << endl;
-                     TimeOrbitEphTable::iterator ri;
-                     // We KNOW it exists in the map
-                     ri = table.find(oePrev->beginValid);
+                     // Not table.find(oePrev->beginValid): beginValid may
+                     // have been adjusted while the key has not, yet.
+                     TimeOrbitEphTable::iterator ri = ei;
+                     ri--;
                      bool done = false;
                      while (!done)
                      {
-- 
2.43.0


From 122d09831291fb328b073025c50b446b3584302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 026/103] fix: RINEX 3 QZSS ephemerides get 192 added to their
 PRN twice

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index a9ee4af..70b69ec 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -949,7 +949,7 @@ namespace gpstk
       qzse.ctToc.setTimeSystem(TimeSystem::QZS);
 
       // now load the QZSS-specific parts
-      qzse.satID = SatID(qzse.satID.id + 192, SatelliteSystem::QZSS);
+      // (castTo() has already translated the RINEX PRN, 192 included)
       qzse.IODC = IODC;
       qzse.IODE = IODE;
       qzse.health = health;
-- 
2.43.0


From 5224fd86f610daeecdfa64b43ec1307cd743cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 027/103] fix: QZSS time cannot be converted to or from any
 other time system

---
 core/lib/RefTime/TimeSystem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/RefTime/TimeSystem.cpp b/core/lib/RefTime/TimeSystem.cpp
index 78d8f44..9f83f6e 100644
--- a/core/lib/RefTime/TimeSystem.cpp
+++ b/core/lib/RefTime/TimeSystem.cpp
@@ -225,6 +225,7 @@ namespace gpstk
          // TAI = TT - 32.184s
       if (inTS == TimeSystem::GPS ||       // GPS -> TAI
           inTS == TimeSystem::GAL ||       // GAL -> TAI
+          inTS == TimeSystem::QZS ||       // QZS -> TAI
           inTS == TimeSystem::IRN )        // IRN -> TAI
       {
          dt = TAI_minus_GPSGAL_EPOCH;
@@ -262,6 +263,7 @@ namespace gpstk
          // TT = TAI + 32.184s
       if (outTS == TimeSystem::GPS ||      // TAI -> GPS
           outTS == TimeSystem::GAL ||      // TAI -> GAL
+          outTS == TimeSystem::QZS ||      // TAI -> QZS
           outTS == TimeSystem::IRN )       // TAI -> IRN
       {
          dt -= TAI_minus_GPSGAL_EPOCH;
-- 
2.43.0


From ba5ed8b1dd1de277e5040a2de2719ff7c760ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 028/103] fix: Rinex3EphemerisStore per-satellite times fall
 through to the GLONASS store

---
 core/lib/GNSSEph/Rinex3EphemerisStore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/GNSSEph/Rinex3EphemerisStore.cpp b/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
index 5d3c3e6..abc6b5a 100644
--- a/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
@@ -518,8 +518,10 @@ namespace gpstk
             case SatelliteSystem::BeiDou:
             case SatelliteSystem::QZSS:
                retTime = ORBstore.getInitialTime(sat);
+               break;
             case SatelliteSystem::Glonass:
                retTime = GLOstore.getInitialTime(sat);
+               break;
             //case SatelliteSystem::Geosync:
                //retTime = GEOstore.getInitialTime(sat);
             default:
@@ -551,8 +553,10 @@ namespace gpstk
             case SatelliteSystem::BeiDou:
             case SatelliteSystem::QZSS:
                retTime = ORBstore.getFinalTime(sat);
+               break;
             case SatelliteSystem::Glonass:
                retTime = GLOstore.getFinalTime(sat);
+               break;
             //case SatelliteSystem::Geosync:
                //retTime = GEOstore.getFinalTime(sat);
             default:
-- 
2.43.0


From 5a8f328557ccf94d287d9b202b2aa1640cfcd671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 029/103] fix: GloEphemerisStore::edit() loses the final time

---
 core/lib/GNSSEph/GloEphemerisStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/GloEphemerisStore.cpp b/core/lib/GNSSEph/GloEphemerisStore.cpp
index 691b5b0..f923cd0 100644
--- a/core/lib/GNSSEph/GloEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GloEphemerisStore.cpp
@@ -451,7 +451,7 @@ namespace gpstk
                   // Update 'initialTime' and 'finalTime', if necessary
                if (t < initialTime)
                   initialTime = t;
-               else if (t > finalTime)
+               if (t > finalTime)
                   finalTime = t;
 
             }  // End of 'if ( ( (*tgmIter).first >= tmin ) && ...'
-- 
2.43.0


From 4f9a12bfaf4924d7c2442e5a95e801cf5e939cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 030/103] fix: Rinex3NavData made from a QZSS ephemeris names
 the wrong satellite

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 70b69ec..2fd179c 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -206,8 +206,7 @@ namespace gpstk
       xmitTime = static_cast<QZSWeekSecond>(qzseph.transmitTime).getSOW();
       weeknum = static_cast<QZSWeekSecond>(qzseph.transmitTime).getWeek();
 
-      PRNID -= 192;                    // RINEX stores PRN minus 192
-      sat = RinexSatID(PRNID,SatelliteSystem::QZSS);
+      PRNID -= 192;                    // RINEX stores PRN minus 192; sat does not
       IODC = qzseph.IODC;
       IODE = qzseph.IODE;
       health = qzseph.health;
-- 
2.43.0


From d43b2107ba3521039aac33d7bd59105153372e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 031/103] fix: PositionSatStore: answer an exact epoch with
 that epoch's record

---
 core/lib/GNSSEph/PositionSatStore.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/lib/GNSSEph/PositionSatStore.cpp b/core/lib/GNSSEph/PositionSatStore.cpp
index 484a4c1..778f7c6 100644
--- a/core/lib/GNSSEph/PositionSatStore.cpp
+++ b/core/lib/GNSSEph/PositionSatStore.cpp
@@ -204,7 +204,6 @@ namespace gpstk
 
          if(getTableInterval(sat, ttag, Nhalf, it1, it2, true)) {
             // exact match
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Pos;
          }
@@ -249,7 +248,6 @@ namespace gpstk
 
          bool isExact(getTableInterval(sat, ttag, Nhalf, it1, it2, haveVelocity));
          if(isExact && haveVelocity) {
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Vel;
          }
@@ -309,7 +307,6 @@ namespace gpstk
          bool isExact(getTableInterval(sat,ttag,Nhalf,it1,it2,haveAcceleration));
          if(isExact && haveAcceleration) {
             // exact match, and have acceleration data
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Acc;
          }
-- 
2.43.0


From 266f7a888c66ad866299751b7f66ac393180b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 032/103] fix: ClockSatStore: getClockDrift interpolates drifts

---
 core/lib/GNSSEph/ClockSatStore.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/ClockSatStore.cpp b/core/lib/GNSSEph/ClockSatStore.cpp
index 0231f78..f26f65d 100644
--- a/core/lib/GNSSEph/ClockSatStore.cpp
+++ b/core/lib/GNSSEph/ClockSatStore.cpp
@@ -161,8 +161,8 @@ namespace gpstk
             }
             else {
                // linear interpolation
-               slope = (drifts[Nhi]-drifts[Nlow]) /
-                                   (times[Nhi]-times[Nlow]);            // sec/sec^2
+               slope = (accels[Nhi]-accels[Nlow]) /
+                                   (times[Nhi]-times[Nlow]);            // sec/sec^3
                rec.accel = accels[Nlow] + slope*(dt-times[Nlow]);       // sec/sec^2
             }
 
@@ -274,7 +274,7 @@ namespace gpstk
             if(isExact && ABS(kt->first-ttag) < 1.e-8) Nhi=n;
             times.push_back(kt->first - ttag0);    // sec
             if(haveClockDrift)
-               drifts.push_back(kt->second.bias);  // sec/sec
+               drifts.push_back(kt->second.drift); // sec/sec
             else
                biases.push_back(kt->second.bias);  // sec
             if(kt == it2) break;
-- 
2.43.0


From 449112d3fea630b1f8f520b1de7545c0c62f9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 033/103] fix: TabularSatStore: check gap and interval at the
 first interval of a table

---
 core/lib/GNSSEph/TabularSatStore.hpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index a5992b5..37f730a 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -274,27 +274,21 @@ namespace gpstk
             {
                   // at table begin but its an exact match && an
                   // interval of only 2
-               if(exactMatch && nhalf==1)
+               if(!exactMatch || nhalf!=1)
                {
-                  ++(it2 = it1);
-                  return exactMatch;
+                  InvalidRequest e("Inadequate data before(1) requested time for"
+                                   " satellite " +
+                                   gpstk::StringUtils::asString(sat) +
+                                   printTime(ttag,fmt));
+                  GPSTK_THROW(e);
                }
-               InvalidRequest e("Inadequate data before(1) requested time for"
-                                " satellite " +
-                                gpstk::StringUtils::asString(sat) +
-                                printTime(ttag,fmt));
-               GPSTK_THROW(e);
+               ++(it2 = it1);
             }
 
-               // move it1 down by one
-            if(--it1 == dtable.begin())
+               // move it1 down by one; the table begin will do only
+               // if an interval of only 2 is wanted
+            else if(--it1 == dtable.begin() && nhalf!=1)
             {
-                  // if an interval of only 2
-               if(nhalf==1)
-               {
-                  ++(it2 = it1);
-                  return exactMatch;
-               }
                InvalidRequest e("Inadequate data before(2) requested time for"
                                 " satellite " +
                                 gpstk::StringUtils::asString(sat) +
-- 
2.43.0


From e046eba2c25ae5ec1ac6f3d9a642d341168405ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 034/103] fix: TabularSatStore: edit drops records before tmin

---
 core/lib/GNSSEph/TabularSatStore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index 37f730a..a67e898 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -664,7 +664,7 @@ namespace gpstk
                // delete everything before tmin
                // jt points to the earliest time >= tmin
             jt = dtab.lower_bound(tmin);
-            if(jt != dtab.begin() && --jt != dtab.begin())
+            if(jt != dtab.begin())
                dtab.erase(dtab.begin(),jt);
          }
       }
-- 
2.43.0


From 513fc43a03710d4697382f68b051c796848fb07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 035/103] fix: TabularSatStore: no invalid iterators for
 emptied and one-record tables

---
 core/lib/GNSSEph/TabularSatStore.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index a67e898..cd6347f 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -764,7 +764,7 @@ namespace gpstk
             return initialTime;
 
          typename SatTable::const_iterator it(tables.find(sat));
-         if(it == tables.end())
+         if(it == tables.end() || it->second.empty())
             return initialTime;
 
          return (it->second.begin())->first;
@@ -779,7 +779,7 @@ namespace gpstk
             return finalTime;
 
          typename SatTable::const_iterator it(tables.find(sat));
-         if(it == tables.end())
+         if(it == tables.end() || it->second.empty())
             return finalTime;
 
          typename DataTable::const_iterator jt(it->second.end());
@@ -882,7 +882,7 @@ namespace gpstk
          typename SatTable::const_iterator it(tables.find(sat));
 
             // not found or empty
-         if(it == tables.end() || it->second.size() == 0)
+         if(it == tables.end() || it->second.size() < 2)
             return 0.0;
 
             // save the most frequent N step sizes
-- 
2.43.0


From 00749361239a4a9080363db244f451fdc3d9c433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 036/103] fix: ClockSatStore: linear interpolation at the first
 record of an interval

---
 core/lib/GNSSEph/ClockSatStore.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/ClockSatStore.cpp b/core/lib/GNSSEph/ClockSatStore.cpp
index f26f65d..628b103 100644
--- a/core/lib/GNSSEph/ClockSatStore.cpp
+++ b/core/lib/GNSSEph/ClockSatStore.cpp
@@ -106,7 +106,10 @@ namespace gpstk
             ++n;
          };
 
-         if(isExact && Nmatch == (int)(Nhalf-1)) { Nlow++; Nhi++; }
+         // not when the interval begins at the table begin
+         if(isExact && Nmatch == (int)(Nhalf-1) && Nhi+1 < times.size()) {
+            Nlow++; Nhi++;
+         }
 
          // interpolate
          rec.accel = rec.sig_accel = 0.0;              // defaults
-- 
2.43.0


From 8a552802bf0d2857cab4e1bad5a2f0d5943d42c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 037/103] fix: SP3EphemerisStore: correlation sigmas belong to
 their own record

---
 core/lib/GNSSEph/SP3EphemerisStore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/SP3EphemerisStore.cpp b/core/lib/GNSSEph/SP3EphemerisStore.cpp
index 129b662..0567b30 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.cpp
@@ -435,7 +435,7 @@ namespace gpstk
 
                         haveP = true;
                      }
-                     if (data.correlationFlag)
+                     if (goNext && data.correlationFlag)
                      {
                            // EP
                            //cout << "EP record: "; data.dump(cout); cout << endl;
@@ -487,7 +487,7 @@ namespace gpstk
 
                         haveV = true;
                      }
-                     if (data.correlationFlag)
+                     if (goNext && data.correlationFlag)
                      {
                            // EV
                            //cout << "EV record: "; data.dump(cout); cout << endl;
-- 
2.43.0


From 87c321c39c1575da10c5f48ef8873a46bdb793c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 038/103] fix: SP3EphemerisStore: a rejected record leaves
 nothing behind

---
 core/lib/GNSSEph/SP3EphemerisStore.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/lib/GNSSEph/SP3EphemerisStore.cpp b/core/lib/GNSSEph/SP3EphemerisStore.cpp
index 0567b30..3c8c160 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.cpp
@@ -528,13 +528,13 @@ namespace gpstk
                       prec.Pos[2]==0.0))
                   {
                         //cout << "Bad position" << endl;
-                     haveP = haveV = haveEV = haveEP = false; // bad position record
+                     ; // bad position record
                   }
                   else if(fillClockStore && rejectBadClockFlag
                           && (fabs(crec.bias) >= 999999.))
                   {
                         //cout << "Bad clock" << endl;
-                     haveP = haveV = haveEV = haveEP = false; // bad clock record
+                     ; // bad clock record
                   }
                   else
                   {
@@ -543,14 +543,14 @@ namespace gpstk
                         posStore.addPositionRecord(sat,ttag,prec);
                      if(fillClockStore && (!rejectPredClockFlag || !predC))
                         clkStore.addClockRecord(sat,ttag,crec);
-
-                        // prepare for next
-                     haveP = haveV = haveEP = haveEV = predP = predC = false;
-                     prec.Pos = prec.Vel = prec.sigPos = prec.sigVel = Triple(0,0,0);
-                     if(fillClockStore)
-                        crec.bias = crec.drift = crec.sig_bias = crec.sig_drift = 0.0;
                   }
 
+                     // prepare for next, also when this record was rejected
+                  haveP = haveV = haveEP = haveEV = predP = predC = false;
+                  prec.Pos = prec.Vel = prec.sigPos = prec.sigVel = Triple(0,0,0);
+                  if(fillClockStore)
+                     crec.bias = crec.drift = crec.sig_bias = crec.sig_drift = 0.0;
+
                   goNext = true;
 
                }  // end while loop (loop twice)
-- 
2.43.0


From bf926691bccb2f4234932f80babf733513740113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 039/103] fix: SP3EphemerisStore: read sigmas of SP3-d files

---
 core/lib/GNSSEph/SP3EphemerisStore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/SP3EphemerisStore.cpp b/core/lib/GNSSEph/SP3EphemerisStore.cpp
index 3c8c160..4d4be51 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.cpp
@@ -357,7 +357,8 @@ namespace gpstk
          SP3Files.addFile(filename, head);
 
             // read data
-         bool isC(head.version==SP3Header::SP3c);
+         bool isC(head.version==SP3Header::SP3c ||
+                  head.version==SP3Header::SP3d);
          bool goNext,haveP,haveV,haveEP,haveEV,predP,predC;
          int i;
          CommonTime ttag;
-- 
2.43.0


From ffdabd75b14e9b2cddd282f270433ced00a141b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 040/103] fix: ephemeris stores: a file whose load failed can
 be loaded again

---
 core/lib/FileDirProc/FileStore.hpp        | 6 ++++++
 core/lib/GNSSEph/Rinex3EphemerisStore.cpp | 3 +++
 core/lib/GNSSEph/SP3EphemerisStore.cpp    | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/core/lib/FileDirProc/FileStore.hpp b/core/lib/FileDirProc/FileStore.hpp
index dc0ae66..6266f61 100644
--- a/core/lib/FileDirProc/FileStore.hpp
+++ b/core/lib/FileDirProc/FileStore.hpp
@@ -96,6 +96,12 @@ namespace gpstk
          headerMap.insert(make_pair(fn,header));
       }
 
+         /** Remove a filename, with its header, from the store; nothing
+          * is done when it is not there.
+          * @param fn filename to remove */
+      void removeFile(const std::string& fn)
+      { headerMap.erase(fn); }
+
          /** Access the header for a given filename
           * @throw InvalidRequest */
       const HeaderType& getHeader(const std::string& fn) const
diff --git a/core/lib/GNSSEph/Rinex3EphemerisStore.cpp b/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
index abc6b5a..c8b4c5b 100644
--- a/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
@@ -151,15 +151,18 @@ namespace gpstk
             catch(Exception& e) {
                what = string("Failed to read data in file ") + filename
                   + string(" : ") + e.getText();
+               NavFiles.removeFile(filename);   // may be loaded again
                return -3;
             }
             catch(std::exception& e) {
                what = string("std excep: ") + e.what();
+               NavFiles.removeFile(filename);   // may be loaded again
                return -3;
             }
             catch(...) {
                what = string("Unknown exception while reading data of file ")
                   + filename;
+               NavFiles.removeFile(filename);   // may be loaded again
                return -3;
             }
 
diff --git a/core/lib/GNSSEph/SP3EphemerisStore.cpp b/core/lib/GNSSEph/SP3EphemerisStore.cpp
index 4d4be51..11364c1 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.cpp
@@ -586,6 +586,7 @@ namespace gpstk
          catch(Exception& e)
          {
             e.addText("Error reading data of file " + filename);
+            SP3Files.removeFile(filename);   // may be loaded again
             GPSTK_RETHROW(e);
          }
 
@@ -769,6 +770,7 @@ namespace gpstk
          catch(Exception& e)
          {
             e.addText("Error reading data of file " + filename);
+            clkFiles.removeFile(filename);   // may be loaded again
             GPSTK_RETHROW(e);
          }
 
-- 
2.43.0


From 0f7eab518dc3444a535d1b2e031cb105ceae4661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 041/103] fix: SP3EphemerisStore: clear forgets the file names

---
 core/lib/GNSSEph/SP3EphemerisStore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/SP3EphemerisStore.hpp b/core/lib/GNSSEph/SP3EphemerisStore.hpp
index f4aec3f..8583741 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.hpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.hpp
@@ -236,7 +236,7 @@ namespace gpstk
 
          /// Clear the dataset, meaning remove all data
       virtual void clear(void) throw()
-      { clearPosition(); clearClock(); }
+      { clearPosition(); clearClock(); SP3Files.clear(); clkFiles.clear(); }
  
          /// Return time system (@note usually GPS, but CANNOT assume so)
       virtual TimeSystem getTimeSystem(void) const throw()
-- 
2.43.0


From e09dff2ef0f10ea7a3a2b4e743db62009512e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 042/103] fix: NavFilterMgr: finalize reports the messages it
 rejects

---
 core/lib/NavFilter/NavFilterMgr.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/lib/NavFilter/NavFilterMgr.cpp b/core/lib/NavFilter/NavFilterMgr.cpp
index 200ddde..929aded 100644
--- a/core/lib/NavFilter/NavFilterMgr.cpp
+++ b/core/lib/NavFilter/NavFilterMgr.cpp
@@ -82,11 +82,17 @@ namespace gpstk
          // current and next filter
       FilterList::iterator fliCur, fliNxt;
       rejected.clear();
+         // Each filter may reject messages more than once below: while
+         // it validates the data flushed from the filters before it,
+         // and while it is itself being finalized.
+      for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
+      {
+         (*fliCur)->rejected.clear();
+      }
          // touch ALL filters
       for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
       {
             // finalize the data in the current filter
-         (*fliCur)->rejected.clear();
          rv2.clear();
          (*fliCur)->finalize(rv2);
          
@@ -100,7 +106,6 @@ namespace gpstk
             rv1 = rv2;
             while ((fliNxt != filters.end()) && !rv1.empty())
             {
-               (*fliNxt)->rejected.clear();
                rv2.clear();
                (*fliNxt)->validate(rv1, rv2);
                rv1 = rv2;
@@ -115,6 +120,11 @@ namespace gpstk
             }
          }
       }
+      for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
+      {
+         if (!(*fliCur)->rejected.empty())
+            rejected.insert(*fliCur);
+      }
       return rv;
    }
 
-- 
2.43.0


From 36678c162c1e66d9de8469774e374f37508813e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 043/103] fix: LNavEphMaker: pass all messages on

---
 core/lib/NavFilter/LNavEphMaker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/NavFilter/LNavEphMaker.cpp b/core/lib/NavFilter/LNavEphMaker.cpp
index f2b4429..6347593 100644
--- a/core/lib/NavFilter/LNavEphMaker.cpp
+++ b/core/lib/NavFilter/LNavEphMaker.cpp
@@ -56,10 +56,11 @@ namespace gpstk
       {
          LNavFilterData *fd = dynamic_cast<LNavFilterData*>(*nmli);
          uint32_t sfid = EngNav::getSFID(fd->sf[1]);
+            // all messages pass this filter
+         accept(fd, msgBitsOut);
          if ((sfid < 1) || (sfid > 3))
          {
                // ignore non-ephemeris data
-            accept(fd, msgBitsOut);
             continue;
          }
          if (ephemerides.find(fd) == ephemerides.end())
-- 
2.43.0


From 5c7c71e62de60abe47f61270637f6118020a0f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 044/103] fix: LNavEphMaker: later messages of a call do not
 alter completed ephemerides

---
 core/lib/NavFilter/LNavEphMaker.cpp | 9 +++++++--
 core/lib/NavFilter/LNavEphMaker.hpp | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/lib/NavFilter/LNavEphMaker.cpp b/core/lib/NavFilter/LNavEphMaker.cpp
index 6347593..5e568fb 100644
--- a/core/lib/NavFilter/LNavEphMaker.cpp
+++ b/core/lib/NavFilter/LNavEphMaker.cpp
@@ -52,6 +52,7 @@ namespace gpstk
    {
       NavMsgList::iterator nmli;
       completeEphs.clear();
+      completeGroups.clear();
       for (nmli = msgBitsIn.begin(); nmli != msgBitsIn.end(); nmli++)
       {
          LNavFilterData *fd = dynamic_cast<LNavFilterData*>(*nmli);
@@ -92,8 +93,11 @@ namespace gpstk
          {
             continue;
          }
-            // everything checks out, put the data where the user can find it
-         completeEphs.push_back(&ephGrp);
+            // Everything checks out, put the data where the user can
+            // find it.  Use a copy because a later message of this
+            // same call may start the next ephemeris in ephGrp.
+         completeGroups.push_back(ephGrp);
+         completeEphs.push_back(&completeGroups.back());
       }
    }
 
@@ -107,6 +111,7 @@ namespace gpstk
          // valid, and all subframes are passed.
       ephemerides.clear();
       completeEphs.clear();
+      completeGroups.clear();
    }
 
 }
diff --git a/core/lib/NavFilter/LNavEphMaker.hpp b/core/lib/NavFilter/LNavEphMaker.hpp
index 4222a9e..14113b7 100644
--- a/core/lib/NavFilter/LNavEphMaker.hpp
+++ b/core/lib/NavFilter/LNavEphMaker.hpp
@@ -123,6 +123,10 @@ namespace gpstk
           * is no carry-over of contents between calls to
           * validate(). */
       EphList completeEphs;
+
+   private:
+         /// The subframe groups that completeEphs refers to.
+      std::list<EphGroup> completeGroups;
    };
 
       //@}
-- 
2.43.0


From 53cc15741bcc63f56f76fd604a7b726cc17c2257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 045/103] fix: CNav2SanityFilter: accept the last message of
 the week

---
 core/lib/NavFilter/CNav2SanityFilter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/NavFilter/CNav2SanityFilter.cpp b/core/lib/NavFilter/CNav2SanityFilter.cpp
index 8f1df37..5ae5efd 100755
--- a/core/lib/NavFilter/CNav2SanityFilter.cpp
+++ b/core/lib/NavFilter/CNav2SanityFilter.cpp
@@ -67,11 +67,11 @@ namespace gpstk
          bitOffset += 8; 
          uint32_t pageNum = (uint32_t) fd->pnb->asUnsignedLong(bitOffset,6,1);
 
-         unsigned msgSOW = 7200 * ITOW + TOI * 18; 
+         int msgSOW = 7200 * ITOW + TOI * 18; 
          msgSOW -= 18;
          if (msgSOW<0)
             msgSOW += 604800; 
-         unsigned xmitSOW = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).sow;
+         int xmitSOW = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).sow;
          unsigned xmitWeek = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).week;
  
          bool valid =
-- 
2.43.0


From 0b098932b22fc58bdfc865c778955c99f4027da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 046/103] fix: initialise every member in the GlobalTropModel
 constructors

---
 core/lib/GNSSCore/GlobalTropModel.cpp | 8 ++++----
 core/lib/GNSSCore/GlobalTropModel.hpp | 2 ++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSCore/GlobalTropModel.cpp b/core/lib/GNSSCore/GlobalTropModel.cpp
index 58e94a4..483129c 100644
--- a/core/lib/GNSSCore/GlobalTropModel.cpp
+++ b/core/lib/GNSSCore/GlobalTropModel.cpp
@@ -557,7 +557,7 @@ namespace gpstk
    // @param ht   Height of the receiver above mean sea level, in meters.
    void GlobalTropModel::setReceiverHeight(const double& ht)
    {
-      if(height != ht) {
+      if(!validHeight || height != ht) {
          height = ht; 
          validHeight = true;
          validCoeff = false;
@@ -570,7 +570,7 @@ namespace gpstk
    // @param lat  Latitude of receiver, in degrees.
    void GlobalTropModel::setReceiverLatitude(const double& lat)
    {
-      if(latitude != lat) {
+      if(!validLat || latitude != lat) {
          latitude = lat;
          validLat = true;
          validCoeff = false;
@@ -583,7 +583,7 @@ namespace gpstk
    // @param lat  Longitude of receiver, in degrees East.
    void GlobalTropModel::setReceiverLongitude(const double& lon)
    {
-      if(longitude != lon) {
+      if(!validLon || longitude != lon) {
          longitude = lon;
          validLon = true;
          validCoeff = false;
@@ -597,7 +597,7 @@ namespace gpstk
    void GlobalTropModel::setTime(const double& mjd)
    {
       double df(TWO_PI*(mjd - 44266.0)/365.25);       // -44239 + 1 - 28
-      if(df != dayfactor) {
+      if(!validDay || df != dayfactor) {
          dayfactor = df;
          validDay = true;
          validCoeff = false;
diff --git a/core/lib/GNSSCore/GlobalTropModel.hpp b/core/lib/GNSSCore/GlobalTropModel.hpp
index 28b3e09..b8854b0 100644
--- a/core/lib/GNSSCore/GlobalTropModel.hpp
+++ b/core/lib/GNSSCore/GlobalTropModel.hpp
@@ -110,6 +110,7 @@ namespace gpstk
       /// @param mjd  MJD (double)
       GlobalTropModel(const double& ht, const double& lat, const double& lon,
                       const double& mjd)
+            : GlobalTropModel()
       {
          validCoeff = validHeight = validLat = validLon = validDay = valid =
             false;
@@ -124,6 +125,7 @@ namespace gpstk
       /// @param RX   Receiver position.
       /// @param time Time.
       GlobalTropModel(const Position& RX, const CommonTime& time)
+            : GlobalTropModel()
       {
          validCoeff = validHeight = validLat = validLon = validDay = valid = false;
          setReceiverHeight(RX.getAltitude());
-- 
2.43.0


From 787e897802b5873c3f5ca21332d5b535496158a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 047/103] fix: initialise the validity flags in the Neill, MOPS
 and GGHeight tropospheric model constructors

---
 core/lib/GNSSCore/GGHeightTropModel.cpp | 3 ++-
 core/lib/GNSSCore/MOPSTropModel.cpp     | 2 ++
 core/lib/GNSSCore/NeillTropModel.cpp    | 1 +
 core/lib/GNSSCore/NeillTropModel.hpp    | 2 ++
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/GGHeightTropModel.cpp b/core/lib/GNSSCore/GGHeightTropModel.cpp
index 5103908..64860cc 100644
--- a/core/lib/GNSSCore/GGHeightTropModel.cpp
+++ b/core/lib/GNSSCore/GGHeightTropModel.cpp
@@ -60,6 +60,7 @@ namespace gpstk
 
    GGHeightTropModel::GGHeightTropModel(void)
    {
+      valid = false;
       validWeather = false; //setWeather(20.0,980.0,50.0);
       validHeights = false; //setHeights(0.0,0.0,0.0);
       validRxHeight = false;
@@ -99,7 +100,7 @@ namespace gpstk
                                         const double hP,
                                         const double hH)
    {
-      validRxHeight = false;
+      validRxHeight = validHeights = false;
       setWeather(T,P,H);
       setHeights(hT,hP,hH);
    }
diff --git a/core/lib/GNSSCore/MOPSTropModel.cpp b/core/lib/GNSSCore/MOPSTropModel.cpp
index 98564b1..3b980e5 100644
--- a/core/lib/GNSSCore/MOPSTropModel.cpp
+++ b/core/lib/GNSSCore/MOPSTropModel.cpp
@@ -113,6 +113,7 @@ namespace gpstk
    MOPSTropModel::MOPSTropModel( const double& ht,
                                  const double& lat,
                                  const int& doy )
+         : MOPSTropModel()
    {
       setReceiverHeight(ht);
       setReceiverLatitude(lat);
@@ -127,6 +128,7 @@ namespace gpstk
        * @param time Time.
        */
    MOPSTropModel::MOPSTropModel(const Position& RX, const CommonTime& time)
+         : MOPSTropModel()
    {
       setReceiverHeight(RX.getAltitude());
       setReceiverLatitude(RX.getGeodeticLatitude());
diff --git a/core/lib/GNSSCore/NeillTropModel.cpp b/core/lib/GNSSCore/NeillTropModel.cpp
index 5380016..5e96359 100644
--- a/core/lib/GNSSCore/NeillTropModel.cpp
+++ b/core/lib/GNSSCore/NeillTropModel.cpp
@@ -95,6 +95,7 @@ namespace gpstk
       // @param time Time.
    NeillTropModel::NeillTropModel( const Position& RX,
                                    const CommonTime& time )
+         : NeillTropModel()
    {
       setReceiverHeight(RX.getAltitude());
       setReceiverLatitude(RX.getGeodeticLatitude( ));
diff --git a/core/lib/GNSSCore/NeillTropModel.hpp b/core/lib/GNSSCore/NeillTropModel.hpp
index 341a909..d090c21 100644
--- a/core/lib/GNSSCore/NeillTropModel.hpp
+++ b/core/lib/GNSSCore/NeillTropModel.hpp
@@ -99,6 +99,7 @@ namespace gpstk
          /// @param ht   Height of the receiver above mean sea level, in
          ///             meters.
       NeillTropModel(const double& ht)
+            : NeillTropModel()
       { setReceiverHeight(ht); };
 
 
@@ -113,6 +114,7 @@ namespace gpstk
       NeillTropModel( const double& ht,
                       const double& lat,
                       const int& doy )
+            : NeillTropModel()
       { setReceiverHeight(ht); setReceiverLatitude(lat); setDayOfYear(doy); };
 
 
-- 
2.43.0


From 7481e4f48aed914b04317b65a57b6bd0270bc7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 048/103] fix: do not freeze the discontinuity corrector's
 wavelength factors at the first pass

---
 ext/lib/Geomatics/gdc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/gdc.cpp b/ext/lib/Geomatics/gdc.cpp
index 87c44a7..0be3a65 100644
--- a/ext/lib/Geomatics/gdc.cpp
+++ b/ext/lib/Geomatics/gdc.cpp
@@ -968,8 +968,8 @@ int gdc::fixSlips(const unsigned which)
       int i,nslips(0);
       long N;
       double step,istep;
-      static const double GFfactor(wl2/wlGF);
-      static const double IFfactor(isGLO ? 3.5 : 3.52941176470588);// TD what is this?
+      const double GFfactor(wl2/wlGF);
+      const double IFfactor(isGLO ? 3.5 : 3.52941176470588);// TD what is this?
 
       // loop over Arcs using iterator ait //, with dummy copy cit 
       map<int,Arc>::iterator ait;   //, cit;
@@ -1347,7 +1347,7 @@ try {
    long long nGF, nWL, nL1, nL2;
    Epoch ttag,tbeg,tend;
    map<int, Arc>::iterator ait;
-   static const string L1(cfg(doRINEX3) ? "L1C":"L1"), L2(cfg(doRINEX3) ? "L2W":"L2");
+   const string L1(cfg(doRINEX3) ? "L1C":"L1"), L2(cfg(doRINEX3) ? "L2W":"L2");
 
    // generate commands
    ostringstream oss;
-- 
2.43.0


From 4a0bee1099bc44d43f259cf71fb336b5209de096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 049/103] fix: give each thread its own DiscCorr working state

---
 ext/lib/Geomatics/DiscCorr.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ext/lib/Geomatics/DiscCorr.cpp b/ext/lib/Geomatics/DiscCorr.cpp
index 6f35e9d..8615057 100644
--- a/ext/lib/Geomatics/DiscCorr.cpp
+++ b/ext/lib/Geomatics/DiscCorr.cpp
@@ -526,7 +526,8 @@ static const int P1 = 2;
 static const int P2 = 3;
 static const int A1 = 4;
 static const int A2 = 5;
-vector<string> DCobstypes; // indexes into both data and this vector are L1,L2,etc...
+// the state of a call is kept per thread
+static thread_local vector<string> DCobstypes; // indexes into both data and this vector are L1,L2,etc...
 
 //------------------------------------------------------------------------------------
 // Return values (used by all routines within this module):
@@ -540,17 +541,17 @@ static const int ReturnOK=0;
 
 //------------------------------------------------------------------------------------
 // these are used only to associate a unique number in the log file with each pass
-static int GDCUnique=0;     // unique number for each call
-static int GDCUniqueFix;    // unique for each (WL,GF) fix
+static thread_local int GDCUnique=0;     // unique number for each call
+static thread_local int GDCUniqueFix;    // unique for each (WL,GF) fix
 static string GDCtag="GDC"; // begin each line of return message
 
 //------------------------------------------------------------------------------------
 // wavelength and other frequency-dependent quantities, determined early in DC()
 // constants used in linear combinations
-int GLOn;
-double wl1,wl2,wlwl,wlgf;        // wavelengths: L1,L2,widelane,narrowlane
-double wl1r,wl2r,wl1p,wl2p;      // coefficients in widelane linear combinations
-double gf1r,gf2r,gf1p,gf2p;      // coefficients in geometry-free linear combinations
+static thread_local int GLOn;
+static thread_local double wl1,wl2,wlwl,wlgf;        // wavelengths: L1,L2,widelane,narrowlane
+static thread_local double wl1r,wl2r,wl1p,wl2p;      // coefficients in widelane linear combinations
+static thread_local double gf1r,gf2r,gf1p,gf2p;      // coefficients in geometry-free linear combinations
 
 //------------------------------------------------------------------------------------
 // Flags - constants used to mark slips, etc. using the SatPass flag:
-- 
2.43.0


From 848bd8025f8116ce399077c4c09beb53e35a5c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 050/103] fix: fill the Expression operator tables once

---
 ext/lib/Math/Expression.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Math/Expression.cpp b/ext/lib/Math/Expression.cpp
index 7432fe0..2f28d55 100644
--- a/ext/lib/Math/Expression.cpp
+++ b/ext/lib/Math/Expression.cpp
@@ -216,7 +216,8 @@ namespace gpstk
 
    void Expression::defineOperators(void)
    {
-      if (!operatorsDefined)
+         // initialization of a static is done once, by one thread
+      static const bool defined = []()
       {
          operatorMap["+"]=1; 
          operatorMap["-"]=1;
@@ -253,7 +254,8 @@ namespace gpstk
          argumentPatternMap["log10"]="R";
 
          operatorsDefined = true;
-      }
+         return true;
+      }();
    }
    
    Expression::~Expression(void)
-- 
2.43.0


From 2a1686ab105ebcd9e33a59f8b18e8ec1f37e23f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 051/103] fix: compute factorials without a shared cache

---
 ext/lib/Geomatics/SpecialFuncs.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ext/lib/Geomatics/SpecialFuncs.cpp b/ext/lib/Geomatics/SpecialFuncs.cpp
index 5638624..cfe6b53 100644
--- a/ext/lib/Geomatics/SpecialFuncs.cpp
+++ b/ext/lib/Geomatics/SpecialFuncs.cpp
@@ -105,15 +105,11 @@ double factorial(const int& n)
 
       if(n > 32) return ::exp(lnGamma(double(n+1)));
 
-      static double store[33] = { 1.0, 1.0, 2.0, 6.0, 24.0, 120.0 };
-      static int nstore=5;
+      double f = 1.0;
+      for(int i=2; i<=n; i++)
+         f *= i;
 
-      while(nstore < n) {
-         int i = nstore++;
-         store[nstore] = store[i] * nstore;
-      }
-
-      return store[n];
+      return f;
 
    }
    catch(Exception& e) { GPSTK_RETHROW(e); }
-- 
2.43.0


From 0d07143b8842d0ee6edf77de2096025c3e4146de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 052/103] fix: let EngNav::subframeConvert work before any
 EngNav object exists

---
 core/lib/GNSSEph/EngNav.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index cabdac8..2f82a2c 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -379,6 +379,8 @@ namespace gpstk
    {
       short patId = -2, i = 2;
       struct DecodeQuant *p=NULL;
+         // the tables used below are set up by the constructor
+      static const EngNav tables;
 
       for (i=0; i< 20; i++)
          output[i] = 0.0L;
-- 
2.43.0


From d78eb5311d5c8cf56f5eebe5fe642a8fd126de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 053/103] fix: check planetary ephemeris files for errors,
 sizes and failed writes

---
 ext/lib/AstroEph/PlanetEphemeris.cpp       | 59 +++++++++++++++++++--
 ext/lib/AstroEph/PlanetEphemeris.hpp       |  5 ++
 ext/lib/Geomatics/SolarSystemEphemeris.cpp | 60 ++++++++++++++++++++--
 ext/lib/Geomatics/SolarSystemEphemeris.hpp |  5 ++
 4 files changed, 123 insertions(+), 6 deletions(-)

diff --git a/ext/lib/AstroEph/PlanetEphemeris.cpp b/ext/lib/AstroEph/PlanetEphemeris.cpp
index 2e6b57d..4643e35 100644
--- a/ext/lib/AstroEph/PlanetEphemeris.cpp
+++ b/ext/lib/AstroEph/PlanetEphemeris.cpp
@@ -192,7 +192,7 @@ namespace gpstk
                         GPSTK_THROW(e);
                      }
                   }
-                  else
+                  else if(n-2 < (int)const_names.size())   // else padding
                      constants[const_names[n-2]] = PEDouble(word);
                }
                else if(group == 1050) 
@@ -205,7 +205,7 @@ namespace gpstk
                   {
                      c_ncoeff[n-13] = asInt(word);
                   }
-                  else 
+                  else if(n < 39)
                   {
                      c_nsets[n-26] = asInt(word);
                   }
@@ -232,6 +232,8 @@ namespace gpstk
             GPSTK_THROW(e);
          }
 
+         testHeader();
+
          // EphemerisNumber != -1 means the header is complete
          EphemerisNumber = int(constants["DENUM"]);
 
@@ -260,6 +262,12 @@ namespace gpstk
             if(iret) return iret;
          }
 
+         if(store.empty())
+         {
+            Exception e("readASCIIdata finds no data");
+            GPSTK_THROW(e);
+         }
+
          // set the start and stop times in the header
          map<double,vector<double> >::iterator it = store.begin();
          startJD = it->second[0];
@@ -604,6 +612,8 @@ namespace gpstk
          writeBinary(strm,(char *)&c_nsets[12],sizeof(int));
          recLength += 3*sizeof(int);
 
+         testHeader(recLength);
+
          // 9. pad
          char c=' ';
          for(i=0; i < Ncoeff*sizeof(double) - recLength; i++)
@@ -640,8 +650,12 @@ namespace gpstk
          // TD after writing it out, clear the store array
          //store.clear();
 
-         strm.clear();
          strm.close();
+         if(!strm)
+         {
+            Exception e("Failed to write output file " + filename);
+            GPSTK_THROW(e);
+         }
 
          return 0;
       }
@@ -831,6 +845,29 @@ namespace gpstk
    }  // End of method 'PlanetEphemeris::readBinary()'
 
 
+   void PlanetEphemeris::testHeader(int recLength)
+   {
+      bool ok = (Ncoeff > 2 && Ncoeff < 1000000
+                 && Ncoeff*int(sizeof(double)) >= recLength);
+      for(int i=0; ok && i<13; i++)
+      {
+         // not in this ephemeris
+         if(c_ncoeff[i] == 0 && c_nsets[i] == 0) continue;
+
+         const long ncomp = (i == NUTATIONS ? 2 : 3);
+         ok = (c_offset[i] > 2 && c_offset[i] <= Ncoeff
+               && c_ncoeff[i] > 1 && c_ncoeff[i] <= Ncoeff
+               && c_nsets[i] > 0 && c_nsets[i] <= Ncoeff
+               && c_offset[i]-1 + ncomp*c_ncoeff[i]*c_nsets[i] <= Ncoeff);
+      }
+      if(!ok)
+      {
+         Exception e("Inconsistent sizes in the ephemeris header");
+         GPSTK_THROW(e);
+      }
+   }
+
+
    void PlanetEphemeris::readBinaryHeader(std::string filename) 
    {
       try 
@@ -841,6 +878,13 @@ namespace gpstk
          double AU,EMRAT;
          string word;
 
+         // forget any file opened before
+         istrm.close();
+         istrm.clear();
+         fileposMap.clear();
+         coefficients.clear();
+         EphemerisNumber = -1;
+
          // open the input binary file
          istrm.open(filename.c_str(), ios::in | ios::binary);
          if(!istrm) 
@@ -919,6 +963,8 @@ namespace gpstk
          readBinary((char *)&c_nsets[12],sizeof(int));
          recLength += 3*sizeof(int);
 
+         testHeader(recLength);
+
          // 9. pad - records are padded to be the same length as the data records b/c
          //          JPL does it (for Fortran reasons) - not necessary
          for(i=0; i < Ncoeff*sizeof(double)-recLength; i++)
@@ -1013,6 +1059,9 @@ namespace gpstk
 
          istrm.clear();
 
+         // a file without a single record cannot be used
+         if(nrec == 1 && iret == 0) iret = -3;
+
          return iret;
       }
       catch(Exception& e) { GPSTK_RETHROW(e); }
@@ -1104,6 +1153,10 @@ namespace gpstk
 
          for(i=0; i<6; i++) PV[i]=0.0;
          if(which == NONE) return;
+         if(c_ncoeff[which] == 0) {
+            Exception e("Body is not in the ephemeris");
+            GPSTK_THROW(e);
+         }
 
          double T,Tbeg,Tspan,Tspan0;
          Tbeg = coefficients[0];
diff --git a/ext/lib/AstroEph/PlanetEphemeris.hpp b/ext/lib/AstroEph/PlanetEphemeris.hpp
index 5c37766..8b18675 100644
--- a/ext/lib/AstroEph/PlanetEphemeris.hpp
+++ b/ext/lib/AstroEph/PlanetEphemeris.hpp
@@ -244,6 +244,11 @@ namespace gpstk
          /// @throw Exception if there is any error or if EOF is found.
       void readBinary(char *ptr, size_t size);
 
+      /// Test the sizes given in the header.
+      /// @param recLength  the length of the header record, 0 if not known
+      /// @throw Exception if they are inconsistent.
+      void testHeader(int recLength=0);
+
          /// Read header from a binary file.
          /// @param filename  name of binary file, probably written by writeBinaryFile().
          /// @throw Exception if read error or premature EOF if found.
diff --git a/ext/lib/Geomatics/SolarSystemEphemeris.cpp b/ext/lib/Geomatics/SolarSystemEphemeris.cpp
index 23de19d..ffd23fd 100644
--- a/ext/lib/Geomatics/SolarSystemEphemeris.cpp
+++ b/ext/lib/Geomatics/SolarSystemEphemeris.cpp
@@ -189,7 +189,7 @@ try {
                }
                LOG(DEBUG) << "Nconst matches: " << Nconst << " = " << word;
             }
-            else
+            else if(n-2 < (int)const_names.size())   // else padding
                constants[const_names[n-2]] = SSEDouble(word);
          }
          else if(group == 1050) {
@@ -201,7 +201,7 @@ try {
                c_ncoeff[n-13] = asInt(word);
                LOG(DEBUG) << "c_ncoeff[" << n-13 << "] = " << c_ncoeff[n-13];
             }
-            else {
+            else if(n < 39){
                c_nsets[n-26] = asInt(word);
                LOG(DEBUG) << "c_nsets[" << n-26 << "] = " << c_nsets[n-26];
             }
@@ -226,6 +226,8 @@ try {
       GPSTK_THROW(e);
    }
 
+   testHeader();
+
    // EphemerisNumber != -1 means the header is complete
    EphemerisNumber = int(constants["DENUM"]);
 
@@ -252,6 +254,12 @@ try {
       if(iret) return iret;
    }
 
+   if(store.empty())
+   {
+      Exception e("readASCIIdata finds no data");
+      GPSTK_THROW(e);
+   }
+
    // set the start and stop times in the header
    map<double,vector<double> >::iterator it = store.begin();
    startJD = it->second[0];
@@ -582,6 +590,8 @@ try {
    writeBinary(strm,(char *)&c_nsets[12],sizeof(int));
    recLength += 3*sizeof(int);
   
+   testHeader(recLength);
+
    // 9. pad
    LOG(DEBUG) << "Pad length 1 = " << Ncoeff*sizeof(double)-recLength;
    char c=' ';
@@ -619,8 +629,12 @@ try {
    // TD after writing it out, clear the store array
    //store.clear();
 
-   strm.clear();
    strm.close();
+   if(!strm)
+   {
+      Exception e("Failed to write output file " + filename);
+      GPSTK_THROW(e);
+   }
 
    return 0;
 }
@@ -815,6 +829,30 @@ catch(exception& e) { Exception E("std except: "+string(e.what())); GPSTK_THROW(
 catch(...) { Exception e("Unknown exception"); GPSTK_THROW(e); }
 }
 
+//------------------------------------------------------------------------------------
+// private
+void SolarSystemEphemeris::testHeader(int recLength)
+{
+   bool ok = (Ncoeff > 2 && Ncoeff < 1000000
+              && Ncoeff*int(sizeof(double)) >= recLength);
+   for(int i=0; ok && i<13; i++)
+   {
+      // not in this ephemeris
+      if(c_ncoeff[i] == 0 && c_nsets[i] == 0) continue;
+
+      const long ncomp = (i == NUTATIONS ? 2 : 3);
+      ok = (c_offset[i] > 2 && c_offset[i] <= Ncoeff
+            && c_ncoeff[i] > 1 && c_ncoeff[i] <= Ncoeff
+            && c_nsets[i] > 0 && c_nsets[i] <= Ncoeff
+            && c_offset[i]-1 + ncomp*c_ncoeff[i]*c_nsets[i] <= Ncoeff);
+   }
+   if(!ok)
+   {
+      Exception e("Inconsistent sizes in the ephemeris header");
+      GPSTK_THROW(e);
+   }
+}
+
 //------------------------------------------------------------------------------------
 // private
 void SolarSystemEphemeris::readBinaryHeader(std::string filename)
@@ -825,6 +863,13 @@ try {
    double AU,EMRAT;
    string word;
 
+   // forget any file opened before
+   istrm.close();
+   istrm.clear();
+   fileposMap.clear();
+   coefficients.clear();
+   EphemerisNumber = -1;
+
    // open the input binary file
    istrm.open(filename.c_str(), ios::in | ios::binary);
    if(!istrm.is_open()) {
@@ -916,6 +961,8 @@ try {
    LOG(DEBUG) << "readBinaryHeader reads " << 12 << " " << c_offset[12] << " "
       << c_ncoeff[12] << " " << c_nsets[12];
 
+   testHeader(recLength);
+
    // 9. pad - records are padded to be the same length as the data records b/c
    //          JPL does it (for Fortran reasons) - not necessary
    LOG(DEBUG) << "Pad length 1 = " << Ncoeff*sizeof(double)-recLength;
@@ -1009,6 +1056,9 @@ try {
 
    istrm.clear();
 
+   // a file without a single record cannot be used
+   if(nrec == 1 && iret == 0) iret = -3;
+
    return iret;
 }
 catch(Exception& e) { GPSTK_RETHROW(e); }
@@ -1097,6 +1147,10 @@ try {
 
    for(i=0; i<6; i++) PV[i]=0.0;
    if(which == NONE) return;
+   if(c_ncoeff[which] == 0) {
+      Exception e("Body is not in the ephemeris");
+      GPSTK_THROW(e);
+   }
 
    // coefficients[0,1] give span of JD's in which coefficients[2,...] are applicable
    // coefficients[0,1] are even days JDs - 2452xxx.5 => secOfDay() for these == 0.
diff --git a/ext/lib/Geomatics/SolarSystemEphemeris.hpp b/ext/lib/Geomatics/SolarSystemEphemeris.hpp
index 35b4245..9677bbc 100644
--- a/ext/lib/Geomatics/SolarSystemEphemeris.hpp
+++ b/ext/lib/Geomatics/SolarSystemEphemeris.hpp
@@ -291,6 +291,11 @@ private:
    /// @throw Exception if there is any error or if EOF is found.
    void readBinary(char *ptr, size_t size);
 
+   /// Test the sizes given in the header.
+   /// @param recLength  the length of the header record, 0 if not known
+   /// @throw Exception if they are inconsistent.
+   void testHeader(int recLength=0);
+
    /// Read header from a binary file.
    /// @param filename  name of binary file, probably written by writeBinaryFile().
    /// @throw Exception if read error or premature EOF if found.
-- 
2.43.0


From b121a05b902f84a959840814e62b82b571305b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 054/103] fix: report read errors in Yuma and SEM almanac
 stores and allow a retry

---
 ext/lib/GNSSEph/SEMAlmanacStore.cpp  | 8 ++++++++
 ext/lib/GNSSEph/YumaAlmanacStore.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/ext/lib/GNSSEph/SEMAlmanacStore.cpp b/ext/lib/GNSSEph/SEMAlmanacStore.cpp
index 0b1d2e3..a968b81 100644
--- a/ext/lib/GNSSEph/SEMAlmanacStore.cpp
+++ b/ext/lib/GNSSEph/SEMAlmanacStore.cpp
@@ -92,6 +92,14 @@ namespace gpstk
             OrbAlmGen oag = OrbAlmGen(rec); 
             addOrbAlm(&(oag));
          }
+
+            // anything but the end of the file ended the loop
+         if (!strm.eof())
+         {
+            removeFile(filename);   // may be loaded again
+            Exception e("File " + filename + " could not be read.");
+            GPSTK_THROW(e);
+         }
       }
       catch (Exception& e)
       {
diff --git a/ext/lib/GNSSEph/YumaAlmanacStore.cpp b/ext/lib/GNSSEph/YumaAlmanacStore.cpp
index 6746eae..09d32d6 100644
--- a/ext/lib/GNSSEph/YumaAlmanacStore.cpp
+++ b/ext/lib/GNSSEph/YumaAlmanacStore.cpp
@@ -80,6 +80,14 @@ namespace gpstk
             OrbAlmGen oag = OrbAlmGen(rec); 
             addOrbAlm(&(oag));
          }	 
+
+            // anything but the end of the file ended the loop
+         if (!strm.eof())
+         {
+            removeFile(filename);   // may be loaded again
+            Exception e("File " + filename + " could not be read.");
+            GPSTK_THROW(e);
+         }
       }
       catch (Exception& e)
       {
-- 
2.43.0


From 691af1f21578c371f21452258e020c5c204d0cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 055/103] fix: report read errors in RinexEphemerisStore and
 allow a retry

---
 core/lib/GNSSEph/RinexEphemerisStore.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/lib/GNSSEph/RinexEphemerisStore.cpp b/core/lib/GNSSEph/RinexEphemerisStore.cpp
index 709fc45..2f5cb56 100644
--- a/core/lib/GNSSEph/RinexEphemerisStore.cpp
+++ b/core/lib/GNSSEph/RinexEphemerisStore.cpp
@@ -72,6 +72,14 @@ namespace gpstk
          RinexNavData rec;
          while(strm >> rec)
             addEphemeris(rec);
+
+            // anything but the end of the file ended the loop
+         if (!strm.eof())
+         {
+            removeFile(filename);   // may be loaded again
+            Exception e("File " + filename + " could not be read.");
+            GPSTK_THROW(e);
+         }
       }
       catch (gpstk::Exception& e)
       {
-- 
2.43.0


From b8e4da075e17889d26c2754bf330035435cff430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 056/103] fix: report read errors in IonexStore, allow a retry
 and keep its times right

---
 ext/lib/FileHandling/Ionex/IonexStore.cpp | 24 +++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/ext/lib/FileHandling/Ionex/IonexStore.cpp b/ext/lib/FileHandling/Ionex/IonexStore.cpp
index ca57ff2..f3c0ae6 100644
--- a/ext/lib/FileHandling/Ionex/IonexStore.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexStore.cpp
@@ -94,16 +94,27 @@ namespace gpstk
             // keep an inventory of the loaded files 
          addFile(filename,header);
 
-            // this map is useful in finding DCB value
-         inxDCBMap[header.firstEpoch] = header.svsmap;
-
             // object data. If valid, add to the map
          IonexData iod;
-         while ( strm >> iod && iod.isValid() )
+         while ( strm >> iod )
          {
-            addMap(iod);
+            if ( iod.isValid() )
+            {
+               addMap(iod);
+            }
          }
 
+            // anything but the end of the file ended the loop
+         if (!strm.eof())
+         {
+            removeFile(filename);   // may be loaded again
+            Exception e("File " + filename + " could not be read.");
+            GPSTK_THROW(e);
+         }
+
+            // this map is useful in finding DCB value
+         inxDCBMap[header.firstEpoch] = header.svsmap;
+
       }
       catch (gpstk::Exception& e)
       {
@@ -131,7 +142,8 @@ namespace gpstk
       {
          initialTime = t;
       }
-      else if (t > finalTime)
+
+      if (t > finalTime)
       {
          finalTime = t;
       }
-- 
2.43.0


From 3ba79b97c42e81dec00d91e7eb6fc6f4e7cce2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 057/103] fix: report open failures, read errors and bad lines
 in Earth orientation files

---
 ext/lib/GNSSEph/EOPDataStore.cpp | 21 ++++++++++++++++++++-
 ext/lib/Geomatics/EOPStore.cpp   |  6 +++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/ext/lib/GNSSEph/EOPDataStore.cpp b/ext/lib/GNSSEph/EOPDataStore.cpp
index aa3e163..0a8573f 100644
--- a/ext/lib/GNSSEph/EOPDataStore.cpp
+++ b/ext/lib/GNSSEph/EOPDataStore.cpp
@@ -120,6 +120,7 @@ namespace gpstk
          
          addEOPData(MJD(mjd,TimeSystem::UTC), EOPData(xp,yp,UT1mUTC,dPsi,dEps));
       };
+      if(inpf.bad()) ok = false;
       inpf.close();
 
       if(!ok) 
@@ -185,6 +186,7 @@ namespace gpstk
 
          addEOPData(MJD(mjd,TimeSystem::UTC), EOPData(xp,yp,UT1mUTC,dPsi,dEps));
       };
+      if(inpf.bad()) ok = false;
       inpf.close();
 
       if(!ok) 
@@ -204,6 +206,11 @@ namespace gpstk
    void EOPDataStore::loadSTKFile(std::string stkFile)
    {
       std::ifstream fstk(stkFile.c_str());
+      if(!fstk)
+      {
+         FileMissingException fme("Could not open STK file " + stkFile);
+         GPSTK_THROW(fme);
+      }
 
       bool bData = false;
 
@@ -212,7 +219,6 @@ namespace gpstk
       {   
          if(buf.substr(0,19) == "NUM_OBSERVED_POINTS")
          {
-            (void)StringUtils::asInt(buf.substr(20));
             continue;
          }
          else if(buf.substr(0,14) == "BEGIN OBSERVED")
@@ -233,6 +239,13 @@ namespace gpstk
 
          if(bData)
          {
+            if(buf.size() < 47)
+            {
+               FileMissingException fme("STK File " + stkFile
+                                        + " is corrupted or wrong format");
+               GPSTK_THROW(fme);
+            }
+
             // # FORMAT(I4,I3,I3,I6,2F10.6,2F11.7,4F10.6,I4)
             //int year = StringUtils::asInt(buf.substr(0,4));
             //int month = StringUtils::asInt(buf.substr(4,3));
@@ -250,6 +263,12 @@ namespace gpstk
 
       }  // End of 'while'
 
+      if(fstk.bad())
+      {
+         FileMissingException fme("Error while reading STK file " + stkFile);
+         GPSTK_THROW(fme);
+      }
+
       fstk.close();
    }
 
diff --git a/ext/lib/Geomatics/EOPStore.cpp b/ext/lib/Geomatics/EOPStore.cpp
index 5c95298..2c25df0 100644
--- a/ext/lib/Geomatics/EOPStore.cpp
+++ b/ext/lib/Geomatics/EOPStore.cpp
@@ -115,7 +115,10 @@ namespace gpstk
       // read the file into an EOPPrediction
       EOPPrediction eopp;
       try {
-         eopp.loadFile(filename);
+         if(eopp.loadFile(filename) != 0) {
+            FileMissingException fme("Error while reading EOPP file " + filename);
+            GPSTK_THROW(fme);
+         }
       }
       catch(FileMissingException& fme)
       {
@@ -169,6 +172,7 @@ namespace gpstk
 
          addEOP(mjd,eo);
       };
+      if(inpf.bad()) ok = false;
       inpf.close();
 
       if(!ok) {
-- 
2.43.0


From b7a19ac3e3ba6afdd5fe00407c28dfbe943bce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 058/103] fix: report read errors in load tide files

---
 ext/lib/Geomatics/AtmLoadTides.cpp   | 5 +++++
 ext/lib/Geomatics/OceanLoadTides.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/ext/lib/Geomatics/AtmLoadTides.cpp b/ext/lib/Geomatics/AtmLoadTides.cpp
index 4b8321c..19b0060 100644
--- a/ext/lib/Geomatics/AtmLoadTides.cpp
+++ b/ext/lib/Geomatics/AtmLoadTides.cpp
@@ -190,6 +190,11 @@ namespace gpstk {
 
       }  // end loop over lines in the file
 
+      if(infile.bad()) {
+         Exception e("File " + filename + " could not be read.");
+         GPSTK_THROW(e);
+      }
+
       return nfound;
    }
    catch(Exception& e) { GPSTK_RETHROW(e); }
diff --git a/ext/lib/Geomatics/OceanLoadTides.cpp b/ext/lib/Geomatics/OceanLoadTides.cpp
index 3587ccc..14b416f 100644
--- a/ext/lib/Geomatics/OceanLoadTides.cpp
+++ b/ext/lib/Geomatics/OceanLoadTides.cpp
@@ -199,6 +199,11 @@ namespace gpstk {
 
       }  // end loop over lines in the file
 
+      if(infile.bad()) {
+         Exception e("File " + filename + " could not be read.");
+         GPSTK_THROW(e);
+      }
+
       return n;
    }
    catch(Exception& e) { GPSTK_RETHROW(e); }
-- 
2.43.0


From 1acb5599097e6bdb503755f1fff436d079f1b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 059/103] fix: report read errors in SatMetaDataStore::loadData

---
 core/lib/GNSSCore/SatMetaDataStore.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/lib/GNSSCore/SatMetaDataStore.cpp b/core/lib/GNSSCore/SatMetaDataStore.cpp
index aa51664..1bfb20e 100644
--- a/core/lib/GNSSCore/SatMetaDataStore.cpp
+++ b/core/lib/GNSSCore/SatMetaDataStore.cpp
@@ -172,6 +172,12 @@ namespace gpstk
             rv = false;
          }
       }
+      if (ins.bad())
+      {
+         cerr << "Error reading " << sourceName << " after line " << lineNo
+              << endl;
+         rv = false;
+      }
       return rv;
    }
 
-- 
2.43.0


From c6e1ce2ead1c77e064c375f49083a3951a5a7ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 060/103] fix: keep StringUtils::floatFormat inside its string
 for values it cannot print

---
 core/lib/Utilities/StringUtils.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.cpp b/core/lib/Utilities/StringUtils.cpp
index d95505f..c27fb4f 100644
--- a/core/lib/Utilities/StringUtils.cpp
+++ b/core/lib/Utilities/StringUtils.cpp
@@ -42,6 +42,7 @@
  */
 
 #include "StringUtils.hpp"
+#include <cmath>
 
 /* The DEBUG_COL macro is used to help debug issues with column
  * alignment and positioning.  If enabled, it will print, to stderr, a
@@ -214,6 +215,12 @@ namespace gpstk
          std::ostringstream oss;
          std::string rv;
          std::string::size_type pos;
+            // infinities and NaN have neither a point nor an exponent
+         const bool finite(std::isfinite(d*10));
+         if (!finite)
+         {
+            lead = FFLead::NonZero;
+         }
          switch (sign)
          {
             case FFSign::NegOnly:
@@ -259,12 +266,15 @@ namespace gpstk
                break;
          }
             // change the exponent size if needed
-         pos = rv.find('e');
-         unsigned currentExpSize = rv.length() - (pos+2);
-         if (currentExpSize < exponent)
-            rv.insert(pos+2, exponent - currentExpSize, '0');
-            // change exponent character
-         rv[pos] = expChar;
+         if (finite)
+         {
+            pos = rv.find('e');
+            unsigned currentExpSize = rv.length() - (pos+2);
+            if (currentExpSize < exponent)
+               rv.insert(pos+2, exponent - currentExpSize, '0');
+               // change exponent character
+            rv[pos] = expChar;
+         }
             // fill according to alignment request
          if (rv.length() < width)
          {
-- 
2.43.0


From b839e56ec958ed9056ca3f5c8bfe0a349212725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 061/103] fix: stop SatDataReader queries at the end of the
 list

---
 ext/lib/FileHandling/SatDataReader.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ext/lib/FileHandling/SatDataReader.cpp b/ext/lib/FileHandling/SatDataReader.cpp
index 8d4cbb3..5e87f6d 100644
--- a/ext/lib/FileHandling/SatDataReader.cpp
+++ b/ext/lib/FileHandling/SatDataReader.cpp
@@ -246,6 +246,12 @@ namespace gpstk
       while( (*iter).second.deactivationDate < epoch )
       {
          ++iter;
+
+            // After the last deactivation date
+         if( iter == range.second )
+         {
+            return "";
+         }
       }
 
          // Test if epoch is after corresponding launch date
@@ -296,6 +302,12 @@ namespace gpstk
       while( (*iter).second.deactivationDate < epoch )
       {
          ++iter;
+
+            // After the last deactivation date
+         if( iter == range.second )
+         {
+            return -1;
+         }
       }
 
          // Test if epoch is after corresponding launch date
@@ -346,6 +358,12 @@ namespace gpstk
       while( (*iter).second.deactivationDate < epoch )
       {
          ++iter;
+
+            // After the last deactivation date
+         if( iter == range.second )
+         {
+            return CommonTime::END_OF_TIME;
+         }
       }
 
          // Test if epoch is after corresponding launch date
@@ -396,6 +414,12 @@ namespace gpstk
       while( (*iter).second.deactivationDate < epoch )
       {
          ++iter;
+
+            // After the last deactivation date
+         if( iter == range.second )
+         {
+            return CommonTime::BEGINNING_OF_TIME;
+         }
       }
 
          // Test if epoch is after corresponding launch date
-- 
2.43.0


From 1ff3756dd850873f9ac3fbb207b329dc5c7b0652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 062/103] fix: let RINEX navigation conversions throw what they
 throw

---
 core/lib/FileHandling/RINEX/RinexNavData.cpp   |  2 +-
 core/lib/FileHandling/RINEX/RinexNavData.hpp   |  2 +-
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 12 ++++++------
 core/lib/FileHandling/RINEX3/Rinex3NavData.hpp | 12 ++++++------
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index 760b9eb..dddb6ae 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -160,7 +160,7 @@ namespace gpstk
         << endl;
    }
 
-   RinexNavData::operator EngEphemeris() const throw()
+   RinexNavData::operator EngEphemeris() const
    {
       EngEphemeris ee;
 
diff --git a/core/lib/FileHandling/RINEX/RinexNavData.hpp b/core/lib/FileHandling/RINEX/RinexNavData.hpp
index 07fece7..e76a54c 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.hpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.hpp
@@ -101,7 +101,7 @@ namespace gpstk
          /**
           * Converts this RinexNavData to an EngEphemeris object.
           */
-      operator EngEphemeris() const throw();
+      operator EngEphemeris() const;
 
          /** Convert this RinexNavData to a GPSEphemeris object.  For
           * backward compatibility only - use Rinex3NavData. */
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 2fd179c..8f11c9b 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -538,7 +538,7 @@ namespace gpstk
 
       // Deprecated; use GPSEphemeris.
       // Converts this Rinex3NavData to an EngEphemeris object.
-   Rinex3NavData::operator EngEphemeris() const throw()
+   Rinex3NavData::operator EngEphemeris() const
    {
       EngEphemeris ee;
 
@@ -688,7 +688,7 @@ namespace gpstk
    }
 
       // Casts Rinex3NavData to a GPSEphemeris object.
-   Rinex3NavData::operator GPSEphemeris() const throw()
+   Rinex3NavData::operator GPSEphemeris() const
    {
       GPSEphemeris gpse;
 
@@ -759,7 +759,7 @@ namespace gpstk
    }
 
       // Casts this Rinex3NavData to a GloEphemeris object.
-   Rinex3NavData::operator GloEphemeris() const throw()
+   Rinex3NavData::operator GloEphemeris() const
    {
 
       GloEphemeris gloe;
@@ -782,7 +782,7 @@ namespace gpstk
    }  // End of 'Rinex3NavData::operator GloEphemeris()'
 
       // Casts Rinex3NavData to a GalEphemeris object.
-   Rinex3NavData::operator GalEphemeris() const throw()
+   Rinex3NavData::operator GalEphemeris() const
    {
       GalEphemeris gale;
 
@@ -868,7 +868,7 @@ namespace gpstk
    }
 
       // Casts Rinex3NavData to a BDSEphemeris object.
-   Rinex3NavData::operator BDSEphemeris() const throw()
+   Rinex3NavData::operator BDSEphemeris() const
    {
       BDSEphemeris bdse;
 
@@ -914,7 +914,7 @@ namespace gpstk
    }
 
       // Casts Rinex3NavData to a QZSEphemeris object.
-   Rinex3NavData::operator QZSEphemeris() const throw()
+   Rinex3NavData::operator QZSEphemeris() const
    {
       QZSEphemeris qzse;
 
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp
index 0ed0440..4c8564d 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.hpp
@@ -119,22 +119,22 @@ namespace gpstk
 
          /// deprecated; use GPSEphemeris, GPS-only.
          /// Converts Rinex3NavData to an EngEphemeris object.
-      operator EngEphemeris() const throw();
+      operator EngEphemeris() const;
 
          /// Converts Rinex3NavData to a GPSEphemeris object.
-      operator GPSEphemeris() const throw();
+      operator GPSEphemeris() const;
 
          /// Converts this Rinex3NavData to a GloEphemeris object.
-      operator GloEphemeris() const throw();
+      operator GloEphemeris() const;
 
          /// Converts Rinex3NavData to a GalEphemeris object.
-      operator GalEphemeris() const throw();
+      operator GalEphemeris() const;
 
          /// Converts Rinex3NavData to a BDSEphemeris object.
-      operator BDSEphemeris() const throw();
+      operator BDSEphemeris() const;
 
          /// Converts Rinex3NavData to a QZSEphemeris object.
-      operator QZSEphemeris() const throw();
+      operator QZSEphemeris() const;
 
          /// Converts the (non-CommonTime) data to an easy list
          /// for comparison operators.
-- 
2.43.0


From 3b4916b4718d7f83dbdf683692907fcc58b49f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 063/103] fix: let EOPStore::dump throw what it throws

---
 ext/lib/Geomatics/EOPStore.cpp | 1 -
 ext/lib/Geomatics/EOPStore.hpp | 3 +--
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/EOPStore.cpp b/ext/lib/Geomatics/EOPStore.cpp
index 2c25df0..600b57c 100644
--- a/ext/lib/Geomatics/EOPStore.cpp
+++ b/ext/lib/Geomatics/EOPStore.cpp
@@ -227,7 +227,6 @@ namespace gpstk
    //   0 start and stop times (MJD), and number of EOPs.
    //   1 list of all times and EOPs.
    void EOPStore::dump(short detail, ostream& os) const
-      throw()
    {
       os << "EOPStore dump (" << mapMJD_EOP.size() << " entries):\n";
       os << " Time limits: [MJD " << begMJD << " - " << endMJD << "]";
diff --git a/ext/lib/Geomatics/EOPStore.hpp b/ext/lib/Geomatics/EOPStore.hpp
index c4fbbcb..0ce3c3c 100644
--- a/ext/lib/Geomatics/EOPStore.hpp
+++ b/ext/lib/Geomatics/EOPStore.hpp
@@ -123,8 +123,7 @@ namespace gpstk {
       /// @param detail determines how much detail to include in the output
       ///  0 start and stop times (MJD), and number of EOPs.
       ///  1 list of all times and EOPs.
-      void dump(short detail=0, std::ostream& s=std::cout) const
-         throw();
+      void dump(short detail=0, std::ostream& s=std::cout) const;
 
       /// Return first time (MJD) in the store.
       int getFirstTimeMJD(void) throw()
-- 
2.43.0


From c024538e8b59b21c18e9d64c432543c1b3962b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 064/103] fix: check the SV ID in EngNav::getSubframePattern

---
 core/lib/GNSSEph/EngNav.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index 2f82a2c..498281c 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -509,6 +509,8 @@ namespace gpstk
       svid  = static_cast<short>( itemp );
       if ( svid <= 32 )
          iret = 4;            /* PRN orbit data */
+      else if ( svid < 51 )
+         iret = 0;            /* SV IDs 33-50 are not defined */
       else
          iret = patId[svid-51];  /* look up pat id for almanac overhead
                                     information */
-- 
2.43.0


From 58c428f1df1c42ce09f79054fd6c847b3a16b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 065/103] fix: compare the IODE of subframe 3 in
 EngEphemeris::isDataSet

---
 core/lib/GNSSEph/EngEphemeris.cpp | 7 ++++++-
 core/lib/GNSSEph/EngEphemeris.hpp | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index 0522e5b..cf254a2 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -74,6 +74,7 @@ namespace gpstk
       HOWtime[0] = HOWtime[1] = HOWtime[2] = 0;
 
       IODC = IODE = 0;
+      sf3IODE = -1;
       Tgd = 0.0;
 
       isFIC = true;
@@ -308,6 +309,7 @@ namespace gpstk
       double w         = ficked[10];
       double OMEGAdot  = ficked[11];
       double idot      = ficked[13];
+      sf3IODE          = static_cast<short>( ldexp( ficked[12], -11 ) );
 
          // The system is assumed (legacy navigation message is from GPS)
       satSys = "G";
@@ -409,7 +411,8 @@ namespace gpstk
    {
       if (haveSubframe[0] && haveSubframe[1] && haveSubframe[2])
       {
-         return ((IODC & 0xff) == (IODE & 0xff));
+         return ((IODC & 0xff) == (IODE & 0xff)) &&
+            ((sf3IODE < 0) || (sf3IODE == (IODE & 0xff)));
       }
       return false;
    }
@@ -1096,6 +1099,7 @@ namespace gpstk
          haveSubframe[0] = true;
          haveSubframe[1] = true;
          haveSubframe[2] = true;
+         sf3IODE = -1;
       }
       catch (Exception& exc)
       {
@@ -1323,6 +1327,7 @@ namespace gpstk
                         IDot);
 
          haveSubframe[2] = true;
+         sf3IODE = -1;
       }
       catch (Exception& exc)
       {
diff --git a/core/lib/GNSSEph/EngEphemeris.hpp b/core/lib/GNSSEph/EngEphemeris.hpp
index c6e3054..4793d12 100644
--- a/core/lib/GNSSEph/EngEphemeris.hpp
+++ b/core/lib/GNSSEph/EngEphemeris.hpp
@@ -623,6 +623,10 @@ namespace gpstk
                            const short PRN,
                            const short track);
       uint32_t subframeStore[3][10];
+
+         /** IODE found in subframe 3, or -1 when the subframe 3 data
+          * were not given as a navigation subframe. */
+      short sf3IODE;
          // True if initialized with FIC data
       bool isFIC;
 
-- 
2.43.0


From 747f3f46194193b398a5875193053df755f3cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 066/103] fix: resolve Toe and Toc of EngEphemeris against the
 HOW of subframe 1

---
 core/lib/GNSSEph/EngEphemeris.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index cf254a2..f9d265c 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -208,10 +208,6 @@ namespace gpstk
          // While we're at it, we'll fake the A-S bit such that it
          // appears A-S is ON, even though we warn the user NOT to trust
          // returns from the getASAlert() method.
-      const uint32_t sf1Lead[2] = { 0x00000000, 0x00000900 };
-      const uint32_t sf2Lead[2] = { 0x00000000, 0x00000A00 };
-      const uint32_t sf3Lead[2] = { 0x00000000, 0x00000B00 };
-
          // Handover word times represent the time of the leading edge of the
          // NEXvt subframe.  Therefore, HOW should always correspond to
          //   :06/:36 for SF 1
@@ -219,8 +215,14 @@ namespace gpstk
          //   :18/:48 for SF 3
          // This method hasn't a clue about the accuracy of the SOW
          // input by the user, but it WILL enforce this relationship.
-         //long frameCount = sf1TransmitSOW / 30;
-         //long SF1HOWTime = (frameCount * 30) + 6;
+      long frameCount = sf1TransmitSOW / 30;
+      uint32_t SF1HOWCount = frameCount * 5 + 1;
+      const uint32_t sf1Lead[2] = { 0x00000000,
+                                    (SF1HOWCount << 13) | 0x00000900 };
+      const uint32_t sf2Lead[2] = { 0x00000000,
+                                    ((SF1HOWCount + 1) << 13) | 0x00000A00 };
+      const uint32_t sf3Lead[2] = { 0x00000000,
+                                    ((SF1HOWCount + 2) << 13) | 0x00000B00 };
 
          // Convert subframe 1 parameters
       subframeStore[0][0] = sf1Lead[0];
@@ -327,13 +329,14 @@ namespace gpstk
       double dnDot = 0.0;
       double A = Ahalf * Ahalf;
 
-      double timeDiff = Toe - HOWtime[1];
+         // the week number is that of subframe 1
+      double timeDiff = Toe - HOWtime[0];
       short toeWeek = weeknum, tocWeek = weeknum;
       if (timeDiff < -HALFWEEK)
          toeWeek++;
       else if (timeDiff > HALFWEEK)
          toeWeek--;
-      timeDiff = Toc - HOWtime[1];
+      timeDiff = Toc - HOWtime[0];
       if (timeDiff < -HALFWEEK)
          tocWeek++;
       else if (timeDiff > HALFWEEK)
-- 
2.43.0


From 8d3a1bf45bf1f98a991cab53184a225a49ea15aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 067/103] fix: OrbSysStore: no empty maps after deleteMessage,
 search only the given navigation message, no leaks

---
 ext/lib/GNSSEph/OrbSysStore.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/ext/lib/GNSSEph/OrbSysStore.cpp b/ext/lib/GNSSEph/OrbSysStore.cpp
index 4d4fd98..0a38150 100644
--- a/ext/lib/GNSSEph/OrbSysStore.cpp
+++ b/ext/lib/GNSSEph/OrbSysStore.cpp
@@ -74,7 +74,16 @@ namespace gpstk
 
       OrbDataSys* p = OrbDataSysFactory::convert(pnb);
       if (p==0) return false;
-      bool rv = addMessage(p);
+      bool rv = false;
+      try
+      {
+         rv = addMessage(p);
+      }
+      catch (...)
+      {
+         delete p;
+         throw;
+      }
       delete p;
       return rv;
    }
@@ -203,8 +212,9 @@ namespace gpstk
       NM_UID_MSG_MAP& mapr1 = msgMap[sidr];
       UID_MSG_MAP& mapr2 = mapr1[navtype];
       MSG_MAP& mapr3 = mapr2[UID];
-      MSG_MAP::value_type newobj(ct,ods->clone());
-      mapr3.insert(newobj);
+         // A message already in the store is not stored again.
+      if (mapr3.find(ct)==mapr3.end())
+         mapr3[ct] = ods->clone();
 
       updateInitialTime(ods);
    }
@@ -245,6 +255,11 @@ namespace gpstk
 
       delete it4->second;
       mapr.erase(it4);
+
+         // Leave no empty maps behind.
+      if (mapr.empty()) UIDmapr.erase(it3);
+      if (UIDmapr.empty()) NMmapr.erase(it2);
+      if (NMmapr.empty()) msgMap.erase(it1);
    }
 
 //--------------------------------------------------------------------------
@@ -846,6 +861,9 @@ namespace gpstk
          const NM_UID_MSG_MAP& NMmapr = cit1->second;
          for (cit2=NMmapr.begin();cit2!=NMmapr.end();cit2++)
          {
+               // Unique IDs only have a meaning within a navigation message.
+            if (cit2->first!=navtype) continue;
+
             const UID_MSG_MAP& UIDmapr = cit2->second;
             for (cit3=UIDmapr.begin();cit3!=UIDmapr.end();cit3++)
             {
-- 
2.43.0


From 32d1e7cb05226a50e3e3f36776386584120c8bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 068/103] fix: OrbSysGpsL_51: almanac reference time is part of
 the data

---
 ext/lib/GNSSEph/OrbSysGpsL_51.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ext/lib/GNSSEph/OrbSysGpsL_51.cpp b/ext/lib/GNSSEph/OrbSysGpsL_51.cpp
index 49fe19d..3fa74a5 100644
--- a/ext/lib/GNSSEph/OrbSysGpsL_51.cpp
+++ b/ext/lib/GNSSEph/OrbSysGpsL_51.cpp
@@ -93,6 +93,7 @@ namespace gpstk
       if (!OrbSysGpsL::isSameData(right)) return false;
        
          // Finally, examine the contents
+      if (ctToa != p->ctToa) return false;
       for (int i=1; i<=24; i++)
       {
          if (health[i] != p->health[i]) return false;
-- 
2.43.0


From 9513b3f78fc7ed65aeaee78187b48fbd57f4c2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 069/103] fix: OrbSysGpsC_30: compare ISC_L5Q5

---
 ext/lib/GNSSEph/OrbSysGpsC_30.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/GNSSEph/OrbSysGpsC_30.cpp b/ext/lib/GNSSEph/OrbSysGpsC_30.cpp
index 98034ee..4e533df 100644
--- a/ext/lib/GNSSEph/OrbSysGpsC_30.cpp
+++ b/ext/lib/GNSSEph/OrbSysGpsC_30.cpp
@@ -121,7 +121,7 @@ namespace gpstk
       if (ISC_L1CA != p->ISC_L1CA) return false;
       if (ISC_L2C  != p->ISC_L2C)  return false;
       if (ISC_L5I5 != p->ISC_L5I5) return false;
-      if (ISC_L5I5 != p->ISC_L5I5) return false;
+      if (ISC_L5Q5 != p->ISC_L5Q5) return false;
 
       for (int i=0;i<4;i++)
       {
-- 
2.43.0


From 55ac577067dd477ad6a5c1a3597170b9cb2d5112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 070/103] fix: OrbAlmFactory: initialise debugLevel

---
 ext/lib/GNSSEph/OrbAlmFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ext/lib/GNSSEph/OrbAlmFactory.cpp b/ext/lib/GNSSEph/OrbAlmFactory.cpp
index 0d96bf9..d8ffc9f 100644
--- a/ext/lib/GNSSEph/OrbAlmFactory.cpp
+++ b/ext/lib/GNSSEph/OrbAlmFactory.cpp
@@ -53,6 +53,7 @@ using namespace std;
 namespace gpstk
 {
    OrbAlmFactory::OrbAlmFactory()
+         : debugLevel(0)
       {};
    
    OrbAlm* OrbAlmFactory::
-- 
2.43.0


From 682f54f6a5cacbd3f77d831d9bf212a8a3a8d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 071/103] fix: OrbAlmStore::clear and CNavDataElementStore
 reset/start their time limits properly

---
 ext/lib/GNSSEph/CNavDataElementStore.cpp | 4 ++--
 ext/lib/GNSSEph/OrbAlmStore.cpp          | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ext/lib/GNSSEph/CNavDataElementStore.cpp b/ext/lib/GNSSEph/CNavDataElementStore.cpp
index 731a46e..ff67f6d 100644
--- a/ext/lib/GNSSEph/CNavDataElementStore.cpp
+++ b/ext/lib/GNSSEph/CNavDataElementStore.cpp
@@ -53,8 +53,8 @@ using namespace gpstk;
 namespace gpstk
 {
    CNavDataElementStore::CNavDataElementStore(bool keepOnlyUnique):
-      initialTime(CommonTime::BEGINNING_OF_TIME),
-      finalTime(CommonTime::END_OF_TIME),
+      initialTime(CommonTime::END_OF_TIME),
+      finalTime(CommonTime::BEGINNING_OF_TIME),
       keepingOnlyUnique(false)
     {
        initialTime.setTimeSystem(TimeSystem::GPS); 
diff --git a/ext/lib/GNSSEph/OrbAlmStore.cpp b/ext/lib/GNSSEph/OrbAlmStore.cpp
index 6cb248c..5e3d9a6 100644
--- a/ext/lib/GNSSEph/OrbAlmStore.cpp
+++ b/ext/lib/GNSSEph/OrbAlmStore.cpp
@@ -581,6 +581,10 @@ namespace gpstk
          uam.clear();
       }
       xmitAlmMap.clear();
+      initialTime = CommonTime::END_OF_TIME;
+      finalTime   = CommonTime::BEGINNING_OF_TIME;
+      initialTime.setTimeSystem(TimeSystem::Any);
+      finalTime.setTimeSystem(TimeSystem::Any);
    }
 
 
-- 
2.43.0


From 1e07998fc46889955b483a83d23ea0f6b3a5945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 072/103] fix: FileSpecFind: find the files in the last year or
 day before the end time, width of selected field

---
 core/lib/FileDirProc/FileSpecFind.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index 44694f8..cececed 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -256,7 +256,7 @@ namespace gpstk
          selLen = 1;
       }
       string selTok = gpstk::FileSpec::convertFileSpecType(fsSel);
-      string selLenS = gpstk::StringUtils::asString(textLen);
+      string selLenS = gpstk::StringUtils::asString(selLen);
          // Just change the arbitrary text token to the value we have,
          // since there's at most one value to match.
       gpstk::StringUtils::change(spec, "%"+textTok, dummyFSTS[fsType]);
@@ -543,6 +543,16 @@ namespace gpstk
             // by adding 1/10th of a second to "to" if from and to are the same
          if (toTimeMatch == fromTimeMatch)
             toTimeMatch += 0.1;
+         else
+         {
+               // If toTime is later than the start of the year, day
+               // etc. that contains it at this level, that last
+               // year or day still holds matching files.
+            gpstk::CommonTime toTimeFull(toTime);
+            toTimeFull.setTimeSystem(toTimeMatch.getTimeSystem());
+            if (toTimeMatch < toTimeFull)
+               toTimeMatch += 0.1;
+         }
       }
 
          // Find all the files that match the pattern at this level.
-- 
2.43.0


From af96ee31b52f92bc16e3932e5134ba3b7e248844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 073/103] fix: FileSpecFind::find throws when a directory
 cannot be read

---
 core/lib/FileDirProc/FileSpecFind.cpp | 22 +++++++++++++++++++++-
 core/lib/FileDirProc/FileSpecFind.hpp |  4 ++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index cececed..24d3121 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -38,6 +38,7 @@
 
 #include "TimeString.hpp"
 #include "FileSpecFind.hpp"
+#include <cerrno>
 #ifndef WIN32
 #include <glob.h>
 #define PATH_SEP_STRING "/"
@@ -219,6 +220,17 @@ static void globfree(glob_t *pglob)
 }
 #endif
 
+/** Tell glob() which directories can be left out of the search.
+ * @param[in] epath The directory that could not be read.
+ * @param[in] eerrno The reason why not.
+ * @return non-zero (abandon the search) unless the directory does not
+ *   exist or is not a directory, i.e. has no matching files in it. */
+static int globError(const char *epath, int eerrno)
+{
+   return ((eerrno != ENOENT) && (eerrno != ENOTDIR));
+}
+
+
 namespace gpstk
 {
    list<string> FileSpecFind ::
@@ -557,8 +569,16 @@ namespace gpstk
 
          // Find all the files that match the pattern at this level.
       glob_t globbuf;
-      int g = glob(pattern.c_str(), GLOB_ERR|GLOB_NOSORT|GLOB_TILDE, nullptr,
+      int g = glob(pattern.c_str(), GLOB_NOSORT|GLOB_TILDE, globError,
                    &globbuf);
+      if ((g != 0) && (g != GLOB_NOMATCH))
+      {
+            // Don't pass off part of the matching files as all of them.
+         globfree(&globbuf);
+         FileSpecException exc("Unable to search for files matching " +
+                               pattern);
+         GPSTK_THROW(exc);
+      }
       for (size_t i = 0; i < globbuf.gl_pathc; i++)
       {
          bool timeMatched = true;
diff --git a/core/lib/FileDirProc/FileSpecFind.hpp b/core/lib/FileDirProc/FileSpecFind.hpp
index e647b17..56df6b9 100644
--- a/core/lib/FileDirProc/FileSpecFind.hpp
+++ b/core/lib/FileDirProc/FileSpecFind.hpp
@@ -98,6 +98,8 @@ namespace gpstk
           *   fixed width.  For example, "text" tokens may have no
           *   width specified in fileSpec, e.g. "%x", in which case a
           *   value should be added here to derive a length from.
+          * @throw FileSpecException when a directory that may hold
+          *   matching files cannot be read.
           * @warning You will not get any matches for file names that
           *   contain tokens with no width (e.g. "%x") if you do not
           *   specify a text value in fsts.
@@ -128,6 +130,8 @@ namespace gpstk
           * @param[in] filter Set of allowable values for tokens
           *   present in fileSpec (values for tokens not present will
           *   be ignored).
+          * @throw FileSpecException when a directory that may hold
+          *   matching files cannot be read.
           * @return A list of matching file names.
           */
       static std::list<std::string> find(
-- 
2.43.0


From 6fd7f968f43b4092b8e21ff49922a32225f671bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 074/103] fix: FileHunter: report read errors of directories,
 search the year a GPS week begins in

---
 core/lib/FileDirProc/FileHunter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileDirProc/FileHunter.cpp b/core/lib/FileDirProc/FileHunter.cpp
index 93a0ef1..ef58c7b 100644
--- a/core/lib/FileDirProc/FileHunter.cpp
+++ b/core/lib/FileDirProc/FileHunter.cpp
@@ -52,6 +52,7 @@ using namespace gpstk::StringUtils;
 
 // headers for directory searching interface
 #ifndef _WIN32
+#include <errno.h>
 #include <unistd.h>
 #include <dirent.h>
 #include <limits.h>
@@ -198,7 +199,7 @@ namespace gpstk
 
          // Set min and max years for progressive coarse time filtering
       int minY, maxY;
-      YDSTime tmpStart(start);
+      YDSTime tmpStart(exStart);
       YDSTime tmpEnd(end);
       minY = tmpStart.year;
       maxY = tmpEnd.year;
@@ -477,7 +478,7 @@ namespace gpstk
             // get each dir/file entry and compare it to the search string
          struct dirent* entry;
          
-         while ( (entry = readdir(theDir)) != NULL)
+         while ( (errno = 0, entry = readdir(theDir)) != NULL)
          {
             string filename(entry->d_name);
             
@@ -512,6 +513,12 @@ namespace gpstk
                   toReturn.push_back(filename);
                }
             }
+         }
+         if (errno != 0)
+         {
+            closedir(theDir);
+            FileHunterException fhe("Error reading directory: " + directory);
+            GPSTK_THROW(fhe);
          }
             // use filespec for extra verification?
          
-- 
2.43.0


From b86b0cb6f9731930952aa34733616669ba7dee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 075/103] fix: FileSpec: sort by the file name, not the path,
 keep the latest version, forget old fields

---
 core/lib/FileDirProc/FileSpec.cpp | 46 +++++++++++++++++++++----------
 core/lib/FileDirProc/FileSpec.hpp |  4 +++
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 8712092..8124a8d 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -72,6 +72,10 @@ namespace gpstk
                                             const std::string& r)
       const
    {
+         // The offsets are relative to the file name when the file
+         // spec doesn't contain the path.
+      std::string::size_type lbase = fileSpec.nameOffset(l);
+      std::string::size_type rbase = fileSpec.nameOffset(r);
          // This sort operator compares all fields in the order
          // defined in the FileSpecType enum.
       for(FileSpecType fst = FileSpecType(unknown+1); fst < end; fst++)
@@ -84,8 +88,8 @@ namespace gpstk
                std::string::size_type numCh = fileSpec.fileSpecList[i].numCh;
                if (fileSpec.fileSpecList[i].type == fst)
                {
-                  std::string lsub(l.substr(offset, numCh));
-                  std::string rsub(r.substr(offset, numCh));
+                  std::string lsub(l.substr(lbase + offset, numCh));
+                  std::string rsub(r.substr(rbase + offset, numCh));
                   if (((sortDir == ascending) && (lsub < rsub)) ||
                       ((sortDir == descending) && (lsub > rsub)))
                   {
@@ -103,6 +107,14 @@ namespace gpstk
       return false; // r and l are the same
    }
    
+   string::size_type FileSpec::nameOffset(const string& filename) const
+   {
+      if (fileSpecString.find(slash) != string::npos)
+         return 0;
+      string::size_type slashpos = filename.rfind(slash);
+      return (slashpos == string::npos) ? 0 : slashpos + 1;
+   }
+
    string FileSpec::convertFileSpecType(const FileSpecType fst)
    {
       if (fst == station)          return string("n");
@@ -356,16 +368,13 @@ namespace gpstk
                versionVec.push_back(*itr);
             itr++;
          }
-            // remove the version fields from the copied list, but only for the
-            // last directory/file entry in this name
+            // remove the version fields from the copied list
          vector<string>::size_type index;
          for (index = 0; index < copyOfFileList.size(); index++)
          {
-            string::size_type slashpos = copyOfFileList[index].rfind(slash);
-            if (slashpos != string::npos)
-               copyOfFileList[index].erase(0, slashpos + 1);
-            copyOfFileList[index].erase(versionVec[0].offset,
-                                        versionVec[0].numCh);
+            copyOfFileList[index].erase(
+               nameOffset(copyOfFileList[index]) + versionVec[0].offset,
+               versionVec[0].numCh);
          }
 
             // now make one more pass on the copied list. whenever two strings
@@ -376,15 +385,21 @@ namespace gpstk
             // it could be changed to do more, but it's not essential now...
          map<string, string> versionMap;
          for (index = 0; index < copyOfFileList.size(); index++)
-            versionMap[copyOfFileList[index]] = fileList[index];
+         {
+               // names only differ in the version field
+            string& latest = versionMap[copyOfFileList[index]];
+            if (latest < fileList[index])
+               latest = fileList[index];
+         }
 
-         fileList.erase(fileList.begin(), fileList.end());
-         map<string, string>::iterator mapitr = versionMap.begin();
-         while (mapitr != versionMap.end())
+            // keep the latest versions in sorted order
+         vector<string> latestList;
+         for (index = 0; index < fileList.size(); index++)
          {
-            fileList.push_back((*mapitr).second);
-            mapitr++;
+            if (versionMap[copyOfFileList[index]] == fileList[index])
+               latestList.push_back(fileList[index]);
          }
+         fileList = latestList;
       }
    }
 
@@ -411,6 +426,7 @@ namespace gpstk
       try
       {
          fileSpecList.clear();
+         fileSpecSet.clear();
          fileSpecString.clear();
 
          fileSpecString = fileSpec;
diff --git a/core/lib/FileDirProc/FileSpec.hpp b/core/lib/FileDirProc/FileSpec.hpp
index ed0e17f..ac470c1 100644
--- a/core/lib/FileDirProc/FileSpec.hpp
+++ b/core/lib/FileDirProc/FileSpec.hpp
@@ -244,6 +244,10 @@ namespace gpstk
           */
       virtual void init(const std::string& fileSpec);
 
+         /** Find where in filename the fields of this FileSpec begin,
+          * i.e. after the path, unless the FileSpec has a path itself. */
+      std::string::size_type nameOffset(const std::string& filename) const;
+
    public:
          /**
           * Converts the FileSpecType to a string it is identified with.
-- 
2.43.0


From e79e0968bbf0b56547e97b070a064c6349c53ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 076/103] fix: file searches skip names whose digits are not a
 time

---
 core/lib/FileDirProc/FileHunter.cpp   | 11 ++++++++++-
 core/lib/FileDirProc/FileSpecFind.cpp | 16 ++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/core/lib/FileDirProc/FileHunter.cpp b/core/lib/FileDirProc/FileHunter.cpp
index ef58c7b..b00b57e 100644
--- a/core/lib/FileDirProc/FileHunter.cpp
+++ b/core/lib/FileDirProc/FileHunter.cpp
@@ -292,7 +292,16 @@ namespace gpstk
          FileSpec fullSpec(fileSpecStr);
          for (unsigned i = 0; i < toReturn.size(); i++)
          {
-            CommonTime fileTime = fullSpec.extractCommonTime(toReturn[i]);
+            CommonTime fileTime;
+            try
+            {
+               fileTime = fullSpec.extractCommonTime(toReturn[i]);
+            }
+            catch (FileSpecException& exc)
+            {
+                  // not a time, e.g. day 999 of year 9999
+               continue;
+            }
             if ((fileTime >= exStart) && (fileTime <= end))
             {
                filtered.push_back(toReturn[i]);
diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index 24d3121..49b7572 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -586,10 +586,18 @@ namespace gpstk
          {
                // check if the matched files/directories are within
                // the search time
-            gpstk::CommonTime fileTime =
-               specScanner.extractCommonTime(globbuf.gl_pathv[i]);
-            timeMatched = ((fromTimeMatch <= fileTime) &&
-                           (fileTime < toTimeMatch));
+            try
+            {
+               gpstk::CommonTime fileTime =
+                  specScanner.extractCommonTime(globbuf.gl_pathv[i]);
+               timeMatched = ((fromTimeMatch <= fileTime) &&
+                              (fileTime < toTimeMatch));
+            }
+            catch (FileSpecException& exc)
+            {
+                  // the digits in the name aren't a valid time
+               timeMatched = false;
+            }
          }
          if (timeMatched)
          {
-- 
2.43.0


From f4830fd9968ba923eac73d85335d60fb2ed260f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:59 +0000
Subject: [PATCH 077/103] fix: TimeNamedFileStream: close the file of a former
 filespec, take no directory from a plain name

---
 ext/lib/FileHandling/TimeNamedFileStream.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ext/lib/FileHandling/TimeNamedFileStream.hpp b/ext/lib/FileHandling/TimeNamedFileStream.hpp
index 8bc7fcc..4d8a05d 100644
--- a/ext/lib/FileHandling/TimeNamedFileStream.hpp
+++ b/ext/lib/FileHandling/TimeNamedFileStream.hpp
@@ -111,7 +111,8 @@ namespace gpstk
             return false;
          }
          
-         if (currentFilename.size() > 0)
+            // the file may be open under a former filespec
+         if (BaseStream::is_open())
          {
             if (debugLevel)
                std::cout << "Closing " << currentFilename << std::endl;
@@ -121,7 +122,9 @@ namespace gpstk
          currentTime = t;
          
          std::string::size_type i = newFilename.rfind('/');
-         std::string dir(newFilename.substr(0, i));
+         std::string dir;
+         if (i != std::string::npos)
+            dir = newFilename.substr(0, i);
          if (dir.size())
          {
             if (debugLevel)
-- 
2.43.0


From 62c148341e19d11c7a7b13ae298011213fd1f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 078/103] fix: use each system's own constants for broadcast
 orbits

---
 core/lib/GNSSEph/OrbitEph.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/core/lib/GNSSEph/OrbitEph.cpp b/core/lib/GNSSEph/OrbitEph.cpp
index 56d9c73..2b96a98 100644
--- a/core/lib/GNSSEph/OrbitEph.cpp
+++ b/core/lib/GNSSEph/OrbitEph.cpp
@@ -56,6 +56,7 @@
 #include "QZSWeekSecond.hpp"
 #include "GPSEllipsoid.hpp"
 #include "CGCS2000Ellipsoid.hpp"
+#include "GalileoEllipsoid.hpp"
 #include "TimeString.hpp"
 
 using namespace std;
@@ -133,8 +134,16 @@ namespace gpstk
       double xef,yef,zef,dek,dlk,div,domk,duv,drv;
       double dxp,dyp,vxef,vyef,vzef;
 
-      GPSEllipsoid ell;
-      double sqrtgm = SQRT(ell.gm());
+      // Each system defines its own constants
+      GPSEllipsoid gell;
+      CGCS2000Ellipsoid bell;
+      GalileoEllipsoid eell;
+      EllipsoidModel *ell = &gell;
+      if (satID.system==SatelliteSystem::BeiDou)
+         ell = &bell;
+      else if (satID.system==SatelliteSystem::Galileo)
+         ell = &eell;
+      double sqrtgm = SQRT(ell->gm());
       double twoPI = 2.0e0 * PI;
       double lecc;            // eccentricity
       double tdrinc;          // dt inclination
@@ -206,8 +215,8 @@ namespace gpstk
       AINC = i0 + tdrinc * elapte  +  di;
 
       //  Longitude of ascending node (ANLON)
-      ANLON = OMEGA0 + (OMEGAdot - ell.angVelocity()) *
-              elapte - ell.angVelocity() * ToeSOW;
+      ANLON = OMEGA0 + (OMEGAdot - ell->angVelocity()) *
+              elapte - ell->angVelocity() * ToeSOW;
 
       // In plane location
       cosu = ::cos(U);
@@ -233,7 +242,7 @@ namespace gpstk
       dek = amm / G;
       dlk = amm * q / (G*G);
       div = tdrinc - 2.0e0 * dlk * (Cic  * s2al - Cis * c2al);
-      domk = OMEGAdot - ell.angVelocity();
+      domk = OMEGAdot - ell->angVelocity();
       duv = dlk*(1.e0+ 2.e0 * (Cus*c2al - Cuc*s2al));
       drv = Ak * lecc * dek * sinea - 2.e0 * dlk * (Crc * s2al - Crs * c2al) +
          Adot * G;
@@ -264,9 +273,12 @@ namespace gpstk
 
       GPSEllipsoid gell;
       CGCS2000Ellipsoid bell;
+      GalileoEllipsoid eell;
       EllipsoidModel *ell;
       if (satID.system==SatelliteSystem::BeiDou)
          ell = &bell;
+      else if (satID.system==SatelliteSystem::Galileo)
+         ell = &eell;
       else
          ell = &gell;
       double twoPI  = 2.0 * PI;
-- 
2.43.0


From 50c1e40472e6328d6e77725996c23725519b2324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 079/103] fix: GLONASS relativity correction in metres

---
 core/lib/GNSSEph/GloEphemeris.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/GloEphemeris.cpp b/core/lib/GNSSEph/GloEphemeris.cpp
index 3ce1885..c38e989 100644
--- a/core/lib/GNSSEph/GloEphemeris.cpp
+++ b/core/lib/GNSSEph/GloEphemeris.cpp
@@ -278,10 +278,13 @@ namespace gpstk
          GPSTK_THROW(exc);
       }
 
-         // Auxiliar object
+         // Auxiliar object, in m and m/s
       Xvt sv;
-      sv.x = x;
-      sv.v = v;
+      for (int i = 0; i < 3; i++)
+      {
+         sv.x[i] = x[i]*1.e3;
+         sv.v[i] = v[i]*1.e3;
+      }
 
          // In the GLONASS system, 'clkbias' already includes the relativistic
          // correction, therefore we must substract the late from the former.
-- 
2.43.0


From 037beb5fcb9c790ca9bb2703016c8d887843d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 080/103] fix: week of the transmit time of RINEX 3 ephemerides

---
 .../lib/FileHandling/RINEX3/Rinex3NavData.cpp | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 8f11c9b..e3923af 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -687,6 +687,18 @@ namespace gpstk
       }
    }
 
+      // The week of the transmission at xmitTime (seconds of week) of data
+      // with the given Toe: the message is sent within half a week of Toe.
+   static int xmitWeek(const WeekSecond& toe, long xmitTime)
+   {
+      double dt = toe.getSOW() - xmitTime;
+      if (dt < -HALFWEEK)
+         return toe.getWeek() - 1;
+      if (dt > HALFWEEK)
+         return toe.getWeek() + 1;
+      return toe.getWeek();
+   }
+
       // Casts Rinex3NavData to a GPSEphemeris object.
    Rinex3NavData::operator GPSEphemeris() const
    {
@@ -737,6 +749,8 @@ namespace gpstk
       long sowToc = static_cast<GPSWeekSecond>(time).sow;
       if (sowToc%3600==0)
       {
+            // weeknum may already be the week before that of Toc
+         adjWeeknum = static_cast<GPSWeekSecond>(time).week;
          adjXmitTime = sowToc - (gpse.fitint/2 * 3600);
          if (adjXmitTime<0)
          {
@@ -859,7 +873,7 @@ namespace gpstk
 
       gale.health = GalEphemeris::deriveHealth(HS,DVS,SISA);
 
-      week = static_cast<GALWeekSecond>(gale.ctToe).getWeek();
+      week = xmitWeek(static_cast<GALWeekSecond>(gale.ctToe), xmitTime);
       gale.transmitTime = GALWeekSecond(week, static_cast<double>(xmitTime),
                                        TimeSystem::GAL);
       gale.adjustValidity();
@@ -905,7 +919,7 @@ namespace gpstk
       bdse.Tgd23 = Tgd2;
 
 //      bdse.HOWtime = xmitTime;
-      week = static_cast<BDSWeekSecond>(bdse.ctToe).getWeek();
+      week = xmitWeek(static_cast<BDSWeekSecond>(bdse.ctToe), xmitTime);
       bdse.transmitTime = BDSWeekSecond(week, static_cast<double>(xmitTime),
                                        TimeSystem::BDT);
       bdse.adjustValidity();
@@ -956,7 +970,7 @@ namespace gpstk
       qzse.Tgd = Tgd;
 
 //      qzse.HOWtime = xmitTime;
-      week = static_cast<QZSWeekSecond>(qzse.ctToe).getWeek();
+      week = xmitWeek(static_cast<QZSWeekSecond>(qzse.ctToe), xmitTime);
       qzse.transmitTime = QZSWeekSecond(week, static_cast<double>(xmitTime),
                                           TimeSystem::QZS);
       qzse.beginValid = qzse.transmitTime;
-- 
2.43.0


From 8fa0e5fd2ddc64f4e28651e328acf09d0666c5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 081/103] fix: fit interval of RINEX 3 records given in hours

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index e3923af..dc57425 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -728,7 +728,8 @@ namespace gpstk
       gpse.fitint = fitint;
       if (fitint==0) gpse.fitint = 4;
       if (fitint==1) gpse.fitint = 6; 
-      gpse.setFitIntervalFlag(int(fitint)); 
+         // fitint is either the flag or the interval in hours
+      gpse.setFitIntervalFlag(gpse.fitint > 4 ? 1 : 0);
 
          // Rinex transmit times are frequently flawed.  For GPS, except for 
          // the first data set in an upload the beginning of transmission is
-- 
2.43.0


From d4e6913efb97ace956d092d4e2645b801fbcffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 082/103] fix: reference time of RINEX 3 ephemerides

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index dc57425..da0001f 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -650,7 +650,13 @@ namespace gpstk
          sat.fromString(satSys + StringUtils::asString(PRNID));
          oeptr->satID = SatID(sat);
          //obsID = ?? ObsID obsID; // Defines carrier and tracking code
-         oeptr->ctToe = time;
+            // time is Toc; Toe is the nearest moment with its second of week
+         double dt = Toe - static_cast<GPSWeekSecond>(time).getSOW();
+         if (dt < -HALFWEEK)
+            dt += FULLWEEK;
+         else if (dt > HALFWEEK)
+            dt -= FULLWEEK;
+         oeptr->ctToe = time + dt;
 
          // clock model
          oeptr->af0 = af0;
-- 
2.43.0


From bfb7fdc839d99250d97c40f8d6e55dad69abfa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 083/103] fix: satellite clock drift from all its terms

---
 core/lib/GNSSEph/BrcClockCorrection.cpp | 2 +-
 core/lib/GNSSEph/OrbElem.cpp            | 2 +-
 core/lib/GNSSEph/OrbitEph.cpp           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/BrcClockCorrection.cpp b/core/lib/GNSSEph/BrcClockCorrection.cpp
index 2e88b50..e95f5e2 100644
--- a/core/lib/GNSSEph/BrcClockCorrection.cpp
+++ b/core/lib/GNSSEph/BrcClockCorrection.cpp
@@ -242,7 +242,7 @@ namespace gpstk
    {
       double drift,elaptc;
       elaptc = t - getEpochTime();
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
diff --git a/core/lib/GNSSEph/OrbElem.cpp b/core/lib/GNSSEph/OrbElem.cpp
index fea9ded..be9e95f 100644
--- a/core/lib/GNSSEph/OrbElem.cpp
+++ b/core/lib/GNSSEph/OrbElem.cpp
@@ -167,7 +167,7 @@ namespace gpstk
       }
       double drift,elaptc;
       elaptc = t - ctToc;
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
diff --git a/core/lib/GNSSEph/OrbitEph.cpp b/core/lib/GNSSEph/OrbitEph.cpp
index 2b96a98..3d4335a 100644
--- a/core/lib/GNSSEph/OrbitEph.cpp
+++ b/core/lib/GNSSEph/OrbitEph.cpp
@@ -107,7 +107,7 @@ namespace gpstk
 
       double drift, elaptc;
       elaptc = t - ctToc;
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
-- 
2.43.0


From 5a62fb735e7d03b6a1113f17c655973014ceca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 084/103] fix: BeiDou geostationary orbits from ephemeris
 stores

---
 core/lib/GNSSEph/OrbitEph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/OrbitEph.hpp b/core/lib/GNSSEph/OrbitEph.hpp
index 637f8a3..020e383 100644
--- a/core/lib/GNSSEph/OrbitEph.hpp
+++ b/core/lib/GNSSEph/OrbitEph.hpp
@@ -126,7 +126,7 @@ namespace gpstk
           * Adot and dndot variables are appropriately set to 0.0 by the 
           * LNAV loaders.) 
           * @throw Invalid Request if the required data has not been stored. */
-      Xvt svXvt(const CommonTime& t) const;
+      virtual Xvt svXvt(const CommonTime& t) const;
 
          /** Compute satellite relativity correction (sec) at the given time
           * @throw Invalid Request if the required data has not been stored. */
-- 
2.43.0


From 6808f70e0ac9c7f98704d2ecf117507c2f09fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 085/103] fix: uninitialised line counter of the load tide
 readers

---
 ext/lib/Geomatics/AtmLoadTides.cpp   | 2 +-
 ext/lib/Geomatics/OceanLoadTides.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/AtmLoadTides.cpp b/ext/lib/Geomatics/AtmLoadTides.cpp
index 19b0060..6142c0f 100644
--- a/ext/lib/Geomatics/AtmLoadTides.cpp
+++ b/ext/lib/Geomatics/AtmLoadTides.cpp
@@ -89,8 +89,8 @@ namespace gpstk {
       double lat,lon;
       vector<double> coeff;
       string site;
+      int count=0;                              // lines of data for this site
       while(1) {                                // read the file
-         int count;
          string line,word;
 
          // get the next line
diff --git a/ext/lib/Geomatics/OceanLoadTides.cpp b/ext/lib/Geomatics/OceanLoadTides.cpp
index 14b416f..373847d 100644
--- a/ext/lib/Geomatics/OceanLoadTides.cpp
+++ b/ext/lib/Geomatics/OceanLoadTides.cpp
@@ -98,8 +98,8 @@ namespace gpstk {
       double lat,lon;
       vector<double> coeff;
       string site;
+      int count=0;                              // lines of data for this site
       while(1) {                                // read the file
-         int count;
          string line,word;
 
          // get the next line
-- 
2.43.0


From 47da655cb47528b5e9d68d049da1781d530d09bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 086/103] fix: rfw can send its commands

---
 ext/apps/rfw/rfw.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ext/apps/rfw/rfw.cpp b/ext/apps/rfw/rfw.cpp
index 73b5294..e09bd02 100644
--- a/ext/apps/rfw/rfw.cpp
+++ b/ext/apps/rfw/rfw.cpp
@@ -173,7 +173,8 @@ protected:
    virtual void process()
    {
       const int sendSize=sendString.size();
-      vector<CommonTime> lastSendTime(sendSize);
+      vector<CommonTime> lastSendTime(sendSize,
+                                      CommonTime::BEGINNING_OF_TIME);
 
       bool use_stdout = output.getFilespec() == "<stdout>";
       const size_t max_len=512;
-- 
2.43.0


From cf3495ce49cd17529d04ee9368b92cea4d2ee90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 087/103] fix: writing to a device stream keeps what was read

---
 ext/apps/rfw/FDStreamBuff.cpp | 16 ++++++----------
 ext/apps/rfw/FDStreamBuff.hpp |  5 ++++-
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/ext/apps/rfw/FDStreamBuff.cpp b/ext/apps/rfw/FDStreamBuff.cpp
index 54c510a..2227d89 100644
--- a/ext/apps/rfw/FDStreamBuff.cpp
+++ b/ext/apps/rfw/FDStreamBuff.cpp
@@ -126,8 +126,8 @@ namespace gpstk
 
    // Write out the buffer into the communication channel After that, put a
    // character c (unless it's EOF) Return 0, or EOF on error. This method
-   // allocates a buffer if there wasn't any, and switches it to the "put mode"
-   // (discarding all data that may have been in the buffer)
+   // allocates a buffer if there wasn't any. Data already read into the get
+   // area is left alone.
    int FDStreamBuff::overflow(int ch)
    {
       if (sync() == EOF)
@@ -136,8 +136,7 @@ namespace gpstk
       if (base() == 0)			// If there wasn't any buffer,
          doallocate();			// ... make one
    
-      setg(base(),base(),base());		// Make the get area completely empty
-      setp(base(),ebuf());			// Give all the buffer to the put area
+      setp(middle(),ebuf());			// The put area is the second half
 
       if (pptr() == 0)
          cout << "Throw an exception here or something bad." << endl;
@@ -151,9 +150,7 @@ namespace gpstk
 
    // Fill in the get area, and return its first character. Actually read into
    // the main buffer from the beginning (syncing pending output if was any)
-   // and set the get area to that part of the buffer. Also set pptr() = eptr()
-   // so that the first write would call overflow() (which would discard the
-   // read data)
+   // and set the get area to that part of the buffer.
    int FDStreamBuff::underflow(void)
    {
       if( gptr() < egptr() )
@@ -167,9 +164,8 @@ namespace gpstk
 
       //assert( base() );
       base();
-      const int count = read(base(),ebuf() - base());
+      const int count = read(base(),middle() - base());
       setg(base(),base(),base() + (count <= 0 ? 0 : count));
-      setp(base(),base());		// no put area - do overflow on the first put
       return count <= 0 ? EOF : *(unsigned char*)gptr();
    }
 
@@ -197,7 +193,7 @@ namespace gpstk
          return 0;
       }
 
-      setp(base(),base());
+      setp(middle(),middle());
       setg(base(),base(),base());
       return this;
    }
diff --git a/ext/apps/rfw/FDStreamBuff.hpp b/ext/apps/rfw/FDStreamBuff.hpp
index 3ba66de..7d672bc 100644
--- a/ext/apps/rfw/FDStreamBuff.hpp
+++ b/ext/apps/rfw/FDStreamBuff.hpp
@@ -105,8 +105,11 @@ namespace gpstk
       virtual int sync(void);		// Commit all uncommitted writes
       virtual int doallocate(void);	// Allocate a new buffer
 
-      // we use the same buffer for get and put areas
+      // we use the same buffer for get and put areas: the first half holds
+      // what was read, the second half what is to be written
       char * base(void) const { return buffer.start; }
+      char * middle(void) const
+      { return buffer.start + (buffer.end - buffer.start)/2; }
       char * ebuf(void) const { return buffer.end; }
       void setb(char * buffer_beg, char * buffer_end, bool do_dispose)
       { buffer.start = buffer_beg; buffer.end = buffer_end;
-- 
2.43.0


From 19f396d1d6ddd1f1b400e988e73ea7576a90578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 088/103] fix: no chatter of the device stream on standard
 output

---
 ext/apps/rfw/FDStreamBuff.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ext/apps/rfw/FDStreamBuff.cpp b/ext/apps/rfw/FDStreamBuff.cpp
index 2227d89..723fab2 100644
--- a/ext/apps/rfw/FDStreamBuff.cpp
+++ b/ext/apps/rfw/FDStreamBuff.cpp
@@ -81,8 +81,6 @@ namespace gpstk
          else
             if (char_written < 0 && !(errno == EAGAIN || errno == EINTR ))
                return EOF;
-            else
-               cout << "to be implimented" << endl;
       }
       return n;
    }
@@ -103,9 +101,7 @@ namespace gpstk
          const int char_read = ::read(handle, buffer, n);
          if( char_read >= 0 )
             return char_read;
-         if ( errno == EAGAIN || errno == EINTR )
-            cout << "read: EAGAIN or EINTR" << endl;
-         else
+         if ( errno != EAGAIN && errno != EINTR )
             return EOF;
       }
    }
-- 
2.43.0


From 05eb377d04883e3ec68866a3f87778576abd67f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 089/103] fix: most recent weather observation and flushed
 limits

---
 core/lib/GNSSCore/WxObsMap.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/core/lib/GNSSCore/WxObsMap.cpp b/core/lib/GNSSCore/WxObsMap.cpp
index 0ec9597..0acc833 100644
--- a/core/lib/GNSSCore/WxObsMap.cpp
+++ b/core/lib/GNSSCore/WxObsMap.cpp
@@ -56,11 +56,12 @@ namespace gpstk
       if(obs.size() == 0)
          return WxObservation();
      
+         // the first observation after t, so the one before it is wanted
       WxObsMap::const_iterator i = obs.upper_bound(t);
-      if (i== obs.end())
-         i--;
-      if (i != obs.begin())
-         i--;
+      if (i == obs.begin())
+         return WxObservation();
+
+      i--;
       return  i->second;
    };
 
@@ -92,11 +93,18 @@ namespace gpstk
          {
             obs.erase(i);
             i = obs.begin();
-            firstTime = i->second.t;
          }
          else
             break;
       }
+
+      if (obs.empty())
+      {
+         firstTime = CommonTime::END_OF_TIME;
+         lastTime = CommonTime::BEGINNING_OF_TIME;
+      }
+      else
+         firstTime = obs.begin()->first;
    }
 
    WxObservation WxObsData::getWxObservation(const CommonTime& t,
-- 
2.43.0


From dcbefee933722d69b84d591b63511289eeef5b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 090/103] fix: EpochDataStore::clear resets the time limits

---
 core/lib/TimeHandling/EpochDataStore.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/EpochDataStore.hpp b/core/lib/TimeHandling/EpochDataStore.hpp
index 4faaea6..01bdfc3 100644
--- a/core/lib/TimeHandling/EpochDataStore.hpp
+++ b/core/lib/TimeHandling/EpochDataStore.hpp
@@ -94,7 +94,11 @@ namespace gpstk
       
          /// clear the all the data
       void clear()
-      { allData.clear(); }
+      {
+         allData.clear();
+         initialTime = CommonTime::END_OF_TIME;
+         finalTime = CommonTime::BEGINNING_OF_TIME;
+      }
 
          /** Edit the dataset, removing data outside the indicated time
           *  interval.
-- 
2.43.0


From b2511a31f5ecc5a152df046ddb749cd77989c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 091/103] fix: TEC at the last IONEX map

---
 ext/lib/FileHandling/Ionex/IonexStore.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ext/lib/FileHandling/Ionex/IonexStore.cpp b/ext/lib/FileHandling/Ionex/IonexStore.cpp
index f3c0ae6..fc675d3 100644
--- a/ext/lib/FileHandling/Ionex/IonexStore.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexStore.cpp
@@ -347,7 +347,9 @@ namespace gpstk
             itm = inxMaps.lower_bound(t);
                // store current and next epoch
             T[0] = itm->first;
-            T[1] = (++itm)->first;
+            T[1] = T[0];
+            if (++itm != inxMaps.end())
+               T[1] = itm->first;
 
          }
          else                                   // t is between two maps
@@ -371,8 +373,16 @@ namespace gpstk
 
          // factors (As in Eq.(3), pag.2 of the manual)
       double f[2];
-      f[0] = (T[1]-t   ) / (T[1]-T[0]);
-      f[1] = (t   -T[0]) / (T[1]-T[0]);
+      if (T[1] == T[0])                         // t is the last map
+      {
+         f[0] = 1.0;
+         f[1] = 0.0;
+      }
+      else
+      {
+         f[0] = (T[1]-t   ) / (T[1]-T[0]);
+         f[1] = (t   -T[0]) / (T[1]-T[0]);
+      }
 
          // if only one map, then we have to use the neareast
       if( nmap == 1 )
-- 
2.43.0


From d058293e081f589c9eda01f6f94524c2db73af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 092/103] fix: ionosphere models may arrive late

---
 core/lib/GNSSCore/IonoModelStore.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSCore/IonoModelStore.cpp b/core/lib/GNSSCore/IonoModelStore.cpp
index 952f8e3..f87acd3 100644
--- a/core/lib/GNSSCore/IonoModelStore.cpp
+++ b/core/lib/GNSSCore/IonoModelStore.cpp
@@ -92,19 +92,22 @@ namespace gpstk
       if (!im.isValid())
          return false;
 
+      bool isNew = true;
       IonoModelMap::const_iterator i = ims.upper_bound(mt);
       if (!ims.empty() && i != ims.begin())
       {
             // compare to previous stored model and if they have the
-            // the same alpha and beta parameters don't store it
+            // the same alpha and beta parameters it is not a new one
          i--;
          if (im == i->second)
-            return false;
+            isNew = false;
       }
 
+         // a repeated model is kept as well: it has to end the validity
+         // of a different one that arrives late for a time in between
       ims[mt] = im;
 
-      return true;
+      return isNew;
 
    }  // End of method 'IonoModelStore::addIonoModel()'
 
-- 
2.43.0


From 7c313991537bee841e156dc1f4c37994e9470973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 093/103] fix: editing an Earth orientation store to nothing

---
 core/lib/TimeHandling/EpochDataStore.cpp | 5 ++---
 ext/lib/Geomatics/EOPStore.cpp           | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/core/lib/TimeHandling/EpochDataStore.cpp b/core/lib/TimeHandling/EpochDataStore.cpp
index d37f53f..9d7d03b 100644
--- a/core/lib/TimeHandling/EpochDataStore.cpp
+++ b/core/lib/TimeHandling/EpochDataStore.cpp
@@ -102,14 +102,13 @@ namespace gpstk
          initialTime = it->first;
       }
 
-      it = allData.end();
-      if(--it == allData.end())
+      if(allData.empty())
       {
          finalTime = CommonTime::BEGINNING_OF_TIME;
       }
       else 
       {
-         finalTime = it->first;
+         finalTime = allData.rbegin()->first;
       }
 
    } // End of method 'EpochDataStore::edit()'
diff --git a/ext/lib/Geomatics/EOPStore.cpp b/ext/lib/Geomatics/EOPStore.cpp
index 600b57c..c3f0df6 100644
--- a/ext/lib/Geomatics/EOPStore.cpp
+++ b/ext/lib/Geomatics/EOPStore.cpp
@@ -214,11 +214,10 @@ namespace gpstk
       else 
          begMJD = it->first;
 
-      it = mapMJD_EOP.end();
-      if(--it == mapMJD_EOP.end())
+      if(mapMJD_EOP.empty())
          endMJD = -1;
       else 
-         endMJD = it->first;
+         endMJD = mapMJD_EOP.rbegin()->first;
    }
 
    //---------------------------------------------------------------------------------
-- 
2.43.0


From 7ef2163314874b7cc1405fd24c912ff810d6ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:53 +0000
Subject: [PATCH 094/103] fix: TEC at positions rotated far to the west

---
 ext/lib/FileHandling/Ionex/IonexData.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ext/lib/FileHandling/Ionex/IonexData.cpp b/ext/lib/FileHandling/Ionex/IonexData.cpp
index 348d9ed..5419161 100644
--- a/ext/lib/FileHandling/Ionex/IonexData.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexData.cpp
@@ -638,10 +638,15 @@ namespace gpstk
          // we need this step because in the Position object the longitude is 
          // expressed in degrees E (i.e., [0 +360]), while in IONEX files 
          // longitude takes values within [-180 180]) (see IONEX manual) 
-      if (lambda > 180.0)
+         // A position rotated around the Sun may be further off.
+      while (lambda > 180.0)
       {
          lambda = lambda - 360.0;
       }
+      while (lambda < -180.0)
+      {
+         lambda = lambda + 360.0;
+      }
 
          // get position of lower left hand grid point E00
       inarg = Triple( beta, lambda, height);
-- 
2.43.0


From b66b5f3c1fb90d186e9778cd4cf5c18b1c2b2366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 095/103] fix: file filters ignored read and write errors

---
 core/lib/FileDirProc/FileFilterFrame.hpp      | 37 ++++++++++++++++---
 .../FileDirProc/FileFilterFrameWithHeader.hpp | 23 +++++++++---
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/core/lib/FileDirProc/FileFilterFrame.hpp b/core/lib/FileDirProc/FileFilterFrame.hpp
index 86116cc..319fd79 100644
--- a/core/lib/FileDirProc/FileFilterFrame.hpp
+++ b/core/lib/FileDirProc/FileFilterFrame.hpp
@@ -48,6 +48,7 @@
 #include "FileFilter.hpp"
 #include "FileSpecFind.hpp"
 #include "FileUtils.hpp"
+#include "FFStreamError.hpp"
 
 namespace gpstk
 {
@@ -289,11 +290,22 @@ namespace gpstk
       {
          FileStream s(i.c_str());
 
-         if (s.good())
+         if (!s.good())
          {
-            FileData data;
-            while (s >> data)
-               this->addData(data);
+            FFStreamError e("Unable to open " + i);
+            GPSTK_THROW(e);
+         }
+
+         FileData data;
+         while (s >> data)
+            this->addData(data);
+
+            // anything but the end of the file is an error
+         if (!s.eof())
+         {
+            FFStreamError e(s.mostRecentException);
+            e.addText("Unable to read all of " + i);
+            GPSTK_THROW(e);
          }
       }
    }
@@ -315,7 +327,15 @@ namespace gpstk
             mode |= (std::ios::app|std::ios::ate);
       
          FileStream stream(str.c_str(), mode);
-         return writeFile(stream);
+         writeFile(stream);
+
+         stream.exceptions(std::ios::goodbit);
+         stream.close();
+         if (!stream.good())
+         {
+            FFStreamError e("Unable to write all of " + str);
+            GPSTK_THROW(e);
+         }
       }
 
       return true;
@@ -332,6 +352,13 @@ namespace gpstk
          typename std::list<FileData>::const_iterator index;
          for(index = this->dataVec.begin(); index != this->dataVec.end(); index++)
             (*index).putRecord(stream);
+
+         stream.flush();
+         if (!stream.good())
+         {
+            FFStreamError e("Unable to write all of " + stream.filename);
+            GPSTK_THROW(e);
+         }
       }
 
       return true;
diff --git a/core/lib/FileDirProc/FileFilterFrameWithHeader.hpp b/core/lib/FileDirProc/FileFilterFrameWithHeader.hpp
index 037cd08..8b0cf8e 100644
--- a/core/lib/FileDirProc/FileFilterFrameWithHeader.hpp
+++ b/core/lib/FileDirProc/FileFilterFrameWithHeader.hpp
@@ -342,6 +342,14 @@ namespace gpstk
       typename std::list<FileData>::const_iterator index;
       for(index = this->dataVec.begin(); index != this->dataVec.end(); index++)
          stream << (*index);
+
+      stream.exceptions(std::ios::goodbit);
+      stream.close();
+      if (!stream.good())
+      {
+         FFStreamError e("Unable to write all of " + outputFile);
+         GPSTK_THROW(e);
+      }
       return true;
    }
 
@@ -447,14 +455,17 @@ namespace gpstk
       {
          FileStream s(i.c_str());
 
-         if (s.good())
+         if (!s.good())
          {
-            s.exceptions(std::ios::failbit);
-
-            FileHeader header;
-            s >> header;
-            headerList.push_back(header);
+            FFStreamError e("Unable to open " + i);
+            GPSTK_THROW(e);
          }
+
+         s.exceptions(std::ios::failbit);
+
+         FileHeader header;
+         s >> header;
+         headerList.push_back(header);
       }
    }
 
-- 
2.43.0


From 9a5f5b863a11977b798343f0f526ed11488415e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 096/103] fix: sort order of navigation records used an
 uninitialised precision

---
 core/lib/FileHandling/RINEX3/Rinex3NavFilterOperators.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavFilterOperators.hpp b/core/lib/FileHandling/RINEX3/Rinex3NavFilterOperators.hpp
index 872b5c6..b1d167f 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavFilterOperators.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavFilterOperators.hpp
@@ -64,6 +64,10 @@ namespace gpstk
       public std::binary_function<Rinex3NavData, Rinex3NavData, bool>
    {
    public:
+      Rinex3NavDataOperatorLessThanFull()
+            : precision(13)
+      {}
+
       void setPrecision(int e)
       {
          precision = e;
-- 
2.43.0


From b0c0b0da03962dbdb963e582805fdebcaf54ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 097/103] fix: comparison of observation epochs

---
 core/apps/difftools/rowdiff.cpp               | 14 ++++++---
 .../RINEX3/Rinex3ObsFilterOperators.hpp       | 31 ++++++++++---------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/core/apps/difftools/rowdiff.cpp b/core/apps/difftools/rowdiff.cpp
index ed1e0e0..8633ebb 100644
--- a/core/apps/difftools/rowdiff.cpp
+++ b/core/apps/difftools/rowdiff.cpp
@@ -250,7 +250,9 @@ void ROWDiff::process()
    while(firstDiffItr != difflist.first.end() || secondDiffItr != difflist.second.end())
    {
          //Epoch in both files
-      if(firstDiffItr->time == secondDiffItr->time)
+      if(firstDiffItr != difflist.first.end() &&
+         secondDiffItr != difflist.second.end() &&
+         firstDiffItr->time == secondDiffItr->time)
       {
          Rinex3ObsData::DataMap::iterator firstObsItr = firstDiffItr->obs.begin();
          Rinex3ObsData::DataMap::iterator secondObsItr = secondDiffItr->obs.begin();
@@ -258,7 +260,9 @@ void ROWDiff::process()
          while(firstObsItr != firstDiffItr->obs.end() || secondObsItr != secondDiffItr->obs.end())
          {
                // Both files have data for that satellite
-            if(firstObsItr->first == secondObsItr->first)
+            if(firstObsItr != firstDiffItr->obs.end() &&
+               secondObsItr != secondDiffItr->obs.end() &&
+               firstObsItr->first == secondObsItr->first)
             {
                string sysString = string(1,firstObsItr->first.systemChar());
                cout << "-" << setw(3) << (static_cast<YDSTime>(firstDiffItr->time))
@@ -282,7 +286,7 @@ void ROWDiff::process()
                (firstObsItr != firstDiffItr->obs.end()) &&
                (
                   (secondObsItr == secondDiffItr->obs.end()) ||
-                  (firstObsItr->first.id < secondObsItr->first.id))
+                  (firstObsItr->first < secondObsItr->first))
                )
             {
                string sysString = string(1,firstObsItr->first.systemChar());
@@ -323,7 +327,9 @@ void ROWDiff::process()
          secondDiffItr++;
       }
          //Epoch only in first file
-      else if((firstDiffItr != difflist.first.end()) && firstDiffItr->time < secondDiffItr->time)
+      else if((firstDiffItr != difflist.first.end()) &&
+              ((secondDiffItr == difflist.second.end()) ||
+               (firstDiffItr->time < secondDiffItr->time)))
       {
          Rinex3ObsData::DataMap::iterator firstObsItr = firstDiffItr->obs.begin();
          for (;firstObsItr != firstDiffItr->obs.end(); firstObsItr++)
diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp b/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
index d93c73f..e68ce80 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
@@ -120,20 +120,19 @@ namespace gpstk
 
             // then check that each PRN has the same data for each of the
             // fields
-         Rinex3ObsData::DataMap::const_iterator lItr;
-         for (lItr = l.obs.begin(); lItr != l.obs.end(); lItr++)
+         Rinex3ObsData::DataMap::const_iterator lItr, rItr = r.obs.begin();
+         for (lItr = l.obs.begin(); lItr != l.obs.end(); lItr++, rItr++)
          {
-            SatID sat = lItr->first;
-            Rinex3ObsData::DataMap::const_iterator rItr = r.obs.find(sat);
-            if (rItr == r.obs.end())
+            if (lItr->first != rItr->first)
             {
-               return false;
+               return lItr->first < rItr->first;
             }
             
             std::vector<RinexDatum> lObs = lItr->second,
                rObs = rItr->second;
-            Rinex3ObsHeader::RinexObsMap::const_iterator romItr;
-            for(romItr = rom.begin(); romItr != rom.end(); romItr++)
+            Rinex3ObsHeader::RinexObsMap::const_iterator romItr =
+               rom.find(std::string(1, RinexSatID(lItr->first).systemChar()));
+            if (romItr != rom.end())
             {
                Rinex3ObsHeader::RinexObsVec::const_iterator rvItr;
                for(rvItr = romItr->second.begin();
@@ -148,17 +147,21 @@ namespace gpstk
                   {
                      return true;
                   }
+                  if (rData.data + epsilon < lData.data)
+                  {
+                     return false;
+                  }
 
-                  if (lData.lli != 0 && rData.lli != 0) if (lData.lli <
-                                                            rData.lli)
+                  if (lData.lli != 0 && rData.lli != 0 &&
+                      lData.lli != rData.lli)
                   {
-                     return true;
+                     return lData.lli < rData.lli;
                   }
 
-                  if (lData.ssi != 0 && rData.ssi != 0) if (lData.ssi <
-                                                            rData.ssi)
+                  if (lData.ssi != 0 && rData.ssi != 0 &&
+                      lData.ssi != rData.ssi)
                   {
-                     return true;
+                     return lData.ssi < rData.ssi;
                   }
                }
             }
-- 
2.43.0


From fca12477e8f0a0eac0b155f878a2d521111c002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 098/103] fix: comments of merged headers

---
 core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp | 2 ++
 core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp b/core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp
index 5c170a2..76afbe2 100644
--- a/core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp
+++ b/core/lib/FileHandling/RINEX/RinexMetFilterOperators.hpp
@@ -183,6 +183,8 @@ namespace gpstk
             copy(commentSet.begin(), commentSet.end(),
                  inserter(theHeader.commentList,
                           theHeader.commentList.begin()));
+            if (!theHeader.commentList.empty())
+               theHeader.valid |= gpstk::RinexMetHeader::validComment;
 
                // find the set intersection of the obs types
             copy(theHeader.obsTypeList.begin(),
diff --git a/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp b/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp
index 8a6bde8..284a4f1 100644
--- a/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp
+++ b/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp
@@ -230,6 +230,8 @@ namespace gpstk
             copy(commentSet.begin(), commentSet.end(),
                  inserter(theHeader.commentList,
                           theHeader.commentList.begin()));
+            if (!theHeader.commentList.empty())
+               theHeader.valid |= gpstk::RinexObsHeader::commentValid;
 
                // find the set intersection of the obs types
             copy(theHeader.obsTypeList.begin(),
-- 
2.43.0


From b05a12db0e9ca8b425d8f5cc2afbc430a678ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 099/103] fix: IonexStore::clear left code biases and file
 names

---
 ext/lib/FileHandling/Ionex/IonexStore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ext/lib/FileHandling/Ionex/IonexStore.cpp b/ext/lib/FileHandling/Ionex/IonexStore.cpp
index fc675d3..c618973 100644
--- a/ext/lib/FileHandling/Ionex/IonexStore.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexStore.cpp
@@ -256,6 +256,8 @@ namespace gpstk
    {
 
       inxMaps.clear();
+      inxDCBMap.clear();
+      FileStore<IonexHeader>::clear();   // the files may be loaded again
 
       initialTime = CommonTime::END_OF_TIME;
       finalTime = CommonTime::BEGINNING_OF_TIME;
-- 
2.43.0


From fd376e292e1f769196a673ec93332da9895e0c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 100/103] fix: IonexStore::findDCB after the last file

---
 ext/lib/FileHandling/Ionex/IonexStore.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ext/lib/FileHandling/Ionex/IonexStore.cpp b/ext/lib/FileHandling/Ionex/IonexStore.cpp
index c618973..d018fed 100644
--- a/ext/lib/FileHandling/Ionex/IonexStore.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexStore.cpp
@@ -716,8 +716,10 @@ namespace gpstk
       }  // End of 'while ( itm != inxDCBMap.end() )'
 
 
-         // You should never get here, but just in case
-      return 0.0;
+         // the last of the DCB values end before the requested time
+      InvalidRequest e( "Inadequate data after requested time: " +
+                        time.asString() );
+      GPSTK_THROW(e);
 
    }  // End of method 'IonexStore::findDCB()'
 
-- 
2.43.0


From efeb121242904535e7f243a44c46a3931bcecb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 101/103] fix: SP3EphemerisStore::clearPosition/clearClock kept
 the file names

---
 core/lib/GNSSEph/SP3EphemerisStore.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/SP3EphemerisStore.hpp b/core/lib/GNSSEph/SP3EphemerisStore.hpp
index 8583741..679a97c 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.hpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.hpp
@@ -345,12 +345,12 @@ namespace gpstk
          /** Clear the position dataset only, meaning remove all data
           * from the tables. */
       virtual void clearPosition(void) throw()
-      { posStore.clear(); }
+      { posStore.clear(); SP3Files.clear(); }   // they may be loaded again
 
          /** Clear the clock dataset only, meaning remove all data
           * from the tables. */
       virtual void clearClock(void) throw()
-      { clkStore.clear(); }
+      { clkStore.clear(); clkFiles.clear(); }   // they may be loaded again
 
    
          /** Choose to load the clock data tables from RINEX clock
-- 
2.43.0


From 2c0f1ac4fe6b748938ca79bb2ea1f0bc2e021f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 102/103] fix: conversions between broadcast ephemeris
 representations

---
 core/lib/FileHandling/RINEX/RinexNavData.cpp  | 11 ++++++--
 .../lib/FileHandling/RINEX3/Rinex3NavData.cpp | 12 +++++---
 core/lib/GNSSEph/EngEphemeris.cpp             | 28 +++++++++++++------
 3 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index dddb6ae..1e68076 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -193,7 +193,13 @@ namespace gpstk
       {
             // Overhead
          gpse.satID = SatID(PRNID, SatelliteSystem::GPS);
-         gpse.ctToe = time;
+            // time is Toc; Toe is the nearest moment with its second of week
+         double dt = Toe - getTocWS().sow;
+         if (dt < -HALFWEEK)
+            dt += FULLWEEK;
+         else if (dt > HALFWEEK)
+            dt -= FULLWEEK;
+         gpse.ctToe = time + dt;
 
             // clock model
          gpse.af0 = af0;
@@ -243,7 +249,8 @@ namespace gpstk
 
             /// @note IODC must be set first...
          gpse.fitint = fitint;
-         gpse.setFitIntervalFlag(int(fitint)); 
+            // fitint is the interval in hours
+         gpse.setFitIntervalFlag(fitint > 4 ? 1 : 0);
          gpse.adjustValidity();
       }
       catch(Exception& e)
diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index da0001f..5ed7426 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -83,6 +83,7 @@ namespace gpstk
       Tgd2 = 0.0;
 
       // perturbations
+      Cuc = rnd.Cuc;
       Cus = rnd.Cus;
       Crc = rnd.Crc;
       Crs = rnd.Crs;
@@ -599,8 +600,11 @@ namespace gpstk
       short fitHours = getLegacyFitInterval(ee.IODC, ee.fitint);
       long beginFitSOW = Toe - (fitHours/2)*3600.0;
       long endFitSOW = Toe + (fitHours/2)*3600.0;
-      short beginFitWk = ee.weeknum;
-      short endFitWk = ee.weeknum;
+      short toeWeek = ee.weeknum;
+      if (Toe - ee.HOWtime[0] < -HALFWEEK) toeWeek++;
+      else if (Toe - ee.HOWtime[0] > HALFWEEK) toeWeek--;
+      short beginFitWk = toeWeek;
+      short endFitWk = toeWeek;
 
       if (beginFitSOW < 0)
       {
@@ -611,12 +615,12 @@ namespace gpstk
                                           TimeSystem::GPS);
       if (endFitSOW >= FULLWEEK)
       {
-         endFitSOW += FULLWEEK;
+         endFitSOW -= FULLWEEK;
          endFitWk++;
       }
 
       CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW, TimeSystem::GPS);
-      CommonTime toeCT = GPSWeekSecond(epochWeek, Toe, TimeSystem::GPS);
+      CommonTime toeCT = GPSWeekSecond(toeWeek, Toe, TimeSystem::GPS);
 
       ee.orbit.loadData( satSys, obsID, PRNID, beginFit, endFit, toeCT,
                       accFlag, healthy, Cuc, Cus, Crc, Crs, Cic, Cis, 
diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index f9d265c..8abbe77 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -1066,8 +1066,20 @@ namespace gpstk
       ObsID obsID(ObservationType::NavMsg, CarrierBand::Undefined, TrackingCode::Undefined);
       try
       {
-         CommonTime toeCT = GPSWeekSecond(weeknum, toe, TimeSystem::GPS);
-         CommonTime tocCT = GPSWeekSecond(weeknum, toc, TimeSystem::GPS);
+            // the data may be sent in the week before (or after) the one
+            // of the epochs
+         short toeWeek = weeknum;
+         if (toe - HOWtime[1] < -HALFWEEK)
+            toeWeek++;
+         else if (toe - HOWtime[1] > HALFWEEK)
+            toeWeek--;
+         short tocWeek = weeknum;
+         if (toc - HOWtime[0] < -HALFWEEK)
+            tocWeek++;
+         else if (toc - HOWtime[0] > HALFWEEK)
+            tocWeek--;
+         CommonTime toeCT = GPSWeekSecond(toeWeek, toe, TimeSystem::GPS);
+         CommonTime tocCT = GPSWeekSecond(tocWeek, toc, TimeSystem::GPS);
 
          double A = ahalf*ahalf;
          double dndot = 0.0;
@@ -1075,8 +1087,8 @@ namespace gpstk
          short fitHours = getLegacyFitInterval(IODC, fitint);
          long beginFitSOW = toe - (fitHours/2)*3600;
          long endFitSOW = toe + (fitHours/2)*3600;
-         short beginFitWk = weeknum;
-         short endFitWk = weeknum;
+         short beginFitWk = toeWeek;
+         short endFitWk = toeWeek;
          if (beginFitSOW < 0)
          {
             beginFitSOW += FULLWEEK;
@@ -1086,7 +1098,7 @@ namespace gpstk
                                              TimeSystem::GPS);
          if (endFitSOW >= FULLWEEK)
          {
-            endFitSOW += FULLWEEK;
+            endFitSOW -= FULLWEEK;
             endFitWk++;
          }
          CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW,
@@ -1217,8 +1229,8 @@ namespace gpstk
          short fitHours = getLegacyFitInterval(IODC, fitint);
          long beginFitSOW = toe - (fitHours/2)*3600.0;
          long endFitSOW = toe + (fitHours/2)*3600.0;
-         short beginFitWk = weeknum;
-         short endFitWk = weeknum;
+         short beginFitWk = toeWeek;
+         short endFitWk = toeWeek;
          if (beginFitSOW < 0)
          {
             beginFitSOW += FULLWEEK;
@@ -1228,7 +1240,7 @@ namespace gpstk
                                              TimeSystem::GPS);
          if (endFitSOW >= FULLWEEK)
          {
-            endFitSOW += FULLWEEK;
+            endFitSOW -= FULLWEEK;
             endFitWk++;
          }
          CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW,
-- 
2.43.0


From a65d4708b7aa31ecefdff5c518f70ea60264bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:47 +0000
Subject: [PATCH 103/103] fix: IonexHeader::clear kept the auxiliary data type,
 mapping function and observables

---
 ext/lib/FileHandling/Ionex/IonexHeader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ext/lib/FileHandling/Ionex/IonexHeader.cpp b/ext/lib/FileHandling/Ionex/IonexHeader.cpp
index 2fab5a4..383efd6 100644
--- a/ext/lib/FileHandling/Ionex/IonexHeader.cpp
+++ b/ext/lib/FileHandling/Ionex/IonexHeader.cpp
@@ -98,6 +98,9 @@ namespace gpstk
       lon[0] = lon[1] = lon[2] = 0.0;
 
       exponent = -1;    // that's the default value
+      mappingFunction.clear();
+      observablesUsed.clear();
+      auxData.clear();
       svsmap.clear();
       valid = auxDataFlag = false;
 
-- 
2.43.0

