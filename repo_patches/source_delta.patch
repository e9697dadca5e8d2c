From c5ada00ba81a042424f1a1fffe932344af53cd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 01/36] fix: Gregorian leap years follow the 4/100/400 rule

---
 src/base/TimeObj.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 064720d..99ae205 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -135,7 +135,8 @@ void Time::VerifyTime() {
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
 		if (m_eCalendarType == CalendarStandard) {
-			if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+			if (((m_iYear % 4) == 0) &&
+			    (((m_iYear % 100) != 0) || ((m_iYear % 400) == 0))) {
 				nDaysPerMonth[1] = 29;
 			}
 		}
@@ -174,7 +175,8 @@ void Time::NormalizeTime() {
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
 		if (m_eCalendarType == CalendarStandard) {
-			if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+			if (((m_iYear % 4) == 0) &&
+			    (((m_iYear % 100) != 0) || ((m_iYear % 400) == 0))) {
 				nDaysPerMonth[1] = 29;
 			}
 		}
@@ -225,7 +227,8 @@ void Time::NormalizeTime() {
 
 				// Adjust number of days per month
 				if (m_eCalendarType == CalendarStandard) {
-					if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+					if (((m_iYear % 4) == 0) &&
+					    (((m_iYear % 100) != 0) || ((m_iYear % 400) == 0))) {
 						nDaysPerMonth[1] = 29;
 					} else {
 						nDaysPerMonth[1] = 28;
@@ -245,7 +248,8 @@ void Time::NormalizeTime() {
 
 				// Adjust number of days per month
 				if (m_eCalendarType == CalendarStandard) {
-					if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+					if (((m_iYear % 4) == 0) &&
+					    (((m_iYear % 100) != 0) || ((m_iYear % 400) == 0))) {
 						nDaysPerMonth[1] = 29;
 					} else {
 						nDaysPerMonth[1] = 28;
-- 
2.43.0


From c89762cad8ae04e89b64abf317aac6d651a9a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 02/36] fix: normalisation of times with negative fields and
 across leap years

---
 src/base/TimeObj.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 99ae205..00a5f7a 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -174,20 +174,13 @@ void Time::NormalizeTime() {
 		int nDaysPerMonth[]
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
-		if (m_eCalendarType == CalendarStandard) {
-			if (((m_iYear % 4) == 0) &&
-			    (((m_iYear % 100) != 0) || ((m_iYear % 400) == 0))) {
-				nDaysPerMonth[1] = 29;
-			}
-		}
-
 		// Add seconds
 		int nAddedSeconds = 0;
 		if (m_iMicroSecond >= 1000000) {
 			nAddedSeconds = m_iMicroSecond / 1000000;
 
 		} else if (m_iMicroSecond < 0) {
-			nAddedSeconds = - (1000000 - m_iSecond) / 1000000;
+			nAddedSeconds = (m_iMicroSecond + 1) / 1000000 - 1;
 		}
 		m_iMicroSecond -= nAddedSeconds * 1000000;
 		m_iSecond += nAddedSeconds;
@@ -198,7 +191,7 @@ void Time::NormalizeTime() {
 			nAddedDays = m_iSecond / 86400;
 
 		} else if (m_iSecond < 0) {
-			nAddedDays = - (86400 - m_iSecond) / 86400;
+			nAddedDays = (m_iSecond + 1) / 86400 - 1;
 		}
 
 		m_iSecond -= nAddedDays * 86400;
@@ -209,11 +202,19 @@ void Time::NormalizeTime() {
 		if (m_iMonth >= 12) {
 			nAddedYears = m_iMonth / 12;
 		} else if (m_iMonth < 0) {
-			nAddedYears = - (12 - m_iMonth) / 12;
+			nAddedYears = (m_iMonth + 1) / 12 - 1;
 		}
 		m_iMonth -= nAddedYears * 12;
 		m_iYear += nAddedYears;
 
+		// Number of days in February of the year reached
+		if (m_eCalendarType == CalendarStandard) {
+			if (((m_iYear % 4) == 0) &&
+			    (((m_iYear % 100) != 0) || ((m_iYear % 400) == 0))) {
+				nDaysPerMonth[1] = 29;
+			}
+		}
+
 		if ((m_iMonth < 0) || (m_iMonth >= 12)) {
 			_EXCEPTIONT("Logic error");
 		}
-- 
2.43.0


From 27e2aa6bf0c3f9a6a696a08d96dc99c6774aff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 03/36] fix: days of a duration are not turned into calendar
 months

---
 src/base/TimeObj.cpp | 5 +++++
 src/base/TimeObj.h   | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 00a5f7a..97ac2db 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -219,6 +219,11 @@ void Time::NormalizeTime() {
 			_EXCEPTIONT("Logic error");
 		}
 
+		// The days of a duration have no month to be counted in
+		if (m_eTimeType == TypeDelta) {
+			return;
+		}
+
 		// Subtract months
 		while (m_iDay < 0) {
 			m_iMonth--;
diff --git a/src/base/TimeObj.h b/src/base/TimeObj.h
index d040041..f1395ce 100644
--- a/src/base/TimeObj.h
+++ b/src/base/TimeObj.h
@@ -357,6 +357,10 @@ public:
 	///	</summary>
 	inline void SetTimeType(TimeType eTimeType) {
 		m_eTimeType = eTimeType;
+
+		if (m_eCalendarType != CalendarNone) {
+			NormalizeTime();
+		}
 	}
 
 public:
-- 
2.43.0


From 2e35a2302ab8d1d7b0c9567101ce50f9b2a59670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 04/36] fix: malformed long time strings are refused

---
 src/base/TimeObj.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 97ac2db..61fa2f0 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -508,6 +508,15 @@ void Time::FromLongString(const std::string & strLongTime) {
 	if (strLongTime.length() != 23) {
 		_EXCEPTIONT("Invalid Time LongString");
 	}
+	for (int i = 0; i < 23; i++) {
+		if ((i == 4) || (i == 7) || (i == 10) || (i == 16)) {
+			if (strLongTime[i] != '-') {
+				_EXCEPTIONT("Invalid Time LongString");
+			}
+		} else if ((strLongTime[i] < '0') || (strLongTime[i] > '9')) {
+			_EXCEPTIONT("Invalid Time LongString");
+		}
+	}
 	m_iYear = atoi(strLongTime.c_str());
 	m_iMonth = atoi(strLongTime.c_str()+5) - 1;
 	m_iDay = atoi(strLongTime.c_str()+8) - 1;
-- 
2.43.0


From 6a8b05082d00306f8ce71c1a7668779856617cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:40 +0000
Subject: [PATCH 05/36] fix: resetting a timing group that was never timed is
 harmless (it ended restarted runs)

---
 src/base/FunctionTimer.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/base/FunctionTimer.cpp b/src/base/FunctionTimer.cpp
index f8e3884..1fd8f06 100644
--- a/src/base/FunctionTimer.cpp
+++ b/src/base/FunctionTimer.cpp
@@ -160,10 +160,6 @@ void FunctionTimer::ResetGroupTimeRecord(const char *szName) {
 	// Retrieve existing group record
 	if (iter != m_mapGroupData.end()) {
 		m_mapGroupData.erase(iter);
-
-	// Group record does not exist
-	} else {
-		_EXCEPTION1("Group time record %s does not exist.", szName);
 	}
 }
 
-- 
2.43.0


From 6821a871b2d6debd9de26b3a7ba8fad047aee4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 06/36] fix: the closing text of a block is not a format string

---
 src/base/Announce.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/Announce.cpp b/src/base/Announce.cpp
index 5ee6ca1..6f43c0a 100644
--- a/src/base/Announce.cpp
+++ b/src/base/Announce.cpp
@@ -185,7 +185,7 @@ void AnnounceEndBlock(const char * szText) {
 			fprintf(g_fpAnnounceOutput, "\n");
 
 		} else {
-			Announce(szText);
+			Announce("%s", szText);
 		}
 	}
 
-- 
2.43.0


From 2fc8518a74a3a9819b4de8a9b938607303cc328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 07/36] fix: banners go entirely to the selected stream

---
 src/base/Announce.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/Announce.cpp b/src/base/Announce.cpp
index 6f43c0a..700046a 100644
--- a/src/base/Announce.cpp
+++ b/src/base/Announce.cpp
@@ -349,7 +349,7 @@ void AnnounceBanner(const char * szText) {
 	int i;
 	if (szText == NULL) {
 		for (i = 0; i < BannerSize; i++) {
-			printf("-");
+			fprintf(g_fpAnnounceOutput, "-");
 		}
 		fprintf(g_fpAnnounceOutput, "\n");
 		fflush(g_fpAnnounceOutput);
@@ -358,7 +358,7 @@ void AnnounceBanner(const char * szText) {
 
 	// Text in banner
 	int nLen = strlen(szText) + 2;
-	printf("--");
+	fprintf(g_fpAnnounceOutput, "--");
 	if (nLen > BannerSize - 2) {
 		fprintf(g_fpAnnounceOutput, "%s", szText);
 		fprintf(g_fpAnnounceOutput, "--");
-- 
2.43.0


From 8c984fc97602168945bc6cb356fdc65fa01e0167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 08/36] fix: messages longer than the announcement buffer do
 not overflow it

---
 src/base/Announce.cpp | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/base/Announce.cpp b/src/base/Announce.cpp
index 700046a..7e80fc9 100644
--- a/src/base/Announce.cpp
+++ b/src/base/Announce.cpp
@@ -43,11 +43,6 @@ bool g_fOnlyOutputOnRankZero = false;
 
 ///////////////////////////////////////////////////////////////////////////////
 
-///	<summary>
-///		Maximum announcement buffer size.
-///	</summary>
-static const int AnnouncementBufferSize = 1024;
-
 ///	<summary>
 ///		Maximum indentation level.
 ///	</summary>
@@ -235,26 +230,23 @@ void Announce(const char * szText, ...) {
 		return;
 	}
 
-	// Output buffer
-	char szBuffer[AnnouncementBufferSize];
+	// Output with proper indentation
+	int i;
+	for (i = 0; i < s_nIndentationLevel; i++) {
+		fprintf(g_fpAnnounceOutput, "..");
+	}
 
 	va_list arguments;
 
 	// Initialize the argument list
 	va_start(arguments, szText);
 
-	// Write to string
-	vsprintf(szBuffer, szText, arguments);
+	// Write the text
+	vfprintf(g_fpAnnounceOutput, szText, arguments);
 
 	// Cleans up the argument list
 	va_end(arguments);
 
-	// Output with proper indentation
-	int i;
-	for (i = 0; i < s_nIndentationLevel; i++) {
-		fprintf(g_fpAnnounceOutput, "..");
-	}
-	fprintf(g_fpAnnounceOutput, "%s", szBuffer);
 	fprintf(g_fpAnnounceOutput, "\n");
 
 	fflush(g_fpAnnounceOutput);
@@ -297,26 +289,23 @@ void Announce(
 		return;
 	}
 
-	// Output buffer
-	char szBuffer[AnnouncementBufferSize];
+	// Output with proper indentation
+	int i;
+	for (i = 0; i < s_nIndentationLevel; i++) {
+		fprintf(g_fpAnnounceOutput, "..");
+	}
 
 	va_list arguments;
 
 	// Initialize the argument list
 	va_start(arguments, szText);
 
-	// Write to string
-	vsprintf(szBuffer, szText, arguments);
+	// Write the text
+	vfprintf(g_fpAnnounceOutput, szText, arguments);
 
 	// Cleans up the argument list
 	va_end(arguments);
 
-	// Output with proper indentation
-	int i;
-	for (i = 0; i < s_nIndentationLevel; i++) {
-		fprintf(g_fpAnnounceOutput, "..");
-	}
-	fprintf(g_fpAnnounceOutput, "%s", szBuffer);
 	fprintf(g_fpAnnounceOutput, "\n");
 
 	fflush(g_fpAnnounceOutput);
-- 
2.43.0


From 63452d6debebe8d83991dbd425b10b7a28ac3624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 09/36] fix: preference files with long lines or an
 unterminated last line are read completely

---
 src/base/Preferences.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/base/Preferences.cpp b/src/base/Preferences.cpp
index b6ea7ef..bfa98d9 100644
--- a/src/base/Preferences.cpp
+++ b/src/base/Preferences.cpp
@@ -40,14 +40,11 @@ void Preferences::ParsePreferences(
 		_EXCEPTION1("Error opening file %s", szFilename);
 	}
 
-	char szBuffer[256];
+	std::string strLine;
 
 	// Read the file line by line
-	for (;;) {
-		file.getline(szBuffer, 256);
-		if (file.eof()) {
-			break;
-		}
+	while (std::getline(file, strLine)) {
+		char * szBuffer = &(strLine[0]);
 
 		// Ignore comment characters
 		if (strlen(szBuffer) == 0) {
-- 
2.43.0


From d3d964780e735e67d175664146d66baa040a0c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 10/36] fix: preference lines without a name are rejected

---
 src/base/Preferences.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/base/Preferences.cpp b/src/base/Preferences.cpp
index bfa98d9..de8b328 100644
--- a/src/base/Preferences.cpp
+++ b/src/base/Preferences.cpp
@@ -69,6 +69,9 @@ void Preferences::ParsePreferences(
 
 		// Remove whitespace from the name string
 		size_t nLength = strlen(szName);
+		if (nLength == 0) {
+			_EXCEPTIONT("Invalid name in Preference");
+		}
 		for (i = nLength-1;; i--) {
 			if (szName[i] == ' ') {
 				szName[i] = static_cast<char>(NULL);
@@ -94,17 +97,12 @@ void Preferences::ParsePreferences(
 
 		// Remove whitespace from the value string
 		nLength = strlen(szEqual);
-		for (i = nLength-1;; i--) {
-			if (szEqual[i] == ' ') {
-				szEqual[i] = static_cast<char>(NULL);
+		for (i = nLength; i > 0; i--) {
+			if (szEqual[i-1] == ' ') {
+				szEqual[i-1] = static_cast<char>(NULL);
 			} else {
 				break;
 			}
-
-			// No value, set to NULL
-			if (i == 0) {
-				break;
-			}
 		}
 
 		for (i = 0; i < nLength; i++) {
-- 
2.43.0


From fbc76be8b56867fdb0ebd1fa2216401b3cb58566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:24 +0000
Subject: [PATCH 11/36] fix: assigning a DataArray2D to itself erased its
 content

---
 src/base/DataArray2D.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/base/DataArray2D.h b/src/base/DataArray2D.h
index 9bff11b..51ec242 100644
--- a/src/base/DataArray2D.h
+++ b/src/base/DataArray2D.h
@@ -300,9 +300,6 @@ public:
 				Deallocate();
 				Allocate(da.m_sSize[0], da.m_sSize[1]);
 			}
-
-			Deallocate();
-			Allocate(da.m_sSize[0], da.m_sSize[1]);
 			m_eDataType = da.m_eDataType;
 			m_eDataLocation = da.m_eDataLocation;
 		}
-- 
2.43.0


From 63482b539412bcb76d9aaba3b8b29c32e88e42e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:24 +0000
Subject: [PATCH 12/36] fix: arrays release memory obtained from malloc() with
 free()

---
 src/base/DataArray1D.h | 2 +-
 src/base/DataArray2D.h | 2 +-
 src/base/DataArray3D.h | 2 +-
 src/base/DataArray4D.h | 2 +-
 src/base/DataStruct.h  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/base/DataArray1D.h b/src/base/DataArray1D.h
index 5cbd4bb..ceb80ea 100644
--- a/src/base/DataArray1D.h
+++ b/src/base/DataArray1D.h
@@ -168,7 +168,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data != NULL)) {
-			delete[] m_data;
+			free(m_data);
 		}
 		m_fOwnsData = true;
 		m_data = NULL;
diff --git a/src/base/DataArray2D.h b/src/base/DataArray2D.h
index 51ec242..77e23cf 100644
--- a/src/base/DataArray2D.h
+++ b/src/base/DataArray2D.h
@@ -198,7 +198,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data1D != NULL)) {
-			delete[] m_data1D;
+			free(m_data1D);
 		}
 		m_fOwnsData = true;
 		m_data1D = NULL;
diff --git a/src/base/DataArray3D.h b/src/base/DataArray3D.h
index b0e4d60..c13e4b2 100644
--- a/src/base/DataArray3D.h
+++ b/src/base/DataArray3D.h
@@ -210,7 +210,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data1D != NULL)) {
-			delete[] m_data1D;
+			free(m_data1D);
 		}
 		m_fOwnsData = true;
 		m_data1D = NULL;
diff --git a/src/base/DataArray4D.h b/src/base/DataArray4D.h
index 22d96e6..8b21acb 100644
--- a/src/base/DataArray4D.h
+++ b/src/base/DataArray4D.h
@@ -228,7 +228,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data1D != NULL)) {
-			delete[] m_data1D;
+			free(m_data1D);
 		}
 		m_fOwnsData = true;
 		m_data1D = NULL;
diff --git a/src/base/DataStruct.h b/src/base/DataStruct.h
index 471f41a..0b5f67d 100644
--- a/src/base/DataStruct.h
+++ b/src/base/DataStruct.h
@@ -111,7 +111,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data != NULL)) {
-			delete[] m_data;
+			free(m_data);
 		}
 		m_fOwnsData = true;
 		m_data = NULL;
-- 
2.43.0


From 2ff8f68465fd730287679c06ab4028f5ffd1ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:52 +0000
Subject: [PATCH 13/36] fix: processes without a patch do not end the run

DistributePatches() created a patch for every patch the grid had room for
(the number of processes) and not only for those in the layout, so that
cubed-sphere runs on 7 to 23 processes were ended by the empty ones.
---
 src/atm/Grid.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/atm/Grid.cpp b/src/atm/Grid.cpp
index b21f3ee..c22ec88 100644
--- a/src/atm/Grid.cpp
+++ b/src/atm/Grid.cpp
@@ -1046,8 +1046,9 @@ void Grid::DistributePatches() {
 	MPI_Comm_rank(MPI_COMM_WORLD, &nRank);
 
 	// Loop over all patches and initialize data
-	m_vecPatchProcessor.resize(m_aPatchBoxes.GetRows());
-	for (int n = 0; n < m_aPatchBoxes.GetRows(); n++) {
+	// (room may have been reserved for more patches than are in the layout)
+	m_vecPatchProcessor.resize(GetPatchCount());
+	for (int n = 0; n < GetPatchCount(); n++) {
 		int iPatchProcessor = n % nSize;
 		m_vecPatchProcessor[n] = iPatchProcessor;
 
-- 
2.43.0


From ee619ce40b798f239edd4ca10c5da5c87d45746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:46 +0000
Subject: [PATCH 14/36] fix: node positions and areas left of the domain

Negative indices that are multiples of the number of nodes per element were
reported as an error or located in the wrong element, and areas at negative
indices were read from outside of the table of weights.
---
 src/atm/GridSpacing.cpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/atm/GridSpacing.cpp b/src/atm/GridSpacing.cpp
index 6a750cb..518cb3d 100644
--- a/src/atm/GridSpacing.cpp
+++ b/src/atm/GridSpacing.cpp
@@ -95,9 +95,9 @@ double GridSpacingGaussLobatto::GetNode(int ix) const {
 	int ixSubElement = (ix % (m_nOrder - 1));
 
 	// Case of a negative index
-	if (ix < 0) {
+	if (ixSubElement < 0) {
 		ixElement = ixElement - 1;
-		ixSubElement = m_nOrder + ixSubElement;
+		ixSubElement = m_nOrder - 1 + ixSubElement;
 	}
 
 	if (ixSubElement >= m_nOrder) {
@@ -115,9 +115,9 @@ double GridSpacingGaussLobatto::GetEdge(int ix) const {
 	int ixElement    = (ix / (m_nOrder - 1));
 	int ixSubElement = (ix % (m_nOrder - 1));
 
-	if (ix < 0) {
+	if (ixSubElement < 0) {
 		ixElement = ixElement - 1;
-		ixSubElement = m_nOrder + ixSubElement;
+		ixSubElement = m_nOrder - 1 + ixSubElement;
 	}
 
 	if (ixSubElement >= m_nOrder) {
@@ -133,6 +133,9 @@ double GridSpacingGaussLobatto::GetEdge(int ix) const {
 
 double GridSpacingGaussLobatto::GetNodeNormArea(int ix) const {
 	int ixSubElement = (ix % (m_nOrder - 1));
+	if (ixSubElement < 0) {
+		ixSubElement += m_nOrder - 1;
+	}
 
 	if (ixSubElement == 0) {
 		return (2.0 * m_dW[0]);
@@ -145,6 +148,9 @@ double GridSpacingGaussLobatto::GetNodeNormArea(int ix) const {
 
 double GridSpacingGaussLobatto::GetEdgeNormArea(int ix) const {
 	int ixSubElement = (ix % (m_nOrder - 1));
+	if (ixSubElement < 0) {
+		ixSubElement += m_nOrder - 1;
+	}
 
 	if (ixSubElement == 0) {
 		return (2.0 * m_dW[0]);
@@ -182,7 +188,7 @@ double GridSpacingGaussLobattoRepeated::GetNode(int ix) const {
 	int ixSubElement = (ix % m_nOrder);
 
 	// Case of a negative index
-	if (ix < 0) {
+	if (ixSubElement < 0) {
 		ixElement = ixElement - 1;
 		ixSubElement = m_nOrder + ixSubElement;
 	}
@@ -202,7 +208,7 @@ double GridSpacingGaussLobattoRepeated::GetEdge(int ix) const {
 	int ixElement    = (ix / m_nOrder);
 	int ixSubElement = (ix % m_nOrder);
 
-	if (ix < 0) {
+	if (ixSubElement < 0) {
 		ixElement = ixElement - 1;
 		ixSubElement = m_nOrder + ixSubElement;
 	}
@@ -220,6 +226,9 @@ double GridSpacingGaussLobattoRepeated::GetEdge(int ix) const {
 
 double GridSpacingGaussLobattoRepeated::GetNodeNormArea(int ix) const {
 	int ixSubElement = (ix % m_nOrder);
+	if (ixSubElement < 0) {
+		ixSubElement += m_nOrder;
+	}
 
 	return (m_dW[ixSubElement]);
 }
@@ -228,6 +237,9 @@ double GridSpacingGaussLobattoRepeated::GetNodeNormArea(int ix) const {
 
 double GridSpacingGaussLobattoRepeated::GetEdgeNormArea(int ix) const {
 	int ixSubElement = (ix % m_nOrder);
+	if (ixSubElement < 0) {
+		ixSubElement += m_nOrder;
+	}
 
 	return (m_dW[ixSubElement]);
 }
@@ -265,7 +277,7 @@ double GridSpacingMixedGaussLobatto::GetNode(int ix) const {
 	int ixSubElement = (ix % m_nOrder);
 
 	// Case of a negative index
-	if (ix < 0) {
+	if (ixSubElement < 0) {
 		ixElement = ixElement - 1;
 		ixSubElement = m_nOrder + ixSubElement;
 	}
@@ -286,7 +298,7 @@ double GridSpacingMixedGaussLobatto::GetEdge(int ix) const {
 	int ixSubElement = (ix % m_nOrder);
 
 	// Case of a negative index
-	if (ix < 0) {
+	if (ixSubElement < 0) {
 		ixElement = ixElement - 1;
 		ixSubElement = m_nOrder + ixSubElement;
 	}
@@ -304,6 +316,9 @@ double GridSpacingMixedGaussLobatto::GetEdge(int ix) const {
 
 double GridSpacingMixedGaussLobatto::GetNodeNormArea(int ix) const {
 	int ixSubElement = (ix % m_nOrder);
+	if (ixSubElement < 0) {
+		ixSubElement += m_nOrder;
+	}
 
 	return (m_dW[ixSubElement]);
 }
@@ -312,6 +327,9 @@ double GridSpacingMixedGaussLobatto::GetNodeNormArea(int ix) const {
 
 double GridSpacingMixedGaussLobatto::GetEdgeNormArea(int ix) const {
 	int ixSubElement = (ix % m_nOrder);
+	if (ixSubElement < 0) {
+		ixSubElement += m_nOrder;
+	}
 
 	if (ixSubElement == 0) {
 		return (2.0 * m_dWL[ixSubElement]);
-- 
2.43.0


From 5931e4d4e303d350d1a7358c772119be34dc4d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:46 +0000
Subject: [PATCH 15/36] fix: Cartesian layouts have no empty patches

With more patches than elements in the alpha direction (and a number of
elements divisible by it) strips without any nodes were created.
---
 src/atm/GridCartesianGLL.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/atm/GridCartesianGLL.cpp b/src/atm/GridCartesianGLL.cpp
index 6d7cdbf..f05bc3b 100644
--- a/src/atm/GridCartesianGLL.cpp
+++ b/src/atm/GridCartesianGLL.cpp
@@ -171,6 +171,11 @@ void GridCartesianGLL::ApplyDefaultPatchLayout(
 		nProcsBDirection = 1;
 	}
 
+	// Strips are at least one element wide
+	if (nProcsADirection > GetABaseResolution()) {
+		nProcsADirection = GetABaseResolution();
+	}
+
 	//nProcsADirection = nProcsPerDirection;
 	//nProcsBDirection = 1;
 
-- 
2.43.0


From b096500ee64f54ceadf7c664ba5bd12fbcdb88c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:38 +0000
Subject: [PATCH 16/36] fix: corner halos wider than one node across rotated
 panel edges

Corner blocks were packed in transposed order when the panels across the edge
are rotated by a quarter turn and not transposed when rotated by half a turn
for only half of the panel pairs; the order has to change exactly when the
axes are exchanged.
---
 src/atm/Connectivity.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/atm/Connectivity.cpp b/src/atm/Connectivity.cpp
index 76e7da4..5dd5f0c 100644
--- a/src/atm/Connectivity.cpp
+++ b/src/atm/Connectivity.cpp
@@ -257,7 +257,7 @@ void ExchangeBuffer::Pack(
 		}
 
 		// Pack the SendBuffer
-		if (m_fReverseDirection) {
+		if (m_fReverseDirection != m_fFlippedCoordinate) {
 			for (int i = ixABoundaryBegin; i < ixABoundaryEnd; i++) {
 			for (int j = ixBBoundaryBegin; j < ixBBoundaryEnd; j++) {
 #pragma simd
@@ -300,7 +300,7 @@ void ExchangeBuffer::Pack(
 		}
 
 		// Pack the SendBuffer
-		if (m_fReverseDirection) {
+		if (m_fReverseDirection != m_fFlippedCoordinate) {
 			for (int i = ixABoundaryEnd-1; i >= ixABoundaryBegin; i--) {
 			for (int j = ixBBoundaryBegin; j < ixBBoundaryEnd; j++) {
 #pragma simd
@@ -343,7 +343,7 @@ void ExchangeBuffer::Pack(
 		}
 
 		// Pack the SendBuffer
-		if (m_fReverseDirection) {
+		if (m_fReverseDirection != m_fFlippedCoordinate) {
 			for (int i = ixABoundaryEnd-1; i >= ixABoundaryBegin; i--) {
 			for (int j = ixBBoundaryEnd-1; j >= ixBBoundaryBegin; j--) {
 #pragma simd
@@ -386,7 +386,7 @@ void ExchangeBuffer::Pack(
 		}
 
 		// Pack the SendBuffer
-		if (m_fReverseDirection) {
+		if (m_fReverseDirection != m_fFlippedCoordinate) {
 			for (int i = ixABoundaryBegin; i < ixABoundaryEnd; i++) {
 			for (int j = ixBBoundaryEnd-1; j >= ixBBoundaryBegin; j--) {
 #pragma simd
-- 
2.43.0


From df98b4d14886179b3681621efd4f83f5bea4d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 17/36] fix: vectors at the poles of the cubed sphere (second
 component at the south pole, division by zero of the contravariant inverse)

---
 src/atm/CubedSphereTrans.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/atm/CubedSphereTrans.cpp b/src/atm/CubedSphereTrans.cpp
index 90fa095..9dbab4a 100644
--- a/src/atm/CubedSphereTrans.cpp
+++ b/src/atm/CubedSphereTrans.cpp
@@ -399,10 +399,11 @@ void CubedSphereTrans::VecTransABPFromRLL(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUalpha = dUlon;
+			dUbeta = dUlat;
 		} else {
 			dUalpha = - dUlon;
+			dUbeta = - dUlat;
 		}
-		dUbeta = dUlat;
 		return;
 	}
 
@@ -482,6 +483,17 @@ void CubedSphereTrans::VecTransRLLFromABP(
 
 	double lat;
 
+	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
+		if (nP == 4) {
+			dUlon = dUalpha;
+			dUlat = dUbeta;
+		} else {
+			dUlon = - dUalpha;
+			dUlat = - dUbeta;
+		}
+		return;
+	}
+
 	switch (nP) {
 		// Equatorial panels
 		case 0:
@@ -563,10 +575,11 @@ void CubedSphereTrans::CoVecTransABPFromRLL(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUalpha = dUlon;
+			dUbeta = dUlat;
 		} else {
 			dUalpha = - dUlon;
+			dUbeta = - dUlat;
 		}
-		dUbeta = dUlat;
 		return;
 	}
 
@@ -655,10 +668,11 @@ void CubedSphereTrans::CoVecTransRLLFromABP(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUlon = dUalpha;
+			dUlat = dUbeta;
 		} else {
 			dUlon = - dUalpha;
+			dUlat = - dUbeta;
 		}
-		dUlat = dUbeta;
 		return;
 	}
 
-- 
2.43.0


From 85b0b872ac835c919918b21fa82d93e8325128ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:21 +0000
Subject: [PATCH 18/36] fix: copy the tracers, not the state twice, between
 stages of ARS222, ARK232, SSP3332, ARS443 and GARK2

---
 src/atm/TimestepSchemeARK232.cpp  | 6 +++---
 src/atm/TimestepSchemeARS222.cpp  | 2 +-
 src/atm/TimestepSchemeARS443.cpp  | 6 +++---
 src/atm/TimestepSchemeGARK2.cpp   | 2 +-
 src/atm/TimestepSchemeSSP3332.cpp | 6 +++---
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index 758f505..cade447 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -108,7 +108,7 @@ void TimestepSchemeARK232::Step(
 		pHorizontalDynamics, pVerticalDynamics, pGrid);
 /*
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicitTermsExplicitly(
 		1, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -116,7 +116,7 @@ void TimestepSchemeARK232::Step(
 */
 	// Compute u1 into index 3
 	pGrid->CopyData(2, 3, DataType_State);
-	pGrid->CopyData(2, 3, DataType_State);
+	pGrid->CopyData(2, 3, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		3, 3, time, m_dImpCf[0][1] * dDeltaT);
 	pGrid->PostProcessSubstage(3, DataType_State);
@@ -137,7 +137,7 @@ void TimestepSchemeARK232::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(4, 5, DataType_State);
-	pGrid->CopyData(4, 5, DataType_State);
+	pGrid->CopyData(4, 5, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		5, 5, time, m_dImpCf[1][2] * dDeltaT);
 	pGrid->PostProcessSubstage(5, DataType_State);
diff --git a/src/atm/TimestepSchemeARS222.cpp b/src/atm/TimestepSchemeARS222.cpp
index 3b2ae8b..39e4310 100644
--- a/src/atm/TimestepSchemeARS222.cpp
+++ b/src/atm/TimestepSchemeARS222.cpp
@@ -85,7 +85,7 @@ void TimestepSchemeARS222::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
diff --git a/src/atm/TimestepSchemeARS443.cpp b/src/atm/TimestepSchemeARS443.cpp
index d6ba3f0..38cf802 100644
--- a/src/atm/TimestepSchemeARS443.cpp
+++ b/src/atm/TimestepSchemeARS443.cpp
@@ -117,7 +117,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -138,7 +138,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -159,7 +159,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
diff --git a/src/atm/TimestepSchemeGARK2.cpp b/src/atm/TimestepSchemeGARK2.cpp
index fc9bad2..9422135 100644
--- a/src/atm/TimestepSchemeGARK2.cpp
+++ b/src/atm/TimestepSchemeGARK2.cpp
@@ -103,7 +103,7 @@ void TimestepSchemeGARK2::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
diff --git a/src/atm/TimestepSchemeSSP3332.cpp b/src/atm/TimestepSchemeSSP3332.cpp
index 3dd7faa..cd28930 100644
--- a/src/atm/TimestepSchemeSSP3332.cpp
+++ b/src/atm/TimestepSchemeSSP3332.cpp
@@ -108,7 +108,7 @@ void TimestepSchemeSSP3332::Step(
 	// STAGE 1
 	// Compute u1 into index 2
 	pGrid->CopyData(0, 2, DataType_State);
-	pGrid->CopyData(0, 2, DataType_State);
+	pGrid->CopyData(0, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -130,7 +130,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -151,7 +151,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
-- 
2.43.0


From 86d52c3804df7bb0a6a8545b7180f011e8c17343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:21 +0000
Subject: [PATCH 19/36] fix: first stage of ARK232: keep the initial state,
 evaluate the implicit terms on it

---
 src/atm/TimestepSchemeARK232.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index cade447..f2901a5 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -91,7 +91,7 @@ void TimestepSchemeARK232::Step(
 
 	// STAGE 1
 	// Compute uf1 into index 1
-	SubcycleStageExplicit(time, m_dExpCf[0][0], dDeltaT, 2, 0, 1, 
+	SubcycleStageExplicit(time, m_dExpCf[0][0], dDeltaT, 1, 0, 1, 
 		pHorizontalDynamics, pVerticalDynamics, pGrid);
 /*
 	pGrid->CopyData(0, 1, DataType_State);
@@ -104,16 +104,12 @@ void TimestepSchemeARK232::Step(
 	pGrid->PostProcessSubstage(1, DataType_Tracers);
 */
 	// Compute ug1 into index 2 (NO IMPLICIT SOLVE NEEDED HERE)
-	SubcycleStageImplicitExplicitly(time, m_dImpCf[0][0], dDeltaT, 1, 1, 2, 
-		pHorizontalDynamics, pVerticalDynamics, pGrid);
-/*
 	pGrid->CopyData(1, 2, DataType_State);
 	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicitTermsExplicitly(
-		1, 2, time, m_dImpCf[0][0] * dDeltaT);
+		0, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
 	pGrid->PostProcessSubstage(2, DataType_Tracers);
-*/
 	// Compute u1 into index 3
 	pGrid->CopyData(2, 3, DataType_State);
 	pGrid->CopyData(2, 3, DataType_Tracers);
-- 
2.43.0


From b153aa326b926386b03df34d66830660bca6e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:21 +0000
Subject: [PATCH 20/36] fix: SplitExp takes at least one small step

---
 src/atm/TimestepSchemeSplitExp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/atm/TimestepSchemeSplitExp.cpp b/src/atm/TimestepSchemeSplitExp.cpp
index 99042af..5dfeb41 100644
--- a/src/atm/TimestepSchemeSplitExp.cpp
+++ b/src/atm/TimestepSchemeSplitExp.cpp
@@ -88,6 +88,9 @@ void TimestepSchemeSplitExp::Step(
 	// Compute the stiff time step based on CFL = 1 and c = 350.0 m/s
 	double dStiffDT = dZGridSpace / 350.0;
 	int ns = int (2.0 * dDeltaT / dStiffDT);
+	if (ns < 1) {
+		ns = 1;
+	}
 	//ns = 20;
 	//std::cout << "Number of small steps: " << ns << std::endl;
 
-- 
2.43.0


From 809187ec9b3b137addf359780f5bb5c3e9648963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 21/36] fix: restart output with processes that hold no patch

With more processes than patches the idle ones refused to take part and the run stopped at the first restart file.
---
 src/atm/OutputManagerComposite.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/atm/OutputManagerComposite.cpp b/src/atm/OutputManagerComposite.cpp
index e6b472c..7494f83 100644
--- a/src/atm/OutputManagerComposite.cpp
+++ b/src/atm/OutputManagerComposite.cpp
@@ -28,6 +28,7 @@
 #endif
 
 #include <iostream>
+#include <vector>
 #include <cstdio>
 #include <cmath>
 #include <cfloat>
@@ -241,12 +242,9 @@ void OutputManagerComposite::Output(
 	if (nRank != 0) {
 
 		int nActivePatches = m_grid.GetActivePatchCount();
-		if (nActivePatches == 0) {
-			_EXCEPTIONT("No GridPatches on processor");
-		}
 
-		DataArray1D<MPI_Request> vecSendReqGeo(nActivePatches);
-		DataArray1D<MPI_Request> vecSendReqAcS(nActivePatches);
+		std::vector<MPI_Request> vecSendReqGeo(nActivePatches);
+		std::vector<MPI_Request> vecSendReqAcS(nActivePatches);
 
 		for (int i = 0; i < nActivePatches; i++) {
 			const GridPatch * pPatch = m_grid.GetActivePatch(i);
@@ -291,7 +289,7 @@ void OutputManagerComposite::Output(
 		int iWaitAllMsgGeo =
 			MPI_Waitall(
 				nActivePatches,
-				&(vecSendReqGeo[0]),
+				vecSendReqGeo.data(),
 				MPI_STATUSES_IGNORE);
 
 		if (iWaitAllMsgGeo == MPI_ERR_IN_STATUS) {
@@ -301,7 +299,7 @@ void OutputManagerComposite::Output(
 		int iWaitAllMsgAcS =
 			MPI_Waitall(
 				nActivePatches,
-				&(vecSendReqAcS[0]),
+				vecSendReqAcS.data(),
 				MPI_STATUSES_IGNORE);
 
 		if (iWaitAllMsgAcS == MPI_ERR_IN_STATUS) {
-- 
2.43.0


From 735c6fc0908c481bd186b68ad9001ce7b340251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 22/36] fix: reject restart files that have been cut short

Reads past the end of the file went unnoticed and left zeros in place of the state.
---
 src/atm/OutputManagerComposite.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/atm/OutputManagerComposite.cpp b/src/atm/OutputManagerComposite.cpp
index 7494f83..9f36971 100644
--- a/src/atm/OutputManagerComposite.cpp
+++ b/src/atm/OutputManagerComposite.cpp
@@ -448,7 +448,7 @@ Time OutputManagerComposite::Input(
 	// Read check bits
 	int iCheckInput;
 	ifsActiveInput.read((char *)(&iCheckInput), sizeof(int));
-	if (iCheckInput != m_iCheck) {
+	if ((!ifsActiveInput) || (iCheckInput != m_iCheck)) {
 		_EXCEPTION1("Invalid or incompatible input file \"%s\"",
 			strFileName.c_str());
 	}
@@ -464,6 +464,9 @@ Time OutputManagerComposite::Input(
 		(char *)(dcGridParameters.GetPointer());
 
 	ifsActiveInput.read(pGridParameters, nGridParametersByteSize);
+	if (!ifsActiveInput) {
+		_EXCEPTION1("Input file \"%s\" is incomplete", strFileName.c_str());
+	}
 
 	// Initialize the Grid from specified parameters
 	m_grid.InitializeDataLocal();
@@ -476,6 +479,9 @@ Time OutputManagerComposite::Input(
 		(char *)(dcGridPatchData.GetPointer());
 
 	ifsActiveInput.read(pGridPatchData, nGridPatchDataByteSize);
+	if (!ifsActiveInput) {
+		_EXCEPTION1("Input file \"%s\" is incomplete", strFileName.c_str());
+	}
 
 	// Distribute GridPatches to processors
 	m_grid.DistributePatches();
@@ -566,6 +572,27 @@ Time OutputManagerComposite::Input(
 			pActiveStateData, m_vecGridPatchByteSize[iPatchIx][1]);
 	}
 
+	// Verify that every process has read all of its data, up to the end of
+	// the data of the last GridPatch
+	const int iLastPatch = m_grid.GetPatchCount() - 1;
+	ifsActiveInput.seekg(0, std::ios::end);
+
+	int fIncomplete = 0;
+	if ((!ifsActiveInput) ||
+		(ifsActiveInput.tellg() - posRefFile <
+			m_vecGridPatchByteLoc[iLastPatch][1]
+			+ m_vecGridPatchByteSize[iLastPatch][1])
+	) {
+		fIncomplete = 1;
+	}
+
+	MPI_Allreduce(
+		MPI_IN_PLACE, &fIncomplete, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+
+	if (fIncomplete) {
+		_EXCEPTION1("Input file \"%s\" is incomplete", strFileName.c_str());
+	}
+
 	// Close the file
 	ifsActiveInput.close();
 
-- 
2.43.0


From bbf2328ed2eec6d18ade7888be10b23b9df05fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 23/36] fix: keep the XZ flag of a Cartesian grid in restart
 files

A restarted slice model otherwise turns rotation and the second horizontal velocity on.
---
 src/atm/GridCartesianGLL.cpp | 1 -
 src/atm/GridGLL.cpp          | 1 +
 src/atm/GridGLL.h            | 2 +-
 3 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridCartesianGLL.cpp b/src/atm/GridCartesianGLL.cpp
index f05bc3b..2411a36 100644
--- a/src/atm/GridCartesianGLL.cpp
+++ b/src/atm/GridCartesianGLL.cpp
@@ -52,7 +52,6 @@ void GridCartesianGLL::DefineParameters() {
 	// Add parameters for GridCartesianGLL
 	m_dcGridParameters.PushDataChunk(&m_dGDim);
 	m_dcGridParameters.PushDataChunk(&m_dRefLat);
-	//m_dcGridParameters.PushDataChunk(&m_fCartesianXZ);
 
 	// Call up the stack
 	GridGLL::DefineParameters();
diff --git a/src/atm/GridGLL.cpp b/src/atm/GridGLL.cpp
index 720bdf1..0290ace 100644
--- a/src/atm/GridGLL.cpp
+++ b/src/atm/GridGLL.cpp
@@ -43,6 +43,7 @@ void GridGLL::DefineParameters() {
 	// Initialize the GridParameters relevant to GridGLL
 	m_dcGridParameters.PushDataChunk(&m_nHorizontalOrder);
 	m_dcGridParameters.PushDataChunk(&m_nVerticalOrder);
+	m_dcGridParameters.PushDataChunk(&m_fCartesianXZ);
 
 	// Call up the stack
 	Grid::DefineParameters();
diff --git a/src/atm/GridGLL.h b/src/atm/GridGLL.h
index 8527b36..40b2ee4 100644
--- a/src/atm/GridGLL.h
+++ b/src/atm/GridGLL.h
@@ -237,7 +237,7 @@ public:
 	///	<summary>
 	///		2D Cartesian flag
 	///	</summary>
-	bool m_fCartesianXZ = false;
+	DataStruct<bool> m_fCartesianXZ;
 
 	///	<summary>
 	///		Get the 2D Cartesian flag
-- 
2.43.0


From f9c98b7f2ce481ea4c45c1dc93aa326af1c03cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 24/36] fix: physical constants of the test case also apply
 after a restart

Small planets, rotation rate and grid inclination silently fell back to their defaults when continuing a run.
---
 src/atm/Model.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/atm/Model.cpp b/src/atm/Model.cpp
index dcc02fd..d3d3375 100644
--- a/src/atm/Model.cpp
+++ b/src/atm/Model.cpp
@@ -236,22 +236,19 @@ void Model::SetTestCase(
 	// Attach the test case
 	m_pTestCase = pTestCase;
 
-	// Evaluate physical constants and data from TestCase
-	if (!m_fGridFromRestartFile) {
+	// Evaluate physical constants
+	m_pTestCase->EvaluatePhysicalConstants(m_phys);
 
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
+	// Evaluate data from TestCase
+	if (!m_fGridFromRestartFile) {
 
 		// Initialize the topography and data
 		m_pGrid->EvaluateTestCase(*pTestCase, m_timeStart);
 	}
 	
-	// Evaluate physical constants and data from TestCase if pertubation is needed on restart
+	// Evaluate data from TestCase if pertubation is needed on restart
 	if ((m_fRestartPerturbation) && (m_fGridFromRestartFile)) {
 
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
-
 		// Initialize the topography and data
 		m_pGrid->EvaluateTestCase_Perturbation(*pTestCase, m_timeStart);
 	}
-- 
2.43.0


From 1b6a1e268569b15ee5f8d55bd6e4ab5bfd261a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 25/36] fix: vertical stretching also applies after a restart

The levels of a restarted grid were recomputed without the stretching function of the run that wrote the file.
---
 src/atm/TempestInitialize.h | 59 +++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/atm/TempestInitialize.h b/src/atm/TempestInitialize.h
index 256769e..0befbed 100644
--- a/src/atm/TempestInitialize.h
+++ b/src/atm/TempestInitialize.h
@@ -473,6 +473,28 @@ void _TempestSetupOutputManagers(
 
 ///////////////////////////////////////////////////////////////////////////////
 
+void _TempestSetVerticalStretch(
+	Grid & grid,
+	_TempestCommandLineVariables & vars
+) {
+	STLStringHelper::ToLower(vars.strVerticalStretch);
+	if (vars.strVerticalStretch == "uniform") {
+
+	} else if (vars.strVerticalStretch == "cubic") {
+		grid.SetVerticalStretchFunction(
+			new VerticalStretchCubic);
+
+	} else if (vars.strVerticalStretch == "pwlinear") {
+		grid.SetVerticalStretchFunction(
+			new VerticalStretchPiecewiseLinear);
+
+	} else {
+		_EXCEPTIONT("Invalid value for --vstretch");
+	}
+}
+
+///////////////////////////////////////////////////////////////////////////////
+
 void _TempestSetupCubedSphereModel(
 	Model & model,
 	_TempestCommandLineVariables & vars
@@ -547,20 +569,7 @@ void _TempestSetupCubedSphereModel(
 		pGrid->InitializeDataLocal();
 
 		// Set the vertical stretching function
-		STLStringHelper::ToLower(vars.strVerticalStretch);
-		if (vars.strVerticalStretch == "uniform") {
-
-		} else if (vars.strVerticalStretch == "cubic") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchCubic);
-
-		} else if (vars.strVerticalStretch == "pwlinear") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchPiecewiseLinear);
-
-		} else {
-			_EXCEPTIONT("Invalid value for --vstretch");
-		}
+		_TempestSetVerticalStretch(*pGrid, vars);
 
 		// Vertical type
 		STLStringHelper::ToLower(vars.strVerticalDiscretization);
@@ -576,6 +585,9 @@ void _TempestSetupCubedSphereModel(
 
 		pGrid->DefineParameters();
 
+		// The vertical stretching function is not part of the restart file
+		_TempestSetVerticalStretch(*pGrid, vars);
+
 		model.SetGridFromRestartFile(pGrid, vars.strRestartFile, vars.fRestartPerturbation);
 	}
 
@@ -666,21 +678,7 @@ void _TempestSetupCartesianModel(
 		pGrid->InitializeDataLocal();
 
 		// Set the vertical stretching function
-		STLStringHelper::ToLower(vars.strHorizontalDynamics);
-		if (vars.strVerticalStretch == "uniform") {
-
-		} else if (vars.strVerticalStretch == "cubic") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchCubic);
-
-		} else if (vars.strVerticalStretch == "pwlinear") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchPiecewiseLinear);
-
-		} else {
-			_EXCEPTIONT("Invalid value for --vstretch");
-
-		}
+		_TempestSetVerticalStretch(*pGrid, vars);
 
 		// Set the Model Grid
 		model.SetGrid(pGrid);
@@ -693,6 +691,9 @@ void _TempestSetupCartesianModel(
 
 		pGrid->DefineParameters();
 
+		// The vertical stretching function is not part of the restart file
+		_TempestSetVerticalStretch(*pGrid, vars);
+
 		model.SetGridFromRestartFile(pGrid, vars.strRestartFile, vars.fRestartPerturbation);
 	}
 
-- 
2.43.0


From 8331923dfeb6c97c5430370c8eee427107831624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 26/36] fix: vertical diffusion of horizontal velocity uses the
 velocity of its own column

---
 src/atm/VerticalDynamicsFEM.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 361319f..58d9318 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -1060,6 +1060,12 @@ void VerticalDynamicsFEM::StepExplicit(
 			    (m_fUniformDiffusionVar[UIx])
 			) {
 
+				// Horizontal velocity in this column
+				for (int k = 0; k < nRElements; k++) {
+					m_dStateNode[UIx][k] = dataInitialNode[UIx][i][j][k];
+					m_dStateNode[VIx][k] = dataInitialNode[VIx][i][j][k];
+				}
+
 				// Second derivatives of horizontal velocity on model levels
 				pGrid->DiffDiffNodeToNode(
 					m_dStateNode[UIx],
-- 
2.43.0


From abaa80e31ae6a9a30b8fd9a5ab36147d32b3147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 27/36] fix: index order of shared nodes, element areas and
 Jacobian in VerticalDynamicsFEMV2

---
 src/atm/VerticalDynamicsFEMV2.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index fb360a6..4ce9be1 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -901,14 +901,14 @@ void VerticalDynamicsFEMV2::StepExplicit(
 
 					dDeltaU -=
 						m_dStateREdge[RIx][l]
-						* dElementAreaREdge[l][i][j]
+						* dElementAreaREdge[i][j][l]
 						* m_dXiDotREdge[l]
 						* dInterpNodeToREdge[l][k]
 						* dCovDxUa;
 
 					dDeltaV -=
 						m_dStateREdge[RIx][l]
-						* dElementAreaREdge[l][i][j]
+						* dElementAreaREdge[i][j][l]
 						* m_dXiDotREdge[l]
 						* dInterpNodeToREdge[l][k]
 						* dCovDxUb;
@@ -1730,34 +1730,34 @@ void VerticalDynamicsFEMV2::StepImplicit(
 			int iB = box.GetBInteriorBegin() + b * m_nHorizontalOrder - 1;
 
 			for (int k = 0; k < nRElements; k++) {
-				//dataUpdateNode[UIx][k][i][iB]
+				//dataUpdateNode[UIx][i][iB][k]
 				//	= dataUpdateNode[UIx][i][iB+1][k];
-				//dataUpdateNode[VIx][k][i][iB]
+				//dataUpdateNode[VIx][i][iB][k]
 				//	= dataUpdateNode[VIx][i][iB+1][k];
-				dataUpdateNode[PIx][k][i][iB]
+				dataUpdateNode[PIx][i][iB][k]
 					= dataUpdateNode[PIx][i][iB+1][k];
-				dataUpdateNode[WIx][k][i][iB]
+				dataUpdateNode[WIx][i][iB][k]
 					= dataUpdateNode[WIx][i][iB+1][k];
-				dataUpdateNode[RIx][k][i][iB]
+				dataUpdateNode[RIx][i][iB][k]
 					= dataUpdateNode[RIx][i][iB+1][k];
 
 				for (int c = 0; c < nTracerCount; c++) {
-					dataUpdateTracer[c][k][i][iB]
+					dataUpdateTracer[c][i][iB][k]
 						= dataUpdateTracer[c][i][iB+1][k];
 				}
 
 			}
 
 			for (int k = 0; k <= nRElements; k++) {
-				//dataUpdateREdge[UIx][k][i][iB]
+				//dataUpdateREdge[UIx][i][iB][k]
 				//	= dataUpdateREdge[UIx][i][iB+1][k];
-				//dataUpdateREdge[VIx][k][i][iB]
+				//dataUpdateREdge[VIx][i][iB][k]
 				//	= dataUpdateREdge[VIx][i][iB+1][k];
-				dataUpdateREdge[PIx][k][i][iB]
+				dataUpdateREdge[PIx][i][iB][k]
 					= dataUpdateREdge[PIx][i][iB+1][k];
-				dataUpdateREdge[WIx][k][i][iB]
+				dataUpdateREdge[WIx][i][iB][k]
 					= dataUpdateREdge[WIx][i][iB+1][k];
-				dataUpdateREdge[RIx][k][i][iB]
+				dataUpdateREdge[RIx][i][iB][k]
 					= dataUpdateREdge[RIx][i][iB+1][k];
 			}
 		}
@@ -4175,7 +4175,7 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 
 					dTracersLUDF[TracerMatFIx(n, k)] +=
 						dDiffREdgeToNode[k][m]
-						* dJacobianREdge[m][m_iA][m_iB]
+						* dJacobianREdge[m_iA][m_iB][m]
 						/ dJacobianNode[m_iA][m_iB][k]
 						* dInterpNodeToREdge[m][n]
 						* m_dXiDotREdge[m];
-- 
2.43.0


From 46acd643261dfee7d24f533086dfdac3d7cf4090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 28/36] fix: initialize the zero boundary derivative of finite
 volume levels

---
 src/atm/GridGLL.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/atm/GridGLL.cpp b/src/atm/GridGLL.cpp
index 0290ace..9baca61 100644
--- a/src/atm/GridGLL.cpp
+++ b/src/atm/GridGLL.cpp
@@ -214,6 +214,14 @@ void GridGLL::Initialize() {
 			m_dREtaLevels,
 			m_dREtaInterfaces);
 
+		m_opDiffNodeToNodeZeroBoundaries.InitializeInterfaceMethod(
+			LinearColumnDiffFEM::InterpSource_Levels,
+			1,
+			m_dREtaLevels,
+			m_dREtaInterfaces,
+			m_dREtaLevels,
+			true);
+
 		m_opDiffNodeToREdge.InitializeReconstructed(
 			LinearColumnDiffFEM::InterpSource_Levels,
 			LinearColumnDiffFEM::InterpSource_Interfaces,
-- 
2.43.0


From dc4b40ee3b9b1c99df8aea5c4d81cf84ba1ee13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 29/36] fix: vertical upwinding of densities conserves mass
 where the Jacobian varies

---
 src/atm/VerticalDynamicsFEM.cpp | 50 +++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 58d9318..8b9d215 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -2662,7 +2662,8 @@ void VerticalDynamicsFEM::BuildF(
 		// Calculate weights
 		for (int a = 0; a < nFiniteElements - 1; a++) {
 			int k = (a+1) * nNodesPerFiniteElement;
-			m_dUpwindWeights[a] = fabs(m_dXiDotREdge[k]);
+			m_dUpwindWeights[a] =
+				m_dColumnJacobianREdge[k] * fabs(m_dXiDotREdge[k]);
 		}
 
 		// Loop through all variables
@@ -2712,7 +2713,8 @@ void VerticalDynamicsFEM::BuildF(
 					1);
 
 				for (int k = 0; k < nRElements; k++) {
-					dF[VecFIx(FIxFromCIx(c), k)] -= m_dStateAux[k];
+					dF[VecFIx(FIxFromCIx(c), k)] -=
+						m_dStateAux[k] * m_dColumnInvJacobianNode[k];
 				}
 			}
 		}
@@ -2919,6 +2921,9 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 				double dWeight =
 					fabs(m_dXiDotREdge[a * nNodesPerFiniteElement]);
 
+				const double dJacobianREdge =
+					m_dColumnJacobianREdge[a * nNodesPerFiniteElement];
+
 				double dSignWeight;
 				if (m_dXiDotREdge[a * nNodesPerFiniteElement] > 0.0) {
 					dSignWeight = 1.0 * m_dColumnContraMetricXiREdge[a * nNodesPerFiniteElement][2];
@@ -2940,6 +2945,8 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 					for (; n < iPenaltyLeftEnd[k]; n++) {
 						dDG[MatFIx(FWIx, kLeftEnd, FIxFromCIx(c), k)] -=
 							dSignWeight
+							* dJacobianREdge
+							* m_dColumnInvJacobianNode[k]
 							* dPenaltyLeft[k][n]
 							* m_dStateNode[c][n];
 					}
@@ -2951,6 +2958,8 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 					for (; n < iPenaltyRightEnd[k]; n++) {
 						dDG[MatFIx(FWIx, kRightBegin, FIxFromCIx(c), k)] -=
 							dSignWeight
+							* dJacobianREdge
+							* m_dColumnInvJacobianNode[k]
 							* dPenaltyRight[k][n]
 							* m_dStateNode[c][n];
 					}
@@ -2961,7 +2970,10 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 					int n = iPenaltyLeftBegin[k];
 					for (; n < iPenaltyLeftEnd[k]; n++) {
 						dDG[MatFIx(FIxFromCIx(c), n, FIxFromCIx(c), k)] -=
-							dWeight * dPenaltyLeft[k][n];
+							dWeight
+							* dJacobianREdge
+							* m_dColumnInvJacobianNode[k]
+							* dPenaltyLeft[k][n];
 					}
 				}
 
@@ -2970,7 +2982,10 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 					int n = iPenaltyRightBegin[k];
 					for (; n < iPenaltyRightEnd[k]; n++) {
 						dDG[MatFIx(FIxFromCIx(c), n, FIxFromCIx(c), k)] -=
-							dWeight * dPenaltyRight[k][n];
+							dWeight
+							* dJacobianREdge
+							* m_dColumnInvJacobianNode[k]
+							* dPenaltyRight[k][n];
 					}
 				}
 			}
@@ -4007,7 +4022,10 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 					int n = iPenaltyLeftBegin[k];
 					for (; n < iPenaltyLeftEnd[k]; n++) {
 						dTracersLUDF[TracerMatFIx(n, k)] -=
-							dWeight * dPenaltyLeft[k][n];
+							dWeight
+							* dJacobianREdge[m_iA][m_iB][kLeftEnd]
+							/ dJacobianNode[m_iA][m_iB][k]
+							* dPenaltyLeft[k][n];
 					}
 				}
 
@@ -4016,7 +4034,10 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 					int n = iPenaltyRightBegin[k];
 					for (; n < iPenaltyRightEnd[k]; n++) {
 						dTracersLUDF[TracerMatFIx(n, k)] -=
-							dWeight * dPenaltyRight[k][n];
+							dWeight
+							* dJacobianREdge[m_iA][m_iB][kRightBegin]
+							/ dJacobianNode[m_iA][m_iB][k]
+							* dPenaltyRight[k][n];
 					}
 				}
 			}
@@ -4172,13 +4193,15 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 			if (m_fFullyExplicit) {
 				for (int a = 0; a < nFiniteElements - 1; a++) {
 					int k = (a+1) * nNodesPerFiniteElement;
-					m_dUpwindWeights[a] = fabs(m_dXiDotREdge[k]);
+					m_dUpwindWeights[a] =
+						dJacobianREdge[m_iA][m_iB][k] * fabs(m_dXiDotREdge[k]);
 				}
 
 			} else {
 				for (int a = 0; a < nFiniteElements - 1; a++) {
 					int k = (a+1) * nNodesPerFiniteElement;
-					m_dUpwindWeights[a] = fabs(m_dXiDotREdgeInitial[k]);
+					m_dUpwindWeights[a] =
+						dJacobianREdge[m_iA][m_iB][k] * fabs(m_dXiDotREdgeInitial[k]);
 				}
 			}
 
@@ -4192,7 +4215,8 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 				1);
 
 			for (int k = 0; k < nRElements; k++) {
-				m_vecTracersF[k] -= m_dStateAux[k];
+				m_vecTracersF[k] -=
+					m_dStateAux[k] / dJacobianNode[m_iA][m_iB][k];
 			}
 
 			// Apply implicit velocity correction
@@ -4227,7 +4251,9 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 						int n = iPenaltyLeftBegin[k];
 						for (; n < iPenaltyLeftEnd[k]; n++) {
 							m_vecTracersF[k] -=
-								dPenaltyLeft[k][n]
+								dJacobianREdge[m_iA][m_iB][kLeftEnd]
+								/ dJacobianNode[m_iA][m_iB][k]
+								* dPenaltyLeft[k][n]
 								* m_dTracerDensityNode[n]
 								* dLeftJumpConUx;
 						}
@@ -4243,7 +4269,9 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 						int n = iPenaltyRightBegin[k];
 						for (; n < iPenaltyRightEnd[k]; n++) {
 							m_vecTracersF[k] -=
-								dPenaltyRight[k][n]
+								dJacobianREdge[m_iA][m_iB][kRightBegin]
+								/ dJacobianNode[m_iA][m_iB][k]
+								* dPenaltyRight[k][n]
 								* m_dTracerDensityNode[n]
 								* dRightJumpConUx;
 						}
-- 
2.43.0


From 681646abf367298c27ae5c08113d8ab640d0a385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:50 +0000
Subject: [PATCH 30/36] fix: only the state's vertical velocity is rescaled on
 output

---
 src/atm/GridPatchCSGLL.cpp        | 4 +++-
 src/atm/GridPatchCartesianGLL.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index cdf2075..22f65ba 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -1647,7 +1647,9 @@ void GridPatchCSGLL::InterpolateData(
 
 				// Rescale vertical velocity
 				const int WIx = 3;
-				if ((c == WIx) && (fConvertToPrimitive)) {
+				if ((eDataType == DataType_State) &&
+					(c == WIx) && (fConvertToPrimitive)
+				) {
 					if (m_grid.GetVarLocation(WIx) == DataLocation_REdge) {
 						for (int m = 0; m < m_nHorizontalOrder; m++) {
 						for (int n = 0; n < m_nHorizontalOrder; n++) {
diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 3ad09cb..0274e58 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -1778,7 +1778,9 @@ void GridPatchCartesianGLL::InterpolateData(
 
 				// Rescale vertical velocity
 				const int WIx = 3;
-				if ((c == WIx) && (fConvertToPrimitive)) {
+				if ((eDataType == DataType_State) &&
+					(c == WIx) && (fConvertToPrimitive)
+				) {
 					if (m_grid.GetVarLocation(WIx) == DataLocation_REdge) {
 						for (int m = 0; m < m_nHorizontalOrder; m++) {
 						for (int n = 0; n < m_nHorizontalOrder; n++) {
-- 
2.43.0


From 0900f9b9e7856aead43adb357bfa1ec6c5fdfcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:50 +0000
Subject: [PATCH 31/36] fix: column interpolation to the first and last output
 stays within the column

---
 src/atm/LinearColumnOperatorFEM.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 8454826..efceced 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -119,7 +119,9 @@ void LinearColumnInterpFEM::Initialize(
 		} else {
 
 			// For nVerticalOrder = 1, override default O(dx) interpolant
-			if ((nVerticalOrder == 1) && (l == 0)) {
+			if ((nVerticalOrder == 1) && (l == 0) &&
+			    (!fOnREdge) && (a < nFiniteElementsIn - 1)
+			) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[a * nVerticalOrder]),
@@ -129,7 +131,9 @@ void LinearColumnInterpFEM::Initialize(
 				m_iBegin[l] =  a    * nVerticalOrder;
 				m_iEnd[l]   = (a+2) * nVerticalOrder;
 
-			} else if ((nVerticalOrder == 1) && (l == nRElementsOut-1)) {
+			} else if ((nVerticalOrder == 1) && (l == nRElementsOut-1) &&
+			    (!fOnREdge) && (a > 0)
+			) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[(a-1) * nVerticalOrder]),
-- 
2.43.0


From 712eb497a2ad869ae31076a428b9aedaa235d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 32/36] fix: interpolated vertical velocity uses the vertical
 metric of each node

---
 src/atm/GridPatchCSGLL.cpp        | 4 ++--
 src/atm/GridPatchCartesianGLL.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index 22f65ba..fc0f6bb 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -1664,7 +1664,7 @@ void GridPatchCSGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRREdge(iA,iB,k,2);
+								/ m_dataDerivRREdge(iA+m,iB+n,k,2);
 #endif
 						}
 						}
@@ -1676,7 +1676,7 @@ void GridPatchCSGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRNode(iA,iB,k,2);
+								/ m_dataDerivRNode(iA+m,iB+n,k,2);
 						}
 						}
 					}
diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 0274e58..bdb9004 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -1795,7 +1795,7 @@ void GridPatchCartesianGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRREdge(iA,iB,k,2);
+								/ m_dataDerivRREdge(iA+m,iB+n,k,2);
 #endif
 						}
 						}
@@ -1807,7 +1807,7 @@ void GridPatchCartesianGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRNode(iA,iB,k,2);
+								/ m_dataDerivRNode(iA+m,iB+n,k,2);
 						}
 						}
 					}
-- 
2.43.0


From 7da49f8d7ca01fe0b6d13200c7df8279cc9e5435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 33/36] fix: output times count from midnight of the start
 date, as their units say

---
 src/atm/OutputManagerReference.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/atm/OutputManagerReference.cpp b/src/atm/OutputManagerReference.cpp
index 43fa105..80e395e 100644
--- a/src/atm/OutputManagerReference.cpp
+++ b/src/atm/OutputManagerReference.cpp
@@ -571,7 +571,13 @@ void OutputManagerReference::Output(
 	// Add new time
 	if (nRank == 0) {
 #pragma message "FIX: Doesn't give correct count of days"
-		double dTimeDays = (time - m_grid.GetModel().GetStartTime()) / 86400.0;
+		// Units are days since midnight of the start date
+		const Time & timeStart = m_grid.GetModel().GetStartTime();
+		double dTimeDays = (
+			(time - timeStart)
+			+ static_cast<double>(timeStart.GetSecond())
+			+ static_cast<double>(timeStart.GetMicroSecond()) * 1.0e-6)
+				/ 86400.0;
 		m_varTime->set_cur(m_ixOutputTime);
 		m_varTime->put(&dTimeDays, 1);
 	}
-- 
2.43.0


From 0c1854e88a6b4903182640cb0c7555fbba4e1547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 34/36] fix: vertical derivative on an edge between elements of
 different thickness

At vertical order one the jump across the edge was divided by the thickness of
the element below it instead of the distance between the two levels, so that
on a stretched column even a linear function did not get its slope.
---
 src/atm/LinearColumnOperatorFEM.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index efceced..a42c097 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -629,6 +629,19 @@ void LinearColumnDiffFEM::InitializeFluxCorrectionMethod(
 				dREtaREdge[(a+1) * nVerticalOrder]);
 		}
 
+		// On an edge between elements the jump is spread over both of them
+		if (fOnREdge) {
+			double dDeltaREtaR =
+				  dREtaREdge[(a+2) * nVerticalOrder]
+				- dREtaREdge[(a+1) * nVerticalOrder];
+
+			for (int k = 0; k < nRElementsIn; k++) {
+				m_dCoeff[l][k] *= 0.5 * (dDeltaREta + dDeltaREtaR) / dDeltaREta;
+			}
+
+			dDeltaREta = 0.5 * (dDeltaREta + dDeltaREtaR);
+		}
+
 		// Apply edge interpolation coefficients
 		if (a != 0) {
 			if (!fOnREdge) {
-- 
2.43.0


From 769342fc0541fd38afb15b00457bc19d8b694b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 35/36] fix: do not average vorticity and divergence across
 nonperiodic boundaries

---
 src/atm/GridCartesianGLL.cpp | 41 ++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridCartesianGLL.cpp b/src/atm/GridCartesianGLL.cpp
index 2411a36..5597483 100644
--- a/src/atm/GridCartesianGLL.cpp
+++ b/src/atm/GridCartesianGLL.cpp
@@ -557,6 +557,43 @@ void GridCartesianGLL::ApplyDSS(
 			pPatch->ApplyBoundaryConditions(iDataUpdate, DataType_State, n);
 		}
 
+		// Vorticity and divergence have no value beyond a nonperiodic
+		// boundary, so nodes on such a boundary are not averaged
+		int aBegin = 0;
+		int aEnd = nElementCountA;
+		int bBegin = 0;
+		int bEnd = nElementCountB;
+		if ((eDataType == DataType_Vorticity) ||
+			(eDataType == DataType_Divergence)
+		) {
+			if ((GetBoundaryCondition(Direction_Left)
+					!= BoundaryCondition_Periodic) &&
+				(box.GetAGlobalInteriorBegin() == 0)
+			) {
+				aBegin++;
+			}
+			if ((GetBoundaryCondition(Direction_Right)
+					!= BoundaryCondition_Periodic) &&
+				(box.GetAGlobalInteriorEnd()
+					== m_nHorizontalOrder * GetABaseResolution())
+			) {
+				aEnd--;
+			}
+			if ((GetBoundaryCondition(Direction_Bottom)
+					!= BoundaryCondition_Periodic) &&
+				(box.GetBGlobalInteriorBegin() == 0)
+			) {
+				bBegin++;
+			}
+			if ((GetBoundaryCondition(Direction_Top)
+					!= BoundaryCondition_Periodic) &&
+				(box.GetBGlobalInteriorEnd()
+					== m_nHorizontalOrder * GetBBaseResolution())
+			) {
+				bEnd--;
+			}
+		}
+
 		// Perform Direct Stiffness Summation (DSS)
 		for (int c = 0; c < nComponents; c++) {
 
@@ -619,7 +656,7 @@ void GridCartesianGLL::ApplyDSS(
 			for (int k = 0; k < nRElements; k++) {
 
 				// Average in the alpha direction
-				for (int a = 0; a <= nElementCountA; a++) {
+				for (int a = aBegin; a <= aEnd; a++) {
 					int iA = a * m_nHorizontalOrder + box.GetHaloElements();
 
 					// Averaging done at the corners of the panel
@@ -637,7 +674,7 @@ void GridCartesianGLL::ApplyDSS(
 				}
 
 				// Average in the beta direction
-				for (int b = 0; b <= nElementCountB; b++) {
+				for (int b = bBegin; b <= bEnd; b++) {
 					int iB = b * m_nHorizontalOrder + box.GetHaloElements();
 
 					// Averaging done at the corners of the panel
-- 
2.43.0


From 4fa9973bf48cf2476b302759c7025faedad14027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 36/36] fix: kinetic energy of covariant velocities in the
 shallow water energy

---
 src/atm/GridPatch.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/atm/GridPatch.cpp b/src/atm/GridPatch.cpp
index faa64b6..af6df0e 100644
--- a/src/atm/GridPatch.cpp
+++ b/src/atm/GridPatch.cpp
@@ -965,6 +965,7 @@ double GridPatch::ComputeTotalEnergy(
 		for (int i = m_box.GetAInteriorBegin(); i < m_box.GetAInteriorEnd(); i++) {
 		for (int j = m_box.GetBInteriorBegin(); j < m_box.GetBInteriorEnd(); j++) {
 		for (int k = 0; k < nRElements; k++) {
+#if defined(PROGNOSTIC_CONTRAVARIANT_MOMENTA)
 			double dUdotU =
 				+ m_dataContraMetric2DB(i,j,1)
 					* dataNode(UIx,i,j,k)
@@ -978,6 +979,18 @@ double GridPatch::ComputeTotalEnergy(
 
 			dUdotU *= m_dataJacobian2D(i,j)
 				* m_dataJacobian2D(i,j);
+#else
+			const double dUdotU =
+				+ m_dataContraMetric2DA(i,j,0)
+					* dataNode(UIx,i,j,k)
+					* dataNode(UIx,i,j,k)
+				+ 2.0 * m_dataContraMetric2DA(i,j,1)
+					* dataNode(UIx,i,j,k)
+					* dataNode(VIx,i,j,k)
+				+ m_dataContraMetric2DB(i,j,1)
+					* dataNode(VIx,i,j,k)
+					* dataNode(VIx,i,j,k);
+#endif
 
 			const double dKineticEnergy =
 				0.5 * dUdotU * (dataNode(HIx,i,j,k)
-- 
2.43.0

