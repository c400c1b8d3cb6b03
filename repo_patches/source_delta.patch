From c31c70dfda0e2ac7338fbf0a1b331808141d595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 01/52] fix: reject UUID text containing characters that are
 not hex digits

---
 src/UUID.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/UUID.cpp b/src/UUID.cpp
index 84e06fe..4c66c37 100644
--- a/src/UUID.cpp
+++ b/src/UUID.cpp
@@ -149,6 +149,11 @@ static Uint8 GetDigitForChar(char ch)
 	return 0;
 }
 
+static bool IsHexDigit(char ch)
+{
+	return (ch >= '0' && ch <= '9') || (ch >= 'A' && ch <= 'F') || (ch >= 'a' && ch <= 'f');
+}
+
 static Uint8 GetDigitForPiece(const char* pString)
 {
 	Uint8		a		= ::GetDigitForChar( * (pString + 0) );
@@ -226,6 +231,14 @@ bool VWFC::Tools::VWUUID::FromString(const TXString& str, bool includeBrackets)
 	{
 		const char* pString		= (const char*) str;
 
+		// Everything between the separators must be a hex digit
+		const size_t first = includeBrackets ? 1 : 0;
+		for (size_t i = 0; i < 36; i++)
+		{
+			if (i == 8 || i == 13 || i == 18 || i == 23)	{ continue; }
+			if ( ! ::IsHexDigit( pString[first + i] ) )		{ return false; }
+		}
+
 		if(includeBrackets)
 		{
 			fData[0]		= ::GetDigitForPiece( pString + 1 );
-- 
2.43.0


From 33b511fd49cf37d1cc32ccb1644589f730001499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 02/52] fix: TXString::atoi64 reads the full 64-bit range

---
 src/GSString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 05cbb36..3ddf11a 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -2027,7 +2027,7 @@ Sint32 TXString::atoi() const
 // number is returned. e.g. " 123 123 " returns 123.
 Sint64 TXString::atoi64() const
 {
-	return ::atoi(*this);
+	return ::atoll(*this);
 }
 
 //=======================================================================================
-- 
2.43.0


From 38019147615bb5326b2b5e7bef68b29dfeaa1864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 03/52] fix: read size values with 64 bits

---
 src/XmlFileHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 8faca3a..2a5c148 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -437,7 +437,7 @@ bool SceneData::GdtfConverter::ConvertColorArray(TXString values, const IXMLFile
 {
     if(value.IsEmpty()) return false;
 	
-    intValue = value.atoi();
+    intValue = value.atoi64();
 	return true;
 }
 
-- 
2.43.0


From 857224c38492b51bf36dadd7a0d2c1df1d056ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 04/52] fix: hex values with many digits no longer wrap around

---
 src/XmlFileHelper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 2a5c148..1e69753 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -2652,6 +2652,7 @@ VCOMError IXMLFileIOBufferImpl::GetData(void*& dataPointer)
 		hexCont.MakeUpper();
 		for(size_t i = 0; i < hexCont.GetLength(); i++)
 		{
+			if(outValue > 65535) { outValue = 65536; } // already too high: do not wrap around
 			outValue = outValue*16;
 			size_t fact = 0;
 			TXChar c = hexCont.GetAt(i); 
-- 
2.43.0


From c42571c5866824c93c00c9103c2f5182d40bb36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 05/52] fix: huge DMX values overflowed and were accepted as 0

---
 src/XmlFileHelper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 1e69753..f04546d 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -719,6 +719,9 @@ bool SceneData::GdtfConverter::ConvertDMXValue(const TXString& strValue, const I
 		byteSpecifier 	= 1;
 	}
 
+	// Keep values far out of range out of range, without overflowing the conversion below
+	if(dmxValueRaw > 4294967296.0) { dmxValueRaw = 4294967296.0; }
+
 	// Check if the ByteSpecifier is different to the ChannelResolution.
 	intValue = dmxValueRaw;
 
-- 
2.43.0


From 86c8e62bc9c8622fac02c857bc45125d504666cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 06/52] fix: report DMX addresses that do not fit instead of
 wrapping them around

---
 src/XmlFileHelper.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index f04546d..00f22e8 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -614,10 +614,10 @@ bool SceneData::GdtfConverter::ConvertDMXAdress(const TXString& value, const IXM
 	bool error = false;
 
 	if(dotPos > 0){
-		Uint16 universe = value.Left(dotPos).atoi();
-		Uint16 address  = value.Right(value.GetLength() - dotPos - 1).atoi();
+		Sint32 universe = value.Left(dotPos).atoi();
+		Sint32 address  = value.Right(value.GetLength() - dotPos - 1).atoi();
 
-		if (universe <= 0 || address <= 0 || address > 512)	
+		if (universe <= 0 || address <= 0 || address > 512 || universe > 128 || (universe == 128 && address == 512))	
 		{
 	    	ASSERTN(kEveryone, false);
 			error = true;
@@ -626,10 +626,11 @@ bool SceneData::GdtfConverter::ConvertDMXAdress(const TXString& value, const IXM
 		intValue = (universe - 1) * 512 + address;
 
 	}else{
-		intValue = value.atoi();
-    	ASSERTN(kEveryone, intValue > 0);
+		Sint32 absoluteAddress = value.atoi();
+    	ASSERTN(kEveryone, absoluteAddress > 0);
+		intValue = absoluteAddress;
 
-		if (intValue <= 0)	
+		if (absoluteAddress <= 0 || absoluteAddress > 65535)	
 		{
 			error = true;
 		}
-- 
2.43.0


From 8a5ca6426851bcd8a415c1e448475c1a07eb545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 07/52] fix: no undefined shift for byte counts outside 1 to 4

---
 src/XmlFileHelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 00f22e8..9d402bd 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -731,7 +731,8 @@ bool SceneData::GdtfConverter::ConvertDMXValue(const TXString& strValue, const I
 		if (byteSpecifier != chanlReso) 
 		{
 			Sint32 shift = (8 * (chanlReso - byteSpecifier));
-			if(shift >= 0) 	{ intValue = intValue << shift; }
+			if(byteSpecifier < 1 || byteSpecifier > 4) { intValue = 0; } // the shift would be undefined
+			else if(shift >= 0) 	{ intValue = intValue << shift; }
 			else			{ intValue = intValue >> -shift; }
 		}	
 		else
-- 
2.43.0


From d25cec32eec7c4042626717a638d4a55aa4c9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 08/52] fix: TXString::Replace of an empty string never
 returned

---
 src/GSString.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 3ddf11a..8222ce0 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -1346,6 +1346,9 @@ TXString& TXString::Replace(const TXString& oldStr, const TXString& newStr, bool
 {
 	size_t dstStartPos = 0;
 
+	// An empty string is found everywhere
+	if (oldStr.IsEmpty()) return *this;
+
 	if (bIgnoreCase)
 	{
 		TXString lowerSrcStr(*this);
-- 
2.43.0


From b364ba417741efee1c88a6a672b423a007d1a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 09/52] fix: TXString::Split did not end and missed separators
 at the start

---
 src/GSString.cpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 8222ce0..9d44546 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -1966,18 +1966,15 @@ std::vector<TXString> TXString::Split(char ch) const
 
 	size_t lastOccurrence = 0;
 
-	while(lastOccurrence < size_t(-1))
+	while(lastOccurrence < GetLength())
 	{
-		size_t pos = Find(ch, lastOccurrence + 1);
-		if(pos != 0)
+		ptrdiff_t pos = Find(ch, lastOccurrence);
+		if(pos < 0)
 		{
-			result.push_back(Mid(lastOccurrence, pos - lastOccurrence));
+			pos = GetLength();
 		}
+		result.push_back(Mid(lastOccurrence, pos - lastOccurrence));
 		lastOccurrence = pos + 1;
-		if(pos + 1 == GetLength())
-		{
-			break;
-		}
 	}
 
 	return result;
@@ -1993,18 +1990,15 @@ std::vector<TXString> TXString::Split(TXString ch) const
 
 	size_t lastOccurrence = 0;
 
-	while(lastOccurrence < size_t(-1))
+	while(lastOccurrence < GetLength())
 	{
-		size_t pos = Find(ch, lastOccurrence + 1);
-		if(pos != 0)
-		{
-			result.push_back(Mid(lastOccurrence, pos - lastOccurrence));
-		}
-		lastOccurrence = pos + 1;
-		if(pos + 1 == GetLength())
+		ptrdiff_t pos = Find(ch, lastOccurrence);
+		if(pos < 0)
 		{
-			break;
+			pos = GetLength();
 		}
+		result.push_back(Mid(lastOccurrence, pos - lastOccurrence));
+		lastOccurrence = pos + ch.GetLength();
 	}
 
 	return result;
-- 
2.43.0


From cfe712a7a4a9d784ab8b54b94325cc31e37551c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:13 +0000
Subject: [PATCH 10/52] fix: TXString(wchar_t*, length) read behind the
 terminator

---
 src/GSString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 9d44546..165f062 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -265,7 +265,7 @@ TXString::TXString(const wchar_t* src, size_t numWChars)
 #if GS_WIN
 		stdUStr.assign(src, length);
 #elif GS_LIN
-		std::u32string wSrc((const char32_t*)src, numWChars);
+		std::u32string wSrc((const char32_t*)src, length);
 		std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert;
 		std::string bytes = convert.to_bytes(wSrc);
 
-- 
2.43.0


From 8d7138f54337b31bb981654ab6ec5ab510d372ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:44 +0000
Subject: [PATCH 11/52] fix: text that is not valid UTF-8 or UTF-16 no longer
 throws

---
 src/GSString.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 165f062..bb6aef0 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -2405,7 +2405,23 @@ void TXString::PrepareCharBuffer(ETXEncoding encoding) const
 	}
 
 	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> convert;
-	std::string str = convert.to_bytes(stdUStr);
+	std::string str;
+	try
+	{
+		str = convert.to_bytes(stdUStr);
+	}
+	catch (const std::range_error&)
+	{
+		// Unpaired surrogates have no UTF-8 form, use '?' as the other platforms do
+		StdUStr valid = stdUStr;
+		for (size_t i = 0; i < valid.length(); i++)
+		{
+			if (valid[i] < 0xD800 || valid[i] > 0xDFFF) continue;
+			if (valid[i] < 0xDC00 && i + 1 < valid.length() && valid[i + 1] >= 0xDC00 && valid[i + 1] <= 0xDFFF) { i++; continue; }
+			valid[i] = '?';
+		}
+		str = convert.to_bytes(valid);
+	}
 
 	size_t strLen = str.size();
 	for (size_t i = 0; i < charBufSize && i < strLen; i++)
@@ -2523,7 +2539,17 @@ void TXString::SetStdUStrFromCharBuffer(const char* src, size_t srcLenToUse, ETX
 	// LINUX_IMPLEMENTATION - done
 	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> converter;
 	std::string strSrc = std::string(src, strLen);
-	stdUStr = converter.from_bytes(strSrc);
+	try
+	{
+		stdUStr = converter.from_bytes(strSrc);
+	}
+	catch (const std::range_error&)
+	{
+		// Not valid UTF-8, use the tolerant conversion of the other platforms
+		std::unique_ptr<TXChar[]> txChars(new TXChar[strLen + 1]);
+		utf8BufferToTXCharBuffer(src, txChars.get(), strLen);
+		stdUStr = txChars.get();
+	}
 #else	// Mac
 	if(encoding == ETXEncoding::eUTF8)
 	{
-- 
2.43.0


From 9a775e1d79130bdfb686da5ec61578f0909a419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 12/52] fix: finding a character without regard to case
 searched for a null character

---
 src/GSString.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index bb6aef0..a279c31 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -1751,7 +1751,7 @@ ptrdiff_t TXString::Find(int ch,
 
 	if (bIgnoreCase)
 	{	// Ignore case is more expensive.
-		TXString strCh((TXChar)ch);
+		TXString strCh((UCChar)ch);
 		strCh.MakeLower();
 
 		TXString strCopy(*this);
@@ -1828,7 +1828,7 @@ ptrdiff_t TXString::ReverseFind(int ch,
 		TXString srcStr(*this);
 		srcStr.MakeLower();
 
-		TXString chStr((TXChar)ch);
+		TXString chStr((UCChar)ch);
 		chStr.MakeLower();
 
 		pos = srcStr.stdUStr.rfind(chStr.stdUStr[0], posLast);
-- 
2.43.0


From 4e728c0bf70e0d025e615b3d0ce75b2a70ee32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 13/52] fix: the last child of an XML node was its first child

---
 src/rapidxmlsupport/XMLFileNodeImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rapidxmlsupport/XMLFileNodeImpl.cpp b/src/rapidxmlsupport/XMLFileNodeImpl.cpp
index ed61d0a..261caec 100644
--- a/src/rapidxmlsupport/XMLFileNodeImpl.cpp
+++ b/src/rapidxmlsupport/XMLFileNodeImpl.cpp
@@ -195,7 +195,7 @@ VCOMError CXMLFileNodeImpl::GetLastChildNode(IXMLFileNode** ppOutNode)
 {
 	if(fElement)
 	{
-		return GetInterface(fElement->FirstChildElement(), ppOutNode);
+		return GetInterface(fElement->LastChildElement(), ppOutNode);
 	}
 	return kVCOMError_NotInitialized;
 }
-- 
2.43.0


From 9a41bfe27f7e2f382d29a69ac5934f0db4e03d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 14/52] fix: XML nodes with an element reported that they are
 empty

---
 src/rapidxmlsupport/XMLFileNodeImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rapidxmlsupport/XMLFileNodeImpl.cpp b/src/rapidxmlsupport/XMLFileNodeImpl.cpp
index 261caec..4ef8157 100644
--- a/src/rapidxmlsupport/XMLFileNodeImpl.cpp
+++ b/src/rapidxmlsupport/XMLFileNodeImpl.cpp
@@ -44,7 +44,7 @@ uint32_t CXMLFileNodeImpl::Release()
 
 VCOMError CXMLFileNodeImpl::IsEmpty(bool& outValue)
 {
-	outValue = fElement;
+	outValue = (fElement == nullptr);
 	return kVCOMError_NoError;
 }
 
-- 
2.43.0


From b86ff33f84d42028c89596b67e7708d42162bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 15/52] fix: Width, Height and IsCurved of a Display were
 reported as unknown attributes

---
 src/GDTFManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 6d3c762..d384db6 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -3037,6 +3037,9 @@ void GdtfGeometryDisplay::OnErrorCheck(const IXMLFileNodePtr& pNode)
 	optional.push_back(XML_GDTF_GeometryModelRef);
 	needed.push_back(XML_GDTF_GeometryMatrix);
 	needed.push_back(XML_GDTF_DisplayTexture);
+	optional.push_back(XML_GDTF_DisplayWidth);
+	optional.push_back(XML_GDTF_DisplayHeight);
+	optional.push_back(XML_GDTF_DisplayIsCurved);
 
 	//------------------------------------------------------------------------------------
 	// Check Attributes for node
-- 
2.43.0


From 92b4e0ab0c3657515297ff5046b431e9765f2c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 16/52] fix: footprint of breaks without addresses, above 512
 and of references with missing or circular links

---
 src/GDTFManager.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index d384db6..d2ed9e8 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5193,6 +5193,7 @@ TSint32Array GdtfDmxMode::GetBreakArray() const
 	TSint32Array 							breaks;
 	std::vector<GdtfGeometryReferencePtr>  	geometryRefs;
 	TGdtfGeometryArray  					geometrysToCheck;
+	std::unordered_set<GdtfGeometryPtr>		checkedGeometries;
 
 	if(fGeomRef)
 	{
@@ -5208,8 +5209,9 @@ TSint32Array GdtfDmxMode::GetBreakArray() const
 		geometrysToCheck.pop_back();
 
 		// Get all the internal geometries and prepare to check them
+		// Every geometry is checked once, a geometry reference can link to a geometry it is part of
 
-		if ( geometry != nullptr )
+		if ( geometry != nullptr && checkedGeometries.insert( geometry ).second )
 		{
 			for ( GdtfGeometryPtr child : geometry->GetInternalGeometries() )
 			{
@@ -5245,6 +5247,7 @@ TSint32Array GdtfDmxMode::GetBreakArray() const
 				if(geoRef->GetLinkedGeometry() == channel->GetGeomRef())
 				{
 					TGdtfBreakArray refBreaks = geoRef->GetBreakArray();
+					if(refBreaks.empty()) { continue; }
 					if(std::find(breaks.begin(), breaks.end(), refBreaks.back()->GetDmxBreak()) == breaks.end())
 					{
 						breaks.push_back(refBreaks.back()->GetDmxBreak());
@@ -5351,9 +5354,10 @@ size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
 
 			TSint32Array::iterator foundIndex = std::find(breakIdsOfReference.begin(), breakIdsOfReference.end(), breakId);
 			// if the reference contains geometries that are linked to a dmx channel that has a matching break, then add the address + offset to the footprint
-			if(foundIndex != breakIdsOfReference.end())
+			// the breaks of the reference are in the order of the breaks used by the referenced geometry; a missing one can not be placed
+			size_t indexOfBreak = std::distance(breakIdsOfReference.begin(),foundIndex);
+			if(foundIndex != breakIdsOfReference.end() && indexOfBreak < geoRef->GetBreakArray().size())
 			{
-				size_t 				indexOfBreak 				= std::distance(breakIdsOfReference.begin(),foundIndex);
 				size_t 				offset 						= geoRef->GetBreakArray()[indexOfBreak]->GetDmxAddress()-1;
 				TGdtfGeometryArray  geometriesInReferencedTree 	= {refedGeo};
 
@@ -5378,7 +5382,7 @@ size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
 			}
 
 			// if the channel of a child geometry has the break value overwrite and the last break of the ref has a matching break Id, then add addresses + offset 
-			if(overwrite)
+			if(overwrite && ! geoRef->GetBreakArray().empty())
 			{
 				GdtfBreakPtr overwriteBreak = geoRef->GetBreakArray().back();
 				if(overwriteBreak->GetDmxBreak() == (Sint32)breakId)
@@ -5414,7 +5418,10 @@ size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
 		}
 	}
 
-	DMXAddress max = 0, min = 512;
+	// A break that is only used by virtual channels needs no address
+	if(addresses.empty()) { return 0; }
+
+	DMXAddress max = addresses.front(), min = addresses.front();
 	for (DMXAddress adr : addresses)
 	{
 		if(adr > max) max = adr;
-- 
2.43.0


From 2d9cf8c33570a0768adf606f1a606abdca9bceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 17/52] fix: group objects lost their matrix

---
 src/SceneDataExchange.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index b231634..96eebcc 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3187,6 +3187,7 @@ SceneDataGroupObjPtr SceneDataExchange::CreateGroupObject(const SceneDataGUID& g
 {
 	SceneDataGroupObjPtr newGroup = new SceneDataGroupObj(guid);
 	addToContainer->AddObject(newGroup);
+	newGroup->SetTransformMatrix(offset);
 	return newGroup;
 }
 
@@ -3195,6 +3196,7 @@ SceneDataGroupObjPtr SceneDataExchange::CreateGroupObject(const SceneDataGUID& g
 	SceneDataGroupObjPtr newGroup = new SceneDataGroupObj(guid);
 	addToContainer->AddObject(newGroup);
 	newGroup->setName(name);
+	newGroup->SetTransformMatrix(offset);
 	return newGroup;
 }
 
-- 
2.43.0


From a16bb1253eaee133e054ad4bd3f4afb9df02af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 18/52] fix: reading an address or protocol of a fixture one
 past the last threw

---
 src/Implementation/CSceneObjImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 1da2d4f..ad944e8 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1034,7 +1034,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 	if( ! fixture) return kVCOMError_NoFixtureObj;
 
 	// Check the psotion of the array
-	if (at > fixture->GetProtocolsArray().size() )
+	if (at >= fixture->GetProtocolsArray().size() )
 	{
 		DSTOP((kEveryone, "Array overflow"));
 		return kVCOMError_Failed;
@@ -1087,7 +1087,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetAdressAt(size_t at,
 	if( ! fixture) return kVCOMError_NoFixtureObj;
 	
 	// Check the psotion of the array
-	if (at > fixture->GetAdressesArray().size())
+	if (at >= fixture->GetAdressesArray().size())
 	{
 		DSTOP((kEveryone, "Array overflow"));
 		return kVCOMError_Failed;
-- 
2.43.0


From d6feeae7a8241238192c2ec3ab985049322ca09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 19/52] fix: the protocols of a fixture could not be read

---
 src/Implementation/CSceneObjImpl.cpp | 4 ++--
 src/SceneDataExchange.cpp            | 8 ++++----
 src/SceneDataExchange.h              | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index ad944e8..4c7904f 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1040,7 +1040,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 		return kVCOMError_Failed;
 	}
 
-	SceneData::SceneDataProtocols protocol = fixture->GetProtocolsArray().at( at );
+	const SceneData::SceneDataProtocols& protocol = fixture->GetProtocolsArray().at( at );
 	SProtocol* pProtocol = new SProtocol;
 	pProtocol->fGeometry = protocol.GetGeometry().GetCharPtr();
 	pProtocol->fName = protocol.GetName().GetCharPtr();
@@ -1048,7 +1048,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 	pProtocol->fVersion = protocol.GetVersion().GetCharPtr();
 	pProtocol->fType = protocol.GetType().GetCharPtr();
 
-	outProtocol = &pProtocol;
+	*outProtocol = pProtocol;
 
 	return kVCOMError_NoError;
 }
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 96eebcc..240489b 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -1862,22 +1862,22 @@ SceneDataProtocols::SceneDataProtocols( const TXString& geometry, const TXString
 	fTransmision	= transmision;
 }
 
-TXString SceneDataProtocols::GetGeometry() const
+const TXString& SceneDataProtocols::GetGeometry() const
 {
 	return fGeometry;
 }
 
-TXString SceneDataProtocols::GetName() const
+const TXString& SceneDataProtocols::GetName() const
 {
 	return fName;
 }
 
-TXString SceneDataProtocols::GetType() const
+const TXString& SceneDataProtocols::GetType() const
 {
 	return fType;
 }
 
-TXString SceneDataProtocols::GetVersion() const
+const TXString& SceneDataProtocols::GetVersion() const
 {
 	return fVersion;
 }
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index afbacc2..9d6c105 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -740,10 +740,10 @@ namespace SceneData
 
 											SceneDataProtocols( const TXString& geometry, const TXString& name, const TXString& type, const TXString& version, const ETransmissionType& transmision );
 
-		TXString							GetGeometry() const;
-		TXString							GetName() const;
-		TXString							GetType() const;
-		TXString							GetVersion() const;
+		const TXString&						GetGeometry() const;
+		const TXString&						GetName() const;
+		const TXString&						GetType() const;
+		const TXString&						GetVersion() const;
 		ETransmissionType					GetTransmission() const;
 	};
 	typedef std::vector<SceneDataProtocols>	SceneDataProtocolsArray;
-- 
2.43.0


From 2536c03b6215fe2921fa3666e13c1aedad8576eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 20/52] fix: connections of scene objects that are not fixtures
 could not be read

---
 src/Implementation/CSceneObjImpl.cpp | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 4c7904f..b87bd9c 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1424,15 +1424,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetConnectionCount(size
 	ASSERTN(kEveryone,fPtr);
 	if( ! fPtr) return kVCOMError_NotInitialized;
 	
-	// Check the type is right
-	ASSERTN(kEveryone,fType == ESceneObjType::Fixture);
-	if( fType != ESceneObjType::Fixture) return kVCOMError_NoFixtureObj;
-	
-	// Try to cast
-	SceneData::SceneDataFixtureObjPtr fixture = static_cast<SceneData::SceneDataFixtureObjPtr>(fPtr);
-	if( ! fixture) return kVCOMError_NoFixtureObj;
-	
-	outConnections = fixture->GetConnectionArr().size();
+	outConnections = fPtr->GetConnectionArr().size();
 	
 	return kVCOMError_NoError;
 }
@@ -1442,20 +1434,13 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetConnectionAt(size_t
 	ASSERTN(kEveryone,fPtr);
 	if( ! fPtr) return kVCOMError_NotInitialized;
 	
-	ASSERTN(kEveryone,fType == ESceneObjType::Fixture);
-	if( fType != ESceneObjType::Fixture) return kVCOMError_NoFixtureObj;
-
-	// Try to cast
-	SceneData::SceneDataFixtureObjPtr fixture = static_cast<SceneData::SceneDataFixtureObjPtr>(fPtr);
-	if( ! fixture) return kVCOMError_NoFixtureObj;
-	
-	size_t count = fixture->GetConnectionArr().size();
+	size_t count = fPtr->GetConnectionArr().size();
 	
 	
 	ASSERTN(kEveryone, at < count);
 	if (count <= at) { return kVCOMError_InvalidArg; }
 	
-	SceneData::SceneDataConnectionObjPtr pScConnection = fixture->GetConnectionArr().at(at);
+	SceneData::SceneDataConnectionObjPtr pScConnection = fPtr->GetConnectionArr().at(at);
 	
 	CConnectionImpl* pConnection = nullptr;
 	
-- 
2.43.0


From 70f01de7d71242aee05abf9b419c98e3192c985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 21/52] fix: classes were not written, so objects lost their
 class

---
 src/SceneDataExchange.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 240489b..f31757b 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3663,6 +3663,11 @@ bool SceneDataExchange::WriteXml(const IFolderIdentifierPtr& folder, IXMLFileIOB
 						position->PrintToFile( pAuxDataNode, this );
 					}
 
+					for ( const auto& classObj : fClasses )
+					{
+						classObj->PrintToFile( pAuxDataNode, this );
+					}
+
 					for ( const auto& symDef : fSymDefObjs )
 					{
 						symDef->PrintToFile( pAuxDataNode, this );
-- 
2.43.0


From 95023b939748769e8bba88bdf27c810517b18c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 22/52] fix: writing a mapping definition without source
 crashed

---
 src/SceneDataExchange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index f31757b..7097a69 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -811,7 +811,7 @@ void SceneDataMappingDefinitionObj::OnPrintToFile(IXMLFileNodePtr pNode, SceneDa
 		pSizeYNode->SetNodeValue(GdtfConverter::ConvertInteger(fSizeY));
 	}
 
-	fSource->PrintToFile(pNode, exchange);
+	if (fSource) { fSource->PrintToFile(pNode, exchange); }
 
 	IXMLFileNodePtr pScaleHandlingNode;
 	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_Val_MappingDefinitionScaleHandling, &pScaleHandlingNode)))
-- 
2.43.0


From 12af32373106eb7014d2d6efb866746f001026af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 23/52] fix: mappings and projectors whose values are not set
 wrote uninitialised values

---
 src/SceneDataExchange.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 7097a69..2cb021d 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -876,13 +876,15 @@ ESceneDataObjectType SceneDataMappingDefinitionObj::GetObjectType()
 // ----------------------------------------------------------------------------------------------------------------------------------
 // SceneDataMappingObj
 SceneDataMappingObj::SceneDataMappingObj() : SceneDataObj(SceneDataGUID(eNoGuid,"")),
-					 fLinkedDefUuid(SceneDataGUID(eNoGuid,""))
+					 fLinkedDefUuid(SceneDataGUID(eNoGuid,"")),
+					 fUx(0), fUy(0), fOx(0), fOy(0), fRz(0)
 {
 	
 }
 
 SceneDataMappingObj::SceneDataMappingObj(const SceneDataGUID& linkedDefUuid) : SceneDataObj(SceneDataGUID(eNoGuid,"")),
-					 fLinkedDefUuid(linkedDefUuid)
+					 fLinkedDefUuid(linkedDefUuid),
+					 fUx(0), fUy(0), fOx(0), fOy(0), fRz(0)
 {
 
 }
@@ -2693,6 +2695,7 @@ void SceneDataVideoScreenObj::OnReadFromNode(const IXMLFileNodePtr& pNode, Scene
 SceneDataProjectorObj::SceneDataProjectorObj(const SceneDataGUID& guid) : SceneDataGDTFSpecObj(guid)
 {
 	fSource = nullptr;
+	fScaleHandling = EScaleHandlingType::ScaleKeepRatio;
 }
 
 SceneDataProjectorObj::~SceneDataProjectorObj()
-- 
2.43.0


From 204e42722bdef191f4365e4222bce465702d79f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 24/52] fix: unknown symbol definitions crashed reading,
 symbols in symbols were not resolved without scene objects

---
 src/SceneDataExchange.cpp | 45 +++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 2cb021d..b08f39b 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3974,6 +3974,23 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 		}
 	}
 
+    //-----------------------------------------------------------------------------
+    // Resolve Symbols in Symbols
+    for (const auto& symDef : fSymDefMap)
+    {
+        for (SceneDataGeoInstanceObjPtr geoObj : symDef.second->getGeometryArray())
+        {
+            if (geoObj->IsSymDef())
+            {
+                SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
+                TSymDefMap::iterator  it     = fSymDefMap.find(symObj->GetUnresolvedSymDef());
+
+                ASSERTN(kEveryone, it != fSymDefMap.end());
+                if(it != fSymDefMap.end()) { symObj->SetSymDef(it->second); }
+            }
+        }
+    }
+
 	//------------------------------------------------------------------------------------------------------------------------------------------------------------------------
 	// Resolve classes from uuids
 	for (SceneDataObjWithMatrixPtr scObj : fSceneObjects)
@@ -3998,37 +4015,15 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			
 		}
 
-        //-----------------------------------------------------------------------------
-        // Resolve Symbols in Symbols
-        TSymDefMap::iterator it = fSymDefMap.begin();
-        while(it != fSymDefMap.end())
-        {
-            SceneDataSymDefObjPtr symDef = it->second;
-
-            for (SceneDataGeoInstanceObjPtr geoObj : symDef->getGeometryArray()) 
-            {
-                if (geoObj->IsSymDef())
-                {
-				    SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
-				    SceneDataSymDefObjPtr ptr    = fSymDefMap[symObj->GetUnresolvedSymDef()];
-				
-				    ASSERTN(kEveryone, ptr);
-				    if(ptr) { symObj->SetSymDef(ptr); }
-                }
-            }
-
-            it++;
-        }
-
 		for(SceneDataGeoInstanceObjPtr geoObj : scObj->GetGeometryArr())
 		{
 			if(geoObj->IsSymDef())
 			{
 				SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
-				SceneDataSymDefObjPtr ptr    = fSymDefMap[symObj->GetUnresolvedSymDef()];
+				TSymDefMap::iterator  it     = fSymDefMap.find(symObj->GetUnresolvedSymDef());
 				
-				ASSERTN(kEveryone, ptr);
-				if(ptr) { symObj->SetSymDef(ptr); }
+				ASSERTN(kEveryone, it != fSymDefMap.end());
+				if(it != fSymDefMap.end()) { symObj->SetSymDef(it->second); }
 			}
 		}
 		
-- 
2.43.0


From 6d902f95c231e9c3b345fb81b24f98add58df646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 25/52] fix: damaged archives were read behind their end

---
 src/Wrapper/ZIPFileBuffer.cpp | 7 +++++++
 src/Wrapper/ZIPFileImpl.cpp   | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Wrapper/ZIPFileBuffer.cpp b/src/Wrapper/ZIPFileBuffer.cpp
index baaa00f..434c356 100644
--- a/src/Wrapper/ZIPFileBuffer.cpp
+++ b/src/Wrapper/ZIPFileBuffer.cpp
@@ -94,6 +94,13 @@ VCOMError ZIPFileBuffer::GetFileSize(Uint64& outValue)
 
 VCOMError ZIPFileBuffer::Read(Uint64 position, Uint64& inoutSize, void* pOutBuffer)
 {
+	// Never read behind the end of the data
+	if (position > fZIPFileBufferSize || inoutSize > fZIPFileBufferSize - position)
+	{
+		inoutSize = 0;
+		return kVCOMError_Failed;
+	}
+
 	memcpy(pOutBuffer, fpZIPFileBuffer + position, (size_t)inoutSize);
 	return kVCOMError_NoError;
 }
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 3c3944e..3863a1e 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -1008,7 +1008,7 @@ void CZIPFileImpl::ReadLong( Uint32& outRead, Uint32& currentReadPosition )
 		Uint64 length = 0;
 		this->fpOpenedFile->GetFileSize(length);
 
-		if(currentReadPosition >= length)
+		if((Uint64)currentReadPosition + sizeof(Uint32) > length)
 		{
 			outRead = 0;
 		}
@@ -1028,7 +1028,7 @@ void CZIPFileImpl::ReadShort( Uint16& outRead, Uint32& currentReadPosition )
 		Uint64 length = 0;
 		this->fpOpenedFile->GetFileSize(length);
 
-		if(currentReadPosition >= length)
+		if((Uint64)currentReadPosition + sizeof(Uint16) > length)
 		{
 			outRead = 0;
 		}
-- 
2.43.0


From 60d1d62d2fd70746a45c98863e221e796bb7fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 26/52] fix: reading a missing file or one with a wrong size
 from an archive used uninitialised values

---
 src/Wrapper/ZIPFileImpl.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 3863a1e..ca2d1cb 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -414,7 +414,9 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 		return kVCOMError_NotInitialized;
 	
 	SZIPFileInfo fileInfo;
-	this->GetFileInfo( path, fileInfo );
+	err = this->GetFileInfo( path, fileInfo );
+	if ( err != kVCOMError_NoError )
+		return err;
 	
 	Uint32 currentReadPosition = fileInfo.dwOffsetOfLocalHeader;
 	currentReadPosition += ( 5 * kShortLength ) + ( 4 * kLongLength ); // start of variable data
@@ -427,6 +429,12 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 
 	currentReadPosition += fileNameLength + extraFieldLength;
 
+	// the data has to be inside of the archive
+	Uint64 archiveSize = 0;
+	this->GetSize( archiveSize );
+	if ( (Uint64)currentReadPosition + fileInfo.dwCompressedSize > archiveSize )
+		return kVCOMError_Failed;
+
 	// read the raw data
 	char* readData = new char[ fileInfo.dwCompressedSize ]; 
 	Uint64 inOutReadSize = (Uint64)fileInfo.dwCompressedSize;
-- 
2.43.0


From 77f7b0eb52f32ed2ea4a77ae395cef6d1507296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 27/52] fix: file names of more than 1024 characters in
 archives overran the buffer

---
 src/Wrapper/ZIPFileImpl.cpp | 2 +-
 src/Wrapper/ZIPFileImpl.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index ca2d1cb..7e46725 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -288,7 +288,7 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 		Uint64 inOutReadSize = (Uint64)fileNameLength;
 		this->ReadFromFile( currentReadPosition, inOutReadSize, (void*) fReadFileName );
 
-		if ( ( (size_t)inOutReadSize == fileNameLength ) &&  0 != strcmp(fReadFileName, ""))
+		if ( ( (size_t)inOutReadSize == fileNameLength ) && fileNameLength != 0 )
 		{
 			outPath  = std::string( fReadFileName, fileNameLength );
 		}
diff --git a/src/Wrapper/ZIPFileImpl.h b/src/Wrapper/ZIPFileImpl.h
index 2fbdadb..eb4bd52 100644
--- a/src/Wrapper/ZIPFileImpl.h
+++ b/src/Wrapper/ZIPFileImpl.h
@@ -131,7 +131,7 @@ namespace VectorworksMVR
 
 			TXString						fOpenedFileFullPath;
 			TXString						fFolderPath;
-			char							fReadFileName[1024];
+			char							fReadFileName[65536];
 		private:
 			static VCOMError				fLastError;
 
-- 
2.43.0


From c320780b957d4e311241058bcf605fb46f50814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 28/52] fix: adding an empty file to an archive without
 compression reported a failure

---
 src/Wrapper/ZIPFileImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 7e46725..9bcc77c 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -546,7 +546,7 @@ VCOMError CZIPFileImpl::AddFile(const TXString& inPath, IZIPFileIOBuffer* inputB
 				memcpy( (void*)outData, (void*)deflateBuffer, compressedSize );
 			}
 
-			if ( !compressedSize )
+			if ( !compressedSize && uncompressedSize )
 				err = kVCOMError_Failed;
 
 			zipFileInfo.bFolder = (uncompressedSize)?false:true;
@@ -623,7 +623,7 @@ VCOMError CZIPFileImpl::AddFile(const TXString& inPath, IZIPFileIOBuffer* inputB
 				memcpy( (void*)outData, (void*)deflateBuffer, compressedSize );
 			}
 
-			if ( !compressedSize )
+			if ( !compressedSize && uncompressedSize )
 				err = kVCOMError_Failed;
 		
 			zipFileInfo.bFolder = (uncompressedSize)?false:true;
-- 
2.43.0


From 7ab3362267571b3823824818ac59d5f932a40f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 29/52] fix: the information about a file in a damaged archive
 was taken from uninitialised memory

---
 src/Wrapper/ZIPFileImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 9bcc77c..7fa4258 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -388,12 +388,12 @@ VCOMError CZIPFileImpl::GetFileInfo(const std::string& path, SZIPFileInfo& outIn
 		if ( inOutReadSize != fileCommentLength )
 			err = kVCOMError_Failed;
 
-		if ( fileName )
+		if ( fileName && err == kVCOMError_NoError )
 		{
 			outInfo.fFileName = TXString( fileName, fileNameLength );
 		}
 
-		if ( fileComment )
+		if ( fileComment && err == kVCOMError_NoError )
 		{
 			outInfo.fComment = TXString( fileComment, fileCommentLength );
 		}
-- 
2.43.0


From c49838b07d8aebe89910352fc592e83bb1f61ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 30/52] fix: listing an archive with repeated file names never
 ended

---
 src/Wrapper/ZIPFileImpl.cpp | 22 +++++++++++++++++++++-
 src/Wrapper/ZIPFileImpl.h   |  5 +++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 7fa4258..cde861a 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -120,6 +120,9 @@ CZIPFileImpl::CZIPFileImpl()
 	fbOpenedWrite			= false;
 	fbCompressFiles			= true;
 
+	fListedPosition			= 0;
+	fListedArchiveSize		= 0;
+
 	fFolderPath				= "";
 	fOpenedFileFullPath		= "";
 
@@ -259,9 +262,20 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 	if ( !currentReadPosition )
 		return kVCOMError_Failed;
 	
+	Uint64 archiveSize = 0;
+	this->GetSize( archiveSize );
+
 	if ( path != "" )
 	{
-		this->GetFileCentralHeaderPosition( path, currentReadPosition );
+		// continue behind the entry that was listed last, looking it up by name would never end when names are repeated
+		if ( fListedPosition && fListedArchiveSize == archiveSize && fListedFile == path )
+			currentReadPosition = fListedPosition;
+		else
+			this->GetFileCentralHeaderPosition( path, currentReadPosition );
+
+		if ( !currentReadPosition )
+			return kVCOMError_Failed;
+
 		currentReadPosition += ( 6 * kShortLength ) + ( 4 * kLongLength );
 
 		Uint16 fileNameLength = 0;
@@ -274,6 +288,8 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 		currentReadPosition += ( 2 * kShortLength ) + ( 2 * kLongLength ) + fileNameLength + extraFieldLength + fileCommentLength;
 	}
 
+	const Uint32 entryPosition = currentReadPosition;
+
 	Uint32 signature;
 	this->ReadLong( signature, currentReadPosition );
 	if ( signature != kCentralDirSignature )
@@ -291,6 +307,10 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 		if ( ( (size_t)inOutReadSize == fileNameLength ) && fileNameLength != 0 )
 		{
 			outPath  = std::string( fReadFileName, fileNameLength );
+
+			fListedFile			= outPath;
+			fListedPosition		= entryPosition;
+			fListedArchiveSize	= archiveSize;
 		}
 		else 
 		{
diff --git a/src/Wrapper/ZIPFileImpl.h b/src/Wrapper/ZIPFileImpl.h
index eb4bd52..ff9c7f7 100644
--- a/src/Wrapper/ZIPFileImpl.h
+++ b/src/Wrapper/ZIPFileImpl.h
@@ -132,6 +132,11 @@ namespace VectorworksMVR
 			TXString						fOpenedFileFullPath;
 			TXString						fFolderPath;
 			char							fReadFileName[65536];
+
+			// the directory entry that was listed last, names are not always unique
+			std::string						fListedFile;
+			Uint32							fListedPosition;
+			Uint64							fListedArchiveSize;
 		private:
 			static VCOMError				fLastError;
 
-- 
2.43.0


From ac8d628fd6cc2f2664d2bb773d3d6eba961f8c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 31/52] fix: custom ids of fixtures above 2^31 were written as
 another number

---
 src/SceneDataExchange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index b08f39b..e7a7117 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -2218,7 +2218,7 @@ void SceneDataFixtureObj::OnPrintToFile(IXMLFileNodePtr pNode, SceneDataExchange
 	IXMLFileNodePtr pCustomId;
 	if ( VCOM_SUCCEEDED( pNode->CreateChildNode( XML_Val_FixtureCustomid, & pCustomId ) ) )
 	{
-		pCustomId->SetNodeValue(GdtfConverter::ConvertInteger( (Sint32)fCustomId ));
+		pCustomId->SetNodeValue(GdtfConverter::ConvertInteger( fCustomId ));
 	}
 	
 	//--------------------------------------------------------------------------------------------
-- 
2.43.0


From 16d61027e9fa1849172d60bd6f65d49f2337b603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 32/52] fix: archives could write and delete files outside of
 the working folder

---
 src/GDTFManager.cpp                  |  5 ++++-
 src/Implementation/CSceneObjImpl.cpp |  3 +++
 src/SceneDataExchange.cpp            |  3 ++-
 src/Utility.cpp                      | 18 ++++++++++++++++++
 src/Utility.h                        |  1 +
 5 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index d2ed9e8..9cd63a1 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -7848,7 +7848,7 @@ void GdtfFixture::PrepareWorkingFolder(TXString folderName)
 {
 	//-------------------------------------------------------------------------------------------------
 	// Working Directory
-	if(folderName.IsEmpty()){ folderName = "GdtfGroup"; }
+	if(folderName.IsEmpty() || ! SystemUtil::StaysInsideFolder(folderName)){ folderName = "GdtfGroup"; }
 
 	fWorkingFolder = (IID_FolderIdentifier);
 
@@ -7919,6 +7919,9 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 				subFolder = subFolder.Replace(TXString(kSeperator), "");
 				subFolder = TXString(kSeperator) + subFolder;
 
+				// never write outside of the working folder
+				if( ! SystemUtil::StaysInsideFolder(subFolder) || ! SystemUtil::StaysInsideFolder(fileNameWithoutFolder))	{ inPath = fileName; continue; }
+
 				// write the data into the filebuffer map.
 				size_t	size = 0;							buffer.GetDataSize(size);
 				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size); //data is deleted in the GdtfFixture destructor.
diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index b87bd9c..fb6c18b 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -431,6 +431,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetGdtfFixture(IGdtfFix
 	
 	if (gdtfName.Find(".gdtf") == ptrdiff_t(-1)) { gdtfName += ".gdtf";}
 	
+	// The file is a part of the scene file
+	if ( ! SystemUtil::StaysInsideFolder(gdtfName)) { return kVCOMError_FileNotFound; }
+	
 	IFolderIdentifierPtr workingFolder = fContext->GetWorkingFolder();
 	
 	IFileIdentifierPtr gdtfFile (IID_FileIdentifier);
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index e7a7117..ed3c00a 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -6,6 +6,7 @@
 #include "HashManager.h"
 #include "GDTFManager.h"
 #include "XmlFileHelper.h"
+#include "Utility.h"
 
 using namespace SceneData;
 
@@ -3763,7 +3764,7 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 			// House keeping
 			std::free(data);
         }
-        else
+        else if (SystemUtil::StaysInsideFolder(outPath)) // never write outside of the working folder
         {
 			// Prepare pointer to the new files
 			IFileIdentifierPtr file (IID_FileIdentifier);
diff --git a/src/Utility.cpp b/src/Utility.cpp
index ace1742..d8a6fe7 100644
--- a/src/Utility.cpp
+++ b/src/Utility.cpp
@@ -83,6 +83,24 @@ TXString SystemUtil::ExtractFolderFromPath(TXString& path)
     return folder;
 }
 
+bool SystemUtil::StaysInsideFolder(const TXString& path)
+/* 
+   Returns false for relative paths that can leave the folder they are appended to, so that have a step to the parent folder.
+*/
+{
+	TXString part;
+
+	for (size_t i = 0; i <= path.GetLength(); i++)
+	{
+		if (i < path.GetLength() && path.GetAt(i) != '/' && path.GetAt(i) != '\\') { part += path.GetAt(i); continue; }
+
+		if (part == "..") { return false; }
+		part.Clear();
+	}
+
+	return true;
+}
+
 bool GdtfUtil::IsValidNameChar(TXChar codepoint) {
     return 
         (codepoint == 0x20                          ||
diff --git a/src/Utility.h b/src/Utility.h
index 1efbc85..8e57b43 100644
--- a/src/Utility.h
+++ b/src/Utility.h
@@ -32,5 +32,6 @@ namespace VectorworksMVR
 	{
 	public:
 		static TXString ExtractFolderFromPath(TXString & path);
+		static bool 	StaysInsideFolder(const TXString & path);
 	};
 }
\ No newline at end of file
-- 
2.43.0


From 2a13decf339cf2f4e8c1e9d77bb9e3261ab9a17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:11 +0000
Subject: [PATCH 33/52] fix: initialise the version of an MVR-xchange packet

---
 src/mvrxchange/mvrxchange_message.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 71787b6..866da4c 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -30,6 +30,7 @@ T swap_endian(T u)
 MVRxchangePacket::MVRxchangePacket()
 {
     fFlag       = kMVR_Package_Flag;
+    fVersion    = 1;
     fNumber     = 0;
     fCount      = 0;
     fType       = 0;
-- 
2.43.0


From 8374e4c5bb92758ea1a2454888e0294ed54d06c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 34/52] fix: keep received MVR-xchange texts inside their
 buffers

---
 src/mvrxchange/mvrxchange_message.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 866da4c..b7287e2 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -168,11 +168,11 @@ void MVR_COMMIT_ToJson(const IMVRxchangeService::MVR_COMMIT_MESSAGE& msg, nlohma
 
 void MVR_COMMIT_FromJson(const nlohmann::json& payload, IMVRxchangeService::MVR_COMMIT_MESSAGE& in)
 {
-    strcpy(in.Comment, payload["Comment"].get<std::string>().c_str());
+    in.Comment = payload["Comment"].get<std::string>().c_str();
     in.VersionMajor= payload["verMajor"];
     in.VersionMinor= payload["verMinor"];
     in.FileSize= payload["FileSize"];
-    strcpy(in.FileName, payload["FileName"].get<std::string>().c_str());
+    in.FileName = payload["FileName"].get<std::string>().c_str();
 
     SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.FileUUID);
     SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.StationUUID);
@@ -345,8 +345,8 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN;
         in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
         in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        strcpy(in.JOIN.Provider, payload["Provider"].get<std::string>().c_str());
-        strcpy(in.JOIN.StationName, payload["StationName"].get<std::string>().c_str());
+        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
+        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
         noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
 
         in.JOIN.Commits.clear();
@@ -361,12 +361,12 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN_RET;
         in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
         in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        strcpy(in.JOIN.Provider, payload["Provider"].get<std::string>().c_str());
-        strcpy(in.JOIN.StationName, payload["StationName"].get<std::string>().c_str());
+        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
+        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
         noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
 
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
 
         in.JOIN.Commits.clear();
         for (auto &it : payload["Commits"])
@@ -384,7 +384,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }
     else if (payload["Type"] == "MVR_REQUEST")
     {
@@ -406,7 +406,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }
     else if (payload["Type"] == "MVR_LEAVE")
     {
@@ -424,7 +424,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }else{
         throw std::runtime_error("Unable to parse payload type correctly");
     }
-- 
2.43.0


From b690bc8001e32d66825a874f22cfe00502eda0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 35/52] fix: report a received MVR-xchange message that misses
 a field

---
 src/mvrxchange/mvrxchange_message.cpp | 60 +++++++++++++--------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index b7287e2..43635b6 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -168,18 +168,18 @@ void MVR_COMMIT_ToJson(const IMVRxchangeService::MVR_COMMIT_MESSAGE& msg, nlohma
 
 void MVR_COMMIT_FromJson(const nlohmann::json& payload, IMVRxchangeService::MVR_COMMIT_MESSAGE& in)
 {
-    in.Comment = payload["Comment"].get<std::string>().c_str();
-    in.VersionMajor= payload["verMajor"];
-    in.VersionMinor= payload["verMinor"];
-    in.FileSize= payload["FileSize"];
-    in.FileName = payload["FileName"].get<std::string>().c_str();
+    in.Comment = payload.at("Comment").get<std::string>().c_str();
+    in.VersionMajor= payload.at("verMajor");
+    in.VersionMinor= payload.at("verMinor");
+    in.FileSize= payload.at("FileSize");
+    in.FileName = payload.at("FileName").get<std::string>().c_str();
 
-    SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.FileUUID);
-    SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.StationUUID);
+    SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.FileUUID);
+    SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.StationUUID);
 
     in.ForStationsUUID.clear();
     // TODO
-    for(const auto& e : payload["ForStationsUUID"])
+    for(const auto& e : payload.at("ForStationsUUID"))
     {
         in.ForStationsUUID.emplace_back();
         if(!SceneData::GdtfConverter::ConvertUUID(e.get<std::string>(), in.ForStationsUUID.back())){
@@ -343,14 +343,14 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     if (payload["Type"] == "MVR_JOIN")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN;
-        in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
-        in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
-        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
+        in.JOIN.VersionMajor = HandleStringNumber(payload.at("verMajor"));
+        in.JOIN.VersionMinor = HandleStringNumber(payload.at("verMinor"));
+        in.JOIN.Provider = payload.at("Provider").get<std::string>().c_str();
+        in.JOIN.StationName = payload.at("StationName").get<std::string>().c_str();
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.JOIN.StationUUID);
 
         in.JOIN.Commits.clear();
-        for (auto &it : payload["Commits"])
+        for (auto &it : payload.at("Commits"))
         {
             in.JOIN.Commits.emplace_back();
             MVR_COMMIT_FromJson(it, in.JOIN.Commits.back());
@@ -359,17 +359,17 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     else if (payload["Type"] == "MVR_JOIN_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN_RET;
-        in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
-        in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
-        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
+        in.JOIN.VersionMajor = HandleStringNumber(payload.at("verMajor"));
+        in.JOIN.VersionMinor = HandleStringNumber(payload.at("verMinor"));
+        in.JOIN.Provider = payload.at("Provider").get<std::string>().c_str();
+        in.JOIN.StationName = payload.at("StationName").get<std::string>().c_str();
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.JOIN.StationUUID);
 
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
 
         in.JOIN.Commits.clear();
-        for (auto &it : payload["Commits"])
+        for (auto &it : payload.at("Commits"))
         {
             in.JOIN.Commits.emplace_back();
             MVR_COMMIT_FromJson(it, in.JOIN.Commits.back());
@@ -383,17 +383,17 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     else if (payload["Type"] == "MVR_COMMIT_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }
     else if (payload["Type"] == "MVR_REQUEST")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST;
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.REQUEST.FileUUID);
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.REQUEST.FileUUID);
 
         in.REQUEST.FromStationUUID.clear();
         // TODO
-        for (const auto &e : payload["FromStationUUID"])
+        for (const auto &e : payload.at("FromStationUUID"))
         {
             in.REQUEST.FromStationUUID.emplace_back();
             if (!SceneData::GdtfConverter::ConvertUUID(e.get<std::string>(), in.REQUEST.FromStationUUID.back()))
@@ -405,8 +405,8 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     else if (payload["Type"] == "MVR_REQUEST_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }
     else if (payload["Type"] == "MVR_LEAVE")
     {
@@ -423,8 +423,8 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     else if (payload["Type"] == "MVR_LEAVE_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }else{
         throw std::runtime_error("Unable to parse payload type correctly");
     }
-- 
2.43.0


From c1c115a6dc9018774ffa4e5f4d07b42670d5b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 36/52] fix: report a received MVR-xchange message whose type
 is not a text

---
 src/mvrxchange/mvrxchange_message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 43635b6..cc11aac 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -453,7 +453,7 @@ void MVRxchangePacket::ToExternalMessage(VectorworksMVR::IMVRxchangeService::IMV
             return;
         }
 
-        if (payload.type() != nlohmann::json::value_t::object || !payload.contains("Type"))
+        if (payload.type() != nlohmann::json::value_t::object || !payload.contains("Type") || !payload["Type"].is_string())
         {
             in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_UNDEFINED;
             in.RetIsOK = false;
-- 
2.43.0


From c3522f8f5969ce36c516a0b55b34a1df74870da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 37/52] fix: send MVR-xchange messages whose texts are not
 valid UTF-8

---
 src/mvrxchange/mvrxchange_message.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index cc11aac..5e71ce2 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -303,8 +303,8 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
     }
     else
     {
-        MVRXCHANGE_DEBUG("outgoing message:\n" << payload.dump(4));
-        std::string s = payload.dump();
+        MVRXCHANGE_DEBUG("outgoing message:\n" << payload.dump(4, ' ', false, nlohmann::json::error_handler_t::replace));
+        std::string s = payload.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
         fBodyLength = s.size();
         fType       = kMVR_Package_JSON_TYPE;
 
-- 
2.43.0


From e8588aa6538ef7cf758972ab40c5f8c97712d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 38/52] fix: make room for the body an MVR-xchange header
 announces, or refuse it

---
 src/mvrxchange/mvrxchange_dynamic_buffer.cpp |  8 +++-----
 src/mvrxchange/mvrxchange_message.cpp        | 13 +++++++++++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_dynamic_buffer.cpp b/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
index 71e8816..c013ad4 100644
--- a/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
+++ b/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
@@ -131,11 +131,9 @@ void MVRxchangeDynamicBuffer::GrowTo(size_t size)
 	// When we already have enought memory, just copy
 	if (fAllocatedMemory < needToAllocate)
 	{
-		// Calculate the new needed buffer
-		fAllocatedMemory = needToAllocate;
-
 		// Create new Buffer
-		char* tempBuffer = new char[fAllocatedMemory];
+		char* tempBuffer = new char[needToAllocate];
+		fAllocatedMemory = needToAllocate;
 		if(fBuffer)
 		{
 			memcpy(tempBuffer, fBuffer, fBufferSize);
@@ -143,7 +141,7 @@ void MVRxchangeDynamicBuffer::GrowTo(size_t size)
 		}
 
 		// Set the new Buffer size
-		fBufferSize = fBufferSize + (size_t)size;
+		fBufferSize = (size_t)size;
 
 		// Set the new Buffer
 		fBuffer = tempBuffer;
diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 5e71ce2..ae5bec5 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -97,7 +97,7 @@ bool MVRxchangePacket::DecodeHeader()
     memcpy(&fFlag, fData->GetData(), header_flag);
     fFlag = swap_endian(fFlag);
     
-    if (fFlag != kMVR_Package_Flag) { return false; }
+    if (fFlag != kMVR_Package_Flag) { fBodyLength = 0; return false; }
 
 
 
@@ -114,7 +114,16 @@ bool MVRxchangePacket::DecodeHeader()
     fBodyLength = swap_endian(fBodyLength);
 
     // Prepare Buffer
-    fData->GrowTo(fBodyLength);
+    try
+    {
+        if (fBodyLength > SIZE_MAX - total_header_length - 1) { throw std::bad_alloc(); }
+        fData->GrowTo(total_header_length + fBodyLength);
+    }
+    catch (const std::bad_alloc&)
+    {
+        fBodyLength = 0;
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 8035849946314b0504200583f782973b2ffd3450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 39/52] fix: refuse the index behind the last found MVR-xchange
 service

---
 src/mvrxchange/CMVRxchangeService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 1eb906f..d82ed55 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -177,7 +177,7 @@ VCOMError VCOM_CALLTYPE  CMVRxchangeServiceImpl::QueryLocalServices(size_t& out_
 VCOMError VCOM_CALLTYPE VectorworksMVR::CMVRxchangeServiceImpl::GetLocalServiceAt(size_t index, ConnectToLocalServiceArgs& outLocalService)
 {
 	std::lock_guard<std::mutex> lock (fQueryLocalServicesResult_mtx);
-	if ( fQueryLocalServicesResult.size() < index)
+	if ( fQueryLocalServicesResult.size() <= index)
 	{
 		return kVCOMError_Failed;
 	}
-- 
2.43.0


From 02045d49f18c77f782a91401297af049423232dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 40/52] fix: MVR-xchange announcements without text or with an
 entry without value

---
 src/mvrxchange/CMVRxchangeService.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index d82ed55..7ee9139 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -572,10 +572,11 @@ void CMVRxchangeServiceImpl::mDNS_Client_Task()
 		TXString uuid;
 
 		size_t ptr = 0;
-		do{
+		while(ptr < r.txt.size()){
 			uint8_t len = r.txt[ptr];
 
 			std::string t = r.txt.substr(ptr + 1, len);
+			ptr += len + 1;
 			size_t eqIdx = t.find('=');
 			if(eqIdx == std::string::npos)
 			{
@@ -590,9 +591,7 @@ void CMVRxchangeServiceImpl::mDNS_Client_Task()
 			{
 				uuid = t.substr(eqIdx + 1);
 			}
-
-			ptr += len + 1;
-		}while(ptr < r.txt.size());
+		}
 
 		SceneData::GdtfConverter::ConvertUUID(uuid, localServ.StationUUID);
 		strcpy(localServ.StationName, name.GetCharPtr());
-- 
2.43.0


From d1bee52d0c68f1b6853ae9fcb0ca9e74cd76e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 41/52] fix: mDNS records of several services of one computer
 are told apart by their name

---
 mdns_cpp/src/mdns.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mdns_cpp/src/mdns.cpp b/mdns_cpp/src/mdns.cpp
index 2126d5f..f738593 100644
--- a/mdns_cpp/src/mdns.cpp
+++ b/mdns_cpp/src/mdns.cpp
@@ -581,12 +581,16 @@ QueryResList mDNS::executeQuery2(const std::string &service) {
     outItem.mdnsAddress = it->addr;
     outItem.port = it->data.port;
 
+    // several services of one computer can match, the record with exactly this name is the one of this service
+    bool foundTxt = false;
     for(auto& t : queryRes.txtRecords)
     {
-      if(testQueryPart(t, *it)){
+      const bool exact = t.addr == it->addr && t.canonicalName == it->canonicalName;
+      if(exact || (!foundTxt && testQueryPart(t, *it))){
         outItem.txt = t.data;
-        break;
+        foundTxt = true;
       }
+      if(exact) { break; }
     }
 
     for(auto& t : queryRes.aRecords)
@@ -603,12 +607,15 @@ QueryResList mDNS::executeQuery2(const std::string &service) {
       }
     }
 
+    bool foundPtr = false;
     for(auto& t : queryRes.ptrRecords)
     {
-      if(testQueryPart(t, *it)){
+      const bool exact = t.addr == it->addr && t.data == it->canonicalName;
+      if(exact || (!foundPtr && testQueryPart(t, *it))){
         outItem.service_name = t.data;
-        break;
+        foundPtr = true;
       }
+      if(exact) { break; }
     }
 
     outList.push_back(outItem);
-- 
2.43.0


From e27b3a942aa07a9bb64e6e2283a2004bee0a67aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 42/52] fix: mDNS packets are read within the bytes received

---
 mdns_cpp/src/mdns.h | 46 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/mdns_cpp/src/mdns.h b/mdns_cpp/src/mdns.h
index e0af574..083122b 100644
--- a/mdns_cpp/src/mdns.h
+++ b/mdns_cpp/src/mdns.h
@@ -46,6 +46,9 @@ extern "C" {
 #define MDNS_POINTER_OFFSET_CONST(p, ofs) ((const void*)((const char*)(p) + (ptrdiff_t)(ofs)))
 #define MDNS_POINTER_DIFF(a, b) ((size_t)((const char*)(a) - (const char*)(b)))
 
+// Names have at most this many parts, which also ends names that refer to themselves
+#define MDNS_MAX_SUBSTRINGS 128
+
 #define MDNS_PORT 5353
 #define MDNS_UNICAST_RESPONSE 0x8000U
 #define MDNS_CACHE_FLUSH 0x8000U
@@ -407,12 +410,15 @@ static mdns_string_pair_t
 mdns_get_next_substring(const void* rawdata, size_t size, size_t offset) {
 	const uint8_t* buffer = (const uint8_t*)rawdata;
 	mdns_string_pair_t pair = {MDNS_INVALID_POS, 0, 0};
+	if (offset >= size)
+		return pair;
 	if (!buffer[offset]) {
 		pair.offset = offset;
 		return pair;
 	}
-	if (mdns_is_string_ref(buffer[offset])) {
-		if (size < offset + 2)
+	int refs = 0;
+	while (mdns_is_string_ref(buffer[offset])) {
+		if (size < offset + 2 || ++refs > MDNS_MAX_SUBSTRINGS)
 			return pair;
 
 		offset = 0x3fff & ntohs(*(uint16_t*)MDNS_POINTER_OFFSET(buffer, offset));
@@ -435,10 +441,11 @@ mdns_get_next_substring(const void* rawdata, size_t size, size_t offset) {
 static int
 mdns_string_skip(const void* buffer, size_t size, size_t* offset) {
 	size_t cur = *offset;
+	size_t count = 0;
 	mdns_string_pair_t substr;
 	do {
 		substr = mdns_get_next_substring(buffer, size, cur);
-		if (substr.offset == MDNS_INVALID_POS)
+		if ((substr.offset == MDNS_INVALID_POS) || (count++ > MDNS_MAX_SUBSTRINGS))
 			return 0;
 		if (substr.ref) {
 			*offset = cur + 2;
@@ -460,10 +467,12 @@ mdns_string_equal(const void* buffer_lhs, size_t size_lhs, size_t* ofs_lhs, cons
 	size_t rhs_end = MDNS_INVALID_POS;
 	mdns_string_pair_t lhs_substr;
 	mdns_string_pair_t rhs_substr;
+	size_t count = 0;
 	do {
 		lhs_substr = mdns_get_next_substring(buffer_lhs, size_lhs, lhs_cur);
 		rhs_substr = mdns_get_next_substring(buffer_rhs, size_rhs, rhs_cur);
-		if ((lhs_substr.offset == MDNS_INVALID_POS) || (rhs_substr.offset == MDNS_INVALID_POS))
+		if ((lhs_substr.offset == MDNS_INVALID_POS) || (rhs_substr.offset == MDNS_INVALID_POS) ||
+		    (count++ > MDNS_MAX_SUBSTRINGS))
 			return 0;
 		if (lhs_substr.length != rhs_substr.length)
 			return 0;
@@ -499,9 +508,10 @@ mdns_string_extract(const void* buffer, size_t size, size_t* offset, char* str,
 	result.length = 0;
 	char* dst = str;
 	size_t remain = capacity;
+	size_t count = 0;
 	do {
 		substr = mdns_get_next_substring(buffer, size, cur);
-		if (substr.offset == MDNS_INVALID_POS)
+		if ((substr.offset == MDNS_INVALID_POS) || (count++ > MDNS_MAX_SUBSTRINGS))
 			return result;
 		if (substr.ref && (end == MDNS_INVALID_POS))
 			end = cur + 2;
@@ -600,7 +610,8 @@ mdns_records_parse(int sock, const struct sockaddr* from, size_t addrlen, const
 	int do_callback = (callback ? 1 : 0);
 	for (size_t i = 0; i < records; ++i) {
 		size_t name_offset = *offset;
-		mdns_string_skip(buffer, size, offset);
+		if (!mdns_string_skip(buffer, size, offset) || ((*offset) + 10 > size))
+			return parsed;
 		size_t name_length = (*offset) - name_offset;
 		const uint16_t* data = (const uint16_t*)((const char*)buffer + (*offset));
 
@@ -611,6 +622,8 @@ mdns_records_parse(int sock, const struct sockaddr* from, size_t addrlen, const
 		uint16_t length = ntohs(*data++);
 
 		*offset += 10;
+		if (length > size - (*offset))
+			return parsed;
 
 		if (do_callback) {
 			++parsed;
@@ -704,7 +717,7 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 	saddr->sa_len = sizeof(addr);
 #endif
 	int ret = recvfrom(sock, (char*)buffer, (mdns_size_t)capacity, 0, saddr, &addrlen);
-	if (ret <= 0)
+	if (ret < (int)sizeof(struct mdns_header_t))
 		return 0;
 
 	size_t data_size = (size_t)ret;
@@ -735,7 +748,8 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 		size_t verify_ofs = 12;
 		// Verify it's our question, _services._dns-sd._udp.local.
 		if (!mdns_string_equal(buffer, data_size, &ofs, mdns_services_query,
-		                       sizeof(mdns_services_query), &verify_ofs))
+		                       sizeof(mdns_services_query), &verify_ofs) ||
+		    (ofs + 4 > data_size))
 			return 0;
 		data = (uint16_t*)((char*)buffer + ofs);
 
@@ -755,6 +769,10 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 		size_t name_offset = ofs;
 		int is_answer = mdns_string_equal(buffer, data_size, &ofs, mdns_services_query,
 		                                  sizeof(mdns_services_query), &verify_ofs);
+		if (!is_answer && !mdns_string_skip(buffer, data_size, &ofs))
+			return records;
+		if (ofs + 10 > data_size)
+			return records;
 		size_t name_length = ofs - name_offset;
 		data = (uint16_t*)((char*)buffer + ofs);
 
@@ -763,8 +781,8 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 		uint32_t ttl = ntohl(*(uint32_t*)(void*)data);
 		data += 2;
 		uint16_t length = ntohs(*data++);
-		if (length >= (data_size - ofs))
-			return 0;
+		if (length > (data_size - ofs - 10))
+			return records;
 
 		if (is_answer && do_callback) {
 			++records;
@@ -798,7 +816,7 @@ mdns_socket_listen(int sock, void* buffer, size_t capacity, mdns_record_callback
 	saddr->sa_len = sizeof(addr);
 #endif
 	int ret = recvfrom(sock, (char*)buffer, (mdns_size_t)capacity, 0, saddr, &addrlen);
-	if (ret <= 0)
+	if (ret < (int)sizeof(struct mdns_header_t))
 		return 0;
 
 	size_t data_size = (size_t)ret;
@@ -829,6 +847,8 @@ mdns_socket_listen(int sock, void* buffer, size_t capacity, mdns_record_callback
 			if (!mdns_string_skip(buffer, data_size, &offset))
 				break;
 		}
+		if (offset + 4 > data_size)
+			break;
 		size_t length = offset - question_offset;
 		data = (uint16_t*)((char*)buffer + offset);
 
@@ -947,7 +967,7 @@ mdns_query_recv(int sock, void* buffer, size_t capacity, mdns_record_callback_fn
 	saddr->sa_len = sizeof(addr);
 #endif
 	int ret = recvfrom(sock, (char*)buffer, (mdns_size_t)capacity, 0, saddr, &addrlen);
-	if (ret <= 0)
+	if (ret < (int)sizeof(struct mdns_header_t))
 		return 0;
 
 	size_t data_size = (size_t)ret;
@@ -971,7 +991,7 @@ mdns_query_recv(int sock, void* buffer, size_t capacity, mdns_record_callback_fn
 	int i;
 	for (i = 0; i < questions; ++i) {
 		size_t ofs = (size_t)((char*)data - (char*)buffer);
-		if (!mdns_string_skip(buffer, data_size, &ofs))
+		if (!mdns_string_skip(buffer, data_size, &ofs) || (ofs + 4 > data_size))
 			return 0;
 		data = (uint16_t*)((char*)buffer + ofs);
 		uint16_t rtype = ntohs(*data++);
-- 
2.43.0


From b2866c75620e8eeb34946d00ac42289ed97db424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 43/52] fix: mDNS answers that do not fit are not written
 through a null pointer

---
 mdns_cpp/src/mdns.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdns_cpp/src/mdns.h b/mdns_cpp/src/mdns.h
index 083122b..29ddcc8 100644
--- a/mdns_cpp/src/mdns.h
+++ b/mdns_cpp/src/mdns.h
@@ -596,8 +596,10 @@ static void*
 mdns_string_make_with_ref(void* data, size_t capacity, const char* name, size_t length,
                           size_t ref_offset) {
 	void* remaindata = mdns_string_make(data, capacity, name, length);
+	if (!remaindata)
+		return 0;
 	capacity -= MDNS_POINTER_DIFF(remaindata, data);
-	if (!data || !capacity)
+	if (!capacity)
 		return 0;
 	return mdns_string_make_ref(MDNS_POINTER_OFFSET(remaindata, -1), capacity + 1, ref_offset);
 }
-- 
2.43.0


From f08bf769887d6c245be560125f23d0042b0e8643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 44/52] fix: mDNS discovery crashed on the first reply

---
 mdns_cpp/src/mdns.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdns_cpp/src/mdns.cpp b/mdns_cpp/src/mdns.cpp
index f738593..3f1bfce 100644
--- a/mdns_cpp/src/mdns.cpp
+++ b/mdns_cpp/src/mdns.cpp
@@ -643,7 +643,8 @@ void mDNS::executeDiscovery() {
 
   size_t capacity = 2048;
   void *buffer = malloc(capacity);
-  void *user_data = 0;
+  unsorted_query_t queryRes;
+  void *user_data = &queryRes;
 
   // This is a simple implementation that loops for 5 seconds or as long as we get replies
   // max reply duration is set to 20 (15 + 5) sec
-- 
2.43.0


From d6c4b737577a14f4b91e25564716a66b0e082a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:33 +0000
Subject: [PATCH 45/52] fix: asking for the object just behind the last one
 reports an error

Five of the lists let the index equal the number of objects through and
read behind the end of the array.
---
 src/Implementation/CGdtfAttribute.cpp | 2 +-
 src/Implementation/CGdtfGamut.cpp     | 2 +-
 src/Implementation/CGdtfGeometry.cpp  | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Implementation/CGdtfAttribute.cpp b/src/Implementation/CGdtfAttribute.cpp
index c1a3ea9..28985ce 100644
--- a/src/Implementation/CGdtfAttribute.cpp
+++ b/src/Implementation/CGdtfAttribute.cpp
@@ -293,7 +293,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfAttributeImpl::GetSubPhysicalUnit
 	if ( ! fAttribute) { return kVCOMError_NotInitialized; }
 	
 	// check overflow
-	if (fAttribute->GetSubPhysicalUnitArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (fAttribute->GetSubPhysicalUnitArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
diff --git a/src/Implementation/CGdtfGamut.cpp b/src/Implementation/CGdtfGamut.cpp
index b64e739..78b6bbb 100644
--- a/src/Implementation/CGdtfGamut.cpp
+++ b/src/Implementation/CGdtfGamut.cpp
@@ -53,7 +53,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGamutImpl::GetPointAt(size_t at,
 	if ( ! fGamut) { return kVCOMError_NotInitialized; }
 	
 	// check overflow
-	if (fGamut->GetGamutPoints().size() < at) { return kVCOMError_OutOfBounds; }
+	if (fGamut->GetGamutPoints().size() <= at) { return kVCOMError_OutOfBounds; }
 
 	CCieColorPtr colorPtr = fGamut->GetGamutPoints()[at];
 
diff --git a/src/Implementation/CGdtfGeometry.cpp b/src/Implementation/CGdtfGeometry.cpp
index 75bac24..5eda77a 100644
--- a/src/Implementation/CGdtfGeometry.cpp
+++ b/src/Implementation/CGdtfGeometry.cpp
@@ -790,7 +790,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetBreakAt(size_t a
 	if ( ! ref) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (ref->GetBreakArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (ref->GetBreakArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
@@ -1510,7 +1510,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetLaserProtocolAt(
 	if ( ! laser) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (laser->GetLaserProtocolArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (laser->GetLaserProtocolArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
@@ -2133,7 +2133,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetPinPatchAt(size_
 	if ( ! wiringObject) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (wiringObject->GetPinPatchArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (wiringObject->GetPinPatchArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
-- 
2.43.0


From 5a72d601b5a2cfca08a2cfad3847540663f5ef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:05 +0000
Subject: [PATCH 46/52] fix: values whose attribute is missing in a description
 were never set

Reading such a description left numbers, switches and enumerations of
wheel slots, geometries, macros and maps with whatever was in memory.
---
 src/GDTFManager.h | 86 +++++++++++++++++++++++------------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index c060b09..a7356b7 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -375,13 +375,13 @@ namespace SceneData
 												GdtfWheelSlotAnimationSystem();
 												~GdtfWheelSlotAnimationSystem();
 	private:
-		double									fP1_X;
-		double									fP1_Y;
-		double									fP2_X;
-		double									fP2_Y;
-		double									fP3_X;
-		double									fP3_Y;
-		double									fRadius;
+		double									fP1_X = 0.0;
+		double									fP1_Y = 0.0;
+		double									fP2_X = 0.0;
+		double									fP2_Y = 0.0;
+		double									fP3_X = 0.0;
+		double									fP3_Y = 0.0;
+		double									fRadius = 0.0;
 
     public:
         double									GetP1_X();
@@ -975,9 +975,9 @@ namespace SceneData
 												~GdtfGeometryDisplay();
 	private:
 		TXString								fTexture;
-		size_t									fWidth;
-		size_t									fHeight;
-		bool 									fIsCurved;
+		size_t									fWidth = 0;
+		size_t									fHeight = 0;
+		bool 									fIsCurved = false;
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1031,15 +1031,15 @@ namespace SceneData
 	
 	private:
 		EGdtfLaserColorType 					fColorType;
-		double									fColor; //Wavelength
-		double									fOutputStrength;
+		double									fColor = 0.0; //Wavelength
+		double									fOutputStrength = 0.0;
 		GdtfPhysicalEmitter*					fEmitter;
-		double 									fBeamDiameter;
-		double									fBeamDivergenceMin;
-		double									fBeamDivergenceMax;
-		double									fScanAnglePan;
-		double									fScanAngleTilt;
-		double									fScanSpeed;
+		double 									fBeamDiameter = 0.0;
+		double									fBeamDivergenceMin = 0.0;
+		double									fBeamDivergenceMax = 0.0;
+		double									fScanAnglePan = 0.0;
+		double									fScanAngleTilt = 0.0;
+		double									fScanSpeed = 0.0;
 
 		TXString 								fUnresolvedEmitter;
 
@@ -1094,8 +1094,8 @@ namespace SceneData
 												~GdtfPinPatch();
 	private:
 		GdtfGeometryWiringObjectPtr				fToWiringObject;
-		size_t									fFromPin;
-		size_t									fToPin;
+		size_t									fFromPin = 0;
+		size_t									fToPin = 0;
 
 		TXString								fUnresolvedWiringObject;
 
@@ -1209,7 +1209,7 @@ namespace SceneData
 												GdtfGeometryInventory(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent);
 												~GdtfGeometryInventory();
 	private:
-		size_t									fCount;
+		size_t									fCount = 0;
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1234,10 +1234,10 @@ namespace SceneData
 	
 	private:
 		GdtfGeometry*   						fLinkedGeometry;
-		EGdtfStructureType 						fStructureType;
-		EGdtfCrossSectionType 					fCrossSectionType;
-		double									fCrossSectionHeight; //Tube
-		double									fCrossSectionWallThickness; //Tube
+		EGdtfStructureType 						fStructureType = EGdtfStructureType::CenterLineBased;
+		EGdtfCrossSectionType 					fCrossSectionType = EGdtfCrossSectionType::TrussFramework;
+		double									fCrossSectionHeight = 0.0; //Tube
+		double									fCrossSectionWallThickness = 0.0; //Tube
 		TXString								fTrussCrossSection; //TrussFramework
 
 		TXString 								fUnresolvedLinkedGeometry;
@@ -1279,21 +1279,21 @@ namespace SceneData
 												~GdtfGeometrySupport();
 	
 	private:
-		EGdtfSupportType						fSupportType;
-		double 									fCapacityX;
-		double 									fCapacityY;
-		double 									fCapacityZ;
-		double 									fCapacityXX;
-		double 									fCapacityYY;
-		double 									fCapacityZZ;
+		EGdtfSupportType						fSupportType = EGdtfSupportType::Rope;
+		double 									fCapacityX = 0.0;
+		double 									fCapacityY = 0.0;
+		double 									fCapacityZ = 0.0;
+		double 									fCapacityXX = 0.0;
+		double 									fCapacityYY = 0.0;
+		double 									fCapacityZZ = 0.0;
 		TXString 								fRopeCrossSection; 	//Rope
 		VWPoint3D 								fRopeOffset; 		//Rope
-		double 									fResistanceX;		//GroundSupport
-		double 									fResistanceY;		//GroundSupport
-		double 									fResistanceZ;		//GroundSupport
-		double 									fResistanceXX;		//GroundSupport
-		double 									fResistanceYY;		//GroundSupport
-		double 									fResistanceZZ;		//GroundSupport
+		double 									fResistanceX = 0.0;		//GroundSupport
+		double 									fResistanceY = 0.0;		//GroundSupport
+		double 									fResistanceZ = 0.0;		//GroundSupport
+		double 									fResistanceXX = 0.0;		//GroundSupport
+		double 									fResistanceYY = 0.0;		//GroundSupport
+		double 									fResistanceZZ = 0.0;		//GroundSupport
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1942,7 +1942,7 @@ namespace SceneData
 												~GdtfMacroDMXValue();
 	private:
 		TXString 								funresolvedValue;
-		DmxValue								fValue;
+		DmxValue								fValue = 0;
 		TXString								funresolvedDMXChannel;
 		GdtfDmxChannelPtr						fDMXChannel;
 	public:
@@ -1973,7 +1973,7 @@ namespace SceneData
 												GdtfMacroDMXStep(double duration);
 												~GdtfMacroDMXStep();
 	private:
-		double									fDuration;
+		double									fDuration = 0.0;
 		// Childs
 		TGdtfMacroDMXValueArray					fDMXValues;
 	public:
@@ -2022,7 +2022,7 @@ namespace SceneData
 												~GdtfMacroVisualValue();
 	private:
 		TXString 								funresolvedValue;
-		DmxValue								fDmxValue;
+		DmxValue								fDmxValue = 0;
 		TXString								fUnresolvedChannelFunctionRef;
 		GdtfDmxChannelFunctionPtr				fChannelFunctionRef;
 	public:
@@ -2341,8 +2341,8 @@ namespace SceneData
 												GdtfMap(Uint32 key, Uint32 value);
 												~GdtfMap();
     private:
-        Uint32									fKey;
-		Uint32									fValue;
+        Uint32									fKey = 0;
+		Uint32									fValue = 0;
     public:
         virtual EGdtfObjectType					GetObjectType();
         // Getters
-- 
2.43.0


From f2a70b5e76e5f77dcebe502ea9273abcfb72054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:37 +0000
Subject: [PATCH 47/52] fix: unresolved references of channels and macros
 crashed reading and writing

A logical channel without attribute and a macro value without channel or
channel function are reported when they are read, but naming the channel
and writing the macro used the missing object.
---
 src/GDTFManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 9cd63a1..1255843 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5661,7 +5661,7 @@ const TXString& GdtfDmxChannel::GetName()
 		TXString dmxChannelName;
 		if(fGeomRef) { dmxChannelName += fGeomRef->GetName(); }
 		dmxChannelName += "_";
-		if(fLogicalChannels.size() > 0) { dmxChannelName += fLogicalChannels[0]->GetAttribute()->GetName(); }
+		if(fLogicalChannels.size() > 0 && fLogicalChannels[0]->GetAttribute()) { dmxChannelName += fLogicalChannels[0]->GetAttribute()->GetName(); }
 		
 		this->SetName(dmxChannelName);
 
@@ -11824,7 +11824,7 @@ void SceneData::GdtfMacroDMXValue::OnPrintToFile(IXMLFileNodePtr pNode)
 	// Print the attributes
 	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrValue, GdtfConverter::ConvertDMXValue(fValue, resolution));
 	//
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, fDMXChannel->GetNodeReference() );
+	if(fDMXChannel) { pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, fDMXChannel->GetNodeReference() ); }
 }
 
 void SceneData::GdtfMacroDMXValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
@@ -12135,7 +12135,7 @@ void SceneData::GdtfMacroVisualValue::OnPrintToFile(IXMLFileNodePtr pNode)
 	//------------------------------------------------------------------------------------
 	// Print the attributes
 	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrValue, GdtfConverter::ConvertDMXValue(fDmxValue, resolution));
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fChannelFunctionRef->GetNodeReference() );
+	if(fChannelFunctionRef) { pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fChannelFunctionRef->GetNodeReference() ); }
 }
 
 void SceneData::GdtfMacroVisualValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
-- 
2.43.0


From 395f6eea45653059c9756f043d44154d041717ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:26 +0000
Subject: [PATCH 48/52] fix: NoFeature as main attribute changed the list of
 attributes while it was read

The attribute is created on demand and appended to the list that the
resolving loop walks through.
---
 src/GDTFManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 1255843..d4424d1 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8684,7 +8684,9 @@ void GdtfFixture::ResolveWheelSlots()
 
 void GdtfFixture::ResolveAttribRefs()
 {
-	for (GdtfAttributePtr attr : fAttributes)
+	// Resolving a main attribute can add the NoFeature attribute to fAttributes
+	TGdtfAttributeArray attributes = fAttributes;
+	for (GdtfAttributePtr attr : attributes)
 	{
 		if (CheckAbort()) { return; }
 		// ------------------------------------------------------------------------------------------
-- 
2.43.0


From 3216ea3c74b9d559970ec2a950d2665d626b8a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:26 +0000
Subject: [PATCH 49/52] fix: an attribute without feature lost its main
 attribute when read

---
 src/GDTFManager.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index d4424d1..e7e8765 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8715,24 +8715,25 @@ void GdtfFixture::ResolveAttribRefs()
 		// Attributes.Feature
 		GdtfFeaturePtr featPtr = nullptr;
 		TXString unresolvedFeat = attr->GetUnresolvedFeature();
-		if(unresolvedFeat.IsEmpty()) { continue; }
-
-		for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
-		{	
-			if(CheckAbort()) { return; }
-			for (GdtfFeaturePtr feat : featGrp->GetFeatureArray() )
-			{				
-				if (unresolvedFeat == feat->GetNodeReference() ) { featPtr = feat; break; }
-			}
-		}
-		ASSERTN(kEveryone, featPtr != nullptr);
-		if (featPtr != nullptr)	{ attr->SetFeature (featPtr); }
-		else
+		if( ! unresolvedFeat.IsEmpty())
 		{
-			IXMLFileNodePtr node;
-			attr->GetNode(node);
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedFeature, node);
-			SceneData::GdtfFixture::AddError(error);
+			for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
+			{	
+				if(CheckAbort()) { return; }
+				for (GdtfFeaturePtr feat : featGrp->GetFeatureArray() )
+				{				
+					if (unresolvedFeat == feat->GetNodeReference() ) { featPtr = feat; break; }
+				}
+			}
+			ASSERTN(kEveryone, featPtr != nullptr);
+			if (featPtr != nullptr)	{ attr->SetFeature (featPtr); }
+			else
+			{
+				IXMLFileNodePtr node;
+				attr->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedFeature, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
 		}
 		
 		// ------------------------------------------------------------------------------------------
-- 
2.43.0


From 90da88bca8411039606b892af4ffafa212d4919c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 50/52] fix: reporting an error without an XML element
 dereferenced null

---
 src/GdtfError.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GdtfError.cpp b/src/GdtfError.cpp
index ba2191b..71240bc 100644
--- a/src/GdtfError.cpp
+++ b/src/GdtfError.cpp
@@ -27,6 +27,12 @@ GdtfParsingError::GdtfParsingError(GdtfDefines::EGdtfParsingError type, size_t l
 GdtfParsingError::GdtfParsingError(GdtfDefines::EGdtfParsingError type, const IXMLFileNodePtr& pNode)
 {
     fErrorType          = type;
+    fLineNumber         = 0;
+    fColumn             = 0;
+
+    // There is no node when the error was not found in an XML element
+    if (!pNode) { return; }
+
     pNode->GetLineNumber(fLineNumber, fColumn);
     pNode->GetNodeName(fNodeName);
 
-- 
2.43.0


From 04bf6b2b8113c50b525d3ed9239991a7ceb160ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 51/52] fix: GetFileForGeometry of a symbol read it as a
 geometry

---
 src/Implementation/CGeometryReferenceImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Implementation/CGeometryReferenceImpl.cpp b/src/Implementation/CGeometryReferenceImpl.cpp
index 915a49d..9e55f1d 100644
--- a/src/Implementation/CGeometryReferenceImpl.cpp
+++ b/src/Implementation/CGeometryReferenceImpl.cpp
@@ -35,6 +35,10 @@ MvrString VectorworksMVR::CGeometryReferenceImpl::GetFileForGeometry()
 	ASSERTN(kEveryone,fPtr);
 	if( ! fPtr ) return nullptr;
 	
+	// Only a geometry has a file, a symbol has none
+	ASSERTN(kEveryone, ! fIsSymbol);
+	if( fIsSymbol) return "";
+	
 	// Do the actual cast
 	SceneData::SceneDataGeometryObjPtr geoObj = static_cast<SceneData::SceneDataGeometryObjPtr>(fPtr);
 	
-- 
2.43.0


From 9c9c6c8fc63942ff91f1675532958c7a980772f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:10 +0000
Subject: [PATCH 52/52] fix: an unset position or video source was handed out
 as an object without content

---
 src/Implementation/CMappingDefinitionImpl.cpp | 1 +
 src/Implementation/CSceneObjImpl.cpp          | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/Implementation/CMappingDefinitionImpl.cpp b/src/Implementation/CMappingDefinitionImpl.cpp
index c94a939..d6f5307 100644
--- a/src/Implementation/CMappingDefinitionImpl.cpp
+++ b/src/Implementation/CMappingDefinitionImpl.cpp
@@ -72,6 +72,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CMappingDefinitionImpl::GetSource(ISou
 	if( ! fPtr) return kVCOMError_NotInitialized;
 	
 	SceneData::SceneDataSourceObjPtr source = fPtr->GetSource();
+	if( ! source) return kVCOMError_NotSet;
 	
 	//---------------------------------------------------------------------------
 	// Initialize Object
diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index fb6c18b..1ca12cb 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -966,6 +966,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetPosition(IPosition**
 	ASSERTN(kEveryone, scFixture);
 	if	( scFixture == nullptr) { return kVCOMError_Failed; }
 	
+	if (! scFixture->GetPosition()) { return kVCOMError_NotSet; }
 	
 	//---------------------------------------------------------------------------
 	// Initialize Object
@@ -1930,6 +1931,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetVideoScreenSource(IS
 
 	
 	SceneData::SceneDataSourceObjPtr source = videoScreen->GetVideoSource();
+	if( ! source) return kVCOMError_NotSet;
 	
 	//---------------------------------------------------------------------------
 	// Initialize Object
@@ -2011,6 +2013,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProjectorSource(ISou
 
 	
 	SceneData::SceneDataSourceObjPtr source = projector->GetVideoSource();
+	if( ! source) return kVCOMError_NotSet;
 	
 	//---------------------------------------------------------------------------
 	// Initialize Object
-- 
2.43.0

